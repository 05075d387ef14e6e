use check::*;
use mc::run::*;

fn make(id: &str, tier: &str) -> Option<Spec> {
    let th = tier == "thorough";
    Some(match id {
        "C01" => c01::spec(th),
        "C02" => c02::spec(th),
        "C03" => c03::spec(th),
        "C04" => c04::spec(th),
        "C05" => c05::spec(th),
        "C06" => c06::spec(th),
        "C08" => c08::spec(th),
        "C11" => c11::spec(th),
        "C19" => c19::spec(th),
        "C09" => c09::spec(th),
        "C10" => c10::spec(th),
        "C07" => c07::spec(th),
        "C14" => c14::spec(th),
        "C17" => c17::spec(th),
        "C13" => c13::spec(th),
        "C15" => c15::spec(th),
        "C16" => c16::spec(th),
        "C20" => c20::spec(th),
        "C21" => c21::spec(th),
        "C22" => c22::spec(th),
        "C23" => c23::spec(th),
        "C24" => c24::spec(th),
        _ => return None,
    })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|x| x == "__c17s") {
        return steps::child(&a[2..]);
    }
    if let [_, a, seq] = &std::env::args().collect::<Vec<_>>()[..] {
        if a == "__c17" {
            return c17::child(seq);
        }
    }
    main_with(parse_args(), make)
}
