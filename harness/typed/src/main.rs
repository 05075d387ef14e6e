mod c12;
mod c18;
use mc::run::*;

fn main() {
    main_with(parse_args(), |id, tier| match id {
        "C12" => Some(c12::spec(tier == "thorough")),
        "C18" => Some(c18::spec(tier == "thorough")),
        _ => None,
    })
}
