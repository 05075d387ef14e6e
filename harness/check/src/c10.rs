//! C10: strings and keys in every position, quoted exactly when necessary.
use crate::common::*;
use crate::docs::TOK;
use mc::enc::{Q, encode, key_plain, quote_value};
use mc::run::*;
use mc::space::*;
use mc::trees::words_upto;
use mc::val::*;

fn o(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect())
}
/// the string in every position of one document
fn everywhere(x: &str) -> J {
    let v = s(x);
    let a = J::Arr;
    o(vec![
        ("field", v.clone()),
        ("object", o(vec![(x, v.clone())])),
        ("inline", a(vec![v.clone(), int(1), v.clone()])),
        ("one", a(vec![v.clone()])),
        ("table", a(vec![o(vec![(x, v.clone()), ("zq", int(1))]), o(vec![("zq", v.clone()), (x, s("zq"))])])),
        ("column", a(vec![o(vec![(x, v.clone())])])),
        ("list", a(vec![v.clone(), o(vec![]), v.clone()])),
        (
            "items",
            a(vec![
                o(vec![(x, v.clone()), ("zq", v.clone()), ("zqzq", a(vec![v.clone()]))]),
                o(vec![(x, a(vec![v.clone(), v.clone()])), ("zq", o(vec![(x, o(vec![(x, v.clone())]))]))]),
                o(vec![(x, o(vec![("zq", v.clone())]))]),
                o(vec![(x, a(vec![o(vec![(x, v.clone())]), o(vec![(x, int(2))])]))]),
                a(vec![v.clone(), v.clone()]),
                a(vec![v.clone(), a(vec![v.clone()])]),
            ]),
        ),
        ("nested", o(vec![("zq", o(vec![(x, a(vec![o(vec![(x, a(vec![]))]), v.clone()]))]))])),
    ])
}
/// the encoded token that stands for the string at the root, and its verdict
fn check(cx: &mut Cx, x: &str, j: &J, root: bool, d: char, indent: usize) {
    let op = Opt { delim: d, indent, ..BASE };
    let q = quote_value(x, d);
    let r = enc(cx, j, &op.o());
    cx.evals += 1;
    let t = match r {
        Ok(t) => t,
        Err(e) => {
            cx.fail(format!("encode {} {}", op.s(), tag(&j.json())), &[("value", tag(&j.json())), ("options", op.s()), ("error", e)]);
            return;
        }
    };
    if root {
        cx.cat(match q {
            Q::Must => "value must be quoted",
            Q::MustNot => "value must not be quoted",
            Q::Either => "quoting left open",
        });
        cx.cat(if key_plain(x) { "key plain" } else { "key quoted" });
    }
    cx.outcome(&t);
    if q != Q::Either {
        let want = encode(j, op.e());
        if t != want {
            cx.fail(format!("text {} {}", op.s(), tag(&j.json())), &[("value", tag(&j.json())), ("options", op.s()), ("expected", tag(&want)), ("encoded", tag(&t))]);
        }
    }
    for st in [true, false] {
        let r = dec(cx, &t, &op.strict(st).o());
        cx.evals += 1;
        if !matches!(&r, Ok(y) if y.same(j)) {
            cx.fail(
                format!("decode {} {}", op.strict(st).s(), tag(&j.json())),
                &[("value", tag(&j.json())), ("options", op.strict(st).s()), ("text", tag(&t)), ("decoded", tag(&show(&r)))],
            );
        }
    }
}
fn string(cx: &mut Cx, x: &str) {
    string_in(cx, x, None)
}
fn string_in(cx: &mut Cx, x: &str, only: Option<usize>) {
    let (r, e) = (s(x), everywhere(x));
    for (k, d) in DELIMS.into_iter().enumerate() {
        if only.is_some_and(|o| o != k) {
            continue;
        }
        check(cx, x, &r, true, d, 2);
        check(cx, x, &e, false, d, [2, 1, 3][k]);
    }
    cx.sample(|| format!("{:?} in every position", x));
}
fn context(c: char, k: u64) -> String {
    match k {
        0 => c.to_string(),
        1 => format!("a{}b", c),
        2 => format!("{}a", c),
        3 => format!("a{}", c),
        4 => format!("{}{}", c, c),
        5 => format!("a {} b", c),
        6 => format!("\"{}", c),
        7 => format!("5{}", c),
        8 => format!("{}5", c),
        9 => format!("\\{}", c),
        10 => format!("true{}", c),
        _ => format!("a.{}", c),
    }
}

const BASES: [char; 14] = ['a', ' ', '"', '\\', ',', '|', '\t', '\n', 'é', '😀', '1', '.', '-', '\u{1}'];
pub fn spec(th: bool) -> Spec {
    let mut fams = Vec::new();
    let low = 0x3100u64;
    fams.push(Fam::new("low code points", low * 12, "every code point below U+3100 in 12 contexts (alone, inside, at either end, doubled, after a quote, a digit, a backslash, a literal, a dot) in all positions", move |i, cx| {
        string(cx, &context(cp(i / 12), i % 12));
    }));
    let k = if th { 8 } else { 2 };
    fams.push(Fam::new("code points", CP_COUNT * k, "every Unicode scalar value, alone and inside a word (thorough: 8 contexts), in all positions, under one delimiter (thorough: all three)", move |i, cx| {
        let only = if th { None } else { Some((i / k + i % k) as usize % 3) };
        string_in(cx, &context(cp(i / k), i % k), only);
    }));
    let wl = if th { 5 } else { 4 };
    fams.push(Fam::new("words", words_upto(TOK.len(), wl), &format!("every string of up to {} characters over 20 significant characters in all positions", wl), move |i, cx| string(cx, &chars_word(i, &TOK, wl))));
    const B: [char; 8] = ['a', '.', '_', '1', '-', 'é', ' ', 'Z'];
    let kl = if th { 6 } else { 5 };
    fams.push(Fam::new("identifiers", words_upto(B.len(), kl), &format!("every string of up to {} characters over 8 characters that may make or spoil an identifier", kl), move |i, cx| string(cx, &chars_word(i, &B, kl))));
    const N: [char; 8] = ['0', '1', '.', 'e', 'E', '-', '+', 'a'];
    let nl = if th { 7 } else { 5 };
    fams.push(Fam::new("number look-alikes", words_upto(N.len(), nl), &format!("every string of up to {} characters over number characters", nl), move |i, cx| string(cx, &chars_word(i, &N, nl))));
    let lits = ["true", "false", "null"];
    let mut near: Vec<String> = vec![];
    for l in lits {
        for i in 0..=l.len() {
            near.push(l[..i].into());
            near.push(l[i..].into());
            for c in TOK.iter().chain(&['x', 'T', 'é', '\u{a0}', '\u{0}']) {
                near.push(format!("{}{}{}", &l[..i], c, &l[i..]));
                if i < l.len() {
                    near.push(format!("{}{}{}", &l[..i], c, &l[i + 1..]));
                }
            }
            if i < l.len() {
                near.push(format!("{}{}{}", &l[..i], l[i..i + 1].to_uppercase(), &l[i + 1..]));
            }
        }
        near.push(l.to_uppercase());
    }
    fams.push(Fam::new("literal look-alikes", near.len() as u64, "true, false, null at edit distance up to one over 25 characters", move |i, cx| string(cx, &near[i as usize])));
    let st = strings();
    let n = st.len() as u64;
    fams.push(Fam::new("pairs", n * n, "every ordered pair of ~270 special strings joined, with a space, and in neighbouring cells, keys and values", move |i, cx| {
        let (a, b) = (&st[(i / n) as usize], &st[(i % n) as usize]);
        string(cx, &format!("{}{}", a, b));
        if a != b {
            let v = o(vec![
                ("l", J::Arr(vec![s(a), s(b)])),
                ("t", J::Arr(vec![J::Obj(vec![(a.clone(), s(b)), (b.clone(), s(a))])])),
                ("m", J::Arr(vec![J::Obj(vec![(a.clone(), s(b)), (b.clone(), J::Arr(vec![]))]), s(a)])),
                ("o", J::Obj(vec![(a.clone(), J::Obj(vec![(b.clone(), s(a))])), (b.clone(), s(b))])),
            ]);
            for d in DELIMS {
                let x = if quote_value(a, d) == Q::Either { a } else { b };
                check(cx, x, &v, false, d, 2);
            }
        }
    }));
    let st = strings();
    fams.push(Fam::new("positions", st.len() as u64 * (POSITIONS + KEY_POSITIONS), "~270 special strings in 16 value and 9 key positions x 3 delimiters x 5 indentations", move |i, cx| {
        let p = i % (POSITIONS + KEY_POSITIONS);
        let x = &st[(i / (POSITIONS + KEY_POSITIONS)) as usize];
        let j = if p < POSITIONS { place(s(x), p) } else { place_key(x, p - POSITIONS) };
        for d in DELIMS {
            for ind in INDENTS {
                check(cx, x, &j, false, d, ind);
            }
        }
    }));
    fams.push(Fam::new("long", 600 * 14, "strings of length 1..600 made of one character (14 kinds): plain, and with an odd one at the front, in the middle and at the end", |i, cx| {
        let n = (i / 14) as usize + 1;
        let c = BASES[(i % 14) as usize];
        string_in(cx, &c.to_string().repeat(n), Some(n % 3));
        for (k, (at, x)) in [(0, 'x'), (n / 2, '"'), (n - 1, ',')].into_iter().enumerate() {
            let mut v: Vec<char> = vec![c; n];
            v[at] = if n % 7 == 0 { [',', '|', '\t', '\\', '\n', ' ', ':', '\u{2}'][(n / 7 + k) % 8] } else { x };
            string_in(cx, &v.into_iter().collect::<String>(), Some((n + k) % 3));
        }
    }));
    const LENS: [usize; 18] = [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 8193, 65537];
    const ODD: [char; 10] = ['"', ',', '|', '\t', '\\', '\n', ' ', ':', '\u{2}', 'é'];
    fams.push(Fam::new("long with one odd character", (LENS.len() * 10 * 6 * 3) as u64, "strings of 18 lengths up to 65537 of letters, digits or two-byte characters with one of 10 odd characters at the first, second, a third, the middle, last but one, last place", |i, cx| {
        let (c, i) = (['a', '1', 'é'][(i % 3) as usize], i as usize / 3);
        let (p, i) = (i % 6, i / 6);
        let (x, n) = (ODD[i % 10], LENS[i / 10]);
        let at = [0, 1, n / 3, n / 2, n - 2, n - 1][p];
        let mut v: Vec<char> = vec![c; n];
        v[at] = x;
        let v: String = v.into_iter().collect();
        if n > 2000 {
            for (k, d) in DELIMS.into_iter().enumerate() {
                if k == i % 3 || x == d {
                    check(cx, &v, &s(&v), true, d, 2);
                    check(cx, &v, &place_key(&v, (p as u64) % KEY_POSITIONS), false, d, 2);
                    check(cx, &v, &place(s(&v), [3, 5, 15][p % 3]), false, d, 2);
                }
            }
        } else {
            string(cx, &v);
        }
    }));
    Spec {
        id: "C10".into(),
        level: "model_checking",
        rule: "state = one string; placed at the root and in 25+ positions of one document under 3 delimiters; the text equals the reference text (so the quoting decision is right both ways) and decodes, strict and lenient, to the same value with string type; strings whose quoting the rules leave open are only round-tripped".into(),
        fams,
        assumptions: vec!["quoting is left open for: spellings that only looser float grammars accept, other Unicode white space at the ends, C1 controls, a leading '@'".into()],
    }
}
