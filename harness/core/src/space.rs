//! The bounded spaces of JSON values that several properties share.
use crate::trees::{Trees, word, word_upto, words_upto};
use crate::val::*;
use std::sync::Arc;

#[derive(Clone)]
pub struct VF {
    pub name: &'static str,
    pub n: u64,
    pub what: String,
    /// small spaces get the full option product, large ones a reduced one
    pub size: u8,
    pub r#gen: Arc<dyn Fn(u64) -> J + Send + Sync>,
}

fn vf(name: &'static str, n: u64, size: u8, what: &str, g: impl Fn(u64) -> J + Send + Sync + 'static) -> VF {
    VF { name, n, what: what.into(), size, r#gen: Arc::new(g) }
}
fn o(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect())
}
fn a(v: Vec<J>) -> J {
    J::Arr(v)
}

/// every syntactic position a value can take
pub const POSITIONS: u64 = 16;
pub fn place(v: J, p: u64) -> J {
    match p {
        0 => v,
        1 => o(vec![("k", v)]),
        2 => o(vec![("k", v), ("z", int(9))]),
        3 => o(vec![("p", int(1)), ("k", v), ("z", int(9))]),
        4 => a(vec![v]),
        5 => a(vec![int(1), v, int(2)]),
        6 => a(vec![v.clone(), v]),
        7 => a(vec![o(vec![("k", v)])]),
        8 => a(vec![o(vec![("k", v), ("z", a(vec![]))]), int(3)]),
        9 => a(vec![o(vec![("p", a(vec![])), ("k", v), ("z", o(vec![]))]), o(vec![])]),
        10 => o(vec![("o", o(vec![("k", v)])), ("z", int(9))]),
        11 => o(vec![("l", a(vec![v, o(vec![])])), ("z", int(9))]),
        12 => o(vec![("l", a(vec![o(vec![("k", v.clone())]), o(vec![("k", v)])])), ("z", s("y"))]),
        13 => a(vec![a(vec![v, a(vec![])]), int(1)]),
        14 => o(vec![("l", a(vec![o(vec![("p", o(vec![("k", v)])), ("q", int(1))]), int(5)]))]),
        _ => o(vec![("t", a(vec![o(vec![("p", int(1)), ("k", v.clone())]), o(vec![("k", v), ("p", int(2))])]))]),
    }
}
/// positions of an object key
pub const KEY_POSITIONS: u64 = 9;
pub fn place_key(k: &str, p: u64) -> J {
    match p {
        0 => o(vec![(k, int(1))]),
        1 => o(vec![(k, o(vec![(k, s("v"))]))]),
        2 => o(vec![(k, a(vec![int(1), int(2)]))]),
        3 => o(vec![(k, a(vec![o(vec![(k, int(1))]), o(vec![(k, int(2))])]))]),
        4 => a(vec![o(vec![(k, a(vec![a(vec![int(1)])])), ("zz", int(1))])]),
        5 => a(vec![o(vec![(k, int(1)), ("zz", a(vec![]))])]),
        6 => o(vec![("zz", int(1)), (k, o(vec![]))]),
        7 => a(vec![o(vec![(k, a(vec![o(vec![("zz", int(1)), (k, s("y"))])])), ("zz", int(1))])]),
        _ => a(vec![o(vec![("zz", a(vec![])), (k, o(vec![(k, a(vec![]))]))])]),
    }
}

/// strings that exercise one rule of the format each
pub fn strings() -> Vec<String> {
    let mut v: Vec<String> = [
        "", " ", "  ", "a", "ab", "a b", " a", "a ", "\t", "\ta", "a\t", "a\tb", "\n", "a\nb", "a\n", "\r", "\r\n", "a\rb", "-", "--", "- ", "- a", "-a",
        "-1", "-0", "-x", "+1", "+", "1", "0", "00", "01", "-01", "007", "1.0", "1.5", ".5", "5.", "-.5", "1e5", "1E5", "1e+5", "1e-5", "e5", "1e", "0x10", "1_000",
        "1,000", "1 2", "true", "false", "null", "True", "TRUE", "Null", "nul", "truex", "xtrue", "inf", "-inf", "Infinity", "NaN", "nan", "infinity", ":", "a:", ":a",
        "a:b", "a: b", "http://x.y/z?q=1", ",", "a,b", "|", "a|b", "a\tb|c,d", "[", "]", "[]", "[1]", "[0]:", "[2]: a", "a[1]", "a[2]: x", "a[1]{b}:", "{", "}", "{}",
        "{0}", "{a}", "{a}:", "@", "@,", "@x", "@ a", "@é", "#", "# a", "#1", "\"", "\"a\"", "a\"b", "\"\"", "'", "'a'", "\\", "\\n", "a\\b", "\\\"", "\\u0041", "\u{0}",
        "\u{1}", "\u{7}", "\u{8}", "\u{b}", "\u{c}", "\u{1f}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{a0}a", "a\u{a0}", "é", "日本", "😀", "a😀b", "\u{200b}", "\u{200b}a.b", "\u{feff}",
        "\u{feff}a", "\u{2028}", "\u{2029}x", "\u{3000}", "e\u{301}", "\u{202e}x", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "a.b", ".", "..", "a.", ".a", "a..b", "a.b.c", "1.a", "a.1", "_", "_a", "a_1", "A-b", "a-b", "a/b",
        "a=b", "~", "!", "%", "&", "*", "(", ")", ";", "?", "<", ">", "^", "`", "$", "a, b", "a ,b", "x: 1\ny: 2", "- 1\n- 2", "key:", "\u{a0}5", "5\u{a0}", "1e400", "-1e400", "18446744073709551616",
        "99999999999999999999999", "0.1", "0.10", "1e0", "0e0", "-0.0", "1.", "1e5.5", "1-2", "2024-01-01", "2024-01-01T00:00:00Z", "12:30", "1.2.3", "1/2", "50%", "$5", "a\\", "a\"", "\"a", "null ", " true",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push("x".repeat(300));
    v.push("é".repeat(130));
    v.push(format!("{}{}", "y".repeat(64), ","));
    v.push(format!("{}\"", "z".repeat(70)));
    v.push("a,".repeat(40));
    v
}

/// Texts that some reader might take for something else than a string (or the other way round).
pub fn spellings() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for w in ["true", "false", "null"] {
        for m in 0u32..1 << w.len() {
            v.push(w.chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect());
        }
    }
    for w in [
        "yes", "no", "on", "off", "y", "n", "t", "f", "T", "F", "Yes", "NO", "undefined", "none", "None", "nil", "Nil", "NULL ", "void", "~", "NaN", "nan", "NAN", ".nan", "Infinity", "-Infinity", "+Infinity", "inf", "-inf", "+inf", "Inf",
        ".inf", "0b1", "0o7", "0x1F", "0xg", "1f", "1.5f", "1d", "1L", "1u", "10n", "1_000", "1'000", "1 000", "1,5", "1.000,5", "٣", "１", "²", "½", "Ⅷ", "1e5", "1E5", "1e+5", "1e-5", "1E+05", "1e", "1e+", "e1", ".5", "5.", "-.5", "-5.",
        "+5", "++5", "--5", "-", "+", "-0", "-0.0", "-00", "+0", "00", "0.0", "0.10", "01", "-01", "01.5", "0e1", "0e-0", "00e1", "1.e5", "1.5.2", "1..5", "1e5e5", "1e5.5", "1-2", "1+2", "1/2", "1:2", "1h", "50%", "$5", "5€", "#5", "2024-01-01",
        "12:30:00", "2024-01-01T00:00:00Z", "1.2.3.4", "::1", "'x'", "`x`", "\"x", "x\"", "\"x\"y", "x\"y\"", "\"\"\"\"", "\"x\" ", "\\", "\\n", "\\u0041", "\"\\u0041\"", "\"\\x41\"", "\"\\/\"", "&amp;", "%20", "a\u{a0}", "\u{a0}", "\u{feff}1",
        "1\u{a0}", "\u{2212}1", "𝟙", "[]", "{}", "[ ]", "{ }", "[1]", "{a}", "[1,2]", "{a:1}", "(1)", "<a>", "a=b", "a = b", "a ,b", "a|b", "@", "@a", "@,", "@, a", "*a", "&a", "!a", "!!str 5", "?", "? a", "| a", "> a", "# a", "a #b", "a # b", "a // b", "a; b", "a -- b", "a,", ",a", "a|", "|a", "1 # b", "true #", "// a", "/* a */", "-- a", "---",
        "...", "- a", "-a", "a-", "a -", ":", "a:", ":a", "::", "a::b", "http://x", "a.b", "a..b", ".a", "a.", "_", "true1", "1true", "truefalse", "nulla", "anull", "tru", "nul", "fals", "true true", "null,", "9223372036854775807", "9223372036854775808",
        "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "0.30000000000000004", "1e308", "1e309", "-1e309", "5e-324", "1e-400", "123456789012345678901234567890", "0.000000000000000000001",
    ] {
        v.push(w.to_string());
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

pub fn numbers() -> Vec<J> {
    let mut v = Vec::new();
    for i in [0u64, 1, 2, 9, 10, 11, 99, 100, 255, 256, 65535, 1 << 31, 1 << 32, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX] {
        v.push(J::Num(N::U(i)));
    }
    for i in [-1i64, -2, -10, -100, -(1 << 31), -(1 << 53) - 1, i64::MIN + 1, i64::MIN] {
        v.push(J::Num(N::I(i)));
    }
    for x in [
        0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.1, 1.5, 100.0, 100.5, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 1e100, 1e300, -1e20, -1e300, 1e-5, 1e-6, 1e-7, 1e-10, 1e-100, 1e-300, 5e-324, 2.2250738585072014e-308,
        1.7976931348623157e308, -1.7976931348623157e308, 3.141592653589793, 123456789.125, 9007199254740993.0, 18446744073709551615.0, 18446744073709553664.0, 9223372036854775808.0, -9223372036854775808.0, 0.30000000000000004, 1.0000000000000002, 123456.789e3, 4.35, 0.000001234, 1e1, 12e1,
    ] {
        v.push(f(x));
    }
    v
}

fn leafs() -> Vec<J> {
    vec![
        int(1),
        o(vec![]),
        a(vec![]),
        a(vec![int(1), s("x")]),
        a(vec![o(vec![("x", int(1)), ("y", s("q"))]), o(vec![("x", int(2)), ("y", J::Null)])]),
        a(vec![o(vec![])]),
        a(vec![a(vec![]), o(vec![("x", int(1))])]),
        o(vec![("x", int(1))]),
    ]
}
/// one container around `v`
pub const WRAPS: usize = 8;
pub fn wrap(v: J, w: usize) -> J {
    match w {
        0 => o(vec![("a", v)]),
        1 => o(vec![("p", s("u")), ("a", v)]),
        2 => o(vec![("a", v), ("q", int(7))]),
        3 => a(vec![v]),
        4 => a(vec![int(1), v]),
        5 => a(vec![v, s("w")]),
        6 => o(vec![("a", v), ("q", o(vec![]))]),
        _ => a(vec![v, a(vec![a(vec![])])]),
    }
}
fn shapes() -> Vec<J> {
    let mut v = leafs();
    v.push(s("t"));
    v.push(J::Null);
    v.push(o(vec![("x", o(vec![])), ("y", int(1))]));
    v.push(a(vec![a(vec![int(1), int(2)])]));
    v.push(o(vec![("x", a(vec![o(vec![("y", int(1))])]))]));
    v
}

pub fn table_case(i: u64) -> J {
    // three rows; each row one of 16 ordered subsets of {a,b,c}; one variant; position
    const SUBS: [&str; 16] = ["", "a", "b", "c", "ab", "ba", "ac", "ca", "bc", "cb", "abc", "acb", "bac", "bca", "cab", "cba"];
    let mut i = i;
    let mut take = |n: u64| {
        let r = i % n;
        i /= n;
        r
    };
    let r = [take(16), take(16), take(16)];
    let var = take(6);
    let pos = take(5);
    let mut rows = Vec::new();
    for (ri, sub) in r.iter().enumerate() {
        let mut m = Vec::new();
        for (ci, c) in SUBS[*sub as usize].chars().enumerate() {
            let v = match (var, ri, ci) {
                (1, 1, 0) => a(vec![]),
                (2, 2, 1) => o(vec![]),
                (3, 0, 0) => a(vec![int(1)]),
                (4, _, _) => [J::Null, J::Bool(true), J::Bool(false)][(ri + ci) % 3].clone(),
                (5, _, _) => [s(""), s("a,b|c\td"), s("5")][(ri + ci) % 3].clone(),
                _ => {
                    if (ri + ci) % 2 == 0 {
                        int((ri * 10 + ci) as i64)
                    } else {
                        s("x")
                    }
                }
            };
            m.push((c.to_string(), v));
        }
        rows.push(J::Obj(m));
    }
    let t = J::Arr(rows);
    place(t, [0, 2, 4, 8, 9][pos as usize])
}
pub const TABLE_CASES: u64 = 16 * 16 * 16 * 6 * 5;

pub fn length_list(thorough: bool) -> Vec<usize> {
    let mut l: Vec<usize> = (0..=132).collect();
    l.extend([199, 200, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1024]);
    if thorough {
        l.extend([2048, 4095, 4096, 4097, 9999, 10000, 10001, 65535, 65536, 65537, 100000]);
    }
    l
}
pub const LENGTH_KINDS: u64 = 11;
pub fn length_case(len: usize, kind: u64) -> J {
    let key = |i: usize| format!("k{}", i);
    match kind {
        0 => J::Arr((0..len).map(|i| int(i as i64)).collect()),
        1 => J::Arr((0..len).map(|i| s(&format!("v{}", i))).collect()),
        2 => J::Arr((0..len).map(|i| o(vec![("id", int(i as i64)), ("n", s("x,y"))])).collect()),
        3 => J::Arr(vec![J::Obj((0..len.min(400)).map(|i| (key(i), int(i as i64))).collect()), J::Obj((0..len.min(400)).rev().map(|i| (key(i), int(1))).collect())]),
        4 => J::Arr((0..len).map(|i| if i % 2 == 0 { a(vec![int(i as i64)]) } else { o(vec![]) }).collect()),
        5 => J::Obj((0..len).map(|i| (key(i), int(i as i64))).collect()),
        6 => J::Obj((0..len).map(|i| (key(i), if i % 3 == 0 { o(vec![]) } else { o(vec![("x", int(1))]) })).collect()),
        7 => J::Arr((0..len).map(|i| o(vec![("x", a(vec![int(i as i64)])), ("y", int(2))])).collect()),
        8 => s(&"s ".repeat(len).trim_end()),
        9 => s(&"q\"".repeat(len)),
        _ => {
            // nesting depth `len` (capped), alternating containers
            let mut v = int(1);
            for i in 0..len.min(60) {
                v = if i % 2 == 0 { o(vec![("d", v)]) } else { a(vec![v, int(2)]) };
            }
            v
        }
    }
}

/// long uniform containers in which exactly one member is unlike the others
pub const ODD_LENS: [usize; 26] = [2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 128, 129, 257, 513];
pub const ODD_BASES: u64 = 9;
pub const ODD_KINDS: u64 = 16;
pub const ODD_PLACES: u64 = 6;
fn odd_base(b: u64, i: usize) -> J {
    match b {
        0 => int(i as i64),
        1 => s(&format!("v{}", i)),
        2 | 7 => o(vec![("id", int(i as i64)), ("n", s("w"))]),
        3 => J::Obj((0..9).map(|c| (format!("c{}", c), int((i + c) as i64))).collect()),
        4 => a(vec![int(i as i64), s("u")]),
        5 => o(vec![("x", a(vec![int(i as i64)])), ("y", int(2))]),
        6 | 8 => int(i as i64),
        _ => unreachable!(),
    }
}
fn odd_member(k: u64, v: J) -> J {
    let odd = "a,b\"c|d\te\nf: [1]";
    match (k, v) {
        (0, _) => J::Null,
        (1, _) => a(vec![]),
        (2, _) => a(vec![a(vec![int(1)]), o(vec![("x", s("y"))])]),
        (3, _) => o(vec![]),
        (4, _) => o(vec![("x", int(1))]),
        (5, _) => s(odd),
        (6, _) => s("5"),
        (7, _) => a(vec![o(vec![("x", int(1)), ("y", int(2))])]),
        (8, J::Obj(mut m)) => {
            m.pop();
            J::Obj(m)
        }
        (9, J::Obj(mut m)) => {
            m.push(("extra".into(), int(1)));
            J::Obj(m)
        }
        (10, J::Obj(mut m)) => {
            m.reverse();
            J::Obj(m)
        }
        (11, J::Obj(mut m)) => {
            m[0].1 = a(vec![]);
            J::Obj(m)
        }
        (12, J::Obj(mut m)) => {
            m.last_mut().unwrap().1 = o(vec![]);
            J::Obj(m)
        }
        (13, J::Obj(mut m)) => {
            m.last_mut().unwrap().1 = s(odd);
            J::Obj(m)
        }
        (14, J::Obj(mut m)) => {
            m[0].0 = "x y".into();
            J::Obj(m)
        }
        (15, J::Obj(mut m)) => {
            let last = m.len() - 1;
            m[last].1 = s("");
            m[0].1 = J::Null;
            J::Obj(m)
        }
        (8, _) => s(""),
        (9, _) => s(" x"),
        (10, _) => s("- a"),
        (11, _) => s("true"),
        (12, _) => f(-1.5e-7),
        (13, _) => s(&"é".repeat(300)),
        (14, _) => J::Bool(false),
        (_, _) => J::Num(N::U(u64::MAX)),
    }
}
fn odd_parts(i: u64) -> (u64, u64, usize, u64, usize, bool) {
    let mut i = i;
    let mut take = |n: u64| {
        let r = i % n;
        i /= n;
        r
    };
    let (pos, k, pl, b, l) = (take(3), take(ODD_KINDS), take(ODD_PLACES), take(ODD_BASES), take(ODD_LENS.len() as u64));
    let len = ODD_LENS[l as usize];
    let at = match pl {
        0 => 0,
        1 => 1,
        2 => len / 2,
        3 => len - 2,
        4 => len - 1,
        _ => len * 3 / 4,
    };
    // each index once
    let again = [0, 1, len / 2, len - 2, len - 1].iter().take(pl as usize).any(|x| *x == at);
    (pos, k, at, b, len, !again)
}
fn odd_place_exists(i: u64) -> bool {
    odd_parts(i).5
}
pub fn odd_case(i: u64) -> J {
    let (pos, k, at, b, len, _) = odd_parts(i);
    let mut m: Vec<J> = (0..len).map(|j| odd_base(b, j)).collect();
    m[at] = odd_member(k, m[at].clone());
    let v = match b {
        6..=8 => J::Obj(
            m.into_iter()
                .enumerate()
                .map(|(j, v)| (if b == 8 && j == at { ["x y", "", "a.b", "5", "a:b", "a\nb", "-", "a,b", "#", "é", "true", "a[1]", "{a}", "q\"", "\\", "x|y"][k as usize].to_string() } else { format!("k{}", j) }, v))
                .collect(),
        ),
        _ => J::Arr(m),
    };
    place(v, [2, 4, 8][pos as usize])
}
pub const ODD_CASES: u64 = 3 * ODD_KINDS * ODD_PLACES * ODD_BASES * ODD_LENS.len() as u64;

const TWIN_CHARS: [char; 8] = ['Q', '7', ' ', ',', '"', ':', '.', 'é'];
pub const TWIN_ROLES: u64 = 7;
/// pairs of texts of the same number of characters that differ in one: (text, twin)
pub fn twins() -> Vec<(String, String)> {
    let mut r = Vec::new();
    for len in [1, 2, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 64, 65, 200] {
        let base: Vec<char> = (0..len).map(|i| "abcde_fghij".chars().nth(i % 11).unwrap()).collect();
        let mut at: Vec<usize> = if len <= 33 { (0..len).collect() } else { vec![0, 1, 3, 4, 7, 8, 15, 16, 31, 32, len / 2, len - 17, len - 9, len - 8, len - 5, len - 4, len - 2, len - 1] };
        at.sort();
        at.dedup();
        for p in at {
            for c in TWIN_CHARS {
                let mut w = base.clone();
                w[p] = c;
                r.push((base.iter().collect(), w.into_iter().collect()));
            }
        }
    }
    r
}
/// both texts of a pair in one value
pub fn twin_case(x: &str, y: &str, role: u64) -> J {
    match role {
        0 => a(vec![s(x), s(y), s(x)]),
        1 => o(vec![(x, int(1)), (y, int(2))]),
        2 => o(vec![("t", a(vec![o(vec![(x, int(1)), (y, int(2))]), o(vec![(x, int(3)), (y, int(4))])]))]),
        3 => o(vec![("t", a(vec![o(vec![("p", s(x)), ("q", s(y))]), o(vec![("p", s(y)), ("q", s(x))])]))]),
        4 => o(vec![(x, o(vec![(y, o(vec![(x, int(1))]))])), (y, o(vec![(x, s(y))]))]),
        5 => a(vec![o(vec![(x, int(1))]), o(vec![(y, int(1))])]),
        _ => o(vec![("a", o(vec![(x, s(y))])), ("b", o(vec![(y, s(x))])), ("c", a(vec![a(vec![s(y)]), o(vec![(x, a(vec![s(y)])), (y, s(x))])]))]),
    }
}

const FIELD_KEYS: [&str; 18] = ["a", "", "x y", "a.b", "5", "-", "a:b", "a,b|c\td", "é", "true", "[2]", "{x}", "q\"", "n\nl", "#", "\\", "a[1]", "_"];
pub const SIZES: [usize; 12] = [2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 32768, 65535, 65536, 65537];

pub fn families(thorough: bool) -> Vec<VF> {
    let mut r = Vec::new();
    let tmax = if thorough { 8 } else { 7 };
    let tr = Arc::new(Trees::new(vec![int(1), s("x")], &["a", "b", "c", "d", "e", "f", "g", "h"], tmax, true));
    let t1 = tr.clone();
    r.push(vf("trees6", tr.count_upto(6), 0, "all JSON trees with at most 6 nodes over {1, \"x\", [], {}}", move |i| t1.upto(i, 6)));
    for n in 7..=tmax {
        let t2 = tr.clone();
        r.push(vf(
            if n == 7 { "trees7" } else { "trees8" },
            tr.count(n),
            2,
            &format!("all JSON trees with exactly {} nodes over {{1, \"x\", [], {{}}}}", n),
            move |i| t2.tree(n, i),
        ));
    }
    r.push(vf("tables", TABLE_CASES, 1, "3-row arrays over all ordered key subsets of {a,b,c}, 6 cell variants, 5 positions", table_case));
    let st = Arc::new(strings());
    let (s1, s2) = (st.clone(), st.clone());
    r.push(vf("strings", st.len() as u64 * POSITIONS, 0, "special strings in every value position", move |i| {
        place(J::Str(s1[(i / POSITIONS) as usize].clone()), i % POSITIONS)
    }));
    r.push(vf("keys", st.len() as u64 * KEY_POSITIONS, 0, "special strings in every key position", move |i| {
        place_key(&s2[(i / KEY_POSITIONS) as usize], i % KEY_POSITIONS)
    }));
    const CELL: [char; 8] = ['\\', '"', ',', '|', '\t', ' ', 'x', '\n'];
    let cn = words_upto(CELL.len(), 2);
    r.push(vf("cells", cn * cn * 6, 1, "every pair of strings of up to 2 characters over backslash, quote, delimiters, space, newline, letter: neighbours in inline arrays, rows, headers, fields", move |i| {
        let (p, i) = (i % 6, i / 6);
        let (x, y) = (chars_word(i % cn, &CELL, 2), chars_word(i / cn, &CELL, 2));
        match p {
            0 => o(vec![("k", a(vec![s(&x), s(&y), s(&x)]))]),
            1 => a(vec![s(&y), s(&x)]),
            2 => o(vec![("t", a(vec![o(vec![("p", s(&x)), ("q", s(&y))]), o(vec![("p", s(&y)), ("q", s(&x))])]))]),
            3 => o(vec![("t", a(vec![o(vec![(&x, int(1)), (&format!("{}y", y), int(2))]), o(vec![(&x, int(3)), (&format!("{}y", y), int(4))])])), ("z", int(1))]),
            4 => o(vec![(&x, s(&y)), (&format!("{}x{}", x, y), a(vec![s(&x), s(&y)]))]),
            _ => a(vec![a(vec![s(&x), s(&y)]), o(vec![(&x, a(vec![s(&y)])), (&format!("{}z", y), s(&x))])]),
        }
    }));
    let nums = Arc::new(numbers());
    r.push(vf("numbers", nums.len() as u64 * POSITIONS, 0, "boundary numbers in every value position", move |i| {
        place(nums[(i / POSITIONS) as usize].clone(), i % POSITIONS)
    }));
    let ll = Arc::new(length_list(thorough));
    r.push(vf("lengths", ll.len() as u64 * LENGTH_KINDS * 4, 1, "containers and strings of every length 0..132 and around powers, 11 kinds, 4 positions", move |i| {
        let pos = [0, 2, 4, 8][(i % 4) as usize];
        let k = (i / 4) % LENGTH_KINDS;
        let len = ll[(i / 4 / LENGTH_KINDS) as usize];
        place(length_case(len, k), pos)
    }));
    // the index lists the cases that exist
    let od: Arc<Vec<u64>> = Arc::new((0..ODD_CASES).filter(|i| odd_place_exists(*i)).collect());
    r.push(vf("odd-one", od.len() as u64, 2, "arrays, tables, lists and objects of 26 lengths up to 513 in which exactly one member (first, second, middle, three quarters, last but one, last) deviates in one of 16 ways; 9 kinds, 3 positions", move |i| odd_case(od[i as usize])));
    let sh = Arc::new(shapes());
    let fl = sh.len() as u64;
    r.push(vf("fields", FIELD_KEYS.len() as u64 * fl * 2 * POSITIONS, 1, "18 kinds of keys with values of 13 shapes, alone or between siblings, in every position", move |i| {
        let (p, i) = (i % POSITIONS, i / POSITIONS);
        let (alone, i) = (i % 2 == 0, i / 2);
        let (v, k) = (sh[(i % fl) as usize].clone(), FIELD_KEYS[(i / fl) as usize]);
        place(if alone { o(vec![(k, v)]) } else { o(vec![("p", int(1)), (k, v), ("z", s("q"))]) }, p)
    }));
    let tw = Arc::new(twins());
    r.push(vf("twins", tw.len() as u64 * TWIN_ROLES, 1, "two texts of 1 to 200 characters that differ in one character, in 7 arrangements within one value", move |i| {
        let (x, y) = &tw[(i / TWIN_ROLES) as usize];
        twin_case(x, y, i % TWIN_ROLES)
    }));
    let sp = Arc::new(spellings());
    r.push(vf("spellings", sp.len() as u64 * (POSITIONS + KEY_POSITIONS), 1, "texts that a reader might take for a literal, a number or syntax, as strings and keys in every position", move |i| {
        let (x, p) = (&sp[(i / (POSITIONS + KEY_POSITIONS)) as usize], i % (POSITIONS + KEY_POSITIONS));
        if p < POSITIONS { place(J::Str(x.clone()), p) } else { place_key(x, p - POSITIONS) }
    }));
    const SK: [u64; 6] = [0, 1, 2, 5, 8, 9];
    r.push(vf("sizes", SIZES.len() as u64 * 6, 3, "arrays, tables, objects and strings of 12 sizes from 2047 to 65537 (objects up to 10000)", |i| {
        let (len, k) = (SIZES[(i / 6) as usize], SK[(i % 6) as usize]);
        place(length_case(if k == 5 { len.min(10000 + len % 7) } else { len }, k), if i % 4 == 1 { 8 } else { 2 })
    }));
    let lv = Arc::new(leafs());
    let depth = if thorough { 6 } else { 5 };
    let wn = words_upto(WRAPS, depth);
    r.push(vf("nesting", wn * lv.len() as u64, if thorough { 2 } else { 1 }, &format!("every chain of up to {} containers (8 kinds) around every leaf shape", depth), move |i| {
        let w = word_upto(i / lv.len() as u64, WRAPS, depth);
        let mut v = lv[(i % lv.len() as u64) as usize].clone();
        for k in w {
            v = wrap(v, k);
        }
        v
    }));
    let lv = Arc::new(leafs());
    r.push(vf("deep", 64 * 8 * 8, if thorough { 0 } else { 1 }, "every pair of container kinds alternated to depth 8, 20, 40, 64, 127, 128, 129, 250", move |i| {
        let (l, p, d) = (i % 8, (i / 8) % 64, i / 512);
        let mut v = lv[l as usize].clone();
        for k in 0..[8, 20, 40, 64, 127, 128, 129, 250][d as usize] {
            v = wrap(v, if k % 2 == 0 { (p % 8) as usize } else { (p / 8) as usize });
        }
        v
    }));
    let sh = Arc::new(shapes());
    let m = if thorough { 4 } else { 3 };
    let wn = words_upto(sh.len(), m);
    r.push(vf("siblings", wn * 4, 1, &format!("objects, arrays, and list items with up to {} members of 13 shapes", m), move |i| {
        let w = word_upto(i / 4, sh.len(), m);
        let kids: Vec<J> = w.iter().map(|k| sh[*k].clone()).collect();
        let obj = |k: Vec<J>| J::Obj(k.into_iter().enumerate().map(|(i, v)| (format!("m{}", i), v)).collect());
        match i % 4 {
            0 => obj(kids),
            1 => J::Arr(kids),
            2 => a(vec![obj(kids), int(1)]),
            _ => o(vec![("l", a(vec![obj(kids.clone()), obj(kids)])), ("z", int(1))]),
        }
    }));
    r
}

/// every Unicode scalar value alone and in context
pub const CP_COUNT: u64 = 0x110000 - 0x800;
pub fn cp(i: u64) -> char {
    let i = i as u32;
    char::from_u32(if i < 0xd800 { i } else { i + 0x800 }).unwrap()
}
/// words over a character alphabet
pub fn chars_word(i: u64, alpha: &[char], len: usize) -> String {
    word_upto(i, alpha.len(), len).into_iter().map(|k| alpha[k]).collect()
}
pub fn chars_word_exact(i: u64, alpha: &[char], len: usize) -> String {
    word(i, alpha.len(), len).into_iter().map(|k| alpha[k]).collect()
}

pub fn words_upto2(a: usize, len: usize) -> u64 {
    words_upto(a, len)
}
