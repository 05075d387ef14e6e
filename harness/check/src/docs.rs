//! The bounded spaces of documents that the decoding properties share.
use crate::common::*;
use mc::enc;
use mc::space::{self, chars_word_exact, place, place_key};
use mc::trees::*;
use mc::val::*;
use std::sync::Arc;

#[derive(Clone)]
pub struct DF {
    pub name: String,
    pub n: u64,
    pub what: String,
    /// document and the indentation it is meant for; None: the number denotes no document of the space
    pub r#gen: Arc<dyn Fn(u64) -> Option<(String, usize)> + Send + Sync>,
}
fn df(name: &str, n: u64, what: &str, g: impl Fn(u64) -> (String, usize) + Send + Sync + 'static) -> DF {
    dfo(name, n, what, move |i| Some(g(i)))
}
fn dfo(name: &str, n: u64, what: &str, g: impl Fn(u64) -> Option<(String, usize)> + Send + Sync + 'static) -> DF {
    DF { name: name.into(), n, what: what.into(), r#gen: Arc::new(g) }
}

/// Line bodies; the empty body is a blank line.
pub const BODIES: [&str; 26] = [
    "a: 1", "b:", "c: x", "-", "- 1", "- a: 1", "- b:", "", "a[2]:", "b[1]:", "a[1]{x,y}:", "1,2", "[2]:", "- [1]:", "- a[1]:", "- a[2]{x}:", "[1]{x,y}:", "a[2]: 1,2", "- [2]: 1,2", "[2]: 1,2", "x", "b[2|]{x|y}:",
    "1|2", "a[0]:", "\"q\": 1", "a.b: 1",
];
/// Rendered lines: depth of a line is at most two deeper than the line before it, at most 3.
pub struct Lines {
    bodies: Vec<&'static str>,
    max: usize,
    first: usize, // number of depths of the first line
}
impl Lines {
    pub fn new(bodies: &[&'static str], max: usize, first: usize) -> Lines {
        Lines { bodies: bodies.to_vec(), max, first }
    }
    fn per(&self) -> u64 {
        self.bodies.len() as u64 * 4
    }
    pub fn count(&self) -> u64 {
        // line 1: bodies x first depths; further lines: bodies x 4 depths
        (0..=self.max as u32).map(|l| if l == 0 { 1 } else { self.bodies.len() as u64 * self.first as u64 * self.per().pow(l - 1) }).sum()
    }
    /// None: a shape outside the space (depth jump of more than 2, or an indented blank)
    pub fn get(&self, mut i: u64, indent: usize) -> Option<String> {
        let nb = self.bodies.len() as u64;
        for l in 0..=self.max as u32 {
            let c = if l == 0 { 1 } else { nb * self.first as u64 * self.per().pow(l - 1) };
            if i >= c {
                i -= c;
                continue;
            }
            let mut out = String::new();
            let mut rest = i;
            let mut prev = 0usize;
            for k in 0..l {
                let below = self.per().pow(l - 1 - k);
                let x = rest / below;
                rest %= below;
                let (body, depth) = (self.bodies[(x % nb) as usize], (x / nb) as usize);
                if k > 0 && depth > prev + 2 {
                    return None;
                }
                if body.is_empty() {
                    if depth > 0 {
                        return None;
                    }
                } else {
                    prev = depth;
                }
                if k > 0 {
                    out.push('\n');
                }
                for _ in 0..depth * indent {
                    out.push(' ');
                }
                out.push_str(body);
            }
            return Some(out);
        }
        unreachable!()
    }
}

pub const TOK: [char; 20] = ['"', '\\', ',', '|', ':', '[', ']', '{', '}', '-', '0', ' ', '1', '.', 'e', '+', 'a', 'n', '\t', '\n'];
pub const CONTEXTS: usize = 14;
pub fn context(w: &str, c: usize) -> String {
    match c {
        0 => format!("k: {}", w),
        1 => format!("k[2]: {}", w),
        2 => format!("k[1]: {}", w),
        3 => format!("k[2]:\n  - {}\n  - 1", w),
        4 => format!("t[1]{{a,b}}:\n  {}", w),
        5 => format!("t[2|]{{a|b}}:\n  1|x\n  {}", w),
        6 => format!("{}: 1", w),
        7 => format!("k[{}]: 1", w),
        8 => format!("k[1]{{{}}}:\n  1", w),
        9 => format!("[2]:\n  - k: {}\n    z: 1\n  - 2", w),
        10 => format!("[1]:\n  - {}: 1\n    z: 1", w),
        11 => format!("k:\n  {}", w),
        12 => format!("[2\t]: {}", w),
        _ => format!("[2]:\n  - a[1]: {}\n    {}: 2\n  - x", w, w),
    }
}

pub fn rich_docs() -> Vec<String> {
    [
        "a: 1\nb: x",
        "a:\n  b:\n    c: 1\n  d: 2\ne: 3",
        "[2]: 1,x",
        "a[2]{x,y}:\n  1,2\n  3,\"4,5\"\nb: 1",
        "[2]{x,y}:\n  1,2\n  3,4",
        "[3]:\n  - 1\n  - a: 1\n    b: 2\n  - [2]: 1,2",
        "l[2]:\n  - a[1]{x}:\n      1\n    b: 2\n  - c:\n      d: 1\n    e: 2\nz: 1",
        "\"a b\": \"c\\nd\"\n\"x:y\"[1|]: 1",
        "t[2\t]{a\t\"b c\"}:\n  1\t2\n  3\t4",
        "[2]:\n  -\n  - [0]:",
        "a.b: 1\na.c: 2",
        "@, a, b\n- 1, 2",
        "\"just a string\"",
        "- 1\n- 2",
        "k: \"\\u0007\"\nm: -1.5e3",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

/// every document at edit distance one from the base documents
pub struct Edits {
    base: Vec<Vec<char>>,
    cum: Vec<u64>,
    alpha: Vec<char>,
}
impl Edits {
    pub fn new(base: Vec<String>, alpha: &[char]) -> Edits {
        let base: Vec<Vec<char>> = base.into_iter().map(|s| s.chars().collect()).collect();
        let mut cum = vec![0];
        for b in &base {
            let n = b.len() as u64;
            let k = alpha.len() as u64;
            // insert (n+1)*k, replace n*k, delete n, itself 1, transpose n-1, duplicate line
            cum.push(cum.last().unwrap() + (n + 1) * k + n * k + n + 1);
        }
        Edits { base, cum, alpha: alpha.to_vec() }
    }
    pub fn count(&self) -> u64 {
        *self.cum.last().unwrap()
    }
    pub fn get(&self, i: u64) -> String {
        let b = self.cum.partition_point(|c| *c <= i) - 1;
        let mut j = i - self.cum[b];
        let mut v = self.base[b].clone();
        let (n, k) = (v.len() as u64, self.alpha.len() as u64);
        if j < (n + 1) * k {
            v.insert((j / k) as usize, self.alpha[(j % k) as usize]);
            return v.into_iter().collect();
        }
        j -= (n + 1) * k;
        if j < n * k {
            v[(j / k) as usize] = self.alpha[(j % k) as usize];
            return v.into_iter().collect();
        }
        j -= n * k;
        if j < n {
            v.remove(j as usize);
        }
        v.into_iter().collect()
    }
}

pub fn small_docs(n: usize) -> Vec<String> {
    let tr = Trees::new(vec![int(1), s("x")], &["a", "b", "c", "d"], n, true);
    let mut v: Vec<String> = (0..tr.count_upto(n)).map(|i| enc::encode(&tr.upto(i, n), enc::EOpt::new(',', 2))).collect();
    v.extend(rich_docs());
    v.sort();
    v.dedup();
    v
}

pub fn families(th: bool) -> Vec<DF> {
    let mut r = Vec::new();
    let l = Arc::new(Lines::new(&BODIES, 3, 2));
    r.push(dfo("lines3", l.count() * 3, "every document of up to 3 lines over 26 line bodies and 4 depths, at indentation 2, 1 and 4", {
        let l = l.clone();
        move |i| {
            let ind = [2, 1, 4][(i % 3) as usize];
            l.get(i / 3, ind).map(|t| (t, ind))
        }
    }));
    let l = Arc::new(Lines::new(&BODIES[..if th { 26 } else { 17 }], 4, 1));
    r.push(dfo("lines4", l.count(), "every document of up to 4 lines over 17 (thorough: 26) line bodies and 4 depths", move |i| l.get(i, 2).map(|t| (t, 2))));
    let l = Arc::new(Lines::new(&BODIES[..if th { 11 } else { 8 }], 5, 1));
    r.push(dfo("lines5", l.count(), "every document of up to 5 lines over 8 (thorough: 11) line bodies and 4 depths", move |i| l.get(i, 2).map(|t| (t, 2))));
    let wl = if th { 6 } else { 5 };
    r.push(df("words", words_upto(TOK.len(), wl), &format!("every text of up to {} characters over 20 significant characters", wl), move |i| {
        (space::chars_word(i, &TOK, wl), 2)
    }));
    let cl = if th { 5 } else { 4 };
    let n = words_upto(TOK.len(), cl);
    r.push(df("tokens", n * CONTEXTS as u64, &format!("every text of up to {} characters over 20 significant characters in 14 token positions", cl), move |i| {
        (context(&space::chars_word(i / CONTEXTS as u64, &TOK, cl), (i % CONTEXTS as u64) as usize), 2)
    }));
    let e = Arc::new(Edits::new(small_docs(if th { 5 } else { 4 }), &TOK));
    r.push(df("edits", e.count(), "every document at edit distance one (20 characters) from the encodings of all trees of up to 4 nodes and 15 feature-rich documents", move |i| (e.get(i), 2)));
    // nested quoted text
    let q: Vec<char> = vec!['"', '\\', 'u', '0', '7', 'n', 'D', 'x', ',', '/'];
    let ql = if th { 7 } else { 6 };
    r.push(df("escapes", (q.len() as u64).pow(ql as u32), &format!("every quoted string body of {} characters over quote, backslash, u, hex digits, escapes", ql), move |i| {
        (format!("k: \"{}\"", chars_word_exact(i, &q, ql)), 2)
    }));
    // numbers
    let q: Vec<char> = vec!['0', '1', '9', '.', 'e', 'E', '-', '+', '_'];
    let nl = if th { 7 } else { 6 };
    r.push(df("numerics", words_upto(q.len(), nl), &format!("every token of up to {} characters over digits, point, exponent, sign", nl), move |i| (format!("k: {}", space::chars_word(i, &q, nl)), 2)));
    // every decimal exponent
    const MANT: [&str; 10] = ["1", "9", "1.5", "4.9", "17976931348623157", "2.2250738585072014", "0.00012", "123456789012345678901", "0.1000", "7.000000000000001"];
    r.push(df("exponents", 821 * 10 * 2 * 5, "every decimal exponent -410..410 of 10 mantissas and both signs in 5 positions", |i| {
        let (p, x) = (i % 5, i / 5);
        let (sg, x) = (["", "-"][(x % 2) as usize], x / 2);
        let (m, e) = (MANT[(x % 10) as usize], (x / 10) as i64 - 410);
        let n = match x % 3 {
            0 => format!("{}{}e{}", sg, m, e),
            1 => format!("{}{}E{:+}", sg, m, e),
            _ => format!("{}{}e{}{:03}", sg, m, if e < 0 { "-" } else { "" }, e.abs()),
        };
        (
            match p {
                0 => n,
                1 => format!("k: {}", n),
                2 => format!("k[3]: 1,{},{}", n, n),
                3 => format!("t[2|]{{a|b}}:\n  {}|1\n  x|{}", n, n),
                _ => format!("[2]:\n  - {}\n  - a: {}", n, n),
            },
            2,
        )
    }));
    // white space and control characters that are none of the format's own
    const ODD: [char; 20] =
        ['\r', '\u{feff}', '\u{a0}', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{200b}', '\0', '\u{7f}', '\u{e9}', 'a', '1', '"', '\\', ':', ' ', '\n', '-', ','];
    let ol = if th { 5 } else { 4 };
    r.push(df("odd-words", words_upto(ODD.len(), ol), &format!("every text of up to {} characters over carriage return, byte order mark, Unicode white space, control characters and 10 significant characters", ol), move |i| {
        (space::chars_word(i, &ODD, ol), 2)
    }));
    let oc = if th { 4 } else { 3 };
    r.push(df("odd-tokens", words_upto(ODD.len(), oc) * CONTEXTS as u64, &format!("the same, up to {} characters, in 14 token positions", oc), move |i| {
        (context(&space::chars_word(i / CONTEXTS as u64, &ODD, oc), (i % CONTEXTS as u64) as usize), 2)
    }));
    let np = code_point_docs('x').len() as u64;
    let limit: u64 = if th { 0x110000 } else { 0x10000 };
    r.push(dfo("code-points", limit * np, &format!("every code point below {:#x} in {} places of a document", limit, np), move |i| {
        char::from_u32((i / np) as u32).map(|c| (code_point_docs(c).swap_remove((i % np) as usize), 2))
    }));
    // spellings of a declared length
    const LENS: [&str; 40] = [
        "0", "1", "2", "3", "10", "100", "255", "256", "257", "258", "65535", "65536", "65537", "65538", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297",
        "4294967298", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617",
        "18446744073709551618", "340282366920938463463374607431768211455", "340282366920938463463374607431768211457", "00", "01", "02", "+1", "-1", "1.0", "1e0", "0x1", "1_", " 1", "\u{661}",
    ];
    r.push(df("lengths", 40 * 3 * 3 * 2 * 7, "40 spellings of a declared length x 3 actual lengths x 3 delimiters x 7 array forms, root or keyed", |i| {
        let mut i = i;
        let mut take = |n: u64| {
            let r = i % n;
            i /= n;
            r as usize
        };
        let (f, key, di, ac, l) = (take(7), ["", "k"][take(2)], take(3), take(3), LENS[take(40)]);
        let d = [",", "|", "\t"][di];
        let m = if d == "," { "" } else { d };
        let row = (0..ac).map(|k| format!("{}", k + 1)).collect::<Vec<_>>().join(d);
        let lines = |b: &str| (0..ac).map(|k| format!("\n{}{}", b, k)).collect::<String>();
        let doc = match f {
            0 if ac == 0 => format!("{}[{}{}]:", key, l, m),
            0 => format!("{}[{}{}]: {}", key, l, m, row),
            1 => format!("{}[{}{}]{{x}}:{}", key, l, m, lines("  ")),
            2 => format!("{}[{}{}]:{}", key, l, m, lines("  - ")),
            3 => format!("[2]:\n  - {}[{}{}]:{}\n  - 7", key, l, m, if key.is_empty() { lines("    - ") } else { lines("      - ") }),
            4 => format!("o:\n  k[{}{}]{{x}}:{}\nz: 1", l, m, lines("    ")),
            5 => format!("[2]:\n  - k[{}{}]{{x}}:{}\n    s: 1\n  - 5", l, m, lines("      ")),
            _ => format!("[2]:\n  - {}[{}{}]:{}{}\n  - 7", key, l, m, if ac == 0 { "" } else { " " }, row),
        };
        (doc, 2)
    }));
    // spellings of scalars, written without quotes
    let sp = Arc::new(space::spellings());
    let n = sp.len() as u64;
    let sp2 = sp.clone();
    r.push(df("spellings", n * CONTEXTS as u64, &format!("{} spellings (literals in every case, numbers of other languages, special texts) in 14 token positions", n), move |i| {
        (context(&sp[(i / CONTEXTS as u64) as usize], (i % CONTEXTS as u64) as usize), 2)
    }));
    r.push(df("spelling-pairs", n * n * 3, "every two of these spellings: key and value, cells of a row, list items", move |i| {
        let (p, x, y) = (i % 3, &sp2[(i / 3 % n) as usize], &sp2[(i / 3 / n) as usize]);
        (
            match p {
                0 => format!("{}: {}", x, y),
                1 => format!("t[2|]{{a|b}}:\n  {}|{}\n  1|x", x, y),
                _ => format!("[2]:\n  - {}\n  - {}", x, y),
            },
            2,
        )
    }));
    // declared lengths and widths against actual ones
    r.push(df("counts", 7 * 7 * 5 * 5 * 6, "declared length 0..6 x actual 0..6 x row width 0..4 x field count 0..4 x 6 array forms", |i| {
        let mut i = i;
        let mut take = |n: u64| {
            let r = i % n;
            i /= n;
            r as usize
        };
        let (f, dl, ac, w, fc) = (take(6), take(7), take(7), take(5), take(5));
        let d = [",", "|", "\t"][(dl + ac) % 3];
        let m = if d == "," { "" } else { d };
        let row = |w: usize| (0..w).map(|k| format!("{}", k + 1)).collect::<Vec<_>>().join(d);
        let fields = (0..fc).map(|k| ["x", "y", "z", "u"][k].to_string()).collect::<Vec<_>>().join(d);
        let key = ["", "k"][(dl + w) % 2];
        let doc = match f {
            0 => format!("{}[{}{}]: {}", key, dl, m, row(ac)),
            1 => format!("{}[{}{}]{{{}}}:{}", key, dl, m, fields, (0..ac).map(|_| format!("\n  {}", row(w))).collect::<String>()),
            2 => format!("{}[{}{}]:{}", key, dl, m, (0..ac).map(|k| format!("\n  - {}", k)).collect::<String>()),
            3 => format!("[2]:\n  - k[{}{}]{{{}}}:{}\n    s: 1\n  - 5", dl, m, fields, (0..ac).map(|_| format!("\n      {}", row(w))).collect::<String>()),
            4 => format!("o:\n  k[{}{}]:{}\n  z: 1", dl, m, (0..ac).map(|k| format!("\n    - a: {}\n      b: {}", k, w)).collect::<String>()),
            _ => format!("[2]:\n  - [{}{}]: {}\n  - [{}{}]:{}", dl, m, row(ac), w, m, (0..fc).map(|k| format!("\n    - {}", k)).collect::<String>()),
        };
        (doc, 2)
    }));
    // indentation: every combination of leading spaces 0..5 over short documents
    let im: u64 = if th { 9 } else { 7 };
    r.push(df("indents", INDENT_DOCS.len() as u64 * im.pow(4) * 4, "every combination of leading white space 0..6 of four lines under 6 document skeletons at indentation 1..4", move |i| {
        let ind = (i % 4) as usize + 1;
        let d = INDENT_DOCS[(i / 4) as usize % INDENT_DOCS.len()];
        let mut x = i as usize / 4 / INDENT_DOCS.len();
        let t: Vec<String> = d
            .iter()
            .enumerate()
            .map(|(k, b)| {
                if k == 0 {
                    return b.to_string();
                }
                let n = x % im as usize;
                x /= im as usize;
                format!("{}{}", " ".repeat(n), b)
            })
            .collect();
        (t.join("\n"), ind)
    }));
    // texts built by repetition: long tokens, many lines, deep staircases
    let un = words_upto(TOK.len(), 2) - 1;
    r.push(df("periodic", un * 3 * CONTEXTS as u64, "every text of 1 or 2 of the 20 significant characters repeated 70, 300 and 3000 times, in 14 token positions", move |i| {
        let (c, i) = ((i % CONTEXTS as u64) as usize, i / CONTEXTS as u64);
        let (k, u) = ([70, 300, 3000][(i % 3) as usize], space::chars_word(i / 3 + 1, &TOK, 2));
        (context(&u.repeat(k), c), 2)
    }));
    const HEADS: [&str; 5] = ["", "h:", "h[300]:", "[300]:", "h[300]{x,y}:"];
    let nb = BODIES.len() as u64;
    r.push(df("periodic-lines", (nb + nb * nb) * 2 * 2 * 3 * 5, "every 1 or 2 of 26 line bodies repeated 40, 150 and 300 times (the second at the depth of the first or below), flat or each one level deeper, under 5 heads", move |i| {
        let mut i = i as usize;
        let mut take = |n: usize| {
            let r = i % n;
            i /= n;
            r
        };
        let (h, n, step, below, u) = (HEADS[take(5)], [40, 150, 300][take(3)], take(2), take(2), take((nb + nb * nb) as usize));
        let nb = nb as usize;
        let unit: Vec<&str> = if u < nb { vec![BODIES[u]] } else { vec![BODIES[(u - nb) / nb], BODIES[(u - nb) % nb]] };
        let n = if step == 1 { n.min(150) / unit.len() } else { n };
        let d0 = if h.is_empty() { 0 } else { 1 };
        let mut t = String::from(h);
        for k in 0..n {
            for (j, b) in unit.iter().enumerate() {
                if !t.is_empty() {
                    t.push('\n');
                }
                if !b.is_empty() {
                    let d = d0 + if step == 1 { k * unit.len() + j.min(below) } else { j * below };
                    t.extend(std::iter::repeat_n(' ', 2 * d));
                    t.push_str(b);
                }
            }
        }
        (t, 2)
    }));
    // wide indentation: every line on the grid, or one of them off by one
    r.push(df("grids", GRIDS.len() as u64 * 6 * 256 * 9, "6 document skeletons with every combination of depths 0..3 at 33 widths of indentation up to 1000, all lines on the grid or one of them off it by one", |i| {
        let mut i = i as usize;
        let mut take = |n: usize| {
            let r = i % n;
            i /= n;
            r
        };
        let (off, sk, ind) = (take(9), take(6), GRIDS[take(GRIDS.len())]);
        let t: Vec<String> = INDENT_DOCS[sk]
            .iter()
            .enumerate()
            .map(|(k, b)| {
                if k == 0 {
                    return b.to_string();
                }
                let n = take(4) * ind;
                let n = if off == 2 * k - 1 { n + 1 } else if off == 2 * k { n.max(1) - 1 } else { n };
                format!("{}{}", " ".repeat(n), b)
            })
            .collect();
        (t.join("\n"), ind)
    }));
    r
}
const GRIDS: [usize; 33] =
    [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 1000];
/// Documents that differ in one character.
fn code_point_docs(c: char) -> Vec<String> {
    vec![
        format!("{c}"),
        format!("{c}k: 1"),
        format!("k{c}: 1"),
        format!("k{c}l.m: 1"),
        format!("k.{c}: 1"),
        format!("\"{c}\": 1"),
        format!("\"x.{c}\": 1"),
        format!("k: {c}"),
        format!("k: {c}x"),
        format!("k: x{c}y"),
        format!("k: x{c}\nl: x{c}"),
        format!("k: 1{c}\nl: 2"),
        format!("k: {c}1"),
        format!("k: \"{c}\""),
        format!("k: \"\\{c}\""),
        format!("k: \"x\"{c}"),
        format!("k:{c}1"),
        format!("k: 1\n{c}\nl: 2"),
        format!("k:\n{c}l: 1"),
        format!("k:\n  l: 1\n {c}m: 2"),
        format!("k[2]: {c},x{c}"),
        format!("k[2]: {c}1,1{c}"),
        format!("k[1{c}]: x"),
        format!("k[1]{c}: x"),
        format!("k[1]{{{c}}}:\n  1"),
        format!("k[2|]{{\"{c}\"|f}}:\n  {c}|x{c}\n  {c}1|1{c}"),
        format!("k[2]:\n  - {c}\n  - x{c}"),
        format!("k[2]:\n  -{c}1\n  - 2"),
        format!("k[2]:\n  - {c}a: x{c}\n    b: {c}\n  - 2"),
        format!("k[1]:\n  - a[2\t]: {c}\tx{c}"),
        format!("{c}k[1]: 3"),
        format!("{c}[1]: 3"),
        format!("k{c}[1]: 3"),
        format!("{c}k[1]{{x}}:\n  1"),
        format!("k: 1\n{c}l: 2"),
        format!("k: 1\n{c}l[1]{{x}}:\n  1\nm: 2"),
        format!("k:\n  {c}l: 1\n  m: 2"),
        format!("k:\n  l: 1\n  {c}m[1]: 2"),
        format!("k[1]:\n  - {c}a[1]: 1\n    {c}b: 2"),
        format!("k[1]:\n  {c}- 1"),
        format!("k[1]{{x}}:\n  {c}1"),
        format!("[1]{{x}}:\n  1{c}2: 3"),
    ]
}
const INDENT_DOCS: [[&str; 5]; 6] = [
    ["a:", "b:", "c:", "d: 1", "e: 2"],
    ["a[2]:", "- b: 1", "c: 2", "- d", "e: 1"],
    ["a[1]{x}:", "1", "b[1]:", "- y", "c: 1"],
    ["[2]:", "- a[2]:", "- 1", "- 2", "b: 1"],
    ["[1]:", "- a:", "b: 1", "c[1]{y}:", "5"],
    ["[2]:", "- a[1]{x}:", "1", "b: 2", "- z"],
];

/// encode with a delimiter of its own for every array: digits of `d` base 3
pub fn mixed(v: &J, d: u64, indent: usize) -> String {
    enc::encode_mixed(v, enc::EOpt::new(',', indent), d)
}
/// reference-encoded values: (document, value)
pub struct VD {
    pub name: String,
    pub n: u64,
    pub what: String,
    pub r#gen: Arc<dyn Fn(u64) -> J + Send + Sync>,
    pub opts: Vec<Opt>,
    pub mixes: Vec<u64>,
}
pub fn value_docs(th: bool) -> Vec<VD> {
    space::families(th)
        .into_iter()
        .map(|vf| VD {
            name: vf.name.into(),
            n: vf.n,
            what: vf.what.clone(),
            r#gen: vf.r#gen.clone(),
            opts: layouts(vf.size),
            mixes: if vf.size == 0 || vf.name == "siblings" { (1..81).step_by(5).collect() } else { vec![5, 46] },
        })
        .collect()
}
#[allow(dead_code)]
pub fn placed_strings() -> (u64, Arc<dyn Fn(u64) -> J + Send + Sync>) {
    let st = space::strings();
    (
        st.len() as u64 * (space::POSITIONS + space::KEY_POSITIONS),
        Arc::new(move |i| {
            let p = i % (space::POSITIONS + space::KEY_POSITIONS);
            let x = &st[(i / (space::POSITIONS + space::KEY_POSITIONS)) as usize];
            if p < space::POSITIONS { place(J::Str(x.clone()), p) } else { place_key(x, p - space::POSITIONS) }
        }),
    )
}
