//! C05: decoding any text ends in a value or an error that names an existing line.
use crate::common::*;
use crate::docs;
use mc::run::*;
use mc::space::{CP_COUNT, cp, words_upto2};
use mc::val::J;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// targets of different shape
fn targets(cx: &mut Cx, t: &str, o: &toon::Options, what: &str, all: bool) {
    fn go<T: serde::de::DeserializeOwned + 'static>(cx: &mut Cx, t: &str, o: &toon::Options, what: &str, ty: &'static str) {
        cx.ops += 1;
        cx.evals += 1;
        let r = catch_unwind(AssertUnwindSafe(|| match toon::decode_from_str::<T>(t, o) {
            Ok(v) => {
                // dropping the value is part of using it
                drop(v);
                Ok(())
            }
            Err(e) => Err(e),
        }));
        let bad = match r {
            Err(p) => Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
            Ok(Ok(())) => {
                cx.cat("value");
                None
            }
            Ok(Err(toon::Error::Syntax { line, message })) => {
                cx.cat("syntax error");
                let n = t.split('\n').count();
                if line == 0 || line > n || message.is_empty() { Some(format!("syntax error at line {} of {}: {}", line, n, message)) } else { None }
            }
            Ok(Err(e)) => {
                cx.cat("other error");
                if e.to_string().is_empty() { Some("empty error message".into()) } else { None }
            }
        };
        if let Some(b) = bad {
            cx.fail(format!("{} {} {:?}", what, ty, tag(t)), &[("text", tag(t)), ("options", what.into()), ("target", ty.into()), ("observed", b)]);
        }
    }
    go::<J>(cx, t, o, what, "json");
    if all {
        go::<serde::de::IgnoredAny>(cx, t, o, what, "ignored");
        go::<Vec<String>>(cx, t, o, what, "vec-string");
        go::<std::collections::BTreeMap<String, Vec<u8>>>(cx, t, o, what, "map");
        go::<Option<f64>>(cx, t, o, what, "option-f64");
        go::<crate::types::Rich>(cx, t, o, what, "struct");
        go::<crate::types::En>(cx, t, o, what, "enum");
        go::<serde_json::Value>(cx, t, o, what, "value");
    }
}
fn modes(cx: &mut Cx, t: &str, ind: usize, all: bool) {
    for st in [true, false] {
        for x in [false, true] {
            let o = Opt { indent: ind, strict: st, expand: x, ..BASE };
            targets(cx, t, &o.o(), &o.s(), all);
        }
    }
    cx.sample(|| format!("{:?}", t));
}

/// where one arbitrary character can stand
const CP_POS: usize = 26;
fn at(c: char, p: usize) -> String {
    match p {
        0 => format!("{}", c),
        1 => format!("{}a: 1", c),
        2 => format!("a{}: 1", c),
        3 => format!("a: {}", c),
        4 => format!("a: 1{}", c),
        5 => format!("a{}[1]: 1", c),
        6 => format!("[1{}]: 1", c),
        7 => format!("a[1{}]: 1", c),
        8 => format!("a[1]{}: 1", c),
        9 => format!("a[1]:{}1", c),
        10 => format!("a[1]{{{}}}:\n  1", c),
        11 => format!("a[1]{{x{}y}}:\n  1{}2", c, c),
        12 => format!("a[1]{{x}}{}:\n  1", c),
        13 => format!("@{}", c),
        14 => format!("@{}, a\n- 1{} 2", c, c),
        15 => format!("-{}", c),
        16 => format!("- {}", c),
        17 => format!("{}- 1", c),
        18 => format!("a:\n{}b: 1", c),
        19 => format!("a:\n  b: 1\n {}c: 2", c),
        20 => format!("\"\\{}\": 1", c),
        21 => format!("\"{}", c),
        22 => format!("a: \"\\u00{}{}\"", c, c),
        23 => format!("a.{}.b: 1\na: 2", c),
        24 => format!("[2]:\n  - a[1]{{{}}}:\n      {}\n    {}: 1\n  - {}", c, c, c, c),
        _ => format!("[2{}]{{a{}b}}:\n  1{}2\n  3{}4", c, c, c, c),
    }
}

pub fn big(kind: u64, n: usize) -> String {
    match kind {
        0 => "a: 1\n".repeat(n),
        1 => "- ".repeat(n),
        2 => (0..n).map(|i| format!("{}a:\n", " ".repeat(2 * i))).collect(),
        3 => (0..n).map(|i| format!("{}- a[1]:\n", " ".repeat(4 * i))).collect::<String>(),
        4 => (0..n).map(|i| format!("{}- [1]:\n", " ".repeat(2 * i))).collect::<String>(),
        5 => "[".repeat(n),
        6 => "\"".repeat(n),
        7 => "\\".repeat(n),
        8 => "{".repeat(n),
        9 => format!("a[{}]: 1", "9".repeat(n)),
        10 => format!("a: {}", "9".repeat(n)),
        11 => format!("a: 0.{}1", "0".repeat(n)),
        12 => format!("a: 1e{}", "9".repeat(n)),
        13 => format!("a: -1e-{}", "9".repeat(n)),
        14 => "\n".repeat(n),
        15 => format!("a[{}]:\n{}", n, "  - 1\n".repeat(n)),
        16 => format!("a[{}]:\n{}", n, "\n".repeat(n)),
        17 => format!("a[18446744073709551615]{{x}}:\n{}", "  1\n".repeat(n)),
        18 => format!("[{}]: {}", n, vec!["1"; n].join(",")),
        19 => format!("{}: 1", vec!["a"; n].join(".")),
        20 => (0..n).map(|i| format!("a.b{}.c: 1\n", i)).collect(),
        21 => (0..n).map(|i| format!("{}a: 1\n", " ".repeat(i))).collect(),
        22 => (0..n).rev().map(|i| format!("{}a: 1\n", " ".repeat(i))).collect(),
        23 => "a:\n\n".repeat(n),
        24 => "-\n".repeat(n),
        25 => (0..n).map(|i| format!("{}-\n", " ".repeat(i))).collect(),
        26 => format!("[{}]{{x,y}}:\n{}", n, "  1,\"a,b\"\n".repeat(n)),
        27 => (0..n).map(|i| format!("{}a.b:\n", " ".repeat(2 * i))).collect(),
        28 => "a:\n".to_string() + &" ".repeat(n) + "b: 1",
        29 => "@, a, b\n".to_string() + &"- 1, 2\n".repeat(n),
        30 => (0..n).map(|i| format!("{}- a:\n", " ".repeat(4 * i))).collect(),
        31 => format!("a: [{}]: 1", "9".repeat(n)),
        32 => format!("a:\n  - [{}]: 1\n  - [{}]:", "9".repeat(n), "9".repeat(n)),
        33 => format!("a:\n  @{}, b", "é".repeat(n)),
        34 => (0..n).map(|i| format!("{}a{}:\n", "  ".repeat(i), i)).collect(),
        35 => (0..n).map(|i| format!("{}- b: 1\n{}a[1]:\n", "    ".repeat(i), "    ".repeat(i) + "  ")).collect(),
        _ => ":".repeat(n),
    }
}
pub const BIG: u64 = 37;

pub fn spec(th: bool) -> Spec {
    let mut fams: Vec<Fam> = docs::families(th)
        .into_iter()
        .map(|d| {
            let g = d.r#gen.clone();
            // all targets on the small spaces
            let all = d.n < 1_000_000;
            Fam::new(&d.name, d.n, &format!("{}; strict/lenient x expansion{}", d.what, if all { " x 8 target types" } else { "" }), move |i, cx| {
                let Some((t, ind)) = g(i) else {
                    cx.skip();
                    return;
                };
                modes(cx, &t, ind, all);
            })
        })
        .collect();
    fams.push(Fam::new("codepoints", CP_COUNT, "every Unicode scalar value in 26 structural positions, strict and lenient", move |i, cx| {
        let c = cp(i);
        for p in 0..CP_POS {
            let t = at(c, p);
            for st in [true, false] {
                let o = Opt { strict: st, expand: p == 23, ..BASE };
                targets(cx, &t, &o.o(), &o.s(), false);
            }
        }
        cx.sample(|| at(c, 11));
    }));
    let wl = if th { 5 } else { 4 };
    const RAW: [char; 24] = ['"', '\\', ',', '|', ':', '[', ']', '{', '}', '-', '0', ' ', '9', '.', 'e', '@', 'a', 'é', '\t', '\n', '\r', '\u{feff}', '\u{200b}', '😀'];
    fams.push(Fam::new("raw", words_upto2(RAW.len(), wl) * 4, &format!("every text of up to {} characters over 24 characters incl. multi-byte ones, alone, after '@', inside a table header, and indented below a key", wl), move |i, cx| {
        let w = mc::space::chars_word(i / 4, &RAW, wl);
        let t = match i % 4 {
            0 => w,
            1 => format!("@{}\n- 1, 2", w),
            2 => format!("a[1{}", w),
            _ => format!("k:\n{}", w),
        };
        modes(cx, &t, 2, false);
    }));
    let sizes: Vec<usize> = if th { vec![1, 10, 100, 255, 256, 257, 258, 512, 1000, 3000, 10000, 30000, 100000] } else { vec![1, 10, 100, 255, 256, 257, 258, 512, 1000, 3000, 20000] };
    let ns = sizes.len() as u64;
    fams.push(Fam::new("large", BIG * ns, "37 repetitive or deeply nested documents of growing size, in a 2 MB thread stack, strict/lenient x expansion x 8 targets", move |i, cx| {
        let n = sizes[(i / BIG) as usize];
        // staircase documents grow quadratically in size
        let n = if matches!(i % BIG, 2 | 3 | 4 | 21 | 22 | 25 | 27 | 30 | 34 | 35) { n.min(2000) } else { n };
        let t = big(i % BIG, n);
        let mut inner = Cx::default();
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, || modes(&mut inner, &t, 2, n <= 3000))
                .unwrap()
                .join()
                .unwrap();
        });
        cx.ops += inner.ops;
        cx.evals += inner.evals;
        for v in inner.viols {
            let d: Vec<(&str, String)> = v.detail.iter().map(|(a, b)| (a.as_str(), b.clone())).collect();
            cx.fail(v.sig, &d);
        }
    }));
    // every option value, including degenerate ones
    let ds = docs::small_docs(3);
    fams.push(Fam::new("options", ds.len() as u64 * 9, "small documents under indent 0,1,2,3,5,8,1000,2^32,usize::MAX", move |i, cx| {
        let ind = [0usize, 1, 2, 3, 5, 8, 1000, 1 << 32, usize::MAX][(i % 9) as usize];
        modes(cx, &ds[(i / 9) as usize], ind, true);
    }));
    Spec {
        id: "C05".into(),
        level: "model_checking",
        rule: "state = one text; under strict/lenient and expansion off/safe and for several target types decoding returns a value or an error (no panic, overflow, abort or hang: caught per call, crashes and hangs by the supervisor), and a syntax error's line number is within the input".into(),
        fams,
        assumptions: vec!["a call that needs more than 40 s counts as a hang; deep documents run on a 2 MB stack; built with overflow checks and debug assertions".into()],
    }
}
