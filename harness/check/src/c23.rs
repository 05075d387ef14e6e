//! C23: a document reads the same alone and as a part of a larger one.
use crate::common::*;
use crate::docs::{BODIES, Lines};
use mc::dec::{R, decode_strict};
use mc::run::*;
use mc::val::*;
use std::sync::Arc;

fn shift(t: &str, n: usize) -> String {
    t.split('\n').map(|l| if l.is_empty() { String::new() } else { format!("{}{}", " ".repeat(n), l) }).collect::<Vec<_>>().join("\n")
}
fn o(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect())
}
fn cat(a: Vec<(&str, J)>, v: &J, b: Vec<(&str, J)>) -> J {
    let J::Obj(m) = v else { unreachable!() };
    let mut r: Vec<(String, J)> = a.into_iter().map(|(k, x)| (k.to_string(), x)).collect();
    r.extend(m.iter().cloned());
    r.extend(b.into_iter().map(|(k, x)| (k.to_string(), x)));
    J::Obj(r)
}
/// Does an array header on the first line have items or rows at its own indentation below it?
/// That is malformed alone, but a list item's first field may be written so.
fn below_first(t: &str) -> bool {
    let mut l = t.split('\n');
    l.next().unwrap().contains('[') && l.next().is_some_and(|x| x.starts_with('-') || (!x.starts_with(' ') && !mc::dec::unquoted_colon(x)))
}
/// larger documents around a document `t` at indentation 2; the value is None when `t` is malformed
fn contexts(t: &str, v: Option<&J>, array: bool) -> Vec<(&'static str, String, Option<J>)> {
    let mut r: Vec<(&'static str, String, Option<J>)> = Vec::new();
    let blank = t.contains("\n\n") || t.starts_with('\n') || t.ends_with('\n');
    if array {
        let w = v.cloned();
        let with = |f: &dyn Fn(J) -> J| w.clone().map(f);
        r.push(("keyed", format!("K{}", t), with(&|v| o(vec![("K", v)]))));
        r.push(("keyed, nested", format!("P:\n{}\nZ: 1", shift(&format!("K{}", t), 2)), with(&|v| o(vec![("P", o(vec![("K", v)])), ("Z", int(1))]))));
        r.push(("keyed, after a table", format!("T[1]{{X}}:\n  5\nK{}\nZ: 1", t), with(&|v| o(vec![("T", J::Arr(vec![o(vec![("X", int(5))])])), ("K", v), ("Z", int(1))]))));
        if !blank {
            r.push(("list item", format!("[2]:\n{}\n  - 5", shift(&format!("- {}", t), 2).replacen("\n", "\n", 1)), with(&|v| J::Arr(vec![v, int(5)]))));
            r.push(("item of a pipe list", format!("K[2|]:\n  - 1,2\n{}", shift(&format!("- {}", t), 2)), with(&|v| o(vec![("K", J::Arr(vec![s("1,2"), v]))]))));
            r.push(("item of a tab list", format!("[2\t]:\n{}\n  - a|b,c", shift(&format!("- {}", t), 2)), with(&|v| J::Arr(vec![v, s("a|b,c")]))));
            let rest = |n: usize| match t.split_once('\n') {
                None => (t.to_string(), String::new()),
                Some((a, b)) => (a.to_string(), format!("\n{}", shift(b, n))),
            };
            let (a, b) = rest(4);
            r.push(("first field of a list item", format!("[2]:\n  - K{}{}\n    Z: 1\n  - 5", a, b), with(&|v| J::Arr(vec![o(vec![("K", v), ("Z", int(1))]), int(5)]))));
            r.push(("later field of a list item", format!("L[1]:\n  - P: 1\n    K{}{}\nZ: 1", a, b), with(&|v| o(vec![("L", J::Arr(vec![o(vec![("P", int(1)), ("K", v)])])), ("Z", int(1))]))));
        }
        return r;
    }
    let with = |f: &dyn Fn(&J) -> J| v.map(f);
    r.push(("under a key", format!("K:\n{}", shift(t, 2)), with(&|v| o(vec![("K", v.clone())]))));
    r.push(("under three keys", format!("K:\n  K:\n    K:\n{}", shift(t, 6)), with(&|v| o(vec![("K", o(vec![("K", o(vec![("K", v.clone())]))]))]))));
    r.push(("after a field", format!("P: 1\n{}", t), with(&|v| cat(vec![("P", int(1))], v, vec![]))));
    r.push(("before a field", format!("{}\nZ: 1", t), with(&|v| cat(vec![], v, vec![("Z", int(1))]))));
    r.push(("between fields", format!("K:\n  P: 1\n{}\n  Z: 2\nY: 3", shift(t, 2)), with(&|v| o(vec![("K", cat(vec![("P", int(1))], v, vec![("Z", int(2))])), ("Y", int(3))]))));
    r.push(("after a table", format!("T[2|]{{X}}:\n  1\n  2\n{}", t), with(&|v| cat(vec![("T", J::Arr(vec![o(vec![("X", int(1))]), o(vec![("X", int(2))])]))], v, vec![]))));
    r.push(("after a list, before an object", format!("L[1]:\n  - X: 1\n{}\nY:\n  Z: 1", t), with(&|v| cat(vec![("L", J::Arr(vec![o(vec![("X", int(1))])]))], v, vec![("Y", o(vec![("Z", int(1))]))]))));
    if !blank && !(v.is_none() && below_first(t)) {
        let item = |n: usize| {
            let x = shift(t, n);
            format!("{}- {}", " ".repeat(n - 2), &x[n..])
        };
        r.push(("list item", format!("[2]:\n{}\n  - 5", item(4)), with(&|v| J::Arr(vec![v.clone(), int(5)]))));
        r.push(("item of a pipe list", format!("K[2|]:\n  - a,b\n{}", item(4)), with(&|v| o(vec![("K", J::Arr(vec![s("a,b"), v.clone()]))]))));
        r.push(("item of a tab list", format!("[3\t]:\n  - [2]: 1,2\n{}\n  - x", item(4)), with(&|v| J::Arr(vec![J::Arr(vec![int(1), int(2)]), v.clone(), s("x")]))));
        r.push(("last list item", format!("K:\n  L[2]:\n    - 5\n{}\nZ: 1", item(6)), with(&|v| o(vec![("K", o(vec![("L", J::Arr(vec![int(5), v.clone()]))])), ("Z", int(1))]))));
        r.push(("later fields of a list item", format!("[2]:\n  - P: 1\n{}\n    Z: 1\n  - 5", shift(t, 4)), with(&|v| J::Arr(vec![cat(vec![("P", int(1))], v, vec![("Z", int(1))]), int(5)]))));
        r.push(("under the first field of a list item", format!("[1]:\n  - K:\n{}\n    Z: 1", shift(t, 6)), with(&|v| J::Arr(vec![o(vec![("K", v.clone()), ("Z", int(1))])]))));
    }
    r
}

fn check(cx: &mut Cx, part: &str, w: &str, t: &str, want: &Option<J>) {
    cx.sample(|| format!("{} {:?} -> {}", w, t, want.as_ref().map(|v| v.json()).unwrap_or("error".into())));
    for strict in [true, false] {
        if want.is_none() && !strict {
            continue;
        }
        let oo = Opt { strict, ..BASE };
        let r = dec(cx, t, &oo.o());
        cx.evals += 1;
        let ok = match (want, &r) {
            (Some(v), Ok(x)) => v.same_ordered(x),
            (None, Err(e)) => !e.starts_with("PANIC"),
            _ => false,
        };
        if !ok {
            cx.fail(
                format!("{} {} {:?}", w, oo.s(), tag(t)),
                &[("part", tag(part)), ("context", w.into()), ("text", tag(t)), ("options", oo.s()), ("expected", want.as_ref().map(|v| v.json()).unwrap_or("error".into())), ("decoded", tag(&show(&r)))],
            );
        }
    }
}
/// what a part is: Some((value if well-formed, is it an array)), None: not a part of the space
fn part(cx: &mut Cx, t: &str) -> Option<(Option<J>, bool)> {
    let first = t.split('\n').next().unwrap();
    let array = first.starts_with('[');
    let keyed = !array && mc::dec::unquoted_colon(first) && !first.starts_with('-') && !first.starts_with(' ') && !first.is_empty();
    if !keyed && !array {
        return None;
    }
    match decode_strict(t, 2) {
        R::Ok(v) if array == matches!(v, J::Arr(_)) => {
            cx.cat("well-formed part");
            Some((Some(v), array))
        }
        // lines behind a root array may well belong to the larger document
        R::Reject(_) if array && t.split('\n').skip(1).any(|l| !l.starts_with(' ')) => None,
        R::Reject(_) => {
            cx.cat("malformed part");
            Some((None, array))
        }
        _ => None,
    }
}
fn upper(v: &J) -> J {
    match v {
        J::Str(s) => J::Str(s.to_uppercase()),
        J::Arr(a) => J::Arr(a.iter().map(upper).collect()),
        J::Obj(o) => J::Obj(o.iter().map(|(k, v)| (k.to_uppercase(), upper(v))).collect()),
        v => v.clone(),
    }
}

/// capital letters (the names the contexts bring) get a number, so that contexts can be nested
fn number(t: &str, level: usize) -> String {
    let mut r = String::with_capacity(t.len() + 8);
    for c in t.chars() {
        r.push(c.to_ascii_lowercase());
        if c.is_ascii_uppercase() {
            r.push_str(&level.to_string());
        }
    }
    r
}
fn number_j(v: &J, level: usize) -> J {
    match v {
        J::Str(s) => J::Str(number(s, level)),
        J::Arr(a) => J::Arr(a.iter().map(|x| number_j(x, level)).collect()),
        J::Obj(o) => J::Obj(o.iter().map(|(k, v)| (number(k, level), number_j(v, level))).collect()),
        v => v.clone(),
    }
}
fn nest(cx: &mut Cx, part: &str, path: &str, t: &str, v: Option<&J>, array: bool, level: usize, levels: usize) {
    if v.is_none() && below_first(t) && level > 1 {
        return;
    }
    for (w, d, want) in contexts(t, v, array) {
        let w = if path.is_empty() { w.to_string() } else { format!("{} / {}", path, w) };
        if level == levels {
            check(cx, part, &w, &d, &want);
        } else {
            let (d, want) = (number(&d, level), want.map(|v| number_j(&v, level)));
            let array = d.starts_with('[');
            nest(cx, part, &w, &d, want.as_ref(), array, level + 1, levels);
        }
    }
}

const BLANKS: [&str; 26] = [
    "a: x ", "b:  y", "c : 1", "d:1 ", "e: 1\t", "f:\t2", "g: \"q\" ", "h: true ", "\"i\" : z", "a[1]: x ", "b[2]: x , y ", "c[2|]:  1 |2", "d[1]{p}: ", "e[2]: ", "[2]: 1 , x ", "[1]: ", "- w ", "-  u: 1 ", "1 ", "f: ", "j[1] : 5", "k[1] :", "l[1]{p} :", "m [1]: 2", "n[1 ]: 2", "o[1]{ p }: ",
];

pub fn spec(th: bool) -> Spec {
    let mut fams = Vec::new();
    let mut add = |name: &str, l: Lines, levels: usize, what: &str| {
        let l = Arc::new(l);
        fams.push(Fam::new(name, l.count(), what, move |i, cx| {
            let Some(t) = l.get(i, 2) else {
                cx.skip();
                return;
            };
            let Some((v, array)) = part(cx, &t) else {
                cx.skip();
                return;
            };
            if cx.evals % 8 == 0 {
                cx.outcome(&t);
            }
            nest(cx, &t, "", &t, v.as_ref(), array, 1, levels);
        }));
    };
    add("lines3", Lines::new(&BODIES, 3, 1), 1, "every document of up to 3 lines over 26 line bodies and 4 depths in 13 contexts");
    add("lines4", Lines::new(&BODIES[..if th { 26 } else { 22 }], 4, 1), 1, "every document of up to 4 lines over 22 (thorough: 26) line bodies and 4 depths in 13 contexts");
    add("lines5", Lines::new(&BODIES[..if th { 11 } else { 8 }], 5, 1), 1, "every document of up to 5 lines over 8 (thorough: 11) line bodies and 4 depths in 13 contexts");
    add("nested-lines3", Lines::new(&BODIES[..if th { 26 } else { 20 }], 3, 1), 2, "every document of up to 3 lines over 20 (thorough: 26) line bodies in every two nested contexts");
    add("nested-lines2", Lines::new(&BODIES, 2, 1), if th { 4 } else { 3 }, "every document of up to 2 lines over 26 line bodies in every three (thorough: four) nested contexts");
    // blanks where the format does not decide what they mean: the same everywhere at least
    let l = Arc::new(Lines::new(&BLANKS, 3, 1));
    fams.push(Fam::new("blanks", l.count(), "every document of up to 3 lines over 26 line bodies with blanks around their tokens and 4 depths, whose value alone is what the real decoder says, in 13 contexts", move |i, cx| {
        let Some(t) = l.get(i, 2) else {
            cx.skip();
            return;
        };
        let first = t.split('\n').next().unwrap();
        let array = first.starts_with('[');
        let Ok(v) = dec(cx, &t, &BASE.o()) else {
            cx.skip();
            return;
        };
        if (!array && (!mc::dec::unquoted_colon(first) || first.starts_with('-') || first.starts_with(' '))) || array != matches!(v, J::Arr(_)) || below_first(&t) {
            cx.skip();
            return;
        }
        if cx.evals % 8 == 0 {
            cx.outcome(&t);
        }
        nest(cx, &t, "", &t, Some(&v), array, 1, 1);
    }));
    // two documents, one after the other
    let l = Arc::new(Lines::new(&BODIES, 2, 1));
    let n = l.count();
    fams.push(Fam::new("pairs", n * n, "every two documents of up to 2 lines over 26 line bodies and 4 depths: as fields of one object, as list items, as fields of a list item", move |i, cx| {
        let (Some(a), Some(b)) = (l.get(i / n, 2), l.get(i % n, 2)) else {
            cx.skip();
            return;
        };
        let (Some((va, false)), Some((vb, false))) = (part(cx, &a), part(cx, &b)) else {
            cx.skip();
            return;
        };
        let b = b.to_uppercase();
        let both = match (&va, &vb) {
            (Some(J::Obj(x)), Some(y)) => {
                let J::Obj(y) = upper(y) else { unreachable!() };
                let mut x = x.clone();
                x.extend(y);
                Some(J::Obj(x))
            }
            _ => None,
        };
        if cx.evals % 8 == 0 {
            cx.outcome(&a);
        }
        let t = format!("{}\n{}", a, b);
        check(cx, &t, "fields of one object", &t, &both);
        let legacy = (va.is_none() && below_first(&a)) || (vb.is_none() && below_first(&b));
        if !t.contains("\n\n") && !t.ends_with('\n') && !legacy {
            let item = |t: &str| format!("  - {}", &shift(t, 4)[4..]);
            let d = format!("[2]:\n{}\n{}", item(&a), item(&b));
            let want = match (&va, &vb) {
                (Some(x), Some(y)) => Some(J::Arr(vec![x.clone(), upper(y)])),
                _ => None,
            };
            check(cx, &t, "list items", &d, &want);
            check(cx, &t, "fields of a list item", &format!("[1]:\n{}", item(&t)), &both.map(|v| J::Arr(vec![v])));
        }
    }));
    Spec {
        id: "C23".into(),
        level: "model_checking",
        rule: "state = one document (or two); put under a key, before, after and between other fields, into a list, or next to each other, it must decode to the same value in its place, and a malformed one must make the whole malformed (strict)".into(),
        fams,
        assumptions: vec!["only documents that the reference strict decoder decides, whose first line is a field or a root array header".into()],
    }
}
