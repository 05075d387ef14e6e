//! C24: nothing in an accepted document is ignored.
use crate::common::*;
use crate::docs;
use mc::run::*;

/// every text that differs from `t` in one thing that must matter
fn changes(t: &str, f: &mut dyn FnMut(&'static str, String, Option<String>)) {
    let lines: Vec<&str> = t.split('\n').collect();
    let blank = |l: &str| l.trim_matches(' ').is_empty();
    let join = |v: &[&str]| v.join("\n");
    // long texts: both ends, the middle and all around a power of two
    let some = |i: usize, n: usize| t.len() <= 600 || i < 12 || i + 12 >= n || i.abs_diff(n / 2) < 5 || [32, 64, 128, 256].iter().any(|p| i.abs_diff(*p) < 3);
    for i in 0..lines.len() {
        if blank(lines[i]) || !some(i, lines.len()) {
            continue;
        }
        let lead = &lines[i][..lines[i].len() - lines[i].trim_start_matches(' ').len()];
        for (k, text) in ["q", "q: 1", "- q", "q[1]: 1", "1,1"].iter().enumerate() {
            for (dent, at) in [("", i), ("", i + 1), ("  ", i + 1), ("    ", i + 1)] {
                if k > 2 && at == i {
                    continue;
                }
                let l = format!("{}{}{}", lead, dent, text);
                let mut v = lines.clone();
                v.insert(at, &l);
                f("line added", join(&v), None);
            }
        }
        // nothing may be added to a line
        let e = lines[i].trim_end_matches([' ', '\r']);
        if empty_table(lines[i]) {
            continue;
        }
        for more in ["q", " q", ",null", "|null", "\tnull", ",", "|", ": 1", ",\"\"", "\"", "]", "}", "-", "#", " #q", "//"] {
            let l = format!("{}{}", e, more);
            let mut v = lines.clone();
            v[i] = &l;
            f("line made longer", join(&v), None);
        }
        // lists may do without a header of their own
        let b = lines[i].trim_matches([' ', '\t']);
        if !(b.ends_with(':') && b.starts_with('[')) && !b.starts_with("{0}") {
            let mut v = lines.clone();
            v.remove(i);
            f("line removed", join(&v), None);
        }
        let mut v = lines.clone();
        v.insert(i, lines[i]);
        f("line repeated", join(&v), None);
        if i + 1 < lines.len() && !blank(lines[i + 1]) && lines[i] != lines[i + 1] {
            let mut v = lines.clone();
            v.swap(i, i + 1);
            // unless one says the same as the other
            let mut w = lines.clone();
            w[i + 1] = w[i];
            f("lines swapped", join(&v), Some(join(&w)));
        }
    }
    let mut start = None; // of a declared length
    let mut empty = empty_table(t);
    for (i, c) in t.char_indices() {
        if let Some(s) = start {
            if !c.is_ascii_digit() {
                if i > s && t[s..i].len() < 19 {
                    let n: u64 = t[s..i].parse().unwrap();
                    f("length changed", format!("{}{}{}", &t[..s], n + 1, &t[i..]), None);
                    if n > 0 {
                        f("length changed", format!("{}{}{}", &t[..s], n - 1, &t[i..]), None);
                    }
                }
                start = None;
            }
        }
        if c == '[' {
            start = Some(i + 1);
        }
        // the fields of an empty table are in none of its rows
        if c == '\n' {
            empty = empty_table(&t[i + 1..]);
        }
        if !c.is_whitespace() && !empty && some(i, t.len()) {
            f("character added", format!("{}{}{}", &t[..i], if c == 'q' { 'w' } else { 'q' }, &t[i..]), None);
            f("character changed", format!("{}{}{}", &t[..i], if c == 'q' { 'w' } else { 'q' }, &t[i + c.len_utf8()..]), None);
        }
    }
}

fn empty_table(t: &str) -> bool {
    let l = t.split('\n').next().unwrap();
    let Some(e) = l.find("]{") else { return false };
    let Some(s) = l[..e].rfind('[') else { return false };
    l[s + 1..e].trim_matches(['0', ' ', '|', '\t', '+']).is_empty()
}

fn check(cx: &mut Cx, t: &str, o: Opt) {
    let Ok(v) = dec(cx, t, &o.o()) else {
        cx.cat("rejected");
        cx.evals += 1;
        return;
    };
    cx.cat("accepted");
    cx.sample(|| format!("{} {:?}", o.s(), t));
    if cx.states % 8 == 0 {
        cx.outcome(&v.json());
    }
    let oo = o.o();
    changes(t, &mut |what, d, same| {
        let r = dec(cx, &d, &oo);
        cx.evals += 1;
        if let Ok(w) = &r {
            if w.same_ordered(&v) && !same.is_some_and(|s| dec(cx, &s, &oo).is_ok_and(|x| x.same_ordered(&v))) {
                cx.fail(format!("{} {:?}", what, tag(&d)), &[("text", tag(t)), ("changed", tag(&d)), ("change", what.into()), ("options", o.s()), ("both decode to", tag(&v.json()))]);
            }
        }
    });
}

pub fn spec(th: bool) -> Spec {
    let mut fams = Vec::new();
    for d in docs::families(th) {
        let g = d.r#gen.clone();
        fams.push(Fam::new(&d.name, d.n, &d.what, move |i, cx| {
            let Some((t, ind)) = g(i) else {
                cx.skip();
                return;
            };
            check(cx, &t, Opt { indent: ind, ..BASE });
        }));
    }
    Spec {
        id: "C24".into(),
        level: "model_checking",
        rule: "state = one document accepted in strict mode; adding, removing, repeating or swapping lines with content, changing a declared length by one, replacing a visible character by a letter or inserting one, or adding something at the end of a line gives an error or another value (member order and repeated keys included)".into(),
        fams,
        assumptions: vec!["path expansion off".into()],
    }
}
