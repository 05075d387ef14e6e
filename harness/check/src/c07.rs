//! C07: every single damage to an encoded document is a syntax error in strict mode.
use crate::c02;
use crate::common::*;
use mc::enc::{Arr, Kind, annotate};
use mc::run::*;
use mc::space;
use mc::val::*;

struct Doc<'a> {
    cx: &'a mut Cx,
    o: Opt,
    oo: toon::Options,
    lines: Vec<String>,
}
impl Doc<'_> {
    /// the text with lines a..b replaced
    fn with(&self, a: usize, b: usize, new: &[&str]) -> String {
        let mut v: Vec<&str> = self.lines[..a].iter().map(|s| s.as_str()).collect();
        v.extend(new);
        v.extend(self.lines[b..].iter().map(|s| s.as_str()));
        v.join("\n")
    }
    fn expect_error(&mut self, t: &str, kind: &'static str) {
        self.cx.ops += 1;
        self.cx.evals += 1;
        self.cx.cat(kind);
        let oo = &self.oo;
        let r = guarded(|| match toon::decode_from_str::<J>(t, oo) {
            Ok(v) => Ok((true, v.json())),
            Err(toon::Error::Syntax { line, message }) => Ok((false, format!("{} {}", line, message))),
            Err(e) => Err(format!("not a syntax error: {}", e)),
        });
        match &r {
            Ok((false, m)) => self.cx.outcome(m),
            _ => {
                let got = match &r {
                    Ok((_, v)) => format!("value {}", v),
                    Err(e) => e.clone(),
                };
                let whole = self.lines.join("\n");
                self.cx.fail(
                    format!("{} {} {}", kind, self.o.s(), tag(&format!("{:?}", t))),
                    &[("damage", kind.into()), ("options", self.o.s()), ("document", tag(&whole)), ("damaged", tag(t)), ("strict decoding gave", tag(&got))],
                );
            }
        }
    }
}

/// What may stand behind the last cell of a row: one or two more cells of every kind.
fn surplus(cells: &[String]) -> Vec<Vec<String>> {
    let last = cells.last().map(|x| x.as_str()).unwrap_or("");
    let kinds = ["1", "x", "\"q\"", "", "null", "true", "\"\"", "-", "#", last];
    let mut out: Vec<Vec<String>> = kinds.iter().map(|k| vec![k.to_string()]).collect();
    out.extend(["null", "", "\"\"", last].iter().map(|k| vec![k.to_string(); 2]));
    out
}


/// all positions of short arrays; both ends and the middle of long ones
fn picks(n: usize) -> Vec<usize> {
    if n <= 24 {
        return (0..n).collect();
    }
    let mut v = vec![0, 1, n / 2, n - 2, n - 1];
    v.dedup();
    v
}

/// byte positions of the closing quotes of a line
fn closing_quotes(l: &str) -> Vec<usize> {
    let b = l.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    let mut open = false;
    while i < b.len() {
        match b[i] {
            b'\\' if open => i += 1,
            b'"' => {
                if open {
                    v.push(i);
                }
                open = !open;
            }
            _ => {}
        }
        i += 1;
    }
    v
}

/// whether, with this delimiter, some quoted token of the line is unterminated or followed by text; a quote
/// inside an unquoted token does not count
fn badly_quoted(l: &str, delim: u8) -> bool {
    let b = l.as_bytes();
    let mut start = true;
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' && start {
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            if i >= b.len() {
                return true;
            }
            while i + 1 < b.len() && b[i + 1] == b' ' {
                i += 1;
            }
            if i + 1 < b.len() && b[i + 1] != delim && !matches!(b[i + 1], b':' | b'[' | b'}') {
                return true;
            }
            start = false;
        } else if !matches!(b[i], b' ' | b'-') {
            start = b[i] == delim || matches!(b[i], b':' | b'{');
        }
        i += 1;
    }
    false
}

pub fn damages(cx: &mut Cx, v: &J, o: &Opt, oo: &toon::Options, mix: Option<u64>) {
    let (lines, arrs) = annotate(v, o.e(), mix);
    let whole = lines.join("\n");
    cx.sample(|| format!("{} {:?}: {} arrays", o.s(), whole, arrs.len()));
    // only texts that are read back as the value can be damaged meaningfully
    let r = dec(cx, &whole, oo);
    if !matches!(&r, Ok(w) if o.fold.is_some() || w.same(v)) {
        cx.cat("skipped: the undamaged text is not read back");
        return;
    }
    let mut d = Doc { cx, o: *o, oo: oo.clone(), lines };
    for a in &arrs {
        array(&mut d, a);
    }
    let step = o.indent;
    for i in picks(d.lines.len()) {
        let l = d.lines[i].clone();
        let body = l.trim_start_matches(' ');
        let w = l.len() - body.len();
        if body.is_empty() {
            continue;
        }
        if step > 1 {
            d.expect_error(&d.with(i, i + 1, &[&format!(" {}", l)]), "one space more");
            if w > 0 {
                d.expect_error(&d.with(i, i + 1, &[&l[1..]]), "one space less");
            }
        }
        d.expect_error(&d.with(i, i + 1, &[&format!("\t{}", l)]), "tab before the indentation");
        if w > 0 {
            d.expect_error(&d.with(i, i + 1, &[&format!("{}\t{}", &l[..w - 1], body)]), "tab for the last space of the indentation");
            d.expect_error(&d.with(i, i + 1, &[&format!("\t{}", &l[1..])]), "tab for the first space of the indentation");
            d.expect_error(&d.with(i, i + 1, &[&format!("{}\t{}", &l[..w], body)]), "tab after the indentation");
        }
        let q = closing_quotes(&l);
        for k in q {
            let cut = format!("{}{}", &l[..k], &l[k + 1..]);
            if [b',', b'|', b'\t'].iter().all(|x| badly_quoted(&cut, *x)) {
                d.expect_error(&d.with(i, i + 1, &[&cut]), "closing quote cut");
            } else {
                d.cx.cat("skipped: without the quote the line is well quoted again");
            }
        }
    }
}

fn array(d: &mut Doc, a: &Arr) {
    let sep = a.delim.to_string();
    // declared length
    let n = a.n;
    for m in [0, 1, n.saturating_sub(1), n + 1, n + 2, n * 2, n * 10, n * 10 + 1, n / 10, 1 << 20, usize::MAX] {
        if m != n {
            d.expect_error(&d.with(a.line, a.line + 1, &[&a.header(&m.to_string())]), "length changed");
        }
    }
    match a.kind {
        Kind::Inline => {
            let c = &a.cells[0];
            let line = |c: &[String]| format!("{}{}: {}", a.head, a.bracket(n), c.join(&sep));
            for i in picks(n) {
                let mut x = c.clone();
                x.remove(i);
                let l = line(&x);
                d.expect_error(&d.with(a.line, a.line + 1, &[&l]), "inline value dropped");
                d.expect_error(&d.with(a.line, a.line + 1, &[l.trim_end_matches(' ')]), "inline value dropped");
                let mut x = c.clone();
                x.insert(i, c[i].clone());
                d.expect_error(&d.with(a.line, a.line + 1, &[&line(&x)]), "inline value doubled");
            }
            for t in surplus(c) {
                let mut x = c.clone();
                x.extend(t);
                d.expect_error(&d.with(a.line, a.line + 1, &[&line(&x)]), "inline values added");
            }
        }
        Kind::Table => {
            let pad = " ".repeat(a.pad);
            for i in picks(n) {
                let (s, e) = a.elems[i];
                let row = &a.cells[i];
                let line = |c: &[String]| format!("{}{}", pad, c.join(&sep));
                for j in picks(row.len()) {
                    let mut x = row.clone();
                    x.remove(j);
                    d.expect_error(&d.with(s, e, &[&line(&x)]), "cell dropped");
                    for t in [row[j].as_str(), "1", "x", "\"\"", "null", ""] {
                        let mut x = row.clone();
                        x.insert(j, t.into());
                        d.expect_error(&d.with(s, e, &[&line(&x)]), "cell added");
                    }
                }
                for t in surplus(row) {
                    let mut x = row.clone();
                    x.extend(t);
                    d.expect_error(&d.with(s, e, &[&line(&x)]), "cells added");
                }
            }
            // the header's fields
            let head = |f: &[String]| format!("{}{}{{{}}}:", a.head, a.bracket(n), f.join(&sep));
            for j in picks(a.fields.len()) {
                let mut x = a.fields.clone();
                x.remove(j);
                if !x.is_empty() {
                    d.expect_error(&d.with(a.line, a.line + 1, &[&head(&x)]), "header field dropped");
                }
                let mut x = a.fields.clone();
                x.insert(j, "fresh".into());
                d.expect_error(&d.with(a.line, a.line + 1, &[&head(&x)]), "header field added");
            }
        }
        Kind::List => {}
    }
    if a.kind != Kind::Inline {
        for i in picks(n) {
            let (s, e) = a.elems[i];
            d.expect_error(&d.with(s, e, &[]), "row or item dropped");
            let same: Vec<String> = d.lines[s..e].to_vec();
            let same: Vec<&str> = same.iter().map(|x| x.as_str()).collect();
            d.expect_error(&d.with(s, s, &same), "row or item doubled");
        }
        let (first, last) = (a.elems[0].0, a.elems[n - 1].0);
        for i in picks(last - first) {
            let at = first + 1 + i;
            d.expect_error(&d.with(at, at, &[""]), "blank line inside");
            d.expect_error(&d.with(at, at, &[&" ".repeat(a.pad)]), "blank line inside");
        }
        for i in picks(last - a.line) {
            let at = a.line + 1 + i;
            let t = d.lines[..at].join("\n");
            d.expect_error(&t, "truncated");
            d.expect_error(&format!("{}\n", t), "truncated");
        }
    }
}

pub fn spec(th: bool) -> Spec {
    let mut fams: Vec<Fam> = space::families(th)
        .into_iter()
        .map(|vf| {
            let heavy = ["deep", "lengths", "odd-one", "sizes"].contains(&vf.name);
            let (odd, sizes) = (vf.name == "odd-one", vf.name == "sizes");
            let size = if th || (vf.size == 0 && !heavy) { vf.size } else { 2 };
            let mut lay: Vec<_> = layouts(size).into_iter().map(|o| (o, o.o())).collect();
            if heavy && !th {
                lay.truncate(1);
            }
            let g = vf.r#gen.clone();
            Fam::new(vf.name, vf.n, &vf.what, move |i, cx| {
                let v = g(i);
                // long containers: only as root value in quick runs
                if heavy && !th && v.nodes() > 150 && (odd || i % 4 != 0) && !(sizes && v.nodes() < 33000) {
                    cx.skip();
                    return;
                }
                for (o, oo) in &lay {
                    damages(cx, &v, o, oo, None);
                }
            })
        })
        .collect();
    for (name, n, what, _, g) in c02::values(th) {
        if !["trees6", "siblings", "keys"].contains(&name.as_str()) {
            continue;
        }
        let o = Opt { fold: Some(None), ..BASE };
        fams.push(Fam::new(&format!("fold-{}", name), n, &format!("with key folding: {}", what), move |i, cx| {
            damages(cx, &g(i), &o, &o.o(), None);
        }));
    }
    Spec {
        id: "C07".into(),
        level: "fault_enumeration",
        rule: "state = one encoded document; execution = one damage at one place: every damage kind at every element, cell, line and quote (both ends and the middle of arrays, rows and texts longer than 24); strict decoding must give a syntax error; documents that are not read back undamaged are skipped and counted".into(),
        fams,
        assumptions: vec!["the places of the damages come from the reference encoder, whose text C03 equates with the encoder's".into()],
    }
}
