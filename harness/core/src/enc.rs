//! Reference encoder: TOON v3 canonical layout, written from the format rules.
use crate::val::{J, N};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct EOpt {
    pub delim: char,
    pub indent: usize,
    /// None: folding off. Some(d): safe folding with at most d segments.
    pub fold: Option<usize>,
}
impl EOpt {
    pub fn new(delim: char, indent: usize) -> Self {
        EOpt { delim, indent, fold: None }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Q {
    Must,
    MustNot,
    Either,
}

/// Must this string value be quoted?
pub fn quote_value(s: &str, delim: char) -> Q {
    if s.is_empty() || s == "true" || s == "false" || s == "null" || s.starts_with('-') {
        return Q::Must;
    }
    if s.starts_with(' ') || s.ends_with(' ') {
        return Q::Must;
    }
    for c in s.chars() {
        if matches!(c, ':' | '"' | '\\' | '[' | ']' | '{' | '}') || c == delim || (c as u32) < 0x20 || c as u32 == 0x7f {
            return Q::Must;
        }
    }
    if numeric_like(s) {
        return Q::Must;
    }
    // grey: spellings that some float grammars accept, exotic white space at the ends,
    // C1 controls, and '@' (the legacy table marker)
    if s.trim().parse::<f64>().is_ok()
        || s.strip_prefix('+').map_or(false, |t| t.trim().parse::<f64>().is_ok())
        || s.trim() != s
        || s.starts_with('@')
        || s.chars().any(|c| (0x80..0xa0).contains(&(c as u32)))
    {
        return Q::Either;
    }
    Q::MustNot
}

/// ^-?\d+(\.\d+)?([eE][+-]?\d+)?$
pub fn numeric_like(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && b[i] == b'-' {
        i += 1;
    }
    let d = |i: &mut usize| {
        let st = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i > st
    };
    if !d(&mut i) {
        return false;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        if !d(&mut i) {
            return false;
        }
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        if !d(&mut i) {
            return false;
        }
    }
    i == b.len()
}

pub fn key_plain(k: &str) -> bool {
    let b = k.as_bytes();
    !b.is_empty()
        && (b[0].is_ascii_alphabetic() || b[0] == b'_')
        && b[1..].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.')
}
pub fn ident(k: &str) -> bool {
    key_plain(k) && !k.contains('.')
}

pub fn quoted(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn string_token(s: &str, delim: char) -> String {
    // grey strings: quoting them is the safe reading; enumerations that compare
    // text exactly stay clear of them
    match quote_value(s, delim) {
        Q::MustNot => s.to_string(),
        _ => quoted(s),
    }
}
pub fn key_token(k: &str) -> String {
    if key_plain(k) { k.to_string() } else { quoted(k) }
}
pub fn num_token(n: &N) -> String {
    n.text()
}

pub fn prim_token(v: &J, delim: char) -> String {
    match v {
        J::Null => "null".into(),
        J::Bool(b) => b.to_string(),
        J::Num(n) => num_token(n),
        J::Str(s) => string_token(s, delim),
        _ => unreachable!(),
    }
}

/// Field names of the tabular form, if the array qualifies.
pub fn table_fields(items: &[J]) -> Option<Vec<String>> {
    let first = match items.first()? {
        J::Obj(o) if !o.is_empty() => o,
        _ => return None,
    };
    let keys: Vec<String> = first.iter().map(|(k, _)| k.clone()).collect();
    let mut want: Vec<&str> = keys.iter().map(|k| k.as_str()).collect();
    want.sort_unstable();
    for it in items {
        let J::Obj(o) = it else { return None };
        if !o.iter().all(|(_, v)| v.is_prim()) {
            return None;
        }
        let mut have: Vec<&str> = o.iter().map(|(k, _)| k.as_str()).collect();
        have.sort_unstable();
        if have != want {
            return None;
        }
    }
    Some(keys)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Inline,
    Table,
    List,
}
/// where one non-empty array stands in an encoded text
#[derive(Clone, Debug)]
pub struct Arr {
    pub kind: Kind,
    /// what stands before the bracket on the header line
    pub head: String,
    pub line: usize,
    pub n: usize,
    pub delim: char,
    pub fields: Vec<String>,
    /// inline: one row of tokens; table: a row for each element
    pub cells: Vec<Vec<String>>,
    /// first line and line after the last of every element (table, list)
    pub elems: Vec<(usize, usize)>,
    /// indentation of the rows or items
    pub pad: usize,
}
impl Arr {
    pub fn bracket(&self, n: usize) -> String {
        if self.delim == ',' { format!("[{}]", n) } else { format!("[{}{}]", n, self.delim) }
    }
    /// the header line with another length
    pub fn header(&self, n: &str) -> String {
        let b = if self.delim == ',' { format!("[{}]", n) } else { format!("[{}{}]", n, self.delim) };
        let d = self.delim.to_string();
        match self.kind {
            Kind::Inline => format!("{}{}: {}", self.head, b, self.cells[0].join(&d)),
            Kind::Table => format!("{}{}{{{}}}:", self.head, b, self.fields.join(&d)),
            Kind::List => format!("{}{}:", self.head, b),
        }
    }
}

struct W {
    lines: Vec<String>,
    arrs: Vec<Arr>,
    o: EOpt,
    /// every array takes its delimiter from the next base-3 digit
    mix: Option<u64>,
}

impl W {
    fn pad(&self, depth: usize) -> String {
        " ".repeat(depth * self.o.indent)
    }
    fn bracket(&self, n: usize) -> String {
        if self.o.delim == ',' { format!("[{}]", n) } else { format!("[{}{}]", n, self.o.delim) }
    }
    fn join(&self, cells: Vec<String>) -> String {
        cells.join(&self.o.delim.to_string())
    }
    /// An array whose header line starts with `head`; rows or items sit at `cd`.
    fn array(&mut self, head: &str, items: &[J], cd: usize, tables: bool, fold: Option<usize>) {
        let outer = self.o.delim;
        if let Some(m) = self.mix {
            self.o.delim = [',', '\t', '|'][(m % 3) as usize];
            self.mix = Some(if m < 3 { 81 + m } else { m / 3 });
        }
        self.array_body(head, items, cd, tables, fold);
        self.o.delim = outer;
    }
    fn array_body(&mut self, head: &str, items: &[J], cd: usize, tables: bool, fold: Option<usize>) {
        let d = self.o.delim;
        let br = self.bracket(items.len());
        if items.is_empty() {
            self.lines.push(format!("{head}{br}:"));
            return;
        }
        if tables {
            if let Some(keys) = table_fields(items) {
                let fields: Vec<String> = keys.iter().map(|k| key_token(k)).collect();
                let hk = self.join(fields.clone());
                let mut note = Arr { kind: Kind::Table, head: head.into(), line: self.lines.len(), n: items.len(), delim: d, fields, cells: vec![], elems: vec![], pad: cd * self.o.indent };
                self.lines.push(format!("{head}{br}{{{hk}}}:"));
                for it in items {
                    let J::Obj(o) = it else { unreachable!() };
                    let cells: Vec<String> = keys
                        .iter()
                        .map(|k| prim_token(&o.iter().find(|(l, _)| l == k).unwrap().1, d))
                        .collect();
                    note.elems.push((self.lines.len(), self.lines.len() + 1));
                    let row = self.join(cells.clone());
                    note.cells.push(cells);
                    self.lines.push(format!("{}{}", self.pad(cd), row));
                }
                self.arrs.push(note);
                return;
            }
        }
        if items.iter().all(|x| x.is_prim()) {
            let cells: Vec<String> = items.iter().map(|x| prim_token(x, d)).collect();
            let vals = self.join(cells.clone());
            self.arrs.push(Arr { kind: Kind::Inline, head: head.into(), line: self.lines.len(), n: items.len(), delim: d, fields: vec![], cells: vec![cells], elems: vec![], pad: 0 });
            self.lines.push(format!("{head}{br}: {vals}"));
            return;
        }
        let mut note = Arr { kind: Kind::List, head: head.into(), line: self.lines.len(), n: items.len(), delim: d, fields: vec![], cells: vec![], elems: vec![], pad: cd * self.o.indent };
        self.lines.push(format!("{head}{br}:"));
        for it in items {
            let st = self.lines.len();
            self.item(it, cd, fold);
            note.elems.push((st, self.lines.len()));
        }
        self.arrs.push(note);
    }
    fn item(&mut self, v: &J, depth: usize, fold: Option<usize>) {
        let p = self.pad(depth);
        match v {
            J::Arr(a) => self.array(&format!("{p}- "), a, depth + 1, false, fold),
            J::Obj(o) if o.is_empty() => self.lines.push(format!("{p}-")),
            J::Obj(o) => {
                let (k, v0) = &o[0];
                let head = format!("{p}- {}", key_token(k));
                match v0 {
                    J::Arr(a) => self.array(&head, a, depth + 2, true, fold),
                    J::Obj(inner) => {
                        self.lines.push(format!("{head}:"));
                        self.fields(inner, depth + 2, fold);
                    }
                    prim => {
                        let t = prim_token(prim, self.o.delim);
                        self.lines.push(format!("{head}: {t}"));
                    }
                }
                let sib: Vec<&str> = o.iter().map(|(k, _)| k.as_str()).collect();
                for (k, v) in &o[1..] {
                    self.field(k, v, depth + 1, fold, &sib);
                }
            }
            prim => {
                let t = prim_token(prim, self.o.delim);
                self.lines.push(format!("{p}- {t}"));
            }
        }
    }
    fn fields(&mut self, o: &[(String, J)], depth: usize, fold: Option<usize>) {
        let sib: Vec<&str> = o.iter().map(|(k, _)| k.as_str()).collect();
        for (k, v) in o {
            self.field(k, v, depth, fold, &sib);
        }
    }
    fn field(&mut self, k: &str, v: &J, depth: usize, fold: Option<usize>, siblings: &[&str]) {
        let mut fold = fold;
        if let Some(max) = fold {
            if let Some((path, rest)) = fold_chain(k, v, max) {
                fold = None; // one fold per chain; nothing below is folded again
                if !siblings.contains(&path.as_str()) {
                    self.plain_field(&path, rest, depth, None);
                    return;
                }
            }
        }
        self.plain_field(&key_token(k), v, depth, fold);
    }
    fn plain_field(&mut self, key: &str, v: &J, depth: usize, fold: Option<usize>) {
        let p = self.pad(depth);
        match v {
            J::Arr(a) => self.array(&format!("{p}{key}"), a, depth + 1, true, fold),
            J::Obj(o) => {
                self.lines.push(format!("{p}{key}:"));
                self.fields(o, depth + 1, fold);
            }
            prim => {
                let t = prim_token(prim, self.o.delim);
                self.lines.push(format!("{p}{key}: {t}"));
            }
        }
    }
}

/// The dotted path that `k` starts, with the value at its end: follow single-member
/// objects while every segment is an identifier and at most `max` segments are used.
pub fn fold_chain<'a>(k: &str, v: &'a J, max: usize) -> Option<(String, &'a J)> {
    if !ident(k) {
        return None;
    }
    let mut path = k.to_string();
    let mut segs = 1;
    let mut cur = v;
    while segs < max {
        match cur {
            J::Obj(o) if o.len() == 1 && ident(&o[0].0) => {
                path.push('.');
                path.push_str(&o[0].0);
                cur = &o[0].1;
                segs += 1;
            }
            _ => break,
        }
    }
    if segs >= 2 { Some((path, cur)) } else { None }
}

pub fn encode(v: &J, o: EOpt) -> String {
    encode_w(v, W { lines: Vec::new(), arrs: Vec::new(), o, mix: None })
}
/// Each array declares a delimiter of its own, chosen by the digits of `mix`.
pub fn encode_mixed(v: &J, o: EOpt, mix: u64) -> String {
    encode_w(v, W { lines: Vec::new(), arrs: Vec::new(), o, mix: Some(mix) })
}
/// the lines of the encoded text and the arrays in it
pub fn annotate(v: &J, o: EOpt, mix: Option<u64>) -> (Vec<String>, Vec<Arr>) {
    let mut w = W { lines: Vec::new(), arrs: Vec::new(), o, mix };
    fill(v, &mut w);
    (w.lines, w.arrs)
}
fn encode_w(v: &J, mut w: W) -> String {
    fill(v, &mut w);
    w.lines.join("\n")
}
fn fill(v: &J, w: &mut W) {
    let o = w.o;
    match v {
        J::Arr(a) => w.array("", a, 1, true, o.fold),
        J::Obj(m) => w.fields(m, 0, o.fold),
        prim => {
            let t = prim_token(prim, o.delim);
            w.lines.push(t);
        }
    }
}

/// The value that folded text denotes when its dotted keys are left alone.
pub fn fold_value(v: &J, max: usize) -> J {
    fn field(k: &str, v: &J, fold: Option<usize>, sib: &[&str]) -> (String, J) {
        let mut fold = fold;
        if let Some(max) = fold {
            if let Some((path, rest)) = fold_chain(k, v, max) {
                fold = None;
                if !sib.contains(&path.as_str()) {
                    return (path, rest.clone());
                }
            }
        }
        (k.to_string(), val(v, fold))
    }
    fn obj(o: &[(String, J)], fold: Option<usize>, skip_first: bool) -> J {
        let sib: Vec<&str> = o.iter().map(|(k, _)| k.as_str()).collect();
        J::Obj(
            o.iter()
                .enumerate()
                .map(|(i, (k, v))| if skip_first && i == 0 { (k.clone(), val(v, fold)) } else { field(k, v, fold, &sib) })
                .collect(),
        )
    }
    fn val(v: &J, fold: Option<usize>) -> J {
        match v {
            J::Obj(o) => obj(o, fold, false),
            J::Arr(a) => J::Arr(
                a.iter()
                    .map(|x| match x {
                        J::Obj(o) => obj(o, fold, true),
                        x => val(x, fold),
                    })
                    .collect(),
            ),
            v => v.clone(),
        }
    }
    val(v, Some(max))
}

/// Does the value contain a string whose quoting the rules leave open?
pub fn has_grey(v: &J, d: char) -> bool {
    match v {
        J::Str(s) => quote_value(s, d) == Q::Either,
        J::Arr(a) => a.iter().any(|x| has_grey(x, d)),
        J::Obj(o) => o.iter().any(|(_, x)| has_grey(x, d)),
        _ => false,
    }
}
pub fn has_dotted_key(v: &J) -> bool {
    match v {
        J::Arr(a) => a.iter().any(has_dotted_key),
        J::Obj(o) => o.iter().any(|(k, x)| k.contains('.') || has_dotted_key(x)),
        _ => false,
    }
}
