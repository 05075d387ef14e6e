//! C22: every well-formed way of writing a value down decodes to it.
use crate::common::*;
use mc::enc::{Q, key_plain, quote_value, quoted, table_fields};
use mc::run::*;
use mc::trees::Trees;
use mc::val::*;

/// Nondeterministic choices, replayed and advanced like an odometer.
pub struct Ch {
    seq: Vec<(usize, usize)>,
    pos: usize,
}
impl Ch {
    pub fn new() -> Ch {
        Ch { seq: vec![], pos: 0 }
    }
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if self.pos == self.seq.len() {
            self.seq.push((0, n));
        }
        self.pos += 1;
        self.seq[self.pos - 1].0
    }
    /// the next choice sequence in depth-first order; false when all are done
    pub fn next(&mut self) -> bool {
        self.pos = 0;
        while let Some((c, n)) = self.seq.pop() {
            if c + 1 < n {
                self.seq.push((c + 1, n));
                return true;
            }
        }
        false
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// array forms, a delimiter for each array, blank lines; quoting the same way throughout
    Forms,
    /// quoting and spacing of every single token
    Tokens,
}
struct R<'a> {
    ch: &'a mut Ch,
    mode: Mode,
    /// quote all keys / all strings
    qk: bool,
    qs: bool,
    indent: usize,
    lines: Vec<(usize, String)>,
    /// first and last line of every array
    arrays: Vec<(usize, usize)>,
}
impl R<'_> {
    fn quote(&mut self, global: bool) -> bool {
        if self.mode == Mode::Tokens { self.ch.pick(2) == 1 } else { global }
    }
    fn key(&mut self, k: &str) -> String {
        if !key_plain(k) || self.quote(self.qk) { quoted(k) } else { k.into() }
    }
    fn prim(&mut self, v: &J, d: char) -> String {
        match v {
            J::Str(s) => {
                if quote_value(s, d) != Q::MustNot || self.quote(self.qs) { quoted(s) } else { s.clone() }
            }
            _ => mc::enc::prim_token(v, d),
        }
    }
    fn join(&mut self, c: Vec<String>, d: char) -> String {
        let mut o = String::new();
        for (i, c) in c.iter().enumerate() {
            if i > 0 {
                let sp = if self.mode == Mode::Tokens { self.ch.pick(3) } else { 0 };
                if sp == 2 {
                    o.push(' ');
                }
                o.push(d);
                if sp > 0 {
                    o.push(' ');
                }
            }
            o.push_str(c);
        }
        o
    }
    fn line(&mut self, depth: usize, t: String) {
        self.lines.push((depth, t));
    }
    /// `head` stands before the bracket of an array or before the colon of a field
    fn array(&mut self, depth_of_line: usize, head: String, items: &[J], child: usize) {
        if items.is_empty() {
            // the delimiter mark of an empty array means nothing
            let m = ["", "|", "\t"][self.ch.pick(3)];
            return self.line(depth_of_line, format!("{}[0{}]:", head, m));
        }
        let d = [',', '|', '\t'][self.ch.pick(3)];
        let m = if d == ',' { String::new() } else { d.to_string() };
        let h = format!("{}[{}{}]", head, items.len(), m);
        let inline = items.iter().all(|v| v.is_prim());
        let fields = table_fields(items);
        let form = if inline || fields.is_some() { self.ch.pick(2) } else { 1 };
        let start = self.lines.len();
        if form == 0 && inline {
            let c = items.iter().map(|v| self.prim(v, d)).collect();
            let c = self.join(c, d);
            self.line(depth_of_line, format!("{}: {}", h, c));
            return;
        }
        if form == 0 {
            let mut f = fields.unwrap();
            let r = if self.mode == Mode::Forms { self.ch.pick(f.len()) } else { 0 };
            f.rotate_left(r);
            let names: Vec<String> = f.iter().map(|k| self.key(k)).collect();
            let names = self.join(names, d);
            self.line(depth_of_line, format!("{}{{{}}}:", h, names));
            for it in items {
                let J::Obj(o) = it else { unreachable!() };
                let cells = f.iter().map(|k| self.prim(&o.iter().find(|(x, _)| x == k).unwrap().1, d)).collect();
                let row = self.join(cells, d);
                self.line(child, row);
            }
        } else {
            self.line(depth_of_line, format!("{}:", h));
            for it in items {
                match it {
                    J::Arr(a) => self.array(child, "- ".into(), a, child + 1),
                    J::Obj(o) if o.is_empty() => self.line(child, "-".into()),
                    J::Obj(o) => {
                        for (i, (k, v)) in o.iter().enumerate() {
                            if i == 0 { self.field(child, "- ", k, v, child + 2) } else { self.field(child + 1, "", k, v, child + 2) }
                        }
                    }
                    p => {
                        let t = self.prim(p, d);
                        self.line(child, format!("- {}", t));
                    }
                }
            }
        }
        self.arrays.push((start, self.lines.len() - 1));
    }
    fn field(&mut self, depth_of_line: usize, pre: &str, k: &str, v: &J, child: usize) {
        let k = self.key(k);
        match v {
            J::Arr(a) => self.array(depth_of_line, format!("{}{}", pre, k), a, child),
            J::Obj(o) => {
                self.line(depth_of_line, format!("{}{}:", pre, k));
                for (k, v) in o {
                    self.field(child, "", k, v, child + 1);
                }
            }
            p => {
                let t = self.prim(p, ',');
                self.line(depth_of_line, format!("{}{}: {}", pre, k, t));
            }
        }
    }
    fn doc(mut self, v: &J) -> String {
        match v {
            J::Arr(a) => self.array(0, String::new(), a, 1),
            J::Obj(o) => {
                for (k, v) in o {
                    self.field(0, "", k, v, 1);
                }
            }
            p => {
                let t = self.prim(p, ',');
                self.line(0, t);
            }
        }
        let blank = if self.mode == Mode::Forms { self.ch.pick(4) } else { 0 };
        let mut out = String::new();
        if blank == 3 {
            out.push('\n');
        }
        let n = self.lines.len();
        for (i, (d, t)) in self.lines.iter().enumerate() {
            out.push_str(&" ".repeat(d * self.indent));
            out.push_str(t);
            if i + 1 < n {
                out.push('\n');
                // a blank line anywhere but inside an array
                if blank == 2 && !self.arrays.iter().any(|(s, e)| *s <= i && i < *e) {
                    out.push('\n');
                }
            }
        }
        if blank == 1 {
            out.push('\n');
        }
        if blank == 2 {
            out.push_str("\n\n");
        }
        out
    }
}

fn fam(name: &str, n: u64, what: &str, modes: &'static [Mode], g: impl Fn(u64) -> J + Send + Sync + 'static) -> Fam {
    Fam::new(name, n, what, move |i, cx| {
        let v = g(i);
        for mode in modes {
            let quotes: &[(bool, bool)] = if *mode == Mode::Forms { &[(false, false), (true, true)] } else { &[(false, false)] };
            for (qk, qs) in quotes {
                let mut ch = Ch::new();
                loop {
                    let indent = [2, 1, 4][(i % 3) as usize];
                    let t = R { ch: &mut ch, mode: *mode, qk: *qk, qs: *qs, indent, lines: vec![], arrays: vec![] }.doc(&v);
                    cx.states += 1;
                    if cx.evals % 8 == 0 {
                        cx.outcome(&t);
                    }
                    cx.sample(|| format!("{:?} -> {}", t, v.json()));
                    let o = Opt { indent, delim: DELIMS[(cx.evals % 3) as usize], strict: cx.evals % 4 != 3, ..BASE };
                    let r = dec(cx, &t, &o.o());
                    cx.evals += 1;
                    if !matches!(&r, Ok(w) if w.same(&v)) {
                        cx.fail(format!("{} {:?}", o.s(), tag(&t)), &[("text", tag(&t)), ("options", o.s()), ("expected", tag(&v.json())), ("decoded", tag(&show(&r)))]);
                    }
                    if !ch.next() {
                        break;
                    }
                }
            }
        }
    })
}

pub fn spec(th: bool) -> Spec {
    const K: [&str; 8] = ["a", "b", "c", "d", "e", "f", "g", "h"];
    let mut fams = Vec::new();
    let m = if th { 6 } else { 5 };
    let tr = Trees::new(vec![int(1), s("x")], &K, m, true);
    fams.push(fam(
        "trees",
        tr.count_upto(m),
        &format!("all JSON trees of up to {} nodes over {{1, \"x\", [], {{}}}} x every choice of array form, array delimiter, field order, blank lines; x every choice of quoting and spacing for every token", m),
        &[Mode::Forms, Mode::Tokens],
        move |i| tr.upto(i, m),
    ));
    let n = m + 1;
    let tr = Trees::new(vec![int(1)], &K, n, true);
    fams.push(fam(
        "trees-forms",
        tr.count(n),
        &format!("all JSON trees of {} nodes over {{1, [], {{}}}} x every choice of array form, array delimiter, field order, blank lines", n),
        &[Mode::Forms],
        move |i| tr.tree(n, i),
    ));
    // special strings and keys in small shapes
    let st = mc::space::strings();
    let ns = st.len() as u64;
    let clear = |x: &str| DELIMS.iter().all(|d| quote_value(x, *d) != Q::Either);
    fams.push(fam(
        "strings",
        ns * 6,
        "special strings as values and keys in 6 shapes x every choice of quoting and spacing for every token, and of form and delimiter",
        &[Mode::Forms, Mode::Tokens],
        move |i| {
            let x = &st[(i / 6) as usize];
            let x = if clear(x) { x.as_str() } else { "q" };
            match i % 6 {
                0 => s(x),
                1 => J::Obj(vec![("k".into(), s(x)), (format!("k{}", x), int(1))]),
                2 => J::Arr(vec![s(x), s("y"), s(x)]),
                3 => J::Obj(vec![(x.to_string(), J::Arr(vec![J::Obj(vec![("p".into(), s(x)), (format!("{}z", x), int(2))])]))]),
                4 => J::Arr(vec![J::Obj(vec![(x.to_string(), s(x)), (format!("{}z", x), J::Arr(vec![]))])]),
                _ => J::Arr(vec![J::Arr(vec![s(x), int(5)]), s(x)]),
            }
        },
    ));
    // tables
    let pos: &[u64] = if th { &[0, 1, 2, 3, 4] } else { &[1, 3] };
    fams.push(fam(
        "tables",
        16 * 16 * 16 * 6 * pos.len() as u64,
        "3-row arrays over all ordered key subsets of {a,b,c}, 6 cell variants, 2 (thorough: 5) positions x every choice of form, delimiter, field order, blank lines",
        &[Mode::Forms],
        move |i| mc::space::table_case(i % (4096 * 6) + 4096 * 6 * pos[(i / (4096 * 6)) as usize]),
    ));
    Spec {
        id: "C22".into(),
        level: "model_checking",
        rule: "state = one value with one sequence of choices of the nondeterministic writer; the text must decode to the value".into(),
        fams,
        assumptions: vec!["the writer's choices: inline, tabular or list form; the delimiter of every array; order of table fields; optional quotes; spaces around delimiters; blank lines outside arrays; final newline".into()],
    }
}
