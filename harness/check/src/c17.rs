//! C17: no call is affected by earlier or concurrent calls.
use crate::c08::json_value;
use crate::common::*;
use crate::docs;
use crate::sched::{self, point};
use crate::types::*;
use mc::run::*;
use mc::space;
use mc::trees::{word_upto, words_upto};
use mc::val::*;
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::{Serialize, Serializer};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::sync::Arc;
use std::sync::atomic::Ordering;

thread_local! {
    /// work to do inside the n-th call into the caller's code
    static INSIDE: RefCell<Option<(u64, Box<dyn FnOnce()>)>> = const { RefCell::new(None) };
}
/// the library calls the caller's code
fn callback() {
    point();
    let go = INSIDE.with(|x| {
        let mut x = x.borrow_mut();
        match x.as_mut() {
            Some((0, _)) => x.take(),
            Some((n, _)) => {
                *n -= 1;
                None
            }
            None => None,
        }
    });
    if let Some((_, f)) = go {
        f()
    }
}
#[derive(Clone)]
enum V {
    Leaf(J),
    Arr(Vec<V>),
    Obj(Vec<(&'static str, V)>),
    Fail,
    Panic,
}
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        callback();
        match self {
            V::Leaf(j) => j.serialize(s),
            V::Arr(v) => s.collect_seq(v),
            V::Obj(o) => s.collect_map(o.iter().map(|(k, v)| (*k, v))),
            V::Fail => Err(serde::ser::Error::custom("planned failure")),
            V::Panic => panic!("planned panic"),
        }
    }
}
/// a generic target whose reading calls back
struct G(J);
impl<'de> Deserialize<'de> for G {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<G, D::Error> {
        struct X;
        impl<'de> Visitor<'de> for X {
            type Value = G;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_unit<E>(self) -> Result<G, E> {
                Ok(G(J::Null))
            }
            fn visit_bool<E>(self, b: bool) -> Result<G, E> {
                Ok(G(J::Bool(b)))
            }
            fn visit_i64<E>(self, x: i64) -> Result<G, E> {
                Ok(G(J::Num(N::I(x))))
            }
            fn visit_u64<E>(self, x: u64) -> Result<G, E> {
                Ok(G(J::Num(N::U(x))))
            }
            fn visit_f64<E>(self, x: f64) -> Result<G, E> {
                Ok(G(f(x)))
            }
            fn visit_str<E: serde::de::Error>(self, x: &str) -> Result<G, E> {
                callback();
                match x {
                    "fail here" => Err(E::custom("planned failure")),
                    "panic here" => panic!("planned panic"),
                    x => Ok(G(s(x))),
                }
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<G, A::Error> {
                let mut v = vec![];
                while let Some(G(x)) = a.next_element()? {
                    callback();
                    v.push(x);
                }
                Ok(G(J::Arr(v)))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<G, A::Error> {
                let mut v = vec![];
                while let Some(k) = a.next_key::<String>()? {
                    callback();
                    let G(x) = a.next_value()?;
                    v.push((k, x));
                }
                Ok(G(J::Obj(v)))
            }
        }
        callback();
        d.deserialize_any(X)
    }
}
struct Pipe<'a> {
    b: &'a [u8],
    step: usize,
    fail: bool,
}
impl Read for Pipe<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        callback();
        if self.b.is_empty() && self.fail {
            return Err(std::io::Error::other("planned failure"));
        }
        let n = self.step.min(buf.len()).min(self.b.len());
        buf[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}
struct Sink {
    got: Vec<u8>,
    step: usize,
    room: usize,
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        callback();
        let n = self.step.min(buf.len()).min(self.room);
        if n == 0 {
            return Err(std::io::Error::other("planned failure"));
        }
        self.got.extend_from_slice(&buf[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn l(j: J) -> V {
    V::Leaf(j)
}
fn table(n: i64) -> V {
    V::Obj(vec![("t", V::Arr((0..n).map(|i| V::Obj(vec![("id", l(int(i))), ("name", l(s("x,y|z")))])).collect())), ("e", l(J::Null))])
}
fn nested() -> V {
    let inner = V::Obj(vec![("b", V::Obj(vec![("c", l(s("true"))), ("d", V::Arr(vec![l(int(1)), V::Arr(vec![l(f(1.5))])]))]))]);
    V::Obj(vec![("a", inner.clone()), ("l", V::Arr(vec![inner, l(s("-")), V::Obj(vec![])]))])
}
fn with_last(mut v: V, x: V) -> V {
    match &mut v {
        V::Obj(o) => o.push(("z", V::Arr(vec![l(int(1)), x]))),
        _ => unreachable!(),
    }
    v
}
const DOC: &str = "a: 1\nt[2]{id,name}:\n  1,\"x,y\"\n  2,z\nl[2]:\n  - k: v\n    m[1]: 5\n  - 007";
const DOTTED: &str = "a.b.c: 1\na.b.d: x\n\"a.b\": 2\nl[1]:\n  - p.q: 1";

static DEEP: std::sync::LazyLock<String> = std::sync::LazyLock::new(|| (0..300).map(|i| format!("{}a:\n", " ".repeat(2 * i))).collect());

pub const OPS: usize = 24;
pub const OP_NAMES: [&str; OPS] = [
    "encode a table",
    "encode nested with folding, pipe, indent 4",
    "encode nested, tab, indent 1",
    "encode a value that fails at its end",
    "encode a value that panics at its end",
    "encode to a failing writer",
    "encode to a slow writer",
    "encode a JSON value by ser::to_string with folding",
    "encode_value_to_string, indent 3",
    "encode a scalar",
    "decode strictly",
    "decode a document with a wrong length",
    "decode leniently with wrong indentation",
    "decode strictly with wrong indentation",
    "decode with expansion",
    "decode without expansion",
    "decode with conflicting expansion",
    "decode a document meant for indent 4",
    "decode from a slow reader",
    "decode from a failing reader",
    "decode into a type",
    "decode into a type it does not fit",
    "decode into a target that panics",
    "decode a document nested too deep",
];
pub fn op(k: usize) -> String {
    let b = BASE;
    let e = |v: &V, o: Opt| shows(&guarded(|| toon::encode_to_string(v, &o.o()).map_err(|e| e.to_string())));
    let d = |t: &str, o: Opt| match guarded(|| toon::decode_from_str::<G>(t, &o.o()).map_err(|e| e.to_string())) {
        Ok(g) => g.0.json(),
        Err(e) => format!("error: {}", e),
    };
    match k {
        0 => e(&table(3), b),
        1 => e(&nested(), Opt { fold: Some(None), delim: '|', indent: 4, ..b }),
        2 => e(&nested(), Opt { delim: '\t', indent: 1, ..b }),
        3 => e(&with_last(nested(), V::Fail), Opt { fold: Some(Some(2)), ..b }),
        4 => e(&with_last(table(2), V::Panic), Opt { delim: '|', ..b }),
        5 | 6 => {
            let mut w = Sink { got: vec![], step: 9, room: if k == 5 { 30 } else { 1000 } };
            let r = guarded(|| toon::encode_to_writer(&mut w, &table(3), &Opt { indent: 8, ..b }.o()).map_err(|e| e.to_string()));
            format!("{:?} {:?}", r, String::from_utf8_lossy(&w.got))
        }
        7 => shows(&guarded(|| toon::ser::to_string(&nested(), &Opt { fold: Some(None), ..b }.o()).map_err(|e| e.to_string()))),
        8 => {
            let j = json_value(&space::place(s("a:b"), 12));
            shows(&guarded(|| toon::encode::encode_value_to_string(&j, &Opt { indent: 3, ..b }.o()).map_err(|e| e.to_string())))
        }
        9 => e(&l(f(-0.5)), b),
        10 => d(DOC, b),
        11 => d("a: 1\nt[3]{id,name}:\n  1,x\n  2,y\nb: 2", b),
        12 => d("a:\n   b: 1\n   c[2]: x,007\nt[1]{x}:\n     5", b.strict(false)),
        13 => d("a:\n   b: 1\n   c[2]: x,007\nt[1]{x}:\n     5", b),
        14 => d(DOTTED, Opt { expand: true, ..b }),
        15 => d(DOTTED, b),
        16 => d("a.b: 1\na: 2\na.c: 3", Opt { expand: true, ..b }),
        17 => d("a:\n    b:\n        c[2|]: \"x|y\"|-5\n    d: 1e5", Opt { indent: 4, ..b }),
        18 | 19 => {
            let p = Pipe { b: DOC.as_bytes(), step: 17, fail: k == 19 };
            match guarded(|| toon::decode_from_reader::<_, G>(p, &b.o()).map_err(|e| e.to_string())) {
                Ok(g) => g.0.json(),
                Err(e) => format!("error: {}", e),
            }
        }
        20 => format!("{:?}", guarded(|| toon::decode_from_str::<Rich>("a: 5\nb: x\nc[2]:\n  - Unit\n  - Tup[2]: 1,y", &b.o()).map_err(|e| e.to_string()))),
        21 => format!("{:?}", guarded(|| toon::decode_from_str::<Rich>("a: 5\nb: x\nc[2]:\n  - Unit\n  - Tup[2]: y,1", &b.o()).map_err(|e| e.to_string()))),
        22 => d("a[2]: x,panic here\nb: 1", b.strict(false)),
        _ => d(&DEEP, b),
    }
}
/// `check __c17 1,2,3`: the results of a history in a fresh process
pub fn child(seq: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    for k in seq.split(',') {
        println!("{:016x}", fnv(op(k.parse().unwrap()).as_bytes()));
    }
}
fn fresh(seq: &[usize]) -> Vec<String> {
    let t: Vec<String> = seq.iter().map(|k| k.to_string()).collect();
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("__c17").arg(t.join(",")).output().expect("start a process");
    String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect()
}
fn names(w: &[usize]) -> String {
    w.iter().map(|k| OP_NAMES[*k]).collect::<Vec<_>>().join("; ")
}
struct Base {
    h: Vec<String>,
}
impl Base {
    fn same(&self, k: usize, r: &str) -> bool {
        self.h[k] == format!("{:016x}", fnv(r.as_bytes()))
    }
    fn check(&self, cx: &mut Cx, k: usize, r: &str, history: &dyn Fn() -> String) {
        cx.evals += 1;
        cx.ops += 1;
        if !self.same(k, r) {
            cx.fail(
                format!("{} after {}", OP_NAMES[k], history()),
                &[("call", OP_NAMES[k].into()), ("history", history()), ("result", tag(r)), ("in a fresh process", "differs".into())],
            );
        }
    }
}
/// points of preemption of each op
fn counts() -> Vec<u64> {
    (0..OPS).map(|k| sched::points(|| drop(op(k)))).collect()
}
/// calls of each op into the caller's code
fn callbacks(k: usize) -> u64 {
    const MANY: u64 = 1 << 40;
    INSIDE.with(|x| *x.borrow_mut() = Some((MANY, Box::new(|| ()))));
    op(k);
    INSIDE.with(|x| MANY - x.borrow_mut().take().unwrap().0)
}

type DocCall = (String, Opt);
fn doc_calls(th: bool) -> Vec<DocCall> {
    let mut t: Vec<String> = docs::rich_docs();
    t.extend(docs::BODIES.iter().map(|s| s.to_string()));
    t.extend(docs::small_docs(if th { 4 } else { 3 }));
    t.sort();
    t.dedup();
    let mut v = Vec::new();
    for x in t {
        for o in [BASE, BASE.strict(false), Opt { expand: true, ..BASE }, Opt { indent: 4, ..BASE }] {
            v.push((x.clone(), o));
        }
    }
    v
}

pub fn spec(th: bool) -> Spec {
    std::panic::set_hook(Box::new(|_| {}));
    let mut fams = Vec::new();
    let base = Arc::new(Base { h: (0..OPS).map(|k| fresh(&[k]).pop().unwrap_or_default()).collect() });
    // histories, each in a process of its own
    let len = if th { 4 } else { 3 };
    let b = base.clone();
    fams.push(Fam::new("fresh histories", words_upto(OPS, len), &format!("every history of up to {} calls out of {} (successful, failing and panicking ones), each in a fresh process", len, OPS), move |i, cx| {
        let w = word_upto(i, OPS, len);
        if w.is_empty() {
            cx.skip();
            return;
        }
        let r = fresh(&w);
        for (n, k) in w.iter().enumerate() {
            cx.evals += 1;
            cx.ops += 1;
            cx.outcome(r.get(n).map(|s| s.as_str()).unwrap_or("none"));
            if r.get(n) != Some(&b.h[*k]) {
                cx.fail(format!("fresh process: {} after {}", OP_NAMES[*k], names(&w[..n])), &[("call", OP_NAMES[*k].into()), ("history", names(&w[..n]))]);
            }
        }
        cx.sample(|| names(&w));
    }));
    // longer histories in one thread each
    let len = if th { 5 } else { 4 };
    let b = base.clone();
    fams.push(Fam::new("histories", words_upto(OPS, len), &format!("every history of up to {} calls out of {} on a thread of its own, in one process", len, OPS), move |i, cx| {
        let w = word_upto(i, OPS, len);
        let run = |w: &[usize]| w.iter().map(|k| op(*k)).collect::<Vec<_>>();
        let r = if i % 64 == 0 { std::thread::scope(|s| s.spawn(|| run(&w)).join().unwrap()) } else { run(&w) };
        for (n, k) in w.iter().enumerate() {
            b.check(cx, *k, &r[n], &|| names(&w[..n]));
        }
    }));
    let b = base.clone();
    let reps = if th { 20000 } else { 2000 };
    fams.push(Fam::new("long histories", OPS as u64, &format!("every call repeated {} times on one thread, then every call", reps), move |i, cx| {
        let k = i as usize;
        let mut first_bad = None;
        for n in 0..reps {
            let r = op(k);
            cx.ops += 1;
            if !b.same(k, &r) {
                first_bad = Some((n, r));
                break;
            }
        }
        cx.evals += 1;
        if let Some((n, r)) = first_bad {
            b.check(cx, k, &r, &|| format!("{} times itself", n));
        }
        for j in 0..OPS {
            b.check(cx, j, &op(j), &|| format!("{} times {}", reps, OP_NAMES[k]));
        }
    }).serial());
    // calls from inside calls
    let b = base.clone();
    let cbs: Vec<u64> = (0..OPS).map(callbacks).collect();
    let mut pairs = Vec::new();
    for a in 0..OPS {
        for n in 0..cbs[a] {
            for c in 0..OPS {
                pairs.push((a, n, c));
            }
        }
    }
    fams.push(Fam::new("calls inside calls", pairs.len() as u64, "every call started from inside every step of the caller's code (serialize, deserialize, read, write) that another call runs", move |i, cx| {
        let (a, n, c) = pairs[i as usize];
        let out = std::rc::Rc::new(RefCell::new(None));
        let o2 = out.clone();
        INSIDE.with(|x| {
            *x.borrow_mut() = Some((
                n,
                Box::new(move || {
                    *o2.borrow_mut() = Some(op(c));
                }),
            ))
        });
        let r = op(a);
        INSIDE.with(|x| x.borrow_mut().take());
        let inner = out.borrow_mut().take();
        b.check(cx, a, &r, &|| format!("{} inside its step {}", OP_NAMES[c], n));
        match inner {
            Some(r) => b.check(cx, c, &r, &|| format!("inside step {} of {}", n, OP_NAMES[a])),
            None => cx.cat("the step was not reached"),
        }
        cx.sample(|| format!("{} inside step {} of {}", OP_NAMES[c], n, OP_NAMES[a]));
    }));
    // two threads, every schedule with one preemption of the first
    let pts = Arc::new(counts());
    let (b, p) = (base.clone(), pts.clone());
    let pre: Vec<u64> = pts.iter().scan(0, |a, n| {
        *a += (n + 1) * OPS as u64;
        Some(*a)
    }).collect();
    let n = *pre.last().unwrap();
    fams.push(
        Fam::new("schedules, one preemption", n, &format!("every ordered pair of the {} calls on two threads: the first stopped at every allocation and callback while the second runs to its end (points per call: {:?})", OPS, p), move |i, cx| {
            let a = pre.partition_point(|x| *x <= i);
            let r = i - if a == 0 { 0 } else { pre[a - 1] };
            let (c, q) = ((r % OPS as u64) as usize, r / OPS as u64);
            schedule(cx, &b, a, c, [(0, q), (1, u64::MAX), (0, u64::MAX), (1, u64::MAX)]);
        })
        .serial(),
    );
    // two preemptions
    let sub: Vec<usize> = if th { (0..OPS).filter(|k| pts[*k] <= 150).collect() } else { (0..OPS).filter(|k| pts[*k] <= 60).collect() };
    let mut jobs: Vec<(usize, usize, u64)> = Vec::new();
    for x in &sub {
        for y in &sub {
            jobs.push((*x, *y, (pts[*x] + 1) * (pts[*y] + 1)));
        }
    }
    let pre: Vec<u64> = jobs.iter().scan(0, |a, j| {
        *a += j.2;
        Some(*a)
    }).collect();
    let n = pre.last().copied().unwrap_or(0);
    let (b, p) = (base.clone(), pts.clone());
    fams.push(
        Fam::new("schedules, two preemptions", n, &format!("every ordered pair of {} calls on two threads, the first stopped at every point, the second stopped at every point, then the first and then the second to their ends", sub.len()), move |i, cx| {
            let j = pre.partition_point(|x| *x <= i);
            let r = i - if j == 0 { 0 } else { pre[j - 1] };
            let (x, y, _) = jobs[j];
            let m = p[y] + 1;
            schedule(cx, &b, x, y, [(0, r / m), (1, r % m), (0, u64::MAX), (1, u64::MAX)]);
        })
        .serial(),
    );
    // two threads, preemption at machine instructions
    use crate::steps;
    let n = (steps::CALLS * steps::CALLS) as u64;
    fams.push(Fam::new("instruction schedules", n * 4, "every ordered pair of 14 small calls on two threads, each pair in fresh processes, before and after earlier calls: the first stopped before every machine instruction that may touch shared memory while the second runs to its end; and the first stopped before every access to a static, then the second before every access to one, then both to their ends", move |i, cx| {
        let (x, y, warm, two) = ((i / 4 % steps::CALLS as u64) as usize, (i / 4) as usize / steps::CALLS, i & 1, i >> 1 & 1);
        let o = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["__c17s", &x.to_string(), &y.to_string(), "0", "1", &warm.to_string(), &two.to_string()])
            .output()
            .expect("start a process");
        let t = String::from_utf8_lossy(&o.stdout).into_owned();
        let what = format!("A = {}, B = {}, {}, {}", steps::NAMES[x], steps::NAMES[y], if warm == 1 { "after other calls" } else { "first calls of the process" }, if two == 1 { "two preemptions" } else { "one preemption" });
        let mut ended = false;
        for l in t.lines() {
            if let Some(e) = l.strip_prefix("END ") {
                let n: Vec<u64> = e.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                cx.ops += n[2];
                cx.evals += 2 * n[2] + 1;
                cx.outcome(e.rsplit(' ').next().unwrap());
                if n[3] > 0 {
                    cx.cat("the second call waited for the first");
                }
                ended = true;
                cx.sample(|| format!("{}: {} instructions, {} points, {} schedules", what, n[0], n[1], n[2]));
            }
        }
        let bad = t.lines().find(|l| l.starts_with("FAIL")).map(|l| l.to_string());
        if bad.is_some() || !ended || !o.status.success() {
            cx.fail(format!("instruction schedule: {}", what), &[("calls", what.clone()), ("what", tag(&bad.unwrap_or_else(|| format!("no end: {}", o.status))))]);
        }
    }));
    // one buffer, two documents; one value, two option sets
    let dc = Arc::new(doc_calls(th));
    let n = dc.len() as u64;
    let alone: Arc<Vec<u64>> = Arc::new(dc.iter().map(|(t, o)| fnv(show(&guarded(|| toon::decode_from_str::<J>(t, &o.o()).map_err(|e| e.to_string()))).as_bytes())).collect());
    fams.push(Fam::new("document pairs", n * n, "every ordered pair of decode calls over ~200 documents and 4 option sets, the second document written over the first in the same buffer", move |i, cx| {
        let (x, y) = ((i / n) as usize, (i % n) as usize);
        let mut buf = String::with_capacity(4096);
        for k in [x, y] {
            buf.clear();
            buf.push_str(&dc[k].0);
            let r = show(&dec(cx, &buf, &dc[k].1.o()));
            cx.evals += 1;
            if fnv(r.as_bytes()) != alone[k] {
                cx.fail(
                    format!("{} {:?} after {} {:?}", dc[y].1.s(), dc[y].0, dc[x].1.s(), dc[x].0),
                    &[("first", format!("{} {:?}", dc[x].1.s(), dc[x].0)), ("second", format!("{} {:?}", dc[y].1.s(), dc[y].0)), ("result", r)],
                );
            }
        }
    }));
    // nearly the same call twice: what one needs must not be taken for what the other needs
    let tw: Arc<Vec<(J, J)>> = Arc::new(
        space::twins()
            .into_iter()
            .flat_map(|(x, y)| {
                let each = |f: &dyn Fn(&str) -> J| (f(&x), f(&y));
                let k = |t: &str, v: J| J::Obj(vec![(t.to_string(), v)]);
                vec![
                    each(&|t| s(t)),
                    each(&|t| k("k", s(t))),
                    each(&|t| k(t, int(1))),
                    each(&|t| k("p", k(t, k(t, int(1))))),
                    each(&|t| J::Arr(vec![s(t), s("x")])),
                    each(&|t| J::Arr(vec![k(t, int(1)), k(t, int(2))])),
                    each(&|t| J::Arr(vec![k(t, J::Arr(vec![s(t)])), int(1)])),
                ]
            })
            .collect(),
    );
    let odd = space::families(false).into_iter().find(|f| f.name == "odd-one").unwrap();
    let (nt, no) = (tw.len() as u64, if th { odd.n } else { odd.n / 8 });
    fams.push(Fam::new("twin calls", nt + no, "calls with two values that differ in one character, or in one member, after each other in both orders; encoding compared with the model's text, decoding with the value", move |i, cx| {
        let (x, y) = if i < nt {
            tw[i as usize].clone()
        } else {
            // the same case with two kinds of deviation
            let k = (i - nt) * (odd.n / no);
            ((odd.r#gen)(k), (odd.r#gen)((k + 3 * 7) % odd.n))
        };
        for o in [BASE, Opt { fold: Some(None), expand: true, delim: '|', ..BASE }] {
            if mc::enc::has_grey(&x, o.delim) || mc::enc::has_grey(&y, o.delim) {
                cx.cat("skipped: contains a string whose quoting is left open");
                continue;
            }
            let want = [mc::enc::encode(&x, o.e()), mc::enc::encode(&y, o.e())];
            for k in [0, 1, 0] {
                let v = [&x, &y][k];
                let r = enc(cx, v, &o.o());
                cx.evals += 1;
                if !matches!(&r, Ok(t) if *t == want[k]) {
                    cx.fail(format!("encode {} {} after its twin", o.s(), v.json()), &[("first", [&y, &x][k].json()), ("want", want[k].clone()), ("result", shows(&r))]);
                }
            }
            if o.expand {
                continue;
            }
            for k in [0, 1, 0] {
                let r = dec(cx, &want[k], &o.o());
                cx.evals += 1;
                if !matches!(&r, Ok(w) if w.same([&x, &y][k])) {
                    cx.fail(format!("decode {} {:?} after its twin", o.s(), want[k]), &[("first", want[1 - k].clone()), ("result", show(&r))]);
                }
            }
        }
    }));
    // calls that differ in their options
    let mut oc: Vec<(usize, Opt)> = Vec::new();
    let od = ["a:\n  b.c: 1", "a:\n    b: x\n    a.c: 2", "[2]:\n  - x\n  - y: \"q\"", "a[2|]{x|y}:\n  1|\"a,b\"\n  2|c", "a:\n   b: 1", "a.b: 1\na: 2", "a[3]: 1,2"];
    let ov = [
        J::Obj(vec![("a".into(), J::Obj(vec![("b".into(), J::Obj(vec![("c".into(), J::Obj(vec![("d".into(), s("x|y"))]))]))])), ("e".into(), s("p,q"))]),
        space::place(J::Arr(vec![s("a,b"), s("c|d"), s("e\tf")]), 14),
        J::Arr(vec![J::Obj(vec![("x".into(), int(1)), ("y".into(), s(","))]), J::Obj(vec![("x".into(), int(2)), ("y".into(), s("|"))])]),
    ];
    for indent in [0, 1, 2, 3, 4, 8] {
        for k in 0..24 {
            let o = Opt { indent, strict: k % 2 == 0, expand: k / 2 % 2 == 1, delim: DELIMS[k / 4 % 3], fold: if k / 12 == 0 { None } else { Some(Some(2)) } };
            oc.extend((0..od.len()).map(|d| (d, o)));
        }
        for k in 0..36 {
            let o = Opt { indent, strict: k % 2 == 0, expand: k % 2 == 0, delim: DELIMS[k / 2 % 3], fold: [None, Some(None), Some(Some(0)), Some(Some(1)), Some(Some(2)), Some(Some(3))][k / 6] };
            oc.extend((0..ov.len()).map(|v| (100 + v, o)));
        }
    }
    let call = move |cx: Option<&mut Cx>, k: usize, o: &Opt| -> u64 {
        let go = || {
            if k < 100 {
                show(&guarded(|| toon::decode_from_str::<J>(od[k], &o.o()).map_err(|e| e.to_string())))
            } else {
                shows(&guarded(|| toon::encode_to_string(&ov[k - 100], &o.o()).map_err(|e| e.to_string())))
            }
        };
        let r = go();
        if let Some(cx) = cx {
            cx.ops += 1;
            cx.evals += 1;
            cx.outcome(&r);
        }
        fnv(r.as_bytes())
    };
    let n = oc.len() as u64;
    let alone: Vec<u64> = oc.iter().map(|(k, o)| call(None, *k, o)).collect();
    fams.push(Fam::new("option pairs", n * n, "every ordered pair of calls over 7 documents and 3 values and the option sets: 6 indentations (0 too), 3 delimiters, strict or not, expansion on or off, folding off or with 5 depths", move |i, cx| {
        let (x, y) = ((i / n) as usize, (i % n) as usize);
        for k in [x, y] {
            if call(Some(cx), oc[k].0, &oc[k].1) != alone[k] {
                cx.fail(format!("option pair: {:?} then {:?}", oc[x], oc[y]), &[("first", format!("{:?}", oc[x])), ("second", format!("{:?}", oc[y])), ("differs", if k == x { "first" } else { "second" }.into())]);
            }
        }
    }));
    let mut vc: Vec<(J, Opt)> = Vec::new();
    let st = ["", "a", "5", "a b", "-", "true", "x:y", "a,b", "é", "a|b"];
    for x in st {
        for p in [0, 1, 5, 12, 15] {
            for o in [BASE, Opt { delim: '|', indent: 4, ..BASE }, Opt { fold: Some(None), ..BASE }, Opt { fold: Some(Some(2)), delim: '\t', ..BASE }] {
                vc.push((space::place(s(x), p), o));
            }
        }
    }
    for p in 0..space::KEY_POSITIONS {
        for o in [BASE, Opt { fold: Some(None), ..BASE }, Opt { delim: '|', ..BASE }] {
            vc.push((space::place_key("k", p), o));
            vc.push((space::place_key("k k", p), o));
        }
    }
    let n = vc.len() as u64;
    let mut alone: HashMap<u64, u64> = HashMap::new();
    for (k, (v, o)) in vc.iter().enumerate() {
        alone.insert(k as u64, fnv(shows(&guarded(|| toon::encode_to_string(v, &o.o()).map_err(|e| e.to_string()))).as_bytes()));
    }
    fams.push(Fam::new("value pairs", n * n, "every ordered pair of encode calls over 78 values and up to 4 option sets", move |i, cx| {
        for k in [i / n, i % n] {
            let (v, o) = &vc[k as usize];
            let r = shows(&enc(cx, v, &o.o()));
            cx.evals += 1;
            if fnv(r.as_bytes()) != alone[&k] {
                let (w, p) = &vc[(i / n) as usize];
                cx.fail(format!("{} {} after {} {}", o.s(), v.json(), p.s(), w.json()), &[("first", format!("{} {}", p.s(), w.json())), ("second", format!("{} {}", o.s(), v.json())), ("result", r)]);
            }
        }
    }));
    Spec {
        id: "C17".into(),
        level: "model_checking",
        rule: "state = one history of calls, one nesting of a call inside another, or one schedule of two calls on two threads (for instruction schedules one ordered pair with all its schedules, counted as executions); every call gives the result it gives as the only call of a fresh process".into(),
        fams,
        assumptions: vec![
            "big calls are preempted at allocations (by the harness's global allocator) and at calls into the caller's code, small calls before every instruction that may touch shared memory, with at most two preemptions before both run to their ends".into(),
            "instructions run in program order with sequentially consistent memory; reorderings by the processor are not explored".into(),
            "if the stopped thread holds a lock the other needs, both are let go and only the results are compared".into(),
        ],
    }
}
fn schedule(cx: &mut Cx, b: &Base, x: usize, y: usize, plan: [(usize, u64); 4]) {
    if sched::BLOCKED.load(Ordering::Relaxed) > 100 {
        cx.cat("skipped: the calls exclude each other by a lock");
        return;
    }
    let q = |q: u64| if q == u64::MAX { "to the end".to_string() } else { format!("for {} points", q) };
    let [r, t] = sched::run(plan, [&|| op(x), &|| op(y)]);
    let how = |me: &str| format!("{}: A = {} {}, B = {} {}, then A, then B", me, OP_NAMES[x], q(plan[0].1), OP_NAMES[y], q(plan[1].1));
    b.check(cx, x, &r, &|| how("A of schedule"));
    b.check(cx, y, &t, &|| how("B of schedule"));
    cx.sample(|| how("schedule"));
}
