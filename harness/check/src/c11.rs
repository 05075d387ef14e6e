//! C11: path expansion against a model that inserts paths into an object one by one.
use crate::common::*;
use crate::docs::{DF, Lines};
use mc::run::*;
use mc::trees::*;
use mc::val::*;
use std::sync::Arc;

const K: [&str; 10] = ["a: 1", "a.b: 2", "a.b.c: 3", "a:", "\"a.b\": 4", "b: 5", "a.b[1]: 6", "a-x.b: 7", "b.a:", "a.b[1]{a.b}:"];
/// documents over dotted keys, for the strict/lenient comparison
pub fn doc_family(th: bool) -> DF {
    let max = if th { 5 } else { 4 };
    let l = Lines::new(&K, max, 1);
    DF {
        name: "paths".into(),
        n: l.count(),
        what: format!("every document of up to {} lines over 10 line bodies with dotted, quoted and plain keys and 4 depths", max),
        r#gen: Arc::new(move |i| l.get(i, 2).map(|t| (t, 2))),
    }
}

#[derive(Clone, Copy, Debug)]
struct Key {
    tok: &'static str,
    key: &'static str,
    quoted: bool,
}
const fn k(tok: &'static str) -> Key {
    Key { tok, key: tok, quoted: false }
}
const fn q(tok: &'static str, key: &'static str) -> Key {
    Key { tok, key, quoted: true }
}
const KEYS: [Key; 12] = [
    k("a"),
    k("a.b"),
    k("a.b.c"),
    k("b"),
    q("\"a.b\"", "a.b"),
    q("\"a\"", "a"),
    k("a.c"),
    k("a-x.b"),
    k("a..b"),
    k("1.b"),
    q("\"\u{200b}a.b\"", "\u{200b}a.b"),
    k("_.b1"),
];
/// keys for single entries: every way a segment can fail to be an identifier
const ODD: [&str; 24] = [
    "a.", ".a", ".", "..", "a.b.", "a.1", "a.1b", "a.b-c", "a-.b", "A.B", "_._", "a_.b_", "a.b.c.d.e", "a.é", "é.a", "a. b", "a .b", "\u{200b}a.b", "a.\u{200b}b", "a.b\u{200b}", "aa.bb", "Z9.z0", "true.false", "0.5",
];

#[derive(Clone, Debug)]
enum X {
    P(J),
    Obj(Vec<(Key, X)>),
    Arr(Vec<X>),
    Table(Vec<Key>, Vec<Vec<J>>),
}
impl X {
    /// value with expansion off
    fn plain(&self) -> J {
        match self {
            X::P(j) => j.clone(),
            X::Obj(m) => J::Obj(m.iter().map(|(k, v)| (k.key.to_string(), v.plain())).collect()),
            X::Arr(a) => J::Arr(a.iter().map(|x| x.plain()).collect()),
            X::Table(h, rows) => J::Arr(rows.iter().map(|r| J::Obj(h.iter().zip(r).map(|(k, v)| (k.key.to_string(), v.clone())).collect())).collect()),
        }
    }
    /// two verbatim keys with one name in one object: not covered by the property
    fn repeated(&self) -> bool {
        match self {
            X::Obj(m) => {
                m.iter().enumerate().any(|(i, (k, _))| !expands(k) && m[..i].iter().any(|(l, _)| !expands(l) && l.key == k.key)) || m.iter().any(|(_, v)| v.repeated())
            }
            X::Arr(a) => a.iter().any(|x| x.repeated()),
            _ => false,
        }
    }
    /// model; `conf` is set when a path meets something that is not an object
    fn expanded(&self, conf: &mut bool) -> J {
        match self {
            X::P(j) => j.clone(),
            X::Arr(a) => J::Arr(a.iter().map(|x| x.expanded(conf)).collect()),
            X::Table(h, rows) => J::Arr(
                rows.iter()
                    .map(|r| {
                        let mut o = Vec::new();
                        for (k, v) in h.iter().zip(r) {
                            insert(&mut o, &path(k), v.clone(), conf);
                        }
                        J::Obj(o)
                    })
                    .collect(),
            ),
            X::Obj(m) => {
                let mut o = Vec::new();
                for (k, v) in m {
                    let v = v.expanded(conf);
                    insert(&mut o, &path(k), v, conf);
                }
                J::Obj(o)
            }
        }
    }
    fn body(&self, depth: usize, out: &mut Vec<(usize, String)>) {
        if let X::Obj(m) = self {
            for (k, v) in m {
                v.field(k.tok, depth, out);
            }
        }
    }
    fn field(&self, key: &str, depth: usize, out: &mut Vec<(usize, String)>) {
        match self {
            X::P(j) => out.push((depth, format!("{}: {}", key, mc::enc::prim_token(j, ',')))),
            X::Obj(_) => {
                out.push((depth, format!("{}:", key)));
                self.body(depth + 1, out);
            }
            X::Table(h, rows) => {
                out.push((depth, format!("{}[{}]{{{}}}:", key, rows.len(), h.iter().map(|k| k.tok).collect::<Vec<_>>().join(","))));
                for r in rows {
                    out.push((depth + 1, r.iter().map(|j| mc::enc::prim_token(j, ',')).collect::<Vec<_>>().join(",")));
                }
            }
            X::Arr(a) => {
                out.push((depth, format!("{}[{}]:", key, a.len())));
                for x in a {
                    if matches!(x, X::Arr(_) | X::Table(..)) {
                        x.field("- ", depth + 1, out);
                        continue;
                    }
                    let at = out.len();
                    x.body(depth + 2, out);
                    match x {
                        X::P(j) => out.push((depth + 1, format!("- {}", mc::enc::prim_token(j, ',')))),
                        _ if out.len() == at => out.push((depth + 1, "-".into())),
                        _ => {
                            let l = &mut out[at];
                            l.0 -= 1;
                            l.1 = format!("- {}", l.1);
                        }
                    }
                }
            }
        }
    }
    fn text(&self, indent: usize) -> String {
        let mut out = Vec::new();
        match self {
            X::Obj(_) => self.body(0, &mut out),
            _ => self.field("", 0, &mut out),
        }
        out.iter().map(|(d, t)| format!("{}{}", " ".repeat(d * indent), t)).collect::<Vec<_>>().join("\n")
    }
}
fn expands(k: &Key) -> bool {
    !k.quoted && k.key.contains('.') && k.key.split('.').all(mc::enc::ident)
}
fn path(k: &Key) -> Vec<String> {
    if expands(k) { k.key.split('.').map(|s| s.to_string()).collect() } else { vec![k.key.to_string()] }
}
/// put `v` at `path`; objects merge, anything else conflicts and the later entry wins
fn insert(o: &mut Vec<(String, J)>, path: &[String], v: J, conf: &mut bool) {
    let pos = o.iter().position(|(k, _)| *k == path[0]);
    if path.len() == 1 {
        match pos {
            None => o.push((path[0].clone(), v)),
            Some(p) => match (&mut o[p].1, v) {
                (J::Obj(m), J::Obj(n)) => {
                    for (k, x) in n {
                        insert(m, &[k], x, conf);
                    }
                }
                (old, v) => {
                    *conf = true;
                    *old = v;
                }
            },
        }
        return;
    }
    let p = pos.unwrap_or_else(|| {
        o.push((path[0].clone(), J::Obj(vec![])));
        o.len() - 1
    });
    if !matches!(o[p].1, J::Obj(_)) {
        *conf = true;
        o[p].1 = J::Obj(vec![]);
    }
    let J::Obj(m) = &mut o[p].1 else { unreachable!() };
    insert(m, &path[1..], v, conf);
}

fn vals() -> Vec<X> {
    let n = |i: i64| X::P(int(i));
    vec![
        n(1),
        X::Obj(vec![]),
        X::Obj(vec![(k("b"), n(2))]),
        X::Obj(vec![(k("b.c"), n(3))]),
        X::Obj(vec![(k("c"), X::P(s("y"))), (k("b"), X::Obj(vec![(k("d"), n(4))]))]),
        X::Obj(vec![(q("\"b.c\"", "b.c"), n(5)), (k("a.b"), X::Obj(vec![]))]),
        X::Arr(vec![X::Obj(vec![(k("a.b"), n(6)), (k("a.c"), n(7)), (k("a"), X::Obj(vec![(k("d"), n(8))]))]), n(9)]),
        X::Table(vec![k("a.b"), k("a.c"), q("\"x.y\"", "x.y")], vec![vec![int(1), int(2), int(3)], vec![s("p"), J::Null, int(5)]]),
        X::Arr(vec![X::Obj(vec![(k("a.b"), X::Table(vec![k("c.d"), k("c.e")], vec![vec![int(1), int(2)]])), (k("x"), n(1))]), X::Obj(vec![])]),
    ]
}

const CTX_LEAVES: u64 = 7;
fn ctx_leaf(i: usize) -> X {
    let n = |i: i64| X::P(int(i));
    match i {
        0 => X::Obj(vec![(k("a.b"), n(1)), (k("a.c"), n(2))]),
        1 => X::Table(vec![k("a.b"), k("a.c"), q("\"a.d\"", "a.d")], vec![vec![int(1), int(2), int(3)]]),
        2 => X::Obj(vec![(q("\"a.b\"", "a.b"), n(1)), (k("a.b"), n(2))]),
        3 => X::Obj(vec![(k("a.b"), n(1)), (k("a"), n(2))]),
        4 => n(7),
        5 => X::Arr(vec![]),
        _ => X::Table(vec![k("a"), k("a.b")], vec![vec![int(1), int(2)]]),
    }
}
const CTX: u64 = 10;
fn ctx(i: usize, x: X, sib: &X) -> X {
    let n = |i: i64| X::P(int(i));
    match i {
        0 => X::Obj(vec![(k("p"), x)]),
        1 => X::Obj(vec![(k("p.q"), x), (k("p.r"), sib.clone())]),
        2 => X::Obj(vec![(k("y"), sib.clone()), (q("\"p.q\"", "p.q"), x)]),
        3 => X::Arr(vec![x]),
        4 => X::Arr(vec![x, sib.clone(), n(5)]),
        5 => X::Arr(vec![n(5), x, sib.clone()]),
        6 => X::Arr(vec![sib.clone(), x]),
        7 => X::Arr(vec![X::Arr(vec![x, n(5)]), sib.clone()]),
        8 => X::Arr(vec![X::Obj(vec![(k("f"), x), (k("g.h"), n(6))])]),
        _ => X::Arr(vec![X::Obj(vec![(k("f.e"), sib.clone()), (k("f.g"), x), (q("\"f.h\"", "f.h"), n(6))])]),
    }
}

fn compare(cx: &mut Cx, x: &X, indent: usize) {
    if x.repeated() {
        cx.skip();
        return;
    }
    let t = x.text(indent);
    let o = Opt { indent, ..BASE };
    let plain = x.plain();
    let mut conf = false;
    let full = x.expanded(&mut conf);
    cx.cat(if conf { "conflicting paths" } else { "mergeable paths" });
    cx.outcome(&full.json());
    cx.sample(|| format!("{:?} -> {}{}", t, full.json(), if conf { " (conflict)" } else { "" }));
    for st in [true, false] {
        let r = dec(cx, &t, &o.strict(st).o());
        cx.evals += 1;
        if !matches!(&r, Ok(v) if v.same_ordered(&plain)) {
            cx.fail(format!("off {} {:?}", o.strict(st).s(), t), &[("text", t.clone()), ("options", o.strict(st).s()), ("expected", plain.json()), ("decoded", show(&r))]);
        }
        let oe = Opt { expand: true, strict: st, ..o };
        let r = dec(cx, &t, &oe.o());
        cx.evals += 1;
        let ok = match (&r, conf && st) {
            (Err(e), true) => !e.starts_with("PANIC"),
            (Ok(v), false) => {
                if conf { v.same(&full) } else { v.same_ordered(&full) }
            }
            _ => false,
        };
        if !ok {
            let want = if conf && st { "error: conflict".to_string() } else { full.json() };
            cx.fail(format!("{} {:?}", oe.s(), t), &[("text", t.clone()), ("options", oe.s()), ("expected", want), ("decoded", show(&r))]);
        }
    }
}

pub fn spec(th: bool) -> Spec {
    let mut fams = Vec::new();
    let vs = vals();
    let entries: Vec<(Key, X)> = KEYS.iter().flat_map(|k| vs.iter().map(move |v| (*k, v.clone()))).collect();
    let small: Vec<(Key, X)> = KEYS.iter().take(7).flat_map(|k| vs.iter().take(6).map(move |v| (*k, v.clone()))).collect();
    let en = entries.clone();
    let n3 = words_upto(en.len(), 3);
    fams.push(Fam::new("objects", n3, "every object of up to 3 entries over 12 keys (plain, dotted, quoted, non-identifier) x 9 values", move |i, cx| {
        let w = word_upto(i, en.len(), 3);
        compare(cx, &X::Obj(w.iter().map(|j| en[*j].clone()).collect()), INDENTS[(i % 5) as usize]);
    }));
    let en = if th { entries } else { small };
    let len = if th { 3 } else { 3 };
    let n = words_upto(en.len(), len);
    fams.push(Fam::new("placed", n * 3, "the same (reduced alphabet in the quick run) below a dotted key, as a list item between others, and as list-item first field's value", move |i, cx| {
        let w = word_upto(i / 3, en.len(), len);
        let o = X::Obj(w.iter().map(|j| en[*j].clone()).collect());
        let x = match i % 3 {
            0 => X::Obj(vec![(k("a.b"), o), (k("z"), X::P(int(1)))]),
            1 => X::Obj(vec![(k("l"), X::Arr(vec![X::P(int(1)), o, X::Obj(vec![(k("a.b"), X::P(int(2)))])]))]),
            _ => X::Obj(vec![(k("l.m"), X::Arr(vec![X::Obj(vec![(k("f.g"), o), (k("f.h"), X::P(int(3)))])])), (k("l.n"), X::P(int(1)))]),
        };
        compare(cx, &x, 2);
    }));
    if th {
        let en: Vec<(Key, X)> = KEYS.iter().take(7).flat_map(|k| vals().into_iter().take(6).map(move |v| (*k, v))).collect();
        let n = (en.len() as u64).pow(4);
        fams.push(Fam::new("objects4", n, "every object of exactly 4 entries over 7 keys x 6 values", move |i, cx| {
            let w = word(i, en.len(), 4);
            compare(cx, &X::Obj(w.iter().map(|j| en[*j].clone()).collect()), 2);
        }));
    }
    // every kind of leaf that a path may meet
    let leaf: Vec<X> = vec![J::Null, J::Bool(false), J::Bool(true), int(0), f(1.5), s(""), s("null"), s("x")].into_iter().map(X::P).chain([X::Arr(vec![]), X::Arr(vec![X::P(J::Null)]), X::Obj(vec![]), X::Table(vec![k("b")], vec![vec![J::Null]])]).collect();
    let en: Vec<(Key, X)> = [k("a"), k("a.b"), k("a.b.c"), q("\"a\"", "a")].into_iter().flat_map(|k| leaf.iter().map(move |v| (k, v.clone())).collect::<Vec<_>>()).collect();
    let n = words_upto(en.len(), 3);
    fams.push(Fam::new("nested", CTX.pow(4) * CTX_LEAVES.pow(2) * 2, "7 objects and tables with dotted keys x 7 siblings of theirs, inside every 4 of 10 surroundings (below a plain, dotted or quoted key, as the only, first, middle or last item of a list or of a list in a list, as first or later field of a list item), at the root or below a key", |i, cx| {
        let mut i = i;
        let mut take = |n: u64| {
            let r = i % n;
            i /= n;
            r as usize
        };
        let mut x = ctx_leaf(take(CTX_LEAVES));
        let sib = ctx_leaf(take(CTX_LEAVES));
        let keyed = take(2) == 1;
        for _ in 0..4 {
            x = ctx(take(CTX), x, &sib);
        }
        if keyed || matches!(x, X::P(_)) {
            x = X::Obj(vec![(k("r"), x), (k("r2.s"), X::P(int(1)))]);
        }
        compare(cx, &x, 2);
    }));
    fams.push(Fam::new("leaves", n * 3, "every object of up to 3 entries over 4 keys on one path x 12 leaves (null, booleans, zero, empty string, empty array, empty object, ...), at the root, below a key, as a list item", move |i, cx| {
        let w = word_upto(i / 3, en.len(), 3);
        let o = X::Obj(w.iter().map(|j| en[*j].clone()).collect());
        let x = match i % 3 {
            0 => o,
            1 => X::Obj(vec![(k("z"), X::P(int(1))), (k("o"), o)]),
            _ => X::Obj(vec![(k("l"), X::Arr(vec![X::P(int(1)), o]))]),
        };
        compare(cx, &x, 2);
    }));
    // names that look alike
    let seg = ["a", "A", "ab", "a_", "_a", "aa", "b", "a1"];
    let nm: Arc<Vec<Key>> = Arc::new((1..words_upto(seg.len(), 3)).map(|i| k(&*word_upto(i, seg.len(), 3).iter().map(|j| seg[*j]).collect::<Vec<_>>().join(".").leak())).collect());
    let n = nm.len() as u64;
    fams.push(Fam::new("names", n * n, "every two keys of up to 3 segments over 8 names that resemble one another", move |i, cx| {
        let (x, y) = (nm[(i / n) as usize], nm[(i % n) as usize]);
        compare(cx, &X::Obj(vec![(x, X::P(int(1))), (y, X::P(int(2))), (k("z"), X::P(int(3)))]), 2);
    }));
    // many entries
    let names: Arc<Vec<[&'static str; 2]>> = Arc::new((0..1100).map(|i| [&*format!("s{}", i).leak(), &*format!("a.s{}", i).leak()]).collect());
    const MANY: [usize; 24] = [2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 128, 129, 257, 1000];
    fams.push(Fam::new("many", MANY.len() as u64 * 3 * 3 * 10 * 3, "objects of up to 1000 entries, plain or with dotted keys that merge or both, with one more entry (10 kinds: merging, conflicting, quoted) first, in the middle or last; at the root, below a dotted key, as a list item", move |i, cx| {
        let mut i = i;
        let mut take = |n: u64| {
            let r = i % n;
            i /= n;
            r as usize
        };
        let (pos, kind, ex, at, n) = (take(3), take(3), take(10), take(3), MANY[take(24)]);
        let mut m: Vec<(Key, X)> = (0..n)
            .map(|j| {
                let t = match kind {
                    0 => names[j][0],
                    1 => names[j][1],
                    _ => names[j][j % 2],
                };
                (k(t), X::P(int(j as i64)))
            })
            .collect();
        let n = |i: i64| X::P(int(i));
        let e = match ex {
            0 => (k("a.t"), n(-1)),
            1 => (k("a"), X::Obj(vec![(k("u"), n(-1)), (k("v.w"), n(-2))])),
            2 => (k("a"), n(-1)),
            3 => (k("a.s1.t"), n(-1)),
            4 => (k("a.s1"), n(-1)),
            5 => (k("s0.x"), n(-1)),
            6 => (q("\"a.s1\"", "a.s1"), n(-1)),
            7 => (k("b.c.d"), X::Table(vec![k("a.b"), k("a.c")], vec![vec![int(1), int(2)], vec![int(3), s("x")]])),
            8 => (k("a"), X::Obj(vec![(k("s1"), n(-3))])),
            _ => (k("a.s0"), X::Obj(vec![])),
        };
        let p = [0, m.len() / 2, m.len()][at];
        m.insert(p, e);
        let o = X::Obj(m);
        let x = match pos {
            0 => o,
            1 => X::Obj(vec![(k("z"), n(1)), (k("o.p"), o), (k("o.q"), n(1))]),
            _ => X::Obj(vec![(k("l.m"), X::Arr(vec![n(1), o, n(2)])), (k("l.n"), n(1))]),
        };
        compare(cx, &x, 2);
    }));
    // every key text: all strings of up to 4 characters, quoted and (where the text allows) unquoted
    const A: [char; 8] = ['a', '.', '_', '1', '-', 'é', 'Z', '\u{200b}'];
    let kl = if th { 6 } else { 5 };
    let mut n = words_upto(A.len(), kl);
    n += ODD.len() as u64;
    fams.push(Fam::new("keytexts", n * 2, &format!("every key of up to {} characters over 8 characters plus 24 special ones, quoted and unquoted, beside a mergeable sibling", kl), move |i, cx| {
        let j = i / 2;
        let txt: String = if (j as usize) < ODD.len() { ODD[j as usize].to_string() } else { mc::space::chars_word(j - ODD.len() as u64, &A, kl) };
        let quoted = i % 2 == 0;
        let plain_ok = !txt.is_empty() && txt.bytes().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'-')) && !txt.starts_with('-');
        if !quoted && !plain_ok || txt == "a" || txt == "a.b" && quoted {
            cx.skip();
            return;
        }
        let expand = !quoted && txt.contains('.') && txt.split('.').all(mc::enc::ident);
        let tok = if quoted { mc::enc::quoted(&txt) } else { txt.clone() };
        let t = format!("{}: 1\na:\n  z: 2\nl[1]{{{}}}:\n  3", tok, tok);
        let p: Vec<String> = if expand { txt.split('.').map(|s| s.to_string()).collect() } else { vec![txt.clone()] };
        let mut conf = false;
        let mut o = Vec::new();
        insert(&mut o, &p, int(1), &mut conf);
        insert(&mut o, &["a".to_string()], J::Obj(vec![("z".into(), int(2))]), &mut conf);
        let mut row = Vec::new();
        insert(&mut row, &p, int(3), &mut conf);
        insert(&mut o, &["l".to_string()], J::Arr(vec![J::Obj(row)]), &mut conf);
        if conf {
            cx.skip();
            return;
        }
        let full = J::Obj(o);
        let off = J::Obj(vec![(txt.clone(), int(1)), ("a".into(), J::Obj(vec![("z".into(), int(2))])), ("l".into(), J::Arr(vec![J::Obj(vec![(txt.clone(), int(3))])]))]);
        for st in [true, false] {
            for (x, want) in [(false, &off), (true, &full)] {
                let op = Opt { strict: st, expand: x, ..BASE };
                let r = dec(cx, &t, &op.o());
                cx.evals += 1;
                if !matches!(&r, Ok(v) if v.same_ordered(want)) {
                    cx.fail(format!("{} {:?}", op.s(), t), &[("text", t.clone()), ("options", op.s()), ("expected", want.json()), ("decoded", show(&r))]);
                }
            }
        }
        cx.sample(|| format!("{:?} -> {}", t, full.json()));
    }));
    // long paths
    fams.push(Fam::new("long", 200 * 3, "paths of 1..200 segments, alone and merging with a sibling path that leaves it at any third", move |i, cx| {
        let n = (i / 3) as usize + 1;
        let segs: Vec<String> = (0..n).map(|k| format!("s{}", k)).collect();
        let cut = [0, n / 3, n - 1][(i % 3) as usize];
        let mut p2 = segs[..cut].to_vec();
        p2.push("other".into());
        let t = format!("{}: 1\n{}: 2", segs.join("."), p2.join("."));
        let mut o = Vec::new();
        let mut conf = false;
        insert(&mut o, &segs, int(1), &mut conf);
        insert(&mut o, &p2, int(2), &mut conf);
        let want = J::Obj(o);
        let op = Opt { expand: true, ..BASE };
        let r = dec(cx, &t, &op.o());
        cx.evals += 1;
        if !matches!(&r, Ok(v) if v.same_ordered(&want)) {
            cx.fail(format!("long {} {}", n, cut), &[("text", tag(&t)), ("decoded", tag(&show(&r)))]);
        }
    }));
    Spec {
        id: "C11".into(),
        level: "model_checking",
        rule: "state = one object described entry by entry (keys flagged quoted or not); its document decodes, with expansion off/safe x strict/lenient, to the model's object (or, on a conflict in strict mode, to an error); in the same member order when no paths conflict".into(),
        fams,
        assumptions: vec!["objects in which two verbatim keys repeat are outside the property and skipped (not counted as states)".into()],
    }
}
