//! C02: folding followed by expansion is the identity; folding alone yields exactly the
//! value with dotted keys for the foldable chains.
use crate::common::*;
use mc::enc::{fold_value, has_dotted_key};
use mc::run::*;
use mc::space::{self, place};
use mc::trees::*;
use mc::val::*;
use std::sync::Arc;

const MANY: [usize; 24] = [2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 128, 129, 257, 1000];
const KEYS: [&str; 5] = ["a", "b", "x y", "a.b", "_1"];
fn leaves() -> Vec<J> {
    vec![
        int(1),
        J::Arr(vec![]),
        J::Obj(vec![]),
        J::Arr(vec![J::Obj(vec![("a".into(), J::Obj(vec![("b".into(), int(2))])), ("b".into(), J::Obj(vec![("a".into(), int(3))]))])]),
        J::Arr(vec![J::Obj(vec![("a".into(), int(2))])]),
    ]
}
/// all objects with 1 or 2 members with distinct keys over `vals`
pub struct Objs {
    keys: Vec<String>,
    vals: Arc<dyn Fn(u64) -> J + Send + Sync>,
    n: u64,
}
impl Objs {
    pub fn count(&self) -> u64 {
        let k = self.keys.len() as u64;
        k * self.n + k * (k - 1) * self.n * self.n
    }
    pub fn get(&self, mut i: u64) -> J {
        let k = self.keys.len() as u64;
        if i < k * self.n {
            return J::Obj(vec![(self.keys[(i / self.n) as usize].clone(), (self.vals)(i % self.n))]);
        }
        i -= k * self.n;
        let v2 = (self.vals)(i % self.n);
        i /= self.n;
        let v1 = (self.vals)(i % self.n);
        i /= self.n;
        let a = (i / (k - 1)) as usize;
        let mut b = (i % (k - 1)) as usize;
        if b >= a {
            b += 1;
        }
        J::Obj(vec![(self.keys[a].clone(), v1), (self.keys[b].clone(), v2)])
    }
}
pub fn fold_objects(keys: &'static [&'static str], leafs: usize) -> Objs {
    let mut v0 = leaves();
    v0.truncate(leafs);
    let ks: Vec<String> = keys.iter().map(|s| s.to_string()).collect();
    let (n0, v0b) = (v0.len() as u64, v0.clone());
    let inner = Objs { keys: ks.clone(), vals: Arc::new(move |i| v0b[i as usize].clone()), n: n0 };
    let n1 = n0 + inner.count();
    Objs { keys: ks, vals: Arc::new(move |i| if i < n0 { v0[i as usize].clone() } else { inner.get(i - n0) }), n: n1 }
}

/// chains: every step adds one level below one of 6 keys, possibly with a sibling
pub const STEPS: usize = 14;
pub fn step(v: J, s: usize) -> J {
    let keys = ["a", "b", "x y", "a.b", "é", "a1"];
    let o = |m: Vec<(&str, J)>| J::Obj(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    match s {
        0..=5 => o(vec![(keys[s], v)]),
        6 => o(vec![("a", v), ("q", int(1))]),
        7 => o(vec![("q", int(1)), ("a", v)]),
        8 => o(vec![("a", v), ("a.b", int(1))]),
        9 => o(vec![("a.b", int(1)), ("a", v)]),
        10 => o(vec![("a", v), ("a.b.a", J::Arr(vec![]))]),
        11 => J::Arr(vec![v]),
        12 => J::Arr(vec![o(vec![("q", int(1)), ("a", v)]), int(2)]),
        _ => J::Arr(vec![o(vec![("a", v), ("b", o(vec![("a", int(1))]))])]),
    }
}

pub const CHAIN_KEYS: [&str; 36] = [
    "a", "b", "A", "_", "_1", "a1", "a_b", "aZ9", "a.b", "", "x y", "é", "aé", "a-b", "1a", "1", "-", "a:", "a\"", "a[0]", "a{", "true", "null", "a/b", "a\t", "ａ", "aе", "a٣", "a·", "$a", "a$", "@", "a\\", ".", "ab", "aaaa",
];
pub fn values(th: bool) -> Vec<(String, u64, String, u8, Arc<dyn Fn(u64) -> J + Send + Sync>)> {
    let mut r: Vec<(String, u64, String, u8, Arc<dyn Fn(u64) -> J + Send + Sync>)> = Vec::new();
    let ob = Arc::new(fold_objects(&KEYS, if th { 5 } else { 3 }));
    r.push(("objects".into(), ob.count(), "every object of depth 2 with 1..2 members per object over 5 keys (plain, quoted, dotted) and the leaf set".into(), 2, {
        let ob = ob.clone();
        Arc::new(move |i| ob.get(i))
    }));
    let sm = Arc::new(fold_objects(&KEYS[..4], 2));
    r.push(("placed".into(), sm.count() * 5, "every object of depth 2 over 4 keys and 2 leaves, in 5 positions (list items, first fields, tables' parents)".into(), 1, {
        Arc::new(move |i| place(sm.get(i / 5), [4, 8, 9, 10, 12][(i % 5) as usize]))
    }));
    let len = if th { 5 } else { 4 };
    let lv = leaves();
    let n = words_upto(STEPS, len);
    r.push(("chains".into(), n * lv.len() as u64, format!("every chain of up to {} container steps (14 kinds: foldable, quoted, dotted keys, siblings that collide with a folded path, lists) around 5 leaves", len), 1, {
        Arc::new(move |i| {
            let mut v = lv[(i % lv.len() as u64) as usize].clone();
            for s in word_upto(i / lv.len() as u64, STEPS, len) {
                v = step(v, s);
            }
            v
        })
    }));
    let nk = CHAIN_KEYS.len() as u64;
    r.push(("key-chains".into(), (nk + nk * nk + nk * nk * nk) * 4, format!("every chain of 1..3 keys of {} shapes (identifiers, and every way of not being one) around 4 leaves", nk), 2, {
        let lv = leaves();
        Arc::new(move |i| {
            let mut v = lv[[0, 1, 2, 4][(i % 4) as usize]].clone();
            let mut w = i / 4;
            let mut l = 1;
            while w >= nk.pow(l) {
                w -= nk.pow(l);
                l += 1;
            }
            for _ in 0..l {
                v = J::Obj(vec![(CHAIN_KEYS[(w % nk) as usize].into(), v)]);
                w /= nk;
            }
            v
        })
    }));
    r.push(("key-codepoints".into(), space::CP_COUNT, "every code point at the start, inside or at the end of a key in a chain of three keys".into(), 3, {
        Arc::new(|i| {
            let c = space::cp(i);
            let k = [format!("{}b", c), format!("a{}", c), format!("a{}b", c)][(i % 3) as usize].clone();
            let one = |k: &str, v| J::Obj(vec![(k.to_string(), v)]);
            match i / 3 % 3 {
                0 => one("u", one(&k, one("x", int(1)))),
                1 => one(&k, one("x", one("y", int(1)))),
                _ => one("u", one("v", one(&k, int(1)))),
            }
        })
    }));
    let nl = MANY.len() as u64;
    r.push(("many-siblings".into(), nl * 3 * 3 * 6 * 4 * 4, "objects of up to 1000 members: a foldable chain first, in the middle or last, and first, last or beside it a member with (one of 6) or without a name the folded path collides with; 4 kinds of other members; 4 positions".into(), 4, {
        Arc::new(move |i| {
            let mut i = i;
            let mut take = |n: u64| {
                let r = i % n;
                i /= n;
                r
            };
            let (pos, kind, coll, qp, pp, n) = (take(4), take(4), take(6), take(3), take(3), MANY[take(nl) as usize]);
            let o = |m: Vec<(&str, J)>| J::Obj(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
            let mut m: Vec<(String, J)> = (0..n)
                .map(|j| {
                    let v = match kind {
                        0 => int(j as i64),
                        1 => o(vec![("b", o(vec![("c", int(1))]))]),
                        2 => J::Arr(vec![o(vec![("b", o(vec![("c", int(j as i64))]))])]),
                        _ => o(vec![("b", int(1)), ("c", o(vec![]))]),
                    };
                    (format!("m{}", j), v)
                })
                .collect();
            let p = [0, n / 2, n][pp as usize];
            m.insert(p, ("a".into(), o(vec![("b", o(vec![("c", int(7))]))])));
            let q = [0, p + 1, n + 1][qp as usize];
            let c = ["", "a.b", "a.b.c", "a.b.c.d", "m1.b.c", "a.x"][coll as usize];
            if !c.is_empty() {
                m.insert(q, (c.into(), if (pos + qp) % 2 == 0 { int(5) } else { J::Arr(vec![int(5)]) }));
            }
            place(J::Obj(m), [0, 2, 8, 9][pos as usize])
        })
    }));
    r.push(("long-chains".into(), 260 * 4 * 3, "chains of 1..260 foldable keys ending in 4 ways, alone or between siblings".into(), 5, {
        Arc::new(|i| {
            let (n, e, sb) = ((i / 12) as usize + 1, i / 3 % 4, i % 3);
            let one = |k: &str, v| J::Obj(vec![(k.to_string(), v)]);
            let mut v = [int(1), J::Obj(vec![]), J::Arr(vec![J::Arr(vec![]), int(2)]), J::Obj(vec![("p".into(), int(1)), ("q".into(), int(2))])][e as usize].clone();
            let n = n.min(250);
            if i / 12 + 1 > 250 {
                // longer than that: a key that ends the chain on the way
                v = one("x y", v);
            }
            for k in (0..n).rev() {
                v = one(&format!("k{}", k), v);
            }
            match sb {
                0 => v,
                1 => J::Arr(vec![v, int(1)]),
                _ => J::Obj(vec![("a".into(), int(0)), ("l".into(), v), ("z".into(), int(9))]),
            }
        })
    }));
    for vf in space::families(th) {
        if ["trees6", "keys", "nesting", "siblings", "deep", "fields", "twins"].contains(&vf.name) && (th || vf.name != "nesting") {
            r.push((vf.name.into(), vf.n, vf.what.clone(), 2, vf.r#gen.clone()));
        }
    }
    r
}

pub fn fold_opts(size: u8) -> Vec<Opt> {
    if size == 3 {
        return vec![Opt { fold: Some(None), ..BASE }, Opt { fold: Some(Some(2)), ..BASE }];
    }
    if size == 4 {
        return [None, Some(2)].map(|f| Opt { fold: Some(f), ..BASE }).to_vec();
    }
    if size == 5 {
        return [None, Some(5), Some(8), Some(9), Some(16), Some(17), Some(64), Some(100), Some(256), Some(usize::MAX)].map(|f| Opt { fold: Some(f), ..BASE }).to_vec();
    }
    let mut v = Vec::new();
    for f in [None, Some(0), Some(1), Some(2), Some(3), Some(4)] {
        v.push(Opt { fold: Some(f), ..BASE });
    }
    if size < 2 {
        for f in [None, Some(2), Some(3)] {
            v.push(Opt { fold: Some(f), delim: '|', indent: 3, ..BASE });
            v.push(Opt { fold: Some(f), delim: '\t', indent: 1, ..BASE });
        }
    }
    v
}

pub fn spec(th: bool) -> Spec {
    let fams = values(th)
        .into_iter()
        .map(|(name, n, what, size, g)| {
            let opts: Vec<_> = fold_opts(size)
                .into_iter()
                .map(|o| {
                    let x = Opt { expand: true, ..o };
                    (o, o.o(), x.o(), x.strict(false).o())
                })
                .collect();
            Fam::new(&name, n, &what, move |i, cx| {
                let v = g(i);
                let dotted = has_dotted_key(&v);
                for (o, plain, ex, exl) in &opts {
                    let t = match enc(cx, &v, plain) {
                        Ok(t) => t,
                        Err(e) => {
                            cx.evals += 1;
                            cx.fail(format!("encode {} {}", o.s(), tag(&v.json())), &[("options", o.s()), ("value", tag(&v.json())), ("encode", e)]);
                            continue;
                        }
                    };
                    cx.outcome(&t);
                    cx.sample(|| format!("{} {} -> {:?}", o.s(), v.json(), t));
                    let want = fold_value(&v, o.fold.unwrap().unwrap_or(usize::MAX));
                    let r = dec(cx, &t, plain);
                    cx.evals += 1;
                    cx.cat(if want.same(&v) { "nothing foldable" } else { "folded" });
                    if !matches!(&r, Ok(w) if w.same_ordered(&want)) {
                        cx.fail(
                            format!("folded {} {}", o.s(), tag(&v.json())),
                            &[("options", o.s()), ("value", tag(&v.json())), ("text", tag(&t)), ("expected", tag(&want.json())), ("decoded", tag(&show(&r)))],
                        );
                    }
                    if dotted {
                        cx.cat("has dotted keys: identity not claimed");
                        continue;
                    }
                    for (xo, s) in [(ex, true), (exl, false)] {
                        let r = dec(cx, &t, xo);
                        cx.evals += 1;
                        if !matches!(&r, Ok(w) if w.same(&v)) {
                            cx.fail(
                                format!("expanded {} {}", o.strict(s).s(), tag(&v.json())),
                                &[("options", o.strict(s).s()), ("value", tag(&v.json())), ("text", tag(&t)), ("decoded", tag(&show(&r)))],
                            );
                        }
                    }
                }
            })
        })
        .collect();
    Spec {
        id: "C02".into(),
        level: "model_checking",
        rule: "state = one JSON value with foldable, quoted, dotted and colliding keys; for flatten depth none,0..4 (and 3 layouts on smaller families): decode without expansion equals the model's folded value in order; without dotted keys, decode with expansion (strict and lenient) equals the original".into(),
        fams,
        assumptions: vec!["the fold model does not fold the first field of a list item and folds each chain once, as the repository's encoder and the reference implementation do".into()],
    }
}
