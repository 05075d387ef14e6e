//! C18: failures of the caller's code and unrepresentable data are reported as errors.
use crate::c12::{self, Mode};
use check::c08::{WAYS, tree_leaves, way};
use check::common::*;
use check::dm::*;
use check::docs;
use mc::run::*;
use mc::trees::{word_upto, words_upto};
use mc::val::*;
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use std::cell::Cell;
use std::sync::Arc;
use toon::Options;

fn opts() -> Vec<(Opt, Options)> {
    [BASE, Opt { fold: Some(None), indent: 3, delim: '|', ..BASE }].into_iter().map(|o| (o, o.o())).collect()
}

fn must_fail(cx: &mut Cx, what: &str, d: &D, o: &Opt, w: usize, r: Result<String, String>) {
    cx.ops += 1;
    cx.evals += 1;
    match &r {
        Err(e) if !e.starts_with("PANIC") => cx.outcome(e),
        _ => cx.fail(
            format!("{} {} {} {}", what, WAYS[w], o.s(), tag(&d.show())),
            &[("failure", what.into()), ("entry point", WAYS[w].into()), ("options", o.s()), ("calls", tag(&d.show())), ("instead of an error", tag(&shows(&r)))],
        ),
    }
}
/// every point at which the caller's code can fail
fn fuel(cx: &mut Cx, d: &D, os: &[(Opt, Options)]) {
    for (o, oo) in os {
        for w in 0..WAYS.len() {
            const FULL: u64 = 1 << 40;
            FUEL.set(FULL);
            let r = way(w, d, oo);
            let total = FULL - FUEL.get();
            FUEL.set(u64::MAX);
            if let Err(e) = r {
                cx.fail(format!("no failure planned {} {} {}", WAYS[w], o.s(), tag(&d.show())), &[("calls", tag(&d.show())), ("error", e)]);
                continue;
            }
            for k in 0..total {
                FUEL.set(k);
                let r = way(w, d, oo);
                FUEL.set(u64::MAX);
                must_fail(cx, &format!("call {} of {} fails", k + 1, total), d, o, w, r);
            }
            cx.cat(if total <= 2 { "at most 2 failure points" } else { "more failure points" });
        }
    }
    cx.sample(|| d.show());
}
fn bad_everywhere(cx: &mut Cx, what: &str, d: &D, os: &[(Opt, Options)]) {
    for (o, oo) in os {
        for w in 0..WAYS.len() {
            let r = way(w, d, oo);
            must_fail(cx, what, d, o, w, r);
        }
    }
    cx.sample(|| d.show());
}
fn leaves_of(d: &D) -> usize {
    match d {
        D::Some(x) | D::Newtype(x) | D::NewVar(_, x) => leaves_of(x),
        D::Seq(v, _) | D::Tuple(v) | D::TupleStruct(v) | D::TupVar(_, v) => v.iter().map(leaves_of).sum(),
        D::Struct(v) | D::StructVar(_, v) => v.iter().flat_map(|x| &x.1).map(leaves_of).sum(),
        D::Map(v, _, _) => v.iter().map(|x| leaves_of(&x.1)).sum(),
        _ => 1,
    }
}
/// the tree with its k-th leaf replaced
fn replace(d: &mut D, k: &mut usize, by: &D) {
    match d {
        D::Some(x) | D::Newtype(x) | D::NewVar(_, x) => replace(x, k, by),
        D::Seq(v, _) | D::Tuple(v) | D::TupleStruct(v) | D::TupVar(_, v) => v.iter_mut().for_each(|x| replace(x, k, by)),
        D::Struct(v) | D::StructVar(_, v) => v.iter_mut().flat_map(|x| x.1.as_mut()).for_each(|x| replace(x, k, by)),
        D::Map(v, _, _) => v.iter_mut().for_each(|x| replace(&mut x.1, k, by)),
        _ => {
            if *k == 0 {
                *d = by.clone();
            }
            *k = k.wrapping_sub(1);
        }
    }
}
/// data that has no encoding
fn unrepresentable() -> Vec<D> {
    let one = |d: D| vec![("a", Some(d))];
    let i = || D::J(int(1));
    vec![
        D::Fail,
        D::U128(1 << 64),
        D::U128(u128::MAX),
        D::I128(1 << 64),
        D::I128(-(1 << 63) - 1),
        D::I128(i128::MIN),
        D::I128(i128::MAX),
        D::Map(vec![(D::Seq(vec![], true), i())], true, true),
        D::Map(vec![(D::Seq(vec![i()], true), i())], true, true),
        D::Map(vec![(D::J(s("k")), i()), (D::Seq(vec![i(), i()], true), i())], true, false),
        D::Map(vec![(D::Tuple(vec![i(), i()]), i())], false, true),
        D::Map(vec![(D::TupleStruct(vec![i()]), i())], false, false),
        D::Map(vec![(D::Struct(vec![]), i())], true, true),
        D::Map(vec![(D::Struct(one(i())), i()), (D::J(s("k")), i())], true, true),
        D::Map(vec![(D::Map(vec![], true, true), i())], true, false),
        D::Map(vec![(D::Map(vec![(D::J(s("a")), i())], true, true), i())], true, true),
        D::Map(vec![(D::NewVar("V", Box::new(i())), i())], true, true),
        D::Map(vec![(D::TupVar("V", vec![i()]), i())], true, true),
        D::Map(vec![(D::StructVar("V", one(i())), i())], true, true),
        D::Map(vec![(D::J(J::Arr(vec![])), i())], true, true),
        D::Map(vec![(D::J(J::Obj(vec![])), i())], true, true),
        D::Map(vec![(D::Fail, i())], true, true),
        D::Map(vec![(D::Newtype(Box::new(D::Fail)), i())], true, false),
        D::Map(vec![(D::Newtype(Box::new(D::Seq(vec![], true))), i())], true, true),
        D::Map(vec![(D::Some(Box::new(D::Struct(vec![]))), i())], true, true),
        D::Map(vec![(D::J(s("k")), D::Fail)], true, true),
        D::Map(vec![(D::J(s("k")), D::Fail)], true, false),
    ]
}

thread_local! {
    static DFUEL: Cell<u64> = const { Cell::new(u64::MAX) };
}
fn dtick<E: serde::de::Error>() -> Result<(), E> {
    DFUEL.with(|f| {
        let v = f.get();
        if v == 0 {
            return Err(E::custom(FAIL_TEXT));
        }
        f.set(v - 1);
        Ok(())
    })
}
/// a target whose own code fails at a chosen point
#[derive(Debug)]
struct K;
struct KV;
impl<'de> Visitor<'de> for KV {
    type Value = K;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    fn visit_unit<E: serde::de::Error>(self) -> Result<K, E> {
        dtick()?;
        Ok(K)
    }
    fn visit_bool<E: serde::de::Error>(self, _: bool) -> Result<K, E> {
        dtick()?;
        Ok(K)
    }
    fn visit_i64<E: serde::de::Error>(self, _: i64) -> Result<K, E> {
        dtick()?;
        Ok(K)
    }
    fn visit_u64<E: serde::de::Error>(self, _: u64) -> Result<K, E> {
        dtick()?;
        Ok(K)
    }
    fn visit_f64<E: serde::de::Error>(self, _: f64) -> Result<K, E> {
        dtick()?;
        Ok(K)
    }
    fn visit_str<E: serde::de::Error>(self, _: &str) -> Result<K, E> {
        dtick()?;
        Ok(K)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<K, A::Error> {
        dtick()?;
        while a.next_element::<K>()?.is_some() {
            dtick()?;
        }
        Ok(K)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<K, A::Error> {
        dtick()?;
        while a.next_key::<K>()?.is_some() {
            dtick()?;
            a.next_value::<K>()?;
            dtick()?;
        }
        Ok(K)
    }
}
impl<'de> Deserialize<'de> for K {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<K, D::Error> {
        dtick()?;
        d.deserialize_any(KV)
    }
}
/// targets whose code stops reading early or asks for a shape of its own
macro_rules! shaped {
    ($($n:ident $call:expr;)*) => { $(
        #[derive(Debug)]
        struct $n;
        impl<'de> Deserialize<'de> for $n {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                dtick()?;
                let f: fn(D) -> Result<K, D::Error> = $call;
                f(d).map(|_| $n)
            }
        }
    )* }
}
shaped! {
    KSeq |d| d.deserialize_seq(KV);
    KMap |d| d.deserialize_map(KV);
    KTup |d| d.deserialize_tuple(2, KV);
    KStruct |d| d.deserialize_struct("S", &["a", "b"], KV);
    KNew |d| d.deserialize_newtype_struct("N", KN);
    KOpt |d| d.deserialize_option(KO);
    KEnum |d| d.deserialize_enum("E", &["a", "b", "V"], KE);
}
struct KN;
impl<'de> Visitor<'de> for KN {
    type Value = K;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("newtype")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<K, D::Error> {
        dtick()?;
        K::deserialize(d)
    }
}
struct KO;
impl<'de> Visitor<'de> for KO {
    type Value = K;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("option")
    }
    fn visit_none<E: serde::de::Error>(self) -> Result<K, E> {
        dtick()?;
        Ok(K)
    }
    fn visit_unit<E: serde::de::Error>(self) -> Result<K, E> {
        dtick()?;
        Ok(K)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<K, D::Error> {
        dtick()?;
        K::deserialize(d)
    }
}
struct KE;
impl<'de> Visitor<'de> for KE {
    type Value = K;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("enum")
    }
    fn visit_enum<A: serde::de::EnumAccess<'de>>(self, a: A) -> Result<K, A::Error> {
        use serde::de::VariantAccess;
        dtick()?;
        let (_, v) = a.variant::<K>()?;
        dtick()?;
        v.newtype_variant::<K>()?;
        dtick()?;
        Ok(K)
    }
}
fn dfuel<T: serde::de::DeserializeOwned + std::fmt::Debug + 'static>(cx: &mut Cx, name: &str, t: &str, o: &Opt, oo: &Options) {
    const FULL: u64 = 1 << 40;
    DFUEL.set(FULL);
    let r = dec_as::<T>(cx, t, oo);
    let total = FULL - DFUEL.get();
    DFUEL.set(u64::MAX);
    cx.cat(if r.is_ok() { "document fits the failing target" } else { "document does not fit the failing target" });
    if is_panic(&r) {
        cx.fail(format!("panic {} {:?}", name, t), &[("text", t.to_string()), ("panic", format!("{:?}", r))]);
    }
    for k in 0..total {
        DFUEL.set(k);
        let r = dec_as::<T>(cx, t, oo);
        DFUEL.set(u64::MAX);
        cx.evals += 1;
        if r.is_ok() || is_panic(&r) {
            cx.fail(
                format!("{} fails at {} of {} {} {:?}", name, k + 1, total, o.s(), t),
                &[("target", name.into()), ("text", t.to_string()), ("options", o.s()), ("failing step", format!("{} of {}", k + 1, total)), ("instead of an error", format!("{:?}", r))],
            );
        }
    }
}
fn dfuel_all(cx: &mut Cx, t: &str, o: &Opt, oo: &Options) {
    dfuel::<K>(cx, "any", t, o, oo);
    dfuel::<KSeq>(cx, "seq", t, o, oo);
    dfuel::<KMap>(cx, "map", t, o, oo);
    dfuel::<KTup>(cx, "tuple", t, o, oo);
    dfuel::<KStruct>(cx, "struct", t, o, oo);
    dfuel::<KNew>(cx, "newtype", t, o, oo);
    dfuel::<KOpt>(cx, "option", t, o, oo);
    dfuel::<KEnum>(cx, "enum", t, o, oo);
    dfuel::<Vec<K>>(cx, "Vec", t, o, oo);
    dfuel::<std::collections::BTreeMap<String, K>>(cx, "map of", t, o, oo);
    dfuel::<Option<K>>(cx, "Option", t, o, oo);
    dfuel::<(K, K)>(cx, "pair", t, o, oo);
}

pub fn spec(th: bool) -> Spec {
    let mut fams = Vec::new();
    let os = Arc::new(opts());
    let n = if th { 5 } else { 4 };
    let tr = Arc::new(DTrees::new(tree_leaves(), UNARY, NARY, n));
    let (t1, o1) = (tr.clone(), os.clone());
    fams.push(Fam::new("failure points", tr.count_upto(n), &format!("every tree of up to {} serde calls x every call after which the caller's code fails x 6 entry points x 2 option sets", n), move |i, cx| {
        fuel(cx, &t1.upto(i, n), &o1);
    }));
    let lv = scalar_leaves();
    let o1 = os.clone();
    fams.push(Fam::new("failure points, scalars", lv.len() as u64 * DPOS, "every scalar call x 18 positions x every failure point", move |i, cx| {
        fuel(cx, &dplace(lv[(i / DPOS) as usize].clone(), i % DPOS), &o1);
    }));
    let ks = keys();
    let o1 = os.clone();
    fams.push(Fam::new("failure points, keys", ks.len() as u64 * 4 * DPOS, "every map key call x 4 ways of writing the map x 18 positions x every failure point", move |i, cx| {
        let k = ks[(i / DPOS / 4) as usize].clone();
        let m = i / DPOS % 4;
        let d = D::Map(vec![(k, D::Seq(vec![D::J(int(1))], true)), (D::J(s("second")), D::Struct(vec![("q", Some(D::None))]))], m % 2 == 0, m < 2);
        fuel(cx, &dplace(d, i % DPOS), &o1);
    }));
    let bad = Arc::new(unrepresentable());
    let (t1, o1, b1) = (tr.clone(), os.clone(), bad.clone());
    let n2 = if th { 5 } else { 4 };
    fams.push(Fam::new("bad leaf", tr.count_upto(n2) * bad.len() as u64, &format!("every tree of up to {} serde calls x every leaf replaced by each of 27 data without encoding (failing call, integer beyond 64 bits, non-scalar key)", n2), move |i, cx| {
        let d = t1.upto(i / b1.len() as u64, n2);
        let by = &b1[(i % b1.len() as u64) as usize];
        let n = leaves_of(&d);
        if n == 0 {
            cx.skip();
        }
        for k in 0..n {
            let mut e = d.clone();
            replace(&mut e, &mut { k }, by);
            bad_everywhere(cx, "no encoding", &e, &o1[..if th { 2 } else { 1 }]);
        }
    }));
    let o1 = os.clone();
    let m = UNARY + NARY;
    let depth = if th { 4 } else { 3 };
    let nw = words_upto(m, depth);
    fams.push(Fam::new("bad leaf, placed and nested", nw * bad.len() as u64 * 2, &format!("every nesting of up to {} container calls (13 kinds) around each datum without encoding, alone and as the last of three siblings", depth), move |i, cx| {
        let nb = bad.len() as u64;
        let mut d = bad[(i / 2 % nb) as usize].clone();
        for k in word_upto(i / 2 / nb, m, depth) {
            d = if k < UNARY {
                unary(k, d)
            } else if i % 2 == 0 {
                nary(k - UNARY, vec![d])
            } else {
                nary(k - UNARY, vec![D::J(int(1)), D::Seq(vec![], true), d])
            };
        }
        bad_everywhere(cx, "no encoding", &d, &o1);
    }));
    // decoding
    let nd = c12::near();
    fams.push(Fam::new("near", (nd.len() * c12::TARGETS) as u64, "documents that fit or nearly fit a type (every scalar in every place) x 70 target types", move |i, cx| {
        let t = &nd[i as usize / c12::TARGETS];
        for o in [BASE, BASE.strict(false)] {
            c12::target(cx, i as usize % c12::TARGETS, t, &o, &o.o(), Mode::Errors);
        }
        cx.sample(|| t.clone());
    }));
    let sd = Arc::new(docs::small_docs(if th { 6 } else { 5 }));
    let s1 = sd.clone();
    fams.push(Fam::new("small documents", (sd.len() * c12::TARGETS) as u64, "the encodings of all trees of up to 5 nodes (thorough: 6) and 15 feature-rich documents x 70 target types", move |i, cx| {
        c12::target(cx, i as usize % c12::TARGETS, &s1[i as usize / c12::TARGETS], &BASE, &BASE.o(), Mode::Errors);
    }));
    let l = Arc::new(docs::Lines::new(&docs::BODIES, 3, 1));
    let l1 = l.clone();
    fams.push(Fam::new("lines", l.count(), "every document of up to 3 lines over 26 line bodies into 70 target types", move |i, cx| {
        let Some(t) = l1.get(i, 2) else {
            cx.skip();
            return;
        };
        let oo = BASE.o();
        if c12::repeats(&dec(cx, &t, &oo)) {
            return;
        }
        for k in 0..c12::TARGETS {
            c12::target(cx, k, &t, &BASE, &oo, Mode::Errors);
        }
    }));
    let sd1 = sd.clone();
    fams.push(Fam::new("failing targets", sd.len() as u64, "the same small documents into 12 targets (asking for any shape, sequence, map, tuple, struct, newtype, option, enum) whose own code fails at every possible step, strict and lenient", move |i, cx| {
        for o in [BASE, BASE.strict(false)] {
            dfuel_all(cx, &sd1[i as usize], &o, &o.o());
        }
    }));
    fams.push(Fam::new("failing targets, lines", l.count(), "every document of up to 3 lines into the 12 failing targets at every step", move |i, cx| {
        let Some(t) = l.get(i, 2) else {
            cx.skip();
            return;
        };
        dfuel_all(cx, &t, &BASE, &BASE.o());
    }));
    Spec {
        id: "C18".into(),
        level: "fault_enumeration",
        rule: "state = one call tree or one document; execution = one failure point or one unrepresentable datum at one place through one entry point, or one target type: the result is an error; typed decoding may succeed only where converting the generic decoding succeeds, with the equal value".into(),
        fams,
        assumptions: vec!["null, unit, byte-string and non-finite keys are left open: an error or the obvious encoding".into()],
    }
}
