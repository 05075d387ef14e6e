//! C08: every public encode entry point gives the same bytes, for JSON values and for
//! arbitrary serde call trees (which encode as their conventional JSON form).
use crate::c02;
use crate::common::*;
use crate::dm::*;
use mc::run::*;
use mc::space;
use mc::trees::{word_upto, words_upto};
use mc::val::*;
use serde::Serialize;
use std::sync::Arc;
use toon::Options;

pub fn json_value(j: &J) -> serde_json::Value {
    use serde_json::Value as V;
    match j {
        J::Null => V::Null,
        J::Bool(b) => V::Bool(*b),
        J::Num(N::I(i)) => (*i).into(),
        J::Num(N::U(i)) => (*i).into(),
        J::Num(N::F(x)) => serde_json::Number::from_f64(*x).map(V::Number).unwrap_or(V::Null),
        J::Str(s) => V::String(s.clone()),
        J::Arr(a) => V::Array(a.iter().map(json_value).collect()),
        J::Obj(o) => V::Object(o.iter().map(|(k, v)| (k.clone(), json_value(v))).collect()),
    }
}
pub const WAYS: [&str; 6] = ["encode_to_string", "ser::to_string", "ser::to_string_streaming", "encode_to_writer", "ser::to_writer", "ser::to_writer_streaming"];
pub fn way<T: Serialize>(w: usize, v: &T, o: &Options) -> Result<String, String> {
    guarded(|| {
        let mut buf: Vec<u8> = Vec::new();
        match w {
            0 => return toon::encode_to_string(v, o).map_err(|e| e.to_string()),
            1 => return toon::ser::to_string(v, o).map_err(|e| e.to_string()),
            2 => return toon::ser::to_string_streaming(v, o).map_err(|e| e.to_string()),
            3 => toon::encode_to_writer(&mut buf, v, o),
            4 => toon::ser::to_writer(&mut buf, v, o),
            _ => toon::ser::to_writer_streaming(&mut buf, v, o),
        }
        .map_err(|e| e.to_string())?;
        String::from_utf8(buf).map_err(|e| e.to_string())
    })
}

fn all(cx: &mut Cx, src: &str, show: &dyn Fn() -> String, j: &J, o: &Opt, oo: &Options, extra: &dyn Fn(usize) -> Result<String, String>) {
    let base = enc(cx, j, oo);
    cx.outcome(base.as_deref().unwrap_or("error"));
    cx.sample(|| format!("{} {} {} -> {:?}", o.s(), src, show(), base));
    let cmp = |name: &str, r: Result<String, String>, cx: &mut Cx| {
        cx.ops += 1;
        cx.evals += 1;
        if r.is_err() || r != base {
            cx.fail(
                format!("{} {} {} {}", name, src, o.s(), tag(&show())),
                &[("options", o.s()), ("value", tag(&show())), ("entry point", name.to_string()), ("encode_to_string of the JSON value", tag(&shows(&base))), ("got", tag(&shows(&r)))],
            );
        }
    };
    for w in 0..WAYS.len() {
        cmp(WAYS[w], extra(w), cx);
    }
}

fn json_case(cx: &mut Cx, j: &J, o: &Opt, oo: &Options) {
    let v = json_value(j);
    all(cx, "json", &|| j.json(), j, o, oo, &|w| if w == 0 { way(0, &v, oo) } else { way(w, j, oo) });
    let r = guarded(|| toon::encode::encode_value_to_string(&v, oo).map_err(|e| e.to_string()));
    let base = enc(cx, j, oo);
    cx.evals += 1;
    if r != base {
        cx.fail(
            format!("encode_value_to_string {} {}", o.s(), tag(&j.json())),
            &[("options", o.s()), ("value", tag(&j.json())), ("streaming", tag(&shows(&base))), ("got", tag(&shows(&r)))],
        );
    }
}
fn model_case(cx: &mut Cx, d: &D, o: &Opt, oo: &Options) {
    let j = d.j();
    all(cx, "calls", &|| d.show(), &j, o, oo, &|w| way(w, d, oo));
}
fn opts(full: bool) -> Vec<(Opt, Options)> {
    let mut v = vec![BASE, Opt { delim: '|', indent: 3, ..BASE }, Opt { fold: Some(None), ..BASE }, Opt { fold: Some(Some(2)), delim: '\t', indent: 1, ..BASE }];
    if full {
        v.push(Opt { indent: 4, ..BASE });
        v.push(Opt { delim: '\t', ..BASE });
        v.push(Opt { fold: Some(Some(3)), indent: 4, ..BASE });
    }
    v.into_iter().map(|o| (o, o.o())).collect()
}

/// leaves of the call trees
pub fn tree_leaves() -> Vec<D> {
    vec![D::J(int(1)), D::J(s("x")), D::None, D::UnitVar("u")]
}

pub fn spec(th: bool) -> Spec {
    let mut fams = Vec::new();
    for vf in space::families(th) {
        if vf.name == "trees6" && !th {
            continue;
        }
        let g = vf.r#gen.clone();
        let os = opts(vf.size < 2);
        fams.push(Fam::new(vf.name, vf.n, &vf.what, move |i, cx| {
            let j = g(i);
            for (o, oo) in &os {
                json_case(cx, &j, o, oo);
            }
        }));
    }
    for (name, n, what, size, g) in c02::values(th) {
        if !["objects", "placed", "chains", "many-siblings", "long-chains"].contains(&name.as_str()) {
            continue;
        }
        let os: Vec<_> = c02::fold_opts(if th { size } else { 2 }).into_iter().map(|o| (o, o.o())).collect();
        fams.push(Fam::new(&format!("fold-{}", name), n, &what, move |i, cx| {
            let j = g(i);
            for (o, oo) in &os {
                json_case(cx, &j, o, oo);
            }
        }));
    }
    let lv = scalar_leaves();
    let os = Arc::new(opts(true));
    let o2 = os.clone();
    fams.push(Fam::new("scalar-calls", lv.len() as u64 * DPOS, "every scalar serde call (all integer widths, floats, char, bytes, unit kinds, unit variants, collect_str) x 18 positions", move |i, cx| {
        let d = dplace(lv[(i / DPOS) as usize].clone(), i % DPOS);
        for (o, oo) in o2.iter() {
            model_case(cx, &d, o, oo);
        }
    }));
    let ks = keys();
    let o2 = os.clone();
    fams.push(Fam::new("key-calls", ks.len() as u64 * 4 * DPOS, "every kind of map key call x map with known/unknown length, entries or key-then-value x 18 positions", move |i, cx| {
        let k = ks[(i / DPOS / 4) as usize].clone();
        let m = i / DPOS % 4;
        let (v, second) = if m < 2 { (D::J(int(1)), D::Seq(vec![D::None, D::Tuple(vec![])], true)) } else { (D::Struct(vec![("q", Some(D::J(int(1))))]), D::J(s("t"))) };
        let d = dplace(D::Map(vec![(k, v), (D::J(s("second")), second)], m % 2 == 0, m % 2 == 1), i % DPOS);
        for (o, oo) in o2.iter() {
            model_case(cx, &d, o, oo);
        }
    }));
    let n = if th { 5 } else { 4 };
    let t = DTrees::new(tree_leaves(), UNARY, NARY, n);
    let o2 = Arc::new(opts(false));
    fams.push(Fam::new("call-trees", t.count_upto(n), &format!("every tree of up to {} serde calls: 4 leaves, Some, newtype, newtype variant, sequence (known and unknown length), tuple, tuple struct, tuple variant, struct, struct with a skipped field, struct variant, map (two ways)", n), move |i, cx| {
        let d = t.upto(i, n);
        for (o, oo) in o2.iter() {
            model_case(cx, &d, o, oo);
        }
    }));
    // chains of containers of every kind
    let m = UNARY + NARY;
    let depth = if th { 5 } else { 4 };
    let n = words_upto(m, depth);
    let o2 = Arc::new(opts(false));
    fams.push(Fam::new("call-nesting", n * 4, &format!("every nesting of up to {} container calls (13 kinds, alone or with a sibling) around 4 leaves", depth), move |i, cx| {
        let mut d = tree_leaves()[(i % 4) as usize].clone();
        for (j, k) in word_upto(i / 4, m, depth).into_iter().enumerate() {
            d = if k < UNARY {
                unary(k, d)
            } else if j % 2 == 0 {
                nary(k - UNARY, vec![d, D::J(int(2))])
            } else {
                nary(k - UNARY, vec![d.clone(), d])
            };
        }
        for (o, oo) in o2.iter() {
            model_case(cx, &d, o, oo);
        }
    }));
    Spec {
        id: "C08".into(),
        level: "model_checking",
        rule: "state = one JSON value or one tree of serde calls; under every option set all six public encode entry points (and encode_value_to_string for JSON) give the same bytes as encode_to_string of the conventional JSON form".into(),
        fams,
        assumptions: vec!["the conventional JSON form of a call tree is serde_json's: variants as single-member objects, bytes as arrays of integers, options and newtypes transparent".into()],
    }
}
