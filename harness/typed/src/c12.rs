//! C12: typed data. For a family of Rust types covering every serde data-model call, in
//! every container position: decode(encode(v)) == v, and decoding into the type agrees with
//! decoding to generic JSON and converting that (serde_json as the oracle for conversion).
use check::common::*;
use check::docs;
use mc::run::*;
use mc::trees::words_upto;
use mc::val::J;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::*;
use std::fmt::Debug;
use std::sync::Arc;
use toon::Options;

// ---------------------------------------------------------------- the types
macro_rules! data { ($($i:item)*) => { $(#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)] $i)* } }
data! {
    pub struct Unit;
    pub struct New(pub i64);
    pub struct NewS(pub String);
    pub struct NewV(pub Vec<u8>);
    pub struct NewO(pub Option<i64>);
    pub struct Tup(pub i64, pub String);
    pub struct Tup3(pub bool, pub Option<i64>, pub Vec<i64>);
    pub struct Empty {}
    pub struct One { pub a: i64 }
    pub struct Two { pub a: i64, pub b: String }
    pub struct Opts { pub a: Option<i64>, pub b: Option<String>, pub c: Option<Two>, pub d: Option<Vec<Option<i64>>> }
    pub struct Nest { pub o: One, pub l: Vec<One>, pub m: BTreeMap<String, One>, pub t: (i64, One) }
    pub struct Scal { pub a: i8, pub b: i16, pub c: i32, pub d: i64, pub e: u8, pub f: u16, pub g: u32, pub h: u64, pub i: f32, pub j: f64, pub k: bool, pub l: char, pub m: String, pub n: () }
    #[serde(rename_all = "kebab-case")]
    pub struct Renamed { pub first_field: i64, #[serde(rename = "with space")] pub b: i64, #[serde(rename = "a.b")] pub c: i64, #[serde(rename = "")] pub d: i64, #[serde(rename = "x:y")] pub e: Vec<i64> }
    pub struct Skips { pub a: i64, #[serde(skip)] pub b: i64, #[serde(default, skip_serializing_if = "Option::is_none")] pub c: Option<i64>, #[serde(default, skip_serializing_if = "Vec::is_empty")] pub d: Vec<i64> }
    #[serde(default)]
    pub struct Defs { pub a: i64, pub b: String, pub c: Vec<i64> }
    pub struct FlatIn { pub x: i64, pub y: Option<String> }
    pub struct Flat { pub a: i64, #[serde(flatten)] pub f: FlatIn, pub z: i64 }
    pub struct FlatMap { pub a: i64, #[serde(flatten)] pub m: BTreeMap<String, i64> }
    pub struct FlatEnum { pub a: i64, #[serde(flatten)] pub e: Ext }
    #[serde(transparent)]
    pub struct Transp { pub v: Vec<i64> }
    #[serde(deny_unknown_fields)]
    pub struct Deny { pub a: i64 }
    pub enum Ext { Unit, New(i64), NewS(Two), NewO(Option<i64>), NewV(Vec<i64>), Tup(i64, String), St { x: u8, y: Option<bool> }, St0 {}, #[serde(rename = "odd name")] Odd(i64) }
    #[serde(tag = "t")]
    pub enum Int { Unit, New(Two), St { x: u8, y: Option<bool> }, #[serde(rename = "5")] Five { v: Vec<i64> } }
    #[serde(tag = "t", content = "c")]
    pub enum Adj { Unit, New(i64), NewS(Two), Tup(i64, String), St { x: u8, y: Option<bool> }, V(Vec<i64>) }
    #[serde(untagged)]
    pub enum Unt { B(bool), I(i64), S(String), T(i64, String), St { x: u8 }, V(Vec<i64>), N }
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    pub enum Tree { Leaf, Node { left_side: Box<Tree>, right: Box<Tree> }, Many(Vec<Tree>), Wrap(Box<Tree>) }
    pub struct List { pub v: i64, pub next: Option<Box<List>> }
    pub struct W<T> { pub k: T, pub z: i64 }
    pub struct W1<T> { pub k: T }
    pub struct WM<T> { pub p: Vec<i64>, pub k: T, pub z: bool }
    pub enum WE<T> { V(T), T(T, i64), S { k: T, z: i64 } }
    pub struct NT<T>(pub T);
    #[serde(tag = "t")]
    pub enum WI<T> { S { k: T, z: i64 } }
    #[serde(untagged)]
    pub enum WU<T> { Never { no_such_field: u8 }, S { k: T } }
}
impl Default for Defs {
    fn default() -> Defs {
        Defs { a: 7, b: "d".into(), c: vec![1] }
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
pub enum Key {
    A,
    #[serde(rename = "b c")]
    B,
    #[serde(rename = "5")]
    C,
    #[serde(rename = "true")]
    D,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
pub struct KeyN(pub i64);
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
pub struct KeyS(pub String);
/// serialize_bytes / deserialize_byte_buf
#[derive(Debug, PartialEq, Clone)]
pub struct Bytes(pub Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Bytes, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Bytes(v))
            }
            fn visit_bytes<E>(self, b: &[u8]) -> Result<Bytes, E> {
                Ok(Bytes(b.to_vec()))
            }
        }
        d.deserialize_byte_buf(V)
    }
}
// ---------------------------------------------------------------- generic driver
pub trait Ty: Serialize + DeserializeOwned + PartialEq + Debug + Clone + Send + Sync + 'static {}
impl<T: Serialize + DeserializeOwned + PartialEq + Debug + Clone + Send + Sync + 'static> Ty for T {}

/// decode into T directly, and by way of generic JSON
fn both<T: Ty>(cx: &mut Cx, t: &str, oo: &Options) -> (Result<T, String>, Result<T, String>) {
    let r = dec_as::<T>(cx, t, oo);
    let g = dec_as::<serde_json::Value>(cx, t, oo).and_then(|v| serde_json::from_value::<T>(v).map_err(|e| e.to_string()));
    (r, g)
}
fn rt<T: Ty>(cx: &mut Cx, name: &str, v: &T, os: &[(Opt, Options)]) {
    let mut e = |cx: &mut Cx, oo: &Options| enc(cx, v, oo);
    let mut d = |cx: &mut Cx, t: &str, oo: &Options| {
        let (r, g) = both::<T>(cx, t, oo);
        let s = |r: Result<T, String>| (r.as_ref() == Ok(v), if r.as_ref() == Ok(v) { String::new() } else { format!("{:?}", r) });
        (s(r), s(g))
    };
    rt_dyn(cx, name, v, os, &mut e, &mut d)
}
type Seen = (bool, String);
fn rt_dyn(
    cx: &mut Cx,
    name: &str,
    v: &dyn Debug,
    os: &[(Opt, Options)],
    e: &mut dyn FnMut(&mut Cx, &Options) -> Result<String, String>,
    d: &mut dyn FnMut(&mut Cx, &str, &Options) -> (Seen, Seen),
) {
    for (o, oo) in os {
        let t = e(cx, oo);
        cx.outcome(t.as_deref().unwrap_or("error"));
        let Ok(t) = t else {
            cx.evals += 1;
            cx.fail(format!("encode {} {} {:?}", name, o.s(), v), &[("type", name.into()), ("value", format!("{:?}", v)), ("encode", shows(&t))]);
            continue;
        };
        cx.sample(|| format!("{} {:?} -> {:?}", name, v, t));
        let (r, g) = d(cx, &t, oo);
        cx.evals += 2;
        if !r.0 {
            cx.fail(format!("{} {} {:?}", name, o.s(), v), &[("type", name.into()), ("options", o.s()), ("value", format!("{:?}", v)), ("text", t.clone()), ("decoded", r.1)]);
        }
        if !g.0 {
            cx.fail(format!("via JSON {} {} {:?}", name, o.s(), v), &[("type", name.into()), ("options", o.s()), ("value", format!("{:?}", v)), ("text", t.clone()), ("decoded via JSON", g.1)]);
        }
    }
}
/// do the two ways of reading a document into T agree?
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// both succeed equally or both fail
    Both,
    /// no success where the conversion fails or differs
    Errors,
}
pub fn agree<T: Ty>(cx: &mut Cx, name: &str, t: &str, o: &Opt, oo: &Options, mode: Mode) {
    let (r, g) = both::<T>(cx, t, oo);
    // serde_json reads the key "-0" as a float
    if t.contains("-0") && ["i64", "KeyN", "i128"].iter().any(|k| name.contains(&format!("Map<{}", k)) || name.contains(&format!("Map < {}", k))) {
        return;
    }
    cx.evals += 1;
    cx.cat(if r.is_ok() { "document fits the type" } else { "document does not fit the type" });
    let ok = match (&r, &g) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(_)) => !a.starts_with("PANIC"),
        (Err(a), Ok(_)) => mode == Mode::Errors && !a.starts_with("PANIC"),
        _ => false,
    };
    if !ok {
        cx.fail(
            format!("{} {} {:?}", name, o.s(), t),
            &[("type", name.into()), ("options", o.s()), ("text", t.to_string()), ("decoded", format!("{:?}", r)), ("decoded via JSON", format!("{:?}", g))],
        );
    }
}

pub const WRAPPERS: u64 = 15;
fn wrapped<T: Ty>(cx: &mut Cx, name: &str, v: &T, w: u64, os: &[(Opt, Options)]) {
    let v = v.clone();
    let n = |x: &str| format!("{}<{}>", x, name);
    match w {
        0 => rt(cx, name, &v, os),
        1 => rt(cx, &n("struct"), &W { k: v, z: 1 }, os),
        2 => rt(cx, &n("Vec"), &vec![v.clone(), v], os),
        3 => rt(cx, &n("Vec<struct1>"), &vec![W1 { k: v.clone() }, W1 { k: v }], os),
        4 => rt(cx, &n("Vec<struct>"), &vec![WM { p: vec![], k: v, z: true }], os),
        5 => rt(cx, &n("(i64,_)"), &(1i64, v), os),
        6 => rt(cx, &n("map"), &BTreeMap::from([("a b".to_string(), v.clone()), ("k".to_string(), v)]), os),
        7 => rt(cx, &n("enum-newtype"), &vec![WE::V(v)], os),
        8 => rt(cx, &n("enum-tuple"), &W { k: WE::T(v, 2), z: 3 }, os),
        9 => rt(cx, &n("enum-struct"), &vec![WE::S { k: v, z: 2 }], os),
        10 => rt(cx, &n("newtype"), &NT(W1 { k: NT(v) }), os),
        11 => rt(cx, &n("tagged"), &vec![WI::S { k: v, z: 2 }], os),
        12 => rt(cx, &n("untagged"), &W { k: WU::S { k: v }, z: 2 }, os),
        13 => rt(cx, &n("Vec<Vec>"), &vec![vec![v.clone()], vec![], vec![v]], os),
        _ => rt(cx, &n("map<int,Option>"), &BTreeMap::from([(-1i64, Some(v)), (5, None)]), os),
    }
}

pub const LIGHT: u64 = 5;
fn light<T: Ty>(cx: &mut Cx, name: &str, v: &T, w: u64, os: &[(Opt, Options)]) {
    let v = v.clone();
    let n = |x: &str| format!("{}<{}>", x, name);
    match w {
        0 => rt(cx, name, &v, os),
        1 => rt(cx, &n("Vec<struct1>"), &vec![W1 { k: v.clone() }, W1 { k: v }], os),
        2 => rt(cx, &n("Vec<struct>"), &vec![WM { p: vec![], k: v, z: true }], os),
        3 => rt(cx, &n("enum-newtype"), &vec![WE::V(v)], os),
        _ => rt(cx, &n("tagged"), &vec![WI::S { k: v, z: 2 }], os),
    }
}
struct Reg {
    fams: Vec<Fam>,
    os: Arc<Vec<(Opt, Options)>>,
}
impl Reg {
    /// five container positions
    fn ty<T: Ty>(&mut self, name: &'static str, vals: Vec<T>, skip: &'static [u64]) {
        let os = self.os.clone();
        let n = vals.len() as u64;
        let what = format!("{} value(s) of type {} x 5 container positions", n, name);
        self.fams.push(Fam::new(&format!("type {}", name), n * LIGHT, &what, move |i, cx| {
            let w = [0, 3, 4, 7, 11][(i % LIGHT) as usize];
            if skip.contains(&w) {
                cx.skip();
                return;
            }
            light(cx, name, &vals[(i / LIGHT) as usize], i % LIGHT, &os);
        }));
    }
    /// all container positions
    fn ty_all<T: Ty>(&mut self, name: &'static str, vals: Vec<T>, skip: &'static [u64]) {
        let os = self.os.clone();
        let n = vals.len() as u64;
        let what = format!("{} value(s) of type {} x 15 container positions", n, name);
        self.fams.push(Fam::new(&format!("type {}", name), n * WRAPPERS, &what, move |i, cx| {
            let w = i % WRAPPERS;
            if skip.contains(&w) {
                cx.skip();
                return;
            }
            wrapped(cx, name, &vals[(i / WRAPPERS) as usize], w, &os);
        }));
    }
}

fn strs() -> Vec<String> {
    mc::space::strings()
}
fn two(a: i64, b: &str) -> Two {
    Two { a, b: b.into() }
}
fn trees(d: usize) -> Vec<Tree> {
    let mut v = vec![Tree::Leaf, Tree::Many(vec![])];
    for _ in 0..d {
        let mut n = v.clone();
        for a in &v {
            n.push(Tree::Wrap(Box::new(a.clone())));
            n.push(Tree::Many(vec![a.clone()]));
            for b in &v {
                n.push(Tree::Node { left_side: Box::new(a.clone()), right: Box::new(b.clone()) });
                n.push(Tree::Many(vec![a.clone(), b.clone()]));
            }
        }
        v = n;
    }
    v
}
fn cross<A: Clone, B: Clone, T>(a: &[A], b: &[B], f: impl Fn(A, B) -> T) -> Vec<T> {
    a.iter().flat_map(|x| b.iter().map(|y| f(x.clone(), y.clone())).collect::<Vec<_>>()).collect()
}

fn types(r: &mut Reg, th: bool) {
    const NONE: &[u64] = &[];
    // self-describing buffering turns integer keys into strings: serde cannot read these back
    const KEYED: &[u64] = &[11, 12];
    r.ty("bool", vec![true, false], NONE);
    r.ty("i8", (i8::MIN..=i8::MAX).collect(), NONE);
    r.ty("u8", (0..=255u8).collect(), NONE);
    r.ty("i16", (i16::MIN..=i16::MAX).step_by(if th { 1 } else { 97 }).chain([i16::MAX]).collect(), NONE);
    r.ty("u16", (0..=u16::MAX).step_by(if th { 1 } else { 89 }).chain([u16::MAX]).collect(), NONE);
    r.ty("i32", vec![i32::MIN, -1, 0, 1, i32::MAX], NONE);
    r.ty("u32", vec![0, 1, u32::MAX], NONE);
    r.ty_all("i64", vec![i64::MIN, i64::MIN + 1, -(1 << 53) - 1, -1, 0, 1, (1 << 53) + 1, i64::MAX], NONE);
    r.ty("u64", vec![0, 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX], NONE);
    const BUF: &[u64] = &[11, 12]; // buffered by serde, which cannot hold 128-bit integers
    r.ty("i128", vec![i64::MIN as i128, -1, 0, 1, i64::MAX as i128, i64::MAX as i128 + 1, u64::MAX as i128], BUF);
    r.ty("u128", vec![0u128, 1, i64::MAX as u128 + 1, u64::MAX as u128], BUF);
    r.ty("Option<Vec<i128>>", vec![None, Some(vec![]), Some(vec![1i128, u64::MAX as i128])], &[11, 12, 14]);
    r.ty("BTreeMap<i128,u128>", vec![BTreeMap::from([(i64::MIN as i128, 1u128), (-1, 0), (u64::MAX as i128, u64::MAX as u128)])], BUF);
    r.ty("BTreeMap<u128,Vec<i64>>", vec![BTreeMap::from([(0u128, vec![1i64]), (u64::MAX as u128, vec![])])], BUF);
    r.ty("f32", vec![0.0f32, 1.0, -1.5, 0.1, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 1e-45, 16777216.0, 1e10, 3.4e38], NONE);
    r.ty_all("f64", vec![0.0f64, 1.0, -1.5, 0.1, 1.0 / 3.0, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 123456789012345680.0, 9223372036854775808.0, 18446744073709551616.0, -9223372036854775808.0, 1e-5, 1e-6, 1e-7, 1e-300, 5e-324, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON], NONE);
    r.ty_all("char", ('\0'..='\u{17f}').chain(['\u{2028}', '\u{feff}', '日', '😀', '\u{10ffff}']).collect(), NONE);
    r.ty_all("String", strs(), NONE);
    r.ty("Box<str>", vec!["", "a", "5"].into_iter().map(|s| -> Box<str> { s.into() }).collect(), NONE);
    r.ty_all("()", vec![()], &[14]);
    r.ty("Unit", vec![Unit], &[14]);
    r.ty_all("Option<i64>", vec![None, Some(0), Some(-5)], &[14]);
    r.ty("Option<bool>", vec![None, Some(true), Some(false)], &[14]);
    r.ty("Option<String>", [None].into_iter().chain(["", "null", "a b", "true", "5", "~", "None"].iter().map(|s| Some(s.to_string()))).collect(), &[14]);
    r.ty_all("Option<Two>", vec![None, Some(two(1, "")), Some(two(-1, "x,y"))], &[14]);
    r.ty("Option<Vec<i64>>", vec![None, Some(vec![]), Some(vec![1]), Some(vec![1, 2])], &[14]);
    r.ty("Option<New>", vec![None, Some(New(1))], &[14]);
    r.ty("Option<Ext>", vec![None, Some(Ext::Unit), Some(Ext::New(1)), Some(Ext::St { x: 1, y: None })], &[14]);
    r.ty("Option<Empty>", vec![None, Some(Empty {})], &[14]);
    r.ty_all("New", vec![New(0), New(i64::MIN), New(i64::MAX)], NONE);
    r.ty("NewS", strs().into_iter().map(NewS).collect(), NONE);
    r.ty("NewV", vec![NewV(vec![]), NewV(vec![1]), NewV(vec![0, 255])], NONE);
    r.ty("NewO", vec![NewO(None), NewO(Some(3))], &[14]);
    r.ty_all("Tup", cross(&[0i64, -1], &["", "x", "1", "a,b|c\td"], |a, b| Tup(a, b.into())), NONE);
    r.ty("Tup3", cross(&[None, Some(1)], &[vec![], vec![1i64], vec![1, 2]], |a, b| Tup3(true, a, b)), NONE);
    r.ty("(i64,)", vec![(1i64,)], NONE);
    r.ty("(i64,bool,String)", vec![(1i64, true, "x y".to_string()), (-1, false, "".into())], NONE);
    r.ty("((i64,i64),(Two,))", vec![((1i64, 2i64), (two(1, "x"),))], NONE);
    r.ty("[i64;3]", vec![[1i64, 2, 3]], NONE);
    r.ty("[Two;2]", vec![[two(1, "a"), two(2, "b")]], NONE);
    r.ty("[Vec<i64>;2]", vec![[vec![1i64], vec![]]], NONE);
    r.ty_all("Empty", vec![Empty {}], NONE);
    r.ty("One", vec![One { a: 0 }, One { a: -3 }], NONE);
    r.ty_all("Two", strs().iter().map(|s| two(1, s)).collect(), NONE);
    r.ty_all("Opts", cross(&[None, Some(1)], &cross(&[None, Some("n".to_string())], &cross(&[None, Some(two(2, "q"))], &[None, Some(vec![]), Some(vec![None, Some(1)]), Some(vec![None])], |c, d| (c, d)), |b, c| (b, c)), |a, (b, (c, d))| Opts { a, b, c, d }), NONE);
    r.ty("Nest", (0..3usize).map(|n| Nest { o: One { a: 1 }, l: (0..n as i64).map(|a| One { a }).collect(), m: (0..n as i64).map(|a| (format!("k {}", a), One { a })).collect(), t: (1, One { a: 2 }) }).collect(), NONE);
    r.ty(
        "Scal",
        vec![
            Scal { a: -1, b: -2, c: -3, d: -4, e: 1, f: 2, g: 3, h: 4, i: 1.5, j: 2.5, k: true, l: ',', m: "m".into(), n: () },
            Scal { a: i8::MIN, b: i16::MIN, c: i32::MIN, d: i64::MIN, e: 255, f: u16::MAX, g: u32::MAX, h: u64::MAX, i: f32::MAX, j: f64::MAX, k: false, l: '"', m: "".into(), n: () },
        ],
        NONE,
    );
    r.ty("Renamed", vec![Renamed { first_field: 1, b: 2, c: 3, d: 4, e: vec![5] }, Renamed { first_field: 1, b: 2, c: 3, d: 4, e: vec![] }], NONE);
    r.ty("Skips", cross(&[None, Some(1)], &[vec![], vec![1]], |c, d| Skips { a: 1, b: 0, c, d }), NONE);
    r.ty("Defs", vec![Defs::default(), Defs { a: 0, b: "".into(), c: vec![] }], NONE);
    r.ty_all("Flat", vec![Flat { a: 1, f: FlatIn { x: 2, y: None }, z: 3 }, Flat { a: 1, f: FlatIn { x: 2, y: Some("y".into()) }, z: 3 }], NONE);
    r.ty("FlatMap", vec![FlatMap { a: 1, m: BTreeMap::new() }, FlatMap { a: 1, m: [("b c".to_string(), 1), ("d".to_string(), 2), ("5".to_string(), 3)].into() }], NONE);
    r.ty("FlatEnum", vec![FlatEnum { a: 1, e: Ext::New(2) }, FlatEnum { a: 1, e: Ext::St { x: 1, y: None } }, FlatEnum { a: 1, e: Ext::Tup(1, "t".into()) }], NONE);
    r.ty("Transp", vec![Transp { v: vec![] }, Transp { v: vec![1, 2] }], NONE);
    r.ty("Deny", vec![Deny { a: 1 }], NONE);
    r.ty_all(
        "Ext",
        vec![
            Ext::Unit,
            Ext::New(1),
            Ext::NewS(two(1, "x")),
            Ext::NewO(None),
            Ext::NewO(Some(1)),
            Ext::NewV(vec![]),
            Ext::NewV(vec![1]),
            Ext::Tup(1, "x".into()),
            Ext::St { x: 1, y: None },
            Ext::St { x: 255, y: Some(true) },
            Ext::St0 {},
            Ext::Odd(3),
        ],
        NONE,
    );
    r.ty_all("Int", vec![Int::Unit, Int::New(two(1, "x")), Int::St { x: 1, y: None }, Int::St { x: 1, y: Some(false) }, Int::Five { v: vec![] }, Int::Five { v: vec![1, 2] }], NONE);
    r.ty_all("Adj", vec![Adj::Unit, Adj::New(1), Adj::NewS(two(1, "x")), Adj::Tup(1, "5".into()), Adj::St { x: 1, y: None }, Adj::V(vec![]), Adj::V(vec![1, 2])], NONE);
    r.ty_all("Unt", vec![Unt::B(true), Unt::I(5), Unt::S("5".into()), Unt::S("true".into()), Unt::S("".into()), Unt::T(1, "a".into()), Unt::St { x: 1 }, Unt::V(vec![]), Unt::V(vec![1, 2]), Unt::N], &[14]);
    r.ty("Tree", trees(if th { 3 } else { 2 }), NONE);
    let mut l = List { v: 0, next: None };
    let mut ls = vec![l.clone()];
    for v in 1..40 {
        l = List { v, next: Some(Box::new(l)) };
        ls.push(l.clone());
    }
    r.ty("List", ls, NONE);
    r.ty_all("Vec<i64>", vec![vec![], vec![1i64], vec![1, 2, 3]], NONE);
    r.ty("Vec<String>", vec![vec![], strs(), vec!["".to_string()]], NONE);
    r.ty("Vec<Option<i64>>", vec![vec![None], vec![None, Some(1)], vec![Some(1), None, None]], NONE);
    r.ty("Vec<Option<Two>>", vec![vec![None, Some(two(1, "x"))], vec![Some(two(1, "x"))]], NONE);
    r.ty("Vec<Ext>", vec![vec![Ext::Unit, Ext::New(1), Ext::Tup(1, "x".into()), Ext::St { x: 1, y: None }], vec![Ext::Unit, Ext::Unit]], NONE);
    r.ty("Vec<()>", vec![vec![], vec![()], vec![(), ()]], NONE);
    r.ty("Vec<Opts>", vec![vec![Opts { a: None, b: None, c: None, d: None }, Opts { a: Some(1), b: None, c: Some(two(1, "x")), d: None }]], NONE);
    r.ty("Vec<Skips>", vec![vec![Skips { a: 1, b: 0, c: None, d: vec![] }, Skips { a: 1, b: 0, c: Some(1), d: vec![] }]], NONE);
    r.ty("Vec<Empty>", vec![vec![Empty {}, Empty {}]], NONE);
    r.ty("VecDeque<Tup>", vec![VecDeque::from([Tup(1, "a".into()), Tup(2, "b".into())])], NONE);
    r.ty("BTreeSet<String>", vec![BTreeSet::new(), ["a".to_string(), "b c".into(), "5".into()].into()], NONE);
    let m = |n: usize| -> Vec<i64> { (0..n as i64).collect() };
    r.ty_all("BTreeMap<String,i64>", vec![BTreeMap::new(), strs().into_iter().zip(0i64..).collect()], NONE);
    r.ty_all("BTreeMap<i64,i64>", vec![BTreeMap::from([(i64::MIN, 1i64), (-1, 2), (0, 3), (i64::MAX, 4)])], KEYED);
    r.ty("BTreeMap<u64,Two>", vec![BTreeMap::from([(0u64, two(1, "x")), (u64::MAX, two(2, "y"))])], KEYED);
    r.ty("BTreeMap<u8,i64>", vec![(0..=255u8).zip(m(256)).collect::<BTreeMap<_, _>>()], KEYED);
    r.ty("BTreeMap<i8,i64>", vec![(i8::MIN..=i8::MAX).zip(m(256)).collect::<BTreeMap<_, _>>()], KEYED);
    r.ty("BTreeMap<i16,()>", vec![BTreeMap::from([(i16::MIN, ()), (i16::MAX, ())])], KEYED);
    r.ty("BTreeMap<u16,()>", vec![BTreeMap::from([(0u16, ()), (u16::MAX, ())])], KEYED);
    r.ty("BTreeMap<i32,()>", vec![BTreeMap::from([(i32::MIN, ()), (i32::MAX, ())])], KEYED);
    r.ty("BTreeMap<u32,()>", vec![BTreeMap::from([(0u32, ()), (u32::MAX, ())])], KEYED);
    r.ty("BTreeMap<bool,i64>", vec![BTreeMap::from([(true, 1i64), (false, 2)])], KEYED);
    r.ty("BTreeMap<char,i64>", vec![('\0'..='\u{ff}').zip(m(256)).collect::<BTreeMap<_, _>>()], NONE);
    r.ty("BTreeMap<Key,i64>", vec![BTreeMap::from([(Key::A, 1i64), (Key::B, 2), (Key::C, 3), (Key::D, 4)])], NONE);
    r.ty("BTreeMap<KeyN,i64>", vec![BTreeMap::from([(KeyN(-1), 1i64), (KeyN(5), 2)])], KEYED);
    r.ty("BTreeMap<KeyS,Vec<i64>>", vec![BTreeMap::from([(KeyS("a b".into()), vec![1i64]), (KeyS("".into()), vec![])])], NONE);
    r.ty("BTreeMap<Option<String>,i64>", vec![BTreeMap::from([(Some("a".to_string()), 1i64)])], NONE);
    r.ty("BTreeMap<String,BTreeMap<i64,Ext>>", vec![BTreeMap::from([("m".to_string(), BTreeMap::from([(1i64, Ext::Unit), (2, Ext::New(1)), (3, Ext::St { x: 1, y: None })]))])], KEYED);
    r.ty("HashMap<String,Option<One>>", vec![HashMap::from([("a".to_string(), None), ("b".to_string(), Some(One { a: 1 }))])], NONE);
    r.ty("HashMap<i64,Vec<Two>>", vec![HashMap::from([(1i64, vec![two(1, "x"), two(2, "y")]), (2, vec![])])], KEYED);
    r.ty("Result<i64,String>", vec![Ok(1i64), Err("x".to_string())], NONE);
    r.ty("Result<(),Two>", vec![Ok(()), Err(two(1, "x"))], NONE);
    r.ty("Duration", vec![std::time::Duration::new(0, 0), std::time::Duration::new(u64::MAX, 999_999_999)], NONE);
    r.ty("Range<i64>", vec![1i64..5], NONE);
    r.ty("Bound<i64>", vec![std::ops::Bound::Unbounded, std::ops::Bound::Included(1i64), std::ops::Bound::Excluded(2)], NONE);
    r.ty("IpAddr", vec!["127.0.0.1", "::1", "::"].into_iter().map(|s| s.parse::<std::net::IpAddr>().unwrap()).collect(), NONE);
    r.ty("PathBuf", vec!["/a b/c", ""].into_iter().map(std::path::PathBuf::from).collect(), NONE);
    r.ty("NonZeroI8", vec![std::num::NonZeroI8::MIN, std::num::NonZeroI8::MAX], NONE);
    r.ty("Wrapping<u8>", vec![std::num::Wrapping(255u8)], NONE);
    r.ty("Bytes", vec![Bytes(vec![]), Bytes(vec![0]), Bytes((0..=255).collect())], &[11, 12]);
    r.ty("serde_json::Value", vec![serde_json::json!(null), serde_json::json!({"a": [1, {"b": null}], "c d": "5"}), serde_json::json!([[], {}, [1, -2.5]])], &[14]);
    r.ty("NT<NT<Option<NT<i64>>>>", vec![NT(NT(None)), NT(NT(Some(NT(3i64))))], &[14]);
    r.ty("W<W<Ext>>", vec![W { k: W { k: Ext::Unit, z: 1 }, z: 2 }, W { k: W { k: Ext::Tup(1, "t".into()), z: 1 }, z: 2 }], NONE);
    r.ty("Vec<WE<WE<i64>>>", vec![vec![WE::V(WE::V(1i64)), WE::T(WE::S { k: 2, z: 3 }, 4), WE::S { k: WE::T(5, 6), z: 7 }]], NONE);
    r.ty("(Ext,Int,Adj,Unt)", vec![(Ext::Unit, Int::Unit, Adj::Unit, Unt::I(1)), (Ext::St { x: 1, y: None }, Int::St { x: 1, y: None }, Adj::St { x: 1, y: None }, Unt::St { x: 1 })], NONE);
}

/// read one document into every target type both ways
pub const TARGETS: usize = 70;
pub fn target(cx: &mut Cx, k: usize, t: &str, o: &Opt, oo: &Options, mode: Mode) {
    macro_rules! go { ($($i:literal => $t:ty),* $(,)?) => { match k { $($i => agree::<$t>(cx, stringify!($t), t, o, oo, mode),)* _ => unreachable!() } } }
    go!(
        0 => bool, 1 => i8, 2 => u8, 3 => i64, 4 => u64, 5 => f32, 6 => f64, 7 => char, 8 => String, 9 => (),
        10 => Unit, 11 => Option<i64>, 12 => Option<String>, 13 => Option<One>, 14 => New, 15 => NewS, 16 => NewV, 17 => NewO, 18 => Tup, 19 => Tup3,
        20 => (i64, i64), 21 => [i64; 2], 22 => Empty, 23 => One, 24 => Two, 25 => Opts, 26 => Nest, 27 => Deny, 28 => Renamed, 29 => Defs,
        30 => Flat, 31 => FlatMap, 32 => Transp, 33 => Ext, 34 => Int, 35 => Adj, 36 => Unt, 37 => Tree, 38 => List, 39 => Vec<i64>,
        40 => Vec<String>, 41 => Vec<Option<i64>>, 42 => Vec<One>, 43 => Vec<Ext>, 44 => Vec<Vec<i64>>, 45 => BTreeMap<String, i64>, 46 => BTreeMap<i64, i64>, 47 => BTreeMap<bool, i64>, 48 => BTreeMap<Key, Option<i64>>, 49 => BTreeMap<char, Vec<i64>>,
        50 => Result<i64, String>, 51 => std::time::Duration, 52 => Bytes, 53 => Vec<(i64, String)>, 54 => BTreeMap<String, One>, 55 => Key, 56 => Option<Vec<Option<Ext>>>, 57 => i16, 58 => u32, 59 => Vec<BTreeMap<String, Unt>>,
        60 => i128, 61 => u128, 62 => BTreeMap<i128, u128>, 63 => std::num::NonZeroU8, 64 => std::net::IpAddr, 65 => std::ops::Range<i64>, 66 => std::ops::Bound<i64>, 67 => Vec<u128>, 68 => BTreeMap<KeyN, String>, 69 => Option<Option<i64>>
    )
}
/// documents that nearly fit one of the types
pub fn near() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let sc = ["null", "true", "0", "1", "-1", "127", "128", "255", "256", "-128", "-129", "65535", "65536", "1.0", "1.5", "1e2", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e400", "-9223372036854775809", "a", "\"\"", "\"a\"", "\"5\"", "Unit", "ab", "A", "\"b c\"", "LEAF", "Nope", "\"odd name\""];
    for s in sc {
        v.push(s.to_string());
        for k in ["a", "New", "NewO", "NewV", "St", "Unit", "\"5\"", "\"-1\"", "true", "Ok", "Err", "x", "t", "A", "\"b c\"", "Tup", "St0", "NewS", "Nope", "WRAP", "v", "secs"] {
            v.push(format!("{}: {}", k, s));
        }
        for h in ["a: 1\nb: ", "a: 1\nz: 2\nx: ", "t: New\nc: ", "t: Unit\nc: ", "t: St\nx: ", "c: 1\nt: ", "t: ", "v: 1\nnext: ", "b: x\na: ", "a: 1\na b: ", "secs: 1\nnanos: ", "x: 1\ny: ", "a: 1\nextra: "] {
            v.push(format!("{}{}", h, s));
        }
        v.push(format!("[1]: {}", s));
        v.push(format!("[2]: {},{}", s, s));
        v.push(format!("[2]: 1,{}", s));
        v.push(format!("[3]: true,{},1", s));
        v.push(format!("[1]{{a}}:\n  {}", s));
        v.push(format!("[2]{{a,b}}:\n  1,x\n  {},y", s));
        v.push(format!("Tup[2]: {},x", s));
        v.push(format!("NewV[1]: {}", s));
        v.push(format!("St:\n  x: {}", s));
        v.push(format!("St:\n  x: 1\n  y: {}", s));
        v.push(format!("NewS:\n  a: 1\n  b: {}", s));
        v.push(format!("[1]:\n  - New: {}", s));
        v.push(format!("[2]:\n  - Unit\n  - St:\n      x: {}", s));
        v.push(format!("t: NewS\nc:\n  a: {}\n  b: q", s));
        v.push(format!("t: Tup\nc[2]: 1,{}", s));
        v.push(format!("v: 1\nnext:\n  v: {}\n  next: null", s));
        v.push(format!("[1]:\n  - [2]: 1,{}", s));
        v.push(format!("x:\n  a: {}", s));
        v.push(format!("\"5\": {}\n\"-7\": 1", s));
        v.push(format!("A: {}\n\"b c\": null", s));
    }
    for d in [
        "", "[0]:", "a:", "a[0]:", "St:", "St0:", "Tup0[0]:", "NewV[0]:", "New:", "Unit:", "Tup[1]: 1", "Tup[3]: 1,x,2", "Tup:\n  a: 1", "New: 1\nUnit: null", "[3]: 1,2,3", "[1]: 1", "a: 1\nb: x\nc: 1", "LEAF: null", "MANY[0]:", "MANY[2]: LEAF,LEAF", "MANY[1]:\n  - WRAP: LEAF",
        "NODE:\n  left_side: LEAF\n  right: LEAF", "NODE:\n  left_side: LEAF", "WRAP:\n  WRAP: LEAF", "first-field: 1\nwith space: 2", "first-field: 1\n\"with space\": 2\na.b: 3\n\"\": 4\n\"x:y\"[1]: 5", "o:\n  a: 1\nl[0]:\nm:\nt[2]:\n  - 1\n  - a: 2", "o:\n  a: 1\nl[1]{a}:\n  1\nm:\n  q:\n    a: 1\nt[2]:\n  - 1\n  - a: 2",
        "[2]:\n  -\n  -", "[1]:\n  -", "[1]:\n  - a: 1\n    b: 2", "[2]:\n  - [0]:\n  - [1]: 1", "[1]:\n  - [2]: 1,x", "[1]:\n  - [1]: 1", "[1]:\n  - [3]: 1,x,y",
    ] {
        v.push(d.to_string());
    }
    v
}

/// an object with the same key twice: not a JSON value
pub fn repeats(r: &Result<J, String>) -> bool {
    fn rep(j: &J) -> bool {
        match j {
            J::Obj(o) => o.iter().enumerate().any(|(i, (k, v))| o[..i].iter().any(|(l, _)| l == k) || rep(v)),
            J::Arr(a) => a.iter().any(rep),
            _ => false,
        }
    }
    matches!(r, Ok(j) if rep(j))
}

pub fn spec(th: bool) -> Spec {
    let os: Vec<(Opt, Options)> = if th {
        let mut v = Vec::new();
        for d in DELIMS {
            for i in INDENTS {
                for st in [true, false] {
                    v.push(Opt { delim: d, indent: i, strict: st, ..BASE });
                }
            }
        }
        v.into_iter().map(|o| (o, o.o())).collect()
    } else {
        [BASE, Opt { delim: '|', indent: 3, strict: false, ..BASE }, Opt { delim: '\t', indent: 1, ..BASE }, Opt { indent: 4, strict: false, ..BASE }].into_iter().map(|o| (o, o.o())).collect()
    };
    let mut r = Reg { fams: vec![], os: Arc::new(os) };
    types(&mut r, th);
    let nd = near();
    r.fams.push(Fam::new("near", (nd.len() * TARGETS) as u64, "documents that fit or nearly fit a type (every scalar in every place) x 70 target types", move |i, cx| {
        let t = &nd[i as usize / TARGETS];
        for o in [BASE, BASE.strict(false), Opt { expand: true, ..BASE }] {
            target(cx, i as usize % TARGETS, t, &o, &o.o(), Mode::Both);
        }
        cx.sample(|| t.clone());
    }));
    let sd = docs::small_docs(if th { 6 } else { 5 });
    r.fams.push(Fam::new("small documents", (sd.len() * TARGETS) as u64, "the encodings of all trees of up to 5 nodes and 15 feature-rich documents x 70 target types", move |i, cx| {
        target(cx, i as usize % TARGETS, &sd[i as usize / TARGETS], &BASE, &BASE.o(), Mode::Both);
    }));
    let l = docs::Lines::new(&docs::BODIES, 3, if th { 2 } else { 1 });
    r.fams.push(Fam::new("lines", l.count(), "every document of up to 3 lines over 26 line bodies into 70 target types, strict and lenient", move |i, cx| {
        let Some(t) = l.get(i, 2) else {
            cx.skip();
            return;
        };
        for o in [BASE, BASE.strict(false)] {
            let oo = o.o();
            if repeats(&dec(cx, &t, &oo)) {
                cx.cat("repeated keys: agreement not claimed");
                continue;
            }
            for k in 0..TARGETS {
                target(cx, k, &t, &o, &oo, Mode::Both);
            }
        }
    }));
    let wl = if th { 5 } else { 4 };
    let n = words_upto(docs::TOK.len(), wl);
    r.fams.push(Fam::new("tokens", n * 4, "every text of up to 4 (thorough: 5) characters over 20 significant characters as root, field, list item, and key, into 70 target types", move |i, cx| {
        let w = mc::space::chars_word(i / 4, &docs::TOK, wl);
        let t = match i % 4 {
            0 => w,
            1 => format!("a: {}", w),
            2 => format!("[1]:\n  - {}", w),
            _ => format!("{}: 1", w),
        };
        let oo = BASE.o();
        if repeats(&dec(cx, &t, &oo)) {
            return;
        }
        for k in 0..TARGETS {
            target(cx, k, &t, &BASE, &oo, Mode::Both);
        }
    }));
    Spec {
        id: "C12".into(),
        level: "model_checking",
        rule: "state = one value of a Rust type in one container position, or one document and a target type; typed decode of the encoding equals the value; typed decode of any document equals conversion of its generic JSON (both succeed equally or both fail)".into(),
        fams: r.fams,
        assumptions: vec!["types that serde itself cannot read back from JSON (Some(()) in an option, integer map keys inside buffered enums) are left out of the round trip".into()],
    }
}
