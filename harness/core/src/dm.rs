//! Trees of serde data-model calls: what any Serialize implementation can do.
use crate::val::*;
use serde::ser::*;
use std::cell::Cell;

#[derive(Clone, Debug)]
pub enum D {
    /// a JSON value, serialized with the plain calls
    J(J),
    I8(i8),
    I16(i16),
    I32(i32),
    U8(u8),
    U16(u16),
    U32(u32),
    F32(f32),
    Char(char),
    Bytes(Vec<u8>),
    None,
    UnitStruct,
    UnitVar(&'static str),
    CollectStr(String),
    I128(i128),
    U128(u128),
    /// fails with a custom error
    Fail,
    Some(Box<D>),
    Newtype(Box<D>),
    NewVar(&'static str, Box<D>),
    /// length known or not
    Seq(Vec<D>, bool),
    Tuple(Vec<D>),
    TupleStruct(Vec<D>),
    TupVar(&'static str, Vec<D>),
    /// fields; None: a skipped field
    Struct(Vec<(&'static str, Option<D>)>),
    StructVar(&'static str, Vec<(&'static str, Option<D>)>),
    /// entries, length known, written as entries or as key then value
    Map(Vec<(D, D)>, bool, bool),
}

thread_local! {
    /// serialization calls left before one fails
    pub static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
}
pub const FAIL_TEXT: &str = "planned failure";
fn tick<E: Error>() -> Result<(), E> {
    FUEL.with(|f| {
        let v = f.get();
        if v == u64::MAX {
            return Ok(());
        }
        if v == 0 {
            return Err(E::custom(FAIL_TEXT));
        }
        f.set(v - 1);
        Ok(())
    })
}

impl Serialize for D {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        tick()?;
        match self {
            D::J(j) => j.serialize(s),
            D::I8(x) => s.serialize_i8(*x),
            D::I16(x) => s.serialize_i16(*x),
            D::I32(x) => s.serialize_i32(*x),
            D::U8(x) => s.serialize_u8(*x),
            D::U16(x) => s.serialize_u16(*x),
            D::U32(x) => s.serialize_u32(*x),
            D::F32(x) => s.serialize_f32(*x),
            D::Char(c) => s.serialize_char(*c),
            D::Bytes(b) => s.serialize_bytes(b),
            D::None => s.serialize_none(),
            D::UnitStruct => s.serialize_unit_struct("U"),
            D::UnitVar(v) => s.serialize_unit_variant("E", 0, v),
            D::CollectStr(t) => s.collect_str(t),
            D::I128(x) => s.serialize_i128(*x),
            D::U128(x) => s.serialize_u128(*x),
            D::Fail => Err(S::Error::custom(FAIL_TEXT)),
            D::Some(d) => s.serialize_some(&**d),
            D::Newtype(d) => s.serialize_newtype_struct("N", &**d),
            D::NewVar(v, d) => s.serialize_newtype_variant("E", 1, v, &**d),
            D::Seq(v, known) => {
                let mut q = s.serialize_seq(known.then_some(v.len()))?;
                for x in v {
                    q.serialize_element(x)?;
                    tick()?;
                }
                q.end()
            }
            D::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                    tick()?;
                }
                q.end()
            }
            D::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("T", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                    tick()?;
                }
                q.end()
            }
            D::TupVar(n, v) => {
                let mut q = s.serialize_tuple_variant("E", 2, n, v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                    tick()?;
                }
                q.end()
            }
            D::Struct(v) => {
                let mut q = s.serialize_struct("S", v.iter().filter(|x| x.1.is_some()).count())?;
                for (k, x) in v {
                    match x {
                        Some(x) => q.serialize_field(k, x)?,
                        None => q.skip_field(k)?,
                    }
                    tick()?;
                }
                q.end()
            }
            D::StructVar(n, v) => {
                let mut q = s.serialize_struct_variant("E", 3, n, v.iter().filter(|x| x.1.is_some()).count())?;
                for (k, x) in v {
                    match x {
                        Some(x) => q.serialize_field(k, x)?,
                        None => q.skip_field(k)?,
                    }
                    tick()?;
                }
                q.end()
            }
            D::Map(v, known, entries) => {
                let mut q = s.serialize_map(known.then_some(v.len()))?;
                for (k, x) in v {
                    if *entries {
                        q.serialize_entry(k, x)?;
                    } else {
                        q.serialize_key(k)?;
                        tick()?;
                        q.serialize_value(x)?;
                    }
                    tick()?;
                }
                q.end()
            }
        }
    }
}

fn one(k: &str, v: J) -> J {
    J::Obj(vec![(k.to_string(), v)])
}
impl D {
    /// the conventional JSON form
    pub fn j(&self) -> J {
        let arr = |v: &[D]| J::Arr(v.iter().map(|d| d.j()).collect());
        let obj = |v: &[(&'static str, Option<D>)]| J::Obj(v.iter().filter_map(|(k, d)| d.as_ref().map(|d| (k.to_string(), d.j()))).collect());
        match self {
            D::J(j) => j.clone(),
            D::I8(x) => int(*x as i64),
            D::I16(x) => int(*x as i64),
            D::I32(x) => int(*x as i64),
            D::U8(x) => int(*x as i64),
            D::U16(x) => int(*x as i64),
            D::U32(x) => int(*x as i64),
            D::F32(x) => f(*x as f64),
            D::Char(c) => J::Str(c.to_string()),
            D::Bytes(b) => J::Arr(b.iter().map(|x| int(*x as i64)).collect()),
            D::None | D::UnitStruct => J::Null,
            D::UnitVar(v) => s(v),
            D::CollectStr(t) => s(t),
            D::I128(x) => match u64::try_from(*x) {
                Ok(u) => J::Num(N::U(u)),
                Err(_) => int(i64::try_from(*x).unwrap()),
            },
            D::U128(x) => J::Num(N::U(u64::try_from(*x).unwrap())),
            D::Fail => unreachable!(),
            D::Some(d) | D::Newtype(d) => d.j(),
            D::NewVar(v, d) => one(v, d.j()),
            D::Seq(v, _) | D::Tuple(v) | D::TupleStruct(v) => arr(v),
            D::TupVar(n, v) => one(n, arr(v)),
            D::Struct(v) => obj(v),
            D::StructVar(n, v) => one(n, obj(v)),
            D::Map(v, _, _) => J::Obj(v.iter().map(|(k, d)| (k.key().expect("scalar key"), d.j())).collect()),
        }
    }
    /// the text of a scalar key
    pub fn key(&self) -> Option<String> {
        Some(match self {
            D::J(J::Str(s)) | D::CollectStr(s) => s.clone(),
            D::J(J::Num(n)) => n.text(),
            D::J(J::Bool(b)) => b.to_string(),
            D::Char(_) | D::UnitVar(_) => match self.j() {
                J::Str(s) => s,
                _ => unreachable!(),
            },
            D::I8(_) | D::I16(_) | D::I32(_) | D::U8(_) | D::U16(_) | D::U32(_) | D::F32(_) => match self.j() {
                J::Num(n) => n.text(),
                _ => unreachable!(),
            },
            D::Newtype(d) | D::Some(d) => return d.key(),
            _ => return None,
        })
    }
    pub fn show(&self) -> String {
        match self {
            D::J(j) => j.json(),
            D::Some(d) => format!("Some({})", d.show()),
            D::Newtype(d) => format!("N({})", d.show()),
            D::NewVar(v, d) => format!("E::{}({})", v, d.show()),
            D::Seq(v, k) => format!("seq{}[{}]", if *k { "" } else { "?" }, shows(v)),
            D::Tuple(v) => format!("({})", shows(v)),
            D::TupleStruct(v) => format!("T({})", shows(v)),
            D::TupVar(n, v) => format!("E::{}({})", n, shows(v)),
            D::Struct(v) => format!("S{{{}}}", fields(v)),
            D::StructVar(n, v) => format!("E::{}{{{}}}", n, fields(v)),
            D::Map(v, a, b) => format!(
                "map{}{}{{{}}}",
                if *a { "" } else { "?" },
                if *b { "" } else { "'" },
                v.iter().map(|(k, x)| format!("{}: {}", k.show(), x.show())).collect::<Vec<_>>().join(", ")
            ),
            x => format!("{:?}", x),
        }
    }
}
fn shows(v: &[D]) -> String {
    v.iter().map(|d| d.show()).collect::<Vec<_>>().join(", ")
}
fn fields(v: &[(&'static str, Option<D>)]) -> String {
    v.iter().map(|(k, x)| format!("{}: {}", k, x.as_ref().map(|d| d.show()).unwrap_or("(skipped)".into()))).collect::<Vec<_>>().join(", ")
}

/// all trees of exactly n nodes over leaf, unary and n-ary call kinds
pub struct DTrees {
    pub leaves: Vec<D>,
    pub unary: usize,
    pub nary: usize,
    t: Vec<u64>,
    f: Vec<u64>,
}
pub const UNARY: usize = 3;
pub const NARY: usize = 10;
const NAMES: [&str; 6] = ["a", "b", "c", "d", "e", "g"];
pub fn unary(k: usize, d: D) -> D {
    match k {
        0 => D::Some(Box::new(d)),
        1 => D::Newtype(Box::new(d)),
        _ => D::NewVar("V", Box::new(d)),
    }
}
pub fn nary(k: usize, kids: Vec<D>) -> D {
    let st = |kids: Vec<D>| kids.into_iter().enumerate().map(|(i, d)| (NAMES[i % 6], Some(d))).collect::<Vec<_>>();
    let mp = |kids: Vec<D>| kids.into_iter().enumerate().map(|(i, d)| (D::J(s(NAMES[i % 6])), d)).collect::<Vec<_>>();
    match k {
        0 => D::Seq(kids, true),
        1 => D::Struct(st(kids)),
        2 => D::Map(mp(kids), true, true),
        3 => D::TupVar("V", kids),
        4 => D::StructVar("V", st(kids)),
        5 => D::Tuple(kids),
        6 => D::TupleStruct(kids),
        7 => D::Seq(kids, false),
        8 => D::Map(mp(kids), false, false),
        _ => {
            let mut v = st(kids);
            v.insert(v.len() / 2, ("skipped", None));
            D::Struct(v)
        }
    }
}
impl DTrees {
    pub fn new(leaves: Vec<D>, un: usize, na: usize, max: usize) -> DTrees {
        let mut t = vec![0u64; max + 1];
        let mut f = vec![0u64; max + 1];
        for n in 1..=max {
            t[n] = if n == 1 { (leaves.len() + na) as u64 } else { un as u64 * t[n - 1] + na as u64 * f[n - 1] };
            let mut s = t[n];
            for k in 1..n {
                s += t[k] * f[n - k];
            }
            f[n] = s;
        }
        DTrees { leaves, unary: un, nary: na, t, f }
    }
    pub fn count_upto(&self, n: usize) -> u64 {
        self.t[1..=n].iter().sum()
    }
    pub fn upto(&self, mut i: u64, n: usize) -> D {
        for k in 1..=n {
            if i < self.t[k] {
                return self.tree(k, i);
            }
            i -= self.t[k];
        }
        panic!("rank")
    }
    fn tree(&self, n: usize, i: u64) -> D {
        if n == 1 {
            let l = self.leaves.len();
            return if (i as usize) < l { self.leaves[i as usize].clone() } else { nary(i as usize - l, vec![]) };
        }
        let u = self.unary as u64 * self.t[n - 1];
        if i < u {
            return unary((i / self.t[n - 1]) as usize, self.tree(n - 1, i % self.t[n - 1]));
        }
        let i = i - u;
        nary((i / self.f[n - 1]) as usize, self.forest(n - 1, i % self.f[n - 1]))
    }
    fn forest(&self, mut n: usize, mut i: u64) -> Vec<D> {
        let mut out = Vec::new();
        'next: loop {
            if i < self.t[n] {
                out.push(self.tree(n, i));
                return out;
            }
            i -= self.t[n];
            for k in 1..n {
                let c = self.t[k] * self.f[n - k];
                if i < c {
                    let fk = self.f[n - k];
                    out.push(self.tree(k, i / fk));
                    i %= fk;
                    n -= k;
                    continue 'next;
                }
                i -= c;
            }
            unreachable!()
        }
    }
}

/// every kind of scalar call with its extreme values
pub fn scalar_leaves() -> Vec<D> {
    let mut v = vec![
        D::J(J::Null),
        D::J(J::Bool(true)),
        D::J(J::Bool(false)),
        D::J(J::Num(N::I(0))),
        D::J(J::Num(N::I(5))),
        D::J(J::Num(N::I(i64::MIN))),
        D::J(J::Num(N::I(i64::MAX))),
        D::J(J::Num(N::U(0))),
        D::J(J::Num(N::U(u64::MAX))),
        D::I8(i8::MIN),
        D::I8(7),
        D::I16(i16::MIN),
        D::I16(i16::MAX),
        D::I32(i32::MIN),
        D::I32(i32::MAX),
        D::U8(255),
        D::U16(65535),
        D::U32(u32::MAX),
        D::I128(0),
        D::I128(i64::MIN as i128),
        D::I128(i64::MAX as i128 + 1),
        D::I128(u64::MAX as i128),
        D::U128(7),
        D::U128(u64::MAX as u128),
        D::F32(0.0),
        D::F32(-0.0),
        D::F32(1.5),
        D::F32(0.1),
        D::F32(f32::MAX),
        D::F32(f32::MIN_POSITIVE),
        D::F32(1e10),
        D::F32(f32::NAN),
        D::F32(f32::INFINITY),
        D::F32(f32::NEG_INFINITY),
        D::Char('a'),
        D::Char('5'),
        D::Char(' '),
        D::Char(','),
        D::Char('|'),
        D::Char('\t'),
        D::Char('"'),
        D::Char('\n'),
        D::Char('-'),
        D::Char('é'),
        D::Char('😀'),
        D::Bytes(vec![]),
        D::Bytes(vec![0, 255]),
        D::Bytes(vec![7]),
        D::None,
        D::UnitStruct,
        D::UnitVar("Unit"),
        D::UnitVar("true"),
        D::UnitVar("with space"),
        D::UnitVar("5"),
        D::UnitVar("a-b"),
        D::UnitVar(""),
        D::CollectStr("x,y".into()),
        D::CollectStr("".into()),
        D::CollectStr("12".into()),
    ];
    for x in [0.0, -0.0, 1.0, 1.5, 0.1, 1e21, 1e-7, -2.5, 1e300, 5e-324, f64::MAX, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 9007199254740993.0, 1e18, 1e19, 9223372036854775808.0] {
        v.push(D::J(f(x)));
    }
    for x in ["", " ", "a", "a b", "true", "5", "-", "a:b", "a,b", "a|b", "a\tb", "\"", "\\", "\n", "[1]", "{a}", "é", "a.b", "_x1", "01", "1e5", "#", "null"] {
        v.push(D::J(s(x)));
    }
    v
}
/// every kind of key call
pub fn keys() -> Vec<D> {
    let mut v: Vec<D> = scalar_leaves().into_iter().filter(|d| d.key().is_some()).collect();
    let n = v.len();
    for i in (0..n).step_by(5) {
        v.push(D::Newtype(Box::new(v[i].clone())));
        v.push(D::Some(Box::new(v[i].clone())));
    }
    v.push(D::Newtype(Box::new(D::Newtype(Box::new(D::J(s("nn")))))));
    v.push(D::Newtype(Box::new(D::UnitVar("nu"))));
    v.push(D::Some(Box::new(D::Newtype(Box::new(D::J(J::Num(N::I(-3))))))));
    v
}
/// positions of a data-model value
pub const DPOS: u64 = 18;
pub fn dplace(d: D, p: u64) -> D {
    let i = |n: i64| D::J(int(n));
    let b = |d: D| Box::new(d);
    match p {
        0 => d,
        1 => D::Struct(vec![("k", Some(d)), ("z", Some(i(9)))]),
        2 => D::Map(vec![(D::J(s("k")), d), (D::J(s("z")), i(9))], true, true),
        3 => D::Seq(vec![d], true),
        4 => D::Tuple(vec![i(1), d.clone(), d]),
        5 => D::Seq(vec![D::Struct(vec![("k", Some(d.clone()))]), D::Struct(vec![("k", Some(d))])], true),
        6 => D::Seq(vec![D::Struct(vec![("p", Some(D::Seq(vec![], true))), ("k", Some(d))]), i(3)], false),
        7 => D::NewVar("V", b(d)),
        8 => D::Struct(vec![("e", Some(D::NewVar("V", b(d)))), ("z", Some(i(9)))]),
        9 => D::Seq(vec![D::NewVar("V", b(d.clone())), D::NewVar("W", b(d))], true),
        10 => D::TupVar("V", vec![d, i(1)]),
        11 => D::StructVar("V", vec![("k", Some(d)), ("z", Some(i(1)))]),
        12 => D::Some(b(D::Newtype(b(d)))),
        13 => D::Seq(vec![D::TupVar("V", vec![d.clone(), i(1)]), D::StructVar("W", vec![("k", Some(d)), ("z", Some(i(1)))])], true),
        14 => D::TupleStruct(vec![D::Seq(vec![d.clone(), D::Tuple(vec![d])], true), i(1)]),
        15 => D::Struct(vec![("t", Some(D::Seq(vec![D::Struct(vec![("p", Some(i(1))), ("k", Some(d.clone()))]), D::Map(vec![(D::J(s("k")), d), (D::J(s("p")), i(2))], true, false)], true)))]),
        16 => D::Seq(vec![D::Struct(vec![("k", Some(d.clone())), ("z", Some(i(1)))]), D::Struct(vec![("k", Some(d)), ("z", Some(i(1)))])], false),
        _ => D::Struct(vec![("o", Some(D::Some(b(D::Struct(vec![("q", None), ("k", Some(d))]))))), ("z", Some(D::UnitStruct))]),
    }
}
