//! JSON data model used as the oracle domain (independent of serde_json and of toon-rs).
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
use std::fmt;

#[derive(Clone, Copy, Debug)]
pub enum N {
    I(i64),
    U(u64),
    F(f64),
}

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(N),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn int(i: i64) -> J {
    if i >= 0 { J::Num(N::U(i as u64)) } else { J::Num(N::I(i)) }
}
pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn f(x: f64) -> J {
    J::Num(N::F(x))
}

impl N {
    /// exact integer value if the number is an integer of moderate size
    fn as_int(&self) -> Option<i128> {
        match *self {
            N::I(i) => Some(i as i128),
            N::U(u) => Some(u as i128),
            N::F(f) => {
                if f.is_finite() && f.fract() == 0.0 && f.abs() < 1e38 {
                    Some(f as i128)
                } else {
                    None
                }
            }
        }
    }
    /// Mathematical equality; a large float also equals the integer that its shortest
    /// round-trip digits spell (2^63 is written 9223372036854776000).
    pub fn eq(&self, o: &N) -> bool {
        if matches!(self, N::F(_)) != matches!(o, N::F(_)) && self.text() == o.text() {
            return true;
        }
        match (self.as_int(), o.as_int()) {
            (Some(a), Some(b)) => a == b,
            (None, None) => match (self, o) {
                (N::F(a), N::F(b)) => a == b || (a.is_nan() && b.is_nan()),
                _ => false,
            },
            _ => false,
        }
    }
    /// Canonical TOON spelling: Rust's Display for floats prints the shortest
    /// round-trip digits in plain decimal notation.
    pub fn text(&self) -> String {
        match *self {
            N::I(i) => i.to_string(),
            N::U(u) => u.to_string(),
            N::F(f) => {
                if !f.is_finite() {
                    "null".into()
                } else if f == 0.0 {
                    "0".into()
                } else {
                    format!("{}", f)
                }
            }
        }
    }
}

impl J {
    pub fn is_prim(&self) -> bool {
        !matches!(self, J::Arr(_) | J::Obj(_))
    }
    /// JSON equality: numbers mathematically, objects as maps (same key multiset).
    pub fn same(&self, o: &J) -> bool {
        match (self, o) {
            (J::Null, J::Null) => true,
            (J::Bool(a), J::Bool(b)) => a == b,
            (J::Num(a), J::Num(b)) => a.eq(b),
            (J::Str(a), J::Str(b)) => a == b,
            (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (J::Obj(a), J::Obj(b)) => {
                if a.len() != b.len() {
                    return false;
                }
                // fast path: same order
                if a.iter().zip(b).all(|((k, _), (l, _))| k == l) {
                    return a.iter().zip(b).all(|((_, x), (_, y))| x.same(y));
                }
                a.iter().all(|(k, x)| {
                    let mut it = b.iter().filter(|(l, _)| l == k);
                    match (it.next(), it.next()) {
                        (Some((_, y)), None) => x.same(y),
                        _ => false,
                    }
                })
            }
            _ => false,
        }
    }
    /// like `same` but object order matters too
    pub fn same_ordered(&self, o: &J) -> bool {
        match (self, o) {
            (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same_ordered(y)),
            (J::Obj(a), J::Obj(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && x.same_ordered(y))
            }
            _ => self.same(o),
        }
    }
    /// as a JSON map type reads it: the last of several members with one key wins
    pub fn dedup(self) -> J {
        match self {
            J::Arr(a) => J::Arr(a.into_iter().map(J::dedup).collect()),
            J::Obj(a) => {
                let mut r: Vec<(String, J)> = Vec::with_capacity(a.len());
                for (k, v) in a {
                    let v = v.dedup();
                    match r.iter_mut().find(|(l, _)| *l == k) {
                        Some(e) => e.1 = v,
                        None => r.push((k, v)),
                    }
                }
                J::Obj(r)
            }
            v => v,
        }
    }
    pub fn json(&self) -> String {
        let mut o = String::new();
        self.write_json(&mut o);
        o
    }
    fn write_json(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(N::F(f)) => {
                if f.is_finite() {
                    o.push_str(&format!("{:?}", f))
                } else {
                    o.push_str(&format!("\"<{:?}>\"", f))
                }
            }
            J::Num(n) => o.push_str(&n.text()),
            J::Str(s) => o.push_str(&jstr(s)),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write_json(o);
                }
                o.push(']');
            }
            J::Obj(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&jstr(k));
                    o.push(':');
                    x.write_json(o);
                }
                o.push('}');
            }
        }
    }
    /// exact rendering: number kinds, float bits, member order
    pub fn bin(&self, b: &mut Vec<u8>) {
        let len = |n: usize, b: &mut Vec<u8>| b.extend_from_slice(&(n as u64).to_le_bytes());
        match self {
            J::Null => b.push(0),
            J::Bool(x) => b.push(1 + *x as u8),
            J::Num(N::I(x)) => {
                b.push(3);
                b.extend_from_slice(&x.to_le_bytes());
            }
            J::Num(N::U(x)) => {
                b.push(4);
                b.extend_from_slice(&x.to_le_bytes());
            }
            J::Num(N::F(x)) => {
                b.push(5);
                b.extend_from_slice(&x.to_bits().to_le_bytes());
            }
            J::Str(s) => {
                b.push(6);
                len(s.len(), b);
                b.extend_from_slice(s.as_bytes());
            }
            J::Arr(a) => {
                b.push(7);
                len(a.len(), b);
                for x in a {
                    x.bin(b);
                }
            }
            J::Obj(a) => {
                b.push(8);
                len(a.len(), b);
                for (k, x) in a {
                    len(k.len(), b);
                    b.extend_from_slice(k.as_bytes());
                    x.bin(b);
                }
            }
        }
    }
    /// reads back what `bin` wrote
    pub fn from_bin(b: &mut &[u8]) -> Option<J> {
        fn num(b: &mut &[u8]) -> Option<[u8; 8]> {
            let (h, r) = b.split_first_chunk::<8>()?;
            *b = r;
            Some(*h)
        }
        fn txt(b: &mut &[u8]) -> Option<String> {
            let n = u64::from_le_bytes(num(b)?) as usize;
            let (h, r) = b.split_at_checked(n)?;
            *b = r;
            String::from_utf8(h.to_vec()).ok()
        }
        let (k, r) = b.split_first()?;
        *b = r;
        Some(match k {
            0 => J::Null,
            1 | 2 => J::Bool(*k == 2),
            3 => J::Num(N::I(i64::from_le_bytes(num(b)?))),
            4 => J::Num(N::U(u64::from_le_bytes(num(b)?))),
            5 => J::Num(N::F(f64::from_bits(u64::from_le_bytes(num(b)?)))),
            6 => J::Str(txt(b)?),
            7 => {
                let n = u64::from_le_bytes(num(b)?);
                J::Arr((0..n).map(|_| J::from_bin(b)).collect::<Option<_>>()?)
            }
            _ => {
                let n = u64::from_le_bytes(num(b)?);
                J::Obj((0..n).map(|_| Some((txt(b)?, J::from_bin(b)?))).collect::<Option<_>>()?)
            }
        })
    }
    pub fn nodes(&self) -> u64 {
        match self {
            J::Arr(a) => 1 + a.iter().map(|x| x.nodes()).sum::<u64>(),
            J::Obj(a) => 1 + a.iter().map(|(_, x)| x.nodes()).sum::<u64>(),
            _ => 1,
        }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || c == '\u{2028}' || c == '\u{2029}' || c == '\u{feff}' || c == '\u{200b}' => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Serialize for J {
    fn serialize<S: Serializer>(&self, se: S) -> Result<S::Ok, S::Error> {
        match self {
            J::Null => se.serialize_unit(),
            J::Bool(b) => se.serialize_bool(*b),
            J::Num(N::I(i)) => se.serialize_i64(*i),
            J::Num(N::U(u)) => se.serialize_u64(*u),
            J::Num(N::F(f)) => se.serialize_f64(*f),
            J::Str(s) => se.serialize_str(s),
            J::Arr(a) => {
                let mut q = se.serialize_seq(Some(a.len()))?;
                for x in a {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            J::Obj(a) => {
                let mut q = se.serialize_map(Some(a.len()))?;
                for (k, x) in a {
                    q.serialize_entry(k, x)?;
                }
                q.end()
            }
        }
    }
}

struct V;
impl<'de> Visitor<'de> for V {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("any value")
    }
    fn visit_bool<E>(self, v: bool) -> Result<J, E> {
        Ok(J::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<J, E> {
        Ok(J::Num(N::I(v)))
    }
    fn visit_u64<E>(self, v: u64) -> Result<J, E> {
        Ok(J::Num(N::U(v)))
    }
    fn visit_f64<E>(self, v: f64) -> Result<J, E> {
        Ok(J::Num(N::F(v)))
    }
    fn visit_str<E>(self, v: &str) -> Result<J, E> {
        Ok(J::Str(v.to_string()))
    }
    fn visit_string<E>(self, v: String) -> Result<J, E> {
        Ok(J::Str(v))
    }
    fn visit_unit<E>(self) -> Result<J, E> {
        Ok(J::Null)
    }
    fn visit_none<E>(self) -> Result<J, E> {
        Ok(J::Null)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        J::deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element()? {
            v.push(x);
        }
        Ok(J::Arr(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut v = Vec::new();
        while let Some(k) = a.next_key::<String>()? {
            v.push((k, a.next_value()?));
        }
        Ok(J::Obj(v))
    }
}
impl<'de> Deserialize<'de> for J {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<J, D::Error> {
        d.deserialize_any(V)
    }
}
