//! Exact decimal/binary comparison, to judge number parsing without trusting a parser.
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub struct Big(Vec<u32>); // little endian
impl Big {
    pub fn from_u64(x: u64) -> Big {
        let mut b = Big(vec![x as u32, (x >> 32) as u32]);
        b.norm();
        b
    }
    pub fn from_digits(d: &str) -> Big {
        let mut b = Big(vec![]);
        for chunk in d.as_bytes().chunks(9) {
            let mut v = 0u32;
            for c in chunk {
                v = v * 10 + (c - b'0') as u32;
            }
            b.mul(10u32.pow(chunk.len() as u32));
            b.add(v);
        }
        b
    }
    fn norm(&mut self) {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    pub fn mul(&mut self, m: u32) {
        let mut c = 0u64;
        for d in self.0.iter_mut() {
            let x = *d as u64 * m as u64 + c;
            *d = x as u32;
            c = x >> 32;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
        self.norm();
    }
    fn add(&mut self, a: u32) {
        let mut c = a as u64;
        for d in self.0.iter_mut() {
            if c == 0 {
                return;
            }
            let x = *d as u64 + c;
            *d = x as u32;
            c = x >> 32;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    pub fn shl(&mut self, n: u32) {
        if self.0.is_empty() {
            return;
        }
        self.mul(1 << (n % 32));
        let z = (n / 32) as usize;
        if z > 0 {
            let mut v = vec![0u32; z];
            v.extend(&self.0);
            self.0 = v;
        }
    }
    pub fn pow10(&mut self, mut n: u32) {
        while n > 0 {
            let k = n.min(9);
            self.mul(10u32.pow(k));
            n -= k;
        }
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    /// decimal digits
    pub fn digits(&self) -> String {
        let mut v = self.0.clone();
        let mut parts: Vec<u32> = vec![];
        while !v.is_empty() {
            let mut r = 0u64;
            for d in v.iter_mut().rev() {
                let x = (r << 32) | *d as u64;
                *d = (x / 1_000_000_000) as u32;
                r = x % 1_000_000_000;
            }
            parts.push(r as u32);
            while v.last() == Some(&0) {
                v.pop();
            }
        }
        let mut s = String::new();
        for (i, p) in parts.iter().rev().enumerate() {
            if i == 0 { s.push_str(&p.to_string()) } else { s.push_str(&format!("{:09}", p)) }
        }
        if s.is_empty() { "0".into() } else { s }
    }
}
/// a decimal token split into (negative, digits, power of ten); None if not a JSON number
/// (leading zeros allowed)
pub fn split(t: &str) -> Option<(bool, String, i64)> {
    if !crate::enc::numeric_like(t) {
        return None;
    }
    let (neg, t) = match t.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, t),
    };
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], t[i + 1..].trim_start_matches('+').parse::<i64>().ok()?),
        None => (t, 0),
    };
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    Some((neg, format!("{}{}", a, b), e - b.len() as i64))
}
/// compare digits * 10^e with m * 2^k
pub fn cmp(digits: &str, e: i64, m: u64, k: i64) -> Ordering {
    let mut l = Big::from_digits(digits);
    let mut r = Big::from_u64(m);
    if l.is_zero() || r.is_zero() {
        return l.0.len().cmp(&r.0.len());
    }
    // far outside any double
    let mag = digits.trim_start_matches('0').len() as i64 + e;
    if mag > 400 {
        return Ordering::Greater;
    }
    if mag < -400 {
        return Ordering::Less;
    }
    if e > 0 { l.pow10(e as u32) } else { r.pow10(-e as u32) }
    if k > 0 { r.shl(k as u32) } else { l.shl(-k as u32) }
    l.cmp(&r)
}
/// is `f` (not negative) the double nearest to digits * 10^e, ties to even?
pub fn nearest(digits: &str, e: i64, f: f64) -> bool {
    let b = f.to_bits();
    let (exp, frac) = ((b >> 52) as i64, b & ((1 << 52) - 1));
    if exp == 0x7ff {
        return frac == 0 && cmp(digits, e, (1 << 54) - 1, 970) != Ordering::Less;
    }
    let (m, k) = if exp == 0 { (frac, -1074) } else { (frac | (1 << 52), exp - 1075) };
    let even = m % 2 == 0;
    match cmp(digits, e, 2 * m + 1, k - 1) {
        Ordering::Greater => return false,
        Ordering::Equal if !even => return false,
        _ => {}
    }
    if m == 0 {
        return true;
    }
    let low = if frac == 0 && exp > 1 { cmp(digits, e, 4 * m - 1, k - 2) } else { cmp(digits, e, 2 * m - 1, k - 1) };
    match low {
        Ordering::Less => false,
        Ordering::Equal => even,
        Ordering::Greater => true,
    }
}
/// exact decimal expansion of m * 2^k as (digits, power of ten)
pub fn expand(m: u64, k: i64) -> (String, i64) {
    let mut b = Big::from_u64(m);
    if k >= 0 {
        b.shl(k as u32);
        (b.digits(), 0)
    } else {
        // m / 2^n = m * 5^n / 10^n
        for _ in 0..-k {
            b.mul(5);
        }
        (b.digits(), k)
    }
}
/// write digits * 10^e without an exponent
pub fn plain(digits: &str, e: i64) -> String {
    if e >= 0 {
        return format!("{}{}", digits, "0".repeat(e as usize));
    }
    let n = (-e) as usize;
    let d = if digits.len() <= n { format!("{}{}", "0".repeat(n + 1 - digits.len()), digits) } else { digits.to_string() };
    format!("{}.{}", &d[..d.len() - n], &d[d.len() - n..])
}
#[cfg(test)]
mod t {
    #[test]
    fn known() {
        use super::*;
        for x in [0.1, 1.0, 5e-324, f64::MAX, 1e22, 123456.789, 2f64.powi(60), 2.2250738585072014e-308] {
            let t = format!("{}", x);
            let (n, d, e) = split(&t).unwrap();
            assert!(!n && nearest(&d, e, x));
            assert!(!nearest(&d, e, f64::from_bits(x.to_bits() + 1)));
            assert!(!nearest(&d, e, f64::from_bits(x.to_bits() - 1)));
        }
    }
}
