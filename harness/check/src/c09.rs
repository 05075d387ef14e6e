//! C09: numbers. Spelling, exact round trip and token reading, judged by exact arithmetic.
use crate::c08::{WAYS, way};
use crate::common::*;
use crate::dm::*;
use mc::big;
use mc::run::*;
use mc::space::{POSITIONS, place, place_key};
use mc::trees::words_upto;
use mc::val::*;

/// plain decimal notation: -?(0|[1-9]d*)(.d*[1-9])?, not -0
fn canonical(t: &str) -> bool {
    let u = t.strip_prefix('-').unwrap_or(t);
    let (a, b) = u.split_once('.').map(|(a, b)| (a, Some(b))).unwrap_or((u, None));
    let dig = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit());
    dig(a) && (a == "0" || !a.starts_with('0')) && b.is_none_or(|b| dig(b) && !b.ends_with('0')) && t != "-0"
}
/// value of a decoded number as a double, if that loses nothing
fn as_f64(n: &N) -> Option<f64> {
    match *n {
        N::F(f) => Some(f),
        N::U(u) => (u as f64 as u128 == u as u128).then_some(u as f64),
        N::I(i) => (i as f64 as i128 == i as i128).then_some(i as f64),
    }
}
/// is `n` what the token denotes? (exactly, or the nearest double)
fn denotes(t: &str, n: &N) -> bool {
    let Some((neg, d, e)) = big::split(t) else { return false };
    let zero = d.bytes().all(|c| c == b'0');
    let (m, nneg) = match *n {
        N::U(u) => (Some(u), false),
        N::I(i) => (Some(i.unsigned_abs()), i < 0),
        N::F(f) => (None, f.is_sign_negative() && f != 0.0),
    };
    if !zero && nneg != neg && !(as_f64(n) == Some(0.0)) {
        return false;
    }
    if let Some(m) = m {
        if big::cmp(&d, e, m, 0).is_eq() {
            return true;
        }
        // integer-shaped tokens in range are exact
        if !t.contains(['.', 'e', 'E']) && (t.parse::<u64>().is_ok() || t.parse::<i64>().is_ok()) {
            return false;
        }
    }
    let Some(f) = as_f64(n) else { return false };
    big::nearest(&d, e, f.abs())
}
fn in_range(t: &str) -> bool {
    let Some((_, d, e)) = big::split(t) else { return false };
    big::cmp(&d, e, (1 << 54) - 1, 970).is_lt()
}
fn leading_zero(t: &str) -> bool {
    let u = t.strip_prefix('-').unwrap_or(t);
    u.len() > 1 && u.starts_with('0') && u.as_bytes()[1].is_ascii_digit()
}

fn enc_number(cx: &mut Cx, n: N) {
    let j = J::Num(n);
    let oo = BASE.o();
    let r = enc(cx, &j, &oo);
    cx.evals += 1;
    cx.outcome(r.as_deref().unwrap_or("error"));
    cx.sample(|| format!("{:?} -> {:?}", n, r));
    let bad = |what: &str, got: String, cx: &mut Cx| cx.fail(format!("{} {:?}", what, n), &[("number", format!("{:?}", n)), ("what", what.to_string()), ("got", got)]);
    let Ok(t) = r else {
        bad("encode", shows(&r), cx);
        return;
    };
    let finite = !matches!(n, N::F(f) if !f.is_finite());
    if !finite {
        if t != "null" {
            bad("not written as null", t, cx);
        }
        return;
    }
    if !canonical(&t) || !denotes(&t, &n) {
        bad("spelling", t.clone(), cx);
    }
    for w in 1..2 {
        let r = way(w, &j, &oo);
        cx.evals += 1;
        if r.as_ref() != Ok(&t) {
            bad(WAYS[w], shows(&r), cx);
        }
    }
    let k = format!("k: {}", t);
    cx.evals += 2;
    match n {
        N::F(f) => {
            let a = dec_as::<f64>(cx, &t, &oo);
            if a != Ok(f) {
                bad("read back as f64", format!("{:?}", a), cx);
            }
        }
        N::I(i) => {
            let a = dec_as::<i64>(cx, &t, &oo);
            if a != Ok(i) {
                bad("read back as i64", format!("{:?}", a), cx);
            }
        }
        N::U(i) => {
            let a = dec_as::<u64>(cx, &t, &oo);
            if a != Ok(i) {
                bad("read back as u64", format!("{:?}", a), cx);
            }
        }
    }
    let a = dec(cx, &k, &oo);
    let ok = matches!(&a, Ok(J::Obj(o)) if o.len() == 1 && matches!(&o[0].1, J::Num(m) if n.eq(m) && denotes(&t, m)));
    if !ok {
        bad("read back in a field", show(&a), cx);
    }
}
fn find_num<'a>(j: &'a J, out: &mut Vec<&'a J>) {
    match j {
        J::Arr(a) => a.iter().for_each(|x| find_num(x, out)),
        J::Obj(o) => o.iter().for_each(|(k, x)| {
            if k == "k" || !x.is_prim() {
                find_num(x, out)
            }
        }),
        x => out.push(x),
    }
}

fn token(cx: &mut Cx, t: &str) {
    // integer or float-looking token in eight places
    let docs: [(String, fn(&J) -> Option<&J>); 8] = [
        (t.to_string(), |j| Some(j)),
        (format!("k: {}", t), |j| at(j, "k")),
        (format!("k[2]: 7,{}", t), |j| at(j, "k").and_then(|x| idx(x, 1))),
        (format!("k[1]{{a,b}}:\n  {},7", t), |j| at(j, "k").and_then(|x| idx(x, 0)).and_then(|x| at(x, "a"))),
        (format!("k[2]:\n  - {}\n  - 7", t), |j| at(j, "k").and_then(|x| idx(x, 0))),
        (format!("k[1]:\n  - k: {}\n    b: 7", t), |j| at(j, "k").and_then(|x| idx(x, 0)).and_then(|x| at(x, "k"))),
        (format!("k[1]:\n  - b: 7\n    k: {}", t), |j| at(j, "k").and_then(|x| idx(x, 0)).and_then(|x| at(x, "k"))),
        (format!("[2|]: 7| {} ", t), |j| idx(j, 1)),
    ];
    let shape = mc::enc::numeric_like(t);
    let lead = leading_zero(t);
    let want_num = shape && !lead && in_range(t);
    cx.cat(if want_num { "numbers" } else if lead { "leading zeros" } else { "out of range" });
    cx.sample(|| tag(t));
    for (d, get) in &docs {
        for st in [true, false] {
            let r = dec(cx, d, &BASE.strict(st).o());
            cx.evals += 1;
            let got = r.as_ref().ok().and_then(|j| get(j));
            let ok = match got {
                Some(J::Num(n)) => want_num && denotes(t, n),
                Some(J::Str(x)) => !want_num && x == t,
                _ => false,
            };
            if !ok {
                cx.fail(format!("token {} {:?}", st, tag(d)), &[("text", tag(d)), ("token denotes", if want_num { "a number".into() } else { "a string".into() }), ("decoded", tag(&show(&r)))]);
            }
        }
    }
}
fn at<'a>(j: &'a J, k: &str) -> Option<&'a J> {
    match j {
        J::Obj(o) => o.iter().find(|(l, _)| l == k).map(|x| &x.1),
        _ => None,
    }
}
fn idx(j: &J, i: usize) -> Option<&J> {
    match j {
        J::Arr(a) => a.get(i),
        _ => None,
    }
}

/// mantissas: every single bit, every low run, every high run of ones, and their complements
fn mantissas() -> Vec<u64> {
    let all = (1u64 << 52) - 1;
    let mut v = vec![0, all, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x999999999999a, 0x3333333333333];
    for b in 0..52 {
        let low = (1u64 << b) - 1;
        v.extend([1 << b, all ^ (1 << b), low, all ^ low]);
    }
    v.sort();
    v.dedup();
    v
}

pub fn spec(th: bool) -> Spec {
    let mut fams = Vec::new();
    let ms = mantissas();
    let n = ms.len() as u64 * 2048;
    fams.push(Fam::new("binades", n * 2, "every sign and exponent (subnormal to infinity/NaN) x ~200 mantissas (each single bit, runs of ones and complements)", move |i, cx| {
        let (s, e, m) = (i % 2, i / 2 % 2048, ms[(i / 4096) as usize]);
        enc_number(cx, N::F(f64::from_bits(s << 63 | e << 52 | m)));
    }));
    if th {
        fams.push(Fam::new("bit pairs", 2048 * 52 * 52, "every exponent x every mantissa with one or two bits set (and complement for odd pairs)", |i, cx| {
            let (e, a, b) = (i % 2048, i / 2048 % 52, i / 2048 / 52);
            let m = (1u64 << a) | (1u64 << b);
            let m = if a > b { m ^ ((1 << 52) - 1) } else { m };
            enc_number(cx, N::F(f64::from_bits(e << 52 | m)));
        }));
    }
    fams.push(Fam::new("powers of ten", 633 * 99 * 5 * 2, "d x 10^e for d in 1..99, e in -324..308, and the two doubles on either side", |i, cx| {
        let (e, d, u, s) = ((i % 633) as i64 - 324, i / 633 % 99 + 1, (i / 633 / 99 % 5) as i64 - 2, i / 633 / 99 / 5);
        let f: f64 = format!("{}e{}", d, e).parse().unwrap();
        let b = f.to_bits() as i64 + u;
        if b < 0 || !f.is_finite() {
            cx.skip();
            return;
        }
        enc_number(cx, N::F(f64::from_bits(b as u64 | s << 63)));
    }));
    let dm: u64 = if th { 200_000 } else { 20_000 };
    fams.push(Fam::new("decimals", dm * 32, "every decimal mantissa 1..20000 (thorough: 200000) with the point at 32 places", move |i, cx| {
        let f: f64 = format!("{}e{}", i / 32 + 1, (i % 32) as i64 - 12).parse().unwrap();
        enc_number(cx, N::F(f));
    }));
    fams.push(Fam::new("integers", (64 + 20) * 2001 * 2, "every integer within 1000 of 2^k (k<64) and 10^k (k<20), both signs, as integer and, where exact, as float", |i, cx| {
        let s = i % 2;
        let (p, d) = (i / 2 / 2001, (i / 2 % 2001) as i128 - 1000);
        let base: i128 = if p < 64 { 1 << p } else { 10i128.pow((p - 64) as u32) };
        let x = base + d;
        let x = if s == 1 { -x } else { x };
        if x > u64::MAX as i128 || x < i64::MIN as i128 {
            cx.skip();
            return;
        }
        if x >= 0 {
            enc_number(cx, N::U(x as u64));
        }
        if x <= i64::MAX as i128 {
            enc_number(cx, N::I(x as i64));
        }
        if x as f64 as i128 == x {
            enc_number(cx, N::F(x as f64));
        }
    }));
    fams.push(Fam::new("extremes", 4000, "the 2000 integers next to the ends of i64 and u64", |i, cx| {
        let k = i / 4;
        match i % 4 {
            0 => enc_number(cx, N::I(i64::MIN + k as i64)),
            1 => enc_number(cx, N::I(i64::MAX - k as i64)),
            2 => enc_number(cx, N::U(u64::MAX - k)),
            _ => enc_number(cx, N::U(i64::MAX as u64 + k)),
        }
    }));
    // every position, every entry point
    let mut nums: Vec<D> = mc::space::numbers().into_iter().map(D::J).collect();
    nums.extend(scalar_leaves().into_iter().filter(|d| matches!(d, D::F32(_) | D::I8(_) | D::I16(_) | D::I32(_) | D::U8(_) | D::U16(_) | D::U32(_)) || matches!(d, D::J(J::Num(_)))));
    let nn = nums.len() as u64;
    let nm = nums.clone();
    fams.push(Fam::new("positions", nn * (POSITIONS + DPOS + 4) * 3, "every number kind x 16 JSON positions, 18 serde positions, 4 map key positions x 3 delimiters x all encode entry points", move |i, cx| {
        let d = &nm[(i % nn) as usize];
        let o = Opt { delim: DELIMS[(i / nn % 3) as usize], ..BASE };
        let p = i / nn / 3;
        let v = if p < POSITIONS {
            D::J(place(d.j(), p))
        } else if p < POSITIONS + DPOS {
            dplace(d.clone(), p - POSITIONS)
        } else {
            let k = p - POSITIONS - DPOS;
            let m = D::Map(vec![(d.clone(), D::J(int(1)))], k % 2 == 0, k / 2 == 0);
            if k % 2 == 0 { m } else { D::Seq(vec![m.clone(), D::Struct(vec![("q", Some(m))])], true) }
        };
        // expected: the same document with the number written by the model
        let want = mc::enc::encode(&v.j(), o.e());
        let want2 = v.j();
        for w in 0..WAYS.len() {
            let r = way(w, &v, &o.o());
            cx.evals += 1;
            cx.ops += 1;
            if r.as_ref() != Ok(&want) {
                cx.fail(format!("{} {} {}", WAYS[w], o.s(), v.show()), &[("options", o.s()), ("value", v.show()), ("expected", want.clone()), ("got", shows(&r))]);
            }
        }
        for st in [true, false] {
            let r = dec(cx, &want, &o.strict(st).o());
            cx.evals += 1;
            if !matches!(&r, Ok(x) if x.same(&nulls(&want2))) {
                cx.fail(format!("decode {} {}", o.strict(st).s(), v.show()), &[("options", o.strict(st).s()), ("text", want.clone()), ("decoded", show(&r))]);
            }
        }
        let mut found = vec![];
        find_num(&want2, &mut found);
        cx.outcome(&want);
        cx.sample(|| format!("{} -> {:?}", v.show(), want));
    }));
    // tokens
    const A: [char; 9] = ['0', '1', '9', '5', '.', 'e', 'E', '-', '+'];
    let wl = if th { 8 } else { 6 };
    fams.push(Fam::new("short tokens", words_upto(A.len(), wl), &format!("every number-shaped token of up to {} characters over digits 0 1 5 9, point, exponent, signs, in 8 positions", wl), move |i, cx| {
        let t = mc::space::chars_word(i, &A, wl);
        if !mc::enc::numeric_like(&t) {
            cx.skip();
            return;
        }
        token(cx, &t);
    }));
    fams.push(Fam::new("exponents", 2 * 2 * 2 * 6 * 700, "mantissas 1, 1.5, 9.99, 0, 0.0, 123456789012345678 with every exponent -700..700, e/E, signs", |i, cx| {
        let (n, c, s, m, e) = (i % 2, i / 2 % 2, i / 4 % 2, i / 8 % 6, i / 48);
        token(cx, &format!("{}{}{}{}{}", ["", "-"][n as usize], ["1", "1.5", "9.99", "0", "0.0", "123456789012345678"][m as usize], ["e", "E"][c as usize], ["-", if c == 0 { "+" } else { "" }][s as usize], e));
    }));
    fams.push(Fam::new("long integers", 10 * 10 * 45 * 2, "digit strings of length 1..45: first digit, repeated digit, both signs", |i, cx| {
        let (a, b, l, s) = (i % 10, i / 10 % 10, i / 100 % 45, i / 4500);
        token(cx, &format!("{}{}{}", ["", "-"][s as usize], a, b.to_string().repeat(l as usize)));
    }));
    fams.push(Fam::new("integer edges", 4 * 401 * 4, "tokens within 200 of the ends of i64, u64, 2^53 and 10^19, plain and with .0, e0, extra leading zero", |i, cx| {
        let base: i128 = [i64::MAX as i128, u64::MAX as i128, 1 << 53, 10i128.pow(19)][(i % 4) as usize];
        let x = base + (i / 4 % 401) as i128 - 200;
        for x in [x, -x] {
            token(cx, &match i / 1604 {
                0 => x.to_string(),
                1 => format!("{}.0", x),
                2 => format!("{}e0", x),
                _ => x.to_string().replacen(|c: char| c.is_ascii_digit(), "0", 1),
            });
        }
    }));
    let mm = [0u64, 1, 2, (1 << 52) - 1, (1 << 52) - 2, 0x5555555555555, 0x8000000000000, 0x999999999999a];
    let step = if th { 1 } else { 5 };
    fams.push(Fam::new("halfway", 2047 / step * 8 * 5, "the exact decimal midpoint between neighbouring doubles (8 mantissas in every 5th binade; thorough: every binade), one unit in the last place below and above, with more digits, and as integer times exponent", move |i, cx| {
        let (e, m, v) = ((i / 40 * step) as i64, mm[(i / 5 % 8) as usize], i % 5);
        let (sig, k) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
        let (d, p) = big::expand(2 * sig + 1, k - 1);
        let t = match v {
            0 => big::plain(&d, p),
            1 | 2 => {
                // one more digit, just below / above
                let d2 = if v == 2 { format!("{}1", d) } else { format!("{}9", dec1(&d)) };
                big::plain(&d2, p - 1)
            }
            3 => {
                let z = if p >= 0 { format!("{}.", d) } else { big::plain(&d, p) };
                if p > 0 {
                    cx.skip();
                    return;
                }
                format!("{}{}1", z, "0".repeat(40))
            }
            _ => format!("{}e{}", d, p),
        };
        let d = &t;
        let r = dec(cx, &format!("k: {}", d), &BASE.o());
        cx.evals += 1;
        let ok = match r.as_ref().ok().and_then(|j| at(j, "k")) {
            Some(J::Num(n)) => in_range(d) && denotes(d, n),
            Some(J::Str(x)) => (!in_range(d) || leading_zero(d)) && x == d,
            _ => false,
        };
        if !ok {
            cx.fail(format!("halfway {} {}", i, tag(d)), &[("token", tag(d)), ("decoded", tag(&show(&r)))]);
        }
    }));
    let ks: Vec<J> = mc::space::numbers();
    fams.push(Fam::new("as text", ks.len() as u64 * 9, "number spellings as object keys in 9 positions: quoted, and read back as text", move |i, cx| {
        let J::Num(n) = ks[(i / 9) as usize] else { unreachable!() };
        let j = place_key(&n.text(), i % 9);
        let t = enc(cx, &j, &BASE.o());
        cx.evals += 1;
        let r = t.as_ref().map_err(|e| e.clone()).and_then(|t| dec(cx, t, &BASE.o()));
        if !matches!(&r, Ok(x) if x.same(&j)) {
            cx.fail(format!("key {}", j.json()), &[("value", j.json()), ("text", shows(&t)), ("decoded", show(&r))]);
        }
    }));
    Spec {
        id: "C09".into(),
        level: "model_checking",
        rule: "state = one number or one number token; encoded spelling is plain canonical decimal and denotes the number, the value read back (typed and in a field) is the same number; a token in any of 8 places decodes to the exact integer or nearest double, judged by exact big-integer arithmetic; leading zeros and out-of-range tokens stay strings".into(),
        fams,
        assumptions: vec!["a token beyond the range of f64 is kept as a string, the implementation's documented choice".into()],
    }
}
fn dec1(d: &str) -> String {
    // digits minus one
    let mut b: Vec<u8> = d.bytes().collect();
    for c in b.iter_mut().rev() {
        if *c > b'0' {
            *c -= 1;
            break;
        }
        *c = b'9';
    }
    let s = String::from_utf8(b).unwrap();
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.to_string() }
}
/// non-finite floats read back as null
fn nulls(j: &J) -> J {
    match j {
        J::Num(N::F(f)) if !f.is_finite() => J::Null,
        J::Arr(a) => J::Arr(a.iter().map(nulls).collect()),
        J::Obj(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), nulls(v))).collect()),
        x => x.clone(),
    }
}
