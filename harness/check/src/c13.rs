//! C13: builds with other feature sets give the same bytes, values and rejections as the
//! default build. The other builds are libraries (harness/variant) loaded into this process.
use crate::c02;
use crate::common::*;
use crate::dm::*;
use crate::docs;
use crate::types::{Decode, TARGETS, decode_with};
use mc::run::*;
use mc::space;
use mc::trees::{word_upto, words_upto};
use mc::val::*;
use std::ffi::{CString, c_void};
use std::sync::Arc;
use toon::Options;

#[repr(C)]
struct O {
    delim: u32,
    indent: u32,
    strict: u32,
    fold: u32,
    expand: u32,
}
#[repr(C)]
struct Out {
    kind: u32,
    ptr: *mut u8,
    len: usize,
}
fn co(o: &Opt) -> O {
    O {
        delim: DELIMS.iter().position(|c| *c == o.delim).unwrap() as u32,
        indent: o.indent as u32,
        strict: o.strict as u32,
        fold: match o.fold {
            None => 0,
            Some(None) => 1,
            Some(Some(n)) => n as u32 + 2,
        },
        expand: o.expand as u32,
    }
}
pub struct Lib {
    pub name: &'static str,
    enc: unsafe extern "C" fn(*const J, *const O) -> Out,
    call: unsafe extern "C" fn(*const D, *const O) -> Out,
    dec: unsafe extern "C" fn(*const u8, usize, *const O, u32) -> Out,
    probe: unsafe extern "C" fn(*const J, *const D) -> Out,
    free: unsafe extern "C" fn(Out),
}
pub type Res = Result<Vec<u8>, String>;
unsafe fn sym<T: Copy>(h: *mut c_void, n: &str) -> T {
    let c = CString::new(n).unwrap();
    let p = unsafe { libc::dlsym(h, c.as_ptr()) };
    assert!(!p.is_null(), "no symbol {}", n);
    unsafe { std::mem::transmute_copy(&p) }
}
impl Lib {
    fn open(name: &'static str) -> Lib {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let p = format!("{}/target/var-{}/release/libvariant.so", dir, name);
        let c = CString::new(p.clone()).unwrap();
        unsafe {
            let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            assert!(!h.is_null(), "cannot load {}", p);
            let l = Lib { name, enc: sym(h, "venc"), call: sym(h, "vcall"), dec: sym(h, "vdec"), probe: sym(h, "vprobe"), free: sym(h, "vfree") };
            let j = J::Obj(vec![("k".into(), J::Arr(vec![J::Null, J::Bool(true), int(-3), int(7), f(0.5), s("x\u{e9}")]))]);
            for d in scalar_leaves().into_iter().chain((0..NARY).map(|k| nary(k, vec![D::J(j.clone()), D::None]))).chain((0..UNARY).map(|k| unary(k, D::None))) {
                let o = l.take((l.probe)(&j, &d));
                assert_eq!(o, Ok(format!("{} {} {:?} {:?}", size_of::<J>(), size_of::<D>(), j, d).into_bytes()), "layout of the shared types differs");
            }
            l
        }
    }
    fn take(&self, o: Out) -> Res {
        let b = unsafe { std::slice::from_raw_parts(o.ptr, o.len) }.to_vec();
        let k = o.kind;
        unsafe { (self.free)(o) };
        match k {
            0 => Ok(b),
            1 => Err(String::from_utf8_lossy(&b).into_owned()),
            _ => Err("PANIC".into()),
        }
    }
    pub fn encode(&self, j: &J, o: &Opt) -> Res {
        self.take(unsafe { (self.enc)(j, &co(o)) })
    }
    pub fn calls(&self, d: &D, o: &Opt) -> Res {
        self.take(unsafe { (self.call)(d, &co(o)) })
    }
    pub fn decode(&self, t: &str, o: &Opt, target: u32) -> Res {
        self.take(unsafe { (self.dec)(t.as_ptr(), t.len(), &co(o), target) })
    }
}

struct Base<'a>(&'a str, &'a Options);
impl Decode for Base<'_> {
    fn go<T: serde::de::DeserializeOwned + std::fmt::Debug + 'static>(&self) -> Result<String, String> {
        guarded(|| toon::decode_from_str::<T>(self.0, self.1).map(|v| format!("{:?}", v)).map_err(|e| e.to_string()))
    }
}
fn text(r: &Res) -> String {
    match r {
        Ok(b) => tag(&String::from_utf8_lossy(b)),
        Err(e) => format!("error: {}", e),
    }
}
fn agree(a: &Res, b: &Res) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(e)) => e != "PANIC",
        _ => false,
    }
}
fn enc_case(cx: &mut Cx, libs: &[Lib], what: &dyn Fn() -> String, o: &Opt, base: Res, f: &dyn Fn(&Lib) -> Res) {
    cx.outcome(&text(&base));
    cx.sample(|| format!("encode {} {} -> {}", o.s(), what(), text(&base)));
    for l in libs {
        cx.ops += 1;
        cx.evals += 1;
        let r = f(l);
        if !agree(&base, &r) {
            cx.fail(
                format!("encode {} {} {}", l.name, o.s(), tag(&what())),
                &[("build", l.name.into()), ("options", o.s()), ("value", tag(&what())), ("default build", text(&base)), ("this build", text(&r))],
            );
        }
    }
}
fn enc_value(cx: &mut Cx, libs: &[Lib], j: &J, o: &Opt) {
    let base = enc(cx, j, &o.o()).map(String::into_bytes);
    enc_case(cx, libs, &|| j.json(), o, base, &|l| l.encode(j, o));
}
fn enc_calls(cx: &mut Cx, libs: &[Lib], d: &D, o: &Opt) {
    let base = enc(cx, d, &o.o()).map(String::into_bytes);
    enc_case(cx, libs, &|| d.show(), o, base, &|l| l.calls(d, o));
}
fn dec_text(cx: &mut Cx, libs: &[Lib], t: &str, o: &Opt, target: u32) {
    let oo = o.o();
    let base: Res = if target == 0 {
        dec(cx, t, &oo).map(|j| {
            let mut b = Vec::new();
            j.bin(&mut b);
            b
        })
    } else {
        cx.ops += 1;
        decode_with(target as usize - 1, &Base(t, &oo)).map(String::into_bytes)
    };
    cx.cat(if base.is_ok() { "documents the default build accepts" } else { "documents the default build rejects" });
    for l in libs {
        cx.ops += 1;
        cx.evals += 1;
        let r = l.decode(t, o, target);
        if !agree(&base, &r) {
            let tn = if target == 0 { "any value" } else { TARGETS[target as usize - 1] };
            let show = |r: &Res| match r {
                Ok(b) if target == 0 => tag(&J::from_bin(&mut &b[..]).map(|j| format!("{:?}", j)).unwrap_or_default()),
                r => text(r),
            };
            cx.fail(
                format!("decode {} {} {:?} as {}", l.name, o.s(), tag(t), tn),
                &[("build", l.name.into()), ("options", o.s()), ("text", tag(t)), ("target", tn.into()), ("default build", show(&base)), ("this build", show(&r))],
            );
        }
    }
}

/// only a panic is wrong
fn ends(cx: &mut Cx, l: &Lib, t: &str, o: &Opt, target: u32) {
    cx.ops += 1;
    cx.evals += 1;
    let r = l.decode(t, o, target);
    cx.cat(if r.is_ok() { "the direct deserializer accepts" } else { "the direct deserializer rejects" });
    if matches!(&r, Err(e) if e == "PANIC") {
        let tn = if target == 0 { "any value" } else { TARGETS[target as usize - 1] };
        cx.fail(format!("direct {} {:?} as {}", o.s(), tag(t), tn), &[("build", l.name.into()), ("options", o.s()), ("text", tag(t)), ("target", tn.into()), ("this build", text(&r))]);
    }
}

/// objects of objects, scalars and inline arrays of scalars
fn direct_shape(j: &J) -> bool {
    fn inner(j: &J) -> bool {
        match j {
            J::Obj(o) => o.iter().all(|(_, v)| inner(v)),
            J::Arr(a) => a.iter().all(|v| v.is_prim()),
            _ => true,
        }
    }
    matches!(j, J::Obj(o) if !o.is_empty()) && inner(j)
}

/// see known-findings.txt
const DIRECT_OTHER: [(&str, usize); 8] = [
    ("[2]: 1,2", 2),
    ("[1]{a}:\n  1", 2),
    ("[2]:\n  - 1\n  - a: 2", 2),
    ("k[1]{a}:\n  1", 2),
    ("k[1]:\n  - a[1]{b}:\n      1\n    c: 2", 2),
    ("a:\n    b: 1", 4),
    ("a[3]: 1", 2),
    ("a: \"x", 2),
];

/// the value spaces; wide objects take quadratic time in the alloc build, so the container
/// lengths stay at the quick bound
fn value_families(th: bool) -> Vec<space::VF> {
    let mut v: Vec<_> = space::families(th).into_iter().filter(|f| f.name != "lengths" && (th || f.name != "trees7")).collect();
    v.extend(space::families(false).into_iter().filter(|f| f.name == "lengths"));
    v
}

pub fn spec(th: bool) -> Spec {
    let names = ["memchr", "smallvec", "perf", "nojson", "alloc", "allocperf"];
    let libs = Arc::new(names.map(Lib::open));
    let mut fams = Vec::new();
    for vf in value_families(th) {
        let g = vf.r#gen.clone();
        let mut os = layouts(if th { vf.size } else { 2 });
        if vf.size < 2 {
            os.push(Opt { fold: Some(None), ..BASE });
        }
        let l = libs.clone();
        fams.push(Fam::new(&format!("encode-{}", vf.name), vf.n, &vf.what, move |i, cx| {
            let j = g(i);
            for o in &os {
                enc_value(cx, &l[..], &j, o);
            }
        }));
    }
    for (name, n, what, size, g) in c02::values(th) {
        if !["objects", "placed", "chains", "many-siblings", "long-chains"].contains(&name.as_str()) {
            continue;
        }
        let os = c02::fold_opts(if th { size } else { 2 });
        let l = libs.clone();
        fams.push(Fam::new(&format!("fold-{}", name), n, &what, move |i, cx| {
            let j = g(i);
            for o in &os {
                enc_value(cx, &l[3..5], &j, o);
            }
        }));
    }
    let opts = Arc::new(vec![BASE, Opt { delim: '|', indent: 3, ..BASE }, Opt { fold: Some(Some(2)), delim: '\t', indent: 1, ..BASE }]);
    let lv = scalar_leaves();
    let (l, o2) = (libs.clone(), opts.clone());
    fams.push(Fam::new("scalar-calls", lv.len() as u64 * DPOS, "every scalar serde call x 18 positions", move |i, cx| {
        let d = dplace(lv[(i / DPOS) as usize].clone(), i % DPOS);
        for o in o2.iter() {
            enc_calls(cx, &l[..], &d, o);
        }
    }));
    let ks = keys();
    let (l, o2) = (libs.clone(), opts.clone());
    fams.push(Fam::new("key-calls", ks.len() as u64 * 4 * DPOS, "every kind of map key call x map with known/unknown length, entries or key-then-value x 18 positions", move |i, cx| {
        let k = ks[(i / DPOS / 4) as usize].clone();
        let m = i / DPOS % 4;
        let (v, second) = if m < 2 { (D::J(int(1)), D::Seq(vec![D::None, D::Tuple(vec![])], true)) } else { (D::Struct(vec![("q", Some(D::J(int(1))))]), D::J(s("t"))) };
        let d = dplace(D::Map(vec![(k, v), (D::J(s("second")), second)], m % 2 == 0, m % 2 == 1), i % DPOS);
        for o in o2.iter() {
            enc_calls(cx, &l[..], &d, o);
        }
    }));
    let bad = vec![D::I128(1 << 64), D::I128(-(1 << 63) - 1), D::I128(i128::MIN), D::U128(1 << 64), D::U128(u128::MAX), D::Fail, D::J(f(f64::NAN)), D::J(f(f64::INFINITY)), D::Map(vec![(D::Seq(vec![], true), D::None)], true, true), D::Map(vec![(D::None, D::None)], true, true), D::Map(vec![(D::Bytes(vec![1]), D::None)], true, true), D::Map(vec![(D::NewVar("v", Box::new(D::None)), D::None)], true, true)];
    let (l, o2) = (libs.clone(), opts.clone());
    fams.push(Fam::new("failing-calls", bad.len() as u64 * DPOS, "data that cannot be encoded (integers beyond 64 bits, a failing value, container keys) and non-finite numbers x 18 positions", move |i, cx| {
        let d = dplace(bad[(i / DPOS) as usize].clone(), i % DPOS);
        for o in o2.iter() {
            enc_calls(cx, &l[..], &d, o);
        }
    }));
    let n = if th { 5 } else { 4 };
    let t = DTrees::new(crate::c08::tree_leaves(), UNARY, NARY, n);
    let (l, o2) = (libs.clone(), opts.clone());
    fams.push(Fam::new("call-trees", t.count_upto(n), &format!("every tree of up to {} serde calls of 13 kinds", n), move |i, cx| {
        let d = t.upto(i, n);
        for o in &o2[..if th { 2 } else { 1 }] {
            enc_calls(cx, &l[3..4], &d, o);
        }
    }));
    let m = UNARY + NARY;
    let depth = if th { 4 } else { 3 };
    let n = words_upto(m, depth);
    let (l, o2) = (libs.clone(), opts.clone());
    fams.push(Fam::new("call-nesting", n * 4, &format!("every nesting of up to {} container calls (13 kinds, alone or with a sibling) around 4 leaves", depth), move |i, cx| {
        let mut d = crate::c08::tree_leaves()[(i % 4) as usize].clone();
        for (j, k) in word_upto(i / 4, m, depth).into_iter().enumerate() {
            d = if k < UNARY {
                unary(k, d)
            } else if j % 2 == 0 {
                nary(k - UNARY, vec![d, D::J(int(2))])
            } else {
                nary(k - UNARY, vec![d.clone(), d])
            };
        }
        for o in o2.iter() {
            enc_calls(cx, &l[3..5], &d, o);
        }
    }));
    // decoding
    for d in docs::families(th) {
        // the big spaces are explored with the builds whose code differs only
        let g = d.r#gen.clone();
        let l = libs.clone();
        let small = d.n < 400_000;
        fams.push(Fam::new(&format!("decode-{}", d.name), d.n, &d.what, move |i, cx| {
            let Some((t, ind)) = g(i) else {
                cx.skip();
                return;
            };
            let o = Opt { indent: ind, ..BASE };
            if th || small {
                dec_text(cx, &l[..], &t, &o, 0);
                dec_text(cx, &l[..], &t, &Opt { expand: true, ..o }, 0);
                dec_text(cx, &l[..], &t, &o.strict(false), 0);
            } else {
                dec_text(cx, &l[2..3], &t, &o.strict(i % 2 == 0), 0);
                dec_text(cx, &l[5..], &t, &o.strict(i % 2 == 1), 0);
            }
        }));
    }
    let d = crate::c11::doc_family(th);
    let g = d.r#gen.clone();
    let l = libs.clone();
    fams.push(Fam::new(&format!("decode-{}", d.name), d.n, &d.what, move |i, cx| {
        let Some((t, ind)) = g(i) else {
            cx.skip();
            return;
        };
        for st in [true, false] {
            dec_text(cx, &l[2..5], &t, &Opt { indent: ind, expand: true, strict: st, ..BASE }, 0);
        }
    }));
    for vf in space::families(false) {
        if !["trees6", "cells", "strings", "keys", "numbers", "tables", "siblings"].contains(&vf.name) {
            continue;
        }
        let g = vf.r#gen.clone();
        let l = libs.clone();
        fams.push(Fam::new(&format!("decode-enc-{}", vf.name), vf.n, &format!("the default build's text of: {}", vf.what), move |i, cx| {
            let j = g(i);
            for k in 0..if th { 3 } else { 1 } {
                let o = Opt { delim: DELIMS[((i + k) % 3) as usize], ..BASE };
                let Ok(t) = enc(cx, &j, &o.o()) else { continue };
                dec_text(cx, &l[..], &t, &o.strict(i % 2 == 0), 0);
            }
        }));
    }
    // every code point in a document
    let l = libs.clone();
    fams.push(Fam::new("decode-codepoints", space::CP_COUNT * if th { 4 } else { 1 }, "every code point at the start, inside and at the end of keys, values, cells, items and headers", move |i, cx| {
        let c = space::cp(i % space::CP_COUNT);
        let t = match if th { i / space::CP_COUNT } else { i % 4 } {
            0 => format!("{}a{}b{}: {}x{}y{}", c, c, c, c, c, c),
            1 => format!("[2]{{a{},\"{}\"}}:\n  {},y{}\n  \"{}\",{}", c, c, c, c, c, c),
            2 => format!("k[3]: {},{}a{},\"{}\"\n{}", c, c, c, c, c),
            _ => format!("[2|]:\n  - {}a: 1\n    b{}: {}|{}\n  - {}", c, c, c, c, c),
        };
        dec_text(cx, &l[2..], &t, &BASE.strict(i % 2 == 0), 0);
    }));
    // typed targets
    let mut base = docs::small_docs(if th { 4 } else { 3 });
    base.extend(docs::rich_docs());
    base.extend(space::numbers().iter().map(|j| format!("a: {}", j.json())));
    base.extend(space::numbers().iter().map(|j| j.json()));
    base.extend(["Unit", "New: 1", "Tup[2]: 1,x", "St:\n  x: 1\n  y: true", "a: 1\nb: x\nc[2]:\n  - Unit\n  - New: 3", "[2]:\n  - Unit\n  - St:\n      x: 3", "x", "\"\"", "k[1]{a,b}:\n  1,z", "300", "-1", "1.5", "[2]: 1,x", "[1]: 300"].map(String::from));
    let base = Arc::new(base);
    let base2 = base.clone();
    let n = base.len() as u64;
    let nt = TARGETS.len() as u64 + 1;
    let l = libs.clone();
    fams.push(Fam::new("decode-typed", n * nt * 2, "small and feature-rich documents and every number into 15 target types", move |i, cx| {
        let t = &base[(i / nt / 2) as usize];
        dec_text(cx, &l[..], t, &BASE.strict(i % 2 == 0), (i / 2 % nt) as u32);
    }));
    // the direct deserializer, on the shapes it supports
    let direct = Arc::new(Lib::open("direct"));
    for vf in value_families(th) {
        let g = vf.r#gen.clone();
        let l = direct.clone();
        if ["tables"].contains(&vf.name) {
            continue;
        }
        fams.push(Fam::new(&format!("direct-{}", vf.name), vf.n, &format!("{}; those the direct deserializer supports", vf.what), move |i, cx| {
            let j = g(i);
            if !direct_shape(&j) {
                cx.skip();
                return;
            }
            let Ok(t) = enc(cx, &j, &BASE.o()) else { return };
            for st in [true, false] {
                dec_text(cx, std::slice::from_ref(&*l), &t, &BASE.strict(st), 0);
            }
        }));
    }
    let wl = if th { 4 } else { 3 };
    let l = direct.clone();
    fams.push(Fam::new("direct-words", words_upto(docs::TOK.len(), wl) * 3, &format!("every string of up to {} significant characters as value, key and array element", wl), move |i, cx| {
        let w = space::chars_word(i / 3, &docs::TOK, wl);
        let j = match i % 3 {
            0 => J::Obj(vec![("k".into(), s(&w)), ("z".into(), int(1))]),
            1 => J::Obj(vec![("o".into(), J::Obj(vec![(w.clone(), J::Arr(vec![int(1)])), (format!("{}q", w), int(2))]))]),
            _ => J::Obj(vec![("a".into(), J::Arr(vec![s(&w), s("x"), s(&w)]))]),
        };
        let o = if i % 2 == 0 { BASE } else { Opt { delim: '|', ..BASE } };
        let Ok(t) = enc(cx, &j, &o.o()) else { return };
        dec_text(cx, std::slice::from_ref(&*l), &t, &o, 0);
    }));
    // whatever the document, the direct deserializer ends in a value or an error
    for d in docs::families(false) {
        let g = d.r#gen.clone();
        let l = direct.clone();
        fams.push(Fam::new(&format!("direct-any-{}", d.name), d.n, &format!("{}: a value or an error, into any value and into one of 15 types", d.what), move |i, cx| {
            let Some((t, ind)) = g(i) else {
                cx.skip();
                return;
            };
            let o = Opt { indent: ind, ..BASE }.strict(i % 2 == 0);
            ends(cx, &l, &t, &o, 0);
            ends(cx, &l, &t, &o, 1 + (i % TARGETS.len() as u64) as u32);
        }));
    }
    let l = direct.clone();
    let (b2, n) = (base2.clone(), base2.len() as u64);
    fams.push(Fam::new("direct-any-typed", n * nt * 2, "small and feature-rich documents and every number into 15 target types", move |i, cx| {
        ends(cx, &l, &b2[(i / nt / 2) as usize], &BASE.strict(i % 2 == 0), (i / 2 % nt) as u32);
    }));
    let l = direct.clone();
    fams.push(Fam::new("direct-any-codepoints", space::CP_COUNT * 4, "every code point at the start of lines, keys, values, cells, items and headers", move |i, cx| {
        let c = space::cp(i / 4);
        let t = match i % 4 {
            0 => format!("{}a{}b{}: {}x{}y{}", c, c, c, c, c, c),
            1 => format!("k:\n  @{}b\n  - 1\nm: [1{}]: 2{}3\nn:\n  - [1{}]: {}\n  - @{}\nl:\n  @{}\n", c, c, c, c, c, c, c),
            2 => format!("k[3{}]: {},{}a{},\"{}\"\n{}\n[{}2]: 1{}2", c, c, c, c, c, c, c, c),
            _ => format!("[2{}]:\n  - {}a: 1\n    b{}: {}|{}\n  - {}\nt[1{}]{{a{}b}}:\n  1{}2", c, c, c, c, c, c, c, c, c),
        };
        let o = BASE.strict(false);
        ends(cx, &l, &t, &o, 0);
        ends(cx, &l, &t, &o, 1 + (i / 16 % TARGETS.len() as u64) as u32);
    }));
    // repetitive and deep documents, on a small stack
    let (l, l2) = (libs.clone(), direct.clone());
    let sizes: &[usize] = if th { &[1, 10, 100, 255, 256, 257, 258, 512, 3000, 20000] } else { &[1, 10, 255, 256, 257, 300, 4000] };
    let ns = sizes.len() as u64;
    fams.push(Fam::new("decode-large", crate::c05::BIG * ns * 2, "37 repetitive or deeply nested documents of growing size on a 2 MB thread stack: equal in every build; a value or an error from the direct deserializer into every target", move |i, cx| {
        let (k, n) = (i / 2 % crate::c05::BIG, sizes[(i / 2 / crate::c05::BIG) as usize]);
        let n = if matches!(k, 2 | 3 | 4 | 21 | 22 | 25 | 27 | 30 | 34 | 35) { n.min(4000) } else { n };
        let t = crate::c05::big(k, n);
        let o = BASE.strict(i % 2 == 0);
        let mut inner = Cx::default();
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, || {
                    dec_text(&mut inner, &l[..], &t, &o, 0);
                    for x in 0..=TARGETS.len() {
                        ends(&mut inner, &l2, &t, &o, x as u32);
                    }
                })
                .unwrap()
                .join()
                .unwrap();
        });
        cx.ops += inner.ops;
        cx.evals += inner.evals;
        for v in inner.viols {
            let d: Vec<(&str, String)> = v.detail.iter().map(|(a, b)| (a.as_str(), b.clone())).collect();
            cx.fail(v.sig, &d);
        }
    }));
    let l = direct.clone();
    fams.push(Fam::new("direct-other", DIRECT_OTHER.len() as u64, "one document of each shape the direct deserializer is known not to support", move |i, cx| {
        let (t, indent) = DIRECT_OTHER[i as usize];
        dec_text(cx, std::slice::from_ref(&*l), t, &Opt { indent, ..BASE }, 0);
    }));
    Spec {
        id: "C13".into(),
        level: "model_checking",
        rule: "state = one value, tree of serde calls, or document; for every other build (memchr; smallvec; all performance features with chrono; std without JSON; alloc only; alloc with performance features; for the shapes it supports, the direct deserializer) the encoding has the same bytes, and the decoding the same value (number kinds, bits and member order included) or a rejection, as in the default build".into(),
        fams,
        assumptions: vec!["error messages are not compared".into(), "the direct deserializer is compared on documents of nested objects, scalars and inline arrays only".into()],
    }
}
