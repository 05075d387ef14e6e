//! C16: the WebAssembly bindings (compiled for this machine) against the library.
use crate::c15::{JSON_TOK, NUMBERS, json_bases, prefixes, same_number};
use crate::common::*;
use crate::docs;
use mc::run::*;
use mc::space;
use mc::trees::*;
use mc::val::*;
use std::ffi::{CString, c_void};
use std::sync::Arc;

#[repr(C)]
struct Out {
    kind: u32,
    ptr: *mut u8,
    len: usize,
}
type Call = unsafe extern "C" fn(*const u8, usize, bool, bool) -> Out;
#[derive(Clone, Copy)]
struct Lib {
    enc: Call,
    dec: Call,
    ver: unsafe extern "C" fn() -> Out,
    free: unsafe extern "C" fn(Out),
}
unsafe fn sym<T: Copy>(h: *mut c_void, n: &str) -> T {
    let c = CString::new(n).unwrap();
    let p = unsafe { libc::dlsym(h, c.as_ptr()) };
    assert!(!p.is_null(), "no symbol {}", n);
    unsafe { std::mem::transmute_copy(&p) }
}
impl Lib {
    fn open() -> Lib {
        let p = format!("{}/target/wasm/release/libwasmlib.so", std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let c = CString::new(p.clone()).unwrap();
        unsafe {
            let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            assert!(!h.is_null(), "cannot load {}", p);
            Lib { enc: sym(h, "w_encode"), dec: sym(h, "w_decode"), ver: sym(h, "w_version"), free: sym(h, "w_free") }
        }
    }
    fn take(&self, o: Out) -> Result<String, String> {
        let b = unsafe { std::slice::from_raw_parts(o.ptr, o.len) }.to_vec();
        let k = o.kind;
        unsafe { (self.free)(o) };
        let t = String::from_utf8(b).expect("the bindings return UTF-8");
        match k {
            0 => Ok(t),
            1 => Err(t),
            _ => Err(format!("PANIC: {}", t)),
        }
    }
    fn encode(&self, t: &str, pipe: bool, strict: bool) -> Result<String, String> {
        self.take(unsafe { (self.enc)(t.as_ptr(), t.len(), pipe, strict) })
    }
    fn decode(&self, t: &str, strict: bool, pretty: bool) -> Result<String, String> {
        self.take(unsafe { (self.dec)(t.as_ptr(), t.len(), strict, pretty) })
    }
}
/// the documented limit on the size of an input, in bytes
const LIMIT: usize = 10 * 1024 * 1024;

fn want_enc(t: &str, pipe: bool, strict: bool) -> Result<String, String> {
    if t.len() > LIMIT {
        return Err("over the size limit".into());
    }
    let o = Opt { delim: if pipe { '|' } else { ',' }, strict, ..BASE }.o();
    guarded(|| {
        let v: serde_json::Value = serde_json::from_str(t).map_err(|e| e.to_string())?;
        toon::encode_to_string(&v, &o).map_err(|e| e.to_string())
    })
}
fn want_dec(t: &str, strict: bool, pretty: bool) -> Result<String, String> {
    if t.len() > LIMIT {
        return Err("over the size limit".into());
    }
    let o = BASE.strict(strict).o();
    guarded(|| {
        let v: serde_json::Value = toon::decode_from_str(t, &o).map_err(|e| e.to_string())?;
        if pretty { serde_json::to_string_pretty(&v) } else { serde_json::to_string(&v) }.map_err(|e| e.to_string())
    })
}
fn judge(cx: &mut Cx, how: String, t: &str, want: Result<String, String>, got: Result<String, String>) {
    cx.ops += 1;
    cx.evals += 1;
    cx.cat(if want.is_ok() { "calls that succeed" } else { "calls that fail" });
    cx.outcome(&shows(&got));
    cx.sample(|| format!("{} {:?} -> {:?}", how, tag(t), tag(&shows(&got))));
    let ok = match (&want, &got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => !is_panic(&got),
        _ => false,
    };
    if !ok {
        cx.fail(format!("{} {:?}", how, tag(t)), &[("call", how), ("input", tag(t)), ("library", tag(&shows(&want))), ("bindings", tag(&shows(&got)))]);
    }
}
fn enc_all(cx: &mut Cx, l: &Lib, t: &str, i: u64, full: bool) {
    for pipe in [false, true] {
        for strict in [false, true] {
            if full || strict == ((i % 2 == 1) ^ pipe) {
                judge(cx, format!("json_to_toon pipe={} strict={}", pipe, strict), t, want_enc(t, pipe, strict), l.encode(t, pipe, strict));
            }
        }
    }
}
fn dec_all(cx: &mut Cx, l: &Lib, t: &str, i: u64, full: bool) {
    for strict in [false, true] {
        for pretty in [false, true] {
            if full || pretty == ((i % 2 == 1) ^ strict) {
                judge(cx, format!("toon_to_json strict={} pretty={}", strict, pretty), t, want_dec(t, strict, pretty), l.decode(t, strict, pretty));
            }
        }
    }
}

/// a text of exactly `n` bytes; for encoding (JSON) or decoding (TOON)
fn sized(kind: u64, json: bool, n: usize) -> String {
    let (head, tail) = if json { ("{\"k\":\"", "\"}") } else { ("k: \"", "\"") };
    let room = n - head.len() - tail.len();
    match kind {
        // one string, with multi-byte characters in the second kind
        0 => format!("{}{}{}", head, "x".repeat(room), tail),
        1 => format!("{}{}{}{}", head, "é".repeat(room / 2), "y".repeat(room % 2), tail),
        2 => {
            let mut t = if json { "[1]".to_string() } else { "[1]: 1".to_string() };
            // padded with blanks after the value
            t.push_str(&(if json { " " } else { "\n" }).repeat(n - t.len()));
            t
        }
        // not a document at all
        _ => {
            let mut t = "\"".to_string();
            t.push_str(&"z".repeat(n - 1));
            t
        }
    }
}

pub fn spec(th: bool) -> Spec {
    let l = Lib::open();
    let mut fams = Vec::new();
    for vf in space::families(th) {
        if vf.name.starts_with("trees") && vf.name != "trees6" && !th || vf.name == "trees8" {
            continue;
        }
        let g = vf.r#gen.clone();
        let full = vf.size == 0;
        let lens = vf.name == "lengths";
        // the bindings' allocator does not give memory back on this platform: what is too
        // long to be read thousands of times is left to the family "sizes"
        let long = vf.name == "odd-one" || vf.name == "sizes";
        let n = vf.n.min(if th { 2_000_000 } else { 100_000 });
        let what = if n < vf.n { format!("the JSON text of the first {} of: {}; and back", n, vf.what) } else { format!("the JSON text of: {}; and back", vf.what) };
        fams.push(Fam::new(&format!("values-{}", vf.name), n, &what, move |i, cx| {
            if lens && i % 4 != 1 {
                cx.skip();
                return;
            }
            let j = g(i);
            if long && j.nodes() > 700 {
                cx.skip();
                return;
            }
            enc_all(cx, &l, &j.json(), i, full);
            let o = Opt { delim: if i % 2 == 0 { ',' } else { '|' }, ..BASE };
            if let Ok(t) = enc(cx, &j, &o.o()) {
                dec_all(cx, &l, &t, i, full);
            }
        }));
    }
    let jl = if th { 5 } else { 4 };
    fams.push(Fam::new("json-words", words_upto(JSON_TOK.len(), jl), &format!("every text of up to {} JSON tokens of 16, well formed or not", jl), move |i, cx| {
        let t: String = word_upto(i, JSON_TOK.len(), jl).into_iter().map(|k| JSON_TOK[k]).collect();
        enc_all(cx, &l, &t, i, false);
    }));
    let cuts = Arc::new(prefixes(&json_bases()));
    fams.push(Fam::new("json-cuts", cuts.len() as u64, "every prefix of JSON texts with each kind of token and spacing", move |i, cx| enc_all(cx, &l, &cuts[i as usize], i, true)));
    fams.push(Fam::new("json-numbers", NUMBERS.len() as u64, "JSON number texts: the number written equals the number read", move |i, cx| {
        let t = NUMBERS[i as usize];
        cx.ops += 1;
        cx.evals += 1;
        let g = l.encode(t, false, true);
        if !matches!(&g, Ok(x) if same_number(t, x)) {
            cx.fail(format!("number {}", t), &[("input", t.into()), ("got", shows(&g))]);
        }
    }));
    for d in docs::families(th) {
        if d.name == "escapes" || d.name == "numerics" {
            continue;
        }
        let lim = if th { 3_000_000 } else { 200_000 };
        let n = d.n.min(lim);
        let g = d.r#gen.clone();
        let what = if n < d.n { format!("the first {} of: {}", n, d.what) } else { d.what.clone() };
        fams.push(Fam::new(&format!("docs-{}", d.name), n, &what, move |i, cx| match g(i) {
            // the bindings always use an indentation of 2; other documents are only other inputs
            Some((t, _)) if t.len() > 1500 => cx.skip(),
            Some((t, _)) => dec_all(cx, &l, &t, i, false),
            None => cx.skip(),
        }));
    }
    fams.push(Fam::new("codepoints", space::CP_COUNT, "every code point in a key, a value and a cell, both ways", move |i, cx| {
        let c = space::cp(i);
        let j = J::Obj(vec![(format!("k{}", c), J::Arr(vec![s(&c.to_string()), s(&format!("a{}b", c))]))]);
        let (t, u) = (j.json(), format!("k{}[2]: {},a{}b", c, c, c));
        if th {
            enc_all(cx, &l, &t, i, false);
            dec_all(cx, &l, &u, i, false);
        } else {
            judge(cx, "json_to_toon".into(), &t, want_enc(&t, i % 2 == 0, true), l.encode(&t, i % 2 == 0, true));
            judge(cx, "toon_to_json".into(), &u, want_dec(&u, i % 4 < 2, false), l.decode(&u, i % 4 < 2, false));
        }
    }));
    let sizes = [1usize << 10, 1 << 16, 1 << 20, 5_000_000, 9_999_999, 10_000_000, 10_000_001, LIMIT - 2, LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 2, LIMIT + (1 << 16), 2 * LIMIT];
    fams.push(Fam::new("sizes", sizes.len() as u64 * 4 * 2, "inputs of 1 kB to 20 MB and around the limit of 10 MB: one string, multi-byte text, blank padding, malformed; encoding and decoding", move |i, cx| {
        let n = sizes[(i / 8) as usize];
        let (kind, json) = (i / 2 % 4, i % 2 == 0);
        let t = sized(kind, json, n);
        assert_eq!(t.len(), n);
        let how = format!("{} bytes kind {}", n, kind);
        if json {
            let got = l.encode(&t, kind % 2 == 1, true);
            judge(cx, format!("json_to_toon {}", how), &t, want_enc(&t, kind % 2 == 1, true), got);
        } else {
            let got = l.decode(&t, kind != 2, kind == 1);
            judge(cx, format!("toon_to_json {}", how), &t, want_dec(&t, kind != 2, kind == 1), got);
        }
    }));
    let depths = [1usize, 16, 64, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 1000, 20_000];
    fams.push(Fam::new("deep", depths.len() as u64 * 6, "JSON and TOON nested 1 to 20000 deep", move |i, cx| {
        let n = depths[(i / 6) as usize];
        match i % 6 {
            0 => enc_all(cx, &l, &format!("{}{}", "[".repeat(n), "]".repeat(n)), i, true),
            1 => enc_all(cx, &l, &format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n)), i, true),
            2 => enc_all(cx, &l, &"[".repeat(n), i, true),
            3 => dec_all(cx, &l, &(0..n.min(2000)).map(|k| format!("{}a:", "  ".repeat(k))).collect::<Vec<_>>().join("\n"), i, true),
            4 => dec_all(cx, &l, &format!("[1]:\n  {}1", "- [1]: ".repeat(n)), i, true),
            _ => dec_all(cx, &l, &(0..n.min(2000)).map(|k| format!("{}- a[1]:", "    ".repeat(k))).fold("[1]:".to_string(), |a, b| format!("{}\n  {}", a, b)), i, true),
        }
    }));
    fams.push(Fam::new("version", 1, "the version", move |_, cx| {
        cx.ops += 1;
        cx.evals += 1;
        let v = l.take(unsafe { (l.ver)() });
        if !matches!(&v, Ok(v) if v.split('.').count() == 3 && v.split('.').all(|p| p.parse::<u32>().is_ok())) {
            cx.fail("version".into(), &[("got", shows(&v))]);
        }
    }));
    Spec {
        id: "C16".into(),
        level: "model_checking",
        rule: "state = one call of a binding: its text and options; the result is the library's result for the same text and options (inputs over 10 MB refused), and an error, never a panic, where the library has none".into(),
        fams,
        assumptions: vec!["the bindings are compiled for this machine, not to WebAssembly; the JavaScript glue is generated by wasm-bindgen and not examined".into(), "JSON texts are read by serde_json in the bindings and in the oracle".into()],
    }
}
