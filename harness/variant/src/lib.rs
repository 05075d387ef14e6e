//! One build of toon-rs with the feature set chosen at compile time, behind a C interface.
//! Values go in by reference (same compiler, same definition of J and D, read only; the
//! caller probes that first), results come out as bytes that the caller gives back to `vfree`.
use mc::dm::D;
use mc::types::{Decode, decode_with};
use mc::val::J;
use std::panic::{AssertUnwindSafe, catch_unwind};
use toon::{Delimiter, ExpandPaths, KeyFolding, Options};

#[repr(C)]
pub struct O {
    pub delim: u32,
    pub indent: u32,
    pub strict: u32,
    /// 0 off, 1 unlimited, n+2 depth n
    pub fold: u32,
    pub expand: u32,
}
#[repr(C)]
pub struct Out {
    /// 0 value, 1 error, 2 panic
    pub kind: u32,
    pub ptr: *mut u8,
    pub len: usize,
}
fn out(kind: u32, b: Vec<u8>) -> Out {
    let b = b.into_boxed_slice();
    let len = b.len();
    Out { kind, ptr: Box::into_raw(b) as *mut u8, len }
}
fn options(o: &O) -> Options {
    Options {
        delimiter: match o.delim {
            0 => Delimiter::Comma,
            1 => Delimiter::Tab,
            _ => Delimiter::Pipe,
        },
        strict: o.strict != 0,
        indent: o.indent as usize,
        key_folding: if o.fold != 0 { KeyFolding::Safe } else { KeyFolding::Off },
        flatten_depth: if o.fold > 1 { Some(o.fold as usize - 2) } else { None },
        expand_paths: if o.expand != 0 { ExpandPaths::Safe } else { ExpandPaths::Off },
    }
}
fn guard(f: impl FnOnce() -> Result<Vec<u8>, String>) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(b)) => out(0, b),
        Ok(Err(e)) => out(1, e.into_bytes()),
        Err(_) => out(2, Vec::new()),
    }
}
/// # Safety
/// the arguments come from the matching declarations in check/src/c13.rs
#[unsafe(no_mangle)]
pub unsafe extern "C" fn venc(v: *const J, o: *const O) -> Out {
    let (v, o) = unsafe { (&*v, options(&*o)) };
    guard(|| toon::encode_to_string(v, &o).map(String::into_bytes).map_err(|e| e.to_string()))
}
/// # Safety
/// as above
#[unsafe(no_mangle)]
pub unsafe extern "C" fn vcall(v: *const D, o: *const O) -> Out {
    let (v, o) = unsafe { (&*v, options(&*o)) };
    guard(|| toon::encode_to_string(v, &o).map(String::into_bytes).map_err(|e| e.to_string()))
}
struct Dec<'a>(&'a str, &'a Options);
impl Decode for Dec<'_> {
    fn go<T: serde::de::DeserializeOwned + std::fmt::Debug + 'static>(&self) -> Result<String, String> {
        toon::decode_from_str::<T>(self.0, self.1).map(|v| format!("{:?}", v)).map_err(|e| e.to_string())
    }
}
/// # Safety
/// as above; `t` is UTF-8; target 0 is J, n+1 the n-th of mc::types
#[unsafe(no_mangle)]
pub unsafe extern "C" fn vdec(t: *const u8, n: usize, o: *const O, target: u32) -> Out {
    let (t, o) = unsafe { (std::str::from_utf8_unchecked(std::slice::from_raw_parts(t, n)), options(&*o)) };
    guard(|| {
        if target == 0 {
            let j = toon::decode_from_str::<J>(t, &o).map_err(|e| e.to_string())?;
            let mut b = Vec::new();
            j.bin(&mut b);
            Ok(b)
        } else {
            decode_with(target as usize - 1, &Dec(t, &o)).map(String::into_bytes)
        }
    })
}
/// what this library sees behind the references
/// # Safety
/// as above
#[unsafe(no_mangle)]
pub unsafe extern "C" fn vprobe(v: *const J, d: *const D) -> Out {
    let (v, d) = unsafe { (&*v, &*d) };
    out(0, format!("{} {} {:?} {:?}", size_of::<J>(), size_of::<D>(), v, d).into_bytes())
}
/// # Safety
/// as above
#[unsafe(no_mangle)]
pub unsafe extern "C" fn vfree(o: Out) {
    drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(o.ptr, o.len)) });
}
