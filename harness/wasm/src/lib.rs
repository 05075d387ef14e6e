//! The WebAssembly bindings compiled for this machine, behind a C interface, so that their own
//! global allocator stays inside this library.
use std::panic::{AssertUnwindSafe, catch_unwind};

#[repr(C)]
pub struct Out {
    kind: u32,
    ptr: *mut u8,
    len: usize,
}
fn out(f: impl FnOnce() -> Result<String, String>) -> Out {
    static QUIET: std::sync::Once = std::sync::Once::new();
    QUIET.call_once(|| std::panic::set_hook(Box::new(|_| {})));
    let (kind, b) = match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(t)) => (0, t),
        Ok(Err(t)) => (1, t),
        Err(e) => (2, e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    };
    let b = b.into_bytes().into_boxed_slice();
    let len = b.len();
    Out { kind, ptr: Box::into_raw(b) as *mut u8, len }
}
unsafe fn text<'a>(p: *const u8, n: usize) -> &'a str {
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn w_encode(p: *const u8, n: usize, pipe: bool, strict: bool) -> Out {
    out(|| toon_wasm::json_to_toon(unsafe { text(p, n) }, pipe, strict))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn w_decode(p: *const u8, n: usize, strict: bool, pretty: bool) -> Out {
    out(|| toon_wasm::toon_to_json(unsafe { text(p, n) }, strict, pretty))
}
#[unsafe(no_mangle)]
pub extern "C" fn w_version() -> Out {
    out(|| Ok(toon_wasm::version()))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn w_free(o: Out) {
    drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(o.ptr, o.len)) });
}
