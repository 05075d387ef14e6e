//! C14: readers and writers under every I/O behaviour.
use crate::common::*;
use crate::docs;
use mc::run::*;
use mc::space;
use mc::trees::{word_upto, words_upto};
use mc::val::*;
use std::io::{Error, ErrorKind, Read, Result as Io, Write};
use std::sync::Arc;
use toon::Options;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum A {
    /// transfer at most so many bytes
    Take(usize),
    Intr,
    Fail(ErrorKind),
    /// the same without a message of its own, or as the operating system reports it
    Bare(ErrorKind),
    Os(i32),
    /// end of file, or a write of nothing
    Zero,
}
use A::*;
const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::ConnectionReset,
];
/// every stable kind of error but Interrupted
const ALL_KINDS: [ErrorKind; 36] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
];
/// every error number of the system but EINTR, every kind with and without a message
fn all_errors() -> Vec<A> {
    let mut v: Vec<A> = ALL_KINDS.iter().flat_map(|k| [Fail(*k), Bare(*k)]).collect();
    v.extend((1..=133).filter(|n| Error::from_raw_os_error(*n).kind() != ErrorKind::Interrupted).map(Os));
    v
}
fn error(a: A) -> Error {
    match a {
        Fail(k) => Error::new(k, "planned"),
        Bare(k) => Error::from(k),
        Os(n) => Error::from_raw_os_error(n),
        _ => unreachable!(),
    }
}
fn show(s: &[A]) -> String {
    let mut t = String::new();
    for a in s {
        match a {
            Take(usize::MAX) => t.push_str("all "),
            Take(n) => t.push_str(&format!("{} ", n)),
            Intr => t.push_str("intr "),
            Fail(k) => t.push_str(&format!("{:?} ", k)),
            Bare(k) => t.push_str(&format!("bare-{:?} ", k)),
            Os(n) => t.push_str(&format!("os-{} ", n)),
            Zero => t.push_str("zero "),
        }
    }
    tag(&t)
}
/// follows the script, then transfers everything
struct R<'a> {
    b: &'a [u8],
    at: usize,
    script: &'a [A],
    k: usize,
    failed: bool,
    /// bytes given out before the first end of file
    end: Option<usize>,
}
impl Read for R<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Io<usize> {
        let a = self.script.get(self.k).copied().unwrap_or(Take(usize::MAX));
        self.k += 1;
        match a {
            Take(n) => {
                let n = n.min(buf.len()).min(self.b.len() - self.at);
                buf[..n].copy_from_slice(&self.b[self.at..self.at + n]);
                self.at += n;
                if n == 0 && !buf.is_empty() && self.end.is_none() {
                    self.end = Some(self.at);
                }
                Ok(n)
            }
            Intr => Err(Error::new(ErrorKind::Interrupted, "interrupted")),
            Fail(_) | Bare(_) | Os(_) => {
                if self.end.is_none() {
                    self.failed = true;
                }
                Err(error(a))
            }
            Zero => {
                if self.end.is_none() {
                    self.end = Some(self.at);
                }
                Ok(0)
            }
        }
    }
}
struct W<'a> {
    got: Vec<u8>,
    script: &'a [A],
    k: usize,
    failed: bool,
}
impl Write for W<'_> {
    fn write(&mut self, buf: &[u8]) -> Io<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let a = self.script.get(self.k).copied().unwrap_or(Take(usize::MAX));
        self.k += 1;
        match a {
            Take(n) => {
                let n = n.min(buf.len());
                self.got.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            Intr => Err(Error::new(ErrorKind::Interrupted, "interrupted")),
            Fail(_) | Bare(_) | Os(_) => {
                self.failed = true;
                Err(error(a))
            }
            Zero => {
                self.failed = true;
                Ok(0)
            }
        }
    }
    fn flush(&mut self) -> Io<()> {
        Ok(())
    }
}

fn bad(cx: &mut Cx, what: &str, doc: &str, script: &[A], o: &Opt, got: String) {
    cx.fail(
        format!("{} {} [{}] {:?}", what, o.s(), show(script), tag(doc)),
        &[("what", what.into()), ("options", o.s()), ("text", tag(doc)), ("transfers", show(script)), ("got", tag(&got))],
    );
}
fn read(cx: &mut Cx, b: &[u8], script: &[A], o: &Opt, oo: &Options) {
    let mut r = R { b, at: 0, script, k: 0, failed: false, end: None };
    cx.ops += 1;
    cx.evals += 1;
    let got = guarded(|| toon::decode_from_reader::<_, J>(&mut r, oo).map_err(|e| format!("{}", e)));
    let doc = String::from_utf8_lossy(b);
    if is_panic(&got) {
        bad(cx, "panic", &doc, script, o, show_r(&got));
        return;
    }
    if r.failed {
        cx.cat("reader error");
        if got.is_ok() {
            bad(cx, "value in spite of a reader error", &doc, script, o, show_r(&got));
        }
        return;
    }
    let Some(end) = r.end else {
        // the text was not read to its end: only an error may come of that
        cx.cat("not read to the end");
        if got.is_ok() {
            bad(cx, "value without reading to the end", &doc, script, o, show_r(&got));
        } else if std::str::from_utf8(b).is_ok_and(|t| dec(cx, t, oo).is_ok()) {
            bad(cx, "error without reading to the end", &doc, script, o, show_r(&got));
        }
        return;
    };
    match std::str::from_utf8(&b[..end]) {
        Err(_) => {
            cx.cat("invalid UTF-8");
            if got.is_ok() {
                bad(cx, "value from invalid UTF-8", &doc, script, o, show_r(&got));
            }
        }
        Ok(t) => {
            let want = dec(cx, t, oo);
            cx.cat(if end < b.len() { "early end of file" } else if want.is_ok() { "value read" } else { "text rejected" });
            let same = match (&got, &want) {
                (Ok(a), Ok(b)) => a.same_ordered(b),
                (Err(_), Err(_)) => true,
                _ => false,
            };
            cx.outcome(&show_r(&got));
            if !same {
                bad(cx, "differs from decoding the text", &doc, script, o, format!("{} instead of {}", show_r(&got), show_r(&want)));
            }
        }
    }
}
fn show_r(r: &Result<J, String>) -> String {
    crate::common::show(r)
}
const WRITERS: usize = 3;
fn write<T: serde::Serialize>(cx: &mut Cx, v: &T, want: &str, script: &[A], o: &Opt, oo: &Options) {
    for k in 0..WRITERS {
        let mut w = W { got: vec![], script, k: 0, failed: false };
        cx.ops += 1;
        cx.evals += 1;
        let name = ["encode_to_writer", "ser::to_writer", "ser::to_writer_streaming"][k];
        let r = guarded(|| {
            match k {
                0 => toon::encode_to_writer(&mut w, v, oo),
                1 => toon::ser::to_writer(&mut w, v, oo),
                _ => toon::ser::to_writer_streaming(&mut w, v, oo),
            }
            .map_err(|e| format!("{}", e))
        });
        let got = String::from_utf8_lossy(&w.got).to_string();
        cx.outcome(&got);
        let d = |x: &str| format!("{}: {:?}, delivered {:?}, {}", name, r, tag(&got), x);
        if is_panic(&r) {
            bad(cx, "panic", want, script, o, d(""));
        } else if w.failed {
            cx.cat("writer error");
            if r.is_ok() {
                bad(cx, "success in spite of a writer error", want, script, o, d(""));
            } else if !want.as_bytes().starts_with(&w.got) {
                bad(cx, "delivered bytes are no prefix of the text", want, script, o, d(""));
            }
        } else {
            cx.cat("all delivered");
            if r.is_err() || w.got != want.as_bytes() {
                bad(cx, "text not delivered", want, script, o, d(""));
            }
        }
    }
}
/// the scripts of all ways to cut n bytes, as a bit mask of cuts
fn cuts(mask: u64, n: usize, intr: bool) -> Vec<A> {
    let mut v = Vec::new();
    let mut len = 0;
    for i in 0..n {
        len += 1;
        if i + 1 == n || mask >> i & 1 == 1 {
            if intr {
                v.push(Intr);
            }
            v.push(Take(len));
            len = 0;
        }
    }
    v
}
fn small_texts() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "a: 1", "é: 😀", "[2]: 1,2", "a:\n  b: 1", "a[1]{x}:\n  é", "\"a\": \"é\"", "x\ny", "a: \"", "[1]:\n  - 日", "a: 1\r\nb: 2", "t: true\n", "\u{feff}a: 1", "[3]: 1,2"].iter().map(|s| s.to_string()).collect();
    v.retain(|t| t.len() <= 16);
    v
}
pub fn values() -> Vec<J> {
    let mut v = vec![J::Null, int(1), s(""), s("é"), s("a\nb"), J::Arr(vec![]), J::Obj(vec![])];
    for p in [1, 2, 5, 9, 12, 15] {
        v.push(space::place(s("é,😀"), p));
    }
    v.push(space::place(J::Arr(vec![int(1), s("x")]), 14));
    v
}

pub fn spec(th: bool) -> Spec {
    let mut fams = Vec::new();
    let base = (BASE, BASE.o());
    let texts = Arc::new(small_texts());
    // every way of cutting a short text into reads, with and without interruptions
    let (t, b) = (texts.clone(), base.clone());
    let per = 1u64 << 15;
    fams.push(Fam::new("all cuts, reading", t.len() as u64 * per, "15 texts of up to 16 bytes (with 2-, 3- and 4-byte characters, invalid ones too) x every way of cutting them into reads, with and without an interruption before each read", move |i, cx| {
        let x = &t[(i / per) as usize];
        let m = i % per;
        if x.len() < 16 && m >= 1 << x.len().saturating_sub(1) {
            cx.skip();
            return;
        }
        for intr in [false, true] {
            read(cx, x.as_bytes(), &cuts(m, x.len(), intr), &b.0, &b.1);
        }
        cx.sample(|| format!("{:?} in pieces {:b}", x, m));
    }));
    // every short script of transfers
    let alpha: Vec<A> = vec![Take(1), Take(2), Take(3), Take(usize::MAX), Intr, Fail(ErrorKind::Other), Fail(ErrorKind::WouldBlock), Fail(ErrorKind::UnexpectedEof), Zero];
    let len = if th { 7 } else { 6 };
    let n = words_upto(alpha.len(), len);
    let (t, b, al) = (texts.clone(), base.clone(), alpha.clone());
    fams.push(Fam::new("scripts, reading", n * t.len() as u64, &format!("15 texts x every sequence of up to {} reads (1, 2, 3 or all bytes, interruption, three errors, end of file)", len), move |i, cx| {
        let s: Vec<A> = word_upto(i / t.len() as u64, al.len(), len).into_iter().map(|k| al[k]).collect();
        read(cx, t[(i % t.len() as u64) as usize].as_bytes(), &s, &b.0, &b.1);
    }));
    // every kind of error there is
    let errs = Arc::new(all_errors());
    let ne = errs.len() as u64;
    let (t, b, e2) = (texts.clone(), base.clone(), errs.clone());
    fams.push(Fam::new("error kinds, reading", ne * t.len() as u64, "15 texts x every place x every kind of error (36 kinds with and without a message, 132 error numbers of the system), alone, after an interruption, and repeated", move |i, cx| {
        let (e, x) = (e2[(i % ne) as usize], t[(i / ne) as usize].as_bytes());
        for p in 0..=x.len() {
            let pre: Vec<A> = if p == 0 { vec![] } else { vec![Take(p)] };
            for post in [&[e][..], &[Intr, e], &[e, e, e, e], &[e, Zero]] {
                let mut s = pre.clone();
                s.extend_from_slice(post);
                read(cx, x, &s, &b.0, &b.1);
            }
        }
    }));
    let vals2 = Arc::new(values());
    let (e2, b) = (errs.clone(), base.clone());
    fams.push(Fam::new("error kinds, writing", ne * vals2.len() as u64, "14 values x every place x the same errors, alone, after an interruption, and repeated", move |i, cx| {
        let (e, j) = (e2[(i % ne) as usize], &vals2[(i / ne) as usize]);
        let Ok(want) = enc(cx, j, &b.1) else { return };
        for p in 0..want.len() {
            let pre: Vec<A> = if p == 0 { vec![] } else { vec![Take(p)] };
            for post in [&[e][..], &[Intr, e], &[e, e, e, e], &[e, Zero]] {
                let mut s = pre.clone();
                s.extend_from_slice(post);
                write(cx, j, &want, &s, &b.0, &b.1);
            }
        }
    }));
    // every fault at every byte of larger documents, in both modes
    let mut big: Vec<String> = docs::small_docs(if th { 5 } else { 4 });
    big.extend(docs::rich_docs());
    big.extend(["s: \"日本語😀é\"\nk[2]{é,\"ü ö\"}:\n  ä,ß\n".to_string(), "a: \"unterminated".to_string(), "a:\n   b: 1".to_string()]);
    let big = Arc::new(big);
    let b2 = big.clone();
    fams.push(Fam::new("faults, reading", big.len() as u64, "rich documents and the encodings of all trees of up to 4 nodes (thorough: 5), strict and lenient: cut at every byte or every two bytes of it, interrupted there, failed there with 8 kinds of error, ended there, and read in pieces of 1, 2, 3, 5, 7 bytes", move |i, cx| {
        let x = b2[i as usize].as_bytes();
        for o in [BASE, Opt { delim: '|', indent: 4, strict: false, ..BASE }] {
            let oo = o.o();
            for p in 0..=x.len() {
                read(cx, x, &[Take(p.max(1)), Intr, Intr, Take(1), Intr], &o, &oo);
                let pre: &[A] = if p == 0 { &[] } else { &[Take(p)] };
                for k in KINDS {
                    let mut s = pre.to_vec();
                    s.push(Fail(k));
                    read(cx, x, &s, &o, &oo);
                }
                let mut s = pre.to_vec();
                s.push(Zero);
                read(cx, x, &s, &o, &oo);
                for q in p + 1..x.len().min(p + 12) {
                    let mut s = pre.to_vec();
                    s.push(Take(q - p));
                    s.push(Intr);
                    read(cx, x, &s, &o, &oo);
                }
            }
            for step in [1, 2, 3, 5, 7] {
                read(cx, x, &vec![Take(step); x.len() / step + 1], &o, &oo);
                read(cx, x, &cuts(u64::MAX, x.len().min(64), true), &o, &oo);
            }
        }
    }));
    // every invalid byte at every place
    let b2 = big.clone();
    fams.push(Fam::new("invalid bytes", big.len() as u64, "the same documents with a stray byte (continuation, overlong, surrogate, truncated lead, 0xFF) put at every place or in place of every byte, whole and cut there: an error, never a value", move |i, cx| {
        let x = b2[i as usize].as_bytes();
        let oo = BASE.o();
        let lo = BASE.strict(false);
        let loo = lo.o();
        for p in 0..=x.len() {
            for y in [&b"\x80"[..], b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xfe"] {
                let mut z = x[..p].to_vec();
                z.extend_from_slice(y);
                z.extend_from_slice(&x[p..]);
                read(cx, &z, &[], &BASE, &oo);
                read(cx, &z, &[Take(p + 1), Intr], &lo, &loo);
                if p < x.len() {
                    let mut z = x.to_vec();
                    z.splice(p..p + 1, y.iter().copied());
                    read(cx, &z, &[], &lo, &loo);
                }
            }
            // a text cut in the middle of a character
            read(cx, &x[..p], &[], &BASE, &oo);
        }
    }));
    // documents larger than any buffer
    let sizes: Vec<usize> = vec![1, 2, 3, 5, 7, 31, 32, 33, 63, 64, 65, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537];
    let ns = sizes.len() as u64;
    fams.push(Fam::new("large, reading", ns * 6, "documents of 1 KB to 300 KB with multi-byte characters in pieces of 25 sizes, whole, with an error in the last piece, and ended there", move |i, cx| {
        let rows = [10, 100, 400, 1000, 5000, 12000][(i / ns) as usize];
        let mut x = format!("t[{}]{{a,b}}:\n", rows);
        for r in 0..rows {
            x.push_str(&format!("  {},é日😀{}\n", r, r));
        }
        let st = sizes[(i % ns) as usize];
        let oo = BASE.o();
        let full = vec![Take(st); x.len() / st + 1];
        read(cx, x.as_bytes(), &full, &BASE, &oo);
        let mut f = vec![Take(st); (x.len() - 1) / st];
        f.push(Fail(ErrorKind::Other));
        read(cx, x.as_bytes(), &f, &BASE, &oo);
        *f.last_mut().unwrap() = Zero;
        read(cx, x.as_bytes(), &f, &BASE, &oo);
        *f.last_mut().unwrap() = Intr;
        read(cx, x.as_bytes(), &f, &BASE, &oo);
    }));
    // around powers of two, far beyond any buffer
    let top = if th { 27 } else { 25 };
    fams.push(Fam::new("sizes, reading and writing", (top - 8) * 3 * 3, &format!("documents of 2^9..2^{} bytes (one less, exactly, one more): one long string and a field after it, delivered at once, in pieces of 64 KB and of 1 MB less 1, and written the same way", top), move |i, cx| {
        let n = (1usize << (9 + i / 9)) + (i % 3) as usize - 1;
        let st = [usize::MAX, 65536, (1 << 20) - 1][(i / 3 % 3) as usize];
        let body = "x".repeat(n - "k: \nz: 1".len());
        let t = format!("k: {}\nz: 1", body);
        assert_eq!(t.len(), n);
        let v = J::Obj(vec![("k".into(), J::Str(body)), ("z".into(), int(1))]);
        let script = if st == usize::MAX { vec![] } else { vec![Take(st); n / st + 1] };
        for o in [BASE, BASE.strict(false)] {
            let oo = o.o();
            let mut r = R { b: t.as_bytes(), at: 0, script: &script, k: 0, failed: false, end: None };
            cx.ops += 1;
            cx.evals += 1;
            let got = guarded(|| toon::decode_from_reader::<_, J>(&mut r, &oo).map_err(|e| format!("{}", e)));
            if !matches!(&got, Ok(w) if w.same_ordered(&v)) {
                cx.fail(format!("reading {} bytes, pieces of {}", n, st), &[("what", "a document of this size is not read whole".into()), ("got", show_r(&got).chars().take(100).collect())]);
            }
        }
        write(cx, &v, &t, &script, &BASE, &BASE.o());
    }));

    // writing
    let vals = Arc::new(values());
    let (v, al) = (vals.clone(), alpha.clone());
    let len = if th { 7 } else { 6 };
    let n = words_upto(al.len(), len);
    let nv = v.len() as u64;
    fams.push(Fam::new("scripts, writing", n * nv, &format!("14 values x every sequence of up to {} write results (1, 2, 3 or all bytes, interruption, three errors, nothing written) x 3 entry points", len), move |i, cx| {
        let s: Vec<A> = word_upto(i / nv, al.len(), len).into_iter().map(|k| al[k]).collect();
        let j = &v[(i % nv) as usize];
        let oo = BASE.o();
        let Ok(want) = enc(cx, j, &oo) else { return };
        write(cx, j, &want, &s, &BASE, &oo);
        cx.sample(|| format!("{:?} with writes {}", want, show(&s)));
    }));
    let small: Vec<J> = vec![s("é"), int(-12345), s("a b c d e"), J::Arr(vec![int(1), s("é")]), J::Obj(vec![("a".into(), int(1)), ("b".into(), J::Null)]), space::place(int(1), 7)];
    fams.push(Fam::new("all cuts, writing", small.len() as u64 * per, "6 values whose text has up to 16 bytes x every way of cutting it into writes, with and without an interruption before each, with an error or nothing written after the last", move |i, cx| {
        let j = &small[(i / per) as usize];
        let oo = BASE.o();
        let want = enc(cx, j, &oo).unwrap_or_default();
        let m = i % per;
        if want.len() > 16 || m >= 1 << want.len().saturating_sub(1) {
            cx.skip();
            return;
        }
        for intr in [false, true] {
            let c = cuts(m, want.len(), intr);
            write(cx, j, &want, &c, &BASE, &oo);
            for a in [Fail(ErrorKind::Other), Zero] {
                let mut d = c.clone();
                *d.last_mut().unwrap() = a;
                write(cx, j, &want, &d, &BASE, &oo);
            }
        }
    }));
    for vf in space::families(false) {
        let keep = match vf.name {
            "trees6" => th,
            "strings" | "keys" | "siblings" | "deep" | "lengths" | "fields" | "twins" | "spellings" => true,
            _ => false,
        };
        if !keep {
            continue;
        }
        let g = vf.r#gen.clone();
        fams.push(Fam::new(&format!("faults, writing: {}", vf.name), vf.n, &format!("{}: an error or an empty write at every byte of texts of up to 200 bytes (both ends and the middle of longer ones), short writes of 1, 7, 4096 bytes with interruptions; folding on and off", vf.what), move |i, cx| {
            let j = g(i);
            for o in [BASE, Opt { delim: '|', indent: 3, fold: Some(None), ..BASE }] {
                let oo = o.o();
                let Ok(want) = enc(cx, &j, &oo) else { continue };
                let n = want.len();
                let at: Vec<usize> = if n <= 200 { (0..n).step_by(if n > 40 && i % 4 != 0 { 9 } else { 1 }).collect() } else { vec![0, 1, n / 2, n - 1] };
                for p in at {
                    let pre: &[A] = if p == 0 { &[] } else { &[Take(p)] };
                    for a in [Fail(ErrorKind::Other), Fail(ErrorKind::WouldBlock), Zero] {
                        let mut s = pre.to_vec();
                        s.push(Intr);
                        s.push(a);
                        write(cx, &j, &want, &s, &o, &oo);
                    }
                }
                for st in [1, 7, 4096] {
                    let mut s = Vec::new();
                    for _ in 0..(n / st + 1).min(400) {
                        s.push(Take(st));
                        s.push(Intr);
                    }
                    write(cx, &j, &want, &s, &o, &oo);
                }
            }
        }));
    }
    Spec {
        id: "C14".into(),
        level: "fault_enumeration",
        rule: "state = one document or value; execution = one script of read or write results (short transfers, interruptions, errors, end of file, empty writes, invalid bytes at every place): reading equals decoding the whole text, or is an error exactly when the reader fails or the bytes are not UTF-8; writing delivers exactly the encoder's text, or reports an error with a prefix delivered".into(),
        fams,
        assumptions: vec!["a reader that reports end of file before the end of the text defines the text read".into()],
    }
}
