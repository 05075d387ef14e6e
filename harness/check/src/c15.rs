//! C15: the command line tool, run as a process for every enumerated input and way of calling it.
use crate::common::*;
use crate::docs;
use mc::run::*;
use mc::space;
use mc::trees::*;
use mc::val::*;
use std::ffi::OsString;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::{Arc, OnceLock};

fn tool() -> &'static str {
    static T: OnceLock<String> = OnceLock::new();
    T.get_or_init(|| {
        let p = format!("{}/target/cli/debug/toon-cli", std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        assert!(std::path::Path::new(&p).exists(), "{} is not built", p);
        p
    })
}

/// how the input reaches the tool
#[derive(Clone, Copy, PartialEq, Debug)]
enum Way {
    Pipe,
    /// a path argument
    Path,
    /// standard input is a regular file
    StdinFile,
    /// two pieces, the second sent after the first was taken
    Cut(usize),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sink {
    Pipe,
    File,
    Full,
    Broken,
}
static STARTING: std::sync::RwLock<()> = std::sync::RwLock::new(());
struct Got {
    code: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
}
impl Got {
    fn show(&self) -> String {
        format!(
            "{}; stdout {:?}; stderr {:?}",
            match self.code {
                Some(c) => format!("status {}", c),
                None => "killed by a signal".into(),
            },
            tag(&String::from_utf8_lossy(&self.out)),
            tag(&String::from_utf8_lossy(&self.err))
        )
    }
}
fn memfile(b: &[u8]) -> std::fs::File {
    let fd = unsafe { libc::memfd_create(c"input".as_ptr(), 0) };
    assert!(fd >= 0);
    let mut f = std::fs::File::from(unsafe { OwnedFd::from_raw_fd(fd) });
    f.write_all(b).unwrap();
    unsafe { libc::lseek(fd, 0, libc::SEEK_SET) };
    f
}
fn waiting(fd: i32) -> usize {
    let mut n: libc::c_int = 0;
    unsafe { libc::ioctl(fd, libc::FIONREAD as _, &mut n) };
    n as usize
}
fn run(args: &[OsString], input: &[u8], way: Way, sink: Sink) -> Got {
    let mut c = Command::new(tool());
    c.env_clear().args(args).stderr(Stdio::piped());
    let keep;
    let mut outfile = None;
    match way {
        Way::Path => {
            keep = memfile(input);
            c.arg(format!("/proc/self/fd/{}", keep.as_raw_fd()));
            c.stdin(Stdio::null());
        }
        Way::StdinFile => {
            c.stdin(Stdio::from(memfile(input)));
        }
        _ => {
            c.stdin(Stdio::piped());
        }
    }
    match sink {
        Sink::Pipe => {
            c.stdout(Stdio::piped());
        }
        Sink::File => {
            let f = memfile(b"");
            c.stdout(f.try_clone().unwrap());
            outfile = Some(f);
        }
        Sink::Full => {
            c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
        }
        Sink::Broken => {
            // no other worker may be starting a process: it would hold a copy of the reading end
            let alone = STARTING.write().unwrap();
            let (r, w) = std::io::pipe().unwrap();
            drop(r);
            drop(alone);
            c.stdout(w);
        }
    }
    let starting = STARTING.read().unwrap();
    let mut ch = c.spawn().expect("the tool starts");
    drop(starting);
    let mut feeder = None;
    if let Some(mut p) = ch.stdin.take() {
        if let Way::Cut(k) = way {
            let _ = p.write_all(&input[..k]);
            while waiting(p.as_raw_fd()) > 0 && ch.try_wait().unwrap().is_none() {
                std::thread::sleep(std::time::Duration::from_micros(50));
            }
            let _ = p.write_all(&input[k..]);
        } else if input.len() < 60_000 {
            let _ = p.write_all(input);
        } else {
            let b = input.to_vec();
            feeder = Some(std::thread::spawn(move || {
                let _ = p.write_all(&b);
            }));
        }
    }
    let o = ch.wait_with_output().unwrap();
    if let Some(f) = feeder {
        f.join().unwrap();
    }
    let mut out = o.stdout;
    if let Some(mut f) = outfile {
        unsafe { libc::lseek(f.as_raw_fd(), 0, libc::SEEK_SET) };
        f.read_to_end(&mut out).unwrap();
    }
    assert!(o.status.code().is_some() || o.status.signal().is_some());
    Got { code: o.status.code(), out, err: o.stderr }
}

/// what the call asks for
#[derive(Clone, Copy, Debug)]
struct Ask {
    decode: bool,
    delim: char,
    pretty: bool,
}
impl Ask {
    fn args(&self) -> Vec<OsString> {
        let mut v: Vec<OsString> = Vec::new();
        if self.decode {
            v.push("--decode".into());
        }
        match self.delim {
            '|' => v.extend(["--delimiter".into(), "pipe".into()]),
            '\t' => v.push("--delimiter=tab".into()),
            _ => {}
        }
        if self.pretty {
            v.push("--pretty".into());
        }
        v
    }
}
/// the library's answer: the exact standard output, or a failure
fn answer(a: &Ask, input: &[u8]) -> Result<String, String> {
    let t = std::str::from_utf8(input).map_err(|e| e.to_string())?;
    let o = Opt { delim: a.delim, ..BASE }.o();
    guarded(|| {
        Ok(if a.decode {
            let v: serde_json::Value = toon::decode_from_str(t, &o).map_err(|e| e.to_string())?;
            if a.pretty { serde_json::to_string_pretty(&v) } else { serde_json::to_string(&v) }.map_err(|e| e.to_string())?
        } else {
            let v: serde_json::Value = serde_json::from_str(t).map_err(|e| e.to_string())?;
            toon::encode_to_string(&v, &o).map_err(|e| e.to_string())?
        } + "\n")
    })
}
fn matches(want: &Result<String, String>, g: &Got) -> bool {
    match want {
        Ok(t) => g.code == Some(0) && g.out == t.as_bytes(),
        Err(_) => matches!(g.code, Some(c) if c != 0) && g.out.is_empty() && !g.err.is_empty(),
    }
}
fn judge(cx: &mut Cx, how: &str, input: &[u8], want: &Result<String, String>, g: &Got) {
    cx.evals += 1;
    cx.outcome(&g.show());
    cx.cat(if want.is_ok() { "conversions that succeed" } else { "conversions that fail" });
    cx.sample(|| format!("toon-cli {} <- {:?}: {}", how, tag(&String::from_utf8_lossy(input)), g.show()));
    if !matches(want, g) {
        let show = match want {
            Ok(t) => format!("status 0; stdout {:?}", tag(t)),
            Err(e) => format!("a failure with a message and no output ({})", e),
        };
        cx.fail(
            format!("{} {:?}", how, tag(&String::from_utf8_lossy(input))),
            &[("call", format!("toon-cli {}", how)), ("input", tag(&String::from_utf8_lossy(input))), ("expected", show), ("got", g.show())],
        );
    }
}
fn go(cx: &mut Cx, a: &Ask, input: &[u8], way: Way, sink: Sink) {
    let args = a.args();
    cx.ops += 1;
    let g = run(&args, input, way, sink);
    let how = format!("{:?} {:?} {:?}", args, way, sink);
    judge(cx, &how, input, &answer(a, input), &g);
}
const WAYS: [Way; 3] = [Way::Pipe, Way::Path, Way::StdinFile];
fn enc_all(cx: &mut Cx, t: &str, i: u64, full: bool) {
    for (k, d) in DELIMS.into_iter().enumerate() {
        if full || k as u64 == i % 3 {
            for (w, way) in WAYS.into_iter().enumerate() {
                if w as u64 == (i / 3 + k as u64) % 3 {
                    go(cx, &Ask { decode: false, delim: d, pretty: i % 2 == 1 }, t.as_bytes(), way, Sink::Pipe);
                }
            }
        }
    }
}
fn dec_all(cx: &mut Cx, t: &str, i: u64, full: bool) {
    for pretty in [false, true] {
        if full || pretty == (i % 2 == 1) {
            let way = WAYS[((i / 2 + pretty as u64) % 3) as usize];
            go(cx, &Ask { decode: true, delim: DELIMS[(i % 3) as usize], pretty }, t.as_bytes(), way, Sink::Pipe);
        }
    }
}

pub const JSON_TOK: [&str; 16] = ["{", "}", "[", "]", ":", ",", "\"a\"", "\"", "1", "-", "0.5", "1e400", "null", " ", "\\u00e9", "x"];
/// the argument alphabet; J and T stand for a JSON and a TOON file
const ARGS: [&str; 21] = [
    "-d", "--decode", "--pretty", "--strict", "--delimiter", "comma", "tab", "pipe", "--delimiter=comma", "--delimiter=tab", "--delimiter=pipe", "--delimiter=semicolon", "--delimiter=", "J", "T", "missing", "-", "--", "--bogus", "-x", "--strict=false",
];
/// the documented command line: Ok((ask, input)) or a usage error
fn parse(args: &[&str]) -> Result<(Ask, Option<String>), ()> {
    let mut a = Ask { decode: false, delim: ',', pretty: false };
    let (mut input, mut strict, mut delim, mut opts) = (None, false, None, true);
    let mut it = args.iter().copied().peekable();
    while let Some(x) = it.next() {
        if opts && x.starts_with('-') && x != "-" {
            match x {
                "--" => opts = false,
                "-d" | "--decode" if !a.decode => a.decode = true,
                "--pretty" if !a.pretty => a.pretty = true,
                "--strict" if !strict => strict = true,
                _ => {
                    let Some(r) = x.strip_prefix("--delimiter") else { return Err(()) };
                    let v = match r.strip_prefix('=') {
                        Some(v) => v,
                        None => it.next().ok_or(())?,
                    };
                    if delim.is_some() {
                        return Err(());
                    }
                    delim = Some(match v {
                        "comma" => ',',
                        "tab" => '\t',
                        "pipe" => '|',
                        _ => return Err(()),
                    });
                }
            }
        } else if input.replace(x.to_string()).is_some() {
            return Err(());
        }
    }
    a.delim = delim.unwrap_or(',');
    Ok((a, input))
}
const J_TEXT: &str = "{\"a\":[{\"x\":1,\"y\":\"p|q\"},{\"x\":2,\"y\":\"r,s\"}],\"b\":{}}";
const T_TEXT: &str = "a[2]{x,y}:\n  1,p|q\n  2,\"r,s\"\nb:";
/// exact comparison of two number tokens
pub fn same_number(a: &str, b: &str) -> bool {
    a == b || (a.parse::<f64>().map(f64::to_bits) == b.parse::<f64>().map(f64::to_bits) && (a.contains(['.', 'e']) || b.contains(['.', 'e'])))
}

pub fn json_bases() -> Vec<String> {
    vec![
        J_TEXT.into(),
        "\u{feff}{}".into(),
        " \n\t{ \"a\" : [ 1 , 2.50 , -0.0, 1e3 ] }\r\n ".into(),
        "{\"a\":1,\"a\":2,\"b\":\"\\ud83d\\ude00\\u0000\\/\"}".into(),
        "[\"\\ud800\"]".into(),
        "{\"z\":1,\"y\":{\"b\":[],\"a\":[{}]},\"x\":[[1,2],[\"t\\tu\"]]}".into(),
        "[1]2".into(),
        "01".into(),
        "{\"$serde_json::private::Number\":\"1\"}".into(),
    ]
}
pub fn prefixes(base: &[String]) -> Vec<String> {
    base.iter().flat_map(|b| b.char_indices().map(|(k, _)| b[..k].to_string()).chain([b.clone()]).collect::<Vec<_>>()).collect()
}

pub fn spec(th: bool) -> Spec {
    let mut fams = Vec::new();
    let n = if th { 5 } else { 4 };
    let tr = Arc::new(Trees::new(vec![int(1), s("x"), J::Null], &["a", "b", "c", "d", "e", "f"], n, true));
    let t = tr.clone();
    fams.push(Fam::new("encode-trees", tr.count_upto(n), &format!("the JSON text of every tree of up to {} nodes x 3 delimiters", n), move |i, cx| enc_all(cx, &t.upto(i, n).json(), i, true)));
    for vf in space::families(th) {
        let full = match vf.name {
            "strings" | "keys" | "numbers" => true,
            "tables" | "siblings" | "nesting" | "lengths" | "fields" | "sizes" | "odd-one" | "twins" | "spellings" => false,
            _ => continue,
        };
        let g = vf.r#gen.clone();
        let n = if vf.name == "tables" || vf.name == "nesting" { vf.n.min(if th { 600_000 } else { 40_000 }) } else { vf.n };
        let name = vf.name;
        fams.push(Fam::new(&format!("encode-{}", vf.name), n, &format!("the JSON text of: {}{}", vf.what, if n < vf.n { format!(" (the first {})", n) } else { String::new() }), move |i, cx| {
            let j = g(i);
            if name == "lengths" && !th && i % 4 != 1 {
                cx.skip();
                return;
            }
            enc_all(cx, &j.json(), i, full);
            if full {
                if let Ok(t) = enc(cx, &j, &Opt { delim: DELIMS[(i % 3) as usize], ..BASE }.o()) {
                    dec_all(cx, &t, i, true);
                }
            }
        }));
    }
    let jl = if th { 4 } else { 3 };
    fams.push(Fam::new("json-words", words_upto(JSON_TOK.len(), jl), &format!("every text of up to {} JSON tokens of 16, well formed or not", jl), move |i, cx| {
        let t: String = word_upto(i, JSON_TOK.len(), jl).into_iter().map(|k| JSON_TOK[k]).collect();
        enc_all(cx, &t, i, false);
    }));
    let cuts = Arc::new(prefixes(&json_bases()));
    let c = cuts.clone();
    fams.push(Fam::new("json-cuts", cuts.len() as u64, "every prefix of JSON texts with each kind of token and spacing", move |i, cx| enc_all(cx, &c[i as usize], i, true)));
    // numbers in JSON text, exactly
    fams.push(Fam::new("json-numbers", NUMBERS.len() as u64, "JSON number texts: the number written equals the number read", move |i, cx| {
        let t = NUMBERS[i as usize];
        cx.ops += 1;
        cx.evals += 1;
        let g = run(&[], t.as_bytes(), Way::Pipe, Sink::Pipe);
        let got = String::from_utf8_lossy(&g.out).trim_end().to_string();
        if g.code != Some(0) || !same_number(t, &got) {
            cx.fail(format!("number {}", t), &[("input", t.into()), ("got", g.show())]);
        }
    }));
    // decoding
    let bases: Arc<Vec<String>> = Arc::new(docs::small_docs(if th { 5 } else { 4 }));
    let b = bases.clone();
    fams.push(Fam::new("decode-documents", b.len() as u64, "the encodings of all trees of up to 4 nodes and feature-rich documents, compact and pretty", move |i, cx| dec_all(cx, &b[i as usize], i, true)));
    for d in docs::families(false) {
        let lim = match d.name.as_str() {
            "lines3" => 400_000,
            "counts" => 2_000,
            "words" => 8_421,
            "tokens" => 8_421 * 14,
            "indents" => 4_000,
            "periodic" => 20_000,
            _ => continue,
        };
        let lim = if th { lim * 8 } else { lim };
        let g = d.r#gen.clone();
        let n = d.n.min(lim);
        fams.push(Fam::new(&format!("decode-{}", d.name), n, &format!("the first {} of: {}", n, d.what), move |i, cx| match g(i) {
            Some((t, 2)) => dec_all(cx, &t, i, false),
            _ => cx.skip(),
        }));
    }
    // bytes that are not UTF-8
    let rich = docs::rich_docs();
    let pick: Arc<Vec<String>> = Arc::new(vec![J_TEXT.to_string(), T_TEXT.to_string(), rich.iter().max_by_key(|d| d.len()).unwrap().clone()]);
    let badb: [&[u8]; 7] = [b"\xff", b"\x80", b"\xc3", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf0\x9f\x98"];
    let offs: Vec<(usize, usize)> = pick.iter().enumerate().flat_map(|(k, d)| (0..=d.len()).map(move |p| (k, p))).collect();
    let p2 = pick.clone();
    fams.push(Fam::new("invalid-utf8", (offs.len() * badb.len() * 2) as u64, "each kind of invalid UTF-8 sequence inserted at every byte of JSON and TOON texts, encoding and decoding", move |i, cx| {
        let (k, p) = offs[i as usize / 2 / badb.len()];
        let mut b = p2[k].as_bytes().to_vec();
        b.splice(p..p, badb[i as usize / 2 % badb.len()].iter().copied());
        go(cx, &Ask { decode: i % 2 == 0, delim: ',', pretty: false }, &b, WAYS[(i / 2 % 3) as usize], Sink::Pipe);
    }));
    // input arriving in pieces
    let p2 = pick.clone();
    let offs: Vec<(usize, usize)> = pick.iter().enumerate().flat_map(|(k, d)| (0..=d.len()).map(move |p| (k, p))).collect();
    fams.push(Fam::new("pieces", offs.len() as u64 * 2, "standard input delivered in two pieces, cut at every byte, the second sent only after the first was taken", move |i, cx| {
        let (k, p) = offs[i as usize / 2];
        go(cx, &Ask { decode: i % 2 == 0, delim: '|', pretty: true }, p2[k].as_bytes(), Way::Cut(p), Sink::Pipe);
    }));
    // outputs
    let p2 = pick.clone();
    fams.push(Fam::new("sinks", 3 * 2 * 4 * 2, "output to a pipe, a file, a full device and a pipe nobody reads; the last two must not look like a success", move |i, cx| {
        let sink = [Sink::Pipe, Sink::File, Sink::Full, Sink::Broken][(i % 4) as usize];
        let a = Ask { decode: i / 4 % 2 == 0, delim: ',', pretty: i / 8 % 2 == 0 };
        let t = &p2[(i / 16) as usize];
        let want = answer(&a, t.as_bytes());
        if want.is_ok() && matches!(sink, Sink::Full | Sink::Broken) {
            cx.ops += 1;
            let g = run(&a.args(), t.as_bytes(), Way::Pipe, sink);
            judge(cx, &format!("{:?} {:?}", a.args(), sink), t.as_bytes(), &Err("the output cannot be written".into()), &g);
        } else {
            go(cx, &a, t.as_bytes(), Way::Pipe, sink);
        }
    }));
    // big inputs
    let sizes: &[usize] = &[1000, 4000, 8191, 8192, 8193, 30_000, 65_535, 65_536, 65_537, 131_072, 1_000_000, 5_000_000];
    fams.push(Fam::new("big", sizes.len() as u64 * 8, "inputs of 1 kB to 5 MB around buffer and pipe sizes, ASCII and multi-byte, encoding and decoding", move |i, cx| {
        let n = sizes[(i / 8) as usize];
        let unit = if i % 2 == 0 { "v " } else { "é😀" };
        let body = unit.repeat(n / unit.len());
        let json = format!("{{\"k\":\"{}x\",\"l\":[{}1]}}", body, "1,".repeat(n.min(200_000) / 2));
        let decode = i / 2 % 2 == 0;
        let t = if decode { enc(cx, &serde_json::from_str::<serde_json::Value>(&json).unwrap(), &BASE.o()).unwrap() } else { json };
        go(cx, &Ask { decode, delim: ',', pretty: true }, t.as_bytes(), if i / 4 % 2 == 0 { Way::Pipe } else { Way::Path }, Sink::Pipe);
    }));
    // nesting at and beyond the limits of the readers
    let depths = [1usize, 16, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 1000, 20_000];
    fams.push(Fam::new("deep", depths.len() as u64 * 6, "JSON and TOON nested 1 to 20000 deep", move |i, cx| {
        let n = depths[(i / 6) as usize];
        let (decode, t) = match i % 6 {
            0 => (false, format!("{}{}", "[".repeat(n), "]".repeat(n))),
            1 => (false, format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n))),
            2 => (false, "[".repeat(n)),
            // the text of a chain grows with the square of its depth
            3 => (true, (0..n.min(2000)).map(|k| format!("{}a:", "  ".repeat(k))).collect::<Vec<_>>().join("\n")),
            4 => (true, format!("[1]:\n  {}1", "- [1]: ".repeat(n))),
            _ => (true, (0..n.min(2000)).map(|k| format!("{}- a[1]:", "    ".repeat(k))).fold("[1]:".to_string(), |a, b| format!("{}\n  {}", a, b))),
        };
        go(cx, &Ask { decode, delim: ',', pretty: false }, t.as_bytes(), Way::Pipe, Sink::Pipe);
    }));
    // command lines
    let al = if th { 4 } else { 3 };
    fams.push(Fam::new("command-lines", words_upto(ARGS.len(), al) * 2, &format!("every command line of up to {} arguments of 21, with JSON and with TOON on standard input", al), move |i, cx| {
        let w: Vec<&str> = word_upto(i / 2, ARGS.len(), al).into_iter().map(|k| ARGS[k]).collect();
        let stdin = if i % 2 == 0 { J_TEXT } else { T_TEXT };
        let (fj, ft) = (memfile(J_TEXT.as_bytes()), memfile(T_TEXT.as_bytes()));
        let args: Vec<OsString> = w
            .iter()
            .map(|x| match *x {
                "J" => format!("/proc/self/fd/{}", fj.as_raw_fd()).into(),
                "T" => format!("/proc/self/fd/{}", ft.as_raw_fd()).into(),
                "missing" => "/nonexistent/input.json".into(),
                x => x.into(),
            })
            .collect();
        cx.ops += 1;
        let g = run(&args, stdin.as_bytes(), Way::Pipe, Sink::Pipe);
        let want = match parse(&w) {
            Err(()) => Err("usage error".to_string()),
            Ok((a, None)) => answer(&a, stdin.as_bytes()),
            Ok((a, Some(p))) => match p.as_str() {
                "J" => answer(&a, J_TEXT.as_bytes()),
                "T" => answer(&a, T_TEXT.as_bytes()),
                _ => Err("no such file".to_string()),
            },
        };
        judge(cx, &format!("{:?}", w), stdin.as_bytes(), &want, &g);
    }));
    // odd paths
    let names: Vec<Vec<u8>> = [&b"plain.json"[..], b"with space", b"-d", b"--pretty", b"\xc3\xa9.json", b"\xff\xfe", b"new\nline", b"=", b"comma", b"dir", b"gone", b"loop", b"empty"].iter().map(|x| x.to_vec()).collect();
    fams.push(
        Fam::new("paths", names.len() as u64 * 2, "file names with spaces, dashes, invalid UTF-8; a directory, a missing file, a dangling link, an empty file", move |i, cx| {
            let dir = std::path::PathBuf::from(format!("{}/target/scratch-{}", std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()), std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let n = &names[(i / 2) as usize];
            let p = dir.join(OsString::from_vec(n.clone()));
            let a = Ask { decode: i % 2 == 1, delim: ',', pretty: false };
            let t = if a.decode { T_TEXT } else { J_TEXT };
            let want = match n.as_slice() {
                b"dir" => {
                    std::fs::create_dir_all(&p).unwrap();
                    Err("a directory".to_string())
                }
                b"gone" => Err("no file".to_string()),
                b"loop" => {
                    std::os::unix::fs::symlink("loop", &p).unwrap();
                    Err("a link to itself".to_string())
                }
                b"empty" => {
                    std::fs::write(&p, "").unwrap();
                    answer(&a, b"")
                }
                _ => {
                    std::fs::write(&p, t).unwrap();
                    answer(&a, t.as_bytes())
                }
            };
            let mut args = a.args();
            args.push("--".into());
            args.push(p.clone().into_os_string());
            cx.ops += 1;
            let g = run(&args, b"[9]", Way::Pipe, Sink::Pipe);
            judge(cx, &format!("path {:?}", String::from_utf8_lossy(n)), t.as_bytes(), &want, &g);
            std::fs::remove_dir_all(&dir).unwrap();
        })
        .serial(),
    );
    Spec {
        id: "C15".into(),
        level: "model_checking",
        rule: "state = one run of the tool: its arguments, its input (text, how it arrives) and where its output goes; the run succeeds with exactly the library's text and a newline on standard output, or fails with a non-zero status, a message on standard error and an empty standard output, as the library's answer for the same input says".into(),
        fams,
        assumptions: vec!["the library itself is decided by the other properties".into(), "JSON texts are read by serde_json in the tool and in the oracle".into()],
    }
}
pub const NUMBERS: [&str; 30] = [
    "0", "1", "-1", "0.1", "0.5", "1.5", "123456789.125", "9007199254740991", "9007199254740993", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1e21", "1e22", "1e23", "5e-324", "2.2250738585072014e-308",
    "1.7976931348623157e308", "0.30000000000000004", "1.0000000000000002", "4.35", "3.141592653589793", "0.000001234", "123456789012345680000", "1.1e-7", "6.02214076e23", "1.602176634e-19", "2.718281828459045", "100.25", "-0.001",
];
