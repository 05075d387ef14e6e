//! Exhaustive driver: a supervisor process starts a worker process that walks every case
//! of every family on all cores; in-flight case numbers live in a shared mapping, so a
//! crash, abort, memory blow-up or hang of the code under test is pinned to its case.
use crate::val::jstr;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Fam {
    pub name: String,
    pub n: u64,
    /// what one state of this family is (for the evidence)
    pub what: String,
    pub run: Box<dyn Fn(u64, &mut Cx) + Sync + Send>,
    /// run on one thread only
    pub serial: bool,
}
impl Fam {
    pub fn new(name: &str, n: u64, what: &str, run: impl Fn(u64, &mut Cx) + Sync + Send + 'static) -> Fam {
        Fam { name: name.into(), n, what: what.into(), run: Box::new(run), serial: false }
    }
    pub fn serial(mut self) -> Fam {
        self.serial = true;
        self
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub fam: String,
    pub idx: u64,
    /// stable identification of input, options and observation
    pub sig: String,
    pub detail: BTreeMap<String, String>,
}

#[derive(Default)]
pub struct Cx {
    /// observations of the implementation compared with the oracle
    pub evals: u64,
    /// calls into the implementation
    pub ops: u64,
    pub cats: BTreeMap<&'static str, u64>,
    pub viols: Vec<Viol>,
    pub nviol: u64,
    pub outcomes: HashSet<u64>,
    pub outcomes_capped: bool,
    /// cases walked
    pub states: u64,
    /// case numbers that denote no state of the space
    pub skipped: u64,
    /// actual cases of the run, written out
    pub samples: Vec<String>,
    want_sample: bool,
    fam: String,
    idx: u64,
}
const OUTCOME_CAP: usize = 400_000;
impl Cx {
    pub fn cat(&mut self, c: &'static str) {
        *self.cats.entry(c).or_insert(0) += 1;
    }
    /// the current case number denotes no state
    pub fn skip(&mut self) {
        self.states -= 1;
        self.skipped += 1;
    }
    /// write out the current case (kept for two cases of each family)
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            let s = format!("{}: {}", self.fam, f());
            self.samples.push(s.chars().take(400).collect());
        }
    }
    /// note a distinct observed outcome
    pub fn outcome(&mut self, s: &str) {
        if self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(fnv(s.as_bytes()));
        } else {
            self.outcomes_capped = true;
        }
    }
    pub fn fail(&mut self, sig: String, detail: &[(&str, String)]) {
        self.nviol += 1;
        if self.viols.len() < 400 {
            self.viols.push(Viol {
                fam: self.fam.clone(),
                idx: self.idx,
                sig,
                detail: detail.iter().map(|(a, b)| (a.to_string(), b.clone())).collect(),
            });
        }
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &c in b {
        h ^= c as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub struct Spec {
    pub id: String,
    pub level: &'static str,
    pub rule: String,
    pub fams: Vec<Fam>,
    pub assumptions: Vec<String>,
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16)
}

const SLOTS: usize = 64;
struct Shared {
    ptr: *mut u64,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
impl Shared {
    fn open(path: &str, create: bool) -> Shared {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(path).unwrap();
        if create {
            f.set_len((SLOTS * 24) as u64).unwrap();
        }
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOTS * 24, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Shared { ptr: p as *mut u64 }
    }
    fn slot(&self, t: usize) -> (&AtomicU64, &AtomicU64, &AtomicU64) {
        unsafe {
            (
                &*(self.ptr.add(t * 3) as *const AtomicU64),
                &*(self.ptr.add(t * 3 + 1) as *const AtomicU64),
                &*(self.ptr.add(t * 3 + 2) as *const AtomicU64),
            )
        }
    }
}

struct Known {
    sigs: BTreeMap<String, String>,
}
fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
/// known-findings.txt: lines `finding: property=<id> sig=<signature> :: <what fails>`
fn load_known(id: &str) -> Known {
    let mut sigs = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())) {
        let pre = format!("finding: property={} sig=", id);
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&pre) {
                if let Some((sig, what)) = r.split_once(" :: ") {
                    sigs.insert(sig.to_string(), what.to_string());
                }
            }
        }
    }
    Known { sigs }
}

pub struct Args {
    pub id: String,
    pub tier: String,
    child: Option<String>,
    case: Option<(String, u64)>,
    replay: Option<String>,
    only: Option<String>,
}

/// check <ID> [quick|thorough] [--replay FILE] [--case fam:idx] [--only famprefix]
pub fn parse_args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    let mut r = Args { id: String::new(), tier: "quick".into(), child: None, case: None, replay: None, only: None };
    let mut i = 1;
    let mut pos = 0;
    while i < a.len() {
        match a[i].as_str() {
            "--child" => {
                r.child = Some(a[i + 1].clone());
                i += 1;
            }
            "--case" => {
                let (f, n) = a[i + 1].rsplit_once(':').expect("fam:idx");
                r.case = Some((f.into(), n.parse().unwrap()));
                i += 1;
            }
            "--replay" => {
                r.replay = Some(a[i + 1].clone());
                i += 1;
            }
            "--only" => {
                r.only = Some(a[i + 1].clone());
                i += 1;
            }
            x => {
                if pos == 0 {
                    r.id = x.into()
                } else {
                    r.tier = x.into()
                }
                pos += 1;
            }
        }
        i += 1;
    }
    r
}

pub fn main_with(args: Args, make: impl Fn(&str, &str) -> Option<Spec>) -> ! {
    let Some(mut spec) = make(&args.id, &args.tier) else {
        eprintln!("unknown property {}", args.id);
        std::process::exit(2)
    };
    if let Some(o) = &args.only {
        spec.fams.retain(|f| f.name.starts_with(o.as_str()));
    }
    if let Some(p) = &args.replay {
        let t = std::fs::read_to_string(p).expect("replay file");
        let get = |k: &str| -> String {
            let pat = format!("\"{}\": ", k);
            let i = t.find(&pat).expect("replay field") + pat.len();
            t[i..].lines().next().unwrap().trim_end_matches(',').trim_matches('"').to_string()
        };
        let tier = get("tier");
        let spec = make(&args.id, &tier).unwrap();
        one_case(&spec, &get("family"), get("index").parse().unwrap());
    }
    if let Some((f, i)) = &args.case {
        one_case(&spec, f, *i);
    }
    if let Some(shared) = &args.child {
        child(&spec, shared, &args);
    }
    supervise(&spec, &args)
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
}

fn run_one(f: &Fam, idx: u64, cx: &mut Cx) {
    if cx.fam != f.name {
        cx.fam = f.name.clone();
    }
    cx.idx = idx;
    cx.states += 1;
    cx.want_sample = idx == f.n / 3 || idx == f.n - 1;
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| (f.run)(idx, cx))) {
        let m = panic_text(e);
        cx.fail(format!("panic {}:{} {}", f.name, idx, m), &[("panic", m)]);
    }
}

fn one_case(spec: &Spec, fam: &str, idx: u64) -> ! {
    let f = spec.fams.iter().find(|f| f.name == fam).expect("family");
    let mut cx = Cx::default();
    let h = std::thread::scope(|s| {
        std::thread::Builder::new()
            .spawn_scoped(s, || {
                run_one(f, idx, &mut cx);
            })
            .unwrap()
            .join()
    });
    h.unwrap();
    println!("evaluations {}", cx.evals);
    for v in &cx.viols {
        println!("sig: {}", v.sig);
        for (k, x) in &v.detail {
            println!("  {}: {}", k, x);
        }
    }
    if cx.nviol > 0 {
        println!("{} failing comparison(s) in this case", cx.nviol);
        std::process::exit(1)
    }
    println!("case passes");
    std::process::exit(0)
}

fn child(spec: &Spec, shared: &str, _args: &Args) -> ! {
    quiet_panics();
    let sh = Shared::open(shared, false);
    let nt = threads();
    let known = load_known(&spec.id);
    let tot: Mutex<Cx> = Mutex::new(Cx::default());
    let mut fam_lines = Vec::new();
    let mut known_seen: BTreeSet<String> = BTreeSet::new();
    for (fi, f) in spec.fams.iter().enumerate() {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let chunk = (f.n / (nt as u64 * 64)).clamp(1, 4096);
        let workers = if f.serial { 1 } else { nt };
        let (before, sbefore) = {
            let g = tot.lock().unwrap();
            (g.evals, g.states)
        };
        std::thread::scope(|s| {
            for t in 0..workers {
                let (next, sh, tot) = (&next, &sh, &tot);
                s.spawn(move || {
                    let mut cx = Cx::default();
                    let (sf, si, sc) = sh.slot(t);
                    loop {
                        let st = next.fetch_add(chunk, Ordering::Relaxed);
                        if st >= f.n {
                            break;
                        }
                        for i in st..(st + chunk).min(f.n) {
                            sf.store(fi as u64 + 1, Ordering::Relaxed);
                            si.store(i, Ordering::Relaxed);
                            sc.fetch_add(1, Ordering::Relaxed);
                            run_one(f, i, &mut cx);
                        }
                    }
                    sf.store(0, Ordering::Relaxed);
                    let mut g = tot.lock().unwrap();
                    g.evals += cx.evals;
                    g.ops += cx.ops;
                    g.states += cx.states;
                    g.skipped += cx.skipped;
                    g.samples.extend(cx.samples);
                    for (k, v) in cx.cats {
                        *g.cats.entry(k).or_insert(0) += v;
                    }
                    g.nviol += cx.nviol;
                    g.viols.extend(cx.viols);
                    g.outcomes_capped |= cx.outcomes_capped;
                    for o in cx.outcomes {
                        if g.outcomes.len() < 4_000_000 {
                            g.outcomes.insert(o);
                        }
                    }
                });
            }
        });
        let (ev, stn) = {
            let g = tot.lock().unwrap();
            (g.evals - before, g.states - sbefore)
        };
        fam_lines.push(format!(
            "{{\"family\":{},\"states\":{},\"executions\":{},\"what\":{},\"seconds\":{:.2}}}",
            jstr(&f.name),
            stn,
            ev,
            jstr(&f.what),
            t0.elapsed().as_secs_f64()
        ));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("[{}] {} states {} execs {} {:.2}s viol {}", spec.id, f.name, stn, ev, t0.elapsed().as_secs_f64(), tot.lock().unwrap().nviol);
        }
    }
    let g = tot.into_inner().unwrap();
    let mut out = String::new();
    let mut unknown = 0u64;
    let mut stored_known = 0u64;
    let mut viols = g.viols.clone();
    viols.sort_by(|a, b| (a.detail.values().map(|s| s.len()).sum::<usize>(), &a.sig).cmp(&(b.detail.values().map(|s| s.len()).sum::<usize>(), &b.sig)));
    let mut seen = BTreeSet::new();
    for v in &viols {
        if let Some(w) = known.sigs.get(&v.sig) {
            known_seen.insert(format!("{} :: {}", v.sig, w));
            stored_known += 1;
            continue;
        }
        unknown += 1;
        if seen.len() < 12 && seen.insert(v.sig.clone()) {
            out.push_str(&format!("V\t{}\t{}\t{}", v.fam, v.idx, jstr(&v.sig)));
            for (k, x) in &v.detail {
                out.push_str(&format!("\t{}={}", k, jstr(x)));
            }
            out.push('\n');
        }
    }
    // violations beyond the per-thread cap: unlisted ones must not be masked
    if unknown == 0 && g.nviol > stored_known {
        out.push_str("V\t(overflow)\t0\t\"more violations than could be stored\"\n");
    }
    for k in known_seen {
        out.push_str(&format!("K\t{}\n", k));
    }
    out.push_str(&format!("N\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n", g.evals, g.nviol, g.outcomes.len(), g.outcomes_capped, g.ops, g.states, g.skipped));
    let mut samples = g.samples.clone();
    samples.sort();
    for s in samples.iter().take(40) {
        out.push_str(&format!("S\t{}\n", jstr(s)));
    }
    let cats: Vec<String> = g.cats.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    out.push_str(&format!("C\t{{{}}}\n", cats.join(",")));
    for l in fam_lines {
        out.push_str(&format!("F\t{}\n", l));
    }
    std::fs::write(format!("{}.out", shared), out).unwrap();
    std::process::exit(0)
}

fn supervise(spec: &Spec, args: &Args) -> ! {
    let t0 = Instant::now();
    let vd = verif_dir();
    let rundir = format!("{}/target/run", vd);
    std::fs::create_dir_all(&rundir).unwrap();
    let shared = format!("{}/{}.{}", rundir, spec.id, std::process::id());
    let sh = Shared::open(&shared, true);
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.arg(&spec.id).arg(&args.tier).arg("--child").arg(&shared);
    if let Some(o) = &args.only {
        cmd.arg("--only").arg(o);
    }
    unsafe {
        use std::os::unix::process::CommandExt;
        cmd.pre_exec(|| {
            let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    cmd.stderr(if std::env::var("MC_VERBOSE").is_ok() { std::process::Stdio::inherit() } else { std::process::Stdio::null() });
    let mut ch = cmd.spawn().expect("spawn worker");
    let hang_after = Duration::from_secs(40);
    let mut last: Vec<(u64, Instant)> = (0..SLOTS).map(|_| (0, Instant::now())).collect();
    let mut status = None;
    let mut hung: Option<(u64, u64)> = None;
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            status = Some(s);
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        for t in 0..SLOTS {
            let (f, i, c) = sh.slot(t);
            let c = c.load(Ordering::Relaxed);
            if c != last[t].0 || f.load(Ordering::Relaxed) == 0 {
                last[t] = (c, Instant::now());
            } else if last[t].1.elapsed() > hang_after {
                hung = Some((f.load(Ordering::Relaxed), i.load(Ordering::Relaxed)));
            }
        }
        if hung.is_some() {
            let _ = ch.kill();
            let _ = ch.wait();
            break;
        }
    }
    let mut crash: Vec<(String, u64, String)> = Vec::new();
    if let Some((f, i)) = hung {
        crash.push((spec.fams[f as usize - 1].name.clone(), i, format!("no result within {} s", hang_after.as_secs())));
    } else if !status.unwrap().success() {
        // find which in-flight case kills a process by itself
        let what = format!("worker process ended abnormally: {}", status.unwrap());
        let mut inflight = Vec::new();
        for t in 0..SLOTS {
            let (f, i, _) = sh.slot(t);
            let f = f.load(Ordering::Relaxed);
            if f > 0 && f as usize <= spec.fams.len() {
                inflight.push((spec.fams[f as usize - 1].name.clone(), i.load(Ordering::Relaxed)));
            }
        }
        for (f, i) in &inflight {
            let r = std::process::Command::new(std::env::current_exe().unwrap())
                .args([&spec.id, &args.tier, "--case", &format!("{}:{}", f, i)])
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
                .unwrap();
            if r.code().is_none() || (r.code() != Some(0) && r.code() != Some(1)) {
                crash.push((f.clone(), *i, format!("process ended abnormally: {}", r)));
            }
        }
        if crash.is_empty() {
            for (f, i) in inflight {
                crash.push((f, i, what.clone()));
            }
        }
        if crash.is_empty() {
            crash.push(("(unknown)".into(), 0, what));
        }
    }
    let out = std::fs::read_to_string(format!("{}.out", shared)).unwrap_or_default();
    let _ = std::fs::remove_file(&shared);
    let _ = std::fs::remove_file(format!("{}.out", shared));
    let mut nv = 0u64;
    let mut lines = Vec::new();
    let rp = format!("{}/evidence/replay", vd);
    std::fs::create_dir_all(&rp).unwrap();
    let emit = |fam: &str, idx: u64, sig: &str, detail: &[(String, String)], k: usize| -> String {
        let path = format!("{}/{}-{}.json", rp, spec.id, k);
        let mut f = std::fs::File::create(&path).unwrap();
        let mut body = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"family\": {},\n \"index\": {},\n \"rerun\": {},\n \"signature\": {}",
            jstr(&spec.id),
            jstr(&args.tier),
            jstr(fam),
            idx,
            jstr(&format!("./check.sh {} --replay {}", spec.id, path)),
            sig
        );
        for (a, b) in detail {
            body.push_str(&format!(",\n {}: {}", jstr(a), b));
        }
        body.push_str("\n}\n");
        f.write_all(body.as_bytes()).unwrap();
        format!("VIOLATION property={} replay={}", spec.id, path)
    };
    let (mut evals, mut ops, mut nviol, mut outcomes, mut states, mut skipped, mut capped) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, false);
    let mut samples: Vec<String> = Vec::new();
    let mut cats = "{}".to_string();
    let mut fams = Vec::new();
    let mut known = Vec::new();
    for l in out.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        match p[0] {
            "V" => {
                let d: Vec<(String, String)> = p[4..].iter().filter_map(|x| x.split_once('=')).map(|(a, b)| (a.into(), b.into())).collect();
                lines.push(emit(p[1], p[2].parse().unwrap(), p[3], &d, lines.len()));
                if lines.len() <= 4 {
                    for (a, b) in &d {
                        println!("  {}: {}", a, b);
                    }
                }
                nv += 1;
            }
            "K" => known.push(p[1..].join("\t")),
            "N" => {
                evals = p[1].parse().unwrap();
                nviol = p[2].parse().unwrap();
                outcomes = p[3].parse().unwrap();
                capped = p[4] == "true";
                ops = p[5].parse().unwrap();
                states = p[6].parse().unwrap();
                skipped = p[7].parse().unwrap();
            }
            "S" => samples.push(p[1..].join("\t")),
            "C" => cats = p[1].to_string(),
            "F" => fams.push(p[1].to_string()),
            _ => {}
        }
    }
    for (f, i, w) in &crash {
        lines.push(emit(f, *i, &jstr(&format!("crash {}:{}", f, i)), &[("crash".into(), jstr(w))], lines.len()));
        nv += 1;
    }
    for k in &known {
        let what = k.split_once(" :: ").map(|x| x.1).unwrap_or(k);
        println!("KNOWN-FINDING: property={} {}", spec.id, what);
    }
    for l in &lines {
        println!("{}", l);
    }
    let complete = crash.is_empty() && states + skipped == spec.fams.iter().map(|f| f.n).sum::<u64>();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let wall = t0.elapsed().as_secs_f64();
    let asm: Vec<String> = spec.assumptions.iter().map(|s| jstr(s)).collect();
    let (st, ev_key) = (states, evals);
    let cov = if spec.level == "fault_enumeration" || spec.level == "exploration" {
        format!(
            "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"states\": {}",
            ev_key, outcomes, jstr(&spec.rule), st
        )
    } else {
        format!(
            "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"rule\": {}, \"distinct_outcomes\": {}",
            st, ops, ev_key, jstr(&spec.rule), outcomes
        )
    };
    let ev = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": {},\n\"coverage\": {{{}, \"exhaustive\": {}, \"distinct_outcomes_capped\": {}, \"outcome_classes\": {}, \"families\": [{}], \"samples\": [{}]}},\n\"assumptions\": [{}],\n\"wall_s\": {:.2},\n\"violations\": {},\n\"failing_comparisons\": {},\n\"known_findings_seen\": {}\n}}\n",
        jstr(&spec.id), jstr(&args.tier), seed, jstr(spec.level), cov, complete, capped, cats, fams.join(",\n"), samples.join(","), asm.join(","), wall, nv, nviol, known.len()
    );
    std::fs::create_dir_all(format!("{}/evidence", vd)).unwrap();
    std::fs::write(format!("{}/evidence/{}.json", vd, spec.id), ev).unwrap();
    println!(
        "{}: {} states, {} executions compared, {} violation(s), {:.1}s",
        spec.id, st, evals, nv, wall
    );
    std::process::exit(if nv > 0 { 1 } else { 0 })
}
