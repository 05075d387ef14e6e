//! Preemption at every machine instruction: the processor's trap flag stops the first call
//! after each of its instructions; there the process is forked, and in the copy the second
//! call runs to its end on another thread before the first goes on.
use crate::common::*;
use crate::types::Rich;
use mc::run::fnv;
use mc::val::*;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub enum Out {
    T(Result<String, String>),
    J(Result<J, String>),
    R(Result<Rich, String>),
}
impl Out {
    fn s(&self) -> String {
        match self {
            Out::T(r) => shows(r),
            Out::J(r) => show(r),
            Out::R(r) => format!("{:?}", r),
        }
    }
}
pub const CALLS: usize = 14;
pub const NAMES: [&str; CALLS] = [
    "encode a chain",
    "encode a chain, folding at depth 2",
    "encode a chain, folding, pipe, indent 4",
    "encode a table",
    "encode a table, pipe, indent 3",
    "encode a list, tab, indent 1",
    "encode numbers",
    "decode a table",
    "decode a table, wrong length",
    "decode a list leniently, indent 4",
    "decode paths with expansion",
    "decode paths without expansion",
    "decode strings",
    "decode into a type",
];
/// the arguments of a call, made before the instructions are counted
pub enum In {
    E(J, Opt),
    D(&'static str, Opt),
    T(&'static str, Opt),
}
fn ob(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect())
}
pub fn input(k: usize) -> In {
    let b = BASE;
    let chain = || ob(vec![("a", ob(vec![("b", ob(vec![("c", int(1))]))])), ("d", s("x|y"))]);
    let table = || ob(vec![("t", J::Arr(vec![ob(vec![("p", int(1)), ("q", s("x,y"))]), ob(vec![("q", s("z")), ("p", J::Null)])]))]);
    match k {
        0 => In::E(chain(), b),
        1 => In::E(chain(), Opt { fold: Some(Some(2)), ..b }),
        2 => In::E(chain(), Opt { fold: Some(None), delim: '|', indent: 4, ..b }),
        3 => In::E(table(), b),
        4 => In::E(table(), Opt { delim: '|', indent: 3, ..b }),
        5 => In::E(J::Arr(vec![ob(vec![("k", J::Arr(vec![s("a\tb"), s("c")])), ("l", int(2))]), s("-")]), Opt { delim: '\t', indent: 1, ..b }),
        6 => In::E(J::Arr(vec![f(0.5), int(-7), f(1e21), f(1e-7)]), b),
        7 => In::D("t[2]{p,q}:\n  1,\"x,y\"\n  2,z", b),
        8 => In::D("t[3]{p,q}:\n  1,x\n  2,z", b),
        9 => In::D("l[2]:\n    - a: 1\n      b: x\n    - 5", Opt { indent: 4, strict: false, ..b }),
        10 => In::D("a.b: 1\na.c: x", Opt { expand: true, ..b }),
        11 => In::D("a.b: 1\na.c: x", b),
        12 => In::D("[3|]: \"a|b\"|\"\\n\\u0007\"|-1.5e3", Opt { delim: '|', ..b }),
        _ => In::T("a: 5\nb: x\nc[2]:\n  - Unit\n  - New: 3", b),
    }
}
#[inline(never)]
pub fn call(i: &In, o: &toon::Options) -> Out {
    match i {
        In::E(j, _) => Out::T(toon::encode_to_string(j, o).map_err(|e| e.to_string())),
        In::D(t, _) => Out::J(toon::decode_from_str::<J>(t, o).map_err(|e| e.to_string())),
        In::T(t, _) => Out::R(toon::decode_from_str::<Rich>(t, o).map_err(|e| e.to_string())),
    }
}
fn opts(i: &In) -> toon::Options {
    match i {
        In::E(_, o) | In::D(_, o) | In::T(_, o) => o.o(),
    }
}
fn whole(k: usize) -> String {
    let i = input(k);
    let o = opts(&i);
    match guarded(|| Ok(call(&i, &o))) {
        Ok(r) => r.s(),
        Err(e) => e,
    }
}

static PART: AtomicU64 = AtomicU64::new(0);
static PARTS: AtomicU64 = AtomicU64::new(1);
static COUNT: AtomicU64 = AtomicU64::new(0);
static FORKS: AtomicU64 = AtomicU64::new(0);
static BAD: AtomicU64 = AtomicU64::new(0);
static LATE: AtomicU64 = AtomicU64::new(0);
static SECOND: AtomicUsize = AtomicUsize::new(0);
static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
/// in the copy: the point at which it was made, plus one
static AT: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicBool = AtomicBool::new(false);
static mut THREAD: libc::pthread_t = 0;
static mut RESULT: String = String::new();

extern "C" fn second(_: *mut libc::c_void) -> *mut libc::c_void {
    let r = if STOP.load(SeqCst) < u64::MAX {
        unsafe {
            // created inside a handler of that signal
            let mut m: libc::sigset_t = std::mem::zeroed();
            libc::sigaddset(&mut m, libc::SIGTRAP);
            libc::pthread_sigmask(libc::SIG_UNBLOCK, &m, std::ptr::null_mut());
        }
        let k = SECOND.load(SeqCst);
        let i = input(k);
        let o = opts(&i);
        let r = guarded(|| {
            unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
            let r = call(&i, &o);
            unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
            Ok(r)
        });
        match r {
            Ok(r) => r.s(),
            Err(e) => e,
        }
    } else {
        whole(SECOND.load(SeqCst))
    };
    unsafe {
        *(&raw mut RESULT) = r;
    }
    DONE.store(true, SeqCst);
    std::ptr::null_mut()
}
/// Whether the instruction at the address may touch memory that another thread can reach:
/// false only for instructions without a memory operand, and for operands relative to the
/// stack pointer or in thread-local storage. Stopping before such an instruction is the
/// same as stopping before the next one that may.
fn shared(ip: *const u8, g: &[i64; 23]) -> bool {
    let b = |n: usize| unsafe { *ip.add(n) };
    let mut i = 0;
    let mut rex = 0u8;
    loop {
        match b(i) {
            0x64 => return false,
            0x65 | 0x66 | 0x67 | 0xf0 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 => i += 1,
            x @ 0x40..=0x4f => {
                rex = x;
                i += 1;
            }
            _ => break,
        }
    }
    let mut op = b(i) as u32;
    i += 1;
    if op == 0x0f {
        op = 0x0f00 | b(i) as u32;
        i += 1;
        if op == 0x0f38 || op == 0x0f3a {
            i += 1;
        }
    }
    match op {
        // lea, nop, prefetch, endbr
        0x8d | 0x0f1f | 0x0f1e | 0x0f18 | 0x0f0d => return false,
        // push and pop of registers, constants to registers, relative jumps and calls, ret, leave, cdq
        0x50..=0x5f | 0x68 | 0x6a | 0xb0..=0xbf | 0x70..=0x7f | 0x0f80..=0x0f8f | 0xe8 | 0xe9 | 0xeb | 0xc3 | 0xc9 | 0x90..=0x99 | 0xcc => return false,
        // arithmetic on the accumulator, test, push/pop flags, bswap, ud2
        0x04 | 0x05 | 0x0c | 0x0d | 0x14 | 0x15 | 0x1c | 0x1d | 0x24 | 0x25 | 0x2c | 0x2d | 0x34 | 0x35 | 0x3c | 0x3d | 0xa8 | 0xa9 | 0x9c | 0x9d | 0x0fc8..=0x0fcf | 0x0f0b => return false,
        // with a ModRM byte
        0x00..=0x03 | 0x08..=0x0b | 0x10..=0x13 | 0x18..=0x1b | 0x20..=0x23 | 0x28..=0x2b | 0x30..=0x33 | 0x38..=0x3b | 0x63 | 0x69 | 0x6b | 0x80..=0x8b | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xf6 | 0xf7 | 0xfe | 0xff => {}
        0x0f10..=0x0f17 | 0x0f28..=0x0f2f | 0x0f40..=0x0f7f | 0x0f90..=0x0f9f | 0x0fa3..=0x0fa5 | 0x0fab..=0x0faf | 0x0fb0..=0x0fff | 0x0f38 | 0x0f3a => {}
        _ => return true,
    }
    let m = b(i);
    let (md, rm) = (m >> 6, m & 7);
    if md == 3 {
        return false;
    }
    let reg = |n: u8, ext: bool| {
        use libc::*;
        let t = [REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15];
        g[t[(n + if ext { 8 } else { 0 }) as usize] as usize] as usize
    };
    let base = if rm == 4 {
        let sib = b(i + 1);
        if md == 0 && sib & 7 == 5 {
            return true;
        }
        reg(sib & 7, rex & 1 != 0)
    } else if md == 0 && rm == 5 {
        // relative to the instruction pointer: a static, or a constant
        let d = i32::from_le_bytes([b(i + 1), b(i + 2), b(i + 3), b(i + 4)]) as isize;
        let at = (ip as isize + i as isize + 5 + d) as usize;
        // the length of an immediate operand is left out
        return at + 8 >= DATA.load(SeqCst) && at < END.load(SeqCst);
    } else {
        reg(rm, rex & 1 != 0)
    };
    if TWO.load(SeqCst) {
        return base >= DATA.load(SeqCst) && base < END.load(SeqCst);
    }
    // the thread's own stack
    let sp = g[libc::REG_RSP as usize] as usize;
    !(base >= sp && base < STACK_TOP.load(SeqCst))
}
/// two preemptions: stop at accesses to statics only
static TWO: AtomicBool = AtomicBool::new(false);
static DATA: AtomicUsize = AtomicUsize::new(0);
static END: AtomicUsize = AtomicUsize::new(0);
/// where the second call stops, and whether it is there
static STOP: AtomicU64 = AtomicU64::new(u64::MAX);
static STOPPED: AtomicBool = AtomicBool::new(false);
static FIRST_DONE: AtomicBool = AtomicBool::new(false);
static SECOND_COUNT: AtomicU64 = AtomicU64::new(0);
static STACK_TOP: AtomicUsize = AtomicUsize::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
const MOST: u64 = 20_000;
const TF: i64 = 0x100;
fn wait_for(f: &[&AtomicBool]) {
    unsafe {
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        let mut u = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        while !f.iter().any(|f| f.load(SeqCst)) {
            libc::sched_yield();
            libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut u);
            if (u.tv_sec - t.tv_sec) * 1000 + (u.tv_nsec - t.tv_nsec) / 1_000_000 > 100 {
                break;
            }
        }
    }
}
extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    unsafe {
        let c = &mut *(c as *mut libc::ucontext_t);
        let ip = c.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        // inside the C library its locks may be held
        if ip < LO.load(SeqCst) || ip >= HI.load(SeqCst) {
            return;
        }
        if AT.load(SeqCst) > 0 {
            // the second call
            if shared(ip as *const u8, &c.uc_mcontext.gregs) && SECOND_COUNT.fetch_add(1, SeqCst) == STOP.load(SeqCst) {
                c.uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF;
                STOPPED.store(true, SeqCst);
                wait_for(&[&FIRST_DONE]);
            }
            return;
        }
        STEPS.fetch_add(1, SeqCst);
        if !shared(ip as *const u8, &c.uc_mcontext.gregs) {
            return;
        }
        let k = COUNT.fetch_add(1, SeqCst);
        if k % PARTS.load(SeqCst) != PART.load(SeqCst) {
            return;
        }
        let mut stop = if TWO.load(SeqCst) { 0 } else { u64::MAX };
        loop {
            FORKS.fetch_add(1, SeqCst);
            let mut p = libc::fork();
            while p < 0 {
                libc::usleep(10_000);
                p = libc::fork();
            }
            if p == 0 {
                c.uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF;
                libc::alarm(30);
                AT.store(k + 1, SeqCst);
                STOP.store(stop, SeqCst);
                if libc::pthread_create(&raw mut THREAD, std::ptr::null(), second, std::ptr::null_mut()) != 0 {
                    libc::_exit(9);
                }
                // not for ever: the second may wait for a lock of the first; then let both go on
                wait_for(&[&DONE, &STOPPED]);
                return;
            }
            let mut st = 0;
            libc::waitpid(p, &mut st, 0);
            match st {
                0 => {}
                0x700 => {
                    LATE.fetch_add(1, SeqCst);
                }
                0x800 => break,
                st => {
                    BAD.fetch_add(1, SeqCst);
                    if st & 0xff != 0 {
                        let m = b"FAIL crash\n";
                        libc::write(1, m.as_ptr() as *const _, m.len());
                    }
                }
            }
            if stop == u64::MAX || FORKS.load(SeqCst) > MOST || BAD.load(SeqCst) >= 5 || LATE.load(SeqCst) > 20 {
                break;
            }
            stop += 1;
        }
        // a few failures tell enough; a lock makes every point slow
        if BAD.load(SeqCst) >= 5 || FORKS.load(SeqCst) > MOST || LATE.load(SeqCst) > 20 {
            c.uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF;
        }
    }
}
unsafe extern "C" {
    static __executable_start: u8;
    static etext: u8;
    static __data_start: u8;
    static _end: u8;
}
/// results of both calls, from a copy of this process, so that this one stays untouched
fn alone(k: usize) -> String {
    unsafe {
        let mut p = [0; 2];
        libc::pipe(p.as_mut_ptr());
        if libc::fork() == 0 {
            let r = whole(k);
            libc::write(p[1], r.as_ptr() as *const _, r.len());
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut b = vec![0u8; 65536];
        let mut n = 0;
        loop {
            let m = libc::read(p[0], b[n..].as_mut_ptr() as *mut _, b.len() - n);
            if m <= 0 {
                break;
            }
            n += m as usize;
        }
        libc::close(p[0]);
        libc::waitpid(-1, std::ptr::null_mut(), 0);
        String::from_utf8_lossy(&b[..n]).into_owned()
    }
}
/// `check __c17s first second part parts warm`
pub fn child(a: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    unsafe { libc::alarm(300) };
    let n: Vec<u64> = a.iter().map(|x| x.parse().unwrap()).collect();
    let (x, y) = (n[0] as usize, n[1] as usize);
    PART.store(n[2], SeqCst);
    PARTS.store(n[3], SeqCst);
    SECOND.store(y, SeqCst);
    let (wx, wy) = (alone(x), alone(y));
    if n[4] == 1 {
        for k in [x, y, x] {
            whole(k);
        }
    }
    unsafe {
        LO.store(&raw const __executable_start as usize, SeqCst);
        HI.store(&raw const etext as usize, SeqCst);
        DATA.store(&raw const __data_start as usize, SeqCst);
        END.store(&raw const _end as usize, SeqCst);
        TWO.store(n[5] == 1, SeqCst);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    let i = input(x);
    let o = opts(&i);
    STACK_TOP.store(&raw const i as usize, SeqCst);
    let r = guarded(|| {
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
        let r = call(&i, &o);
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
        Ok(r)
    });
    let r = match r {
        Ok(r) => r.s(),
        Err(e) => e,
    };
    let at = AT.load(SeqCst);
    if at == 0 {
        if r != wx {
            println!("FAIL alone {:?}", r);
        }
        println!("END {} {} {} {} {}", STEPS.load(SeqCst), COUNT.load(SeqCst), FORKS.load(SeqCst), LATE.load(SeqCst), fnv(r.as_bytes()));
        return;
    }
    let stopped = STOPPED.load(SeqCst);
    let late = !DONE.load(SeqCst) && !stopped;
    FIRST_DONE.store(true, SeqCst);
    unsafe { libc::pthread_join(THREAD, std::ptr::null_mut()) };
    let t = unsafe { (*(&raw const RESULT)).clone() };
    let mut bad = false;
    for (me, got, want) in [("A", &r, &wx), ("B", &t, &wy)] {
        if got != want {
            bad = true;
            let m = format!("FAIL {} point {} {:?} instead of {:?}\n", me, at - 1, got, want);
            unsafe { libc::write(1, m.as_ptr() as *const _, m.len()) };
        }
    }
    unsafe { libc::_exit(if bad { 1 } else if STOP.load(SeqCst) < u64::MAX && !stopped { 8 } else if late { 7 } else { 0 }) };
}
