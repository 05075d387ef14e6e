//! Controlled scheduler for two threads. Preemption points: every allocation, and every
//! call from the library into the caller's code (serialize, deserialize, read, write).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy)]
struct Here {
    sched: *const Sched,
    me: usize,
    /// counting only
    count: *const Cell<u64>,
}
thread_local! {
    static HERE: Cell<Here> = const { Cell::new(Here { sched: null(), me: 0, count: null() }) };
}
pub struct Hook;
unsafe impl GlobalAlloc for Hook {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static HOOK: Hook = Hook;

/// a preemption point
#[inline]
pub fn point() {
    let h = HERE.get();
    if !h.sched.is_null() {
        unsafe { (*h.sched).point(h.me) }
    } else if !h.count.is_null() {
        unsafe { (*h.count).set((*h.count).get() + 1) }
    }
}
/// the number of preemption points of a piece of work
pub fn points(f: impl FnOnce()) -> u64 {
    let c = Cell::new(0);
    HERE.set(Here { sched: null(), me: 0, count: &c });
    f();
    HERE.set(Here { sched: null(), me: 0, count: null() });
    c.get()
}

struct St {
    turn: usize,
    /// points the running thread may still pass
    left: u64,
    plan: [(usize, u64); 4],
    step: usize,
    done: [bool; 2],
    free: bool,
}
pub struct Sched {
    st: Mutex<St>,
    cv: Condvar,
}
/// schedules in which the second thread could not run because the first holds a lock
pub static BLOCKED: AtomicU64 = AtomicU64::new(0);

impl Sched {
    pub fn new(plan: [(usize, u64); 4]) -> Sched {
        Sched { st: Mutex::new(St { turn: plan[0].0, left: plan[0].1, plan, step: 0, done: [false; 2], free: false }), cv: Condvar::new() }
    }
    fn advance(&self, s: &mut St) {
        loop {
            s.step += 1;
            if s.step >= s.plan.len() {
                s.turn = if s.done[0] { 1 } else { 0 };
                s.left = u64::MAX;
                break;
            }
            let (t, q) = s.plan[s.step];
            if !s.done[t] {
                s.turn = t;
                s.left = q;
                break;
            }
        }
        self.cv.notify_all();
    }
    fn wait<'a>(&self, me: usize, mut s: std::sync::MutexGuard<'a, St>) {
        while !s.free && s.turn != me {
            let before = (s.step, s.left);
            let (g, t) = self.cv.wait_timeout(s, Duration::from_millis(50)).unwrap();
            s = g;
            if t.timed_out() && !s.free && s.turn != me && before == (s.step, s.left) {
                // the running thread waits for something this thread holds
                BLOCKED.fetch_add(1, Ordering::Relaxed);
                s.free = true;
                self.cv.notify_all();
            }
        }
    }
    fn point(&self, me: usize) {
        let mut s = self.st.lock().unwrap();
        if s.free || s.turn != me {
            return self.wait(me, s);
        }
        if s.left > 0 {
            s.left -= 1;
            return;
        }
        self.advance(&mut s);
        self.wait(me, s)
    }
    fn enter(&self, me: usize) {
        let s = self.st.lock().unwrap();
        self.wait(me, s);
        HERE.set(Here { sched: self, me, count: null() });
    }
    fn leave(&self, me: usize) {
        HERE.set(Here { sched: null(), me: 0, count: null() });
        let mut s = self.st.lock().unwrap();
        s.done[me] = true;
        if !s.free && s.turn == me {
            self.advance(&mut s);
        }
    }
}
/// run two pieces of work under one schedule
pub fn run<T: Send>(plan: [(usize, u64); 4], f: [&(dyn Fn() -> T + Sync); 2]) -> [T; 2] {
    let sc = Sched::new(plan);
    let mut out = [None, None];
    std::thread::scope(|s| {
        for (me, slot) in out.iter_mut().enumerate() {
            let (sc, f) = (&sc, f[me]);
            s.spawn(move || {
                sc.enter(me);
                let r = f();
                sc.leave(me);
                *slot = Some(r);
            });
        }
    });
    out.map(|x| x.unwrap())
}
