//! One-at-a-time scheduler over real threads. A schedule is an explicit list of
//! (thread, number of steps); a step is one scheduling point (byte request, allocation,
//! validated instruction, simulated sleep).

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::Duration;
use world::rng::mix;

pub const MAX: usize = 8;

struct State {
    plan: Vec<(usize, i64)>,
    next: usize,
    n: usize,
    finished: [bool; MAX],
    blocked: [bool; MAX],
    tids: [i64; MAX],
    trace: u64,
    switches: u64,
}

static STATE: Mutex<State> = Mutex::new(State { plan: vec![], next: 0, n: 0, finished: [false; MAX], blocked: [false; MAX], tids: [0; MAX], trace: 0, switches: 0 });
#[allow(clippy::declare_interior_mutable_const)]
const CV: Condvar = Condvar::new();
static WAKE: [Condvar; MAX] = [CV; MAX];
static DONE: Condvar = Condvar::new();
static ACTIVE: AtomicBool = AtomicBool::new(false);
static CURRENT: AtomicUsize = AtomicUsize::new(usize::MAX);
static LEFT: AtomicI64 = AtomicI64::new(0);
pub static STEPS: AtomicU64 = AtomicU64::new(0);

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

/// Called by the hook inside instruction validation.
#[no_mangle]
fn whasm_sim_point() { point() }

/// A scheduling point. Costs next to nothing unless this thread is under the scheduler.
pub fn point() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX || !ACTIVE.load(SeqCst) || std::thread::panicking() { return; }
    if CURRENT.load(SeqCst) == me {
        STEPS.fetch_add(1, SeqCst);
        if LEFT.fetch_sub(1, SeqCst) > 1 { return; }
    }
    slow(me)
}

fn slow(me: usize) {
    // the scheduler itself runs outside any region and without scheduling points
    crate::meter::outside(|| {
        let mut st = STATE.lock().unwrap();
        st.blocked[me] = false;
        if CURRENT.load(SeqCst) == me { hand_over(&mut st, me); }
        while CURRENT.load(SeqCst) != me && ACTIVE.load(SeqCst) {
            st = WAKE[me].wait(st).unwrap();
        }
    })
}

/// Gives the baton to the next thread of the plan that can take it.
fn hand_over(st: &mut State, from: usize) {
    let free = |st: &State, t: usize| t < st.n && !st.finished[t] && !st.blocked[t];
    let to = loop {
        match st.plan.get(st.next).copied() {
            Some((t, k)) => {
                st.next += 1;
                if free(st, t) { LEFT.store(k.max(1), SeqCst); break Some(t); }
            }
            None => {
                LEFT.store(i64::MAX, SeqCst);
                let keep = from != usize::MAX && free(st, from);
                break if keep { Some(from) } else { (0..st.n).find(|t| free(st, *t)) };
            }
        }
    };
    let to = to.unwrap_or(usize::MAX);
    if to != from {
        if from < MAX && to < MAX { st.switches += 1; }
        st.trace = mix(st.trace ^ mix((to as u64) << 40 ^ STEPS.load(SeqCst)));
    }
    CURRENT.store(to, SeqCst);
    if to < MAX { WAKE[to].notify_one(); }
}

fn finish(me: usize) {
    crate::meter::outside(|| {
        let mut st = STATE.lock().unwrap();
        st.finished[me] = true;
        st.blocked[me] = false;
        if CURRENT.load(SeqCst) == me { hand_over(&mut st, me); }
        DONE.notify_one();
    })
}

fn start(me: usize) {
    ME.with(|m| m.set(me));
    let mut st = STATE.lock().unwrap();
    st.tids[me] = crate::sys::tid();
    DONE.notify_one();
    while CURRENT.load(SeqCst) != me { st = WAKE[me].wait(st).unwrap(); }
}

pub struct Trace { pub hash: u64, pub switches: u64, pub steps: u64, pub deadlock: bool }

fn sleeping(tid: i64) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)) {
        Ok(s) => s.rfind(')').and_then(|i| s.as_bytes().get(i + 2).copied()) == Some(b'S'),
        Err(_) => false,
    }
}

/// Runs the tasks, each on its own thread, under the given plan.
pub fn run(plan: &[(usize, i64)], tasks: Vec<Box<dyn FnOnce() + Send + 'static>>) -> Trace {
    let n = tasks.len();
    assert!(n <= MAX);
    {
        let mut st = STATE.lock().unwrap();
        *st = State { plan: plan.to_vec(), next: 0, n, finished: [false; MAX], blocked: [false; MAX], tids: [0; MAX], trace: 0, switches: 0 };
        CURRENT.store(usize::MAX, SeqCst);
        STEPS.store(0, SeqCst);
        ACTIVE.store(true, SeqCst);
    }
    let mut joins = vec![];
    for (i, t) in tasks.into_iter().enumerate() {
        joins.push(std::thread::Builder::new().stack_size(crate::runner::AMPLE).spawn(move || {
            start(i);
            t();
            finish(i);
            ME.with(|m| m.set(usize::MAX));
        }).unwrap());
    }
    let mut deadlock = false;
    {
        let mut st = STATE.lock().unwrap();
        while st.tids[..n].iter().any(|t| *t == 0) { st = DONE.wait(st).unwrap(); }
        hand_over(&mut st, usize::MAX);
        let mut last = (u64::MAX, usize::MAX);
        let mut same = 0;
        while !st.finished[..n].iter().all(|f| *f) {
            let (g, timeout) = DONE.wait_timeout(st, Duration::from_millis(10)).unwrap();
            st = g;
            if !timeout.timed_out() { continue; }
            // the running thread may be waiting for something another thread holds
            let now = (STEPS.load(SeqCst), CURRENT.load(SeqCst));
            same = if now == last { same + 1 } else { 0 };
            last = now;
            let cur = now.1;
            if cur < n && !st.finished[cur] && same >= 4 && sleeping(st.tids[cur]) {
                st.blocked[cur] = true;
                hand_over(&mut st, cur);
                same = 0;
            } else if cur >= n && same >= 300 {
                if st.blocked[..n].iter().zip(&st.finished).any(|(b, f)| *b && !*f) {
                    deadlock = true;
                    break;
                }
            } else if cur >= n {
                // a thread may have become free again
                if (0..n).any(|t| !st.finished[t] && !st.blocked[t]) { hand_over(&mut st, usize::MAX); }
            }
        }
    }
    if !deadlock { for j in joins { let _ = j.join(); } }
    ACTIVE.store(false, SeqCst);
    let st = STATE.lock().unwrap();
    Trace { hash: st.trace, switches: st.switches, steps: STEPS.load(SeqCst), deadlock }
}
