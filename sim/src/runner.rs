//! Executes runs in forked workers, merges what they observed, settles failures into replay files
//! and writes the evidence.

use crate::case::{minimise, Case};
use crate::props::{self, Base, Fail, Stats};
use crate::{meter, sys};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, Ordering::Relaxed};
use std::time::Instant;
use world::rng::{hash, mix, Rng};

pub const HANG_CPU_S: u64 = 20;
const HANG_WALL_S: u64 = 240;

pub struct Plan { pub runs: u64, pub batch: u64 }

pub fn plan(prop: &str, tier: &str) -> Plan {
    let (quick, batch) = match prop {
        "C01" => (1_000_000, 512),
        "C02" => (750_000, 512),
        "C03" => (40_000, 64),
        "C04" => (1_500_000, 1024),
        "C05" => (300_000, 256),
        "C06" => (45_000, 48),
        "C07" => (400_000, 256),
        "C08" => (1_200_000, 512),
        "C09" => (500_000, 512),
        "C10" => (60_000, 128),
        "C11" => (45_000, 128),
        "C12" => (1_200_000, 512),
        "C16" => (200_000, 128),
        "C17" => (40_000, 128),
        "C18" => (200_000, 128),
        "C19" => (250_000, 256),
        "C20" => (8_000, 16),
        "C21" => (25_000, 128),
        "C22" => (45_000, 128),
        "C23" => (100_000, 256),
        "C24" => (100_000, 128),
        "C25" => (45_000, 128),
        _ => (400_000, 256),
    };
    let runs = if tier == "thorough" { quick * 16 } else { quick };
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    Plan { runs: ((runs as f64 * scale) as u64).max(batch), batch }
}

pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 { mix(mix(seed ^ 0xA076_1D64_78BD_642F) ^ hash(prop.as_bytes()) ^ mix(i.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5851_F42D)) }

pub fn case_of(seed: u64, prop: &str, i: u64) -> Case {
    // a defect of the generator is not one of the subject: draw again (selfcheck stops instead)
    let strict = std::env::var_os("VERIF_STRICT").is_some();
    let mut n = run_seed(seed, prop, i);
    loop {
        let made = catch_unwind(|| props::gen_case(prop, &mut Rng::new(n)));
        match made {
            Ok(c) => return c,
            Err(_) if strict => { eprintln!("generator of {} fails on run {} of seed {}: {}", prop, i, seed, props::last_panic()); std::process::abort() }
            Err(_) => n = mix(n),
        }
    }
}

// ---- inside a worker

/// Shared with the parent: current run, progress count, memory refused.
pub static NOTE: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());

pub fn note(slot: usize, v: u64) {
    let p = NOTE.load(Relaxed);
    if !p.is_null() { unsafe { p.add(slot).write_volatile(v) } }
}

/// The size of the stack of a main thread, and one that is never the limit.
pub const USUAL: usize = 8 << 20;
pub const AMPLE: usize = 256 << 20;

pub fn on_stack<T: Send>(size: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(size).spawn_scoped(s, f).unwrap().join().unwrap())
}
pub fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T { on_stack(AMPLE, f) }

/// Runs cases in order in this process until one fails. Returns its number and what failed.
fn sequence(prop: &str, cases: &[Case], st: &mut Stats) -> Option<(usize, String)> {
    // outcomes of work alone are taken from processes that have not run anything yet
    let mut bases: Vec<Base> = if prop == "C06" { cases.iter().map(|c| { note(1, 1); props::baselines(c) }).collect() } else { vec![] };
    let mut grown = vec![];
    for (i, c) in cases.iter().enumerate() {
        note(0, i as u64 + 1);
        sys::ENTROPY.store(1, Relaxed);
        let base = if prop == "C06" { bases[i].take() } else { None };
        let before = meter::LIVE[1].load(Relaxed);
        match catch_unwind(AssertUnwindSafe(|| props::run_case(prop, c, st, base))) {
            Ok(Some(m)) => return Some((i, m)),
            Ok(None) => (),
            Err(_) => return Some((i, format!("panic: {}", props::last_panic()))),
        }
        if prop == "C07" { grown.push((i as u64, meter::LIVE[1].load(Relaxed) - before)); }
    }
    if prop == "C07" { if let Some(m) = props::batch_growth(&grown) { return Some((cases.len() - 1, m)); } }
    None
}

fn worker(prop: &str, seed: u64, from: u64, to: u64) -> Vec<u8> {
    let mut st = Stats::default();
    let f = on_thread(|| {
        let cases: Vec<Case> = (from..to).map(|i| case_of(seed, prop, i)).collect();
        sequence(prop, &cases, &mut st)
    });
    let mut out = String::new();
    if let Some((i, m)) = f { out += &format!("F {} {}\n", from + i as u64, m.replace('\n', " ")); }
    for (k, v) in &st.counts { out += &format!("C {} {}\n", v, k); }
    out += &format!("E {} {:x}\n", st.evals, st.obs);
    for s in &st.sigs { out += &format!("S {:x}\n", s); }
    for s in &st.reach { out += &format!("R {:x}\n", s); }
    out += "DONE\n";
    out.into_bytes()
}

/// Executes cases in a fresh process.
pub fn exec(prop: &str, cases: &[Case], cpu_s: u64) -> Fail {
    let page = sys::shared(4096) as *mut u64;
    let (out, end) = sys::isolated(cpu_s, || {
        silence();
        NOTE.store(page, Relaxed);
        let mut st = Stats::default();
        match on_thread(|| sequence(prop, cases, &mut st)) { Some((_, m)) => m.into_bytes(), None => b"OK".to_vec() }
    });
    let capped = unsafe { page.add(2).read_volatile() };
    unsafe { munmap(page as *mut u8, 4096) };
    match end {
        sys::Ended::Hang => Some("hang: the work does not end".into()),
        sys::Ended::Signal(s) => Some(crash_text(s, capped)),
        sys::Ended::Exit(_) => { let m = String::from_utf8_lossy(&out).into_owned(); if m == "OK" { None } else if m.is_empty() { Some("crash: the process ended without a result".into()) } else { Some(m) } }
    }
}

fn crash_text(sig: i32, capped: u64) -> String {
    format!("crash: the process was killed by signal {}{}", sig, if capped > 0 { " after asking for more than 512 MB" } else { "" })
}

extern "C" {
    fn munmap(p: *mut u8, n: usize) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const u8, flags: i32, ...) -> i32;
}

/// Messages of dying children are not of interest.
pub fn silence() {
    if std::env::var_os("VERIF_NOISY").is_some() { return; }
    unsafe { let fd = open(b"/dev/null\0".as_ptr(), 1); if fd >= 0 { dup2(fd, 2); } }
}

// ---- the parent

#[derive(Default)]
pub struct Total {
    pub counts: BTreeMap<String, u64>,
    pub sigs: std::collections::HashSet<u64>,
    pub reach: std::collections::HashSet<u64>,
    pub evals: u64,
    pub digest: u64,
    pub runs: u64,
    pub fail: Option<(u64, u64, String)>,
    pub capped: bool,
}

struct Job { batch: u64, pid: i32, fd: i32, out: Vec<u8>, note: *mut u64, seen: (u64, u64), ticks: u64, since: Instant }

pub fn explore(prop: &str, seed: u64, runs: u64, batch: u64, workers: usize, wall: u64) -> Total {
    let started = Instant::now();
    let mut t = Total::default();
    let batches = runs.div_ceil(batch);
    let mut next = 0;
    let mut jobs: Vec<Job> = vec![];
    let mut digests: BTreeMap<u64, u64> = BTreeMap::new();
    let mut worst: Option<(u64, u64, String)> = None; // batch, run, message
    loop {
        while jobs.len() < workers && next < batches && worst.is_none() {
            if started.elapsed().as_secs() > wall { t.capped = true; next = batches; break; }
            jobs.push(launch(prop, seed, next, (next * batch, ((next + 1) * batch).min(runs))));
            next += 1;
        }
        // batches after the first failing one do not matter
        if let Some((b, _, _)) = &worst {
            for j in jobs.iter().filter(|j| j.batch > *b) { unsafe { sys::kill(j.pid, 9); } }
        }
        if jobs.is_empty() { break; }
        let mut fds: Vec<sys::PollFd> = jobs.iter().map(|j| sys::PollFd { fd: j.fd, events: 1, revents: 0 }).collect();
        unsafe { sys::poll(fds.as_mut_ptr(), fds.len() as u64, 200) };
        let mut done = vec![];
        for (n, p) in fds.iter().enumerate() {
            if p.revents != 0 {
                let mut buf = [0u8; 65536];
                let k = unsafe { sys::read(p.fd, buf.as_mut_ptr(), buf.len()) };
                if k <= 0 { done.push((n, false)); } else { jobs[n].out.extend_from_slice(&buf[..k as usize]); }
                continue;
            }
            let j = &mut jobs[n];
            let now = unsafe { (j.note.read_volatile(), j.note.add(1).read_volatile()) };
            let ticks = sys::cpu_ticks(j.pid).unwrap_or(0);
            if now != j.seen { j.seen = now; j.ticks = ticks; j.since = Instant::now(); }
            else if ticks.saturating_sub(j.ticks) > HANG_CPU_S * 100 || j.since.elapsed().as_secs() > HANG_WALL_S {
                unsafe { sys::kill(j.pid, 9) };
                done.push((n, true));
            }
        }
        for (n, hang) in done.into_iter().rev() {
            let j = jobs.remove(n);
            unsafe { sys::close(j.fd) };
            let mut status = 0;
            unsafe { sys::waitpid(j.pid, &mut status, 0) };
            let (at, capped) = unsafe { (j.note.read_volatile(), j.note.add(2).read_volatile()) };
            unsafe { munmap(j.note as *mut u8, 4096) };
            if matches!(&worst, Some((b, _, _)) if *b < j.batch) { continue; }
            let text = String::from_utf8_lossy(&j.out).into_owned();
            let mut fail = None;
            if !text.ends_with("DONE\n") {
                let run = j.batch * batch + at.saturating_sub(1);
                fail = Some((run, if hang { "hang: the work does not end".into() } else if status & 0x7F != 0 { crash_text(status & 0x7F, capped) } else { "crash: the process ended without a result".to_string() }));
            } else {
                t.runs += ((j.batch + 1) * batch).min(runs) - j.batch * batch;
                for line in text.lines() {
                    let (k, rest) = line.split_at(1);
                    let rest = rest.trim_start();
                    match k {
                        "F" => { let (i, m) = rest.split_once(' ').unwrap(); fail = Some((i.parse().unwrap(), m.to_string())); }
                        "C" => {
                            let (v, k) = rest.split_once(' ').unwrap();
                            let v: u64 = v.parse().unwrap();
                            let e = t.counts.entry(k.into()).or_insert(0);
                            if k.starts_with("max:") { *e = (*e).max(v) } else { *e += v }
                        }
                        "E" => { let (n, o) = rest.split_once(' ').unwrap(); t.evals += n.parse::<u64>().unwrap(); digests.insert(j.batch, u64::from_str_radix(o, 16).unwrap()); }
                        "S" => { t.sigs.insert(u64::from_str_radix(rest, 16).unwrap()); }
                        "R" => { t.reach.insert(u64::from_str_radix(rest, 16).unwrap()); }
                        _ => (),
                    }
                }
            }
            if let Some((run, m)) = fail { worst = Some((j.batch, run, m)); }
        }
    }
    for (b, d) in digests { t.digest = mix(t.digest ^ mix(b) ^ d); }
    t.fail = worst;
    t
}

fn launch(prop: &str, seed: u64, b: u64, range: (u64, u64)) -> Job {
    unsafe {
        let note_page = sys::shared(4096) as *mut u64;
        let mut fds = [0i32; 2];
        assert!(sys::pipe(fds.as_mut_ptr()) == 0, "pipe");
        let pid = sys::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            sys::close(fds[0]);
            sys::prctl(1, 9, 0, 0, 0);
            silence();
            NOTE.store(note_page, Relaxed);
            let out = worker(prop, seed, range.0, range.1);
            sys::write_all(fds[1], &out);
            sys::_exit(0);
        }
        sys::close(fds[1]);
        Job { batch: b, pid, fd: fds[0], out: vec![], note: note_page, seen: (0, 0), ticks: 0, since: Instant::now() }
    }
}

fn class(m: &str) -> &str { m.split(':').next().unwrap_or("") }

pub struct Settled { pub cases: Vec<Case>, pub message: String, pub how: String }

/// Turns a failing run into the smallest explicit case (or history of cases) that fails alike.
pub fn settle(prop: &str, seed: u64, batch: u64, b: u64, run: u64, message: &str) -> Settled {
    let t0 = Instant::now();
    let slow = class(message) == "hang";
    let cpu = if slow { 8 } else { HANG_CPU_S };
    let budget = |n: usize| if slow { n.min(10) } else { n };
    let alike = |f: &Fail, m: &str| matches!(f, Some(x) if class(x) == class(m));
    let case = case_of(seed, prop, run);
    let alone = exec(prop, std::slice::from_ref(&case), cpu);
    if let Some(m) = alone {
        let small = minimise(&case, budget(2500), &mut |c| if t0.elapsed().as_secs() < 60 { Some(alike(&exec(prop, std::slice::from_ref(c), cpu), &m)) } else { None });
        let m = exec(prop, std::slice::from_ref(&small), cpu).unwrap_or(m);
        return Settled { cases: vec![small], message: m, how: "fails alone in a fresh process".into() };
    }
    // only the history of its process makes it fail
    let mut cases: Vec<Case> = (b * batch..=run).map(|i| case_of(seed, prop, i)).collect();
    let first = exec(prop, &cases, cpu);
    if !alike(&first, message) {
        return Settled { cases, message: message.into(), how: "seen in exploration; the history did not fail again".into() };
    }
    let mut left = budget(200);
    let mut chunk = cases.len() / 2;
    while chunk > 0 {
        let mut i = 0;
        while i < cases.len() && left > 0 && t0.elapsed().as_secs() < 90 {
            let mut c = cases.clone();
            c.drain(i..(i + chunk).min(c.len()));
            left -= 1;
            if alike(&exec(prop, &c, cpu), message) { cases = c; } else { i += chunk; }
        }
        chunk /= 2;
    }
    if cases.len() <= 4 {
        for k in 0..cases.len() {
            let all = cases.clone();
            let small = minimise(&cases[k], budget(600), &mut |c| { let mut v = all.clone(); v[k] = c.clone(); if t0.elapsed().as_secs() < 120 { Some(alike(&exec(prop, &v, cpu), message)) } else { None } });
            cases[k] = small;
        }
    }
    let m = exec(prop, &cases, cpu).unwrap_or_else(|| message.into());
    Settled { cases, message: m, how: "fails only after the work before it in the same process".into() }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

pub fn describe(c: &Case) -> String {
    let mut t = c.text().replace('\n', "; ");
    if t.len() > 500 { let mut k = 500; while !t.is_char_boundary(k) { k -= 1; } t.truncate(k); t += "..."; }
    t
}
