//! The few system calls the harness needs, and the seams for entropy and time.

use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn pipe(fds: *mut i32) -> i32;
    pub fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    pub fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    pub fn close(fd: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn syscall(n: i64, ...) -> i64;
}

#[repr(C)]
pub struct PollFd { pub fd: i32, pub events: i16, pub revents: i16 }

/// Simulated nanoseconds. Advanced by byte sources and simulated sleeps only.
pub static CLOCK: AtomicU64 = AtomicU64::new(1_000_000_000_000);
pub static ENTROPY: AtomicU64 = AtomicU64::new(1);

pub fn advance(ns: u64) { CLOCK.fetch_add(ns, Relaxed); }

/// Entropy seam: the standard library seeds its hash maps from here.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let v = ENTROPY.fetch_add(1, Relaxed);
        *buf.add(i) = (world::rng::mix(v) >> 17) as u8;
    }
    len as isize
}

/// Time seam: code under test sees the simulated clock.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if crate::meter::region() > 0 {
        let t = CLOCK.load(Relaxed);
        *ts = [(t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64];
        return 0;
    }
    syscall(228, clk, ts) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if crate::meter::region() > 0 {
        advance(((*req)[0] * 1_000_000_000 + (*req)[1]) as u64);
        crate::sched::point();
        return 0;
    }
    syscall(35, req, rem) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if crate::meter::region() > 0 {
        advance(((*req)[0] * 1_000_000_000 + (*req)[1]) as u64);
        crate::sched::point();
        return 0;
    }
    syscall(230, clk as i64, flags as i64, req, rem) as i32
}

/// Processor time of the calling thread in nanoseconds, from the real clock.
pub fn thread_cpu() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { syscall(228, 3i64, &mut ts as *mut [i64; 2]) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

pub fn tid() -> i64 { unsafe { syscall(186) } }

/// Shared memory for the note a dying child leaves behind.
pub fn shared(len: usize) -> *mut u8 {
    unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) }
}

/// User plus system time of a process in clock ticks (1/100 s), or None if it is gone.
pub fn cpu_ticks(pid: i32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr(), b.len()) };
        if n <= 0 { return; }
        b = &b[n as usize..];
    }
}

pub enum Ended { Exit(i32), Signal(i32), Hang }

/// Runs `f` in a fresh process and returns what it wrote and how it ended. A process that uses
/// more than `cpu_s` seconds of processor time (or sleeps for much longer) is stopped.
pub fn isolated(cpu_s: u64, f: impl FnOnce() -> Vec<u8>) -> (Vec<u8>, Ended) {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            close(fds[0]);
            prctl(1, 9, 0, 0, 0);
            let out = f();
            write_all(fds[1], &out);
            _exit(0);
        }
        close(fds[1]);
        let mut out = vec![];
        let mut buf = vec![0u8; 65536];
        let mut idle = 0u64;
        let mut hang = false;
        loop {
            let mut p = PollFd { fd: fds[0], events: 1, revents: 0 };
            let r = poll(&mut p, 1, 500);
            if r == 0 {
                idle += 1;
                if cpu_ticks(pid).unwrap_or(0) > cpu_s * 100 || idle > cpu_s * 20 {
                    kill(pid, 9);
                    hang = true;
                    break;
                }
                continue;
            }
            let n = read(fds[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 { break; }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let e = if hang { Ended::Hang } else if st & 0x7F != 0 { Ended::Signal(st & 0x7F) } else { Ended::Exit((st >> 8) & 0xFF) };
        (out, e)
    }
}
