//! Byte sources: the simulated peer, link or disk a stream is read from.

use crate::{meter, sched, sys};
use std::collections::VecDeque;
use std::panic::resume_unwind;

/// Why a source unwound.
pub struct Abandoned(pub u64);
pub struct Overread;
pub struct Forever;

#[derive(Clone, Default)]
pub struct Opt {
    /// 0 exact, 1 unknown, 2 only an upper bound, 3 only a lower bound, 4 wide
    pub hint: u8,
    /// Offered after the end has been reported.
    pub late: Vec<u8>,
    /// Unwind instead of delivering the byte at this position.
    pub abandon_at: Option<usize>,
    /// Identifies this failure among others.
    pub token: u64,
    /// The peer is silent after the data: asking for more is an overread.
    pub silent: bool,
    /// Grow the region's memory allowance with each delivered byte.
    pub allow: Option<(i64, i64)>,
}

pub struct Src<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub ended: u32,
    pub requests: u64,
    /// Bytes requested after the source has failed.
    pub failed: bool,
    pub after_failure: u64,
    late: usize,
    pub opt: Opt,
    /// Runs once, before the byte at the position is delivered.
    pub visit: Option<(usize, Box<dyn FnMut() + 'a>)>,
}

pub const AFTER_END: u32 = 20_000;

impl<'a> Src<'a> {
    pub fn new(data: &'a [u8]) -> Src<'a> { Src::with(data, Opt::default()) }
    pub fn with(data: &'a [u8], opt: Opt) -> Src<'a> {
        Src { data, pos: 0, ended: 0, requests: 0, failed: false, after_failure: 0, late: 0, opt, visit: None }
    }
}

impl<'a> Iterator for Src<'a> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        sched::point();
        sys::advance(1_000);
        self.requests += 1;
        if self.failed { self.after_failure += 1; }
        if let Some((at, f)) = &mut self.visit {
            if *at == self.pos && self.ended == 0 {
                f();
                self.visit = None;
            }
        }
        if self.opt.abandon_at == Some(self.pos) && self.ended == 0 && !self.failed {
            self.failed = true;
            resume_unwind(meter::outside(|| Box::new(Abandoned(self.opt.token))));
        }
        if self.ended > 0 {
            self.ended += 1;
            if self.ended > AFTER_END { resume_unwind(Box::new(Forever)); }
            if self.late < self.opt.late.len() {
                self.late += 1;
                return Some(self.opt.late[self.late - 1]);
            }
            return None;
        }
        match self.data.get(self.pos) {
            Some(b) => {
                self.pos += 1;
                if let Some((per, _)) = self.opt.allow {
                    let r = meter::region() as usize;
                    meter::LIMIT[r].fetch_add(per, std::sync::atomic::Ordering::Relaxed);
                }
                Some(*b)
            }
            None => {
                if self.opt.silent { resume_unwind(Box::new(Overread)); }
                self.ended = 1;
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.data.len() - self.pos;
        if !self.opt.late.is_empty() || self.opt.silent { return (0, None); }
        match self.opt.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n)),
            3 => (n, None),
            _ => (n / 2, Some(n.saturating_mul(2) + 100)),
        }
    }
}

/// A connection that delivers in chunks with pauses on the simulated clock.
pub struct Link<'a> { pub rest: &'a [u8], pub buf: VecDeque<u8>, pub plan: &'a [i64], pub at: usize, pub taken: usize }

impl<'a> Link<'a> {
    pub fn new(data: &'a [u8], plan: &'a [i64]) -> Link<'a> { Link { rest: data, buf: VecDeque::new(), plan, at: 0, taken: 0 } }
    fn step(&mut self) -> i64 {
        if self.plan.is_empty() { return 1; }
        let v = self.plan[self.at % self.plan.len()];
        self.at += 1;
        v
    }
}

impl<'a> Iterator for Link<'a> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        sys::advance(1_000);
        while self.buf.is_empty() && !self.rest.is_empty() {
            // positive: a chunk; negative: a pause in milliseconds
            let k = self.step();
            if k < 0 { sys::advance((-k) as u64 * 1_000_000); continue; }
            let n = (k.max(1) as usize).min(self.rest.len());
            let (a, b) = self.rest.split_at(n);
            meter::outside(|| self.buf.extend(a));
            self.rest = b;
        }
        let b = self.buf.pop_front();
        if b.is_some() { self.taken += 1; }
        b
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.buf.len(), None) }
}

/// A file whose reads are short or interrupted according to a plan.
pub struct Disk<'a> { pub rest: &'a [u8], pub plan: &'a [i64], pub at: usize, pub quiet: bool }

impl<'a> Disk<'a> {
    pub fn new(data: &'a [u8], plan: &'a [i64]) -> Disk<'a> { Disk { rest: data, plan, at: 0, quiet: false } }
}

impl<'a> std::io::Read for Disk<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        sys::advance(50_000);
        let v = if self.plan.is_empty() { 1 } else { self.plan[self.at % self.plan.len()] };
        self.at += 1;
        if v < 0 && !self.quiet {
            self.quiet = true;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        self.quiet = false;
        let n = (v.unsigned_abs().max(1) as usize).min(buf.len()).min(self.rest.len());
        buf[..n].copy_from_slice(&self.rest[..n]);
        self.rest = &self.rest[n..];
        Ok(n)
    }
}
