//! An explicit, replayable case: streams, faults and numeric plans. Also its minimisation.

use std::cell::Cell;
use crate::bridge::{self, KINDS};
use std::collections::BTreeMap;
use world::fault::{self, Fault};

#[derive(Clone, Default, Debug)]
pub struct Stream { pub kinds: Vec<usize>, pub image: Vec<u8>, pub faults: Vec<Fault> }

impl Stream {
    pub fn bytes(&self) -> Vec<u8> { fault::apply(&self.image, &self.faults) }
}

#[derive(Clone, Default, Debug)]
pub struct Case { pub mode: String, pub streams: Vec<Stream>, pub nums: BTreeMap<String, Vec<i64>> }

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

impl Case {
    pub fn num(&self, k: &str) -> &[i64] { self.nums.get(k).map(|v| &v[..]).unwrap_or(&[]) }
    pub fn one(&self, k: &str) -> i64 { self.num(k).first().copied().unwrap_or(0) }
    pub fn set(&mut self, k: &str, v: Vec<i64>) { self.nums.insert(k.into(), v); }

    pub fn text(&self) -> String {
        let mut s = format!("case {}\n", if self.mode.is_empty() { "-" } else { &self.mode });
        for st in &self.streams {
            let k: Vec<&str> = st.kinds.iter().map(|k| KINDS[*k].name).collect();
            s += &format!("stream {} {}\n", k.join(","), if st.image.is_empty() { "-".into() } else { hex(&st.image) });
            for f in &st.faults {
                s += &format!("fault {} {} {} {}\n", f.label, f.off, f.len, if f.bytes.is_empty() { "-".into() } else { hex(&f.bytes) });
            }
        }
        for (k, v) in &self.nums {
            s += &format!("num {} {}\n", k, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        }
        s + "end\n"
    }
    pub fn parse(text: &str) -> Vec<Case> {
        let mut out = vec![];
        let mut cur: Option<Case> = None;
        for line in text.lines() {
            let f: Vec<&str> = line.split(' ').collect();
            let arg = |i: usize| -> &str { let s = f.get(i).copied().unwrap_or(""); if s == "-" { "" } else { s } };
            match (f[0], &mut cur) {
                ("case", _) => cur = Some(Case { mode: arg(1).into(), ..Default::default() }),
                ("stream", Some(c)) => c.streams.push(Stream { kinds: arg(1).split(',').filter(|s| !s.is_empty()).map(bridge::kind).collect(), image: unhex(arg(2)), faults: vec![] }),
                ("fault", Some(c)) => {
                    let fl = Fault { label: fault::label(arg(1)), off: arg(2).parse().unwrap_or(0), len: arg(3).parse().unwrap_or(0), bytes: unhex(arg(4)) };
                    if let Some(s) = c.streams.last_mut() { s.faults.push(fl) }
                }
                ("num", Some(c)) => c.set(arg(1), arg(2).split(',').filter_map(|x| x.parse().ok()).collect()),
                ("end", _) => out.extend(cur.take()),
                _ => (),
            }
        }
        out
    }
    pub fn size(&self) -> usize {
        self.streams.iter().map(|s| s.image.len() + 4 * s.faults.len()).sum::<usize>() + self.nums.values().map(|v| v.len()).sum::<usize>()
    }
}

/// Removes parts of a list as long as the predicate holds.
fn ddmin<T: Clone>(list: Vec<T>, unit: usize, left: &Cell<usize>, ok: &mut dyn FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = list;
    if cur.is_empty() { return cur; }
    if ok(&[]) { return vec![]; }
    let unit = unit.max(1);
    let mut chunk = (cur.len() / 2).max(unit);
    loop {
        chunk = (chunk / unit).max(1) * unit;
        let mut i = 0;
        let mut any = false;
        while i < cur.len() && left.get() > 0 {
            let mut t = cur.clone();
            t.drain(i..(i + chunk).min(cur.len()));
            if t.len() < cur.len() && ok(&t) { cur = t; any = true; } else { i += chunk; }
        }
        if left.get() == 0 { return cur; }
        if chunk == unit {
            if !any { return cur; }
        } else {
            chunk /= 2;
        }
    }
}

/// Lists that consist of fixed-size records.
fn unit(name: &str) -> usize {
    match name { "via" => 3, "task" => 5, "sched" => 2, _ => 1 }
}

/// The smallest case found that still fails; the predicate ends the search with None.
pub fn minimise(case: &Case, budget: usize, fails: &mut dyn FnMut(&Case) -> Option<bool>) -> Case {
    let mut best = case.clone();
    let left = Cell::new(budget);
    let mut ok = |c: &Case| -> bool {
        if left.get() == 0 { return false; }
        left.set(left.get() - 1);
        fails(c).unwrap_or_else(|| { left.set(0); false })
    };
    for round in 0..3 {
        let before = best.size();
        // numeric plans first: they multiply the work
        for k in best.nums.keys().cloned().collect::<Vec<_>>() {
            let v = ddmin(best.nums[&k].clone(), unit(&k), &left, &mut |t| {
                let mut c = best.clone();
                c.set(&k, t.to_vec());
                ok(&c)
            });
            best.set(&k, v);
        }
        for i in 0..best.streams.len() {
            let v = ddmin(best.streams[i].faults.clone(), 1, &left, &mut |t| {
                let mut c = best.clone();
                c.streams[i].faults = t.to_vec();
                ok(&c)
            });
            best.streams[i].faults = v;
        }
        for i in (0..best.streams.len()).rev() {
            if best.streams.len() > 1 {
                let mut c = best.clone();
                c.streams.remove(i);
                if ok(&c) { best = c; }
            }
        }
        for i in 0..best.streams.len() {
            let v = ddmin(best.streams[i].image.clone(), 1, &left, &mut |t| {
                let mut c = best.clone();
                c.streams[i].image = t.to_vec();
                ok(&c)
            });
            best.streams[i].image = v;
        }
        if round == 0 {
            // small numbers read better
            for k in best.nums.keys().cloned().collect::<Vec<_>>() {
                for i in 0..best.nums[&k].len().min(40) {
                    let v = best.nums[&k][i];
                    for w in [0, 1, v / 2, v - v.signum()] {
                        if w.abs() >= v.abs() { continue; }
                        let mut c = best.clone();
                        c.nums.get_mut(&k).unwrap()[i] = w;
                        if ok(&c) { best = c; break; }
                    }
                }
            }
        }
        if best.size() == before || left.get() == 0 { break; }
    }
    best
}
