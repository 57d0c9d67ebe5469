//! Storage and transport faults. Every fault is recorded as an explicit replacement of a byte
//! range, so that a trace can be replayed and minimised without the generator.

use crate::enc::{Image, Mark, Mk};
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Fault { pub label: &'static str, pub off: usize, pub len: usize, pub bytes: Vec<u8> }

/// Applies faults in order. Offsets are clipped to the data, so any subset of a trace applies.
pub fn apply(image: &[u8], faults: &[Fault]) -> Vec<u8> {
    let mut d = image.to_vec();
    for f in faults {
        let a = f.off.min(d.len());
        let b = (f.off + f.len).min(d.len());
        d.splice(a..b, f.bytes.iter().copied());
    }
    d
}

pub const LABELS: &[&str] = &[
    "bit-flip", "byte-overwrite", "range-lost", "range-duplicated", "range-zeroed", "garbage-inserted", "truncated", "torn-write",
    "section-lost", "section-duplicated", "sections-swapped", "section-id-changed", "size-forged", "count-forged", "opcode-changed", "immediate-changed",
    "text-damaged", "type-changed", "entry-lost", "entry-duplicated", "entries-swapped", "trailing-garbage", "tag-changed", "preamble-damaged", "stale-block", "byte-swap",
];

pub fn label(s: &str) -> &'static str {
    LABELS.iter().find(|l| **l == s).copied().unwrap_or("other")
}

fn leb(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        if v == 0 { o.push(b); return o; }
        o.push(b | 0x80);
    }
}

fn unleb(b: &[u8]) -> u64 {
    let mut v = 0u64;
    for (i, x) in b.iter().enumerate().take(9) { v |= ((x & 0x7F) as u64) << (7 * i); }
    v
}

pub struct Injector<'a> { pub image: &'a Image, pub old: Option<&'a [u8]> }

impl<'a> Injector<'a> {
    fn marks(&self, k: Mk) -> Vec<Mark> { self.image.marks.iter().filter(|m| m.kind == k).copied().collect() }

    fn one(&self, r: &mut Rng, which: &'static str, d: &[u8], aligned: bool) -> Option<Fault> {
        let n = d.len();
        let f = |off: usize, len: usize, bytes: Vec<u8>| Some(Fault { label: which, off, len, bytes });
        let span = |r: &mut Rng| -> Option<(usize, usize)> {
            if n == 0 { return None; }
            let a = r.below(n);
            let l = 1 + r.skewed(64);
            Some((a, l.min(n - a)))
        };
        let pick = |r: &mut Rng, k: Mk| -> Option<Mark> {
            if !aligned { return None; }
            let m = self.marks(k);
            if m.is_empty() { return None; }
            let m = *r.pick(&m);
            if m.end <= n { Some(m) } else { None }
        };
        match which {
            "bit-flip" => { let (a, _) = span(r)?; f(a, 1, vec![d[a] ^ (1 << r.below(8))]) }
            "byte-overwrite" => { let (a, _) = span(r)?; f(a, 1, vec![if r.pct(50) { r.u64() as u8 } else { *r.pick(&[0, 1, 0x7F, 0x80, 0xFF, 0x0B, 0x05, 0x40]) }]) }
            "range-lost" => { let (a, l) = span(r)?; f(a, l, vec![]) }
            "range-duplicated" => { let (a, l) = span(r)?; f(a + l, 0, d[a..a + l].to_vec()) }
            "range-zeroed" => { let (a, l) = span(r)?; f(a, l, vec![if r.pct(70) { 0 } else { 0xFF }; l]) }
            "garbage-inserted" => { let a = r.below(n + 1); let l = r.skewed(20) + 1; f(a, 0, (0..l).map(|_| r.u64() as u8).collect()) }
            "truncated" => { let a = r.below(n + 1); f(a, n - a, vec![]) }
            "torn-write" => {
                // a prefix of the new image over an old one, at a sector or any boundary
                let old = self.old?;
                let sector = *r.pick(&[1usize, 4, 16, 64, 512]);
                let a = (r.below(n + 1) / sector) * sector;
                f(a, n - a, old[a.min(old.len())..].to_vec())
            }
            "stale-block" => {
                let old = self.old?;
                let sector = *r.pick(&[4usize, 8, 16, 64, 512]);
                let a = (r.below(n + 1) / sector) * sector;
                let l = sector.min(n - a).min(old.len().saturating_sub(a));
                if l == 0 { return None; }
                f(a, l, old[a..a + l].to_vec())
            }
            "byte-swap" => { let (a, _) = span(r)?; if a + 1 >= n { return None; } f(a, 2, vec![d[a + 1], d[a]]) }
            "section-lost" => { let m = pick(r, Mk::Section)?; f(m.start, m.end - m.start, vec![]) }
            "section-duplicated" => { let m = pick(r, Mk::Section)?; let to = pick(r, Mk::Section)?; f(to.end, 0, d[m.start..m.end].to_vec()) }
            "sections-swapped" | "entries-swapped" => {
                let k = if which == "sections-swapped" { Mk::Section } else { Mk::Entry };
                let a = pick(r, k)?;
                // neighbours most of the time
                let next = self.marks(k).into_iter().find(|m| m.start == a.end);
                let b = if r.pct(70) { next? } else { pick(r, k)? };
                let (a, b) = if a.start < b.start { (a, b) } else { (b, a) };
                if a.end > b.start || b.end > n { return None; }
                let mut v = d[b.start..b.end].to_vec();
                v.extend_from_slice(&d[a.end..b.start]);
                v.extend_from_slice(&d[a.start..a.end]);
                f(a.start, b.end - a.start, v)
            }
            "section-id-changed" => { let m = pick(r, Mk::SectionId)?; f(m.start, 1, vec![if r.pct(80) { r.below(14) as u8 } else { r.u64() as u8 }]) }
            "size-forged" | "count-forged" => {
                let m = pick(r, if which == "size-forged" { Mk::Size } else { Mk::Count })?;
                let v = unleb(&d[m.start..m.end]);
                let w = match r.below(7) { 0 => v + 1, 1 => v.wrapping_sub(1) & 0xFFFF_FFFF, 2 => 0, 3 => v + r.below(300) as u64, 4 => v / 2, 5 => *r.pick(&[0xFFFF_FFFF, 0x7FFF_FFFF, 0x8000_0000, 0x1000_0000, 0x00FF_FFFF, 0x10_0000, 0x1_0000_0000]), _ => r.wild() & 0xFFFF_FFFF };
                f(m.start, m.end - m.start, leb(w))
            }
            "opcode-changed" => { let m = pick(r, Mk::Op)?; f(m.start, 1, vec![r.u64() as u8]) }
            "immediate-changed" => { let m = pick(r, Mk::Imm)?; if m.start == m.end { return None; } let a = r.range(m.start, m.end - 1); let b = if r.pct(50) { d[a] ^ (1 << r.below(8)) } else { r.u64() as u8 }; f(a, 1, vec![b]) }
            "text-damaged" => { let m = pick(r, Mk::Name)?; if m.start == m.end { return None; } let a = r.range(m.start, m.end - 1); f(a, 1, vec![*r.pick(&[0xFF, 0x80, 0xC0, 0xC2, 0xED, 0xF4, 0xF8, 0x00, 0xE0, 0x7F])]) }
            "type-changed" => { let m = pick(r, Mk::Type)?; f(m.start, 1, vec![if r.pct(80) { 0x7C + r.below(4) as u8 } else { r.u64() as u8 }]) }
            "tag-changed" => { let m = pick(r, Mk::Tag)?; f(m.start, 1, vec![if r.pct(80) { r.below(5) as u8 } else { r.u64() as u8 }]) }
            "entry-lost" => { let m = pick(r, Mk::Entry)?; f(m.start, m.end - m.start, vec![]) }
            "entry-duplicated" => { let m = pick(r, Mk::Entry)?; f(m.end, 0, d[m.start..m.end].to_vec()) }
            "trailing-garbage" => { let l = r.skewed(40) + 1; f(n, 0, (0..l).map(|_| if r.pct(30) { 0 } else { r.u64() as u8 }).collect()) }
            "preamble-damaged" => { if n < 8 { return None; } let a = r.below(8); f(a, 1, vec![d[a].wrapping_add(1 + r.below(255) as u8)]) }
            _ => None,
        }
    }

    /// A trace of up to `max` faults drawn from `menu`.
    pub fn trace(&self, r: &mut Rng, max: usize, menu: &[&'static str]) -> Vec<Fault> {
        let mut d = self.image.bytes.clone();
        let mut out: Vec<Fault> = vec![];
        let mut aligned = true;
        for _ in 0..max {
            let w = *r.pick(menu);
            if let Some(f) = self.one(r, w, &d, aligned) {
                if f.bytes.len() != f.len { aligned = false; }
                d = apply(&d, std::slice::from_ref(&f));
                out.push(f);
            }
            if d.len() > 2_000_000 { break; }
        }
        out
    }
}
