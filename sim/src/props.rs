//! The properties: how a run is drawn from its seed, how it is executed, how it is judged.

use crate::bridge::{self, admissible, Dyn, KINDS};
use crate::case::{Case, Stream};
use crate::source::{Abandoned, Disk, Forever, Link, Opt, Overread, Src};
use crate::{meter, runner, sched, sys};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};
use whasm::binary::{self, Byte, WasmBinaryParse};
use whasm::structure::module::Module;
use whasm::validation::module::result;
use whasm::validation::ValidationEntry;
use world::enc::{encode, Enc, Image, Style};
use world::fault::{Injector, LABELS};
use world::gen::{self, Shape};
use world::model::{self, diff, Canon, Defect, Failure, Reader};
use world::rng::{hash, mix, Rng};
use world::validate;

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    /// Hashes of distinct non-trivial cases, and of distinct behaviours.
    pub sigs: BTreeSet<u64>,
    pub reach: BTreeSet<u64>,
    pub evals: u64,
    pub obs: u64,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) { *self.counts.entry(k.into()).or_insert(0) += n; }
    fn see(&mut self, v: u64) { self.obs = mix(self.obs ^ v); }
}

pub type Fail = Option<String>;

// ------------------------------------------------------------------------------------------------
// Executing code under test

pub enum Out { Val(Canon), Err(binary::Error), Stop(&'static str), Panic(String) }

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        meter::outside(|| {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let at = i.location().map(|l| format!(" at {}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
            *LAST_PANIC.lock().unwrap() = m + &at;
        })
    }));
}

pub fn last_panic() -> String { LAST_PANIC.lock().unwrap().clone() }

fn stopped(p: Box<dyn std::any::Any + Send>) -> Out {
    if p.is::<Abandoned>() { return Out::Stop("abandoned"); }
    if p.is::<Overread>() { return Out::Stop("overread"); }
    if p.is::<Forever>() { return Out::Stop("forever"); }
    Out::Panic(LAST_PANIC.lock().unwrap().clone())
}

/// Decodes one element inside a memory region.
pub fn decode(k: usize, src: Dyn, region: u32) -> Out {
    match meter::inside(region, || catch_unwind(AssertUnwindSafe(|| (KINDS[k].lib)(src)))) {
        Ok(Ok(c)) => Out::Val(c),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => stopped(p),
    }
}

fn decode_module(mut src: Dyn, region: u32) -> Result<Result<Module, binary::Error>, Out> {
    meter::inside(region, || catch_unwind(AssertUnwindSafe(|| <Module as WasmBinaryParse>::parse(&mut src)))).map_err(stopped)
}

fn canon_external(c: &mut Canon, e: &result::External) {
    match e {
        result::External::Func(t) => { c.u8(0); bridge::func_type(c, t) }
        result::External::Table(t) => { c.u8(1); bridge::table_type(c, t) }
        result::External::Mem(t) => { c.u8(2); bridge::mem_type(c, t) }
        result::External::Global(t) => { c.u8(3); bridge::global_type(c, t) }
    }
}

/// Validates and returns the canonical interface or the text of the error.
fn lib_validate(m: &Module, region: u32) -> Result<Result<Canon, String>, Out> {
    meter::inside(region, || catch_unwind(AssertUnwindSafe(|| match m.validate() {
        Ok(r) => {
            let c = meter::outside(|| {
                let mut c = Canon::default();
                c.part("import list");
                c.len(r.imports.len());
                for e in &r.imports { canon_external(&mut c, e); }
                c.part("export list");
                c.len(r.exports.len());
                for e in &r.exports { canon_external(&mut c, e); }
                c.part("end");
                c
            });
            drop(r);
            Ok(c)
        }
        Err(e) => {
            let s = meter::outside(|| format!("{:?}", e));
            drop(e);
            Err(s)
        }
    }))).map_err(stopped)
}

fn canon_of(m: &Module) -> Canon {
    let mut c = Canon::default();
    bridge::canon_module(&mut c, m);
    c
}

fn drop_in<T>(region: u32, v: T) -> Result<(), Out> {
    meter::inside(region, || catch_unwind(AssertUnwindSafe(|| drop(v)))).map_err(stopped)
}

fn crash(what: &str, o: &Out) -> Fail {
    match o {
        Out::Panic(m) => Some(format!("panic: {} panicked: {}", what, m)),
        Out::Stop("forever") => Some(format!("endless: {} keeps requesting bytes after the end of the source", what)),
        _ => None,
    }
}

fn skip_depth(f: &Failure) -> bool { matches!(f.defect, Defect::TooDeep | Defect::TooManyLocals) }

struct Modelled { res: Result<Canon, Failure>, pos: usize, locals: u64, depth: usize }

fn modelled(kind: usize, data: &[u8]) -> Modelled {
    let mut r = Reader::new(data);
    let res = (KINDS[kind].model)(&mut r);
    Modelled { res, pos: r.pos, locals: r.locals, depth: r.max_depth }
}

fn class_name(d: Defect) -> &'static str {
    match d {
        Defect::Eof => "early end", Defect::Magic => "magic", Defect::Version => "version", Defect::SectionOrder(_) => "section order",
        Defect::UnknownSection(_) => "unknown section", Defect::Variant(_) => "unknown discriminant", Defect::Signed => "signed range",
        Defect::Unsigned => "unsigned range", Defect::Utf8 => "utf-8", Defect::Opcode => "delimiter", Defect::Size => "size",
        Defect::Count => "function count", Defect::TooDeep => "too deep", Defect::TooManyLocals => "too many locals",
    }
}

fn note_model(st: &mut Stats, kind: usize, bytes: &[u8], m: &Modelled) {
    note_model_as(st, kind, bytes, m, true)
}

fn note_model_as(st: &mut Stats, kind: usize, bytes: &[u8], m: &Modelled, count: bool) {
    match &m.res {
        Ok(_) => {
            st.add("model:accepted", 1);
            st.reach.insert(hash(&[1, kind as u8]));
            if count { st.sigs.insert(hash(bytes)); }
        }
        Err(f) => {
            st.add(&format!("model:rejected:{}", class_name(f.defect)), 1);
            st.reach.insert(mix(kind as u64 ^ (f.section as u64) << 8 ^ (f.op as u64) << 16 ^ hash(class_name(f.defect).as_bytes())));
            if count && !matches!(f.defect, Defect::Magic | Defect::Version) && (kind != 0 || m.pos > 8) { st.sigs.insert(hash(bytes)); }
        }
    }
}

fn note_faults(st: &mut Stats, c: &Case) {
    for s in &c.streams {
        if s.faults.is_empty() { st.add("runs without faults", 1); }
        for f in &s.faults { st.add(&format!("fault:{}", f.label), 1); }
    }
}

// ------------------------------------------------------------------------------------------------
// Drawing cases

struct Profile { element: usize, mutate: usize, calm: usize, faults: usize, noise: usize, small: bool, menu: &'static [&'static str] }

const FORGERY: &[&str] = &["count-forged", "count-forged", "count-forged", "size-forged", "size-forged", "truncated", "garbage-inserted", "byte-overwrite", "immediate-changed"];
const SOFT: &[&str] = &["immediate-changed", "immediate-changed", "opcode-changed", "type-changed", "tag-changed", "bit-flip", "section-lost", "entries-swapped", "byte-overwrite", "stale-block"];

const COPY: &[&str] = &["immediate-changed", "opcode-changed", "type-changed", "tag-changed", "text-damaged", "entry-lost", "entry-duplicated", "entries-swapped", "section-lost", "section-duplicated", "bit-flip"];

fn shape(r: &mut Rng, small: bool) -> Shape {
    if small && r.pct(70) {
        let mut s = Shape::tiny();
        s.stmts = r.skewed(6);
        s.types = r.skewed(4);
        s.funcs = r.skewed(3);
        s.imports = r.skewed(4);
        s.exports = r.skewed(4);
        return s;
    }
    Shape::random(r)
}

fn module_image(r: &mut Rng, small: bool, mutate: usize) -> (Image, Vec<&'static str>) {
    let mut m = if !small && r.below(1200) == 0 { gen::heavy(r) } else { let s = shape(r, small); gen::module(r, &s) };
    let mut done = vec![];
    if r.pct(mutate) {
        for _ in 0..1 + r.below(2) {
            let w = r.below(gen::MUTATIONS);
            done.extend(gen::mutate(r, &mut m, w));
        }
    }
    let style = Style::random(r);
    (encode(&m, r, style), done)
}

fn noise(r: &mut Rng) -> Vec<u8> {
    let n = r.skewed(400) + r.below(40);
    let mut v = if r.pct(80) { b"\0asm\x01\0\0\0".to_vec() } else { vec![] };
    let alphabet: Vec<u8> = (0..1 + r.below(30)).map(|_| r.u64() as u8).collect();
    let mode = r.below(3);
    for _ in 0..n {
        v.push(match mode { 0 => r.u64() as u8, 1 => *r.pick(&alphabet), _ => if r.pct(60) { r.below(12) as u8 } else { *r.pick(&[0x7F, 0x7E, 0x60, 0x70, 0x40, 0x0B, 0x41, 0x80, 0xFF, 0x05]) } });
    }
    v
}

/// Very much of one thing, flat.
fn long(r: &mut Rng) -> Stream {
    let n = r.range(50_000, 700_000);
    let kind = if r.pct(35) { r.below(KINDS.len()) } else { 0 };
    let mut v = if kind == 0 { b"\0asm\x01\0\0\0".to_vec() } else { vec![] };
    match r.below(6) {
        0 | 1 => {
            let m = gen::bulk(r, n);
            let mut image = encode(&m, r, Style::plain()).bytes;
            if r.pct(30) { let k = r.below(image.len()); image[k] = r.u64() as u8; }
            return Stream { kinds: vec![0], image, faults: vec![] };
        }
        2 => {
            // a number with very much padding, where a length, a count or an index stands
            let m = gen::module(r, &Shape::tiny());
            if kind == 0 { v = encode(&m, r, Style::plain()).bytes; } else { let mut e = Enc::new(r, Style::plain()); bridge::encode_kind(kind, &mut e); v = e.out; }
            if v.is_empty() { v.push(0); }
            let at = if kind == 0 && r.pct(50) { 9.min(v.len() - 1) } else { r.below(v.len()) };
            let low = v[at];
            let fill = if low & 0x40 != 0 && r.pct(50) { 0xFF } else { 0x80 };
            let mut pad = vec![low | 0x80];
            pad.resize(n, fill);
            pad.push(fill & 0x7F);
            v.splice(at..=at, pad);
        }
        3 => {
            // sections without end
            let one: &[u8] = *r.pick(&[&[0u8, 1, 0][..], &[0, 3, 1, 65, 7], &[0, 5, 0, 0, 0, 0, 0]]);
            while v.len() < n { v.extend_from_slice(one); }
        }
        _ => {
            // a short pattern again and again
            for _ in 0..r.below(14) { v.push(if r.pct(60) { r.below(12) as u8 } else { r.u64() as u8 }); }
            let k = 1 + r.below(4);
            let p: Vec<u8> = (0..k).map(|_| if r.pct(60) { *r.pick(&[0, 1, 0x1A, 0x40, 0x41, 0x7F, 0x80, 0xFF, 0x0B, 0x6A]) } else { r.u64() as u8 }).collect();
            while v.len() < n { v.extend_from_slice(&p); }
        }
    }
    Stream { kinds: vec![kind], image: v, faults: vec![] }
}

fn menu_for(r: &mut Rng, from: &'static [&'static str]) -> Vec<&'static str> {
    // swarm: each run has its own selection of fault kinds
    let keep = *r.pick(&[15, 40, 100]);
    let mut m: Vec<&'static str> = from.iter().copied().filter(|_| r.pct(keep)).collect();
    if m.is_empty() { m.push(*r.pick(from)); }
    m
}

fn stream(r: &mut Rng, p: &Profile) -> (Stream, Vec<&'static str>) {
    if r.pct(p.noise) {
        let kind = if r.pct(p.element) { r.below(KINDS.len()) } else { 0 };
        return (Stream { kinds: vec![kind], image: noise(r), faults: vec![] }, vec!["noise"]);
    }
    let kind = if r.pct(p.element) { r.below(KINDS.len()) } else { 0 };
    let (img, done) = if kind == 0 { module_image(r, p.small, p.mutate) } else {
        let style = Style::random(r);
        let mut e = Enc::new(r, style);
        bridge::encode_kind(kind, &mut e);
        (Image { bytes: e.out, marks: e.marks }, vec![])
    };
    let mut faults = vec![];
    if !r.pct(p.calm) {
        let old = if r.pct(30) {
            if kind == 0 { Some(module_image(r, p.small, 0).0.bytes) } else {
                let mut e = Enc::new(r, Style::plain());
                bridge::encode_kind(kind, &mut e);
                Some(e.out)
            }
        } else { None };
        let menu = menu_for(r, p.menu);
        let n = 1 + r.skewed(p.faults.max(1) - 1);
        faults = Injector { image: &img, old: old.as_deref() }.trace(r, n, &menu);
    }
    (Stream { kinds: vec![kind], image: img.bytes, faults }, done)
}

/// Not larger than about 20 kB, for work that is repeated many times.
fn modest(r: &mut Rng, p: &Profile) -> Stream {
    for _ in 0..20 {
        let s = stream(r, p).0;
        if s.image.len() <= 20_000 { return s; }
    }
    Stream { kinds: vec![0], image: b"\0asm\x01\0\0\0".to_vec(), faults: vec![] }
}

pub fn gen_case(prop: &str, r: &mut Rng) -> Case {
    let mut c = Case::default();
    let base = Profile { element: 25, mutate: 20, calm: 15, faults: 6, noise: 3, small: false, menu: LABELS };
    match prop {
        "C01" => c.streams.push(stream(r, &base).0),
        "C02" => {
            let p = match r.below(10) {
                0 | 1 => Profile { element: 0, mutate: 0, calm: 100, noise: 0, ..base },
                2..=6 => Profile { element: 0, mutate: 100, calm: 100, noise: 0, ..base },
                7 => Profile { element: 0, mutate: 50, calm: 0, faults: 3, noise: 0, menu: LABELS, ..base },
                _ => Profile { element: 0, mutate: 20, calm: 0, faults: 3, noise: 0, menu: SOFT, ..base },
            };
            let (s, done) = stream(r, &p);
            c.streams.push(s);
            c.mode = done.join("+").replace(' ', "_");
        }
        "C03" => {
            let p = Profile { element: 40, mutate: 10, calm: 85, faults: 2, noise: 0, small: true, ..base };
            let s = modest(r, &p);
            let n = s.bytes().len();
            let cuts: Vec<i64> = if n <= 1000 { (0..=n as i64).collect() } else { (0..250).map(|_| r.below(n + 1) as i64).collect() };
            c.streams.push(s);
            c.set("cuts", cuts);
        }
        "C04" => {
            // several elements one after another on one stream
            let mut image = Image { bytes: vec![], marks: vec![] };
            let mut kinds = vec![];
            for _ in 0..1 + r.below(5) {
                let k = if r.pct(15) { 0 } else { 1 + r.below(KINDS.len() - 1) };
                let style = Style::random(r);
                let mut e = Enc::new(r, style);
                if k == 0 {
                    let s = shape(e.rng, true);
                    let m = gen::module(e.rng, &s);
                    e.module(&m);
                } else {
                    bridge::encode_kind(k, &mut e);
                }
                let base = image.bytes.len();
                image.bytes.extend_from_slice(&e.out);
                image.marks.extend(e.marks.iter().map(|m| world::enc::Mark { start: m.start + base, end: m.end + base, kind: m.kind }));
                kinds.push(k);
                if k == 0 { break; }
            }
            let faults = if r.pct(55) { let menu = menu_for(r, LABELS); let n = 1 + r.skewed(3); Injector { image: &image, old: None }.trace(r, n, &menu) } else { vec![] };
            c.streams.push(Stream { kinds, image: image.bytes, faults });
        }
        "C05" => {
            let p = Profile { element: 35, mutate: 10, calm: 30, faults: 4, noise: 3, ..base };
            c.streams.push(stream(r, &p).0);
            let mut via = vec![];
            for _ in 0..6 { via.extend([r.below(VIA) as i64, r.below(40) as i64, r.below(300) as i64]); }
            c.set("via", via);
            let n = 1 + r.below(12);
            c.set("chunks", (0..n).map(|_| match r.below(5) { 0 => -(r.below(100_000) as i64) - 1, 1 => 1, 2 => r.range(1, 4096) as i64, _ => r.range(1, 40) as i64 }).collect());
            if c.num("chunks").iter().all(|x| *x < 0) { c.set("chunks", vec![1, -5, 7]); }
        }
        "C06" => {
            let n = r.range(1, 4);
            if r.pct(50) {
                // variations of one module: alike, but not the same
                let (img, _) = module_image(r, true, 20);
                let img = if img.bytes.len() > 20_000 { Image { bytes: b"\0asm\x01\0\0\0".to_vec(), marks: vec![] } } else { img };
                for i in 0..n {
                    let k = 1 + r.below(2);
                    let faults = if i == 0 || r.pct(10) { vec![] } else { Injector { image: &img, old: None }.trace(r, k, SOFT) };
                    c.streams.push(Stream { kinds: vec![0], image: img.bytes.clone(), faults });
                }
            } else {
                for _ in 0..n {
                    let p = Profile { element: 15, mutate: 30, calm: 55, faults: 3, noise: 2, small: r.pct(85), ..base };
                    c.streams.push(modest(r, &p));
                }
            }
            // deep blocks around something that is refused, or not
            if r.pct(8) {
                let d = r.range(5, 900);
                let m = gen::tower_of(r, d);
                let k = r.below(n);
                c.streams[k] = Stream { kinds: vec![0], image: encode(&m, r, Style::plain()).bytes, faults: vec![] };
            }
            let threads = r.range(1, 4);
            let mut task = vec![];
            for t in 0..threads {
                let k = if r.pct(10) { 12 } else { 3 };
                for _ in 0..1 + r.below(k) {
                    let s = r.below(n);
                    let len = c.streams[s].image.len();
                    let at = if r.pct(50) { r.below(len + 1) } else { r.skewed(len) };
                    task.extend([t as i64, r.below(OPS6) as i64, s as i64, r.below(n) as i64, at as i64]);
                }
            }
            c.set("task", task);
            let mut sched = vec![];
            if threads > 1 {
                let k = r.skewed(200);
                let grain = *r.pick(&[2usize, 8, 40, 300]);
                for _ in 0..k { sched.extend([r.below(threads) as i64, 1 + r.below(grain) as i64]); }
            }
            c.set("sched", sched);
        }
        "C07" => {
            let p = Profile { element: 30, mutate: 30, calm: 35, faults: 4, noise: 3, small: true, ..base };
            let s = modest(r, &p);
            let n = s.bytes().len();
            c.streams.push(s);
            // how the work ends: at the end of the data, at a cut, or abandoned at a byte
            let mut ends = vec![0];
            for _ in 0..4 { let at = r.below(n + 1) as i64; ends.push(if r.pct(50) { at + 1 } else { -at - 1 }); }
            c.set("ends", ends);
        }
        "C08" => {
            let p = Profile { element: 30, mutate: 10, calm: 10, faults: 5, noise: 10, small: r.pct(60), menu: if r.pct(70) { FORGERY } else { LABELS } };
            c.streams.push(stream(r, &p).0);
        }
        "C09" if r.below(400) == 0 => c.streams.push(long(r)),
        "C09" => {
            let p = Profile { element: 20, mutate: 40, calm: 15, faults: 12, noise: 25, ..base };
            c.streams.push(stream(r, &p).0);
        }
        "C12" => {
            let p = Profile { element: 30, mutate: 10, calm: 3, faults: 8, noise: 8, ..base };
            c.streams.push(stream(r, &p).0);
        }
        "C13" => {
            let mut s = Shape::random(r);
            s.imports = r.skewed(40) + r.below(4);
            s.exports = r.skewed(60) + 2;
            if r.below(150) == 0 { s.imports = r.range(50, 3000); s.exports = r.range(100, 6000); }
            s.types = s.types.max(1);
            s.table = 100;
            s.mem = 100;
            if r.pct(70) { s.stmts = 1; }
            let mut m = gen::module(r, &s);
            if r.pct(30) { let w = *r.pick(&[18usize, 24, 25, 31, 32, 33, 38, 37, 29]); gen::mutate(r, &mut m, w); }
            let style = Style::random(r);
            let img = encode(&m, r, style);
            let faults = if r.pct(35) { let n = 1 + r.below(2); Injector { image: &img, old: None }.trace(r, n, &["immediate-changed", "type-changed", "tag-changed", "entries-swapped", "text-damaged", "bit-flip"]) } else { vec![] };
            c.streams.push(Stream { kinds: vec![0], image: img.bytes, faults });
            if r.pct(30) {
                let mut sched = vec![];
                for _ in 0..r.skewed(100) { sched.extend([r.below(2) as i64, 1 + r.below(30) as i64]); }
                c.set("sched", sched);
                c.set("threads", vec![2]);
                if r.pct(50) { let p = Profile { element: 0, mutate: 20, calm: 70, faults: 1, noise: 0, small: true, menu: SOFT }; c.streams.push(modest(r, &p)); }
            }
        }
        "C16" => {
            let p = Profile { element: 45, mutate: 10, calm: 60, faults: 2, noise: 3, small: true, ..base };
            let s = modest(r, &p);
            let n = s.bytes().len();
            c.streams.push(s);
            let at: Vec<i64> = if n <= 150 { (0..=n as i64).collect() } else { (0..60).map(|_| if r.pct(50) { r.below(n + 1) } else { r.skewed(n) } as i64).collect() };
            c.set("at", at);
        }
        "C18" => {
            if r.pct(35) {
                let m = if r.below(40) == 0 { let d = r.range(2_000, DEEP); let n = r.range(10, 30_000); gen::shaft(r, d, n) } else { gen::heavy(r) };
                let img = encode(&m, r, Style::plain());
                let faults = if r.pct(30) { let n = 1 + r.below(2); Injector { image: &img, old: None }.trace(r, n, SOFT) } else { vec![] };
                c.streams.push(Stream { kinds: vec![0], image: img.bytes, faults });
            } else {
                let p = Profile { element: 0, mutate: 40, calm: 60, faults: 2, noise: 0, menu: SOFT, ..base };
                c.streams.push(stream(r, &p).0);
            }
        }
        "C19" => {
            // two copies: the same module written twice, or one of them changed on the way
            if r.pct(35) {
                let p = Profile { element: 100, mutate: 0, calm: 100, faults: 0, noise: 0, small: true, ..base };
                let a = modest(r, &p);
                let mut b = a.clone();
                if r.pct(75) {
                    let img = Image { bytes: a.image.clone(), marks: vec![] };
                    let n = 1 + r.below(2);
                    b.faults = Injector { image: &img, old: None }.trace(r, n, &["bit-flip", "byte-overwrite", "bit-flip", "byte-swap", "range-zeroed", "truncated", "range-lost"]);
                }
                c.streams.push(a);
                c.streams.push(b);
                return c;
            }
            let s = shape(r, true);
            let mut m = gen::module(r, &s);
            let a = { let style = Style::random(r); encode(&m, r, style) };
            let mode = r.below(14);
            if mode >= 10 { gen::nudge(r, &mut m); } else if mode >= 7 { for _ in 0..1 + r.below(2) { let w = r.below(gen::MUTATIONS); gen::mutate(r, &mut m, w); } }
            let b = { let style = if r.pct(50) { Style::plain() } else { Style::random(r) }; encode(&m, r, style) };
            if a.bytes.len() > 20_000 || b.bytes.len() > 20_000 { return gen_case(prop, r); }
            let faults = if (2..7).contains(&mode) { let n = 1 + r.below(2); let from = if r.pct(70) { COPY } else { LABELS }; let menu = menu_for(r, from); Injector { image: &b, old: Some(&a.bytes) }.trace(r, n, &menu) } else { vec![] };
            c.streams.push(Stream { kinds: vec![0], image: a.bytes, faults: vec![] });
            c.streams.push(Stream { kinds: vec![0], image: b.bytes, faults });
        }
        "C20" => {
            let n = match r.below(10) { 0 => r.range(500_000, 2_000_000), 1 => r.range(200_000, 500_000), 2 | 3 => r.range(60_000, 200_000), _ => r.range(5_000, 60_000) };
            let m = match r.below(20) { 0..=2 => gen::heavy(r), 3 => { let d = r.range(2_000, DEEP); gen::shaft(r, d, n.min(500_000)) } _ => gen::bulk(r, n) };
            let mut style = Style::plain();
            if r.pct(15) { style.pad = 60; style.max_pad = *r.pick(&[3, 12, 200]); }
            let mut img = encode(&m, r, style);
            let faults = if r.pct(25) { let n = 1 + r.below(2); Injector { image: &img, old: None }.trace(r, n, if n == 1 { SOFT } else { LABELS }) } else { vec![] };
            if faults.is_empty() && r.pct(15) {
                // very many sections, or one number with very much padding
                let pre: Vec<u8> = match r.below(3) {
                    0 => [0u8, 1, 0].repeat(n / 3),
                    1 => { let mut v = vec![0u8, 2, 0, 7]; v[1] |= 0x80; v.splice(2..2, vec![0x80; n]); v.insert(2 + n, 0); v }
                    _ => { let mut v = vec![0u8]; let mut k = n + 1; while k > 127 { v.push(k as u8 | 0x80); k >>= 7; } v.push(k as u8); v.push(0); v.extend(vec![7u8; n]); v }
                };
                img.bytes.splice(8..8, pre);
            }
            c.streams.push(Stream { kinds: vec![0], image: img.bytes, faults });
        }
        "C23" => {
            let p = Profile { element: 40, mutate: 20, calm: 30, faults: 3, noise: 4, ..base };
            let s = match r.below(150) {
                0 => long(r),
                1..=8 => { let m = gen::heavy(r); let img = encode(&m, r, Style::plain()); Stream { kinds: vec![0], image: img.bytes, faults: vec![] } }
                9..=30 => { let d = r.range(2, 1200); let n = r.range(10, 3000); let m = if r.pct(50) { gen::shaft(r, d, n) } else { gen::tower_of(r, d) }; let img = encode(&m, r, Style::plain()); Stream { kinds: vec![0], image: img.bytes, faults: vec![] } }
                31..=35 => { let n = r.range(2_000, 60_000); let m = gen::bulk(r, n); let img = encode(&m, r, Style::plain()); let faults = if r.pct(30) { Injector { image: &img, old: None }.trace(r, 1, LABELS) } else { vec![] }; Stream { kinds: vec![0], image: img.bytes, faults } }
                _ => stream(r, &p).0,
            };
            // optimising turns some recursions into loops
            if r.pct(if s.image.len() > 4_000 { 40 } else { 1 }) { c.set("program", vec![1]); }
            c.streams.push(s);
        }
        "C24" => {
            let n = r.range(1, 4);
            let (img, _) = module_image(r, true, 20);
            for i in 0..n {
                // copies of one module, more or less changed, or something else
                if i > 0 && img.bytes.len() < 20_000 && r.pct(50) {
                    let faults = if r.pct(40) { vec![] } else { Injector { image: &img, old: None }.trace(r, 1, SOFT) };
                    c.streams.push(Stream { kinds: vec![0], image: img.bytes.clone(), faults });
                } else {
                    let p = Profile { element: 0, mutate: 30, calm: 70, faults: 2, noise: 2, small: r.pct(85), ..base };
                    c.streams.push(modest(r, &p));
                }
            }
            let threads = r.range(2, 4);
            let mut task = vec![];
            // decoded by some, used by others, dropped by yet others
            for s in 0..n { task.extend([0, r.below(threads) as i64, 0, s as i64, 0]); }
            for _ in 0..r.range(2, 12) { task.extend([1, r.below(threads) as i64, 1 + r.below(4) as i64, r.below(n) as i64, r.below(n) as i64]); }
            for s in 0..n { if r.pct(30) { task.extend([2, r.below(threads) as i64, 1 + r.below(3) as i64, s as i64, r.below(n) as i64]); } task.extend([2, r.below(threads) as i64, 5, s as i64, 0]); }
            c.set("task", task);
            let mut sched = vec![];
            let k = r.skewed(120);
            let grain = *r.pick(&[2usize, 8, 40, 300]);
            for _ in 0..k { sched.extend([r.below(threads) as i64, 1 + r.below(grain) as i64]); }
            c.set("sched", sched);
        }
        _ => crate::cli::gen(prop, r, &mut c),
    }
    c
}

/// A module image for the command line checks.
pub fn file_image(r: &mut Rng, valid: usize) -> Stream {
    let p = if r.pct(valid) { Profile { element: 0, mutate: 0, calm: 100, faults: 1, noise: 0, small: true, menu: LABELS } } else { Profile { element: 0, mutate: 50, calm: 40, faults: 4, noise: 5, small: true, menu: LABELS } };
    modest(r, &p)
}

/// What the library says about contents that are not a valid module, and which part of it says so.
pub fn complaint(bytes: &[u8]) -> Option<(String, &'static str)> {
    match decode_module(&mut Src::new(bytes), 1).ok()? {
        Err(e) => Some((e.to_string(), "decoder")),
        Ok(m) => match catch_unwind(AssertUnwindSafe(|| m.validate().map(|_| ()).map_err(|e| e.to_string()))) { Ok(Err(e)) => Some((e, "validator")), _ => None },
    }
}

/// The library's own formatting of a module, without any fault.
pub fn dump(bytes: &[u8]) -> Option<String> {
    let m = decode_module(&mut Src::new(bytes), 1).ok()?.ok()?;
    Some(format!("{:#?}", m))
}

// ------------------------------------------------------------------------------------------------
// Judging

/// Outcomes of the streams of a case, each obtained alone in a fresh process.
pub type Base = Option<Vec<Option<Vec<u8>>>>;

pub fn run_case(prop: &str, c: &Case, st: &mut Stats, base: Base) -> Fail {
    note_faults(st, c);
    if prop == "C18" || prop == "C20" { model::DEPTH.store(DEEP, Relaxed); }
    let t0 = sys::CLOCK.load(Relaxed);
    meter::BAD.store(0, Relaxed);
    let f = match prop {
        "C01" => c01(c, st),
        "C02" => c02(c, st),
        "C03" => c03(c, st),
        "C04" => c04(c, st),
        "C05" => c05(c, st),
        "C06" => c06(c, st, base),
        "C07" => c07(c, st),
        "C08" => c08(c, st),
        "C09" => c09(c, st),
        "C12" => c12(c, st),
        "C13" => c13(c, st),
        "C16" => c16(c, st),
        "C18" => c18(c, st),
        "C19" => c19(c, st),
        "C20" => c20(c, st),
        "C23" => c23(c, st),
        "C24" => c24(c, st),
        _ => crate::cli::run(prop, c, st),
    };
    st.add("simulated microseconds", (sys::CLOCK.load(Relaxed) - t0) / 1000);
    f
}

fn see_out(st: &mut Stats, o: &Out) {
    let h = match o {
        Out::Val(c) => hash(&c.out),
        Out::Err(e) => hash(format!("{:?}", e).as_bytes()),
        Out::Stop(s) => hash(s.as_bytes()),
        Out::Panic(m) => hash(m.as_bytes()),
    };
    st.see(h);
}

/// Did decoding give what the model says?
fn agree(kind: usize, m: &Modelled, o: &Out) -> Fail {
    if let Some(f) = crash("decoding", o) { return Some(f); }
    match (&m.res, o) {
        (Ok(want), Out::Val(got)) => diff(want, got).map(|d| format!("value: {} {}", KINDS[kind].name, d)),
        (Ok(_), Out::Err(e)) => Some(format!("rejected: a well-formed {} was rejected with {:?}", KINDS[kind].name, e)),
        (Err(f), Out::Val(_)) => Some(format!("accepted: a {} with a defect ({}) at byte {} was accepted", KINDS[kind].name, class_name(f.defect), m.pos)),
        _ => None,
    }
}

fn c01(c: &Case, st: &mut Stats) -> Fail {
    for s in &c.streams {
        let bytes = s.bytes();
        let kind = s.kinds.first().copied().unwrap_or(0);
        st.evals += 1;
        let m = modelled(kind, &bytes);
        if matches!(&m.res, Err(f) if skip_depth(f)) { st.add("skipped: out of bounds", 1); continue; }
        note_model(st, kind, &bytes, &m);
        let o = decode(kind, &mut Src::new(&bytes), 1);
        see_out(st, &o);
        let f = agree(kind, &m, &o);
        if f.is_some() { return f; }
    }
    None
}

fn c02(c: &Case, st: &mut Stats) -> Fail {
    for s in &c.streams {
        let bytes = s.bytes();
        st.evals += 1;
        let d = model::decode_module(&bytes);
        if d.out_of_bounds() { st.add("skipped: out of bounds", 1); continue; }
        let m = match d.result { Ok(m) => m, Err(_) => { st.add("skipped: does not decode", 1); continue; } };
        let want = validate::validate(&m);
        let lib = match decode_module(&mut Src::new(&bytes), 1) { Ok(Ok(m)) => m, _ => { st.add("skipped: library does not decode", 1); continue; } };
        let got = lib_validate(&lib, 1);
        st.sigs.insert(hash(&bytes));
        match &want {
            Ok(_) => st.add("model:valid", 1),
            Err(e) => { st.add(&format!("model:invalid:{}", e), 1); st.reach.insert(hash(e.as_bytes())); }
        }
        for f in &m.funcs { ops_used(&f.body, want.is_ok(), st); }
        st.see(match &got { Ok(Ok(c)) => hash(&c.out), Ok(Err(e)) => hash(e.as_bytes()), _ => 3 });
        match (&want, &got) {
            (_, Err(o)) => return crash("validation", o).or_else(|| Some("panic: validation did not finish".into())),
            (Ok(_), Ok(Err(_))) => return Some("refused: a valid module failed validation".into()),
            (Err(e), Ok(Ok(_))) => return Some(format!("passed: an invalid module ({}) passed validation", e)),
            _ => (),
        }
    }
    None
}

fn ops_used(e: &[model::Instr], valid: bool, st: &mut Stats) {
    for i in e {
        st.reach.insert(mix(i.op as u64 ^ (valid as u64) << 32 ^ 0x1234_0000_0000));
        match &i.imm {
            model::Imm::Block(_, b) => ops_used(b, valid, st),
            model::Imm::If(_, a, b) => { ops_used(a, valid, st); ops_used(b, valid, st) }
            _ => (),
        }
    }
}

fn c03(c: &Case, st: &mut Stats) -> Fail {
    for s in &c.streams {
        let bytes = s.bytes();
        let kind = s.kinds.first().copied().unwrap_or(0);
        for cut in c.num("cuts") {
            let cut = (*cut).max(0) as usize;
            if cut > bytes.len() { continue; }
            let part = &bytes[..cut];
            st.evals += 1;
            let m = modelled(kind, part);
            if matches!(&m.res, Err(f) if skip_depth(f)) { st.add("skipped: out of bounds", 1); continue; }
            note_model(st, kind, part, &m);
            let o = decode(kind, &mut Src::new(part), 1);
            see_out(st, &o);
            if let Some(f) = agree(kind, &m, &o) { return Some(format!("{} (stream cut after byte {} of {})", f, cut, bytes.len())); }
        }
    }
    None
}

fn c04(c: &Case, st: &mut Stats) -> Fail {
    for s in &c.streams {
        let bytes = s.bytes();
        st.evals += 1;
        // what a front-to-back reader needs
        let mut r = Reader::new(&bytes);
        let mut ends = vec![];
        let mut last: Option<Failure> = None;
        for k in &s.kinds {
            match (KINDS[*k].model)(&mut r) {
                Ok(_) => ends.push(r.pos),
                Err(f) => { last = Some(f); break; }
            }
            if *k == 0 { break; }
        }
        if matches!(&last, Some(f) if skip_depth(f)) { st.add("skipped: out of bounds", 1); continue; }
        let unbounded = matches!(&last, Some(f) if f.defect == Defect::Count);
        let needed = r.pos;
        st.sigs.insert(hash(&bytes) ^ s.kinds.len() as u64);
        st.add(if last.is_some() { "model:ends in a defect" } else { "model:all decoded" }, 1);
        st.add("elements", s.kinds.len() as u64);
        for k in &s.kinds { st.reach.insert(mix(*k as u64 + 1000 * last.is_some() as u64)); }
        // the peer falls silent after the last needed byte, unless the data ends there anyway
        let silent = !r.hit_end && !unbounded;
        let data = if unbounded { &bytes[..] } else { &bytes[..needed] };
        let mut src = Src::with(data, Opt { silent, ..Default::default() });
        for (i, k) in s.kinds.iter().enumerate() {
            if i > ends.len() || (i == ends.len() && last.is_none()) { break; }
            let at = src.pos;
            let o = decode(*k, &mut src, 1);
            see_out(st, &o);
            let failing = i >= ends.len();
            let want = ends.get(i).copied().unwrap_or(needed);
            match &o {
                Out::Stop("overread") => return Some(format!("overread: decoding a {} that starts at byte {} asked for byte {}, but it {} byte {}", KINDS[*k].name, at, needed, if failing { "was already known to be broken after" } else { "ends before" }, want)),
                Out::Panic(_) | Out::Stop("forever") => return crash("decoding", &o),
                Out::Stop(_) => (),
                Out::Val(_) if !failing => if src.pos != want { return Some(format!("position: decoding a {} that starts at byte {} left the stream at byte {} instead of {}", KINDS[*k].name, at, src.pos, want)); },
                // the outcome itself is the business of another property
                _ => { if src.pos > want && !unbounded { return Some(format!("position: a failed {} at byte {} took {} bytes, {} revealed the defect", KINDS[*k].name, at, src.pos - at, want - at)); } break; }
            }
            if failing { break; }
        }
    }
    None
}

// ---- C05

const VIA: usize = 18;

fn fingerprint(r: Result<Canon, binary::Error>) -> Vec<u8> {
    match r {
        Ok(c) => { let mut v = vec![1]; v.extend(c.out); v }
        Err(e) => { let mut v = vec![0]; v.extend(format!("{:?}", e).into_bytes()); v }
    }
}

fn out_print(o: Out) -> Result<Vec<u8>, Out> {
    match o { Out::Val(c) => Ok(fingerprint(Ok(c))), Out::Err(e) => Ok(fingerprint(Err(e))), o => Err(o) }
}

/// Decodes through a concrete iterator type; returns the outcome and how many bytes were left.
fn mono<I: Iterator<Item = u8>>(kind: usize, mut it: I) -> Result<(Vec<u8>, usize), Out> {
    let o = if kind == 0 {
        match meter::inside(1, || catch_unwind(AssertUnwindSafe(|| <Module as WasmBinaryParse>::parse(&mut it)))) {
            Ok(Ok(m)) => Out::Val(canon_of(&m)),
            Ok(Err(e)) => Out::Err(e),
            Err(p) => stopped(p),
        }
    } else {
        decode(kind, &mut it, 1)
    };
    let p = out_print(o)?;
    let mut left = 0;
    while it.next().is_some() { left += 1; }
    Ok((p, left))
}

fn delivered(kind: usize, bytes: &[u8], via: &[i64], chunks: &[i64]) -> Result<(Vec<u8>, usize), Out> {
    let a = via[1].unsigned_abs() as usize;
    let b = via[2].unsigned_abs() as usize;
    let n = bytes.len();
    match via[0] {
        0 => mono(kind, bytes.iter().copied()),
        1 => mono(kind, Link::new(bytes, chunks)),
        2 => mono(kind, std::io::Read::bytes(std::io::BufReader::with_capacity(b + 1, Disk::new(bytes, chunks))).map_while(|x| x.ok())),
        3 => { let k = if n == 0 { 0 } else { (a * 7 + b) % n }; mono(kind, bytes[..k].iter().copied().chain(bytes[k..].iter().copied())) }
        4 => mono(kind, bytes.chunks(a + 1).flat_map(|c| c.to_vec())),
        5 => mono(kind, bytes.iter().copied().collect::<VecDeque<u8>>().into_iter()),
        6 => { let mut v = vec![0xEE; a]; v.extend_from_slice(bytes); mono(kind, v.into_iter().skip(a)) }
        7 => { let mut v = vec![]; for x in bytes { v.push(*x); v.extend(std::iter::repeat(0x55).take(a % 4)); } mono(kind, v.into_iter().step_by(a % 4 + 1)) }
        8 => { let mut p = bytes.iter().copied().peekable(); p.peek(); mono(kind, p) }
        9 => { let mut v = bytes.to_vec(); v.extend(std::iter::repeat(0x0B).take(a + 1)); mono(kind, v.into_iter().take(n)) }
        10 => { let mut v = bytes.to_vec(); v.reverse(); mono(kind, v.into_iter().rev()) }
        11 => { let bx: Box<dyn Iterator<Item = u8> + '_> = Box::new(bytes.iter().copied().filter(|_| true)); mono(kind, bx) }
        12 => { let mut i = 0; mono(kind, std::iter::from_fn(|| { i += 1; bytes.get(i - 1).copied() })) }
        13 => mono(kind, bytes.iter().map(|x| x ^ 0x5A).map(|x| x ^ 0x5A).fuse().inspect(|_| ())),
        14 => {
            // a source that goes on after having reported its end
            let late: Vec<u8> = (0..a + 1).map(|i| if b % 3 == 0 { 0 } else { (i * 37 + b) as u8 }).collect();
            let mut s = Src::with(bytes, Opt { late, ..Default::default() });
            let o = if kind == 0 {
                match meter::inside(1, || catch_unwind(AssertUnwindSafe(|| <Module as WasmBinaryParse>::parse(&mut s)))) {
                    Ok(Ok(m)) => Out::Val(canon_of(&m)),
                    Ok(Err(e)) => Out::Err(e),
                    Err(p) => stopped(p),
                }
            } else { decode(kind, &mut s, 1) };
            let left = n - s.pos;
            Ok((out_print(o)?, left))
        }
        k => {
            let mut s = Src::with(bytes, Opt { hint: (k - 14) as u8, ..Default::default() });
            let o = decode(kind, &mut s, 1);
            Ok((out_print(o)?, n - s.pos))
        }
    }
}

fn c05(c: &Case, st: &mut Stats) -> Fail {
    for s in &c.streams {
        let bytes = s.bytes();
        let kind = s.kinds.first().copied().unwrap_or(0);
        let m = modelled(kind, &bytes);
        if matches!(&m.res, Err(f) if skip_depth(f)) { st.add("skipped: out of bounds", 1); continue; }
        note_model_as(st, kind, &bytes, &m, false);
        let deep = kind != 0 || m.res.is_ok() || m.pos > 8;
        let mut src = Src::new(&bytes);
        let o = decode(kind, &mut src, 1);
        see_out(st, &o);
        let f = crash("decoding", &o);
        if f.is_some() { return f; }
        let plain = match out_print(o) { Ok(p) => (p, bytes.len() - src.pos), Err(_) => continue };
        for v in c.num("via").chunks(3) {
            if v.len() < 3 { continue; }
            st.evals += 1;
            st.add(&format!("delivery:{}", VIA_NAMES[v[0] as usize % VIA]), 1);
            if deep { st.sigs.insert(hash(&bytes) ^ mix(v[0] as u64 + 100 * v[1] as u64 + 1_000_000 * v[2] as u64)); }
            match delivered(kind, &bytes, v, c.num("chunks")) {
                Err(o) => return crash("decoding", &o).or_else(|| Some("delivery: decoding did not finish".into())),
                Ok(got) => {
                    st.see(hash(&got.0));
                    if got.0 != plain.0 {
                        let show = |p: &[u8]| if p[0] == 1 { format!("a value ({} canonical bytes)", p.len() - 1) } else { String::from_utf8_lossy(&p[1..]).into_owned() };
                        return Some(format!("outcome: delivered byte by byte the outcome of a {} is {}, delivered by '{}' it is {}", KINDS[kind].name, show(&plain.0), VIA_NAMES[v[0] as usize % VIA], show(&got.0)));
                    }
                    if got.1 != plain.1 { return Some(format!("position: delivered byte by byte a {} leaves {} bytes on the stream, delivered by '{}' it leaves {}", KINDS[kind].name, plain.1, VIA_NAMES[v[0] as usize % VIA], got.1)); }
                }
            }
        }
    }
    None
}

pub const VIA_NAMES: [&str; VIA] = ["slice", "link with chunks and pauses", "buffered short and interrupted reads", "two parts", "flattened chunks", "ring buffer", "skipped prefix", "every nth", "peeked", "limited view", "reversed", "boxed", "closure", "mapped", "bytes after the end", "no length hint", "upper bound only", "lower bound only"];

// ---- C06

const OPS6: usize = 11;

/// Everything observable about decoding and validating a stream.
pub fn outcome(kinds: &[usize], src: Dyn, region: u32) -> Result<Vec<u8>, Out> {
    let kind = kinds.first().copied().unwrap_or(0);
    if kind != 0 { return out_print(decode(kind, src, region)); }
    match decode_module(src, region)? {
        Err(e) => Ok(fingerprint(Err(e))),
        Ok(m) => {
            let mut v = validated(&m, region)?;
            drop_in(region, m)?;
            v.insert(0, 1);
            Ok(v)
        }
    }
}

fn validated(m: &Module, region: u32) -> Result<Vec<u8>, Out> {
    let before = canon_of(m);
    let mut v = before.out.clone();
    for _ in 0..2 {
        match lib_validate(m, region)? {
            Ok(c) => { v.push(1); v.extend(c.out) }
            Err(e) => { v.push(0); v.extend(e.into_bytes()) }
        }
    }
    if canon_of(m).out != before.out { v.extend(b"module changed by validation"); }
    Ok(v)
}

fn alone(s: &Stream) -> Option<Vec<u8>> {
    let bytes = s.bytes();
    let m = modelled(s.kinds.first().copied().unwrap_or(0), &bytes);
    if matches!(&m.res, Err(f) if skip_depth(f)) { return None; }
    let (out, end) = sys::isolated(20, || match outcome(&s.kinds, &mut Src::new(&bytes), 1) { Ok(mut v) => { v.push(0xAA); v } Err(_) => vec![] });
    match (end, out.is_empty()) { (sys::Ended::Exit(0), false) => Some(out[..out.len() - 1].to_vec()), _ => None }
}

pub fn baselines(c: &Case) -> Base { Some(c.streams.iter().map(alone).collect()) }

type Outcomes = std::cell::RefCell<Vec<(usize, Result<Vec<u8>, Out>)>>;

/// Decodings one inside the other: each starts while the one around it waits for a byte.
fn nest(bytes: &[Vec<u8>], kinds: &[Vec<usize>], order: &[usize], at: usize, region: u32, all: &Outcomes) {
    let (s, rest) = match order.split_first() { Some((s, rest)) => (*s, rest), None => return };
    let mut src = Src::new(&bytes[s]);
    let pos = at.min(bytes[s].len());
    src.visit = Some((pos, Box::new(move || nest(bytes, kinds, rest, at, region, all))));
    let r = outcome(&kinds[s], &mut src, region);
    drop(src);
    all.borrow_mut().push((s, r));
}

struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait Otherwise { fn sync(&self) -> bool { false } }
impl<T> Otherwise for &Probe<T> {}
impl<T: Sync> Probe<T> { fn sync(&self) -> bool { true } }
struct Probe2<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait Otherwise2 { fn send(&self) -> bool { false } }
impl<T> Otherwise2 for &Probe2<T> {}
impl<T: Send> Probe2<T> { fn send(&self) -> bool { true } }

struct Shared<T>(*const T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

fn c06(c: &Case, st: &mut Stats, base: Base) -> Fail {
    st.evals += 1;
    let base = match base { Some(b) => b, None => baselines(c).unwrap() };
    if !(&Probe::<Module>(std::marker::PhantomData)).sync() { return Some("sharing: a module cannot be shared between threads".into()); }
    let bytes: Vec<Vec<u8>> = c.streams.iter().map(|s| s.bytes()).collect();
    // modules for shared validation are decoded before the threads start
    let mut owned: Vec<Option<Box<Module>>> = vec![];
    for (i, s) in c.streams.iter().enumerate() {
        let m = if s.kinds.first() == Some(&0) && base[i].is_some() { match decode_module(&mut Src::new(&bytes[i]), 1) { Ok(Ok(m)) => Some(Box::new(m)), _ => None } } else { None };
        owned.push(m);
    }
    let shared: Arc<Vec<Option<Shared<Module>>>> = Arc::new(owned.iter().map(|m| m.as_ref().map(|m| Shared(&**m as *const _))).collect());
    let mut threads: BTreeMap<i64, Vec<[i64; 4]>> = BTreeMap::new();
    for t in c.num("task").chunks(5) {
        if t.len() == 5 { threads.entry(t[0]).or_default().push([t[1], t[2], t[3], t[4]]); }
    }
    type Got = Vec<(usize, &'static str, Result<Vec<u8>, String>)>;
    let got: Arc<Mutex<BTreeMap<usize, Got>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let kinds: Arc<Vec<Vec<usize>>> = Arc::new(c.streams.iter().map(|s| s.kinds.clone()).collect());
    let bytes = Arc::new(bytes);
    let usable: Arc<Vec<bool>> = Arc::new(base.iter().map(|b| b.is_some()).collect());
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (ti, (_, list)) in threads.into_iter().enumerate().take(sched::MAX) {
        let (bytes, kinds, got, usable, shared) = (bytes.clone(), kinds.clone(), got.clone(), usable.clone(), shared.clone());
        for l in &list { st.add(&format!("work:{}", OP_NAMES[l[0] as usize % OPS6]), 1); }
        tasks.push(Box::new(move || {
            let region = 2 + ti as u32;
            let mut out: Got = vec![];
            for [op, s, s2, at] in list {
                let (s, s2, at) = (s as usize, s2 as usize, at.max(0) as usize);
                if s >= bytes.len() || s2 >= bytes.len() || !usable[s] || !usable[s2] { continue; }
                let name = OP_NAMES[op as usize % OPS6];
                let text = |r: Result<Vec<u8>, Out>| r.map_err(|o| crash("the work", &o).unwrap_or_else(|| "panic: the work did not finish".into()));
                match op {
                    1 => {
                        let inner: std::cell::RefCell<Option<Result<Vec<u8>, Out>>> = Default::default();
                        let mut src = Src::new(&bytes[s]);
                        src.visit = Some((at, Box::new(|| { let r = outcome(&kinds[s2], &mut Src::new(&bytes[s2]), region); *inner.borrow_mut() = Some(r) })));
                        let r = outcome(&kinds[s], &mut src, region);
                        drop(src);
                        out.push((s, name, text(r)));
                        if let Some(r) = inner.into_inner() { out.push((s2, "nested inside another decoding", text(r))); }
                    }
                    2 => {
                        let mut src = Src::with(&bytes[s], Opt { abandon_at: Some(at), ..Default::default() });
                        match outcome(&kinds[s], &mut src, region) {
                            Err(Out::Stop("abandoned")) => (),
                            r => out.push((s, name, text(r))),
                        }
                        out.push((s2, "after an abandoned decoding", text(outcome(&kinds[s2], &mut Src::new(&bytes[s2]), region))));
                    }
                    3 => {
                        // two modules one after the other at the same address
                        let a = decode_module(&mut Src::new(&bytes[s]), region);
                        let b = decode_module(&mut Src::new(&bytes[s2]), region);
                        if let (Ok(Ok(a)), Ok(Ok(b)), true, true) = (a, b, kinds[s] == [0], kinds[s2] == [0]) {
                            let mut place = Box::new(a);
                            let mark = |r: Result<Vec<u8>, Out>| text(r.map(|mut v| { v.insert(0, 1); v }));
                            out.push((s, name, mark(validated(&place, region))));
                            *place = b;
                            out.push((s2, "validated where another module was", mark(validated(&place, region))));
                        }
                    }
                    4 => if let Some(p) = &shared[s] {
                        let m: &Module = unsafe { &*p.0 };
                        out.push((s, name, text(validated(m, region).map(|mut v| { v.insert(0, 1); v }))));
                    },
                    5 => {
                        // a long history of failures
                        let cut = &bytes[s][..at.min(bytes[s].len())];
                        let n = (40_000 / (cut.len() + 20)).clamp(3, 1500);
                        for _ in 0..n { let _ = decode(kinds[s].first().copied().unwrap_or(0), &mut Src::new(cut), region); }
                        out.push((s, name, text(outcome(&kinds[s], &mut Src::new(&bytes[s]), region))));
                    }
                    7 => {
                        let n = (40_000 / (at + 20)).clamp(3, 1500);
                        for _ in 0..n { let _ = outcome(&kinds[s], &mut Src::with(&bytes[s], Opt { abandon_at: Some(at), ..Default::default() }), region); }
                        out.push((s, name, text(outcome(&kinds[s], &mut Src::new(&bytes[s]), region))));
                    }
                    8 => {
                        let n = (20_000 / (bytes[s].len() + 20)).clamp(3, 1500);
                        let first = outcome(&kinds[s], &mut Src::new(&bytes[s]), region);
                        let mut last = outcome(&kinds[s], &mut Src::new(&bytes[s]), region);
                        for _ in 2..n {
                            if matches!((&first, &last), (Ok(a), Ok(b)) if a == b) { last = outcome(&kinds[s], &mut Src::new(&bytes[s]), region); }
                        }
                        out.push((s, name, text(first)));
                        out.push((s, name, text(last)));
                    }
                    10 => {
                        if let (Ok(Ok(m)), [0]) = (decode_module(&mut Src::new(&bytes[s]), region), &kinds[s][..]) {
                            let n = (100_000 / (bytes[s].len() + 20)).clamp(3, 1500);
                            for _ in 0..n { let _ = lib_validate(&m, region); }
                        }
                        out.push((s2, name, text(outcome(&kinds[s2], &mut Src::new(&bytes[s2]), region))));
                        out.push((s, name, text(outcome(&kinds[s], &mut Src::new(&bytes[s]), region))));
                    }
                    9 => {
                        let order: Vec<usize> = (0..2 + at % 7).map(|i| if i % 2 == 0 { s } else { s2 }).collect();
                        let all = Default::default();
                        nest(&bytes, &kinds, &order, at, region, &all);
                        for (s, r) in all.into_inner() { out.push((s, name, text(r))); }
                    }
                    6 => for _ in 0..3 { out.push((s, name, text(outcome(&kinds[s], &mut Src::new(&bytes[s]), region)))); },
                    _ => out.push((s, name, text(outcome(&kinds[s], &mut Src::new(&bytes[s]), region)))),
                }
            }
            got.lock().unwrap().insert(ti, out);
        }));
    }
    let plan: Vec<(usize, i64)> = c.num("sched").chunks(2).filter(|p| p.len() == 2).map(|p| (p[0].max(0) as usize, p[1])).collect();
    let n = tasks.len();
    let tr = sched::run(&plan, tasks);
    st.add("threads", n as u64);
    st.add("context switches", tr.switches);
    st.add("scheduling points", tr.steps);
    if tr.deadlock { return Some("deadlock: the threads wait for each other for ever".into()); }
    let mut h = mix(tr.hash ^ n as u64);
    for b in bytes.iter() { h = mix(h ^ hash(b)); }
    st.see(tr.hash);
    if tr.switches > 0 { st.sigs.insert(h); st.reach.insert(tr.hash); }
    let got = got.lock().unwrap();
    let mut fail = None;
    for list in got.values() {
        for (s, how, r) in list {
            match r {
                Err(m) => fail = fail.or(Some(m.clone())),
                Ok(v) => {
                    st.see(hash(v));
                    let want = base[*s].as_ref().unwrap();
                    if v != want && fail.is_none() {
                        let at = v.iter().zip(want).take_while(|(a, b)| a == b).count();
                        fail = Some(format!("outcome: stream {} ({}) does not give the outcome it gives alone in a fresh process (first difference at byte {} of {} / {})", s, how, at, want.len(), v.len()));
                    }
                }
            }
        }
    }
    for (i, m) in owned.iter().enumerate() {
        if let (Some(m), Some(Some(want))) = (m, base.get(i)) {
            let now = canon_of(m).out;
            if fail.is_none() && want.get(1..1 + now.len()) != Some(&now[..]) { fail = Some(format!("changed: module {} differs after validation", i)); }
        }
    }
    fail
}

const OP_NAMES: [&str; OPS6] = ["decoded and validated", "decoded around a nested decoding", "abandoned", "validated and replaced", "validated while shared", "decoded after many failures", "decoded repeatedly", "decoded after many abandonments", "decoded after many successes", "innermost to outermost of several nested decodings", "decoded after many validations"];

// ---- C07

/// One piece of work that ends in a given way and drops everything.
fn work(kind: usize, bytes: &[u8], end: i64, region: u32) -> Out {
    let (data, opt) = match end {
        0 => (bytes, Opt::default()),
        e if e > 0 => (&bytes[..((e - 1) as usize).min(bytes.len())], Opt::default()),
        e => (bytes, Opt { abandon_at: Some((-e - 1) as usize), ..Default::default() }),
    };
    let mut src = Src::with(data, opt);
    if kind != 0 {
        let o = decode(kind, &mut src, region);
        return o;
    }
    match decode_module(&mut src, region) {
        Err(o) => o,
        Ok(Err(e)) => Out::Err(e),
        Ok(Ok(m)) => {
            let a = lib_validate(&m, region);
            let b = lib_validate(&m, region);
            if let Err(o) = drop_in(region, m) { return o; }
            if let Err(o) = a { return o; }
            if let Err(o) = b { return o; }
            Out::Stop("done")
        }
    }
}

fn held() -> (i64, i64) { (meter::LIVE[1].load(Relaxed), meter::COUNT[1].load(Relaxed)) }

fn c07(c: &Case, st: &mut Stats) -> Fail {
    for s in &c.streams {
        let bytes = s.bytes();
        let kind = s.kinds.first().copied().unwrap_or(0);
        let m = modelled(kind, &bytes);
        if matches!(&m.res, Err(f) if skip_depth(f)) { st.add("skipped: out of bounds", 1); continue; }
        note_model(st, kind, &bytes, &m);
        for end in c.num("ends") {
            st.evals += 1;
            let start = held();
            let mut seen = vec![];
            let mut how = "";
            for _ in 0..3 {
                let o = work(kind, &bytes, *end, 1);
                how = match &o { Out::Val(_) | Out::Stop("done") => "success", Out::Err(_) => "an error", Out::Stop("abandoned") => "abandonment", _ => "a crash" };
                drop(o);
                seen.push(held());
            }
            meter::sweep();
            st.add(&format!("ended by {}", how), 1);
            st.see(seen[0].0 as u64 ^ hash(how.as_bytes()));
            if let Some(t) = meter::bad_text() { return Some(format!("release: {} (work on a {} that ended by {})", t, KINDS[kind].name, how)); }
            // one-time initialisation is not a leak; growth on every repetition is
            if seen[1].0 > seen[0].0 && seen[2].0 > seen[1].0 {
                return Some(format!("leak: {} bytes in {} blocks are kept each time work on a {} ends by {}", seen[2].0 - seen[1].0, seen[2].1 - seen[1].1, KINDS[kind].name, how));
            }
            if seen[2].0 > start.0 { st.add("grown", 1); }
        }
    }
    None
}

/// Memory kept per distinct input shows as steady growth over a batch.
pub fn batch_growth(grown: &[(u64, i64)]) -> Fail {
    let half = grown.len() / 2;
    let late: Vec<&(u64, i64)> = grown[half..].iter().filter(|g| g.1 > 0).collect();
    if grown.len() >= 64 && late.len() * 8 >= grown.len() - half {
        let total: i64 = late.iter().map(|g| g.1).sum();
        return Some(format!("leak: memory held grows with every new input ({} of the last {} inputs, {} bytes)", late.len(), grown.len() - half, total));
    }
    None
}

// ---- C08

pub const CONSTANT: i64 = 1 << 20;
pub const PER_BYTE: i64 = 1024;
pub const PER_LOCAL: i64 = 64;

fn c08(c: &Case, st: &mut Stats) -> Fail {
    for s in &c.streams {
        let bytes = s.bytes();
        let kind = s.kinds.first().copied().unwrap_or(0);
        st.evals += 1;
        let m = modelled(kind, &bytes);
        if matches!(&m.res, Err(f) if skip_depth(f)) { st.add("skipped: out of bounds", 1); continue; }
        note_model(st, kind, &bytes, &m);
        let f = c08_stream(kind, &bytes, m.locals as i64, st);
        if f.is_some() { return f; }
    }
    None
}

pub fn c08_stream(kind: usize, bytes: &[u8], locals: i64, st: &mut Stats) -> Fail {
    let live = meter::LIVE[1].load(Relaxed);
    meter::reset(1);
    meter::LIMIT[1].store(live + CONSTANT + PER_LOCAL * locals, Relaxed);
    let mut src = Src::with(bytes, Opt { allow: Some((PER_BYTE, 0)), hint: (hash(bytes) % 5) as u8, ..Default::default() });
    let o = decode(kind, &mut src, 1);
    let over = meter::OVER[1].load(Relaxed);
    let peak = meter::PEAK[1].load(Relaxed) - live;
    let got = src.pos;
    meter::reset(1);
    see_out(st, &o);
    let per = peak / (got as i64 + 1).max(1);
    let e = st.counts.entry("max:peak bytes held".into()).or_insert(0);
    *e = (*e).max(peak.max(0) as u64);
    if got > 256 && locals == 0 { let e = st.counts.entry("max:peak per delivered byte (streams over 256 bytes)".into()).or_insert(0); *e = (*e).max(per.max(0) as u64); }
    st.reach.insert(mix(kind as u64 ^ ((64 - (peak.max(1) as u64).leading_zeros() as u64) << 32)));
    if over > 0 { return Some(format!("memory: {} bytes were held while decoding a {} of which at most {} bytes had been delivered", over - live, KINDS[kind].name, got)); }
    None
}

// ---- C09

/// Nesting that an ordinary stack must bear, and beyond which dumps become too large.
pub const USUAL_DEPTH: usize = 100;

/// Indented text of something nested takes time by depth times length, so it ends somewhere.
const PAGE: usize = 1 << 20;
struct Sink(u64);
impl std::fmt::Write for Sink { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len() as u64; if self.0 as usize > PAGE { Err(std::fmt::Error) } else { Ok(()) } } }
struct Page(String);
impl std::fmt::Write for Page { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0.len() + s.len() > PAGE { return Err(std::fmt::Error); } self.0.push_str(s); Ok(()) } }

fn c09(c: &Case, st: &mut Stats) -> Fail {
    for s in &c.streams {
        let bytes = s.bytes();
        let kind = s.kinds.first().copied().unwrap_or(0);
        st.evals += 1;
        let m = modelled(kind, &bytes);
        if matches!(&m.res, Err(f) if skip_depth(f)) { st.add("skipped: out of bounds", 1); continue; }
        note_model(st, kind, &bytes, &m);
        let e = st.counts.entry("max:nesting".into()).or_insert(0);
        *e = (*e).max(m.depth as u64);
        let f = if m.depth <= USUAL_DEPTH { runner::on_stack(runner::USUAL, || c09_stream(kind, &bytes, m.locals < 5_000, st)) } else { c09_stream(kind, &bytes, false, st) };
        if f.is_some() { return f; }
    }
    None
}

pub fn c09_stream(kind: usize, bytes: &[u8], print: bool, st: &mut Stats) -> Fail {
    use std::fmt::Write;
    let mut src = Src::with(bytes, Opt { hint: (bytes.len() % 5) as u8, ..Default::default() });
    let show = |e: &binary::Error| catch_unwind(AssertUnwindSafe(|| meter::inside(1, || { let mut k = Sink(0); let _ = write!(k, "{} {:?} {:#?}", e, e, e); k.0 }))).map_err(stopped);
    if kind != 0 {
        let o = decode(kind, &mut src, 1);
        see_out(st, &o);
        if let Out::Err(e) = &o { if let Err(o) = show(e) { return crash("printing the error", &o); } }
        return crash("decoding", &o).or_else(corrupted);
    }
    let m = match decode_module(&mut src, 1) {
        Err(o) => return crash("decoding", &o),
        Ok(Err(e)) => {
            st.see(hash(format!("{:?}", e).as_bytes()));
            if let Err(o) = show(&e) { return crash("printing the error", &o); }
            return corrupted();
        }
        Ok(Ok(m)) => m,
    };
    st.add("modules validated, printed, compared and dropped", 1);
    for _ in 0..2 {
        match lib_validate(&m, 1) {
            Err(o) => return crash("validation", &o).or_else(|| Some("panic: validation did not finish".into())),
            Ok(r) => st.see(r.is_ok() as u64),
        }
    }
    if print {
        let r = meter::inside(1, || catch_unwind(AssertUnwindSafe(|| { let (mut k, mut l) = (Sink(0), Sink(0)); let _ = write!(k, "{:?}", m); let _ = write!(l, "{:#?}", m); k.0 ^ l.0 << 32 }))).map_err(stopped);
        match r { Err(o) => return crash("printing the module", &o), Ok(n) => st.see(n) }
    }
    let r = meter::inside(1, || catch_unwind(AssertUnwindSafe(|| m == m))).map_err(stopped);
    if let Err(o) = r { return crash("comparing the module", &o); }
    if let Err(o) = drop_in(1, m) { return crash("dropping the module", &o); }
    corrupted()
}

fn corrupted() -> Fail {
    meter::bad_text().map(|t| format!("corruption: {}", t))
}

// ---- C12

fn c12(c: &Case, st: &mut Stats) -> Fail {
    for s in &c.streams {
        let bytes = s.bytes();
        let kind = s.kinds.first().copied().unwrap_or(0);
        st.evals += 1;
        let m = modelled(kind, &bytes);
        let want = match &m.res { Err(f) if skip_depth(f) => { st.add("skipped: out of bounds", 1); continue; } Err(f) => f, Ok(_) => { st.add("skipped: well formed", 1); continue; } };
        note_model(st, kind, &bytes, &m);
        let o = decode(kind, &mut Src::new(&bytes), 1);
        see_out(st, &o);
        match &o {
            Out::Err(e) if !admissible(want, e) => return Some(format!("report: the first defect is '{}' ({:?}, revealed by byte {} of {}), reported is {:?}", class_name(want.defect), want.defect, m.pos, bytes.len(), e)),
            Out::Err(e) => {
                let f = message(want, e);
                if f.is_some() { return f; }
            }
            Out::Panic(_) | Out::Stop("forever") => return crash("decoding", &o),
            _ => (),
        }
    }
    None
}

/// One stream for each class of defect.
const EXAMPLES: [&[u8]; 11] = [
    b"\0as",
    b"\0asn\x01\0\0\0",
    b"\0asm\x02\0\0\0",
    b"\0asm\x01\0\0\0\x01\x01\0\x01\x01\0",
    b"\0asm\x01\0\0\0\x20\0",
    b"\0asm\x01\0\0\0\x01\x02\x01\x61",
    b"\0asm\x01\0\0\0\x01\xff\xff\xff\xff\x7f",
    b"\0asm\x01\0\0\0\x06\x0a\x01\x7f\0\x41\xff\xff\xff\xff\x4f\x0b",
    b"\0asm\x01\0\0\0\x02\x05\x01\x01\xff\0\x03",
    b"\0asm\x01\0\0\0\x01\x04\x01\x60\0\0\x03\x02\x01\0\x0a\x05\x01\x03\0\x05\x0b",
    b"\0asm\x01\0\0\0\x01\x02\0\0",
];

fn worded(e: &binary::Error) -> String { meter::inside(1, || e.to_string()) }
fn without_numbers(s: &str) -> String { s.chars().filter(|c| !c.is_ascii_digit()).collect() }

/// Whether the printed error tells its class from the others and names what it is about.
fn message(want: &Failure, e: &binary::Error) -> Fail {
    static KNOWN: std::sync::OnceLock<Vec<(&'static str, String)>> = std::sync::OnceLock::new();
    let known = KNOWN.get_or_init(|| EXAMPLES.iter().filter_map(|b| match decode(0, &mut Src::new(b), 1) {
        Out::Err(e) => bridge::class(&e).map(|d| (class_name(d), without_numbers(&worded(&e)))),
        _ => None,
    }).collect());
    let d = bridge::class(e)?;
    let said = worded(e);
    let plain = without_numbers(&said);
    if plain.trim().is_empty() { return Some(format!("message: {:?} is printed as nothing", e)); }
    for (name, text) in known {
        if *name != class_name(d) && *text == plain { return Some(format!("message: {:?} is printed as {:?}, as if it were '{}'", e, said, name)); }
    }
    if let Defect::SectionOrder(v) | Defect::UnknownSection(v) | Defect::Variant(v) = d {
        let forms = [format!("{}", v), format!("{:x}", v), format!("{:02x}", v)];
        let words: Vec<String> = said.to_lowercase().split(|c: char| !c.is_ascii_alphanumeric()).map(|w| w.trim_start_matches("0x").to_string()).collect();
        let zero = v == 0 && words.iter().any(|w| w.is_empty());
        if !zero && !forms.iter().any(|f| words.contains(f)) { return Some(format!("message: {:?} is printed as {:?}, without its value", e, said)); }
        let types = TYPES.get_or_init(|| TAGGED.iter().filter_map(|(name, byte)| match decode(bridge::kind(name), &mut Src::new(&[*byte, 0, 0, 0]), 1) {
            Out::Err(e) if matches!(bridge::class(&e), Some(Defect::Variant(_))) => Some((*name, without_numbers(&worded(&e)))),
            _ => None,
        }).collect());
        for (i, (a, x)) in types.iter().enumerate() {
            for (b, y) in &types[..i] { if x == y { return Some(format!("message: unknown discriminants of {} and {} are printed alike, as {:?}", b, a, x)); } }
        }
    }
    if d == Defect::Opcode && want.defect == Defect::Opcode {
        let low = said.to_lowercase();
        let (this, other) = if want.op == 0x05 { ("else", "end") } else { ("end", "else") };
        if low.contains(other) && !low.contains(this) { return Some(format!("message: a misplaced {} is printed as {:?}", this, said)); }
    }
    None
}

/// Types with a discriminant, and a byte that is not one.
const TAGGED: [(&str, u8); 8] = [("limits", 9), ("val-type", 9), ("elem-type", 9), ("func-type", 9), ("mutability", 9), ("import-desc", 9), ("export-desc", 9), ("instr", 0xFE)];
static TYPES: std::sync::OnceLock<Vec<(&'static str, String)>> = std::sync::OnceLock::new();

// ---- C13

fn c13(c: &Case, st: &mut Stats) -> Fail {
    let judge = |want: &Canon, got: &Result<Result<Canon, String>, Out>| -> Fail {
        match got {
            Ok(Ok(c)) => diff(want, c).map(|d| format!("interface: {}", d.replace("decoded value differs from what arrived", "the description differs from the module"))),
            Ok(Err(_)) => None,
            Err(o) => crash("validation", o),
        }
    };
    let mut ready: Vec<(Module, Canon, bool)> = vec![];
    for s in &c.streams {
        let bytes = s.bytes();
        st.evals += 1;
        let d = model::decode_module(&bytes);
        let m = match d.result { Ok(m) => m, Err(_) => { st.add("skipped: does not decode", 1); continue; } };
        let want = match validate::validate(&m) { Ok(i) => i, Err(_) => { st.add("skipped: not valid", 1); continue; } };
        let mut wc = Canon::default();
        validate::canon_interface(&mut wc, &want);
        let lib = match decode_module(&mut Src::new(&bytes), 1) { Ok(Ok(m)) => m, _ => { st.add("skipped: library does not decode", 1); continue; } };
        st.add("imports described", want.imports.len() as u64);
        st.add("exports described", want.exports.len() as u64);
        if !want.imports.is_empty() || !want.exports.is_empty() { st.sigs.insert(hash(&bytes)); }
        for (i, e) in want.exports.iter().enumerate() { st.reach.insert(mix(match e { validate::Ext::Func(_) => 1, validate::Ext::Table(_) => 2, validate::Ext::Mem(_) => 3, _ => 4 } + 16 * (want.imports.len().min(50) + 64 * i.min(50)) as u64)); }
        let got = lib_validate(&lib, 1);
        st.see(match &got { Ok(Ok(c)) => hash(&c.out), _ => 0 });
        let f = judge(&wc, &got);
        if f.is_some() { return f; }
        ready.push((lib, wc, matches!(got, Ok(Ok(_)))));
    }
    if c.one("threads") == 2 && !ready.is_empty() {
        // the same module twice, or two different ones
        let all = Arc::new(Shared(&ready as *const _));
        let pick = [0, ready.len() - 1];
        let res: Arc<Mutex<Vec<(usize, Result<Result<Canon, String>, Out>)>>> = Default::default();
        let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for t in 0..2usize {
            let (all, res) = (all.clone(), res.clone());
            tasks.push(Box::new(move || {
                let all: &Vec<(Module, Canon, bool)> = unsafe { &*all.0 };
                let r = lib_validate(&all[pick[t]].0, 2 + t as u32);
                res.lock().unwrap().push((pick[t], r));
            }));
        }
        let plan: Vec<(usize, i64)> = c.num("sched").chunks(2).filter(|p| p.len() == 2).map(|p| (p[0].max(0) as usize, p[1])).collect();
        let tr = sched::run(&plan, tasks);
        if tr.deadlock { return Some("deadlock: two validations wait for each other".into()); }
        st.see(tr.hash);
        st.add("concurrent validations", 2);
        st.add("concurrent validations of different modules", (pick[0] != pick[1]) as u64);
        st.add("context switches", tr.switches);
        for (i, r) in res.lock().unwrap().iter() {
            if let Some(f) = judge(&ready[*i].1, r) { return Some(f); }
            if matches!(r, Ok(Err(_))) && ready[*i].2 { return Some("interface: no description while another validation runs".into()); }
        }
    }
    None
}

// ---- C16

/// Decodes from a source that fails hard once, and says what reached the caller.
fn c16(c: &Case, st: &mut Stats) -> Fail {
    for s in &c.streams {
        let bytes = s.bytes();
        let kind = s.kinds.first().copied().unwrap_or(0);
        let m = modelled(kind, &bytes);
        if matches!(&m.res, Err(f) if skip_depth(f)) { st.add("skipped: out of bounds", 1); continue; }
        note_model_as(st, kind, &bytes, &m, false);
        for at in c.num("at") {
            let at = (*at).max(0) as usize;
            if at > bytes.len() { continue; }
            st.evals += 1;
            let token = mix(at as u64 ^ hash(&bytes));
            let name = KINDS[kind].name;
            // a source that starts all over after its failure, or goes on where it was
            let restarts = at % 3 == 1 && bytes.len() < 3000;
            let data = if restarts { let mut d = bytes[..at].to_vec(); d.extend(&bytes); std::borrow::Cow::Owned(d) } else { std::borrow::Cow::Borrowed(&bytes[..]) };
            let mut src = Src::with(&data, Opt { abandon_at: Some(at), token, hint: (at % 5) as u8, ..Default::default() });
            let got = meter::inside(1, || catch_unwind(AssertUnwindSafe(|| (KINDS[kind].lib)(&mut src))));
            if !src.failed { st.add("model:ended before the failure", 1); continue; }
            st.add("model:failed in the middle", 1);
            st.sigs.insert(hash(&bytes) ^ mix(at as u64));
            st.reach.insert(mix(kind as u64 ^ (m.res.is_ok() as u64) << 20));
            match got {
                Ok(Ok(_)) => return Some(format!("swallowed: the source failed at byte {} while a {} was decoded, and a value was returned", at, name)),
                Ok(Err(e)) => return Some(format!("swallowed: the source failed at byte {} while a {} was decoded, and the error {:?} was returned", at, name, e)),
                Err(p) => match p.downcast_ref::<Abandoned>() {
                    Some(a) if a.0 == token => (),
                    Some(_) => return Some(format!("replaced: another failure than the one of the source at byte {} of a {} reached the caller", at, name)),
                    None => return Some(format!("replaced: the source failed at byte {} while a {} was decoded, and something else reached the caller", at, name)),
                },
            }
            if src.after_failure > 0 { return Some(format!("requests: {} more bytes were requested after the source had failed at byte {} of a {}", src.after_failure, at, name)); }
            // the source works again: what it has left is decoded as if nothing had happened
            let rest = &bytes[at..];
            if restarts {
                src.failed = false;
                src.opt.abandon_at = None;
                let again = decode(kind, &mut src, 1);
                see_out(st, &again);
                if let Some(f) = agree(kind, &m, &again) { return Some(format!("afterwards: after a failure at byte {} the source starts again: {}", at, f)); }
                if m.res.is_ok() && src.pos != at + m.pos { return Some(format!("afterwards: after a failure at byte {} decoding a {} takes {} bytes instead of {}", at, name, src.pos - at, m.pos)); }
                st.add("model:decoded after the failure", 1);
            }
            if at % 3 == 0 && rest.len() < 3000 {
                if matches!(&modelled(kind, rest).res, Err(f) if skip_depth(f)) { continue; }
                src.failed = false;
                src.opt.abandon_at = None;
                let again = decode(kind, &mut src, 1);
                let left = bytes.len() - src.pos;
                let mut fresh = Src::new(rest);
                let want = decode(kind, &mut fresh, 1);
                let f = crash("decoding", &again);
                if f.is_some() { return f; }
                see_out(st, &again);
                if let (Ok(a), Ok(b)) = (out_print(again), out_print(want)) {
                    if a != b { return Some(format!("afterwards: after a failure at byte {} the same source gives another outcome for a {} than a new one with the same bytes", at, name)); }
                    if left != rest.len() - fresh.pos { return Some(format!("afterwards: after a failure at byte {} decoding a {} leaves {} bytes instead of {}", at, name, left, rest.len() - fresh.pos)); }
                }
            }
        }
    }
    None
}

// ---- C18

/// The depth of nesting up to which memory and work are looked at.
pub const DEEP: usize = 20_000;

pub const CHECK_CONSTANT: i64 = 64 << 10;
pub const CHECK_PER_BYTE: i64 = 256;
pub const CHECK_PER_LOCAL: i64 = 48;

fn c18(c: &Case, st: &mut Stats) -> Fail {
    for s in &c.streams {
        let bytes = s.bytes();
        st.evals += 1;
        let d = model::decode_module(&bytes);
        if d.out_of_bounds() { st.add("skipped: out of bounds", 1); continue; }
        if d.result.is_err() { st.add("skipped: does not decode", 1); continue; }
        let lib = match decode_module(&mut Src::new(&bytes), 1) { Ok(Ok(m)) => m, _ => { st.add("skipped: library does not decode", 1); continue; } };
        st.sigs.insert(hash(&bytes));
        for _ in 0..2 {
            let live = meter::LIVE[1].load(Relaxed);
            let allowed = CHECK_CONSTANT + CHECK_PER_BYTE * bytes.len() as i64 + CHECK_PER_LOCAL * d.locals as i64;
            meter::reset(1);
            meter::LIMIT[1].store(live + allowed, Relaxed);
            let got = lib_validate(&lib, 1);
            let over = meter::OVER[1].load(Relaxed);
            let peak = meter::PEAK[1].load(Relaxed) - live;
            meter::reset(1);
            st.see(peak as u64);
            st.add(match &got { Ok(Ok(_)) => "model:passed", Ok(Err(_)) => "model:failed", _ => "model:crashed" }, 1);
            let e = st.counts.entry("max:peak bytes held by validation".into()).or_insert(0);
            *e = (*e).max(peak.max(0) as u64);
            let per = (peak - d.locals as i64 * CHECK_PER_LOCAL).max(0) / bytes.len() as i64;
            if bytes.len() > 256 { let e = st.counts.entry("max:peak per byte of the module (over 256 bytes)".into()).or_insert(0); *e = (*e).max(per as u64); }
            st.reach.insert(mix((64 - (peak.max(1) as u64).leading_zeros() as u64) << 8 ^ (64 - (bytes.len() as u64).leading_zeros() as u64) ^ (d.depth as u64 / 64) << 16));
            if over > 0 { return Some(format!("memory: validation of a module of {} bytes with {} locals held {} bytes", bytes.len(), d.locals, over - live)); }
            if let Err(o) = got { return crash("validation", &o).or_else(|| Some("panic: validation did not finish".into())); }
        }
        if let Err(o) = drop_in(1, lib) { return crash("dropping the module", &o); }
    }
    None
}

// ---- C19

/// The module with its floating point immediates replaced.
fn with_floats(m: &model::Module, f: &dyn Fn(u64, bool) -> u64) -> Canon {
    fn walk(e: &mut [model::Instr], f: &dyn Fn(u64, bool) -> u64) {
        for i in e {
            match &mut i.imm {
                model::Imm::F32(v) => *v = f(*v as u64, false) as u32,
                model::Imm::F64(v) => *v = f(*v, true),
                model::Imm::Block(_, b) => walk(b, f),
                model::Imm::If(_, a, b) => { walk(a, f); walk(b, f) }
                _ => (),
            }
        }
    }
    let mut m = m.clone();
    for x in &mut m.funcs { walk(&mut x.body, f); }
    for x in &mut m.globals { walk(&mut x.init, f); }
    for x in &mut m.elem { walk(&mut x.offset, f); }
    for x in &mut m.data { walk(&mut x.offset, f); }
    let mut c = Canon::default();
    model::canon_module(&mut c, &m);
    c
}

fn c19(c: &Case, st: &mut Stats) -> Fail {
    if c.streams.len() < 2 { return None; }
    st.evals += 1;
    let bytes: Vec<Vec<u8>> = c.streams.iter().take(2).map(|s| s.bytes()).collect();
    let kind = c.streams[0].kinds.first().copied().unwrap_or(0);
    if kind != 0 { return c19_element(kind, &bytes, st); }
    let mut models = vec![];
    let mut libs = vec![];
    for b in &bytes {
        let d = model::decode_module(b);
        if d.out_of_bounds() || d.depth > USUAL_DEPTH || d.locals > 5_000 { st.add("skipped: out of bounds", 1); return None; }
        match d.result { Ok(m) => models.push(m), Err(_) => { st.add("skipped: does not decode", 1); return None; } }
        match decode_module(&mut Src::new(b), 1) { Ok(Ok(m)) => libs.push(m), _ => { st.add("skipped: library does not decode", 1); return None; } }
    }
    // exact contents, and contents in which all that is written alike is alike
    let exact: Vec<Vec<u8>> = models.iter().map(|m| with_floats(m, &|v, _| v).out).collect();
    let loose: Vec<Vec<u8>> = models.iter().map(|m| with_floats(m, &|v, wide| {
        let (exp, frac, sign) = if wide { (0x7FFu64 << 52, (1u64 << 52) - 1, 1u64 << 63) } else { (0xFF << 23, (1 << 23) - 1, 1 << 31) };
        if v & exp == exp && v & frac != 0 { exp | 1 } else if v & !sign == 0 { 0 } else { v }
    }).out).collect();
    let nan = std::cell::Cell::new(false);
    for m in &models { with_floats(m, &|v, wide| { let (exp, frac) = if wide { (0x7FFu64 << 52, (1u64 << 52) - 1) } else { (0xFF << 23, (1 << 23) - 1) }; if v & exp == exp && v & frac != 0 { nan.set(true) } v }); }
    let nan = nan.get();
    let same = exact[0] == exact[1];
    let clear = same || loose[0] != loose[1];
    st.add(if same { "model:same content" } else { "model:different content" }, 1);
    st.sigs.insert(hash(&exact[0]) ^ mix(hash(&exact[1])));
    let at = exact[0].iter().zip(&exact[1]).take_while(|(a, b)| a == b).count();
    st.reach.insert(mix(same as u64 ^ (at as u64) << 8));
    let (a, b) = (&libs[0], &libs[1]);
    let r = meter::inside(1, || catch_unwind(AssertUnwindSafe(|| (a == b, b == a, a != b, a == a, b == b))));
    let (ab, ba, ne, aa, bb) = match r { Ok(r) => r, Err(p) => return crash("comparing", &stopped(p)) };
    st.see(ab as u64);
    if ab == ne { return Some("equality: two modules are equal and different at once".into()); }
    if ab != ba { return Some("equality: whether two modules are equal depends on which comes first".into()); }
    if !nan && !(aa && bb) { return Some("equality: a module is not equal to itself".into()); }
    if clear && !same && ab { return Some("equality: two modules with different contents compare equal".into()); }
    if clear && same && !nan && !ab { return Some("equality: two modules with the same contents compare different".into()); }
    for alt in [false, true] {
        let show = |m: &Module| meter::inside(1, || catch_unwind(AssertUnwindSafe(|| { use std::fmt::Write; let mut p = Page(String::new()); let all = if alt { write!(p, "{:#?}", m) } else { write!(p, "{:?}", m) }.is_ok(); (p.0, all) })));
        let ((x, all), y) = match (show(a), show(b)) { (Ok((x, i)), Ok((y, j))) => ((x, i && j), y), (Err(p), _) | (_, Err(p)) => return crash("printing", &stopped(p)) };
        st.see(hash(x.as_bytes()));
        if same && x != y { return Some("printing: two modules with the same contents print differently".into()); }
        if all && clear && !same && x == y { return Some("printing: two modules with different contents print alike".into()); }
    }
    None
}

fn c19_element(kind: usize, bytes: &[Vec<u8>], st: &mut Stats) -> Fail {
    let (x, y) = (modelled(kind, &bytes[0]), modelled(kind, &bytes[1]));
    if x.depth.max(y.depth) > USUAL_DEPTH || x.locals.max(y.locals) > 5_000 { st.add("skipped: out of bounds", 1); return None; }
    let (x, y) = match (x.res, y.res) { (Ok(x), Ok(y)) => (x, y), _ => { st.add("skipped: does not decode", 1); return None; } };
    let (mut a, mut b) = (Src::new(&bytes[0]), Src::new(&bytes[1]));
    let p = match meter::inside(1, || catch_unwind(AssertUnwindSafe(|| (KINDS[kind].pair)(&mut a, &mut b)))) {
        Ok(Some(p)) => p,
        Ok(None) => { st.add("skipped: cannot be compared", 1); return None; }
        Err(p) => return crash("comparing", &stopped(p)),
    };
    let name = KINDS[kind].name;
    let same = x.out == y.out;
    if name == "byte" {
        let (a, b) = (Byte(bytes[0][0]), bytes[1][0]);
        if (a == b) != same || (a == char::from(b)) != same { return Some(format!("equality: whether the byte {:?} equals the number or character {} is wrong", a, b)); }
    }
    st.add(if same { "model:same content" } else { "model:different content" }, 1);
    st.sigs.insert(hash(&x.out) ^ mix(hash(&y.out)) ^ kind as u64);
    st.reach.insert(mix(kind as u64 ^ (same as u64) << 16));
    st.see(hash(p.text[0].as_bytes()) ^ mix(hash(p.text[3].as_bytes())) ^ p.ab as u64);
    // floats that are written alike, or compare alike, without being alike
    let nan = p.text.iter().any(|t| t.contains("NaN"));
    let zero = p.text.iter().any(|t| t.contains("0.0"));
    // contents that are not kept
    let skipped = name.contains("consume") || name.contains("custom");
    if p.ab == p.ne { return Some(format!("equality: two values of {} are equal and different at once", name)); }
    if p.ab != p.ba { return Some(format!("equality: whether two values of {} are equal depends on which comes first", name)); }
    if !nan && !(p.aa && p.bb) { return Some(format!("equality: a value of {} is not equal to itself", name)); }
    if same && !nan && !p.ab { return Some(format!("equality: two values of {} with the same contents compare different", name)); }
    if !same && !nan && !zero && !skipped && p.ab { return Some(format!("equality: two values of {} with different contents compare equal", name)); }
    for i in [0, 2] {
        if same && p.text[i] != p.text[i + 1] { return Some(format!("printing: two values of {} with the same contents print differently", name)); }
        if !same && !nan && !skipped && p.text[i] == p.text[i + 1] { return Some(format!("printing: two values of {} with different contents print alike, as {}", name, p.text[i].chars().take(60).collect::<String>())); }
    }
    None
}

// ---- C20

/// Allocated volume and processor time that one unit of work may cost, and what any work may.
pub const VOLUME_PER_UNIT: i64 = 1000;
pub const VOLUME_CONSTANT: i64 = 1 << 20;
pub const NANOS_PER_UNIT: u64 = 1_500;
pub const NANOS_CONSTANT: u64 = 300_000_000;

/// The parameters of the functions a module defines and of those it calls.
fn parameters(m: &model::Module) -> u64 {
    let wide = |t: u32| m.types.get(t as usize).map(|t| t.params.len() as u64).unwrap_or(0);
    let mut funcs: Vec<u64> = m.imports.iter().filter_map(|i| if let model::Desc::Func(t) = i.desc { Some(wide(t)) } else { None }).collect();
    let own = funcs.len();
    funcs.extend(m.funcs.iter().map(|f| wide(f.ty)));
    fn walk(e: &[model::Instr], funcs: &[u64], wide: &dyn Fn(u32) -> u64) -> u64 {
        e.iter().map(|i| match &i.imm {
            model::Imm::Idx(f) if i.op == 0x10 => funcs.get(*f as usize).copied().unwrap_or(0),
            model::Imm::Two(t, _) if i.op == 0x11 => wide(*t),
            model::Imm::Block(_, b) => walk(b, funcs, wide),
            model::Imm::If(_, a, b) => walk(a, funcs, wide) + walk(b, funcs, wide),
            _ => 0,
        }).sum()
    }
    funcs[own..].iter().sum::<u64>() + m.funcs.iter().map(|f| walk(&f.body, &funcs, &wide)).sum::<u64>()
}

fn c20(c: &Case, st: &mut Stats) -> Fail {
    for s in &c.streams {
        let bytes = s.bytes();
        st.evals += 1;
        let d = model::decode_module(&bytes);
        if d.out_of_bounds() { st.add("skipped: out of bounds", 1); continue; }
        let params: u64 = d.result.as_ref().map(parameters).unwrap_or(0);
        let units = bytes.len() as u64 + d.locals + params;
        if params > 20_000_000 { st.add("skipped: out of bounds", 1); continue; }
        st.add(if d.result.is_ok() { "model:decodes" } else { "model:does not decode" }, 1);
        st.sigs.insert(hash(&bytes));
        let mut slow = None;
        for attempt in 0..3 {
            let mut steps: Vec<(&str, i64, u64)> = vec![];
            let step = |what: &'static str, steps: &mut Vec<(&str, i64, u64)>, f: &mut dyn FnMut() -> Fail| -> Fail {
                let (v, t) = (meter::VOLUME[1].load(Relaxed), sys::thread_cpu());
                let r = f();
                steps.push((what, meter::VOLUME[1].load(Relaxed) - v, sys::thread_cpu() - t));
                r
            };
            let mut module = None;
            let f = step("decoding", &mut steps, &mut || match decode_module(&mut Src::new(&bytes), 1) { Ok(r) => { module = r.ok(); None } Err(o) => crash("decoding", &o) });
            if f.is_some() { return f; }
            if let Some(m) = &module {
                let f = step("validating", &mut steps, &mut || match meter::inside(1, || catch_unwind(AssertUnwindSafe(|| drop(m.validate())))) { Ok(_) => None, Err(p) => crash("validation", &stopped(p)) });
                if f.is_some() { return f; }
                let f = step("comparing", &mut steps, &mut || match meter::inside(1, || catch_unwind(AssertUnwindSafe(|| m == m))) { Ok(_) => None, Err(p) => crash("comparing", &stopped(p)) });
                if f.is_some() { return f; }
            }
            if let Some(m) = module {
                let mut m = Some(m);
                let f = step("dropping", &mut steps, &mut || match drop_in(1, m.take()) { Ok(_) => None, Err(o) => crash("dropping", &o) });
                if f.is_some() { return f; }
            }
            slow = None;
            for (what, volume, nanos) in &steps {
                if attempt == 0 {
                    st.see(*volume as u64);
                    let e = st.counts.entry(format!("max:bytes allocated per unit of work, {}", what)).or_insert(0);
                    *e = (*e).max(((*volume - VOLUME_CONSTANT).max(0) as u64) / units.max(1));
                    st.reach.insert(mix(hash(what.as_bytes()) ^ (64 - (*volume as u64).leading_zeros() as u64) << 8 ^ (64 - units.leading_zeros() as u64)));
                }
                let e = st.counts.entry(format!("max:nanoseconds per unit of work over 10000 units, {}", what)).or_insert(0);
                if units > 10_000 { *e = (*e).max(*nanos / units); }
                if *volume > VOLUME_CONSTANT + VOLUME_PER_UNIT * units as i64 { return Some(format!("volume: {} a module with {} bytes, {} locals and {} parameters of functions allocated {} bytes", what, bytes.len(), d.locals, params, volume)); }
                if *nanos > NANOS_CONSTANT + NANOS_PER_UNIT * units { slow = Some((*what, *nanos)); }
            }
            // time is measured, so it has to be confirmed
            if slow.is_none() { break; }
        }
        if let Some((what, nanos)) = slow { return Some(format!("time: {} a module with {} bytes, {} locals and {} parameters of functions took {} ms of processor time, three times in a row", what, bytes.len(), d.locals, params, nanos / 1_000_000)); }
    }
    None
}

// ---- C23

/// Stack that any work may use, and what a level of nesting may add to it.
pub const STACK_CONSTANT: usize = 48 << 10;
pub const STACK_PER_LEVEL: usize = 4 << 10;
const BAND: usize = 128 << 10;
const PAINT: u8 = 0xA7;

/// Runs on a fresh stack and says how much of it was used, as far as `limit` and a bit beyond.
fn stack_used<T: Send>(limit: usize, f: impl FnOnce() -> T + Send) -> (T, usize) {
    runner::on_stack(limit + BAND + (256 << 10), || {
        #[inline(never)]
        fn paint(bottom: *mut u8, n: usize) { unsafe { std::ptr::write_bytes(std::hint::black_box(bottom), PAINT, n) } }
        #[inline(never)]
        fn used(bottom: *const u64, n: usize) -> usize { n - 8 * (0..n / 8).find(|i| unsafe { bottom.add(*i).read_volatile() } != u64::from_ne_bytes([PAINT; 8])).unwrap_or(n / 8) }
        let here = 0u8;
        // what the painter itself needs is left alone
        let top = ((std::ptr::addr_of!(here) as usize & !63) - 1024) as *mut u8;
        let n = limit + BAND;
        let bottom = unsafe { top.sub(n) };
        paint(bottom, n);
        let r = f();
        (r, used(bottom as *const u64, n))
    })
}

// the program is not optimised
const PROGRAM_STACK: usize = 512 << 10;
const PROGRAM_PER_LEVEL: usize = 60 << 10;
fn c23(c: &Case, st: &mut Stats) -> Fail {
    for s in &c.streams {
        let bytes = s.bytes();
        let kind = s.kinds.first().copied().unwrap_or(0);
        let m = modelled(kind, &bytes);
        if matches!(&m.res, Err(f) if skip_depth(f)) { st.add("skipped: out of bounds", 1); continue; }
        st.evals += 1;
        note_model_as(st, kind, &bytes, &m, true);
        // the first call of a function may need some stack to find it, so what was used is not part of the digest
        st.see(hash(&bytes) ^ m.res.is_ok() as u64);
        if kind == 0 && c.one("program") == 1 {
            let limit = PROGRAM_STACK + PROGRAM_PER_LEVEL * m.depth;
            st.add("work:program with little stack", 1);
            if let Some(n) = crate::cli::with_stack(&bytes, limit) { return Some(format!("stack: the program was killed by signal {} with {} KiB of stack for a module of {} bytes with {} nested blocks", n, limit >> 10, bytes.len(), m.depth)); }
        }
        let limit = STACK_CONSTANT + STACK_PER_LEVEL * m.depth;
        let mut report = |what: &str, used: usize| -> Fail {
            let e = st.counts.entry(format!("max:bytes of stack, {}, nesting below 2", what)).or_insert(0);
            if m.depth < 2 { *e = (*e).max(used as u64); }
            let e = st.counts.entry(format!("max:bytes of stack per level over 20 levels, {}", what)).or_insert(0);
            if m.depth > 20 { *e = (*e).max((used / m.depth) as u64); }
            st.reach.insert(mix(kind as u64 ^ hash(what.as_bytes()) ^ (used as u64 >> 10) << 20));
            if used > limit { Some(format!("stack: {} a {} of {} bytes with {} nested blocks used more than {} bytes of stack", what, KINDS[kind].name, bytes.len(), m.depth, limit)) } else { None }
        };
        if kind != 0 {
            let (r, used) = stack_used(limit, || meter::inside(1, || catch_unwind(AssertUnwindSafe(|| (KINDS[kind].skim)(&mut Src::new(&bytes))))).map_err(|p| stopped(p)).err());
            if let Some(f) = r.and_then(|o| crash("decoding", &o)) { return Some(f); }
            let f = report("decoding", used);
            if f.is_some() { return f; }
            continue;
        }
        let (r, used) = stack_used(limit, || decode_module(&mut Src::new(&bytes), 1));
        let f = report("decoding", used);
        if f.is_some() { return f; }
        let lib = match r { Ok(Ok(m)) => m, Ok(Err(_)) => continue, Err(o) => return crash("decoding", &o) };
        let (r, used) = stack_used(limit, || meter::inside(1, || catch_unwind(AssertUnwindSafe(|| drop(lib.validate())))).map_err(stopped).err());
        if let Some(f) = r.and_then(|o| crash("validation", &o)) { return Some(f); }
        let f = report("validating", used);
        if f.is_some() { return f; }
        let copy = match decode_module(&mut Src::new(&bytes), 1) { Ok(Ok(m)) => m, _ => return Some("stack: the second decoding ends in another way".into()) };
        let (r, used) = stack_used(limit, || meter::inside(1, || catch_unwind(AssertUnwindSafe(|| lib == copy))).map_err(stopped).err());
        let _ = drop_in(1, copy);
        if let Some(f) = r.and_then(|o| crash("comparing", &o)) { return Some(f); }
        let f = report("comparing", used);
        if f.is_some() { return f; }
        let (r, used) = stack_used(limit, || drop_in(1, lib));
        if let Err(o) = r { return crash("dropping", &o); }
        let f = report("dropping", used);
        if f.is_some() { return f; }
    }
    None
}

// ---- C24

/// What a thread has to hand over, whether its type allows it or not.
struct Cargo<T>(T);
unsafe impl<T> Send for Cargo<T> {}
unsafe impl<T> Sync for Cargo<T> {}

enum Arrived { Nothing, Mod(Box<Module>), Err(binary::Error) }
type Slots = Arc<Vec<std::sync::RwLock<Cargo<Arrived>>>>;

const OP24: [&str; 6] = ["decoded", "validated", "printed", "compared", "read", "dropped"];

/// One look at what arrived, on whichever thread this is.
fn look(op: i64, a: &Arrived, b: &Arrived, print: bool, region: u32) -> Result<Vec<u8>, Out> {
    match (a, b) {
        (Arrived::Err(e), _) => meter::inside(region, || catch_unwind(AssertUnwindSafe(|| format!("{} {:?}", e, e).into_bytes()))).map_err(stopped),
        (Arrived::Mod(a), b) => match op {
            1 => validated(a, region),
            2 if print => meter::inside(region, || catch_unwind(AssertUnwindSafe(|| { use std::fmt::Write; let mut t = Page(String::new()); let whole = write!(t, "{:?}", a).is_ok(); (whole, t.0) }))).map_err(stopped).map(|(whole, t)| { let mut v = hash(t.as_bytes()).to_le_bytes().to_vec(); v.push(whole as u8); v }),
            3 => match b {
                Arrived::Mod(b) => meter::inside(region, || catch_unwind(AssertUnwindSafe(|| vec![(a == b) as u8, (b == a) as u8, (a != b) as u8]))).map_err(stopped),
                _ => Ok(vec![]),
            },
            _ => Ok(canon_of(a).out),
        },
        _ => Ok(vec![]),
    }
}

fn arrive(bytes: &[u8], region: u32) -> Result<Arrived, Out> {
    Ok(match decode_module(&mut Src::new(bytes), region)? { Ok(m) => Arrived::Mod(Box::new(m)), Err(e) => Arrived::Err(e) })
}

fn c24(c: &Case, st: &mut Stats) -> Fail {
    st.evals += 1;
    if !(&Probe2::<Module>(std::marker::PhantomData)).send() || !(&Probe::<Module>(std::marker::PhantomData)).sync() { return Some("handing over: a module cannot be given to another thread".into()); }
    if !(&Probe2::<binary::Error>(std::marker::PhantomData)).send() { return Some("handing over: an error cannot be given to another thread".into()); }
    let bytes: Arc<Vec<Vec<u8>>> = Arc::new(c.streams.iter().map(|s| s.bytes()).collect());
    let mut print = vec![];
    for b in bytes.iter() {
        let m = modelled(0, b);
        if matches!(&m.res, Err(f) if skip_depth(f)) { st.add("skipped: out of bounds", 1); return None; }
        print.push(m.depth <= USUAL_DEPTH && m.locals < 5_000);
    }
    let print = Arc::new(print);
    let n = bytes.len();
    let task: Vec<[usize; 5]> = c.num("task").chunks(5).filter(|t| t.len() == 5).map(|t| { let t: Vec<usize> = t.iter().map(|x| (*x).max(0) as usize).collect(); [t[0], t[1] % sched::MAX, t[2] % 6, t[3], t[4]] }).filter(|t| t[3] < n && t[4] < n).collect();
    let plan: Vec<(usize, i64)> = c.num("sched").chunks(2).filter(|p| p.len() == 2).map(|p| (p[0].max(0) as usize, p[1])).collect();
    let text = |o: &Out| crash("the work", o).unwrap_or_else(|| "panic: the work did not finish".into());
    type Got = Vec<(usize, Result<Vec<u8>, Out>)>;

    // everything by one thread that does nothing else
    let wants: Arc<Mutex<Got>> = Default::default();
    {
        let (bytes, wants, task, print) = (bytes.clone(), wants.clone(), task.clone(), print.clone());
        let tr = sched::run(&[], vec![Box::new(move || {
            let all: Vec<Arrived> = bytes.iter().map(|b| arrive(b, 2).unwrap_or(Arrived::Nothing)).collect();
            let mut out: Got = vec![];
            for (i, t) in task.iter().enumerate() { if t[2] != 0 && t[2] != 5 { out.push((i, look(t[2] as i64, &all[t[3]], &all[t[4]], print[t[3]], 2))); } }
            meter::inside(2, || drop(all));
            *wants.lock().unwrap() = out;
        })]);
        if tr.deadlock { return Some("deadlock: a single thread waits for ever".into()); }
    }

    // and by several, which end before the next ones begin
    let slots: Slots = Arc::new((0..n).map(|_| std::sync::RwLock::new(Cargo(Arrived::Nothing))).collect());
    let gots: Arc<Mutex<Got>> = Default::default();
    let stops: Arc<Mutex<Vec<Out>>> = Default::default();
    let mut h = 0;
    let mut switches = 0;
    for phase in 0..3 {
        let mut lists: Vec<Vec<(usize, [usize; 5])>> = vec![vec![]; sched::MAX];
        for (i, t) in task.iter().enumerate() { if t[0] == phase { lists[t[1]].push((i, *t)); } }
        while lists.last().map_or(false, |l| l.is_empty()) { lists.pop(); }
        if lists.is_empty() { continue; }
        let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (ti, list) in lists.into_iter().enumerate() {
            let (bytes, slots, gots, stops, print) = (bytes.clone(), slots.clone(), gots.clone(), stops.clone(), print.clone());
            tasks.push(Box::new(move || {
                let region = 2 + ti as u32;
                for (i, t) in list {
                    match t[2] {
                        0 => match arrive(&bytes[t[3]], region) { Ok(a) => if let Ok(mut s) = slots[t[3]].try_write() { s.0 = a }, Err(o) => stops.lock().unwrap().push(o) },
                        5 => {
                            // not while another thread looks at it
                            let a = match slots[t[3]].try_write() { Ok(mut s) => std::mem::replace(&mut s.0, Arrived::Nothing), Err(_) => continue };
                            if let Err(o) = drop_in(region, a) { stops.lock().unwrap().push(o); }
                        }
                        op => {
                            let (a, b) = match (slots[t[3]].try_read(), slots[t[4]].try_read()) { (Ok(a), Ok(b)) => (a, b), _ => continue };
                            // what another thread has dropped meanwhile is no longer looked at
                            if matches!(a.0, Arrived::Nothing) || (op == 3 && matches!(b.0, Arrived::Nothing)) { continue; }
                            let r = look(op as i64, &a.0, &b.0, print[t[3]], region);
                            gots.lock().unwrap().push((i, r));
                        }
                    }
                }
            }));
        }
        let tr = sched::run(&plan, tasks);
        if tr.deadlock { return Some("deadlock: the threads wait for each other for ever".into()); }
        h = mix(h ^ tr.hash);
        switches += tr.switches;
    }
    for t in &task { st.add(&format!("work:{}", OP24[t[2]]), 1); }
    st.add("context switches", switches);
    st.see(h);
    for b in bytes.iter() { h = mix(h ^ hash(b)); }
    st.sigs.insert(h);
    for t in task.chunks(2) { st.reach.insert(mix(t.iter().fold(0, |h, t| mix(h ^ (t[0] + 4 * t[1] + 64 * t[2]) as u64)) ^ switches.min(20) << 32)); }
    if let Some(o) = stops.lock().unwrap().first() { return Some(text(o)); }
    let wants = wants.lock().unwrap();
    for (i, r) in gots.lock().unwrap().iter() {
        let t = task[*i];
        let want = match wants.iter().find(|w| w.0 == *i) { Some((_, Ok(v))) => v, _ => continue };
        match r {
            Err(o) => return Some(text(o)),
            Ok(v) if v != want => return Some(format!("handed over: stream {} gives another outcome when {} by another thread than the one that decoded it", t[3], OP24[t[2]])),
            Ok(v) => st.see(hash(v) ^ *i as u64),
        }
    }
    None
}
