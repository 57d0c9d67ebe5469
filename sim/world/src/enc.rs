//! Encoder for the model's syntax. Uses the freedom the format leaves (padding of integers, empty
//! sections, custom sections anywhere, splits of local runs) and records where things are, so
//! that the fault layer can aim.

use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mk { Preamble, Section, SectionId, Size, Count, Op, Imm, Name, Body, Type, Entry, Tag }

#[derive(Clone, Copy, Debug)]
pub struct Mark { pub start: usize, pub end: usize, pub kind: Mk }

#[derive(Clone, Debug)]
pub struct Style { pub pad: usize, pub max_pad: usize, pub custom: usize, pub empty: usize, pub split: usize }

impl Style {
    pub fn plain() -> Style { Style { pad: 0, max_pad: 0, custom: 0, empty: 0, split: 0 } }
    pub fn random(r: &mut Rng) -> Style {
        Style {
            pad: *r.pick(&[0, 0, 3, 10, 40, 100]),
            max_pad: *r.pick(&[1, 1, 4, 4, 12, 200]),
            custom: *r.pick(&[0, 0, 10, 40]),
            empty: *r.pick(&[0, 0, 20, 100]),
            split: *r.pick(&[0, 30, 90]),
        }
    }
}

pub struct Enc<'a> { pub out: Vec<u8>, pub marks: Vec<Mark>, pub rng: &'a mut Rng, pub st: Style }

impl<'a> Enc<'a> {
    pub fn new(rng: &'a mut Rng, st: Style) -> Enc<'a> { Enc { out: vec![], marks: vec![], rng, st } }

    fn mark<T>(&mut self, kind: Mk, f: impl FnOnce(&mut Self) -> T) -> T {
        let start = self.out.len();
        let r = f(self);
        self.marks.push(Mark { start, end: self.out.len(), kind });
        r
    }
    fn padding(&mut self) -> usize {
        if self.st.pad > 0 && self.rng.pct(self.st.pad) { self.rng.range(1, self.st.max_pad) } else { 0 }
    }
    pub fn uleb(&mut self, mut v: u64) {
        let pad = self.padding();
        loop {
            let b = (v & 0x7F) as u8;
            v >>= 7;
            if v == 0 {
                if pad == 0 {
                    self.out.push(b);
                } else {
                    self.out.push(b | 0x80);
                    for _ in 1..pad { self.out.push(0x80); }
                    self.out.push(0);
                }
                return;
            }
            self.out.push(b | 0x80);
        }
    }
    pub fn sleb(&mut self, mut v: i64) {
        let pad = self.padding();
        loop {
            let b = (v & 0x7F) as u8;
            v >>= 7;
            if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
                let fill = if v == -1 { 0x7F } else { 0 };
                if pad == 0 {
                    self.out.push(b);
                } else {
                    self.out.push(b | 0x80);
                    for _ in 1..pad { self.out.push(fill | 0x80); }
                    self.out.push(fill);
                }
                return;
            }
            self.out.push(b | 0x80);
        }
    }
    pub fn imm(&mut self, v: u32) { self.mark(Mk::Imm, |e| e.uleb(v as u64)); }
    pub fn count(&mut self, n: usize) { self.mark(Mk::Count, |e| e.uleb(n as u64)); }
    pub fn byte(&mut self, b: u8) { self.out.push(b); }
    pub fn tag(&mut self, b: u8) { self.mark(Mk::Tag, |e| e.byte(b)); }
    pub fn name(&mut self, s: &str) {
        self.count(s.len());
        self.mark(Mk::Name, |e| e.out.extend_from_slice(s.as_bytes()));
    }
    pub fn sized(&mut self, f: impl FnOnce(&mut Self)) {
        let out = std::mem::take(&mut self.out);
        let marks = std::mem::take(&mut self.marks);
        f(self);
        let body = std::mem::replace(&mut self.out, out);
        let inner = std::mem::replace(&mut self.marks, marks);
        self.mark(Mk::Size, |e| e.uleb(body.len() as u64));
        let base = self.out.len();
        self.out.extend_from_slice(&body);
        self.marks.extend(inner.into_iter().map(|m| Mark { start: m.start + base, end: m.end + base, kind: m.kind }));
    }
    fn list<T>(&mut self, v: &[T], f: impl Fn(&mut Self, &T)) {
        self.count(v.len());
        for x in v { self.mark(Mk::Entry, |e| f(e, x)); }
    }
    pub fn vals(&mut self, v: &[VT]) {
        self.count(v.len());
        for t in v { self.mark(Mk::Type, |e| e.byte(t.byte())); }
    }
    pub fn limits(&mut self, l: &Limits) {
        self.tag(l.max.is_some() as u8);
        self.imm(l.min);
        if let Some(m) = l.max { self.imm(m); }
    }
    pub fn global_type(&mut self, g: &GlobalType) {
        self.mark(Mk::Type, |e| e.byte(g.val.byte()));
        self.tag(g.mutable as u8);
    }
    pub fn func_type(&mut self, t: &FuncType) {
        self.tag(0x60);
        self.vals(&t.params);
        self.vals(&t.results);
    }
    fn block_type(&mut self, t: &Option<VT>) {
        let b = t.map(|v| v.byte()).unwrap_or(0x40);
        self.mark(Mk::Type, |e| e.byte(b));
    }
    fn op(&mut self, b: u8) { self.mark(Mk::Op, |e| e.byte(b)); }
    pub fn instr(&mut self, i: &Instr) {
        self.op(i.op);
        match &i.imm {
            Imm::None => (),
            Imm::Idx(a) => self.imm(*a),
            Imm::Two(a, b) => { self.imm(*a); self.imm(*b) }
            Imm::I32(v) => self.mark(Mk::Imm, |e| e.sleb(*v as i64)),
            Imm::I64(v) => self.mark(Mk::Imm, |e| e.sleb(*v)),
            Imm::F32(v) => self.mark(Mk::Imm, |e| e.out.extend_from_slice(&v.to_le_bytes())),
            Imm::F64(v) => self.mark(Mk::Imm, |e| e.out.extend_from_slice(&v.to_le_bytes())),
            Imm::BrTable(v, d) => {
                self.count(v.len());
                for l in v { self.imm(*l); }
                self.imm(*d);
            }
            Imm::Block(t, b) => { self.block_type(t); self.expr(b) }
            Imm::If(t, a, b) => {
                self.block_type(t);
                for i in a { self.instr(i); }
                if !b.is_empty() || self.rng.pct(20) {
                    self.op(0x05);
                    for i in b { self.instr(i); }
                }
                self.op(0x0B);
            }
        }
    }
    pub fn expr(&mut self, v: &[Instr]) {
        for i in v { self.instr(i); }
        self.op(0x0B);
    }
    pub fn func(&mut self, f: &Func) {
        let mut runs: Vec<(u32, VT)> = vec![];
        for (n, t) in &f.locals {
            if *n > 1 && self.rng.pct(self.st.split) {
                let k = self.rng.below(*n as usize) as u32;
                runs.push((k, *t));
                runs.push((*n - k, *t));
            } else {
                runs.push((*n, *t));
            }
        }
        self.count(runs.len());
        for (n, t) in runs {
            self.imm(n);
            self.mark(Mk::Type, |e| e.byte(t.byte()));
        }
        self.expr(&f.body);
    }
    pub fn import_desc(&mut self, d: &Desc) {
        match d {
            Desc::Func(t) => { self.tag(0); self.imm(*t) }
            Desc::Table(l) => { self.tag(1); self.tag(0x70); self.limits(l) }
            Desc::Mem(l) => { self.tag(2); self.limits(l) }
            Desc::Global(g) => { self.tag(3); self.global_type(g) }
        }
    }
    pub fn import(&mut self, i: &Import) { self.name(&i.module); self.name(&i.name); self.import_desc(&i.desc); }
    pub fn export(&mut self, x: &Export) { self.name(&x.name); self.tag(x.kind); self.imm(x.idx); }
    pub fn global(&mut self, g: &Global) { self.global_type(&g.ty); self.expr(&g.init); }
    pub fn elem(&mut self, s: &Elem) {
        self.imm(s.table);
        self.expr(&s.offset);
        self.count(s.init.len());
        for f in &s.init { self.imm(*f); }
    }
    pub fn data(&mut self, d: &Data) {
        self.imm(d.mem);
        self.expr(&d.offset);
        self.count(d.init.len());
        self.mark(Mk::Name, |e| e.out.extend_from_slice(&d.init));
    }
    fn custom(&mut self) {
        while self.rng.pct(self.st.custom) {
            let name = if self.rng.pct(30) { self.rng.pick(&["name", "producers", "linking", "dylink.0", "sourceMappingURL", ".debug_info", "target_features"]).to_string() } else { crate::gen::text(self.rng) };
            let n = if self.rng.below(600) == 0 { self.rng.range(60_000, 140_000) } else { self.rng.skewed(300) };
            let same = self.rng.pct(20);
            let fill = *self.rng.pick(&[0, 0, 1, 0x0B, 0x80, 0xFF]);
            let body: Vec<u8> = (0..n).map(|_| if same { fill } else { self.rng.u64() as u8 }).collect();
            self.section(0, |e| { e.name(&name); e.mark(Mk::Name, |e| e.out.extend_from_slice(&body)) });
        }
    }
    fn section(&mut self, id: u8, f: impl FnOnce(&mut Self)) {
        self.mark(Mk::Section, |e| {
            e.mark(Mk::SectionId, |e| e.byte(id));
            e.sized(f);
        });
    }
    fn opt<T>(&mut self, id: u8, v: &[T], f: impl Fn(&mut Self, &T)) {
        self.custom();
        if !v.is_empty() || self.rng.pct(self.st.empty) {
            self.section(id, |e| e.list(v, f));
        }
    }
    pub fn module(&mut self, m: &Module) {
        self.mark(Mk::Preamble, |e| e.out.extend_from_slice(b"\0asm\x01\0\0\0"));
        self.opt(1, &m.types, |e, t| e.func_type(t));
        self.opt(2, &m.imports, |e, i| e.import(i));
        self.opt(3, &m.funcs, |e, f| e.imm(f.ty));
        self.opt(4, &m.tables, |e, l| { e.tag(0x70); e.limits(l) });
        self.opt(5, &m.mems, |e, l| e.limits(l));
        self.opt(6, &m.globals, |e, g| e.global(g));
        self.opt(7, &m.exports, |e, x| e.export(x));
        if let Some(s) = m.start {
            self.custom();
            self.section(8, |e| e.imm(s));
        }
        self.opt(9, &m.elem, |e, s| e.elem(s));
        self.opt(10, &m.funcs, |e, f| e.mark(Mk::Body, |e| e.sized(|e| e.func(f))));
        self.opt(11, &m.data, |e, d| e.data(d));
        self.custom();
    }
}

#[derive(Clone)]
pub struct Image { pub bytes: Vec<u8>, pub marks: Vec<Mark> }

pub fn encode(m: &Module, rng: &mut Rng, st: Style) -> Image {
    let mut e = Enc::new(rng, st);
    e.module(m);
    Image { bytes: e.out, marks: e.marks }
}
