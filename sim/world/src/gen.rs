//! Generator of modules: valid ones (type directed) and ones from a faulty producer.

use crate::model::*;
use crate::ops::{op, ImmKind, Op, OPS};
use crate::rng::Rng;
use crate::validate::{Checker, Env, Frame, Locals};

pub fn text(r: &mut Rng) -> String {
    const WORDS: &[&str] = &["", "a", "env", "memory", "f\u{0}g", "é", "日本語", "💖", "\u{10FFFF}", "\"quoted\"\n\t\\", "\u{7F}\u{80}\u{7FF}\u{800}\u{FFFF}", "\u{D7FF}\u{E000}", "x y", "0", "-p", "\u{FEFF}", "\u{FFFD}", "e\u{301}", "\u{FDD0}", " ", "\r\n", "A", "..", "/", "name", "ı", "ß", "\u{1F}", "\u{2028}", "\u{200D}", "start", "'", "{}", "%s", "main", "a\0"];
    let mut s = String::new();
    let n = r.skewed(4);
    for _ in 0..n { s.push_str(r.pick(WORDS)); }
    if r.pct(4) {
        let want = *r.pick(&[127, 128, 129, 255, 300, 16383, 16385]);
        while s.len() < want { s.push('q'); }
    }
    if r.below(4000) == 0 { let want = r.range(65_530, 70_000); while s.len() < want { s.push_str("long é "); } }
    if r.pct(30) { s.push_str(&r.below(50).to_string()); }
    s
}

/// How large and of what kind the generated module is (chosen anew for each run).
#[derive(Clone, Debug)]
pub struct Shape {
    pub types: usize, pub imports: usize, pub funcs: usize, pub globals: usize, pub exports: usize,
    pub elems: usize, pub datas: usize, pub stmts: usize, pub depth: usize, pub locals: usize,
    pub table: usize, pub mem: usize, pub dead: usize, pub blob: usize,
}

impl Shape {
    pub fn random(r: &mut Rng) -> Shape {
        let mut s = Shape {
            types: r.skewed(12), imports: r.skewed(12), funcs: r.skewed(10), globals: r.skewed(10), exports: r.skewed(12),
            elems: r.skewed(4), datas: r.skewed(4), stmts: r.skewed(16), depth: r.range(0, 6), locals: r.skewed(12),
            table: *r.pick(&[0, 50, 100]), mem: *r.pick(&[0, 50, 100, 100]), dead: *r.pick(&[0, 10, 40]), blob: r.skewed(200),
        };
        match r.below(30) {
            0 => s.types = r.range(120, 400),
            1 => s.globals = r.range(120, 300),
            2 => { s.funcs = r.range(120, 300); s.stmts = 1; s.depth = 1 }
            3 => { s.imports = r.range(120, 300); s.types += 1 }
            4 => s.exports = r.range(120, 300),
            5 => s.locals = r.range(120, 20000),
            6 => { s.blob = r.range(1000, 20000); s.mem = 100; s.datas += 1 }
            7 => { s.stmts = r.range(200, 1500); s.depth = 1; s.funcs = 1 }
            8 => {
                s.depth = if r.pct(60) { r.range(20, 95) } else if r.pct(60) { *r.pick(&[126, 253, 510, 998, 1022]) + r.below(6) } else { r.range(95, 1150) };
                s.stmts = 1;
                s.funcs = r.range(1, 2);
                s.types += 1;
            }
            _ => (),
        }
        // now and then beyond 16 bits
        if r.below(1000) == 0 {
            let n = r.range(65_530, 66_500);
            match r.below(7) {
                0 => s.types = n,
                1 => s.globals = n,
                2 => { s.funcs = n; s.stmts = 0; s.depth = 0; s.locals = 0; s.types += 1 }
                3 => { s.imports = n; s.types += 1 }
                4 => s.exports = n,
                5 => { s.locals = n; s.funcs = 1; s.types += 1 }
                _ => { s.blob = n; s.mem = 100; s.table = 100; s.datas = 1; s.elems = 1 }
            }
        }
        s
    }
    pub fn tiny() -> Shape {
        Shape { types: 1, imports: 1, funcs: 1, globals: 1, exports: 1, elems: 1, datas: 1, stmts: 2, depth: 2, locals: 2, table: 50, mem: 50, dead: 20, blob: 4 }
    }
}

fn val(r: &mut Rng) -> VT { *r.pick(&VTS) }

pub fn limits(r: &mut Rng, bound: u64) -> Limits {
    let pickn = |r: &mut Rng| -> u64 {
        match r.below(7) {
            0 => 0,
            1 => bound,
            2 => bound - 1,
            3 => r.below(200) as u64,
            4 => r.below(16) as u64,
            _ => r.wild() % (bound + 1),
        }
    };
    let a = pickn(r) as u32;
    let b = pickn(r) as u32;
    match r.below(4) {
        0 => Limits { min: a, max: None },
        1 => Limits { min: a, max: Some(a) },
        _ => Limits { min: a.min(b), max: Some(a.max(b)) },
    }
}

pub fn konst(r: &mut Rng, t: VT) -> Instr {
    match t {
        VT::I32 => Instr { op: 0x41, imm: Imm::I32(r.wild() as i32) },
        VT::I64 => Instr { op: 0x42, imm: Imm::I64(r.wild() as i64) },
        VT::F32 => {
            let v = match r.below(5) {
                0 => 0x7FC0_0000 | (r.u64() as u32 & 0x3F_FFFF),
                1 => 0x7F80_0001 | ((r.u64() as u32) & 0x8000_FFFF),
                2 => *r.pick(&[0, 0x8000_0000, 0x7F80_0000, 0xFF80_0000, 1, 0x3F80_0000]),
                _ => r.u64() as u32,
            };
            Instr { op: 0x43, imm: Imm::F32(v) }
        }
        VT::F64 => {
            let v = match r.below(5) {
                0 => 0x7FF8_0000_0000_0000 | (r.u64() & 0x7_FFFF_FFFF_FFFF),
                1 => 0x7FF0_0000_0000_0001 | (r.u64() & 0x8000_0000_FFFF_FFFF),
                2 => *r.pick(&[0, 1 << 63, 0x7FF0_0000_0000_0000, 0xFFF0_0000_0000_0000, 1, 0x3FF0_0000_0000_0000]),
                _ => r.u64(),
            };
            Instr { op: 0x44, imm: Imm::F64(v) }
        }
    }
}

fn align_for(r: &mut Rng, o: &Op) -> u32 {
    let max = o.width.trailing_zeros();
    if r.pct(40) { max } else { r.below(max as usize + 1) as u32 }
}

fn numeric(o: &Op) -> bool { o.imm == ImmKind::None && o.sig != "*" && o.sig != ":" }

struct Body<'a> {
    r: &'a mut Rng,
    env: &'a Env<'a>,
    locals: &'a Locals,
    ret: Option<VT>,
    ctrls: Vec<(Option<VT>, Option<VT>)>,
    budget: usize,
    dead: usize,
}

impl<'a> Body<'a> {
    fn local_of(&mut self, t: VT) -> Option<u32> {
        let n = self.locals.total();
        if n == 0 { return None; }
        for _ in 0..6 {
            let i = match self.r.below(4) { 0 => n - 1, 1 => 0, _ => self.r.below(n as usize) as u64 } as u32;
            if self.locals.get(i) == Some(t) { return Some(i); }
        }
        None
    }
    fn global_of(&mut self, t: VT, mutable: bool) -> Option<u32> {
        let n = self.env.globals.len();
        if n == 0 { return None; }
        for _ in 0..6 {
            let i = if self.r.pct(25) { n - 1 } else { self.r.below(n) };
            let g = self.env.globals[i];
            if g.val == t && (!mutable || g.mutable) { return Some(i as u32); }
        }
        None
    }
    fn func_with(&mut self, res: Option<VT>) -> Option<u32> {
        let n = self.env.funcs.len();
        if n == 0 { return None; }
        for _ in 0..4 {
            let i = if self.r.pct(20) { n - 1 } else { self.r.below(n) } as u32;
            if let Some(t) = self.env.func_type(i) {
                if t.results.first().copied() == res && (t.params.len() <= 6 || self.r.pct(25)) { return Some(i); }
            }
        }
        None
    }
    fn type_with(&mut self, res: Option<VT>) -> Option<u32> {
        let n = self.env.types.len();
        if n == 0 { return None; }
        for _ in 0..4 {
            let i = self.r.below(n);
            let t = &self.env.types[i];
            if t.results.first().copied() == res && (t.params.len() <= 6 || self.r.pct(25)) { return Some(i as u32); }
        }
        None
    }
    fn label_of(&mut self, t: Option<VT>) -> Option<u32> {
        let n = self.ctrls.len();
        for _ in 0..6 {
            let i = if self.r.pct(30) { n - 1 } else { self.r.below(n) };
            if self.ctrls[n - 1 - i].0 == t { return Some(i as u32); }
        }
        None
    }
    fn params(&mut self, out: &mut Vec<Instr>, ps: &[VT], d: usize) {
        let d = if ps.len() > 6 { 0 } else { d };
        for p in ps { self.value(out, *p, d); }
    }
    fn call(&mut self, out: &mut Vec<Instr>, res: Option<VT>, d: usize) -> bool {
        let env = self.env;
        if !env.tables.is_empty() && self.r.pct(40) {
            if let Some(t) = self.type_with(res) {
                let ps = env.types[t as usize].params.clone();
                self.params(out, &ps, d);
                self.value(out, VT::I32, d);
                out.push(Instr { op: 0x11, imm: Imm::Two(t, 0) });
                return true;
            }
        }
        if let Some(f) = self.func_with(res) {
            let ps = env.func_type(f).unwrap().params.clone();
            self.params(out, &ps, d);
            out.push(Instr { op: 0x10, imm: Imm::Idx(f) });
            return true;
        }
        false
    }
    fn offset(&mut self) -> u32 { if self.r.pct(50) { self.r.below(64) as u32 } else { self.r.wild() as u32 } }

    /// Appends code that leaves one value of type `t`.
    fn value(&mut self, out: &mut Vec<Instr>, t: VT, d: usize) {
        if self.budget == 0 || d == 0 {
            let i = match self.r.below(3) {
                0 => self.local_of(t).map(|l| Instr { op: 0x20, imm: Imm::Idx(l) }),
                1 => self.global_of(t, false).map(|g| Instr { op: 0x23, imm: Imm::Idx(g) }),
                _ => None,
            };
            out.push(i.unwrap_or_else(|| konst(self.r, t)));
            return;
        }
        self.budget -= 1;
        let d = d - 1;
        let before = out.len();
        match self.r.below(15) {
            0 => out.push(konst(self.r, t)),
            1 => if let Some(l) = self.local_of(t) { out.push(Instr { op: 0x20, imm: Imm::Idx(l) }) },
            2 => if let Some(g) = self.global_of(t, false) { out.push(Instr { op: 0x23, imm: Imm::Idx(g) }) },
            3..=6 => {
                for _ in 0..40 {
                    let o = self.r.pick(OPS);
                    if !numeric(o) { continue; }
                    let (p, res) = o.sig.split_once(':').unwrap();
                    if res.len() == 1 && VT::from_letter(res.as_bytes()[0]) == t {
                        for c in p.bytes() { self.value(out, VT::from_letter(c), d); }
                        out.push(Instr { op: o.op, imm: Imm::None });
                        break;
                    }
                }
            }
            7 => if !self.env.mems.is_empty() {
                for _ in 0..20 {
                    let o = self.r.pick(OPS);
                    if o.width == 0 || !o.sig.starts_with("i:") || VT::from_letter(o.sig.as_bytes()[2]) != t { continue; }
                    self.value(out, VT::I32, d);
                    let a = align_for(self.r, o);
                    let off = self.offset();
                    out.push(Instr { op: o.op, imm: Imm::Two(a, off) });
                    break;
                }
            },
            8 => {
                let o = if self.r.pct(70) { 0x02 } else { 0x03 };
                let b = self.block(if o == 2 { Some(t) } else { None }, Some(t), d);
                out.push(Instr { op: o, imm: Imm::Block(Some(t), b) });
            }
            9 => {
                self.value(out, VT::I32, d);
                let a = self.block(Some(t), Some(t), d);
                let b = self.block(Some(t), Some(t), d);
                out.push(Instr { op: 0x04, imm: Imm::If(Some(t), a, b) });
            }
            10 => { self.call(out, Some(t), d); }
            11 => {
                self.value(out, t, d);
                self.value(out, t, d);
                self.value(out, VT::I32, d);
                out.push(Instr { op: 0x1B, imm: Imm::None });
            }
            12 => if let Some(l) = self.local_of(t) {
                self.value(out, t, d);
                out.push(Instr { op: 0x22, imm: Imm::Idx(l) });
            },
            13 => if t == VT::I32 && !self.env.mems.is_empty() {
                if self.r.pct(50) {
                    out.push(Instr { op: 0x3F, imm: Imm::Idx(0) });
                } else {
                    self.value(out, VT::I32, d);
                    out.push(Instr { op: 0x40, imm: Imm::Idx(0) });
                }
            },
            _ => if let Some(l) = self.label_of(Some(t)) {
                self.value(out, t, d);
                self.value(out, VT::I32, d);
                out.push(Instr { op: 0x0D, imm: Imm::Idx(l) });
            },
        }
        if out.len() == before { out.push(konst(self.r, t)); }
    }

    /// Appends code that leaves nothing.
    fn stmt(&mut self, out: &mut Vec<Instr>, d: usize) {
        if self.budget == 0 { out.push(Instr { op: 0x01, imm: Imm::None }); return; }
        self.budget -= 1;
        let t = val(self.r);
        let before = out.len();
        let dd = d.saturating_sub(1);
        match self.r.below(12) {
            0 => out.push(Instr { op: 0x01, imm: Imm::None }),
            1 | 2 => { self.value(out, t, d); out.push(Instr { op: 0x1A, imm: Imm::None }) }
            3 => if let Some(l) = self.local_of(t) {
                self.value(out, t, d);
                out.push(Instr { op: 0x21, imm: Imm::Idx(l) });
            },
            4 => if let Some(g) = self.global_of(t, true) {
                self.value(out, t, d);
                out.push(Instr { op: 0x24, imm: Imm::Idx(g) });
            },
            5 => if !self.env.mems.is_empty() {
                for _ in 0..20 {
                    let o = self.r.pick(OPS);
                    if o.width == 0 || !o.sig.ends_with(':') { continue; }
                    self.value(out, VT::I32, d);
                    self.value(out, VT::from_letter(o.sig.as_bytes()[1]), d);
                    let a = align_for(self.r, o);
                    let off = self.offset();
                    out.push(Instr { op: o.op, imm: Imm::Two(a, off) });
                    break;
                }
            },
            6 => { self.call(out, None, d); }
            7 | 8 => if d > 0 {
                let o = if self.r.pct(60) { 0x02 } else { 0x03 };
                let b = self.block(None, None, dd);
                out.push(Instr { op: o, imm: Imm::Block(None, b) });
            },
            9 => if d > 0 {
                self.value(out, VT::I32, dd);
                let a = self.block(None, None, dd);
                let b = if self.r.pct(50) { self.block(None, None, dd) } else { vec![] };
                out.push(Instr { op: 0x04, imm: Imm::If(None, a, b) });
            },
            10 => if let Some(l) = self.label_of(None) {
                self.value(out, VT::I32, d);
                out.push(Instr { op: 0x0D, imm: Imm::Idx(l) });
            },
            _ => if let Some(l) = self.label_of(Some(t)) {
                self.value(out, t, d);
                self.value(out, VT::I32, d);
                out.push(Instr { op: 0x0D, imm: Imm::Idx(l) });
                out.push(Instr { op: 0x1A, imm: Imm::None });
            },
        }
        if out.len() == before { out.push(Instr { op: 0x01, imm: Imm::None }); }
    }

    fn block(&mut self, label: Option<VT>, end: Option<VT>, d: usize) -> Vec<Instr> {
        self.ctrls.push((label, end));
        let mut out = vec![];
        let n = if d == 0 { self.r.below(2) } else { self.r.skewed(3) };
        for _ in 0..n { self.stmt(&mut out, d); }
        self.finish(&mut out, end, d);
        self.ctrls.pop();
        out
    }

    /// Brings a sequence to its end: the result, or a jump followed by dead code.
    fn finish(&mut self, out: &mut Vec<Instr>, end: Option<VT>, d: usize) {
        if !self.r.pct(self.dead) {
            if let Some(t) = end { self.value(out, t, d); }
            return;
        }
        // values below the jump's operands are allowed and dropped
        if self.r.pct(30) {
            let t = val(self.r);
            self.value(out, t, d);
        }
        match self.r.below(5) {
            0 => out.push(Instr { op: 0x00, imm: Imm::None }),
            1 => {
                if let Some(t) = self.ret { self.value(out, t, d); }
                out.push(Instr { op: 0x0F, imm: Imm::None });
            }
            2 => {
                // br_table over labels of one type
                let n = self.ctrls.len();
                let def = self.r.below(n);
                let t = self.ctrls[n - 1 - def].0;
                let same: Vec<u32> = (0..n).filter(|l| self.ctrls[n - 1 - l].0 == t).map(|l| l as u32).collect();
                let k = if self.r.below(20_000) == 0 { self.r.range(65_530, 66_500) } else if self.r.pct(5) { self.r.range(120, 300) } else { self.r.skewed(8) };
                let v: Vec<u32> = (0..k).map(|_| *self.r.pick(&same)).collect();
                if let Some(t) = t { self.value(out, t, d); }
                self.value(out, VT::I32, d);
                out.push(Instr { op: 0x0E, imm: Imm::BrTable(v, def as u32) });
            }
            _ => {
                let n = self.ctrls.len();
                let l = self.r.below(n);
                if let Some(t) = self.ctrls[n - 1 - l].0 { self.value(out, t, d); }
                out.push(Instr { op: 0x0C, imm: Imm::Idx(l as u32) });
            }
        }
        // dead code: anything the checker accepts
        let ctrls = self.ctrls.iter().map(|(l, e)| Frame { label: *l, end: *e, height: 0, dead: false }).collect();
        let mut c = Checker { vals: vec![], ctrls };
        c.ctrls.last_mut().unwrap().dead = true;
        let n = self.r.skewed(12);
        for _ in 0..n {
            let i = self.random_instr(d);
            let mut next = c.clone();
            if next.step(&i, self.env, self.locals, Some(self.ret)).is_ok() {
                c = next;
                out.push(i);
            }
        }
        while c.clone().leave().is_err() {
            let i = Instr { op: 0x1A, imm: Imm::None };
            if c.step(&i, self.env, self.locals, Some(self.ret)).is_err() { break; }
            out.push(i);
        }
    }

    fn random_instr(&mut self, d: usize) -> Instr {
        let o = self.r.pick(OPS);
        let small = |r: &mut Rng| r.below(4) as u32;
        let imm = match o.imm {
            ImmKind::None => Imm::None,
            ImmKind::Idx => Imm::Idx(small(self.r)),
            ImmKind::Two => Imm::Two(small(self.r), 0),
            ImmKind::Mem => Imm::Two(small(self.r), self.r.wild() as u32),
            ImmKind::I32 => return konst(self.r, VT::I32),
            ImmKind::I64 => return konst(self.r, VT::I64),
            ImmKind::F32 => return konst(self.r, VT::F32),
            ImmKind::F64 => return konst(self.r, VT::F64),
            ImmKind::BrTable => { let k = self.r.below(4); Imm::BrTable((0..k).map(|_| small(self.r)).collect(), small(self.r)) }
            ImmKind::Block => {
                let t = if self.r.pct(50) { Some(val(self.r)) } else { None };
                let b = if d > 0 { self.block(if o.op == 2 { t } else { None }, t, d - 1) } else { t.map(|t| konst(self.r, t)).into_iter().collect() };
                Imm::Block(t, b)
            }
            ImmKind::If => {
                let t = if self.r.pct(50) { Some(val(self.r)) } else { None };
                let a = t.map(|t| konst(self.r, t)).into_iter().collect();
                let b = t.map(|t| konst(self.r, t)).into_iter().collect();
                Imm::If(t, a, b)
            }
        };
        Instr { op: o.op, imm }
    }
}

pub fn initialiser(r: &mut Rng, t: VT, globals: &[GlobalType]) -> Vec<Instr> {
    if !globals.is_empty() && r.pct(60) {
        for _ in 0..6 {
            let i = r.below(globals.len());
            if globals[i].val == t && !globals[i].mutable {
                return vec![Instr { op: 0x23, imm: Imm::Idx(i as u32) }];
            }
        }
    }
    vec![konst(r, t)]
}

pub fn func_type(r: &mut Rng) -> FuncType {
    let n = if r.pct(3) { r.range(20, 200) } else { r.skewed(5) };
    FuncType { params: (0..n).map(|_| val(r)).collect(), results: if r.pct(60) { vec![val(r)] } else { vec![] } }
}

/// A type that differs in little or nothing from one that is there already.
fn similar(r: &mut Rng, types: &[FuncType]) -> FuncType {
    let mut t = r.pick(types).clone();
    match r.below(5) {
        0 => (),
        1 => { let v = val(r); t.params.push(v) }
        2 => t.results = if t.results.is_empty() { vec![val(r)] } else { vec![] },
        _ if t.params.is_empty() => t.params.push(val(r)),
        3 => { let k = t.params.len() - 1; t.params[k] = val(r) }
        _ => { let k = r.below(t.params.len()); t.params[k] = val(r) }
    }
    t
}

pub fn local_runs(r: &mut Rng, n: usize) -> Vec<(u32, VT)> {
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        let k = match r.below(4) { 0 => 1, 1 => left, 2 => 0, _ => r.range(1, left) };
        v.push((k as u32, val(r)));
        left -= k;
        if v.len() > 40 { break; }
    }
    v
}

pub fn module(r: &mut Rng, s: &Shape) -> Module {
    let mut m = Module::default();
    for _ in 0..s.types {
        let t = if !m.types.is_empty() && r.pct(12) { similar(r, &m.types) } else { func_type(r) };
        m.types.push(t);
    }
    let mut has_table = false;
    let mut has_mem = false;
    for _ in 0..s.imports {
        let desc = match r.below(5) {
            0 | 1 if !m.types.is_empty() => Desc::Func(r.below(m.types.len()) as u32),
            2 if !has_table && r.pct(s.table) => { has_table = true; Desc::Table(limits(r, u32::MAX as u64)) }
            3 if !has_mem && r.pct(s.mem) => { has_mem = true; Desc::Mem(limits(r, 65536)) }
            _ => Desc::Global(GlobalType { val: val(r), mutable: r.pct(40) }),
        };
        m.imports.push(Import { module: text(r), name: text(r), desc });
    }
    if !has_table && r.pct(s.table) { m.tables.push(limits(r, u32::MAX as u64)); }
    if !has_mem && r.pct(s.mem) { m.mems.push(limits(r, 65536)); }
    let imported: Vec<GlobalType> = m.imports.iter().filter_map(|i| if let Desc::Global(g) = i.desc { Some(g) } else { None }).collect();
    for _ in 0..s.globals {
        let ty = GlobalType { val: val(r), mutable: r.pct(40) };
        let init = initialiser(r, ty.val, &imported);
        m.globals.push(Global { ty, init });
    }
    if !m.types.is_empty() {
        for _ in 0..s.funcs {
            let ty = if r.pct(20) { m.types.len() - 1 } else { r.below(m.types.len()) } as u32;
            let n = r.skewed(s.locals.max(1)).max(if s.locals > 100 { s.locals } else { 0 });
            m.funcs.push(Func { ty, locals: local_runs(r, n), body: vec![] });
        }
    }
    let mut bodies = vec![];
    {
        let env = Env::new(&m);
        for f in &m.funcs {
            let t = &m.types[f.ty as usize];
            let locals = Locals::new(&t.params, &f.locals);
            let ret = t.results.first().copied();
            let mut b = Body { r: &mut *r, env: &env, locals: &locals, ret, ctrls: vec![(ret, ret)], budget: 30 + s.stmts * 6, dead: s.dead };
            let mut out = vec![];
            if s.depth > 8 {
                out = tower(&mut b, s.depth);
            }
            for _ in 0..s.stmts { b.stmt(&mut out, s.depth.min(6)); }
            b.finish(&mut out, ret, s.depth.min(4));
            bodies.push(out);
        }
    }
    for (f, b) in m.funcs.iter_mut().zip(bodies) { f.body = b; }
    let (nf, nt, nm, globals) = { let e = Env::new(&m); (e.funcs.len(), e.tables.len(), e.mems.len(), e.globals.clone()) };
    if nt > 0 {
        for _ in 0..s.elems {
            let k = if nf == 0 { 0 } else if s.blob > 60_000 { s.blob } else { r.skewed(300) };
            m.elem.push(Elem { table: 0, offset: initialiser(r, VT::I32, &globals), init: (0..k).map(|_| if r.pct(20) { nf - 1 } else { r.below(nf) } as u32).collect() });
        }
    }
    if nm > 0 {
        for _ in 0..s.datas {
            let k = if s.blob > 60_000 { s.blob } else { r.below(s.blob + 1) };
            m.data.push(Data { mem: 0, offset: initialiser(r, VT::I32, &globals), init: (0..k).map(|_| r.u64() as u8).collect() });
        }
    }
    if r.pct(40) {
        let e = Env::new(&m);
        let fits: Vec<u32> = (0..nf as u32).filter(|f| e.func_type(*f).map(|t| t.params.is_empty() && t.results.is_empty()).unwrap_or(false)).collect();
        if !fits.is_empty() { let f = *r.pick(&fits); m.start = Some(f); }
    }
    let mut used = std::collections::BTreeSet::new();
    for _ in 0..s.exports {
        let kind = r.below(4) as u8;
        let n = match kind { 0 => nf, 1 => nt, 2 => nm, _ => globals.len() };
        if n == 0 { continue; }
        let idx = match r.below(4) { 0 => n - 1, 1 => 0, _ => r.below(n) } as u32;
        let mut name = text(r);
        while !used.insert(name.clone()) { name.push_str(&r.below(1000).to_string()); }
        m.exports.push(Export { name, kind, idx });
    }
    m
}

/// A module in which many things of one kind meet many of another, so that work or memory spent on
/// each pair shows: operands and nested blocks, locals and blocks, parameters and functions,
/// branch targets and labels, declared limits without content.
pub fn heavy(r: &mut Rng) -> Module {
    let plain = |op: u8| Instr { op, imm: Imm::None };
    let mut m = Module::default();
    m.types.push(FuncType { params: vec![], results: vec![] });
    let big = if r.pct(15) { 4 } else { 1 };
    let depth = |r: &mut Rng| if r.pct(30) { r.range(600, 1150) } else { r.range(20, 95) };
    let wrap = |r: &mut Rng, n: usize, mut inner: Vec<Instr>| {
        let side = r.below(3);
        for _ in 0..n {
            inner = match side {
                0 => vec![Instr { op: 0x02, imm: Imm::Block(None, inner) }],
                1 => vec![Instr { op: 0x03, imm: Imm::Block(None, inner) }],
                _ => vec![Instr { op: 0x41, imm: Imm::I32(0) }, Instr { op: 0x04, imm: Imm::If(None, inner, vec![]) }],
            };
        }
        inner
    };
    let add = |m: &mut Module, ty: u32, locals: Vec<(u32, VT)>, body: Vec<Instr>| m.funcs.push(Func { ty, locals, body });
    match r.below(8) {
        0 => {
            // a tall operand stack under, or inside, deep blocks
            let n = r.range(200, 3000) * big;
            let d = depth(r);
            let mut body: Vec<Instr> = (0..n).map(|_| { let t = val(r); konst(r, t) }).collect();
            if r.pct(30) {
                body.push(plain(0x00));
                body = wrap(r, d, body);
            } else {
                let deep = wrap(r, d, vec![plain(0x01)]);
                body.extend(deep);
                body.push(plain(0x00));
            }
            add(&mut m, 0, vec![], body);
        }
        1 => {
            // many locals and many blocks, one inside or after the other
            let n = r.range(500, 12_000) * big;
            let locals = local_runs(r, n);
            let body = if r.pct(50) { let d = depth(r); wrap(r, d, vec![]) } else { (0..r.range(100, 1000)).map(|_| Instr { op: 0x02, imm: Imm::Block(None, vec![]) }).collect() };
            add(&mut m, 0, locals, body);
        }
        2 => {
            // one wide type and many functions of it
            let huge = r.pct(12);
            let n = if huge { r.range(3000, 9000) } else { r.range(200, 2500) * big };
            m.types.push(FuncType { params: (0..n).map(|_| val(r)).collect(), results: if r.pct(50) { vec![VT::I32] } else { vec![] } });
            let own = if huge { 95 } else { 60 };
            for _ in 0..if huge { r.range(1000, 2000) } else { r.range(50, 400) } {
                if !r.pct(own) { m.imports.push(Import { module: text(r), name: text(r), desc: Desc::Func(1) }); } else { add(&mut m, 1, vec![], vec![plain(0x00)]); }
            }
            if !huge && r.pct(30) {
                // called over and over where nothing is left to take
                let mut body = vec![plain(0x00)];
                let known = (m.imports.len() + m.funcs.len()) as u32;
                for _ in 0..r.range(100, 2000) { body.push(Instr { op: 0x10, imm: Imm::Idx(r.below(known as usize) as u32) }); if r.pct(50) { body.push(plain(0x00)); } }
                body.push(plain(0x00));
                add(&mut m, 0, vec![], body);
            }
        }
        3 => {
            // wide branch tables inside deep blocks
            let d = depth(r);
            let n = r.range(200, 4000) * big;
            let table = Imm::BrTable((0..n).map(|_| r.below(d) as u32).collect(), r.below(d) as u32);
            let count = r.range(1, 6);
            let mut inner = vec![];
            for _ in 0..count { inner.push(Instr { op: 0x41, imm: Imm::I32(1) }); inner.push(Instr { op: 0x0E, imm: table.clone() }); }
            let body = wrap(r, d + 1, inner);
            add(&mut m, 0, vec![], body);
        }
        4 => {
            // huge limits and nothing in them
            let min = *r.pick(&[1u32 << 16, 1 << 20, 1 << 24, 1 << 28, u32::MAX]);
            m.tables.push(Limits { min, max: if r.pct(50) { Some(u32::MAX) } else { None } });
            m.mems.push(Limits { min: *r.pick(&[1, 1000, 65535, 65536]), max: if r.pct(50) { Some(65536) } else { None } });
            for _ in 0..r.below(4) { m.elem.push(Elem { table: 0, offset: vec![Instr { op: 0x41, imm: Imm::I32(-1) }], init: vec![] }); }
            for _ in 0..r.below(4) { m.data.push(Data { mem: 0, offset: vec![Instr { op: 0x41, imm: Imm::I32(i32::MAX) }], init: vec![7; r.below(60)] }); }
        }
        5 => {
            // many names exported for few things
            add(&mut m, 0, vec![], vec![]);
            let long = r.range(1, 60);
            for i in 0..r.range(300, 3000) { m.exports.push(Export { name: format!("{}{}", "x".repeat(long), i), kind: 0, idx: 0 }); }
        }
        6 => {
            // many small functions, each with its own label and operand
            for _ in 0..r.range(500, 4000) * big { add(&mut m, 0, vec![], vec![Instr { op: 0x41, imm: Imm::I32(3) }, plain(0x1A)]); }
        }
        _ => {
            // many blocks one after the other, each leaving dead code behind
            let n = r.range(300, 3000) * big;
            let dead: Vec<Instr> = (0..r.below(6)).map(|_| plain(*r.pick(&[0x1A, 0x01, 0x6A]))).collect();
            let mut body = vec![];
            for _ in 0..n {
                let mut b = vec![plain(0x00)];
                b.extend(dead.iter().cloned());
                if !dead.is_empty() { b.push(plain(0x00)); }
                body.push(Instr { op: 0x02, imm: Imm::Block(None, b) });
            }
            add(&mut m, 0, vec![], body);
        }
    }
    m
}

/// Blocks inside each other around an instruction that may not be there.
pub fn tower_of(r: &mut Rng, depth: usize) -> Module {
    let mut m = Module::default();
    m.types.push(FuncType { params: vec![], results: vec![] });
    let mut inner = vec![any_instr(r)];
    for _ in 0..depth {
        inner = match r.below(4) {
            0 | 1 => vec![Instr { op: 0x02, imm: Imm::Block(None, inner) }],
            2 => vec![Instr { op: 0x03, imm: Imm::Block(None, inner) }],
            _ if r.pct(50) => vec![Instr { op: 0x41, imm: Imm::I32(0) }, Instr { op: 0x04, imm: Imm::If(None, inner, vec![]) }],
            _ => vec![Instr { op: 0x41, imm: Imm::I32(0) }, Instr { op: 0x04, imm: Imm::If(None, vec![], inner) }],
        };
    }
    m.funcs.push(Func { ty: 0, locals: vec![], body: inner });
    m
}

/// Many instructions inside very many blocks.
pub fn shaft(r: &mut Rng, depth: usize, n: usize) -> Module {
    let mut m = Module::default();
    m.types.push(FuncType { params: vec![], results: vec![] });
    let i32c = |v: i32| Instr { op: 0x41, imm: Imm::I32(v) };
    let mut inner = vec![];
    let what = r.below(5);
    for _ in 0..n / 3 {
        match what {
            0 => { inner.push(i32c(1)); inner.push(Instr { op: 0x1A, imm: Imm::None }) }
            1 => inner.push(Instr { op: 0x02, imm: Imm::Block(None, vec![]) }),
            2 => { inner.push(i32c(1)); inner.push(Instr { op: 0x0D, imm: Imm::Idx(r.below(depth) as u32) }) }
            3 => inner.push(Instr { op: 0x01, imm: Imm::None }),
            _ => inner.push(i32c(5)),
        }
    }
    if what == 4 { inner.push(Instr { op: 0x00, imm: Imm::None }); }
    let side = r.below(3);
    let each = if r.pct(20) { 1 } else { 0 };
    for _ in 0..depth {
        let mut v: Vec<Instr> = (0..each).map(|_| i32c(7)).collect();
        match side {
            0 => v.push(Instr { op: 0x02, imm: Imm::Block(None, inner) }),
            1 => v.push(Instr { op: 0x03, imm: Imm::Block(None, inner) }),
            _ => { v.push(i32c(0)); v.push(Instr { op: 0x04, imm: if r.pct(80) { Imm::If(None, inner, vec![]) } else { Imm::If(None, vec![], inner) } }) }
        }
        for _ in 0..each { v.push(Instr { op: 0x1A, imm: Imm::None }); }
        inner = v;
    }
    m.funcs.push(Func { ty: 0, locals: vec![], body: inner });
    m
}

/// One module with the things of both. Numbers of functions and globals stay as they are.
fn merge(mut a: Module, mut b: Module) -> Module {
    let shift = a.types.len() as u32;
    for f in &mut b.funcs { f.ty += shift; }
    for i in &mut b.imports { if let Desc::Func(t) = &mut i.desc { *t += shift; } }
    a.types.append(&mut b.types);
    a.imports.append(&mut b.imports);
    a.funcs.append(&mut b.funcs);
    if a.tables.is_empty() { a.tables = b.tables; }
    if a.mems.is_empty() { a.mems = b.mems; }
    a.globals.append(&mut b.globals);
    a.exports.append(&mut b.exports);
    a.elem.append(&mut b.elem);
    a.data.append(&mut b.data);
    a
}

/// A module of about `n` bytes that consists of very many things of one kind, or of two.
pub fn bulk(r: &mut Rng, n: usize) -> Module {
    if r.pct(50) {
        let n = if r.pct(40) { n.max(200_000) } else { n };
        let kind = |r: &mut Rng| if r.pct(75) { *r.pick(&[0usize, 1, 1, 2, 2, 3, 4, 5, 6, 8, 14, 16]) } else { r.below(17) };
        let (a, b) = (kind(r), kind(r));
        let (a, b) = (many(r, n / 2, a), many(r, n / 2, b));
        merge(a, b)
    } else { let kind = r.below(17); many(r, n, kind) }
}

fn many(r: &mut Rng, n: usize, kind: usize) -> Module {
    let plain = |op: u8| Instr { op, imm: Imm::None };
    let i32c = |v: i32| Instr { op: 0x41, imm: Imm::I32(v) };
    let small_type = |r: &mut Rng| FuncType { params: (0..r.below(4)).map(|_| val(r)).collect(), results: if r.pct(50) { vec![val(r)] } else { vec![] } };
    let mut m = Module::default();
    m.types.push(FuncType { params: vec![], results: vec![] });
    match kind {
        0 => for _ in 0..n / 6 { let t = small_type(r); m.types.push(t); },
        1 => for i in 0..n / 8 {
            let desc = if r.pct(50) { Desc::Func(0) } else { Desc::Global(GlobalType { val: val(r), mutable: r.pct(40) }) };
            m.imports.push(Import { module: if i % 2 == 0 { "m".into() } else { String::new() }, name: format!("{}", i % 700), desc });
        },
        2 => {
            for _ in 0..r.below(20) { let t = small_type(r); m.types.push(t); }
            for _ in 0..n / 5 { m.funcs.push(Func { ty: r.below(m.types.len()) as u32, locals: vec![], body: vec![plain(0x00)] }); }
        }
        3 => {
            for _ in 0..r.below(30) { m.imports.push(Import { module: "g".into(), name: String::new(), desc: Desc::Global(GlobalType { val: VT::I32, mutable: false }) }); }
            let k = m.imports.len();
            for _ in 0..n / 6 {
                let init = if k > 0 && r.pct(50) { Instr { op: 0x23, imm: Imm::Idx(r.below(k) as u32) } } else { i32c(r.below(60) as i32) };
                m.globals.push(Global { ty: GlobalType { val: VT::I32, mutable: r.pct(50) }, init: vec![init] });
            }
        }
        4 => {
            m.funcs.push(Func { ty: 0, locals: vec![], body: vec![] });
            let pre = if r.pct(30) { "x".repeat(r.range(20, 300)) } else { String::new() };
            let k = n / (pre.len() + 8);
            let down = r.pct(50);
            for i in 0..k { m.exports.push(Export { name: format!("{}{}", pre, if down { k - i } else { i }), kind: 0, idx: 0 }); }
            if r.pct(20) && k > 1 { m.exports[k - 1].name = m.exports[0].name.clone(); }
        }
        5 => {
            m.funcs.push(Func { ty: 0, locals: vec![], body: vec![] });
            m.tables.push(Limits { min: 10, max: None });
            let each = *r.pick(&[0usize, 1, 50, n]);
            for _ in 0..n / (6 + each) + 1 { m.elem.push(Elem { table: 0, offset: vec![i32c(0)], init: vec![0; each] }); }
        }
        6 => {
            m.mems.push(Limits { min: 1, max: None });
            let each = *r.pick(&[0usize, 1, 50, n]);
            for _ in 0..n / (6 + each) + 1 { m.data.push(Data { mem: 0, offset: vec![i32c(0)], init: vec![9; each] }); }
        }
        7 => {
            // a long plain function over many locals
            let k = *r.pick(&[1usize, 100, 20_000]);
            let mut body = vec![];
            while body.len() < n / 3 {
                let i = r.below(k) as u32;
                body.push(Instr { op: 0x20, imm: Imm::Idx(i) });
                body.push(if r.pct(50) { Instr { op: 0x21, imm: Imm::Idx(i) } } else { plain(0x1A) });
            }
            m.funcs.push(Func { ty: 0, locals: vec![(k as u32, VT::I64)], body });
        }
        8 => {
            // blocks one after the other, and inside each other
            let d = *r.pick(&[1usize, 2, 30, 90, 900]);
            let mut body = vec![];
            for _ in 0..n / (4 * d) + 1 {
                let mut inner = vec![];
                if r.pct(50) { inner.push(Instr { op: 0x0C, imm: Imm::Idx(d as u32 - 1) }); }
                for _ in 0..d { inner = vec![match r.below(2) { 0 => Instr { op: 0x02, imm: Imm::Block(None, inner) }, _ => Instr { op: 0x03, imm: Imm::Block(None, inner) } }]; }
                body.extend(inner);
            }
            m.funcs.push(Func { ty: 0, locals: vec![], body });
        }
        9 => {
            // branch tables
            let d = *r.pick(&[1usize, 50, 90]);
            let each = *r.pick(&[2usize, 40, n]);
            let mut body = vec![];
            for _ in 0..n / (each + 4) + 1 {
                body.push(i32c(0));
                body.push(Instr { op: 0x0E, imm: Imm::BrTable((0..each).map(|_| r.below(d) as u32).collect(), 0) });
            }
            for _ in 0..d { body = vec![Instr { op: 0x02, imm: Imm::Block(None, body) }]; }
            m.funcs.push(Func { ty: 0, locals: vec![], body });
        }
        10 => {
            // a tall operand stack, taken down one by one, or at once
            let mut body: Vec<Instr> = (0..n / 3).map(|i| i32c(i as i32 & 63)).collect();
            if r.pct(50) { for _ in 0..n / 3 { body.push(plain(0x1A)); } } else { body.push(plain(0x00)); }
            m.funcs.push(Func { ty: 0, locals: vec![], body });
        }
        11 => {
            // dead code, or conditional branches over a tall stack
            let mut body = vec![plain(0x00)];
            let k = r.below(3);
            if k == 2 {
                // dead calls of something wide
                m.types.push(FuncType { params: (0..r.range(10, 1000)).map(|_| val(r)).collect(), results: vec![] });
                m.imports.push(Import { module: String::new(), name: String::new(), desc: Desc::Func(1) });
                for _ in 0..n / 300 { body.push(Instr { op: 0x10, imm: Imm::Idx(0) }); }
            }
            for _ in 0..n { body.push(plain(if k == 0 { 0x1A } else { *r.pick(&[0x6A, 0x45, 0x1B, 0x01]) })); }
            body.push(plain(0x00));
            m.funcs.push(Func { ty: 0, locals: vec![], body });
        }
        12 => {
            let t: String = match r.below(3) { 0 => "a".repeat(n), 1 => "\u{65e5}".repeat(n / 3), _ => "\u{1F496}".repeat(n / 4) };
            m.imports.push(Import { module: t.clone(), name: String::new(), desc: Desc::Func(0) });
            m.exports.push(Export { name: t, kind: 0, idx: 0 });
        }
        13 => {
            let runs = n / 2;
            let mut left = 30_000u32;
            let locals = (0..runs).map(|_| { let k = if left > 0 && r.pct(30) { 1 } else { 0 }; left -= k; (k, val(r)) }).collect();
            m.funcs.push(Func { ty: 0, locals, body: vec![] });
        }
        14 => {
            // calls between few functions
            m.types.push(FuncType { params: vec![VT::I32, VT::F64], results: vec![VT::I64] });
            m.tables.push(Limits { min: 1, max: None });
            let mut body = vec![];
            let kinds = *r.pick(&[1, 2, 3, 3]);
            for _ in 0..n / 6 {
                match r.below(kinds) {
                    0 => body.push(Instr { op: 0x10, imm: Imm::Idx(0) }),
                    1 => { body.push(i32c(0)); body.push(Instr { op: 0x11, imm: Imm::Two(0, 0) }); }
                    _ => { body.push(i32c(0)); body.push(i32c(0)); body.push(plain(0xB7)); body.push(Instr { op: 0x10, imm: Imm::Idx(1) }); body.push(plain(0x1A)); }
                }
            }
            m.funcs.push(Func { ty: 0, locals: vec![], body });
            m.funcs.push(Func { ty: 1, locals: vec![], body: vec![plain(0x00)] });
        }
        15 => {
            m.types.push(FuncType { params: (0..n).map(|_| val(r)).collect(), results: vec![] });
            m.funcs.push(Func { ty: 1, locals: vec![], body: vec![] });
        }
        _ => {
            // conditions one after the other
            let mut body = vec![];
            for _ in 0..n / 12 { body.push(i32c(1)); body.push(Instr { op: 0x04, imm: Imm::If(Some(VT::I32), vec![i32c(2)], vec![i32c(3)]) }); body.push(plain(0x1A)); }
            m.funcs.push(Func { ty: 0, locals: vec![], body });
        }
    }
    m
}

fn tower(b: &mut Body, depth: usize) -> Vec<Instr> {
    let mut inner = vec![];
    let n = b.ctrls.len() + depth;
    if b.r.pct(50) {
        // a branch from the innermost block to the outermost label, or near it
        let l = n as u32 - 1 - b.r.below(2) as u32;
        if l as usize != n - 1 || b.ret.is_none() {
            b.value(&mut inner, VT::I32, 1);
            inner.push(Instr { op: 0x0D, imm: Imm::Idx(l) });
        }
    }
    for _ in 0..depth {
        let mut next = vec![];
        match b.r.below(3) {
            0 => next.push(Instr { op: 0x02, imm: Imm::Block(None, inner) }),
            1 => next.push(Instr { op: 0x03, imm: Imm::Block(None, inner) }),
            _ => {
                next.push(Instr { op: 0x41, imm: Imm::I32(1) });
                let (x, y) = if b.r.pct(50) { (inner, vec![]) } else { (vec![], inner) };
                next.push(Instr { op: 0x04, imm: Imm::If(None, x, y) });
            }
        }
        inner = next;
    }
    inner
}

// ---------------------------------------------------------------------------------------------
// Faulty producers

fn seqs<'m>(v: &'m mut Vec<Instr>, out: &mut Vec<*mut Vec<Instr>>) {
    out.push(v as *mut _);
    for i in v.iter_mut() {
        match &mut i.imm {
            Imm::Block(_, b) => seqs(b, out),
            Imm::If(_, a, b) => { seqs(a, out); seqs(b, out) }
            _ => (),
        }
    }
}

/// Applies `f` to one random instruction sequence of the module's function bodies.
fn with_seq(r: &mut Rng, m: &mut Module, f: impl FnOnce(&mut Rng, &mut Vec<Instr>)) -> bool {
    let mut all = vec![];
    for func in m.funcs.iter_mut() { seqs(&mut func.body, &mut all); }
    if all.is_empty() { return false; }
    let p = *r.pick(&all);
    // the pointers are into `m`, which is borrowed mutably for the whole function
    f(r, unsafe { &mut *p });
    true
}

fn with_instr(r: &mut Rng, m: &mut Module, want: impl Fn(&Instr) -> bool, f: impl FnOnce(&mut Rng, &mut Instr)) -> bool {
    let mut all = vec![];
    for func in m.funcs.iter_mut() { seqs(&mut func.body, &mut all); }
    let mut hits: Vec<*mut Instr> = vec![];
    for p in all {
        for i in unsafe { (*p).iter_mut() } {
            if want(i) { hits.push(i as *mut _); }
        }
    }
    if hits.is_empty() { return false; }
    let p = *r.pick(&hits);
    f(r, unsafe { &mut *p });
    true
}

/// A short random function body that is valid except, perhaps, for one thing in it.
struct Soup<'a> { r: &'a mut Rng, env: &'a Env<'a>, locals: &'a Locals, ret: Option<VT>, wrongs: usize }

impl<'a> Soup<'a> {
    fn seq(&mut self, c: &mut Checker, d: usize) -> Vec<Instr> {
        let mut out = vec![];
        for _ in 0..self.r.range(1, 9) {
            if d > 0 && self.r.pct(25) {
                let t = if self.r.pct(50) { Some(val(self.r)) } else { None };
                let kind = 2 + self.r.below(3) as u8;
                if kind == 4 {
                    if c.clone().pop(VT::I32).is_err() { c.push(VT::I32); out.push(konst(self.r, VT::I32)); }
                    let _ = c.pop(VT::I32);
                }
                c.enter(if kind == 3 { None } else { t }, t);
                let a = self.part(c, d);
                let imm = if kind == 4 {
                    c.enter(t, t);
                    let b = self.part(c, d);
                    Imm::If(t, a, b)
                } else { Imm::Block(t, a) };
                if let Some(t) = t { c.push(t); }
                out.push(Instr { op: kind, imm });
                continue;
            }
            for _ in 0..12 {
                let i = self.pick(c);
                let mut next = c.clone();
                if next.step(&i, self.env, self.locals, Some(self.ret)).is_ok() { *c = next; out.push(i); break; }
                let dead = c.ctrls.last().map_or(false, |f| f.dead);
                if self.wrongs > 0 && self.r.pct(if dead { 30 } else { 12 }) {
                    if let Some(next) = self.wrong(c, &i) { self.wrongs -= 1; *c = next; out.push(i); break; }
                }
            }
        }
        out
    }
    fn part(&mut self, c: &mut Checker, d: usize) -> Vec<Instr> {
        let mut v = self.seq(c, d - 1);
        self.close(c, &mut v);
        v
    }
    fn pick(&mut self, c: &Checker) -> Instr {
        let n = c.ctrls.len();
        let dead = c.ctrls.last().map_or(false, |f| f.dead);
        match self.r.below(12) {
            3 | 9 if dead => Instr { op: 0x1B, imm: Imm::None },
            0 | 1 | 2 => { let t = val(self.r); konst(self.r, t) }
            3 => Instr { op: 0x00, imm: Imm::None },
            4 => Instr { op: 0x1A, imm: Imm::None },
            5 => Instr { op: 0x1B, imm: Imm::None },
            6 => { let l = self.r.below(n) as u32; Instr { op: 0x0C + self.r.below(2) as u8, imm: Imm::Idx(l) } }
            7 => { let k = self.r.below(3); let v = (0..k).map(|_| self.r.below(n) as u32).collect(); Instr { op: 0x0E, imm: Imm::BrTable(v, self.r.below(n) as u32) } }
            8 => { let t = self.locals.total().min(40) as usize; Instr { op: 0x20 + self.r.below(3) as u8, imm: Imm::Idx(self.r.below(t + 1) as u32) } }
            9 => { let t = self.env.funcs.len(); Instr { op: 0x10, imm: Imm::Idx(self.r.below(t + 1) as u32) } }
            _ => loop { let i = any_instr(self.r); if !matches!(i.imm, Imm::Block(..) | Imm::If(..)) { break i; } },
        }
    }
    /// What would be left if one rule were not applied.
    fn wrong(&mut self, c: &Checker, i: &Instr) -> Option<Checker> {
        let mut n = c.clone();
        let f = n.ctrls.last_mut()?;
        match self.r.below(4) {
            0 | 1 => { let h = f.height; for v in &mut n.vals[h..] { *v = None; } }
            2 => f.dead = true,
            _ => f.height = 0,
        }
        n.step(i, self.env, self.locals, Some(self.ret)).ok()?;
        let (old, new) = (c.ctrls.last()?, n.ctrls.last_mut()?);
        new.height = old.height;
        while n.vals.len() < old.height { n.vals.push(None); }
        new.dead &= old.dead || matches!(i.op, 0x00 | 0x0C | 0x0E | 0x0F);
        Some(n)
    }
    /// Brings the innermost frame to its end.
    fn close(&mut self, c: &mut Checker, out: &mut Vec<Instr>) {
        let f = c.ctrls.last().unwrap().clone();
        let bad = self.wrongs > 0 && self.r.pct(8);
        if bad { self.wrongs -= 1; }
        if !(bad && self.r.pct(40)) && c.clone().leave().is_err() {
            let over = self.r.below(2);
            while c.vals.len() > f.height + over { c.vals.pop(); out.push(Instr { op: 0x1A, imm: Imm::None }); }
            if c.clone().leave().is_err() {
                while c.vals.len() > f.height { c.vals.pop(); out.push(Instr { op: 0x1A, imm: Imm::None }); }
                while c.vals.len() < f.height { let t = val(self.r); c.push(t); out.push(konst(self.r, t)); }
                if let Some(t) = f.end { let t = if bad { val(self.r) } else { t }; out.push(konst(self.r, t)); } else if bad { out.push(konst(self.r, VT::I32)); }
            }
        }
        c.vals.truncate(f.height);
        while c.vals.len() < f.height { c.vals.push(None); }
        c.ctrls.pop();
    }
}

fn soup(r: &mut Rng, m: &mut Module) -> bool {
    if m.funcs.is_empty() { return false; }
    let k = r.below(m.funcs.len());
    if m.types.get(m.funcs[k].ty as usize).is_none() { return false; }
    let body = {
        let env = Env::new(m);
        let t = &m.types[m.funcs[k].ty as usize];
        let ret = t.results.first().copied();
        let locals = Locals::new(&t.params, &m.funcs[k].locals);
        let mut c = Checker::new(ret);
        let (wrongs, d) = (r.below(5).min(1), r.below(4));
        let mut s = Soup { r, env: &env, locals: &locals, ret, wrongs };
        let mut out = s.seq(&mut c, d);
        s.close(&mut c, &mut out);
        out
    };
    m.funcs[k].body = body;
    true
}

fn edge(r: &mut Rng, n: usize) -> u32 {
    match r.below(6) {
        0 | 1 => n as u32,
        2 => (n as u32).wrapping_add(1),
        3 => u32::MAX,
        4 => 0,
        _ => (n as u32).wrapping_sub(1),
    }
}

pub fn any_instr(r: &mut Rng) -> Instr {
    let o = r.pick(OPS);
    let imm = match o.imm {
        ImmKind::None => Imm::None,
        ImmKind::Idx => Imm::Idx(r.below(4) as u32),
        ImmKind::Two => Imm::Two(r.below(3) as u32, r.below(2) as u32),
        ImmKind::Mem => Imm::Two(r.below(5) as u32, r.below(100) as u32),
        ImmKind::I32 => Imm::I32(r.wild() as i32),
        ImmKind::I64 => Imm::I64(r.wild() as i64),
        ImmKind::F32 => Imm::F32(r.u64() as u32),
        ImmKind::F64 => Imm::F64(r.u64()),
        ImmKind::BrTable => Imm::BrTable((0..r.below(4)).map(|_| r.below(3) as u32).collect(), r.below(3) as u32),
        ImmKind::Block => Imm::Block(if r.pct(50) { Some(val(r)) } else { None }, vec![]),
        ImmKind::If => Imm::If(if r.pct(50) { Some(val(r)) } else { None }, vec![], vec![]),
    };
    Instr { op: o.op, imm }
}

fn retext(r: &mut Rng, s: &mut String) {
    match r.below(8) {
        0 => s.push(*r.pick(&[' ', '\0', '\n', '.', '\u{FEFF}', '\u{301}'])),
        1 => { s.pop(); }
        2 => *s = s.to_uppercase(),
        3 => *s = s.to_lowercase(),
        4 => *s = s.trim().to_string(),
        5 => *s = s.replace('\u{e9}', "e\u{301}"),
        6 => *s = s.chars().rev().collect(),
        _ => { let k = r.below(s.chars().count().max(1)); *s = s.chars().enumerate().map(|(i, c)| if i == k { char::from_u32(c as u32 ^ 1).unwrap_or(c) } else { c }).collect() }
    }
}

/// Changes one thing as little as possible, so that a careless comparison would not see it.
pub fn nudge(r: &mut Rng, m: &mut Module) -> Option<&'static str> {
    let some = |b: bool, s: &'static str| if b { Some(s) } else { None };
    fn list<T: Clone>(r: &mut Rng, v: &mut Vec<T>, other: impl FnOnce(&mut Rng) -> T) {
        let n = v.len();
        match r.below(6) {
            0 => { let x = other(r); v.push(x) }
            1 => { v.pop(); }
            2 if n > 0 => { let x = v[n - 1].clone(); v.push(x) }
            3 if n > 1 => { let k = r.below(n - 1); v.swap(k, k + 1) }
            4 if n > 0 => { let k = r.below(n); v[k] = other(r) }
            _ => { let x = other(r); v.insert(0, x) }
        }
    }
    fn number(r: &mut Rng, v: u32) -> u32 { match r.below(5) { 0 => v ^ 1 << 31, 1 => v.wrapping_add(1), 2 => v.wrapping_add(1 << 16), 3 => v.wrapping_add(256), _ => v ^ 1 << r.below(32) } }
    match r.below(18) {
        0 | 1 => { if m.data.is_empty() { return None; } let k = r.below(m.data.len()); let zero = r.pct(60); list(r, &mut m.data[k].init, |r| if zero { 0 } else { r.u64() as u8 }); Some("data") }
        2 => { if m.elem.is_empty() { return None; } let k = r.below(m.elem.len()); list(r, &mut m.elem[k].init, |r| r.below(4) as u32); Some("element list") }
        3 => { if m.exports.is_empty() { return None; } let k = r.below(m.exports.len()); retext(r, &mut m.exports[k].name); Some("export name") }
        4 => { if m.imports.is_empty() { return None; } let k = r.below(m.imports.len()); let i = &mut m.imports[k]; match r.below(4) { 0 => retext(r, &mut i.name), 1 => retext(r, &mut i.module), 2 => if let Some(c) = i.module.pop() { i.name.insert(0, c) }, _ => std::mem::swap(&mut i.name, &mut i.module) } Some("import name") }
        5 => {
            let mut all: Vec<&mut Limits> = m.tables.iter_mut().chain(m.mems.iter_mut()).chain(m.imports.iter_mut().filter_map(|i| match &mut i.desc { Desc::Table(l) | Desc::Mem(l) => Some(l), _ => None })).collect();
            if all.is_empty() { return None; }
            let k = r.below(all.len());
            let l = &mut *all[k];
            match r.below(4) {
                0 => l.min = number(r, l.min),
                1 => l.max = match l.max { Some(_) => None, None => Some(*r.pick(&[0, l.min, u32::MAX, 65536])) },
                2 => l.max = l.max.map(|x| number(r, x)),
                _ => if let Some(x) = l.max { l.max = Some(l.min); l.min = x },
            }
            Some("limits")
        }
        6 => some(with_instr(r, m, |i| i.op == 0x0E, |r, i| if let Imm::BrTable(v, d) = &mut i.imm { match r.below(4) { 0 => v.push(*d), 1 => if let Some(x) = v.pop() { *d = x }, 2 => *d = number(r, *d), _ => list(r, v, |r| r.below(3) as u32) } }), "branch table"),
        7 => some(with_instr(r, m, |i| matches!(i.imm, Imm::Two(..)), |r, i| if let Imm::Two(a, b) = &mut i.imm { match r.below(3) { 0 => *a = number(r, *a), 1 => *b = number(r, *b), _ => std::mem::swap(a, b) } }), "pair of numbers"),
        8 => some(with_instr(r, m, |i| matches!(i.imm, Imm::I32(_) | Imm::I64(_) | Imm::F32(_) | Imm::F64(_)), |r, i| match &mut i.imm {
            Imm::I32(v) => *v = number(r, *v as u32) as i32,
            Imm::I64(v) => *v ^= 1i64 << r.below(64),
            Imm::F32(v) => *v ^= 1 << r.below(32),
            Imm::F64(v) => *v ^= 1 << r.below(64),
            _ => (),
        }), "constant"),
        9 => some(with_instr(r, m, |i| matches!(i.imm, Imm::If(..) | Imm::Block(..)), |r, i| match &mut i.imm {
            Imm::If(t, a, b) => match r.below(4) { 0 => std::mem::swap(a, b), 1 => b.push(Instr { op: 0x01, imm: Imm::None }), 2 => *t = if t.is_some() { None } else { Some(val(r)) }, _ => { a.pop(); } },
            Imm::Block(t, v) => match r.below(3) { 0 => *t = if r.pct(50) { None } else { Some(val(r)) }, 1 => { v.pop(); } _ => v.push(Instr { op: 0x01, imm: Imm::None }) },
            _ => (),
        }), "block"),
        10 => { m.start = match m.start { Some(x) if r.pct(60) => Some(number(r, x)), Some(_) => None, None => Some(0) }; Some("start") }
        11 => { if m.exports.is_empty() { return None; } let k = r.below(m.exports.len()); let n = m.exports.len(); match r.below(4) { 0 => m.exports.swap(k, n - 1), 1 => m.exports[k].kind = r.below(4) as u8, 2 => m.exports[k].idx = number(r, m.exports[k].idx), _ => { m.exports.pop(); } } Some("export") }
        12 => { if m.funcs.is_empty() { return None; } let k = r.below(m.funcs.len()); if r.pct(30) { m.funcs[k].ty = number(r, m.funcs[k].ty); } else { list(r, &mut m.funcs[k].locals, |r| (r.below(3) as u32, val(r))); } Some("locals") }
        13 => { if m.types.is_empty() { return None; } let k = r.below(m.types.len()); let t = &mut m.types[k]; match r.below(3) { 0 => std::mem::swap(&mut t.params, &mut t.results), 1 => list(r, &mut t.params, val), _ => list(r, &mut t.results, val) } Some("type") }
        14 => { if m.globals.is_empty() { return None; } let k = r.below(m.globals.len()); match r.below(3) { 0 => m.globals[k].ty.mutable ^= true, 1 => m.globals[k].ty.val = val(r), _ => { m.globals.pop(); } } Some("global") }
        15 => { if r.pct(50) { m.data.push(Data { mem: 0, offset: vec![], init: vec![] }) } else { m.elem.push(Elem { table: 0, offset: vec![], init: vec![] }) } Some("empty segment") }
        16 => some(with_instr(r, m, |i| matches!(i.imm, Imm::Idx(_)), |r, i| if let Imm::Idx(x) = &mut i.imm { *x = number(r, *x) }), "index"),
        _ => some(with_instr(r, m, |i| op(i.op).map(numeric).unwrap_or(false), |_, i| { for d in [1u8, 2, 14] { if op(i.op ^ d).map(numeric).unwrap_or(false) { i.op ^= d; break; } } }), "operator"),
    }
}

pub const MUTATIONS: usize = 46;

/// Breaks (or just changes) one thing. Returns what was done, or None if it did not apply.
pub fn mutate(r: &mut Rng, m: &mut Module, which: usize) -> Option<&'static str> {
    let (nf, nt, nm, ng, ig) = { let e = Env::new(m); (e.funcs.len(), e.tables.len(), e.mems.len(), e.globals.len(), e.imported_globals) };
    let some = |b: bool, s: &'static str| if b { Some(s) } else { None };
    match which {
        0 => some(with_seq(r, m, |r, s| { if !s.is_empty() { let k = r.below(s.len()); s.remove(k); } }), "instruction lost"),
        1 => some(with_seq(r, m, |r, s| { let k = r.below(s.len() + 1); let i = any_instr(r); s.insert(k, i) }), "instruction added"),
        2 => some(with_seq(r, m, |r, s| { if s.len() > 1 { let k = r.below(s.len() - 1); s.swap(k, k + 1) } }), "instructions swapped"),
        3 => some(with_seq(r, m, |r, s| { if !s.is_empty() { let k = r.below(s.len()); let i = s[k].clone(); s.insert(k, i) } }), "instruction duplicated"),
        4 => some(with_instr(r, m, |i| op(i.op).map(numeric).unwrap_or(false), |r, i| {
            for _ in 0..20 { let o = r.pick(OPS); if numeric(o) { i.op = o.op; break; } }
        }), "operator replaced"),
        5 => some(with_instr(r, m, |i| op(i.op).map(|o| o.width > 0).unwrap_or(false), |r, i| {
            if let Imm::Two(a, _) = &mut i.imm { *a = match r.below(5) { 0 => *r.pick(&[31, 32, 33, 63, 64, 1 << 31, u32::MAX]), 1 => r.below(6) as u32, _ => a.wrapping_add(1) }; }
        }), "alignment changed"),
        6 => some(with_instr(r, m, |i| matches!(i.op, 0x0C | 0x0D), |r, i| {
            if let Imm::Idx(l) = &mut i.imm { *l = if r.pct(30) { r.wild() as u32 } else { l.wrapping_add(1 + r.below(4) as u32) }; }
        }), "branch target changed"),
        7 => some(with_instr(r, m, |i| i.op == 0x0E, |r, i| {
            if let Imm::BrTable(v, d) = &mut i.imm {
                if v.is_empty() || r.pct(30) { *d = d.wrapping_add(1); } else { let k = r.below(v.len()); v[k] = v[k].wrapping_add(1 + r.below(3) as u32); }
            }
        }), "branch table changed"),
        8 => some(with_instr(r, m, |i| i.op == 0x10, |r, i| i.imm = Imm::Idx(edge(r, nf))), "call target changed"),
        9 => { let n = m.types.len(); some(with_instr(r, m, |i| i.op == 0x11, |r, i| { if let Imm::Two(t, tb) = &mut i.imm { if r.pct(60) { *t = edge(r, n) } else { *tb = edge(r, nt) } } }), "indirect call changed") }
        10 => some(with_instr(r, m, |i| matches!(i.op, 0x20..=0x22), |r, i| { if let Imm::Idx(l) = &mut i.imm { *l = match r.below(4) { 0 => r.wild() as u32, 1 => 0, _ => l.wrapping_add(1) } } }), "local index changed"),
        11 => some(with_instr(r, m, |i| matches!(i.op, 0x23 | 0x24), |r, i| i.imm = Imm::Idx(if r.pct(50) { edge(r, ng) } else { r.below(ng.max(1)) as u32 })), "global index changed"),
        12 => some(with_instr(r, m, |i| matches!(i.op, 0x23 | 0x24), |_, i| i.op ^= 0x07), "global get and set exchanged"),
        13 => some(with_instr(r, m, |i| matches!(i.imm, Imm::Block(..) | Imm::If(..)), |r, i| {
            let t = if r.pct(40) { None } else { Some(val(r)) };
            match &mut i.imm { Imm::Block(b, _) => *b = t, Imm::If(b, _, _) => *b = t, _ => () }
        }), "block type changed"),
        14 => some(with_instr(r, m, |i| matches!(i.op, 0x02 | 0x03), |_, i| i.op ^= 1), "block and loop exchanged"),
        15 => some(with_instr(r, m, |i| matches!(i.imm, Imm::If(..)), |_, i| { if let Imm::If(_, _, b) = &mut i.imm { b.clear() } }), "else branch lost"),
        16 => some(with_instr(r, m, |i| matches!(i.op, 0x3F | 0x40), |r, i| i.imm = Imm::Idx(edge(r, nm))), "memory index changed"),
        17 => { if m.types.is_empty() { return None; } let k = r.below(m.types.len()); let v = val(r); m.types[k].results.push(v); Some("result added to a type") }
        18 => { if m.types.is_empty() { return None; } let k = r.below(m.types.len()); m.types[k] = func_type(r); Some("type replaced") }
        19 => { if m.funcs.is_empty() { return None; } let n = m.types.len(); let k = r.below(m.funcs.len()); m.funcs[k].ty = edge(r, n); Some("function type index changed") }
        20 => { m.mems.push(limits(r, 65536)); Some("memory added") }
        21 => { m.tables.push(limits(r, u32::MAX as u64)); Some("table added") }
        22 => { m.imports.push(Import { module: text(r), name: text(r), desc: Desc::Mem(limits(r, 65536)) }); Some("memory import added") }
        23 => { m.imports.push(Import { module: text(r), name: text(r), desc: Desc::Table(limits(r, 1000)) }); Some("table import added") }
        24 => {
            let l = match r.below(6) { 0 => Limits { min: 65537, max: None }, 1 => Limits { min: 0, max: Some(65537) }, 2 => Limits { min: 65536, max: Some(65536) }, 3 => Limits { min: 2, max: Some(1) }, 4 => Limits { min: 65536, max: None }, _ => Limits { min: 1, max: Some(u32::MAX) } };
            for i in m.imports.iter_mut() { if let Desc::Mem(x) = &mut i.desc { *x = l; return Some("imported memory limits changed"); } }
            if m.mems.is_empty() { m.mems.push(l) } else { m.mems[0] = l }
            Some("memory limits changed")
        }
        25 => {
            let l = match r.below(4) { 0 => Limits { min: 2, max: Some(1) }, 1 => Limits { min: u32::MAX, max: None }, 2 => Limits { min: u32::MAX, max: Some(u32::MAX - 1) }, _ => Limits { min: 65537, max: Some(u32::MAX) } };
            for i in m.imports.iter_mut() { if let Desc::Table(x) = &mut i.desc { *x = l; return Some("imported table limits changed"); } }
            if m.tables.is_empty() { m.tables.push(l) } else { m.tables[0] = l }
            Some("table limits changed")
        }
        26 => { let s = if nf > 0 && r.pct(60) { r.below(nf) as u32 } else { edge(r, nf) }; m.start = Some(s); Some("start changed") }
        27 => { if m.exports.is_empty() { return None; } let k = r.below(m.exports.len()); let mut x = m.exports[k].clone(); if r.pct(30) { x.kind = r.below(4) as u8; } let at = r.below(m.exports.len() + 1); m.exports.insert(at, x); Some("export duplicated") }
        28 => { let kind = r.below(4) as u8; let n = match kind { 0 => nf, 1 => nt, 2 => nm, _ => ng }; let idx = edge(r, n); m.exports.push(Export { name: format!("x{}", r.u64()), kind, idx }); Some("export out of range") }
        29 => { if m.globals.is_empty() { return None; } let k = r.below(m.globals.len()); m.globals[k].init = vec![Instr { op: 0x23, imm: Imm::Idx(if r.pct(40) { (ig + k) as u32 } else { edge(r, ig) }) }]; Some("initialiser reads a global") }
        30 => { if m.globals.is_empty() { return None; } let k = r.below(m.globals.len()); match r.below(4) { 0 => m.globals[k].init.clear(), 1 => { let t = val(r); let c = konst(r, t); m.globals[k].init.push(c) } 2 => m.globals[k].init.insert(0, Instr { op: 0x01, imm: Imm::None }), _ => m.globals[k].init = vec![any_instr(r)] } Some("initialiser changed") }
        31 => { if m.globals.is_empty() { return None; } let k = r.below(m.globals.len()); m.globals[k].ty.val = val(r); Some("global type changed") }
        32 => { if m.globals.is_empty() { return None; } let k = r.below(m.globals.len()); m.globals[k].ty.mutable ^= true; Some("global mutability changed") }
        33 => { for _ in 0..10 { if m.imports.is_empty() { return None; } let k = r.below(m.imports.len()); if let Desc::Global(g) = &mut m.imports[k].desc { if r.pct(60) { g.mutable ^= true } else { g.val = val(r) } return Some("imported global changed"); } } None }
        34 => { let e = match r.below(3) { 0 => vec![Instr { op: 0x23, imm: Imm::Idx(edge(r, ng)) }], 1 => { let t = val(r); vec![konst(r, t)] } _ => vec![any_instr(r)] }; if !m.elem.is_empty() && r.pct(50) { let k = r.below(m.elem.len()); m.elem[k].offset = e } else if !m.data.is_empty() { let k = r.below(m.data.len()); m.data[k].offset = e } else { return None; } Some("segment offset changed") }
        35 => { if m.elem.is_empty() || r.pct(20) { m.elem.push(Elem { table: 0, offset: vec![konst(r, VT::I32)], init: vec![] }) } let k = r.below(m.elem.len()); if r.pct(50) { let x = edge(r, nf); m.elem[k].init.push(x) } else { m.elem[k].table = edge(r, nt) } Some("element segment changed") }
        36 => { if m.data.is_empty() || r.pct(20) { m.data.push(Data { mem: 0, offset: vec![konst(r, VT::I32)], init: vec![] }) } let k = r.below(m.data.len()); if r.pct(50) { m.data[k].mem = edge(r, nm) } Some("data segment changed") }
        37 => { if m.imports.is_empty() { return None; } let k = r.below(m.imports.len()); let n = m.types.len(); if r.pct(50) { m.imports.remove(k); } else { m.imports[k].desc = Desc::Func(edge(r, n)); } Some("import changed") }
        38 => { if m.imports.len() < 2 { return None; } let a = r.below(m.imports.len()); let b = r.below(m.imports.len()); m.imports.swap(a, b); Some("imports swapped") }
        39 => some(with_instr(r, m, |i| matches!(i.op, 0x41..=0x44), |r, i| { let t = val(r); *i = konst(r, t) }), "constant replaced"),
        40..=44 => some(soup(r, m), "function replaced"),
        _ => { if m.mems.pop().is_none() && m.tables.pop().is_none() { return None; } Some("memory or table lost") }
    }
}
