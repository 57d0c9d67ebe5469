//! Reference validator: the algorithm of the specification's appendix over the model's syntax.

use crate::model::*;
use crate::ops::op;

/// The environment of a function body or initialiser.
pub struct Env<'a> {
    pub types: &'a [FuncType],
    pub funcs: Vec<u32>,
    pub tables: Vec<Limits>,
    pub mems: Vec<Limits>,
    pub globals: Vec<GlobalType>,
    pub imported_globals: usize,
}

impl<'a> Env<'a> {
    /// Index spaces, imports first. Does not check anything.
    pub fn new(m: &'a Module) -> Env<'a> {
        let mut e = Env { types: &m.types, funcs: vec![], tables: vec![], mems: vec![], globals: vec![], imported_globals: 0 };
        for i in &m.imports {
            match &i.desc {
                Desc::Func(t) => e.funcs.push(*t),
                Desc::Table(l) => e.tables.push(*l),
                Desc::Mem(l) => e.mems.push(*l),
                Desc::Global(g) => e.globals.push(*g),
            }
        }
        e.imported_globals = e.globals.len();
        e.funcs.extend(m.funcs.iter().map(|f| f.ty));
        e.tables.extend(m.tables.iter().copied());
        e.mems.extend(m.mems.iter().copied());
        e.globals.extend(m.globals.iter().map(|g| g.ty));
        e
    }
    pub fn func_type(&self, f: u32) -> Option<&'a FuncType> {
        self.types.get(*self.funcs.get(f as usize)? as usize)
    }
}

#[derive(Clone)]
pub struct Frame { pub label: Option<VT>, pub end: Option<VT>, pub height: usize, pub dead: bool }

/// Operand and control stacks. `None` operands have an unknown type.
#[derive(Clone)]
pub struct Checker { pub vals: Vec<Option<VT>>, pub ctrls: Vec<Frame> }

/// Locals as runs, so that huge declarations stay cheap.
pub struct Locals { runs: Vec<(u64, VT)>, total: u64 }

impl Locals {
    pub fn new(params: &[VT], locals: &[(u32, VT)]) -> Locals {
        let mut l = Locals { runs: vec![], total: 0 };
        for v in params {
            l.total += 1;
            l.runs.push((l.total, *v));
        }
        for (n, v) in locals {
            if *n > 0 {
                l.total += *n as u64;
                l.runs.push((l.total, *v));
            }
        }
        l
    }
    pub fn get(&self, i: u32) -> Option<VT> {
        let k = self.runs.partition_point(|(end, _)| *end <= i as u64);
        self.runs.get(k).map(|r| r.1)
    }
    pub fn total(&self) -> u64 { self.total }
}

type C = Result<(), &'static str>;

impl Checker {
    pub fn new(result: Option<VT>) -> Checker {
        Checker { vals: vec![], ctrls: vec![Frame { label: result, end: result, height: 0, dead: false }] }
    }
    fn pop_any(&mut self) -> Result<Option<VT>, &'static str> {
        let f = self.ctrls.last().ok_or("no frame")?;
        if self.vals.len() == f.height {
            return if f.dead { Ok(None) } else { Err("operand stack underflow") };
        }
        Ok(self.vals.pop().unwrap())
    }
    pub fn pop(&mut self, want: VT) -> C {
        match self.pop_any()? {
            Some(v) if v != want => Err("operand type mismatch"),
            _ => Ok(()),
        }
    }
    pub fn push(&mut self, v: VT) { self.vals.push(Some(v)); }
    fn dead(&mut self) {
        let f = self.ctrls.last_mut().unwrap();
        self.vals.truncate(f.height);
        f.dead = true;
    }
    pub fn enter(&mut self, label: Option<VT>, end: Option<VT>) {
        self.ctrls.push(Frame { label, end, height: self.vals.len(), dead: false });
    }
    /// Ends the innermost frame, leaving the stack as it was when the frame was entered.
    pub fn leave(&mut self) -> Result<Option<VT>, &'static str> {
        let f = self.ctrls.last().ok_or("no frame")?.clone();
        if let Some(v) = f.end {
            self.pop(v)?;
        }
        if self.vals.len() != f.height {
            return Err("values left on the stack");
        }
        self.ctrls.pop();
        Ok(f.end)
    }
    fn label(&self, l: u32) -> Result<Option<VT>, &'static str> {
        let n = self.ctrls.len();
        if (l as u64) < n as u64 { Ok(self.ctrls[n - 1 - l as usize].label) } else { Err("unknown label") }
    }
    fn pop_opt(&mut self, v: Option<VT>) -> C { match v { Some(v) => self.pop(v), None => Ok(()) } }
    fn push_opt(&mut self, v: Option<VT>) { if let Some(v) = v { self.push(v) } }

    fn apply(&mut self, t: &FuncType) -> C {
        for p in t.params.iter().rev() { self.pop(*p)?; }
        for r in &t.results { self.push(*r); }
        Ok(())
    }

    pub fn step(&mut self, i: &Instr, env: &Env, locals: &Locals, ret: Option<Option<VT>>) -> C {
        let info = op(i.op).ok_or("unknown opcode")?;
        match (&i.imm, i.op) {
            (_, 0x00) => self.dead(),
            (Imm::Block(t, body), 0x02) => {
                self.enter(*t, *t);
                self.seq(body, env, locals, ret)?;
                let r = self.leave()?;
                self.push_opt(r);
            }
            (Imm::Block(t, body), _) => {
                self.enter(None, *t);
                self.seq(body, env, locals, ret)?;
                let r = self.leave()?;
                self.push_opt(r);
            }
            (Imm::If(t, a, b), _) => {
                self.pop(VT::I32)?;
                self.enter(*t, *t);
                self.seq(a, env, locals, ret)?;
                self.leave()?;
                self.enter(*t, *t);
                self.seq(b, env, locals, ret)?;
                let r = self.leave()?;
                self.push_opt(r);
            }
            (Imm::Idx(l), 0x0C) => {
                let t = self.label(*l)?;
                self.pop_opt(t)?;
                self.dead();
            }
            (Imm::Idx(l), 0x0D) => {
                let t = self.label(*l)?;
                self.pop(VT::I32)?;
                self.pop_opt(t)?;
                self.push_opt(t);
            }
            (Imm::BrTable(ls, d), _) => {
                let t = self.label(*d)?;
                for l in ls {
                    if self.label(*l)? != t { return Err("br_table label types differ"); }
                }
                self.pop(VT::I32)?;
                self.pop_opt(t)?;
                self.dead();
            }
            (_, 0x0F) => {
                let t = ret.ok_or("return outside a function")?;
                self.pop_opt(t)?;
                self.dead();
            }
            (Imm::Idx(f), 0x10) => {
                let t = env.func_type(*f).ok_or("unknown function")?;
                self.apply(t)?;
            }
            (Imm::Two(t, table), 0x11) => {
                env.tables.get(*table as usize).ok_or("unknown table")?;
                let t = env.types.get(*t as usize).ok_or("unknown type")?;
                self.pop(VT::I32)?;
                self.apply(t)?;
            }
            (_, 0x1A) => { self.pop_any()?; }
            (_, 0x1B) => {
                self.pop(VT::I32)?;
                let a = self.pop_any()?;
                let b = self.pop_any()?;
                match (a, b) {
                    (Some(x), Some(y)) if x != y => return Err("select operands differ"),
                    (Some(_), _) => self.vals.push(a),
                    _ => self.vals.push(b),
                }
            }
            (Imm::Idx(x), 0x20..=0x22) => {
                let t = locals.get(*x).ok_or("unknown local")?;
                if i.op != 0x20 { self.pop(t)?; }
                if i.op != 0x21 { self.push(t); }
            }
            (Imm::Idx(x), 0x23) => {
                let g = env.globals.get(*x as usize).ok_or("unknown global")?;
                self.push(g.val);
            }
            (Imm::Idx(x), 0x24) => {
                let g = env.globals.get(*x as usize).ok_or("unknown global")?;
                if !g.mutable { return Err("global is immutable"); }
                self.pop(g.val)?;
            }
            _ => {
                match &i.imm {
                    Imm::Two(align, _) if info.width > 0 => {
                        if env.mems.is_empty() { return Err("unknown memory"); }
                        if *align > 3 || (1u32 << *align) > info.width { return Err("alignment too large"); }
                    }
                    Imm::Idx(m) if i.op == 0x3F || i.op == 0x40 => {
                        env.mems.get(*m as usize).ok_or("unknown memory")?;
                    }
                    _ => (),
                }
                let (params, results) = info.sig.split_once(':').ok_or("malformed instruction")?;
                for c in params.bytes().rev() { self.pop(VT::from_letter(c))?; }
                for c in results.bytes() { self.push(VT::from_letter(c)); }
            }
        }
        Ok(())
    }

    pub fn seq(&mut self, body: &[Instr], env: &Env, locals: &Locals, ret: Option<Option<VT>>) -> C {
        for i in body { self.step(i, env, locals, ret)?; }
        Ok(())
    }
}

fn limits(l: &Limits, bound: u64) -> C {
    if l.min as u64 > bound { return Err("limit too large"); }
    if let Some(m) = l.max {
        if m as u64 > bound { return Err("limit too large"); }
        if m < l.min { return Err("minimum exceeds maximum"); }
    }
    Ok(())
}

fn constant(e: &[Instr], want: VT, globals: &[GlobalType]) -> C {
    let mut stack = vec![];
    for i in e {
        match (i.op, &i.imm) {
            (0x41, _) => stack.push(VT::I32),
            (0x42, _) => stack.push(VT::I64),
            (0x43, _) => stack.push(VT::F32),
            (0x44, _) => stack.push(VT::F64),
            (0x23, Imm::Idx(g)) => {
                let g = globals.get(*g as usize).ok_or("unknown global in initialiser")?;
                if g.mutable { return Err("mutable global in initialiser"); }
                stack.push(g.val);
            }
            _ => return Err("initialiser is not constant"),
        }
    }
    if stack == [want] { Ok(()) } else { Err("initialiser type mismatch") }
}

fn ext<T>(v: &[T], i: u32) -> Result<&T, &'static str> { v.get(i as usize).ok_or("unknown index") }

/// The interface of a valid module.
#[derive(Clone, PartialEq, Debug)]
pub enum Ext { Func(FuncType), Table(Limits), Mem(Limits), Global(GlobalType) }

#[derive(Clone, PartialEq, Debug)]
pub struct Interface { pub imports: Vec<Ext>, pub exports: Vec<Ext> }

pub fn validate(m: &Module) -> Result<Interface, &'static str> {
    let env = Env::new(m);
    for t in &m.types {
        if t.results.len() > 1 { return Err("more than one result"); }
    }
    let mut imports = vec![];
    for i in &m.imports {
        imports.push(match &i.desc {
            Desc::Func(t) => Ext::Func(ext(&m.types, *t)?.clone()),
            Desc::Table(l) => { limits(l, u32::MAX as u64)?; Ext::Table(*l) }
            Desc::Mem(l) => { limits(l, 65536)?; Ext::Mem(*l) }
            Desc::Global(g) => Ext::Global(*g),
        });
    }
    if env.tables.len() > 1 { return Err("more than one table"); }
    if env.mems.len() > 1 { return Err("more than one memory"); }
    for l in &m.tables { limits(l, u32::MAX as u64)?; }
    for l in &m.mems { limits(l, 65536)?; }
    for f in &m.funcs {
        let t = ext(&m.types, f.ty)?;
        let ret = t.results.first().copied();
        let locals = Locals::new(&t.params, &f.locals);
        let mut c = Checker::new(ret);
        c.seq(&f.body, &env, &locals, Some(ret))?;
        c.leave()?;
    }
    for g in &m.globals { constant(&g.init, g.ty.val, &env.globals[..env.imported_globals])?; }
    for e in &m.elem {
        ext(&env.tables, e.table)?;
        constant(&e.offset, VT::I32, &env.globals)?;
        for f in &e.init { ext(&env.funcs, *f)?; }
    }
    for d in &m.data {
        ext(&env.mems, d.mem)?;
        constant(&d.offset, VT::I32, &env.globals)?;
    }
    if let Some(s) = m.start {
        let t = env.func_type(s).ok_or("unknown start function")?;
        if !t.params.is_empty() || !t.results.is_empty() { return Err("start function has a type"); }
    }
    let mut exports = vec![];
    let mut names: Vec<&str> = vec![];
    for e in &m.exports {
        exports.push(match e.kind {
            0 => Ext::Func(env.func_type(e.idx).ok_or("unknown exported function")?.clone()),
            1 => Ext::Table(*ext(&env.tables, e.idx)?),
            2 => Ext::Mem(*ext(&env.mems, e.idx)?),
            _ => Ext::Global(*ext(&env.globals, e.idx)?),
        });
        names.push(&e.name);
    }
    names.sort();
    if names.windows(2).any(|w| w[0] == w[1]) { return Err("duplicate export name"); }
    Ok(Interface { imports, exports })
}

pub fn canon_ext(c: &mut Canon, e: &Ext) {
    match e {
        Ext::Func(t) => { c.u8(0); canon_func_type(c, t) }
        Ext::Table(l) => { c.u8(1); c.u8(0x70); canon_limits(c, l) }
        Ext::Mem(l) => { c.u8(2); canon_limits(c, l) }
        Ext::Global(g) => { c.u8(3); canon_global_type(c, g) }
    }
}

pub fn canon_interface(c: &mut Canon, i: &Interface) {
    c.part("import list");
    c.len(i.imports.len());
    for e in &i.imports { canon_ext(c, e); }
    c.part("export list");
    c.len(i.exports.len());
    for e in &i.exports { canon_ext(c, e); }
    c.part("end");
}
