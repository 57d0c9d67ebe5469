//! Reference model of WebAssembly 1.0: abstract syntax, decoder and canonical form.
//! Written from the specification's binary grammar; shares no code with the library.

use crate::ops::{op, ImmKind};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VT { I32, I64, F32, F64 }

pub const VTS: [VT; 4] = [VT::I32, VT::I64, VT::F32, VT::F64];

impl VT {
    pub fn byte(self) -> u8 {
        match self { VT::I32 => 0x7F, VT::I64 => 0x7E, VT::F32 => 0x7D, VT::F64 => 0x7C }
    }
    pub fn from_byte(b: u8) -> Option<VT> {
        match b { 0x7F => Some(VT::I32), 0x7E => Some(VT::I64), 0x7D => Some(VT::F32), 0x7C => Some(VT::F64), _ => None }
    }
    pub fn from_letter(c: u8) -> VT {
        match c { b'i' => VT::I32, b'l' => VT::I64, b'f' => VT::F32, _ => VT::F64 }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct FuncType { pub params: Vec<VT>, pub results: Vec<VT> }

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Limits { pub min: u32, pub max: Option<u32> }

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct GlobalType { pub val: VT, pub mutable: bool }

#[derive(Clone, PartialEq, Debug)]
pub enum Desc { Func(u32), Table(Limits), Mem(Limits), Global(GlobalType) }

#[derive(Clone, PartialEq, Debug)]
pub struct Import { pub module: String, pub name: String, pub desc: Desc }

#[derive(Clone, PartialEq, Debug)]
pub struct Export { pub name: String, pub kind: u8, pub idx: u32 }

#[derive(Clone, PartialEq, Debug)]
pub struct Global { pub ty: GlobalType, pub init: Vec<Instr> }

#[derive(Clone, PartialEq, Debug)]
pub struct Elem { pub table: u32, pub offset: Vec<Instr>, pub init: Vec<u32> }

#[derive(Clone, PartialEq, Debug)]
pub struct Data { pub mem: u32, pub offset: Vec<Instr>, pub init: Vec<u8> }

#[derive(Clone, PartialEq, Debug)]
pub struct Func { pub ty: u32, pub locals: Vec<(u32, VT)>, pub body: Vec<Instr> }

#[derive(Clone, PartialEq, Debug)]
pub enum Imm {
    None,
    Idx(u32),
    Two(u32, u32),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    BrTable(Vec<u32>, u32),
    Block(Option<VT>, Vec<Instr>),
    If(Option<VT>, Vec<Instr>, Vec<Instr>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Instr { pub op: u8, pub imm: Imm }

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Module {
    pub types: Vec<FuncType>,
    pub imports: Vec<Import>,
    pub funcs: Vec<Func>,
    pub tables: Vec<Limits>,
    pub mems: Vec<Limits>,
    pub globals: Vec<Global>,
    pub exports: Vec<Export>,
    pub start: Option<u32>,
    pub elem: Vec<Elem>,
    pub data: Vec<Data>,
}

/// Classes of decoding defects.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Defect {
    Eof,
    Magic,
    Version,
    SectionOrder(u8),
    UnknownSection(u8),
    Variant(u8),
    Signed,
    Unsigned,
    Utf8,
    Opcode,
    Size,
    Count,
    /// Outside the bounds the simulation explores; the case is skipped.
    TooDeep,
    TooManyLocals,
}

/// A failed decoding: the defect, and the defects an equally careful reader could name instead.
#[derive(Clone, PartialEq, Debug)]
pub struct Failure { pub defect: Defect, pub also: Vec<Defect>, pub section: u8, pub op: u8 }

pub const MAX_DEPTH: usize = 1200;
/// The depth up to which this process looks at streams.
pub static DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(MAX_DEPTH);
pub const MAX_LOCALS: u64 = 100_000;

/// A front-to-back reader over the delivered bytes.
pub struct Reader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    /// Innermost declared end; may lie beyond the data.
    pub limit: usize,
    pub depth: usize,
    pub max_depth: usize,
    pub locals: u64,
    pub section: u8,
    pub op: u8,
    /// The end of the data was met (as opposed to a declared end).
    pub hit_end: bool,
}

type R<T> = Result<T, Failure>;

impl<'a> Reader<'a> {
    pub fn new(data: &'a [u8]) -> Reader<'a> {
        Reader { data, pos: 0, limit: usize::MAX, depth: 0, max_depth: 0, locals: 0, section: 0xFF, op: 0xFF, hit_end: false }
    }
    fn fail<T>(&self, defect: Defect) -> R<T> {
        Err(Failure { defect, also: vec![], section: self.section, op: self.op })
    }
    fn fail_or<T>(&self, defect: Defect, also: Defect) -> R<T> {
        Err(Failure { defect, also: vec![also], section: self.section, op: self.op })
    }
    pub fn byte(&mut self) -> R<u8> {
        if self.pos >= self.limit {
            // contents longer than the declared size
            return self.fail_or(Defect::Eof, Defect::Size);
        }
        if self.pos >= self.data.len() {
            self.hit_end = true;
            return self.fail(Defect::Eof);
        }
        self.pos += 1;
        Ok(self.data[self.pos - 1])
    }
    pub fn uleb(&mut self, bits: u32) -> R<u64> {
        let mut value: u128 = 0;
        let mut shift = 0u32;
        loop {
            let b = self.byte()?;
            let low = (b & 0x7F) as u128;
            if low != 0 {
                if shift >= bits || (low << shift) >> bits != 0 {
                    return self.fail(Defect::Unsigned);
                }
                value |= low << shift;
            }
            shift = (shift + 7).min(112);
            if b & 0x80 == 0 {
                return Ok(value as u64);
            }
        }
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok(self.uleb(32)? as u32)
    }
    /// Signed LEB-128: bits beyond the width must repeat the sign bit.
    pub fn sleb(&mut self, bits: u32) -> R<i64> {
        let mut value: u128 = 0;
        let mut shift = 0u32;
        let mut sign: Option<u8> = None;
        loop {
            let b = self.byte()?;
            let low = b & 0x7F;
            let mut sign_bit = low >> 6;
            if let Some(s) = sign {
                // past the width: nothing but sign extension
                if low != if s == 1 { 0x7F } else { 0 } {
                    return self.fail(Defect::Signed);
                }
                sign_bit = s;
            } else {
                if shift + 7 >= bits {
                    // this group holds the sign bit of the type
                    let keep = bits - shift; // 1..=7 bits belong to the value
                    let s = (low >> (keep - 1)) & 1;
                    let rest = low >> keep;
                    let want = if s == 1 { 0x7Fu8 >> keep } else { 0 };
                    if rest != want {
                        return self.fail(Defect::Signed);
                    }
                    sign = Some(s);
                    sign_bit = s;
                }
                value |= (low as u128) << shift;
                shift += 7;
            }
            if b & 0x80 == 0 {
                if sign_bit == 1 && shift < 64 {
                    value |= (!0u128) << shift;
                }
                let v = value as u64;
                return Ok(if bits == 64 { v as i64 } else { ((v << (64 - bits)) as i64) >> (64 - bits) });
            }
        }
    }
    fn raw<const N: usize>(&mut self) -> R<[u8; N]> {
        let mut b = [0; N];
        for x in b.iter_mut() {
            *x = self.byte()?;
        }
        Ok(b)
    }
    pub fn f32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.raw::<4>()?))
    }
    pub fn f64(&mut self) -> R<u64> {
        Ok(u64::from_le_bytes(self.raw::<8>()?))
    }
    pub fn bytes(&mut self) -> R<Vec<u8>> {
        self.vec(|r| r.byte())
    }
    pub fn string(&mut self) -> R<String> {
        let n = self.u32()?;
        let start = self.pos;
        for _ in 0..n {
            if let Err(mut f) = self.byte() {
                // cut inside a text that is already broken: either answer is right
                if let Err(e) = std::str::from_utf8(&self.data[start..self.pos]) {
                    if e.error_len().is_some() {
                        f.also.push(Defect::Utf8);
                    }
                }
                return Err(f);
            }
        }
        match String::from_utf8(self.data[start..self.pos].to_vec()) {
            Ok(s) => Ok(s),
            Err(_) => self.fail(Defect::Utf8),
        }
    }
    pub fn vec<T>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.u32()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(f(self)?);
        }
        Ok(v)
    }
    pub fn sized<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let size = self.u32()? as usize;
        let start = self.pos;
        let outer = self.limit;
        self.limit = outer.min(start + size);
        let r = f(self)?;
        self.limit = outer;
        if self.pos - start != size {
            if self.pos == self.data.len() {
                return self.fail_or(Defect::Size, Defect::Eof);
            }
            return self.fail(Defect::Size);
        }
        Ok(r)
    }
    pub fn consume(&mut self) -> usize {
        let end = self.limit.min(self.data.len());
        let n = end - self.pos;
        self.pos = end;
        if self.limit > self.data.len() {
            self.hit_end = true;
        }
        n
    }
    pub fn val(&mut self) -> R<VT> {
        let b = self.byte()?;
        match VT::from_byte(b) { Some(v) => Ok(v), None => self.fail(Defect::Variant(b)) }
    }
    pub fn block_type(&mut self) -> R<Option<VT>> {
        let b = self.byte()?;
        if b == 0x40 {
            return Ok(None);
        }
        match VT::from_byte(b) { Some(v) => Ok(Some(v)), None => self.fail(Defect::Variant(b)) }
    }
    pub fn limits(&mut self) -> R<Limits> {
        match self.byte()? {
            0 => Ok(Limits { min: self.u32()?, max: None }),
            1 => Ok(Limits { min: self.u32()?, max: Some(self.u32()?) }),
            b => self.fail(Defect::Variant(b)),
        }
    }
    pub fn elem_type(&mut self) -> R<()> {
        match self.byte()? { 0x70 => Ok(()), b => self.fail(Defect::Variant(b)) }
    }
    pub fn table_type(&mut self) -> R<Limits> {
        self.elem_type()?;
        self.limits()
    }
    pub fn mutability(&mut self) -> R<bool> {
        match self.byte()? { 0 => Ok(false), 1 => Ok(true), b => self.fail(Defect::Variant(b)) }
    }
    pub fn global_type(&mut self) -> R<GlobalType> {
        Ok(GlobalType { val: self.val()?, mutable: self.mutability()? })
    }
    pub fn func_type(&mut self) -> R<FuncType> {
        match self.byte()? {
            0x60 => Ok(FuncType { params: self.vec(|r| r.val())?, results: self.vec(|r| r.val())? }),
            b => self.fail(Defect::Variant(b)),
        }
    }
    /// One instruction; block delimiters are returned as plain opcodes.
    pub fn instr(&mut self) -> R<Instr> {
        let code = self.byte()?;
        self.op = code;
        if code == 0x05 || code == 0x0B {
            return Ok(Instr { op: code, imm: Imm::None });
        }
        let info = match op(code) { Some(o) => o, None => return self.fail(Defect::Variant(code)) };
        let imm = match info.imm {
            ImmKind::None => Imm::None,
            ImmKind::Idx => Imm::Idx(self.u32()?),
            ImmKind::Two | ImmKind::Mem => Imm::Two(self.u32()?, self.u32()?),
            ImmKind::I32 => Imm::I32(self.sleb(32)? as i32),
            ImmKind::I64 => Imm::I64(self.sleb(64)?),
            ImmKind::F32 => Imm::F32(self.f32()?),
            ImmKind::F64 => Imm::F64(self.f64()?),
            ImmKind::BrTable => Imm::BrTable(self.vec(|r| r.u32())?, self.u32()?),
            ImmKind::Block => {
                let t = self.block_type()?;
                Imm::Block(t, self.nested(|r| r.expr())?)
            }
            ImmKind::If => {
                let t = self.block_type()?;
                let (a, end) = self.nested(|r| r.seq())?;
                let mut b = vec![];
                if end == 0x05 {
                    let (s, end) = self.nested(|r| r.seq())?;
                    b = s;
                    if end != 0x0B {
                        return self.fail(Defect::Opcode);
                    }
                }
                Imm::If(t, a, b)
            }
        };
        Ok(Instr { op: code, imm })
    }
    fn nested<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        if self.depth > DEPTH.load(std::sync::atomic::Ordering::Relaxed) {
            return self.fail(Defect::TooDeep);
        }
        let r = f(self)?;
        self.depth -= 1;
        Ok(r)
    }
    fn seq(&mut self) -> R<(Vec<Instr>, u8)> {
        let mut v = vec![];
        loop {
            let i = self.instr()?;
            if matches!(i.op, 0x05 | 0x0B) {
                return Ok((v, i.op));
            }
            v.push(i);
        }
    }
    pub fn expr(&mut self) -> R<Vec<Instr>> {
        match self.seq()? { (v, 0x0B) => Ok(v), _ => self.fail(Defect::Opcode) }
    }
    fn add_locals(&mut self, n: u32) -> R<()> {
        self.locals += n as u64;
        if self.locals > MAX_LOCALS { self.fail(Defect::TooManyLocals) } else { Ok(()) }
    }
    /// Run-length encoded list; the runs as encoded.
    pub fn runs<T>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<(u32, T)>> {
        self.vec(|r| {
            let n = r.u32()?;
            let v = f(r)?;
            r.add_locals(n)?;
            Ok((n, v))
        })
    }
    pub fn func(&mut self) -> R<Func> {
        Ok(Func { ty: 0, locals: self.runs(|r| r.val())?, body: self.expr()? })
    }
    pub fn global(&mut self) -> R<Global> {
        Ok(Global { ty: self.global_type()?, init: self.expr()? })
    }
    pub fn elem(&mut self) -> R<Elem> {
        Ok(Elem { table: self.u32()?, offset: self.expr()?, init: self.vec(|r| r.u32())? })
    }
    pub fn data_seg(&mut self) -> R<Data> {
        Ok(Data { mem: self.u32()?, offset: self.expr()?, init: self.bytes()? })
    }
    pub fn import_desc(&mut self) -> R<Desc> {
        match self.byte()? {
            0 => Ok(Desc::Func(self.u32()?)),
            1 => Ok(Desc::Table(self.table_type()?)),
            2 => Ok(Desc::Mem(self.limits()?)),
            3 => Ok(Desc::Global(self.global_type()?)),
            b => self.fail(Defect::Variant(b)),
        }
    }
    pub fn import(&mut self) -> R<Import> {
        Ok(Import { module: self.string()?, name: self.string()?, desc: self.import_desc()? })
    }
    pub fn export_desc(&mut self) -> R<(u8, u32)> {
        match self.byte()? {
            b @ 0..=3 => Ok((b, self.u32()?)),
            b => self.fail(Defect::Variant(b)),
        }
    }
    pub fn export(&mut self) -> R<Export> {
        let name = self.string()?;
        let (kind, idx) = self.export_desc()?;
        Ok(Export { name, kind, idx })
    }
    fn preamble(&mut self, want: [u8; 4], defect: Defect) -> R<()> {
        let start = self.pos;
        for _ in 0..4 {
            if let Err(mut f) = self.byte() {
                if !want.starts_with(&self.data[start..self.pos]) {
                    f.also.push(defect);
                }
                return Err(f);
            }
        }
        if self.data[start..self.pos] != want { self.fail(defect) } else { Ok(()) }
    }
    pub fn module(&mut self) -> R<Module> {
        self.preamble(*b"\0asm", Defect::Magic)?;
        self.preamble([1, 0, 0, 0], Defect::Version)?;
        let mut m = Module::default();
        let mut func_types: Vec<u32> = vec![];
        let mut last = 0;
        while self.pos < self.data.len() {
            let id = self.byte()?;
            self.section = id;
            self.op = 0xFF;
            if id != 0 {
                if id > 11 {
                    return self.fail(Defect::UnknownSection(id));
                }
                if id <= last {
                    return self.fail(Defect::SectionOrder(id));
                }
                last = id;
            }
            match id {
                0 => {
                    self.sized(|r| { let _ = r.string()?; r.consume(); Ok(()) })?;
                }
                1 => m.types = self.sized(|r| r.vec(|r| r.func_type()))?,
                2 => m.imports = self.sized(|r| r.vec(|r| r.import()))?,
                3 => func_types = self.sized(|r| r.vec(|r| r.u32()))?,
                4 => m.tables = self.sized(|r| r.vec(|r| r.table_type()))?,
                5 => m.mems = self.sized(|r| r.vec(|r| r.limits()))?,
                6 => m.globals = self.sized(|r| r.vec(|r| r.global()))?,
                7 => m.exports = self.sized(|r| r.vec(|r| r.export()))?,
                8 => m.start = Some(self.sized(|r| r.u32())?),
                9 => m.elem = self.sized(|r| r.vec(|r| r.elem()))?,
                10 => {
                    m.funcs = self.sized(|r| r.vec(|r| r.sized(|r| r.func())))?;
                    if m.funcs.len() != func_types.len() {
                        return self.fail(Defect::Count);
                    }
                }
                _ => m.data = self.sized(|r| r.vec(|r| r.data_seg()))?,
            }
            self.section = 0xFF;
            self.op = 0xFF;
        }
        self.hit_end = true;
        if m.funcs.len() != func_types.len() {
            return self.fail(Defect::Count);
        }
        for (f, t) in m.funcs.iter_mut().zip(func_types) {
            f.ty = t;
        }
        Ok(m)
    }
}

// ---------------------------------------------------------------------------------------------
// Canonical form: an unambiguous byte encoding of a decoded value, produced both from the model
// and (in bridge.rs) from the library's value.

#[derive(Default, Clone)]
pub struct Canon { pub out: Vec<u8>, pub parts: Vec<(&'static str, usize)> }

impl Canon {
    pub fn part(&mut self, name: &'static str) { self.parts.push((name, self.out.len())); }
    pub fn u8(&mut self, v: u8) { self.out.push(v); }
    pub fn u32(&mut self, v: u32) { self.out.extend_from_slice(&v.to_le_bytes()); }
    pub fn u64(&mut self, v: u64) { self.out.extend_from_slice(&v.to_le_bytes()); }
    pub fn len(&mut self, n: usize) { self.u64(n as u64); }
    pub fn str(&mut self, s: &[u8]) { self.len(s.len()); self.out.extend_from_slice(s); }
    /// Merges equal neighbours, so that every run-length split of a list looks the same.
    pub fn runs(&mut self, it: impl Iterator<Item = (u64, u64)>) {
        let mut merged: Vec<(u64, u64)> = vec![];
        for (n, v) in it {
            if n == 0 { continue; }
            match merged.last_mut() {
                Some((m, w)) if *w == v => *m += n,
                _ => merged.push((n, v)),
            }
        }
        self.len(merged.len());
        for (n, v) in merged { self.u64(n); self.u64(v); }
    }
}

pub fn canon_vals(c: &mut Canon, v: &[VT]) {
    c.len(v.len());
    for t in v { c.u8(t.byte()); }
}
pub fn canon_limits(c: &mut Canon, l: &Limits) {
    c.u32(l.min);
    match l.max { None => c.u8(0), Some(m) => { c.u8(1); c.u32(m) } }
}
pub fn canon_global_type(c: &mut Canon, g: &GlobalType) { c.u8(g.val.byte()); c.u8(g.mutable as u8); }
pub fn canon_func_type(c: &mut Canon, t: &FuncType) { canon_vals(c, &t.params); canon_vals(c, &t.results); }
pub fn canon_instr(c: &mut Canon, i: &Instr) {
    c.u8(i.op);
    match &i.imm {
        Imm::None => (),
        Imm::Idx(a) => c.u32(*a),
        Imm::Two(a, b) => { c.u32(*a); c.u32(*b) }
        Imm::I32(v) => c.u32(*v as u32),
        Imm::I64(v) => c.u64(*v as u64),
        Imm::F32(v) => c.u32(*v),
        Imm::F64(v) => c.u64(*v),
        Imm::BrTable(v, d) => { c.len(v.len()); for l in v { c.u32(*l) } c.u32(*d) }
        Imm::Block(t, e) => { canon_vals(c, t.as_slice()); canon_expr(c, e) }
        Imm::If(t, a, b) => { canon_vals(c, t.as_slice()); canon_expr(c, a); canon_expr(c, b) }
    }
}
pub fn canon_expr(c: &mut Canon, e: &[Instr]) {
    c.len(e.len());
    for i in e { canon_instr(c, i); }
}
pub fn canon_import_desc(c: &mut Canon, d: &Desc) {
    match d {
        Desc::Func(i) => { c.u8(0); c.u32(*i) }
        Desc::Table(l) => { c.u8(1); c.u8(0x70); canon_limits(c, l) }
        Desc::Mem(l) => { c.u8(2); canon_limits(c, l) }
        Desc::Global(g) => { c.u8(3); canon_global_type(c, g) }
    }
}
pub fn canon_import(c: &mut Canon, i: &Import) {
    c.str(i.module.as_bytes());
    c.str(i.name.as_bytes());
    canon_import_desc(c, &i.desc);
}
pub fn canon_export(c: &mut Canon, e: &Export) { c.str(e.name.as_bytes()); c.u8(e.kind); c.u32(e.idx); }
pub fn canon_func(c: &mut Canon, f: &Func) {
    c.u32(f.ty);
    c.runs(f.locals.iter().map(|(n, v)| (*n as u64, v.byte() as u64)));
    canon_expr(c, &f.body);
}
pub fn canon_global(c: &mut Canon, g: &Global) { canon_global_type(c, &g.ty); canon_expr(c, &g.init); }
pub fn canon_elem(c: &mut Canon, e: &Elem) {
    c.u32(e.table);
    canon_expr(c, &e.offset);
    c.len(e.init.len());
    for i in &e.init { c.u32(*i); }
}
pub fn canon_data(c: &mut Canon, d: &Data) { c.u32(d.mem); canon_expr(c, &d.offset); c.str(&d.init); }

fn list<T>(c: &mut Canon, name: &'static str, v: &[T], f: impl Fn(&mut Canon, &T)) {
    c.part(name);
    c.len(v.len());
    for x in v { f(c, x); }
}

pub fn canon_module(c: &mut Canon, m: &Module) {
    list(c, "types", &m.types, canon_func_type);
    list(c, "imports", &m.imports, canon_import);
    list(c, "functions", &m.funcs, canon_func);
    list(c, "tables", &m.tables, |c, l| { c.u8(0x70); canon_limits(c, l) });
    list(c, "memories", &m.mems, canon_limits);
    list(c, "globals", &m.globals, canon_global);
    list(c, "exports", &m.exports, canon_export);
    c.part("start");
    match m.start { None => c.u8(0), Some(f) => { c.u8(1); c.u32(f) } }
    list(c, "elements", &m.elem, canon_elem);
    list(c, "data", &m.data, canon_data);
    c.part("end");
}

/// Describes the first difference of two canonical forms.
pub fn diff(want: &Canon, got: &Canon) -> Option<String> {
    if want.out == got.out {
        return None;
    }
    let at = want.out.iter().zip(&got.out).take_while(|(a, b)| a == b).count();
    let part = want.parts.iter().rev().find(|(_, p)| *p <= at).map(|(n, _)| *n).unwrap_or("value");
    let show = |v: &[u8]| v[at.min(v.len())..].iter().take(12).map(|b| format!("{:02x}", b)).collect::<String>();
    Some(format!("decoded value differs from what arrived, in {} (canonical offset {}): expected ..{} got ..{}", part, at, show(&want.out), show(&got.out)))
}

/// The decoding of a whole module image.
pub struct Decoded {
    pub result: Result<Module, Failure>,
    pub pos: usize,
    pub hit_end: bool,
    pub depth: usize,
    pub locals: u64,
}

pub fn decode_module(data: &[u8]) -> Decoded {
    let mut r = Reader::new(data);
    let result = r.module();
    Decoded { result, pos: r.pos, hit_end: r.hit_end, depth: r.max_depth, locals: r.locals }
}

impl Decoded {
    pub fn out_of_bounds(&self) -> bool {
        matches!(&self.result, Err(f) if matches!(f.defect, Defect::TooDeep | Defect::TooManyLocals))
    }
}
