//! Bridge between the library and the model: canonical form of library values, error classes,
//! and the list of all element kinds that can be decoded on their own.

use crate::model::{self, Canon, Defect, Failure, Instr as MInstr, Reader};
use crate::split::{split, Imm};
use whasm::binary::{self, Byte, CompactVec, Consume, Error, Sized, UnwrappingVec, WasmBinary, WasmBinaryParse, WasmBinaryParseProxy};
use whasm::structure::{idx, instr, module, ty};

/// Canonical form of a library value.
pub trait Can { fn can(self, c: &mut Canon); }

macro_rules! ints { ($($t:ty),*) => { $( impl Can for $t { fn can(self, c: &mut Canon) { c.u64(self as i64 as u64); } } )* } }
ints!(u8, u16, u32, u64, i8, i16, i32, i64);
impl Can for f32 { fn can(self, c: &mut Canon) { c.u32(self.to_bits()) } }
impl Can for f64 { fn can(self, c: &mut Canon) { c.u64(self.to_bits()) } }
impl Can for Byte { fn can(self, c: &mut Canon) { c.u8(self.0) } }
impl Can for String { fn can(self, c: &mut Canon) { c.str(self.as_bytes()) } }
impl<T: Can> Can for Vec<T> { fn can(self, c: &mut Canon) { c.len(self.len()); for x in self { x.can(c) } } }
impl<T: Can + WasmBinaryParse> Can for Sized<T> { fn can(self, c: &mut Canon) { self.unwrap().can(c) } }
impl<T: WasmBinaryParseProxy> Can for UnwrappingVec<T> where T::Inner: Can { fn can(self, c: &mut Canon) { self.unwrap().can(c) } }
impl Can for Consume { fn can(self, c: &mut Canon) { c.len(self.count) } }
impl Can for (String, Consume) { fn can(self, c: &mut Canon) { self.0.can(c); self.1.can(c) } }
impl<T: Can, const N: usize> Can for [T; N] { fn can(self, c: &mut Canon) { for x in self { x.can(c) } } }

pub fn val_byte(v: &ty::Val) -> u8 {
    match v { ty::Val::I32 => 0x7F, ty::Val::I64 => 0x7E, ty::Val::F32 => 0x7D, ty::Val::F64 => 0x7C, #[allow(unreachable_patterns)] _ => 0xFF }
}
impl Can for CompactVec<u32> { fn can(self, c: &mut Canon) { c.runs(self.unwrap().into_iter().map(|v| (1, v as u64))) } }
impl Can for CompactVec<i64> { fn can(self, c: &mut Canon) { c.runs(self.unwrap().into_iter().map(|v| (1, v as u64))) } }
impl Can for CompactVec<ty::Val> { fn can(self, c: &mut Canon) { c.runs(self.unwrap().iter().map(|v| (1, val_byte(v) as u64))) } }

fn vals(c: &mut Canon, v: &[ty::Val]) {
    c.len(v.len());
    for t in v { c.u8(val_byte(t)); }
}
fn limits(c: &mut Canon, l: &ty::Limits) {
    c.u32(l.min);
    match l.max { None => c.u8(0), Some(m) => { c.u8(1); c.u32(m) } }
}
fn elem_type(c: &mut Canon, e: &ty::Elem) {
    c.u8(match e { ty::Elem::FuncRef => 0x70, #[allow(unreachable_patterns)] _ => 0xFF })
}
pub fn table_type(c: &mut Canon, t: &ty::Table) { elem_type(c, &t.elem); limits(c, &t.lim) }
pub fn mem_type(c: &mut Canon, t: &ty::Mem) { limits(c, &t.lim) }
fn mutability(c: &mut Canon, m: &ty::Mut) {
    c.u8(match m { ty::Mut::Const => 0, ty::Mut::Var => 1, #[allow(unreachable_patterns)] _ => 0xFF })
}
pub fn global_type(c: &mut Canon, g: &ty::Global) { c.u8(val_byte(&g.val)); mutability(c, &g.mt) }
pub fn func_type(c: &mut Canon, t: &ty::Func) { vals(c, &t.params); vals(c, &t.results) }

pub fn instr(c: &mut Canon, i: &instr::Instr) {
    let (op, imm) = split(i);
    c.u8(op);
    match imm {
        Imm::None => (),
        Imm::Idx(a) => c.u32(a),
        Imm::Two(a, b) => { c.u32(a); c.u32(b) }
        Imm::I32(v) => c.u32(v as u32),
        Imm::I64(v) => c.u64(v as u64),
        Imm::F32(v) => c.u32(v),
        Imm::F64(v) => c.u64(v),
        Imm::BrTable(v, d) => { c.len(v.len()); for l in v { c.u32(l.0) } c.u32(d) }
        Imm::Block(t, e) => { vals(c, t); expr(c, e) }
        Imm::If(t, a, b) => { vals(c, t); expr(c, a); expr(c, b) }
    }
}
fn expr(c: &mut Canon, e: &[instr::Instr]) {
    c.len(e.len());
    for i in e { instr(c, i); }
}
fn func(c: &mut Canon, f: &module::Func) {
    c.u32(f.ty.0);
    c.runs(f.locals.iter().map(|v| (1, val_byte(v) as u64)));
    expr(c, &f.body.0);
}
fn global(c: &mut Canon, g: &module::Global) { global_type(c, &g.ty); expr(c, &g.init.0) }
fn elem(c: &mut Canon, e: &module::Elem) {
    c.u32(e.table.0);
    expr(c, &e.offset.0);
    c.len(e.init.len());
    for f in &e.init { c.u32(f.0); }
}
fn data(c: &mut Canon, d: &module::Data) { c.u32(d.mem.0); expr(c, &d.offset.0); c.str(&d.init) }
fn import_desc(c: &mut Canon, d: &module::desc::Import) {
    use module::desc::Import::*;
    match d {
        Func(t) => { c.u8(0); c.u32(t.0) }
        Table(t) => { c.u8(1); table_type(c, t) }
        Mem(t) => { c.u8(2); mem_type(c, t) }
        Global(t) => { c.u8(3); global_type(c, t) }
        #[allow(unreachable_patterns)]
        _ => c.u8(0xFF),
    }
}
fn import(c: &mut Canon, i: &module::Import) { c.str(i.module.as_bytes()); c.str(i.name.as_bytes()); import_desc(c, &i.desc) }
fn export_desc(c: &mut Canon, d: &module::desc::Export) {
    use module::desc::Export::*;
    match d {
        Func(t) => { c.u8(0); c.u32(t.0) }
        Table(t) => { c.u8(1); c.u32(t.0) }
        Mem(t) => { c.u8(2); c.u32(t.0) }
        Global(t) => { c.u8(3); c.u32(t.0) }
        #[allow(unreachable_patterns)]
        _ => c.u8(0xFF),
    }
}
fn export(c: &mut Canon, e: &module::Export) { c.str(e.name.as_bytes()); export_desc(c, &e.desc) }

fn list<T>(c: &mut Canon, name: &'static str, v: &[T], f: impl Fn(&mut Canon, &T)) {
    c.part(name);
    c.len(v.len());
    for x in v { f(c, x); }
}
pub fn canon_module(c: &mut Canon, m: &module::Module) {
    list(c, "types", &m.types, func_type);
    list(c, "imports", &m.imports, import);
    list(c, "functions", &m.funcs, func);
    list(c, "tables", &m.tables, |c, t| table_type(c, &t.ty));
    list(c, "memories", &m.mems, |c, t| mem_type(c, &t.ty));
    list(c, "globals", &m.globals, global);
    list(c, "exports", &m.exports, export);
    c.part("start");
    match &m.start { None => c.u8(0), Some(s) => { c.u8(1); c.u32(s.func.0) } }
    list(c, "elements", &m.elem, elem);
    list(c, "data", &m.data, data);
    c.part("end");
}

macro_rules! can { ($($t:ty => $f:expr),* $(,)?) => { $( impl Can for $t { fn can(self, c: &mut Canon) { let f: fn(&mut Canon, &$t) = $f; f(c, &self) } } )* } }
can! {
    ty::Limits => limits, ty::Val => |c, v| c.u8(val_byte(v)), ty::Elem => elem_type, ty::RetVal => |c, v| vals(c, &v.0),
    ty::Func => func_type, ty::Table => table_type, ty::Mem => mem_type, ty::Mut => mutability, ty::Global => global_type,
    idx::Type => |c, i| c.u32(i.0), idx::Func => |c, i| c.u32(i.0), idx::Table => |c, i| c.u32(i.0), idx::Mem => |c, i| c.u32(i.0),
    idx::Global => |c, i| c.u32(i.0), idx::Local => |c, i| c.u32(i.0), idx::Label => |c, i| c.u32(i.0),
    instr::Instr => instr, instr::Expr => |c, e| expr(c, &e.0), instr::ConstExpr => |c, e| expr(c, &e.0),
    module::Func => func, module::Table => |c, t| table_type(c, &t.ty), module::Mem => |c, t| mem_type(c, &t.ty),
    module::Global => global, module::Elem => elem, module::Data => data, module::Start => |c, s| c.u32(s.func.0),
    module::desc::Import => import_desc, module::desc::Export => export_desc, module::Import => import, module::Export => export,
    module::Module => canon_module,
}

/// The class of a reported error.
pub fn class(e: &Error) -> Option<Defect> {
    Some(match e {
        Error::UnexpectedEndOfFile => Defect::Eof,
        Error::InvalidVariantId { id, .. } => Defect::Variant(*id),
        Error::OutOfRangeSignedInteger => Defect::Signed,
        Error::OutOfRangeUnsignedInteger => Defect::Unsigned,
        Error::InvalidUtf8Encoding => Defect::Utf8,
        Error::UnexpectedOpcode { .. } => Defect::Opcode,
        Error::InvalidPreambleMagic => Defect::Magic,
        Error::InvalidPreambleVersion => Defect::Version,
        Error::UnexpectedSectionId { id } => Defect::SectionOrder(id.0),
        Error::InvalidSectionId { id } => Defect::UnknownSection(id.0),
        Error::SectionSizeMissmatch { .. } | Error::FunctionSizeMissmatch | Error::SizeMissmatch => Defect::Size,
        #[allow(unreachable_patterns)]
        _ => return None,
    })
}

/// Is this report an admissible answer to the model's failure?
pub fn admissible(f: &Failure, e: &Error) -> bool {
    if f.defect == Defect::Count {
        return true;
    }
    match class(e) {
        Some(d) => d == f.defect || f.also.contains(&d),
        None => false,
    }
}

pub type Dyn<'a> = &'a mut dyn Iterator<Item = u8>;

pub struct Kind {
    pub name: &'static str,
    /// Decodes with the library and returns the canonical form.
    pub lib: fn(Dyn) -> binary::Result<Canon>,
    /// Decodes with the model.
    pub model: fn(&mut Reader) -> Result<Canon, Failure>,
    /// Decodes with the library and drops the result.
    pub skim: fn(Dyn),
    /// Decodes twice with the library, compares and prints.
    pub pair: fn(Dyn, Dyn) -> Option<Pair>,
}

pub struct Pair { pub ab: bool, pub ba: bool, pub ne: bool, pub aa: bool, pub bb: bool, pub text: [String; 4] }

/// Not every type can be compared and printed.
struct Any<T>(std::marker::PhantomData<T>);
trait Neither { fn pair(&self, _: Dyn, _: Dyn) -> Option<Pair> { None } }
trait Both { fn pair(&self, x: Dyn, y: Dyn) -> Option<Pair>; }
impl<T> Neither for &Any<T> {}
impl<T: WasmBinaryParse + PartialEq + std::fmt::Debug> Both for Any<T> {
    fn pair(&self, mut x: Dyn, mut y: Dyn) -> Option<Pair> {
        let a: T = x.parse().ok()?;
        let b: T = y.parse().ok()?;
        #[allow(clippy::eq_op)]
        Some(Pair { ab: a == b, ba: b == a, ne: a != b, aa: a == a, bb: b == b, text: [format!("{:?}", a), format!("{:?}", b), format!("{:#?}", a), format!("{:#?}", b)] })
    }
}

fn lib<T: WasmBinaryParse + Can>(mut src: Dyn) -> binary::Result<Canon> {
    let v: T = src.parse()?;
    let mut c = Canon::default();
    crate::meter::outside(|| v.can(&mut c));
    Ok(c)
}

type R<T> = Result<T, Failure>;

fn mlist<T>(c: &mut Canon, v: Vec<T>, f: impl Fn(&mut Canon, T)) { c.len(v.len()); for x in v { f(c, x) } }

macro_rules! kinds {
    ($( $name:literal, $t:ty, |$r:ident, $c:ident| $e:expr );* $(;)?) => {
        pub const KINDS: &[Kind] = &[ $( Kind { name: $name, lib: lib::<$t>, skim: |mut s| { let _: binary::Result<$t> = s.parse(); }, pair: |x, y| (&Any::<$t>(std::marker::PhantomData)).pair(x, y), model: |$r: &mut Reader| -> R<Canon> { let mut canon = Canon::default(); { let $c = &mut canon; $e; } Ok(canon) } } ),* ];
    }
}

fn exprc(c: &mut Canon, e: Vec<MInstr>) { model::canon_expr(c, &e) }

kinds! {
    "module", module::Module, |r, c| model::canon_module(c, &r.module()?);
    "u8", u8, |r, c| c.u64(r.uleb(8)?);
    "u16", u16, |r, c| c.u64(r.uleb(16)?);
    "u32", u32, |r, c| c.u64(r.uleb(32)?);
    "u64", u64, |r, c| c.u64(r.uleb(64)?);
    "i8", i8, |r, c| c.u64(r.sleb(8)? as u64);
    "i16", i16, |r, c| c.u64(r.sleb(16)? as u64);
    "i32", i32, |r, c| c.u64(r.sleb(32)? as u64);
    "i64", i64, |r, c| c.u64(r.sleb(64)? as u64);
    "f32", f32, |r, c| c.u32(r.f32()?);
    "f64", f64, |r, c| c.u64(r.f64()?);
    "byte", Byte, |r, c| c.u8(r.byte()?);
    "string", String, |r, c| c.str(r.string()?.as_bytes());
    "vec-u8", Vec<u8>, |r, c| mlist(c, r.vec(|r| r.uleb(8))?, |c, v| c.u64(v));
    "vec-u32", Vec<u32>, |r, c| mlist(c, r.vec(|r| r.uleb(32))?, |c, v| c.u64(v));
    "vec-i64", Vec<i64>, |r, c| mlist(c, r.vec(|r| r.sleb(64))?, |c, v| c.u64(v as u64));
    "vec-string", Vec<String>, |r, c| mlist(c, r.vec(|r| r.string())?, |c, v| c.str(v.as_bytes()));
    "vec-vec-u16", Vec<Vec<u16>>, |r, c| mlist(c, r.vec(|r| r.vec(|r| r.uleb(16)))?, |c, v| mlist(c, v, |c, v| c.u64(v)));
    "vec-f64", Vec<f64>, |r, c| mlist(c, r.vec(|r| r.f64())?, |c, v| c.u64(v));
    "vec-array", Vec<[Byte; 3]>, |r, c| { let n = r.u32()?; c.len(n as usize); for _ in 0..n { for _ in 0..3 { c.u8(r.byte()?) } } };
    "bytes", UnwrappingVec<Byte>, |r, c| { let b = r.bytes()?; c.len(b.len()); for x in b { c.u64(x as u64) } };
    "compact-u32", CompactVec<u32>, |r, c| c.runs(r.runs(|r| r.u32())?.into_iter().map(|(n, v)| (n as u64, v as u64)));
    "compact-i64", CompactVec<i64>, |r, c| c.runs(r.runs(|r| r.sleb(64))?.into_iter().map(|(n, v)| (n as u64, v as u64)));
    "compact-val", CompactVec<ty::Val>, |r, c| c.runs(r.runs(|r| r.val())?.into_iter().map(|(n, v)| (n as u64, v.byte() as u64)));
    "sized-u32", Sized<u32>, |r, c| c.u64(r.sized(|r| r.uleb(32))?);
    "sized-i32", Sized<i32>, |r, c| c.u64(r.sized(|r| r.sleb(32))? as u64);
    "sized-string", Sized<String>, |r, c| c.str(r.sized(|r| r.string())?.as_bytes());
    "sized-array", Sized<[Byte; 2]>, |r, c| { let v = r.sized(|r| Ok([r.byte()?, r.byte()?]))?; for b in v { c.u8(b) } };
    "sized-empty", Sized<[Byte; 0]>, |r, c| { r.sized(|_| Ok(()))?; let _ = c; };
    "sized-consume", Sized<Consume>, |r, c| c.len(r.sized(|r| Ok(r.consume()))?);
    "sized-custom", Sized<(String, Consume)>, |r, c| { let (s, n) = r.sized(|r| Ok((r.string()?, r.consume())))?; c.str(s.as_bytes()); c.len(n) };
    "sized-vec", Sized<Vec<u32>>, |r, c| mlist(c, r.sized(|r| r.vec(|r| r.uleb(32)))?, |c, v| c.u64(v));
    "sized-sized", Sized<Sized<Vec<u16>>>, |r, c| mlist(c, r.sized(|r| r.sized(|r| r.vec(|r| r.uleb(16))))?, |c, v| c.u64(v));
    "vec-sized", Vec<Sized<u32>>, |r, c| mlist(c, r.vec(|r| r.sized(|r| r.uleb(32)))?, |c, v| c.u64(v));
    "sized-vec-sized", Sized<UnwrappingVec<Sized<String>>>, |r, c| mlist(c, r.sized(|r| r.vec(|r| r.sized(|r| r.string())))?, |c, v| c.str(v.as_bytes()));
    "array-0", [u32; 0], |r, c| { let _ = (r, c); };
    "array-1", [u32; 1], |r, c| for _ in 0..1 { c.u64(r.uleb(32)?) };
    "array-2", [String; 2], |r, c| for _ in 0..2 { c.str(r.string()?.as_bytes()) };
    "array-3", [i16; 3], |r, c| for _ in 0..3 { c.u64(r.sleb(16)? as u64) };
    "array-4", [Byte; 4], |r, c| for _ in 0..4 { c.u8(r.byte()?) };
    "array-5", [Byte; 5], |r, c| for _ in 0..5 { c.u8(r.byte()?) };
    "array-6", [u16; 6], |r, c| for _ in 0..6 { c.u64(r.uleb(16)?) };
    "array-7", [String; 7], |r, c| for _ in 0..7 { c.str(r.string()?.as_bytes()) };
    "array-8", [Byte; 8], |r, c| for _ in 0..8 { c.u8(r.byte()?) };
    "limits", ty::Limits, |r, c| model::canon_limits(c, &r.limits()?);
    "val-type", ty::Val, |r, c| c.u8(r.val()?.byte());
    "elem-type", ty::Elem, |r, c| { r.elem_type()?; c.u8(0x70) };
    "block-type", ty::RetVal, |r, c| model::canon_vals(c, r.block_type()?.as_slice());
    "func-type", ty::Func, |r, c| model::canon_func_type(c, &r.func_type()?);
    "table-type", ty::Table, |r, c| { let l = r.table_type()?; c.u8(0x70); model::canon_limits(c, &l) };
    "mem-type", ty::Mem, |r, c| model::canon_limits(c, &r.limits()?);
    "mutability", ty::Mut, |r, c| c.u8(r.mutability()? as u8);
    "global-type", ty::Global, |r, c| model::canon_global_type(c, &r.global_type()?);
    "type-idx", idx::Type, |r, c| c.u32(r.u32()?);
    "func-idx", idx::Func, |r, c| c.u32(r.u32()?);
    "table-idx", idx::Table, |r, c| c.u32(r.u32()?);
    "mem-idx", idx::Mem, |r, c| c.u32(r.u32()?);
    "global-idx", idx::Global, |r, c| c.u32(r.u32()?);
    "local-idx", idx::Local, |r, c| c.u32(r.u32()?);
    "label-idx", idx::Label, |r, c| c.u32(r.u32()?);
    "instr", instr::Instr, |r, c| model::canon_instr(c, &r.instr()?);
    "expr", instr::Expr, |r, c| exprc(c, r.expr()?);
    "const-expr", instr::ConstExpr, |r, c| exprc(c, r.expr()?);
    "func", module::Func, |r, c| model::canon_func(c, &r.func()?);
    "sized-func", Sized<module::Func>, |r, c| model::canon_func(c, &r.sized(|r| r.func())?);
    "table", module::Table, |r, c| { let l = r.table_type()?; c.u8(0x70); model::canon_limits(c, &l) };
    "mem", module::Mem, |r, c| model::canon_limits(c, &r.limits()?);
    "global", module::Global, |r, c| model::canon_global(c, &r.global()?);
    "elem", module::Elem, |r, c| model::canon_elem(c, &r.elem()?);
    "data", module::Data, |r, c| model::canon_data(c, &r.data_seg()?);
    "start", module::Start, |r, c| c.u32(r.u32()?);
    "import-desc", module::desc::Import, |r, c| model::canon_import_desc(c, &r.import_desc()?);
    "export-desc", module::desc::Export, |r, c| { let (k, i) = r.export_desc()?; c.u8(k); c.u32(i) };
    "import", module::Import, |r, c| model::canon_import(c, &r.import()?);
    "export", module::Export, |r, c| model::canon_export(c, &r.export()?);
    "sized-vec-import", Sized<Vec<module::Import>>, |r, c| mlist(c, r.sized(|r| r.vec(|r| r.import()))?, |c, v| model::canon_import(c, &v));
    "vec-export", Vec<module::Export>, |r, c| mlist(c, r.vec(|r| r.export())?, |c, v| model::canon_export(c, &v));
    "vec-global", Vec<module::Global>, |r, c| mlist(c, r.vec(|r| r.global())?, |c, v| model::canon_global(c, &v));
}

pub fn kind(name: &str) -> usize {
    KINDS.iter().position(|k| k.name == name).unwrap_or(0)
}

/// Encodes a random well-formed element of a kind.
pub fn encode_kind(k: usize, e: &mut crate::enc::Enc) {
    use crate::gen;
    let vt = |e: &mut crate::enc::Enc| *e.rng.pick(&model::VTS);
    match KINDS[k].name {
        "module" => {
            let s = gen::Shape::random(e.rng);
            let m = gen::module(e.rng, &s);
            e.module(&m);
        }
        "u8" => { let v = e.rng.wild() as u8; e.uleb(v as u64) }
        "u16" => { let v = e.rng.wild() as u16; e.uleb(v as u64) }
        "u64" => { let v = e.rng.wild(); e.uleb(v) }
        "i8" => { let v = e.rng.wild() as i8; e.sleb(v as i64) }
        "i16" => { let v = e.rng.wild() as i16; e.sleb(v as i64) }
        "i32" => { let v = e.rng.wild() as i32; e.sleb(v as i64) }
        "i64" => { let v = e.rng.wild() as i64; e.sleb(v) }
        "f32" => { let i = gen::konst(e.rng, model::VT::F32); if let model::Imm::F32(v) = i.imm { e.out.extend_from_slice(&v.to_le_bytes()) } }
        "f64" => { let i = gen::konst(e.rng, model::VT::F64); if let model::Imm::F64(v) = i.imm { e.out.extend_from_slice(&v.to_le_bytes()) } }
        "byte" => { let v = e.rng.u64() as u8; e.byte(v) }
        "string" => { let s = gen::text(e.rng); e.name(&s) }
        "vec-u8" => many(e, |e| { let v = e.rng.u64() as u8; e.uleb(v as u64) }),
        "vec-u32" => many(e, |e| { let v = e.rng.wild() as u32; e.uleb(v as u64) }),
        "vec-i64" => many(e, |e| { let v = e.rng.wild() as i64; e.sleb(v) }),
        "vec-string" => many(e, |e| { let s = gen::text(e.rng); e.name(&s) }),
        "vec-vec-u16" => many(e, |e| few(e, |e| { let v = e.rng.wild() as u16; e.uleb(v as u64) })),
        "vec-f64" => many(e, |e| { let v = e.rng.u64(); e.out.extend_from_slice(&v.to_le_bytes()) }),
        "vec-array" => many(e, |e| raw(e, 3)),
        "bytes" => many(e, |e| raw(e, 1)),
        "compact-u32" => few(e, |e| { let n = e.rng.skewed(400); e.imm(n as u32); let v = e.rng.wild() as u32; e.uleb(v as u64) }),
        "compact-i64" => few(e, |e| { let n = e.rng.skewed(400); e.imm(n as u32); let v = e.rng.wild() as i64; e.sleb(v) }),
        "compact-val" => few(e, |e| { let n = e.rng.skewed(400); e.imm(n as u32); let v = vt(e); e.byte(v.byte()) }),
        "sized-u32" => e.sized(|e| { let v = e.rng.wild() as u32; e.uleb(v as u64) }),
        "sized-i32" => e.sized(|e| { let v = e.rng.wild() as i32; e.sleb(v as i64) }),
        "sized-string" => e.sized(|e| { let s = gen::text(e.rng); e.name(&s) }),
        "sized-array" => e.sized(|e| raw(e, 2)),
        "sized-empty" => e.sized(|_| ()),
        "sized-consume" => e.sized(|e| { let n = e.rng.skewed(300); raw(e, n) }),
        "sized-custom" => e.sized(|e| { let s = gen::text(e.rng); e.name(&s); let n = e.rng.skewed(300); raw(e, n) }),
        "sized-vec" => e.sized(|e| many(e, |e| { let v = e.rng.wild() as u32; e.uleb(v as u64) })),
        "sized-sized" => e.sized(|e| e.sized(|e| many(e, |e| { let v = e.rng.wild() as u16; e.uleb(v as u64) }))),
        "vec-sized" => few(e, |e| e.sized(|e| { let v = e.rng.wild() as u32; e.uleb(v as u64) })),
        "sized-vec-sized" => e.sized(|e| few(e, |e| e.sized(|e| { let s = gen::text(e.rng); e.name(&s) }))),
        "array-0" => (),
        "array-2" => for _ in 0..2 { let s = gen::text(e.rng); e.name(&s) },
        "array-3" => for _ in 0..3 { let v = e.rng.wild() as i16; e.sleb(v as i64) },
        "array-4" => raw(e, 4),
        "array-5" => raw(e, 5),
        "array-6" => for _ in 0..6 { let v = e.rng.wild() as u16; e.uleb(v as u64) },
        "array-7" => for _ in 0..7 { let s = gen::text(e.rng); e.name(&s) },
        "array-8" => raw(e, 8),
        "limits" | "mem-type" | "mem" => { let l = gen::limits(e.rng, u32::MAX as u64); e.limits(&l) }
        "val-type" => { let v = vt(e); e.byte(v.byte()) }
        "elem-type" => e.byte(0x70),
        "block-type" => { let v = vt(e); let b = if e.rng.pct(40) { 0x40 } else { v.byte() }; e.byte(b) }
        "func-type" => { let t = gen::func_type(e.rng); e.func_type(&t) }
        "table-type" | "table" => { let l = gen::limits(e.rng, u32::MAX as u64); e.tag(0x70); e.limits(&l) }
        "mutability" => { let b = e.rng.below(2) as u8; e.byte(b) }
        "global-type" => { let g = model::GlobalType { val: vt(e), mutable: e.rng.pct(50) }; e.global_type(&g) }
        "instr" | "expr" | "const-expr" | "func" | "sized-func" | "global" | "elem" | "data" | "import-desc" | "export-desc" | "import" | "export" | "sized-vec-import" | "vec-export" | "vec-global" => {
            let mut s = gen::Shape::random(e.rng);
            s.funcs = s.funcs.clamp(1, 4);
            s.types = s.types.clamp(1, 20);
            s.imports = s.imports.clamp(1, 20);
            s.exports = s.exports.clamp(1, 20);
            s.globals = s.globals.clamp(1, 20);
            s.locals = s.locals.min(300);
            s.table = 100;
            s.mem = 100;
            s.elems = 1;
            s.datas = 1;
            let m = gen::module(e.rng, &s);
            match KINDS[k].name {
                "instr" => {
                    let b = &m.funcs[0].body;
                    let i = match e.rng.below(4) {
                        0 => {
                            let n = e.rng.skewed(40);
                            let v = (0..n).map(|_| e.rng.wild() as u32).collect();
                            model::Instr { op: 0x0E, imm: model::Imm::BrTable(v, e.rng.wild() as u32) }
                        }
                        1 => gen::any_instr(e.rng),
                        _ if b.is_empty() => model::Instr { op: 0x01, imm: model::Imm::None },
                        _ => { let i = e.rng.below(b.len()); b[i].clone() }
                    };
                    e.instr(&i)
                }
                "expr" => e.expr(&m.funcs[0].body),
                "const-expr" => e.expr(&m.globals[0].init),
                "func" => e.func(&m.funcs[0]),
                "sized-func" => e.sized(|e| e.func(&m.funcs[0])),
                "global" => e.global(&m.globals[0]),
                "elem" => e.elem(&m.elem[0]),
                "data" => e.data(&m.data[0]),
                "import-desc" => e.import_desc(&m.imports[0].desc),
                "import" => e.import(&m.imports[0]),
                "export-desc" => { let k = e.rng.below(4) as u8; e.tag(k); let i = e.rng.wild() as u32; e.imm(i) }
                "export" => match m.exports.first() { Some(x) => e.export(x), None => e.export(&model::Export { name: "x".into(), kind: 1, idx: 300 }) },
                "sized-vec-import" => e.sized(|e| { e.count(m.imports.len()); for i in &m.imports { e.import(i) } }),
                "vec-export" => { e.count(m.exports.len()); for x in &m.exports { e.export(x) } }
                _ => { e.count(m.globals.len()); for x in &m.globals { e.global(x) } }
            }
        }
        // everything else is a plain u32
        _ => { let v = e.rng.wild() as u32; e.imm(v) }
    }
}

fn raw(e: &mut crate::enc::Enc, n: usize) { for _ in 0..n { let b = e.rng.u64() as u8; e.byte(b) } }
fn many(e: &mut crate::enc::Enc, f: impl Fn(&mut crate::enc::Enc)) { let n = e.rng.skewed(300); e.count(n); for _ in 0..n { f(e) } }
fn few(e: &mut crate::enc::Enc, f: impl Fn(&mut crate::enc::Enc)) { let n = e.rng.skewed(8); e.count(n); for _ in 0..n { f(e) } }
