//! Generated shape of the instruction bridge: maps the instruction type of the library to
//! (opcode, immediates) without relying on its own comparison or formatting.

use whasm::structure::instr::Instr;
use whasm::structure::idx;

pub enum Imm<'a> {
    None,
    Idx(u32),
    Two(u32, u32),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    BrTable(&'a [idx::Label], u32),
    Block(&'a [whasm::structure::ty::Val], &'a [Instr]),
    If(&'a [whasm::structure::ty::Val], &'a [Instr], &'a [Instr]),
}

#[allow(unreachable_patterns)]
pub fn split(i: &Instr) -> (u8, Imm<'_>) {
    match i {
        Instr::Unreachable => (0x00, Imm::None),
        Instr::Nop => (0x01, Imm::None),
        Instr::Block(t, e) => (0x02, Imm::Block(&t.0[..], &e.0[..])),
        Instr::Loop(t, e) => (0x03, Imm::Block(&t.0[..], &e.0[..])),
        Instr::If(t, a, b) => (0x04, Imm::If(&t.0[..], &a.0[..], &b.0[..])),
        Instr::Br(a) => (0x0C, Imm::Idx(a.0)),
        Instr::BrIf(a) => (0x0D, Imm::Idx(a.0)),
        Instr::BrTable(a, b) => (0x0E, Imm::BrTable(&a[..], b.0)),
        Instr::Return => (0x0F, Imm::None),
        Instr::Call(a) => (0x10, Imm::Idx(a.0)),
        Instr::CallIndirect(a, b) => (0x11, Imm::Two(a.0, b.0)),
        Instr::Drop => (0x1A, Imm::None),
        Instr::Select => (0x1B, Imm::None),
        Instr::LocalGet(a) => (0x20, Imm::Idx(a.0)),
        Instr::LocalSet(a) => (0x21, Imm::Idx(a.0)),
        Instr::LocalTee(a) => (0x22, Imm::Idx(a.0)),
        Instr::GlobalGet(a) => (0x23, Imm::Idx(a.0)),
        Instr::GlobalSet(a) => (0x24, Imm::Idx(a.0)),
        Instr::I32Load(a, b) => (0x28, Imm::Two(*a, *b)),
        Instr::I64Load(a, b) => (0x29, Imm::Two(*a, *b)),
        Instr::F32Load(a, b) => (0x2A, Imm::Two(*a, *b)),
        Instr::F64Load(a, b) => (0x2B, Imm::Two(*a, *b)),
        Instr::I32Load8S(a, b) => (0x2C, Imm::Two(*a, *b)),
        Instr::I32Load8U(a, b) => (0x2D, Imm::Two(*a, *b)),
        Instr::I32Load16S(a, b) => (0x2E, Imm::Two(*a, *b)),
        Instr::I32Load16U(a, b) => (0x2F, Imm::Two(*a, *b)),
        Instr::I64Load8S(a, b) => (0x30, Imm::Two(*a, *b)),
        Instr::I64Load8U(a, b) => (0x31, Imm::Two(*a, *b)),
        Instr::I64Load16S(a, b) => (0x32, Imm::Two(*a, *b)),
        Instr::I64Load16U(a, b) => (0x33, Imm::Two(*a, *b)),
        Instr::I64Load32S(a, b) => (0x34, Imm::Two(*a, *b)),
        Instr::I64Load32U(a, b) => (0x35, Imm::Two(*a, *b)),
        Instr::I32Store(a, b) => (0x36, Imm::Two(*a, *b)),
        Instr::I64Store(a, b) => (0x37, Imm::Two(*a, *b)),
        Instr::F32Store(a, b) => (0x38, Imm::Two(*a, *b)),
        Instr::F64Store(a, b) => (0x39, Imm::Two(*a, *b)),
        Instr::I32Store8(a, b) => (0x3A, Imm::Two(*a, *b)),
        Instr::I32Store16(a, b) => (0x3B, Imm::Two(*a, *b)),
        Instr::I64Store8(a, b) => (0x3C, Imm::Two(*a, *b)),
        Instr::I64Store16(a, b) => (0x3D, Imm::Two(*a, *b)),
        Instr::I64Store32(a, b) => (0x3E, Imm::Two(*a, *b)),
        Instr::MemSize(a) => (0x3F, Imm::Idx(a.0)),
        Instr::MemGrow(a) => (0x40, Imm::Idx(a.0)),
        Instr::ConstI32(a) => (0x41, Imm::I32(*a)),
        Instr::ConstI64(a) => (0x42, Imm::I64(*a)),
        Instr::ConstF32(a) => (0x43, Imm::F32(a.to_bits())),
        Instr::ConstF64(a) => (0x44, Imm::F64(a.to_bits())),
        Instr::I32Eqz => (0x45, Imm::None),
        Instr::I32Eq => (0x46, Imm::None),
        Instr::I32Ne => (0x47, Imm::None),
        Instr::I32LtS => (0x48, Imm::None),
        Instr::I32LtU => (0x49, Imm::None),
        Instr::I32GtS => (0x4A, Imm::None),
        Instr::I32GtU => (0x4B, Imm::None),
        Instr::I32LeS => (0x4C, Imm::None),
        Instr::I32LeU => (0x4D, Imm::None),
        Instr::I32GeS => (0x4E, Imm::None),
        Instr::I32GeU => (0x4F, Imm::None),
        Instr::I64Eqz => (0x50, Imm::None),
        Instr::I64Eq => (0x51, Imm::None),
        Instr::I64Ne => (0x52, Imm::None),
        Instr::I64LtS => (0x53, Imm::None),
        Instr::I64LtU => (0x54, Imm::None),
        Instr::I64GtS => (0x55, Imm::None),
        Instr::I64GtU => (0x56, Imm::None),
        Instr::I64LeS => (0x57, Imm::None),
        Instr::I64LeU => (0x58, Imm::None),
        Instr::I64GeS => (0x59, Imm::None),
        Instr::I64GeU => (0x5A, Imm::None),
        Instr::F32Eq => (0x5B, Imm::None),
        Instr::F32Ne => (0x5C, Imm::None),
        Instr::F32Lt => (0x5D, Imm::None),
        Instr::F32Gt => (0x5E, Imm::None),
        Instr::F32Le => (0x5F, Imm::None),
        Instr::F32Ge => (0x60, Imm::None),
        Instr::F64Eq => (0x61, Imm::None),
        Instr::F64Ne => (0x62, Imm::None),
        Instr::F64Lt => (0x63, Imm::None),
        Instr::F64Gt => (0x64, Imm::None),
        Instr::F64Le => (0x65, Imm::None),
        Instr::F64Ge => (0x66, Imm::None),
        Instr::I32Clz => (0x67, Imm::None),
        Instr::I32Ctz => (0x68, Imm::None),
        Instr::I32Popcnt => (0x69, Imm::None),
        Instr::I32Add => (0x6A, Imm::None),
        Instr::I32Sub => (0x6B, Imm::None),
        Instr::I32Mul => (0x6C, Imm::None),
        Instr::I32DivS => (0x6D, Imm::None),
        Instr::I32DivU => (0x6E, Imm::None),
        Instr::I32RemS => (0x6F, Imm::None),
        Instr::I32RemU => (0x70, Imm::None),
        Instr::I32And => (0x71, Imm::None),
        Instr::I32Or => (0x72, Imm::None),
        Instr::I32Xor => (0x73, Imm::None),
        Instr::I32Shl => (0x74, Imm::None),
        Instr::I32ShrS => (0x75, Imm::None),
        Instr::I32ShrU => (0x76, Imm::None),
        Instr::I32Rotl => (0x77, Imm::None),
        Instr::I32Rotr => (0x78, Imm::None),
        Instr::I64Clz => (0x79, Imm::None),
        Instr::I64Ctz => (0x7A, Imm::None),
        Instr::I64Popcnt => (0x7B, Imm::None),
        Instr::I64Add => (0x7C, Imm::None),
        Instr::I64Sub => (0x7D, Imm::None),
        Instr::I64Mul => (0x7E, Imm::None),
        Instr::I64DivS => (0x7F, Imm::None),
        Instr::I64DivU => (0x80, Imm::None),
        Instr::I64RemS => (0x81, Imm::None),
        Instr::I64RemU => (0x82, Imm::None),
        Instr::I64And => (0x83, Imm::None),
        Instr::I64Or => (0x84, Imm::None),
        Instr::I64Xor => (0x85, Imm::None),
        Instr::I64Shl => (0x86, Imm::None),
        Instr::I64ShrS => (0x87, Imm::None),
        Instr::I64ShrU => (0x88, Imm::None),
        Instr::I64Rotl => (0x89, Imm::None),
        Instr::I64Rotr => (0x8A, Imm::None),
        Instr::F32Abs => (0x8B, Imm::None),
        Instr::F32Neg => (0x8C, Imm::None),
        Instr::F32Ceil => (0x8D, Imm::None),
        Instr::F32Floor => (0x8E, Imm::None),
        Instr::F32Trunc => (0x8F, Imm::None),
        Instr::F32Nearest => (0x90, Imm::None),
        Instr::F32Sqrt => (0x91, Imm::None),
        Instr::F32Add => (0x92, Imm::None),
        Instr::F32Sub => (0x93, Imm::None),
        Instr::F32Mul => (0x94, Imm::None),
        Instr::F32Div => (0x95, Imm::None),
        Instr::F32Min => (0x96, Imm::None),
        Instr::F32Max => (0x97, Imm::None),
        Instr::F32Copysign => (0x98, Imm::None),
        Instr::F64Abs => (0x99, Imm::None),
        Instr::F64Neg => (0x9A, Imm::None),
        Instr::F64Ceil => (0x9B, Imm::None),
        Instr::F64Floor => (0x9C, Imm::None),
        Instr::F64Trunc => (0x9D, Imm::None),
        Instr::F64Nearest => (0x9E, Imm::None),
        Instr::F64Sqrt => (0x9F, Imm::None),
        Instr::F64Add => (0xA0, Imm::None),
        Instr::F64Sub => (0xA1, Imm::None),
        Instr::F64Mul => (0xA2, Imm::None),
        Instr::F64Div => (0xA3, Imm::None),
        Instr::F64Min => (0xA4, Imm::None),
        Instr::F64Max => (0xA5, Imm::None),
        Instr::F64Copysign => (0xA6, Imm::None),
        Instr::I32WrapI64 => (0xA7, Imm::None),
        Instr::I32TruncF32S => (0xA8, Imm::None),
        Instr::I32TruncF32U => (0xA9, Imm::None),
        Instr::I32TruncF64S => (0xAA, Imm::None),
        Instr::I32TruncF64U => (0xAB, Imm::None),
        Instr::I64ExtendI32S => (0xAC, Imm::None),
        Instr::I64ExtendI32U => (0xAD, Imm::None),
        Instr::I64TruncF32S => (0xAE, Imm::None),
        Instr::I64TruncF32U => (0xAF, Imm::None),
        Instr::I64TruncF64S => (0xB0, Imm::None),
        Instr::I64TruncF64U => (0xB1, Imm::None),
        Instr::F32ConvertI32S => (0xB2, Imm::None),
        Instr::F32ConvertI32U => (0xB3, Imm::None),
        Instr::F32ConvertI64S => (0xB4, Imm::None),
        Instr::F32ConvertI64U => (0xB5, Imm::None),
        Instr::F32DemoteF64 => (0xB6, Imm::None),
        Instr::F64ConvertI32S => (0xB7, Imm::None),
        Instr::F64ConvertI32U => (0xB8, Imm::None),
        Instr::F64ConvertI64S => (0xB9, Imm::None),
        Instr::F64ConvertI64U => (0xBA, Imm::None),
        Instr::F64PromoteF32 => (0xBB, Imm::None),
        Instr::I32ReinterpretF32 => (0xBC, Imm::None),
        Instr::I64ReinterpretF64 => (0xBD, Imm::None),
        Instr::F32ReinterpretI32 => (0xBE, Imm::None),
        Instr::F64ReinterpretI64 => (0xBF, Imm::None),
        Instr::Else => (0x05, Imm::None),
        Instr::End => (0x0B, Imm::None),
        _ => (0xFF, Imm::None),
    }
}
