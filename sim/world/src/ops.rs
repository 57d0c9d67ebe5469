//! Opcode table of WebAssembly 1.0: opcode, name, immediate, signature, access width.
//! Signature letters: i = i32, l = i64, f = f32, d = f64; "*" is handled by the checker.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ImmKind { None, Idx, Two, Mem, I32, I64, F32, F64, BrTable, Block, If }

pub struct Op { pub op: u8, pub name: &'static str, pub imm: ImmKind, pub sig: &'static str, pub width: u32 }

pub const OPS: &[Op] = &[
    Op { op: 0x00, name: "Unreachable", imm: ImmKind::None, sig: "*", width: 0 },
    Op { op: 0x01, name: "Nop", imm: ImmKind::None, sig: ":", width: 0 },
    Op { op: 0x02, name: "Block", imm: ImmKind::Block, sig: "*", width: 0 },
    Op { op: 0x03, name: "Loop", imm: ImmKind::Block, sig: "*", width: 0 },
    Op { op: 0x04, name: "If", imm: ImmKind::If, sig: "*", width: 0 },
    Op { op: 0x0C, name: "Br", imm: ImmKind::Idx, sig: "*", width: 0 },
    Op { op: 0x0D, name: "BrIf", imm: ImmKind::Idx, sig: "*", width: 0 },
    Op { op: 0x0E, name: "BrTable", imm: ImmKind::BrTable, sig: "*", width: 0 },
    Op { op: 0x0F, name: "Return", imm: ImmKind::None, sig: "*", width: 0 },
    Op { op: 0x10, name: "Call", imm: ImmKind::Idx, sig: "*", width: 0 },
    Op { op: 0x11, name: "CallIndirect", imm: ImmKind::Two, sig: "*", width: 0 },
    Op { op: 0x1A, name: "Drop", imm: ImmKind::None, sig: "*", width: 0 },
    Op { op: 0x1B, name: "Select", imm: ImmKind::None, sig: "*", width: 0 },
    Op { op: 0x20, name: "LocalGet", imm: ImmKind::Idx, sig: "*", width: 0 },
    Op { op: 0x21, name: "LocalSet", imm: ImmKind::Idx, sig: "*", width: 0 },
    Op { op: 0x22, name: "LocalTee", imm: ImmKind::Idx, sig: "*", width: 0 },
    Op { op: 0x23, name: "GlobalGet", imm: ImmKind::Idx, sig: "*", width: 0 },
    Op { op: 0x24, name: "GlobalSet", imm: ImmKind::Idx, sig: "*", width: 0 },
    Op { op: 0x28, name: "I32Load", imm: ImmKind::Mem, sig: "i:i", width: 4 },
    Op { op: 0x29, name: "I64Load", imm: ImmKind::Mem, sig: "i:l", width: 8 },
    Op { op: 0x2A, name: "F32Load", imm: ImmKind::Mem, sig: "i:f", width: 4 },
    Op { op: 0x2B, name: "F64Load", imm: ImmKind::Mem, sig: "i:d", width: 8 },
    Op { op: 0x2C, name: "I32Load8S", imm: ImmKind::Mem, sig: "i:i", width: 1 },
    Op { op: 0x2D, name: "I32Load8U", imm: ImmKind::Mem, sig: "i:i", width: 1 },
    Op { op: 0x2E, name: "I32Load16S", imm: ImmKind::Mem, sig: "i:i", width: 2 },
    Op { op: 0x2F, name: "I32Load16U", imm: ImmKind::Mem, sig: "i:i", width: 2 },
    Op { op: 0x30, name: "I64Load8S", imm: ImmKind::Mem, sig: "i:l", width: 1 },
    Op { op: 0x31, name: "I64Load8U", imm: ImmKind::Mem, sig: "i:l", width: 1 },
    Op { op: 0x32, name: "I64Load16S", imm: ImmKind::Mem, sig: "i:l", width: 2 },
    Op { op: 0x33, name: "I64Load16U", imm: ImmKind::Mem, sig: "i:l", width: 2 },
    Op { op: 0x34, name: "I64Load32S", imm: ImmKind::Mem, sig: "i:l", width: 4 },
    Op { op: 0x35, name: "I64Load32U", imm: ImmKind::Mem, sig: "i:l", width: 4 },
    Op { op: 0x36, name: "I32Store", imm: ImmKind::Mem, sig: "ii:", width: 4 },
    Op { op: 0x37, name: "I64Store", imm: ImmKind::Mem, sig: "il:", width: 8 },
    Op { op: 0x38, name: "F32Store", imm: ImmKind::Mem, sig: "if:", width: 4 },
    Op { op: 0x39, name: "F64Store", imm: ImmKind::Mem, sig: "id:", width: 8 },
    Op { op: 0x3A, name: "I32Store8", imm: ImmKind::Mem, sig: "ii:", width: 1 },
    Op { op: 0x3B, name: "I32Store16", imm: ImmKind::Mem, sig: "ii:", width: 2 },
    Op { op: 0x3C, name: "I64Store8", imm: ImmKind::Mem, sig: "il:", width: 1 },
    Op { op: 0x3D, name: "I64Store16", imm: ImmKind::Mem, sig: "il:", width: 2 },
    Op { op: 0x3E, name: "I64Store32", imm: ImmKind::Mem, sig: "il:", width: 4 },
    Op { op: 0x3F, name: "MemSize", imm: ImmKind::Idx, sig: ":i", width: 0 },
    Op { op: 0x40, name: "MemGrow", imm: ImmKind::Idx, sig: "i:i", width: 0 },
    Op { op: 0x41, name: "ConstI32", imm: ImmKind::I32, sig: ":i", width: 0 },
    Op { op: 0x42, name: "ConstI64", imm: ImmKind::I64, sig: ":l", width: 0 },
    Op { op: 0x43, name: "ConstF32", imm: ImmKind::F32, sig: ":f", width: 0 },
    Op { op: 0x44, name: "ConstF64", imm: ImmKind::F64, sig: ":d", width: 0 },
    Op { op: 0x45, name: "I32Eqz", imm: ImmKind::None, sig: "i:i", width: 0 },
    Op { op: 0x46, name: "I32Eq", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x47, name: "I32Ne", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x48, name: "I32LtS", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x49, name: "I32LtU", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x4A, name: "I32GtS", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x4B, name: "I32GtU", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x4C, name: "I32LeS", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x4D, name: "I32LeU", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x4E, name: "I32GeS", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x4F, name: "I32GeU", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x50, name: "I64Eqz", imm: ImmKind::None, sig: "l:i", width: 0 },
    Op { op: 0x51, name: "I64Eq", imm: ImmKind::None, sig: "ll:i", width: 0 },
    Op { op: 0x52, name: "I64Ne", imm: ImmKind::None, sig: "ll:i", width: 0 },
    Op { op: 0x53, name: "I64LtS", imm: ImmKind::None, sig: "ll:i", width: 0 },
    Op { op: 0x54, name: "I64LtU", imm: ImmKind::None, sig: "ll:i", width: 0 },
    Op { op: 0x55, name: "I64GtS", imm: ImmKind::None, sig: "ll:i", width: 0 },
    Op { op: 0x56, name: "I64GtU", imm: ImmKind::None, sig: "ll:i", width: 0 },
    Op { op: 0x57, name: "I64LeS", imm: ImmKind::None, sig: "ll:i", width: 0 },
    Op { op: 0x58, name: "I64LeU", imm: ImmKind::None, sig: "ll:i", width: 0 },
    Op { op: 0x59, name: "I64GeS", imm: ImmKind::None, sig: "ll:i", width: 0 },
    Op { op: 0x5A, name: "I64GeU", imm: ImmKind::None, sig: "ll:i", width: 0 },
    Op { op: 0x5B, name: "F32Eq", imm: ImmKind::None, sig: "ff:i", width: 0 },
    Op { op: 0x5C, name: "F32Ne", imm: ImmKind::None, sig: "ff:i", width: 0 },
    Op { op: 0x5D, name: "F32Lt", imm: ImmKind::None, sig: "ff:i", width: 0 },
    Op { op: 0x5E, name: "F32Gt", imm: ImmKind::None, sig: "ff:i", width: 0 },
    Op { op: 0x5F, name: "F32Le", imm: ImmKind::None, sig: "ff:i", width: 0 },
    Op { op: 0x60, name: "F32Ge", imm: ImmKind::None, sig: "ff:i", width: 0 },
    Op { op: 0x61, name: "F64Eq", imm: ImmKind::None, sig: "dd:i", width: 0 },
    Op { op: 0x62, name: "F64Ne", imm: ImmKind::None, sig: "dd:i", width: 0 },
    Op { op: 0x63, name: "F64Lt", imm: ImmKind::None, sig: "dd:i", width: 0 },
    Op { op: 0x64, name: "F64Gt", imm: ImmKind::None, sig: "dd:i", width: 0 },
    Op { op: 0x65, name: "F64Le", imm: ImmKind::None, sig: "dd:i", width: 0 },
    Op { op: 0x66, name: "F64Ge", imm: ImmKind::None, sig: "dd:i", width: 0 },
    Op { op: 0x67, name: "I32Clz", imm: ImmKind::None, sig: "i:i", width: 0 },
    Op { op: 0x68, name: "I32Ctz", imm: ImmKind::None, sig: "i:i", width: 0 },
    Op { op: 0x69, name: "I32Popcnt", imm: ImmKind::None, sig: "i:i", width: 0 },
    Op { op: 0x6A, name: "I32Add", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x6B, name: "I32Sub", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x6C, name: "I32Mul", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x6D, name: "I32DivS", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x6E, name: "I32DivU", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x6F, name: "I32RemS", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x70, name: "I32RemU", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x71, name: "I32And", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x72, name: "I32Or", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x73, name: "I32Xor", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x74, name: "I32Shl", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x75, name: "I32ShrS", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x76, name: "I32ShrU", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x77, name: "I32Rotl", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x78, name: "I32Rotr", imm: ImmKind::None, sig: "ii:i", width: 0 },
    Op { op: 0x79, name: "I64Clz", imm: ImmKind::None, sig: "l:l", width: 0 },
    Op { op: 0x7A, name: "I64Ctz", imm: ImmKind::None, sig: "l:l", width: 0 },
    Op { op: 0x7B, name: "I64Popcnt", imm: ImmKind::None, sig: "l:l", width: 0 },
    Op { op: 0x7C, name: "I64Add", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x7D, name: "I64Sub", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x7E, name: "I64Mul", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x7F, name: "I64DivS", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x80, name: "I64DivU", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x81, name: "I64RemS", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x82, name: "I64RemU", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x83, name: "I64And", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x84, name: "I64Or", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x85, name: "I64Xor", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x86, name: "I64Shl", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x87, name: "I64ShrS", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x88, name: "I64ShrU", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x89, name: "I64Rotl", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x8A, name: "I64Rotr", imm: ImmKind::None, sig: "ll:l", width: 0 },
    Op { op: 0x8B, name: "F32Abs", imm: ImmKind::None, sig: "f:f", width: 0 },
    Op { op: 0x8C, name: "F32Neg", imm: ImmKind::None, sig: "f:f", width: 0 },
    Op { op: 0x8D, name: "F32Ceil", imm: ImmKind::None, sig: "f:f", width: 0 },
    Op { op: 0x8E, name: "F32Floor", imm: ImmKind::None, sig: "f:f", width: 0 },
    Op { op: 0x8F, name: "F32Trunc", imm: ImmKind::None, sig: "f:f", width: 0 },
    Op { op: 0x90, name: "F32Nearest", imm: ImmKind::None, sig: "f:f", width: 0 },
    Op { op: 0x91, name: "F32Sqrt", imm: ImmKind::None, sig: "f:f", width: 0 },
    Op { op: 0x92, name: "F32Add", imm: ImmKind::None, sig: "ff:f", width: 0 },
    Op { op: 0x93, name: "F32Sub", imm: ImmKind::None, sig: "ff:f", width: 0 },
    Op { op: 0x94, name: "F32Mul", imm: ImmKind::None, sig: "ff:f", width: 0 },
    Op { op: 0x95, name: "F32Div", imm: ImmKind::None, sig: "ff:f", width: 0 },
    Op { op: 0x96, name: "F32Min", imm: ImmKind::None, sig: "ff:f", width: 0 },
    Op { op: 0x97, name: "F32Max", imm: ImmKind::None, sig: "ff:f", width: 0 },
    Op { op: 0x98, name: "F32Copysign", imm: ImmKind::None, sig: "ff:f", width: 0 },
    Op { op: 0x99, name: "F64Abs", imm: ImmKind::None, sig: "d:d", width: 0 },
    Op { op: 0x9A, name: "F64Neg", imm: ImmKind::None, sig: "d:d", width: 0 },
    Op { op: 0x9B, name: "F64Ceil", imm: ImmKind::None, sig: "d:d", width: 0 },
    Op { op: 0x9C, name: "F64Floor", imm: ImmKind::None, sig: "d:d", width: 0 },
    Op { op: 0x9D, name: "F64Trunc", imm: ImmKind::None, sig: "d:d", width: 0 },
    Op { op: 0x9E, name: "F64Nearest", imm: ImmKind::None, sig: "d:d", width: 0 },
    Op { op: 0x9F, name: "F64Sqrt", imm: ImmKind::None, sig: "d:d", width: 0 },
    Op { op: 0xA0, name: "F64Add", imm: ImmKind::None, sig: "dd:d", width: 0 },
    Op { op: 0xA1, name: "F64Sub", imm: ImmKind::None, sig: "dd:d", width: 0 },
    Op { op: 0xA2, name: "F64Mul", imm: ImmKind::None, sig: "dd:d", width: 0 },
    Op { op: 0xA3, name: "F64Div", imm: ImmKind::None, sig: "dd:d", width: 0 },
    Op { op: 0xA4, name: "F64Min", imm: ImmKind::None, sig: "dd:d", width: 0 },
    Op { op: 0xA5, name: "F64Max", imm: ImmKind::None, sig: "dd:d", width: 0 },
    Op { op: 0xA6, name: "F64Copysign", imm: ImmKind::None, sig: "dd:d", width: 0 },
    Op { op: 0xA7, name: "I32WrapI64", imm: ImmKind::None, sig: "l:i", width: 0 },
    Op { op: 0xA8, name: "I32TruncF32S", imm: ImmKind::None, sig: "f:i", width: 0 },
    Op { op: 0xA9, name: "I32TruncF32U", imm: ImmKind::None, sig: "f:i", width: 0 },
    Op { op: 0xAA, name: "I32TruncF64S", imm: ImmKind::None, sig: "d:i", width: 0 },
    Op { op: 0xAB, name: "I32TruncF64U", imm: ImmKind::None, sig: "d:i", width: 0 },
    Op { op: 0xAC, name: "I64ExtendI32S", imm: ImmKind::None, sig: "i:l", width: 0 },
    Op { op: 0xAD, name: "I64ExtendI32U", imm: ImmKind::None, sig: "i:l", width: 0 },
    Op { op: 0xAE, name: "I64TruncF32S", imm: ImmKind::None, sig: "f:l", width: 0 },
    Op { op: 0xAF, name: "I64TruncF32U", imm: ImmKind::None, sig: "f:l", width: 0 },
    Op { op: 0xB0, name: "I64TruncF64S", imm: ImmKind::None, sig: "d:l", width: 0 },
    Op { op: 0xB1, name: "I64TruncF64U", imm: ImmKind::None, sig: "d:l", width: 0 },
    Op { op: 0xB2, name: "F32ConvertI32S", imm: ImmKind::None, sig: "i:f", width: 0 },
    Op { op: 0xB3, name: "F32ConvertI32U", imm: ImmKind::None, sig: "i:f", width: 0 },
    Op { op: 0xB4, name: "F32ConvertI64S", imm: ImmKind::None, sig: "l:f", width: 0 },
    Op { op: 0xB5, name: "F32ConvertI64U", imm: ImmKind::None, sig: "l:f", width: 0 },
    Op { op: 0xB6, name: "F32DemoteF64", imm: ImmKind::None, sig: "d:f", width: 0 },
    Op { op: 0xB7, name: "F64ConvertI32S", imm: ImmKind::None, sig: "i:d", width: 0 },
    Op { op: 0xB8, name: "F64ConvertI32U", imm: ImmKind::None, sig: "i:d", width: 0 },
    Op { op: 0xB9, name: "F64ConvertI64S", imm: ImmKind::None, sig: "l:d", width: 0 },
    Op { op: 0xBA, name: "F64ConvertI64U", imm: ImmKind::None, sig: "l:d", width: 0 },
    Op { op: 0xBB, name: "F64PromoteF32", imm: ImmKind::None, sig: "f:d", width: 0 },
    Op { op: 0xBC, name: "I32ReinterpretF32", imm: ImmKind::None, sig: "f:i", width: 0 },
    Op { op: 0xBD, name: "I64ReinterpretF64", imm: ImmKind::None, sig: "d:l", width: 0 },
    Op { op: 0xBE, name: "F32ReinterpretI32", imm: ImmKind::None, sig: "i:f", width: 0 },
    Op { op: 0xBF, name: "F64ReinterpretI64", imm: ImmKind::None, sig: "l:d", width: 0 },
];

const NONE: u8 = 0xFF;

const fn build() -> [u8; 256] {
    let mut t = [NONE; 256];
    let mut i = 0;
    while i < OPS.len() {
        t[OPS[i].op as usize] = i as u8;
        i += 1;
    }
    t
}

static INDEX: [u8; 256] = build();

pub fn op(code: u8) -> Option<&'static Op> {
    match INDEX[code as usize] {
        NONE => None,
        i => Some(&OPS[i as usize]),
    }
}
