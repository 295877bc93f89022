use crate::ValType::{self, *};
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum UnaryOp { I32Eqz, I64Eqz, I32Clz, I32Ctz, I32Popcnt, I64Clz, I64Ctz, I64Popcnt, F32Abs, F32Neg, F32Ceil, F32Floor, F32Trunc, F32Nearest, F32Sqrt, F64Abs, F64Neg, F64Ceil, F64Floor, F64Trunc, F64Nearest, F64Sqrt, I32WrapI64, I32TruncF32S, I32TruncF32U, I32TruncF64S, I32TruncF64U, I32TruncSatF32S, I32TruncSatF32U, I32TruncSatF64S, I32TruncSatF64U, I64ExtendI32S, I64ExtendI32U, I64TruncF32S, I64TruncF32U, I64TruncF64S, I64TruncF64U, I64TruncSatF32S, I64TruncSatF32U, I64TruncSatF64S, I64TruncSatF64U, F32ConvertI32S, F32ConvertI32U, F32ConvertI64S, F32ConvertI64U, F32DemoteF64, F64ConvertI32S, F64ConvertI32U, F64ConvertI64S, F64ConvertI64U, F64PromoteF32, I32ReinterpretF32, I64ReinterpretF64, F32ReinterpretI32, F64ReinterpretI64, I32Extend8S, I32Extend16S, I64Extend8S, I64Extend16S, I64Extend32S }
impl UnaryOp {
    pub fn opcode(self) -> u16 { match self { UnaryOp::I32Eqz => 0x45, UnaryOp::I64Eqz => 0x50, UnaryOp::I32Clz => 0x67, UnaryOp::I32Ctz => 0x68, UnaryOp::I32Popcnt => 0x69, UnaryOp::I64Clz => 0x79, UnaryOp::I64Ctz => 0x7a, UnaryOp::I64Popcnt => 0x7b, UnaryOp::F32Abs => 0x8b, UnaryOp::F32Neg => 0x8c, UnaryOp::F32Ceil => 0x8d, UnaryOp::F32Floor => 0x8e, UnaryOp::F32Trunc => 0x8f, UnaryOp::F32Nearest => 0x90, UnaryOp::F32Sqrt => 0x91, UnaryOp::F64Abs => 0x99, UnaryOp::F64Neg => 0x9a, UnaryOp::F64Ceil => 0x9b, UnaryOp::F64Floor => 0x9c, UnaryOp::F64Trunc => 0x9d, UnaryOp::F64Nearest => 0x9e, UnaryOp::F64Sqrt => 0x9f, UnaryOp::I32WrapI64 => 0xa7, UnaryOp::I32TruncF32S => 0xa8, UnaryOp::I32TruncF32U => 0xa9, UnaryOp::I32TruncF64S => 0xaa, UnaryOp::I32TruncF64U => 0xab, UnaryOp::I32TruncSatF32S => 0xfc00, UnaryOp::I32TruncSatF32U => 0xfc01, UnaryOp::I32TruncSatF64S => 0xfc02, UnaryOp::I32TruncSatF64U => 0xfc03, UnaryOp::I64ExtendI32S => 0xac, UnaryOp::I64ExtendI32U => 0xad, UnaryOp::I64TruncF32S => 0xae, UnaryOp::I64TruncF32U => 0xaf, UnaryOp::I64TruncF64S => 0xb0, UnaryOp::I64TruncF64U => 0xb1, UnaryOp::I64TruncSatF32S => 0xfc04, UnaryOp::I64TruncSatF32U => 0xfc05, UnaryOp::I64TruncSatF64S => 0xfc06, UnaryOp::I64TruncSatF64U => 0xfc07, UnaryOp::F32ConvertI32S => 0xb2, UnaryOp::F32ConvertI32U => 0xb3, UnaryOp::F32ConvertI64S => 0xb4, UnaryOp::F32ConvertI64U => 0xb5, UnaryOp::F32DemoteF64 => 0xb6, UnaryOp::F64ConvertI32S => 0xb7, UnaryOp::F64ConvertI32U => 0xb8, UnaryOp::F64ConvertI64S => 0xb9, UnaryOp::F64ConvertI64U => 0xba, UnaryOp::F64PromoteF32 => 0xbb, UnaryOp::I32ReinterpretF32 => 0xbc, UnaryOp::I64ReinterpretF64 => 0xbd, UnaryOp::F32ReinterpretI32 => 0xbe, UnaryOp::F64ReinterpretI64 => 0xbf, UnaryOp::I32Extend8S => 0xc0, UnaryOp::I32Extend16S => 0xc1, UnaryOp::I64Extend8S => 0xc2, UnaryOp::I64Extend16S => 0xc3, UnaryOp::I64Extend32S => 0xc4 } }
    pub fn from_opcode(o: u16) -> Option<Self> { Some(match o { 0x45 => UnaryOp::I32Eqz, 0x50 => UnaryOp::I64Eqz, 0x67 => UnaryOp::I32Clz, 0x68 => UnaryOp::I32Ctz, 0x69 => UnaryOp::I32Popcnt, 0x79 => UnaryOp::I64Clz, 0x7a => UnaryOp::I64Ctz, 0x7b => UnaryOp::I64Popcnt, 0x8b => UnaryOp::F32Abs, 0x8c => UnaryOp::F32Neg, 0x8d => UnaryOp::F32Ceil, 0x8e => UnaryOp::F32Floor, 0x8f => UnaryOp::F32Trunc, 0x90 => UnaryOp::F32Nearest, 0x91 => UnaryOp::F32Sqrt, 0x99 => UnaryOp::F64Abs, 0x9a => UnaryOp::F64Neg, 0x9b => UnaryOp::F64Ceil, 0x9c => UnaryOp::F64Floor, 0x9d => UnaryOp::F64Trunc, 0x9e => UnaryOp::F64Nearest, 0x9f => UnaryOp::F64Sqrt, 0xa7 => UnaryOp::I32WrapI64, 0xa8 => UnaryOp::I32TruncF32S, 0xa9 => UnaryOp::I32TruncF32U, 0xaa => UnaryOp::I32TruncF64S, 0xab => UnaryOp::I32TruncF64U, 0xfc00 => UnaryOp::I32TruncSatF32S, 0xfc01 => UnaryOp::I32TruncSatF32U, 0xfc02 => UnaryOp::I32TruncSatF64S, 0xfc03 => UnaryOp::I32TruncSatF64U, 0xac => UnaryOp::I64ExtendI32S, 0xad => UnaryOp::I64ExtendI32U, 0xae => UnaryOp::I64TruncF32S, 0xaf => UnaryOp::I64TruncF32U, 0xb0 => UnaryOp::I64TruncF64S, 0xb1 => UnaryOp::I64TruncF64U, 0xfc04 => UnaryOp::I64TruncSatF32S, 0xfc05 => UnaryOp::I64TruncSatF32U, 0xfc06 => UnaryOp::I64TruncSatF64S, 0xfc07 => UnaryOp::I64TruncSatF64U, 0xb2 => UnaryOp::F32ConvertI32S, 0xb3 => UnaryOp::F32ConvertI32U, 0xb4 => UnaryOp::F32ConvertI64S, 0xb5 => UnaryOp::F32ConvertI64U, 0xb6 => UnaryOp::F32DemoteF64, 0xb7 => UnaryOp::F64ConvertI32S, 0xb8 => UnaryOp::F64ConvertI32U, 0xb9 => UnaryOp::F64ConvertI64S, 0xba => UnaryOp::F64ConvertI64U, 0xbb => UnaryOp::F64PromoteF32, 0xbc => UnaryOp::I32ReinterpretF32, 0xbd => UnaryOp::I64ReinterpretF64, 0xbe => UnaryOp::F32ReinterpretI32, 0xbf => UnaryOp::F64ReinterpretI64, 0xc0 => UnaryOp::I32Extend8S, 0xc1 => UnaryOp::I32Extend16S, 0xc2 => UnaryOp::I64Extend8S, 0xc3 => UnaryOp::I64Extend16S, 0xc4 => UnaryOp::I64Extend32S, _ => return None }) }
    pub fn sig(self) -> (ValType, ValType) { match self { UnaryOp::I32Eqz => (I32, I32), UnaryOp::I64Eqz => (I64, I32), UnaryOp::I32Clz => (I32, I32), UnaryOp::I32Ctz => (I32, I32), UnaryOp::I32Popcnt => (I32, I32), UnaryOp::I64Clz => (I64, I64), UnaryOp::I64Ctz => (I64, I64), UnaryOp::I64Popcnt => (I64, I64), UnaryOp::F32Abs => (F32, F32), UnaryOp::F32Neg => (F32, F32), UnaryOp::F32Ceil => (F32, F32), UnaryOp::F32Floor => (F32, F32), UnaryOp::F32Trunc => (F32, F32), UnaryOp::F32Nearest => (F32, F32), UnaryOp::F32Sqrt => (F32, F32), UnaryOp::F64Abs => (F64, F64), UnaryOp::F64Neg => (F64, F64), UnaryOp::F64Ceil => (F64, F64), UnaryOp::F64Floor => (F64, F64), UnaryOp::F64Trunc => (F64, F64), UnaryOp::F64Nearest => (F64, F64), UnaryOp::F64Sqrt => (F64, F64), UnaryOp::I32WrapI64 => (I64, I32), UnaryOp::I32TruncF32S => (F32, I32), UnaryOp::I32TruncF32U => (F32, I32), UnaryOp::I32TruncF64S => (F64, I32), UnaryOp::I32TruncF64U => (F64, I32), UnaryOp::I32TruncSatF32S => (F32, I32), UnaryOp::I32TruncSatF32U => (F32, I32), UnaryOp::I32TruncSatF64S => (F64, I32), UnaryOp::I32TruncSatF64U => (F64, I32), UnaryOp::I64ExtendI32S => (I32, I64), UnaryOp::I64ExtendI32U => (I32, I64), UnaryOp::I64TruncF32S => (F32, I64), UnaryOp::I64TruncF32U => (F32, I64), UnaryOp::I64TruncF64S => (F64, I64), UnaryOp::I64TruncF64U => (F64, I64), UnaryOp::I64TruncSatF32S => (F32, I64), UnaryOp::I64TruncSatF32U => (F32, I64), UnaryOp::I64TruncSatF64S => (F64, I64), UnaryOp::I64TruncSatF64U => (F64, I64), UnaryOp::F32ConvertI32S => (I32, F32), UnaryOp::F32ConvertI32U => (I32, F32), UnaryOp::F32ConvertI64S => (I64, F32), UnaryOp::F32ConvertI64U => (I64, F32), UnaryOp::F32DemoteF64 => (F64, F32), UnaryOp::F64ConvertI32S => (I32, F64), UnaryOp::F64ConvertI32U => (I32, F64), UnaryOp::F64ConvertI64S => (I64, F64), UnaryOp::F64ConvertI64U => (I64, F64), UnaryOp::F64PromoteF32 => (F32, F64), UnaryOp::I32ReinterpretF32 => (F32, I32), UnaryOp::I64ReinterpretF64 => (F64, I64), UnaryOp::F32ReinterpretI32 => (I32, F32), UnaryOp::F64ReinterpretI64 => (I64, F64), UnaryOp::I32Extend8S => (I32, I32), UnaryOp::I32Extend16S => (I32, I32), UnaryOp::I64Extend8S => (I64, I64), UnaryOp::I64Extend16S => (I64, I64), UnaryOp::I64Extend32S => (I64, I64) } }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum BinaryOp { I32Eq, I32Ne, I32LtS, I32LtU, I32GtS, I32GtU, I32LeS, I32LeU, I32GeS, I32GeU, I64Eq, I64Ne, I64LtS, I64LtU, I64GtS, I64GtU, I64LeS, I64LeU, I64GeS, I64GeU, F32Eq, F32Ne, F32Lt, F32Gt, F32Le, F32Ge, F64Eq, F64Ne, F64Lt, F64Gt, F64Le, F64Ge, I32Add, I32Sub, I32Mul, I32DivS, I32DivU, I32RemS, I32RemU, I32And, I32Or, I32Xor, I32Shl, I32ShrS, I32ShrU, I32Rotl, I32Rotr, I64Add, I64Sub, I64Mul, I64DivS, I64DivU, I64RemS, I64RemU, I64And, I64Or, I64Xor, I64Shl, I64ShrS, I64ShrU, I64Rotl, I64Rotr, F32Add, F32Sub, F32Mul, F32Div, F32Min, F32Max, F32Copysign, F64Add, F64Sub, F64Mul, F64Div, F64Min, F64Max, F64Copysign }
impl BinaryOp {
    pub fn opcode(self) -> u16 { match self { BinaryOp::I32Eq => 0x46, BinaryOp::I32Ne => 0x47, BinaryOp::I32LtS => 0x48, BinaryOp::I32LtU => 0x49, BinaryOp::I32GtS => 0x4a, BinaryOp::I32GtU => 0x4b, BinaryOp::I32LeS => 0x4c, BinaryOp::I32LeU => 0x4d, BinaryOp::I32GeS => 0x4e, BinaryOp::I32GeU => 0x4f, BinaryOp::I64Eq => 0x51, BinaryOp::I64Ne => 0x52, BinaryOp::I64LtS => 0x53, BinaryOp::I64LtU => 0x54, BinaryOp::I64GtS => 0x55, BinaryOp::I64GtU => 0x56, BinaryOp::I64LeS => 0x57, BinaryOp::I64LeU => 0x58, BinaryOp::I64GeS => 0x59, BinaryOp::I64GeU => 0x5a, BinaryOp::F32Eq => 0x5b, BinaryOp::F32Ne => 0x5c, BinaryOp::F32Lt => 0x5d, BinaryOp::F32Gt => 0x5e, BinaryOp::F32Le => 0x5f, BinaryOp::F32Ge => 0x60, BinaryOp::F64Eq => 0x61, BinaryOp::F64Ne => 0x62, BinaryOp::F64Lt => 0x63, BinaryOp::F64Gt => 0x64, BinaryOp::F64Le => 0x65, BinaryOp::F64Ge => 0x66, BinaryOp::I32Add => 0x6a, BinaryOp::I32Sub => 0x6b, BinaryOp::I32Mul => 0x6c, BinaryOp::I32DivS => 0x6d, BinaryOp::I32DivU => 0x6e, BinaryOp::I32RemS => 0x6f, BinaryOp::I32RemU => 0x70, BinaryOp::I32And => 0x71, BinaryOp::I32Or => 0x72, BinaryOp::I32Xor => 0x73, BinaryOp::I32Shl => 0x74, BinaryOp::I32ShrS => 0x75, BinaryOp::I32ShrU => 0x76, BinaryOp::I32Rotl => 0x77, BinaryOp::I32Rotr => 0x78, BinaryOp::I64Add => 0x7c, BinaryOp::I64Sub => 0x7d, BinaryOp::I64Mul => 0x7e, BinaryOp::I64DivS => 0x7f, BinaryOp::I64DivU => 0x80, BinaryOp::I64RemS => 0x81, BinaryOp::I64RemU => 0x82, BinaryOp::I64And => 0x83, BinaryOp::I64Or => 0x84, BinaryOp::I64Xor => 0x85, BinaryOp::I64Shl => 0x86, BinaryOp::I64ShrS => 0x87, BinaryOp::I64ShrU => 0x88, BinaryOp::I64Rotl => 0x89, BinaryOp::I64Rotr => 0x8a, BinaryOp::F32Add => 0x92, BinaryOp::F32Sub => 0x93, BinaryOp::F32Mul => 0x94, BinaryOp::F32Div => 0x95, BinaryOp::F32Min => 0x96, BinaryOp::F32Max => 0x97, BinaryOp::F32Copysign => 0x98, BinaryOp::F64Add => 0xa0, BinaryOp::F64Sub => 0xa1, BinaryOp::F64Mul => 0xa2, BinaryOp::F64Div => 0xa3, BinaryOp::F64Min => 0xa4, BinaryOp::F64Max => 0xa5, BinaryOp::F64Copysign => 0xa6 } }
    pub fn from_opcode(o: u16) -> Option<Self> { Some(match o { 0x46 => BinaryOp::I32Eq, 0x47 => BinaryOp::I32Ne, 0x48 => BinaryOp::I32LtS, 0x49 => BinaryOp::I32LtU, 0x4a => BinaryOp::I32GtS, 0x4b => BinaryOp::I32GtU, 0x4c => BinaryOp::I32LeS, 0x4d => BinaryOp::I32LeU, 0x4e => BinaryOp::I32GeS, 0x4f => BinaryOp::I32GeU, 0x51 => BinaryOp::I64Eq, 0x52 => BinaryOp::I64Ne, 0x53 => BinaryOp::I64LtS, 0x54 => BinaryOp::I64LtU, 0x55 => BinaryOp::I64GtS, 0x56 => BinaryOp::I64GtU, 0x57 => BinaryOp::I64LeS, 0x58 => BinaryOp::I64LeU, 0x59 => BinaryOp::I64GeS, 0x5a => BinaryOp::I64GeU, 0x5b => BinaryOp::F32Eq, 0x5c => BinaryOp::F32Ne, 0x5d => BinaryOp::F32Lt, 0x5e => BinaryOp::F32Gt, 0x5f => BinaryOp::F32Le, 0x60 => BinaryOp::F32Ge, 0x61 => BinaryOp::F64Eq, 0x62 => BinaryOp::F64Ne, 0x63 => BinaryOp::F64Lt, 0x64 => BinaryOp::F64Gt, 0x65 => BinaryOp::F64Le, 0x66 => BinaryOp::F64Ge, 0x6a => BinaryOp::I32Add, 0x6b => BinaryOp::I32Sub, 0x6c => BinaryOp::I32Mul, 0x6d => BinaryOp::I32DivS, 0x6e => BinaryOp::I32DivU, 0x6f => BinaryOp::I32RemS, 0x70 => BinaryOp::I32RemU, 0x71 => BinaryOp::I32And, 0x72 => BinaryOp::I32Or, 0x73 => BinaryOp::I32Xor, 0x74 => BinaryOp::I32Shl, 0x75 => BinaryOp::I32ShrS, 0x76 => BinaryOp::I32ShrU, 0x77 => BinaryOp::I32Rotl, 0x78 => BinaryOp::I32Rotr, 0x7c => BinaryOp::I64Add, 0x7d => BinaryOp::I64Sub, 0x7e => BinaryOp::I64Mul, 0x7f => BinaryOp::I64DivS, 0x80 => BinaryOp::I64DivU, 0x81 => BinaryOp::I64RemS, 0x82 => BinaryOp::I64RemU, 0x83 => BinaryOp::I64And, 0x84 => BinaryOp::I64Or, 0x85 => BinaryOp::I64Xor, 0x86 => BinaryOp::I64Shl, 0x87 => BinaryOp::I64ShrS, 0x88 => BinaryOp::I64ShrU, 0x89 => BinaryOp::I64Rotl, 0x8a => BinaryOp::I64Rotr, 0x92 => BinaryOp::F32Add, 0x93 => BinaryOp::F32Sub, 0x94 => BinaryOp::F32Mul, 0x95 => BinaryOp::F32Div, 0x96 => BinaryOp::F32Min, 0x97 => BinaryOp::F32Max, 0x98 => BinaryOp::F32Copysign, 0xa0 => BinaryOp::F64Add, 0xa1 => BinaryOp::F64Sub, 0xa2 => BinaryOp::F64Mul, 0xa3 => BinaryOp::F64Div, 0xa4 => BinaryOp::F64Min, 0xa5 => BinaryOp::F64Max, 0xa6 => BinaryOp::F64Copysign, _ => return None }) }
    pub fn sig(self) -> (ValType, ValType) { match self { BinaryOp::I32Eq => (I32, I32), BinaryOp::I32Ne => (I32, I32), BinaryOp::I32LtS => (I32, I32), BinaryOp::I32LtU => (I32, I32), BinaryOp::I32GtS => (I32, I32), BinaryOp::I32GtU => (I32, I32), BinaryOp::I32LeS => (I32, I32), BinaryOp::I32LeU => (I32, I32), BinaryOp::I32GeS => (I32, I32), BinaryOp::I32GeU => (I32, I32), BinaryOp::I64Eq => (I64, I32), BinaryOp::I64Ne => (I64, I32), BinaryOp::I64LtS => (I64, I32), BinaryOp::I64LtU => (I64, I32), BinaryOp::I64GtS => (I64, I32), BinaryOp::I64GtU => (I64, I32), BinaryOp::I64LeS => (I64, I32), BinaryOp::I64LeU => (I64, I32), BinaryOp::I64GeS => (I64, I32), BinaryOp::I64GeU => (I64, I32), BinaryOp::F32Eq => (F32, I32), BinaryOp::F32Ne => (F32, I32), BinaryOp::F32Lt => (F32, I32), BinaryOp::F32Gt => (F32, I32), BinaryOp::F32Le => (F32, I32), BinaryOp::F32Ge => (F32, I32), BinaryOp::F64Eq => (F64, I32), BinaryOp::F64Ne => (F64, I32), BinaryOp::F64Lt => (F64, I32), BinaryOp::F64Gt => (F64, I32), BinaryOp::F64Le => (F64, I32), BinaryOp::F64Ge => (F64, I32), BinaryOp::I32Add => (I32, I32), BinaryOp::I32Sub => (I32, I32), BinaryOp::I32Mul => (I32, I32), BinaryOp::I32DivS => (I32, I32), BinaryOp::I32DivU => (I32, I32), BinaryOp::I32RemS => (I32, I32), BinaryOp::I32RemU => (I32, I32), BinaryOp::I32And => (I32, I32), BinaryOp::I32Or => (I32, I32), BinaryOp::I32Xor => (I32, I32), BinaryOp::I32Shl => (I32, I32), BinaryOp::I32ShrS => (I32, I32), BinaryOp::I32ShrU => (I32, I32), BinaryOp::I32Rotl => (I32, I32), BinaryOp::I32Rotr => (I32, I32), BinaryOp::I64Add => (I64, I64), BinaryOp::I64Sub => (I64, I64), BinaryOp::I64Mul => (I64, I64), BinaryOp::I64DivS => (I64, I64), BinaryOp::I64DivU => (I64, I64), BinaryOp::I64RemS => (I64, I64), BinaryOp::I64RemU => (I64, I64), BinaryOp::I64And => (I64, I64), BinaryOp::I64Or => (I64, I64), BinaryOp::I64Xor => (I64, I64), BinaryOp::I64Shl => (I64, I64), BinaryOp::I64ShrS => (I64, I64), BinaryOp::I64ShrU => (I64, I64), BinaryOp::I64Rotl => (I64, I64), BinaryOp::I64Rotr => (I64, I64), BinaryOp::F32Add => (F32, F32), BinaryOp::F32Sub => (F32, F32), BinaryOp::F32Mul => (F32, F32), BinaryOp::F32Div => (F32, F32), BinaryOp::F32Min => (F32, F32), BinaryOp::F32Max => (F32, F32), BinaryOp::F32Copysign => (F32, F32), BinaryOp::F64Add => (F64, F64), BinaryOp::F64Sub => (F64, F64), BinaryOp::F64Mul => (F64, F64), BinaryOp::F64Div => (F64, F64), BinaryOp::F64Min => (F64, F64), BinaryOp::F64Max => (F64, F64), BinaryOp::F64Copysign => (F64, F64) } }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum LoadOp { I32Load, I64Load, F32Load, F64Load, I32Load8S, I32Load8U, I32Load16S, I32Load16U, I64Load8S, I64Load8U, I64Load16S, I64Load16U, I64Load32S, I64Load32U }
impl LoadOp {
    pub fn opcode(self) -> u16 { match self { LoadOp::I32Load => 0x28, LoadOp::I64Load => 0x29, LoadOp::F32Load => 0x2a, LoadOp::F64Load => 0x2b, LoadOp::I32Load8S => 0x2c, LoadOp::I32Load8U => 0x2d, LoadOp::I32Load16S => 0x2e, LoadOp::I32Load16U => 0x2f, LoadOp::I64Load8S => 0x30, LoadOp::I64Load8U => 0x31, LoadOp::I64Load16S => 0x32, LoadOp::I64Load16U => 0x33, LoadOp::I64Load32S => 0x34, LoadOp::I64Load32U => 0x35 } }
    pub fn from_opcode(o: u16) -> Option<Self> { Some(match o { 0x28 => LoadOp::I32Load, 0x29 => LoadOp::I64Load, 0x2a => LoadOp::F32Load, 0x2b => LoadOp::F64Load, 0x2c => LoadOp::I32Load8S, 0x2d => LoadOp::I32Load8U, 0x2e => LoadOp::I32Load16S, 0x2f => LoadOp::I32Load16U, 0x30 => LoadOp::I64Load8S, 0x31 => LoadOp::I64Load8U, 0x32 => LoadOp::I64Load16S, 0x33 => LoadOp::I64Load16U, 0x34 => LoadOp::I64Load32S, 0x35 => LoadOp::I64Load32U, _ => return None }) }
    pub fn value_type(self) -> ValType { match self { LoadOp::I32Load => I32, LoadOp::I64Load => I64, LoadOp::F32Load => F32, LoadOp::F64Load => F64, LoadOp::I32Load8S => I32, LoadOp::I32Load8U => I32, LoadOp::I32Load16S => I32, LoadOp::I32Load16U => I32, LoadOp::I64Load8S => I64, LoadOp::I64Load8U => I64, LoadOp::I64Load16S => I64, LoadOp::I64Load16U => I64, LoadOp::I64Load32S => I64, LoadOp::I64Load32U => I64 } }
    pub fn log2(self) -> u8 { match self { LoadOp::I32Load => 2, LoadOp::I64Load => 3, LoadOp::F32Load => 2, LoadOp::F64Load => 3, LoadOp::I32Load8S => 0, LoadOp::I32Load8U => 0, LoadOp::I32Load16S => 1, LoadOp::I32Load16U => 1, LoadOp::I64Load8S => 0, LoadOp::I64Load8U => 0, LoadOp::I64Load16S => 1, LoadOp::I64Load16U => 1, LoadOp::I64Load32S => 2, LoadOp::I64Load32U => 2 } }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum StoreOp { I32Store, I64Store, F32Store, F64Store, I32Store8, I32Store16, I64Store8, I64Store16, I64Store32 }
impl StoreOp {
    pub fn opcode(self) -> u16 { match self { StoreOp::I32Store => 0x36, StoreOp::I64Store => 0x37, StoreOp::F32Store => 0x38, StoreOp::F64Store => 0x39, StoreOp::I32Store8 => 0x3a, StoreOp::I32Store16 => 0x3b, StoreOp::I64Store8 => 0x3c, StoreOp::I64Store16 => 0x3d, StoreOp::I64Store32 => 0x3e } }
    pub fn from_opcode(o: u16) -> Option<Self> { Some(match o { 0x36 => StoreOp::I32Store, 0x37 => StoreOp::I64Store, 0x38 => StoreOp::F32Store, 0x39 => StoreOp::F64Store, 0x3a => StoreOp::I32Store8, 0x3b => StoreOp::I32Store16, 0x3c => StoreOp::I64Store8, 0x3d => StoreOp::I64Store16, 0x3e => StoreOp::I64Store32, _ => return None }) }
    pub fn value_type(self) -> ValType { match self { StoreOp::I32Store => I32, StoreOp::I64Store => I64, StoreOp::F32Store => F32, StoreOp::F64Store => F64, StoreOp::I32Store8 => I32, StoreOp::I32Store16 => I32, StoreOp::I64Store8 => I64, StoreOp::I64Store16 => I64, StoreOp::I64Store32 => I64 } }
    pub fn log2(self) -> u8 { match self { StoreOp::I32Store => 2, StoreOp::I64Store => 3, StoreOp::F32Store => 2, StoreOp::F64Store => 3, StoreOp::I32Store8 => 0, StoreOp::I32Store16 => 1, StoreOp::I64Store8 => 0, StoreOp::I64Store16 => 1, StoreOp::I64Store32 => 2 } }
}
