//! In-memory form of the LLVM IR: types, values, instructions.
use crate::expr::*;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Vec<TyId>, bool),
    Array(u64, TyId),
    Vec(u64, TyId),
    Other,
}

/// A run-time value. Scalars of width <= 64 are `C` when concrete; wider ones are always expressions.
#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FOp { Add, Sub, Mul, Div, Rem }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opnd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Op, w: u32, lanes: u32, dst: u32, a: Opnd, b: Opnd },
    FBin { op: FOp, w: u32, dst: u32, a: Opnd, b: Opnd },
    FNeg { w: u32, dst: u32, a: Opnd },
    FCmp { pred: String, w: u32, dst: u32, a: Opnd, b: Opnd },
    Icmp { pred: Pred, w: u32, lanes: u32, dst: u32, a: Opnd, b: Opnd },
    Cast { k: Cast, from: TyId, to: TyId, fw: u32, tw: u32, lanes: u32, dst: u32, a: Opnd },
    Select { dst: u32, ty: TyId, c: Opnd, a: Opnd, b: Opnd },
    Freeze { dst: u32, a: Opnd },
    Load { dst: u32, ty: TyId, p: Opnd },
    Store { ty: TyId, v: Opnd, p: Opnd },
    Gep { dst: u32, base: Opnd, off: i64, idx: Vec<(Opnd, i64, u32)> },
    Alloca { dst: u32, size: u64, align: u64 },
    Call { dst: Option<u32>, ret: TyId, callee: Callee, args: Vec<Opnd>, normal: Option<u32> },
    ExtractValue { dst: u32, a: Opnd, path: Vec<u32> },
    InsertValue { dst: u32, a: Opnd, v: Opnd, path: Vec<u32> },
    ExtractElement { dst: u32, a: Opnd, i: Opnd },
    InsertElement { dst: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { dst: u32, a: Opnd, b: Opnd, mask: Vec<i32>, n: u32 },
    AtomicRmw { op: Rmw, w: u32, ty: TyId, dst: u32, p: Opnd, v: Opnd },
    CmpXchg { w: u32, ty: TyId, dst: u32, p: Opnd, c: Opnd, n: Opnd },
    Fence,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { w: u32, v: Opnd, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    /// phi nodes grouped by predecessor: `phis[k] = (pred, moves)`
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
}

#[derive(Debug)]
pub struct CFunc {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub dbg: u32,
    pub id: u32,
}
