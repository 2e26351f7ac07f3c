//! The engine's own register code: one flat list of scalar instructions per
//! LLVM function (aggregates and vectors are split into scalar registers).
use std::collections::HashMap;

pub const GLOBAL_BASE: u64 = 0x10_0000;
pub const FN_BASE: u64 = 0x7f00_0000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    R(u32),
    C(u64),
    W(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Intr {
    Memcpy,
    Memmove,
    Memset,
    UMax,
    UMin,
    SMax,
    SMin,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    USubSat,
    UAddSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Ucmp,
    Scmp,
    Abs,
    IsConstant,
    ThreadLocal,
    LoadRelative,
    ReduceAnd,
    ReduceOr,
    ReduceAdd,
    ReduceUMax,
    ReduceUMin,
    Ptrmask,
    Trap,
    Ignore,
    Unknown,
}

pub fn intrinsic(n: &str) -> Intr {
    let has = |p: &str| n == p || (n.starts_with(p) && n.as_bytes().get(p.len()) == Some(&b'.'));
    const T: &[(&str, Intr)] = &[
        ("memcpy", Intr::Memcpy),
        ("memcpy.inline", Intr::Memcpy),
        ("memmove", Intr::Memmove),
        ("memset", Intr::Memset),
        ("umax", Intr::UMax),
        ("umin", Intr::UMin),
        ("smax", Intr::SMax),
        ("smin", Intr::SMin),
        ("ctlz", Intr::Ctlz),
        ("cttz", Intr::Cttz),
        ("ctpop", Intr::Ctpop),
        ("bswap", Intr::Bswap),
        ("bitreverse", Intr::Bitreverse),
        ("fshl", Intr::Fshl),
        ("fshr", Intr::Fshr),
        ("usub.sat", Intr::USubSat),
        ("uadd.sat", Intr::UAddSat),
        ("uadd.with.overflow", Intr::UAddO),
        ("usub.with.overflow", Intr::USubO),
        ("umul.with.overflow", Intr::UMulO),
        ("sadd.with.overflow", Intr::SAddO),
        ("ssub.with.overflow", Intr::SSubO),
        ("smul.with.overflow", Intr::SMulO),
        ("ucmp", Intr::Ucmp),
        ("scmp", Intr::Scmp),
        ("abs", Intr::Abs),
        ("is.constant", Intr::IsConstant),
        ("threadlocal.address", Intr::ThreadLocal),
        ("load.relative", Intr::LoadRelative),
        ("vector.reduce.and", Intr::ReduceAnd),
        ("vector.reduce.or", Intr::ReduceOr),
        ("vector.reduce.add", Intr::ReduceAdd),
        ("vector.reduce.umax", Intr::ReduceUMax),
        ("vector.reduce.umin", Intr::ReduceUMin),
        ("ptrmask", Intr::Ptrmask),
        ("trap", Intr::Trap),
        ("lifetime", Intr::Ignore),
        ("lifetime.start", Intr::Ignore),
        ("lifetime.end", Intr::Ignore),
        ("assume", Intr::Ignore),
        ("experimental.noalias.scope.decl", Intr::Ignore),
        ("dbg.value", Intr::Ignore),
        ("dbg.declare", Intr::Ignore),
        ("expect", Intr::Ignore),
        ("x86.sse2.pause", Intr::Ignore),
        ("invariant.start", Intr::Ignore),
        ("invariant.end", Intr::Ignore),
        ("prefetch", Intr::Ignore),
        ("va_start", Intr::Unknown),
    ];
    let mut best = Intr::Unknown;
    let mut len = 0;
    for (p, i) in T {
        if has(p) && p.len() > len {
            best = *i;
            len = p.len();
        }
    }
    best
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u16, d: u32, a: Op, b: Op },
    ICmp { p: Pred, w: u16, d: u32, a: Op, b: Op },
    Select { w: u16, d: u32, c: Op, a: Op, b: Op },
    ZExt { d: u32, a: Op, from: u16, to: u16 },
    SExt { d: u32, a: Op, from: u16, to: u16 },
    Trunc { d: u32, a: Op, from: u16, to: u16 },
    Mov { d: u32, a: Op },
    Load { d: u32, p: Op, off: u32, w: u16 },
    Store { v: Op, p: Op, off: u32, w: u16 },
    Gep { d: u32, base: Op, off: u64, terms: Box<[(Op, u16, u64)]> },
    Alloca { d: u32, size: u32, align: u32 },
    BitcastN { d: u32, from: Box<[(Op, u16)]>, to: Box<[u16]> },
    Call { callee: Callee, d: u32, nret: u32, noreturn: bool, args: Box<[Op]>, ws: Box<[u16]> },
    Intr { id: Intr, d: u32, nret: u32, rw: u16, args: Box<[Op]>, ws: Box<[u16]> },
    CmpXchg { d: u32, p: Op, a: Op, b: Op, w: u16 },
    AtomicRmw { d: u32, p: Op, a: Op, w: u16, op: u8 },
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { v: Op, w: u16, cases: Box<[(u64, u32)]>, def: u32 },
    Ret(Box<[Op]>),
    Unreachable,
    Unsupported(Box<str>),
}

#[derive(Clone, Debug, Default)]
pub struct Edge {
    pub target: u32,
    pub moves: Box<[(u32, Op)]>,
}

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String,
    pub noreturn: bool,
    pub decl: bool,
    pub nargs: u32,
    pub nret: u32,
    pub ret_w: Vec<u16>,
    pub nregs: u32,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
}

#[derive(Default)]
pub struct Program {
    pub funcs: Vec<Func>,
    pub by_name: HashMap<String, u32>,
    pub globals: Vec<u8>,
    pub globals_end: u64,
    pub global_names: Vec<(u64, String)>,
    pub wide: Vec<(u16, u128)>,
}
