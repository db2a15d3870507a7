//! Data structures for the subset of LLVM IR that rustc emits.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ex = u32;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(Ex),
    A(Rc<Vec<Val>>),
}

impl Val {
    pub fn c(&self) -> Option<u128> {
        if let Val::C(v) = self {
            Some(*v)
        } else {
            None
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => (((self.bits() as u64) + 7) / 8).next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Alloc size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_up(((*w as u64) + 7) / 8, self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => align_up(((self.bits() as u64) + 7) / 8, self.align()),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !*packed {
                        o = align_up(o, f.align());
                    }
                    o += f.size();
                }
                align_up(o, self.align())
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, f.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn nelems(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    BitCast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32,
    pub moves: Vec<(u32, Op)>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ptr(Op),
    Asm(String),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, Op)>,
    /// invoke: (normal, unwind)
    pub inv: Option<(Edge, Edge)>,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca { dst: u32, size: u64, n: Option<Op> },
    Load { dst: u32, ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Gep { dst: u32, base: Op, off: i64, idx: Vec<(Op, u32, i64)> },
    Bin { dst: u32, op: B, ty: Ty, a: Op, b: Op },
    Icmp { dst: u32, p: Pred, ty: Ty, a: Op, b: Op },
    Fcmp { dst: u32, p: String, ty: Ty, a: Op, b: Op },
    FNeg { dst: u32, ty: Ty, a: Op },
    Select { dst: u32, cty: Ty, ty: Ty, c: Op, a: Op, b: Op },
    Cast { dst: u32, k: CastK, from: Ty, to: Ty, a: Op },
    Br(Edge),
    CondBr { c: Op, t: Edge, f: Edge },
    Switch { w: u32, v: Op, cases: Vec<(u128, Edge)>, def: Edge },
    Ret(Option<(Ty, Op)>),
    Call(Box<CallI>),
    LandingPad { dst: u32, catch: bool },
    Resume { v: Op },
    Unreachable,
    ExtractValue { dst: u32, a: Op, idx: Vec<u32> },
    InsertValue { dst: u32, ty: Ty, a: Op, v: Op, idx: Vec<u32> },
    CmpXchg { dst: u32, ty: Ty, p: Op, cmp: Op, new: Op },
    AtomicRmw { dst: u32, op: Rmw, ty: Ty, p: Op, v: Op },
    Fence,
    Mov { dst: u32, a: Op },
    ExtractElement { dst: u32, a: Op, i: Op },
    InsertElement { dst: u32, n: u32, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, a: Op, b: Op, n: u32, mask: Vec<i64> },
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub ins: Vec<I>,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct GlobalVar {
    pub name: String,
    pub ty: Ty,
    pub tls: bool,
    pub constant: bool,
    /// bytes of the initial value (None: external)
    pub init: Option<Vec<u8>>,
}

pub struct FuncDecl {
    pub name: String,
    /// byte range of the definition in the source text
    pub body: Option<(usize, usize)>,
    pub ret: Ty,
}

pub const FUNC_BASE: u64 = 0x1000_0000; // object ids >= this are functions
pub const GLOB_BASE: u64 = 1; // first object id of globals

pub struct Module {
    pub text: Vec<u8>,
    pub named: HashMap<String, Ty>,
    pub globals: Vec<GlobalVar>,
    pub gnames: HashMap<String, u32>,
    pub funcs: Vec<FuncDecl>,
    pub fnames: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

impl Module {
    pub fn gaddr(&self, i: u32) -> u64 {
        (GLOB_BASE + i as u64) << 32
    }
    pub fn faddr(&self, i: u32) -> u64 {
        (FUNC_BASE + i as u64) << 32
    }
}
