//! Shared expression language: the target of both front ends.
use crate::value::Sym;
use std::cell::{Cell, OnceCell};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ty {
    Any,
    /// path segments, generic args (of the last segment)
    Named(Vec<Sym>, Vec<Ty>),
    Tuple(Vec<Ty>),
    Fn,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add, Sub, Mul, Div, Mod,
    Eq, Ne, Lt, Le, Gt, Ge,
    And, Or, Imp, Iff,
    BitAnd, BitOr, BitXor, Shl, Shr,
    In, NotIn, Disjoint, // Dafny `!!`
}

#[derive(Clone, Debug)]
pub struct Path {
    pub segs: Vec<Sym>,
    /// generic arguments found anywhere in the path: (segment index, args)
    pub targs: Vec<(usize, Vec<Ty>)>,
}

#[derive(Clone, Debug)]
pub enum Pat {
    Wild,
    Rest,
    Bind(Sym),
    Lit(EP),
    Tuple(Vec<Pat>),
    /// positional constructor pattern
    TupleCtor(Path, Vec<Pat>, PCache),
    StructCtor(Path, Vec<(Sym, Pat)>, PCache),
    /// bare path (unit constructor, or a binding when unresolved)
    PathOrBind(Path, PCache),
    Or(Vec<Pat>),
}
pub type PCache = Rc<OnceCell<Option<Rc<crate::value::Ctor>>>>;

pub type EP = Rc<Expr>;

pub struct Expr {
    pub k: EK,
    pub pos: Pos,
    pub cache: OnceCell<Res>,
    pub dom_cache: OnceCell<Option<Ty>>,
}
impl std::fmt::Debug for Expr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.k)
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Pos {
    pub file: u32,
    pub line: u32,
}

#[derive(Clone)]
pub enum Res {
    Fn(usize),
    Ctor(Rc<crate::value::Ctor>),
    Builtin(&'static str, Option<Sym>),
    Global(usize),
    None,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Q {
    Forall,
    Exists,
    Choose,
}

#[derive(Debug)]
pub enum EK {
    Int(i128),
    Bool(bool),
    Str(Rc<str>),
    Char(char),
    Path(Path),
    Call(EP, Vec<EP>),
    Method(EP, Sym, Vec<Ty>, Vec<EP>),
    Field(EP, Sym),
    Arrow(EP, Sym),
    Is(EP, Path),
    Matches(EP, Pat, Option<EP>),
    Index(EP, EP),
    Slice(EP, Option<EP>, Option<EP>),
    Not(EP),
    Neg(EP),
    Bin(Op, EP, EP),
    Bullet(Op, Vec<EP>),
    If(EP, EP, Option<EP>),
    IfLet(Pat, EP, EP, Option<EP>),
    Match(EP, Vec<(Pat, Option<EP>, EP)>),
    Let(Pat, Ty, EP, EP),
    Lambda(Vec<(Pat, Ty)>, EP),
    Quant(Q, Vec<(Sym, Ty)>, EP, Cell<u64>),
    Struct(Path, Vec<(Sym, EP)>, Option<EP>),
    Tuple(Vec<EP>),
    SeqLit(Vec<EP>),
    SetLit(Vec<EP>),
    MapLit(Vec<(EP, EP)>),
    MSetLit(Vec<EP>),
    Cast(EP, Ty),
    View(EP),
    Unknown(Rc<str>),
    /// Dafny: `d.(f := v)`
    Upd(EP, Vec<(Sym, EP)>),
    /// Dafny: `s[i := v]`
    IdxUpd(EP, EP, EP),
    /// Dafny comprehension: (is map, variables, range, key term, value term)
    Compr(bool, Vec<(Sym, Ty)>, EP, Option<EP>, Option<EP>),
    /// Dafny linear dialect: argument passed by mutable reference
    Inout(EP),
}

/// state-machine transition statements
#[derive(Debug)]
pub enum TS {
    Require(EP),
    RequireLet(Pat, EP),
    Let(Pat, Ty, EP),
    Update(Sym, Vec<Acc>, EP),
    Init(Sym, EP),
    Assert(EP),
    If(EP, TSL, TSL),
    Match(EP, Vec<(Pat, TSL)>),
    /// token operations: add/remove/have/guard/withdraw/deposit  field op= expr
    Token(TokOp, Sym, EP),
    Skip,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum TokOp {
    Add,
    Remove,
    Have,
}
#[derive(Debug, Clone)]
pub enum Acc {
    Field(Sym),
    Index(EP),
}

pub struct Trans {
    pub name: Sym,
    pub kind: TKind,
    pub params: Vec<(Sym, Ty)>,
    pub body: TSL,
    pub scope: usize,
    pub pos: Pos,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum TKind {
    Init,
    Transition,
    Readonly,
    Property,
}

pub fn mk(k: EK, pos: Pos) -> EP {
    Rc::new(Expr { k, pos, cache: OnceCell::new(), dom_cache: OnceCell::new() })
}

pub type TSL = Rc<Vec<TS>>;
