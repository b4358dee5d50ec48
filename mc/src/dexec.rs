//! Executes the compiled part of Dafny modules (methods and `function method`s), including the linear dialect.
use crate::ast::*;
use crate::dparse::{Block, Rhs, DS};
use crate::eval::{Ctl, Ctx, Env, Fr};
use crate::prog::{PRes, Prog};
use crate::value::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub type R<T> = Result<T, String>;

pub enum X {
    Const(V),
    Get(usize, Cell<bool>),
    Ctor(Rc<Ctor>, Vec<X>),
    CallF(usize, Vec<X>),
    Apply(Box<X>, Vec<X>),
    /// function member of a receiver whose type is known at run time
    Method(Box<X>, Sym, Vec<X>),
    Field(Box<X>, Sym),
    Is(Box<X>, Sym),
    Not(Box<X>),
    Neg(Box<X>),
    Bin(Op, Box<X>, Box<X>, u8),
    And(Vec<X>),
    Or(Vec<X>),
    Imp(Box<X>, Box<X>),
    If(Box<X>, Box<X>, Box<X>),
    Match(Box<X>, Vec<(XP, X)>),
    Let(XP, Box<X>, Box<X>),
    Index(Box<X>, Box<X>),
    Slice(Box<X>, Option<Box<X>>, Option<Box<X>>),
    IdxUpd(Box<X>, Box<X>, Box<X>),
    Upd(Box<X>, Vec<(Sym, X)>),
    Seq(Vec<X>),
    Set(Vec<X>),
    MSet(Vec<X>),
    Map(Vec<(X, X)>),
    Tuple(Vec<X>),
    Cast(Box<X>, u8),
    Len(Box<X>),
    SeqNew(Box<X>, Box<X>),
    MSetOf(Box<X>),
    Slow(EP, Vec<(Sym, usize)>),
    Fail(String),
}
#[derive(Debug)]
pub enum XP {
    Wild,
    Bind(usize),
    Lit(V),
    Tuple(Vec<XP>),
    Ctor(Sym, Vec<XP>),
}
pub enum LV {
    Slot(usize),
    Path(usize, Vec<Sym>),
    Field(X, Sym),
    Index(X, X),
    Discard,
}
pub enum Arg {
    X(X),
    Inout(usize, Vec<Sym>),
    Ghost,
}
pub enum Recv {
    None,
    Path(usize, Vec<Sym>),
    X(X),
}
pub enum Callee {
    Mid(usize),
    Dyn(Sym),
}
pub enum S {
    Assign(Vec<(LV, X)>),
    Call(Callee, Recv, Vec<Arg>, Vec<LV>),
    Bind(XP, X),
    Kill(Vec<usize>),
    If(X, Vec<S>, Vec<S>),
    While(u32, X, Vec<S>),
    Match(X, Vec<(XP, Vec<S>)>),
    Block(u32, Vec<S>),
    Break(u32),
    /// assigned outs, then leave
    Return,
    NewArr(LV, X, Option<X>),
    NewObj(LV, usize, Option<usize>, Vec<Arg>),
    Fail(String),
    Line(Pos),
}
pub struct Code {
    pub name: Sym,
    nslots: usize,
    nparams: usize,
    ghost_params: Vec<bool>,
    inouts: Vec<usize>,
    outs: Vec<usize>,
    pub self_inout: bool,
    body: Body,
    ret_cache: bool,
}
enum Body {
    E(X),
    S(Vec<S>),
    Native(Native),
}
pub type Native = Rc<dyn Fn(&mut Dx, Vec<V>) -> R<Vec<V>>>;
#[derive(Clone)]
pub struct Obj {
    /// usize::MAX for arrays
    pub tid: usize,
    pub f: Vec<V>,
}
enum Flow {
    Next,
    Break(u32),
    Return,
}

pub struct Dx {
    pub p: Rc<Prog>,
    pub ctx: Ctx,
    fcode: Vec<Option<Rc<Code>>>,
    mcode: Vec<Option<Rc<Code>>>,
    const_cache: HashMap<usize, V>,
    pub natives: HashMap<Sym, Native>,
    pub heap: Vec<Rc<Obj>>,
    pub steps: u64,
    pub limit: u64,
    depth: u32,
    exec_members: HashMap<Sym, u8>,
    ghost_names: HashMap<Sym, bool>,
    field_w: HashMap<Sym, u8>,
    line: Pos,
    debug: Option<String>,
    pub prof: Option<HashMap<Sym, (u64, u64)>>,
    /// state of the harness that natives use
    pub world: Option<Box<dyn std::any::Any>>,
}

/// width of machine arithmetic on a type: 0 unknown, 127 unbounded or signed
fn width(p: &Prog, t: &Ty) -> u8 {
    width_at(p, t, 0)
}
/// what a variable holds before it is assigned, in the compiled code
fn default(p: &Prog, t: &Ty) -> Option<V> {
    if width(p, t) > 0 {
        return Some(V::Int(0));
    }
    match t {
        Ty::Named(s, _) if &*name(s[0]) == "bool" => Some(V::Bool(false)),
        _ => None,
    }
}
fn width_at(p: &Prog, t: &Ty, depth: u32) -> u8 {
    if let Ty::Named(s, _) = t {
        let n = name(*s.last().unwrap());
        return match &*n {
            "u8" | "bv8" => 8,
            "u16" | "bv16" => 16,
            "u32" | "bv32" => 32,
            "u64" | "bv64" => 64,
            "bv128" | "int" | "nat" => 127,
            _ => match p.scopes[0].types.get(&s[0]) {
                Some(crate::prog::TRef::Alias(a)) if s.len() == 1 && depth < 8 => width_at(p, &p.aliases[*a].ty, depth + 1),
                _ => 0,
            },
        };
    }
    0
}

struct C<'a> {
    p: &'a Prog,
    dx: &'a Dx,
    vars: Vec<(Sym, usize)>,
    n: usize,
    ghost: HashSet<usize>,
    w: HashMap<usize, u8>,
    breaks: Vec<(u32, Option<Sym>, bool)>,
    nbreak: u32,
    outs: Vec<usize>,
}

impl<'a> C<'a> {
    fn slot(&mut self, s: Sym) -> usize {
        self.n += 1;
        self.vars.push((s, self.n - 1));
        self.n - 1
    }
    fn find(&self, s: Sym) -> Option<usize> {
        self.vars.iter().rev().find(|x| x.0 == s).map(|x| x.1)
    }
    fn resolve(&self, e: &EP) -> Option<PRes> {
        match &e.k {
            EK::Path(p) if p.segs.len() > 1 || self.find(p.segs[0]).is_none() => self.p.resolve(0, &p.segs, None, false),
            _ => None,
        }
    }
    fn method_of(&self, e: &EP) -> Option<usize> {
        match &e.k {
            EK::Path(p) if p.segs.len() == 1 && self.find(p.segs[0]).is_none() => self.p.dafny.by_name.get(&p.segs[0]).copied(),
            _ => None,
        }
    }
    /// is the expression only meaningful in proofs?
    fn is_ghost(&self, e: &EP) -> bool {
        match &e.k {
            EK::Path(p) => {
                if p.segs.len() == 1 {
                    if let Some(s) = self.find(p.segs[0]) {
                        return self.ghost.contains(&s);
                    }
                    let n = name(p.segs[0]);
                    if n.starts_with("old$") || n.starts_with("old_") {
                        return true;
                    }
                }
                match self.resolve(e) {
                    Some(PRes::Fn(f)) => !self.p.dafny.exec.contains(&f) && !self.dx.natives.contains_key(&self.p.fns[f].d.name),
                    _ => false,
                }
            }
            EK::Quant(..) => true,
            EK::Field(x, f) => self.is_ghost(x) || *self.dx.ghost_names.get(f).unwrap_or(&false),
            EK::Call(f, a) => {
                if let Some(PRes::Fn(fid)) = self.resolve(f) {
                    if self.dx.natives.contains_key(&self.p.fns[fid].d.name) {
                        return false;
                    }
                    if !self.p.dafny.exec.contains(&fid) {
                        return true;
                    }
                    let ps = &self.p.dafny.ghost_params;
                    return a.iter().enumerate().any(|(i, x)| !ps.contains(&(fid, i)) && self.is_ghost(x));
                }
                if let Some(PRes::Ctor(c)) = self.resolve(f) {
                    let k = self.p.types[c.ty as usize].ctors.iter().position(|x| x.name == c.name).unwrap_or(0);
                    return a.iter().enumerate().any(|(i, x)| !self.p.dafny.ghost_fields.contains(&(c.ty as usize, k, i)) && self.is_ghost(x));
                }
                if self.method_of(f).is_some() {
                    return false;
                }
                self.is_ghost(f) || a.iter().any(|x| self.is_ghost(x))
            }
            EK::Method(x, m, _, a) => {
                if self.is_ghost(x) {
                    return true;
                }
                match self.dx.exec_members.get(m) {
                    Some(0) => true,
                    Some(1) => a.iter().any(|x| self.is_ghost(x)),
                    _ => false,
                }
            }
            EK::Upd(x, fs) => self.is_ghost(x) || fs.iter().any(|(f, y)| !*self.dx.ghost_names.get(f).unwrap_or(&false) && self.is_ghost(y)),
            EK::Lambda(..) => false,
            EK::Match(x, arms) => self.is_ghost(x) || arms.iter().any(|(_, _, b)| self.is_ghost_in(b)),
            EK::Let(_, _, x, b) => {
                let _ = x;
                self.is_ghost_in(b)
            }
            _ => {
                let mut g = false;
                crate::eval::children(e, &mut |c| g = g || self.is_ghost(c));
                g
            }
        }
    }
    // under binders that are not tracked here
    fn is_ghost_in(&self, e: &EP) -> bool {
        self.is_ghost(e)
    }
    fn wid(&self, e: &EP) -> u8 {
        match &e.k {
            EK::Cast(_, t) => width(self.p, t),
            EK::Path(p) if p.segs.len() == 1 => match self.find(p.segs[0]) {
                Some(s) => *self.w.get(&s).unwrap_or(&0),
                None => match self.resolve(e) {
                    Some(PRes::Fn(f)) => width(self.p, &self.p.fns[f].d.ret),
                    _ => 0,
                },
            },
            EK::Call(f, _) => match self.resolve(f) {
                Some(PRes::Fn(f)) => width(self.p, &self.p.fns[f].d.ret),
                _ => 0,
            },
            EK::Field(_, f) => *self.dx.field_w.get(f).unwrap_or(&0),
            EK::Bin(o, a, b) if !matches!(o, Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge | Op::In | Op::NotIn) => match self.wid(a) {
                0 if !matches!(o, Op::Shl | Op::Shr) => self.wid(b),
                w => w,
            },
            EK::If(_, a, Some(b)) => match self.wid(a) {
                0 => self.wid(b),
                w => w,
            },
            _ => 0,
        }
    }
    fn xs(&mut self, v: &[EP]) -> Vec<X> {
        v.iter().map(|e| self.x(e)).collect()
    }
    fn b(&mut self, e: &EP) -> Box<X> {
        Box::new(self.x(e))
    }
    fn slow(&self, e: &EP) -> X {
        let mut caps: Vec<(Sym, usize)> = vec![];
        let mut seen = HashSet::new();
        for (s, i) in self.vars.iter().rev() {
            if seen.insert(*s) && crate::eval::mentions(e, *s) {
                caps.push((*s, *i));
            }
        }
        X::Slow(e.clone(), caps)
    }
    fn x(&mut self, e: &EP) -> X {
        match &e.k {
            EK::Int(i) => X::Const(V::Int(*i)),
            EK::Bool(b) => X::Const(V::Bool(*b)),
            EK::Str(s) => X::Const(V::Str(s.clone())),
            EK::Char(c) => X::Const(V::Char(*c)),
            EK::Unknown(s) => X::Fail(s.to_string()),
            EK::Path(p) => {
                if p.segs.len() == 1 {
                    if let Some(s) = self.find(p.segs[0]) {
                        return X::Get(s, Cell::new(false));
                    }
                    if &*name(p.segs[0]) == "null" {
                        return X::Const(V::Ref(0));
                    }
                }
                match self.resolve(e) {
                    Some(PRes::Ctor(c)) => X::Ctor(c, vec![]),
                    Some(PRes::Fn(f)) => {
                        let n = self.p.fns[f].all_params.len();
                        if n == 0 {
                            return X::CallF(f, vec![]);
                        }
                        let ns: Vec<Sym> = (0..n).map(|i| sym(&format!("$p{}", i))).collect();
                        let a = ns.iter().map(|x| mk(EK::Path(Path { segs: vec![*x], targs: vec![] }), e.pos)).collect();
                        let l = mk(EK::Lambda(ns.iter().map(|x| (Pat::Bind(*x), Ty::Any)).collect(), mk(EK::Call(e.clone(), a), e.pos)), e.pos);
                        X::Slow(l, vec![])
                    }
                    _ => X::Fail(format!("{}: name {}", self.p.loc(e.pos), p.segs.iter().map(|s| name(*s).to_string()).collect::<Vec<_>>().join("."))),
                }
            }
            EK::Call(f, a) => {
                if let EK::Path(p) = &f.k {
                    if p.segs.len() == 1 && self.find(p.segs[0]).is_none() {
                        let n = name(p.segs[0]);
                        if a.len() == 1 && &*n == "len" {
                            return X::Len(self.b(&a[0]));
                        }
                        if a.len() == 1 && &*n == "to_multiset" {
                            return X::MSetOf(self.b(&a[0]));
                        }
                    }
                    if p.segs.len() == 2 && &*name(p.segs[0]) == "Seq" && &*name(p.segs[1]) == "new" && a.len() == 2 {
                        return X::SeqNew(self.b(&a[0]), self.b(&a[1]));
                    }
                }
                match self.resolve(f) {
                    Some(PRes::Fn(fid)) => {
                        let args = a
                            .iter()
                            .enumerate()
                            .map(|(i, x)| if self.p.dafny.ghost_params.contains(&(fid, i)) || self.is_ghost(x) && !self.dx.natives.contains_key(&self.p.fns[fid].d.name) && self.p.dafny.exec.contains(&fid) { X::Const(V::Undef) } else { self.x(x) })
                            .collect();
                        X::CallF(fid, args)
                    }
                    Some(PRes::Ctor(c)) => {
                        let k = self.p.types[c.ty as usize].ctors.iter().position(|x| x.name == c.name).unwrap_or(0);
                        let args = a
                            .iter()
                            .enumerate()
                            .map(|(i, x)| if self.p.dafny.ghost_fields.contains(&(c.ty as usize, k, i)) { X::Const(V::Undef) } else { self.x(x) })
                            .collect();
                        X::Ctor(c, args)
                    }
                    _ => {
                        if self.method_of(f).is_some() {
                            return X::Fail(format!("{}: method call in an expression", self.p.loc(e.pos)));
                        }
                        let f2 = self.b(f);
                        X::Apply(f2, self.xs(a))
                    }
                }
            }
            EK::Method(x, m, _, a) if a.is_empty() && *m == sym("len") && !self.dx.exec_members.contains_key(m) => X::Len(self.b(x)),
            EK::Method(x, m, _, a) if a.is_empty() && *m == sym("to_multiset") => X::MSetOf(self.b(x)),
            EK::Method(x, m, _, a) => {
                let y = self.b(x);
                X::Method(y, *m, self.xs(a))
            }
            EK::Field(x, f) => X::Field(self.b(x), *f),
            EK::Is(x, p) => X::Is(self.b(x), *p.segs.last().unwrap()),
            EK::Index(a, b) => X::Index(self.b(a), self.b(b)),
            EK::Slice(a, b, c) => X::Slice(self.b(a), b.as_ref().map(|x| self.b(x)), c.as_ref().map(|x| self.b(x))),
            EK::Not(a) => X::Not(self.b(a)),
            EK::Neg(a) => X::Neg(self.b(a)),
            EK::Bin(Op::And, a, b) => X::And(vec![self.x(a), self.x(b)]),
            EK::Bin(Op::Or, a, b) => X::Or(vec![self.x(a), self.x(b)]),
            EK::Bin(Op::Imp, a, b) => X::Imp(self.b(a), self.b(b)),
            EK::Bullet(Op::And, v) => X::And(self.xs(v)),
            EK::Bullet(_, v) => X::Or(self.xs(v)),
            EK::Bin(Op::Iff, a, b) => X::Bin(Op::Eq, self.b(a), self.b(b), 0),
            EK::Bin(o, a, b) => {
                let w = self.wid(e);
                X::Bin(*o, self.b(a), self.b(b), w)
            }
            EK::If(c, a, b) => {
                let c = self.b(c);
                let a = self.b(a);
                X::If(c, a, Box::new(b.as_ref().map_or(X::Const(V::Undef), |b| self.x(b))))
            }
            EK::Match(x, arms) => {
                let y = self.b(x);
                let mut out = vec![];
                for (p, _, b) in arms {
                    let n = self.vars.len();
                    let p = self.pat(p);
                    let b = self.x(b);
                    self.vars.truncate(n);
                    out.push((p, b));
                }
                X::Match(y, out)
            }
            EK::Let(p, t, x, b) => {
                let g = self.is_ghost(x);
                let w = match width(self.p, t) {
                    0 => self.wid(x),
                    w => w,
                };
                let y = if g { X::Const(V::Undef) } else { self.x(x) };
                let n = self.vars.len();
                let n0 = self.n;
                let p = self.pat(p);
                if g {
                    self.ghost.extend(n0..self.n);
                }
                if let XP::Bind(s) = p {
                    self.w.insert(s, w);
                }
                let b = self.b(b);
                self.vars.truncate(n);
                if g {
                    return *b;
                }
                X::Let(p, Box::new(y), b)
            }
            EK::Upd(x, fs) => {
                let y = self.b(x);
                let mut out = vec![];
                for (f, v) in fs {
                    if *self.dx.ghost_names.get(f).unwrap_or(&false) {
                        continue;
                    }
                    out.push((*f, self.x(v)));
                }
                X::Upd(y, out)
            }
            EK::IdxUpd(a, b, c) => X::IdxUpd(self.b(a), self.b(b), self.b(c)),
            EK::Tuple(v) => X::Tuple(self.xs(v)),
            EK::SeqLit(v) => X::Seq(self.xs(v)),
            EK::SetLit(v) => X::Set(self.xs(v)),
            EK::MSetLit(v) => X::MSet(self.xs(v)),
            EK::MapLit(v) => X::Map(v.iter().map(|(a, b)| (self.x(a), self.x(b))).collect()),
            EK::Cast(x, t) => X::Cast(self.b(x), width(self.p, t)),
            EK::Inout(x) => self.x(x),
            _ => self.slow(e),
        }
    }
    fn pat(&mut self, p: &Pat) -> XP {
        match p {
            Pat::Wild | Pat::Rest => XP::Wild,
            Pat::Bind(s) => {
                if &*name(*s) == "_" {
                    return XP::Wild;
                }
                XP::Bind(self.slot(*s))
            }
            Pat::Lit(e) => match self.x(e) {
                X::Const(v) => XP::Lit(v),
                _ => XP::Wild,
            },
            Pat::Tuple(v) => XP::Tuple(v.iter().map(|x| self.pat(x)).collect()),
            Pat::TupleCtor(q, v, _) => XP::Ctor(*q.segs.last().unwrap(), v.iter().map(|x| self.pat(x)).collect()),
            _ => XP::Wild,
        }
    }
    /// slot and fields of a path that can be passed by reference
    fn lpath(&self, e: &EP) -> Option<(usize, Vec<Sym>)> {
        match &e.k {
            EK::Inout(x) => self.lpath(x),
            EK::Path(p) if p.segs.len() == 1 => self.find(p.segs[0]).map(|s| (s, vec![])),
            EK::Field(x, f) => {
                let (s, mut v) = self.lpath(x)?;
                v.push(*f);
                Some((s, v))
            }
            _ => None,
        }
    }
    fn is_inout(e: &EP) -> bool {
        match &e.k {
            EK::Inout(_) => true,
            EK::Field(x, _) => Self::is_inout(x),
            _ => false,
        }
    }
    fn lv(&mut self, e: &EP) -> LV {
        let e = match &e.k {
            EK::Inout(x) => x,
            _ => e,
        };
        match &e.k {
            EK::Path(p) if &*name(p.segs[0]) == "_" => LV::Discard,
            EK::Index(a, i) => LV::Index(self.x(a), self.x(i)),
            EK::Field(x, f) => {
                if *self.dx.ghost_names.get(f).unwrap_or(&false) {
                    return LV::Discard;
                }
                match self.lpath(e) {
                    Some((s, v)) => {
                        if self.ghost.contains(&s) {
                            return LV::Discard;
                        }
                        LV::Path(s, v)
                    }
                    None => LV::Field(self.x(x), *f),
                }
            }
            _ => match self.lpath(e) {
                Some((s, v)) if v.is_empty() => {
                    if self.ghost.contains(&s) {
                        LV::Discard
                    } else {
                        LV::Slot(s)
                    }
                }
                _ => LV::Discard,
            },
        }
    }
    fn block(&mut self, b: &Block) -> Vec<S> {
        let n = self.vars.len();
        let mut out = vec![];
        for (s, p) in b.iter() {
            out.push(S::Line(*p));
            self.stmt(s, &mut out);
        }
        self.vars.truncate(n);
        out
    }
    fn args(&mut self, a: &[EP], ghosts: &[bool]) -> Vec<Arg> {
        a.iter()
            .enumerate()
            .map(|(i, x)| {
                if *ghosts.get(i).unwrap_or(&false) {
                    return Arg::Ghost;
                }
                if Self::is_inout(x) {
                    return match self.lpath(x) {
                        Some((s, v)) => Arg::Inout(s, v),
                        None => Arg::X(X::Fail("inout argument".into())),
                    };
                }
                if self.is_ghost(x) {
                    return Arg::Ghost;
                }
                Arg::X(self.x(x))
            })
            .collect()
    }
    /// a statement-level call, if the expression is one
    fn call(&mut self, e: &EP, outs: Vec<LV>) -> Option<Result<S, Vec<LV>>> {
        let e = match &e.k {
            EK::Inout(x) => x,
            _ => e,
        };
        match &e.k {
            EK::Call(f, a) => {
                if let Some(mid) = self.method_of(f) {
                    let m = &self.p.dafny.methods[mid];
                    if m.lemma {
                        return None;
                    }
                    let g: Vec<bool> = m.params.iter().map(|p| p.ghost).collect();
                    let args = self.args(a, &g);
                    return Some(Ok(S::Call(Callee::Mid(mid), Recv::None, args, outs)));
                }
                Some(Err(outs))
            }
            EK::Method(x, m, _, a) => {
                // functions and methods of that name
                let any_method = self.p.dafny.by_type.iter().any(|((_, n), mid)| n == m && !self.p.dafny.methods[*mid].lemma);
                if !any_method {
                    if self.p.dafny.by_type.keys().any(|(_, n)| n == m) {
                        return None; // lemma
                    }
                    return Some(Err(outs));
                }
                let cands: Vec<&crate::dafny::MethodInfo> = self.p.dafny.by_type.iter().filter(|((_, n), mid)| n == m && self.p.dafny.methods[**mid].params.len() == a.len()).map(|(_, mid)| &self.p.dafny.methods[*mid]).collect();
                let g: Vec<bool> = (0..a.len()).map(|i| !cands.is_empty() && cands.iter().all(|c| c.params.get(i).map_or(false, |p| p.ghost))).collect();
                if self.is_ghost(x) {
                    return None;
                }
                let r = match self.lpath(x) {
                    Some((s, v)) => Recv::Path(s, v),
                    None => Recv::X(self.x(x)),
                };
                let args = self.args(a, &g);
                Some(Ok(S::Call(Callee::Dyn(*m), r, args, outs)))
            }
            _ => Some(Err(outs)),
        }
    }
    fn assign(&mut self, lhs: Vec<LV>, rs: &[Rhs], out: &mut Vec<S>) {
        if rs.len() == 1 {
            match &rs[0] {
                Rhs::E(e) => match self.call(e, lhs) {
                    None => {}
                    Some(Ok(s)) => out.push(s),
                    Some(Err(mut lhs)) => {
                        if lhs.len() == 1 {
                            if self.is_ghost(e) {
                                return;
                            }
                            let x = self.x(e);
                            out.push(S::Assign(vec![(lhs.pop().unwrap(), x)]));
                        } else {
                            out.push(S::Fail("assignment arity".into()));
                        }
                    }
                },
                Rhs::NewArr(t, n, i) => {
                    let mut lhs = lhs;
                    let n = self.x(n);
                    let i = match i {
                        Some(i) => Some(self.x(i)),
                        None => default(self.p, t).map(X::Const),
                    };
                    out.push(S::NewArr(lhs.pop().unwrap(), n, i));
                }
                Rhs::NewObj(t, ctor, args) => {
                    let mut lhs = lhs;
                    let tid = match t {
                        Ty::Named(s, _) => match self.p.resolve(0, s, None, true) {
                            Some(PRes::Type(t)) => Some(t),
                            _ => None,
                        },
                        _ => None,
                    };
                    let Some(tid) = tid else {
                        out.push(S::Fail("new of an unknown type".into()));
                        return;
                    };
                    let mut mid = None;
                    for ((t, n), m) in &self.p.dafny.by_type {
                        if *t == tid && self.p.dafny.methods[*m].ctor && (ctor.is_none() && &*name(*n) == "constructor" || *ctor == Some(*n) || ctor.is_none() && args.is_some() && mid.is_none()) {
                            mid = Some(*m);
                        }
                    }
                    let g: Vec<bool> = mid.map(|m| self.p.dafny.methods[m].params.iter().map(|p| p.ghost).collect()).unwrap_or_default();
                    let a = self.args(args.as_deref().unwrap_or(&[]), &g);
                    out.push(S::NewObj(lhs.pop().unwrap(), tid, mid, a));
                }
                Rhs::Havoc => {}
            }
            return;
        }
        let mut v = vec![];
        for (l, r) in lhs.into_iter().zip(rs) {
            match r {
                Rhs::E(e) => {
                    if self.is_ghost(e) {
                        continue;
                    }
                    let x = self.x(e);
                    v.push((l, x));
                }
                _ => out.push(S::Fail("parallel new".into())),
            }
        }
        out.push(S::Assign(v));
    }
    fn stmt(&mut self, s: &DS, out: &mut Vec<S>) {
        match s {
            DS::Skip | DS::Assert(_) | DS::Assume(_) | DS::Forall(..) => {}
            DS::Expr(e) => {
                if let Some(Ok(s)) = self.call(e, vec![]) {
                    out.push(s);
                }
            }
            DS::Var(vs, rs, gh) => {
                if *gh {
                    for (s, _) in vs {
                        let x = self.slot(*s);
                        self.ghost.insert(x);
                    }
                    return;
                }
                // the right-hand sides do not see the new variables
                let mut tmp = vec![];
                let mut new = vec![];
                for (s, t) in vs {
                    self.n += 1;
                    new.push((*s, self.n - 1));
                    let w = width(self.p, t);
                    if w > 0 {
                        self.w.insert(self.n - 1, w);
                    }
                }
                tmp.push(S::Kill(new.iter().map(|x| x.1).collect()));
                if rs.is_empty() {
                    for ((_, i), (_, t)) in new.iter().zip(vs) {
                        if let Some(d) = default(self.p, t) {
                            tmp.push(S::Assign(vec![(LV::Slot(*i), X::Const(d))]));
                        }
                    }
                }
                if !rs.is_empty() {
                    if rs.len() == new.len() {
                        for ((_, i), r) in new.iter().zip(rs) {
                            if let Rhs::E(e) = r {
                                let is_call = match &e.k {
                                    EK::Call(f, _) => self.method_of(f).map_or(false, |m| !self.p.dafny.methods[m].lemma),
                                    EK::Method(_, m, _, _) => self.p.dafny.by_type.iter().any(|((_, n), mid)| n == m && !self.p.dafny.methods[*mid].lemma),
                                    EK::Inout(_) => true,
                                    _ => false,
                                };
                                if !is_call && self.is_ghost(e) {
                                    self.ghost.insert(*i);
                                }
                                if !self.w.contains_key(i) {
                                    let w = self.wid(e);
                                    self.w.insert(*i, w);
                                }
                            }
                        }
                    }
                    let lhs = new.iter().map(|x| if self.ghost.contains(&x.1) { LV::Discard } else { LV::Slot(x.1) }).collect();
                    self.assign(lhs, rs, &mut tmp);
                }
                self.vars.extend(new);
                out.extend(tmp);
            }
            DS::VarSuch(vs, e, gh) => {
                let new: Vec<usize> = vs.iter().map(|(s, _)| self.slot(*s)).collect();
                let _ = e;
                self.ghost.extend(new);
                if !*gh {
                    out.push(S::Line(e.pos));
                }
            }
            DS::VarPat(p, e, gh) => {
                let g = *gh || self.is_ghost(e);
                let y = if g { X::Const(V::Undef) } else { self.x(e) };
                let n0 = self.n;
                let p = self.pat(p);
                if g {
                    self.ghost.extend(n0..self.n);
                    return;
                }
                out.push(S::Bind(p, y));
            }
            DS::Assign(l, rs, gh) => {
                if *gh {
                    return;
                }
                let lhs: Vec<LV> = l.iter().map(|x| self.lv(x)).collect();
                if lhs.iter().all(|l| matches!(l, LV::Discard)) {
                    // still run calls
                    if rs.len() == 1 {
                        if let Rhs::E(e) = &rs[0] {
                            if let Some(Ok(s)) = self.call(e, lhs) {
                                out.push(s);
                            }
                        }
                    }
                    return;
                }
                self.assign(lhs, rs, out);
            }
            DS::AssignSuch(..) => out.push(S::Fail("assign-such-that in compiled code".into())),
            DS::If(c, a, b) => {
                if self.is_ghost(c) {
                    return;
                }
                let c = self.x(c);
                let a = self.block(a);
                let b = b.as_ref().map(|b| self.block(b)).unwrap_or_default();
                out.push(S::If(c, a, b));
            }
            DS::IfSuch(..) => {}
            DS::IfCase(v) => {
                let mut acc: Vec<S> = vec![S::Fail("no case holds".into())];
                for (c, b) in v.iter().rev() {
                    if self.is_ghost(c) {
                        return;
                    }
                    let c = self.x(c);
                    let b = self.block(b);
                    acc = vec![S::If(c, b, acc)];
                }
                out.extend(acc);
            }
            DS::While(c, b, _) => {
                let c = match c {
                    Some(c) => {
                        if self.is_ghost(c) {
                            return;
                        }
                        self.x(c)
                    }
                    None => X::Fail("while *".into()),
                };
                self.nbreak += 1;
                let id = self.nbreak;
                self.breaks.push((id, None, true));
                let b = self.block(b);
                self.breaks.pop();
                out.push(S::While(id, c, b));
            }
            DS::Match(e, arms) => {
                if self.is_ghost(e) {
                    return;
                }
                let y = self.x(e);
                let mut v = vec![];
                for (p, b) in arms {
                    let n = self.vars.len();
                    let p = self.pat(p);
                    let b = self.block(b);
                    self.vars.truncate(n);
                    v.push((p, b));
                }
                out.push(S::Match(y, v));
            }
            DS::Return(rs) => {
                if !rs.is_empty() {
                    let lhs: Vec<LV> = self.outs.iter().map(|s| if self.ghost.contains(s) { LV::Discard } else { LV::Slot(*s) }).collect();
                    self.assign(lhs, rs, out);
                }
                out.push(S::Return);
            }
            DS::Break(n, l) => {
                let t = match l {
                    Some(l) => self.breaks.iter().rev().find(|b| b.1 == Some(*l)).map(|b| b.0),
                    None => {
                        let loops: Vec<u32> = self.breaks.iter().filter(|b| b.2).map(|b| b.0).collect();
                        loops.len().checked_sub((*n).max(1) as usize).map(|i| loops[i])
                    }
                };
                out.push(t.map_or(S::Fail("break".into()), S::Break));
            }
            DS::Label(l, s) => {
                self.nbreak += 1;
                let id = self.nbreak;
                self.breaks.push((id, Some(*l), false));
                let mut v = vec![];
                self.stmt(s, &mut v);
                self.breaks.pop();
                out.push(S::Block(id, v));
            }
            DS::Block(b) => {
                let v = self.block(b);
                out.push(S::Block(0, v));
            }
            DS::Unsupported(s) => {
                if s != "print" && !s.is_empty() {
                    out.push(S::Fail(format!("unsupported statement {}", s)));
                }
            }
        }
    }
}

// ---------- last uses ----------
type L = Vec<bool>;
fn or(a: &mut L, b: &L) {
    for (x, y) in a.iter_mut().zip(b) {
        *x |= *y;
    }
}
fn kill(p: &XP, l: &mut L) {
    match p {
        XP::Bind(s) => l[*s] = false,
        XP::Tuple(v) | XP::Ctor(_, v) => v.iter().for_each(|x| kill(x, l)),
        _ => {}
    }
}
fn lx(e: &X, l: &mut L) {
    match e {
        X::Const(_) | X::Fail(_) => {}
        X::Get(s, c) => {
            c.set(!l[*s]);
            l[*s] = true;
        }
        X::Slow(_, v) => v.iter().for_each(|x| l[x.1] = true),
        X::Ctor(_, v) | X::CallF(_, v) | X::Seq(v) | X::Set(v) | X::MSet(v) | X::Tuple(v) => v.iter().rev().for_each(|x| lx(x, l)),
        X::Apply(f, v) | X::Method(f, _, v) => {
            v.iter().rev().for_each(|x| lx(x, l));
            lx(f, l);
        }
        X::Field(x, _) | X::Is(x, _) | X::Not(x) | X::Neg(x) | X::Cast(x, _) | X::Len(x) | X::MSetOf(x) => lx(x, l),
        X::Index(a, b) => {
            lx(a, l);
            lx(b, l);
        }
        X::Bin(_, a, b, _) | X::SeqNew(a, b) => {
            lx(b, l);
            lx(a, l);
        }
        X::And(v) | X::Or(v) => {
            for (i, x) in v.iter().enumerate().rev() {
                if i == 0 {
                    lx(x, l);
                } else {
                    let mut m = l.clone();
                    lx(x, &mut m);
                    or(l, &m);
                }
            }
        }
        X::Imp(a, b) => {
            let mut m = l.clone();
            lx(b, &mut m);
            or(l, &m);
            lx(a, l);
        }
        X::If(c, a, b) => {
            let mut m = l.clone();
            lx(a, &mut m);
            lx(b, l);
            or(l, &m);
            lx(c, l);
        }
        X::Match(x, arms) => {
            let base = l.clone();
            for (p, b) in arms {
                let mut m = base.clone();
                lx(b, &mut m);
                kill(p, &mut m);
                or(l, &m);
            }
            lx(x, l);
        }
        X::Let(p, x, b) => {
            lx(b, l);
            kill(p, l);
            lx(x, l);
        }
        X::Slice(a, b, c) => {
            if let Some(c) = c {
                lx(c, l);
            }
            if let Some(b) = b {
                lx(b, l);
            }
            lx(a, l);
        }
        X::IdxUpd(a, b, c) => {
            lx(a, l);
            lx(c, l);
            lx(b, l);
        }
        X::Upd(x, v) => {
            lx(x, l);
            v.iter().rev().for_each(|x| lx(&x.1, l));
        }
        X::Map(v) => v.iter().rev().for_each(|(a, b)| {
            lx(b, l);
            lx(a, l);
        }),
    }
}
fn llv(t: &LV, l: &mut L) {
    match t {
        LV::Slot(s) => l[*s] = false,
        LV::Path(s, _) => l[*s] = true,
        LV::Field(x, _) => lx(x, l),
        LV::Index(a, b) => {
            lx(b, l);
            lx(a, l);
        }
        LV::Discard => {}
    }
}
fn largs(a: &[Arg], l: &mut L) {
    for x in a {
        if let Arg::Inout(s, _) = x {
            l[*s] = true;
        }
    }
    for x in a.iter().rev() {
        if let Arg::X(x) = x {
            lx(x, l);
        }
    }
}
fn ls(v: &[S], l: &mut L, exit: &L, brk: &mut Vec<(u32, L)>) {
    for s in v.iter().rev() {
        match s {
            S::Assign(v) => {
                for (t, _) in v {
                    llv(t, l);
                }
                for (_, x) in v.iter().rev() {
                    lx(x, l);
                }
            }
            S::Call(_, r, a, outs) => {
                outs.iter().for_each(|t| llv(t, l));
                if let Recv::Path(s, _) = r {
                    l[*s] = true;
                }
                largs(a, l);
                if let Recv::X(x) = r {
                    lx(x, l);
                }
            }
            S::Bind(p, x) => {
                kill(p, l);
                lx(x, l);
            }
            S::Kill(v) => v.iter().for_each(|s| l[*s] = false),
            S::If(c, a, b) => {
                let mut m = l.clone();
                ls(a, &mut m, exit, brk);
                ls(b, l, exit, brk);
                or(l, &m);
                lx(c, l);
            }
            S::While(id, c, b) => {
                let out = l.clone();
                let mut head = out.clone();
                brk.push((*id, out.clone()));
                loop {
                    let mut m = head.clone();
                    ls(b, &mut m, exit, brk);
                    or(&mut m, &out);
                    lx(c, &mut m);
                    or(&mut m, &head);
                    if m == head {
                        break;
                    }
                    head = m;
                }
                brk.pop();
                *l = head;
            }
            S::Match(x, arms) => {
                let base = l.clone();
                for (p, b) in arms {
                    let mut m = base.clone();
                    ls(b, &mut m, exit, brk);
                    kill(p, &mut m);
                    or(l, &m);
                }
                lx(x, l);
            }
            S::Block(id, b) => {
                brk.push((*id, l.clone()));
                ls(b, l, exit, brk);
                brk.pop();
            }
            S::Break(id) => {
                if let Some((_, m)) = brk.iter().rev().find(|b| b.0 == *id) {
                    *l = m.clone();
                }
            }
            S::Return => *l = exit.clone(),
            S::NewArr(t, n, i) => {
                llv(t, l);
                if let Some(i) = i {
                    lx(i, l);
                }
                lx(n, l);
            }
            S::NewObj(t, _, _, a) => {
                llv(t, l);
                largs(a, l);
            }
            S::Fail(_) | S::Line(_) => {}
        }
    }
}

impl Dx {
    pub fn new(p: Rc<Prog>) -> Dx {
        let mut exec_members: HashMap<Sym, u8> = HashMap::new();
        for t in &p.types {
            for (n, f) in &t.methods {
                let x = p.dafny.exec.contains(f) as u8;
                let y = exec_members.entry(*n).or_insert(x);
                *y |= x;
            }
        }
        for ((_, n), m) in &p.dafny.by_type {
            if !p.dafny.methods[*m].lemma {
                exec_members.insert(*n, 2);
            }
        }
        let mut ghost_names: HashMap<Sym, bool> = HashMap::new();
        let mut field_w: HashMap<Sym, u8> = HashMap::new();
        for (ti, t) in p.types.iter().enumerate() {
            for (k, c) in t.ctors.iter().enumerate() {
                for (j, f) in c.fields.iter().enumerate() {
                    let g = p.dafny.ghost_fields.contains(&(ti, k, j));
                    let x = ghost_names.entry(*f).or_insert(g);
                    *x &= g;
                    let w = width(&p, &t.ftys[k][j]);
                    let x = field_w.entry(*f).or_insert(w);
                    if *x != w {
                        *x = 0;
                    }
                }
            }
        }
        for (t, fs) in &p.dafny.classes {
            for (f, _) in fs {
                let g = p.dafny.ghost_class_fields.contains(&(*t, *f));
                let x = ghost_names.entry(*f).or_insert(g);
                *x &= g;
            }
        }
        let (nf, nm) = (p.fns.len(), p.dafny.methods.len());
        let mut d = Dx {
            ctx: Ctx::new(p.clone()),
            p,
            fcode: vec![None; nf],
            mcode: vec![None; nm],
            const_cache: HashMap::new(),
            natives: HashMap::new(),
            heap: vec![Rc::new(Obj { tid: usize::MAX - 1, f: vec![] })],
            steps: 0,
            limit: u64::MAX,
            depth: 0,
            exec_members,
            ghost_names,
            field_w,
            line: Pos::default(),
            debug: std::env::var("MC_DBG").ok(),
            prof: if std::env::var("MC_PROF").is_ok() { Some(HashMap::new()) } else { None },
            world: None,
        };
        crate::dnative::install(&mut d);
        d
    }
    pub fn native(&mut self, full: &str, f: impl Fn(&mut Dx, Vec<V>) -> R<Vec<V>> + 'static) {
        self.natives.insert(sym(full), Rc::new(f));
    }
    /// replace a function of no arguments by a constant, for compiled and ghost code alike
    pub fn constant(&mut self, full: &str, v: V) -> R<()> {
        let fid = self.fid(full)?;
        self.const_cache.insert(fid, v.clone());
        self.ctx.set_override(full, Rc::new(move |_, _| Ok(Some(v.clone()))));
        Ok(())
    }
    pub fn fid(&self, full: &str) -> R<usize> {
        match self.p.resolve(0, &[sym(full)], None, false) {
            Some(PRes::Fn(f)) => Ok(f),
            _ => Err(format!("no function {}", full)),
        }
    }
    pub fn mid(&self, full: &str) -> R<usize> {
        self.p.dafny.by_name.get(&sym(full)).copied().ok_or_else(|| format!("no method {}", full))
    }
    fn fcode(&mut self, fid: usize) -> R<Rc<Code>> {
        if let Some(c) = &self.fcode[fid] {
            return Ok(c.clone());
        }
        let p = self.p.clone();
        let f = &p.fns[fid];
        let np = f.all_params.len();
        let code = if let Some(n) = self.natives.get(&f.d.name) {
            Code { name: f.d.name, nslots: np, nparams: np, ghost_params: vec![], inouts: vec![], outs: vec![], self_inout: false, body: Body::Native(n.clone()), ret_cache: false }
        } else {
            let Some(b) = &f.d.body else { return Err(format!("function {} has no body", f.full)) };
            let mut c = C { p: &p, dx: self, vars: vec![], n: 0, ghost: HashSet::new(), w: HashMap::new(), breaks: vec![], nbreak: 0, outs: vec![] };
            for s in &f.all_params {
                c.slot(*s);
            }
            let off = np - f.d.params.len();
            for (i, (_, t)) in f.d.params.iter().enumerate() {
                c.w.insert(off + i, width(&p, t));
                if p.dafny.ghost_params.contains(&(fid, i)) {
                    c.ghost.insert(off + i);
                }
            }
            let x = c.x(b);
            let n = c.n;
            let mut l = vec![false; n];
            lx(&x, &mut l);
            Code { name: f.d.name, nslots: n, nparams: np, ghost_params: vec![], inouts: vec![], outs: vec![], self_inout: false, body: Body::E(x), ret_cache: np == 0 }
        };
        let code = Rc::new(code);
        self.fcode[fid] = Some(code.clone());
        Ok(code)
    }
    fn mcode(&mut self, mid: usize) -> R<Rc<Code>> {
        if let Some(c) = &self.mcode[mid] {
            return Ok(c.clone());
        }
        let p = self.p.clone();
        let m = &p.dafny.methods[mid];
        let has_self = m.self_ty.is_some();
        let np = m.params.len() + has_self as usize;
        let mut inouts: Vec<usize> = vec![];
        if has_self && m.self_inout {
            inouts.push(0);
        }
        for (i, q) in m.params.iter().enumerate() {
            if q.inout {
                inouts.push(i + has_self as usize);
            }
        }
        let mut gp: Vec<bool> = m.params.iter().map(|q| q.ghost).collect();
        if has_self {
            gp.insert(0, false);
        }
        let code = if let Some(n) = self.natives.get(&m.full) {
            Code { name: m.full, nslots: np, nparams: np, ghost_params: gp, inouts, outs: (0..m.outs.len()).collect(), self_inout: m.self_inout, body: Body::Native(n.clone()), ret_cache: false }
        } else {
            let Some(b) = &m.body else { return Err(format!("method {} has no body", name(m.full))) };
            let mut c = C { p: &p, dx: self, vars: vec![], n: 0, ghost: HashSet::new(), w: HashMap::new(), breaks: vec![], nbreak: 0, outs: vec![] };
            if has_self {
                let s = c.slot(sym("this"));
                c.vars.push((sym("self"), s));
            }
            for q in &m.params {
                let s = c.slot(q.name);
                c.w.insert(s, width(&p, &q.ty));
                if q.ghost {
                    c.ghost.insert(s);
                }
            }
            let mut outs = vec![];
            for q in &m.outs {
                let s = c.slot(q.name);
                c.w.insert(s, width(&p, &q.ty));
                if q.ghost {
                    c.ghost.insert(s);
                }
                outs.push(s);
            }
            c.outs = outs.clone();
            let mut v = vec![];
            for (q, s) in m.outs.iter().zip(&outs) {
                if let (Some(d), false) = (default(&p, &q.ty), q.ghost) {
                    v.push(S::Assign(vec![(LV::Slot(*s), X::Const(d))]));
                }
            }
            v.extend(c.block(b));
            let n = c.n;
            let mut l = vec![false; n];
            for s in outs.iter().chain(inouts.iter()) {
                l[*s] = true;
            }
            let exit = l.clone();
            ls(&v, &mut l, &exit, &mut vec![]);
            Code { name: m.full, nslots: n, nparams: np, ghost_params: gp, inouts, outs, self_inout: m.self_inout, body: Body::S(v), ret_cache: false }
        };
        let code = Rc::new(code);
        self.mcode[mid] = Some(code.clone());
        Ok(code)
    }

    // ---------- calls ----------
    pub fn call_f(&mut self, fid: usize, args: Vec<V>) -> R<V> {
        if args.is_empty() {
            if let Some(v) = self.const_cache.get(&fid) {
                return Ok(v.clone());
            }
        }
        let c = self.fcode(fid)?;
        if args.len() != c.nparams {
            return Err(format!("arity of {}", name(c.name)));
        }
        match &c.body {
            Body::E(x) => {
                let mut f = args;
                f.resize(c.nslots, V::Undef);
                self.enter(c.name)?;
                let r = self.x(x, &mut f);
                self.depth -= 1;
                let v = r.map_err(|e| self.trace(e, c.name))?;
                if c.ret_cache {
                    self.const_cache.insert(fid, v.clone());
                }
                Ok(v)
            }
            Body::Native(n) => {
                let n = n.clone();
                Ok(n(self, args).map_err(|e| self.trace(e, c.name))?.pop().unwrap_or(V::Undef))
            }
            Body::S(_) => unreachable!(),
        }
    }
    fn enter(&mut self, n: Sym) -> R<()> {
        self.depth += 1;
        if self.depth > 4000 {
            self.depth = 0;
            return Err("recursion too deep".into());
        }
        if let Some(p) = &mut self.prof {
            p.entry(n).or_default().0 += 1;
        }
        Ok(())
    }
    fn trace(&self, e: String, n: Sym) -> String {
        if e.len() > 1500 {
            return e;
        }
        if e.contains("\n") {
            format!("{}\n   in {}", e, name(n))
        } else {
            format!("{} near {}\n   in {}", e, self.p.loc(self.line), name(n))
        }
    }
    /// run a method: (outputs, final values of the inout parameters)
    pub fn call_m(&mut self, mid: usize, args: Vec<V>) -> R<(Vec<V>, Vec<V>)> {
        let c = self.mcode(mid)?;
        if args.len() != c.nparams {
            return Err(format!("arity of {}: {} given {}", name(c.name), c.nparams, args.len()));
        }
        match &c.body {
            Body::S(b) => {
                let mut f = args;
                f.resize(c.nslots, V::Undef);
                self.enter(c.name)?;
                let s0 = self.steps;
                let r = self.run(b, &mut f);
                if let Some(p) = &mut self.prof {
                    p.entry(c.name).or_default().1 += self.steps - s0;
                }
                self.depth = self.depth.saturating_sub(1);
                r.map_err(|e| self.trace(e, c.name))?;
                let outs: Vec<V> = c.outs.iter().map(|s| std::mem::replace(&mut f[*s], V::Undef)).collect();
                let ios = c.inouts.iter().map(|s| std::mem::replace(&mut f[*s], V::Undef)).collect();
                if self.debug.as_deref() == Some(&*name(c.name)) {
                    println!("{} -> {:?}", name(c.name), outs);
                }
                Ok((outs, ios))
            }
            Body::Native(n) => {
                let n = n.clone();
                let mut r = n(self, args).map_err(|e| self.trace(e, c.name))?;
                let ios = r.split_off(c.outs.len().min(r.len()));
                Ok((r, ios))
            }
            Body::E(_) => unreachable!(),
        }
    }
    pub fn method(&mut self, full: &str, args: Vec<V>) -> R<(Vec<V>, Vec<V>)> {
        let m = self.mid(full)?;
        self.call_m(m, args)
    }
    pub fn function(&mut self, full: &str, args: Vec<V>) -> R<V> {
        let f = self.fid(full)?;
        self.call_f(f, args)
    }
    pub fn ghost(&mut self, full: &str, args: Vec<V>) -> R<V> {
        let f = self.fid(full)?;
        self.ctx.depth = 0;
        self.ctx.call_fn(f, args).map_err(ctl)
    }
    pub fn type_id(&self, ty: &str) -> R<usize> {
        match self.p.scopes[0].types.get(&sym(ty)) {
            Some(crate::prog::TRef::Type(t)) => Ok(*t),
            _ => Err(format!("no type {}", ty)),
        }
    }
    pub fn ctor(&self, ty: &str, var: &str, f: Vec<V>) -> R<V> {
        let t = self.type_id(ty)?;
        let c = self.p.types[t].ctors.iter().find(|c| &*name(c.name) == var).ok_or_else(|| format!("no constructor {}.{}", ty, var))?;
        Ok(V::data(c, f))
    }
    pub fn obj_mut(&mut self, r: usize) -> &mut Obj {
        Rc::make_mut(&mut self.heap[r])
    }
    pub fn alloc(&mut self, tid: usize, f: Vec<V>) -> V {
        self.heap.push(Rc::new(Obj { tid, f }));
        V::Ref((self.heap.len() - 1) as u32)
    }
    fn type_of(&self, v: &V) -> Option<usize> {
        match v {
            V::Data(d) => Some(d.ctor.ty as usize),
            V::Ref(r) => Some(self.heap[*r as usize].tid),
            _ => None,
        }
    }

    // ---------- expressions ----------
    fn step(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.limit {
            return Err("does not terminate within the step limit".into());
        }
        Ok(())
    }
    fn peek<'f>(&self, e: &X, f: &'f [V]) -> Option<&'f V> {
        match e {
            X::Get(s, c) if !c.get() => Some(&f[*s]),
            X::Field(x, n) => match self.peek(x, f)? {
                V::Data(d) => d.ctor.fields.iter().position(|y| y == n).map(|i| &d.f[i]),
                _ => None,
            },
            _ => None,
        }
    }
    fn xs(&mut self, v: &[X], f: &mut Vec<V>) -> R<Vec<V>> {
        let mut out = Vec::with_capacity(v.len());
        for e in v {
            out.push(self.x(e, f)?);
        }
        Ok(out)
    }
    fn bool(&mut self, e: &X, f: &mut Vec<V>) -> R<bool> {
        match self.x(e, f)? {
            V::Bool(b) => Ok(b),
            o => Err(format!("condition is {:?}", kind(&o))),
        }
    }
    fn int(&mut self, e: &X, f: &mut Vec<V>) -> R<i128> {
        match self.x(e, f)? {
            V::Int(b) => Ok(b),
            o => Err(format!("number expected, got {}", kind(&o))),
        }
    }
    fn field(&mut self, v: V, n: Sym) -> R<V> {
        match v {
            V::Data(d) => match d.ctor.fields.iter().position(|y| *y == n) {
                Some(i) => Ok(match Rc::try_unwrap(d) {
                    Ok(mut d) => std::mem::replace(&mut d.f[i], V::Undef),
                    Err(d) => d.f[i].clone(),
                }),
                None => {
                    let p = self.p.clone();
                    if let Some(f) = p.types[d.ctor.ty as usize].methods.get(&n) {
                        if p.fns[*f].all_params.len() == 1 {
                            return self.call_f(*f, vec![V::Data(d)]);
                        }
                    }
                    Err(format!("field {} of a value of variant {}", name(n), name(d.ctor.name)))
                }
            },
            V::Tup(t) => {
                let i: usize = name(n).parse().map_err(|_| format!("field {} of a tuple", name(n)))?;
                t.get(i).cloned().ok_or("tuple index".into())
            }
            V::Map(m) => match &*name(n) {
                "Keys" => Ok(V::set(m.keys().cloned())),
                "Values" => Ok(V::set(m.values().cloned())),
                "Items" => Ok(V::set(m.iter().map(|(k, v)| V::tup(vec![k.clone(), v.clone()])))),
                _ => Err("field of a map".into()),
            },
            V::Ref(0) => Err(format!("field {} of null", name(n))),
            V::Ref(r) => {
                let o = self.heap[r as usize].clone();
                if o.tid == usize::MAX {
                    return match &*name(n) {
                        "Length" => Ok(V::Int(o.f.len() as i128)),
                        _ => Err("field of an array".into()),
                    };
                }
                let i = self.p.dafny.classes.get(&o.tid).and_then(|c| c.iter().position(|x| x.0 == n));
                match i {
                    Some(i) => Ok(o.f[i].clone()),
                    None => {
                        let p = self.p.clone();
                        if let Some(f) = p.types[o.tid].methods.get(&n) {
                            if p.fns[*f].all_params.len() == 1 {
                                return self.call_f(*f, vec![V::Ref(r)]);
                            }
                        }
                        Err(format!("no field {}", name(n)))
                    }
                }
            }
            o => Err(format!("field {} of {}", name(n), kind(&o))),
        }
    }
    fn binop(&mut self, o: Op, a: V, b: V, w: u8) -> R<V> {
        Ok(match (o, &a, &b) {
            (Op::Eq, _, _) => V::Bool(a == b),
            (Op::Ne, _, _) => V::Bool(a != b),
            (_, V::Int(x), V::Int(y)) => {
                let (x, y) = (*x, *y);
                let m = if w == 0 || w > 64 { 64 } else { w as u32 };
                let wrap = |v: i128| if w == 127 { v } else if v < 0 || v >> m != 0 { v.rem_euclid(1i128 << m) } else { v };
                match o {
                    Op::Add => V::Int(wrap(x + y)),
                    Op::Sub => V::Int(wrap(x - y)),
                    Op::Mul => V::Int(wrap(x.wrapping_mul(y))),
                    Op::Div | Op::Mod if y == 0 => return Err("division by zero".into()),
                    Op::Div => V::Int(x.div_euclid(y)),
                    Op::Mod => V::Int(x.rem_euclid(y)),
                    Op::Lt => V::Bool(x < y),
                    Op::Le => V::Bool(x <= y),
                    Op::Gt => V::Bool(x > y),
                    Op::Ge => V::Bool(x >= y),
                    Op::BitAnd => V::Int(x & y),
                    Op::BitOr => V::Int(x | y),
                    Op::BitXor => V::Int(x ^ y),
                    Op::Shl => V::Int(if y >= 127 { 0 } else { ((x as u128) << y) as i128 & if w == 127 { i128::MAX } else { (1i128 << m) - 1 } }),
                    Op::Shr => V::Int(if y >= 127 { 0 } else { x >> y }),
                    _ => return Err(format!("{:?} on numbers", o)),
                }
            }
            (Op::Add, V::Seq(_), V::Seq(_)) => {
                let (V::Seq(x), V::Seq(y)) = (a, b) else { unreachable!() };
                if x.is_empty() {
                    return Ok(V::Seq(y));
                }
                let mut x = Rc::try_unwrap(x).unwrap_or_else(|x| (*x).clone());
                x.extend(y.iter().cloned());
                V::seq(x)
            }
            (Op::In | Op::NotIn, x, c) => {
                let r = match c {
                    V::Set(s) => s.contains(x),
                    V::Map(m) => m.contains_key(x),
                    V::Seq(s) => s.contains(x),
                    V::MSet(s) => s.contains_key(x),
                    o => return Err(format!("membership in {}", kind(o))),
                };
                V::Bool(r == (o == Op::In))
            }
            _ => match crate::builtins::binop(&mut self.ctx, o, a, b).map_err(ctl)? {
                V::Undef => return Err("undefined value in an operation".into()),
                v => v,
            },
        })
    }
    fn x(&mut self, e: &X, f: &mut Vec<V>) -> R<V> {
        self.step()?;
        match e {
            X::Const(v) => Ok(v.clone()),
            X::Get(s, c) => Ok(if c.get() { std::mem::replace(&mut f[*s], V::Undef) } else { f[*s].clone() }),
            X::Fail(s) => Err(s.clone()),
            X::Ctor(c, v) => {
                let a = self.xs(v, f)?;
                if a.len() != c.fields.len() {
                    return Err(format!("arity of constructor {}", name(c.name)));
                }
                Ok(V::data(c, a))
            }
            X::CallF(fid, v) => {
                let a = self.xs(v, f)?;
                self.call_f(*fid, a)
            }
            X::Apply(g, v) => {
                let g = self.x(g, f)?;
                let a = self.xs(v, f)?;
                self.apply(&g, &a)
            }
            X::Method(r, m, v) => {
                let r = self.x(r, f)?;
                let a = self.xs(v, f)?;
                self.call_member(r, *m, a)
            }
            X::Field(y, n) => {
                if let Some(v) = self.peek(e, f) {
                    return Ok(v.clone());
                }
                let v = self.x(y, f)?;
                self.field(v, *n)
            }
            X::Is(y, n) => {
                let t;
                let v = match self.peek(y, f) {
                    Some(v) => v,
                    None => {
                        t = self.x(y, f)?;
                        &t
                    }
                };
                match v {
                    V::Data(d) => Ok(V::Bool(d.ctor.name == *n)),
                    o => Err(format!("variant test of {}", kind(o))),
                }
            }
            X::Not(y) => Ok(V::Bool(!self.bool(y, f)?)),
            X::Neg(y) => Ok(V::Int(-self.int(y, f)?)),
            X::Bin(o, a, b, w) => {
                let a = self.x(a, f)?;
                let b = self.x(b, f)?;
                self.binop(*o, a, b, *w)
            }
            X::And(v) => {
                for y in v {
                    if !self.bool(y, f)? {
                        return Ok(V::Bool(false));
                    }
                }
                Ok(V::Bool(true))
            }
            X::Or(v) => {
                for y in v {
                    if self.bool(y, f)? {
                        return Ok(V::Bool(true));
                    }
                }
                Ok(V::Bool(false))
            }
            X::Imp(a, b) => {
                if !self.bool(a, f)? {
                    return Ok(V::Bool(true));
                }
                self.x(b, f)
            }
            X::If(c, a, b) => {
                if self.bool(c, f)? {
                    self.x(a, f)
                } else {
                    self.x(b, f)
                }
            }
            X::Match(y, arms) => {
                let v = self.x(y, f)?;
                for (p, b) in arms {
                    if fits(p, &v) {
                        bind(p, v, f);
                        return self.x(b, f);
                    }
                }
                Err("no case matches".into())
            }
            X::Let(p, y, b) => {
                let v = self.x(y, f)?;
                if !fits(p, &v) {
                    return Err("pattern does not match".into());
                }
                bind(p, v, f);
                self.x(b, f)
            }
            X::Index(a, b) => {
                let t;
                let i = self.x(b, f)?;
                let a = match self.peek(a, f) {
                    Some(v) => v,
                    None => {
                        t = self.x(a, f)?;
                        &t
                    }
                };
                match (a, &i) {
                    (V::Seq(s), V::Int(i)) => {
                        if *i < 0 || *i >= s.len() as i128 {
                            return Err(format!("index {} out of bounds (length {})", i, s.len()));
                        }
                        Ok(s[*i as usize].clone())
                    }
                    (V::Map(m), k) => m.get(k).cloned().ok_or_else(|| "missing map key".to_string()),
                    (V::MSet(m), k) => Ok(V::Int(*m.get(k).unwrap_or(&0))),
                    (V::Ref(r), V::Int(i)) => {
                        let o = &self.heap[*r as usize];
                        if *i < 0 || *i >= o.f.len() as i128 {
                            return Err(format!("index {} out of bounds (length {})", i, o.f.len()));
                        }
                        Ok(o.f[*i as usize].clone())
                    }
                    (o, _) => Err(format!("index into {}", kind(o))),
                }
            }
            X::Slice(a, lo, hi) => {
                let v = self.x(a, f)?;
                let s: Rc<Vec<V>> = match &v {
                    V::Seq(s) => s.clone(),
                    V::Ref(r) if *r != 0 => Rc::new(self.heap[*r as usize].f.clone()),
                    V::Str(s) => Rc::new(s.chars().map(V::Char).collect()),
                    o => return Err(format!("slice of {}", kind(o))),
                };
                let l = match lo {
                    Some(x) => self.int(x, f)?,
                    None => 0,
                };
                let h = match hi {
                    Some(x) => self.int(x, f)?,
                    None => s.len() as i128,
                };
                if l < 0 || h < l || h > s.len() as i128 {
                    return Err(format!("slice {}..{} of length {}", l, h, s.len()));
                }
                if l == 0 && h == s.len() as i128 {
                    return Ok(V::Seq(s));
                }
                self.steps += (h - l) as u64 / 8;
                Ok(V::seq(s[l as usize..h as usize].to_vec()))
            }
            X::IdxUpd(a, i, x) => {
                let i = self.x(i, f)?;
                let x = self.x(x, f)?;
                let v = self.x(a, f)?;
                match (v, i) {
                    (V::Seq(mut s), V::Int(i)) => {
                        if i < 0 || i >= s.len() as i128 {
                            return Err(format!("index {} out of bounds (length {})", i, s.len()));
                        }
                        Rc::make_mut(&mut s)[i as usize] = x;
                        Ok(V::Seq(s))
                    }
                    (V::Map(mut m), k) => {
                        Rc::make_mut(&mut m).insert(k, x);
                        Ok(V::Map(m))
                    }
                    (V::MSet(mut m), k) => {
                        let V::Int(n) = x else { return Err("multiset update".into()) };
                        let r = Rc::make_mut(&mut m);
                        if n == 0 {
                            r.remove(&k);
                        } else {
                            r.insert(k, n);
                        }
                        Ok(V::MSet(m))
                    }
                    (o, _) => Err(format!("update of {}", kind(&o))),
                }
            }
            X::Upd(y, fs) => {
                let mut new = vec![];
                for (n, x) in fs {
                    new.push((*n, self.x(x, f)?));
                }
                let v = self.x(y, f)?;
                let V::Data(mut d) = v else { return Err("update of a non-datatype".into()) };
                for (n, x) in new {
                    let Some(i) = d.ctor.fields.iter().position(|y| *y == n) else { return Err(format!("no field {} in {}", name(n), name(d.ctor.name))) };
                    own(&mut d).f[i] = x;
                }
                let g = d.f.iter().all(|x| !x.has_lvar());
                own(&mut d).ground = g;
                Ok(V::Data(d))
            }
            X::Seq(v) => Ok(V::seq(self.xs(v, f)?)),
            X::Set(v) => Ok(V::set(self.xs(v, f)?)),
            X::MSet(v) => {
                let mut m: BTreeMap<V, i128> = BTreeMap::new();
                for x in self.xs(v, f)? {
                    *m.entry(x).or_insert(0) += 1;
                }
                Ok(V::MSet(Rc::new(m)))
            }
            X::Map(v) => {
                let mut m = BTreeMap::new();
                for (k, x) in v {
                    let k = self.x(k, f)?;
                    let x = self.x(x, f)?;
                    m.insert(k, x);
                }
                Ok(V::Map(Rc::new(m)))
            }
            X::Tuple(v) => {
                let a = self.xs(v, f)?;
                Ok(V::tup(a))
            }
            X::Cast(y, w) => {
                let v = self.x(y, f)?;
                match v {
                    V::Int(i) => Ok(V::Int(match w {
                        0 | 127 => i,
                        w => i.rem_euclid(1i128 << w),
                    })),
                    V::Char(c) => Ok(V::Int(c as i128)),
                    o => Ok(o),
                }
            }
            X::Len(y) => {
                let t;
                let v = match self.peek(y, f) {
                    Some(v) => v,
                    None => {
                        t = self.x(y, f)?;
                        &t
                    }
                };
                len(v).map(V::Int)
            }
            X::SeqNew(n, g) => {
                let n = self.int(n, f)?;
                let g = self.x(g, f)?;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.apply(&g, &[V::Int(i)])?);
                }
                Ok(V::seq(v))
            }
            X::MSetOf(y) => {
                let v = self.x(y, f)?;
                let mut m: BTreeMap<V, i128> = BTreeMap::new();
                match &v {
                    V::Seq(s) => s.iter().for_each(|x| *m.entry(x.clone()).or_insert(0) += 1),
                    V::Set(s) => s.iter().for_each(|x| *m.entry(x.clone()).or_insert(0) += 1),
                    o => return Err(format!("multiset of {}", kind(o))),
                }
                Ok(V::MSet(Rc::new(m)))
            }
            X::Slow(e, caps) => {
                let mut env = Env::empty();
                for (s, i) in caps {
                    env = env.with(*s, f[*i].clone());
                }
                self.ctx.depth = 0;
                let r = self.ctx.eval(e, &env, Fr { scope: 0, self_ty: None }).map_err(ctl)?;
                if let V::Undef = r {
                    return Err(format!("undefined value at {}", self.p.loc(e.pos)));
                }
                Ok(r)
            }
        }
    }
    pub fn apply(&mut self, g: &V, a: &[V]) -> R<V> {
        self.ctx.depth = 0;
        self.ctx.apply(g, a).map_err(ctl)
    }
    /// function member or closure-valued field
    pub fn call_member(&mut self, r: V, m: Sym, a: Vec<V>) -> R<V> {
        let p = self.p.clone();
        if let Some(t) = self.type_of(&r).filter(|t| *t < p.types.len()) {
            if let Some(fid) = p.types[t].methods.get(&m) {
                let mut v = vec![r];
                v.extend(a);
                return self.call_f(*fid, v);
            }
            if let Some(mid) = p.dafny.by_type.get(&(t, m)) {
                let mut v = vec![r];
                v.extend(a);
                let (mut o, _) = self.call_m(*mid, v)?;
                return o.pop().ok_or("method without a result in an expression".into());
            }
            let g = self.field(r, m)?;
            return self.apply(&g, &a);
        }
        if a.is_empty() && &*name(m) == "len" {
            return len(&r).map(V::Int);
        }
        Err(format!("member {} of {}", name(m), kind(&r)))
    }

    // ---------- statements ----------
    fn run(&mut self, v: &[S], f: &mut Vec<V>) -> R<()> {
        match self.ss(v, f)? {
            Flow::Break(_) => Err("stray break".into()),
            _ => Ok(()),
        }
    }
    fn set(&mut self, t: &LV, v: V, f: &mut Vec<V>) -> R<()> {
        match t {
            LV::Slot(s) => f[*s] = v,
            LV::Discard => {}
            LV::Path(s, fs) => {
                let mut root = std::mem::replace(&mut f[*s], V::Undef);
                let r = self.put(&mut root, fs, v);
                f[*s] = root;
                r?;
            }
            LV::Field(x, n) => {
                let mut r = self.x(x, f)?;
                self.put(&mut r, &[*n], v)?;
            }
            LV::Index(a, i) => {
                let a = self.x(a, f)?;
                let i = self.int(i, f)?;
                match a {
                    V::Ref(r) if r != 0 => {
                        let o = Rc::make_mut(&mut self.heap[r as usize]);
                        if i < 0 || i >= o.f.len() as i128 {
                            return Err(format!("index {} out of bounds (length {})", i, o.f.len()));
                        }
                        o.f[i as usize] = v;
                    }
                    o => return Err(format!("assignment into {}", kind(&o))),
                }
            }
        }
        Ok(())
    }
    fn put(&mut self, root: &mut V, fs: &[Sym], v: V) -> R<()> {
        let Some(n) = fs.first() else {
            *root = v;
            return Ok(());
        };
        match root {
            V::Data(d) => {
                let Some(i) = d.ctor.fields.iter().position(|y| y == n) else { return Err(format!("no field {} in {}", name(*n), name(d.ctor.name))) };
                let o = own(d);
                self.put(&mut o.f[i], &fs[1..], v)
            }
            V::Ref(r) if *r != 0 => {
                let r = *r as usize;
                let tid = self.heap[r].tid;
                let Some(i) = self.p.dafny.classes.get(&tid).and_then(|c| c.iter().position(|x| x.0 == *n)) else { return Err(format!("no field {}", name(*n))) };
                let mut x = std::mem::replace(&mut Rc::make_mut(&mut self.heap[r]).f[i], V::Undef);
                let q = self.put(&mut x, &fs[1..], v);
                Rc::make_mut(&mut self.heap[r]).f[i] = x;
                q
            }
            o => Err(format!("assignment to field {} of {}", name(*n), kind(o))),
        }
    }
    fn take(&mut self, root: &mut V, fs: &[Sym]) -> R<V> {
        let Some(n) = fs.first() else { return Ok(std::mem::replace(root, V::Undef)) };
        match root {
            V::Data(d) => {
                let Some(i) = d.ctor.fields.iter().position(|y| y == n) else { return Err(format!("no field {} in {}", name(*n), name(d.ctor.name))) };
                let o = own(d);
                self.take(&mut o.f[i], &fs[1..])
            }
            V::Ref(r) if *r != 0 => {
                let r = *r as usize;
                let tid = self.heap[r].tid;
                let Some(i) = self.p.dafny.classes.get(&tid).and_then(|c| c.iter().position(|x| x.0 == *n)) else { return Err(format!("no field {}", name(*n))) };
                let mut x = std::mem::replace(&mut Rc::make_mut(&mut self.heap[r]).f[i], V::Undef);
                let q = self.take(&mut x, &fs[1..]);
                Rc::make_mut(&mut self.heap[r]).f[i] = x;
                q
            }
            o => Err(format!("field {} of {}", name(*n), kind(o))),
        }
    }
    fn read_path(&mut self, s: usize, fs: &[Sym], f: &[V]) -> R<V> {
        let mut v = f[s].clone();
        for n in fs {
            v = self.field(v, *n)?;
        }
        Ok(v)
    }
    fn do_call(&mut self, mid: usize, recv: Option<(V, Option<(usize, Vec<Sym>)>)>, args: &[Arg], f: &mut Vec<V>) -> R<Vec<V>> {
        let c = self.mcode(mid)?;
        let mut vals = vec![];
        let mut backs: Vec<(usize, Vec<Sym>)> = vec![];
        let mut idx = 0;
        let mut io = c.inouts.iter().peekable();
        if let Some((v, path)) = recv {
            if self.p.dafny.methods[mid].self_ty.is_some() {
                vals.push(v);
                if c.self_inout {
                    backs.push(path.ok_or("receiver cannot be updated")?);
                    io.next();
                }
                idx = 1;
            }
        }
        // value arguments first
        for (i, a) in args.iter().enumerate() {
            let _ = i;
            vals.push(match a {
                Arg::X(x) => self.x(x, f)?,
                _ => V::Undef,
            });
        }
        for (i, a) in args.iter().enumerate() {
            match a {
                Arg::Inout(s, p) => {
                    let mut root = std::mem::replace(&mut f[*s], V::Undef);
                    let v = self.take(&mut root, p);
                    f[*s] = root;
                    vals[idx + i] = v?;
                    if io.peek() == Some(&&(idx + i)) {
                        io.next();
                        backs.push((*s, p.clone()));
                    } else {
                        return Err(format!("{} does not take argument {} by reference", name(c.name), i));
                    }
                }
                _ => {
                    if io.peek() == Some(&&(idx + i)) && !c.ghost_params[idx + i] {
                        return Err(format!("{} takes argument {} by reference", name(c.name), i));
                    }
                }
            }
        }
        let (outs, ios) = self.call_m(mid, vals)?;
        for ((s, p), v) in backs.into_iter().zip(ios) {
            let mut root = std::mem::replace(&mut f[s], V::Undef);
            let r = self.put(&mut root, &p, v);
            f[s] = root;
            r?;
        }
        Ok(outs)
    }
    fn ss(&mut self, v: &[S], f: &mut Vec<V>) -> R<Flow> {
        for s in v {
            match self.s(s, f)? {
                Flow::Next => {}
                o => return Ok(o),
            }
        }
        Ok(Flow::Next)
    }
    fn s(&mut self, s: &S, f: &mut Vec<V>) -> R<Flow> {
        match s {
            S::Line(p) => self.line = *p,
            S::Assign(v) => {
                if v.len() == 1 {
                    let x = self.x(&v[0].1, f)?;
                    self.set(&v[0].0, x, f)?;
                } else {
                    let mut xs = vec![];
                    for (_, x) in v {
                        xs.push(self.x(x, f)?);
                    }
                    for ((t, _), x) in v.iter().zip(xs) {
                        self.set(t, x, f)?;
                    }
                }
            }
            S::Call(c, r, a, outs) => {
                self.step()?;
                let line = self.line;
                let res = match c {
                    Callee::Mid(m) => self.do_call(*m, None, a, f)?,
                    Callee::Dyn(n) => {
                        let (v, path) = match r {
                            Recv::Path(s, p) => (self.read_path(*s, p, f)?, Some((*s, p.clone()))),
                            Recv::X(x) => (self.x(x, f)?, None),
                            Recv::None => unreachable!(),
                        };
                        let p = self.p.clone();
                        let t = self.type_of(&v).ok_or_else(|| format!("method {} of {}", name(*n), kind(&v)))?;
                        if let Some(mid) = p.dafny.by_type.get(&(t, *n)) {
                            if p.dafny.methods[*mid].lemma {
                                return Ok(Flow::Next);
                            }
                            let c = self.mcode(*mid)?;
                            if c.self_inout {
                                drop(v);
                                let (s, fs) = path.clone().ok_or("receiver cannot be updated")?;
                                // arguments may read the receiver: evaluate them before taking it
                                let mut vals = vec![];
                                for x in a {
                                    vals.push(match x {
                                        Arg::X(x) => Arg::X(X::Const(self.x(x, f)?)),
                                        Arg::Inout(s, p) => Arg::Inout(*s, p.clone()),
                                        Arg::Ghost => Arg::Ghost,
                                    });
                                }
                                let mut root = std::mem::replace(&mut f[s], V::Undef);
                                let me = self.take(&mut root, &fs);
                                f[s] = root;
                                self.do_call(*mid, Some((me?, path)), &vals, f)?
                            } else {
                                self.do_call(*mid, Some((v, path)), a, f)?
                            }
                        } else {
                            let mut vals = vec![];
                            for x in a {
                                vals.push(match x {
                                    Arg::X(x) => self.x(x, f)?,
                                    _ => V::Undef,
                                });
                            }
                            vec![self.call_member(v, *n, vals)?]
                        }
                    }
                };
                self.line = line;
                for (t, v) in outs.iter().zip(res) {
                    self.set(t, v, f)?;
                }
            }
            S::Bind(p, x) => {
                let v = self.x(x, f)?;
                if !fits(p, &v) {
                    return Err("pattern does not match".into());
                }
                bind(p, v, f);
            }
            S::Kill(v) => {
                for s in v {
                    f[*s] = V::Undef;
                }
            }
            S::If(c, a, b) => {
                // a guard over erased (ghost) values makes the whole statement ghost
                return match self.bool(c, f) {
                    Ok(true) => self.ss(a, f),
                    Ok(false) => self.ss(b, f),
                    Err(e) if e.contains("undefined value") => Ok(Flow::Next),
                    Err(e) => Err(e),
                };
            }
            S::While(id, c, b) => {
                while self.bool(c, f)? {
                    self.step()?;
                    match self.ss(b, f)? {
                        Flow::Next => {}
                        Flow::Break(x) if x == *id => break,
                        o => return Ok(o),
                    }
                }
            }
            S::Match(x, arms) => {
                let v = self.x(x, f)?;
                for (p, b) in arms {
                    if fits(p, &v) {
                        bind(p, v, f);
                        return self.ss(b, f);
                    }
                }
                return Err("no case matches".into());
            }
            S::Block(id, b) => match self.ss(b, f)? {
                Flow::Break(x) if x == *id => {}
                o => return Ok(o),
            },
            S::Break(id) => return Ok(Flow::Break(*id)),
            S::Return => return Ok(Flow::Return),
            S::NewArr(t, n, i) => {
                let n = self.int(n, f)?;
                let init = match i {
                    Some(x) => Some(self.x(x, f)?),
                    None => None,
                };
                let mut v = vec![];
                for k in 0..n {
                    v.push(match &init {
                        Some(V::Fun(_)) => self.apply(init.as_ref().unwrap(), &[V::Int(k)])?,
                        Some(V::Seq(s)) => s.get(k as usize).cloned().ok_or("array initialiser too short")?,
                        Some(o) => o.clone(),
                        None => V::Undef,
                    });
                }
                let r = self.alloc(usize::MAX, v);
                self.set(t, r, f)?;
            }
            S::NewObj(t, tid, mid, a) => {
                let n = self.p.dafny.classes.get(tid).map_or(0, |c| c.len());
                let r = self.alloc(*tid, vec![V::Undef; n]);
                if let Some(m) = mid {
                    self.do_call(*m, Some((r.clone(), None)), a, f)?;
                }
                self.set(t, r, f)?;
            }
            S::Fail(s) => return Err(s.clone()),
        }
        Ok(Flow::Next)
    }
}

pub fn ctl(c: Ctl) -> String {
    match c {
        Ctl::Err(s) => s,
        Ctl::Stuck(_) => "unknown value".into(),
    }
}
pub fn kind(v: &V) -> &'static str {
    match v {
        V::Undef => "an undefined value",
        V::Bool(_) => "a bool",
        V::Int(_) => "a number",
        V::Char(_) | V::Str(_) => "text",
        V::Tup(_) => "a tuple",
        V::Seq(_) => "a sequence",
        V::Set(_) => "a set",
        V::Map(_) => "a map",
        V::MSet(_) => "a multiset",
        V::Data(_) => "a datatype value",
        V::Fun(_) => "a function",
        V::Ref(0) => "null",
        V::Ref(_) => "an object",
        _ => "a value",
    }
}
pub fn len(v: &V) -> R<i128> {
    Ok(match v {
        V::Seq(s) => s.len() as i128,
        V::Set(s) => s.len() as i128,
        V::Map(m) => m.len() as i128,
        V::MSet(m) => m.values().sum(),
        V::Str(s) => s.chars().count() as i128,
        o => return Err(format!("size of {}", kind(o))),
    })
}
pub fn own(d: &mut Rc<Data>) -> &mut Data {
    if Rc::get_mut(d).is_none() {
        let c = Data { ctor: d.ctor.clone(), f: d.f.clone(), ground: d.ground, h: Default::default() };
        *d = Rc::new(c);
    }
    let x = Rc::get_mut(d).unwrap();
    x.h.set(0);
    x
}
fn fits(p: &XP, v: &V) -> bool {
    match (p, v) {
        (XP::Wild, _) | (XP::Bind(_), _) => true,
        (XP::Lit(a), b) => a == b,
        (XP::Tuple(ps), V::Tup(t)) => ps.len() == t.len() && ps.iter().zip(t.iter()).all(|(p, v)| fits(p, v)),
        (XP::Ctor(n, ps), V::Data(d)) => d.ctor.name == *n && ps.len() == d.f.len() && ps.iter().zip(d.f.iter()).all(|(p, v)| fits(p, v)),
        _ => false,
    }
}
fn bind(p: &XP, v: V, f: &mut Vec<V>) {
    match (p, v) {
        (XP::Bind(s), v) => f[*s] = v,
        (XP::Tuple(ps), V::Tup(t)) => match Rc::try_unwrap(t) {
            Ok(t) => ps.iter().zip(t).for_each(|(p, v)| bind(p, v, f)),
            Err(t) => ps.iter().zip(t.iter()).for_each(|(p, v)| bind(p, v.clone(), f)),
        },
        (XP::Ctor(_, ps), V::Data(d)) => match Rc::try_unwrap(d) {
            Ok(d) => ps.iter().zip(d.f).for_each(|(p, v)| bind(p, v, f)),
            Err(d) => ps.iter().zip(d.f.iter()).for_each(|(p, v)| if !matches!(p, XP::Wild) { bind(p, v.clone(), f) }),
        },
        _ => {}
    }
}
#[allow(unused)]
pub fn setv<I: IntoIterator<Item = V>>(i: I) -> BTreeSet<V> {
    i.into_iter().collect()
}
pub fn own_seq(s: &mut Rc<Vec<V>>) -> &mut Vec<V> {
    Rc::make_mut(s)
}
