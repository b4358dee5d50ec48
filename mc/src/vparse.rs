//! Parser for Verus source files (spec-mode items and the state_machine! DSL).
use crate::ast::*;
use crate::lex::*;
use crate::value::{name, sym, Sym};
use std::cell::Cell;
use std::rc::Rc;

pub type R<X> = Result<X, String>;

#[derive(Debug)]
pub enum UseTree {
    /// path, alias
    Single(Vec<Sym>, Sym),
    Glob(Vec<Sym>),
}
pub struct FnDecl {
    pub name: Sym,
    pub params: Vec<(Sym, Ty)>,
    pub ret: Ty,
    pub has_self: bool,
    pub recursive: bool,
    pub body: Option<EP>,
    pub mode: FnMode,
    pub pos: Pos,
    /// `when` clause of a recursive function
    pub when: Option<EP>,
    /// `recommends` clauses
    pub recommends: Vec<EP>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FnMode {
    Spec,
    Proof,
    Exec,
}
pub struct TypeDecl {
    pub name: Sym,
    pub generics: Vec<Sym>,
    /// variants: (name, positional, fields)
    pub variants: Vec<(Sym, bool, Vec<(Sym, Ty)>)>,
    pub is_struct: bool,
}
pub enum Item {
    Use(Vec<UseTree>),
    Type(TypeDecl),
    Alias(Sym, Vec<Sym>, Ty),
    Fn(FnDecl),
    /// impl target, items
    Impl(Ty, Vec<Item>),
    Trait(Sym, Vec<Item>),
    Mod(Sym, Option<Vec<Item>>),
    Machine(MachineDecl),
}
pub struct MachineDecl {
    pub name: Sym,
    pub tokenized: bool,
    pub fields: Vec<(Sym, Ty, Option<Sym>)>,
    pub trans: Vec<Trans>,
    pub items: Vec<Item>,
}

pub struct P {
    pub t: Vec<Tok>,
    pub i: usize,
    pub file: u32,
    no_struct: bool,
    pub errors: Vec<String>,
}

const STMT_KW: &[&str] = &["let", "assert", "assume", "reveal", "broadcast"];

impl P {
    pub fn new(src: &str, file: u32) -> R<P> {
        Ok(P { t: lex_verus(src)?, i: 0, file, no_struct: false, errors: vec![] })
    }
    fn pk(&self) -> &T {
        &self.t[self.i].t
    }
    fn pkn(&self, n: usize) -> &T {
        let j = (self.i + n).min(self.t.len() - 1);
        &self.t[j].t
    }
    fn pos(&self) -> Pos {
        Pos { file: self.file, line: self.t[self.i].line }
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.pk(), T::P(x) if *x == p)
    }
    fn isn(&self, n: usize, p: &str) -> bool {
        matches!(self.pkn(n), T::P(x) if *x == p)
    }
    fn is_kw(&self, k: &str) -> bool {
        matches!(self.pk(), T::Id(s) if &*name(*s) == k)
    }
    fn isn_kw(&self, n: usize, k: &str) -> bool {
        matches!(self.pkn(n), T::Id(s) if &*name(*s) == k)
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.is(p) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_kw(&mut self, k: &str) -> bool {
        if self.is_kw(k) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn err<X>(&self, m: &str) -> R<X> {
        Err(format!("line {}: {} (at {:?})", self.t[self.i].line, m, match self.pk() { T::Id(s) => name(*s).to_string(), o => format!("{:?}", o) }))
    }
    fn expect(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            self.err(&format!("expected {}", p))
        }
    }
    fn ident(&mut self) -> R<Sym> {
        match self.pk().clone() {
            T::Id(s) => {
                self.i += 1;
                Ok(s)
            }
            _ => self.err("expected identifier"),
        }
    }
    /// skip a balanced group starting at the current opening token
    fn skip_group(&mut self) -> R<()> {
        let mut d = 0i32;
        loop {
            match self.pk() {
                T::P("(") | T::P("[") | T::P("{") => d += 1,
                T::P(")") | T::P("]") | T::P("}") => d -= 1,
                T::Eof => return self.err("unbalanced"),
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return Ok(());
            }
        }
    }
    fn skip_attrs(&mut self) -> R<bool> {
        let mut ext = false;
        while self.is("#") {
            self.i += 1;
            self.eat("!");
            if self.isn(1, "]") {}
            // detect #[verifier::external_body] / #[cfg(test)]
            let s = self.i;
            self.skip_group()?;
            for k in s..self.i {
                if let T::Id(x) = self.t[k].t {
                    let n = name(x);
                    if &*n == "external" || &*n == "test" {
                        ext = true
                    }
                }
            }
        }
        Ok(ext)
    }
    fn vis(&mut self) -> R<()> {
        loop {
            if self.eat_kw("pub") {
                if self.is("(") {
                    self.skip_group()?;
                }
            } else if self.is_kw("open") || self.is_kw("closed") || self.is_kw("uninterp") {
                self.i += 1;
                if self.is("(") {
                    self.skip_group()?;
                }
            } else {
                return Ok(());
            }
        }
    }

    // ---------- types ----------
    pub fn ty(&mut self) -> R<Ty> {
        self.skip_attrs()?;
        if self.eat("&") {
            if let T::Life(_) = self.pk() {
                self.i += 1;
            }
            self.eat_kw("mut");
            return self.ty();
        }
        if self.eat("&&") {
            return self.ty();
        }
        if self.eat("*") {
            let _ = self.eat_kw("const") || self.eat_kw("mut");
            return self.ty();
        }
        if self.eat("!") {
            return Ok(Ty::Any);
        }
        if self.eat("(") {
            let mut v = vec![];
            while !self.is(")") {
                v.push(self.ty()?);
                if !self.eat(",") {
                    break;
                }
            }
            self.expect(")")?;
            if v.len() == 1 {
                return Ok(v.pop().unwrap());
            }
            return Ok(Ty::Tuple(v));
        }
        if self.eat("[") {
            let t = self.ty()?;
            if self.eat(";") {
                self.expr()?;
            }
            self.expect("]")?;
            return Ok(Ty::Named(vec![sym("Seq")], vec![t]));
        }
        let _ = self.eat_kw("dyn") || self.eat_kw("impl");
        if self.is_kw("Ghost") || self.is_kw("Tracked") {
            if self.isn(1, "<") {
                self.i += 2;
                let t = self.ty()?;
                self.close_angle()?;
                return Ok(t);
            }
        }
        if self.is("<") {
            // qualified path <T as Trait>::X
            let mut d = 0;
            loop {
                if self.is("<") {
                    d += 1
                }
                if self.is(">") {
                    d -= 1
                }
                self.i += 1;
                if d == 0 {
                    break;
                }
            }
            while self.eat("::") {
                self.ident()?;
            }
            return Ok(Ty::Any);
        }
        let mut segs = vec![self.ident()?];
        let mut args = vec![];
        loop {
            if self.is("<") {
                args = self.generic_args()?;
            } else if self.is("::") && self.isn(1, "<") {
                self.i += 1;
                args = self.generic_args()?;
            } else if self.is("::") {
                self.i += 1;
                segs.push(self.ident()?);
                args = vec![];
            } else {
                break;
            }
        }
        if self.is("(") && matches!(&*name(segs[0]), "Fn" | "FnMut" | "FnOnce" | "FnSpec" | "spec_fn" | "fn") {
            self.skip_group()?;
            if self.eat("->") {
                self.ty()?;
            }
            return Ok(Ty::Fn);
        }
        while self.eat("+") {
            if let T::Life(_) = self.pk() {
                self.i += 1;
            } else {
                self.ty()?;
            }
        }
        Ok(Ty::Named(segs, args))
    }
    fn close_angle(&mut self) -> R<()> {
        // tokens like ">=" / ">>=" could appear glued
        match self.pk() {
            T::P(">") => {
                self.i += 1;
                Ok(())
            }
            T::P(">=") => {
                self.t[self.i].t = T::P("=");
                Ok(())
            }
            T::P(">>=") => {
                self.t[self.i].t = T::P(">=");
                Ok(())
            }
            _ => self.err("expected >"),
        }
    }
    fn generic_args(&mut self) -> R<Vec<Ty>> {
        self.expect("<")?;
        let mut v = vec![];
        while !self.is(">") {
            if let T::Life(_) = self.pk() {
                self.i += 1;
            } else if let T::Int(_) = self.pk() {
                self.i += 1;
                v.push(Ty::Any);
            } else if self.is("{") {
                self.skip_group()?;
                v.push(Ty::Any);
            } else {
                let t = self.ty()?;
                if self.eat("=") {
                    let t2 = self.ty()?;
                    v.push(t2);
                } else {
                    v.push(t);
                }
            }
            if !self.eat(",") {
                break;
            }
        }
        self.close_angle()?;
        Ok(v)
    }
    /// `<T: Bound, const N: usize>` after item names
    fn generic_params(&mut self) -> R<Vec<Sym>> {
        let mut v = vec![];
        if !self.is("<") {
            return Ok(v);
        }
        let mut d = 0;
        let mut expect_name = true;
        loop {
            match self.pk().clone() {
                T::P("<") => d += 1,
                T::P(">") => d -= 1,
                T::P(",") if d == 1 => {
                    expect_name = true;
                    self.i += 1;
                    continue;
                }
                T::Id(s) if d == 1 && expect_name => {
                    if &*name(s) != "const" {
                        v.push(s);
                        expect_name = false;
                    }
                }
                T::Life(_) => {
                    expect_name = false;
                }
                T::Eof => return self.err("generics"),
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return Ok(v);
            }
        }
    }

    // ---------- expressions ----------
    pub fn expr(&mut self) -> R<EP> {
        let save = self.no_struct;
        self.no_struct = false;
        let r = self.expr_ns();
        self.no_struct = save;
        r
    }
    fn expr_nostruct(&mut self) -> R<EP> {
        let save = self.no_struct;
        self.no_struct = true;
        let r = self.expr_ns();
        self.no_struct = save;
        r
    }
    fn expr_ns(&mut self) -> R<EP> {
        self.skip_attrs()?;
        let pos = self.pos();
        if self.is("&&&") || self.is("|||") {
            let (tok, op) = if self.is("&&&") { ("&&&", Op::And) } else { ("|||", Op::Or) };
            let mut items = vec![];
            while self.eat(tok) {
                items.push(self.bin(0)?);
            }
            return Ok(mk(EK::Bullet(op, items), pos));
        }
        self.bin(0)
    }
    fn binop(&self) -> Option<(u8, bool, &'static str)> {
        // (precedence, right assoc, token)
        let t = match self.pk() {
            T::P(p) => *p,
            _ => return None,
        };
        Some(match t {
            "<==>" => (1, false, t),
            "==>" => (2, true, t),
            "<==" => (3, false, t),
            "||" => (4, false, t),
            "&&" => (5, false, t),
            "==" | "!=" | "===" | "!==" | "=~=" | "=~~=" | "!~=" => (6, false, t),
            "<" | "<=" | ">=" => (6, false, t),
            ">" => {
                if self.isn(1, ">") && self.t[self.i + 1].joint {
                    (10, false, ">>")
                } else {
                    (6, false, t)
                }
            }
            "|" => (7, false, t),
            "^" => (8, false, t),
            "&" => (9, false, t),
            "<<" => (10, false, t),
            "+" | "-" => (11, false, t),
            "*" | "/" | "%" => (12, false, t),
            _ => return None,
        })
    }
    fn bin(&mut self, min: u8) -> R<EP> {
        let pos = self.pos();
        let mut lhs = self.unary()?;
        loop {
            // `is`, `matches`, `has`
            if self.is_kw("is") && min <= 13 {
                self.i += 1;
                let p = self.path_noargs()?;
                lhs = mk(EK::Is(lhs, p), pos);
                continue;
            }
            if self.is("!") && self.isn_kw(1, "is") {
                self.i += 2;
                let p = self.path_noargs()?;
                lhs = mk(EK::Not(mk(EK::Is(lhs, p), pos)), pos);
                continue;
            }
            if self.is_kw("matches") && min <= 6 {
                self.i += 1;
                let p = self.pat_noor()?;
                let rest = if self.eat("==>") {
                    // x matches P ==> e : implication scope
                    let e = self.bin(2)?;
                    let neg = mk(EK::Matches(lhs.clone(), p.clone(), Some(e)), pos);
                    let m = mk(EK::Matches(lhs, p, None), pos);
                    lhs = mk(EK::Bin(Op::Imp, m, neg), pos);
                    continue;
                } else if self.eat("&&") {
                    Some(self.bin(6)?)
                } else if self.is("&&&") {
                    let mut items = vec![];
                    while self.eat("&&&") {
                        items.push(self.bin(0)?);
                    }
                    Some(mk(EK::Bullet(Op::And, items), pos))
                } else {
                    None
                };
                lhs = mk(EK::Matches(lhs, p, rest), pos);
                continue;
            }
            let Some((prec, right, tok)) = self.binop() else { break };
            if prec < min {
                break;
            }
            if tok == ">>" {
                self.i += 2;
            } else {
                self.i += 1;
            }
            if prec == 6 {
                // chained comparison
                let mut ops = vec![tok];
                let mut es = vec![lhs];
                es.push(self.bin(7)?);
                while let Some((6, _, t2)) = self.binop() {
                    self.i += 1;
                    ops.push(t2);
                    es.push(self.bin(7)?);
                }
                let mut acc: Option<EP> = None;
                for (k, o) in ops.iter().enumerate() {
                    let c = cmp(o, es[k].clone(), es[k + 1].clone(), pos);
                    acc = Some(match acc {
                        None => c,
                        Some(a) => mk(EK::Bin(Op::And, a, c), pos),
                    });
                }
                lhs = acc.unwrap();
                continue;
            }
            let rhs = self.bin(if right { prec } else { prec + 1 })?;
            lhs = match tok {
                "<==" => mk(EK::Bin(Op::Imp, rhs, lhs), pos),
                _ => {
                    let op = match tok {
                        "<==>" => Op::Iff,
                        "==>" => Op::Imp,
                        "||" => Op::Or,
                        "&&" => Op::And,
                        "|" => Op::BitOr,
                        "^" => Op::BitXor,
                        "&" => Op::BitAnd,
                        "<<" => Op::Shl,
                        ">>" => Op::Shr,
                        "+" => Op::Add,
                        "-" => Op::Sub,
                        "*" => Op::Mul,
                        "/" => Op::Div,
                        "%" => Op::Mod,
                        _ => unreachable!(),
                    };
                    mk(EK::Bin(op, lhs, rhs), pos)
                }
            };
        }
        Ok(lhs)
    }
    fn unary(&mut self) -> R<EP> {
        self.skip_attrs()?;
        let pos = self.pos();
        if self.eat("!") {
            let e = self.unary()?;
            return Ok(mk(EK::Not(e), pos));
        }
        if self.eat("-") {
            let e = self.unary()?;
            return Ok(mk(EK::Neg(e), pos));
        }
        if self.eat("*") {
            return self.unary();
        }
        if self.eat("&") || self.eat("&&") {
            self.eat_kw("mut");
            return self.unary();
        }
        let mut e = self.postfix()?;
        while self.is_kw("as") {
            self.i += 1;
            let t = self.ty_nobound()?;
            e = mk(EK::Cast(e, t), pos);
        }
        Ok(e)
    }
    fn ty_nobound(&mut self) -> R<Ty> {
        // type in cast position: `x as int < y` must not parse generics
        if let T::Id(s) = self.pk().clone() {
            let n = name(s);
            if matches!(&*n, "int" | "nat" | "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize" | "bool" | "char") {
                self.i += 1;
                return Ok(Ty::Named(vec![s], vec![]));
            }
            if !self.isn(1, "<") && !self.isn(1, "::") {
                self.i += 1;
                return Ok(Ty::Named(vec![s], vec![]));
            }
        }
        self.ty()
    }
    fn args(&mut self) -> R<Vec<EP>> {
        self.expect("(")?;
        let mut v = vec![];
        while !self.is(")") {
            v.push(self.expr()?);
            if !self.eat(",") {
                break;
            }
        }
        self.expect(")")?;
        Ok(v)
    }
    fn postfix(&mut self) -> R<EP> {
        let mut e = self.primary()?;
        loop {
            let pos = self.pos();
            if self.is(".") {
                if let T::Int(n) = self.pkn(1).clone() {
                    self.i += 2;
                    e = mk(EK::Field(e, sym(&n.to_string())), pos);
                    continue;
                }
                self.i += 1;
                let f = self.ident()?;
                let mut targs = vec![];
                if self.is("::") && self.isn(1, "<") {
                    self.i += 1;
                    targs = self.generic_args()?;
                }
                if self.is("(") {
                    let a = self.args()?;
                    e = mk(EK::Method(e, f, targs, a), pos);
                } else {
                    e = mk(EK::Field(e, f), pos);
                }
            } else if self.is("->") {
                self.i += 1;
                let f = match self.pk().clone() {
                    T::Int(n) => {
                        self.i += 1;
                        sym(&n.to_string())
                    }
                    _ => self.ident()?,
                };
                e = mk(EK::Arrow(e, f), pos);
            } else if self.is("@") {
                self.i += 1;
                e = mk(EK::View(e), pos);
            } else if self.is("[") {
                self.i += 1;
                let ix = self.expr()?;
                if self.eat("..") {
                    let hi = if self.is("]") { None } else { Some(self.expr()?) };
                    self.expect("]")?;
                    e = mk(EK::Slice(e, Some(ix), hi), pos);
                } else {
                    self.expect("]")?;
                    e = mk(EK::Index(e, ix), pos);
                }
            } else if self.is("(") {
                let a = self.args()?;
                e = mk(EK::Call(e, a), pos);
            } else if self.is("?") {
                self.i += 1;
            } else {
                return Ok(e);
            }
        }
    }
    fn path_noargs(&mut self) -> R<Path> {
        let mut segs = vec![self.ident()?];
        while self.is("::") {
            self.i += 1;
            segs.push(self.ident()?);
        }
        Ok(Path { segs, targs: vec![] })
    }
    fn path(&mut self) -> R<Path> {
        let mut p = Path { segs: vec![self.ident()?], targs: vec![] };
        while self.is("::") {
            if self.isn(1, "<") {
                self.i += 1;
                let a = self.generic_args()?;
                p.targs.push((p.segs.len() - 1, a));
            } else {
                self.i += 1;
                p.segs.push(self.ident()?);
            }
        }
        Ok(p)
    }
    fn quant_vars(&mut self) -> R<Vec<(Sym, Ty)>> {
        self.expect("|")?;
        let mut v = vec![];
        while !self.is("|") {
            let n = self.ident()?;
            let t = if self.eat(":") { self.ty()? } else { Ty::Any };
            v.push((n, t));
            if !self.eat(",") {
                break;
            }
        }
        self.expect("|")?;
        Ok(v)
    }
    fn block_group(&mut self) -> R<EP> {
        self.expect("{")?;
        let save = self.no_struct;
        self.no_struct = false;
        let e = self.block_body()?;
        self.no_struct = save;
        self.expect("}")?;
        Ok(e)
    }
    /// body of a block up to (not including) the closing brace
    pub fn block_body(&mut self) -> R<EP> {
        let pos = self.pos();
        self.skip_attrs()?;
        if self.is("}") {
            return Ok(mk(EK::Tuple(vec![]), pos));
        }
        if self.is_kw("let") {
            self.i += 1;
            let _ = self.eat_kw("ghost") || self.eat_kw("tracked");
            let p = self.pat()?;
            let t = if self.eat(":") { self.ty()? } else { Ty::Any };
            self.expect("=")?;
            let e = self.expr()?;
            self.expect(";")?;
            let b = self.block_body()?;
            return Ok(mk(EK::Let(p, t, e, b), pos));
        }
        if (self.is_kw("assert") || self.is_kw("assume")) && (self.isn(1, "(") || self.isn_kw(1, "forall")) || self.is_kw("reveal") || self.is_kw("broadcast") {
            // proof statement: skip to `;` or by-block
            loop {
                if self.eat(";") {
                    break;
                }
                if self.is("{") {
                    self.skip_group()?;
                    self.eat(";");
                    break;
                }
                if self.is("(") || self.is("[") {
                    self.skip_group()?;
                    if self.is("}") {
                        break;
                    }
                    continue;
                }
                if self.is("}") || *self.pk() == T::Eof {
                    break;
                }
                self.i += 1;
            }
            return self.block_body();
        }
        let e = self.expr()?;
        if self.eat(";") {
            // statement expression (proof call): ignore value unless last
            if self.is("}") {
                return Ok(mk(EK::Tuple(vec![]), pos));
            }
            return self.block_body();
        }
        if !self.is("}") {
            // block-like expression statement such as `if .. {}` followed by more
            return self.block_body();
        }
        Ok(e)
    }
    fn primary(&mut self) -> R<EP> {
        let pos = self.pos();
        self.skip_attrs()?;
        match self.pk().clone() {
            T::Int(n) => {
                self.i += 1;
                Ok(mk(EK::Int(n), pos))
            }
            T::Str(s) => {
                self.i += 1;
                Ok(mk(EK::Str(s), pos))
            }
            T::Char(c) => {
                self.i += 1;
                Ok(mk(EK::Char(c), pos))
            }
            T::P("(") => {
                self.i += 1;
                let mut v = vec![];
                let mut comma = false;
                let save = self.no_struct;
                self.no_struct = false;
                while !self.is(")") {
                    v.push(self.expr_ns()?);
                    if self.eat(",") {
                        comma = true;
                    } else {
                        break;
                    }
                }
                self.no_struct = save;
                self.expect(")")?;
                if v.len() == 1 && !comma {
                    return Ok(v.pop().unwrap());
                }
                Ok(mk(EK::Tuple(v), pos))
            }
            T::P("[") => {
                self.i += 1;
                let mut v = vec![];
                while !self.is("]") {
                    v.push(self.expr()?);
                    if !self.eat(",") && !self.eat(";") {
                        break;
                    }
                }
                self.expect("]")?;
                Ok(mk(EK::SeqLit(v), pos))
            }
            T::P("{") => self.block_group(),
            T::P("|") | T::P("||") => {
                let mut params = vec![];
                if !self.eat("||") {
                    self.expect("|")?;
                    while !self.is("|") {
                        self.skip_attrs()?;
                        let p = self.pat_noor()?;
                        let t = if self.eat(":") { self.ty()? } else { Ty::Any };
                        params.push((p, t));
                        if !self.eat(",") {
                            break;
                        }
                    }
                    self.expect("|")?;
                }
                if self.eat("->") {
                    if self.is("(") {
                        self.skip_group()?;
                    } else {
                        self.ty()?;
                    }
                }
                let b = self.expr_ns()?;
                Ok(mk(EK::Lambda(params, b), pos))
            }
            T::P("&&&") | T::P("|||") => self.expr_ns(),
            T::P("<") => {
                // <T as Trait>::f(..)
                let mut d = 0;
                loop {
                    if self.is("<") {
                        d += 1
                    }
                    if self.is(">") {
                        d -= 1
                    }
                    self.i += 1;
                    if d == 0 {
                        break;
                    }
                }
                self.expect("::")?;
                let p = self.path()?;
                Ok(mk(EK::Path(p), pos))
            }
            T::Id(s) => {
                let n = name(s);
                match &*n {
                    "true" | "false" => {
                        self.i += 1;
                        return Ok(mk(EK::Bool(&*n == "true"), pos));
                    }
                    "forall" | "exists" | "choose" if self.isn(1, "|") => {
                        let q = match &*n {
                            "forall" => Q::Forall,
                            "exists" => Q::Exists,
                            _ => Q::Choose,
                        };
                        self.i += 1;
                        let vs = self.quant_vars()?;
                        self.skip_attrs()?;
                        let b = self.expr_ns()?;
                        return Ok(mk(EK::Quant(q, vs, b, Cell::new(0)), pos));
                    }
                    "if" => {
                        self.i += 1;
                        if self.eat_kw("let") {
                            let p = self.pat()?;
                            self.expect("=")?;
                            let e = self.expr_nostruct()?;
                            let a = self.block_group()?;
                            let b = self.else_part()?;
                            return Ok(mk(EK::IfLet(p, e, a, b), pos));
                        }
                        let c = self.expr_nostruct()?;
                        let a = self.block_group()?;
                        let b = self.else_part()?;
                        return Ok(mk(EK::If(c, a, b), pos));
                    }
                    "match" => {
                        self.i += 1;
                        let e = self.expr_nostruct()?;
                        self.expect("{")?;
                        let mut arms = vec![];
                        while !self.is("}") {
                            self.skip_attrs()?;
                            let p = self.pat()?;
                            let g = if self.eat_kw("if") { Some(self.expr()?) } else { None };
                            self.expect("=>")?;
                            let b = self.expr()?;
                            self.eat(",");
                            arms.push((p, g, b));
                        }
                        self.expect("}")?;
                        return Ok(mk(EK::Match(e, arms), pos));
                    }
                    "let" if !self.no_struct => return self.err("unexpected let"),
                    "unsafe" | "proof" | "ghost" if self.isn(1, "{") => {
                        self.i += 1;
                        return self.block_group();
                    }
                    "return" => {
                        self.i += 1;
                        if self.is(";") || self.is("}") {
                            return Ok(mk(EK::Tuple(vec![]), pos));
                        }
                        return self.expr();
                    }
                    _ => {}
                }
                let p = self.path()?;
                // macro call
                if self.is("!") && (self.isn(1, "[") || self.isn(1, "(") || self.isn(1, "{")) && !self.isn(1, "=") {
                    let mname = name(*p.segs.last().unwrap());
                    if matches!(&*mname, "seq" | "vec" | "set" | "map" | "multiset" | "imap" | "iset") {
                        self.i += 1;
                        let close = match self.pk() {
                            T::P("[") => "]",
                            T::P("(") => ")",
                            _ => "}",
                        };
                        self.i += 1;
                        let save = self.no_struct;
                        self.no_struct = false;
                        let mut items = vec![];
                        let mut kv = vec![];
                        let mut repeat = None;
                        while !self.is(close) {
                            let e = self.expr()?;
                            if self.eat("=>") {
                                let v = self.expr()?;
                                kv.push((e, v));
                            } else if self.eat(";") {
                                repeat = Some((e, self.expr()?));
                                break;
                            } else {
                                items.push(e);
                            }
                            if !self.eat(",") {
                                break;
                            }
                        }
                        self.no_struct = save;
                        self.expect(close)?;
                        if let Some((e, n)) = repeat {
                            let lam = mk(EK::Lambda(vec![(Pat::Wild, Ty::Any)], e), pos);
                            let f = mk(EK::Path(Path { segs: vec![sym("Seq"), sym("new")], targs: vec![] }), pos);
                            return Ok(mk(EK::Call(f, vec![n, lam]), pos));
                        }
                        return Ok(match &*mname {
                            "seq" | "vec" => mk(EK::SeqLit(items), pos),
                            "set" | "iset" => mk(EK::SetLit(items), pos),
                            "multiset" => mk(EK::MSetLit(items), pos),
                            _ => mk(EK::MapLit(kv), pos),
                        });
                    }
                    self.i += 1;
                    self.skip_group()?;
                    return Ok(mk(EK::Unknown(Rc::from(format!("macro {}!", mname))), pos));
                }
                // struct literal
                if self.is("{") && !self.no_struct && self.looks_like_struct_lit(&p) {
                    return self.struct_lit(p, pos);
                }
                Ok(mk(EK::Path(p), pos))
            }
            _ => self.err("expected expression"),
        }
    }
    fn looks_like_struct_lit(&self, p: &Path) -> bool {
        let last = name(*p.segs.last().unwrap());
        if !last.chars().next().unwrap().is_uppercase() {
            return false;
        }
        self.isn(1, "}") || self.isn(1, "..") || (matches!(self.pkn(1), T::Id(_) | T::Int(_)) && (self.isn(2, ":") || self.isn(2, ",") || self.isn(2, "}")))
    }
    fn struct_lit(&mut self, p: Path, pos: Pos) -> R<EP> {
        self.expect("{")?;
        let save = self.no_struct;
        self.no_struct = false;
        let mut fs = vec![];
        let mut base = None;
        while !self.is("}") {
            if self.eat("..") {
                base = Some(self.expr()?);
                break;
            }
            let fpos = self.pos();
            let f = match self.pk().clone() {
                T::Int(n) => {
                    self.i += 1;
                    sym(&n.to_string())
                }
                _ => self.ident()?,
            };
            let e = if self.eat(":") { self.expr()? } else { mk(EK::Path(Path { segs: vec![f], targs: vec![] }), fpos) };
            fs.push((f, e));
            if !self.eat(",") {
                break;
            }
        }
        self.no_struct = save;
        self.expect("}")?;
        Ok(mk(EK::Struct(p, fs, base), pos))
    }
    fn else_part(&mut self) -> R<Option<EP>> {
        if self.eat_kw("else") {
            if self.is_kw("if") {
                Ok(Some(self.primary()?))
            } else {
                Ok(Some(self.block_group()?))
            }
        } else {
            Ok(None)
        }
    }

    // ---------- patterns ----------
    pub fn pat(&mut self) -> R<Pat> {
        self.eat("|");
        let p = self.pat_noor()?;
        if self.is("|") {
            let mut v = vec![p];
            while self.eat("|") {
                v.push(self.pat_noor()?);
            }
            return Ok(Pat::Or(v));
        }
        Ok(p)
    }
    fn pat_noor(&mut self) -> R<Pat> {
        let pos = self.pos();
        if self.eat("&") {
            return self.pat_noor();
        }
        if self.eat("..") {
            return Ok(Pat::Rest);
        }
        if self.eat("(") {
            let mut v = vec![];
            let mut comma = false;
            while !self.is(")") {
                v.push(self.pat()?);
                if self.eat(",") {
                    comma = true
                } else {
                    break;
                }
            }
            self.expect(")")?;
            if v.len() == 1 && !comma {
                return Ok(v.pop().unwrap());
            }
            return Ok(Pat::Tuple(v));
        }
        match self.pk().clone() {
            T::Int(n) => {
                self.i += 1;
                return Ok(Pat::Lit(mk(EK::Int(n), pos)));
            }
            T::P("-") => {
                self.i += 1;
                if let T::Int(n) = self.pk().clone() {
                    self.i += 1;
                    return Ok(Pat::Lit(mk(EK::Int(-n), pos)));
                }
            }
            T::Id(s) if matches!(&*name(s), "true" | "false") => {
                self.i += 1;
                return Ok(Pat::Lit(mk(EK::Bool(&*name(s) == "true"), pos)));
            }
            T::Id(s) if &*name(s) == "_" => {
                self.i += 1;
                return Ok(Pat::Wild);
            }
            _ => {}
        }
        while self.eat_kw("ref") || self.eat_kw("mut") || self.eat_kw("ghost") || self.eat_kw("tracked") {}
        let p = self.path()?;
        if self.is("(") {
            self.i += 1;
            let mut v = vec![];
            while !self.is(")") {
                v.push(self.pat()?);
                if !self.eat(",") {
                    break;
                }
            }
            self.expect(")")?;
            return Ok(Pat::TupleCtor(p, v, Rc::default()));
        }
        if self.is("{") {
            self.i += 1;
            let mut v = vec![];
            while !self.is("}") {
                if self.eat("..") {
                    break;
                }
                while self.eat_kw("ref") || self.eat_kw("mut") || self.eat_kw("ghost") || self.eat_kw("tracked") {}
                let f = match self.pk().clone() {
                    T::Int(n) => {
                        self.i += 1;
                        sym(&n.to_string())
                    }
                    _ => self.ident()?,
                };
                let fp = if self.eat(":") { self.pat()? } else { Pat::Bind(f) };
                v.push((f, fp));
                if !self.eat(",") {
                    break;
                }
            }
            self.expect("}")?;
            return Ok(Pat::StructCtor(p, v, Rc::default()));
        }
        if p.segs.len() == 1 {
            let n = name(p.segs[0]);
            if n.chars().next().unwrap().is_lowercase() || n.starts_with('_') {
                return Ok(Pat::Bind(p.segs[0]));
            }
        }
        Ok(Pat::PathOrBind(p, Rc::default()))
    }

    // ---------- items ----------
    pub fn items(&mut self, end: Option<&str>) -> Vec<Item> {
        let mut out = vec![];
        loop {
            if *self.pk() == T::Eof {
                break;
            }
            if let Some(e) = end {
                if self.is(e) {
                    break;
                }
            }
            let start = self.i;
            match self.item(&mut out) {
                Ok(()) => {}
                Err(m) => {
                    self.errors.push(m);
                    self.resync(start);
                }
            }
            if self.i == start {
                self.i += 1;
            }
        }
        out
    }
    /// skip to something that looks like the start of the next item
    fn resync(&mut self, start: usize) {
        self.i = start;
        // skip attributes + tokens until the next '}' at depth 0 that closes a block, or ';'
        let mut d = 0i32;
        loop {
            match self.pk() {
                T::Eof => return,
                T::P("{") | T::P("(") | T::P("[") => d += 1,
                T::P(")") | T::P("]") => d -= 1,
                T::P("}") => {
                    if d == 0 {
                        return;
                    }
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        // is the next token an item start?
                        if self.item_start() || self.is("}") {
                            return;
                        }
                        continue;
                    }
                }
                T::P(";") if d == 0 => {
                    self.i += 1;
                    return;
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn item_start(&self) -> bool {
        match self.pk() {
            T::P("#") => true,
            T::Eof => true,
            T::Id(s) => matches!(&*name(*s), "pub" | "fn" | "proof" | "spec" | "open" | "closed" | "struct" | "enum" | "impl" | "type" | "trait" | "use" | "mod" | "broadcast" | "exec" | "const" | "state_machine" | "transition" | "init" | "broadcast_use"),
            _ => false,
        }
    }
    fn use_tree(&mut self, prefix: &[Sym], out: &mut Vec<UseTree>) -> R<()> {
        let mut p = prefix.to_vec();
        loop {
            if self.eat("*") {
                out.push(UseTree::Glob(p));
                return Ok(());
            }
            if self.eat("{") {
                while !self.is("}") {
                    self.use_tree(&p, out)?;
                    if !self.eat(",") {
                        break;
                    }
                }
                self.expect("}")?;
                return Ok(());
            }
            let s = self.ident()?;
            if &*name(s) == "self" && !p.is_empty() {
                let last = *p.last().unwrap();
                out.push(UseTree::Single(p, last));
                return Ok(());
            }
            p.push(s);
            if self.eat("::") {
                continue;
            }
            let alias = if self.eat_kw("as") { self.ident()? } else { s };
            out.push(UseTree::Single(p, alias));
            return Ok(());
        }
    }
    fn item(&mut self, out: &mut Vec<Item>) -> R<()> {
        let ext = self.skip_attrs()?;
        if ext {
            // external / test item: skip
            self.vis()?;
            loop {
                if self.eat(";") {
                    return Ok(());
                }
                if self.is("{") {
                    return self.skip_group();
                }
                if *self.pk() == T::Eof {
                    return Ok(());
                }
                self.i += 1;
            }
        }
        self.vis()?;
        if *self.pk() == T::Eof {
            return Ok(());
        }
        if self.eat(";") {
            return Ok(());
        }
        if self.is_kw("verus") && self.isn(1, "!") {
            self.i += 2;
            self.expect("{")?;
            let mut its = self.items(Some("}"));
            self.expect("}")?;
            out.append(&mut its);
            return Ok(());
        }
        if (self.is_kw("state_machine") || self.is_kw("tokenized_state_machine")) && self.isn(1, "!") {
            let tok = self.is_kw("tokenized_state_machine");
            self.i += 2;
            let close = if self.eat("(") {
                ")"
            } else {
                self.expect("{")?;
                "}"
            };
            let m = self.machine(tok)?;
            self.expect(close)?;
            out.push(Item::Machine(m));
            return Ok(());
        }
        if matches!(self.pk(), T::Id(_)) && self.isn(1, "!") {
            // other macros at item position
            self.i += 2;
            if matches!(self.pk(), T::Id(_)) {
                self.i += 1;
            }
            self.skip_group()?;
            self.eat(";");
            return Ok(());
        }
        if self.is_kw("use") {
            self.i += 1;
            self.eat("::");
            let mut v = vec![];
            self.use_tree(&[], &mut v)?;
            self.expect(";")?;
            out.push(Item::Use(v));
            return Ok(());
        }
        if self.is_kw("broadcast") && self.isn_kw(1, "use") {
            while !self.eat(";") {
                self.i += 1;
            }
            return Ok(());
        }
        if self.is_kw("broadcast") && self.isn_kw(1, "group") {
            while !self.is("{") {
                self.i += 1;
            }
            return self.skip_group();
        }
        if self.is_kw("extern") {
            while !self.eat(";") {
                self.i += 1;
            }
            return Ok(());
        }
        if self.is_kw("mod") {
            self.i += 1;
            let n = self.ident()?;
            if self.eat(";") {
                out.push(Item::Mod(n, None));
            } else {
                self.expect("{")?;
                let its = self.items(Some("}"));
                self.expect("}")?;
                out.push(Item::Mod(n, Some(its)));
            }
            return Ok(());
        }
        if self.is_kw("type") {
            self.i += 1;
            let n = self.ident()?;
            let g = self.generic_params()?;
            if self.eat(":") {
                self.ty()?;
            }
            if self.eat(";") {
                return Ok(());
            }
            self.expect("=")?;
            let t = self.ty()?;
            self.expect(";")?;
            out.push(Item::Alias(n, g, t));
            return Ok(());
        }
        let _ = (self.is_kw("ghost") || self.is_kw("tracked")) && {
            self.i += 1;
            true
        };
        if self.is_kw("struct") {
            self.i += 1;
            let n = self.ident()?;
            let g = self.generic_params()?;
            self.where_clause()?;
            let (positional, fs) = self.fields_decl()?;
            self.where_clause()?;
            self.eat(";");
            out.push(Item::Type(TypeDecl { name: n, generics: g, variants: vec![(n, positional, fs)], is_struct: true }));
            return Ok(());
        }
        if self.is_kw("enum") {
            self.i += 1;
            let n = self.ident()?;
            let g = self.generic_params()?;
            self.where_clause()?;
            self.expect("{")?;
            let mut vs = vec![];
            while !self.is("}") {
                self.skip_attrs()?;
                let vn = self.ident()?;
                let (positional, fs) = if self.is("{") || self.is("(") { self.fields_decl()? } else { (false, vec![]) };
                if self.eat("=") {
                    self.expr()?;
                }
                vs.push((vn, positional, fs));
                if !self.eat(",") {
                    break;
                }
            }
            self.expect("}")?;
            out.push(Item::Type(TypeDecl { name: n, generics: g, variants: vs, is_struct: false }));
            return Ok(());
        }
        if self.is_kw("impl") || (self.is_kw("unsafe") && self.isn_kw(1, "impl")) {
            self.eat_kw("unsafe");
            self.i += 1;
            self.generic_params()?;
            let mut t = self.ty()?;
            if self.eat_kw("for") {
                t = self.ty()?;
            }
            self.where_clause()?;
            self.expect("{")?;
            let its = self.items(Some("}"));
            self.expect("}")?;
            out.push(Item::Impl(t, its));
            return Ok(());
        }
        if self.is_kw("trait") || (self.is_kw("unsafe") && self.isn_kw(1, "trait")) {
            self.eat_kw("unsafe");
            self.i += 1;
            let n = self.ident()?;
            self.generic_params()?;
            if self.eat(":") {
                self.ty()?;
            }
            self.where_clause()?;
            self.expect("{")?;
            let its = self.items(Some("}"));
            self.expect("}")?;
            out.push(Item::Trait(n, its));
            return Ok(());
        }
        // functions and consts
        let mut mode = FnMode::Exec;
        loop {
            if self.is_kw("spec") {
                mode = FnMode::Spec;
                self.i += 1;
                if self.is("(") {
                    self.skip_group()?;
                }
            } else if self.is_kw("proof") || self.is_kw("axiom") {
                mode = FnMode::Proof;
                self.i += 1;
            } else if self.is_kw("exec") || self.is_kw("broadcast") || self.is_kw("unsafe") || self.is_kw("tracked") {
                self.i += 1;
            } else if self.is_kw("pub") || self.is_kw("open") || self.is_kw("closed") {
                self.vis()?;
            } else if self.is_kw("const") && self.isn_kw(1, "fn") {
                self.i += 1;
            } else {
                break;
            }
        }
        if self.is_kw("const") || self.is_kw("static") {
            self.i += 1;
            let pos = self.pos();
            let n = self.ident()?;
            self.expect(":")?;
            let t = self.ty()?;
            let mut body = None;
            if self.eat("=") {
                body = Some(self.expr()?);
            }
            if !self.eat(";") && self.is("{") {
                self.skip_group()?;
            }
            out.push(Item::Fn(FnDecl { name: n, params: vec![], ret: t, has_self: false, recursive: false, body, mode: FnMode::Spec, pos, when: None, recommends: vec![] }));
            return Ok(());
        }
        if self.is_kw("fn") {
            let f = self.func(mode)?;
            out.push(Item::Fn(f));
            return Ok(());
        }
        self.err("unknown item")
    }
    fn where_clause(&mut self) -> R<()> {
        if self.eat_kw("where") {
            while !self.is("{") && !self.is(";") {
                if self.is("<") {
                    self.generic_params()?;
                } else {
                    self.i += 1;
                }
            }
        }
        Ok(())
    }
    fn fields_decl(&mut self) -> R<(bool, Vec<(Sym, Ty)>)> {
        let mut fs = vec![];
        if self.eat(";") {
            return Ok((false, fs));
        }
        if self.eat("(") {
            let mut k = 0;
            while !self.is(")") {
                self.skip_attrs()?;
                self.vis()?;
                let t = self.ty()?;
                fs.push((sym(&k.to_string()), t));
                k += 1;
                if !self.eat(",") {
                    break;
                }
            }
            self.expect(")")?;
            return Ok((true, fs));
        }
        self.expect("{")?;
        while !self.is("}") {
            self.skip_attrs()?;
            self.vis()?;
            let _ = (self.is_kw("ghost") || self.is_kw("tracked")) && !self.isn(1, ":") && {
                self.i += 1;
                true
            };
            let n = self.ident()?;
            self.expect(":")?;
            let t = self.ty()?;
            fs.push((n, t));
            if !self.eat(",") {
                break;
            }
        }
        self.expect("}")?;
        Ok((false, fs))
    }
    fn clause_kw(&self) -> bool {
        match self.pk() {
            T::Id(s) => matches!(&*name(*s), "requires" | "recommends" | "ensures" | "decreases" | "returns" | "opens_invariants" | "no_unwind" | "when" | "via" | "by" | "where" | "default_ensures"),
            _ => false,
        }
    }
    fn func(&mut self, mode: FnMode) -> R<FnDecl> {
        let pos = self.pos();
        self.i += 1; // fn
        let nm = self.ident()?;
        self.generic_params()?;
        self.expect("(")?;
        let mut params = vec![];
        let mut has_self = false;
        while !self.is(")") {
            self.skip_attrs()?;
            let _ = (self.is_kw("tracked") || self.is_kw("ghost")) && {
                self.i += 1;
                true
            };
            let save = self.i;
            while self.eat("&") || self.eat_kw("mut") || matches!(self.pk(), T::Life(_)) {
                if matches!(self.pk(), T::Life(_)) {
                    self.i += 1;
                }
            }
            if self.is_kw("self") {
                self.i += 1;
                has_self = true;
                if self.eat(":") {
                    self.ty()?;
                }
            } else {
                self.i = save;
                let p = self.pat()?;
                self.expect(":")?;
                let t = self.ty()?;
                let n = match p {
                    Pat::Bind(s) => s,
                    Pat::TupleCtor(_, v, _) if v.len() == 1 => match &v[0] {
                        Pat::Bind(s) => *s,
                        _ => sym("_"),
                    },
                    Pat::PathOrBind(p, _) => *p.segs.last().unwrap(),
                    _ => sym("_"),
                };
                params.push((n, t));
            }
            if !self.eat(",") {
                break;
            }
        }
        self.expect(")")?;
        let mut ret = Ty::Any;
        if self.eat("->") {
            let _ = self.eat_kw("tracked");
            if self.is("(") && matches!(self.pkn(1), T::Id(_)) && (self.isn(2, ":") || (self.isn_kw(1, "tracked"))) {
                self.i += 1;
                let _ = self.eat_kw("tracked");
                self.ident()?;
                self.expect(":")?;
                ret = self.ty()?;
                self.expect(")")?;
            } else {
                ret = self.ty()?;
            }
        }
        self.where_clause_fn()?;
        let mut recursive = false;
        let mut when = None;
        let mut recommends = vec![];
        while self.clause_kw() {
            let k = self.ident()?;
            let kn = name(k);
            match &*kn {
                "decreases" => recursive = true,
                "no_unwind" => continue,
                "via" => {
                    self.path()?;
                    continue;
                }
                "when" => {
                    when = Some(self.expr_nostruct()?);
                    continue;
                }
                "opens_invariants" => {
                    if self.eat_kw("none") || self.eat_kw("any") {
                        continue;
                    }
                }
                _ => {}
            }
            while !self.is("{") && !self.is(";") && !self.clause_kw() {
                let e = self.expr_nostruct()?;
                if &*kn == "recommends" {
                    recommends.push(e);
                }
                if !self.eat(",") {
                    break;
                }
            }
        }
        let body = if self.eat(";") {
            None
        } else if mode == FnMode::Spec {
            let start = self.i;
            match self.block_group() {
                Ok(b) => Some(b),
                Err(m) => {
                    self.errors.push(format!("in spec fn {}: {}", name(nm), m));
                    self.i = start;
                    self.skip_group()?;
                    Some(mk(EK::Unknown(Rc::from(format!("unparsed body of {}: {}", name(nm), m))), pos))
                }
            }
        } else {
            if !self.is("{") {
                return self.err("expected fn body");
            }
            self.skip_group()?;
            None
        };
        Ok(FnDecl { name: nm, params, ret, has_self, recursive, body, mode, pos, when, recommends })
    }
    fn where_clause_fn(&mut self) -> R<()> {
        if self.eat_kw("where") {
            while !self.is("{") && !self.is(";") && !self.clause_kw() {
                self.i += 1;
            }
        }
        Ok(())
    }

    // ---------- state machines ----------
    fn machine(&mut self, tokenized: bool) -> R<MachineDecl> {
        let nm = self.ident()?;
        self.generic_params()?;
        self.where_clause()?;
        self.expect("{")?;
        let mut m = MachineDecl { name: nm, tokenized, fields: vec![], trans: vec![], items: vec![] };
        while !self.is("}") {
            if *self.pk() == T::Eof {
                return self.err("unterminated state machine");
            }
            if self.is_kw("fields") && self.isn(1, "{") {
                self.i += 2;
                while !self.is("}") {
                    let mut strat = None;
                    while self.is("#") {
                        // #[sharding(variable)]
                        let s = self.i;
                        self.i += 1;
                        self.eat("!");
                        self.skip_group()?;
                        for k in s..self.i {
                            if let T::Id(x) = self.t[k].t {
                                if &*name(x) == "sharding" {
                                    if let T::Id(y) = self.t[k + 2].t {
                                        strat = Some(y)
                                    }
                                }
                            }
                        }
                    }
                    self.vis()?;
                    let n = self.ident()?;
                    self.expect(":")?;
                    let t = self.ty()?;
                    m.fields.push((n, t, strat));
                    if !self.eat(",") {
                        break;
                    }
                }
                self.expect("}")?;
                continue;
            }
            let kind = if self.isn(1, "!") {
                match self.pk() {
                    T::Id(s) => match &*name(*s) {
                        "init" => Some(TKind::Init),
                        "transition" => Some(TKind::Transition),
                        "readonly" => Some(TKind::Readonly),
                        "property" => Some(TKind::Property),
                        _ => None,
                    },
                    _ => None,
                }
            } else {
                None
            };
            if let Some(kind) = kind {
                self.i += 2;
                self.expect("{")?;
                let pos = self.pos();
                let n = self.ident()?;
                self.expect("(")?;
                let mut params = vec![];
                while !self.is(")") {
                    let pn = self.ident()?;
                    self.expect(":")?;
                    let t = self.ty()?;
                    params.push((pn, t));
                    if !self.eat(",") {
                        break;
                    }
                }
                self.expect(")")?;
                self.expect("{")?;
                let body = Rc::new(self.tstmts()?);
                self.expect("}")?;
                self.expect("}")?;
                self.eat(";");
                m.trans.push(Trans { name: n, kind, params, body, scope: 0, pos });
                continue;
            }
            // attributes such as #[inductive(..)] fn ..., #[invariant] fn
            let start = self.i;
            let mut its = vec![];
            match self.item(&mut its) {
                Ok(()) => m.items.append(&mut its),
                Err(e) => {
                    self.errors.push(e);
                    self.resync(start);
                }
            }
            if self.i == start {
                self.i += 1;
            }
        }
        self.expect("}")?;
        Ok(m)
    }
    fn tstmts(&mut self) -> R<Vec<TS>> {
        let mut v = vec![];
        while !self.is("}") {
            self.skip_attrs()?;
            if self.eat(";") {
                continue;
            }
            self.eat_kw("birds_eye");
            if self.is_kw("require") {
                self.i += 1;
                if self.eat_kw("let") {
                    let p = self.pat()?;
                    self.expect("=")?;
                    let e = self.expr()?;
                    v.push(TS::RequireLet(p, e));
                } else {
                    let e = if self.is("(") { self.expr()? } else { self.expr()? };
                    v.push(TS::Require(e));
                }
                self.eat(";");
            } else if self.is_kw("let") {
                self.i += 1;
                let p = self.pat()?;
                let t = if self.eat(":") { self.ty()? } else { Ty::Any };
                self.expect("=")?;
                let e = self.expr()?;
                self.eat(";");
                v.push(TS::Let(p, t, e));
            } else if self.is_kw("update") {
                self.i += 1;
                let f = self.ident()?;
                let mut acc = vec![];
                loop {
                    if self.is(".") {
                        self.i += 1;
                        acc.push(Acc::Field(self.ident()?));
                    } else if self.is("[") {
                        self.i += 1;
                        let e = self.expr()?;
                        self.expect("]")?;
                        acc.push(Acc::Index(e));
                    } else {
                        break;
                    }
                }
                self.expect("=")?;
                let e = self.expr()?;
                self.eat(";");
                v.push(TS::Update(f, acc, e));
            } else if self.is_kw("init") {
                self.i += 1;
                let f = self.ident()?;
                self.expect("=")?;
                let e = self.expr()?;
                self.eat(";");
                v.push(TS::Init(f, e));
            } else if self.is_kw("assert") {
                self.i += 1;
                let e = self.expr()?;
                if self.eat_kw("by") {
                    self.skip_group()?;
                }
                self.eat(";");
                v.push(TS::Assert(e));
            } else if self.is_kw("if") {
                v.push(self.tif()?);
            } else if self.is_kw("match") {
                self.i += 1;
                let e = self.expr_nostruct()?;
                self.expect("{")?;
                let mut arms = vec![];
                while !self.is("}") {
                    let p = self.pat()?;
                    self.expect("=>")?;
                    self.expect("{")?;
                    let b = self.tstmts()?;
                    self.expect("}")?;
                    self.eat(",");
                    arms.push((p, Rc::new(b)));
                }
                self.expect("}")?;
                v.push(TS::Match(e, arms));
            } else if self.is_kw("add") || self.is_kw("remove") || self.is_kw("have") {
                let op = if self.is_kw("add") {
                    TokOp::Add
                } else if self.is_kw("remove") {
                    TokOp::Remove
                } else {
                    TokOp::Have
                };
                self.i += 1;
                let f = self.ident()?;
                // += / -= / >=
                self.i += 1;
                self.tok_expr(op, f, &mut v)?;
                if self.eat_kw("by") {
                    self.skip_group()?;
                }
                self.eat(";");
            } else {
                return self.err("unknown transition statement");
            }
        }
        Ok(v)
    }
    /// special-op operand: `{ e }` (set), `[k => v]` / `[k => let pat]` (map), `Some(e)`, `(e)` general
    fn tok_expr(&mut self, op: TokOp, f: Sym, v: &mut Vec<TS>) -> R<()> {
        let pos = self.pos();
        if self.is("[") {
            self.i += 1;
            let k = self.expr()?;
            self.expect("=>")?;
            if self.eat_kw("let") {
                let p = self.pat()?;
                self.expect("]")?;
                let pre = mk(EK::Path(Path { segs: vec![sym("$cur")], targs: vec![] }), pos);
                let fld = mk(EK::Field(pre, f), pos);
                let has = mk(EK::Method(fld.clone(), sym("contains_key"), vec![], vec![k.clone()]), pos);
                v.push(TS::Require(has));
                let val = mk(EK::Index(fld, k.clone()), pos);
                v.push(TS::Let(p, Ty::Any, val.clone()));
                v.push(TS::Token(op, f, mk(EK::MapLit(vec![(k, val)]), pos)));
                return Ok(());
            }
            let e = self.expr()?;
            self.expect("]")?;
            v.push(TS::Token(op, f, mk(EK::MapLit(vec![(k, e)]), pos)));
            return Ok(());
        }
        if self.is("{") {
            self.i += 1;
            let e = self.expr()?;
            self.expect("}")?;
            v.push(TS::Token(op, f, mk(EK::SetLit(vec![e]), pos)));
            return Ok(());
        }
        let e = self.expr()?;
        v.push(TS::Token(op, f, e));
        Ok(())
    }
    fn tif(&mut self) -> R<TS> {
        self.i += 1;
        let c = self.expr_nostruct()?;
        self.expect("{")?;
        let a = self.tstmts()?;
        self.expect("}")?;
        let b = if self.eat_kw("else") {
            if self.is_kw("if") {
                vec![self.tif()?]
            } else {
                self.expect("{")?;
                let b = self.tstmts()?;
                self.expect("}")?;
                b
            }
        } else {
            vec![]
        };
        Ok(TS::If(c, Rc::new(a), Rc::new(b)))
    }
}

fn cmp(o: &str, a: EP, b: EP, pos: Pos) -> EP {
    let op = match o {
        "==" | "===" | "=~=" | "=~~=" => Op::Eq,
        "!=" | "!==" | "!~=" => Op::Ne,
        "<" => Op::Lt,
        "<=" => Op::Le,
        ">" => Op::Gt,
        ">=" => Op::Ge,
        _ => unreachable!(),
    };
    mk(EK::Bin(op, a, b), pos)
}
#[allow(dead_code)]
fn _unused() -> &'static [&'static str] {
    STMT_KW
}
