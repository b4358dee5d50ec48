//! Parser for Dafny and for the repository's linear dialect of it.
use crate::ast::*;
use crate::lex::*;
use crate::value::*;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Debug)]
pub struct DModule {
    pub name: Sym,
    pub params: Vec<(Sym, MExp)>,
    pub refines: Option<MExp>,
    pub decls: Vec<Rc<DDecl>>,
    pub file: u32,
}
/// module expression: dotted path, optionally applied to arguments
#[derive(Debug, Clone)]
pub struct MExp {
    pub segs: Vec<Sym>,
    pub args: Vec<MExp>,
}
#[derive(Debug)]
pub enum DDecl {
    Import { opened: bool, alias: Sym, path: MExp },
    Module(Rc<DModule>),
    Data { name: Sym, generics: Vec<Sym>, ctors: Vec<(Sym, Vec<(Sym, Ty)>)>, ghosts: Vec<(usize, usize)>, members: Vec<Rc<DDecl>> },
    Class { name: Sym, generics: Vec<Sym>, fields: Vec<(Sym, Ty)>, ghosts: Vec<Sym>, members: Vec<Rc<DDecl>> },
    Type { name: Sym, generics: Vec<Sym>, ty: Option<Ty> },
    Const { name: Sym, ty: Ty, val: Option<EP>, pos: Pos },
    Func(DFn),
    Method(DMethod),
}
#[derive(Debug)]
pub struct DFn {
    pub name: Sym,
    pub statik: bool,
    pub generics: Vec<Sym>,
    pub params: Vec<DParam>,
    pub ret: Ty,
    pub ret_name: Option<Sym>,
    pub requires: Vec<EP>,
    pub ensures: Vec<EP>,
    pub body: Option<EP>,
    pub pos: Pos,
    pub executable: bool,
}
#[derive(Debug, Clone)]
pub struct DParam {
    pub name: Sym,
    pub ty: Ty,
    pub inout: bool,
    pub ghost: bool,
}
#[derive(Debug)]
pub struct DMethod {
    pub name: Sym,
    pub statik: bool,
    pub lemma: bool,
    pub ctor: bool,
    /// the receiver is passed by mutable reference
    pub self_inout: bool,
    pub generics: Vec<Sym>,
    pub params: Vec<DParam>,
    pub outs: Vec<DParam>,
    pub requires: Vec<EP>,
    pub ensures: Vec<EP>,
    pub body: Option<Block>,
    pub pos: Pos,
    pub is_extern: bool,
}
pub type Block = Rc<Vec<(DS, Pos)>>;
#[derive(Debug)]
pub enum DS {
    Skip,
    Expr(EP),
    Var(Vec<(Sym, Ty)>, Vec<Rhs>, bool),
    VarSuch(Vec<(Sym, Ty)>, EP, bool),
    VarPat(Pat, EP, bool),
    Assign(Vec<EP>, Vec<Rhs>, bool),
    AssignSuch(Vec<EP>, EP),
    If(EP, Block, Option<Block>),
    /// `if x :| P {..} else {..}`
    IfSuch(Vec<(Sym, Ty)>, EP, Block, Option<Block>),
    IfCase(Vec<(EP, Block)>),
    While(Option<EP>, Block, Vec<EP>),
    Match(EP, Vec<(Pat, Block)>),
    Return(Vec<Rhs>),
    Break(u32, Option<Sym>),
    Label(Sym, Box<DS>),
    Assert(EP),
    Assume(EP),
    Block(Block),
    Forall(Vec<(Sym, Ty)>, EP, Block),
    Unsupported(String),
}
#[derive(Debug, Clone)]
pub enum Rhs {
    E(EP),
    NewArr(Ty, EP, Option<EP>),
    NewObj(Ty, Option<Sym>, Option<Vec<EP>>),
    Havoc,
}

pub struct DP {
    t: Vec<Tok>,
    i: usize,
    file: u32,
    pub errors: Vec<String>,
    pub includes: Vec<String>,
    no_lambda: bool,
    /// nesting depth of argument lists (where `x requires p => e` is a function value)
    in_call: u32,
    /// `lemma(); e` is allowed here
    lemma_ok: bool,
    /// inside `| .. |`
    in_card: bool,
    fresh: u32,
}
type R<T> = Result<T, String>;

const MODS: &[&str] = &["linear", "glinear", "shared", "gshared", "ghost"];

fn any() -> Ty {
    Ty::Any
}

impl DP {
    pub fn new(src: &str, file: u32) -> R<DP> {
        Ok(DP { t: lex_dafny(src)?, i: 0, file, errors: vec![], includes: vec![], no_lambda: false, in_call: 0, lemma_ok: true, in_card: false, fresh: 0 })
    }
    fn cur(&self) -> &T {
        &self.t[self.i].t
    }
    fn at(&self, k: usize) -> &T {
        let j = (self.i + k).min(self.t.len() - 1);
        &self.t[j].t
    }
    fn adv(&mut self) {
        if self.i + 1 < self.t.len() {
            self.i += 1
        }
    }
    fn pos(&self) -> Pos {
        Pos { file: self.file, line: self.t[self.i].line }
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.cur(), T::P(x) if *x == p)
    }
    fn is_at(&self, k: usize, p: &str) -> bool {
        matches!(self.at(k), T::P(x) if *x == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.is(p) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn err<X>(&self, m: &str) -> R<X> {
        Err(format!("line {}: {} (at {:?})", self.t[self.i].line, m, match self.cur() { T::Id(s) => name(*s).to_string(), o => format!("{:?}", o) }))
    }
    fn want(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            self.err(&format!("expected `{}`", p))
        }
    }
    fn kw(&self, k: &str) -> bool {
        matches!(self.cur(), T::Id(s) if &*name(*s) == k)
    }
    fn kw_at(&self, n: usize, k: &str) -> bool {
        matches!(self.at(n), T::Id(s) if &*name(*s) == k)
    }
    fn eat_kw(&mut self, k: &str) -> bool {
        if self.kw(k) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn id(&mut self) -> R<Sym> {
        match self.cur() {
            T::Id(s) => {
                let s = *s;
                self.adv();
                Ok(s)
            }
            T::Int(n) => {
                let s = sym(&n.to_string());
                self.adv();
                Ok(s)
            }
            _ => self.err("expected identifier"),
        }
    }
    fn peek_id(&self) -> Option<Rc<str>> {
        match self.cur() {
            T::Id(s) => Some(name(*s)),
            _ => None,
        }
    }
    fn attrs(&mut self) -> bool {
        let mut ext = false;
        while self.is("{") && self.is_at(1, ":") {
            if self.kw_at(2, "extern") {
                ext = true;
            }
            self.skip_balanced();
        }
        ext
    }
    /// skip a bracketed group starting at the current token
    fn skip_balanced(&mut self) {
        let mut d = 0i32;
        loop {
            match self.cur() {
                T::P("{") | T::P("(") | T::P("[") => d += 1,
                T::P("}") | T::P(")") | T::P("]") => d -= 1,
                T::Eof => return,
                _ => {}
            }
            self.adv();
            if d == 0 {
                return;
            }
        }
    }
    fn modifiers(&mut self) -> (bool, bool, bool) {
        // (linear-ish, inout, ghost)
        let (mut l, mut io, mut g) = (false, false, false);
        loop {
            match self.peek_id().as_deref() {
                Some("inout") => {
                    io = true;
                }
                Some(x) if MODS.contains(&x) && !matches!(self.at(1), T::P(":") | T::P(",") | T::P(")") | T::P(".") | T::P(":=")) => {
                    if x == "ghost" || x == "glinear" || x == "gshared" {
                        g = true;
                    }
                    l = true;
                }
                _ => return (l, io, g),
            }
            self.adv();
        }
    }

    // ---------- types ----------
    pub fn ty(&mut self) -> R<Ty> {
        let t = self.ty1()?;
        if self.is("->") || (self.is("~") && self.is_at(1, ">")) || (self.is("-") && self.is_at(1, "->")) {
            if !self.eat("->") {
                self.adv();
                self.adv();
            }
            self.ty()?;
            return Ok(Ty::Fn);
        }
        Ok(t)
    }
    fn ty1(&mut self) -> R<Ty> {
        self.modifiers();
        if self.eat("(") {
            let mut v = vec![];
            while !self.is(")") {
                self.modifiers();
                v.push(self.ty()?);
                if !self.eat(",") {
                    break;
                }
            }
            self.want(")")?;
            if v.len() == 1 {
                return Ok(v.pop().unwrap());
            }
            return Ok(Ty::Tuple(v));
        }
        let mut segs = vec![self.id()?];
        let mut args = vec![];
        loop {
            if self.is("<") {
                args = self.targs()?;
            }
            if self.is(".") && matches!(self.at(1), T::Id(_)) {
                self.adv();
                segs.push(self.id()?);
            } else {
                break;
            }
        }
        let n = name(segs[0]);
        if segs.len() == 1 {
            let b = match &*n {
                "seq" => "Seq",
                "set" | "iset" => "Set",
                "map" | "imap" => "Map",
                "multiset" => "Multiset",
                _ => "",
            };
            if !b.is_empty() {
                segs[0] = sym(b);
            }
        }
        // nullable types: C? / array?
        let last = name(*segs.last().unwrap());
        if let Some(x) = last.strip_suffix('?') {
            let l = segs.len();
            segs[l - 1] = sym(x);
        }
        Ok(Ty::Named(segs, args))
    }
    /// the type of a cast: `x as int < y` must not read `<` as type arguments
    fn ty_cast(&mut self) -> R<Ty> {
        let mut segs = vec![self.id()?];
        while self.is(".") && matches!(self.at(1), T::Id(_)) {
            self.adv();
            segs.push(self.id()?);
        }
        if self.is("<") && matches!(&*name(segs[0]), "seq" | "set" | "map" | "iset" | "imap" | "multiset") {
            self.targs()?;
        }
        Ok(Ty::Named(segs, vec![]))
    }
    fn targs(&mut self) -> R<Vec<Ty>> {
        self.want("<")?;
        let mut v = vec![];
        loop {
            self.modifiers();
            v.push(self.ty()?);
            if !self.eat(",") {
                break;
            }
        }
        self.want(">")?;
        Ok(v)
    }
    fn generics(&mut self) -> R<Vec<Sym>> {
        let mut v = vec![];
        if self.eat("<") {
            while !self.is(">") {
                self.eat("+");
                self.eat("-");
                self.eat("*");
                self.eat("!");
                self.modifiers();
                v.push(self.id()?);
                if self.is("(") {
                    self.skip_balanced();
                }
                if !self.eat(",") {
                    break;
                }
            }
            self.want(">")?;
        }
        Ok(v)
    }
    fn params(&mut self) -> R<Vec<DParam>> {
        self.want("(")?;
        let mut v = vec![];
        while !self.is(")") {
            let (_, inout, ghost) = self.modifiers();
            self.eat_kw("new");
            self.eat_kw("nameonly");
            let n = self.id()?;
            let ty = if self.eat(":") { self.ty()? } else { any() };
            v.push(DParam { name: n, ty, inout, ghost });
            if !self.eat(",") {
                break;
            }
        }
        self.want(")")?;
        Ok(v)
    }
    fn mexp(&mut self) -> R<MExp> {
        let mut segs = vec![self.id()?];
        while self.is(".") && matches!(self.at(1), T::Id(_)) {
            self.adv();
            segs.push(self.id()?);
        }
        let mut args = vec![];
        if self.eat("(") {
            while !self.is(")") {
                args.push(self.mexp()?);
                if !self.eat(",") {
                    break;
                }
            }
            self.want(")")?;
            // a member of an applied functor: F(A).x — the member is kept as an extra segment
            while self.is(".") && matches!(self.at(1), T::Id(_)) {
                return self.err("member of applied module");
            }
        }
        if self.eat("`") {
            self.id()?;
        }
        Ok(MExp { segs, args })
    }

    // ---------- declarations ----------
    pub fn file_decls(&mut self) -> Vec<Rc<DDecl>> {
        let mut out = vec![];
        while !matches!(self.cur(), T::Eof) {
            if self.eat_kw("include") {
                if let T::Str(s) = self.cur().clone() {
                    self.includes.push(s.to_string());
                }
                self.adv();
                continue;
            }
            self.decl_into(&mut out, false);
        }
        out
    }
    /// parse one declaration with recovery
    fn decl_into(&mut self, out: &mut Vec<Rc<DDecl>>, in_type: bool) {
        let start = self.i;
        match self.decl(in_type) {
            Ok(Some(d)) => out.push(Rc::new(d)),
            Ok(None) => {}
            Err(e) => {
                self.errors.push(e);
                // recovery: skip the rest of this declaration
                if self.i == start {
                    self.adv();
                }
                self.recover();
            }
        }
    }
    fn recover(&mut self) {
        // find the next declaration keyword at bracket depth 0 (relative)
        let mut d = 0i32;
        loop {
            match self.cur() {
                T::Eof => return,
                T::P("{") | T::P("(") | T::P("[") => d += 1,
                T::P("}") if d == 0 => return,
                T::P("}") | T::P(")") | T::P("]") => d -= 1,
                T::Id(s) if d <= 0 => {
                    if matches!(
                        &*name(*s),
                        "function" | "predicate" | "method" | "lemma" | "datatype" | "type" | "newtype" | "const" | "import" | "module" | "class" | "export" | "abstract" | "include" | "static" | "linear" | "shared" | "constructor" | "ghost"
                    ) {
                        return;
                    }
                }
                _ => {}
            }
            self.adv();
        }
    }
    fn decl(&mut self, in_type: bool) -> R<Option<DDecl>> {
        let mut statik = false;
        let mut self_inout = false;
        let mut ext = self.attrs();
        let pos = self.pos();
        loop {
            match self.peek_id().as_deref() {
                Some("static") => statik = true,
                Some("abstract") | Some("protected") | Some("inductive") | Some("twostate") | Some("unbound") | Some("least") | Some("greatest") => {}
                Some("inout") => self_inout = true,
                Some("ghost") | Some("linear") | Some("shared") | Some("glinear") | Some("gshared") => {}
                _ => break,
            }
            self.adv();
            ext |= self.attrs();
        }
        let Some(k) = self.peek_id() else { return self.err("expected declaration") };
        match &*k {
            "import" => {
                self.adv();
                let opened = self.eat_kw("opened");
                let first = self.mexp()?;
                if self.eat("=") || self.eat(":") {
                    let p = self.mexp()?;
                    if self.eat_kw("default") {
                        self.id()?;
                    }
                    return Ok(Some(DDecl::Import { opened, alias: first.segs[0], path: p }));
                }
                if self.eat_kw("as") {
                    let p = self.mexp()?;
                    if self.eat_kw("default") {
                        self.mexp()?;
                    }
                    return Ok(Some(DDecl::Import { opened, alias: first.segs[0], path: p }));
                }
                Ok(Some(DDecl::Import { opened, alias: *first.segs.last().unwrap(), path: first }))
            }
            "export" => {
                self.adv();
                if !matches!(self.peek_id().as_deref(), Some("provides") | Some("reveals") | Some("extends")) {
                    if let T::Id(_) = self.cur() {
                        self.adv();
                    }
                }
                while matches!(self.peek_id().as_deref(), Some("provides") | Some("reveals") | Some("extends")) {
                    self.adv();
                    if self.eat("*") {
                        continue;
                    }
                    loop {
                        self.id()?;
                        while self.eat(".") {
                            self.id()?;
                        }
                        if !self.eat(",") {
                            break;
                        }
                    }
                }
                Ok(None)
            }
            "module" => {
                self.adv();
                self.attrs();
                let n = self.id()?;
                let mut params = vec![];
                if self.eat("(") {
                    while !self.is(")") {
                        let p = self.id()?;
                        self.want(":")?;
                        params.push((p, self.mexp()?));
                        if !self.eat(",") {
                            break;
                        }
                    }
                    self.want(")")?;
                }
                let refines = if self.eat_kw("refines") { Some(self.mexp()?) } else { None };
                self.want("{")?;
                let mut decls = vec![];
                while !self.is("}") {
                    if matches!(self.cur(), T::Eof) {
                        return self.err("unclosed module");
                    }
                    self.decl_into(&mut decls, false);
                }
                self.adv();
                Ok(Some(DDecl::Module(Rc::new(DModule { name: n, params, refines, decls, file: self.file }))))
            }
            "datatype" | "codatatype" => {
                self.adv();
                self.attrs();
                let n = self.id()?;
                if self.is("(") {
                    self.skip_balanced();
                }
                let generics = self.generics()?;
                self.want("=")?;
                let mut ctors = vec![];
                let mut ghosts = vec![];
                self.eat("|");
                loop {
                    self.attrs();
                    let c = self.id()?;
                    let mut fs = vec![];
                    if self.eat("(") {
                        while !self.is(")") {
                            if self.modifiers().2 {
                                ghosts.push((ctors.len(), fs.len()));
                            }
                            // name: ty  |  ty
                            let named = matches!(self.cur(), T::Id(_) | T::Int(_)) && self.is_at(1, ":");
                            let fname = if named {
                                let f = self.id()?;
                                self.adv();
                                f
                            } else {
                                sym(&format!("_{}", fs.len()))
                            };
                            fs.push((fname, self.ty()?));
                            if !self.eat(",") {
                                break;
                            }
                        }
                        self.want(")")?;
                    }
                    ctors.push((c, fs));
                    if !self.eat("|") {
                        break;
                    }
                }
                self.eat(";");
                let members = self.members()?.1;
                Ok(Some(DDecl::Data { name: n, generics, ctors, ghosts, members }))
            }
            "class" | "trait" => {
                self.adv();
                self.attrs();
                let n = self.id()?;
                let generics = self.generics()?;
                if self.eat_kw("extends") {
                    loop {
                        self.ty()?;
                        if !self.eat(",") {
                            break;
                        }
                    }
                }
                let (fields, members, ghosts) = self.members()?;
                Ok(Some(DDecl::Class { name: n, generics, fields, ghosts, members }))
            }
            "type" => {
                self.adv();
                self.attrs();
                let n = self.id()?;
                if self.is("(") {
                    self.skip_balanced();
                }
                let generics = self.generics()?;
                let mut ty = None;
                if self.eat("=") {
                    if matches!(self.cur(), T::Id(_)) && (self.is_at(1, ":") || self.is_at(1, "|")) {
                        self.id()?;
                        ty = Some(if self.eat(":") { self.ty()? } else { any() });
                        if self.eat("|") {
                            self.expr()?;
                        }
                        if self.eat_kw("witness") || (self.kw("ghost") && self.kw_at(1, "witness") && { self.adv(); self.adv(); true }) {
                            self.expr()?;
                        }
                    } else {
                        ty = Some(self.ty()?);
                    }
                }
                self.eat(";");
                self.members()?;
                Ok(Some(DDecl::Type { name: n, generics, ty }))
            }
            "newtype" => {
                self.adv();
                self.attrs();
                let n = self.id()?;
                self.want("=")?;
                let mut ty = Ty::Named(vec![sym("int")], vec![]);
                if matches!(self.cur(), T::Id(_)) && (self.is_at(1, ":") || self.is_at(1, "|")) {
                    self.id()?;
                    if self.eat(":") {
                        ty = self.ty()?;
                    }
                    if self.eat("|") {
                        self.expr()?;
                    }
                    if self.eat_kw("witness") {
                        self.expr()?;
                    }
                } else {
                    ty = self.ty()?;
                }
                let b = match &*name(n) {
                    "uint64" => "u64",
                    "uint32" => "u32",
                    "uint16" => "u16",
                    "uint8" | "byte" => "u8",
                    _ => "",
                };
                if !b.is_empty() {
                    ty = Ty::Named(vec![sym(b)], vec![]);
                }
                self.eat(";");
                self.members()?;
                Ok(Some(DDecl::Type { name: n, generics: vec![], ty: Some(ty) }))
            }
            "const" => {
                self.adv();
                self.attrs();
                let n = self.id()?;
                let ty = if self.eat(":") { self.ty()? } else { any() };
                let val = if self.eat(":=") { Some(self.expr()?) } else { None };
                self.eat(";");
                Ok(Some(DDecl::Const { name: n, ty, val, pos }))
            }
            "var" if in_type => self.err("field"),
            "function" | "predicate" | "copredicate" => {
                let pred = &*k != "function";
                self.adv();
                ext |= self.attrs();
                let executable = self.eat_kw("method");
                ext |= self.attrs();
                let _ = ext;
                let mut n = self.id()?;
                if self.is("[") {
                    self.skip_balanced();
                }
                if &*name(n) == "operator" && self.is("(") {
                    n = sym(if self.is_at(1, "|") { "operator_len" } else if self.is_at(1, "[") { "operator_index" } else { "operator_in" });
                    self.skip_balanced();
                }
                let generics = self.generics()?;
                let params = self.params()?;
                let (mut ret, mut ret_name) = (Ty::Named(vec![sym("bool")], vec![]), None);
                if self.eat(":") {
                    self.modifiers();
                    // (name: T) or a type
                    if self.is("(") {
                        let save = self.i;
                        self.adv();
                        self.modifiers();
                        if matches!(self.cur(), T::Id(_)) && self.is_at(1, ":") {
                            ret_name = Some(self.id()?);
                            self.adv();
                            ret = self.ty()?;
                            self.want(")")?;
                        } else {
                            self.i = save;
                            ret = self.ty()?;
                        }
                    } else {
                        ret = self.ty()?;
                    }
                } else if !pred {
                    return self.err("function without a result type");
                }
                let (requires, ensures) = self.spec()?;
                let mut body = None;
                if self.is("{") {
                    let start = self.i;
                    self.skip_balanced();
                    let end = self.i;
                    self.i = start + 1;
                    if !self.is("}") && !(self.is("...")) {
                        self.in_call += 1;
                        let b = self.expr_seq();
                        self.in_call -= 1;
                        match b {
                            Ok(e) if self.is("}") => body = Some(e),
                            Ok(_) => {
                                let e: R<()> = self.err("trailing tokens in function body");
                                self.errors.push(format!("{}: {}", name(n), e.unwrap_err()));
                                body = Some(mk(EK::Unknown("unparsed body".into()), pos));
                            }
                            Err(e) => {
                                self.errors.push(format!("{}: {}", name(n), e));
                                body = Some(mk(EK::Unknown("unparsed body".into()), pos));
                            }
                        }
                    }
                    self.i = end;
                    if self.eat_kw("by") {
                        self.eat_kw("method");
                        self.skip_balanced();
                    }
                }
                Ok(Some(DDecl::Func(DFn { name: n, statik, generics, params, ret, ret_name, requires, ensures, body, pos, executable })))
            }
            "method" | "lemma" | "colemma" | "constructor" => {
                let lemma = matches!(&*k, "lemma" | "colemma");
                let ctor = &*k == "constructor";
                self.adv();
                ext |= self.attrs();
                let n = if ctor && self.is("(") { sym("_ctor") } else { self.id()? };
                ext |= self.attrs();
                let generics = self.generics()?;
                let mut params = self.params()?;
                // an explicit `linear inout self` first parameter is an ordinary parameter
                let mut outs = vec![];
                if self.eat_kw("returns") {
                    outs = self.params()?;
                }
                let (requires, ensures) = self.spec()?;
                let mut body = None;
                if self.is("{") {
                    if lemma {
                        self.skip_balanced();
                    } else {
                        let start = self.i;
                        self.skip_balanced();
                        let end = self.i;
                        self.i = start;
                        match self.block() {
                            Ok(b) => body = Some(b),
                            Err(e) => {
                                self.errors.push(format!("{}: {}", name(n), e));
                                body = Some(Rc::new(vec![(DS::Unsupported(e), pos)]));
                            }
                        }
                        self.i = end;
                    }
                }
                for p in params.iter_mut() {
                    if &*name(p.name) == "this" {
                        p.inout |= self_inout;
                    }
                }
                Ok(Some(DDecl::Method(DMethod { name: n, statik, lemma, ctor, self_inout, generics, params, outs, requires, ensures, body, pos, is_extern: ext })))
            }
            _ => self.err("unknown declaration"),
        }
    }
    fn members(&mut self) -> R<(Vec<(Sym, Ty)>, Vec<Rc<DDecl>>, Vec<Sym>)> {
        let mut ghosts = vec![];
        let mut fields = vec![];
        let mut out = vec![];
        if !self.is("{") {
            return Ok((fields, out, ghosts));
        }
        self.adv();
        while !self.is("}") {
            if matches!(self.cur(), T::Eof) {
                return self.err("unclosed type");
            }
            // field?
            let save = self.i;
            self.attrs();
            let mut gh = false;
            while matches!(self.peek_id().as_deref(), Some("ghost") | Some("static") | Some("protected") | Some("linear")) {
                gh |= self.kw("ghost");
                self.adv();
            }
            if self.eat_kw("var") {
                loop {
                    self.attrs();
                    let n = self.id()?;
                    if gh {
                        ghosts.push(n);
                    }
                    let ty = if self.eat(":") { self.ty()? } else { any() };
                    fields.push((n, ty));
                    if !self.eat(",") {
                        break;
                    }
                }
                self.eat(";");
                continue;
            }
            self.i = save;
            self.decl_into(&mut out, true);
        }
        self.adv();
        Ok((fields, out, ghosts))
    }
    fn spec(&mut self) -> R<(Vec<EP>, Vec<EP>)> {
        let (mut req, mut ens) = (vec![], vec![]);
        loop {
            let Some(k) = self.peek_id() else { break };
            match &*k {
                "requires" => {
                    self.adv();
                    self.attrs();
                    req.push(self.clause()?);
                }
                "ensures" => {
                    self.adv();
                    self.attrs();
                    ens.push(self.clause()?);
                }
                "reads" | "modifies" | "decreases" => {
                    self.adv();
                    self.attrs();
                    loop {
                        if self.eat("*") {
                        } else {
                            self.expr()?;
                        }
                        if self.eat("`") {
                            self.id()?;
                        }
                        if !self.eat(",") {
                            break;
                        }
                    }
                }
                "free" | "yield" => {
                    self.adv();
                    continue;
                }
                _ => break,
            }
            self.eat(";");
        }
        Ok((req, ens))
    }
    fn clause(&mut self) -> R<EP> {
        let l = std::mem::replace(&mut self.lemma_ok, false);
        let r = self.clause1();
        self.lemma_ok = l;
        r
    }
    fn clause1(&mut self) -> R<EP> {
        // label: expr
        if matches!(self.cur(), T::Id(_)) && self.is_at(1, ":") {
            self.adv();
            self.adv();
        }
        self.expr()
    }

    // ---------- expressions ----------
    pub fn expr_seq(&mut self) -> R<EP> {
        // expression, allowing `lemma(); e`
        let e = self.expr()?;
        if self.is(";") && self.lemma_ok {
            self.adv();
            if self.is("}") || self.is(")") {
                return Ok(e);
            }
            return self.expr_seq();
        }
        Ok(e)
    }
    pub fn expr(&mut self) -> R<EP> {
        self.iff()
    }
    fn iff(&mut self) -> R<EP> {
        let mut a = self.imp()?;
        while self.is("<==>") {
            let p = self.pos();
            self.adv();
            let b = self.imp()?;
            a = mk(EK::Bin(Op::Iff, a, b), p);
        }
        Ok(a)
    }
    fn imp(&mut self) -> R<EP> {
        let a = self.logical()?;
        let p = self.pos();
        if self.eat("==>") {
            let b = self.imp()?;
            return Ok(mk(EK::Bin(Op::Imp, a, b), p));
        }
        if self.is("<==") {
            let mut a = a;
            while self.eat("<==") {
                let b = self.logical()?;
                a = mk(EK::Bin(Op::Imp, b, a), p);
            }
            return Ok(a);
        }
        Ok(a)
    }
    fn logical(&mut self) -> R<EP> {
        let p = self.pos();
        let op = if self.is("&&") {
            "&&"
        } else if self.is("||") {
            "||"
        } else {
            ""
        };
        if !op.is_empty() {
            self.adv();
        }
        let a = self.relational()?;
        let op = if !op.is_empty() {
            op
        } else if self.is("&&") {
            "&&"
        } else if self.is("||") {
            "||"
        } else {
            return Ok(a);
        };
        let mut items = vec![a];
        while self.eat(op) {
            items.push(self.relational()?);
        }
        if items.len() == 1 {
            return Ok(items.pop().unwrap());
        }
        Ok(mk(EK::Bullet(if op == "&&" { Op::And } else { Op::Or }, items), p))
    }
    fn relop(&mut self) -> Option<Op> {
        let o = match self.cur() {
            T::P("==") => Op::Eq,
            T::P("!=") => Op::Ne,
            T::P("<=") => Op::Le,
            T::P(">=") => Op::Ge,
            T::P("<") => Op::Lt,
            T::P(">") => {
                if matches!(self.at(1), T::P(">")) && self.t[self.i + 1].joint {
                    return None;
                }
                Op::Gt
            }
            T::P("!!") => Op::Disjoint,
            T::P("!") if self.kw_at(1, "in") => {
                self.adv();
                self.adv();
                return Some(Op::NotIn);
            }
            T::Id(s) if &*name(*s) == "in" => Op::In,
            _ => return None,
        };
        self.adv();
        Some(o)
    }
    fn relational(&mut self) -> R<EP> {
        let p = self.pos();
        let a = self.shift()?;
        let mut items = vec![];
        let mut left = a.clone();
        loop {
            if self.is("<") && false {
                break;
            }
            let Some(op) = self.relop() else { break };
            // `==#[k]`
            if self.is("#") {
                self.adv();
                self.skip_balanced();
            }
            let b = self.shift()?;
            items.push(mk(EK::Bin(op, left.clone(), b.clone()), p));
            left = b;
        }
        Ok(match items.len() {
            0 => a,
            1 => items.pop().unwrap(),
            _ => mk(EK::Bullet(Op::And, items), p),
        })
    }
    fn shift(&mut self) -> R<EP> {
        let mut a = self.term()?;
        loop {
            let p = self.pos();
            if self.is("<<") {
                self.adv();
                let b = self.term()?;
                a = mk(EK::Bin(Op::Shl, a, b), p);
            } else if self.is(">") && self.is_at(1, ">") && self.t[self.i + 1].joint {
                self.adv();
                self.adv();
                let b = self.term()?;
                a = mk(EK::Bin(Op::Shr, a, b), p);
            } else {
                return Ok(a);
            }
        }
    }
    fn term(&mut self) -> R<EP> {
        let mut a = self.factor()?;
        loop {
            let p = self.pos();
            let op = if self.is("+") {
                Op::Add
            } else if self.is("-") && !(self.is_at(1, "->")) {
                Op::Sub
            } else {
                return Ok(a);
            };
            self.adv();
            let b = self.factor()?;
            a = mk(EK::Bin(op, a, b), p);
        }
    }
    fn factor(&mut self) -> R<EP> {
        let mut a = self.bitwise()?;
        loop {
            let p = self.pos();
            let op = if self.is("*") {
                Op::Mul
            } else if self.is("/") {
                Op::Div
            } else if self.is("%") {
                Op::Mod
            } else {
                return Ok(a);
            };
            self.adv();
            let b = self.bitwise()?;
            a = mk(EK::Bin(op, a, b), p);
        }
    }
    fn bitwise(&mut self) -> R<EP> {
        let mut a = self.asx()?;
        loop {
            let p = self.pos();
            let op = if self.is("&") {
                Op::BitAnd
            } else if self.is("|") && !self.in_card {
                Op::BitOr
            } else if self.is("^") {
                Op::BitXor
            } else {
                return Ok(a);
            };
            self.adv();
            let b = self.asx()?;
            a = mk(EK::Bin(op, a, b), p);
        }
    }
    fn asx(&mut self) -> R<EP> {
        let mut a = self.unary()?;
        loop {
            let p = self.pos();
            if self.eat_kw("as") {
                let t = self.ty_cast()?;
                a = mk(EK::Cast(a, t), p);
            } else {
                return Ok(a);
            }
        }
    }
    fn unary(&mut self) -> R<EP> {
        let p = self.pos();
        if self.is("-") {
            self.adv();
            let e = self.unary()?;
            return Ok(mk(EK::Neg(e), p));
        }
        if self.is("!") && !self.kw_at(1, "in") {
            self.adv();
            let e = self.unary()?;
            return Ok(mk(EK::Not(e), p));
        }
        self.primary()
    }
    fn binders(&mut self) -> R<Vec<(Sym, Ty)>> {
        let mut v = vec![];
        loop {
            self.modifiers();
            let n = self.id()?;
            let ty = if self.is(":") && !self.is(":|") { self.adv(); self.ty()? } else { any() };
            self.attrs();
            v.push((n, ty));
            if !self.eat(",") {
                break;
            }
        }
        self.attrs();
        Ok(v)
    }
    fn pos_mk(&self, k: EK) -> EP {
        mk(k, self.pos())
    }
    fn path1(s: Sym) -> Path {
        Path { segs: vec![s], targs: vec![] }
    }
    /// is the parenthesised group at the current position a lambda parameter list?
    fn lambda_ahead(&self) -> bool {
        let mut d = 0i32;
        let mut j = self.i;
        loop {
            match &self.t[j].t {
                T::P("(") | T::P("[") | T::P("{") => d += 1,
                T::P(")") | T::P("]") | T::P("}") => {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                T::Eof => return false,
                _ => {}
            }
            j += 1;
        }
        j += 1;
        // optional requires/reads clauses
        matches!(self.t.get(j).map(|t| &t.t), Some(T::P("=>"))) || self.in_call > 0 && matches!(self.t.get(j).map(|t| &t.t), Some(T::Id(s)) if matches!(&*name(*s), "requires" | "reads"))
    }
    fn lambda(&mut self) -> R<EP> {
        let p = self.pos();
        let ps: Vec<(Pat, Ty)> = if self.is("(") {
            self.params()?.into_iter().map(|x| (if &*name(x.name) == "_" { Pat::Wild } else { Pat::Bind(x.name) }, x.ty)).collect()
        } else {
            let n = self.id()?;
            vec![(if &*name(n) == "_" { Pat::Wild } else { Pat::Bind(n) }, any())]
        };
        while self.kw("requires") || self.kw("reads") {
            self.adv();
            let s = self.no_lambda;
            self.no_lambda = true;
            self.expr()?;
            self.no_lambda = s;
        }
        self.want("=>")?;
        let b = self.expr()?;
        Ok(mk(EK::Lambda(ps, b), p))
    }
    fn with_lambda<X>(&mut self, f: impl FnOnce(&mut Self) -> R<X>) -> R<X> {
        let s = self.no_lambda;
        self.no_lambda = false;
        self.in_call += 1;
        let (l, k) = (std::mem::replace(&mut self.lemma_ok, true), std::mem::replace(&mut self.in_card, false));
        let r = f(self);
        self.lemma_ok = l;
        self.in_card = k;
        self.in_call -= 1;
        self.no_lambda = s;
        r
    }
    fn primary(&mut self) -> R<EP> {
        let p = self.pos();
        let e = self.atom()?;
        self.suffixes(e, p)
    }
    fn args(&mut self) -> R<Vec<EP>> {
        self.want("(")?;
        let mut v = vec![];
        self.with_lambda(|s| {
            while !s.is(")") {
                let p = s.pos();
                let (_, io, _) = s.modifiers();
                let e = s.expr_seq()?;
                v.push(if io { mk(EK::Inout(e), p) } else { e });
                if !s.eat(",") {
                    break;
                }
            }
            s.want(")")
        })?;
        Ok(v)
    }
    fn suffixes(&mut self, mut e: EP, p: Pos) -> R<EP> {
        loop {
            if self.is(".") {
                if self.is_at(1, "(") {
                    // datatype update
                    self.adv();
                    self.adv();
                    let mut fs = vec![];
                    loop {
                        let f = self.id()?;
                        self.want(":=")?;
                        let x = self.with_lambda(|s| s.expr())?;
                        fs.push((f, x));
                        if !self.eat(",") {
                            break;
                        }
                    }
                    self.want(")")?;
                    e = mk(EK::Upd(e, fs), p);
                    continue;
                }
                self.adv();
                let f = self.id()?;
                let targs = self.try_targs();
                if self.is("(") {
                    let a = self.args()?;
                    e = mk(EK::Method(e, f, targs, a), p);
                } else {
                    e = mk(EK::Field(e, f), p);
                }
                continue;
            }
            if self.is("(") {
                let a = self.args()?;
                e = mk(EK::Call(e, a), p);
                continue;
            }
            if self.is("[") {
                self.adv();
                let s = self.no_lambda;
                self.no_lambda = false;
                if self.eat("..") {
                    let hi = if self.is("]") { None } else { Some(self.expr()?) };
                    e = mk(EK::Slice(e, None, hi), p);
                } else {
                    let i = self.expr()?;
                    if self.eat("..") {
                        let hi = if self.is("]") { None } else { Some(self.expr()?) };
                        e = mk(EK::Slice(e, Some(i), hi), p);
                    } else if self.eat(":=") {
                        let v = self.expr()?;
                        e = mk(EK::IdxUpd(e, i, v), p);
                        while self.eat(",") {
                            let i = self.expr()?;
                            self.want(":=")?;
                            let v = self.expr()?;
                            e = mk(EK::IdxUpd(e, i, v), p);
                        }
                    } else {
                        e = mk(EK::Index(e, i), p);
                    }
                }
                self.no_lambda = s;
                self.want("]")?;
                continue;
            }
            // old@label style / heap reference are not used
            return Ok(e);
        }
    }
    /// generic arguments in an expression, when they are unmistakably that
    fn try_targs(&mut self) -> Vec<Ty> {
        if !self.is("<") {
            return vec![];
        }
        let save = self.i;
        match self.targs() {
            Ok(v) if self.is("(") || self.is(".") || self.is(",") || self.is(")") || self.is(";") => {
                if self.is(",") || self.is(")") || self.is(";") {
                    // `f(a < b, c > d)` style ambiguity: only accept for builtin collection constructors
                    self.i = save;
                    return vec![];
                }
                v
            }
            _ => {
                self.i = save;
                vec![]
            }
        }
    }
    fn pattern(&mut self) -> R<Pat> {
        self.modifiers();
        if self.eat("(") {
            let mut v = vec![];
            while !self.is(")") {
                v.push(self.pattern()?);
                if !self.eat(",") {
                    break;
                }
            }
            self.want(")")?;
            return Ok(Pat::Tuple(v));
        }
        if matches!(self.cur(), T::Int(_) | T::Str(_) | T::Char(_)) || self.is("-") || self.kw("true") || self.kw("false") {
            let e = self.unary()?;
            return Ok(Pat::Lit(e));
        }
        let mut segs = vec![self.id()?];
        while self.is(".") {
            self.adv();
            segs.push(self.id()?);
        }
        if self.eat("(") {
            let mut v = vec![];
            while !self.is(")") {
                v.push(self.pattern()?);
                if !self.eat(",") {
                    break;
                }
            }
            self.want(")")?;
            return Ok(Pat::TupleCtor(Path { segs, targs: vec![] }, v, Default::default()));
        }
        if self.eat(":") {
            self.ty()?;
        }
        if segs.len() == 1 && &*name(segs[0]) == "_" {
            return Ok(Pat::Wild);
        }
        Ok(Pat::PathOrBind(Path { segs, targs: vec![] }, Default::default()))
    }
    fn atom(&mut self) -> R<EP> {
        let p = self.pos();
        match self.cur().clone() {
            T::Int(n) => {
                self.adv();
                Ok(mk(EK::Int(n), p))
            }
            T::Str(s) => {
                self.adv();
                Ok(mk(EK::Str(s), p))
            }
            T::Char(c) => {
                self.adv();
                Ok(mk(EK::Char(c), p))
            }
            T::P("(") => {
                if !self.no_lambda && self.lambda_ahead() {
                    return self.lambda();
                }
                self.adv();
                let mut v = vec![];
                self.with_lambda(|s| {
                    while !s.is(")") {
                        let (_, io, _) = s.modifiers();
                        let e = s.expr_seq()?;
                        v.push(if io { mk(EK::Inout(e), p) } else { e });
                        if !s.eat(",") {
                            break;
                        }
                    }
                    s.want(")")
                })?;
                if v.len() == 1 {
                    return Ok(v.pop().unwrap());
                }
                Ok(mk(EK::Tuple(v), p))
            }
            T::P("|") => {
                self.adv();
                let e = self.with_lambda(|s| {
                    s.in_card = true;
                    s.expr()
                })?;
                self.want("|")?;
                Ok(mk(EK::Method(e, sym("len"), vec![], vec![]), p))
            }
            T::P("[") => {
                let v = self.list("[", "]")?;
                Ok(mk(EK::SeqLit(v), p))
            }
            T::P("{") => {
                let v = self.list("{", "}")?;
                Ok(mk(EK::SetLit(v), p))
            }
            T::Id(s) => {
                let n = name(s);
                match &*n {
                    "true" | "false" => {
                        self.adv();
                        return Ok(mk(EK::Bool(&*n == "true"), p));
                    }
                    "null" => {
                        self.adv();
                        return Ok(mk(EK::Path(Self::path1(sym("null"))), p));
                    }
                    "if" => {
                        self.adv();
                        let save = self.i;
                        if matches!(self.cur(), T::Id(_)) {
                            if let Ok(vs) = self.binders() {
                                if self.eat(":|") {
                                    let c = self.with_lambda(|s| s.expr())?;
                                    if !self.eat_kw("then") {
                                        return self.err("expected then");
                                    }
                                    let a = self.expr_seq_if()?;
                                    if !self.eat_kw("else") {
                                        return self.err("expected else");
                                    }
                                    let b = self.expr_seq()?;
                                    let pat = if vs.len() == 1 { Pat::Bind(vs[0].0) } else { Pat::Tuple(vs.iter().map(|v| Pat::Bind(v.0)).collect()) };
                                    let ex = mk(EK::Quant(Q::Exists, vs.clone(), c.clone(), Cell::new(0)), p);
                                    let ch = mk(EK::Quant(Q::Choose, vs, c, Cell::new(0)), p);
                                    return Ok(mk(EK::If(ex, mk(EK::Let(pat, any(), ch, a), p), Some(b)), p));
                                }
                            }
                            self.i = save;
                        }
                        let c = self.with_lambda(|s| s.expr())?;
                        if !self.eat_kw("then") {
                            return self.err("expected then");
                        }
                        let a = self.expr_seq_if()?;
                        if !self.eat_kw("else") {
                            return self.err("expected else");
                        }
                        let b = self.expr_seq()?;
                        return Ok(mk(EK::If(c, a, Some(b)), p));
                    }
                    "match" => return self.match_expr(),
                    "linear" | "shared" | "glinear" | "gshared" if self.kw_at(1, "match") || self.kw_at(1, "if") => {
                        self.adv();
                        return self.atom();
                    }
                    "ghost" | "linear" | "shared" | "glinear" | "gshared" | "var" if self.is_let() => return self.let_expr(),
                    "forall" | "exists" => {
                        self.adv();
                        let vs = self.binders()?;
                        let range = if self.eat("|") { Some(self.with_lambda(|s| s.expr())?) } else { None };
                        self.want("::")?;
                        let b = self.expr()?;
                        let (q, b) = if &*n == "forall" {
                            (Q::Forall, match range { Some(r) => mk(EK::Bin(Op::Imp, r, b), p), None => b })
                        } else {
                            (Q::Exists, match range { Some(r) => mk(EK::Bullet(Op::And, vec![r, b]), p), None => b })
                        };
                        return Ok(mk(EK::Quant(q, vs, b, Cell::new(0)), p));
                    }
                    "assert" | "assume" | "expect" => {
                        self.adv();
                        self.attrs();
                        self.expr()?;
                        if self.eat_kw("by") {
                            self.skip_balanced();
                        } else {
                            self.want(";")?;
                        }
                        return self.expr_seq();
                    }
                    "reveal" if matches!(self.at(1), T::Id(_)) => {
                        self.adv();
                        self.expr()?;
                        self.want(";")?;
                        return self.expr_seq();
                    }
                    "calc" => {
                        self.adv();
                        while !self.is("{") {
                            self.adv();
                        }
                        self.skip_balanced();
                        self.eat(";");
                        return self.expr_seq();
                    }
                    "old" | "fresh" | "allocated" | "unchanged" if self.is_at(1, "(") => {
                        self.adv();
                        let mut a = self.args()?;
                        let x = a.pop().unwrap_or_else(|| mk(EK::Bool(true), p));
                        return Ok(if &*n == "old" { mk(EK::Call(mk(EK::Path(Self::path1(sym("old"))), p), vec![x]), p) } else { mk(EK::Bool(true), p) });
                    }
                    "multiset" => {
                        self.adv();
                        self.try_targs();
                        if self.is("{") {
                            let v = self.list("{", "}")?;
                            return Ok(mk(EK::MSetLit(v), p));
                        }
                        let mut a = self.args()?;
                        return Ok(mk(EK::Method(a.remove(0), sym("to_multiset"), vec![], vec![]), p));
                    }
                    "seq" if self.is_at(1, "(") || self.is_at(1, "<") => {
                        self.adv();
                        if self.is("<") {
                            self.targs()?;
                        }
                        let a = self.args()?;
                        if a.len() != 2 {
                            return self.err("seq(n, f)");
                        }
                        return Ok(mk(EK::Call(mk(EK::Path(Path { segs: vec![sym("Seq"), sym("new")], targs: vec![] }), p), a), p));
                    }
                    "set" | "iset" => {
                        if self.is_at(1, "{") {
                            self.adv();
                            let v = self.list("{", "}")?;
                            return Ok(mk(EK::SetLit(v), p));
                        }
                        self.adv();
                        let vs = self.binders()?;
                        let range = if self.eat("|") { self.with_lambda(|s| s.expr())? } else { mk(EK::Bool(true), p) };
                        let key = if self.eat("::") { Some(self.expr()?) } else { None };
                        return Ok(mk(EK::Compr(false, vs, range, key, None), p));
                    }
                    "map" | "imap" => {
                        if self.is_at(1, "[") {
                            self.adv();
                            self.adv();
                            let mut v = vec![];
                            self.with_lambda(|s| {
                                while !s.is("]") {
                                    let k = s.expr()?;
                                    s.want(":=")?;
                                    let x = s.expr()?;
                                    v.push((k, x));
                                    if !s.eat(",") {
                                        break;
                                    }
                                }
                                s.want("]")
                            })?;
                            return Ok(mk(EK::MapLit(v), p));
                        }
                        self.adv();
                        let vs = self.binders()?;
                        let range = if self.eat("|") { self.with_lambda(|s| s.expr())? } else { mk(EK::Bool(true), p) };
                        self.want("::")?;
                        let a = self.expr()?;
                        if self.eat(":=") {
                            let b = self.expr()?;
                            return Ok(mk(EK::Compr(true, vs, range, Some(a), Some(b)), p));
                        }
                        return Ok(mk(EK::Compr(true, vs, range, None, Some(a)), p));
                    }
                    "new" => return self.err("new in expression"),
                    "inout" => {
                        self.adv();
                        self.modifiers();
                        let e = self.primary()?;
                        return Ok(mk(EK::Inout(e), p));
                    }
                    _ => {}
                }
                if !self.no_lambda && (self.is_at(1, "=>") || ((self.kw_at(1, "requires") || self.kw_at(1, "reads")) && self.in_call > 0)) {
                    return self.lambda();
                }
                self.adv();
                let targs = self.try_targs();
                let t = if targs.is_empty() { vec![] } else { vec![(0, targs)] };
                Ok(mk(EK::Path(Path { segs: vec![s], targs: t }), p))
            }
            _ => self.err("expected expression"),
        }
    }
    fn expr_seq_if(&mut self) -> R<EP> {
        self.with_lambda(|s| s.expr_seq())
    }
    fn list(&mut self, a: &str, b: &str) -> R<Vec<EP>> {
        self.want(a)?;
        let mut v = vec![];
        self.with_lambda(|s| {
            while !s.is(b) {
                v.push(s.expr()?);
                if !s.eat(",") {
                    break;
                }
            }
            s.want(b)
        })?;
        Ok(v)
    }
    fn is_let(&self) -> bool {
        let mut k = 0;
        while let T::Id(s) = self.at(k) {
            let n = name(*s);
            if &*n == "var" {
                return true;
            }
            if !MODS.contains(&&*n) {
                return false;
            }
            k += 1;
        }
        false
    }
    fn let_expr(&mut self) -> R<EP> {
        let p = self.pos();
        while !self.eat_kw("var") {
            self.adv();
        }
        let (pats, such) = self.let_pats()?;
        if such {
            let c = self.with_lambda(|s| s.expr())?;
            self.want(";")?;
            let b = self.expr_seq()?;
            let vs: Vec<(Sym, Ty)> = pats
                .iter()
                .map(|(p, t)| match p {
                    Pat::PathOrBind(q, _) => (q.segs[0], t.clone()),
                    Pat::Bind(s) => (*s, t.clone()),
                    _ => (sym("_"), t.clone()),
                })
                .collect();
            let pat = if vs.len() == 1 { Pat::Bind(vs[0].0) } else { Pat::Tuple(vs.iter().map(|v| Pat::Bind(v.0)).collect()) };
            let ch = mk(EK::Quant(Q::Choose, vs, c, Cell::new(0)), p);
            return Ok(mk(EK::Let(pat, any(), ch, b), p));
        }
        let mut es = vec![];
        loop {
            self.modifiers();
            es.push(self.with_lambda(|s| {
                s.lemma_ok = false;
                s.expr()
            })?);
            if !self.eat(",") {
                break;
            }
        }
        self.want(";")?;
        let mut b = self.expr_seq()?;
        if pats.len() != es.len() {
            return self.err("let arity");
        }
        if pats.len() == 1 {
            let (pt, t) = pats.into_iter().next().unwrap();
            return Ok(mk(EK::Let(pt, t, es.pop().unwrap(), b), p));
        }
        let (ps, _): (Vec<Pat>, Vec<Ty>) = pats.into_iter().unzip();
        b = mk(EK::Let(Pat::Tuple(ps), any(), mk(EK::Tuple(es), p), b), p);
        Ok(b)
    }
    fn let_pats(&mut self) -> R<(Vec<(Pat, Ty)>, bool)> {
        let mut v = vec![];
        loop {
            self.modifiers();
            self.attrs();
            let pt = if matches!(self.cur(), T::Id(_)) && !self.is_at(1, "(") && !self.is_at(1, ".") {
                let s = self.id()?;
                if &*name(s) == "_" {
                    Pat::Wild
                } else {
                    Pat::Bind(s)
                }
            } else {
                self.pattern()?
            };
            let t = if self.eat(":") { self.ty()? } else { any() };
            v.push((pt, t));
            if !self.eat(",") {
                break;
            }
        }
        if self.eat(":|") {
            return Ok((v, true));
        }
        self.want(":=")?;
        Ok((v, false))
    }
    fn match_expr(&mut self) -> R<EP> {
        let p = self.pos();
        self.adv();
        let s = self.no_lambda;
        self.no_lambda = false;
        let x = self.expr()?;
        let braces = self.eat("{");
        let mut arms = vec![];
        while self.eat_kw("case") {
            self.attrs();
            let mut pt = self.pattern()?;
            if self.is("|") {
                let mut ps = vec![pt];
                while self.eat("|") {
                    ps.push(self.pattern()?);
                }
                pt = Pat::Or(ps);
            }
            self.want("=>")?;
            let l = self.lemma_ok;
            self.lemma_ok |= braces;
            let b = self.expr_seq()?;
            self.lemma_ok = l;
            arms.push((pt, None, b));
        }
        if braces {
            self.want("}")?;
        }
        self.no_lambda = s;
        Ok(mk(EK::Match(x, arms), p))
    }

    // ---------- statements ----------
    pub fn block(&mut self) -> R<Block> {
        self.want("{")?;
        let mut v = vec![];
        while !self.is("}") {
            if matches!(self.cur(), T::Eof) {
                return self.err("unclosed block");
            }
            let p = self.pos();
            let s = self.stmt()?;
            if !matches!(s, DS::Skip) {
                v.push((s, p));
            }
        }
        self.adv();
        Ok(Rc::new(v))
    }
    fn rhs(&mut self) -> R<Rhs> {
        if self.eat("*") {
            return Ok(Rhs::Havoc);
        }
        self.attrs();
        self.modifiers_keep_inout();
        if self.eat_kw("new") {
            let t = if self.is("[") { any() } else { self.ty_new()? };
            if self.is("[") {
                self.adv();
                let n = self.expr()?;
                self.want("]")?;
                let init = if self.eat("(") {
                    let e = self.expr()?;
                    self.want(")")?;
                    Some(e)
                } else {
                    None
                };
                return Ok(Rhs::NewArr(t, n, init));
            }
            let a = if self.is("(") { Some(self.args()?) } else { None };
            return Ok(Rhs::NewObj(t, None, a));
        }
        Ok(Rhs::E(self.expr_seq_rhs()?))
    }
    fn expr_seq_rhs(&mut self) -> R<EP> {
        self.expr()
    }
    fn modifiers_keep_inout(&mut self) {
        loop {
            match self.peek_id().as_deref() {
                Some(x) if MODS.contains(&x) && !self.is_let() && !matches!(self.at(1), T::P(_)) && !self.kw_at(1, "match") && !self.kw_at(1, "if") => {}
                _ => return,
            }
            self.adv();
        }
    }
    fn ty_new(&mut self) -> R<Ty> {
        self.ty1()
    }
    fn stmt(&mut self) -> R<DS> {
        let l = std::mem::replace(&mut self.lemma_ok, false);
        let r = self.stmt1();
        self.lemma_ok = l;
        r
    }
    fn stmt1(&mut self) -> R<DS> {
        if self.eat(";") {
            return Ok(DS::Skip);
        }
        if self.is("{") {
            return Ok(DS::Block(self.block()?));
        }
        let Some(k) = self.peek_id() else {
            // expression statement such as (a, b) := ...
            return self.expr_stmt(false);
        };
        match &*k {
            "new" if self.is_at(1, ";") => {
                self.adv();
                self.adv();
                Ok(DS::Skip)
            }
            "var" => {
                self.adv();
                self.var_stmt(false)
            }
            "ghost" | "linear" | "shared" | "glinear" | "gshared" => {
                if self.is_let() {
                    let mut ghost = false;
                    while !self.kw("var") {
                        if matches!(self.peek_id().as_deref(), Some("ghost") | Some("gshared") | Some("glinear")) {
                            ghost = true;
                        }
                        self.adv();
                    }
                    self.adv();
                    return self.var_stmt(ghost);
                }
                if matches!(self.at(1), T::Id(_)) {
                    self.adv();
                    return self.stmt();
                }
                self.expr_stmt(false)
            }
            "if" => {
                self.adv();
                if self.is("{") && self.kw_at(1, "case") {
                    self.adv();
                    let c = self.if_cases()?;
                    self.want("}")?;
                    return Ok(DS::IfCase(c));
                }
                if self.kw("case") {
                    return Ok(DS::IfCase(self.if_cases()?));
                }
                if self.eat("*") {
                    let _ = self.block()?;
                    return Ok(DS::Unsupported("if *".into()));
                }
                // binding guard
                let save = self.i;
                if matches!(self.cur(), T::Id(_)) {
                    if let Ok(vs) = self.binders() {
                        if self.eat(":|") {
                            let c = self.cond()?;
                            let a = self.block()?;
                            let b = self.else_part()?;
                            return Ok(DS::IfSuch(vs, c, a, b));
                        }
                    }
                    self.i = save;
                }
                let c = self.cond()?;
                let a = self.block()?;
                let b = self.else_part()?;
                Ok(DS::If(c, a, b))
            }
            "while" => {
                self.adv();
                if self.is("{") && self.kw_at(1, "case") {
                    return Ok(DS::Unsupported("while case".into()));
                }
                let c = if self.eat("*") || (self.is("(") && self.is_at(1, "*") && { self.adv(); self.adv(); self.eat(")") }) { None } else { Some(self.cond()?) };
                let mut inv = vec![];
                loop {
                    match self.peek_id().as_deref() {
                        Some("invariant") => {
                            self.adv();
                            self.attrs();
                            inv.push(self.clause()?);
                        }
                        Some("decreases") | Some("modifies") => {
                            self.adv();
                            loop {
                                if !self.eat("*") {
                                    self.expr()?;
                                }
                                if !self.eat(",") {
                                    break;
                                }
                            }
                        }
                        Some("free") => {
                            self.adv();
                            continue;
                        }
                        _ => break,
                    }
                    self.eat(";");
                }
                let b = self.block()?;
                Ok(DS::While(c, b, inv))
            }
            "match" => {
                self.adv();
                let s = self.no_lambda;
                self.no_lambda = true;
                let x = self.expr();
                self.no_lambda = s;
                let x = x?;
                let braces = self.eat("{");
                let mut arms = vec![];
                while self.eat_kw("case") {
                    let mut pt = self.pattern()?;
                    if self.is("|") {
                        let mut ps = vec![pt];
                        while self.eat("|") {
                            ps.push(self.pattern()?);
                        }
                        pt = Pat::Or(ps);
                    }
                    self.want("=>")?;
                    let mut v = vec![];
                    while !self.kw("case") && !self.is("}") {
                        if matches!(self.cur(), T::Eof) {
                            return self.err("unclosed match");
                        }
                        let p = self.pos();
                        v.push((self.stmt()?, p));
                    }
                    arms.push((pt, Rc::new(v)));
                }
                if braces {
                    self.want("}")?;
                }
                Ok(DS::Match(x, arms))
            }
            "return" => {
                self.adv();
                let mut v = vec![];
                while !self.is(";") {
                    v.push(self.rhs()?);
                    if !self.eat(",") {
                        break;
                    }
                }
                self.want(";")?;
                Ok(DS::Return(v))
            }
            "break" => {
                self.adv();
                let mut n = 1;
                let mut l = None;
                while self.eat_kw("break") {
                    n += 1;
                }
                if let T::Id(s) = self.cur().clone() {
                    l = Some(s);
                    self.adv();
                }
                self.want(";")?;
                Ok(DS::Break(n, l))
            }
            "label" => {
                self.adv();
                let l = self.id()?;
                self.want(":")?;
                let s = self.stmt()?;
                Ok(DS::Label(l, Box::new(s)))
            }
            "assert" | "assume" | "expect" => {
                let assume = &*k == "assume";
                self.adv();
                self.attrs();
                if matches!(self.cur(), T::Id(_)) && self.is_at(1, ":") && !self.is_at(1, "::") {
                    self.adv();
                    self.adv();
                }
                if self.eat("...") {
                    self.eat(";");
                    return Ok(DS::Skip);
                }
                let e = self.expr()?;
                if self.eat_kw("by") {
                    self.skip_balanced();
                } else {
                    if self.eat(",") {
                        self.expr()?;
                    }
                    self.want(";")?;
                }
                Ok(if assume { DS::Assume(e) } else { DS::Assert(e) })
            }
            "print" => {
                self.adv();
                loop {
                    self.expr()?;
                    if !self.eat(",") {
                        break;
                    }
                }
                self.want(";")?;
                Ok(DS::Skip)
            }
            "reveal" | "reveal_" if matches!(self.at(1), T::Id(_)) => {
                while !self.is(";") {
                    self.adv();
                }
                self.adv();
                Ok(DS::Skip)
            }
            "calc" => {
                self.adv();
                while !self.is("{") {
                    self.adv();
                }
                self.skip_balanced();
                self.eat(";");
                Ok(DS::Skip)
            }
            "forall" => {
                self.adv();
                let paren = self.is("(") && { self.adv(); true };
                let vs = if self.is("|") || self.is(")") || self.is("{") || self.kw("ensures") { vec![] } else { self.binders()? };
                let range = if self.eat("|") { self.cond()? } else { self.pos_mk(EK::Bool(true)) };
                if paren {
                    self.want(")")?;
                }
                let mut proof = false;
                while self.kw("ensures") || self.kw("free") {
                    proof = true;
                    self.adv();
                    if self.kw("ensures") {
                        continue;
                    }
                    self.attrs();
                    self.expr()?;
                    self.eat(";");
                }
                if self.is("{") {
                    if proof {
                        self.skip_balanced();
                        return Ok(DS::Skip);
                    }
                    let start = self.i;
                    match self.block() {
                        Ok(b) => return Ok(DS::Forall(vs, range, b)),
                        Err(_) => {
                            self.i = start;
                            self.skip_balanced();
                            return Ok(DS::Skip);
                        }
                    }
                }
                Ok(DS::Skip)
            }
            "modify" | "yield" => {
                while !self.is(";") && !self.is("{") {
                    self.adv();
                }
                if self.is("{") {
                    self.skip_balanced();
                } else {
                    self.adv();
                }
                Ok(DS::Unsupported(k.to_string()))
            }
            "inout" => {
                self.adv();
                let mut ghost = false;
                while self.kw("ghost") || self.kw("linear") || self.kw("glinear") {
                    ghost |= !self.kw("linear");
                    self.adv();
                }
                // `inout x.f := e;`  or  `inout x.m(args);`
                let p = self.pos();
                let e = self.primary()?;
                if self.eat(":=") {
                    let r = self.rhs()?;
                    self.want(";")?;
                    return Ok(DS::Assign(vec![e], vec![r], ghost));
                }
                self.want(";")?;
                Ok(DS::Expr(mk(EK::Inout(e), p)))
            }
            _ => self.expr_stmt(false),
        }
    }
    fn cond(&mut self) -> R<EP> {
        let s = self.no_lambda;
        self.no_lambda = false;
        let e = self.expr();
        self.no_lambda = s;
        e
    }
    fn else_part(&mut self) -> R<Option<Block>> {
        if !self.eat_kw("else") {
            return Ok(None);
        }
        if matches!(self.peek_id().as_deref(), Some("linear") | Some("shared") | Some("ghost") | Some("glinear")) {
            self.adv();
        }
        if self.kw("if") {
            let p = self.pos();
            let s = self.stmt()?;
            return Ok(Some(Rc::new(vec![(s, p)])));
        }
        Ok(Some(self.block()?))
    }
    fn if_cases(&mut self) -> R<Vec<(EP, Block)>> {
        let mut out = vec![];
        while self.eat_kw("case") {
            let s = self.no_lambda;
            self.no_lambda = true;
            let c = self.expr();
            self.no_lambda = s;
            let c = c?;
            self.want("=>")?;
            let mut v = vec![];
            while !self.kw("case") && !self.is("}") {
                if matches!(self.cur(), T::Eof) {
                    return self.err("unclosed if-case");
                }
                let p = self.pos();
                v.push((self.stmt()?, p));
            }
            out.push((c, Rc::new(v)));
        }
        Ok(out)
    }
    fn var_stmt(&mut self, ghost: bool) -> R<DS> {
        // pattern?
        self.modifiers();
        let pat = self.is("(") || (matches!(self.cur(), T::Id(_)) && (self.is_at(1, "(") || self.is_at(1, ".")));
        if pat {
            let p = self.pattern()?;
            self.want(":=")?;
            self.modifiers_keep_inout();
            let e = self.expr()?;
            self.want(";")?;
            return Ok(DS::VarPat(p, e, ghost));
        }
        let mut vs = vec![];
        loop {
            self.modifiers();
            self.attrs();
            let n = self.id()?;
            let t = if self.eat(":") { self.ty()? } else { any() };
            vs.push((n, t));
            if !self.eat(",") {
                break;
            }
        }
        if self.eat(":|") {
            self.eat_kw("assume");
            let e = self.expr()?;
            self.want(";")?;
            return Ok(DS::VarSuch(vs, e, ghost));
        }
        let mut rs = vec![];
        if self.eat(":=") {
            loop {
                rs.push(self.rhs()?);
                if !self.eat(",") {
                    break;
                }
            }
        }
        self.want(";")?;
        Ok(DS::Var(vs, rs, ghost))
    }
    fn expr_stmt(&mut self, ghost: bool) -> R<DS> {
        let mut lhs = vec![];
        loop {
            self.modifiers_keep_inout();
            lhs.push(self.expr()?);
            if !self.eat(",") {
                break;
            }
        }
        if self.eat(":=") {
            let mut rs = vec![];
            loop {
                rs.push(self.rhs()?);
                if !self.eat(",") {
                    break;
                }
            }
            self.want(";")?;
            return Ok(DS::Assign(lhs, rs, ghost));
        }
        if self.eat(":|") {
            self.eat_kw("assume");
            let e = self.expr()?;
            self.want(";")?;
            return Ok(DS::AssignSuch(lhs, e));
        }
        self.want(";")?;
        if lhs.len() != 1 {
            return self.err("statement");
        }
        self.fresh += 1;
        Ok(DS::Expr(lhs.pop().unwrap()))
    }
}
