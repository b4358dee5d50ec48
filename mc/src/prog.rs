//! Program: all parsed modules, scopes and name resolution (Verus side).
use crate::ast::*;
use crate::value::*;
use crate::vparse::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::Path as FsPath;
use std::rc::Rc;

pub struct Scope {
    pub name: String,
    pub parent: Option<usize>,
    pub inherit: bool,
    pub types: HashMap<Sym, TRef>,
    pub fns: HashMap<Sym, usize>,
    pub uses: Vec<(Sym, Vec<Sym>)>,
    pub globs: Vec<Vec<Sym>>,
    pub machine: Option<usize>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TRef {
    Type(usize),
    Alias(usize),
    Mod(usize),
}
pub struct TypeInfo {
    pub name: Sym,
    pub full: Sym,
    pub scope: usize,
    pub ctors: Vec<Rc<Ctor>>,
    pub ftys: Vec<Vec<Ty>>,
    pub generics: Vec<Sym>,
    pub is_struct: bool,
    pub methods: HashMap<Sym, usize>,
    pub machine: Option<usize>,
}
pub struct AliasInfo {
    pub name: Sym,
    pub scope: usize,
    pub ty: Ty,
    pub generics: Vec<Sym>,
}
pub struct FnInfo {
    pub d: FnDecl,
    pub scope: usize,
    pub self_ty: Option<usize>,
    pub full: String,
    pub all_params: Vec<Sym>,
}
pub struct Machine {
    pub name: Sym,
    pub scope: usize,
    pub state_ty: usize,
    pub fields: Vec<(Sym, Ty, Option<Sym>)>,
    pub trans: Vec<Rc<Trans>>,
    pub tokenized: bool,
}
#[derive(Default)]
pub struct Prog {
    pub scopes: Vec<Scope>,
    pub types: Vec<TypeInfo>,
    pub aliases: Vec<AliasInfo>,
    pub fns: Vec<FnInfo>,
    pub machines: Vec<Rc<Machine>>,
    pub files: Vec<String>,
    pub ext_methods: HashMap<(Sym, Sym), usize>,
    pub trait_methods: HashMap<Sym, usize>,
    pub parse_errors: Vec<String>,
    pub option_ty: usize,
    pub result_ty: usize,
    pub none: Option<Rc<Ctor>>,
    pub some: Option<Rc<Ctor>>,
    pub ok: Option<Rc<Ctor>>,
    pub err: Option<Rc<Ctor>>,
    pub path_cache: RefCell<HashMap<(usize, Vec<Sym>, bool), Option<PRes>>>,
    pub alias_cache: RefCell<HashMap<(usize, Sym), Option<(Ty, usize)>>>,
    nctor: u32,
    /// type parameters of machines, bound to the type that instantiates them
    pub generics: HashMap<Sym, usize>,
    pub dafny: crate::dafny::DafnyInfo,
}
#[derive(Clone)]
pub enum PRes {
    Fn(usize),
    Ctor(Rc<Ctor>),
    Type(usize),
    Mod(usize),
    /// machine operation on machine id: next, init, init_by, next_by, Config::x, Step::x
    MachineOp(usize, Sym, Option<Sym>),
    /// builtin type + function
    Builtin(Sym, Sym),
    /// alias of a builtin type
    BuiltinTy(Sym),
}

const BUILTIN_TYPES: &[&str] = &[
    "Map", "Set", "Seq", "Multiset", "IMap", "ISet", "int", "nat", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "Vec",
    "PSet", "String", "HashMap", "Arc", "PhantomData",
];

impl Prog {
    pub fn new() -> Prog {
        let mut p = Prog::default();
        p.scopes.push(Scope { name: "crate".into(), parent: None, inherit: false, types: HashMap::new(), fns: HashMap::new(), uses: vec![], globs: vec![], machine: None });
        let t = p.add_type(
            0,
            TypeDecl { name: sym("Option"), generics: vec![sym("T")], variants: vec![(sym("None"), false, vec![]), (sym("Some"), true, vec![(sym("0"), Ty::Named(vec![sym("T")], vec![]))])], is_struct: false },
            None,
        );
        p.option_ty = t;
        p.none = Some(p.types[t].ctors[0].clone());
        p.some = Some(p.types[t].ctors[1].clone());
        let t = p.add_type(
            0,
            TypeDecl {
                name: sym("Result"),
                generics: vec![sym("T"), sym("E")],
                variants: vec![(sym("Ok"), true, vec![(sym("0"), Ty::Any)]), (sym("Err"), true, vec![(sym("0"), Ty::Any)])],
                is_struct: false,
            },
            None,
        );
        p.result_ty = t;
        p.ok = Some(p.types[t].ctors[0].clone());
        p.err = Some(p.types[t].ctors[1].clone());
        p
    }
    pub fn mk_none(&self) -> V {
        V::data(self.none.as_ref().unwrap(), vec![])
    }
    pub fn mk_some(&self, v: V) -> V {
        V::data(self.some.as_ref().unwrap(), vec![v])
    }
    pub fn new_ctor(&mut self, ty: u32, ty_name: Sym, nm: Sym, fields: Vec<Sym>, positional: bool) -> Rc<Ctor> {
        self.nctor += 1;
        Rc::new(Ctor { id: self.nctor, ty, ty_name, name: nm, fields, positional })
    }
    pub fn add_type(&mut self, scope: usize, d: TypeDecl, machine: Option<usize>) -> usize {
        let tid = self.types.len();
        let full = sym(&format!("{}::{}", self.scopes[scope].name, name(d.name)));
        let mut ctors = vec![];
        let mut ftys = vec![];
        for (vn, pos, fs) in d.variants {
            let c = self.new_ctor(tid as u32, full, vn, fs.iter().map(|x| x.0).collect(), pos);
            ctors.push(c);
            ftys.push(fs.into_iter().map(|x| x.1).collect());
        }
        self.types.push(TypeInfo { name: d.name, full, scope, ctors, ftys, generics: d.generics, is_struct: d.is_struct, methods: HashMap::new(), machine });
        self.scopes[scope].types.insert(d.name, TRef::Type(tid));
        tid
    }
    fn add_scope(&mut self, nm: String, parent: usize, inherit: bool) -> usize {
        self.scopes.push(Scope { name: nm, parent: Some(parent), inherit, types: HashMap::new(), fns: HashMap::new(), uses: vec![], globs: vec![], machine: None });
        self.scopes.len() - 1
    }
    /// load a set of source files below `root` (e.g. /repo/Splinter/src); files are paths relative to root
    pub fn load(root: &FsPath, files: &[String]) -> Result<Prog, String> {
        let mut p = Prog::new();
        let mut impls = vec![];
        for f in files {
            let full = root.join(f);
            let src = std::fs::read_to_string(&full).map_err(|e| format!("cannot read {}: {}", full.display(), e))?;
            let fid = p.files.len() as u32;
            p.files.push(f.clone());
            let mut ps = P::new(&src, fid).map_err(|e| format!("{}: {}", f, e))?;
            let items = ps.items(None);
            for e in &ps.errors {
                p.parse_errors.push(format!("{}: {}", f, e));
            }
            // module path from file path
            let mut cur = 0;
            let mut stem = f.trim_end_matches(".rs").trim_end_matches("/mod");
            if stem.starts_with('/') {
                stem = stem.rsplit('/').next().unwrap();
            }
            if stem != "lib" {
                for seg in stem.split('/') {
                    cur = p.child_mod(cur, seg);
                }
            }
            p.add_items(cur, items, &mut impls);
        }
        // second pass: impls
        for (scope, ty, its) in impls {
            p.add_impl(scope, ty, its);
        }
        Ok(p)
    }
    fn child_mod(&mut self, cur: usize, seg: &str) -> usize {
        let s = sym(seg);
        if let Some(TRef::Mod(m)) = self.scopes[cur].types.get(&s) {
            return *m;
        }
        let nm = if cur == 0 { seg.to_string() } else { format!("{}::{}", self.scopes[cur].name, seg) };
        let n = self.add_scope(nm, cur, false);
        self.scopes[cur].types.insert(s, TRef::Mod(n));
        n
    }
    fn add_fn(&mut self, scope: usize, d: FnDecl, self_ty: Option<usize>, owner: &str) -> usize {
        let fid = self.fns.len();
        let mut all = vec![];
        if d.has_self {
            all.push(sym("self"));
        }
        all.extend(d.params.iter().map(|x| x.0));
        let full = format!("{}::{}", owner, name(d.name));
        if let Some(b) = &d.body {
            note_binder_types(b, &d.params);
        }
        self.fns.push(FnInfo { d, scope, self_ty, full, all_params: all });
        fid
    }
    fn add_items(&mut self, scope: usize, items: Vec<Item>, impls: &mut Vec<(usize, Ty, Vec<Item>)>) {
        for it in items {
            match it {
                Item::Use(us) => {
                    for u in us {
                        match u {
                            UseTree::Single(p, a) => self.scopes[scope].uses.push((a, p)),
                            UseTree::Glob(p) => self.scopes[scope].globs.push(p),
                        }
                    }
                }
                Item::Type(d) => {
                    self.add_type(scope, d, None);
                }
                Item::Alias(n, g, t) => {
                    let aid = self.aliases.len();
                    self.aliases.push(AliasInfo { name: n, scope, ty: t, generics: g });
                    self.scopes[scope].types.insert(n, TRef::Alias(aid));
                }
                Item::Fn(d) => {
                    let n = d.name;
                    if d.mode != FnMode::Spec {
                        continue;
                    }
                    let owner = self.scopes[scope].name.clone();
                    let fid = self.add_fn(scope, d, None, &owner);
                    self.scopes[scope].fns.insert(n, fid);
                }
                Item::Impl(t, its) => impls.push((scope, t, its)),
                Item::Trait(n, its) => {
                    for x in its {
                        if let Item::Fn(d) = x {
                            if d.mode == FnMode::Spec && d.body.is_some() {
                                let nm = d.name;
                                let owner = format!("{}::{}", self.scopes[scope].name, name(n));
                                let fid = self.add_fn(scope, d, None, &owner);
                                self.trait_methods.insert(nm, fid);
                            }
                        }
                    }
                }
                Item::Mod(n, Some(its)) => {
                    let m = self.child_mod(scope, &name(n));
                    self.add_items(m, its, impls);
                }
                Item::Mod(_, None) => {}
                Item::Machine(m) => self.add_machine(scope, m, impls),
            }
        }
    }
    fn add_machine(&mut self, scope: usize, m: MachineDecl, impls: &mut Vec<(usize, Ty, Vec<Item>)>) {
        let nm = format!("{}::{}", self.scopes[scope].name, name(m.name));
        let ms = self.add_scope(nm, scope, true);
        self.scopes[scope].types.insert(m.name, TRef::Mod(ms));
        let mid = self.machines.len();
        self.scopes[ms].machine = Some(mid);
        let st = self.add_type(
            ms,
            TypeDecl { name: sym("State"), generics: vec![], variants: vec![(sym("State"), false, m.fields.iter().map(|x| (x.0, x.1.clone())).collect())], is_struct: true },
            Some(mid),
        );
        let mut trans = vec![];
        for mut t in m.trans {
            t.scope = ms;
            trans.push(Rc::new(t));
        }
        self.machines.push(Rc::new(Machine { name: m.name, scope: ms, state_ty: st, fields: m.fields, trans, tokenized: m.tokenized }));
        let mut rest = vec![];
        let mut methods = vec![];
        for it in m.items {
            match it {
                Item::Fn(d) => methods.push(Item::Fn(d)),
                o => rest.push(o),
            }
        }
        self.add_items(ms, rest, impls);
        impls.push((ms, Ty::Named(vec![sym("State")], vec![]), methods));
    }
    fn add_impl(&mut self, scope: usize, ty: Ty, its: Vec<Item>) {
        let target = self.resolve_ty_base(scope, &ty, 0);
        for it in its {
            match it {
                Item::Fn(d) => {
                    if d.mode != FnMode::Spec {
                        continue;
                    }
                    let n = d.name;
                    match target {
                        Some(TyBase::Type(tid)) => {
                            let owner = name(self.types[tid].full).to_string();
                            let fid = self.add_fn(scope, d, Some(tid), &owner);
                            self.types[tid].methods.insert(n, fid);
                        }
                        Some(TyBase::Builtin(b)) => {
                            let owner = name(b).to_string();
                            let fid = self.add_fn(scope, d, None, &owner);
                            self.ext_methods.insert((b, n), fid);
                        }
                        None => {}
                    }
                }
                Item::Alias(..) => {}
                _ => {}
            }
        }
    }
    pub fn resolve_ty_base(&self, scope: usize, ty: &Ty, depth: u32) -> Option<TyBase> {
        if depth > 20 {
            return None;
        }
        match ty {
            Ty::Named(segs, _) => match self.resolve(scope, segs, None, true)? {
                PRes::Type(t) => Some(TyBase::Type(t)),
                PRes::BuiltinTy(b) => Some(TyBase::Builtin(b)),
                _ => None,
            },
            _ => None,
        }
    }
    /// Look up one name in a scope. `types`: namespace.
    fn lookup(&self, scope: usize, s: Sym, types: bool, depth: u32) -> Option<Ent> {
        if depth > 12 {
            return None;
        }
        let sc = &self.scopes[scope];
        if types {
            if let Some(t) = sc.types.get(&s) {
                return Some(Ent::T(*t));
            }
        } else if let Some(f) = sc.fns.get(&s) {
            return Some(Ent::F(*f));
        }
        for (a, p) in &sc.uses {
            if *a == s {
                if p.len() == 1 && p[0] == s {
                    continue;
                }
                if let Some(e) = self.walk(scope, p, types, depth + 1) {
                    return Some(e);
                }
            }
        }
        for g in &sc.globs {
            if let Some(Ent::T(tr)) = self.walk(scope, g, true, depth + 1) {
                match tr {
                    TRef::Mod(m) if m != scope => {
                        if let Some(e) = self.lookup_in(m, s, types, depth + 1) {
                            return Some(e);
                        }
                    }
                    TRef::Type(t) => {
                        if let Some(c) = self.types[t].ctors.iter().find(|c| c.name == s) {
                            return Some(Ent::C(c.clone()));
                        }
                    }
                    _ => {}
                }
            }
        }
        if sc.inherit {
            if let Some(p) = sc.parent {
                return self.lookup(p, s, types, depth + 1);
            }
        }
        None
    }
    /// lookup from outside a module (public names, incl. its re-exports)
    fn lookup_in(&self, m: usize, s: Sym, types: bool, depth: u32) -> Option<Ent> {
        if depth > 12 {
            return None;
        }
        let sc = &self.scopes[m];
        if types {
            if let Some(t) = sc.types.get(&s) {
                return Some(Ent::T(*t));
            }
        } else if let Some(f) = sc.fns.get(&s) {
            return Some(Ent::F(*f));
        }
        for (a, p) in &sc.uses {
            if *a == s && !(p.len() == 1 && p[0] == s) {
                if let Some(e) = self.walk(m, p, types, depth + 1) {
                    return Some(e);
                }
            }
        }
        for g in &sc.globs {
            if let Some(Ent::T(tr)) = self.walk(m, g, true, depth + 1) {
                match tr {
                    TRef::Mod(x) if x != m => {
                        let sc = &self.scopes[x];
                        if types {
                            if let Some(t) = sc.types.get(&s) {
                                return Some(Ent::T(*t));
                            }
                        } else if let Some(f) = sc.fns.get(&s) {
                            return Some(Ent::F(*f));
                        }
                    }
                    _ => {}
                }
            }
        }
        None
    }
    fn walk(&self, scope: usize, p: &[Sym], types: bool, depth: u32) -> Option<Ent> {
        if depth > 12 {
            return None;
        }
        let n0 = name(p[0]);
        let (mut cur, mut i) = match &*n0 {
            "crate" => (TRef::Mod(0), 1),
            "self" => (TRef::Mod(scope), 1),
            "super" => (TRef::Mod(self.scopes[scope].parent?), 1),
            "vstd" | "builtin" | "builtin_macros" | "std" | "core" | "alloc" | "state_machines_macros" | "verus_builtin" => {
                // Option/None/Some re-exports
                let l = *p.last().unwrap();
                return self.scopes[0].types.get(&l).map(|t| Ent::T(*t));
            }
            _ => {
                if p.len() == 1 {
                    return self.lookup(scope, p[0], types, depth + 1);
                }
                match self.lookup(scope, p[0], true, depth + 1) {
                    Some(Ent::T(t)) => (t, 1),
                    _ => match self.scopes[0].types.get(&p[0]) {
                        Some(t) => (*t, 1),
                        None => return None,
                    },
                }
            }
        };
        while i < p.len() {
            let last = i + 1 == p.len();
            match cur {
                TRef::Mod(m) => {
                    let s = p[i];
                    if &*name(s) == "super" {
                        cur = TRef::Mod(self.scopes[m].parent?);
                        i += 1;
                        continue;
                    }
                    if last && !types {
                        return self.lookup_in(m, s, false, depth + 1).or_else(|| self.lookup_in(m, s, true, depth + 1));
                    }
                    match self.lookup_in(m, s, true, depth + 1)? {
                        Ent::T(t) => cur = t,
                        o => return if last { Some(o) } else { None },
                    }
                }
                TRef::Type(t) => {
                    let c = self.types[t].ctors.iter().find(|c| c.name == p[i])?;
                    return Some(Ent::C(c.clone()));
                }
                TRef::Alias(a) => {
                    let b = self.resolve_ty_base(self.aliases[a].scope, &self.aliases[a].ty, depth + 1)?;
                    match b {
                        TyBase::Type(t) => {
                            cur = TRef::Type(t);
                            continue;
                        }
                        _ => return None,
                    }
                }
            }
            i += 1;
        }
        Some(Ent::T(cur))
    }

    fn finish_type(&self, t: TRef) -> Option<PRes> {
        match t {
            TRef::Type(t) => Some(PRes::Type(t)),
            TRef::Mod(m) => Some(PRes::Mod(m)),
            TRef::Alias(a) => {
                let al = &self.aliases[a];
                match &al.ty {
                    Ty::Named(segs, _) => self.resolve(al.scope, segs, None, true),
                    _ => None,
                }
            }
        }
    }

    /// Resolve a path used in an expression (types=false) or as a type.
    pub fn resolve(&self, scope: usize, segs: &[Sym], self_ty: Option<usize>, types: bool) -> Option<PRes> {
        // cache does not depend on self_ty except when the first segment is Self
        let n0 = name(segs[0]);
        if &*n0 == "Self" {
            let t = self_ty?;
            return if segs.len() == 1 { Some(PRes::Type(t)) } else { self.member(PRes::Type(t), &segs[1..]) };
        }
        let key = (scope, segs.to_vec(), types);
        if let Some(r) = self.path_cache.borrow().get(&key) {
            return r.clone();
        }
        let r = self.resolve_uncached(scope, segs, types);
        self.path_cache.borrow_mut().insert(key, r.clone());
        r
    }
    fn resolve_uncached(&self, scope: usize, segs: &[Sym], types: bool) -> Option<PRes> {
        let n0 = name(segs[0]);
        if segs.len() == 1 {
            if !types {
                match self.lookup(scope, segs[0], false, 0) {
                    Some(Ent::F(f)) => return Some(PRes::Fn(f)),
                    Some(Ent::C(c)) => return Some(PRes::Ctor(c)),
                    _ => {}
                }
            }
            match self.lookup(scope, segs[0], true, 0) {
                Some(Ent::T(t)) => return self.finish_type(t),
                Some(Ent::C(c)) => return Some(PRes::Ctor(c)),
                _ => {}
            }
            match &*n0 {
                "None" => return Some(PRes::Ctor(self.none.clone().unwrap())),
                "Some" => return Some(PRes::Ctor(self.some.clone().unwrap())),
                "Ok" => return Some(PRes::Ctor(self.ok.clone().unwrap())),
                "Err" => return Some(PRes::Ctor(self.err.clone().unwrap())),
                "Option" => return Some(PRes::Type(self.option_ty)),
                "Result" => return Some(PRes::Type(self.result_ty)),
                _ => {}
            }
            if BUILTIN_TYPES.contains(&&*n0) {
                return Some(PRes::BuiltinTy(segs[0]));
            }
            return self.generics.get(&segs[0]).map(|t| PRes::Type(*t));
        }
        // longest-prefix walk
        if matches!(&*n0, "vstd" | "std" | "core" | "builtin" | "alloc") {
            // vstd::math::max etc.
            let l = segs.len();
            return Some(PRes::Builtin(segs[l - 2], segs[l - 1]));
        }
        let first: Option<PRes> = match &*n0 {
            "crate" => Some(PRes::Mod(0)),
            "self" => Some(PRes::Mod(scope)),
            "super" => self.scopes[scope].parent.map(PRes::Mod),
            _ => self.resolve_uncached(scope, &segs[..1], true).or_else(|| {
                // `use vstd::math;` style
                None
            }),
        };
        match first {
            Some(f) => self.member(f, &segs[1..]),
            None => Some(PRes::Builtin(segs[segs.len() - 2], segs[segs.len() - 1])),
        }
    }
    fn member(&self, cur: PRes, rest: &[Sym]) -> Option<PRes> {
        if rest.is_empty() {
            return Some(cur);
        }
        let s = rest[0];
        match cur {
            PRes::Mod(m) => {
                if let Some(mid) = self.scopes[m].machine {
                    let n = name(s);
                    if (&*n == "Config" || &*n == "Step" || &*n == "show") && self.lookup_in(m, s, true, 0).is_none() {
                        return Some(PRes::MachineOp(mid, s, rest.get(1).copied()));
                    }
                }
                if &*name(s) == "super" {
                    return self.member(PRes::Mod(self.scopes[m].parent?), &rest[1..]);
                }
                if rest.len() == 1 {
                    if let Some(Ent::F(f)) = self.lookup_in(m, s, false, 0) {
                        return Some(PRes::Fn(f));
                    }
                }
                match self.lookup_in(m, s, true, 0)? {
                    Ent::T(t) => {
                        let t = self.finish_type(t)?;
                        self.member(t, &rest[1..])
                    }
                    Ent::C(c) => Some(PRes::Ctor(c)),
                    Ent::F(f) => Some(PRes::Fn(f)),
                }
            }
            PRes::Type(t) => {
                let ti = &self.types[t];
                if let Some(mid) = ti.machine {
                    match &*name(s) {
                        "next" | "init" | "init_by" | "next_by" | "next_strong" | "next_strong_by" | "safety" if !ti.methods.contains_key(&s) => return Some(PRes::MachineOp(mid, s, None)),
                        _ => {}
                    }
                }
                if let Some(mid) = ti.machine {
                    if !ti.methods.contains_key(&s) && self.machines[mid].trans.iter().any(|t| t.name == s) {
                        return Some(PRes::MachineOp(mid, s, None));
                    }
                }
                if !ti.is_struct {
                    if let Some(c) = ti.ctors.iter().find(|c| c.name == s) {
                        return Some(PRes::Ctor(c.clone()));
                    }
                }
                if let Some(f) = ti.methods.get(&s) {
                    return Some(PRes::Fn(*f));
                }
                if let Some(f) = self.trait_methods.get(&s) {
                    return Some(PRes::Fn(*f));
                }
                if t == self.option_ty || t == self.result_ty {
                    return Some(PRes::Builtin(ti.name, s));
                }
                None
            }
            PRes::BuiltinTy(b) => {
                if let Some(f) = self.ext_methods.get(&(b, s)) {
                    return Some(PRes::Fn(*f));
                }
                Some(PRes::Builtin(b, s))
            }
            _ => None,
        }
    }
    /// alias visible under a single name in a scope: (aliased type, scope it is written in)
    pub fn find_alias(&self, scope: usize, s: Sym) -> Option<(Ty, usize)> {
        if let Some(r) = self.alias_cache.borrow().get(&(scope, s)) {
            return r.clone();
        }
        let r = match self.lookup(scope, s, true, 0) {
            Some(Ent::T(TRef::Alias(a))) => Some((self.aliases[a].ty.clone(), self.aliases[a].scope)),
            _ => None,
        };
        self.alias_cache.borrow_mut().insert((scope, s), r.clone());
        r
    }
    pub fn find_fn(&self, full: &str) -> Option<usize> {
        self.fns.iter().position(|f| f.full == full)
    }
    pub fn find_mod(&self, path: &str) -> Option<usize> {
        let mut cur = 0;
        for s in path.split("::") {
            match self.scopes[cur].types.get(&sym(s)) {
                Some(TRef::Mod(m)) => cur = *m,
                _ => return None,
            }
        }
        Some(cur)
    }
    pub fn find_type(&self, module: &str, ty: &str) -> Option<usize> {
        let m = self.find_mod(module)?;
        match self.scopes[m].types.get(&sym(ty))? {
            TRef::Type(t) => Some(*t),
            TRef::Alias(a) => match self.resolve_ty_base(m, &self.aliases[*a].ty, 0)? {
                TyBase::Type(t) => Some(t),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn find_machine(&self, module: &str, n: &str) -> Option<usize> {
        let m = self.find_mod(module)?;
        match self.scopes[m].types.get(&sym(n))? {
            TRef::Mod(x) => self.scopes[*x].machine,
            _ => None,
        }
    }
    pub fn loc(&self, p: Pos) -> String {
        format!("{}:{}", self.files.get(p.file as usize).map(|s| s.as_str()).unwrap_or("?"), p.line)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TyBase {
    Type(usize),
    Builtin(Sym),
}
#[derive(Clone)]
enum Ent {
    T(TRef),
    F(usize),
    C(Rc<Ctor>),
}

/// untyped bound variables used as `p.contains(k)`, `p.contains_key(k)` or `p[k]` with p a parameter of
/// a declared collection type: note the type of k on the binder
fn note_binder_types(e: &EP, params: &[(Sym, Ty)]) {
    let mut note = |at: &EP, s: Sym, body: &EP| {
        let mut stack = vec![body.clone()];
        while let Some(x) = stack.pop() {
            let hit = match &x.k {
                EK::Method(r, m, _, a) if a.len() == 1 && matches!(&*name(*m), "contains" | "contains_key" | "count") => Some((r.clone(), a[0].clone())),
                EK::Index(r, i) => Some((r.clone(), i.clone())),
                _ => None,
            };
            if let Some((r, a)) = hit {
                if let (EK::Path(rp), EK::Path(ap)) = (&r.k, &a.k) {
                    if rp.segs.len() == 1 && ap.segs.len() == 1 && ap.segs[0] == s {
                        if let Some((_, Ty::Named(seg, targs))) = params.iter().find(|p| p.0 == rp.segs[0]) {
                            if matches!(&*name(*seg.last().unwrap()), "Set" | "Map" | "ISet" | "IMap" | "Multiset") && !targs.is_empty() {
                                let _ = at.dom_cache.set(Some(targs[0].clone()));
                                return;
                            }
                        }
                    }
                }
            }
            crate::eval::children(&x, &mut |c| stack.push(c.clone()));
        }
    };
    if let EK::Quant(_, vs, body, _) = &e.k {
        if vs.len() == 1 && vs[0].1 == Ty::Any {
            note(e, vs[0].0, body);
        }
    }
    crate::eval::children(e, &mut |c| note_binder_types(c, params));
}
