//! Dafny modules: imports, refinement, functors, and name resolution into the shared expression language.
use crate::ast::*;
use crate::dparse::*;
use crate::prog::*;
use crate::value::*;
use crate::vparse::{FnDecl, FnMode, TypeDecl};
use std::collections::{HashMap, HashSet};
use std::path::{Path as FsPath, PathBuf};
use std::rc::Rc;

pub struct MethodInfo {
    pub full: Sym,
    pub params: Vec<DParam>,
    pub outs: Vec<DParam>,
    pub self_ty: Option<usize>,
    pub self_inout: bool,
    pub ctor: bool,
    pub lemma: bool,
    pub body: Option<Block>,
    pub requires: Vec<EP>,
    pub ensures: Vec<EP>,
    pub pos: Pos,
}
#[derive(Default)]
pub struct DafnyInfo {
    pub methods: Vec<MethodInfo>,
    pub by_name: HashMap<Sym, usize>,
    pub by_type: HashMap<(usize, Sym), usize>,
    pub classes: HashMap<usize, Vec<(Sym, Ty)>>,
    /// constants that belong to an instance
    pub requires: HashMap<usize, Vec<EP>>,
    pub ghost_fields: HashSet<(usize, usize, usize)>,
    pub ghost_params: HashSet<(usize, usize)>,
    pub ghost_class_fields: HashSet<(usize, Sym)>,
    /// compiled functions (`function method`)
    pub exec: HashSet<usize>,
}

struct Inst {
    name: String,
    decls: Vec<Rc<DDecl>>,
    parents: Vec<usize>,
    binds: HashMap<Sym, usize>,
    mods: HashMap<Sym, usize>,
    busy: HashSet<Sym>,
    opened: Vec<usize>,
    types: HashMap<Sym, TE>,
    fns: HashMap<Sym, Sym>,
    ctors: HashMap<Sym, (Sym, usize)>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum TE {
    /// unique name, type index
    Data(Sym, usize),
    Alias(Sym),
}
enum Ent {
    Mod(usize),
    Type(TE),
    /// function, method or constant by unique name
    Fn(Sym),
    Ctor(Sym, Sym, usize),
}

pub struct Loader {
    top: HashMap<Sym, Rc<DModule>>,
    insts: Vec<Inst>,
    cache: HashMap<(usize, Option<usize>, Vec<usize>), usize>,
    pub p: Prog,
    seen: HashSet<PathBuf>,
    todo_fn: Vec<(usize, usize, Option<usize>, Rc<DDecl>)>,
    todo_ty: Vec<(usize, usize, Rc<DDecl>)>,
    todo_alias: Vec<(usize, usize, Rc<DDecl>)>,
    todo_m: Vec<(usize, usize, Rc<DDecl>)>,
    members: HashMap<usize, HashMap<Sym, Member>>,
    keep: Vec<Rc<DModule>>,
    /// all constructors by name
    all_ctors: HashMap<Sym, Vec<usize>>,
    fresh: u32,
}
#[derive(Clone, Copy)]
enum Member {
    Field,
    Fn(Sym, bool, usize),
    Method(Sym, bool),
    Const(Sym, bool),
}

struct Loc {
    vars: Vec<Sym>,
    inst: usize,
    self_ty: Option<usize>,
    has_this: bool,
    generics: Vec<Sym>,
    /// evaluate variables as of the start of the method
    old: bool,
}

fn path(segs: Vec<Sym>) -> Path {
    Path { segs, targs: vec![] }
}

impl Loader {
    pub fn load(root: &FsPath, files: &[&str], roots: &[&str]) -> Result<Prog, String> {
        let mut l = Loader {
            top: HashMap::new(),
            insts: vec![],
            cache: HashMap::new(),
            p: Prog::new(),
            seen: HashSet::new(),
            todo_fn: vec![],
            todo_ty: vec![],
            todo_alias: vec![],
            todo_m: vec![],
            members: HashMap::new(),
            keep: vec![],
            all_ctors: HashMap::new(),
            fresh: 0,
        };
        for f in files {
            let full = if f.starts_with('/') { PathBuf::from(f) } else { root.join(f) };
            l.file(root, &full)?;
        }
        for r in roots {
            let Some(m) = l.top.get(&sym(r)).cloned() else { return Err(format!("no module {}", r)) };
            l.inst(&m, None, vec![])?;
        }
        l.finish()?;
        Ok(l.p)
    }
    fn file(&mut self, root: &FsPath, full: &FsPath) -> Result<(), String> {
        let canon = full.canonicalize().map_err(|e| format!("cannot read {}: {}", full.display(), e))?;
        if !self.seen.insert(canon.clone()) {
            return Ok(());
        }
        let src = std::fs::read_to_string(&canon).map_err(|e| format!("cannot read {}: {}", full.display(), e))?;
        let fid = self.p.files.len() as u32;
        let shown = canon.strip_prefix(root).unwrap_or(&canon).to_string_lossy().to_string();
        self.p.files.push(shown.clone());
        let mut d = DP::new(&src, fid).map_err(|e| format!("{}: {}", shown, e))?;
        let decls = d.file_decls();
        for e in &d.errors {
            self.p.parse_errors.push(format!("{}: {}", shown, e));
        }
        for inc in &d.includes {
            let p = canon.parent().unwrap().join(inc);
            if p.exists() {
                self.file(root, &p)?;
            }
        }
        let mut loose = vec![];
        for d in decls {
            match &*d {
                DDecl::Module(m) => {
                    self.top.insert(m.name, m.clone());
                }
                _ => loose.push(d),
            }
        }
        if !loose.is_empty() {
            let n = sym("_default");
            let mut all = self.top.get(&n).map(|m| m.decls.clone()).unwrap_or_default();
            all.extend(loose);
            self.top.insert(n, Rc::new(DModule { name: n, params: vec![], refines: None, decls: all, file: fid }));
        }
        Ok(())
    }

    // ---------- modules ----------
    fn inst(&mut self, m: &Rc<DModule>, parent: Option<usize>, args: Vec<usize>) -> Result<usize, String> {
        let key = (Rc::as_ptr(m) as usize, parent, args.clone());
        if let Some(i) = self.cache.get(&key) {
            return Ok(*i);
        }
        self.keep.push(m.clone());
        let id = self.insts.len();
        self.cache.insert(key, id);
        let mut nm = match parent {
            Some(p) => format!("{}.{}", self.insts[p].name, name(m.name)),
            None => name(m.name).to_string(),
        };
        if !args.is_empty() {
            nm = format!("{}({})", nm, args.iter().map(|a| self.insts[*a].name.clone()).collect::<Vec<_>>().join(","));
        }
        let mut binds = HashMap::new();
        for ((p, bound), a) in m.params.iter().zip(args.iter().map(|a| Some(*a)).chain(std::iter::repeat(None))) {
            let _ = bound;
            if let Some(a) = a {
                binds.insert(*p, a);
            }
        }
        self.insts.push(Inst {
            name: nm,
            decls: vec![],
            parents: parent.into_iter().collect(),
            binds,
            mods: HashMap::new(),
            busy: HashSet::new(),
            opened: vec![],
            types: HashMap::new(),
            fns: HashMap::new(),
            ctors: HashMap::new(),
        });
        // unapplied parameters stand for their bounds
        for (p, bound) in m.params.iter().skip(args.len()) {
            let b = self.mexp(id, bound, None)?;
            self.insts[id].binds.insert(*p, b);
        }
        let mut decls: Vec<Rc<DDecl>> = vec![];
        if let Some(r) = &m.refines {
            // the base module is looked up outside this one, or through its parameters
            let b = self.mexp(id, r, Some(m.name))?;
            decls = self.insts[b].decls.clone();
            let bb = self.insts[b].binds.clone();
            for (k, v) in bb {
                self.insts[id].binds.entry(k).or_insert(v);
            }
            let bp = self.insts[b].parents.clone();
            for x in bp {
                if !self.insts[id].parents.contains(&x) {
                    self.insts[id].parents.push(x);
                }
            }
        }
        for d in &m.decls {
            merge(&mut decls, d.clone());
        }
        self.insts[id].decls = decls.clone();
        // force imports
        for d in &decls {
            if let DDecl::Import { opened, alias, .. } = &**d {
                match self.get_mod(id, *alias, None)? {
                    Some(x) => {
                        if *opened {
                            self.insts[id].opened.push(x);
                        }
                    }
                    None => return Err(format!("module {}: cannot find import {}", self.insts[id].name, name(*alias))),
                }
            }
            if let DDecl::Module(_) = &**d {}
        }
        self.declare(id);
        for d in &decls {
            if let DDecl::Module(n) = &**d {
                if n.params.is_empty() {
                    self.get_mod(id, n.name, None)?;
                }
            }
        }
        Ok(id)
    }
    fn find_module_decl(&self, i: usize, n: Sym) -> Option<Rc<DModule>> {
        self.insts[i].decls.iter().find_map(|d| match &**d {
            DDecl::Module(m) if m.name == n => Some(m.clone()),
            _ => None,
        })
    }
    /// module visible under one name inside instance i
    fn get_mod(&mut self, i: usize, n: Sym, skip: Option<Sym>) -> Result<Option<usize>, String> {
        if skip != Some(n) {
            if let Some(x) = self.insts[i].binds.get(&n) {
                return Ok(Some(*x));
            }
            if let Some(x) = self.insts[i].mods.get(&n) {
                return Ok(Some(*x));
            }
            let imp = self.insts[i].decls.iter().rev().find_map(|d| match &**d {
                DDecl::Import { alias, path, .. } if *alias == n => Some(path.clone()),
                _ => None,
            });
            if let Some(p) = imp {
                if self.insts[i].busy.insert(n) {
                    let r = self.mexp(i, &p, if p.segs[0] == n { Some(n) } else { None });
                    self.insts[i].busy.remove(&n);
                    let r = r?;
                    self.insts[i].mods.insert(n, r);
                    return Ok(Some(r));
                }
            }
            if let Some(m) = self.find_module_decl(i, n) {
                let r = self.inst(&m, Some(i), vec![])?;
                self.insts[i].mods.insert(n, r);
                return Ok(Some(r));
            }
        }
        for o in self.insts[i].opened.clone() {
            if let Some(x) = self.insts[o].binds.get(&n).or_else(|| self.insts[o].mods.get(&n)) {
                return Ok(Some(*x));
            }
        }
        for p in self.insts[i].parents.clone() {
            if let Some(x) = self.get_mod(p, n, None)? {
                return Ok(Some(x));
            }
        }
        if let Some(m) = self.top.get(&n).cloned() {
            return Ok(Some(self.inst(&m, None, vec![])?));
        }
        Ok(None)
    }
    /// resolve a module expression as seen from instance i
    fn mexp(&mut self, i: usize, m: &MExp, skip: Option<Sym>) -> Result<usize, String> {
        let show = || m.segs.iter().map(|s| name(*s).to_string()).collect::<Vec<_>>().join(".");
        if !m.args.is_empty() {
            // functor application: find the declaration
            let mut decl = None;
            if m.segs.len() == 1 {
                let mut ps = vec![i];
                while let Some(x) = ps.pop() {
                    if let Some(d) = self.find_module_decl(x, m.segs[0]) {
                        decl = Some((d, Some(x)));
                        break;
                    }
                    ps.extend(self.insts[x].parents.clone());
                }
                if decl.is_none() {
                    decl = self.top.get(&m.segs[0]).map(|d| (d.clone(), None));
                }
            }
            let Some((d, par)) = decl else { return Err(format!("no functor {}", show())) };
            let mut a = vec![];
            for x in &m.args {
                a.push(self.mexp(i, x, None)?);
            }
            return self.inst(&d, par, a);
        }
        let mut cur = match self.get_mod(i, m.segs[0], skip)? {
            Some(x) => x,
            None => return Err(format!("module {}: cannot find module {}", self.insts[i].name, show())),
        };
        for s in &m.segs[1..] {
            cur = match self.get_mod_in(cur, *s)? {
                Some(x) => x,
                None => return Err(format!("module {}: cannot find module {}", self.insts[i].name, show())),
            };
        }
        Ok(cur)
    }
    fn get_mod_in(&mut self, i: usize, n: Sym) -> Result<Option<usize>, String> {
        if let Some(x) = self.insts[i].binds.get(&n).or_else(|| self.insts[i].mods.get(&n)) {
            return Ok(Some(*x));
        }
        let has = self.insts[i].decls.iter().any(|d| match &**d {
            DDecl::Import { alias, .. } => *alias == n,
            DDecl::Module(m) => m.name == n,
            _ => false,
        });
        if has {
            return self.get_mod(i, n, None);
        }
        Ok(None)
    }

    // ---------- declarations ----------
    fn uniq(&self, i: usize, n: Sym) -> Sym {
        sym(&format!("{}.{}", self.insts[i].name, name(n)))
    }
    fn new_type(&mut self, u: Sym, generics: Vec<Sym>, ctors: &[(Sym, Vec<(Sym, Ty)>)]) -> usize {
        let variants = ctors.iter().map(|(n, fs)| (*n, false, fs.iter().map(|(f, _)| (*f, Ty::Any)).collect())).collect();
        let tid = self.p.add_type(0, TypeDecl { name: u, generics, variants, is_struct: false }, None);
        self.p.types[tid].full = u;
        tid
    }
    fn declare(&mut self, i: usize) {
        let decls = self.insts[i].decls.clone();
        for d in &decls {
            match &**d {
                DDecl::Data { name: n, generics, ctors, ghosts, members } => {
                    let u = self.uniq(i, *n);
                    let tid = self.new_type(u, generics.clone(), ctors);
                    self.insts[i].types.insert(*n, TE::Data(u, tid));
                    for (k, (c, _)) in ctors.iter().enumerate() {
                        self.insts[i].ctors.insert(*c, (u, k));
                        self.all_ctors.entry(*c).or_default().push(tid);
                    }
                    self.todo_ty.push((i, tid, d.clone()));
                    for (k, j) in ghosts {
                        self.p.dafny.ghost_fields.insert((tid, *k, *j));
                    }
                    let mut mem = HashMap::new();
                    for (_, fs) in ctors {
                        for (f, _) in fs {
                            mem.insert(*f, Member::Field);
                        }
                    }
                    self.declare_members(i, tid, u, members, mem);
                }
                DDecl::Class { name: n, generics, fields, ghosts, members } => {
                    let u = self.uniq(i, *n);
                    let tid = self.new_type(u, generics.clone(), &[]);
                    self.insts[i].types.insert(*n, TE::Data(u, tid));
                    self.p.dafny.classes.insert(tid, fields.clone());
                    for g in ghosts {
                        self.p.dafny.ghost_class_fields.insert((tid, *g));
                    }
                    let mem = fields.iter().map(|f| (f.0, Member::Field)).collect();
                    self.declare_members(i, tid, u, members, mem);
                }
                DDecl::Type { name: n, generics, ty } => {
                    let u = self.uniq(i, *n);
                    match ty {
                        None => {
                            let tid = self.new_type(u, generics.clone(), &[]);
                            self.insts[i].types.insert(*n, TE::Data(u, tid));
                        }
                        Some(_) => {
                            let aid = self.p.aliases.len();
                            self.p.aliases.push(AliasInfo { name: u, scope: 0, ty: Ty::Any, generics: generics.clone() });
                            self.p.scopes[0].types.insert(u, TRef::Alias(aid));
                            self.insts[i].types.insert(*n, TE::Alias(u));
                            self.todo_alias.push((i, aid, d.clone()));
                        }
                    }
                }
                DDecl::Const { name: n, .. } | DDecl::Func(DFn { name: n, .. }) => {
                    let u = self.uniq(i, *n);
                    self.add_fn(i, u, None, d);
                    self.insts[i].fns.insert(*n, u);
                }
                DDecl::Method(m) => {
                    let u = self.uniq(i, m.name);
                    self.add_method(i, u, None, d);
                    self.insts[i].fns.insert(m.name, u);
                }
                DDecl::Import { .. } | DDecl::Module(_) => {}
            }
        }
    }
    fn add_fn(&mut self, i: usize, u: Sym, self_ty: Option<usize>, d: &Rc<DDecl>) -> usize {
        let fid = self.p.fns.len();
        if !matches!(&**d, DDecl::Func(f) if !f.executable) {
            self.p.dafny.exec.insert(fid);
        }
        let (params, statik, ret, pos) = match &**d {
            DDecl::Func(f) => (f.params.iter().map(|p| p.name).collect::<Vec<_>>(), f.statik, f.ret.clone(), f.pos),
            DDecl::Const { ty, pos, .. } => (vec![], false, ty.clone(), *pos),
            _ => unreachable!(),
        };
        let has_self = self_ty.is_some() && !statik;
        let mut all = vec![];
        if has_self {
            all.push(sym("this"));
        }
        all.extend(params.iter().copied());
        self.p.fns.push(FnInfo {
            d: FnDecl {
                name: u,
                params: params.iter().map(|p| (*p, Ty::Any)).collect(),
                ret,
                has_self,
                recursive: false,
                body: None,
                mode: FnMode::Spec,
                pos,
                when: None,
                recommends: vec![],
            },
            scope: 0,
            self_ty,
            full: name(u).to_string(),
            all_params: all,
        });
        self.p.scopes[0].fns.insert(u, fid);
        if let DDecl::Func(f) = &**d {
            for (k, q) in f.params.iter().enumerate() {
                if q.ghost {
                    self.p.dafny.ghost_params.insert((fid, k));
                }
            }
        }
        self.todo_fn.push((i, fid, self_ty, d.clone()));
        fid
    }
    fn add_method(&mut self, i: usize, u: Sym, self_ty: Option<usize>, d: &Rc<DDecl>) -> usize {
        let DDecl::Method(m) = &**d else { unreachable!() };
        let mid = self.p.dafny.methods.len();
        self.p.dafny.methods.push(MethodInfo {
            full: u,
            params: m.params.clone(),
            outs: m.outs.clone(),
            self_ty: if m.statik { None } else { self_ty },
            self_inout: m.self_inout,
            ctor: m.ctor,
            lemma: m.lemma,
            body: None,
            requires: vec![],
            ensures: vec![],
            pos: m.pos,
        });
        self.p.dafny.by_name.insert(u, mid);
        self.todo_m.push((i, mid, d.clone()));
        mid
    }
    fn declare_members(&mut self, i: usize, tid: usize, u: Sym, members: &[Rc<DDecl>], mut mem: HashMap<Sym, Member>) {
        for d in members {
            match &**d {
                DDecl::Func(f) => {
                    let uf = sym(&format!("{}.{}", name(u), name(f.name)));
                    let fid = self.add_fn(i, uf, Some(tid), d);
                    if !f.statik {
                        self.p.types[tid].methods.insert(f.name, fid);
                    }
                    mem.insert(f.name, Member::Fn(uf, f.statik, fid));
                }
                DDecl::Const { name: n, .. } => {
                    let uf = sym(&format!("{}.{}", name(u), name(*n)));
                    let fid = self.add_fn(i, uf, Some(tid), d);
                    self.p.types[tid].methods.insert(*n, fid);
                    mem.insert(*n, Member::Const(uf, false));
                }
                DDecl::Method(m) => {
                    let uf = sym(&format!("{}.{}", name(u), name(m.name)));
                    let mid = self.add_method(i, uf, Some(tid), d);
                    self.p.dafny.by_type.insert((tid, m.name), mid);
                    mem.insert(m.name, Member::Method(uf, m.statik));
                }
                _ => {}
            }
        }
        self.members.insert(tid, mem);
    }

    // ---------- lowering ----------
    fn finish(&mut self) -> Result<(), String> {
        for (i, aid, d) in std::mem::take(&mut self.todo_alias) {
            let DDecl::Type { ty: Some(t), generics, .. } = &*d else { continue };
            let t = self.ty(i, generics, t);
            self.p.aliases[aid].ty = t;
        }
        for (i, tid, d) in std::mem::take(&mut self.todo_ty) {
            let DDecl::Data { ctors, generics, .. } = &*d else { continue };
            for (k, (_, fs)) in ctors.iter().enumerate() {
                for (j, (_, t)) in fs.iter().enumerate() {
                    let t = self.ty(i, generics, t);
                    self.p.types[tid].ftys[k][j] = t;
                }
            }
        }
        for (i, fid, self_ty, d) in std::mem::take(&mut self.todo_fn) {
            match &*d {
                DDecl::Func(f) => {
                    let mut g = f.generics.clone();
                    if let Some(t) = self_ty {
                        g.extend(self.p.types[t].generics.clone());
                    }
                    let mut l = Loc { vars: f.params.iter().map(|p| p.name).collect(), inst: i, self_ty, has_this: self_ty.is_some() && !f.statik, generics: g.clone(), old: false };
                    let ret = self.ty(i, &g, &f.ret);
                    let params: Vec<(Sym, Ty)> = f.params.iter().map(|p| (p.name, self.ty(i, &g, &p.ty))).collect();
                    let body = f.body.as_ref().map(|b| self.e(&mut l, b));
                    let req: Vec<EP> = f.requires.iter().map(|b| self.e(&mut l, b)).collect();
                    let rec = body.as_ref().map_or(false, |b| calls(b, f.name) || calls(b, self.p.fns[fid].d.name));
                    let fi = &mut self.p.fns[fid];
                    fi.d.ret = ret;
                    fi.d.params = params;
                    fi.d.body = body;
                    fi.d.recursive = rec;
                    self.p.dafny.requires.insert(fid, req);
                }
                DDecl::Const { ty, val, .. } => {
                    let g = self_ty.map(|t| self.p.types[t].generics.clone()).unwrap_or_default();
                    let mut l = Loc { vars: vec![], inst: i, self_ty, has_this: self_ty.is_some(), generics: g.clone(), old: false };
                    let ret = self.ty(i, &g, ty);
                    let body = val.as_ref().map(|b| self.e(&mut l, b));
                    let fi = &mut self.p.fns[fid];
                    fi.d.ret = ret;
                    fi.d.body = body;
                    fi.d.recursive = true;
                }
                _ => {}
            }
        }
        for (i, mid, d) in std::mem::take(&mut self.todo_m) {
            let DDecl::Method(m) = &*d else { continue };
            let self_ty = self.p.dafny.methods[mid].self_ty;
            // static members still see their type's static names
            let lex_ty = self_ty.or_else(|| self.owner_of(mid));
            let mut g = m.generics.clone();
            if let Some(t) = lex_ty {
                g.extend(self.p.types[t].generics.clone());
            }
            let mut l = Loc { vars: m.params.iter().chain(m.outs.iter()).map(|p| p.name).collect(), inst: i, self_ty: lex_ty, has_this: self_ty.is_some(), generics: g.clone(), old: false };
            for p in &m.params {
                l.vars.push(sym(&format!("old_{}", name(p.name))));
            }
            let body = m.body.as_ref().map(|b| self.block(&mut l, b));
            let requires = if m.lemma { vec![] } else { m.requires.iter().map(|b| self.e(&mut l, b)).collect() };
            let ensures = if m.lemma { vec![] } else { m.ensures.iter().map(|b| self.e(&mut l, b)).collect() };
            let conv = |s: &mut Self, ps: &[DParam]| -> Vec<DParam> { ps.iter().map(|p| DParam { name: p.name, ty: s.ty(i, &g, &p.ty), inout: p.inout, ghost: p.ghost }).collect() };
            let params = conv(self, &m.params);
            let outs = conv(self, &m.outs);
            let x = &mut self.p.dafny.methods[mid];
            x.params = params;
            x.outs = outs;
            x.body = body;
            x.requires = requires;
            x.ensures = ensures;
        }
        Ok(())
    }
    fn owner_of(&self, mid: usize) -> Option<usize> {
        self.p.dafny.by_type.iter().find(|(_, m)| **m == mid).map(|(k, _)| k.0)
    }
    fn te_ty(&self, t: TE, args: Vec<Ty>) -> Ty {
        match t {
            TE::Data(u, _) | TE::Alias(u) => Ty::Named(vec![u], args),
        }
    }
    fn ty(&mut self, i: usize, generics: &[Sym], t: &Ty) -> Ty {
        match t {
            Ty::Any | Ty::Fn => t.clone(),
            Ty::Tuple(v) => Ty::Tuple(v.iter().map(|x| self.ty(i, generics, x)).collect()),
            Ty::Named(segs, args) => {
                let a: Vec<Ty> = args.iter().map(|x| self.ty(i, generics, x)).collect();
                if segs.len() == 1 {
                    if generics.contains(&segs[0]) {
                        return Ty::Named(segs.clone(), a);
                    }
                    let n = name(segs[0]);
                    if matches!(&*n, "Seq" | "Set" | "Map" | "Multiset" | "bool" | "int" | "nat" | "u8" | "u16" | "u32" | "u64" | "char" | "string" | "real" | "object" | "array") || n.starts_with("bv") {
                        return Ty::Named(segs.clone(), a);
                    }
                }
                match self.find_path(i, segs, true) {
                    Some(Ent::Type(te)) => self.te_ty(te, a),
                    _ => Ty::Any,
                }
            }
        }
    }
    /// one name in one instance, without opened imports
    fn own(&mut self, i: usize, n: Sym, types: bool) -> Option<Ent> {
        let x = &self.insts[i];
        if types {
            if let Some(t) = x.types.get(&n) {
                return Some(Ent::Type(*t));
            }
        } else {
            if let Some(u) = x.fns.get(&n) {
                return Some(Ent::Fn(*u));
            }
            if let Some((t, k)) = x.ctors.get(&n) {
                // a type with the same name as its constructor: the constructor wins in expressions
                return Some(Ent::Ctor(*t, n, *k));
            }
            if let Some(t) = x.types.get(&n) {
                return Some(Ent::Type(*t));
            }
        }
        None
    }
    fn find1(&mut self, i: usize, n: Sym, types: bool) -> Option<Ent> {
        if let Some(e) = self.own(i, n, types) {
            return Some(e);
        }
        for o in self.insts[i].opened.clone() {
            if let Some(e) = self.own(o, n, types) {
                return Some(e);
            }
        }
        for p in self.insts[i].parents.clone() {
            if let Some(e) = self.find1(p, n, types) {
                return Some(e);
            }
        }
        if let Some(m) = self.top.get(&sym("_default")).cloned() {
            if let Some(d) = self.cache.get(&(Rc::as_ptr(&m) as usize, None, vec![])).copied() {
                if d != i {
                    return self.own(d, n, types);
                }
            }
        }
        None
    }
    fn vis_mod(&self, i: usize, n: Sym) -> Option<usize> {
        if let Some(x) = self.insts[i].binds.get(&n).or_else(|| self.insts[i].mods.get(&n)) {
            return Some(*x);
        }
        for o in &self.insts[i].opened {
            if let Some(x) = self.insts[*o].binds.get(&n).or_else(|| self.insts[*o].mods.get(&n)) {
                return Some(*x);
            }
        }
        for p in &self.insts[i].parents {
            if let Some(x) = self.vis_mod(*p, n) {
                return Some(x);
            }
        }
        self.top.get(&n).and_then(|m| self.cache.get(&(Rc::as_ptr(m) as usize, None, vec![])).copied())
    }
    fn find_path(&mut self, i: usize, segs: &[Sym], types: bool) -> Option<Ent> {
        if segs.len() == 1 {
            if let Some(e) = self.find1(i, segs[0], types) {
                return Some(e);
            }
            return self.vis_mod(i, segs[0]).map(Ent::Mod);
        }
        let mut cur = match self.vis_mod(i, segs[0]) {
            Some(m) => Ent::Mod(m),
            None => self.find1(i, segs[0], true)?,
        };
        for (k, s) in segs[1..].iter().enumerate() {
            let last = k + 2 == segs.len();
            cur = self.step(cur, *s, types && last, last)?;
        }
        Some(cur)
    }
    fn step(&mut self, cur: Ent, s: Sym, types: bool, last: bool) -> Option<Ent> {
        match cur {
            Ent::Mod(m) => {
                if last {
                    if let Some(e) = self.own(m, s, types) {
                        return Some(e);
                    }
                }
                if let Some(x) = self.insts[m].binds.get(&s).or_else(|| self.insts[m].mods.get(&s)) {
                    return Some(Ent::Mod(*x));
                }
                self.own(m, s, true)
            }
            Ent::Type(te) => {
                let (u, tid) = match te {
                    TE::Data(u, tid) => (u, tid),
                    TE::Alias(u) => {
                        let Some(PRes::Type(tid)) = self.p.resolve(0, &[u], None, true) else { return None };
                        (self.p.types[tid].full, tid)
                    }
                };
                if let Some(k) = self.p.types[tid].ctors.iter().position(|c| c.name == s) {
                    return Some(Ent::Ctor(u, s, k));
                }
                match self.members.get(&tid)?.get(&s)? {
                    Member::Fn(f, _, _) | Member::Method(f, _) | Member::Const(f, _) => Some(Ent::Fn(*f)),
                    Member::Field => None,
                }
            }
            _ => None,
        }
    }
    /// module or type that an expression names, if it does
    fn prefix(&mut self, l: &Loc, e: &EP) -> Option<Ent> {
        match &e.k {
            EK::Path(p) if p.segs.len() == 1 => {
                let s = p.segs[0];
                if l.vars.contains(&s) {
                    return None;
                }
                if let Some(t) = l.self_ty {
                    if self.members.get(&t).map_or(false, |m| m.contains_key(&s)) {
                        return None;
                    }
                }
                if let Some(m) = self.vis_mod(l.inst, s) {
                    // a type of the same name in scope is preferred only when it is not also a module
                    return Some(Ent::Mod(m));
                }
                match self.find1(l.inst, s, true)? {
                    Ent::Type(t) => Some(Ent::Type(t)),
                    _ => None,
                }
            }
            EK::Field(x, f) => match self.prefix(l, x)? {
                c @ Ent::Mod(_) => match self.step(c, *f, true, true)? {
                    Ent::Mod(m) => Some(Ent::Mod(m)),
                    Ent::Type(t) => Some(Ent::Type(t)),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        }
    }
    fn ent_expr(&self, e: Ent, pos: Pos) -> Option<EP> {
        Some(match e {
            Ent::Fn(u) => mk(EK::Path(path(vec![u])), pos),
            Ent::Ctor(t, c, _) => mk(EK::Path(path(vec![t, c])), pos),
            _ => return None,
        })
    }
    fn var(&self, l: &Loc, s: Sym, pos: Pos) -> EP {
        if l.old {
            return mk(EK::Path(path(vec![sym(&format!("old${}", name(s)))])), pos);
        }
        mk(EK::Path(path(vec![s])), pos)
    }
    fn es(&mut self, l: &mut Loc, v: &[EP]) -> Vec<EP> {
        v.iter().map(|x| self.e(l, x)).collect()
    }
    fn with<X>(&mut self, l: &mut Loc, vs: &[Sym], f: impl FnOnce(&mut Self, &mut Loc) -> X) -> X {
        let n = l.vars.len();
        l.vars.extend(vs);
        let r = f(self, l);
        l.vars.truncate(n);
        r
    }
    fn pat(&mut self, l: &mut Loc, p: &Pat, out: &mut Vec<Sym>, top: bool) -> Pat {
        match p {
            Pat::Wild | Pat::Rest => p.clone(),
            Pat::Bind(s) => {
                out.push(*s);
                Pat::Bind(*s)
            }
            Pat::Lit(e) => Pat::Lit(self.e(l, e)),
            Pat::Tuple(v) => Pat::Tuple(v.iter().map(|x| self.pat(l, x, out, false)).collect()),
            Pat::TupleCtor(q, v, _) => {
                let v: Vec<Pat> = v.iter().map(|x| self.pat(l, x, out, false)).collect();
                let q = self.ctor_path(l, q, v.len());
                Pat::TupleCtor(q, v, Default::default())
            }
            Pat::PathOrBind(q, _) => {
                let nullary = if q.segs.len() > 1 {
                    true
                } else {
                    let s = q.segs[0];
                    let c = name(s).chars().next().unwrap_or('a');
                    match self.find1(l.inst, s, false) {
                        Some(Ent::Ctor(t, _, k)) => match self.p.resolve(0, &[t], None, true) {
                            Some(PRes::Type(tid)) => self.p.types[tid].ctors[k].fields.is_empty(),
                            _ => false,
                        },
                        _ => c.is_uppercase() && self.all_ctors.get(&s).map_or(false, |ts| ts.iter().any(|t| self.p.types[*t].ctors.iter().any(|c| c.name == s && c.fields.is_empty()))),
                    }
                };
                let _ = top;
                if nullary {
                    let q = self.ctor_path(l, q, 0);
                    Pat::TupleCtor(q, vec![], Default::default())
                } else {
                    out.push(q.segs[0]);
                    Pat::Bind(q.segs[0])
                }
            }
            Pat::Or(v) => Pat::Or(v.iter().map(|x| self.pat(l, x, out, false)).collect()),
            Pat::StructCtor(..) => p.clone(),
        }
    }
    fn ctor_path(&mut self, l: &Loc, q: &Path, arity: usize) -> Path {
        // patterns name constructors of the matched type: by bare name
        let c = *q.segs.last().unwrap();
        if q.segs.len() > 1 {
            if let Some(Ent::Ctor(t, c, _)) = self.find_path(l.inst, &q.segs, false) {
                return path(vec![t, c]);
            }
        }
        if let Some(ts) = self.all_ctors.get(&c) {
            let fit: Vec<usize> = ts.iter().copied().filter(|t| self.p.types[*t].ctors.iter().any(|x| x.name == c && x.fields.len() == arity)).collect();
            if fit.len() == 1 {
                return path(vec![self.p.types[fit[0]].full, c]);
            }
        }
        // ambiguous: decided by the value at run time
        path(vec![sym("?"), c])
    }
    fn e(&mut self, l: &mut Loc, e: &EP) -> EP {
        let pos = e.pos;
        let k = match &e.k {
            EK::Int(_) | EK::Bool(_) | EK::Char(_) | EK::Unknown(_) => return e.clone(),
            EK::Str(s) => EK::Str(s.clone()),
            EK::Path(p) => {
                let s = p.segs[0];
                if l.vars.contains(&s) || (&*name(s) == "this" && l.has_this) {
                    return self.var(l, s, pos);
                }
                if &*name(s) == "null" {
                    return mk(EK::Path(path(vec![sym("null")])), pos);
                }
                if let Some(t) = l.self_ty {
                    if let Some(m) = self.members.get(&t).and_then(|m| m.get(&s)).copied() {
                        let this = self.var(l, sym("this"), pos);
                        match m {
                            Member::Field => return mk(EK::Field(this, s), pos),
                            Member::Const(_, _) => return mk(EK::Method(this, s, vec![], vec![]), pos),
                            Member::Fn(u, true, _) => return mk(EK::Path(path(vec![u])), pos),
                            Member::Fn(_, false, fid) => {
                                // a bound member as a value
                                let n = self.p.fns[fid].all_params.len() - 1;
                                let ns: Vec<Sym> = (0..n).map(|i| sym(&format!("$m{}", i))).collect();
                                let a = ns.iter().map(|x| mk(EK::Path(path(vec![*x])), pos)).collect();
                                return mk(EK::Lambda(ns.iter().map(|x| (Pat::Bind(*x), Ty::Any)).collect(), mk(EK::Method(this, s, vec![], a), pos)), pos);
                            }
                            _ => {}
                        }
                    }
                }
                match self.find1(l.inst, s, false).and_then(|x| self.ent_expr(x, pos)) {
                    Some(x) => return x,
                    None if l.has_this && name(s).ends_with('?') => {
                        let c = sym(name(s).trim_end_matches('?'));
                        return mk(EK::Is(self.var(l, sym("this"), pos), path(vec![c])), pos);
                    }
                    None => EK::Path(p.clone()),
                }
            }
            EK::Field(x, f) => {
                if let Some(c) = self.prefix(l, x) {
                    if let Some(r) = self.step(c, *f, false, true).and_then(|x| self.ent_expr(x, pos)) {
                        return r;
                    }
                    return mk(EK::Unknown(format!("unresolved member {}", name(*f)).into()), pos);
                }
                let y = self.e(l, x);
                let n = name(*f);
                if let Some(c) = n.strip_suffix('?') {
                    return mk(EK::Is(y, path(vec![sym(c)])), pos);
                }
                EK::Field(y, *f)
            }
            EK::Method(x, m, t, a) => {
                if let Some(c) = self.prefix(l, x) {
                    let a2 = self.es(l, a);
                    if let Some(f) = self.step(c, *m, false, true).and_then(|x| self.ent_expr(x, pos)) {
                        return mk(EK::Call(f, a2), pos);
                    }
                    return mk(EK::Unknown(format!("unresolved function {}", name(*m)).into()), pos);
                }
                if &*name(*m) == "requires" || &*name(*m) == "reads" {
                    return mk(EK::Bool(true), pos);
                }
                let y = self.e(l, x);
                let a2 = self.es(l, a);
                EK::Method(y, *m, t.clone(), a2)
            }
            EK::Call(f, a) => {
                if let EK::Path(p) = &f.k {
                    let s = p.segs[0];
                    if &*name(s) == "old" && a.len() == 1 && !l.vars.contains(&s) {
                        let was = std::mem::replace(&mut l.old, true);
                        let r = self.e(l, &a[0]);
                        l.old = was;
                        return r;
                    }
                    let a2 = self.es(l, a);
                    if l.vars.contains(&s) {
                        return mk(EK::Call(self.var(l, s, pos), a2), pos);
                    }
                    if let Some(t) = l.self_ty {
                        if let Some(m) = self.members.get(&t).and_then(|m| m.get(&s)).copied() {
                            match m {
                                Member::Fn(u, true, _) | Member::Method(u, true) => return mk(EK::Call(mk(EK::Path(path(vec![u])), pos), a2), pos),
                                Member::Fn(_, false, _) | Member::Method(_, false) => {
                                    let this = self.var(l, sym("this"), pos);
                                    return mk(EK::Method(this, s, vec![], a2), pos);
                                }
                                Member::Field => {
                                    let this = self.var(l, sym("this"), pos);
                                    return mk(EK::Call(mk(EK::Field(this, s), pos), a2), pos);
                                }
                                _ => {}
                            }
                        }
                    }
                    if let Some(f) = self.find1(l.inst, s, false).and_then(|x| self.ent_expr(x, pos)) {
                        return mk(EK::Call(f, a2), pos);
                    }
                    return mk(EK::Call(f.clone(), a2), pos);
                }
                let f2 = self.e(l, f);
                let a2 = self.es(l, a);
                EK::Call(f2, a2)
            }
            EK::Index(a, b) => EK::Index(self.e(l, a), self.e(l, b)),
            EK::Slice(a, b, c) => EK::Slice(self.e(l, a), b.as_ref().map(|x| self.e(l, x)), c.as_ref().map(|x| self.e(l, x))),
            EK::Not(a) => EK::Not(self.e(l, a)),
            EK::Neg(a) => EK::Neg(self.e(l, a)),
            EK::Bin(o, a, b) => EK::Bin(*o, self.e(l, a), self.e(l, b)),
            EK::Bullet(o, v) => EK::Bullet(*o, self.es(l, v)),
            EK::If(a, b, c) => EK::If(self.e(l, a), self.e(l, b), c.as_ref().map(|x| self.e(l, x))),
            EK::Match(x, arms) => {
                let x = self.e(l, x);
                let mut out = vec![];
                for (p, _, b) in arms {
                    let mut vs = vec![];
                    let p = self.pat(l, p, &mut vs, true);
                    let b = self.with(l, &vs, |s, l| s.e(l, b));
                    out.push((p, None, b));
                }
                EK::Match(x, out)
            }
            EK::Let(p, t, x, b) => {
                let x = self.e(l, x);
                let mut vs = vec![];
                let p = self.pat(l, p, &mut vs, true);
                let g = l.generics.clone();
                let t = self.ty(l.inst, &g, t);
                let b = self.with(l, &vs, |s, l| s.e(l, b));
                EK::Let(p, t, x, b)
            }
            EK::Lambda(ps, b) => {
                let mut vs = vec![];
                let g = l.generics.clone();
                let ps: Vec<(Pat, Ty)> = ps.iter().map(|(p, t)| (self.pat(l, p, &mut vs, true), self.ty(l.inst, &g, t))).collect();
                let b = self.with(l, &vs, |s, l| s.e(l, b));
                EK::Lambda(ps, b)
            }
            EK::Quant(q, vs, b, c) => {
                let g = l.generics.clone();
                let ws: Vec<(Sym, Ty)> = vs.iter().map(|(s, t)| (*s, self.ty(l.inst, &g, t))).collect();
                let ns: Vec<Sym> = vs.iter().map(|x| x.0).collect();
                let b = self.with(l, &ns, |s, l| s.e(l, b));
                EK::Quant(*q, ws, b, c.clone())
            }
            EK::Compr(m, vs, r, k, v) => {
                let g = l.generics.clone();
                let ws: Vec<(Sym, Ty)> = vs.iter().map(|(s, t)| (*s, self.ty(l.inst, &g, t))).collect();
                let ns: Vec<Sym> = vs.iter().map(|x| x.0).collect();
                self.with(l, &ns, |s, l| EK::Compr(*m, ws, s.e(l, r), k.as_ref().map(|x| s.e(l, x)), v.as_ref().map(|x| s.e(l, x))))
            }
            EK::Tuple(v) => EK::Tuple(self.es(l, v)),
            EK::SeqLit(v) => EK::SeqLit(self.es(l, v)),
            EK::SetLit(v) => EK::SetLit(self.es(l, v)),
            EK::MSetLit(v) => EK::MSetLit(self.es(l, v)),
            EK::MapLit(v) => EK::MapLit(v.iter().map(|(a, b)| (self.e(l, a), self.e(l, b))).collect()),
            EK::Cast(x, t) => {
                let g = l.generics.clone();
                let t = self.ty(l.inst, &g, t);
                EK::Cast(self.e(l, x), t)
            }
            EK::Upd(x, fs) => EK::Upd(self.e(l, x), fs.iter().map(|(f, y)| (*f, self.e(l, y))).collect()),
            EK::IdxUpd(a, b, c) => EK::IdxUpd(self.e(l, a), self.e(l, b), self.e(l, c)),
            EK::Inout(x) => EK::Inout(self.e(l, x)),
            EK::Is(..) | EK::Arrow(..) | EK::Matches(..) | EK::IfLet(..) | EK::Struct(..) | EK::View(_) => return e.clone(),
        };
        mk(k, pos)
    }

    // ---------- statements ----------
    fn block(&mut self, l: &mut Loc, b: &Block) -> Block {
        let n = l.vars.len();
        let v = b.iter().map(|(s, p)| (self.stmt(l, s), *p)).collect();
        l.vars.truncate(n);
        Rc::new(v)
    }
    fn rhs(&mut self, l: &mut Loc, r: &Rhs) -> Rhs {
        let g = l.generics.clone();
        match r {
            Rhs::E(e) => Rhs::E(self.e(l, e)),
            Rhs::NewArr(t, n, i) => Rhs::NewArr(self.ty(l.inst, &g, t), self.e(l, n), i.as_ref().map(|x| self.e(l, x))),
            Rhs::NewObj(t, _, a) => {
                let a = a.as_ref().map(|a| self.es(l, a));
                // new T.Name(args)
                if let Ty::Named(segs, ta) = t {
                    if let Some(Ent::Type(_)) = self.find_path(l.inst, segs, true) {
                        return Rhs::NewObj(self.ty(l.inst, &g, t), None, a);
                    }
                    if segs.len() > 1 {
                        let base = Ty::Named(segs[..segs.len() - 1].to_vec(), ta.clone());
                        return Rhs::NewObj(self.ty(l.inst, &g, &base), segs.last().copied(), a);
                    }
                }
                Rhs::NewObj(self.ty(l.inst, &g, t), None, a)
            }
            Rhs::Havoc => Rhs::Havoc,
        }
    }
    fn stmt(&mut self, l: &mut Loc, s: &DS) -> DS {
        let g = l.generics.clone();
        match s {
            DS::Skip => DS::Skip,
            DS::Expr(e) => DS::Expr(self.e(l, e)),
            DS::Var(vs, rs, gh) => {
                let rs = rs.iter().map(|r| self.rhs(l, r)).collect();
                let ws: Vec<(Sym, Ty)> = vs.iter().map(|(s, t)| (*s, self.ty(l.inst, &g, t))).collect();
                l.vars.extend(vs.iter().map(|x| x.0));
                DS::Var(ws, rs, *gh)
            }
            DS::VarSuch(vs, e, gh) => {
                let ws: Vec<(Sym, Ty)> = vs.iter().map(|(s, t)| (*s, self.ty(l.inst, &g, t))).collect();
                l.vars.extend(vs.iter().map(|x| x.0));
                DS::VarSuch(ws, self.e(l, e), *gh)
            }
            DS::VarPat(p, e, gh) => {
                let e = self.e(l, e);
                let mut vs = vec![];
                let p = self.pat(l, p, &mut vs, true);
                l.vars.extend(vs);
                DS::VarPat(p, e, *gh)
            }
            DS::Assign(a, rs, gh) => {
                let rs = rs.iter().map(|r| self.rhs(l, r)).collect();
                DS::Assign(self.es(l, a), rs, *gh)
            }
            DS::AssignSuch(a, e) => DS::AssignSuch(self.es(l, a), self.e(l, e)),
            DS::If(c, a, b) => DS::If(self.e(l, c), self.block(l, a), b.as_ref().map(|b| self.block(l, b))),
            DS::IfSuch(vs, c, a, b) => {
                let ws: Vec<(Sym, Ty)> = vs.iter().map(|(s, t)| (*s, self.ty(l.inst, &g, t))).collect();
                let ns: Vec<Sym> = vs.iter().map(|x| x.0).collect();
                let (c, a) = self.with(l, &ns, |s, l| (s.e(l, c), s.block(l, a)));
                DS::IfSuch(ws, c, a, b.as_ref().map(|b| self.block(l, b)))
            }
            DS::IfCase(v) => DS::IfCase(v.iter().map(|(c, b)| (self.e(l, c), self.block(l, b))).collect()),
            DS::While(c, b, inv) => DS::While(c.as_ref().map(|c| self.e(l, c)), self.block(l, b), self.es(l, inv)),
            DS::Match(x, arms) => {
                let x = self.e(l, x);
                let mut out = vec![];
                for (p, b) in arms {
                    let mut vs = vec![];
                    let p = self.pat(l, p, &mut vs, true);
                    out.push((p, self.with(l, &vs, |s, l| s.block(l, b))));
                }
                DS::Match(x, out)
            }
            DS::Return(rs) => DS::Return(rs.iter().map(|r| self.rhs(l, r)).collect()),
            DS::Break(n, x) => DS::Break(*n, *x),
            DS::Label(x, s) => DS::Label(*x, Box::new(self.stmt(l, s))),
            DS::Assert(e) => DS::Assert(self.e(l, e)),
            DS::Assume(e) => DS::Assume(self.e(l, e)),
            DS::Block(b) => DS::Block(self.block(l, b)),
            DS::Forall(vs, r, b) => {
                let ws: Vec<(Sym, Ty)> = vs.iter().map(|(s, t)| (*s, self.ty(l.inst, &g, t))).collect();
                let ns: Vec<Sym> = vs.iter().map(|x| x.0).collect();
                self.with(l, &ns, |s, l| DS::Forall(ws, s.e(l, r), s.block(l, b)))
            }
            DS::Unsupported(s) => DS::Unsupported(s.clone()),
        }
    }
}

fn decl_name(d: &DDecl) -> Option<(u8, Sym)> {
    Some(match d {
        DDecl::Import { alias, .. } => (0, *alias),
        DDecl::Module(m) => (0, m.name),
        DDecl::Data { name, .. } | DDecl::Class { name, .. } | DDecl::Type { name, .. } => (1, *name),
        DDecl::Const { name, .. } => (2, *name),
        DDecl::Func(f) => (2, f.name),
        DDecl::Method(m) => (2, m.name),
    })
}
/// a declaration of a refining module replaces (or completes) the inherited one
fn merge(decls: &mut Vec<Rc<DDecl>>, d: Rc<DDecl>) {
    let Some(k) = decl_name(&d) else { return };
    for x in decls.iter_mut() {
        if decl_name(x) == Some(k) {
            let keep_old = match (&**x, &*d) {
                // re-declared without a body: keep the inherited body
                (DDecl::Func(a), DDecl::Func(b)) => a.body.is_some() && b.body.is_none(),
                (DDecl::Method(a), DDecl::Method(b)) => a.body.is_some() && b.body.is_none(),
                (DDecl::Const { val: Some(_), .. }, DDecl::Const { val: None, .. }) => true,
                _ => false,
            };
            if !keep_old {
                *x = d;
            }
            return;
        }
    }
    decls.push(d);
}
fn calls(e: &EP, n: Sym) -> bool {
    match &e.k {
        EK::Path(p) if p.segs.last() == Some(&n) => return true,
        EK::Method(_, m, _, _) if *m == n => return true,
        _ => {}
    }
    let mut r = false;
    crate::eval::children(e, &mut |c| r = r || calls(c, n));
    r
}

/// names no declaration was found for (development aid)
pub fn unresolved(p: &Prog) -> Vec<String> {
    fn pat(p: &Pat, v: &mut Vec<Sym>) {
        match p {
            Pat::Bind(s) => v.push(*s),
            Pat::Tuple(x) | Pat::TupleCtor(_, x, _) | Pat::Or(x) => x.iter().for_each(|y| pat(y, v)),
            _ => {}
        }
    }
    fn walk(p: &Prog, e: &EP, vs: &mut Vec<Sym>, at: &str, out: &mut Vec<String>) {
        let n = vs.len();
        match &e.k {
            EK::Unknown(s) => out.push(format!("{}:{}: {}", at, e.pos.line, s)),
            EK::Path(q) if q.segs.len() == 1 => {
                let s = q.segs[0];
                let nm = name(s);
                if !vs.contains(&s) && p.resolve(0, &q.segs, None, false).is_none() && !matches!(&*nm, "this" | "null") && !nm.starts_with("old$") {
                    out.push(format!("{}:{}: name {}", at, e.pos.line, nm));
                }
            }
            EK::Path(q) => {
                if p.resolve(0, &q.segs, None, false).is_none() {
                    out.push(format!("{}:{}: path {:?}", at, e.pos.line, q.segs.iter().map(|s| name(*s).to_string()).collect::<Vec<_>>()));
                }
            }
            EK::Match(x, arms) => {
                walk(p, x, vs, at, out);
                for (q, _, b) in arms {
                    pat(q, vs);
                    walk(p, b, vs, at, out);
                    vs.truncate(n);
                }
            }
            EK::Let(q, _, x, b) => {
                walk(p, x, vs, at, out);
                pat(q, vs);
                walk(p, b, vs, at, out);
            }
            EK::Lambda(ps, b) => {
                ps.iter().for_each(|x| pat(&x.0, vs));
                walk(p, b, vs, at, out);
            }
            EK::Quant(_, ws, b, _) => {
                vs.extend(ws.iter().map(|x| x.0));
                walk(p, b, vs, at, out);
            }
            EK::Compr(_, ws, r, k, v) => {
                vs.extend(ws.iter().map(|x| x.0));
                walk(p, r, vs, at, out);
                for y in k.iter().chain(v.iter()) {
                    walk(p, y, vs, at, out);
                }
            }
            _ => crate::eval::children(e, &mut |c| walk(p, c, vs, at, out)),
        }
        vs.truncate(n);
    }
    let mut out = vec![];
    for f in &p.fns {
        if let Some(b) = &f.d.body {
            let mut vs = f.all_params.clone();
            walk(p, b, &mut vs, &f.full, &mut out);
        }
    }
    out
}
