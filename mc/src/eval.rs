//! Evaluator for spec expressions over finite universes, with logic variables.
use crate::ast::*;
use crate::prog::*;
use crate::value::*;
use crate::vparse::FnMode;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub struct Closure {
    pub params: Vec<(Pat, Ty)>,
    pub body: EP,
    pub env: Env,
    pub fr: Fr,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Fr {
    pub scope: usize,
    pub self_ty: Option<usize>,
}
pub struct EnvNode {
    pub name: Sym,
    pub val: V,
    pub next: Env,
}
#[derive(Clone)]
pub struct Env(pub Option<Rc<EnvNode>>);
impl Env {
    pub fn empty() -> Env {
        Env(None)
    }
    pub fn with(&self, name: Sym, val: V) -> Env {
        Env(Some(Rc::new(EnvNode { name, val, next: self.clone() })))
    }
    pub fn get(&self, s: Sym) -> Option<&V> {
        let mut e = &self.0;
        while let Some(n) = e {
            if n.name == s {
                return Some(&n.val);
            }
            e = &n.next.0;
        }
        None
    }
}
#[derive(Debug, Clone)]
pub enum Ctl {
    Stuck(u32),
    Err(String),
}
pub type ER<T = V> = Result<T, Ctl>;
pub fn bad<T>(s: impl Into<String>) -> ER<T> {
    Err(Ctl::Err(s.into()))
}

pub struct LV {
    pub val: Option<V>,
    pub ty: Ty,
    pub fr: Fr,
    pub hint: Sym,
    /// a known map this unknown map has been required to be part of (or agree with)
    pub upper: Option<V>,
}
pub type DynUniv = Rc<dyn Fn(&mut Ctx, &Env) -> ER<Vec<V>>>;
pub type Override = Rc<dyn Fn(&mut Ctx, &[V]) -> ER<Option<V>>>;

pub struct Ctx {
    pub p: Rc<Prog>,
    pub lv: Vec<LV>,
    pub trail: Vec<u32>,
    pub univ: HashMap<Sym, Rc<Vec<V>>>,
    pub dyn_univ: HashMap<Sym, DynUniv>,
    pub int_range: (i128, i128),
    pub nat_max: i128,
    pub overrides: HashMap<String, Override>,
    override_ids: HashMap<usize, Override>,
    pub memo: HashMap<(usize, Vec<(u8, u128)>), (Vec<V>, V)>,
    heavy: Vec<Option<bool>>,
    pub depth: u32,
    pub evals: u64,
    pub undef_bool: u64,
    /// solver statistics / hooks (see solve.rs)
    pub enum_hook: Option<Rc<dyn Fn(&mut Ctx, &Ty, Fr, Sym) -> ER<Option<Vec<V>>>>>,
    pub s: Syms,
    pub path: Vec<(usize, Sym)>,
    pub solve_depth: u32,
    pub goal_steps: u64,
    pub choices: u64,
    /// an unconstrained value was drawn from a last-resort set: exploration is not exhaustive
    pub approx: Option<String>,
    pub last_err: String,
    pub cur_pre: Option<V>,
    /// the unknown being enumerated
    /// type wanted of the comprehension about to be evaluated
    pub expect: Option<(Ty, Fr)>,
    /// calls, seconds and unfinished calls per function (development aid)
    pub prof_last: Option<std::time::Instant>,
    pub prof_key: String,
    pub prof_goal: HashMap<String, (u64, f64)>,
    pub prof: Option<HashMap<usize, (u64, f64, u64)>>,
    pub cur_enum: u32,
}
macro_rules! syms { ($($n:ident),* $(,)?) => { #[allow(non_snake_case)] pub struct Syms { $(pub $n: Sym),* } impl Syms { fn new() -> Syms { Syms { $($n: sym(stringify!($n))),* } } } } }
syms!(self_, view, spec_index, contains, contains_key, pre, post, dom);

impl Ctx {
    pub fn new(p: Rc<Prog>) -> Ctx {
        let mut s = Syms::new();
        s.self_ = sym("self");
        let n = p.fns.len();
        Ctx {
            p,
            lv: vec![],
            trail: vec![],
            univ: HashMap::new(),
            dyn_univ: HashMap::new(),
            int_range: (-2, 8),
            nat_max: 8,
            overrides: HashMap::new(),
            override_ids: HashMap::new(),
            memo: HashMap::new(),
            heavy: vec![None; n],
            depth: 0,
            evals: 0,
            undef_bool: 0,
            enum_hook: None,
            s,
            path: vec![],
            solve_depth: 0,
            goal_steps: 0,
            choices: 0,
            approx: None,
            last_err: String::new(),
            cur_pre: None,
            cur_enum: 0,
            expect: None,
            prof_last: None,
            prof_key: String::new(),
            prof_goal: HashMap::new(),
            prof: if std::env::var("MC_PROF").is_ok() { Some(HashMap::new()) } else { None },
        }
    }
    pub fn set_univ(&mut self, ty: &str, vs: Vec<V>) {
        self.univ.insert(sym(ty), Rc::new(vs));
    }
    pub fn set_override(&mut self, full: &str, f: Override) -> bool {
        let mut any = false;
        for (i, x) in self.p.fns.iter().enumerate() {
            if x.full == full {
                self.override_ids.insert(i, f.clone());
                any = true;
            }
        }
        any
    }
    pub fn has_override(&self, fid: usize) -> bool {
        self.override_ids.contains_key(&fid)
    }
    // ---------- logic variables ----------
    pub fn fresh(&mut self, ty: Ty, fr: Fr, hint: Sym) -> V {
        self.lv.push(LV { val: None, ty, fr, hint, upper: None });
        V::LVar((self.lv.len() - 1) as u32)
    }
    pub fn bind(&mut self, i: u32, v: V) {
        self.lv[i as usize].val = Some(v);
        self.trail.push(i);
    }
    pub fn mark(&self) -> (usize, usize) {
        (self.trail.len(), self.lv.len())
    }
    pub fn undo(&mut self, m: (usize, usize)) {
        while self.trail.len() > m.0 {
            let i = self.trail.pop().unwrap();
            if (i as usize) < self.lv.len() {
                self.lv[i as usize].val = None;
            }
        }
        self.lv.truncate(m.1);
    }
    #[inline]
    pub fn deref(&self, v: &V) -> V {
        let mut v = v.clone();
        while let V::LVar(i) = v {
            match &self.lv[i as usize].val {
                Some(x) => v = x.clone(),
                None => return V::LVar(i),
            }
        }
        v
    }
    #[inline]
    pub fn force(&self, v: V) -> ER {
        if let V::LVar(_) = v {
            match self.deref(&v) {
                V::LVar(i) => Err(Ctl::Stuck(i)),
                x => Ok(x),
            }
        } else {
            Ok(v)
        }
    }
    /// substitute bound logic variables everywhere
    pub fn resolve(&self, v: &V) -> V {
        if !v.has_lvar() {
            return v.clone();
        }
        match v {
            V::LVar(_) => {
                let d = self.deref(v);
                if let V::LVar(_) = d {
                    d
                } else {
                    self.resolve(&d)
                }
            }
            V::Tup(x) => V::Tup(Rc::new(x.iter().map(|y| self.resolve(y)).collect())),
            V::Seq(x) => V::Seq(Rc::new(x.iter().map(|y| self.resolve(y)).collect())),
            V::Set(x) => V::set(x.iter().map(|y| self.resolve(y))),
            V::Map(x) => V::map(x.iter().map(|(k, y)| (self.resolve(k), self.resolve(y)))),
            V::Data(d) => V::data(&d.ctor, d.f.iter().map(|y| self.resolve(y)).collect()),
            _ => v.clone(),
        }
    }
    pub fn first_lvar(&self, v: &V) -> Option<u32> {
        match v {
            V::LVar(i) => Some(*i),
            V::Tup(x) | V::Seq(x) => x.iter().find_map(|y| self.first_lvar(y)),
            V::Set(x) => x.iter().find_map(|y| self.first_lvar(y)),
            V::Map(x) => x.iter().find_map(|(k, y)| self.first_lvar(k).or_else(|| self.first_lvar(y))),
            V::Data(d) => {
                if d.ground {
                    None
                } else {
                    d.f.iter().find_map(|y| self.first_lvar(y))
                }
            }
            _ => None,
        }
    }
    pub fn ground(&self, v: V) -> ER {
        if v.has_lvar() {
            let r = self.resolve(&v);
            match self.first_lvar(&r) {
                Some(i) => Err(Ctl::Stuck(i)),
                None => Ok(r),
            }
        } else {
            Ok(v)
        }
    }
    /// expand an unbound variable whose type is a struct into a struct of fresh variables
    pub fn expand_struct(&mut self, i: u32) -> ER<Option<V>> {
        let (ty, fr) = (self.lv[i as usize].ty.clone(), self.lv[i as usize].fr);
        if let Ty::Tuple(ts) = &ty {
            let mut f = vec![];
            for t in ts {
                f.push(self.fresh(t.clone(), fr, 0));
            }
            let v = V::tup(f);
            self.bind(i, v.clone());
            return Ok(Some(v));
        }
        let p = self.p.clone();
        if let Some(tid) = self.ty_data(&ty, fr) {
            let ti = &p.types[tid];
            if self.univ.contains_key(&ti.name) || self.dyn_univ.contains_key(&ti.name) {
                return Ok(None);
            }
            if ti.is_struct || ti.ctors.len() == 1 {
                let v = self.fresh_ctor(tid, 0, &ty, fr);
                self.bind(i, v.clone());
                return Ok(Some(v));
            }
        }
        Ok(None)
    }
    pub fn ty_data(&self, ty: &Ty, fr: Fr) -> Option<usize> {
        match ty {
            Ty::Named(segs, _) => match self.p.resolve(fr.scope, segs, fr.self_ty, true)? {
                PRes::Type(t) => Some(t),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn ty_args(&self, ty: &Ty, fr: Fr) -> Vec<Ty> {
        // expand aliases to find generic args of the underlying type
        let mut ty = ty.clone();
        let mut fr = fr;
        for _ in 0..10 {
            if let Ty::Named(segs, args) = &ty {
                if segs.len() == 1 {
                    if let Some((a, sc)) = self.alias_of(segs[0], fr.scope) {
                        ty = a;
                        fr = Fr { scope: sc, self_ty: None };
                        continue;
                    }
                }
                return args.clone();
            }
            break;
        }
        vec![]
    }
    pub fn alias_of(&self, s: Sym, scope: usize) -> Option<(Ty, usize)> {
        // find alias by name visible in scope
        self.p.find_alias(scope, s)
    }
    pub fn fresh_ctor(&mut self, tid: usize, k: usize, ty: &Ty, fr: Fr) -> V {
        let p = self.p.clone();
        let ti = &p.types[tid];
        let args = self.ty_args(ty, fr);
        let c = ti.ctors[k].clone();
        let mut f = vec![];
        for (j, ft) in ti.ftys[k].iter().enumerate() {
            // substitute a generic parameter
            let mut t = ft.clone();
            let mut tfr = Fr { scope: ti.scope, self_ty: Some(tid) };
            if let Ty::Named(s, _) = ft {
                if s.len() == 1 {
                    if let Some(ix) = ti.generics.iter().position(|g| *g == s[0]) {
                        t = args.get(ix).cloned().unwrap_or(Ty::Any);
                        tfr = fr;
                    }
                }
            }
            f.push(self.fresh(t, tfr, c.fields[j]));
        }
        V::data(&c, f)
    }

    // ---------- unification ----------
    pub fn unify(&mut self, a: &V, b: &V) -> ER<bool> {
        let a = self.deref(a);
        let b = self.deref(b);
        match (&a, &b) {
            (V::LVar(i), V::LVar(j)) => {
                if i == j {
                    return Ok(true);
                }
                // keep the typed one
                if self.lv[*i as usize].ty == Ty::Any {
                    self.bind(*i, b.clone());
                } else {
                    self.bind(*j, a.clone());
                }
                Ok(true)
            }
            (V::LVar(i), _) => {
                self.bind(*i, b.clone());
                Ok(true)
            }
            (_, V::LVar(j)) => {
                self.bind(*j, a.clone());
                Ok(true)
            }
            _ => {
                if !a.has_lvar() && !b.has_lvar() {
                    return Ok(a == b);
                }
                match (&a, &b) {
                    (V::Data(x), V::Data(y)) => {
                        if x.ctor.id != y.ctor.id {
                            return Ok(false);
                        }
                        for k in 0..x.f.len() {
                            if !self.unify(&x.f[k], &y.f[k])? {
                                return Ok(false);
                            }
                        }
                        Ok(true)
                    }
                    (V::Tup(x), V::Tup(y)) | (V::Seq(x), V::Seq(y)) => {
                        if x.len() != y.len() {
                            return Ok(false);
                        }
                        for k in 0..x.len() {
                            if !self.unify(&x[k], &y[k])? {
                                return Ok(false);
                            }
                        }
                        Ok(true)
                    }
                    (V::Map(x), V::Map(y)) => {
                        let x = x.clone();
                        let y = y.clone();
                        if x.len() != y.len() {
                            return Ok(false);
                        }
                        if x.keys().any(|k| k.has_lvar()) || y.keys().any(|k| k.has_lvar()) {
                            let a = self.ground(a)?;
                            let b = self.ground(b)?;
                            return Ok(a == b);
                        }
                        for (k, v) in x.iter() {
                            match y.get(k) {
                                None => return Ok(false),
                                Some(w) => {
                                    if !self.unify(v, w)? {
                                        return Ok(false);
                                    }
                                }
                            }
                        }
                        Ok(true)
                    }
                    _ => {
                        let a = self.ground(a)?;
                        let b = self.ground(b)?;
                        Ok(a == b)
                    }
                }
            }
        }
    }
    /// equality test without binding
    pub fn equal(&mut self, a: &V, b: &V) -> ER {
        let a = self.deref(a);
        let b = self.deref(b);
        if matches!(a, V::Undef) || matches!(b, V::Undef) {
            if matches!(a, V::Undef) && matches!(b, V::Undef) {
                return Ok(V::Bool(true));
            }
            return Ok(V::Undef);
        }
        if !a.has_lvar() && !b.has_lvar() {
            return Ok(V::Bool(a == b));
        }
        let a = self.resolve(&a);
        let b = self.resolve(&b);
        match (self.first_lvar(&a), self.first_lvar(&b)) {
            (None, None) => Ok(V::Bool(a == b)),
            (x, y) => {
                // structurally different already?
                if definitely_differ(&a, &b) {
                    return Ok(V::Bool(false));
                }
                Err(Ctl::Stuck(x.or(y).unwrap()))
            }
        }
    }

    // ---------- universes ----------
    pub fn universe(&mut self, ty: &Ty, fr: Fr, env: &Env, depth: u32) -> ER<Option<Rc<Vec<V>>>> {
        if depth > 6 {
            return Ok(None);
        }
        match ty {
            Ty::Any | Ty::Fn => Ok(None),
            Ty::Tuple(ts) => {
                let mut acc: Vec<Vec<V>> = vec![vec![]];
                for t in ts {
                    let Some(u) = self.universe(t, fr, env, depth + 1)? else { return Ok(None) };
                    acc = product(&acc, &u)?;
                }
                Ok(Some(Rc::new(acc.into_iter().map(V::tup).collect())))
            }
            Ty::Named(segs, args) => {
                let last = *segs.last().unwrap();
                if let Some(h) = self.dyn_univ.get(&last).cloned() {
                    return Ok(Some(Rc::new(h(self, env)?)));
                }
                if let Some(u) = self.univ.get(&last) {
                    return Ok(Some(u.clone()));
                }
                if segs.len() == 1 {
                    if let Some((t, sc)) = self.alias_of(last, fr.scope) {
                        return self.universe(&t, Fr { scope: sc, self_ty: None }, env, depth + 1);
                    }
                }
                match self.p.clone().resolve(fr.scope, segs, fr.self_ty, true) {
                    Some(PRes::BuiltinTy(b)) => {
                        let n = name(b);
                        match &*n {
                            "bool" => Ok(Some(Rc::new(vec![V::Bool(false), V::Bool(true)]))),
                            "int" | "i64" | "i32" => Ok(Some(Rc::new((self.int_range.0..=self.int_range.1).map(V::Int).collect()))),
                            "nat" | "u64" | "u32" | "usize" | "u8" | "u16" => Ok(Some(Rc::new((0..=self.nat_max).map(V::Int).collect()))),
                            "Set" | "ISet" if args.len() == 1 => {
                                let Some(u) = self.universe(&args[0], fr, env, depth + 1)? else { return Ok(None) };
                                if u.len() > 8 {
                                    return Ok(None);
                                }
                                Ok(Some(Rc::new((0..1u32 << u.len()).map(|m| V::set(u.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| x.clone()))).collect())))
                            }
                            _ => Ok(None),
                        }
                    }
                    Some(PRes::Type(tid)) => {
                        let p = self.p.clone();
                        let full = p.types[tid].name;
                        if let Some(u) = self.univ.get(&full) {
                            return Ok(Some(u.clone()));
                        }
                        let ti = &p.types[tid];
                        let mut out = vec![];
                        for (k, c) in ti.ctors.iter().enumerate() {
                            let mut acc: Vec<Vec<V>> = vec![vec![]];
                            for ft in &ti.ftys[k] {
                                let mut t = ft.clone();
                                let mut tfr = Fr { scope: ti.scope, self_ty: Some(tid) };
                                if let Ty::Named(s, _) = ft {
                                    if s.len() == 1 {
                                        if let Some(ix) = ti.generics.iter().position(|g| *g == s[0]) {
                                            t = args.get(ix).cloned().unwrap_or(Ty::Any);
                                            tfr = fr;
                                        }
                                    }
                                }
                                let Some(u) = self.universe(&t, tfr, env, depth + 1)? else { return Ok(None) };
                                acc = product(&acc, &u)?;
                            }
                            for f in acc {
                                out.push(V::data(c, f));
                            }
                        }
                        Ok(Some(Rc::new(out)))
                    }
                    _ => Ok(None),
                }
            }
        }
    }

    // ---------- function calls ----------
    pub fn call_fn(&mut self, fid: usize, args: Vec<V>) -> ER {
        let p = self.p.clone();
        if !self.override_ids.is_empty() {
            if let Some(o) = self.override_ids.get(&fid).cloned() {
                if let Some(v) = o(self, &args)? {
                    return Ok(v);
                }
            }
        }
        let f = &p.fns[fid];
        let Some(body) = &f.d.body else { return bad(format!("function {} has no body", f.full)) };
        if f.all_params.len() != args.len() {
            return bad(format!("arity mismatch calling {} ({} args)", f.full, args.len()));
        }
        let heavy = match self.heavy[fid] {
            Some(h) => h,
            None => {
                let h = f.d.recursive || has_quant(body);
                self.heavy[fid] = Some(h);
                h
            }
        };
        let mut key = None;
        if heavy && args.iter().all(|a| !a.has_lvar()) {
            let k: Vec<(u8, u128)> = args.iter().map(ident_key).collect();
            if let Some((_, r)) = self.memo.get(&(fid, k.clone())) {
                return Ok(r.clone());
            }
            key = Some(k);
        }
        self.depth += 1;
        if self.depth > 3000 {
            self.depth = 0;
            return bad(format!("recursion too deep in {}", f.full));
        }
        let mut env = Env::empty();
        for (n, a) in f.all_params.iter().zip(args.iter()) {
            env = env.with(*n, a.clone());
        }
        let fr = Fr { scope: f.scope, self_ty: f.self_ty };
        if let Some(w) = &f.d.when {
            match self.eval(w, &env, fr) {
                Ok(V::Bool(true)) => {}
                Ok(_) => {
                    self.depth -= 1;
                    return Ok(V::Undef);
                }
                Err(e) => {
                    self.depth = self.depth.saturating_sub(1);
                    return Err(e);
                }
            }
        }
        self.expect = if untyped_comprehension(body) { Some((f.d.ret.clone(), fr)) } else { None };
        let t0 = if self.prof.is_some() { Some(std::time::Instant::now()) } else { None };
        let r = self.eval(body, &env, fr);
        if let (Some(t0), Some(p)) = (t0, self.prof.as_mut()) {
            let x = p.entry(fid).or_default();
            x.0 += 1;
            x.1 += t0.elapsed().as_secs_f64();
            if r.is_err() {
                x.2 += 1;
            }
        }
        self.expect = None;
        self.depth = self.depth.saturating_sub(1);
        let r = r.map_err(|e| match e {
            Ctl::Err(s) if s.len() < 1500 => Ctl::Err(format!("{}\n   in {}", s, f.full)),
            e => e,
        })?;
        if let Some(k) = key {
            if self.memo.len() > 400_000 {
                self.memo.clear();
            }
            self.memo.insert((fid, k), (args, r.clone()));
        }
        Ok(r)
    }
    pub fn apply(&mut self, f: &V, args: &[V]) -> ER {
        match self.force(f.clone())? {
            V::Fun(c) => {
                let mut env = c.env.clone();
                if c.params.len() != args.len() {
                    return bad("closure arity");
                }
                for ((p, _), a) in c.params.iter().zip(args) {
                    match self.pmatch(p, a, &env, c.fr)? {
                        Some(e) => env = e,
                        None => return Ok(V::Undef),
                    }
                }
                self.eval(&c.body, &env, c.fr)
            }
            V::Undef => Ok(V::Undef),
            o => bad(format!("apply non-function {:?}", o)),
        }
    }
    /// remember that an unknown map is part of a known one
    fn note_upper(&mut self, recv: &V, arg: &V) {
        if let V::LVar(i) = self.deref(recv) {
            if let Ok(u) = self.ground(arg.clone()) {
                if matches!(u, V::Map(_)) {
                    self.lv[i as usize].upper = Some(u);
                }
            }
        }
    }
    pub fn call_method(&mut self, recv: V, m: Sym, args: Vec<V>) -> ER {
        if let (V::LVar(_), 1) = (&recv, args.len()) {
            if matches!(&*name(m), "agrees" | "submap_of" | "spec_le") {
                self.note_upper(&recv, &args[0]);
            }
        }
        let recv = self.force_or_expand(recv)?;
        match &recv {
            V::Data(d) => {
                let p = self.p.clone();
                let ti = &p.types[d.ctor.ty as usize];
                if let Some(f) = ti.methods.get(&m).or_else(|| p.trait_methods.get(&m)) {
                    let mut a = vec![recv.clone()];
                    a.extend(args);
                    return self.call_fn(*f, a);
                }
                self.data_builtin(&recv, m, args)
            }
            V::Undef => Ok(V::Undef),
            _ => {
                let k = kind_sym(&recv);
                if let Some(f) = self.p.ext_methods.get(&(k, m)).copied() {
                    let mut a = vec![recv.clone()];
                    a.extend(args);
                    return self.call_fn(f, a);
                }
                if let Some(f) = self.p.trait_methods.get(&m).copied() {
                    let mut a = vec![recv.clone()];
                    a.extend(args);
                    return self.call_fn(f, a);
                }
                crate::builtins::method(self, &recv, m, args)
            }
        }
    }
    pub fn call_static(&mut self, tid: usize, f: &str, args: Vec<V>) -> ER {
        match self.p.types[tid].methods.get(&sym(f)).copied() {
            Some(fid) => self.call_fn(fid, args),
            None => bad(format!("no function {} in {}", f, self.p.types[tid].full)),
        }
    }
    pub fn call_named(&mut self, recv: V, m: &str, args: Vec<V>) -> ER {
        self.call_method(recv, sym(m), args)
    }
    fn force_or_expand(&mut self, v: V) -> ER {
        if let V::LVar(_) = v {
            match self.deref(&v) {
                V::LVar(i) => match self.expand_struct(i)? {
                    Some(x) => Ok(x),
                    None => Err(Ctl::Stuck(i)),
                },
                x => Ok(x),
            }
        } else {
            Ok(v)
        }
    }
    fn data_builtin(&mut self, recv: &V, m: Sym, args: Vec<V>) -> ER {
        let n = name(m);
        let d = recv.as_data().unwrap().clone();
        let vn = name(d.ctor.name);
        match &*n {
            "is_some" => return Ok(V::Bool(&*vn == "Some")),
            "is_none" => return Ok(V::Bool(&*vn == "None")),
            "is_ok" => return Ok(V::Bool(&*vn == "Ok")),
            "is_err" => return Ok(V::Bool(&*vn == "Err")),
            "unwrap" | "spec_unwrap" => return Ok(if matches!(&*vn, "Some" | "Ok") { d.f[0].clone() } else { V::Undef }),
            "unwrap_or" => return Ok(if &*vn == "Some" { d.f[0].clone() } else { args[0].clone() }),
            "unwrap_err" => return Ok(if &*vn == "Err" { d.f[0].clone() } else { V::Undef }),
            "clone" | "deep_view" | "view" | "spec_clone" => return Ok(recv.clone()),
            _ => {}
        }
        if let Some(x) = n.strip_prefix("is_") {
            return Ok(V::Bool(&*vn == x));
        }
        if let Some(x) = n.strip_prefix("get_").or_else(|| n.strip_prefix("arrow_")) {
            return Ok(arrow(&d, x));
        }
        // closure-valued field
        bad(format!("no method {} on {}", n, name(d.ctor.ty_name)))
    }

    // ---------- evaluation ----------
    pub fn eval_bool(&mut self, e: &EP, env: &Env, fr: Fr) -> ER<Option<bool>> {
        let v = self.eval(e, env, fr)?;
        match self.force(v)? {
            V::Bool(b) => Ok(Some(b)),
            V::Undef => Ok(None),
            o => bad(format!("{}: expected bool, got {:?}", self.p.loc(e.pos), o)),
        }
    }
    fn eval_int(&mut self, e: &EP, env: &Env, fr: Fr) -> ER<Option<i128>> {
        let v = self.eval(e, env, fr)?;
        match self.force(v)? {
            V::Int(b) => Ok(Some(b)),
            V::Undef => Ok(None),
            o => bad(format!("{}: expected int, got {:?}", self.p.loc(e.pos), o)),
        }
    }
    pub fn eval_f(&mut self, e: &EP, env: &Env, fr: Fr) -> ER {
        let v = self.eval(e, env, fr)?;
        self.force(v)
    }

    pub fn eval(&mut self, e: &EP, env: &Env, fr: Fr) -> ER {
        self.evals += 1;
        match &e.k {
            EK::Int(i) => Ok(V::Int(*i)),
            EK::Bool(b) => Ok(V::Bool(*b)),
            EK::Str(s) => Ok(V::Str(s.clone())),
            EK::Char(c) => Ok(V::Char(*c)),
            EK::Path(p) => self.eval_path(e, p, env, fr),
            EK::Call(f, args) => self.eval_call(e, f, args, env, fr),
            EK::Method(r, m, _t, args) => {
                let recv = self.eval(r, env, fr)?;
                // lazy boolean short-cuts are not needed: spec methods are pure
                let mut a = Vec::with_capacity(args.len());
                for x in args {
                    a.push(self.eval(x, env, fr)?);
                }
                self.call_method(recv, *m, a).map_err(|c| self.locate(c, e))
            }
            EK::Field(x, f) => {
                let v = self.eval(x, env, fr)?;
                let v = self.force_or_expand(v)?;
                self.field(&v, *f).map_err(|c| self.locate(c, e))
            }
            EK::Arrow(x, f) => {
                let v = self.eval(x, env, fr)?;
                let v = self.force_or_expand(v)?;
                match &v {
                    V::Data(d) => {
                        let r = arrow(d, &name(*f));
                        Ok(self.deref(&r))
                    }
                    V::Undef => Ok(V::Undef),
                    o => bad(format!("{}: -> on {:?}", self.p.loc(e.pos), o)),
                }
            }
            EK::Is(x, p) => {
                let v = self.eval_f(x, env, fr)?;
                match &v {
                    V::Data(d) => Ok(V::Bool(d.ctor.name == *p.segs.last().unwrap())),
                    V::Undef => Ok(V::Undef),
                    o => bad(format!("{}: `is` on {:?}", self.p.loc(e.pos), o)),
                }
            }
            EK::Matches(x, p, rest) => {
                let v = self.eval(x, env, fr)?;
                match self.pmatch(p, &v, env, fr)? {
                    None => Ok(V::Bool(false)),
                    Some(env2) => match rest {
                        None => Ok(V::Bool(true)),
                        Some(r) => self.eval(r, &env2, fr),
                    },
                }
            }
            EK::Index(x, i) => {
                let v = self.eval(x, env, fr)?;
                let v = self.force_or_expand(v)?;
                let k = self.eval(i, env, fr)?;
                self.index(v, k).map_err(|c| self.locate(c, e))
            }
            EK::Slice(x, a, b) => {
                let v = self.eval_f(x, env, fr)?;
                let V::Seq(s) = &v else { return if let V::Undef = v { Ok(V::Undef) } else { bad("slice of non-seq") } };
                let lo = match a {
                    Some(a) => self.eval_int(a, env, fr)?,
                    None => Some(0),
                };
                let hi = match b {
                    Some(b) => self.eval_int(b, env, fr)?,
                    None => Some(s.len() as i128),
                };
                match (lo, hi) {
                    (Some(lo), Some(hi)) if 0 <= lo && lo <= hi && hi <= s.len() as i128 => Ok(V::seq(s[lo as usize..hi as usize].to_vec())),
                    _ => Ok(V::Undef),
                }
            }
            EK::Not(x) => Ok(match self.eval_bool(x, env, fr)? {
                Some(b) => V::Bool(!b),
                None => V::Undef,
            }),
            EK::Neg(x) => Ok(match self.eval_int(x, env, fr)? {
                Some(b) => V::Int(-b),
                None => V::Undef,
            }),
            EK::Bin(op, a, b) => self.eval_bin(e, *op, a, b, env, fr),
            EK::Bullet(op, items) => {
                let mut undef = false;
                let mut stuck = None;
                for x in items {
                    match self.eval_bool(x, env, fr) {
                        Ok(Some(b)) => {
                            if b == (*op == Op::Or) {
                                return Ok(V::Bool(b));
                            }
                        }
                        Ok(None) => undef = true,
                        Err(Ctl::Stuck(i)) => {
                            if stuck.is_none() {
                                stuck = Some(i)
                            }
                        }
                        Err(c) => {
                            if stuck.is_some() {
                                break;
                            }
                            return Err(c);
                        }
                    }
                    if undef && *op == Op::And && stuck.is_none() {
                        // left-to-right guard semantics: an undefined guard hides what follows
                        return Ok(V::Undef);
                    }
                }
                if let Some(i) = stuck {
                    return Err(Ctl::Stuck(i));
                }
                if undef {
                    return Ok(V::Undef);
                }
                Ok(V::Bool(*op == Op::And))
            }
            EK::If(c, a, b) => match self.eval_bool(c, env, fr)? {
                Some(true) => self.eval(a, env, fr),
                Some(false) => match b {
                    Some(b) => self.eval(b, env, fr),
                    None => Ok(V::tup(vec![])),
                },
                None => Ok(V::Undef),
            },
            EK::IfLet(p, x, a, b) => {
                let v = self.eval(x, env, fr)?;
                match self.pmatch(p, &v, env, fr)? {
                    Some(env2) => self.eval(a, &env2, fr),
                    None => match b {
                        Some(b) => self.eval(b, env, fr),
                        None => Ok(V::tup(vec![])),
                    },
                }
            }
            EK::Match(x, arms) => {
                let v = self.eval(x, env, fr)?;
                for (p, g, b) in arms {
                    if let Some(env2) = self.pmatch(p, &v, env, fr)? {
                        if let Some(g) = g {
                            if self.eval_bool(g, &env2, fr)? != Some(true) {
                                continue;
                            }
                        }
                        return self.eval(b, &env2, fr);
                    }
                }
                Ok(V::Undef)
            }
            EK::Let(p, _t, x, b) => {
                let v = self.eval(x, env, fr)?;
                match self.pmatch(p, &v, env, fr)? {
                    Some(env2) => self.eval(b, &env2, fr),
                    None => Ok(V::Undef),
                }
            }
            EK::Lambda(ps, b) => Ok(V::Fun(Rc::new(Closure { params: ps.clone(), body: b.clone(), env: env.clone(), fr }))),
            EK::Quant(q, vars, b, _) => self.eval_quant(e, *q, vars, b, env, fr),
            EK::Struct(p, fs, base) => self.eval_struct(e, p, fs, base, env, fr),
            EK::Tuple(xs) => {
                let mut v = Vec::with_capacity(xs.len());
                for x in xs {
                    v.push(self.eval(x, env, fr)?);
                }
                Ok(V::tup(v))
            }
            EK::SeqLit(xs) => {
                let mut v = Vec::with_capacity(xs.len());
                for x in xs {
                    v.push(self.eval(x, env, fr)?);
                }
                Ok(V::seq(v))
            }
            EK::SetLit(xs) => {
                let mut v = BTreeSet::new();
                for x in xs {
                    let y = self.eval(x, env, fr)?;
                    v.insert(self.ground(y)?);
                }
                Ok(V::Set(Rc::new(v)))
            }
            EK::MSetLit(xs) => {
                let mut v = BTreeMap::new();
                for x in xs {
                    let y = self.eval(x, env, fr)?;
                    *v.entry(self.ground(y)?).or_insert(0) += 1;
                }
                Ok(V::MSet(Rc::new(v)))
            }
            EK::MapLit(xs) => {
                let mut v = BTreeMap::new();
                for (k, x) in xs {
                    let k = self.eval(k, env, fr)?;
                    let k = self.ground(k)?;
                    let y = self.eval(x, env, fr)?;
                    v.insert(k, y);
                }
                Ok(V::Map(Rc::new(v)))
            }
            EK::Cast(x, t) => {
                let v = self.eval_f(x, env, fr)?;
                if let (V::Int(i), Ty::Named(s, _)) = (&v, t) {
                    let n = name(*s.last().unwrap());
                    let bits = match &*n {
                        "nat" => {
                            // unspecified for a negative number: one of the possible values
                            return Ok(if *i < 0 { V::Int(0) } else { v });
                        }
                        "u8" => 8,
                        "u16" => 16,
                        "u32" => 32,
                        "u64" | "usize" => 64,
                        _ => return Ok(v),
                    };
                    return Ok(V::Int(i.rem_euclid(1i128 << bits)));
                }
                Ok(v)
            }
            EK::View(x) => {
                let v = self.eval(x, env, fr)?;
                let v = self.force_or_expand(v)?;
                if let V::Data(d) = &v {
                    let p = self.p.clone();
                    if p.types[d.ctor.ty as usize].methods.contains_key(&self.s.view) {
                        return self.call_method(v, self.s.view, vec![]);
                    }
                }
                Ok(v)
            }
            EK::Upd(x, fs) => {
                let v = self.eval(x, env, fr)?;
                let v = self.force_or_expand(v)?;
                let d = match &v {
                    V::Data(d) => d.clone(),
                    V::Undef => return Ok(V::Undef),
                    o => return bad(format!("{}: update of {:?}", self.p.loc(e.pos), o)),
                };
                let mut f = d.f.clone();
                for (n, x) in fs {
                    let Some(i) = d.ctor.fields.iter().position(|y| y == n) else { return Ok(V::Undef) };
                    f[i] = self.eval(x, env, fr)?;
                }
                Ok(V::data(&d.ctor, f))
            }
            EK::IdxUpd(x, i, y) => {
                let v = self.eval_f(x, env, fr)?;
                let k = self.eval(i, env, fr)?;
                let y = self.eval(y, env, fr)?;
                match &v {
                    V::Seq(s) => match self.force(k)? {
                        V::Int(i) if i >= 0 && (i as usize) < s.len() => {
                            let mut t = (**s).clone();
                            t[i as usize] = y;
                            Ok(V::seq(t))
                        }
                        _ => Ok(V::Undef),
                    },
                    V::Map(m) => {
                        let k = self.ground(k)?;
                        let mut t = (**m).clone();
                        t.insert(k, y);
                        Ok(V::Map(Rc::new(t)))
                    }
                    V::MSet(m) => {
                        let k = self.ground(k)?;
                        let n = self.force(y)?;
                        let mut t = (**m).clone();
                        match n {
                            V::Int(0) => {
                                t.remove(&k);
                            }
                            V::Int(n) if n > 0 => {
                                t.insert(k, n);
                            }
                            _ => return Ok(V::Undef),
                        }
                        Ok(V::MSet(Rc::new(t)))
                    }
                    V::Undef => Ok(V::Undef),
                    o => bad(format!("{}: element update of {:?}", self.p.loc(e.pos), o)),
                }
            }
            EK::Compr(..) => self.eval_compr(e, env, fr),
            EK::Inout(x) => self.eval(x, env, fr),
            EK::Unknown(s) => bad(format!("{}: unsupported expression: {}", self.p.loc(e.pos), s)),
        }
    }
    fn locate(&self, c: Ctl, e: &EP) -> Ctl {
        match c {
            Ctl::Err(s) if s.len() < 1200 => Ctl::Err(format!("{}: {}", self.p.loc(e.pos), s)),
            c => c,
        }
    }
    pub fn field(&mut self, v: &V, f: Sym) -> ER {
        match v {
            V::Data(d) => match d.ctor.fields.iter().position(|x| *x == f) {
                Some(i) => Ok(self.deref(&d.f[i])),
                None => {
                    // field of another variant?
                    if self.p.types[d.ctor.ty as usize].ctors.iter().any(|c| c.fields.contains(&f)) {
                        return Ok(V::Undef);
                    }
                    bad(format!("no field {} in {}", name(f), name(d.ctor.ty_name)))
                }
            },
            V::Tup(t) => {
                let i: usize = name(f).parse().map_err(|_| Ctl::Err(format!("tuple field {}", name(f))))?;
                match t.get(i) {
                    Some(x) => Ok(self.deref(x)),
                    None => bad("tuple index"),
                }
            }
            V::Undef => Ok(V::Undef),
            o => bad(format!("field {} of {:?}", name(f), o)),
        }
    }
    pub fn index(&mut self, v: V, k: V) -> ER {
        match &v {
            V::Seq(s) => match self.force(k)? {
                V::Int(i) => Ok(if i >= 0 && (i as usize) < s.len() { self.deref(&s[i as usize]) } else { V::Undef }),
                V::Undef => Ok(V::Undef),
                o => bad(format!("seq index {:?}", o)),
            },
            V::Map(m) => {
                let k = self.ground(k)?;
                Ok(match m.get(&k) {
                    Some(x) => self.deref(x),
                    None => V::Undef,
                })
            }
            V::MSet(m) => {
                let k = self.ground(k)?;
                Ok(V::Int(*m.get(&k).unwrap_or(&0)))
            }
            V::Undef => Ok(V::Undef),
            V::Data(_) => {
                let si = self.s.spec_index;
                self.call_method(v, si, vec![k])
            }
            o => bad(format!("index into {:?}", o)),
        }
    }
    fn eval_path(&mut self, e: &EP, p: &Path, env: &Env, fr: Fr) -> ER {
        if p.segs.len() == 1 {
            if let Some(v) = env.get(p.segs[0]) {
                return Ok(self.deref(v));
            }
        }
        match self.p.clone().resolve(fr.scope, &p.segs, fr.self_ty, false) {
            Some(PRes::Fn(f)) => {
                let fi = &self.p.fns[f];
                if fi.all_params.is_empty() {
                    return self.call_fn(f, vec![]);
                }
                // function value: eta-expand
                let pr = fi.all_params.iter().map(|s| (Pat::Bind(*s), Ty::Any)).collect();
                let args = fi.all_params.iter().map(|s| mk(EK::Path(Path { segs: vec![*s], targs: vec![] }), e.pos)).collect();
                let body = mk(EK::Call(e.clone(), args), e.pos);
                Ok(V::Fun(Rc::new(Closure { params: pr, body, env: Env::empty(), fr })))
            }
            Some(PRes::Ctor(c)) => {
                if c.fields.is_empty() {
                    Ok(V::data(&c, vec![]))
                } else {
                    let ns: Vec<Sym> = (0..c.fields.len()).map(|i| sym(&format!("$a{}", i))).collect();
                    let pr = ns.iter().map(|s| (Pat::Bind(*s), Ty::Any)).collect();
                    let args = ns.iter().map(|s| mk(EK::Path(Path { segs: vec![*s], targs: vec![] }), e.pos)).collect();
                    let body = mk(EK::Call(e.clone(), args), e.pos);
                    Ok(V::Fun(Rc::new(Closure { params: pr, body, env: Env::empty(), fr })))
                }
            }
            Some(PRes::MachineOp(mid, op, sub)) => crate::solve::machine_op(self, mid, op, sub, vec![]),
            Some(PRes::Builtin(a, b)) => crate::builtins::constant(a, b).map(Ok).unwrap_or_else(|| bad(format!("{}: unresolved path {}::{}", self.p.loc(e.pos), name(a), name(b)))),
            _ => bad(format!("{}: unresolved name {}", self.p.loc(e.pos), p.segs.iter().map(|s| name(*s).to_string()).collect::<Vec<_>>().join("::"))),
        }
    }
    fn eval_args(&mut self, args: &[EP], env: &Env, fr: Fr) -> ER<Vec<V>> {
        let mut a = Vec::with_capacity(args.len());
        for x in args {
            a.push(self.eval(x, env, fr)?);
        }
        Ok(a)
    }
    fn eval_call(&mut self, e: &EP, f: &EP, args: &[EP], env: &Env, fr: Fr) -> ER {
        if let EK::Path(p) = &f.k {
            if p.segs.len() == 1 {
                if let Some(v) = env.get(p.segs[0]) {
                    let v = v.clone();
                    let a = self.eval_args(args, env, fr)?;
                    return self.apply(&v, &a);
                }
            }
            let r = self.p.clone().resolve(fr.scope, &p.segs, fr.self_ty, false);
            match r {
                Some(PRes::Fn(fid)) => {
                    let a = self.eval_args(args, env, fr)?;
                    return self.call_fn(fid, a).map_err(|c| self.locate(c, e));
                }
                Some(PRes::Ctor(c)) => {
                    let a = self.eval_args(args, env, fr)?;
                    if a.len() != c.fields.len() {
                        return bad(format!("{}: constructor arity {}", self.p.loc(e.pos), name(c.name)));
                    }
                    return Ok(V::data(&c, a));
                }
                Some(PRes::Type(t)) => {
                    // tuple struct constructor
                    let c = self.p.types[t].ctors[0].clone();
                    let a = self.eval_args(args, env, fr)?;
                    if a.len() != c.fields.len() {
                        return bad(format!("{}: constructor arity {}", self.p.loc(e.pos), name(c.name)));
                    }
                    return Ok(V::data(&c, a));
                }
                Some(PRes::MachineOp(mid, op, sub)) => {
                    let a = self.eval_args(args, env, fr)?;
                    return crate::solve::machine_op(self, mid, op, sub, a);
                }
                Some(PRes::Builtin(t, m)) => {
                    let a = self.eval_args(args, env, fr)?;
                    return crate::builtins::static_fn(self, t, m, a, args, env, fr).map_err(|c| self.locate(c, e));
                }
                None if p.segs.len() == 1 => {
                    let a = self.eval_args(args, env, fr)?;
                    return crate::builtins::free_fn(self, p.segs[0], a).map_err(|c| self.locate(c, e));
                }
                _ => {
                    return bad(format!("{}: unresolved function {}", self.p.loc(e.pos), p.segs.iter().map(|s| name(*s).to_string()).collect::<Vec<_>>().join("::")));
                }
            }
        }
        let fv = self.eval(f, env, fr)?;
        let a = self.eval_args(args, env, fr)?;
        self.apply(&fv, &a)
    }
    fn eval_struct(&mut self, e: &EP, p: &Path, fs: &[(Sym, EP)], base: &Option<EP>, env: &Env, fr: Fr) -> ER {
        let c = self.ctor_of(p, fr).ok_or_else(|| Ctl::Err(format!("{}: unknown struct {:?}", self.p.loc(e.pos), p.segs.iter().map(|s| name(*s)).collect::<Vec<_>>())))?;
        let b = match base {
            Some(b) => {
                let v = self.eval(b, env, fr)?;
                Some(self.force_or_expand(v)?)
            }
            None => None,
        };
        let mut f = Vec::with_capacity(c.fields.len());
        for (i, n) in c.fields.iter().enumerate() {
            match fs.iter().find(|x| x.0 == *n) {
                Some((_, x)) => {
                    if untyped_comprehension(x) {
                        let p = self.p.clone();
                        let ti = &p.types[c.ty as usize];
                        if let Some(k) = ti.ctors.iter().position(|x| x.id == c.id) {
                            self.expect = Some((ti.ftys[k][i].clone(), Fr { scope: ti.scope, self_ty: None }));
                        }
                    }
                    let v = self.eval(x, env, fr);
                    self.expect = None;
                    f.push(v?)
                }
                None => match &b {
                    Some(V::Data(d)) if d.ctor.id == c.id => f.push(d.f[i].clone()),
                    Some(V::Undef) | None => f.push(V::Undef),
                    Some(V::Data(_)) => f.push(V::Undef),
                    Some(_) => return bad("struct base"),
                },
            }
        }
        for (n, _) in fs {
            if !c.fields.contains(n) {
                return bad(format!("{}: no field {} in {}", self.p.loc(e.pos), name(*n), name(c.name)));
            }
        }
        Ok(V::data(&c, f))
    }
    pub fn ctor_of(&self, p: &Path, fr: Fr) -> Option<Rc<Ctor>> {
        match self.p.resolve(fr.scope, &p.segs, fr.self_ty, false)? {
            PRes::Ctor(c) => Some(c),
            PRes::Type(t) if self.p.types[t].is_struct => Some(self.p.types[t].ctors[0].clone()),
            PRes::Fn(_) => match self.p.resolve(fr.scope, &p.segs, fr.self_ty, true)? {
                PRes::Type(t) => Some(self.p.types[t].ctors[0].clone()),
                PRes::Ctor(c) => Some(c),
                _ => None,
            },
            _ => None,
        }
    }
    fn eval_bin(&mut self, e: &EP, op: Op, a: &EP, b: &EP, env: &Env, fr: Fr) -> ER {
        match op {
            Op::And | Op::Or => {
                let x = self.eval_bool(a, env, fr);
                let shortv = op == Op::Or;
                match x {
                    Ok(Some(v)) => {
                        if v == shortv {
                            return Ok(V::Bool(shortv));
                        }
                        self.eval(b, env, fr)
                    }
                    Ok(None) => {
                        if op == Op::And {
                            return Ok(V::Undef);
                        }
                        match self.eval_bool(b, env, fr)? {
                            Some(v) if v == shortv => Ok(V::Bool(shortv)),
                            _ => Ok(V::Undef),
                        }
                    }
                    Err(Ctl::Stuck(i)) => {
                        // the other side may decide
                        match self.eval_bool(b, env, fr) {
                            Ok(Some(v)) if v == shortv => Ok(V::Bool(shortv)),
                            _ => Err(Ctl::Stuck(i)),
                        }
                    }
                    Err(c) => Err(c),
                }
            }
            Op::Imp => match self.eval_bool(a, env, fr) {
                Ok(Some(false)) => Ok(V::Bool(true)),
                Ok(Some(true)) => self.eval(b, env, fr),
                Ok(None) => Ok(V::Undef),
                Err(Ctl::Stuck(i)) => match self.eval_bool(b, env, fr) {
                    Ok(Some(true)) => Ok(V::Bool(true)),
                    _ => Err(Ctl::Stuck(i)),
                },
                Err(c) => Err(c),
            },
            Op::Iff => {
                let x = self.eval_bool(a, env, fr)?;
                let y = self.eval_bool(b, env, fr)?;
                Ok(match (x, y) {
                    (Some(x), Some(y)) => V::Bool(x == y),
                    _ => V::Undef,
                })
            }
            Op::Eq | Op::Ne => {
                let x = self.eval(a, env, fr)?;
                let y = self.eval(b, env, fr)?;
                let r = self.equal(&x, &y)?;
                Ok(match r {
                    V::Bool(v) => V::Bool(v == (op == Op::Eq)),
                    o => o,
                })
            }
            _ => {
                let x = match (op, self.eval(a, env, fr)?) {
                    (Op::Le, V::LVar(i)) => {
                        if matches!(self.deref(&V::LVar(i)), V::LVar(_)) {
                            let y = self.eval(b, env, fr)?;
                            self.note_upper(&V::LVar(i), &y);
                        }
                        self.force(V::LVar(i))?
                    }
                    (_, x) => self.force(x)?,
                };
                let y = self.eval_f(b, env, fr)?;
                crate::builtins::binop(self, op, x, y).map_err(|c| self.locate(c, e))
            }
        }
    }

    // ---------- patterns ----------
    pub fn pmatch(&mut self, p: &Pat, v: &V, env: &Env, fr: Fr) -> ER<Option<Env>> {
        match p {
            Pat::Wild | Pat::Rest => Ok(Some(env.clone())),
            Pat::Bind(s) => Ok(Some(env.with(*s, v.clone()))),
            Pat::Lit(e) => {
                let x = self.eval(e, env, fr)?;
                let v = self.force(v.clone())?;
                Ok(if x == v { Some(env.clone()) } else { None })
            }
            Pat::Tuple(ps) => {
                let v = self.force_or_expand(v.clone())?;
                match &v {
                    V::Tup(t) if t.len() == ps.len() => {
                        let mut env = env.clone();
                        for (q, x) in ps.iter().zip(t.iter()) {
                            match self.pmatch(q, x, &env, fr)? {
                                Some(e) => env = e,
                                None => return Ok(None),
                            }
                        }
                        Ok(Some(env))
                    }
                    V::Undef => {
                        let mut env = env.clone();
                        for q in ps {
                            match self.pmatch(q, &V::Undef, &env, fr)? {
                                Some(e) => env = e,
                                None => return Ok(None),
                            }
                        }
                        Ok(Some(env))
                    }
                    _ => Ok(None),
                }
            }
            Pat::TupleCtor(path, ps, c) => {
                let Some(c) = c.get_or_init(|| self.ctor_of(path, fr)).clone() else {
                    return bad(format!("unknown constructor in pattern {}", path.segs.iter().map(|s| name(*s).to_string()).collect::<Vec<_>>().join("::")));
                };
                let v = self.force_ctor(v, &c)?;
                match &v {
                    V::Data(d) if d.ctor.id == c.id => {
                        let mut env = env.clone();
                        for (i, q) in ps.iter().enumerate() {
                            if matches!(q, Pat::Rest) {
                                break;
                            }
                            match self.pmatch(q, &d.f[i], &env, fr)? {
                                Some(e) => env = e,
                                None => return Ok(None),
                            }
                        }
                        Ok(Some(env))
                    }
                    _ => Ok(None),
                }
            }
            Pat::StructCtor(path, ps, c) => {
                let Some(c) = c.get_or_init(|| self.ctor_of(path, fr)).clone() else {
                    return bad(format!("unknown constructor in pattern {}", path.segs.iter().map(|s| name(*s).to_string()).collect::<Vec<_>>().join("::")));
                };
                let v = self.force_ctor(v, &c)?;
                match &v {
                    V::Data(d) if d.ctor.id == c.id => {
                        let mut env = env.clone();
                        for (f, q) in ps.iter() {
                            let Some(i) = c.fields.iter().position(|x| x == f) else { return bad(format!("pattern field {}", name(*f))) };
                            match self.pmatch(q, &d.f[i], &env, fr)? {
                                Some(e) => env = e,
                                None => return Ok(None),
                            }
                        }
                        Ok(Some(env))
                    }
                    _ => Ok(None),
                }
            }
            Pat::PathOrBind(path, c) => {
                let c = c
                    .get_or_init(|| self.ctor_of(path, fr))
                    .clone();
                match c {
                    Some(c) => {
                        let v = self.force_ctor(v, &c)?;
                        match &v {
                            V::Data(d) if d.ctor.id == c.id => Ok(Some(env.clone())),
                            _ => Ok(None),
                        }
                    }
                    None if path.segs.len() == 1 => Ok(Some(env.with(path.segs[0], v.clone()))),
                    None => bad("unknown path pattern"),
                }
            }
            Pat::Or(ps) => {
                for q in ps {
                    if let Some(e) = self.pmatch(q, v, env, fr)? {
                        return Ok(Some(e));
                    }
                }
                Ok(None)
            }
        }
    }
    fn force_ctor(&mut self, v: &V, c: &Rc<Ctor>) -> ER {
        let d = self.deref(v);
        if let V::LVar(i) = d {
            // only structs are expanded here; enums need a choice
            if self.p.types[c.ty as usize].is_struct {
                if let Some(x) = self.expand_struct(i)? {
                    return Ok(x);
                }
            }
            return Err(Ctl::Stuck(i));
        }
        Ok(d)
    }

    // ---------- quantifiers ----------
    fn eval_quant(&mut self, e: &EP, q: Q, vars: &[(Sym, Ty)], body: &EP, env: &Env, fr: Fr) -> ER {
        let mut found: Option<Vec<V>> = None;
        let mut undef = false;
        let mut env2 = env.clone();
        let m = self.mark();
        for (s, t) in vars {
            let l = self.fresh(t.clone(), fr, *s);
            env2 = env2.with(*s, l);
        }
        let base = m.1;
        let r = self.quant_rec(e, q, vars, &(0..vars.len()).collect::<Vec<_>>(), body, env, &env2, fr, base, &mut found, &mut undef);
        self.undo(m);
        r?;
        match q {
            Q::Forall => Ok(if found.is_some() {
                V::Bool(false)
            } else if undef {
                V::Undef
            } else {
                V::Bool(true)
            }),
            Q::Exists => Ok(if found.is_some() {
                V::Bool(true)
            } else if undef {
                V::Undef
            } else {
                V::Bool(false)
            }),
            Q::Choose => Ok(match found {
                Some(mut v) => {
                    if v.len() == 1 {
                        v.pop().unwrap()
                    } else {
                        V::tup(v)
                    }
                }
                None => V::Undef,
            }),
        }
    }
    fn eval_compr(&mut self, e: &EP, env: &Env, fr: Fr) -> ER {
        let EK::Compr(is_map, vars, range, key, val) = &e.k else { unreachable!() };
        let expect = self.expect.take();
        let mut env2 = env.clone();
        let m = self.mark();
        for (s, t) in vars {
            let l = self.fresh(t.clone(), fr, *s);
            env2 = env2.with(*s, l);
        }
        let mut out = vec![];
        let r = self.compr_rec(e, vars, &(0..vars.len()).collect::<Vec<_>>(), range, key, val, env, &env2, fr, m.1, &expect, &mut out);
        self.undo(m);
        r?;
        if *is_map {
            let mut t = BTreeMap::new();
            for (k, v) in out {
                t.insert(k, v);
            }
            Ok(V::Map(Rc::new(t)))
        } else {
            Ok(V::set(out.into_iter().map(|x| x.0)))
        }
    }
    fn compr_rec(&mut self, e: &EP, vars: &[(Sym, Ty)], rest: &[usize], range: &EP, key: &Option<EP>, val: &Option<EP>, env: &Env, envl: &Env, fr: Fr, base: usize, expect: &Option<(Ty, Fr)>, out: &mut Vec<(V, V)>) -> ER<()> {
        if rest.is_empty() {
            if self.eval_bool(range, envl, fr)? == Some(true) {
                let k = match key {
                    Some(k) => self.eval(k, envl, fr)?,
                    None if vars.len() == 1 => self.deref(&V::LVar(base as u32)),
                    None => V::tup((0..vars.len()).map(|i| self.deref(&V::LVar((base + i) as u32))).collect()),
                };
                let k = self.ground(k)?;
                let v = match val {
                    Some(v) => {
                        let v = self.eval(v, envl, fr)?;
                        self.resolve(&v)
                    }
                    None => V::Undef,
                };
                out.push((k, v));
            }
            return Ok(());
        }
        let mut choice: Option<(usize, Vec<V>)> = None;
        for &k in rest {
            let c = self.cands((base + k) as u32, vars[k].0, range, envl, fr, true, 0)?;
            let is_nat = self.is_nat_ty(&vars[k].1, fr);
            if let Some(vs) = c.finish(is_nat) {
                choice = Some((k, vs));
                break;
            }
        }
        if choice.is_none() {
            'o: for &k in rest {
                for b in [Some(range), key.as_ref(), val.as_ref()].into_iter().flatten() {
                    if let Some(u) = self.var_universe((base + k) as u32, vars[k].0, &vars[k].1, b, envl, env, fr)? {
                        choice = Some((k, u.to_vec()));
                        break 'o;
                    }
                }
            }
        }
        if choice.is_none() && rest.len() == 1 && key.is_none() {
            if let Some((t, f2)) = expect {
                let a = self.ty_args(t, *f2);
                if let Some(t) = a.first() {
                    if let Some(u) = self.universe(t, *f2, env, 0)? {
                        choice = Some((rest[0], u.to_vec()));
                    }
                }
            }
        }
        let Some((k, vs)) = choice else {
            return bad(format!("{}: no finite domain for {} in a comprehension", self.p.loc(e.pos), name(vars[rest[0]].0)));
        };
        let rest2: Vec<usize> = rest.iter().copied().filter(|x| *x != k).collect();
        for v in vs {
            let m = self.mark();
            self.bind((base + k) as u32, v);
            let r = self.compr_rec(e, vars, &rest2, range, key, val, env, envl, fr, base, expect, out);
            self.undo(m);
            r?;
        }
        Ok(())
    }
    /// enumerate assignments of the remaining variables; `found` receives a witness (exists/choose) or counterexample (forall)
    fn quant_rec(&mut self, e: &EP, q: Q, vars: &[(Sym, Ty)], rest: &[usize], body: &EP, env: &Env, envl: &Env, fr: Fr, base: usize, found: &mut Option<Vec<V>>, undef: &mut bool) -> ER<()> {
        if rest.is_empty() {
            match self.eval_bool(body, envl, fr)? {
                Some(b) => {
                    if b != (q == Q::Forall) {
                        let mut w = vec![];
                        for k in 0..vars.len() {
                            let v = self.deref(&V::LVar((base + k) as u32));
                            w.push(self.resolve(&v));
                        }
                        *found = Some(w);
                    }
                }
                None => *undef = true,
            }
            return Ok(());
        }
        // choose the variable to bind
        let mut choice: Option<(usize, Vec<V>)> = None;
        for &k in rest {
            let c = self.cands((base + k) as u32, vars[k].0, body, envl, fr, q != Q::Forall, 0)?;
            let is_nat = self.is_nat_ty(&vars[k].1, fr);
            if let Some(vs) = c.finish(is_nat) {
                choice = Some((k, vs));
                break;
            }
        }
        if choice.is_none() {
            for &k in rest {
                if let Some(u) = self.var_universe((base + k) as u32, vars[k].0, &vars[k].1, body, envl, env, fr)? {
                    choice = Some((k, u.to_vec()));
                    break;
                }
                if let Some(Some(t)) = e.dom_cache.get() {
                    if let Some(u) = self.universe(t, fr, env, 0)? {
                        choice = Some((k, u.to_vec()));
                        break;
                    }
                }
            }
        }
        let Some((k, vs)) = choice else {
            return bad(format!("{}: no finite domain for quantified variable {}", self.p.loc(e.pos), name(vars[rest[0]].0)));
        };
        let rest2: Vec<usize> = rest.iter().copied().filter(|x| *x != k).collect();
        let lv = (base + k) as u32;
        for v in vs {
            let m = self.mark();
            self.bind(lv, v);
            let r = self.quant_rec(e, q, vars, &rest2, body, env, envl, fr, base, found, undef);
            if found.is_some() {
                self.undo(m);
                return Ok(());
            }
            self.undo(m);
            r?;
        }
        Ok(())
    }
    pub fn is_nat_ty(&self, t: &Ty, fr: Fr) -> bool {
        let mut t = t.clone();
        let mut sc = fr.scope;
        for _ in 0..6 {
            if let Ty::Named(s, _) = &t {
                if s.len() == 1 {
                    if matches!(&*name(s[0]), "nat" | "u64" | "u32" | "usize" | "u8" | "u16") {
                        return true;
                    }
                    if let Some((a, s2)) = self.alias_of(s[0], sc) {
                        t = a;
                        sc = s2;
                        continue;
                    }
                }
            }
            break;
        }
        false
    }
    fn var_universe(&mut self, lv: u32, s: Sym, ty: &Ty, body: &EP, env: &Env, outer: &Env, fr: Fr) -> ER<Option<Rc<Vec<V>>>> {
        if *ty != Ty::Any {
            return self.universe(ty, fr, outer, 0);
        }
        if let Some((t, tfr)) = self.infer_ty(lv, s, body, env, fr, 0) {
            if let Some(u) = self.universe(&t, tfr, outer, 0)? {
                return Ok(Some(u));
            }
        }
        // last resort: keys of an indexed map
        if let Some(vs) = self.index_domain(lv, s, body, env, fr) {
            return Ok(Some(Rc::new(vs)));
        }
        Ok(None)
    }
    fn index_domain(&mut self, lv: u32, s: Sym, e: &EP, env: &Env, fr: Fr) -> Option<Vec<V>> {
        let mut out = None;
        let mut stack = vec![e.clone()];
        while let Some(x) = stack.pop() {
            if let EK::Index(r, i) = &x.k {
                if is_var(i, s) {
                    if let Ok(v) = self.eval_f(r, env, fr) {
                        match v {
                            V::Map(m) => {
                                out = Some(m.keys().cloned().collect());
                                break;
                            }
                            V::Seq(m) => {
                                out = Some((0..m.len() as i128).map(V::Int).collect());
                                break;
                            }
                            _ => {}
                        }
                    }
                }
            }
            children(&x, &mut |c| stack.push(c.clone()));
        }
        let _ = lv;
        out
    }
    /// find the declared type of a parameter the variable is passed to
    pub fn infer_ty(&mut self, lv: u32, s: Sym, e: &EP, env: &Env, fr: Fr, depth: u32) -> Option<(Ty, Fr)> {
        if depth > 3 {
            return None;
        }
        match &e.k {
            EK::Call(f, args) => {
                if let EK::Path(p) = &f.k {
                    if env.get(p.segs[0]).is_none() || p.segs.len() > 1 {
                        match self.p.clone().resolve(fr.scope, &p.segs, fr.self_ty, false) {
                            Some(PRes::Fn(fid)) => {
                                let fi = &self.p.clone().fns[fid];
                                let off = if fi.d.has_self { 1 } else { 0 };
                                for (i, a) in args.iter().enumerate() {
                                    if is_var(a, s) {
                                        if i < off {
                                            continue;
                                        }
                                        let t = fi.d.params[i - off].1.clone();
                                        if t != Ty::Any {
                                            return Some((t, Fr { scope: fi.scope, self_ty: fi.self_ty }));
                                        }
                                    }
                                }
                            }
                            Some(PRes::Ctor(c)) => {
                                let p = self.p.clone();
                                let ti = &p.types[c.ty as usize];
                                let k = ti.ctors.iter().position(|x| x.id == c.id)?;
                                for (i, a) in args.iter().enumerate() {
                                    if is_var(a, s) {
                                        return Some((ti.ftys[k][i].clone(), Fr { scope: ti.scope, self_ty: None }));
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
            EK::Method(r, m, _, args) => {
                if args.iter().any(|a| is_var(a, s)) {
                    if let Ok(v) = self.eval(r, env, fr) {
                        if let V::LVar(j) = self.deref(&v) {
                            let (ty, tfr) = (self.lv[j as usize].ty.clone(), self.lv[j as usize].fr);
                            let known = self.ty_data(&ty, tfr);
                            let p = self.p.clone();
                            for (t, ti) in p.types.iter().enumerate() {
                                if known.map_or(false, |k| k != t) {
                                    continue;
                                }
                                if let Some(fid) = ti.methods.get(m).copied() {
                                    let fi = &p.fns[fid];
                                    for (i, a) in args.iter().enumerate() {
                                        if is_var(a, s) && i < fi.d.params.len() {
                                            return Some((fi.d.params[i].1.clone(), Fr { scope: fi.scope, self_ty: fi.self_ty }));
                                        }
                                    }
                                }
                            }
                        }
                        // the values of a map tell their type
                        if let (V::Map(x), "contains_value") = (self.deref(&v), &*name(*m)) {
                            if let Some(V::Data(d)) = x.values().next() {
                                let ti = &self.p.types[d.ctor.ty as usize];
                                return Some((Ty::Named(vec![ti.name], vec![]), Fr { scope: ti.scope, self_ty: None }));
                            }
                        }
                        if let V::Data(d) = self.deref(&v) {
                            let p = self.p.clone();
                            if let Some(fid) = p.types[d.ctor.ty as usize].methods.get(m).copied() {
                                let fi = &p.fns[fid];
                                for (i, a) in args.iter().enumerate() {
                                    if is_var(a, s) && i < fi.d.params.len() {
                                        return Some((fi.d.params[i].1.clone(), Fr { scope: fi.scope, self_ty: fi.self_ty }));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            EK::Index(r, i) if is_var(i, s) => {
                if let Ok(v) = self.eval(r, env, fr) {
                    if let V::Data(d) = self.deref(&v) {
                        let p = self.p.clone();
                        if let Some(fid) = p.types[d.ctor.ty as usize].methods.get(&self.s.spec_index).copied() {
                            let fi = &p.fns[fid];
                            return Some((fi.d.params[0].1.clone(), Fr { scope: fi.scope, self_ty: fi.self_ty }));
                        }
                    }
                }
            }
            EK::Struct(p, fs, _) => {
                for (f, x) in fs {
                    if is_var(x, s) {
                        if let Some(c) = self.ctor_of(p, fr) {
                            let pr = self.p.clone();
                            let ti = &pr.types[c.ty as usize];
                            let k = ti.ctors.iter().position(|x| x.id == c.id)?;
                            let i = c.fields.iter().position(|x| x == f)?;
                            return Some((ti.ftys[k][i].clone(), Fr { scope: ti.scope, self_ty: None }));
                        }
                    }
                }
            }
            _ => {}
        }
        let mut cs = vec![];
        children(e, &mut |c| cs.push(c.clone()));
        for c in cs {
            if let Some(r) = self.infer_ty(lv, s, &c, env, fr, depth) {
                return Some(r);
            }
        }
        None
    }

    /// candidate values of variable `s` (bound to logic variable `lv` in env) that can make `e` true (pol) / false (!pol)
    pub fn cands(&mut self, lv: u32, s: Sym, e: &EP, env: &Env, fr: Fr, pol: bool, depth: u32) -> ER<Cand> {
        if depth > 40 {
            return Ok(Cand::none());
        }
        match &e.k {
            EK::Bullet(op, items) => {
                let conj = (*op == Op::And) == pol;
                let mut acc: Option<Cand> = None;
                for x in items {
                    let c = self.cands(lv, s, x, env, fr, pol, depth + 1)?;
                    acc = Some(match acc {
                        None => c,
                        Some(a) => {
                            if conj {
                                a.meet(c)
                            } else {
                                a.join(c)
                            }
                        }
                    });
                    if conj {
                        if let Some(a) = &acc {
                            if a.set.is_some() {
                                break;
                            }
                        }
                    }
                }
                Ok(acc.unwrap_or(Cand::none()))
            }
            EK::Bin(op @ (Op::And | Op::Or), a, b) => {
                let conj = (*op == Op::And) == pol;
                let x = self.cands(lv, s, a, env, fr, pol, depth + 1)?;
                if conj && x.set.is_some() {
                    return Ok(x);
                }
                if !conj && x.is_none() {
                    return Ok(x);
                }
                let y = self.cands(lv, s, b, env, fr, pol, depth + 1)?;
                Ok(if conj { x.meet(y) } else { x.join(y) })
            }
            EK::Bin(Op::Imp, a, b) => {
                if pol {
                    let x = self.cands(lv, s, a, env, fr, false, depth + 1)?;
                    if x.is_none() {
                        return Ok(x);
                    }
                    let y = self.cands(lv, s, b, env, fr, true, depth + 1)?;
                    Ok(x.join(y))
                } else {
                    let x = self.cands(lv, s, a, env, fr, true, depth + 1)?;
                    if x.set.is_some() {
                        return Ok(x);
                    }
                    let y = self.cands(lv, s, b, env, fr, false, depth + 1)?;
                    Ok(x.meet(y))
                }
            }
            EK::Bin(Op::Iff, a, b) => {
                if pol {
                    return Ok(Cand::none());
                }
                let x = self.cands(lv, s, a, env, fr, true, depth + 1)?;
                if x.is_none() {
                    return Ok(x);
                }
                let y = self.cands(lv, s, b, env, fr, true, depth + 1)?;
                Ok(x.join(y))
            }
            EK::Bin(op @ (Op::Eq | Op::Ne), a, b) => {
                if (*op == Op::Eq) != pol {
                    return Ok(Cand::none());
                }
                for (x, y) in [(a, b), (b, a)] {
                    if self.ment(x, lv, s, env) && !self.ment(y, lv, s, env) {
                        if let Some(v) = self.try_eval(y, env, fr)? {
                            if self.isv(x, lv, s, env, fr) {
                                return Ok(Cand::set(vec![v]));
                            }
                            // solve structurally: e.g. Foo{x} == v
                            if let Some(w) = self.try_unify_expr(lv, x, &v, env, fr)? {
                                return Ok(w);
                            }
                        }
                    }
                }
                Ok(Cand::none())
            }
            EK::Bin(op @ (Op::Lt | Op::Le | Op::Gt | Op::Ge), a, b) => {
                let (mut l, mut r, mut o) = (a, b, *op);
                if matches!(o, Op::Gt | Op::Ge) {
                    std::mem::swap(&mut l, &mut r);
                    o = if o == Op::Gt { Op::Lt } else { Op::Le };
                }
                // l < r or l <= r
                if !pol {
                    std::mem::swap(&mut l, &mut r);
                    o = if o == Op::Lt { Op::Le } else { Op::Lt };
                }
                let strict = if o == Op::Lt { 1 } else { 0 };
                if !self.ment(l, lv, s, env) && self.ment(r, lv, s, env) {
                    if let Some(off) = self.vplus(r, lv, s, env, fr) {
                        if let Some(V::Int(n)) = self.try_eval(l, env, fr)? {
                            return Ok(Cand { set: None, lo: Some(n + strict - off), hi: None });
                        }
                    }
                } else if self.ment(l, lv, s, env) && !self.ment(r, lv, s, env) {
                    if let Some(off) = self.vplus(l, lv, s, env, fr) {
                        if let Some(V::Int(n)) = self.try_eval(r, env, fr)? {
                            return Ok(Cand { set: None, lo: None, hi: Some(n - strict - off) });
                        }
                    }
                }
                if *op == Op::Le && pol && self.isv(a, lv, s, env, fr) {
                    // set/map inclusion with a variable on the left: not enumerable
                }
                Ok(Cand::none())
            }
            EK::Not(x) => self.cands(lv, s, x, env, fr, !pol, depth + 1),
            EK::Let(p, _, x, b) => {
                if self.ment(x, lv, s, env) {
                    if let Pat::Bind(n) = p {
                        // substitute lazily: keep as logic variable, body may still bound s
                        if self.isv(x, lv, s, env, fr) {
                            let env2 = env.with(*n, V::LVar(lv));
                            return self.cands2(lv, &[s, *n], b, &env2, fr, pol, depth + 1);
                        }
                        let l = self.fresh(Ty::Any, fr, *n);
                        let env2 = env.with(*n, l);
                        return self.cands(lv, s, b, &env2, fr, pol, depth + 1);
                    }
                    return Ok(Cand::none());
                }
                match self.try_eval(x, env, fr)? {
                    Some(v) => match self.pmatch(p, &v, env, fr) {
                        Ok(Some(env2)) => self.cands(lv, s, b, &env2, fr, pol, depth + 1),
                        _ => Ok(Cand::none()),
                    },
                    None => {
                        if let Pat::Bind(n) = p {
                            let l = self.fresh(Ty::Any, fr, *n);
                            let env2 = env.with(*n, l);
                            self.cands(lv, s, b, &env2, fr, pol, depth + 1)
                        } else {
                            Ok(Cand::none())
                        }
                    }
                }
            }
            EK::If(c, a, b) => {
                if !self.ment(c, lv, s, env) {
                    if let Some(V::Bool(v)) = self.try_eval(c, env, fr)? {
                        return if v {
                            self.cands(lv, s, a, env, fr, pol, depth + 1)
                        } else if let Some(b) = b {
                            self.cands(lv, s, b, env, fr, pol, depth + 1)
                        } else {
                            Ok(Cand::none())
                        };
                    }
                }
                let Some(b) = b else { return Ok(Cand::none()) };
                let mut x = self.cands(lv, s, a, env, fr, pol, depth + 1)?;
                if x.set.is_none() {
                    let cc = self.cands(lv, s, c, env, fr, true, depth + 1)?;
                    x = x.meet(cc);
                }
                if x.is_none() && !const_bool(a, !pol) {
                    return Ok(x);
                }
                let mut y = self.cands(lv, s, b, env, fr, pol, depth + 1)?;
                if y.set.is_none() {
                    let cc = self.cands(lv, s, c, env, fr, false, depth + 1)?;
                    y = y.meet(cc);
                }
                if const_bool(a, !pol) {
                    return Ok(y);
                }
                if const_bool(b, !pol) {
                    return Ok(x);
                }
                Ok(x.join(y))
            }
            EK::Bool(b) if *b != pol => Ok(Cand::set(vec![])),
            EK::Match(x, arms) => {
                if self.ment(x, lv, s, env) {
                    return Ok(Cand::none());
                }
                let Some(v) = self.try_eval(x, env, fr)? else { return Ok(Cand::none()) };
                for (p, g, b) in arms {
                    if g.is_some() {
                        return Ok(Cand::none());
                    }
                    match self.pmatch(p, &v, env, fr) {
                        Ok(Some(env2)) => return self.cands(lv, s, b, &env2, fr, pol, depth + 1),
                        Ok(None) => {}
                        Err(Ctl::Stuck(_)) => return Ok(Cand::none()),
                        Err(e) => return Err(e),
                    }
                }
                Ok(Cand::none())
            }
            EK::Matches(x, p, rest) if pol => {
                if self.ment(x, lv, s, env) {
                    return Ok(Cand::none());
                }
                let Some(v) = self.try_eval(x, env, fr)? else { return Ok(Cand::none()) };
                match (self.pmatch(p, &v, env, fr), rest) {
                    (Ok(Some(env2)), Some(r)) => self.cands(lv, s, r, &env2, fr, pol, depth + 1),
                    _ => Ok(Cand::none()),
                }
            }
            EK::Quant(Q::Exists, vars, b, _) if pol => {
                // exists y. b : candidates over all y
                let m = self.mark();
                let mut env2 = env.clone();
                let base = self.lv.len();
                for (n, t) in vars {
                    let l = self.fresh(t.clone(), fr, *n);
                    env2 = env2.with(*n, l);
                }
                let direct = self.cands(lv, s, b, &env2, fr, true, depth + 1)?;
                if direct.set.is_some() || vars.len() > 1 {
                    self.undo(m);
                    return Ok(direct);
                }
                let yc = self.cands(base as u32, vars[0].0, b, &env2, fr, true, depth + 1)?;
                let nat = self.is_nat_ty(&vars[0].1, fr);
                let mut ys = yc.finish(nat);
                if ys.is_none() {
                    ys = self.var_universe(base as u32, vars[0].0, &vars[0].1, b, &env2, env, fr)?.map(|x| x.to_vec());
                }
                let Some(ys) = ys else {
                    self.undo(m);
                    return Ok(Cand::none());
                };
                let mut acc = Cand::set(vec![]);
                for y in ys {
                    let m2 = self.mark();
                    self.bind(base as u32, y);
                    let c = self.cands(lv, s, b, &env2, fr, true, depth + 1)?;
                    self.undo(m2);
                    acc = acc.join(c);
                    if acc.is_none() {
                        break;
                    }
                }
                self.undo(m);
                Ok(acc)
            }
            EK::Method(r, m, _, args) => {
                if self.ment(r, lv, s, env) {
                    // v.is_empty()
                    if pol && args.is_empty() && &*name(*m) == "is_empty" {
                        let d = self.depth;
                        let rv = self.eval(r, env, fr);
                        self.depth = d;
                        if let Ok(V::LVar(x)) = rv.map(|v| self.deref(&v)) {
                            if x == lv {
                                if let Ty::Named(n, _) = &self.lv[lv as usize].ty {
                                    let e = match &*name(*n.last().unwrap()) {
                                        "Multiset" => Some(V::MSet(Rc::new(BTreeMap::new()))),
                                        "Set" | "ISet" => Some(V::set(vec![])),
                                        "Map" | "IMap" => Some(V::map(vec![])),
                                        "Seq" | "Vec" => Some(V::seq(vec![])),
                                        _ => None,
                                    };
                                    if let Some(e) = e {
                                        return Ok(Cand::set(vec![e]));
                                    }
                                }
                            }
                        }
                    }
                }
                if !args.iter().any(|a| self.ment(a, lv, s, env)) {
                    return Ok(Cand::none());
                }
                if self.ment(r, lv, s, env) {
                    return Ok(Cand::none());
                }
                // S.dom().contains(v) handled by evaluating the receiver
                let Some(rv) = self.try_eval_partial(r, env, fr)? else { return Ok(Cand::none()) };
                match &rv {
                    V::Set(_) | V::Map(_) | V::Seq(_) | V::MSet(_) => {
                        if self.p.ext_methods.contains_key(&(kind_sym(&rv), *m)) {
                            return Ok(Cand::none());
                        }
                        let mn = *m;
                        let cv = args.len() == 1 && matches!(rv, V::Map(_)) && &*name(mn) == "contains_value";
                        if pol && args.len() == 1 && (mn == self.s.contains || mn == self.s.contains_key || cv) {
                            if rv.has_lvar() {
                                return Ok(Cand::none());
                            }
                            let elems: Vec<V> = match &rv {
                                V::Set(x) => x.iter().cloned().collect(),
                                V::Map(x) if cv => x.values().cloned().collect::<BTreeSet<_>>().into_iter().collect(),
                                V::Map(x) => x.keys().cloned().collect(),
                                V::Seq(x) => x.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect(),
                                V::MSet(x) => x.iter().filter(|x| *x.1 > 0).map(|x| x.0.clone()).collect(),
                                _ => unreachable!(),
                            };
                            if self.isv(&args[0], lv, s, env, fr) {
                                return Ok(Cand::set(elems));
                            }
                            let mut acc = Cand::set(vec![]);
                            for el in elems {
                                match self.try_unify_expr(lv, &args[0], &el, env, fr)? {
                                    Some(c) => acc = acc.join(c),
                                    None => return Ok(Cand::none()),
                                }
                            }
                            return Ok(acc);
                        }
                        Ok(Cand::none())
                    }
                    V::Data(d) => {
                        let p = self.p.clone();
                        let ti = &p.types[d.ctor.ty as usize];
                        if let Some(fid) = ti.methods.get(m) {
                            return self.cands_inline(lv, s, *fid, Some(rv.clone()), args, env, fr, pol, depth);
                        }
                        Ok(Cand::none())
                    }
                    _ => Ok(Cand::none()),
                }
            }
            EK::Call(f, args) => {
                if let EK::Path(p) = &f.k {
                    if p.segs.len() == 1 {
                        if let Some(V::Fun(c)) = env.get(p.segs[0]).cloned() {
                            // inline closure
                            let mut env2 = c.env.clone();
                            let mut target = None;
                            for ((pt, _), a) in c.params.iter().zip(args) {
                                let Pat::Bind(n) = pt else { return Ok(Cand::none()) };
                                if self.isv(a, lv, s, env, fr) {
                                    env2 = env2.with(*n, V::LVar(lv));
                                    target = Some(*n);
                                } else {
                                    let v = match self.try_eval_partial(a, env, fr)? {
                                        Some(v) => v,
                                        None => self.fresh(Ty::Any, fr, *n),
                                    };
                                    env2 = env2.with(*n, v);
                                }
                            }
                            if let Some(t) = target {
                                return self.cands(lv, t, &c.body, &env2, c.fr, pol, depth + 1);
                            }
                            return Ok(Cand::none());
                        }
                    }
                    if let Some(PRes::Fn(fid)) = self.p.clone().resolve(fr.scope, &p.segs, fr.self_ty, false) {
                        return self.cands_inline(lv, s, fid, None, args, env, fr, pol, depth);
                    }
                }
                Ok(Cand::none())
            }
            _ => Ok(Cand::none()),
        }
    }
    fn isv(&mut self, e: &EP, lv: u32, s: Sym, env: &Env, fr: Fr) -> bool {
        if is_var(e, s) {
            return true;
        }
        match &e.k {
            EK::Path(p) if p.segs.len() == 1 => match env.get(p.segs[0]) {
                Some(v @ V::LVar(_)) => matches!(self.deref(v), V::LVar(i) if i == lv),
                _ => false,
            },
            EK::Cast(x, _) => self.isv(x, lv, s, env, fr),
            EK::Field(..) | EK::Arrow(..) | EK::Index(..) => {
                if !self.ment(e, lv, s, env) {
                    return false;
                }
                match self.try_eval_raw(e, env, fr) {
                    Some(V::LVar(i)) => i == lv,
                    _ => false,
                }
            }
            _ => false,
        }
    }
    fn try_eval_raw(&mut self, e: &EP, env: &Env, fr: Fr) -> Option<V> {
        let d = self.depth;
        let r = self.eval(e, env, fr);
        self.depth = d;
        match r {
            Ok(v) => Some(self.deref(&v)),
            Err(_) => None,
        }
    }
    fn has_lv(&self, v: &V, lv: u32) -> bool {
        if !v.has_lvar() {
            return false;
        }
        match v {
            V::LVar(_) => match self.deref(v) {
                V::LVar(i) => i == lv,
                x => self.has_lv(&x, lv),
            },
            V::Tup(x) | V::Seq(x) => x.iter().any(|y| self.has_lv(y, lv)),
            V::Set(x) => x.iter().any(|y| self.has_lv(y, lv)),
            V::Map(x) => x.iter().any(|(k, y)| self.has_lv(k, lv) || self.has_lv(y, lv)),
            V::Data(d) => d.f.iter().any(|y| self.has_lv(y, lv)),
            _ => false,
        }
    }
    fn ment(&mut self, e: &EP, lv: u32, s: Sym, env: &Env) -> bool {
        if let EK::Path(p) = &e.k {
            if p.segs.len() != 1 {
                return false;
            }
            return p.segs[0] == s || env.get(p.segs[0]).map_or(false, |v| self.has_lv(v, lv));
        }
        let mut r = false;
        let mut cs = vec![];
        children(e, &mut |c| cs.push(c.clone()));
        for c in cs {
            if self.ment(&c, lv, s, env) {
                r = true;
                break;
            }
        }
        r
    }
    fn vplus(&mut self, e: &EP, lv: u32, s: Sym, env: &Env, fr: Fr) -> Option<i128> {
        if self.isv(e, lv, s, env, fr) {
            return Some(0);
        }
        match &e.k {
            EK::Cast(x, _) => self.vplus(x, lv, s, env, fr),
            EK::Bin(Op::Add, a, b) => match (&a.k, &b.k) {
                (_, EK::Int(n)) => Some(self.vplus(a, lv, s, env, fr)? + n),
                (EK::Int(n), _) => Some(self.vplus(b, lv, s, env, fr)? + n),
                _ => None,
            },
            EK::Bin(Op::Sub, a, b) => match &b.k {
                EK::Int(n) => Some(self.vplus(a, lv, s, env, fr)? - n),
                _ => None,
            },
            _ => None,
        }
    }
    fn cands2(&mut self, lv: u32, names: &[Sym], e: &EP, env: &Env, fr: Fr, pol: bool, depth: u32) -> ER<Cand> {
        let mut acc = Cand::none();
        for n in names {
            let c = self.cands(lv, *n, e, env, fr, pol, depth + 1)?;
            acc = acc.meet(c);
        }
        Ok(acc)
    }
    fn cands_inline(&mut self, lv: u32, s: Sym, fid: usize, recv: Option<V>, args: &[EP], env: &Env, fr: Fr, pol: bool, depth: u32) -> ER<Cand> {
        let p = self.p.clone();
        let f = &p.fns[fid];
        if depth > 25 || f.d.recursive {
            return Ok(Cand::none());
        }
        let Some(body) = &f.d.body else { return Ok(Cand::none()) };
        let mut env2 = Env::empty();
        let mut ps = f.all_params.iter();
        if let Some(r) = recv {
            env2 = env2.with(*ps.next().unwrap(), r);
        }
        let mut target = vec![];
        for a in args {
            let Some(n) = ps.next() else { return Ok(Cand::none()) };
            if self.isv(a, lv, s, env, fr) {
                env2 = env2.with(*n, V::LVar(lv));
                target.push(*n);
            } else {
                let v = match self.try_eval_partial(a, env, fr)? {
                    Some(v) => v,
                    None => self.fresh(Ty::Any, fr, *n),
                };
                env2 = env2.with(*n, v);
            }
        }
        if target.is_empty() {
            return Ok(Cand::none());
        }
        let fr2 = Fr { scope: f.scope, self_ty: f.self_ty };
        self.cands2(lv, &target, body, &env2, fr2, pol, depth + 1)
    }
    /// evaluate; None when it depends on an unbound variable
    fn try_eval(&mut self, e: &EP, env: &Env, fr: Fr) -> ER<Option<V>> {
        let d = self.depth;
        let r = match self.eval(e, env, fr) {
            Ok(v) => {
                let v = self.resolve(&v);
                if v.has_lvar() {
                    Ok(None)
                } else if let V::Undef = v {
                    Ok(None)
                } else {
                    Ok(Some(v))
                }
            }
            Err(Ctl::Stuck(_)) => Ok(None),
            Err(Ctl::Err(_)) => Ok(None),
        };
        self.depth = d;
        r
    }
    fn try_eval_partial(&mut self, e: &EP, env: &Env, fr: Fr) -> ER<Option<V>> {
        let d = self.depth;
        let r = match self.eval(e, env, fr) {
            Ok(V::Undef) => Ok(None),
            Ok(V::LVar(_)) => Ok(None),
            Ok(v) => Ok(Some(v)),
            Err(_) => Ok(None),
        };
        self.depth = d;
        r
    }
    /// evaluate `e` with lv unbound, unify with v and report lv's value
    fn try_unify_expr(&mut self, lv: u32, e: &EP, v: &V, env: &Env, fr: Fr) -> ER<Option<Cand>> {
        let m = self.mark();
        let d = self.depth;
        let r = match self.eval(e, env, fr) {
            Ok(x) => match self.unify(&x, v) {
                Ok(true) => {
                    let y = self.resolve(&V::LVar(lv));
                    if y.has_lvar() {
                        Ok(None)
                    } else {
                        Ok(Some(Cand::set(vec![y])))
                    }
                }
                Ok(false) => Ok(Some(Cand::set(vec![]))),
                Err(_) => Ok(None),
            },
            Err(_) => Ok(None),
        };
        self.depth = d;
        self.undo(m);
        r
    }
    /// enumerate arguments of a predicate closure (Set::new / Map::new)
    pub fn closure_domain(&mut self, f: &V, hint: Option<&V>) -> ER<Vec<V>> {
        let V::Fun(c) = self.force(f.clone())? else { return bad("closure_domain") };
        let expect = self.expect.take();
        let (Pat::Bind(s), ty) = &c.params[0] else { return bad("closure pattern") };
        let m = self.mark();
        let l = self.fresh(ty.clone(), c.fr, *s);
        let V::LVar(lv) = l else { unreachable!() };
        let env = c.env.with(*s, l);
        let cd = self.cands(lv, *s, &c.body, &env, c.fr, true, 0)?;
        let nat = self.is_nat_ty(ty, c.fr);
        let mut vs = cd.finish(nat);
        if vs.is_none() {
            vs = self.var_universe(lv, *s, ty, &c.body, &env, &c.env, c.fr)?.map(|x| x.to_vec());
        }
        if let (None, true, Some((Ty::Named(seg, targs), fr))) = (&vs, *ty == Ty::Any, &expect) {
            // `Set::new(|k| ..)` where a Set<K> is wanted
            if matches!(&*name(*seg.last().unwrap()), "Set" | "Map" | "ISet" | "IMap") && !targs.is_empty() {
                vs = self.universe(&targs[0], *fr, &Env::empty(), 0)?.map(|x| x.to_vec());
            }
        }
        if vs.is_none() {
            if let Some(h) = hint {
                if let V::Fun(c2) = self.force(h.clone())? {
                    if let (Pat::Bind(s2), ty2) = &c2.params[0] {
                        let l2 = self.fresh(ty2.clone(), c2.fr, *s2);
                        let V::LVar(lv2) = l2 else { unreachable!() };
                        let env2 = c2.env.with(*s2, l2);
                        vs = self.var_universe(lv2, *s2, ty2, &c2.body, &env2, &c2.env, c2.fr)?.map(|x| x.to_vec());
                    }
                }
            }
        }
        let Some(vs) = vs else { return bad(format!("{}: no finite domain for comprehension over {}", self.p.loc(c.body.pos), name(*s))) };
        let mut out = vec![];
        for v in vs {
            let m2 = self.mark();
            self.bind(lv, v.clone());
            let r = self.eval_bool(&c.body, &env, c.fr);
            self.undo(m2);
            if r? == Some(true) {
                out.push(v);
            }
        }
        self.undo(m);
        Ok(out)
    }
}

pub struct Cand {
    pub set: Option<Vec<V>>,
    pub lo: Option<i128>,
    pub hi: Option<i128>,
}
impl Cand {
    pub fn none() -> Cand {
        Cand { set: None, lo: None, hi: None }
    }
    pub fn set(v: Vec<V>) -> Cand {
        Cand { set: Some(v), lo: None, hi: None }
    }
    fn is_none(&self) -> bool {
        self.set.is_none() && self.lo.is_none() && self.hi.is_none()
    }
    pub fn meet(self, o: Cand) -> Cand {
        let set = match (self.set, o.set) {
            (Some(a), Some(b)) => Some(if a.len() <= b.len() { a } else { b }),
            (a, b) => a.or(b),
        };
        let lo = match (self.lo, o.lo) {
            (Some(a), Some(b)) => Some(a.max(b)),
            (a, b) => a.or(b),
        };
        let hi = match (self.hi, o.hi) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        };
        Cand { set, lo, hi }
    }
    fn join(self, o: Cand) -> Cand {
        match (self.fin(), o.fin()) {
            (Some(mut a), Some(b)) => {
                a.extend(b);
                a.sort();
                a.dedup();
                Cand::set(a)
            }
            _ => Cand::none(),
        }
    }
    fn fin(self) -> Option<Vec<V>> {
        if let Some(s) = self.set {
            return Some(s);
        }
        match (self.lo, self.hi) {
            (Some(l), Some(h)) if h - l < 100_000 => Some((l..=h).map(V::Int).collect()),
            _ => None,
        }
    }
    pub fn finish(self, nat: bool) -> Option<Vec<V>> {
        let mut c = self;
        if nat && c.set.is_none() {
            c.lo = Some(c.lo.unwrap_or(0).max(0));
        }
        let (lo, hi) = (c.lo, c.hi);
        let mut v = c.fin()?;
        v.retain(|x| match x {
            V::Int(i) => lo.map_or(true, |l| *i >= l) && hi.map_or(true, |h| *i <= h) && (!nat || *i >= 0),
            _ => true,
        });
        Some(v)
    }
}

pub fn is_var(e: &EP, s: Sym) -> bool {
    match &e.k {
        EK::Path(p) => p.segs.len() == 1 && p.segs[0] == s,
        EK::Cast(x, _) => is_var(x, s),
        _ => false,
    }
}
fn const_bool(e: &EP, b: bool) -> bool {
    matches!(&e.k, EK::Bool(x) if *x == b)
}
/// v, v + c, v - c  ->  offset
fn var_plus(e: &EP, s: Sym) -> Option<i128> {
    match &e.k {
        EK::Path(_) | EK::Cast(..) if is_var(e, s) => Some(0),
        EK::Cast(x, _) => var_plus(x, s),
        EK::Bin(Op::Add, a, b) => match (&a.k, &b.k) {
            (_, EK::Int(n)) => Some(var_plus(a, s)? + n),
            (EK::Int(n), _) => Some(var_plus(b, s)? + n),
            _ => None,
        },
        EK::Bin(Op::Sub, a, b) => match &b.k {
            EK::Int(n) => Some(var_plus(a, s)? - n),
            _ => None,
        },
        _ => None,
    }
}
pub fn mentions(e: &EP, s: Sym) -> bool {
    if let EK::Path(p) = &e.k {
        return p.segs.len() == 1 && p.segs[0] == s;
    }
    let mut r = false;
    children(e, &mut |c| {
        if !r && mentions(c, s) {
            r = true
        }
    });
    r
}
pub fn children(e: &EP, f: &mut dyn FnMut(&EP)) {
    match &e.k {
        EK::Int(_) | EK::Bool(_) | EK::Str(_) | EK::Char(_) | EK::Path(_) | EK::Unknown(_) => {}
        EK::Call(g, a) => {
            f(g);
            a.iter().for_each(|x| f(x))
        }
        EK::Method(r, _, _, a) => {
            f(r);
            a.iter().for_each(|x| f(x))
        }
        EK::Field(x, _) | EK::Arrow(x, _) | EK::Is(x, _) | EK::Not(x) | EK::Neg(x) | EK::Cast(x, _) | EK::View(x) => f(x),
        EK::Matches(x, _, r) => {
            f(x);
            if let Some(r) = r {
                f(r)
            }
        }
        EK::Upd(x, fs) => {
            f(x);
            fs.iter().for_each(|y| f(&y.1))
        }
        EK::IdxUpd(a, b, c) => {
            f(a);
            f(b);
            f(c)
        }
        EK::Compr(_, _, r, k, v) => {
            f(r);
            k.iter().for_each(|x| f(x));
            v.iter().for_each(|x| f(x));
        }
        EK::Inout(x) => f(x),
        EK::Index(a, b) | EK::Bin(_, a, b) | EK::Let(_, _, a, b) => {
            f(a);
            f(b)
        }
        EK::Slice(a, b, c) => {
            f(a);
            b.iter().for_each(|x| f(x));
            c.iter().for_each(|x| f(x));
        }
        EK::Bullet(_, v) | EK::Tuple(v) | EK::SeqLit(v) | EK::SetLit(v) | EK::MSetLit(v) => v.iter().for_each(|x| f(x)),
        EK::MapLit(v) => v.iter().for_each(|(a, b)| {
            f(a);
            f(b)
        }),
        EK::If(a, b, c) | EK::IfLet(_, a, b, c) => {
            f(a);
            f(b);
            c.iter().for_each(|x| f(x));
        }
        EK::Match(x, arms) => {
            f(x);
            for (_, g, b) in arms {
                g.iter().for_each(|x| f(x));
                f(b)
            }
        }
        EK::Lambda(_, b) | EK::Quant(_, _, b, _) => f(b),
        EK::Struct(_, fs, b) => {
            fs.iter().for_each(|x| f(&x.1));
            b.iter().for_each(|x| f(x));
        }
    }
}
pub fn has_quant(e: &EP) -> bool {
    if let EK::Quant(..) | EK::Lambda(..) = &e.k {
        return true;
    }
    let mut r = false;
    children(e, &mut |c| {
        if !r && has_quant(c) {
            r = true
        }
    });
    r
}
pub fn arrow(d: &Data, f: &str) -> V {
    let s = sym(f);
    if let Some(i) = d.ctor.fields.iter().position(|x| *x == s) {
        return d.f[i].clone();
    }
    // Variant_field
    let vn = name(d.ctor.name);
    if let Some(rest) = f.strip_prefix(&*vn) {
        if let Some(fl) = rest.strip_prefix('_') {
            let s = sym(fl);
            if let Some(i) = d.ctor.fields.iter().position(|x| *x == s) {
                return d.f[i].clone();
            }
        }
    }
    V::Undef
}
fn definitely_differ(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::LVar(_), _) | (_, V::LVar(_)) => false,
        (V::Data(x), V::Data(y)) => x.ctor.id != y.ctor.id || x.f.iter().zip(y.f.iter()).any(|(p, q)| definitely_differ(p, q)),
        (V::Tup(x), V::Tup(y)) | (V::Seq(x), V::Seq(y)) => x.len() != y.len() || x.iter().zip(y.iter()).any(|(p, q)| definitely_differ(p, q)),
        (V::Map(x), V::Map(y)) => {
            if a.has_lvar() || b.has_lvar() {
                x.len() != y.len() && !x.keys().any(|k| k.has_lvar()) && !y.keys().any(|k| k.has_lvar())
            } else {
                x != y
            }
        }
        (V::Set(_), V::Set(_)) => !a.has_lvar() && !b.has_lvar() && a != b,
        _ => a != b,
    }
}
pub fn kind_sym(v: &V) -> Sym {
    thread_local! { static K: [Sym; 8] = [sym("Seq"), sym("Set"), sym("Map"), sym("Multiset"), sym("int"), sym("bool"), sym("tuple"), sym("other")]; }
    K.with(|k| match v {
        V::Seq(_) => k[0],
        V::Set(_) => k[1],
        V::Map(_) => k[2],
        V::MSet(_) => k[3],
        V::Int(_) => k[4],
        V::Bool(_) => k[5],
        V::Tup(_) => k[6],
        _ => k[7],
    })
}
fn ident_key(v: &V) -> (u8, u128) {
    match v {
        V::Undef => (0, 0),
        V::Bool(b) => (1, *b as u128),
        V::Int(i) => (2, *i as u128),
        V::Char(c) => (3, *c as u128),
        V::Str(s) => (4, s.as_ptr() as usize as u128),
        V::Tup(_) => (5, crate::value::fp(v)),
        V::Seq(_) => (6, crate::value::fp(v)),
        V::Set(_) => (7, crate::value::fp(v)),
        V::Map(_) => (8, crate::value::fp(v)),
        V::MSet(_) => (9, crate::value::fp(v)),
        V::Data(x) => {
            // small data: structural key
            if x.f.is_empty() {
                return (10, x.ctor.id as u128);
            }
            if x.f.len() == 1 {
                if let V::Int(i) = &x.f[0] {
                    if *i >= 0 && *i < (1 << 60) {
                        return (11, ((x.ctor.id as u128) << 64) | *i as u128);
                    }
                }
            }
            (12, x.fp())
        }
        V::Fun(x) => (13, Rc::as_ptr(x) as *const u8 as usize as u128),
        V::LVar(i) => (14, *i as u128),
        V::Ref(i) => (15, *i as u128),
        V::TypeVal(x) => (16, Rc::as_ptr(x) as *const u8 as usize as u128),
    }
}
fn product(acc: &[Vec<V>], u: &[V]) -> ER<Vec<Vec<V>>> {
    if acc.len() * u.len() > 200_000 {
        return bad("universe too large");
    }
    let mut out = Vec::with_capacity(acc.len() * u.len());
    for a in acc {
        for x in u {
            let mut b = a.clone();
            b.push(x.clone());
            out.push(b);
        }
    }
    Ok(out)
}
#[allow(dead_code)]
fn _m(_: FnMode) {}

/// `Set::new(|k| ..)` / `Map::new(|k| .., ..)` with an untyped parameter
fn untyped_comprehension(e: &EP) -> bool {
    if let EK::Compr(_, vs, _, None, _) = &e.k {
        return vs.len() == 1 && vs[0].1 == Ty::Any;
    }
    if let EK::Call(f, a) = &e.k {
        if let (EK::Path(p), Some(l)) = (&f.k, a.first()) {
            if let EK::Lambda(ps, _) = &l.k {
                return p.segs.len() == 2 && &*name(p.segs[1]) == "new" && ps.first().map_or(false, |x| x.1 == Ty::Any);
            }
        }
    }
    false
}

impl Drop for Ctx {
    fn drop(&mut self) {
        if let Some(p) = self.prof.take() {
            let mut v: Vec<_> = p.into_iter().collect();
            v.sort_by(|a, b| b.1 .1.total_cmp(&a.1 .1));
            let mut g: Vec<_> = self.prof_goal.drain().collect();
            g.sort_by(|a, b| b.1 .1.total_cmp(&a.1 .1));
            for (k, (n, t)) in g.into_iter().take(25) {
                eprintln!("{:9} {:8.2} {}", n, t, k);
            }
            for (f, (n, t, u)) in v.into_iter().take(40) {
                eprintln!("{:9} {:9} {:8.2} {}", n, u, t, self.p.fns[f].full);
            }
        }
    }
}
