//! Enumerates all ways of satisfying a transition relation: a small goal solver with
//! logic variables for transition parameters and unknown label / post-state fields.
use crate::ast::*;
use crate::eval::*;
use crate::prog::*;
use crate::value::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum G {
    True(EP, Env, Fr, bool),
    Unify(V, V),
    Next(usize, V, V, Option<V>),
    Init(usize, V, Option<V>),
    NextBy(usize, V, V, Option<V>, V),
    Stmts(Rc<Frame>),
    BindPat(Pat, V, Env, Fr, Rc<Frame>),
    /// assert variable's pattern then evaluate expression
    PatThen(Pat, V, Env, Fr, Option<EP>),
    Pop,
}
pub struct Frame {
    pub mid: usize,
    pub tr: Rc<Trans>,
    pub stack: Vec<(TSL, usize, Env)>,
    pub upd: BTreeMap<Sym, V>,
    pub pre: Option<V>,
    pub target: V,
}
#[derive(Clone)]
pub struct GL(Option<Rc<(G, GL)>>);
impl GL {
    pub fn empty() -> GL {
        GL(None)
    }
    pub fn push(&self, g: G) -> GL {
        GL(Some(Rc::new((g, self.clone()))))
    }
    fn push_all(&self, gs: Vec<G>) -> GL {
        let mut r = self.clone();
        for g in gs.into_iter().rev() {
            r = r.push(g);
        }
        r
    }
}
enum SR {
    Done,
    Fail,
    Push(Vec<G>),
    Branch(Vec<Vec<G>>),
    /// stuck on a variable; optional disjunctive alternatives to fall back on
    Delay(u32, Option<Vec<Vec<G>>>),
}
#[derive(Clone)]
struct Del {
    g: G,
    on: u32,
    stamp: usize,
}

pub type Emit<'a> = &'a mut dyn FnMut(&mut Ctx) -> ER<bool>;

fn op_goal(c: &Ctx, mid: usize, op: Sym, args: &[V]) -> ER<G> {
    let n = name(op);
    Ok(match &*n {
        "next" => G::Next(mid, args[0].clone(), args[1].clone(), args.get(2).cloned()),
        "init" => G::Init(mid, args[0].clone(), None),
        "init_by" => G::Init(mid, args[0].clone(), args.get(1).cloned()),
        "next_by" => {
            let k = args.len() - 1;
            G::NextBy(mid, args[0].clone(), args[1].clone(), if k > 2 { Some(args[2].clone()) } else { None }, args[k].clone())
        }
        _ => {
            // a transition used as a relation: State::name(pre, post, args..), an init as State::name(post, args..)
            let m = &c.p.machines[mid];
            let Some(t) = m.trans.iter().find(|t| t.name == op) else { return bad(format!("machine op {}", n)) };
            let mut cfg = vec![V::Str(n.clone())];
            match t.kind {
                TKind::Init => {
                    cfg.extend(args[1..].iter().cloned());
                    G::Init(mid, args[0].clone(), Some(V::tup(cfg)))
                }
                TKind::Transition | TKind::Readonly => {
                    let lab = m.trans.iter().any(|t| matches!(t.kind, TKind::Transition | TKind::Readonly) && t.params.first().map_or(false, |p| matches!(&p.1, Ty::Named(s, _) if &*name(*s.last().unwrap()) == "Label")));
                    let k = if lab { 3 } else { 2 };
                    cfg.extend(args[k..].iter().cloned());
                    G::NextBy(mid, args[0].clone(), args[1].clone(), if lab { Some(args[2].clone()) } else { None }, V::tup(cfg))
                }
                _ => return bad(format!("machine op {}", n)),
            }
        }
    })
}

/// `M::State::next(..)` / `init(..)` used as an expression
pub fn machine_op(c: &mut Ctx, mid: usize, op: Sym, _sub: Option<Sym>, args: Vec<V>) -> ER {
    let n = name(op);
    if &*n == "Config" || &*n == "Step" {
        let mut v = vec![V::Str(name(_sub.unwrap_or(op)))];
        v.extend(args);
        return Ok(V::tup(v));
    }
    for a in &args {
        if matches!(c.deref(a), V::Undef) {
            return Ok(V::Undef);
        }
    }
    let args: Vec<V> = args.iter().map(|a| c.resolve(a)).collect();
    for a in &args {
        if let Some(i) = c.first_lvar(a) {
            return Err(Ctl::Stuck(i));
        }
    }
    let g = op_goal(c, mid, op, &args)?;
    let mut found = false;
    let m = c.mark();
    let d = c.depth;
    let r = c.solve(GL::empty().push(g), vec![], &mut |_| {
        found = true;
        Ok(true)
    });
    c.undo(m);
    c.depth = d;
    r?;
    Ok(V::Bool(found))
}

impl Ctx {
    fn solve(&mut self, gl: GL, delayed: Vec<Del>, emit: Emit) -> ER<bool> {
        self.solve_depth += 1;
        if self.solve_depth > 4000 {
            return bad("solver recursion too deep");
        }
        let pl = self.path.len();
        let r = self.solve_inner(gl, delayed, emit);
        self.solve_depth -= 1;
        self.path.truncate(pl);
        r
    }
    /// returns true when the search was stopped by `emit`
    fn solve_inner(&mut self, gl: GL, delayed: Vec<Del>, emit: Emit) -> ER<bool> {
        let mut gl = gl;
        let mut delayed = delayed;
        loop {
            // wake delayed goals
            let mut k = 0;
            let mut woke = false;
            while k < delayed.len() {
                let on = delayed[k].on;
                let wake = if on == u32::MAX { delayed[k].stamp != self.trail.len() } else { self.lv[on as usize].val.is_some() };
                if wake {
                    let d = delayed.remove(k);
                    gl = gl.push(d.g);
                    woke = true;
                    break;
                }
                k += 1;
            }
            let _ = woke;
            let next = gl.0.clone();
            let Some(node) = next else {
                if delayed.is_empty() {
                    return emit(self);
                }
                return self.choose(delayed, emit);
            };
            gl = node.1.clone();
            let g = node.0.clone();
            self.goal_steps += 1;
            if self.prof.is_some() {
                let now = std::time::Instant::now();
                let dt = self.prof_last.map_or(0.0, |t| now.duration_since(t).as_secs_f64());
                self.prof_last = Some(now);
                let k = std::mem::replace(&mut self.prof_key, match &g {
                    G::True(e, ..) => format!("{} {}", self.p.loc(e.pos), self.path.last().map_or(String::new(), |x| name(x.1).to_string())),
                    _ => format!("- {}", self.path.last().map_or(String::new(), |x| name(x.1).to_string())),
                });
                let x = self.prof_goal.entry(k).or_default();
                x.0 += 1;
                x.1 += dt;
            }
            let before = self.mark();
            match self.goal_step(&g) {
                Ok(SR::Done) => {}
                Ok(SR::Fail) => return Ok(false),
                Ok(SR::Push(gs)) => gl = gl.push_all(gs),
                Ok(SR::Branch(alts)) => {
                    if alts.len() == 1 {
                        gl = gl.push_all(alts.into_iter().next().unwrap());
                        continue;
                    }
                    for a in alts {
                        let m = self.mark();
                        let r = self.solve(gl.push_all(a), delayed.clone(), emit);
                        self.undo(m);
                        if r? {
                            return Ok(true);
                        }
                    }
                    return Ok(false);
                }
                Ok(SR::Delay(on, _)) | Err(Ctl::Stuck(on)) => {
                    let on = if (on as usize) < self.lv.len() { on } else { u32::MAX };
                    delayed.push(Del { g, on, stamp: self.trail.len() });
                }
                Err(Ctl::Err(s)) => {
                    let _ = before;
                    let has = self.goal_lvar(&g);
                    if has.is_some() {
                        delayed.push(Del { g, on: u32::MAX, stamp: self.trail.len() });
                        self.last_err = s;
                    } else {
                        return Err(Ctl::Err(s));
                    }
                }
            }
        }
    }
    fn goal_lvar(&self, g: &G) -> Option<u32> {
        match g {
            G::True(e, env, _, _) => self.expr_lvar(e, env),
            G::Unify(a, b) => self.first_lvar(&self.resolve(a)).or_else(|| self.first_lvar(&self.resolve(b))),
            G::Next(_, a, b, l) => self
                .first_lvar(&self.resolve(a))
                .or_else(|| self.first_lvar(&self.resolve(b)))
                .or_else(|| l.as_ref().and_then(|l| self.first_lvar(&self.resolve(l)))),
            G::Stmts(f) => f.stack.last().and_then(|s| self.env_lvar(&s.2)),
            _ => None,
        }
    }
    fn env_lvar(&self, env: &Env) -> Option<u32> {
        let mut e = &env.0;
        while let Some(n) = e {
            if n.val.has_lvar() {
                if let Some(i) = self.first_lvar(&self.resolve(&n.val)) {
                    return Some(i);
                }
            }
            e = &n.next.0;
        }
        None
    }
    fn expr_lvar(&self, e: &EP, env: &Env) -> Option<u32> {
        if let EK::Path(p) = &e.k {
            if p.segs.len() == 1 {
                if let Some(v) = env.get(p.segs[0]) {
                    return self.first_lvar(&self.resolve(v));
                }
            }
            return None;
        }
        let mut r = None;
        children(e, &mut |c| {
            if r.is_none() {
                r = self.expr_lvar(c, env)
            }
        });
        r
    }
    fn expr_lvars(&self, e: &EP, env: &Env, out: &mut Vec<u32>) {
        if let EK::Path(p) = &e.k {
            if p.segs.len() == 1 {
                if let Some(v) = env.get(p.segs[0]) {
                    fn all(v: &V, out: &mut Vec<u32>) {
                        match v {
                            V::LVar(i) => {
                                if !out.contains(i) {
                                    out.push(*i)
                                }
                            }
                            V::Tup(x) | V::Seq(x) => x.iter().for_each(|y| all(y, out)),
                            V::Set(x) => x.iter().for_each(|y| all(y, out)),
                            V::Map(x) => x.iter().for_each(|(k, y)| {
                                all(k, out);
                                all(y, out)
                            }),
                            V::Data(d) if !d.ground => d.f.iter().for_each(|y| all(y, out)),
                            _ => {}
                        }
                    }
                    all(&self.resolve(v), out);
                }
            }
            return;
        }
        children(e, &mut |c| self.expr_lvars(c, env, out));
    }
    fn choose(&mut self, delayed: Vec<Del>, emit: Emit) -> ER<bool> {
        self.choices += 1;
        // variables that block something
        let mut lvs: Vec<u32> = vec![];
        for d in &delayed {
            let v = if d.on == u32::MAX { self.goal_lvar(&d.g) } else { Some(d.on) };
            if let Some(v) = v {
                if let V::LVar(v) = self.deref(&V::LVar(v)) {
                    if !lvs.contains(&v) {
                        lvs.push(v);
                    }
                }
            }
        }
        let mut best: Option<(u32, Vec<V>)> = None;
        for &v in &lvs {
            let mut acc = Cand::none();
            let m = self.mark();
            for d in &delayed {
                if let G::True(e, env, fr, pol) = &d.g {
                    let c = self.cands(v, u32::MAX, e, env, *fr, *pol, 0);
                    match c {
                        Ok(c) => acc = acc.meet(c),
                        Err(Ctl::Stuck(_)) => {}
                        Err(e) => return Err(e),
                    }
                }
            }
            self.undo(m);
            let (ty, fr) = (self.lv[v as usize].ty.clone(), self.lv[v as usize].fr);
            let nat = self.is_nat_ty(&ty, fr);
            if let Some(vs) = acc.finish(nat) {
                if best.as_ref().map_or(true, |b| vs.len() < b.1.len()) {
                    best = Some((v, vs));
                }
            }
        }
        if best.is_none() {
            // disjunctive goals
            for (k, d) in delayed.iter().enumerate() {
                let before = self.mark();
                let alts = match self.goal_step(&d.g) {
                    Ok(SR::Delay(_, Some(a))) => Some(a),
                    _ => None,
                };
                self.undo(before);
                if let Some(alts) = alts {
                    let mut rest = delayed.clone();
                    rest.remove(k);
                    for a in alts {
                        let m = self.mark();
                        let r = self.solve(GL::empty().push_all(a), rest.clone(), emit);
                        self.undo(m);
                        if r? {
                            return Ok(true);
                        }
                    }
                    return Ok(false);
                }
            }
            for &v in &lvs {
                if let Some(vs) = self.lvar_universe(v)? {
                    if best.as_ref().map_or(true, |b| vs.len() < b.1.len()) {
                        best = Some((v, vs));
                    }
                }
            }
        }
        if best.is_none() {
            // any other unknown the stuck goals mention
            let mut more: Vec<u32> = vec![];
            for d in &delayed {
                if let G::True(e, env, _, _) = &d.g {
                    self.expr_lvars(e, env, &mut more);
                }
            }
            for v in more {
                if lvs.contains(&v) {
                    continue;
                }
                if let Some(vs) = self.lvar_universe(v)? {
                    if best.as_ref().map_or(true, |b| vs.len() < b.1.len()) {
                        best = Some((v, vs));
                    }
                }
            }
        }
        if best.is_none() {
            for &v in &lvs {
                if let Some(vs) = self.fallback_universe(v)? {
                    best = Some((v, vs));
                    break;
                }
            }
        }
        let Some((lv, vs)) = best else {
            let mut s = String::new();
            for d in &delayed {
                if let G::True(e, _, _, pol) = &d.g {
                    s.push_str(&format!(" [{} {} on ?{}]", self.p.loc(e.pos), pol, if d.on == u32::MAX { -1 } else { d.on as i64 }));
                } else if let G::Next(m, ..) = &d.g {
                    s.push_str(&format!(" [next {}]", name(self.p.machines[*m].name)));
                } else {
                    s.push_str(" [goal]");
                }
            }
            let hints: Vec<String> = lvs.iter().map(|v| format!("?{} {}: {:?}", v, name(self.lv[*v as usize].hint), ty_str(&self.lv[*v as usize].ty))).collect();
            return bad(format!("no finite domain for {:?} blocking{} in {:?}; last error {}", hints, s, self.path_str(), self.last_err));
        };
        for v in vs {
            let m = self.mark();
            self.bind(lv, v);
            let r = self.solve(GL::empty(), delayed.clone(), emit);
            self.undo(m);
            if r? {
                return Ok(true);
            }
        }
        Ok(false)
    }
    pub fn path_str(&self) -> Vec<String> {
        self.path.iter().map(|(m, t)| format!("{}::{}", name(self.p.machines[*m].name), name(*t))).collect()
    }
    pub fn lvar_universe(&mut self, v: u32) -> ER<Option<Vec<V>>> {
        let (ty, fr, hint) = (self.lv[v as usize].ty.clone(), self.lv[v as usize].fr, self.lv[v as usize].hint);
        self.cur_enum = v;
        if let Some(h) = self.enum_hook.clone() {
            if let Some(vs) = h(self, &ty, fr, hint)? {
                return Ok(Some(vs));
            }
        }
        // enums: one fresh constructor application each
        if let Some(tid) = self.ty_data(&ty, fr) {
            if !self.univ.contains_key(&self.p.types[tid].name) && !self.dyn_univ.contains_key(&self.p.types[tid].name) {
                let n = self.p.types[tid].ctors.len();
                if n > 0 && self.p.types[tid].ctors.iter().any(|c| !c.fields.is_empty()) {
                    let mut out = vec![];
                    for k in 0..n {
                        out.push(self.fresh_ctor(tid, k, &ty, fr));
                    }
                    return Ok(Some(out));
                }
            }
        }
        Ok(self.universe(&ty, fr, &Env::empty(), 0)?.map(|x| x.to_vec()))
    }
    /// Last resort for a value nothing constrains: values of its type in the current state.
    /// A violation found this way is real; a pass is not, so the run is marked.
    fn fallback_universe(&mut self, v: u32) -> ER<Option<Vec<V>>> {
        let (ty, fr, hint) = (self.lv[v as usize].ty.clone(), self.lv[v as usize].fr, self.lv[v as usize].hint);
        let r = self.values_of(&ty, fr, 0);
        if let Some(vs) = &r {
            if vs.is_empty() {
                return Ok(None);
            }
            self.approx = Some(format!("unconstrained value ({}: {}) in {:?}", name(hint), ty_str(&ty), self.path_str()));
        }
        Ok(r)
    }
    fn values_of(&mut self, ty: &Ty, fr: Fr, depth: u32) -> Option<Vec<V>> {
        if depth > 4 {
            return None;
        }
        if let Ok(Some(u)) = self.universe(ty, fr, &Env::empty(), 0) {
            return Some(u.to_vec());
        }
        let pre = self.cur_pre.clone()?;
        let mut out = std::collections::BTreeSet::new();
        if let Ty::Named(s, args) = ty {
            let n = name(*s.last().unwrap());
            match &*n {
                "Box" | "Ghost" | "Tracked" if args.len() == 1 => return self.values_of(&args[0], fr, depth + 1),
                "Map" | "IMap" if args.len() == 2 => {
                    out.insert(V::map(vec![]));
                    let (ks, vs) = (self.values_of(&args[0], fr, depth + 1), self.values_of(&args[1], fr, depth + 1));
                    if let (Some(ks), Some(vs)) = (&ks, &vs) {
                        crate::h_system::collect(&pre, &mut |x| {
                            if let V::Map(m) = x {
                                if m.keys().all(|k| ks.contains(k)) && m.values().all(|k| vs.contains(k)) {
                                    out.insert(x.clone());
                                }
                            }
                        });
                        for k in ks.iter().take(3) {
                            for v in vs.iter().take(3) {
                                out.insert(V::map(vec![(k.clone(), v.clone())]));
                            }
                        }
                    }
                    return Some(out.into_iter().take(64).collect());
                }
                "Set" | "ISet" => {
                    out.insert(V::set(vec![]));
                }
                "Seq" | "Vec" => {
                    out.insert(V::seq(vec![]));
                }
                "Option" if args.len() == 1 => {
                    let (none, some) = (self.p.none.clone()?, self.p.some.clone()?);
                    out.insert(V::data(&none, vec![]));
                    for x in self.values_of(&args[0], fr, depth + 1).unwrap_or_default() {
                        out.insert(V::data(&some, vec![x]));
                    }
                    return Some(out.into_iter().collect());
                }
                _ => {}
            }
        }
        if let Some(tid) = self.ty_data(ty, fr) {
            crate::h_system::collect(&pre, &mut |x| {
                if let V::Data(d) = x {
                    if d.ctor.ty as usize == tid && d.ground {
                        out.insert(x.clone());
                    }
                }
            });
        }
        if out.is_empty() {
            return None;
        }
        Some(out.into_iter().take(64).collect())
    }
    fn goal_step(&mut self, g: &G) -> ER<SR> {
        match g {
            G::Pop => {
                self.path.pop();
                Ok(SR::Done)
            }
            G::Unify(a, b) => Ok(if self.unify(a, b)? { SR::Done } else { SR::Fail }),
            G::PatThen(p, v, env, fr, e) => match self.bind_pat(p, v, env, *fr)? {
                None => Ok(SR::Fail),
                Some(env2) => match e {
                    None => Ok(SR::Done),
                    Some(e) => Ok(SR::Push(vec![G::True(e.clone(), env2, *fr, true)])),
                },
            },
            G::BindPat(p, v, env, fr, f) => match self.bind_pat(p, v, env, *fr)? {
                None => Ok(SR::Fail),
                Some(env2) => {
                    let mut st = f.stack.clone();
                    st.last_mut().unwrap().2 = env2;
                    Ok(SR::Push(vec![G::Stmts(Rc::new(Frame { mid: f.mid, tr: f.tr.clone(), stack: st, upd: f.upd.clone(), pre: f.pre.clone(), target: f.target.clone() }))]))
                }
            },
            G::Next(mid, a, b, l) => {
                let a = self.deref(a);
                if let V::LVar(i) = a {
                    return Err(Ctl::Stuck(i));
                }
                if matches!(a, V::Undef) || matches!(self.deref(b), V::Undef) {
                    return Ok(SR::Fail);
                }
                let m = self.p.machines[*mid].clone();
                let mut alts = vec![];
                for t in &m.trans {
                    if t.kind != TKind::Transition {
                        continue;
                    }
                    alts.push(self.enter(*mid, t, Some(a.clone()), b.clone(), l.clone(), None)?);
                }
                // readonly transitions keep the state; they matter only with a label
                if l.is_some() {
                    for t in &m.trans {
                        if t.kind == TKind::Readonly {
                            alts.push(self.enter(*mid, t, Some(a.clone()), b.clone(), l.clone(), None)?);
                        }
                    }
                }
                Ok(SR::Branch(alts))
            }
            G::Init(mid, a, cfg) => {
                let m = self.p.machines[*mid].clone();
                let mut alts = vec![];
                for t in &m.trans {
                    if t.kind == TKind::Init && cfg_matches(cfg, t) {
                        alts.push(self.enter(*mid, t, None, a.clone(), None, cfg.clone())?);
                    }
                }
                if alts.is_empty() {
                    return Ok(SR::Fail);
                }
                Ok(SR::Branch(alts))
            }
            G::NextBy(mid, a, b, l, step) => {
                let m = self.p.machines[*mid].clone();
                for t in &m.trans {
                    if matches!(t.kind, TKind::Transition | TKind::Readonly) && cfg_matches(&Some(step.clone()), t) {
                        let r = self.enter(*mid, t, Some(a.clone()), b.clone(), l.clone(), Some(step.clone()))?;
                        return Ok(SR::Push(r));
                    }
                }
                Ok(SR::Fail)
            }
            G::Stmts(f) => self.stmt(f),
            G::True(e, env, fr, pol) => self.goal_true(e, env, *fr, *pol),
        }
    }
    fn enter(&mut self, mid: usize, t: &Rc<Trans>, pre: Option<V>, target: V, l: Option<V>, cfg: Option<V>) -> ER<Vec<G>> {
        let sc = t.scope;
        let st = self.p.machines[mid].state_ty;
        let fr = Fr { scope: sc, self_ty: Some(st) };
        let mut env = Env::empty();
        if let Some(p) = &pre {
            env = env.with(self.s.pre, p.clone());
        }
        let mut gs = vec![G::Pop];
        gs.clear();
        for (i, (n, ty)) in t.params.iter().enumerate() {
            // sized lazily: variables are created on entry of the branch
            if i == 0 && l.is_some() {
                env = env.with(*n, l.clone().unwrap());
            } else if let Some(V::Tup(c)) = &cfg {
                let k = i + 1 - if l.is_some() { 1 } else { 0 };
                match c.get(k) {
                    Some(v) => env = env.with(*n, v.clone()),
                    None => return bad("Config/Step arity"),
                }
            } else {
                let v = self.fresh(ty.clone(), fr, *n);
                env = env.with(*n, v);
            }
        }
        // `post` may be referenced by init!/property bodies
        env = env.with(self.s.post, target.clone());
        let f = Frame { mid, tr: t.clone(), stack: vec![(t.body.clone(), 0, env)], upd: BTreeMap::new(), pre, target };
        gs.push(G::Stmts(Rc::new(f)));
        Ok(gs)
    }
    fn cur_field(&mut self, f: &Frame, s: Sym) -> ER {
        if let Some(v) = f.upd.get(&s) {
            return Ok(v.clone());
        }
        match &f.pre {
            Some(p) => {
                let p = p.clone();
                self.field(&p, s)
            }
            None => bad("field read in init"),
        }
    }
    fn set_path(&mut self, cur: V, accs: &[Acc], v: V, env: &Env, fr: Fr) -> ER {
        if accs.is_empty() {
            return Ok(v);
        }
        match &accs[0] {
            Acc::Field(s) => {
                let sub = self.field(&cur, *s)?;
                let nv = self.set_path(sub, &accs[1..], v, env, fr)?;
                let V::Data(d) = &cur else { return bad("update path") };
                let i = d.ctor.fields.iter().position(|x| x == s).unwrap();
                let mut f = d.f.clone();
                f[i] = nv;
                Ok(V::data(&d.ctor, f))
            }
            Acc::Index(e) => {
                let k = self.eval(e, env, fr)?;
                let k = self.ground(k)?;
                match &cur {
                    V::Map(m) => {
                        let nv = if accs.len() == 1 { v } else { self.set_path(m.get(&k).cloned().unwrap_or(V::Undef), &accs[1..], v, env, fr)? };
                        let mut m2 = (**m).clone();
                        m2.insert(k, nv);
                        Ok(V::Map(Rc::new(m2)))
                    }
                    V::Seq(s) => {
                        let V::Int(i) = k else { return bad("seq index") };
                        if i < 0 || i as usize >= s.len() {
                            return Ok(V::Undef);
                        }
                        let nv = if accs.len() == 1 { v } else { self.set_path(s[i as usize].clone(), &accs[1..], v, env, fr)? };
                        let mut m2 = (**s).clone();
                        m2[i as usize] = nv;
                        Ok(V::seq(m2))
                    }
                    _ => bad("update index"),
                }
            }
        }
    }
    fn stmt(&mut self, f: &Rc<Frame>) -> ER<SR> {
        let fr = Fr { scope: f.tr.scope, self_ty: Some(self.p.machines[f.mid].state_ty) };
        let mut st = f.stack.clone();
        while let Some(l) = st.last() {
            if l.1 >= l.0.len() {
                st.pop();
            } else {
                break;
            }
        }
        let mk_f = |st: Vec<(TSL, usize, Env)>, upd: BTreeMap<Sym, V>| -> G {
            G::Stmts(Rc::new(Frame { mid: f.mid, tr: f.tr.clone(), stack: st, upd, pre: f.pre.clone(), target: f.target.clone() }))
        };
        let Some((tsl, ix, env)) = st.last().cloned() else {
            // done: build post
            self.path.push((f.mid, f.tr.name));
            let m = self.p.machines[f.mid].clone();
            if f.tr.kind == TKind::Readonly {
                return Ok(SR::Push(vec![G::Unify(f.target.clone(), f.pre.clone().unwrap())]));
            }
            let st = m.state_ty;
            let c = self.p.types[st].ctors[0].clone();
            let mut vals = vec![];
            for (n, _, _) in &m.fields {
                match f.upd.get(n) {
                    Some(v) => vals.push(v.clone()),
                    None => match &f.pre {
                        Some(p) => {
                            let p = p.clone();
                            vals.push(self.field(&p, *n)?)
                        }
                        None => {
                            // tokenized init may leave fields to defaults; otherwise unconstrained
                            let ty = m.fields.iter().find(|x| x.0 == *n).unwrap().1.clone();
                            vals.push(self.fresh(ty, fr, *n))
                        }
                    },
                }
            }
            let post = V::data(&c, vals);
            return Ok(if self.unify(&f.target, &post)? { SR::Done } else { SR::Fail });
        };
        st.last_mut().unwrap().1 += 1;
        match &tsl[ix] {
            TS::Skip => Ok(SR::Push(vec![mk_f(st, f.upd.clone())])),
            TS::Assert(_) => Ok(SR::Push(vec![mk_f(st, f.upd.clone())])),
            TS::Require(e) => {
                let env = self.tok_env(f, &env)?;
                Ok(SR::Push(vec![G::True(e.clone(), env, fr, true), mk_f(st, f.upd.clone())]))
            }
            TS::RequireLet(p, e) => {
                let env2 = self.tok_env(f, &env)?;
                let v = self.eval(e, &env2, fr)?;
                let fr2 = Rc::new(Frame { mid: f.mid, tr: f.tr.clone(), stack: st, upd: f.upd.clone(), pre: f.pre.clone(), target: f.target.clone() });
                Ok(SR::Push(vec![G::BindPat(p.clone(), v, env, fr, fr2)]))
            }
            TS::Let(p, ty, e) => {
                let env2 = self.tok_env(f, &env)?;
                match self.eval(e, &env2, fr) {
                    Ok(v) => match self.bind_pat(p, &v, &env, fr)? {
                        None => Ok(SR::Fail),
                        Some(env2) => {
                            st.last_mut().unwrap().2 = env2;
                            Ok(SR::Push(vec![mk_f(st, f.upd.clone())]))
                        }
                    },
                    Err(er) if matches!(er, Ctl::Stuck(_)) || self.expr_lvar(e, &env2).is_some() => {
                        // continue with an unknown, equated later
                        if let Pat::Bind(n) = p {
                            let lv = self.fresh(ty.clone(), fr, *n);
                            let env3 = env.with(*n, lv.clone());
                            st.last_mut().unwrap().2 = env3.clone();
                            let eq = mk(EK::Bin(Op::Eq, mk(EK::Path(Path { segs: vec![*n], targs: vec![] }), e.pos), mk(EK::Path(Path { segs: vec![sym("$rhs")], targs: vec![] }), e.pos)), e.pos);
                            let _ = eq;
                            // the right-hand side is evaluated in the environment before the binding
                            let tmp = sym("$let");
                            let envr = env2.with(tmp, lv);
                            let eq = mk(EK::Bin(Op::Eq, mk(EK::Path(Path { segs: vec![tmp], targs: vec![] }), e.pos), e.clone()), e.pos);
                            return Ok(SR::Push(vec![G::True(eq, envr, fr, true), mk_f(st, f.upd.clone())]));
                        }
                        Err(er)
                    }
                    Err(e) => Err(e),
                }
            }
            TS::Update(s, accs, e) => {
                let v = match self.eval(e, &env, fr) {
                    Ok(v) => v,
                    Err(Ctl::Stuck(i)) => return self.defer_value(f, st, &env, fr, e, i, |me, v, f2| me.upd_value(f2, *s, accs, v, &env, fr)),
                    Err(e) => return Err(e),
                };
                let upd = self.upd_value(f, *s, accs, v, &env, fr)?;
                Ok(SR::Push(vec![mk_f(st, upd)]))
            }
            TS::Init(s, e) => {
                let v = match self.eval(e, &env, fr) {
                    Ok(v) => v,
                    Err(Ctl::Stuck(i)) => return self.defer_value(f, st, &env, fr, e, i, |me, v, f2| me.upd_value(f2, *s, &[], v, &env, fr)),
                    Err(e) => return Err(e),
                };
                let mut upd = f.upd.clone();
                upd.insert(*s, v);
                Ok(SR::Push(vec![mk_f(st, upd)]))
            }
            TS::If(c, a, b) => {
                let env2 = self.tok_env(f, &env)?;
                let go = |x: &TSL| -> G {
                    let mut s2 = st.clone();
                    s2.push((x.clone(), 0, env.clone()));
                    mk_f(s2, f.upd.clone())
                };
                match self.eval_bool(c, &env2, fr) {
                    Ok(Some(true)) => Ok(SR::Push(vec![go(a)])),
                    Ok(Some(false)) => Ok(SR::Push(vec![go(b)])),
                    Ok(None) => Ok(SR::Fail),
                    Err(Ctl::Stuck(_)) => Ok(SR::Branch(vec![vec![G::True(c.clone(), env2.clone(), fr, true), go(a)], vec![G::True(c.clone(), env2, fr, false), go(b)]])),
                    Err(e) => Err(e),
                }
            }
            TS::Match(e, arms) => {
                let env2 = self.tok_env(f, &env)?;
                let v = self.eval(e, &env2, fr)?;
                for (p, b) in arms {
                    if let Some(env3) = self.pmatch(p, &v, &env, fr)? {
                        let mut s2 = st.clone();
                        s2.push((b.clone(), 0, env3));
                        return Ok(SR::Push(vec![mk_f(s2, f.upd.clone())]));
                    }
                }
                Ok(SR::Fail)
            }
            TS::Token(op, s, e) => {
                let env2 = self.tok_env(f, &env)?;
                let v = self.eval(e, &env2, fr)?;
                let v = self.resolve(&v);
                let init = f.pre.is_none();
                let cur = if init { f.upd.get(s).cloned().unwrap_or(V::Undef) } else { self.cur_field(f, *s)? };
                let cur = self.resolve(&cur);
                let r = match (op, &cur, &v) {
                    (_, V::LVar(i), _) => return Err(Ctl::Stuck(*i)),
                    (TokOp::Add, V::Map(m), V::Map(x)) => {
                        for k in x.keys() {
                            if let Some(i) = self.first_lvar(k) {
                                return Err(Ctl::Stuck(i));
                            }
                            if m.contains_key(k) {
                                // inherent safety condition: adding an existing token; state is undefined
                                return Ok(SR::Fail);
                            }
                        }
                        let mut m2 = (**m).clone();
                        m2.extend(x.iter().map(|(a, b)| (a.clone(), b.clone())));
                        Some(V::Map(Rc::new(m2)))
                    }
                    (TokOp::Remove | TokOp::Have, V::Map(m), V::Map(x)) => {
                        let mut m2 = (**m).clone();
                        for (k, w) in x.iter() {
                            if let Some(i) = self.first_lvar(k) {
                                return Err(Ctl::Stuck(i));
                            }
                            match m2.remove(k) {
                                Some(y) => {
                                    if !self.unify(&y, w)? {
                                        return Ok(SR::Fail);
                                    }
                                }
                                None => return Ok(SR::Fail),
                            }
                        }
                        if *op == TokOp::Remove {
                            Some(V::Map(Rc::new(m2)))
                        } else {
                            None
                        }
                    }
                    (TokOp::Add, V::MSet(_), V::MSet(_)) => Some(crate::builtins::binop(self, Op::Add, cur.clone(), v.clone())?),
                    (TokOp::Add, V::Set(m), V::Set(x)) => {
                        if let Some(i) = self.first_lvar(&v) {
                            return Err(Ctl::Stuck(i));
                        }
                        if !m.is_disjoint(x) {
                            return Ok(SR::Fail);
                        }
                        Some(V::set(m.union(x).cloned()))
                    }
                    (TokOp::Add, V::MSet(m), V::Set(x)) => {
                        let mut m2 = (**m).clone();
                        for k in x.iter() {
                            if let Some(i) = self.first_lvar(k) {
                                return Err(Ctl::Stuck(i));
                            }
                            *m2.entry(k.clone()).or_insert(0) += 1;
                        }
                        Some(V::MSet(Rc::new(m2)))
                    }
                    (TokOp::Remove | TokOp::Have, V::Set(m), V::Set(x)) => {
                        if let Some(i) = self.first_lvar(&v) {
                            return Err(Ctl::Stuck(i));
                        }
                        if !x.is_subset(m) {
                            return Ok(SR::Fail);
                        }
                        if *op == TokOp::Remove {
                            Some(V::set(m.difference(x).cloned()))
                        } else {
                            None
                        }
                    }
                    (TokOp::Remove | TokOp::Have, V::MSet(m), V::Set(x)) => {
                        let mut m2 = (**m).clone();
                        for k in x.iter() {
                            if let Some(i) = self.first_lvar(k) {
                                return Err(Ctl::Stuck(i));
                            }
                            match m2.get_mut(k) {
                                Some(n) if *n > 0 => *n -= 1,
                                _ => return Ok(SR::Fail),
                            }
                        }
                        m2.retain(|_, n| *n > 0);
                        if *op == TokOp::Remove {
                            Some(V::MSet(Rc::new(m2)))
                        } else {
                            None
                        }
                    }
                    (TokOp::Add, _, _) if init => Some(v.clone()),
                    _ => return bad(format!("{}: token op {:?} on {:?} with {:?}", self.p.loc(e.pos), op, cur, v)),
                };
                let mut upd = f.upd.clone();
                if let Some(r) = r {
                    upd.insert(*s, r);
                }
                Ok(SR::Push(vec![mk_f(st, upd)]))
            }
        }
    }
    /// tokenized transitions read the current (partially updated) map fields through `$cur`
    fn tok_env(&mut self, f: &Frame, env: &Env) -> ER<Env> {
        if !self.p.machines[f.mid].tokenized {
            return Ok(env.clone());
        }
        let Some(pre) = &f.pre else { return Ok(env.clone()) };
        let V::Data(d) = self.deref(pre) else { return Ok(env.clone()) };
        let mut fs = d.f.clone();
        for (i, n) in d.ctor.fields.iter().enumerate() {
            if let Some(v) = f.upd.get(n) {
                fs[i] = v.clone();
            }
        }
        Ok(env.with(sym("$cur"), V::data(&d.ctor, fs)))
    }
    fn upd_value(&mut self, f: &Frame, s: Sym, accs: &[Acc], v: V, env: &Env, fr: Fr) -> ER<BTreeMap<Sym, V>> {
        let nv = if accs.is_empty() {
            v
        } else {
            let cur = self.cur_field(f, s)?;
            self.set_path(cur, accs, v, env, fr)?
        };
        let mut upd = f.upd.clone();
        upd.insert(s, nv);
        Ok(upd)
    }
    /// value of an update depends on unknowns: bind a fresh variable and equate later
    fn defer_value(&mut self, f: &Rc<Frame>, st: Vec<(TSL, usize, Env)>, env: &Env, fr: Fr, e: &EP, _i: u32, k: impl Fn(&mut Ctx, V, &Frame) -> ER<BTreeMap<Sym, V>>) -> ER<SR> {
        let lv = self.fresh(Ty::Any, fr, sym("$upd"));
        let tmp = sym("$let");
        let envr = env.with(tmp, lv.clone());
        let eq = mk(EK::Bin(Op::Eq, mk(EK::Path(Path { segs: vec![tmp], targs: vec![] }), e.pos), e.clone()), e.pos);
        let upd = k(self, lv, f)?;
        let nf = G::Stmts(Rc::new(Frame { mid: f.mid, tr: f.tr.clone(), stack: st, upd, pre: f.pre.clone(), target: f.target.clone() }));
        Ok(SR::Push(vec![G::True(eq, envr, fr, true), nf]))
    }
    /// pattern matching that may instantiate unknown values
    pub fn bind_pat(&mut self, p: &Pat, v: &V, env: &Env, fr: Fr) -> ER<Option<Env>> {
        let v = self.deref(v);
        match p {
            Pat::Wild | Pat::Rest => Ok(Some(env.clone())),
            Pat::Bind(s) => Ok(Some(env.with(*s, v))),
            Pat::Lit(e) => {
                let x = self.eval(e, env, fr)?;
                Ok(if self.unify(&x, &v)? { Some(env.clone()) } else { None })
            }
            Pat::TupleCtor(path, ps, c) => {
                let Some(c) = c.get_or_init(|| self.ctor_of(path, fr)).clone() else { return bad("pattern ctor") };
                let Some(d) = self.open_ctor(&v, &c)? else { return Ok(None) };
                let mut env = env.clone();
                for (i, q) in ps.iter().enumerate() {
                    if matches!(q, Pat::Rest) {
                        break;
                    }
                    match self.bind_pat(q, &d[i], &env, fr)? {
                        Some(e) => env = e,
                        None => return Ok(None),
                    }
                }
                Ok(Some(env))
            }
            Pat::StructCtor(path, ps, c) => {
                let Some(c) = c.get_or_init(|| self.ctor_of(path, fr)).clone() else {
                    return bad(format!("pattern ctor {:?}", path.segs.iter().map(|s| name(*s)).collect::<Vec<_>>()));
                };
                let Some(d) = self.open_ctor(&v, &c)? else { return Ok(None) };
                let mut env = env.clone();
                for (f, q) in ps.iter() {
                    let Some(i) = c.fields.iter().position(|x| x == f) else { return bad("pattern field") };
                    match self.bind_pat(q, &d[i], &env, fr)? {
                        Some(e) => env = e,
                        None => return Ok(None),
                    }
                }
                Ok(Some(env))
            }
            Pat::PathOrBind(path, c) => match c.get_or_init(|| self.ctor_of(path, fr)).clone() {
                Some(c) => Ok(self.open_ctor(&v, &c)?.map(|_| env.clone())),
                None => Ok(Some(env.with(path.segs[0], v))),
            },
            Pat::Tuple(ps) => {
                if let V::LVar(i) = v {
                    let mut f = vec![];
                    for _ in ps {
                        f.push(self.fresh(Ty::Any, fr, 0));
                    }
                    if let Some(x) = self.expand_struct(i)? {
                        return self.bind_pat(p, &x, env, fr);
                    }
                    let t = V::tup(f);
                    self.bind(i, t.clone());
                    return self.bind_pat(p, &t, env, fr);
                }
                match &v {
                    V::Tup(t) if t.len() == ps.len() => {
                        let mut env = env.clone();
                        for (q, x) in ps.iter().zip(t.iter()) {
                            match self.bind_pat(q, x, &env, fr)? {
                                Some(e) => env = e,
                                None => return Ok(None),
                            }
                        }
                        Ok(Some(env))
                    }
                    _ => self.pmatch(p, &v, env, fr),
                }
            }
            Pat::Or(_) => self.pmatch(p, &v, env, fr),
        }
    }
    fn open_ctor(&mut self, v: &V, c: &Rc<Ctor>) -> ER<Option<Vec<V>>> {
        match v {
            V::LVar(i) => {
                let (ty, fr) = (self.lv[*i as usize].ty.clone(), self.lv[*i as usize].fr);
                let tid = c.ty as usize;
                let k = self.p.types[tid].ctors.iter().position(|x| x.id == c.id).unwrap();
                let x = self.fresh_ctor(tid, k, &ty, fr);
                self.bind(*i, x.clone());
                Ok(Some(x.as_data().unwrap().f.clone()))
            }
            V::Data(d) if d.ctor.id == c.id => Ok(Some(d.f.clone())),
            _ => Ok(None),
        }
    }
    fn simple_bool(&mut self, e: &EP, env: &Env, fr: Fr, pol: bool) -> ER<SR> {
        Ok(match self.eval_bool(e, env, fr)? {
            Some(b) if b == pol => SR::Done,
            _ => SR::Fail,
        })
    }
    fn goal_true(&mut self, e: &EP, env: &Env, fr: Fr, pol: bool) -> ER<SR> {
        match &e.k {
            EK::Bullet(op, xs) => {
                if (*op == Op::And) == pol {
                    return Ok(SR::Push(xs.iter().map(|x| G::True(x.clone(), env.clone(), fr, pol)).collect()));
                }
                match self.simple_bool(e, env, fr, pol) {
                    Err(Ctl::Stuck(i)) => Ok(SR::Delay(i, Some(xs.iter().map(|x| vec![G::True(x.clone(), env.clone(), fr, pol)]).collect()))),
                    r => r,
                }
            }
            EK::Bin(op @ (Op::And | Op::Or), a, b) => {
                let l = G::True(a.clone(), env.clone(), fr, pol);
                let r = G::True(b.clone(), env.clone(), fr, pol);
                if (*op == Op::And) == pol {
                    return Ok(SR::Push(vec![l, r]));
                }
                match self.simple_bool(e, env, fr, pol) {
                    Err(Ctl::Stuck(i)) => Ok(SR::Delay(i, Some(vec![vec![l], vec![r]]))),
                    r => r,
                }
            }
            EK::Bin(Op::Imp, a, b) => {
                if !pol {
                    return Ok(SR::Push(vec![G::True(a.clone(), env.clone(), fr, true), G::True(b.clone(), env.clone(), fr, false)]));
                }
                match self.simple_bool(e, env, fr, pol) {
                    Err(Ctl::Stuck(i)) => Ok(SR::Delay(
                        i,
                        Some(vec![
                            vec![G::True(a.clone(), env.clone(), fr, false)],
                            vec![G::True(a.clone(), env.clone(), fr, true), G::True(b.clone(), env.clone(), fr, true)],
                        ]),
                    )),
                    r => r,
                }
            }
            EK::Not(x) => Ok(SR::Push(vec![G::True(x.clone(), env.clone(), fr, !pol)])),
            EK::Bin(op @ (Op::Eq | Op::Ne), a, b) if (*op == Op::Eq) == pol => {
                let x = self.eval(a, env, fr)?;
                let y = self.eval(b, env, fr)?;
                if matches!(self.deref(&x), V::Undef) || matches!(self.deref(&y), V::Undef) {
                    return Ok(SR::Fail);
                }
                Ok(if self.unify(&x, &y)? { SR::Done } else { SR::Fail })
            }
            EK::Is(x, p) if pol => {
                let v = self.eval(x, env, fr)?;
                let v = self.deref(&v);
                if let V::LVar(i) = v {
                    let (ty, lfr) = (self.lv[i as usize].ty.clone(), self.lv[i as usize].fr);
                    if let Some(tid) = self.ty_data(&ty, lfr) {
                        let last = *p.segs.last().unwrap();
                        if let Some(k) = self.p.types[tid].ctors.iter().position(|c| c.name == last) {
                            let d = self.fresh_ctor(tid, k, &ty, lfr);
                            self.bind(i, d);
                            return Ok(SR::Done);
                        }
                    }
                    return Err(Ctl::Stuck(i));
                }
                self.simple_bool(e, env, fr, pol)
            }
            EK::Matches(x, p, rest) if pol => {
                let v = self.eval(x, env, fr)?;
                Ok(SR::Push(vec![G::PatThen(p.clone(), v, env.clone(), fr, rest.clone())]))
            }
            EK::Let(p, _, x, b) => {
                let v = self.eval(x, env, fr)?;
                match self.bind_pat(p, &v, env, fr)? {
                    Some(env2) => Ok(SR::Push(vec![G::True(b.clone(), env2, fr, pol)])),
                    None => Ok(SR::Fail),
                }
            }
            EK::If(c, a, b) => match self.eval_bool(c, env, fr) {
                Ok(Some(true)) => Ok(SR::Push(vec![G::True(a.clone(), env.clone(), fr, pol)])),
                Ok(Some(false)) => match b {
                    Some(b) => Ok(SR::Push(vec![G::True(b.clone(), env.clone(), fr, pol)])),
                    None => Ok(SR::Fail),
                },
                Ok(None) => Ok(SR::Fail),
                Err(Ctl::Stuck(i)) => {
                    let Some(b) = b else { return Err(Ctl::Stuck(i)) };
                    Ok(SR::Delay(
                        i,
                        Some(vec![
                            vec![G::True(c.clone(), env.clone(), fr, true), G::True(a.clone(), env.clone(), fr, pol)],
                            vec![G::True(c.clone(), env.clone(), fr, false), G::True(b.clone(), env.clone(), fr, pol)],
                        ]),
                    ))
                }
                Err(e) => Err(e),
            },
            EK::Match(x, arms) => {
                let v = self.eval(x, env, fr)?;
                for (p, g, b) in arms {
                    if let Some(env2) = self.pmatch(p, &v, env, fr)? {
                        if let Some(g) = g {
                            if self.eval_bool(g, &env2, fr)? != Some(true) {
                                continue;
                            }
                        }
                        return Ok(SR::Push(vec![G::True(b.clone(), env2, fr, pol)]));
                    }
                }
                Ok(SR::Fail)
            }
            EK::Quant(q, vars, b, _) if (*q == Q::Exists) == pol && *q != Q::Choose => match self.try_simple(e, env, fr, pol) {
                Ok(r) => Ok(r),
                Err(err) => {
                    let mut env2 = env.clone();
                    for (s, t) in vars {
                        let l = self.fresh(t.clone(), fr, *s);
                        if *t == Ty::Any {
                            if let Some((ty, tfr)) = self.infer_ty(0, *s, b, &env2.with(*s, l.clone()), fr, 0) {
                                if let (Ctl::Stuck(i), Ty::Named(n, _)) = (&err, &ty) {
                                    // a domain that depends on the values in scope: wait for them
                                    if self.dyn_univ.contains_key(n.last().unwrap()) {
                                        return Err(Ctl::Stuck(*i));
                                    }
                                }
                                if let V::LVar(k) = l {
                                    self.lv[k as usize].ty = ty;
                                    self.lv[k as usize].fr = tfr;
                                }
                            }
                        }
                        env2 = env2.with(*s, l);
                    }
                    Ok(SR::Push(vec![G::True(b.clone(), env2, fr, pol)]))
                }
            },
            EK::Call(f, args) => {
                if let EK::Path(p) = &f.k {
                    if p.segs.len() > 1 || env.get(p.segs[0]).is_none() {
                        match self.p.clone().resolve(fr.scope, &p.segs, fr.self_ty, false) {
                            Some(PRes::MachineOp(mid, op, _)) if pol => {
                                let mut a = vec![];
                                for x in args {
                                    a.push(self.eval(x, env, fr)?);
                                }
                                return Ok(SR::Push(vec![op_goal(self, mid, op, &a)?]));
                            }
                            Some(PRes::Fn(fid)) => {
                                return match self.simple_bool(e, env, fr, pol) {
                                    Err(Ctl::Stuck(i)) => {
                                        let mut a = vec![];
                                        for x in args {
                                            a.push(self.eval(x, env, fr)?);
                                        }
                                        self.inline(fid, a, pol, i)
                                    }
                                    r => r,
                                };
                            }
                            _ => {}
                        }
                    }
                }
                self.simple_bool(e, env, fr, pol)
            }
            EK::Method(r, m, _, args) => match self.simple_bool(e, env, fr, pol) {
                Err(Ctl::Stuck(i)) => {
                    let rv = self.eval(r, env, fr)?;
                    let mut rv = self.deref(&rv);
                    if let V::LVar(j) = rv {
                        match self.expand_struct(j)? {
                            Some(x) => rv = x,
                            None => return Err(Ctl::Stuck(i)),
                        }
                    }
                    if let V::Data(d) = &rv {
                        let fid = self.p.types[d.ctor.ty as usize].methods.get(m).copied();
                        if let Some(fid) = fid {
                            let mut a = vec![rv.clone()];
                            for x in args {
                                a.push(self.eval(x, env, fr)?);
                            }
                            return self.inline(fid, a, pol, i);
                        }
                    }
                    Err(Ctl::Stuck(i))
                }
                r => r,
            },
            _ => self.simple_bool(e, env, fr, pol),
        }
    }
    fn try_simple(&mut self, e: &EP, env: &Env, fr: Fr, pol: bool) -> ER<SR> {
        let d = self.depth;
        let r = self.simple_bool(e, env, fr, pol);
        self.depth = d;
        r
    }
    fn inline(&mut self, fid: usize, args: Vec<V>, pol: bool, stuck: u32) -> ER<SR> {
        let p = self.p.clone();
        let f = &p.fns[fid];
        if f.d.recursive || self.has_override(fid) {
            return Err(Ctl::Stuck(stuck));
        }
        let Some(body) = &f.d.body else { return bad("no body") };
        let mut env = Env::empty();
        for (n, a) in f.all_params.iter().zip(args) {
            env = env.with(*n, a);
        }
        Ok(SR::Push(vec![G::True(body.clone(), env, Fr { scope: f.scope, self_ty: f.self_ty }, pol)]))
    }

    // ---------- public API ----------
    /// All (label, post, transition path) with next(pre, post, label); label may contain unknowns.
    pub fn successors(&mut self, mid: usize, pre: &V, label: Option<V>) -> ER<Vec<(V, V, Vec<(usize, Sym)>)>> {
        let p = self.p.clone();
        let m = p.machines[mid].clone();
        let mk0 = self.mark();
        let post = self.fresh(Ty::Any, Fr { scope: m.scope, self_ty: Some(m.state_ty) }, sym("post"));
        let mut out: Vec<(V, V, Vec<(usize, Sym)>)> = vec![];
        let mut seen = std::collections::HashSet::new();
        self.cur_pre = Some(pre.clone());
        self.depth = 0;
        self.solve_depth = 0;
        self.path.clear();
        let lb = label.clone();
        let g = G::Next(mid, pre.clone(), post.clone(), label.clone());
        let r = self.solve(GL::empty().push(g), vec![], &mut |c| {
            c.finish(&[lb.clone().unwrap_or(V::Undef), post.clone()], &mut |c, vs| {
                if seen.insert((fp(&vs[0]), fp(&vs[1]))) {
                    out.push((vs[0].clone(), vs[1].clone(), c.path.clone()));
                }
                Ok(())
            })?;
            Ok(false)
        });
        self.undo(mk0);
        r?;
        Ok(out)
    }
    /// is next(pre, post, label) true, everything given
    pub fn holds(&mut self, mid: usize, pre: &V, post: &V, label: Option<&V>) -> ER<bool> {
        let mk0 = self.mark();
        self.cur_pre = Some(pre.clone());
        self.depth = 0;
        self.solve_depth = 0;
        self.path.clear();
        let mut ok = false;
        let g = G::Next(mid, pre.clone(), post.clone(), label.cloned());
        let r = self.solve(GL::empty().push(g), vec![], &mut |_| {
            ok = true;
            Ok(true)
        });
        self.undo(mk0);
        r?;
        Ok(ok)
    }
    pub fn initial(&mut self, mid: usize) -> ER<Vec<V>> {
        let p = self.p.clone();
        let m = p.machines[mid].clone();
        let mk0 = self.mark();
        let sty = p.types[m.state_ty].name;
        let post = self.fresh(Ty::Named(vec![sty], vec![]), Fr { scope: m.scope, self_ty: Some(m.state_ty) }, sym("post"));
        let mut out: Vec<V> = vec![];
        self.depth = 0;
        self.solve_depth = 0;
        self.path.clear();
        let r = self.solve(GL::empty().push(G::Init(mid, post.clone(), None)), vec![], &mut |c| {
            c.finish(&[post.clone()], &mut |_, vs| {
                if !out.contains(&vs[0]) {
                    out.push(vs[0].clone());
                }
                Ok(())
            })?;
            Ok(false)
        });
        self.undo(mk0);
        r?;
        Ok(out)
    }
    /// enumerate remaining unknowns of a result
    pub fn finish(&mut self, vs: &[V], f: &mut dyn FnMut(&mut Ctx, Vec<V>) -> ER<()>) -> ER<()> {
        let r: Vec<V> = vs.iter().map(|v| self.resolve(v)).collect();
        let lv = r.iter().find_map(|v| self.first_lvar(v));
        match lv {
            None => f(self, r),
            Some(i) => {
                if let Some(_x) = {
                    let m = self.expand_struct(i)?;
                    m
                } {
                    return self.finish(&r, f);
                }
                let mut u = self.lvar_universe(i)?;
                if u.is_none() {
                    u = self.fallback_universe(i)?;
                }
                let Some(u) = u else {
                    return bad(format!("unconstrained value ({}: {}) in result of {:?}", name(self.lv[i as usize].hint), ty_str(&self.lv[i as usize].ty), self.path_str()));
                };
                for x in u {
                    let m = self.mark();
                    self.bind(i, x);
                    let q = self.finish(&r, f);
                    self.undo(m);
                    q?;
                }
                Ok(())
            }
        }
    }
    /// all solutions of a boolean expression goal
    pub fn solve_all(&mut self, gs: Vec<G>, outs: &[V]) -> ER<Vec<Vec<V>>> {
        let mut out = vec![];
        let m = self.mark();
        let o = outs.to_vec();
        let r = self.solve(GL::empty().push_all(gs), vec![], &mut |c| {
            c.finish(&o, &mut |_, v| {
                out.push(v);
                Ok(())
            })?;
            Ok(false)
        });
        self.undo(m);
        r?;
        Ok(out)
    }
}
fn cfg_matches(cfg: &Option<V>, t: &Trans) -> bool {
    match cfg {
        None => true,
        Some(V::Tup(c)) => matches!(&c[0], V::Str(s) if **s == *name(t.name)),
        _ => false,
    }
}
pub fn ty_str(t: &Ty) -> String {
    match t {
        Ty::Any => "_".into(),
        Ty::Fn => "fn".into(),
        Ty::Tuple(x) => format!("({})", x.iter().map(ty_str).collect::<Vec<_>>().join(",")),
        Ty::Named(s, a) => {
            let mut r = s.iter().map(|x| name(*x).to_string()).collect::<Vec<_>>().join("::");
            if !a.is_empty() {
                r += &format!("<{}>", a.iter().map(ty_str).collect::<Vec<_>>().join(","));
            }
            r
        }
    }
}
