//! Explicit-state breadth-first exploration of a machine extracted from the source, in lock step
//! with an observer (monitor) that sees only labels and states.
use crate::eval::*;
use crate::prog::*;
use crate::solve::*;
use crate::value::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub type Path = Vec<(usize, Sym)>;

pub enum Obs {
    /// new monitor state; keep exploring
    Go(V),
    /// outside the bounds
    Prune,
    /// outside the bounds, and what lies beyond could still discharge open obligations
    Beyond,
    Bad(String),
}

pub trait Model {
    /// labels to try from a state; None = unlabelled machine. Labels may hold unknowns.
    fn labels(&mut self, c: &mut Ctx, s: &V, mon: &V) -> ER<Vec<Option<V>>>;
    fn initial(&mut self, c: &mut Ctx) -> ER<Vec<(V, V)>>;
    fn observe(&mut self, c: &mut Ctx, pre: &V, lbl: &V, post: &V, path: &Path, mon: &V) -> ER<Obs>;
    /// environment steps outside the machine (crash and recovery): label, state, monitor
    fn extra(&mut self, _c: &mut Ctx, _s: &V, _mon: &V) -> ER<Vec<(V, V, Obs)>> {
        Ok(vec![])
    }
    /// obligations (bit set) open in a state, which must stay dischargeable from it
    fn pending(&mut self, _s: &V, _mon: &V) -> u32 {
        0
    }
    /// obligations discharged by a step; None = the step may not be used to discharge anything
    fn discharges(&mut self, _lbl: &V, _mon: &V) -> Option<u32> {
        Some(0)
    }
    fn obligation_name(&self, _bit: u32) -> String {
        "the obligation".into()
    }
    /// renamings under which the machine and the property are symmetric
    fn symmetries(&self) -> Vec<BTreeMap<V, V>> {
        vec![]
    }
    /// representative of a state up to renaming (instead of `symmetries`)
    fn canon(&self, _s: &V, _mon: &V) -> Option<(V, V)> {
        None
    }
    fn state_ok(&mut self, _c: &mut Ctx, _s: &V, _mon: &V) -> ER<Result<(), String>> {
        Ok(Ok(()))
    }
    fn holds(&mut self, c: &mut Ctx, mid: usize, s: &V, t: &V, l: Option<&V>) -> ER<bool> {
        c.holds(mid, s, t, l)
    }
    fn successors(&mut self, c: &mut Ctx, mid: usize, s: &V, l: Option<V>) -> ER<Vec<(V, V, Path)>> {
        c.successors(mid, s, l)
    }
}

#[derive(Default, Debug, Clone)]
pub struct Report {
    pub states: u64,
    pub transitions: u64,
    pub depth: u32,
    pub exhausted: bool,
    pub fired: BTreeMap<String, u64>,
    pub violation: Option<(String, Vec<String>)>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub obligations: u64,
    pub validated: u64,
    pub wall: f64,
}

pub struct Limits {
    pub max_states: u64,
    pub max_depth: u32,
    pub time: Duration,
    /// how many generated steps to re-evaluate as ground predicates of the source
    pub validate: u64,
}

pub fn rename(v: &V, p: &BTreeMap<V, V>) -> V {
    if let Some(x) = p.get(v) {
        return x.clone();
    }
    match v {
        V::Tup(x) => V::tup(x.iter().map(|y| rename(y, p)).collect()),
        V::Seq(x) => V::seq(x.iter().map(|y| rename(y, p)).collect()),
        V::Set(x) => V::Set(Rc::new(x.iter().map(|y| rename(y, p)).collect())),
        V::MSet(x) => V::MSet(Rc::new(x.iter().map(|(y, n)| (rename(y, p), *n)).collect())),
        V::Map(x) => V::Map(Rc::new(x.iter().map(|(a, b)| (rename(a, p), rename(b, p))).collect())),
        V::Data(d) => {
            let f: Vec<V> = d.f.iter().map(|y| rename(y, p)).collect();
            V::data(&d.ctor, f)
        }
        _ => v.clone(),
    }
}
fn path_names(c: &Ctx, p: &Path) -> String {
    p.iter().map(|(m, t)| format!("{}::{}", name(c.p.machines[*m].name), name(*t))).collect::<Vec<_>>().join(" / ")
}

pub fn explore(c: &mut Ctx, mid: usize, model: &mut dyn Model, lim: &Limits) -> ER<Report> {
    let t0 = Instant::now();
    let mut rep = Report::default();
    struct Node {
        s: V,
        mon: V,
        parent: u32,
        via: Option<(V, Path)>,
        depth: u32,
    }
    let mut nodes: Vec<Node> = vec![];
    let mut seen: HashMap<u128, u32> = HashMap::new();
    let mut tm: BTreeMap<String, f64> = BTreeMap::new();
    let mut frontier = std::collections::VecDeque::new();
    let mut edges: Vec<(u32, u32, u32)> = vec![];
    let mut pend: Vec<u32> = vec![];
    let trace = |c: &Ctx, nodes: &Vec<Node>, i: u32, last: String| -> Vec<String> {
        let mut t = vec![last];
        let mut i = i;
        loop {
            let n = &nodes[i as usize];
            let via = n.via.as_ref().map_or("init".to_string(), |(l, p)| format!("{:?} via {}", l, path_names(c, p)));
            t.push(format!("{}   => {:?}", via, n.s));
            if n.parent == u32::MAX {
                break;
            }
            i = n.parent;
        }
        t.reverse();
        t
    };
    let syms = model.symmetries();
    let key = |model: &dyn Model, s: &V, mon: &V| -> u128 {
        if let Some((s, mon)) = model.canon(s, mon) {
            return fp(&(&s, &mon));
        }
        let mut k = fp(&(s, mon));
        for p in &syms {
            k = k.min(fp(&(&rename(s, p), &rename(mon, p))));
        }
        k
    };
    for (s, mon) in model.initial(c)? {
        if let Err(e) = model.state_ok(c, &s, &mon)? {
            rep.violation = Some((format!("initial state: {}", e), vec![format!("{:?}", s)]));
            return Ok(rep);
        }
        let k = key(model, &s, &mon);
        if seen.insert(k, nodes.len() as u32).is_none() {
            frontier.push_back(nodes.len() as u32);
            pend.push(model.pending(&s, &mon));
            nodes.push(Node { s, mon, parent: u32::MAX, via: None, depth: 0 });
        }
    }
    let mut beyond: Vec<u32> = vec![];
    let mut pathset: HashMap<Path, u64> = HashMap::new();
    'outer: loop {
        let Some(i) = frontier.pop_front() else {
            rep.exhausted = true;
            break;
        };
        let (s, mon, d) = (nodes[i as usize].s.clone(), nodes[i as usize].mon.clone(), nodes[i as usize].depth);
        rep.depth = rep.depth.max(d);
        if d >= lim.max_depth || nodes.len() as u64 >= lim.max_states || t0.elapsed() > lim.time {
            frontier.push_front(i);
            break;
        }
        let m0 = c.mark();
        let mut work: Vec<(V, V, Path, Option<Obs>)> = vec![];
        for (l, t, o) in model.extra(c, &s, &mon)? {
            work.push((l, t, vec![], Some(o)));
        }
        for l in model.labels(c, &s, &mon)? {
            let (tl, nm) = (Instant::now(), l.as_ref().map(|l| l.variant()).unwrap_or_default());
            for (lbl, post, path) in model.successors(c, mid, &s, l)? {
                work.push((lbl, post, path, None));
            }
            *tm.entry(nm).or_insert(0f64) += tl.elapsed().as_secs_f64();
        }
        for (lbl, post, path, pre_obs) in work {
            rep.transitions += 1;
            let obs = match pre_obs {
                Some(o) => o,
                None => {
                    if rep.validated < lim.validate {
                        let lb = if matches!(lbl, V::Undef) { None } else { Some(&lbl) };
                        if !model.holds(c, mid, &s, &post, lb)? {
                            return Err(Ctl::Err(format!("generated step is not a step of the source: {:?} --{:?}--> {:?}", s, lbl, post)));
                        }
                        rep.validated += 1;
                    }
                    *pathset.entry(path.clone()).or_insert(0) += 1;
                    model.observe(c, &s, &lbl, &post, &path, &mon)?
                }
            };
            match obs {
                Obs::Prune => continue,
                Obs::Beyond => {
                    beyond.push(i);
                    continue;
                }
                Obs::Bad(e) => {
                    let last = format!("{:?} via {}   => {:?}", lbl, path_names(c, &path), post);
                    rep.violation = Some((e, trace(c, &nodes, i, last)));
                    break 'outer;
                }
                Obs::Go(mon2) => {
                    let k = key(model, &post, &mon2);
                    let dis = model.discharges(&lbl, &mon);
                    if let Some(&j) = seen.get(&k) {
                        if let Some(d) = dis {
                            edges.push((i, j, d));
                        }
                        continue;
                    }
                    if let Some(d) = dis {
                        edges.push((i, nodes.len() as u32, d));
                    }
                    if let Err(e) = model.state_ok(c, &post, &mon2)? {
                        let last = format!("{:?} via {}   => {:?}", lbl, path_names(c, &path), post);
                        rep.violation = Some((e, trace(c, &nodes, i, last)));
                        break 'outer;
                    }
                    seen.insert(k, nodes.len() as u32);
                    frontier.push_back(nodes.len() as u32);
                    if rep.samples.len() < 3 && (nodes.len() == 3 || nodes.len() == 40 || nodes.len() == 400) {
                        rep.samples.push(format!("state #{}: {:?} reached by {:?} via {}", nodes.len(), post, lbl, path_names(c, &path)));
                    }
                    pend.push(model.pending(&post, &mon2));
                    nodes.push(Node { s: post, mon: mon2, parent: i, via: Some((lbl, path)), depth: d + 1 });
                }
            }
        }
        c.undo(m0);
        if c.memo.len() > 200_000 {
            c.memo.clear();
        }
    }
    // every open obligation must be dischargeable: backward reachability over the explored graph
    let all = pend.iter().fold(0, |a, b| a | b);
    if rep.violation.is_none() && all != 0 {
        let mut rev: Vec<Vec<u32>> = vec![vec![]; nodes.len()];
        for (a, b, _) in &edges {
            rev[*b as usize].push(*a);
        }
        for bit in 0..32 {
            if all >> bit & 1 == 0 {
                continue;
            }
            let mut ok = vec![false; nodes.len()];
            let mut q: Vec<u32> = vec![];
            let mut mark = |x: u32, ok: &mut Vec<bool>, q: &mut Vec<u32>| {
                if !ok[x as usize] {
                    ok[x as usize] = true;
                    q.push(x)
                }
            };
            for (a, _, d) in &edges {
                if d >> bit & 1 == 1 {
                    mark(*a, &mut ok, &mut q);
                }
            }
            // unexplored frontier: cannot be judged
            for &f in frontier.iter().chain(&beyond) {
                mark(f, &mut ok, &mut q);
            }
            while let Some(x) = q.pop() {
                for &y in &rev[x as usize] {
                    mark(y, &mut ok, &mut q);
                }
            }
            rep.obligations += pend.iter().filter(|p| *p >> bit & 1 == 1).count() as u64;
            if let Some(i) = (0..nodes.len()).find(|&i| pend[i] >> bit & 1 == 1 && !ok[i]) {
                rep.violation = Some((format!("from this state on, {} can never happen without a crash", model.obligation_name(bit)), trace(c, &nodes, i as u32, "(no continuation discharges it)".into())));
                break;
            }
        }
    }
    if let (Some(a), None) = (&c.approx, &rep.violation) {
        return Err(Ctl::Err(a.clone()));
    }
    for (p, n) in pathset {
        let mut done = BTreeSet::new();
        for (m, t) in p {
            if done.insert((m, t)) {
                *rep.fired.entry(format!("{}::{}", name(c.p.machines[m].name), name(t))).or_insert(0) += n;
            }
        }
    }
    if std::env::var("MC_TIME").is_ok() {
        eprintln!("{:?}", tm);
    }
    rep.states = nodes.len() as u64;
    rep.wall = t0.elapsed().as_secs_f64();
    Ok(rep)
}

/// a fully unknown label of the machine
pub fn any_label(c: &mut Ctx, mid: usize) -> V {
    let sc = c.p.machines[mid].scope;
    let st = c.p.machines[mid].state_ty;
    c.fresh(crate::ast::Ty::Named(vec![sym("Label")], vec![]), Fr { scope: sc, self_ty: Some(st) }, sym("label"))
}
pub fn lab(c: &Ctx, mid: usize, var: &str, f: Vec<V>) -> V {
    let sc = c.p.machines[mid].scope;
    match c.p.resolve(sc, &[sym("Label"), sym(var)], None, false) {
        Some(PRes::Ctor(k)) if k.fields.len() == f.len() => V::data(&k, f),
        _ => panic!("label {} of {} has changed shape", var, name(c.p.machines[mid].name)),
    }
}
#[allow(dead_code)]
fn _u() -> G {
    G::Pop
}
