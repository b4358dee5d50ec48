//! The B+ trees a buffer is kept in ("branches"): the in-memory tree, the tree of disk pages and
//! the tree that allocates its pages, grown by every sequence of operations, against a sorted map.
use crate::eval::*;
use crate::explore::*;
use crate::h_journal::{addr, AU0};
use crate::h_system::{data, int_of};
use crate::value::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BrKind {
    Pivot,
    Linked,
    Alloc,
}
pub struct BrBounds {
    pub keys: i128,
    pub inserts: i128,
    pub appends: i128,
    pub grows: i128,
    pub splits: i128,
    pub aus: i128,
    pub pages: i128,
}
pub struct BrModel {
    pub mid: usize,
    pub kind: BrKind,
    pub b: BrBounds,
    pub outcomes: BTreeMap<String, u64>,
    pub syms: Vec<BTreeMap<V, V>>,
}
type Tree = BTreeMap<i128, V>;
#[derive(Clone)]
struct Mon {
    map: Tree,
    /// inserts, appends, grows, splits, fills
    ct: [i128; 5],
}
impl Mon {
    fn v(&self) -> V {
        V::tup(vec![V::map(self.map.iter().map(|(k, v)| (V::Int(*k), v.clone()))), V::seq(self.ct.iter().map(|x| V::Int(*x)).collect())])
    }
    fn from(v: &V) -> Mon {
        let V::Tup(t) = v else { panic!() };
        let V::Seq(c) = &t[1] else { panic!() };
        Mon { map: t[0].as_map().unwrap().iter().map(|(k, v)| (int_of(k), v.clone())).collect(), ct: [int_of(&c[0]), int_of(&c[1]), int_of(&c[2]), int_of(&c[3]), int_of(&c[4])] }
    }
}
fn key_of(k: &V) -> i128 {
    k.as_data().map(|d| int_of(&d.f[0])).unwrap_or(-1)
}
const PM: &str = "betree::PivotBranch_v";
const LM: &str = "betree::LinkedBranch_v";
const AM: &str = "allocation_layer::AllocationBranch_v";

impl BrModel {
    fn note(&mut self, s: &str) {
        *self.outcomes.entry(s.to_string()).or_insert(0) += 1;
    }
    fn m(&self) -> &'static str {
        if self.kind == BrKind::Pivot {
            PM
        } else {
            LM
        }
    }
    fn key(&self, c: &Ctx, k: i128) -> V {
        data(c, "spec::KeyType_t", "Key", "Key", vec![V::Int(k)])
    }
    fn msg(&self, c: &Ctx, i: i128) -> V {
        let val = data(c, "spec::Messages_t", "Value", "Value", vec![V::Int(i)]);
        data(c, "spec::Messages_t", "Message", "Define", vec![val])
    }
    fn nop(&self, c: &mut Ctx) -> ER<V> {
        let f = c.p.find_fn("spec::Messages_t::nop_delta").ok_or(Ctl::Err("nop_delta not found".into()))?;
        let d = c.call_fn(f, vec![])?;
        Ok(data(c, "spec::Messages_t", "Message", "Update", vec![d]))
    }
    fn leaf(&self, c: &Ctx, kv: &[(i128, V)]) -> V {
        let ks = V::seq(kv.iter().map(|(k, _)| self.key(c, *k)).collect());
        let ms = V::seq(kv.iter().map(|(_, m)| m.clone()).collect());
        data(c, self.m(), "Node", "Leaf", vec![ks, ms])
    }
    fn call(&self, c: &mut Ctx, r: &V, f: &str, a: Vec<V>) -> ER<V> {
        let v = c.call_named(r.clone(), f, a)?;
        c.ground(v)
    }
    /// does the predicate hold (a failing evaluation outside its domain counts as no)
    fn is(&self, c: &mut Ctx, r: &V, f: &str, a: Vec<V>) -> ER<bool> {
        Ok(matches!(self.call(c, r, f, a)?, V::Bool(true)))
    }
    fn path(&self, c: &Ctx, root: &V, k: i128, depth: i128) -> V {
        data(c, self.m(), "Path", "Path", vec![root.clone(), self.key(c, k), V::Int(depth)])
    }
    /// node a path ends in, if the path is valid
    fn target(&self, c: &mut Ctx, p: &V) -> ER<Option<V>> {
        if !self.is(c, p, "valid", vec![])? {
            return Ok(None);
        }
        let t = self.call(c, p, "target", vec![])?;
        Ok(Some(self.top(&t)))
    }
    /// the root node of a tree value
    fn top(&self, t: &V) -> V {
        match (t.field("root"), t.field("disk_view").and_then(|d| d.field("entries"))) {
            (Some(r), Some(es)) => es.as_map().and_then(|m| m.get(&r).cloned()).unwrap_or(V::Undef),
            _ => t.clone(),
        }
    }
    /// leaf contents in order, by an own walk; also the pages visited
    fn walk(&self, n: &V, es: Option<&V>, lo: Option<i128>, hi: Option<i128>, out: &mut Vec<(i128, V)>, seen: &mut BTreeSet<V>, d: u32) -> Result<(), String> {
        if d > 20 {
            return Err("tree does not end".into());
        }
        let node = match es {
            Some(es) => {
                if !seen.insert(n.clone()) {
                    return Err(format!("page {:?} is reached twice", n));
                }
                match es.as_map().and_then(|m| m.get(n).cloned()) {
                    Some(x) => x,
                    None => return Err(format!("child page {:?} does not exist", n)),
                }
            }
            None => n.clone(),
        };
        let seq = |f: &str| node.field(f).and_then(|s| s.as_seq().map(|s| s.to_vec())).ok_or(format!("node without {}", f));
        match &*node.variant() {
            "Leaf" => {
                let (ks, ms) = (seq("keys")?, seq("msgs")?);
                if ks.len() != ms.len() || ks.is_empty() {
                    return Err(format!("leaf of {} keys and {} messages", ks.len(), ms.len()));
                }
                for (k, m) in ks.iter().zip(ms) {
                    let k = key_of(k);
                    if lo.map_or(false, |l| k < l) || hi.map_or(false, |h| k >= h) {
                        return Err(format!("key {} lies outside its subtree's range {:?}..{:?}", k, lo, hi));
                    }
                    out.push((k, m));
                }
            }
            "Index" => {
                let (ps, cs) = (seq("pivots")?, seq("children")?);
                if ps.len() + 1 != cs.len() {
                    return Err(format!("index of {} pivots and {} children", ps.len(), cs.len()));
                }
                for (i, ch) in cs.iter().enumerate() {
                    let l = if i > 0 { Some(key_of(&ps[i - 1])) } else { lo };
                    let h = if i < ps.len() { Some(key_of(&ps[i])) } else { hi };
                    self.walk(ch, es, l, h, out, seen, d + 1)?;
                }
            }
            x => return Err(format!("a {} node inside the tree", x)),
        }
        Ok(())
    }
    fn root_tree(&self, s: &V) -> Option<V> {
        match self.kind {
            BrKind::Alloc => match &*s.field("branch")?.variant() {
                "Some" => s.field("branch")?.as_data().map(|d| d.f[0].clone()),
                _ => None,
            },
            _ => Some(s.clone()),
        }
    }
    /// every check made of a tree holding `map`
    fn check(&mut self, c: &mut Ctx, s: &V, m: &Mon) -> ER<Result<(), String>> {
        if self.kind == BrKind::Alloc {
            if let Err(e) = self.check_alloc(c, s)? {
                return Ok(Err(e));
            }
        }
        let Some(t) = self.root_tree(s) else {
            return Ok(if m.map.is_empty() { Ok(()) } else { Err("the tree is gone".into()) });
        };
        let (mut out, mut seen) = (vec![], BTreeSet::new());
        let es = t.field("disk_view").and_then(|d| d.field("entries"));
        let top = if es.is_some() { t.field("root").unwrap() } else { t.clone() };
        if let Err(e) = self.walk(&top, es.as_ref(), None, None, &mut out, &mut seen, 0) {
            return Ok(Err(e));
        }
        let want: Vec<(i128, V)> = m.map.iter().map(|(k, v)| (*k, v.clone())).collect();
        if out != want {
            return Ok(Err(format!("leaves hold {:?}, expected {:?}", out, want)));
        }
        if let Some(es) = &es {
            let mut all: BTreeSet<V> = es.as_map().unwrap().keys().cloned().collect();
            if let Some(p) = self.top(&t).field("aux_ptr").and_then(|p| p.as_data().and_then(|d| d.f.first().cloned())) {
                if s.field("sealed") == Some(V::Bool(true)) {
                    all.remove(&p);
                }
            }
            if all != seen {
                return Ok(Err(format!("tree consists of pages {:?}, disk holds {:?}", seen, all)));
            }
        }
        let nop = self.nop(c)?;
        for k in 0..=self.b.keys {
            let key = self.key(c, k);
            let got = match self.kind {
                BrKind::Alloc => self.call(c, s, "branch_query", vec![key])?,
                _ => self.call(c, s, "query", vec![key])?,
            };
            let want = m.map.get(&k).cloned().unwrap_or(nop.clone());
            if got != want {
                return Ok(Err(format!("query of {} returns {:?}, expected {:?}", k, got, want)));
            }
        }
        let inv = if self.kind == BrKind::Pivot { "wf" } else { "inv" };
        if !self.is(c, s, inv, vec![])? {
            return Ok(Err("the tree is no longer well formed".into()));
        }
        Ok(Ok(()))
    }
    fn check_alloc(&mut self, _c: &mut Ctx, s: &V) -> ER<Result<(), String>> {
        let allocs = s.field("mini_allocator").and_then(|m| m.field("allocs")).and_then(|m| m.as_map().cloned()).ok_or(Ctl::Err("allocator has changed shape".into()))?;
        let mut reserved = BTreeSet::new();
        for a in allocs.values() {
            reserved.extend(a.field("reserved").and_then(|r| r.as_set().map(|s| s.iter().cloned().collect::<Vec<_>>())).unwrap_or_default());
        }
        let pages: BTreeSet<V> = self.root_tree(s).and_then(|t| t.field("disk_view")).and_then(|d| d.field("entries")).and_then(|m| m.as_map().cloned()).map(|m| m.keys().cloned().collect()).unwrap_or_default();
        if reserved != pages {
            return Ok(Err(format!("allocator has handed out {:?}, the tree uses {:?}", reserved, pages)));
        }
        if s.field("sealed") == Some(V::Bool(true)) {
            let Some(t) = self.root_tree(s) else { return Ok(Err("sealed without a tree".into())) };
            let aus: BTreeSet<V> = pages.iter().filter_map(|p| p.field("au")).collect();
            let held: BTreeSet<V> = allocs.keys().cloned().collect();
            if aus != held {
                return Ok(Err(format!("sealed tree keeps AUs {:?}, its pages are in {:?}", held, aus)));
            }
            // the summary stored with the root names exactly these AUs
            let top = self.top(&t);
            let sum: BTreeSet<V> = if top.variant() == "Index" {
                let p = top.field("aux_ptr").and_then(|p| p.as_data().and_then(|d| d.f.first().cloned()));
                let n = p.and_then(|p| t.field("disk_view").unwrap().field("entries").unwrap().as_map().unwrap().get(&p).cloned());
                match n.and_then(|n| n.as_data().and_then(|d| d.f.first().cloned())).and_then(|s| s.as_set().map(|s| s.iter().cloned().collect())) {
                    Some(s) => s,
                    None => return Ok(Err("sealed tree has no summary".into())),
                }
            } else {
                t.field("root").and_then(|r| r.field("au")).into_iter().collect()
            };
            if sum != aus {
                return Ok(Err(format!("summary names AUs {:?}, the tree's pages are in {:?}", sum, aus)));
            }
        }
        Ok(Ok(()))
    }
    fn addrs(&self, c: &Ctx) -> Vec<V> {
        (0..self.b.aus).flat_map(|a| (0..self.b.pages).map(move |p| (a, p))).map(|(a, p)| addr(c, AU0 + a, p)).collect()
    }
    fn runs(&self, c: &Ctx) -> Vec<Vec<(i128, V)>> {
        // every sorted run of one or two keys (and, to be refused, an unsorted one)
        let mut out = vec![];
        for a in 0..self.b.keys {
            out.push(vec![(a, self.msg(c, 3))]);
            for b in 0..self.b.keys {
                out.push(vec![(a, self.msg(c, 3)), (b, self.msg(c, 4))]);
            }
        }
        out
    }
    fn split_args(&self, c: &Ctx) -> Vec<V> {
        let mut out = vec![];
        for k in 0..self.b.keys {
            out.push(data(c, self.m(), "SplitArg", "SplitLeaf", vec![self.key(c, k)]));
            for i in 0..2 {
                out.push(data(c, self.m(), "SplitArg", "SplitIndex", vec![self.key(c, k), V::Int(i)]));
            }
        }
        out
    }
}

impl Model for BrModel {
    fn symmetries(&self) -> Vec<BTreeMap<V, V>> {
        self.syms.clone()
    }
    fn labels(&mut self, _c: &mut Ctx, _s: &V, _mon: &V) -> ER<Vec<Option<V>>> {
        Ok(vec![])
    }
    fn observe(&mut self, _c: &mut Ctx, _pre: &V, _l: &V, _post: &V, _p: &Path, _mon: &V) -> ER<Obs> {
        unreachable!()
    }
    fn initial(&mut self, c: &mut Ctx) -> ER<Vec<(V, V)>> {
        let mut out = vec![];
        if self.kind == BrKind::Alloc {
            let t = c.p.find_type(AM, "AllocationBranch").ok_or(Ctl::Err("AllocationBranch not found".into()))?;
            let s = c.call_static(t, "new", vec![V::set(vec![V::Int(AU0)])])?;
            let s = c.ground(s)?;
            return Ok(vec![(s, Mon { map: Tree::new(), ct: [0; 5] }.v())]);
        }
        // any sorted leaf of one or two keys
        for run in self.runs(c) {
            if run.len() == 2 && run[0].0 >= run[1].0 {
                continue;
            }
            let l = self.leaf(c, &run);
            let s = match self.kind {
                BrKind::Pivot => l,
                _ => {
                    let a = addr(c, AU0, 0);
                    let dv = data(c, LM, "DiskView", "DiskView", vec![V::map(vec![(a.clone(), l)])]);
                    data(c, LM, "LinkedBranch", "LinkedBranch", vec![a, dv])
                }
            };
            out.push((s, Mon { map: run.into_iter().collect(), ct: [0; 5] }.v()));
        }
        Ok(out)
    }
    fn state_ok(&mut self, c: &mut Ctx, s: &V, mon: &V) -> ER<Result<(), String>> {
        self.check(c, s, &Mon::from(mon))
    }
    fn extra(&mut self, c: &mut Ctx, s: &V, mon: &V) -> ER<Vec<(V, V, Obs)>> {
        let m = Mon::from(mon);
        let mut out: Vec<(V, V, Obs)> = vec![];
        if s.field("sealed") == Some(V::Bool(true)) {
            // nothing is built on a sealed tree
            if self.kind == BrKind::Alloc {
                for (l, t, _, _) in self.events(c, s, &m)? {
                    out.push((V::Str(l.clone().into()), t, Obs::Bad(format!("{} is accepted by a sealed tree", l))));
                }
            }
            return Ok(out);
        }
        if self.kind == BrKind::Alloc {
            for (l, t, m2, what) in self.events(c, s, &m)? {
                if what == "!" {
                    out.push((V::Str(l.clone().into()), t, Obs::Bad(format!("accepted: {}", l))));
                    continue;
                }
                self.note(what);
                out.push((V::Str(l.into()), t, Obs::Go(m2.v())));
            }
            // (growing is not an event of its own: the page is allocated and the tree grown on it)
            if let (Some(t), true) = (self.root_tree(s), m.ct[2] < self.b.grows) {
                for a in self.addrs(c) {
                    let ma = s.field("mini_allocator").unwrap();
                    if self.is(c, &ma, "can_allocate", vec![a.clone()])? && self.is(c, &t, "can_grow", vec![a.clone()])? {
                        let t2 = self.call(c, &t, "grow", vec![a.clone()])?;
                        let ma2 = self.call(c, &ma, "allocate", vec![a.clone()])?;
                        let V::Data(d) = s else { panic!() };
                        let V::Data(some) = s.field("branch").unwrap() else { panic!() };
                        let br = V::data(&some.ctor, vec![t2]);
                        let f = d.ctor.fields.iter().zip(d.f.iter()).map(|(n, o)| match &*name(*n) {
                            "branch" => br.clone(),
                            "mini_allocator" => ma2.clone(),
                            _ => o.clone(),
                        });
                        let s2 = V::data(&d.ctor, f.collect());
                        let mut m2 = m.clone();
                        m2.ct[2] += 1;
                        self.note("grow");
                        out.push((V::Str(format!("grow {:?}", a).into()), s2, Obs::Go(m2.v())));
                    }
                }
            }
            return Ok(out);
        }
        let linked = self.kind == BrKind::Linked;
        // inserts
        for k in 0..self.b.keys {
            let mut homes = 0;
            for d in 0..=self.b.grows + 1 {
                let p = self.path(c, s, k, d);
                let Some(t) = self.target(c, &p)? else { continue };
                if t.variant() != "Leaf" {
                    continue;
                }
                homes += 1;
                if m.ct[0] >= self.b.inserts {
                    continue;
                }
                let msg = self.msg(c, if m.map.contains_key(&k) { 2 } else { 1 });
                let args = vec![self.key(c, k), msg.clone(), p];
                if linked && !self.is(c, s, "can_insert", args.clone())? {
                    return Ok(vec![(V::Str("insert".into()), V::Undef, Obs::Bad(format!("key {} cannot be inserted", k)))]);
                }
                let t2 = self.call(c, s, "insert", args)?;
                let mut m2 = m.clone();
                self.note(if m.map.contains_key(&k) { "key overwritten" } else { "key inserted" });
                m2.map.insert(k, msg);
                m2.ct[0] += 1;
                out.push((V::Str(format!("insert {}", k).into()), t2, Obs::Go(m2.v())));
            }
            if homes != 1 {
                return Ok(vec![(V::Str("insert".into()), V::Undef, Obs::Bad(format!("key {} has {} leaves it belongs in", k, homes)))]);
            }
        }
        // appends
        if m.ct[1] < self.b.appends {
            for run in self.runs(c) {
                for d in 0..=self.b.grows + 1 {
                    let p = self.path(c, s, run[0].0, d);
                    let ks = V::seq(run.iter().map(|(k, _)| self.key(c, *k)).collect());
                    let ms = V::seq(run.iter().map(|(_, m)| m.clone()).collect());
                    let ok = if linked {
                        match self.target(c, &p)? {
                            None => false,
                            Some(_) => self.is(c, s, "can_append", vec![ks.clone(), ms.clone(), p.clone()])?,
                        }
                    } else {
                        match self.target(c, &p)? {
                            Some(t) if t.variant() == "Leaf" => {
                                let last = t.field("keys").and_then(|k| k.as_seq().and_then(|s| s.last().cloned())).map_or(-1, |k| key_of(&k));
                                let sorted = run.len() < 2 || run[0].0 < run[1].0;
                                let lk = self.key(c, run.last().unwrap().0);
                                last < run[0].0 && sorted && self.is(c, &p, "path_equiv", vec![lk])?
                            }
                            _ => false,
                        }
                    };
                    if !ok {
                        continue;
                    }
                    let t2 = self.call(c, s, "append", vec![ks, ms, p])?;
                    let mut m2 = m.clone();
                    if run.iter().any(|(k, _)| m.map.contains_key(k)) || run.len() == 2 && run[0].0 >= run[1].0 {
                        return Ok(vec![(V::Str("append".into()), t2, Obs::Bad(format!("run {:?} may be appended although it is not new and sorted", run)))]);
                    }
                    m2.map.extend(run.iter().cloned());
                    m2.ct[1] += 1;
                    self.note("append");
                    out.push((V::Str(format!("append {:?}", run).into()), t2, Obs::Go(m2.v())));
                }
            }
        }
        let fresh = {
            let used: BTreeSet<V> = s.field("disk_view").and_then(|d| d.field("entries")).and_then(|m| m.as_map().cloned()).map(|m| m.keys().cloned().collect()).unwrap_or_default();
            let mut f: Vec<V> = self.addrs(c).into_iter().filter(|a| !used.contains(a)).take(1).collect();
            // a page in use must be refused
            f.extend(used.into_iter().take(1));
            f
        };
        if m.ct[2] < self.b.grows {
            let mut m2 = m.clone();
            m2.ct[2] += 1;
            if linked {
                for a in &fresh {
                    if self.is(c, s, "can_grow", vec![a.clone()])? {
                        let t = self.call(c, s, "grow", vec![a.clone()])?;
                        self.note("grow");
                        out.push((V::Str("grow".into()), t, Obs::Go(m2.v())));
                    }
                }
            } else {
                let t = self.call(c, s, "grow", vec![])?;
                self.note("grow");
                out.push((V::Str("grow".into()), t, Obs::Go(m2.v())));
            }
        }
        if m.ct[3] < self.b.splits {
            for arg in self.split_args(c) {
                let k = key_of(&self.call(c, &arg, "get_pivot", vec![])?);
                for d in 0..=self.b.grows {
                    let p = self.path(c, s, k, d);
                    let Some(t) = self.target(c, &p)? else { continue };
                    if t.variant() != "Index" {
                        continue;
                    }
                    let mut m2 = m.clone();
                    m2.ct[3] += 1;
                    let what = if arg.variant() == "SplitLeaf" { "leaf split" } else { "index split" };
                    if linked {
                        for a in &fresh {
                            if self.is(c, s, "can_split", vec![a.clone(), p.clone(), arg.clone()])? {
                                let t = self.call(c, s, "split", vec![a.clone(), p.clone(), arg.clone()])?;
                                self.note(what);
                                out.push((V::Str(format!("split {:?}", arg).into()), t, Obs::Go(m2.v())));
                            }
                        }
                    } else if self.is(c, &t, "can_split_child_of_index", vec![arg.clone()])? {
                        let t = self.call(c, s, "split", vec![p.clone(), arg.clone()])?;
                        self.note(what);
                        out.push((V::Str(format!("split {:?}", arg).into()), t, Obs::Go(m2.v())));
                    }
                }
            }
        }
        Ok(out)
    }
}
impl BrModel {
    /// events the allocating tree accepts: label, post state, monitor, outcome
    fn events(&mut self, c: &mut Ctx, s: &V, m: &Mon) -> ER<Vec<(String, V, Mon, &'static str)>> {
        let tid = c.p.find_type(AM, "AllocationBranch").ok_or(Ctl::Err("AllocationBranch not found".into()))?;
        let none = V::set(vec![]);
        let tree = self.root_tree(s);
        let mut out = vec![];
        // candidate events: event, amounts allocated / freed, post state, new map, counter, outcome
        let mut cand: Vec<(V, V, V, V, Mon, &'static str)> = vec![];
        let ev = |c: &Ctx, n: &str, f: Vec<V>| data(c, AM, "BuildEvent", n, f);
        let aus: Vec<V> = (AU0..AU0 + self.b.aus).map(V::Int).collect();
        let sets: Vec<V> = (0..1u32 << aus.len()).map(|b| V::set(aus.iter().enumerate().filter(|(i, _)| b >> i & 1 == 1).map(|(_, x)| x.clone()))).collect();
        if tree.is_none() || s.field("sealed") == Some(V::Bool(true)) {
            for run in self.runs(c) {
                let ks = V::seq(run.iter().map(|(k, _)| self.key(c, *k)).collect());
                let ms = V::seq(run.iter().map(|(_, m)| m.clone()).collect());
                for a in self.addrs(c) {
                    let post = self.call(c, s, "branch_initialize", vec![a.clone(), ks.clone(), ms.clone()]);
                    let Ok(post) = post else { continue };
                    let mut m2 = m.clone();
                    m2.map = run.iter().cloned().collect();
                    cand.push((ev(c, "Initialize", vec![a, ks.clone(), ms.clone()]), none.clone(), none.clone(), post, m2, "tree started"));
                }
            }
        }
        if let Some(t) = &tree {
            if m.ct[1] < self.b.appends {
                for run in self.runs(c) {
                    let ks = V::seq(run.iter().map(|(k, _)| self.key(c, *k)).collect());
                    let ms = V::seq(run.iter().map(|(_, m)| m.clone()).collect());
                    for d in 0..=self.b.grows {
                        let p = self.path(c, t, run[0].0, d);
                        if self.target(c, &p)?.map_or(true, |t| t.variant() != "Leaf") {
                            continue;
                        }
                        let Ok(post) = self.call(c, s, "branch_append", vec![ks.clone(), ms.clone(), p.clone()]) else { continue };
                        let mut m2 = m.clone();
                        m2.map.extend(run.iter().cloned());
                        m2.ct[1] += 1;
                        cand.push((ev(c, "Append", vec![ks.clone(), ms.clone(), p]), none.clone(), none.clone(), post, m2, "append"));
                    }
                }
            }
            if m.ct[3] < self.b.splits {
                for arg in self.split_args(c) {
                    let k = key_of(&self.call(c, &arg, "get_pivot", vec![])?);
                    for d in 0..self.b.grows {
                        let p = self.path(c, t, k, d);
                        if self.target(c, &p)?.map_or(true, |t| t.variant() != "Index") {
                            continue;
                        }
                        for a in self.addrs(c) {
                            let Ok(post) = self.call(c, s, "branch_split", vec![a.clone(), p.clone(), arg.clone()]) else { continue };
                            let mut m2 = m.clone();
                            m2.ct[3] += 1;
                            let what = if arg.variant() == "SplitLeaf" { "leaf split" } else { "index split" };
                            cand.push((ev(c, "Split", vec![a, p.clone(), arg.clone()]), none.clone(), none.clone(), post, m2, what));
                        }
                    }
                }
            }
            let ptrs = {
                let find = |n: &str| c.p.types.iter().flat_map(|t| t.ctors.iter()).find(|k| &*name(k.name) == n).cloned().unwrap();
                let mut v = vec![V::data(&find("None"), vec![])];
                v.extend(self.addrs(c).into_iter().map(|a| V::data(&find("Some"), vec![a])));
                v
            };
            for p in ptrs {
                for d in &sets {
                    let Ok(post) = self.call(c, s, "branch_seal", vec![p.clone(), d.clone()]) else { continue };
                    let what = if p.variant() == "Some" { "seal of an index tree" } else { "seal of a leaf" };
                    cand.push((ev(c, "Seal", vec![p.clone()]), none.clone(), d.clone(), post, m.clone(), what));
                }
            }
        }
        if m.ct[4] < 1 {
            for a in &sets {
                let Ok(post) = self.call(c, s, "mini_allocator_fill", vec![a.clone()]) else { continue };
                let mut m2 = m.clone();
                m2.ct[4] += 1;
                cand.push((ev(c, "AllocFill", vec![]), a.clone(), none.clone(), post, m2, "fill"));
            }
        }
        for (e, al, de, post, m2, what) in cand {
            let v = c.call_static(tid, "build_next", vec![s.clone(), post.clone(), e.clone(), al.clone(), de.clone()]);
            let v = match v {
                Ok(v) => c.ground(v)?,
                Err(_) => continue,
            };
            // the event without its effect, and with units it has no use for, must be refused
            let grown = e.variant() != "AllocFill" && e.variant() != "Seal";
            let mut wrong = vec![(s.clone(), al.clone(), de.clone(), "has no effect")];
            if grown {
                wrong.push((post.clone(), V::set(vec![V::Int(AU0 + self.b.aus)]), none.clone(), "takes an allocation unit it leaves behind"));
                wrong.push((post.clone(), none.clone(), V::set(vec![V::Int(AU0)]), "gives back an allocation unit it keeps"));
            }
            if e.variant() == "AllocFill" && al != none {
                let held = s.field("mini_allocator").and_then(|m| m.field("allocs")).and_then(|m| m.as_map().cloned()).unwrap_or_default();
                if al.as_set().unwrap().iter().any(|a| held.contains_key(a)) {
                    wrong.push((post.clone(), al.clone(), de.clone(), "takes an allocation unit it already has"));
                }
                wrong.push((post.clone(), none.clone(), none.clone(), "takes allocation units nobody gave it"));
                wrong.push((post.clone(), al.clone(), V::set(vec![V::Int(AU0)]), "gives back an allocation unit it keeps"));
            }
            if e.variant() == "Seal" {
                wrong.push((post.clone(), V::set(vec![V::Int(AU0 + self.b.aus)]), de.clone(), "takes an allocation unit it leaves behind"));
            }
            for (post, al, de, why) in wrong {
                if post == *s && e.variant() == "AllocFill" && al == none {
                    continue;
                }
                let w = c.call_static(tid, "build_next", vec![s.clone(), post.clone(), e.clone(), al.clone(), de.clone()]);
                let w = match w {
                    Ok(w) => c.ground(w)?,
                    Err(_) => continue,
                };
                if w == V::Bool(true) {
                    out.push((format!("{} alloc {:?} free {:?} {}", e.variant(), al, de, why), post, m.clone(), "!"));
                }
            }
            if v == V::Bool(true) {
                out.push((format!("{} alloc {:?} free {:?}", e.variant(), al, de), post, m2, what));
            }
        }
        Ok(out)
    }
}
