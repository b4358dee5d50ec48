//! The B-epsilon-tree whose buffers are B+ trees on allocated units: building buffers beside the
//! tree, flushing, splitting and compacting with read references, against a plain map, an own walk
//! of all pages and a ledger of allocation units.
use crate::ast::Ty;
use crate::eval::*;
use crate::explore::*;
use crate::h_betree::*;
use crate::h_journal::AU0;
use crate::h_system::{collect, data, int_of};
use crate::solve::*;
use crate::value::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const LM: &str = "betree::LinkedBetree_v";
const NM: &str = "betree::LinkedBranch_v";
const AM: &str = "allocation_layer::AllocationBranch_v";
pub const MM: &str = "allocation_layer::AllocationBranchBetree_v";

/// steps of a scripted approach
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ap {
    Put(i128),
    /// build a buffer of the memtable and push it
    Mem,
    Grow,
    Down,
    DownGc,
    Split,
    /// start a compaction of a node's buffers
    Begin,
    /// build the buffer a compaction needs
    Build,
    /// build a buffer with any content
    BuildAny,
}
#[derive(Clone)]
pub struct Bd {
    pub pre: &'static [Ap],
    pub keys: i128,
    pub puts: i128,
    pub steps: i128,
    pub height: usize,
    pub wip: usize,
    pub compactors: usize,
}
pub struct BbModel {
    pub mid: usize,
    pub b: Bd,
    pub outcomes: BTreeMap<String, u64>,
    pub pre_bad: Option<String>,
}
#[derive(Clone)]
struct Mon {
    map: BTreeMap<i128, i128>,
    lsn: i128,
    steps: i128,
    held: BTreeSet<V>,
}
impl Mon {
    fn v(&self) -> V {
        V::tup(vec![V::map(self.map.iter().map(|(a, b)| (V::Int(*a), V::Int(*b)))), V::Int(self.lsn), V::Int(self.steps), V::set(self.held.iter().cloned())])
    }
    fn from(v: &V) -> Mon {
        let V::Tup(t) = v else { panic!() };
        Mon {
            map: t[0].as_map().unwrap().iter().map(|(a, b)| (int_of(a), int_of(b))).collect(),
            lsn: int_of(&t[1]),
            steps: int_of(&t[2]),
            held: t[3].as_set().unwrap().iter().cloned().collect(),
        }
    }
}
fn is_addr(v: &V) -> bool {
    v.as_data().map_or(false, |d| &*name(d.ctor.name) == "Address")
}
fn au_of(a: &V) -> V {
    V::Int(addr_parts(a).0)
}
fn seqv(v: &V) -> Result<Vec<V>, String> {
    v.as_seq().map(|s| s.to_vec()).ok_or_else(|| "not a sequence".into())
}
/// key/message pairs of a stored buffer, and its pages
fn branch(es: &V, root: &V, kv: &mut BTreeMap<V, V>, pages: &mut BTreeSet<V>, top: bool, d: u32) -> Result<(), String> {
    if d > 8 {
        return Err("a buffer's pages loop".into());
    }
    let n = es.as_map().and_then(|m| m.get(root).cloned()).ok_or_else(|| format!("buffer page {:?} is lost", root))?;
    pages.insert(root.clone());
    match n.variant().as_str() {
        "Leaf" => {
            for (k, m) in seqv(&field(&n, "keys")?)?.into_iter().zip(seqv(&field(&n, "msgs")?)?) {
                kv.insert(k, m);
            }
        }
        "Index" => {
            for ch in seqv(&field(&n, "children")?)? {
                branch(es, &ch, kv, pages, false, d + 1)?;
            }
            if top {
                if let Some(p) = some(&field(&n, "aux_ptr")?) {
                    if !es.as_map().unwrap().contains_key(&p) {
                        return Err(format!("summary page {:?} of a buffer is lost", p));
                    }
                    pages.insert(p);
                }
            }
        }
        x => return Err(format!("a {} page in a buffer", x)),
    }
    Ok(())
}
fn content(es: &V, root: &V) -> Result<(BTreeMap<V, V>, BTreeSet<V>), String> {
    let (mut kv, mut p) = (BTreeMap::new(), BTreeSet::new());
    branch(es, root, &mut kv, &mut p, true, 0)?;
    Ok((kv, p))
}
struct View {
    whole: V,
    root: V,
    bes: V,
}
fn view(s: &V) -> Result<View, String> {
    let whole = fields(s, &["betree", "linked"])?;
    Ok(View {
        root: field(&whole, "root")?,
        bes: fields(&whole, &["buffer_dv", "entries"])?,
        whole,
    })
}
impl View {
    fn with<R>(&self, f: impl FnOnce(&Walk) -> R) -> R {
        let look = |a: &V, k: &V| -> Result<Option<V>, String> { Ok(content(&self.bes, a)?.0.get(k).cloned()) };
        f(&Walk {
            tree: Tree::Alloc,
            linked: Some(&self.whole),
            branch: Some(&look),
        })
    }
}
fn compactors(s: &V) -> Result<Vec<V>, String> {
    seqv(&field(s, "compactors")?)
}
fn input_addrs(x: &V) -> Result<Vec<V>, String> {
    seqv(&fields(x, &["input_buffers", "addrs"])?)
}
fn wips(s: &V) -> Result<Vec<V>, String> {
    seqv(&field(s, "wip_branches")?)
}
/// what the buffer replacing a compaction's inputs must hold: for each key the newest message among
/// the inputs still live for it
fn wanted(bes: &V, x: &V, keys: &[V]) -> Result<BTreeMap<V, V>, String> {
    let ofs = fields(x, &["offset_map", "offsets"])?;
    let mut out = BTreeMap::new();
    for k in keys {
        let from = ofs.as_map().and_then(|m| m.get(k)).map_or(0, int_of).max(0) as usize;
        for a in input_addrs(x)?.iter().skip(from) {
            if let Some(m) = content(bes, a)?.0.get(k) {
                out.insert(k.clone(), m.clone());
            }
        }
    }
    Ok(out)
}
fn wip_content(w: &V) -> Option<BTreeMap<V, V>> {
    let br = some(&w.field("branch")?)?;
    content(&fields(&br, &["disk_view", "entries"]).ok()?, &br.field("root")?).ok().map(|x| x.0)
}
/// units in use: addresses and bare unit numbers
fn used_aus(pre: &V) -> BTreeSet<i128> {
    let mut u = BTreeSet::new();
    collect(pre, &mut |x| {
        if is_addr(x) {
            u.insert(addr_parts(x).0);
        } else if let V::Int(i) = x {
            if *i >= AU0 {
                u.insert(*i);
            }
        }
    });
    u
}
fn free_aus(pre: &V, n: usize) -> Vec<i128> {
    let u = used_aus(pre);
    (AU0..).filter(|a| !u.contains(a)).take(n).collect()
}
/// new pages for a step: one each in fresh units; and choices to be refused
fn tuples(c: &Ctx, pre: &V, skip: usize, n: usize) -> Vec<Vec<V>> {
    let f = free_aus(pre, skip + n);
    let good: Vec<V> = f[skip..].iter().map(|a| crate::h_journal::addr(c, *a, 0)).collect();
    let mut out = vec![good.clone()];
    for i in 1..n {
        let mut t = good.clone();
        t[i] = t[i - 1].clone();
        out.push(t);
        // another page of the same unit
        let mut t = good.clone();
        t[i] = crate::h_journal::addr(c, addr_parts(&good[i - 1]).0, 1);
        out.push(t);
    }
    for a in used_aus(pre) {
        for i in 0..n {
            let mut t = good.clone();
            t[i] = crate::h_journal::addr(c, a, 1);
            out.push(t);
        }
    }
    out
}
fn thin(mut v: Vec<Vec<V>>, n: usize) -> Vec<Vec<V>> {
    if v.len() > n {
        let tail = v.split_off(v.len() - n / 2);
        v.truncate(n / 2);
        v.extend(tail);
    }
    v
}
pub fn install(c: &mut Ctx, b: &Bd) {
    let bb = BBounds {
        pre: &[],
        keys: b.keys,
        puts: b.puts,
        internals: 9,
        crashes: 0,
        height: b.height,
        aus: 1,
        garbage: 0,
        updates: false,
        compact: false,
    };
    crate::h_betree::install(c, Tree::Alloc, &bb);
    c.set_override("spec::AsyncDisk_t::page_count", Rc::new(move |_, _| Ok(Some(V::Int(2)))));
    c.set_override("spec::AsyncDisk_t::au_count", Rc::new(move |_, _| Ok(Some(V::Int(AU0 + 40)))));
    let pre_of = |c: &Ctx| c.cur_pre.clone().ok_or(Ctl::Err("no state".into()));
    let keys = b.keys;
    let hgt = b.height;
    c.dyn_univ.insert(
        sym("QueryReceipt"),
        Rc::new(move |c: &mut Ctx, _| {
            let pre = pre_of(c)?;
            let v = view(&pre).map_err(Ctl::Err)?;
            v.with(|w| receipts_with(c, Tree::Alloc, &v.whole, &v.root, w, keys)).map_err(Ctl::Err)
        }),
    );
    c.dyn_univ.insert(
        sym("SplitAddrs"),
        Rc::new(move |c: &mut Ctx, _| {
            let pre = pre_of(c)?;
            Ok(thin(tuples(c, &pre, 0, 3), 12)
                .into_iter()
                .map(|t| record(c, LM, "SplitAddrs", "SplitAddrs", &[("left", t[0].clone()), ("right", t[1].clone()), ("parent", t[2].clone())]))
                .collect())
        }),
    );
    c.dyn_univ.insert(
        sym("TwoAddrs"),
        Rc::new(move |c: &mut Ctx, _| {
            let pre = pre_of(c)?;
            Ok(thin(tuples(c, &pre, 0, 2), 12)
                .into_iter()
                .map(|t| record(c, LM, "TwoAddrs", "TwoAddrs", &[("addr1", t[0].clone()), ("addr2", t[1].clone())]))
                .collect())
        }),
    );
    c.dyn_univ.insert(
        sym("PathAddrs"),
        Rc::new(move |c: &mut Ctx, _| {
            let pre = pre_of(c)?;
            let mut out = vec![V::seq(vec![])];
            for n in 1..hgt {
                for t in thin(tuples(c, &pre, 3, n), 8) {
                    out.push(V::seq(t));
                }
                out.push(V::seq(tuples(c, &pre, 0, n)[0].clone()));
            }
            Ok(out)
        }),
    );
    c.dyn_univ.insert(
        sym("Address"),
        Rc::new(move |c: &mut Ctx, _| {
            let pre = pre_of(c)?;
            Ok(tuples(c, &pre, 0, 1).into_iter().map(|mut t| t.remove(0)).collect())
        }),
    );
    // steps of building a buffer: with the contents someone waits for, and some that nobody does
    c.dyn_univ.insert(
        sym("BuildEvent"),
        Rc::new(move |c: &mut Ctx, _| {
            let pre = pre_of(c)?;
            build_events(c, &pre, keys).map_err(Ctl::Err)
        }),
    );
    let base = c.enum_hook.clone();
    c.enum_hook = Some(Rc::new(move |c: &mut Ctx, ty: &Ty, fr: Fr, hint: Sym| {
        let Ty::Named(n, args) = ty else { return Ok(None) };
        let last = name(*n.last().unwrap());
        let last = &*last;
        if last == "Set" && args.len() == 1 && ty_str(&args[0]).ends_with("AU") || last == "Summary" {
            let Some(pre) = c.cur_pre.clone() else { return Ok(None) };
            let f: Vec<V> = free_aus(&pre, 3 + hgt).into_iter().map(V::Int).collect();
            let mut out: Vec<V> = (0..=f.len()).map(|n| V::set(f[..n].to_vec())).collect();
            for a in used_aus(&pre) {
                out.push(V::set(vec![V::Int(a)]));
                out.push(V::set(vec![V::Int(a), f[0].clone()]));
            }
            return Ok(Some(out));
        }
        if last == "Map" && args.len() == 2 && ty_str(&args[0]).ends_with("Address") {
            let t = ty_str(&args[1]);
            let is_buf = !t.contains("BetreeNode");
            if is_buf {
                // buffers kept: all, or all but the units of some roots
                let Some(pre) = c.cur_pre.clone() else { return Ok(None) };
                let v = view(&pre).map_err(Ctl::Err)?;
                let base = v.bes.as_map().unwrap().clone();
                let mut disks = vec![base.clone()];
                for w in wips(&pre).map_err(Ctl::Err)? {
                    if let Some(br) = w.field("branch").and_then(|b| some(&b)) {
                        let mut d = (*base).clone();
                        for (a, n) in fields(&br, &["disk_view", "entries"]).map_err(Ctl::Err)?.as_map().unwrap().iter() {
                            d.insert(a.clone(), n.clone());
                        }
                        disks.push(Rc::new(d));
                    }
                }
                let mut out = vec![];
                for m in disks {
                    let aus: Vec<V> = m.keys().map(au_of).collect::<BTreeSet<_>>().into_iter().collect();
                    for mask in 0u32..1 << aus.len().min(6) {
                        if mask.count_ones() > 3 {
                            continue;
                        }
                        let gone: BTreeSet<&V> = aus.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| x.1).collect();
                        out.push(V::map(m.iter().filter(|(a, _)| !gone.contains(&au_of(a))).map(|(a, b)| (a.clone(), b.clone()))));
                    }
                }
                out.sort();
                out.dedup();
                return Ok(Some(out));
            }
        }
        match &base {
            Some(f) => f(c, ty, fr, hint),
            None => Ok(None),
        }
    }));
}
fn build_events(c: &Ctx, pre: &V, keys: i128) -> Result<Vec<V>, String> {
    let ks: Vec<V> = (0..keys).map(|k| key(c, k)).collect();
    let v = view(pre)?;
    let mut wants: Vec<BTreeMap<V, V>> = vec![];
    let mem = fields(pre, &["betree", "memtable", "buffer", "map"])?;
    wants.push(mem.as_map().ok_or("memtable")?.iter().map(|(a, b)| (a.clone(), b.clone())).collect());
    for x in compactors(pre)? {
        wants.push(wanted(&v.bes, &x, &ks)?);
    }
    let mut all: BTreeSet<BTreeMap<V, V>> = BTreeSet::new();
    for w in &wants {
        // each key as wanted, missing, or holding something else
        let mut part = vec![BTreeMap::new()];
        for k in &ks {
            let mut next = vec![];
            for p in part {
                for m in [w.get(k).cloned(), None, Some(define(c, 7))].into_iter().flatten() {
                    let mut x: BTreeMap<V, V> = p.clone();
                    x.insert(k.clone(), m);
                    next.push(x);
                }
                next.push(p);
            }
            part = next;
        }
        all.extend(part);
    }
    let mut out = vec![];
    for w in wips(pre)? {
        let mut addrs = vec![];
        if let Some(m) = fields(&w, &["mini_allocator", "allocs"])?.as_map() {
            for au in m.keys() {
                for p in 0..2 {
                    addrs.push(crate::h_journal::addr(c, int_of(au), p));
                }
            }
        }
        if some(&field(&w, "branch")?).is_none() {
            addrs.push(crate::h_journal::addr(c, free_aus(pre, 1)[0], 0));
            for a in &addrs {
                for kv in &all {
                    out.push(record(
                        c,
                        AM,
                        "BuildEvent",
                        "Initialize",
                        &[("addr", a.clone()), ("keys", V::seq(kv.keys().cloned().collect())), ("msgs", V::seq(kv.values().cloned().collect()))],
                    ));
                }
            }
        }
    }
    out.push(record(c, AM, "BuildEvent", "AllocFill", &[]));
    let find = |n: &str| c.p.types.iter().flat_map(|t| t.ctors.iter()).find(|k| &*name(k.name) == n).cloned().ok_or(format!("{} not found", n));
    let (none, some_) = (find("None")?, find("Some")?);
    let mut ptrs = vec![V::data(&none, vec![])];
    for w in wips(pre)? {
        if let Some(m) = fields(&w, &["mini_allocator", "allocs"])?.as_map() {
            for au in m.keys() {
                for p in 0..2 {
                    ptrs.push(V::data(&some_, vec![crate::h_journal::addr(c, int_of(au), p)]));
                }
            }
        }
    }
    for p in ptrs {
        out.push(record(c, AM, "BuildEvent", "Seal", &[("aux_ptr", p)]));
    }
    Ok(out)
}

impl BbModel {
    fn note(&mut self, s: &str) {
        *self.outcomes.entry(s.to_string()).or_insert(0) += 1;
    }
    fn client(&self, c: &Ctx, var: &str, f: Vec<V>) -> V {
        let mid = c.p.find_machine(LM, "LinkedBetreeVars").expect("LinkedBetreeVars");
        let l = lab(c, mid, var, f);
        lab(c, self.mid, "Label", vec![l])
    }
    fn unknown(&self, c: &mut Ctx, t: Ty) -> V {
        let m = &c.p.machines[self.mid];
        let (sc, st) = (m.scope, m.state_ty);
        c.fresh(t, Fr { scope: sc, self_ty: Some(st) }, sym("x"))
    }
    fn internal(&self, c: &mut Ctx) -> V {
        let t = || Ty::Named(vec![sym("Set")], vec![Ty::Named(vec![sym("AU")], vec![])]);
        let (a, d) = (self.unknown(c, t()), self.unknown(c, t()));
        lab(c, self.mid, "Internal", vec![a, d])
    }
    fn put(&self, c: &Ctx, lsn: i128, k: i128) -> V {
        let km = record(c, "abstract_system::MsgHistory_v", "KeyedMessage", "KeyedMessage", &[("key", key(c, k)), ("message", define(c, lsn + 1))]);
        let h = record(
            c,
            "abstract_system::MsgHistory_v",
            "MsgHistory",
            "MsgHistory",
            &[("msgs", V::map(vec![(V::Int(lsn), km)])), ("seq_start", V::Int(lsn)), ("seq_end", V::Int(lsn + 1))],
        );
        self.client(c, "Put", vec![h])
    }
    /// units every part of the state stands on, by an own walk
    fn standing(&self, s: &V) -> Result<BTreeSet<V>, String> {
        let v = view(s)?;
        let (mut t, mut b) = Default::default();
        v.with(|w| w.references(&v.root, &mut t, &mut b))?;
        let mut out: BTreeSet<V> = t.keys().map(au_of).collect();
        let mut roots: BTreeSet<V> = b.keys().cloned().collect();
        for x in compactors(s)? {
            roots.extend(input_addrs(&x)?);
        }
        for r in roots {
            out.extend(content(&v.bes, &r)?.1.iter().map(au_of));
        }
        for w in wips(s)? {
            out.extend(fields(&w, &["mini_allocator", "allocs"])?.as_map().ok_or("allocs")?.keys().cloned());
        }
        Ok(out)
    }
    fn counts(&self, s: &V) -> Result<Result<(), String>, String> {
        let v = view(s)?;
        let (mut t, mut b) = Default::default();
        if let Err(e) = v.with(|w| w.references(&v.root, &mut t, &mut b)) {
            return Ok(Err(e));
        }
        for (f, want) in [("betree_aus", &t), ("branch_aus", &b)] {
            let V::MSet(have) = field(s, f)? else { return Err(format!("{} is not a multiset", f)) };
            let mut exp: BTreeMap<V, u64> = BTreeMap::new();
            for (a, n) in want {
                *exp.entry(au_of(a)).or_insert(0) += n;
            }
            let have: BTreeMap<V, u64> = have.iter().filter(|(_, n)| **n > 0).map(|(a, n)| (a.clone(), *n as u64)).collect();
            if have != exp {
                return Ok(Err(format!("reference counts {} are {:?}, actual references {:?}", f, have, exp)));
            }
        }
        Ok(Ok(()))
    }
    /// memtable empty, height, root's children, root's buffers, buffers below, wip, compactors
    fn shape(&self, s: &V) -> Result<[usize; 7], String> {
        let v = view(s)?;
        let mem = fields(s, &["betree", "memtable", "buffer", "map"])?.as_map().ok_or("memtable")?.len();
        v.with(|w| {
            let (mut ch, mut own, mut below) = (0, 0, 0);
            if let Some(n) = w.node(&v.root)? {
                let cs = w.children(&n)?;
                (ch, own) = (cs.len(), w.buffer_addrs(&n)?.len());
                for x in cs {
                    if let Some(n) = w.node(&x)? {
                        below += w.buffer_addrs(&n)?.len();
                    }
                }
            }
            Ok([mem, w.height(&v.root)?, ch, own, below, wips(s)?.len(), compactors(s)?.len()])
        })
    }
    fn mem(&self, s: &V) -> Result<BTreeMap<V, V>, String> {
        Ok(fields(s, &["betree", "memtable", "buffer", "map"])?.as_map().ok_or("memtable")?.iter().map(|(a, b)| (a.clone(), b.clone())).collect())
    }
    fn run(&mut self, c: &mut Ctx, states: &[(V, V)], lbl: impl Fn(&BbModel, &mut Ctx, &Mon) -> V, fits: impl Fn(&BbModel, &V, &V) -> bool) -> ER<Vec<(V, V)>> {
        let mut next = vec![];
        let mut seen = BTreeSet::new();
        for (s, mon) in states {
            let m0 = c.mark();
            let l = lbl(self, c, &Mon::from(mon));
            for (lb, post, path) in self.successors(c, self.mid, s, Some(l))? {
                match self.observe(c, s, &lb, &post, &path, mon)? {
                    Obs::Bad(e) => {
                        self.pre_bad = Some(format!("{} (on the approach {:?}; {:?}: {:?} => {:?})", e, self.b.pre, lb, s, post));
                        return Ok(vec![]);
                    }
                    Obs::Go(m2) => {
                        if fits(self, s, &post) {
                            let mut m2 = Mon::from(&m2);
                            m2.steps = 0;
                            let m2 = m2.v();
                            let k = self.canon(&post, &m2).unwrap();
                            if seen.insert((fp(&k.0), fp(&k.1))) {
                                next.push((post, m2));
                            }
                        }
                    }
                    _ => {}
                }
            }
            c.undo(m0);
        }
        Ok(next)
    }
}
impl Model for BbModel {
    fn canon(&self, s: &V, mon: &V) -> Option<(V, V)> {
        let v = view(s).ok()?;
        let es = fields(&v.whole, &["dv", "entries"]).ok()?;
        let mut starts: Vec<V> = some(&v.root).into_iter().collect();
        for x in compactors(s).ok()? {
            starts.extend(input_addrs(&x).ok()?);
        }
        let mut m = canon_addrs(s, &starts, &|a| {
            let mut o = vec![];
            if let Some(n) = es.as_map().and_then(|m| m.get(a)) {
                collect(n, &mut |x| {
                    if is_addr(x) {
                        o.push(x.clone());
                    }
                });
            }
            o
        });
        // units known only by their number
        let mut n = m.keys().filter(|k| matches!(k, V::Int(_))).count() as i128;
        for au in used_aus(s) {
            if !m.contains_key(&V::Int(au)) {
                m.insert(V::Int(au), V::Int(AU0 + n));
                n += 1;
            }
        }
        Some((rename(s, &m), rename(mon, &m)))
    }
    fn initial(&mut self, c: &mut Ctx) -> ER<Vec<(V, V)>> {
        let f = c.p.find_fn(&format!("{}::empty_image", LM)).ok_or(Ctl::Err("empty_image not found".into()))?;
        let img = c.call_fn(f, vec![])?;
        let t = c.p.find_type("betree::Memtable_v", "Memtable").expect("Memtable");
        let mem = c.call_static(t, "empty_memtable", vec![img.field("seq_end").unwrap()])?;
        let lm = c.p.find_machine(LM, "LinkedBetreeVars").unwrap();
        let k = c.p.types[c.p.machines[lm].state_ty].ctors[0].clone();
        let f = k.fields.iter().map(|f| if &*name(*f) == "memtable" { mem.clone() } else { img.field("value").unwrap() }).collect();
        let arg = V::data(&k, f);
        let m = c.p.machines[self.mid].clone();
        let sty = c.p.types[m.state_ty].name;
        c.cur_pre = None;
        let mk = c.mark();
        let post = c.fresh(Ty::Named(vec![sty], vec![]), Fr { scope: m.scope, self_ty: Some(m.state_ty) }, sym("post"));
        let r = c.solve_all(vec![G::Init(self.mid, post.clone(), Some(V::tup(vec![V::Str("initialize".into()), arg])))], &[post]);
        c.undo(mk);
        let mon = Mon {
            map: BTreeMap::new(),
            lsn: 0,
            steps: 0,
            held: BTreeSet::new(),
        };
        let mut states: Vec<(V, V)> = r?.into_iter().map(|mut v| (v.remove(0), mon.v())).collect();
        for step in self.b.pre {
            let sh = |m: &BbModel, s: &V| m.shape(s).unwrap_or([0; 7]);
            let int = |m: &BbModel, c: &mut Ctx, _: &Mon| m.internal(c);
            // a new buffer is begun on one unit, filled with what is wanted, sealed
            let begun = |m: &BbModel, a: &V, b: &V| sh(m, b)[5] == sh(m, a)[5] + 1 && wips(b).unwrap().last().unwrap().field("mini_allocator").unwrap().field("allocs").unwrap().as_map().map_or(0, |x| x.len()) == 1;
            let sealed = |_: &BbModel, a: &V, b: &V| {
                let n = |s: &V| wips(s).unwrap().iter().filter(|w| w.field("sealed") == Some(V::Bool(true))).count();
                n(b) == n(a) + 1
            };
            states = match step {
                Ap::Put(k) => self.run(c, &states, |m, c, mon| m.put(c, mon.lsn, *k), |_, _, _| true)?,
                Ap::Mem => {
                    let x = self.run(c, &states, int, begun)?;
                    let x = self.run(c, &x, int, |m, _, b| wips(b).unwrap().last().map_or(false, |w| wip_content(w) == m.mem(b).ok()))?;
                    let x = self.run(c, &x, int, sealed)?;
                    self.run(c, &x, int, |m, a, b| sh(m, a)[0] > 0 && sh(m, b)[0] == 0)?
                }
                Ap::Build | Ap::BuildAny => {
                    let x = self.run(c, &states, int, begun)?;
                    let any = *step == Ap::BuildAny;
                    let x = self.run(c, &x, int, |_, _, b| {
                        let v = view(b).unwrap();
                        let cs = compactors(b).unwrap();
                        let keys: BTreeSet<V> = cs
                            .iter()
                            .flat_map(|x| input_addrs(x).unwrap())
                            .flat_map(|a| content(&v.bes, &a).map(|x| x.0.into_keys().collect::<Vec<_>>()).unwrap_or_default())
                            .collect();
                        let keys: Vec<V> = keys.into_iter().collect();
                        wips(b).unwrap().last().map_or(false, |w| {
                            let have = wip_content(w);
                            have.is_some() && (any || have == cs.last().and_then(|x| wanted(&v.bes, x, &keys).ok()))
                        })
                    })?;
                    self.run(c, &x, int, sealed)?
                }
                Ap::Begin => self.run(c, &states, int, |m, a, b| sh(m, b)[6] == sh(m, a)[6] + 1)?,
                Ap::Grow => self.run(c, &states, int, |m, a, b| sh(m, b)[1] == sh(m, a)[1] + 1)?,
                Ap::Down | Ap::DownGc => self.run(c, &states, int, |m, a, b| {
                    let (a, b) = (sh(m, a), sh(m, b));
                    a[0..3] == b[0..3] && a[4] < b[4] && if *step == Ap::Down { a[3] == b[3] } else { a[3] > b[3] }
                })?,
                Ap::Split => self.run(c, &states, int, |m, a, b| sh(m, b)[1] == sh(m, a)[1] && sh(m, b)[2] > sh(m, a)[2])?,
            };
            if self.pre_bad.is_some() {
                return Ok(vec![(V::Undef, mon.v())]);
            }
            if states.is_empty() {
                self.pre_bad = Some(format!("step {:?} of the approach {:?} is not possible", step, self.b.pre));
                return Ok(vec![(V::Undef, mon.v())]);
            }
        }
        Ok(states)
    }
    fn labels(&mut self, c: &mut Ctx, _s: &V, mon: &V) -> ER<Vec<Option<V>>> {
        let m = Mon::from(mon);
        let mut out = vec![];
        if m.lsn < self.b.puts {
            for k in 0..self.b.keys {
                out.push(Some(self.put(c, m.lsn, k)));
            }
        }
        if m.steps < self.b.steps {
            out.push(Some(self.internal(c)));
        }
        Ok(out)
    }
    fn successors(&mut self, c: &mut Ctx, mid: usize, s: &V, l: Option<V>) -> ER<Vec<(V, V, Path)>> {
        c.successors(mid, s, l)
    }
    fn state_ok(&mut self, c: &mut Ctx, s: &V, mon: &V) -> ER<Result<(), String>> {
        if let Some(e) = &self.pre_bad {
            return Ok(Err(e.clone()));
        }
        let m = Mon::from(mon);
        match self.counts(s).map_err(Ctl::Err)? {
            Ok(()) => {}
            Err(e) => return Ok(Err(e)),
        }
        let m0 = c.mark();
        for k in 0..self.b.keys {
            let (e, v) = (self.unknown(c, Ty::Named(vec![sym("LSN")], vec![])), self.unknown(c, Ty::Named(vec![sym("Value")], vec![])));
            let kv = key(c, k);
            let l = self.client(c, "Query", vec![e, kv, v]);
            let rs = c.successors(self.mid, s, Some(l))?;
            if rs.is_empty() {
                return Ok(Err(format!("key {} cannot be queried", k)));
            }
            let want = m.map.get(&k).copied().unwrap_or(0);
            for (lb, t, _) in rs {
                let l = lb.field("linked_lbl").unwrap();
                let (e, v) = (int_of(&l.field("end_lsn").unwrap()), l.field("value").and_then(|v| v.as_data().map(|d| int_of(&d.f[0]))));
                if v != Some(want) || e != m.lsn {
                    return Ok(Err(format!("query of key {} answers {:?} at {}, last put wrote {} and the history ends at {}", k, v, e, want, m.lsn)));
                }
                if t != *s {
                    return Ok(Err("a query changes the state".into()));
                }
                self.note("query answered");
            }
        }
        c.undo(m0);
        Ok(Ok(()))
    }
    fn observe(&mut self, c: &mut Ctx, pre: &V, lbl: &V, post: &V, _p: &Path, mon: &V) -> ER<Obs> {
        let mut m = Mon::from(mon);
        if let Some(l) = lbl.field("linked_lbl") {
            let p = l.field("puts").ok_or(Ctl::Err("unexpected label".into()))?;
            for x in p.field("msgs").unwrap().as_map().unwrap().values() {
                let k = x.field("key").unwrap().as_data().map(|d| int_of(&d.f[0])).unwrap();
                if let Some(v) = defined(&x.field("message").unwrap()).map_err(Ctl::Err)? {
                    m.map.insert(k, v);
                }
            }
            m.lsn += 1;
            self.note("put");
            return Ok(Obs::Go(m.v()));
        }
        if pre == post {
            return Ok(Obs::Prune);
        }
        let set = |f: &str| -> BTreeSet<V> { lbl.field(f).and_then(|s| s.as_set().map(|s| s.iter().cloned().collect())).unwrap_or_default() };
        let (al, de) = (set("allocs"), set("deallocs"));
        if let Some(a) = al.iter().find(|a| m.held.contains(a)) {
            return Ok(Obs::Bad(format!("unit {:?} is taken although it is in use", a)));
        }
        if let Some(a) = de.iter().find(|a| !m.held.contains(a)) {
            return Ok(Obs::Bad(format!("unit {:?} is given back although it is not held", a)));
        }
        m.held.extend(al);
        m.held.retain(|a| !de.contains(a));
        let used = match self.standing(post) {
            Ok(u) => u,
            Err(e) => return Ok(Obs::Bad(e)),
        };
        if let Some(a) = used.iter().find(|a| !m.held.contains(a)) {
            return Ok(Obs::Bad(format!("unit {:?} is given back while pages on it are still needed", a)));
        }
        if let Some(a) = m.held.iter().find(|a| !used.contains(a)) {
            return Ok(Obs::Bad(format!("unit {:?} is lost: nothing needs it and it was not given back", a)));
        }
        let e = (|| -> Result<(Option<String>, [usize; 7], [usize; 7]), String> {
            let (a, b) = (view(pre)?, view(post)?);
            for x in compactors(post)? {
                for r in input_addrs(&x)? {
                    if content(&a.bes, &r)? != content(&b.bes, &r)? {
                        return Ok((Some(format!("buffer {:?} changes while it is being compacted", r)), [0; 7], [0; 7]));
                    }
                }
            }
            Ok((None, self.shape(pre)?, self.shape(post)?))
        })();
        let (a, b) = match e {
            Ok((Some(e), ..)) | Err(e) => return Ok(Obs::Bad(e)),
            Ok((None, a, b)) => (a, b),
        };
        m.steps += 1;
        if let Ok(Err(e)) = self.state_ok(c, post, &m.v()) {
            return Ok(Obs::Bad(e));
        }
        if b[6] > a[6] {
            self.note("compaction begun");
        } else if b[6] < a[6] && b[5] < a[5] {
            self.note("compaction completed");
            if b[3] + b[4] + 1 < a[3] + a[4] + 1 {
                self.note("several buffers compacted into one");
            }
        } else if b[6] < a[6] {
            self.note("compaction abandoned");
        } else if b[5] > a[5] {
            self.note("buffer begun");
        } else if b[5] < a[5] && a[0] > 0 && b[0] == 0 {
            self.note("memtable flushed");
        } else if b[5] < a[5] {
            self.note("buffer abandoned");
        } else if b[1] > a[1] {
            self.note("tree grown");
        } else if b[2] > a[2] && a[1] == b[1] && a[1] > 0 {
            self.note("child split");
        } else if b[4] > a[4] {
            self.note("flush to a child");
        }
        let gone = |s: &V| -> usize {
            let read: BTreeSet<V> = compactors(s).unwrap().iter().flat_map(|x| input_addrs(x).unwrap()).collect();
            let (mut t, mut bb) = Default::default();
            let v = view(s).unwrap();
            let _ = v.with(|w| w.references(&v.root, &mut t, &mut bb));
            read.iter().filter(|r| !bb.contains_key(*r)).count()
        };
        if gone(post) > gone(pre) {
            self.note("buffer dropped by the tree while it is being compacted");
        } else if gone(post) < gone(pre) {
            self.note("unit freed with the last reader");
        }
        let odd = wips(post)
            .map_err(Ctl::Err)?
            .iter()
            .any(|w| w.field("mini_allocator").and_then(|x| x.field("allocs")).and_then(|x| x.as_map().map(|m| m.is_empty() || m.len() > 2)).unwrap_or(false));
        if odd || b[1] > self.b.height || b[5] > self.b.wip || b[6] > self.b.compactors {
            return Ok(Obs::Prune);
        }
        Ok(Obs::Go(m.v()))
    }
}
