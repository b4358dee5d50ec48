//! B-epsilon-tree layers: from the node-per-key tree to the tree of disk pages with its reference
//! counts, against a plain map. The walk over the tree below is independent of the source's own.
use crate::ast::Ty;
use crate::eval::*;
use crate::explore::*;
use crate::h_system::{collect, data, int_of};
use crate::solve::*;
use crate::value::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tree {
    Paged,
    Pivot,
    Filtered,
    Likes,
    Alloc,
}
impl Tree {
    pub fn linked(self) -> bool {
        matches!(self, Tree::Likes | Tree::Alloc)
    }
    /// module with the node, path and receipt types
    fn module(self) -> &'static str {
        match self {
            Tree::Paged => "betree::PagedBetree_v",
            Tree::Pivot => "betree::PivotBetree_v",
            Tree::Filtered => "betree::FilteredBetree_v",
            _ => "betree::LinkedBetree_v",
        }
    }
    pub fn machine(self) -> (&'static str, &'static str) {
        match self {
            Tree::Paged => ("betree::PagedBetree_v", "PagedBetree"),
            Tree::Pivot => ("betree::PivotBetree_v", "PivotBetree"),
            Tree::Filtered => ("betree::FilteredBetree_v", "FilteredBetree"),
            Tree::Likes => ("allocation_layer::LikesBetree_v", "LikesBetree"),
            Tree::Alloc => ("allocation_layer::AllocationBetree_v", "AllocationBetree"),
        }
    }
}
/// one step of a scripted approach to the region explored
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pre {
    Put(i128),
    /// memtable to the root
    Mem,
    Grow,
    /// root to a child, keeping / dropping the root's copy
    Down,
    DownGc,
    Split,
}
#[derive(Clone, Debug)]
pub struct BBounds {
    pub pre: &'static [Pre],
    pub keys: i128,
    pub puts: i128,
    pub internals: i128,
    pub crashes: i128,
    pub height: usize,
    pub aus: i128,
    pub garbage: usize,
    pub updates: bool,
    /// explore compaction
    pub compact: bool,
}
pub fn field(v: &V, f: &str) -> Result<V, String> {
    v.field(f).ok_or_else(|| format!("no field {} (has the type changed shape?)", f))
}
pub fn fields(v: &V, fs: &[&str]) -> Result<V, String> {
    let mut v = v.clone();
    for f in fs {
        v = field(&v, f)?;
    }
    Ok(v)
}
/// build a record by field names
pub fn record(c: &Ctx, module: &str, ty: &str, var: &str, fs: &[(&str, V)]) -> V {
    let t = c.p.find_type(module, ty).unwrap_or_else(|| panic!("type {}::{} not found", module, ty));
    let k = c.p.types[t].ctors.iter().find(|k| &*name(k.name) == var).unwrap_or_else(|| panic!("{}::{}::{} not found", module, ty, var)).clone();
    let f = k.fields.iter().map(|n| fs.iter().find(|(m, _)| *m == &*name(*n)).map(|(_, v)| v.clone()).unwrap_or_else(|| panic!("{} has a new field {}", ty, name(*n)))).collect();
    V::data(&k, f)
}
pub fn key(c: &Ctx, k: i128) -> V {
    data(c, "spec::KeyType_t", "Key", "Key", vec![V::Int(k)])
}
pub fn define(c: &Ctx, v: i128) -> V {
    let val = data(c, "spec::Messages_t", "Value", "Value", vec![V::Int(v)]);
    data(c, "spec::Messages_t", "Message", "Define", vec![val])
}
pub fn update(c: &Ctx, d: i128) -> V {
    let val = data(c, "spec::Messages_t", "Delta", "Delta", vec![V::Int(d)]);
    data(c, "spec::Messages_t", "Message", "Update", vec![val])
}
fn num(v: &V) -> Result<i128, String> {
    match v {
        V::Int(i) => Ok(*i),
        V::Data(d) if d.f.len() == 1 => num(&d.f[0]),
        _ => Err(format!("not a number: {:?}", v)),
    }
}
/// the value a message defines
pub fn defined(m: &V) -> Result<Option<i128>, String> {
    Ok(match m.variant().as_str() {
        "Define" => Some(num(&field(m, "value")?)?),
        "Update" => None,
        _ => return Err("unknown kind of message".into()),
    })
}
fn seqv(v: &V) -> Result<Vec<V>, String> {
    v.as_seq().map(|s| s.to_vec()).ok_or_else(|| "not a sequence".into())
}
fn elem(v: &V) -> Result<Option<i128>, String> {
    Ok(match v.variant().as_str() {
        "Max" => None,
        "Elem" => Some(num(v)?),
        x => return Err(format!("unknown kind of element {}", x)),
    })
}
pub fn some(v: &V) -> Option<V> {
    match v.variant().as_str() {
        "Some" => v.as_data().map(|d| d.f[0].clone()),
        _ => None,
    }
}
fn buffer_at(buf: &V, k: &V) -> Result<Option<V>, String> {
    Ok(field(buf, "map")?.as_map().ok_or("buffer is not a map")?.get(k).cloned())
}
/// where a walk is: a node value, or a pointer into the disk of `root`
pub struct Walk<'a> {
    pub tree: Tree,
    /// the linked tree (for its disks), if linked
    pub linked: Option<&'a V>,
    /// own resolution of what a buffer address says about a key (None: plain buffers)
    pub branch: Option<&'a dyn Fn(&V, &V) -> Result<Option<V>, String>>,
}
impl<'a> Walk<'a> {
    pub fn node(&self, at: &V) -> Result<Option<V>, String> {
        if self.tree.linked() {
            match some(at) {
                None => Ok(None),
                Some(a) => {
                    let es = fields(self.linked.unwrap(), &["dv", "entries"])?;
                    es.as_map().unwrap().get(&a).cloned().map(Some).ok_or_else(|| format!("tree page {:?} is lost", a))
                }
            }
        } else {
            Ok(if at.variant() == "Node" { Some(at.clone()) } else { None })
        }
    }
    pub fn buffer_addrs(&self, n: &V) -> Result<Vec<V>, String> {
        seqv(&fields(n, &["buffers", "addrs"])?)
    }
    fn child_index(&self, n: &V, k: &V) -> Result<usize, String> {
        let ps = seqv(&fields(n, &["pivots", "pivots"])?)?;
        let kk = num(k)?;
        let (mut found, mut cnt) = (0, 0);
        for i in 0..ps.len().saturating_sub(1) {
            let lo = elem(&ps[i])?.ok_or("pivot list starts a range at the maximum")?;
            let hi = elem(&ps[i + 1])?;
            if lo <= kk && hi.map_or(true, |h| kk < h) {
                found = i;
                cnt += 1;
            }
        }
        if cnt != 1 {
            return Err(format!("key {} belongs to {} child ranges of a node", kk, cnt));
        }
        Ok(found)
    }
    pub fn children(&self, n: &V) -> Result<Vec<V>, String> {
        if self.tree == Tree::Paged {
            Ok(fields(n, &["children", "map"])?.as_map().ok_or("children")?.values().cloned().collect())
        } else {
            seqv(&field(n, "children")?)
        }
    }
    /// the child for a key and what this node itself says about the key
    pub fn step(&self, n: &V, k: &V) -> Result<(V, Option<i128>), String> {
        let (child, msgs): (V, Vec<V>) = match self.tree {
            Tree::Paged => {
                let ch = fields(n, &["children", "map"])?.as_map().ok_or("children")?.get(k).cloned().ok_or("a key has no child")?;
                (ch, buffer_at(&field(n, "buffer")?, k)?.into_iter().collect())
            }
            Tree::Pivot => {
                let i = self.child_index(n, k)?;
                let ch = self.children(n)?.get(i).cloned().ok_or("more ranges than children")?;
                (ch, buffer_at(&field(n, "buffer")?, k)?.into_iter().collect())
            }
            _ => {
                let i = self.child_index(n, k)?;
                let ch = self.children(n)?.get(i).cloned().ok_or("more ranges than children")?;
                let ofs = seqv(&fields(n, &["flushed", "offsets"])?)?;
                let from = int_of(ofs.get(i).ok_or("no flush offset for a child")?) as usize;
                let mut ms = vec![];
                if self.tree == Tree::Filtered {
                    let bs = seqv(&fields(n, &["buffers", "buffers"])?)?;
                    for b in bs.iter().skip(from) {
                        ms.extend(buffer_at(b, k)?);
                    }
                } else {
                    let bd = fields(self.linked.unwrap(), &["buffer_dv", "entries"])?;
                    for a in self.buffer_addrs(n)?.iter().skip(from) {
                        match &self.branch {
                            Some(f) => ms.extend(f(a, k)?),
                            None => {
                                let b = bd.as_map().unwrap().get(a).cloned().ok_or_else(|| format!("buffer {:?} is lost", a))?;
                                ms.extend(buffer_at(&b, k)?);
                            }
                        }
                    }
                }
                (ch, ms)
            }
        };
        let mut r = None;
        for m in &msgs {
            if let Some(v) = defined(m)? {
                r = Some(v);
            }
        }
        Ok((child, r))
    }
    /// nodes from `at` down to the missing child, with the answer at each line
    pub fn chain(&self, at: &V, k: &V) -> Result<(Vec<V>, Vec<i128>), String> {
        let mut nodes = vec![at.clone()];
        let mut own = vec![];
        let mut cur = at.clone();
        while let Some(n) = self.node(&cur)? {
            let (ch, m) = self.step(&n, k)?;
            own.push(m);
            nodes.push(ch.clone());
            cur = ch;
            if nodes.len() > 40 {
                return Err("the tree loops".into());
            }
        }
        let mut res = vec![0];
        for m in own.iter().rev() {
            let below = *res.last().unwrap();
            res.push(m.unwrap_or(below));
        }
        res.reverse();
        Ok((nodes, res))
    }
    pub fn height(&self, at: &V) -> Result<usize, String> {
        self.height_(at, 0)
    }
    fn height_(&self, at: &V, d: usize) -> Result<usize, String> {
        if d > 20 {
            return Err("the tree loops".into());
        }
        match self.node(at)? {
            None => Ok(0),
            Some(n) => {
                let mut h = 0;
                for ch in self.children(&n)? {
                    h = h.max(self.height_(&ch, d + 1)?);
                }
                Ok(h + 1)
            }
        }
    }
    /// references to every page: (tree pages, buffers), counted along every path from the root
    pub fn references(&self, at: &V, t: &mut BTreeMap<V, u64>, b: &mut BTreeMap<V, u64>) -> Result<(), String> {
        if let Some(a) = some(at) {
            *t.entry(a).or_insert(0) += 1;
            let n = self.node(at)?.unwrap();
            for x in self.buffer_addrs(&n)? {
                *b.entry(x).or_insert(0) += 1;
            }
            for ch in self.children(&n)? {
                self.references(&ch, t, b)?;
            }
        }
        Ok(())
    }
}

pub struct BModel {
    /// what went wrong before the explored region was reached
    pub pre_bad: Option<String>,
    pub mid: usize,
    pub tree: Tree,
    pub b: BBounds,
    pub outcomes: BTreeMap<String, u64>,
}
/// model state: map key -> value, end of the history, frozen image, its map and end,
/// [internal steps, crashes, recovered just now, frozen already]
#[derive(Clone)]
struct Mon {
    map: BTreeMap<i128, i128>,
    lsn: i128,
    img: V,
    imap: BTreeMap<i128, i128>,
    ilsn: i128,
    ct: [i128; 4],
}
fn mv(m: &BTreeMap<i128, i128>) -> V {
    V::map(m.iter().map(|(a, b)| (V::Int(*a), V::Int(*b))))
}
fn vm(v: &V) -> BTreeMap<i128, i128> {
    v.as_map().unwrap().iter().map(|(a, b)| (int_of(a), int_of(b))).collect()
}
impl Mon {
    fn to_v(&self) -> V {
        V::tup(vec![mv(&self.map), V::Int(self.lsn), self.img.clone(), mv(&self.imap), V::Int(self.ilsn), V::seq(self.ct.iter().map(|x| V::Int(*x)).collect())])
    }
    fn from_v(v: &V) -> Mon {
        let V::Tup(t) = v else { panic!() };
        let V::Seq(c) = &t[5] else { panic!() };
        Mon { map: vm(&t[0]), lsn: int_of(&t[1]), img: t[2].clone(), imap: vm(&t[3]), ilsn: int_of(&t[4]), ct: [int_of(&c[0]), int_of(&c[1]), int_of(&c[2]), int_of(&c[3])] }
    }
    fn get(&self, k: i128) -> i128 {
        self.map.get(&k).copied().unwrap_or(0)
    }
}
fn inner(tree: Tree, s: &V) -> Result<V, String> {
    if tree.linked() {
        field(s, "betree")
    } else {
        Ok(s.clone())
    }
}
/// (whole tree value, where to start walking)
fn root_of(tree: Tree, s: &V) -> Result<(V, V), String> {
    let i = inner(tree, s)?;
    if tree.linked() {
        let l = field(&i, "linked")?;
        let r = field(&l, "root")?;
        Ok((l, r))
    } else {
        let r = field(&i, "root")?;
        Ok((r.clone(), r))
    }
}
fn walk(tree: Tree, whole: &V) -> Walk<'_> {
    Walk { tree, linked: if tree.linked() { Some(whole) } else { None }, branch: None }
}
fn is_addr(v: &V) -> bool {
    v.as_data().map_or(false, |d| &*name(d.ctor.name) == "Address")
}
pub fn addr_parts(v: &V) -> (i128, i128) {
    (int_of(&v.field("au").unwrap()), int_of(&v.field("page").unwrap()))
}
/// rename addresses by order of first visit, AUs apart from pages
pub fn canon_addrs(v: &V, starts: &[V], children: &dyn Fn(&V) -> Vec<V>) -> BTreeMap<V, V> {
    let mut order: Vec<V> = vec![];
    let mut seen: BTreeSet<V> = BTreeSet::new();
    let mut stack: Vec<V> = starts.iter().rev().cloned().collect();
    while let Some(a) = stack.pop() {
        if !seen.insert(a.clone()) {
            continue;
        }
        order.push(a.clone());
        let ch = children(&a);
        stack.extend(ch.into_iter().rev());
    }
    collect(v, &mut |x| {
        if is_addr(x) && seen.insert(x.clone()) {
            order.push(x.clone());
        }
    });
    let mut aus: BTreeMap<i128, (i128, i128)> = BTreeMap::new();
    let mut out = BTreeMap::new();
    for a in order {
        let (au, _) = addr_parts(&a);
        let n = aus.len() as i128;
        let e = aus.entry(au).or_insert((crate::h_journal::AU0 + n, 0));
        let d = a.as_data().unwrap();
        let f = d.ctor.fields.iter().map(|n| if &*name(*n) == "au" { V::Int(e.0) } else { V::Int(e.1) }).collect();
        e.1 += 1;
        out.insert(a.clone(), V::data(&d.ctor, f));
    }
    // bare AU numbers
    for (au, (n, _)) in aus {
        out.insert(V::Int(au), V::Int(n));
    }
    out
}
fn canon_tree(tree: Tree, whole: &V, v: &V) -> V {
    let w = walk(tree, whole);
    let root = whole.field("root").and_then(|r| some(&r));
    let es = fields(whole, &["dv", "entries"]).unwrap_or(V::Undef);
    let m = canon_addrs(v, &root.into_iter().collect::<Vec<_>>(), &|a| {
        let Some(n) = es.as_map().and_then(|m| m.get(a).cloned()) else { return vec![] };
        let mut o = w.buffer_addrs(&n).unwrap_or_default();
        o.extend(w.children(&n).unwrap_or_default().iter().filter_map(some));
        o
    });
    rename(v, &m)
}

// ---- values to try for the parameters of a step ------------------------------------------------
pub fn product<T: Clone>(a: &[Vec<T>], b: &[T]) -> Vec<Vec<T>> {
    let mut o = vec![];
    for x in a {
        for y in b {
            let mut z = x.clone();
            z.push(y.clone());
            o.push(z);
        }
    }
    o
}
fn used(pre: &V) -> Vec<V> {
    let mut u = BTreeSet::new();
    collect(pre, &mut |x| {
        if is_addr(x) {
            u.insert(x.clone());
        }
    });
    u.into_iter().collect()
}
/// free addresses, lowest first, of each AU
fn fresh_addrs(c: &Ctx, pre: &V, aus: i128, n: usize) -> Vec<Vec<V>> {
    let u: BTreeSet<V> = used(pre).into_iter().collect();
    (0..aus)
        .map(|a| {
            let mut o = vec![];
            let mut p = 0;
            while o.len() < n {
                let x = crate::h_journal::addr(c, crate::h_journal::AU0 + a, p);
                if !u.contains(&x) {
                    o.push(x);
                }
                p += 1;
            }
            o
        })
        .collect()
}
/// every way to take n distinct fresh addresses (skipping the first `skip` of each AU), up to renaming of pages
fn fresh_tuples(c: &Ctx, pre: &V, aus: i128, skip: usize, n: usize) -> Vec<Vec<V>> {
    let f = fresh_addrs(c, pre, aus, skip + n);
    let mut out: Vec<(Vec<V>, Vec<usize>)> = vec![(vec![], vec![skip; aus as usize])];
    for _ in 0..n {
        let mut o = vec![];
        for (xs, nx) in &out {
            for a in 0..aus as usize {
                let mut xs = xs.clone();
                let mut nx = nx.clone();
                xs.push(f[a][nx[a]].clone());
                nx[a] += 1;
                o.push((xs, nx));
            }
        }
        out = o;
    }
    out.into_iter().map(|x| x.0).collect()
}
/// fresh tuples, and tuples that must be refused: a duplicate, an address in use
fn addr_tuples(c: &Ctx, pre: &V, aus: i128, skip: usize, n: usize) -> Vec<Vec<V>> {
    let mut out = fresh_tuples(c, pre, aus, skip, n);
    let good = out[0].clone();
    for i in 1..n {
        let mut t = good.clone();
        t[i] = t[i - 1].clone();
        out.push(t);
    }
    if n > 2 {
        let mut t = good.clone();
        t[n - 1] = t[0].clone();
        out.push(t);
    }
    let mut us = used(pre);
    if us.len() > 5 {
        // a large disk: a few of the addresses in use stand for the rest
        us.drain(2..us.len() - 2);
    }
    for u in us {
        for i in 0..n {
            let mut t = good.clone();
            t[i] = u.clone();
            out.push(t);
        }
    }
    out
}
fn rank_of_map(c: &Ctx, v: u32) -> Option<(V, Option<V>)> {
    // the record that holds this unknown as disk contents
    for l in c.lv.iter().rev() {
        if let Some(x) = &l.val {
            if let V::Data(d) = x {
                if d.ctor.fields.iter().any(|f| &*name(*f) == "root") {
                    let mut hit = false;
                    let r = c.resolve(x);
                    collect(&r, &mut |y| hit |= matches!(y, V::LVar(i) if *i == v));
                    if hit {
                        let root = r.field("root")?;
                        if root.has_lvar() {
                            return None;
                        }
                        let es = fields(&r, &["dv", "entries"]).ok();
                        let es = match es {
                            Some(V::LVar(i)) => c.lv[i as usize].upper.clone(),
                            e => e,
                        };
                        return Some((root, es));
                    }
                }
            }
        }
    }
    None
}
pub fn install(c: &mut Ctx, tree: Tree, b: &BBounds) {
    let b = b.clone();
    crate::h_system::basic_universes(c, b.keys, b.puts);
    crate::h_journal::ranking_universe(c);
    c.nat_max = 4;
    let hgt = b.height;
    // paths from the current root (and, to be refused, from elsewhere)
    let bb = b.clone();
    c.dyn_univ.insert(
        sym("Path"),
        Rc::new(move |c: &mut Ctx, _| {
            let pre = c.cur_pre.clone().ok_or(Ctl::Err("no state".into()))?;
            let (whole, root) = root_of(tree, &pre).map_err(Ctl::Err)?;
            let w = walk(tree, &whole);
            let h = w.height(&root).map_err(Ctl::Err)?;
            let mut roots = vec![whole.clone()];
            if let Ok(Some(n)) = w.node(&root) {
                for ch in w.children(&n).unwrap_or_default() {
                    if tree.linked() {
                        let d = whole.as_data().unwrap();
                        let f = d.ctor.fields.iter().zip(d.f.iter()).map(|(n, v)| if &*name(*n) == "root" { ch.clone() } else { v.clone() }).collect();
                        roots.push(V::data(&d.ctor, f));
                    } else {
                        roots.push(ch);
                    }
                }
            }
            roots.dedup();
            let mut out = vec![];
            for (ri, r) in roots.iter().enumerate() {
                for k in 0..bb.keys {
                    let k = key(c, k);
                    let maxd = if ri == 0 { h } else { 1 };
                    if tree == Tree::Paged {
                        let u: Vec<V> = (0..1u32 << bb.keys).map(|m| V::set((0..bb.keys).filter(|i| m >> i & 1 == 1).map(|i| key(c, i)))).collect();
                        let mut rs: Vec<Vec<V>> = vec![vec![]];
                        let mut all = rs.clone();
                        for _ in 0..maxd.min(2) {
                            rs = product(&rs, &u);
                            all.extend(rs.iter().cloned());
                        }
                        for x in all {
                            out.push(record(c, tree.module(), "Path", "Path", &[("node", r.clone()), ("key", k.clone()), ("routing", V::seq(x))]));
                        }
                    } else {
                        for d in 0..=maxd {
                            let f = if tree.linked() { "linked" } else { "node" };
                            out.push(record(c, tree.module(), "Path", "Path", &[(f, r.clone()), ("key", k.clone()), ("depth", V::Int(d as i128))]));
                        }
                    }
                }
            }
            Ok(out)
        }),
    );
    let bb = b.clone();
    c.dyn_univ.insert(
        sym("QueryReceipt"),
        Rc::new(move |c: &mut Ctx, _| {
            let pre = c.cur_pre.clone().ok_or(Ctl::Err("no state".into()))?;
            receipts(c, tree, &pre, bb.keys).map_err(Ctl::Err)
        }),
    );
    let bb = b.clone();
    c.dyn_univ.insert(
        sym("SplitRequest"),
        Rc::new(move |c: &mut Ctx, _| {
            let mut out = vec![];
            for i in 0..=bb.keys {
                for k in 0..bb.keys {
                    out.push(record(c, "betree::SplitRequest_v", "SplitRequest", "SplitLeaf", &[("child_idx", V::Int(i)), ("split_key", key(c, k))]));
                }
                for p in 0..=bb.keys {
                    out.push(record(c, "betree::SplitRequest_v", "SplitRequest", "SplitIndex", &[("child_idx", V::Int(i)), ("child_pivot_idx", V::Int(p))]));
                }
            }
            Ok(out)
        }),
    );
    let bb = b.clone();
    c.dyn_univ.insert(
        sym("SimpleBuffer"),
        Rc::new(move |c: &mut Ctx, _| {
            if !bb.compact {
                return Ok(vec![]);
            }
            let mut ms = vec![None, Some(update(c, 0))];
            if bb.updates {
                ms.push(Some(update(c, 1)));
            }
            for v in 0..=bb.puts {
                ms.push(Some(define(c, v)));
            }
            let mut acc: Vec<Vec<Option<V>>> = vec![vec![]];
            for _ in 0..bb.keys {
                acc = product(&acc, &ms);
            }
            Ok(acc.into_iter().map(|x| record(c, "betree::Buffer_v", "SimpleBuffer", "SimpleBuffer", &[("map", V::map(x.into_iter().enumerate().filter_map(|(i, m)| m.map(|m| (key(c, i as i128), m)))))])).collect())
        }),
    );
    if !tree.linked() {
        return;
    }
    let aus = b.aus;
    let pre_of = |c: &Ctx| c.cur_pre.clone().ok_or(Ctl::Err("no state".into()));
    c.dyn_univ.insert(
        sym("TwoAddrs"),
        Rc::new(move |c: &mut Ctx, _| {
            let pre = pre_of(c)?;
            Ok(addr_tuples(c, &pre, aus, 0, 2).into_iter().map(|t| record(c, "betree::LinkedBetree_v", "TwoAddrs", "TwoAddrs", &[("addr1", t[0].clone()), ("addr2", t[1].clone())])).collect())
        }),
    );
    c.dyn_univ.insert(
        sym("SplitAddrs"),
        Rc::new(move |c: &mut Ctx, _| {
            let pre = pre_of(c)?;
            Ok(addr_tuples(c, &pre, aus, 0, 3).into_iter().map(|t| record(c, "betree::LinkedBetree_v", "SplitAddrs", "SplitAddrs", &[("left", t[0].clone()), ("right", t[1].clone()), ("parent", t[2].clone())])).collect())
        }),
    );
    c.dyn_univ.insert(
        sym("PathAddrs"),
        Rc::new(move |c: &mut Ctx, _| {
            let pre = pre_of(c)?;
            let mut out = vec![V::seq(vec![])];
            for n in 1..=hgt {
                for t in addr_tuples(c, &pre, aus, 3, n) {
                    out.push(V::seq(t));
                }
                // the same addresses as the other new pages
                out.push(V::seq(fresh_tuples(c, &pre, aus, 0, n)[0].clone()));
            }
            Ok(out)
        }),
    );
    c.dyn_univ.insert(
        sym("Address"),
        Rc::new(move |c: &mut Ctx, _| {
            let pre = pre_of(c)?;
            Ok(addr_tuples(c, &pre, aus, 0, 1).into_iter().map(|mut t| t.remove(0)).collect())
        }),
    );
    // disk contents after a step: all of it, what is reachable, or that without one page
    c.enum_hook = Some(Rc::new(move |c: &mut Ctx, ty: &Ty, _fr: Fr, _hint: Sym| {
        let Ty::Named(n, args) = ty else { return Ok(None) };
        if &*name(*n.last().unwrap()) != "Map" || args.len() != 2 || !ty_str(&args[0]).ends_with("Address") {
            return Ok(None);
        }
        let me = c.cur_enum;
        let Some(V::Map(up)) = c.lv[me as usize].upper.clone() else { return Ok(None) };
        let Some((root, es)) = rank_of_map(c, me) else { return Ok(None) };
        let Some(es) = es else { return Ok(None) };
        // pages reachable from the root through the tree pages
        let mut reach: BTreeSet<V> = BTreeSet::new();
        let mut todo: Vec<V> = some(&root).into_iter().collect();
        while let Some(a) = todo.pop() {
            if reach.insert(a.clone()) {
                if let Some(n) = es.as_map().and_then(|m| m.get(&a)) {
                    collect(n, &mut |x| {
                        if is_addr(x) {
                            todo.push(x.clone());
                        }
                    });
                }
            }
        }
        let tight: BTreeMap<V, V> = up.iter().filter(|(k, _)| reach.contains(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
        let mut out = vec![V::Map(Rc::new(tight.clone()))];
        if tight.len() != up.len() {
            out.push(V::Map(up.clone()));
        }
        for k in tight.keys() {
            let mut t = tight.clone();
            t.remove(k);
            out.push(V::Map(Rc::new(t)));
        }
        Ok(Some(out))
    }));
}
/// query receipts: the right one for every key, and each with one deviation
pub fn receipts(c: &Ctx, tree: Tree, pre: &V, keys: i128) -> Result<Vec<V>, String> {
    let (whole, root) = root_of(tree, pre)?;
    let w = walk(tree, &whole);
    receipts_with(c, tree, &whole, &root, &w, keys)
}
pub fn receipts_with(c: &Ctx, tree: Tree, whole: &V, root: &V, w: &Walk, keys: i128) -> Result<Vec<V>, String> {
    let mut out = vec![];
    let line = |n: &V, r: i128| {
        let m = define(c, r);
        if tree.linked() {
            let d = whole.as_data().unwrap();
            let f = d.ctor.fields.iter().zip(d.f.iter()).map(|(x, v)| if &*name(*x) == "root" { n.clone() } else { v.clone() }).collect();
            record(c, tree.module(), "QueryReceiptLine", "QueryReceiptLine", &[("linked", V::data(&d.ctor, f)), ("result", m)])
        } else {
            record(c, tree.module(), "QueryReceiptLine", "QueryReceiptLine", &[("node", n.clone()), ("result", m)])
        }
    };
    for k in 0..keys {
        let kv = key(c, k);
        let mut mk = |nodes: &[V], res: &[i128]| {
            let f = if tree.linked() { ("linked", whole.clone()) } else { ("root", root.clone()) };
            let ls = nodes.iter().zip(res).map(|(n, r)| line(n, *r)).collect();
            out.push(record(c, tree.module(), "QueryReceipt", "QueryReceipt", &[("key", kv.clone()), f, ("lines", V::seq(ls))]));
        };
        let Ok((nodes, res)) = w.chain(root, &kv) else { continue };
        mk(&nodes, &res);
        // a walk that does not start at the root, or starts at the root of another tree
        for n in 1..nodes.len() {
            mk(&nodes[n..], &res[n..]);
        }
        drop(mk);
        for n in 1..nodes.len() {
            let f = if tree.linked() {
                let d = whole.as_data().unwrap();
                let f = d.ctor.fields.iter().zip(d.f.iter()).map(|(x, v)| if &*name(*x) == "root" { nodes[n].clone() } else { v.clone() }).collect();
                ("linked", V::data(&d.ctor, f))
            } else {
                ("root", nodes[n].clone())
            };
            let ls = nodes[n..].iter().zip(&res[n..]).map(|(n, r)| line(n, *r)).collect();
            out.push(record(c, tree.module(), "QueryReceipt", "QueryReceipt", &[("key", kv.clone()), f, ("lines", V::seq(ls))]));
        }
        let mut mk = |nodes: &[V], res: &[i128]| {
            let f = if tree.linked() { ("linked", whole.clone()) } else { ("root", root.clone()) };
            let ls = nodes.iter().zip(res).map(|(n, r)| line(n, *r)).collect();
            out.push(record(c, tree.module(), "QueryReceipt", "QueryReceipt", &[("key", kv.clone()), f, ("lines", V::seq(ls))]));
        };
        // a wrong answer        // a wrong answer at one line, carried upwards
        for i in 0..res.len() {
            for bad in [res[i] + 1, 0] {
                if bad != res[i] {
                    let mut r = res.clone();
                    for j in (0..=i).rev() {
                        if j == i || r[j] == res[i] {
                            r[j] = bad;
                        } else {
                            break;
                        }
                    }
                    mk(&nodes, &r);
                }
            }
        }
        // a wrong turn at one node
        for i in 0..nodes.len() - 1 {
            let n = w.node(&nodes[i])?.unwrap();
            let mut others = w.children(&n)?;
            others.push(nodes[i].clone());
            others.dedup();
            for o in others {
                if o == nodes[i + 1] {
                    continue;
                }
                if let Ok((on, or)) = w.chain(&o, &kv) {
                    if i + on.len() < 12 {
                        let mut ns: Vec<V> = nodes[..=i].to_vec();
                        ns.extend(on);
                        let mut rs = or.clone();
                        for j in (0..=i).rev() {
                            let (_, m) = w.step(&w.node(&nodes[j])?.unwrap(), &kv)?;
                            rs.insert(0, m.unwrap_or(rs[0]));
                        }
                        mk(&ns, &rs);
                    }
                }
            }
            // stop early: the bottom line in place of a subtree
            mk(&[&nodes[..=i], &nodes[nodes.len() - 1..]].concat(), &{
                let mut rs = vec![0];
                for j in (0..=i).rev() {
                    let (_, m) = w.step(&w.node(&nodes[j])?.unwrap(), &kv)?;
                    rs.insert(0, m.unwrap_or(rs[0]));
                }
                rs
            });
        }
    }
    out.sort();
    out.dedup();
    Ok(out)
}

impl BModel {
    fn note(&mut self, s: &str) {
        *self.outcomes.entry(s.to_string()).or_insert(0) += 1;
    }
    fn label(&self, c: &Ctx, var: &str, f: Vec<V>) -> V {
        if self.tree.linked() {
            let mid = c.p.find_machine("betree::LinkedBetree_v", "LinkedBetreeVars").expect("LinkedBetreeVars");
            let l = lab(c, mid, var, f);
            lab(c, self.mid, "Label", vec![l])
        } else {
            lab(c, self.mid, var, f)
        }
    }
    fn unknown(&self, c: &mut Ctx, ty: &str) -> V {
        let m = if self.tree.linked() {
            let mid = c.p.find_machine("betree::LinkedBetree_v", "LinkedBetreeVars").unwrap();
            &c.p.machines[mid]
        } else {
            &c.p.machines[self.mid]
        };
        let (sc, st) = (m.scope, m.state_ty);
        c.fresh(Ty::Named(vec![sym(ty)], vec![]), Fr { scope: sc, self_ty: Some(st) }, sym("x"))
    }
    fn hist(&self, c: &Ctx, from: i128, ms: &[(i128, V)]) -> V {
        let msgs = V::map(ms.iter().enumerate().map(|(i, (k, m))| (V::Int(from + i as i128), record(c, "abstract_system::MsgHistory_v", "KeyedMessage", "KeyedMessage", &[("key", key(c, *k)), ("message", m.clone())]))));
        record(c, "abstract_system::MsgHistory_v", "MsgHistory", "MsgHistory", &[("msgs", msgs), ("seq_start", V::Int(from)), ("seq_end", V::Int(from + ms.len() as i128))])
    }
    /// states in which the tree starts from an image
    fn start(&self, c: &mut Ctx, img: &V) -> ER<Vec<V>> {
        let m = c.p.machines[self.mid].clone();
        let sty = c.p.types[m.state_ty].name;
        let arg = if self.tree.linked() {
            let t = c.p.find_type("betree::Memtable_v", "Memtable").expect("Memtable");
            let end = img.field("seq_end").unwrap();
            let mem = c.call_static(t, "empty_memtable", vec![end])?;
            let lm = c.p.find_machine("betree::LinkedBetree_v", "LinkedBetreeVars").unwrap();
            let k = c.p.types[c.p.machines[lm].state_ty].ctors[0].clone();
            let f = k.fields.iter().map(|f| if &*name(*f) == "memtable" { mem.clone() } else { img.field("value").unwrap() }).collect();
            V::data(&k, f)
        } else {
            img.clone()
        };
        c.cur_pre = None;
        let mk = c.mark();
        let post = c.fresh(Ty::Named(vec![sty], vec![]), Fr { scope: m.scope, self_ty: Some(m.state_ty) }, sym("post"));
        let r = c.solve_all(vec![G::Init(self.mid, post.clone(), Some(V::tup(vec![V::Str("initialize".into()), arg])))], &[post]);
        c.undo(mk);
        Ok(r?.into_iter().map(|mut v| v.remove(0)).collect())
    }
    /// the map stored in an image
    fn content(&self, whole: &V, root: &V, c: &Ctx) -> Result<BTreeMap<i128, i128>, String> {
        let w = walk(self.tree, whole);
        let mut o = BTreeMap::new();
        for k in 0..self.b.keys {
            let (_, r) = w.chain(root, &key(c, k))?;
            if r[0] != 0 {
                o.insert(k, r[0]);
            }
        }
        Ok(o)
    }
    /// memtable empty, height, children of the root, buffers of the root, buffers of the root's children
    fn shape(&self, s: &V) -> Result<(bool, usize, usize, usize, usize), String> {
        let (whole, root) = root_of(self.tree, s)?;
        let w = walk(self.tree, &whole);
        let mem = fields(&inner(self.tree, s)?, &["memtable", "buffer", "map"])?.as_map().ok_or("memtable")?.is_empty();
        let bufs = |n: &V| -> Result<usize, String> {
            match self.tree {
                Tree::Paged | Tree::Pivot => Ok(fields(n, &["buffer", "map"])?.as_map().ok_or("buffer")?.len()),
                Tree::Filtered => Ok(seqv(&fields(n, &["buffers", "buffers"])?)?.len()),
                _ => Ok(w.buffer_addrs(n)?.len()),
            }
        };
        let (mut ch, mut own, mut below) = (0, 0, 0);
        if let Some(n) = w.node(&root)? {
            let cs = w.children(&n)?;
            (ch, own) = (cs.len(), bufs(&n)?);
            for x in cs {
                if let Some(n) = w.node(&x)? {
                    below += bufs(&n)?;
                }
            }
        }
        Ok((mem, w.height(&root)?, ch, own, below))
    }
    fn size(&self, s: &V) -> Result<(usize, usize), String> {
        let (whole, root) = root_of(self.tree, s)?;
        let w = walk(self.tree, &whole);
        let h = w.height(&root)?;
        let garbage = if self.tree.linked() {
            let (mut t, mut b) = Default::default();
            w.references(&root, &mut t, &mut b)?;
            let n = |p: &[&str]| fields(&whole, p).map(|m| m.as_map().unwrap().len()).unwrap_or(0);
            n(&["dv", "entries"]) + n(&["buffer_dv", "entries"]) - t.len() - b.len().min(n(&["buffer_dv", "entries"]))
        } else {
            0
        };
        Ok((h, garbage))
    }
}
impl Model for BModel {
    fn canon(&self, s: &V, mon: &V) -> Option<(V, V)> {
        if !self.tree.linked() {
            return None;
        }
        let (whole, _) = root_of(self.tree, s).ok()?;
        let s2 = canon_tree(self.tree, &whole, s);
        let V::Tup(t) = mon else { return None };
        let mut t = (**t).clone();
        if let Some(w) = t[2].field("value") {
            t[2] = canon_tree(self.tree, &w, &t[2]);
        }
        Some((s2, V::tup(t.to_vec())))
    }
    fn initial(&mut self, c: &mut Ctx) -> ER<Vec<(V, V)>> {
        let f = c.p.find_fn(&format!("{}::empty_image", self.tree.module())).ok_or(Ctl::Err("empty_image not found".into()))?;
        let img = c.call_fn(f, vec![])?;
        let mon = Mon { map: BTreeMap::new(), lsn: 0, img: img.clone(), imap: BTreeMap::new(), ilsn: 0, ct: [0, 0, 1, 0] };
        let mut states: Vec<(V, V)> = self.start(c, &img)?.into_iter().map(|s| (s, mon.to_v())).collect();
        for step in self.b.pre {
            let mut next: Vec<(V, V)> = vec![];
            let mut seen = BTreeSet::new();
            for (s, mon) in &states {
                let m0 = c.mark();
                let lsn = Mon::from_v(mon).lsn;
                let l = match step {
                    Pre::Put(k) => {
                        let h = self.hist(c, lsn, &[(*k, define(c, lsn + 1))]);
                        self.label(c, "Put", vec![h])
                    }
                    _ => self.label(c, "Internal", vec![]),
                };
                let a = self.shape(s).map_err(Ctl::Err)?;
                for (lbl, post, path) in self.successors(c, self.mid, s, Some(l))? {
                    match self.observe(c, s, &lbl, &post, &path, mon)? {
                        Obs::Bad(e) => {
                            self.pre_bad = Some(format!("{} (step {:?} of the approach {:?}: {:?} => {:?})", e, step, self.b.pre, s, post));
                            return Ok(vec![(post, mon.clone())]);
                        }
                        Obs::Go(m2) => {
                            let b = self.shape(&post).map_err(Ctl::Err)?;
                            let fits = match step {
                                Pre::Put(_) => true,
                                Pre::Mem => !a.0 && b.0,
                                Pre::Grow => b.1 == a.1 + 1,
                                Pre::Down => a.0 == b.0 && a.1 == b.1 && a.2 == b.2 && a.3 == b.3 && a.4 < b.4,
                                Pre::DownGc => a.0 == b.0 && a.1 == b.1 && a.2 == b.2 && a.3 > b.3 && a.4 < b.4,
                                Pre::Split => a.1 == b.1 && b.2 > a.2,
                            };
                            if !fits {
                                continue;
                            }
                            let mut m2 = Mon::from_v(&m2);
                            m2.ct[0] = 0;
                            let m2 = m2.to_v();
                            let k = self.canon(&post, &m2).unwrap_or((post.clone(), m2.clone()));
                            if seen.insert((fp(&k.0), fp(&k.1))) {
                                next.push((post, m2));
                            }
                        }
                        _ => {}
                    }
                }
                c.undo(m0);
            }
            if next.is_empty() {
                self.pre_bad = Some(format!("step {:?} of the approach {:?} is no longer possible", step, self.b.pre));
                return Ok(states);
            }
            states = next;
        }
        Ok(states)
    }
    fn labels(&mut self, c: &mut Ctx, _s: &V, mon: &V) -> ER<Vec<Option<V>>> {
        let m = Mon::from_v(mon);
        let mut out = vec![];
        let mut puts: Vec<Vec<(i128, V)>> = vec![];
        let left = self.b.puts - m.lsn;
        if left >= 1 {
            for k in 0..self.b.keys {
                puts.push(vec![(k, define(c, m.lsn + 1))]);
            }
            if self.b.updates {
                puts.push(vec![(0, update(c, 1))]);
            }
        }
        if left >= 2 {
            puts.push(vec![(0, define(c, m.lsn + 1)), (0, define(c, m.lsn + 2))]);
            puts.push(vec![(self.b.keys - 1, define(c, m.lsn + 1)), (0, define(c, m.lsn + 2))]);
        }
        for p in &puts {
            let h = self.hist(c, m.lsn, p);
            out.push(self.label(c, "Put", vec![h]));
        }
        if left >= 2 {
            // must be refused: a message missing
            let h = self.hist(c, m.lsn, &[(0, define(c, m.lsn + 1)), (0, define(c, m.lsn + 2))]);
            let d = h.as_data().unwrap();
            let f = d.ctor.fields.iter().zip(&d.f).map(|(n, v)| if &*name(*n) == "msgs" { V::map(v.as_map().unwrap().iter().take(1).map(|(a, b)| (a.clone(), b.clone()))) } else { v.clone() }).collect();
            let h = V::data(&d.ctor, f);
            out.push(self.label(c, "Put", vec![h]));
        }
        if left >= 1 {
            // must be refused: a gap, a replay
            let h = self.hist(c, m.lsn + 1, &[(0, define(c, 9))]);
            out.push(self.label(c, "Put", vec![h]));
            if m.lsn > 0 {
                let h = self.hist(c, m.lsn - 1, &[(0, define(c, 9))]);
                out.push(self.label(c, "Put", vec![h]));
            }
        }
        if m.ct[3] == 0 || m.ct[1] < self.b.crashes {
            let t = self.unknown(c, "StampedBetree");
            out.push(self.label(c, "FreezeAs", vec![t]));
        }
        if m.ct[0] < self.b.internals {
            out.push(self.label(c, "Internal", vec![]));
        }
        Ok(out.into_iter().map(Some).collect())
    }
    fn successors(&mut self, c: &mut Ctx, mid: usize, s: &V, l: Option<V>) -> ER<Vec<(V, V, Path)>> {
        if let Some(V::Str(_)) = &l {
            return Ok(vec![]);
        }
        c.successors(mid, s, l)
    }
    fn extra(&mut self, c: &mut Ctx, _s: &V, mon: &V) -> ER<Vec<(V, V, Obs)>> {
        let m = Mon::from_v(mon);
        let mut out = vec![];
        if m.ct[1] < self.b.crashes && m.ct[2] == 0 && m.ct[3] == 1 {
            let lb = V::Str("crash+recover".into());
            let rs = self.start(c, &m.img)?;
            if rs.is_empty() {
                return Ok(vec![(lb, V::Undef, Obs::Bad("the tree refuses to start from an image it froze".into()))]);
            }
            for s in rs {
                self.note("recovery from a frozen tree");
                let mut n = m.clone();
                n.map = m.imap.clone();
                n.lsn = m.ilsn;
                n.ct = [m.ct[0], m.ct[1] + 1, 1, 1];
                out.push((lb.clone(), s, Obs::Go(n.to_v())));
            }
        }
        Ok(out)
    }
    fn pending(&mut self, s: &V, mon: &V) -> u32 {
        let m = Mon::from_v(mon);
        let _ = s;
        (m.ct[0] < self.b.internals && m.ct[3] == 0) as u32
    }
    fn obligation_name(&self, _: u32) -> String {
        "freezing the current map".into()
    }
    fn discharges(&mut self, lbl: &V, mon: &V) -> Option<u32> {
        let m = Mon::from_v(mon);
        let l = lbl.field("linked_lbl").unwrap_or(lbl.clone());
        if l.variant() == "FreezeAs" && m.ct[0] <= self.b.internals {
            return Some(1);
        }
        if matches!(lbl, V::Str(_)) {
            return None;
        }
        Some(0)
    }
    fn state_ok(&mut self, c: &mut Ctx, s: &V, mon: &V) -> ER<Result<(), String>> {
        if let Some(e) = &self.pre_bad {
            return Ok(Err(e.clone()));
        }
        let m = Mon::from_v(mon);
        let m0 = c.mark();
        // every key can be queried, with the right answer and no other
        for k in 0..self.b.keys {
            let (e, v) = (self.unknown(c, "LSN"), self.unknown(c, "Value"));
            let kv = key(c, k);
            let m1 = self.mid;
            let l = self.label(c, "Query", vec![e, kv, v]);
            let rs = c.successors(m1, s, Some(l))?;
            if rs.is_empty() {
                return Ok(Err(format!("key {} cannot be queried", k)));
            }
            for (lb, t, _) in rs {
                let l = lb.field("linked_lbl").unwrap_or(lb.clone());
                let (e, v) = (l.field("end_lsn").map(|x| int_of(&x)), l.field("value").and_then(|x| num(&x).ok()));
                if v != Some(m.get(k)) {
                    return Ok(Err(format!("query of key {} answers {:?}, last put wrote {}", k, v, m.get(k))));
                }
                if e != Some(m.lsn) {
                    return Ok(Err(format!("query reports history end {:?}, expected {}", e, m.lsn)));
                }
                if t != *s {
                    return Ok(Err("a query changes the state".into()));
                }
                self.note("query answered");
            }
        }
        c.undo(m0);
        let (whole, root) = match root_of(self.tree, s) {
            Ok(x) => x,
            Err(e) => return Err(Ctl::Err(e)),
        };
        if self.tree.linked() {
            let w = walk(self.tree, &whole);
            let (mut t, mut b) = Default::default();
            if let Err(e) = w.references(&root, &mut t, &mut b) {
                return Ok(Err(e));
            }
            let bd = fields(&whole, &["buffer_dv", "entries"]).map_err(Ctl::Err)?;
            for a in b.keys() {
                if !bd.as_map().unwrap().contains_key(a) {
                    return Ok(Err(format!("buffer {:?} is referenced but lost", a)));
                }
                if t.contains_key(a) {
                    return Ok(Err(format!("address {:?} holds both a tree page and a buffer", a)));
                }
            }
            let (f1, f2) = if self.tree == Tree::Likes { ("betree_likes", "buffer_likes") } else { ("betree_aus", "buffer_aus") };
            for (f, want) in [(f1, &t), (f2, &b)] {
                let V::MSet(have) = field(s, f).map_err(Ctl::Err)? else { return Err(Ctl::Err(format!("{} is not a multiset", f))) };
                let mut exp: BTreeMap<V, u64> = BTreeMap::new();
                for (a, n) in want {
                    let k = if self.tree == Tree::Likes { a.clone() } else { V::Int(addr_parts(a).0) };
                    *exp.entry(k).or_insert(0) += n;
                }
                let have: BTreeMap<V, u64> = have.iter().filter(|(_, n)| **n > 0).map(|(a, n)| (a.clone(), *n as u64)).collect();
                if have != exp {
                    return Ok(Err(format!("reference counts {} are {:?}, actual references {:?}", f, have, exp)));
                }
            }
            if b.values().any(|n| *n > 1) {
                self.note("a buffer shared by two nodes");
            }
        }
        Ok(Ok(()))
    }
    fn observe(&mut self, c: &mut Ctx, pre: &V, lbl: &V, post: &V, _path: &Path, mon: &V) -> ER<Obs> {
        let mut m = Mon::from_v(mon);
        let l = lbl.field("linked_lbl").unwrap_or(lbl.clone());
        match l.variant().as_str() {
            "Put" => {
                let p = l.field("puts").unwrap();
                let (a, e) = (int_of(&p.field("seq_start").unwrap()), int_of(&p.field("seq_end").unwrap()));
                if a != m.lsn {
                    return Ok(Obs::Bad(format!("accepted messages starting at {} when the history ends at {}", a, m.lsn)));
                }
                for i in a..e {
                    let Some(x) = p.field("msgs").unwrap().as_map().unwrap().get(&V::Int(i)).cloned() else {
                        return Ok(Obs::Bad(format!("accepted messages up to {} although message {} is missing", e, i)));
                    };
                    let k = num(&x.field("key").unwrap()).unwrap();
                    if let Some(v) = defined(&x.field("message").unwrap()).map_err(Ctl::Err)? {
                        m.map.insert(k, v);
                    }
                }
                m.lsn = e;
                m.ct[2] = 0;
                self.note("put");
            }
            "FreezeAs" => {
                let img = l.field("stamped_betree").unwrap();
                let (v, e) = (img.field("value").unwrap(), int_of(&img.field("seq_end").unwrap()));
                if e != m.lsn {
                    return Ok(Obs::Bad(format!("frozen tree is stamped {} but the history ends at {}", e, m.lsn)));
                }
                let root = if self.tree.linked() { v.field("root").unwrap() } else { v.clone() };
                match self.content(&v, &root, c) {
                    Ok(x) if x == m.map.iter().filter(|(_, v)| **v != 0).map(|(a, b)| (*a, *b)).collect() => {}
                    Ok(x) => return Ok(Obs::Bad(format!("frozen tree holds {:?}, should hold {:?}", x, m.map))),
                    Err(e) => return Ok(Obs::Bad(format!("frozen tree is broken: {}", e))),
                }
                if post != pre {
                    return Ok(Obs::Bad("freezing changes the state".into()));
                }
                if !m.map.is_empty() {
                    self.note("freeze of a non-empty tree");
                }
                if self.b.crashes == 0 {
                    return Ok(Obs::Go(mon.clone()));
                }
                m.img = img;
                m.imap = m.map.clone();
                m.ilsn = m.lsn;
                m.ct[2] = 0;
                m.ct[3] = 1;
            }
            "Internal" => {
                if post == pre {
                    return Ok(Obs::Prune);
                }
                m.ct[0] += 1;
                m.ct[2] = 0;
                let sz = match self.size(post) {
                    Ok(x) => x,
                    Err(e) => return Ok(Obs::Bad(format!("after an internal step: {}", e))),
                };
                if let Ok(Err(e)) = self.state_ok(c, post, &m.to_v()) {
                    return Ok(Obs::Bad(e));
                }
                let before = self.size(pre).map_err(Ctl::Err)?;
                if sz.0 > before.0 && before.0 > 0 {
                    self.note("tree grown");
                }
                let (whole, root) = root_of(self.tree, post).map_err(Ctl::Err)?;
                let w = walk(self.tree, &whole);
                if let Some(n) = w.node(&root).map_err(Ctl::Err)? {
                    let cs = w.children(&n).map_err(Ctl::Err)?;
                    if self.tree != Tree::Paged && cs.len() > 1 {
                        self.note("child split");
                    }
                    if sz.0 >= 2 && self.content(&whole, &root, c).map_or(false, |x| !x.is_empty()) {
                        // the root itself says nothing about a key that has a value
                        for k in 0..self.b.keys {
                            if let Ok((_, None)) = w.step(&n, &key(c, k)) {
                                if w.chain(&root, &key(c, k)).map_or(false, |r| r.1[0] != 0) {
                                    self.note("data below the root");
                                }
                            }
                        }
                    }
                }
                if sz.1 > 0 {
                    self.note("unreachable pages kept for later");
                }
                // pages stay until their whole unit is free; page-granular garbage is not explored
                let garbage = self.b.garbage;
                if sz.0 > self.b.height || sz.1 > garbage {
                    return Ok(Obs::Beyond);
                }
            }
            x => return bad(format!("unexpected label {}", x)),
        }
        Ok(Obs::Go(m.to_v()))
    }
}
