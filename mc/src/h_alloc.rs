//! The page allocator journals and buffer trees draw from, under every sequence of its operations,
//! against plain sets of pages.
use crate::eval::*;
use crate::explore::*;
use crate::h_journal::{addr, AU0};
use crate::value::*;
use std::collections::{BTreeMap, BTreeSet};

pub struct AlModel {
    pub aus: i128,
    pub pages: i128,
    pub outcomes: BTreeMap<String, u64>,
    pub syms: Vec<BTreeMap<V, V>>,
}
#[derive(Clone, Default)]
struct Mon {
    held: BTreeSet<V>,
    reserved: BTreeSet<V>,
    observed: BTreeSet<V>,
    /// unit allocated from last
    curr: BTreeSet<V>,
}
impl Mon {
    fn v(&self) -> V {
        V::tup([&self.held, &self.reserved, &self.observed, &self.curr].iter().map(|s| V::set(s.iter().cloned())).collect())
    }
    fn from(v: &V) -> Mon {
        let V::Tup(t) = v else { panic!() };
        let s = |i: usize| t[i].as_set().unwrap().iter().cloned().collect();
        Mon { held: s(0), reserved: s(1), observed: s(2), curr: s(3) }
    }
}
const M: &str = "allocation_layer::MiniAllocator_v";
impl AlModel {
    fn note(&mut self, s: &str) {
        *self.outcomes.entry(s.to_string()).or_insert(0) += 1;
    }
    fn call(&self, c: &mut Ctx, r: &V, f: &str, a: Vec<V>) -> ER<V> {
        let v = c.call_named(r.clone(), f, a)?;
        c.ground(v)
    }
    fn addrs(&self, c: &Ctx) -> Vec<V> {
        (0..self.aus).flat_map(|a| (0..self.pages).map(move |p| (a, p))).map(|(a, p)| addr(c, AU0 + a, p)).collect()
    }
    fn subsets(&self) -> Vec<V> {
        let aus: Vec<V> = (AU0..AU0 + self.aus).map(V::Int).collect();
        (1..1u32 << aus.len()).map(|b| V::set(aus.iter().enumerate().filter(|(i, _)| b >> i & 1 == 1).map(|(_, x)| x.clone()))).collect()
    }
}
impl Model for AlModel {
    fn symmetries(&self) -> Vec<BTreeMap<V, V>> {
        self.syms.clone()
    }
    fn labels(&mut self, _c: &mut Ctx, _s: &V, _mon: &V) -> ER<Vec<Option<V>>> {
        Ok(vec![])
    }
    fn observe(&mut self, _c: &mut Ctx, _pre: &V, _l: &V, _post: &V, _p: &Path, _mon: &V) -> ER<Obs> {
        unreachable!()
    }
    fn initial(&mut self, c: &mut Ctx) -> ER<Vec<(V, V)>> {
        let t = c.p.find_type(M, "MiniAllocator").ok_or(Ctl::Err("MiniAllocator not found".into()))?;
        let s = c.call_static(t, "empty", vec![])?;
        Ok(vec![(c.ground(s)?, Mon::default().v())])
    }
    fn state_ok(&mut self, c: &mut Ctx, s: &V, mon: &V) -> ER<Result<(), String>> {
        let m = Mon::from(mon);
        let au = |x: &V| x.field("au").unwrap();
        let used: BTreeSet<V> = m.reserved.union(&m.observed).cloned().collect();
        for a in self.addrs(c) {
            let want = m.held.contains(&au(&a)) && !used.contains(&a);
            let got = self.call(c, s, "can_allocate", vec![a.clone()])?;
            if got != V::Bool(want) {
                return Ok(Err(format!("page {:?} may be allocated: {:?}; held {:?}, in use {:?}", a, got, m.held, used)));
            }
            if self.call(c, s, "page_is_reserved", vec![a.clone()])? != V::Bool(m.reserved.contains(&a)) {
                return Ok(Err(format!("reservation of page {:?} is reported wrongly", a)));
            }
        }
        for a in (AU0..AU0 + self.aus).map(V::Int) {
            let free = m.held.contains(&a) && !m.reserved.iter().any(|p| au(p) == a);
            if self.call(c, s, "can_remove", vec![a.clone()])? != V::Bool(free) {
                return Ok(Err(format!("unit {:?} may be given up: wrongly answered; held {:?}, reserved {:?}", a, m.held, m.reserved)));
            }
        }
        // a page past the end of a unit is no page
        let past = addr(c, AU0, self.pages);
        if self.call(c, s, "can_allocate", vec![past])? == V::Bool(true) {
            return Ok(Err("a page past the end of a unit may be allocated".into()));
        }
        let set = |f: &dyn Fn(&V) -> bool| V::set(m.held.iter().filter(|a| f(a)).cloned());
        let any = |ps: &BTreeSet<V>, a: &V| ps.iter().any(|p| au(p) == *a);
        let want = [
            ("all_aus", set(&|_| true)),
            ("reserved_aus", set(&|a| any(&m.reserved, a))),
            ("removable_aus", set(&|a| !any(&m.reserved, a))),
            ("not_observed_aus", set(&|a| !any(&m.observed, a))),
        ];
        for (f, w) in want {
            let got = self.call(c, s, f, vec![])?;
            if got != w {
                return Ok(Err(format!("{} answers {:?}, expected {:?}", f, got, w)));
            }
        }
        let curr: BTreeSet<V> = s.field("curr").filter(|c| c.variant() == "Some").and_then(|c| c.as_data().map(|d| d.f[0].clone())).into_iter().collect();
        if curr != m.curr {
            return Ok(Err(format!("the unit allocated from is {:?}, expected {:?}", curr, m.curr)));
        }
        if self.call(c, s, "wf", vec![])? != V::Bool(true) {
            return Ok(Err("the allocator is no longer well formed".into()));
        }
        Ok(Ok(()))
    }
    fn extra(&mut self, c: &mut Ctx, s: &V, mon: &V) -> ER<Vec<(V, V, Obs)>> {
        let m = Mon::from(mon);
        let mut out = vec![];
        let au = |x: &V| x.field("au").unwrap();
        for x in self.subsets() {
            let aus: BTreeSet<V> = x.as_set().unwrap().iter().cloned().collect();
            let t = self.call(c, s, "add_aus", vec![x.clone()])?;
            let mut m2 = m.clone();
            m2.held.extend(aus.iter().cloned());
            self.note(if aus.is_subset(&m.held) { "units added again" } else { "units added" });
            out.push((V::Str(format!("add {:?}", x).into()), t, Obs::Go(m2.v())));
            // (only units without outstanding references are given up, whatever the caller keeps of them)
            let t = self.call(c, s, "prune", vec![x.clone()])?;
            let mut m2 = m.clone();
            m2.held.retain(|a| !aus.contains(a));
            m2.reserved.retain(|p| !aus.contains(&au(p)));
            m2.observed.retain(|p| !aus.contains(&au(p)));
            m2.curr.retain(|a| !aus.contains(a));
            self.note("units given up");
            out.push((V::Str(format!("prune {:?}", x).into()), t, Obs::Go(m2.v())));
        }
        for a in self.addrs(c) {
            if m.held.contains(&au(&a)) && !m.reserved.contains(&a) && !m.observed.contains(&a) {
                let t = self.call(c, s, "allocate", vec![a.clone()])?;
                let mut m2 = m.clone();
                m2.reserved.insert(a.clone());
                let full = (0..self.pages).all(|p| {
                    let q = addr(c, crate::h_system::int_of(&au(&a)), p);
                    m2.reserved.contains(&q) || m2.observed.contains(&q)
                });
                m2.curr = if full { BTreeSet::new() } else { [au(&a)].into_iter().collect() };
                self.note(if full { "unit used up" } else { "page allocated" });
                out.push((V::Str(format!("allocate {:?}", a).into()), t, Obs::Go(m2.v())));
            }
            if m.reserved.contains(&a) {
                let t = self.call(c, s, "observe", vec![a.clone()])?;
                let mut m2 = m.clone();
                m2.observed.insert(a.clone());
                self.note("page observed");
                out.push((V::Str(format!("observe {:?}", a).into()), t, Obs::Go(m2.v())));
            }
        }
        // the allocator of one unit: giving pages back
        for (k, pa) in s.field("allocs").and_then(|a| a.as_map().map(|m| (**m).clone())).unwrap_or_default() {
            let of = |ps: &BTreeSet<V>| -> Vec<V> { ps.iter().filter(|p| au(p) == k).cloned().collect() };
            let (res, obs) = (of(&m.reserved), of(&m.observed));
            for b in 1..1u32 << self.pages {
                let ps: BTreeSet<V> = (0..self.pages).filter(|i| b >> i & 1 == 1).map(|i| addr(c, crate::h_system::int_of(&k), i)).collect();
                let arg = V::set(ps.iter().cloned());
                let isin = |xs: &Vec<V>| ps.iter().all(|p| xs.contains(p));
                let (mut ops, all): (Vec<(&str, BTreeSet<V>, BTreeSet<V>)>, Vec<V>) = (vec![], res.iter().chain(&obs).cloned().collect());
                let (r, o): (BTreeSet<V>, BTreeSet<V>) = (res.iter().cloned().collect(), obs.iter().cloned().collect());
                let no = |x: &BTreeSet<V>| -> BTreeSet<V> { x.difference(&ps).cloned().collect() };
                if isin(&res) {
                    ops.push(("unreserve", no(&r), o.clone()));
                }
                if isin(&obs) {
                    ops.push(("unobserve", r.clone(), no(&o)));
                }
                if isin(&all) {
                    ops.push(("free", no(&r), no(&o)));
                }
                if ps.iter().all(|p| !all.contains(p)) {
                    ops.push(("reserve", r.union(&ps).cloned().collect(), o.clone()));
                }
                if isin(&all) {
                    ops.push(("observe", r.clone(), o.union(&ps).cloned().collect()));
                }
                if b == 1 {
                    ops.push(("unobserve_all", r.clone(), BTreeSet::new()));
                }
                for (f, wr, wo) in ops {
                    let t = self.call(c, &pa, f, if f == "unobserve_all" { vec![] } else { vec![arg.clone()] })?;
                    let get = |n: &str| -> BTreeSet<V> { t.field(n).and_then(|s| s.as_set().map(|s| s.iter().cloned().collect())).unwrap_or_default() };
                    if get("reserved") != wr || get("observed") != wo || t.field("au") != Some(k.clone()) {
                        return Ok(vec![(V::Str(f.into()), V::Undef, Obs::Bad(format!("{} of {:?} on {:?} gives {:?}", f, ps, pa, t)))]);
                    }
                    self.note(f);
                    if self.call(c, &t, "all_pages_allocated", vec![])? != V::Bool(wr.union(&wo).count() as i128 == self.pages) || self.call(c, &t, "all_pages_free", vec![])? != V::Bool(wr.is_empty() && wo.is_empty()) || self.call(c, &t, "has_no_outstanding_refs", vec![])? != V::Bool(wr.is_empty()) || self.call(c, &t, "has_no_observed_pages", vec![])? != V::Bool(wo.is_empty()) {
                        return Ok(vec![(V::Str(f.into()), V::Undef, Obs::Bad(format!("after {} of {:?} on {:?}: wrong about being full or free", f, ps, pa)))]);
                    }
                }
            }
        }
        Ok(out)
    }
}
