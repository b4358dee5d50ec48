//! Crash-tolerant system layer: CoordinationSystem (journal + map + superblock) against an
//! independent observer of the client-visible history.
use crate::eval::*;
use crate::explore::*;
use crate::value::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// Client-visible history observer for a crash-tolerant key-value store.
/// `cands`: every version list the client-visible events still allow. A version list is
/// (index of first version, [map; ..]), the first being the newest one known to be durable.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Cand1 {
    pub base: usize,
    pub vers: Vec<BTreeMap<i128, i128>>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct KvObs {
    pub cands: BTreeSet<Cand1>,
    /// accepted, unexecuted: id -> (kind, key, value)
    pub reqs: BTreeMap<i128, (u8, i128, i128)>,
    /// executed, undelivered replies: id -> Some(value) for queries
    pub replies: BTreeMap<i128, Option<i128>>,
    /// outstanding syncs: id -> version index at request
    pub syncs: BTreeMap<i128, usize>,
}
#[derive(Clone, Debug)]
pub enum Ev {
    Req(i128, u8, i128, i128),
    Exec(i128, Option<i128>),
    Reply(i128, Option<i128>),
    Crash,
    ReqSync(i128),
    ReplySync(i128),
    /// the superblock write lands: some version from the durable one on becomes the durable one
    Durable,
}
impl KvObs {
    pub fn new() -> KvObs {
        KvObs { cands: std::iter::once(Cand1 { base: 0, vers: vec![BTreeMap::new()] }).collect(), reqs: BTreeMap::new(), replies: BTreeMap::new(), syncs: BTreeMap::new() }
    }
    pub fn step(&self, e: &Ev) -> Result<KvObs, String> {
        let mut n = self.clone();
        match e {
            Ev::Req(id, k, key, val) => {
                if n.reqs.contains_key(id) {
                    return Err(format!("request id {} accepted twice", id));
                }
                n.reqs.insert(*id, (*k, *key, *val));
            }
            Ev::Exec(id, out) => {
                let Some((k, key, val)) = n.reqs.remove(id) else { return Err(format!("executed a request ({}) that is not outstanding", id)) };
                let mut cs = BTreeSet::new();
                for c in &self.cands {
                    let mut c = c.clone();
                    if k == 0 {
                        let cur = c.vers.last().unwrap().get(&key).copied().unwrap_or(0);
                        if Some(cur) != *out {
                            continue;
                        }
                    } else if k == 1 {
                        let mut m = c.vers.last().unwrap().clone();
                        if val == 0 {
                            m.remove(&key);
                        } else {
                            m.insert(key, val);
                        }
                        c.vers.push(m);
                    }
                    cs.insert(c);
                }
                if cs.is_empty() {
                    return Err(format!(
                        "query of key {} answered {:?}; versions consistent with the client-visible history say {:?}",
                        key,
                        out,
                        self.cands.iter().map(|c| c.vers.last().unwrap().get(&key).copied().unwrap_or(0)).collect::<BTreeSet<_>>()
                    ));
                }
                n.cands = cs;
                n.replies.insert(*id, *out);
            }
            Ev::Reply(id, out) => match n.replies.remove(id) {
                Some(o) if o == *out => {}
                o => return Err(format!("delivered reply {} {:?}, expected {:?}", id, out, o)),
            },
            Ev::Durable => {
                let mut cs = BTreeSet::new();
                for c in &self.cands {
                    for i in 0..c.vers.len() {
                        cs.insert(Cand1 { base: c.base + i, vers: c.vers[i..].to_vec() });
                    }
                }
                n.cands = cs;
            }
            Ev::Crash => {
                let mut cs = BTreeSet::new();
                for c in &self.cands {
                    cs.insert(Cand1 { base: c.base, vers: c.vers[..1].to_vec() });
                }
                n.cands = cs;
                n.reqs.clear();
                n.replies.clear();
                n.syncs.clear();
            }
            Ev::ReqSync(id) => {
                // version count is the same for every candidate of equal newest index
                let ix: BTreeSet<usize> = self.cands.iter().map(|c| c.base + c.vers.len() - 1).collect();
                // candidates may differ in absolute numbering after a crash: renumber from the newest
                let _ = ix;
                let mut cs = BTreeSet::new();
                let mx = self.cands.iter().map(|c| c.base + c.vers.len()).max().unwrap();
                for c in &self.cands {
                    let mut c = c.clone();
                    c.base = mx - c.vers.len();
                    cs.insert(c);
                }
                n.cands = cs;
                if n.syncs.insert(*id, mx - 1).is_some() {
                    return Err(format!("sync id {} requested twice", id));
                }
            }
            Ev::ReplySync(id) => {
                let Some(ix) = n.syncs.remove(id) else { return Err(format!("sync {} acknowledged but not outstanding", id)) };
                let mut cs = BTreeSet::new();
                for c in &self.cands {
                    if c.base >= ix {
                        cs.insert(c.clone());
                    }
                }
                if cs.is_empty() {
                    return Err("sync acknowledged although its version is not durable".into());
                }
                n.cands = cs;
            }
        }
        // normalise numbering when no sync is outstanding
        if n.syncs.is_empty() {
            n.cands = n.cands.into_iter().map(|mut c| { c.base = 0; c }).collect();
        }
        Ok(n)
    }
    pub fn to_v(&self) -> V {
        let m = |m: &BTreeMap<i128, i128>| V::map(m.iter().map(|(k, v)| (V::Int(*k), V::Int(*v))));
        V::tup(vec![
            V::set(self.cands.iter().map(|c| V::tup(vec![V::Int(c.base as i128), V::seq(c.vers.iter().map(m).collect())]))),
            V::map(self.reqs.iter().map(|(k, v)| (V::Int(*k), V::tup(vec![V::Int(v.0 as i128), V::Int(v.1), V::Int(v.2)])))),
            V::map(self.replies.iter().map(|(k, v)| (V::Int(*k), v.map(V::Int).unwrap_or(V::Undef)))),
            V::map(self.syncs.iter().map(|(k, v)| (V::Int(*k), V::Int(*v as i128)))),
        ])
    }
    pub fn from_v(v: &V) -> KvObs {
        let V::Tup(t) = v else { panic!() };
        let int = |v: &V| v.as_int().unwrap();
        KvObs {
            cands: t[0]
                .as_set()
                .unwrap()
                .iter()
                .map(|c| {
                    let V::Tup(c) = c else { panic!() };
                    Cand1 { base: int(&c[0]) as usize, vers: c[1].as_seq().unwrap().iter().map(|m| m.as_map().unwrap().iter().map(|(k, v)| (int(k), int(v))).collect()).collect() }
                })
                .collect(),
            reqs: t[1]
                .as_map()
                .unwrap()
                .iter()
                .map(|(k, v)| {
                    let V::Tup(v) = v else { panic!() };
                    (int(k), (int(&v[0]) as u8, int(&v[1]), int(&v[2])))
                })
                .collect(),
            replies: t[2].as_map().unwrap().iter().map(|(k, v)| (int(k), v.as_int())).collect(),
            syncs: t[3].as_map().unwrap().iter().map(|(k, v)| (int(k), int(v) as usize)).collect(),
        }
    }
}

pub struct Bounds {
    pub keys: i128,
    pub puts: i128,
    pub queries: i128,
    pub crashes: i128,
    pub syncs: i128,
    pub outstanding: usize,
}
/// counters: puts, queries, crashes, syncs, ids
#[derive(Clone, Debug)]
pub struct Ct(pub [i128; 6]);
impl Ct {
    pub fn to_v(&self) -> V {
        V::seq(self.0.iter().map(|x| V::Int(*x)).collect())
    }
    pub fn from_v(v: &V) -> Ct {
        let mut a = [0; 6];
        for (i, x) in v.as_seq().unwrap().iter().enumerate() {
            a[i] = x.as_int().unwrap();
        }
        Ct(a)
    }
}

pub fn int_of(v: &V) -> i128 {
    match v {
        V::Int(i) => *i,
        V::Data(d) if d.f.len() == 1 => int_of(&d.f[0]),
        o => panic!("expected number, got {:?}", o),
    }
}

/// decode a CrashTolerantAsyncMap label
pub fn decode(l: &V) -> Option<Ev> {
    match l.variant().as_str() {
        "OperateOp" => {
            let b = l.field("base_op")?;
            match b.variant().as_str() {
                "RequestOp" => {
                    let r = b.field("req")?;
                    let (k, key, val) = decode_input(&r.field("input")?)?;
                    Some(Ev::Req(int_of(&r.field("id")?), k, key, val))
                }
                "ExecuteOp" => {
                    let r = b.field("reply")?;
                    Some(Ev::Exec(int_of(&b.field("req")?.field("id")?), decode_output(&r.field("output")?)))
                }
                "ReplyOp" => {
                    let r = b.field("reply")?;
                    Some(Ev::Reply(int_of(&r.field("id")?), decode_output(&r.field("output")?)))
                }
                _ => None,
            }
        }
        "CrashOp" => Some(Ev::Crash),
        "SyncOp" => Some(Ev::Durable),
        "ReqSyncOp" => Some(Ev::ReqSync(int_of(&l.field("sync_req_id")?))),
        "ReplySyncOp" => Some(Ev::ReplySync(int_of(&l.field("sync_req_id")?))),
        _ => None,
    }
}
pub fn decode_input(i: &V) -> Option<(u8, i128, i128)> {
    Some(match i.variant().as_str() {
        "QueryInput" => (0, int_of(&i.field("key")?), 0),
        "PutInput" => (1, int_of(&i.field("key")?), int_of(&i.field("value")?)),
        "NoopInput" => (2, 0, 0),
        _ => return None,
    })
}
pub fn decode_output(o: &V) -> Option<i128> {
    match o.variant().as_str() {
        "QueryOutput" => Some(int_of(&o.field("value").unwrap())),
        _ => None,
    }
}

pub struct SystemModel {
    pub mid: usize,
    pub b: Bounds,
    /// label wraps a CrashTolerantAsyncMap label in field ctam_label
    pub wrapped: bool,
    pub outcomes: BTreeMap<String, u64>,
}
impl SystemModel {
    fn note(&mut self, s: &str) {
        *self.outcomes.entry(s.to_string()).or_insert(0) += 1;
    }
}
pub fn data(c: &Ctx, module: &str, ty: &str, var: &str, f: Vec<V>) -> V {
    let t = c.p.find_type(module, ty).unwrap_or_else(|| panic!("type {}::{} not found", module, ty));
    let k = c.p.types[t].ctors.iter().find(|k| &*name(k.name) == var).unwrap_or_else(|| panic!("{}::{}::{} not found", module, ty, var)).clone();
    if k.fields.len() != f.len() {
        panic!("{}::{}::{} has changed shape", module, ty, var);
    }
    V::data(&k, f)
}
pub fn basic_universes(c: &mut Ctx, keys: i128, vals: i128) {
    let ks = (0..keys).map(|i| data(c, "spec::KeyType_t", "Key", "Key", vec![V::Int(i)])).collect();
    c.set_univ("Key", ks);
    let vs = (0..=vals).map(|i| data(c, "spec::Messages_t", "Value", "Value", vec![V::Int(i)])).collect();
    c.set_univ("Value", vs);
}

impl Model for SystemModel {
    fn pending(&mut self, _s: &V, mon: &V) -> u32 {
        let V::Tup(t) = mon else { panic!() };
        let ct = Ct::from_v(&t[1]);
        if ct.0[5] > 0 {
            return 0;
        }
        let obs = KvObs::from_v(&t[0]);
        (!obs.syncs.is_empty()) as u32 | (!obs.replies.is_empty()) as u32 * 2 | (!obs.reqs.is_empty()) as u32 * 4
    }
    fn discharges(&mut self, lbl: &V, mon: &V) -> Option<u32> {
        let V::Tup(t) = mon else { panic!() };
        if Ct::from_v(&t[1]).0[5] > 0 {
            return None;
        }
        let l = if self.wrapped { lbl.field("ctam_label").unwrap() } else { lbl.clone() };
        match decode(&l) {
            Some(Ev::Crash) => None,
            Some(Ev::ReplySync(_)) => Some(1),
            Some(Ev::Reply(..)) => Some(2),
            Some(Ev::Exec(..)) => Some(4),
            _ => Some(0),
        }
    }
    fn obligation_name(&self, bit: u32) -> String {
        ["acknowledging the outstanding sync", "delivering the reply", "executing the outstanding request"][bit as usize].into()
    }
    fn initial(&mut self, c: &mut Ctx) -> ER<Vec<(V, V)>> {
        let mon = V::tup(vec![KvObs::new().to_v(), Ct([0; 6]).to_v()]);
        Ok(c.initial(self.mid)?.into_iter().map(|s| (s, mon.clone())).collect())
    }
    fn labels(&mut self, c: &mut Ctx, _s: &V, mon: &V) -> ER<Vec<Option<V>>> {
        let V::Tup(t) = mon else { panic!() };
        let obs = KvObs::from_v(&t[0]);
        let ct = Ct::from_v(&t[1]);
        // requests offered by the client in this state
        let mut reqs = vec![];
        let id = ct.0[4];
        if obs.reqs.len() + obs.replies.len() < self.b.outstanding && ct.0[5] == 0 {
            for k in 0..self.b.keys {
                let key = data(c, "spec::KeyType_t", "Key", "Key", vec![V::Int(k)]);
                let mk = |c: &Ctx, input: V| data(c, "spec::MapSpec_t", "Request", "Request", vec![input, V::Int(id)]);
                if ct.0[0] < self.b.puts {
                    let val = data(c, "spec::Messages_t", "Value", "Value", vec![V::Int(ct.0[0] + 1)]);
                    let i = data(c, "spec::MapSpec_t", "Input", "PutInput", vec![key.clone(), val]);
                    reqs.push(mk(c, i));
                }
                let i = data(c, "spec::MapSpec_t", "Input", "QueryInput", vec![key.clone()]);
                reqs.push(mk(c, i));
            }
        }
        let mut syncs = if ct.0[3] < self.b.syncs && ct.0[5] == 0 { vec![V::Int(ct.0[3])] } else { vec![] };
        if ct.0[5] == 0 {
            // outstanding requests and syncs must not be accepted a second time
            if let Some(e) = _s.field("async_ephemeral").or_else(|| _s.field("ephemeral")) {
                collect(&e, &mut |v| {
                    if let V::Data(d) = v {
                        if &*name(d.ctor.name) == "Request" {
                            reqs.push(v.clone());
                        }
                    }
                });
            }
            syncs.extend(obs.syncs.keys().map(|k| V::Int(*k)));
        }
        c.set_univ("Request", reqs);
        c.set_univ("SyncReqId", syncs);
        let sc = c.p.machines[self.mid].scope;
        let _ = sc;
        Ok(vec![Some(any_label(c, self.mid))])
    }
    fn observe(&mut self, c: &mut Ctx, _pre: &V, lbl: &V, _post: &V, _path: &Path, mon: &V) -> ER<Obs> {
        let V::Tup(t) = mon else { panic!() };
        let mut ct = Ct::from_v(&t[1]);
        let _ = c;
        let l = if self.wrapped { lbl.field("ctam_label").unwrap() } else { lbl.clone() };
        if std::env::var("MC_INV").is_ok() {
            if !c.call_named(_post.clone(), "inv", vec![])?.is_true() {
                return Ok(Obs::Bad("declared invariant broken".into()));
            }
            let a = c.call_named(_pre.clone(), "i", vec![])?;
            let b = c.call_named(_post.clone(), "i", vec![])?;
            let mid = c.p.find_machine("spec::MapSpec_t", "CrashTolerantAsyncMap").unwrap();
            if !c.holds(mid, &a, &b, Some(&l))? {
                return Ok(Obs::Bad(format!("no refinement: {:?} -- {:?} --> {:?}", a, l, b)));
            }
        }
        if ct.0[5] >= 2 {
            return Ok(Obs::Prune);
        }
        let Some(ev) = decode(&l) else {
            if ct.0[5] > 0 {
                return Ok(Obs::Prune);
            }
            return Ok(Obs::Go(mon.clone()));
        };
        let obs = KvObs::from_v(&t[0]);
        // probe mode: a query beyond the budget is only executed, then the branch ends
        if ct.0[5] > 0 && !matches!(&ev, Ev::Exec(id, _) if *id == ct.0[4] - 1) {
            return Ok(Obs::Prune);
        }
        match &ev {
            Ev::Req(_, k, _, _) => {
                ct.0[4] += 1;
                if *k == 1 {
                    ct.0[0] += 1;
                } else {
                    if ct.0[1] >= self.b.queries {
                        ct.0[5] = 1;
                    } else {
                        ct.0[1] += 1;
                    }
                }
            }
            Ev::Exec(_, o) => {
                if ct.0[5] > 0 {
                    ct.0[5] = 2;
                }
                self.note(match o { Some(_) => "query executed", None => "put executed" });
            }
            Ev::Crash => {
                if ct.0[2] >= self.b.crashes {
                    return Ok(Obs::Prune);
                }
                ct.0[2] += 1;
                self.note("crash");
            }
            Ev::ReqSync(id) if !obs.syncs.contains_key(id) && *id < ct.0[3] => return Ok(Obs::Prune),
            Ev::ReqSync(_) => ct.0[3] += 1,
            Ev::ReplySync(_) => self.note("sync acknowledged"),
            _ => {}
        }
        if let Ev::ReplySync(id) = &ev {
            if obs.syncs.get(id).map_or(false, |ix| obs.cands.iter().any(|c| c.base < *ix)) {
                self.note("sync made unsynced puts durable");
            }
        }
        match obs.step(&ev) {
            Err(e) => Ok(Obs::Bad(e)),
            Ok(n) => {
                if matches!(ev, Ev::Crash) && n.cands.len() > 1 {
                    self.note("crash with unsynced puts");
                }
                Ok(Obs::Go(V::tup(vec![n.to_v(), ct.to_v()])))
            }
        }
    }
}
#[allow(dead_code)]
fn _u(_: Rc<u8>) {}
/// universes for values that transitions choose freely: histories and maps come from the state itself
pub fn sys_universes(c: &mut Ctx) {
    // sub-ranges of every message history in the pre-state
    c.dyn_univ.insert(
        sym("MsgHistory"),
        Rc::new(|c: &mut Ctx, _| {
            let mut out = BTreeSet::new();
            if let Some(p) = c.cur_pre.clone() {
                collect(&p, &mut |v| {
                    if let V::Data(d) = v {
                        if &*name(d.ctor.name) == "MsgHistory" && d.ground {
                            let (Some(m), Some(a), Some(b)) = (v.field("msgs"), v.field("seq_start"), v.field("seq_end")) else { return };
                            let m = m.as_map().unwrap().clone();
                            let (a, b) = (int_of(&a), int_of(&b));
                            for x in a..=b {
                                for y in x..=b {
                                    let sub = V::map(m.iter().filter(|(k, _)| int_of(k) >= x && int_of(k) < y).map(|(k, v)| (k.clone(), v.clone())));
                                    let f = d.ctor.fields.iter().map(|f| match &*name(*f) { "msgs" => sub.clone(), "seq_start" => V::Int(x), _ => V::Int(y) }).collect();
                                    out.insert(V::data(&d.ctor, f));
                                }
                            }
                        }
                    }
                });
            }
            Ok(out.into_iter().collect())
        }),
    );
}
pub fn collect(v: &V, f: &mut dyn FnMut(&V)) {
    f(v);
    match v {
        V::Tup(x) | V::Seq(x) => x.iter().for_each(|y| collect(y, f)),
        V::Set(x) => x.iter().for_each(|y| collect(y, f)),
        V::MSet(x) => x.keys().for_each(|y| collect(y, f)),
        V::Map(x) => x.iter().for_each(|(k, y)| {
            collect(k, f);
            collect(y, f)
        }),
        V::Data(d) => d.f.iter().for_each(|y| collect(y, f)),
        _ => {}
    }
}
