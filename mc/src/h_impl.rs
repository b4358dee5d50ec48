//! The store as the program model drives it: ConcreteProgramModel over the asynchronous disk, with
//! client requests, syncs and crashes, against the observer of the client-visible history.
use crate::eval::*;
use crate::explore::*;
use crate::h_system::*;
use crate::value::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct ImplModel {
    pub mid: usize,
    pub b: Bounds,
    pub outcomes: BTreeMap<String, u64>,
}
const SYNC0: i128 = 100;
const DISK0: i128 = 200;

pub fn universes(c: &mut Ctx) -> Result<(), String> {
    let p = c.p.clone();
    // pages: a superblock marshals to a page that holds it and nothing else
    if !c.set_override("implementation::DiskLayout_v::spec_marshall", Rc::new(|_, a| Ok(Some(V::seq(vec![a[0].clone()]))))) {
        return Err("spec_marshall not found".into());
    }
    if !c.set_override(
        "implementation::DiskLayout_v::spec_unmarshall",
        Rc::new(|c, a| {
            let v = c.ground(a[0].clone())?;
            Ok(Some(match v.as_seq() {
                Some(s) if s.len() == 1 => s[0].clone(),
                _ => V::Undef,
            }))
        }),
    ) {
        return Err("spec_unmarshall not found".into());
    }
    c.set_override("spec::AsyncDisk_t::page_count", Rc::new(|_, _| Ok(Some(V::Int(1)))));
    c.set_override("spec::AsyncDisk_t::au_count", Rc::new(|_, _| Ok(Some(V::Int(1)))));
    // pages and disk request ids in flight
    c.dyn_univ.insert(
        sym("RawPage"),
        Rc::new(|c: &mut Ctx, _| {
            let mut out = BTreeSet::new();
            if let Some(s) = c.cur_pre.clone() {
                collect(&s, &mut |v| {
                    if let V::Data(d) = v {
                        if &*name(d.ctor.name) == "ReadResp" {
                            out.insert(d.f[0].clone());
                        }
                    }
                });
            }
            Ok(out.into_iter().collect())
        }),
    );
    version_universe(c);
    // disk operations a step leaves open
    c.enum_hook = Some(Rc::new(move |c: &mut Ctx, ty: &crate::ast::Ty, _fr: Fr, _hint: Sym| {
        use crate::ast::Ty;
        let Ty::Named(n, args) = ty else { return Ok(None) };
        if &*name(*n.last().unwrap()) != "Multiset" || args.len() != 1 {
            return Ok(None);
        }
        let Ty::Tuple(kv) = &args[0] else { return Ok(None) };
        let Some(Ty::Named(t, _)) = kv.get(1) else { return Ok(None) };
        let Some(s) = c.cur_pre.clone() else { return Ok(None) };
        let Some(d) = s.field("disk") else { return Ok(None) };
        let single = |k: V, v: V| V::MSet(Rc::new(std::iter::once((V::tup(vec![k, v]), 1)).collect()));
        let mut out = vec![V::MSet(Rc::new(BTreeMap::new()))];
        match &*name(*t.last().unwrap()) {
            "DiskResponse" | "GenericDiskResponse" => {
                if let Some(m) = d.field("responses").and_then(|m| m.as_map().cloned()) {
                    for (k, v) in m.iter() {
                        out.push(single(k.clone(), v.clone()));
                    }
                }
            }
            "DiskRequest" | "GenericDiskRequest" => {
                let id = c.univ.get(&sym("ID")).and_then(|u| u.iter().filter_map(|v| v.as_int()).max());
                if let (Some(id), Some(m)) = (id, d.field("content").and_then(|m| m.as_map().cloned())) {
                    for (a, pg) in m.iter() {
                        out.push(single(V::Int(id), data(c, "spec::AsyncDisk_t", "GenericDiskRequest", "ReadReq", vec![a.clone()])));
                        out.push(single(V::Int(id), data(c, "spec::AsyncDisk_t", "GenericDiskRequest", "WriteReq", vec![a.clone(), pg.clone()])));
                    }
                }
            }
            _ => return Ok(None),
        }
        Ok(Some(out))
    }));
    // a freshly made disk
    let mut disks = vec![];
    let addr = call0(c, "implementation::DiskLayout_v", "spec_superblock_addr")?;
    let init = call0(c, "spec::MapSpec_t", "my_init")?;
    let store = data(c, "spec::MapSpec_t", "PersistentState", "PersistentState", vec![init]);
    let sbt = p.find_type("implementation::DiskLayout_v", "Superblock").ok_or("Superblock not found")?;
    let sbk = p.types[sbt].ctors[0].clone();
    for v in 0..3 {
        let sb = V::data(&sbk, sbk.fields.iter().map(|f| if &*name(*f) == "store" { store.clone() } else { V::Int(v) }).collect());
        let page = V::seq(vec![sb]);
        disks.push(V::map(vec![(addr.clone(), page.clone())]));
    }
    c.set_univ("Disk", disks);
    Ok(())
}
/// histories: the present one and its extensions by one accepted put
pub fn version_universe(c: &mut Ctx) {
    c.dyn_univ.insert(
        sym("FloatingSeq"),
        Rc::new(move |c: &mut Ctx, _| {
            let mut out = BTreeSet::new();
            let Some(s) = c.cur_pre.clone() else { return Ok(vec![]) };
            let h = s.field("program").and_then(|p| p.field("state")).and_then(|s| s.field("history")).or_else(|| s.field("versions"));
            let Some(h) = h else { return Ok(vec![]) };
            let (V::Data(d), Some(ents)) = (&h, h.field("entries").and_then(|e| e.as_seq().cloned())) else { return Ok(vec![]) };
            let mk = |start: V, e: Vec<V>| {
                let f = d.ctor.fields.iter().map(|f| if &*name(*f) == "start" { start.clone() } else { V::seq(e.clone()) }).collect();
                V::data(&d.ctor, f)
            };
            let start = h.field("start").unwrap();
            out.insert(h.clone());
            let ents: Vec<V> = ents.to_vec();
            let Some(last) = ents.last().cloned() else { return Ok(out.into_iter().collect()) };
            let mut x = ents.clone();
            x.push(last.clone());
            out.insert(mk(start.clone(), x));
            let shift: Vec<V> = ents[1..].to_vec();
            out.insert(mk(V::Int(int_of(&start) + 1), shift.clone()));
            let Some(km) = last.field("appv").and_then(|a| a.field("kmmap")) else { return Ok(out.into_iter().collect()) };
            let mut puts = vec![];
            if let Some(r) = s.field("requests").or_else(|| s.field("async_ephemeral")) {
                collect(&r, &mut |v| {
                    if let V::Data(d) = v {
                        if &*name(d.ctor.name) == "PutInput" {
                            puts.push(v.clone());
                        }
                    }
                });
            }
            for i in puts {
                let (k, v) = (i.field("key").unwrap(), i.field("value").unwrap());
                let msg = data(c, "spec::Messages_t", "Message", "Define", vec![v]);
                let km2 = c.call_named(km.clone(), "insert", vec![k, msg])?;
                let km2 = c.ground(km2)?;
                let e = replace(&last, &km, &km2);
                let mut x = ents.clone();
                x.push(e.clone());
                out.insert(mk(start.clone(), x));
                let mut x = shift.clone();
                x.push(e.clone());
                out.insert(mk(start.clone(), x.clone()));
                out.insert(mk(V::Int(int_of(&start) + 1), x));
            }
            Ok(out.into_iter().collect())
        }),
    );
}
fn call0(c: &mut Ctx, m: &str, f: &str) -> Result<V, String> {
    let fid = c.p.find_fn(&format!("{}::{}", m, f)).ok_or(format!("{}::{} not found", m, f))?;
    let v = c.call_fn(fid, vec![]).and_then(|v| c.ground(v));
    crate::reg::er(c, v)
}
fn replace(v: &V, a: &V, b: &V) -> V {
    let mut m = BTreeMap::new();
    m.insert(a.clone(), b.clone());
    rename(v, &m)
}
fn ids_in(s: &V) -> BTreeSet<i128> {
    let mut out = BTreeSet::new();
    if let Some(d) = s.field("disk") {
        for f in ["requests", "responses"] {
            if let Some(m) = d.field(f).and_then(|m| m.as_map().cloned()) {
                out.extend(m.keys().filter_map(|k| k.as_int()));
            }
        }
    }
    out
}

impl Model for ImplModel {
    fn initial(&mut self, c: &mut Ctx) -> ER<Vec<(V, V)>> {
        let mon = V::tup(vec![KvObs::new().to_v(), Ct([0; 6]).to_v(), V::set(vec![])]);
        let r = c.initial(self.mid)?.into_iter().map(|s| (s, mon.clone())).collect();
        c.univ.remove(&sym("Disk"));
        Ok(r)
    }
    fn pending(&mut self, s: &V, mon: &V) -> u32 {
        let V::Tup(t) = mon else { panic!() };
        if Ct::from_v(&t[1]).0[5] > 0 {
            return 0;
        }
        let obs = KvObs::from_v(&t[0]);
        let accepted = s.field("sync_requests").map_or(false, |m| matches!(&m, V::MSet(m) if !m.is_empty()));
        (!obs.syncs.is_empty()) as u32 | (!obs.replies.is_empty()) as u32 * 2 | (!obs.reqs.is_empty()) as u32 * 4 | (accepted as u32) * 8
    }
    fn discharges(&mut self, lbl: &V, mon: &V) -> Option<u32> {
        let V::Tup(t) = mon else { panic!() };
        if Ct::from_v(&t[1]).0[5] > 0 {
            return None;
        }
        match &*lbl.variant() {
            "Crash" => None,
            "DeliverReply" => Some(2),
            "ProgramUIOp" => match lbl.field("op").unwrap().variant().as_str() {
                "Execute" => Some(4),
                "DeliverSyncReply" => Some(1),
                _ => Some(8),
            },
            _ => Some(0),
        }
    }
    fn obligation_name(&self, bit: u32) -> String {
        ["acknowledging the outstanding sync", "delivering the reply", "executing the outstanding request", "taking up the accepted sync"][bit as usize].into()
    }
    fn labels(&mut self, c: &mut Ctx, s: &V, mon: &V) -> ER<Vec<Option<V>>> {
        let V::Tup(t) = mon else { panic!() };
        let obs = KvObs::from_v(&t[0]);
        let ct = Ct::from_v(&t[1]);
        let mut reqs = vec![];
        let id = ct.0[4];
        if obs.reqs.len() + obs.replies.len() < self.b.outstanding && ct.0[5] == 0 {
            for k in 0..self.b.keys {
                let key = data(c, "spec::KeyType_t", "Key", "Key", vec![V::Int(k)]);
                let mut mk = |c: &Ctx, input: V| reqs.push(data(c, "spec::MapSpec_t", "Request", "Request", vec![input, V::Int(id)]));
                if ct.0[0] < self.b.puts {
                    let val = data(c, "spec::Messages_t", "Value", "Value", vec![V::Int(ct.0[0] + 1)]);
                    let i = data(c, "spec::MapSpec_t", "Input", "PutInput", vec![key.clone(), val]);
                    mk(c, i);
                }
                let i = data(c, "spec::MapSpec_t", "Input", "QueryInput", vec![key.clone()]);
                mk(c, i);
            }
        }
        // an id that has been used before must not be accepted again
        if id > 0 && ct.0[5] == 0 {
            let n = data(c, "spec::MapSpec_t", "Input", "NoopInput", vec![]);
            reqs.push(data(c, "spec::MapSpec_t", "Request", "Request", vec![n, V::Int(0)]));
        }
        c.set_univ("Request", reqs);
        let mut syncs: Vec<V> = obs.syncs.keys().map(|k| V::Int(*k)).collect();
        if let Some(V::MSet(m)) = s.field("sync_requests") {
            syncs.extend(m.keys().cloned());
        }
        if let V::Set(a) = &t[2] {
            syncs.extend(a.iter().cloned());
        }
        if ct.0[3] > 0 && ct.0[5] == 0 {
            syncs.push(V::Int(SYNC0));
        }
        if ct.0[3] < self.b.syncs && ct.0[5] == 0 {
            syncs.push(V::Int(SYNC0 + ct.0[3]));
        }
        let syncs: BTreeSet<V> = syncs.into_iter().collect();
        c.set_univ("SyncReqId", syncs.into_iter().collect());
        let mut ids = ids_in(s);
        // the lowest unused disk request id: older ones no longer appear anywhere
        let fl = s.field("program").and_then(|p| p.field("state")).map(|v| format!("{:?}", v)).unwrap_or_default();
        let mut n = DISK0;
        while ids.contains(&n) || fl.contains(&n.to_string()) {
            n += 1;
        }
        ids.insert(n);
        c.set_univ("ID", ids.into_iter().map(V::Int).collect());
        Ok(vec![Some(any_label(c, self.mid))])
    }
    fn observe(&mut self, c: &mut Ctx, pre: &V, l: &V, post: &V, _path: &Path, mon: &V) -> ER<Obs> {
        let V::Tup(t) = mon else { panic!() };
        let mut ct = Ct::from_v(&t[1]);
        let _ = c;
        if ct.0[5] >= 2 {
            return Ok(Obs::Prune);
        }
        let obs = KvObs::from_v(&t[0]);
        let mut acked: BTreeSet<V> = t[2].as_set().unwrap().iter().cloned().collect();
        let int = |v: Option<V>| int_of(&v.unwrap());
        let mut ev = None;
        match &*l.variant() {
            "AcceptRequest" => {
                let r = l.field("req").unwrap();
                if int(r.field("id")) < ct.0[4] {
                    return Ok(Obs::Bad("a request id was accepted a second time".into()));
                }
                let (k, key, val) = decode_input(&r.field("input").unwrap()).unwrap();
                ev = Some(Ev::Req(int(r.field("id")), k, key, val));
            }
            "DeliverReply" => {
                let r = l.field("reply").unwrap();
                ev = Some(Ev::Reply(int(r.field("id")), decode_output(&r.field("output").unwrap())));
            }
            "ProgramUIOp" => {
                let op = l.field("op").unwrap();
                match &*op.variant() {
                    "Execute" => {
                        let r = op.field("reply").unwrap();
                        if int(r.field("id")) != int(op.field("req").unwrap().field("id")) {
                            return Ok(Obs::Bad("a reply answers another request".into()));
                        }
                        ev = Some(Ev::Exec(int(op.field("req").unwrap().field("id")), decode_output(&r.field("output").unwrap())));
                    }
                    "AcceptSyncRequest" => {
                        let id = op.field("sync_req_id").unwrap();
                        // the client has asked for it (the request token exists)
                        if !matches!(pre.field("sync_requests"), Some(V::MSet(m)) if m.contains_key(&id)) {
                            return Ok(Obs::Prune);
                        }
                        ev = Some(Ev::ReqSync(int_of(&id)));
                    }
                    _ => {
                        let id = int(op.field("sync_req_id"));
                        // replies only to syncs the running program has taken up
                        if !obs.syncs.contains_key(&id) {
                            return Ok(Obs::Prune);
                        }
                        acked.insert(V::Int(id));
                        ev = Some(Ev::ReplySync(id));
                    }
                }
            }
            "AcceptSyncRequest" => {
                let id = int(l.field("sync_req_id"));
                if id < SYNC0 + ct.0[3] {
                    return Ok(Obs::Bad("a sync id was accepted a second time".into()));
                }
                if id != SYNC0 + ct.0[3] || ct.0[3] >= self.b.syncs || ct.0[5] > 0 {
                    return Ok(Obs::Prune);
                }
                ct.0[3] += 1;
            }
            "DeliverSyncReply" => {
                let id = l.field("sync_req_id").unwrap();
                if !acked.remove(&id) {
                    return Ok(Obs::Bad("sync reply delivered that the program did not give".into()));
                }
            }
            "Crash" => ev = Some(Ev::Crash),
            "DiskInternal" => {
                let writes = |s: &V| -> usize {
                    let mut n = 0;
                    if let Some(r) = s.field("disk").and_then(|d| d.field("requests")) {
                        collect(&r, &mut |v| {
                            if let V::Data(d) = v {
                                n += (&*name(d.ctor.name) == "WriteReq") as usize;
                            }
                        });
                    }
                    n
                };
                if writes(pre) > writes(post) {
                    ev = Some(Ev::Durable);
                    self.note("superblock written");
                } else {
                    self.note("superblock read");
                }
            }
            "ProgramDiskOp" => {
                if ids_in(post).len() > 2 {
                    return Ok(Obs::Beyond);
                }
            }
            _ => {}
        }
        let Some(ev) = ev else {
            if ct.0[5] > 0 && !matches!(&*l.variant(), "ProgramDiskOp") {
                return Ok(Obs::Prune);
            }
            return Ok(Obs::Go(V::tup(vec![t[0].clone(), ct.to_v(), V::set(acked)])));
        };
        // probe mode: a query beyond the budget is only executed (recovery first if need be)
        if ct.0[5] > 0 && !matches!(&ev, Ev::Exec(id, _) if *id == ct.0[4] - 1) && !matches!((&ev, &*l.variant()), (Ev::Durable, "DiskInternal")) {
            return Ok(Obs::Prune);
        }
        match &ev {
            Ev::Req(_, k, _, _) => {
                ct.0[4] += 1;
                if *k == 1 {
                    ct.0[0] += 1;
                } else if ct.0[1] >= self.b.queries {
                    ct.0[5] = 1;
                } else {
                    ct.0[1] += 1;
                }
            }
            Ev::Exec(_, o) => {
                if ct.0[5] > 0 {
                    ct.0[5] = 2;
                }
                self.note(match o { Some(_) => "query executed", None => "put executed" });
            }
            Ev::Crash => {
                if ct.0[2] >= self.b.crashes {
                    return Ok(Obs::Prune);
                }
                ct.0[2] += 1;
                self.note("crash");
            }
            Ev::ReplySync(id) => {
                self.note("sync acknowledged");
                if obs.syncs.get(id).map_or(false, |ix| obs.cands.iter().any(|c| c.base < *ix)) {
                    self.note("sync made unsynced puts durable");
                }
            }
            _ => {}
        }
        match obs.step(&ev) {
            Err(e) => Ok(Obs::Bad(e)),
            Ok(n) => {
                if matches!(ev, Ev::Crash) && obs.cands.iter().any(|c| c.vers.len() > 1) {
                    self.note("crash with unsynced puts");
                }
                Ok(Obs::Go(V::tup(vec![n.to_v(), ct.to_v(), V::set(acked)])))
            }
        }
    }
}
impl ImplModel {
    fn note(&mut self, s: &str) {
        *self.outcomes.entry(s.to_string()).or_insert(0) += 1;
    }
}
