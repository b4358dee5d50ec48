//! The environment of the program: clients, and a disk that answers when the explorer says so.
use crate::implementation::DiskLayout_v::ISuperblock;
use crate::abstract_system::MsgHistory_v::KeyedMessage;
use crate::spec::AsyncDisk_t::{GenericDiskRequest, GenericDiskResponse};
use crate::spec::ImplDisk_t::*;
use crate::spec::KeyType_t::Key;
use crate::spec::Messages_t::{Message, Value};
use crate::trusted::ReqReply_t::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use vstd::seq::Seq;

/// thrown to end a run
pub struct End;
/// thrown to crash the program
pub struct Crash;
pub struct Req {
    id: u64,
    /// the request, and how many puts were made before it
    what: char,
    key: u64,
    before: usize,
    answered: bool,
}
/// a page image: first log position and the puts it holds
type Image = (u64, Vec<(u64, u64)>);
pub struct Env {
    prefix: Vec<u32>,
    pub made: Vec<(u32, u32)>,
    left: [u32; 4],
    crashes: u32,
    dead: bool,
    pub unanswered: Option<String>,
    pub log: Vec<String>,
    pub bad: Option<String>,
    pub oc: BTreeMap<&'static str, u64>,
    next: u64,
    reqs: Vec<Req>,
    puts: Vec<(u64, u64)>,
    images: Vec<Image>,
    /// image the disk may hold at the superblock
    disk: Vec<usize>,
    out: Vec<(u64, Option<usize>)>,
    sbaddr: Option<(u32, u32)>,
    arriving: Option<u32>,
    recovered: bool,
    steps: u32,
}
thread_local! { static E: RefCell<Option<Env>> = RefCell::new(None); }
const KINDS: [char; 4] = ['p', 's', 'n', 'q'];

pub fn reset(left: [u32; 4], crashes: u32, prefix: Vec<u32>) {
    let e = Env { prefix, made: vec![], left, crashes, dead: false, unanswered: None, log: vec![], bad: None, oc: BTreeMap::new(), next: 1, reqs: vec![], puts: vec![], images: vec![(0, vec![])], disk: vec![0], out: vec![], sbaddr: None, arriving: None, recovered: false, steps: 0 };
    E.with(|x| *x.borrow_mut() = Some(e));
}
pub fn take() -> Env {
    E.with(|x| x.borrow_mut().take().unwrap())
}
pub fn with<R>(f: impl FnOnce(&mut Env) -> Result<R, ()>) -> R {
    let r = E.with(|x| f(x.borrow_mut().as_mut().unwrap()));
    match r {
        Ok(r) => r,
        Err(()) if E.with(|x| x.borrow().as_ref().unwrap().dead) => std::panic::resume_unwind(Box::new(Crash)),
        Err(()) => std::panic::resume_unwind(Box::new(End)),
    }
}
/// stand-in for the page format, which the repository has not written yet: an image per page
pub fn marshall_page(sb: &ISuperblock) -> Seq<u8> {
    with(|e| {
        let msgs = sb.journal.msg_history.iter().map(|m| (m.key.0, match &m.message { Message::Define { value } => value.0, _ => u64::MAX })).collect();
        e.images.push((sb.journal.seq_start, msgs));
        Ok(Seq::page(e.images.len() as u64 - 1))
    })
}
pub fn unmarshall_page(p: &Seq<u8>) -> ISuperblock {
    with(|e| {
        let im = e.images[p.0 as usize].clone();
        let msgs = im.1.iter().map(|(k, v)| KeyedMessage { key: Key(*k), message: Message::Define { value: Value(*v) } }).collect();
        Ok(ISuperblock { journal: crate::implementation::DiskLayout_v::Journal { msg_history: msgs, seq_start: im.0 } })
    })
}
impl Env {
    fn note(&mut self, s: &'static str) {
        *self.oc.entry(s).or_insert(0) += 1;
    }
    fn fail<R>(&mut self, s: String) -> Result<R, ()> {
        self.bad.get_or_insert(s);
        Err(())
    }
    fn choose(&mut self, n: u32) -> u32 {
        let i = self.made.len();
        let c = self.prefix.get(i).copied().unwrap_or(0).min(n - 1);
        self.made.push((c, n));
        c
    }
    fn tick(&mut self) -> Result<(), ()> {
        self.steps += 1;
        if self.steps > 400 {
            return self.fail("the program keeps calling its environment without any event".into());
        }
        Ok(())
    }
    /// what the clients were promised holds whatever the disk may contain now
    fn crash_check(&mut self) -> Result<(), ()> {
        let need = self.reqs.iter().filter(|r| r.what == 's' && r.answered).map(|r| r.before).max().unwrap_or(0);
        let mut may: Vec<usize> = self.disk.clone();
        may.extend(self.out.iter().filter_map(|o| o.1));
        for i in may {
            let (start, msgs) = self.images[i].clone();
            if start != 0 || msgs.len() > self.puts.len() || msgs[..] != self.puts[..msgs.len()] {
                return self.fail(format!("a crash now may leave {:?} (from position {}) on disk, which is no prefix of the puts {:?}", msgs, start, self.puts));
            }
            if msgs.len() < need {
                return self.fail(format!("a sync of {} puts was answered, but a crash now may leave only {} of them on disk", need, msgs.len()));
            }
        }
        Ok(())
    }
    /// power is lost: the disk keeps the last landed image or any write in flight
    fn crash<R>(&mut self) -> Result<R, ()> {
        let mut may: Vec<usize> = self.disk.clone();
        may.extend(self.out.iter().filter_map(|o| o.1));
        may.dedup();
        let c = if may.len() > 1 { self.choose(may.len() as u32) } else { 0 };
        if c > 0 {
            self.note("write in flight lands at a crash");
        }
        let i = may[c as usize];
        self.crashes -= 1;
        self.dead = true;
        self.disk = vec![i];
        self.out.clear();
        let n = self.images[i].1.len();
        if n < self.puts.len() {
            self.note("puts lost at a crash");
        }
        if n > 0 {
            self.note("crash with puts on disk");
        }
        self.puts.truncate(n);
        self.reqs.retain(|r| r.answered);
        self.recovered = false;
        self.sbaddr = None;
        self.steps = 0;
        self.log.push(format!("CRASH leaving {:?}", self.images[i]));
        Err(())
    }
    pub fn restart(&mut self) {
        self.dead = false;
    }
    fn kinds(&self) -> Vec<u32> {
        (0..4).filter(|i| self.left[*i as usize] > 0).collect()
    }
    pub fn poll(&mut self) -> Result<(bool, bool), ()> {
        self.tick()?;
        self.arriving = None;
        // user request only, disk answer only, or both at once
        let ks = self.kinds();
        let disk = !self.out.is_empty();
        let n = ks.len() as u32 * if disk { 2 } else { 1 } + disk as u32;
        let crash = self.crashes > 0;
        if n == 0 {
            if crash && self.choose(2) == 1 {
                return self.crash();
            }
            return self.finish();
        }
        let mut c = self.choose(n + crash as u32);
        if c == n {
            return self.crash();
        }
        if disk {
            if c == 0 {
                return Ok((false, true));
            }
            c -= 1;
        }
        let both = c >= ks.len() as u32;
        self.arriving = Some(ks[(c % ks.len() as u32) as usize]);
        if both {
            self.note("request and disk answer at once");
        }
        Ok((true, both))
    }
    fn finish<R>(&mut self) -> Result<R, ()> {
        if let Some(r) = self.reqs.iter().find(|r| !r.answered && r.what == 'q') {
            self.unanswered.get_or_insert_with(|| "a query is never answered".to_string());
        }
        if let Some(r) = self.reqs.iter().find(|r| !r.answered && r.what != 'q') {
            let s = format!("request {} ({}) is never answered, though the disk has answered everything", r.id, r.what);
            return self.fail(s);
        }
        self.note("all requests answered");
        Err(())
    }
    pub fn noop_request(&mut self) -> Result<Request, ()> {
        self.take_request(2)
    }
    pub fn receive_request(&mut self) -> Result<Request, ()> {
        self.tick()?;
        let k = match self.arriving.take() {
            Some(k) => k,
            None => {
                let ks = self.kinds();
                if ks.is_empty() {
                    if !self.out.is_empty() {
                        return self.fail("the program waits for a request while the disk has answers for it".into());
                    }
                    return self.finish();
                }
                let c = self.choose(ks.len() as u32);
                ks[c as usize]
            }
        };
        self.take_request(k)
    }
    fn take_request(&mut self, k: u32) -> Result<Request, ()> {
        self.left[k as usize] = self.left[k as usize].saturating_sub(1);
        self.next += 1;
        let id = self.next;
        let what = KINDS[k as usize];
        let mut key = 0;
        let input = match what {
            'p' => {
                key = 1 + self.choose(2) as u64;
                Input::PutInput { key: Key(key), value: Value(100 + id) }
            }
            'q' => {
                key = 1 + self.choose(2) as u64;
                Input::QueryInput { key: Key(key) }
            }
            's' => Input::SyncInput,
            _ => Input::NoopInput,
        };
        self.log.push(format!("request {} {:?}", id, input));
        self.reqs.push(Req { id, what, key, before: self.puts.len(), answered: false });
        if what == 'p' {
            self.puts.push((key, 100 + id));
        }
        Ok(Request { input, id })
    }
    pub fn send_reply(&mut self, reply: Reply) -> Result<(), ()> {
        self.tick()?;
        self.log.push(format!("reply {} {:?}", reply.id, reply.output));
        let now = self.puts.clone();
        let Some(r) = self.reqs.iter_mut().find(|r| r.id == reply.id) else {
            return self.fail(format!("reply to request {}, which nobody made", reply.id));
        };
        let (what, key) = (r.what, r.key);
        if r.answered {
            return self.fail(format!("request {} is answered twice", reply.id));
        }
        r.answered = true;
        let want = now.iter().rev().find(|p| p.0 == key).map_or(0, |p| p.1);
        let ok = match (&reply.output, what) {
            (Output::PutOutput, 'p') | (Output::NoopOutput, 'n') | (Output::SyncOutput, 's') => true,
            (Output::QueryOutput { value }, 'q') => value.0 == want,
            _ => false,
        };
        if !ok {
            return self.fail(format!("request {} ({}) is answered with {:?}", reply.id, what, reply.output));
        }
        self.note(match what {
            'p' => "put answered",
            's' => "sync answered",
            'n' => "no-op answered",
            _ => "query answered",
        });
        self.crash_check()
    }
    pub fn send_disk(&mut self, r: IDiskRequest) -> Result<u64, ()> {
        self.tick()?;
        self.next += 1;
        let id = self.next;
        let (to, img) = match &r {
            GenericDiskRequest::ReadReq { from } => (from, None),
            GenericDiskRequest::WriteReq { to, data } => (to, Some(data.0 as usize)),
        };
        let a = (to.au, to.page);
        self.log.push(match img {
            None => format!("disk read {} of {:?}", id, a),
            Some(i) => format!("disk write {} to {:?}: {:?}", id, a, self.images[i]),
        });
        if *self.sbaddr.get_or_insert(a) != a {
            return self.fail(format!("the program uses disk address {:?}, but read its superblock from {:?}", a, self.sbaddr));
        }
        if img.is_some() && self.reqs.iter().any(|r| r.what == 's' && !r.answered && r.before < self.puts.len()) {
            self.note("write covers later puts too");
        }
        if self.out.iter().any(|o| o.1.is_some()) && img.is_some() {
            self.note("two writes in flight");
        }
        self.out.push((id, img));
        self.crash_check()?;
        Ok(id)
    }
    pub fn receive_disk(&mut self) -> Result<(u64, IDiskResponse), ()> {
        self.tick()?;
        if self.out.is_empty() {
            if self.kinds().is_empty() {
                return self.finish();
            }
            return self.fail("the program waits for a disk answer while nothing is outstanding".into());
        }
        if !self.recovered && self.crashes > 0 && self.choose(2) == 1 {
            self.note("crash during recovery");
            return self.crash();
        }
        let n = self.out.len() as u32;
        let c = if n > 1 { self.choose(n) } else { 0 };
        let (id, img) = self.out.remove(c as usize);
        self.log.push(format!("disk answers {}", id));
        match img {
            None => {
                // (several writes cannot be in flight while the program recovers)
                let d = self.disk[0];
                self.recovered = true;
                Ok((id, GenericDiskResponse::ReadResp { data: Seq::page(d as u64) }))
            }
            Some(i) => {
                self.disk = vec![i];
                let more: Vec<usize> = self.out.iter().filter_map(|o| o.1).collect();
                self.disk.extend(more);
                if self.reqs.iter().any(|r| r.what == 's' && !r.answered && r.before > self.images[i].1.len()) {
                    self.note("sync waits for the next write");
                }
                self.crash_check()?;
                Ok((id, GenericDiskResponse::WriteResp {}))
            }
        }
    }
}
