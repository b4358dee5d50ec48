//! The executable VeriBetrKV (Impl/*.dfy): the handlers of `MainHandlers` run on a simulated
//! asynchronous disk, one handler call at a time.
use crate::dafny::Loader;
use crate::dexec::*;
use crate::dnative;
use crate::value::*;
use std::collections::BTreeMap;
use std::rc::Rc;

/// a run of bytes and its fingerprint
pub type Run = (Rc<Vec<V>>, u128);
#[derive(Clone, Default)]
pub struct Disk {
    /// disjoint extents of written bytes
    pub segs: BTreeMap<u64, Run>,
}
fn run(v: Vec<V>) -> Run {
    let v = Rc::new(v);
    let h = fp(&V::Seq(v.clone()));
    (v, h)
}
impl Disk {
    pub fn write(&mut self, addr: u64, b: &Run) {
        let end = addr + b.0.len() as u64;
        let hit: Vec<u64> = self.segs.range(..end).filter(|(a, s)| **a + s.0.len() as u64 > addr).map(|(a, _)| *a).collect();
        for a in hit {
            let s = self.segs.remove(&a).unwrap().0;
            let e = a + s.len() as u64;
            if a < addr {
                self.segs.insert(a, run(s[..(addr - a) as usize].to_vec()));
            }
            if e > end {
                self.segs.insert(end, run(s[(end - a) as usize..].to_vec()));
            }
        }
        self.segs.insert(addr, b.clone());
    }
    pub fn read(&self, addr: u64, len: u64) -> Rc<Vec<V>> {
        if let Some(s) = self.segs.get(&addr) {
            if s.0.len() as u64 == len {
                return s.0.clone();
            }
        }
        let mut o = vec![V::Int(0); len as usize];
        let end = addr + len;
        for (a, s) in self.segs.range(..end) {
            let e = *a + s.0.len() as u64;
            if e <= addr {
                continue;
            }
            let lo = (*a).max(addr);
            let hi = e.min(end);
            for p in lo..hi {
                o[(p - addr) as usize] = s.0[(p - a) as usize].clone();
            }
        }
        Rc::new(o)
    }
    pub fn fp(&self) -> u128 {
        fp(&self.segs.iter().map(|(a, r)| (*a, r.0.len(), r.1 as u64, (r.1 >> 64) as u64)).collect::<Vec<_>>())
    }
}

#[derive(Clone)]
pub enum Io {
    Write(u64, u64, Run),
    Read(u64, u64, u64),
}
impl Io {
    pub fn id(&self) -> u64 {
        match self {
            Io::Write(i, ..) | Io::Read(i, ..) => *i,
        }
    }
    pub fn range(&self) -> (u64, u64) {
        match self {
            Io::Write(_, a, b) => (*a, *a + b.0.len() as u64),
            Io::Read(_, a, n) => (*a, *a + *n),
        }
    }
    pub fn is_write(&self) -> bool {
        matches!(self, Io::Write(..))
    }
    pub fn show(&self) -> String {
        let (a, b) = self.range();
        format!("{} of bytes {}..{}", if self.is_write() { "write" } else { "read" }, a, b)
    }
    pub fn fp(&self) -> u128 {
        match self {
            Io::Write(i, a, b) => fp(&(0u64, *i, *a, b.0.len() as u64, b.1 as u64, (b.1 >> 64) as u64)),
            Io::Read(i, a, n) => fp(&(1u64, *i, *a, *n)),
        }
    }
}
#[derive(Default)]
pub struct World {
    pub next: u64,
    pub out: Vec<Io>,
    pub resp: Option<(u64, u64, Rc<Vec<V>>)>,
}
fn world(dx: &mut Dx) -> &mut World {
    dx.world.as_mut().unwrap().downcast_mut::<World>().unwrap()
}
fn u(v: &V) -> u64 {
    match v {
        V::Int(i) => *i as u64,
        _ => 0,
    }
}

pub fn load() -> Result<Dx, String> {
    let p = Loader::load(&crate::repo(), &["Impl/MainHandlers.i.dfy"], &["MainHandlers"])?;
    let mut dx = Dx::new(Rc::new(p));
    dnative::fast_crc(&mut dx);
    dx.world = Some(Box::new(World::default()));
    let h = |n: &str| format!("MainDiskIOHandler.DiskIOHandler.{}", n);
    dx.native(&h("write"), |dx, a| {
        let V::Seq(b) = &a[2] else { return Err("bytes expected".into()) };
        let w = world(dx);
        let id = w.next;
        w.next += 1;
        w.out.push(Io::Write(id, u(&a[1]), (b.clone(), fp(&a[2]))));
        Ok(vec![V::Int(id as i128)])
    });
    dx.native(&h("write2"), |dx, a| {
        let (V::Seq(b), V::Seq(c)) = (&a[2], &a[4]) else { return Err("bytes expected".into()) };
        let w = world(dx);
        let id = w.next;
        w.next += 2;
        w.out.push(Io::Write(id, u(&a[1]), (b.clone(), fp(&a[2]))));
        w.out.push(Io::Write(id + 1, u(&a[3]), (c.clone(), fp(&a[4]))));
        Ok(vec![V::Int(id as i128), V::Int(id as i128 + 1)])
    });
    dx.native(&h("read"), |dx, a| {
        let w = world(dx);
        let id = w.next;
        w.next += 1;
        w.out.push(Io::Read(id, u(&a[1]), u(&a[2])));
        Ok(vec![V::Int(id as i128)])
    });
    dx.native(&h("getWriteResult"), |dx, _| {
        let (id, a, b) = world(dx).resp.clone().ok_or("no response")?;
        Ok(vec![V::Int(id as i128), V::Int(a as i128), V::Int(b.len() as i128)])
    });
    dx.native(&h("getReadResult"), |dx, _| {
        let (id, a, b) = world(dx).resp.clone().ok_or("no response")?;
        Ok(vec![V::Int(id as i128), V::Int(a as i128), V::Seq(b)])
    });
    for (n, x) in [
        ("Bounds.NodeBlockSizeUint64", 1024i128),
        ("Bounds.DiskNumJournalBlocksUint64", 4),
        ("Bounds.IndirectionTableBlockSizeUint64", 4096),
        ("Bounds.MaxTotalBucketWeightUint64", 256),
        ("Bounds.MaxCacheSizeUint64", 4),
        ("Bounds.MaxNumChildrenUint64", 4),
        ("Bounds.NumBlocksUint64", 64),
    ] {
        dx.constant(n, V::Int(x))?;
    }
    Ok(dx)
}


#[derive(Clone)]
pub struct Sys {
    pub fs: V,
    pub disk: Disk,
    pub io: Vec<Io>,
    /// id whose response is being delivered
    pub busy: u64,
    /// handler calls made
    pub calls: u64,
}
impl Sys {
    pub fn mkfs(dx: &mut Dx) -> Result<Sys, String> {
        let (o, _) = dx.method("MainHandlers.Mkfs", vec![])?;
        let mut disk = Disk::default();
        if let V::Map(m) = &o[0] {
            for (k, v) in m.iter() {
                if let V::Seq(s) = v {
                    disk.write(u(k), &(s.clone(), fp(v)));
                }
            }
        }
        let mut s = Sys { fs: V::Undef, disk, io: vec![], busy: 0, calls: 0 };
        s.boot(dx)?;
        Ok(s)
    }
    pub fn boot(&mut self, dx: &mut Dx) -> Result<(), String> {
        let (mut o, _) = dx.method("MainHandlers.InitState", vec![])?;
        self.fs = o.pop().unwrap();
        self.io.clear();
        Ok(())
    }
    fn enter(&self, dx: &mut Dx) -> V {
        let w = world(dx);
        w.next = self.io.iter().map(|x| x.id()).max().unwrap_or(0).max(self.busy) + 1;
        w.out.clear();
        w.resp = None;
        dx.heap.truncate(1);
        let t = dx.type_id("MainDiskIOHandler.DiskIOHandler").unwrap();
        dx.alloc(t, vec![])
    }
    fn leave(&mut self, dx: &mut Dx) -> Result<(), String> {
        self.calls += 1;
        let w = world(dx);
        for o in std::mem::take(&mut w.out) {
            self.io.push(o);
        }
        Ok(())
    }
    pub fn op(&mut self, dx: &mut Dx, h: &str, args: Vec<V>) -> Result<Vec<V>, String> {
        let io = self.enter(dx);
        let mut a = vec![std::mem::replace(&mut self.fs, V::Undef), io];
        a.extend(args);
        if h == "handlePushSync" {
            a.truncate(2);
        }
        let full = if h == "clone" { "CoordinationImpl.clone".to_string() } else { format!("MainHandlers.{}", h) };
        let (o, mut i) = dx.method(&full, a)?;
        self.fs = i.pop().ok_or("no state returned")?;
        self.leave(dx)?;
        Ok(o)
    }
    pub fn complete(&mut self, dx: &mut Dx, k: usize) -> Result<(), String> {
        let r = self.io.remove(k);
        let (resp, h) = match r {
            Io::Write(id, a, b) => {
                self.disk.write(a, &b);
                ((id, a, b.0), "handleWriteResponse")
            }
            Io::Read(id, a, n) => ((id, a, self.disk.read(a, n)), "handleReadResponse"),
        };
        self.respond(dx, resp, h)
    }
    /// finish the k-th outstanding read with other bytes than the stored ones
    pub fn fail(&mut self, dx: &mut Dx, k: usize, f: impl Fn(&mut Vec<V>)) -> Result<(), String> {
        let Io::Read(id, a, n) = self.io.remove(k) else { return Err("not a read".into()) };
        let mut b = self.disk.read(a, n).to_vec();
        f(&mut b);
        self.respond(dx, (id, a, Rc::new(b)), "handleReadResponse")
    }
    fn respond(&mut self, dx: &mut Dx, resp: (u64, u64, Rc<Vec<V>>), h: &str) -> Result<(), String> {
        self.busy = resp.0;
        let io = self.enter(dx);
        self.busy = 0;
        world(dx).resp = Some(resp);
        let (_, mut i) = dx.method(&format!("MainHandlers.{}", h), vec![std::mem::replace(&mut self.fs, V::Undef), io])?;
        self.fs = i.pop().ok_or("no state returned")?;
        self.leave(dx)
    }
}

pub fn bytes(b: &[u8]) -> V {
    V::seq(b.iter().map(|x| V::Int(*x as i128)).collect())
}

pub fn smoke() -> Result<(), String> {
    let mut dx = load()?;
    let t = std::time::Instant::now();
    let mut s = Sys::mkfs(&mut dx)?;
    println!("mkfs {:?} steps {} heap {}", t.elapsed(), dx.steps, dx.heap.len());
    if std::env::var("VDBG").is_ok() {
        let d = s.disk.read(0, 4096);
        println!("{:?}", &d[..60]);
        let r = dx.method("MarshallingImpl.ParseSector", vec![V::Seq(d.clone()), V::Int(32)])?;
        println!("{:?}", r.0);
        let g = dx.function("Marshalling.SectorGrammar", vec![])?;
        let r = dx.method("GenericMarshalling.ParseVal", vec![V::Seq(d.clone()), V::Int(32), g.clone()])?;
        println!("{:?} {:?}", r.0, g);
        for _ in 0..12 {
            let o = s.op(&mut dx, "handleInsert", vec![bytes(&[1]), bytes(&[2])])?;
            println!("{:?} io {:?}", o[0], s.io.iter().map(|x| match x { Io::Write(i, a, b) => format!("W{} {} {}", i, a, b.0.len()), Io::Read(i, a, n) => format!("R{} {} {}", i, a, n) }).collect::<Vec<_>>());
            let d = format!("{:?}", s.fs);
            let i = d.find("frozenLoc").unwrap_or(0);
            println!("{}", &d[i..d.len().min(i + 700)]);
            while !s.io.is_empty() {
                s.complete(&mut dx, 0)?;
            }
        }
    }
    for round in 0..3u8 {
        for i in 0..12u8 {
            for _ in 0..50 {
                let o = s.op(&mut dx, "handleInsert", vec![bytes(&[i]), bytes(&[round, i, i])])?;
                if o[0] == V::Bool(true) {
                    break;
                }
                while !s.io.is_empty() {
                    s.complete(&mut dx, 0)?;
                }
            }
        }
        println!("inserted {:?} steps {}", t.elapsed(), dx.steps);
        let id = s.op(&mut dx, "handlePushSync", vec![])?[0].clone();
        let mut n = 0;
        loop {
            n += 1;
            let o = s.op(&mut dx, "handlePopSync", vec![id.clone(), V::Bool(round % 2 == 1)])?;
            if o[1] == V::Bool(true) || n > 50 {
                break;
            }
            while !s.io.is_empty() {
                s.complete(&mut dx, 0)?;
            }
        }
        println!("synced after {} {:?} steps {}", n, t.elapsed(), dx.steps);
        s.boot(&mut dx)?;
        for i in 0..13u8 {
            let mut n = 0;
            loop {
                n += 1;
                let o = s.op(&mut dx, "handleQuery", vec![bytes(&[i])])?;
                if let V::Data(d) = &o[0] {
                    if !d.f.is_empty() {
                        print!("{:?}({}) ", o[0], n);
                        break;
                    }
                }
                if n > 200 {
                    break;
                }
                while !s.io.is_empty() {
                    s.complete(&mut dx, 0)?;
                }
            }
        }
        let ni = dx_ni(&dx)?; let o = s.op(&mut dx, "handleSucc", vec![ni, V::Int(3)])?;
        println!("{:?}", o[0]);
        println!("{:?} steps {}", t.elapsed(), dx.steps);
    }
    Ok(())
}
fn dx_ni(dx: &Dx) -> Result<V, String> {
    dx.ctor("UI.RangeStart", "NegativeInf", vec![])
}
