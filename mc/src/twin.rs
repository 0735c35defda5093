//! Several users of one memory manager: two file systems and foreign data.
use crate::engine::*;
use crate::fsck::fsck;
use crate::mem::CowMem;
use crate::model::*;
use crate::obs::*;
use crate::ops::*;
use crate::real::*;
use crate::seg;
use ic_stable_structures::memory_manager::{MemoryId, MemoryManager};
use ic_stable_structures::Memory;
use stable_fs::fs::{DstBuf, FdStat, FileSystem, OpenFlags, SrcBuf};
use stable_fs::storage::stable::StableStorage;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

const BUCKETS: usize = 32768;
/// owner table of the memory manager (its layout is part of the platform, not of this repository)
const TABLE: u64 = 8 + 32 + 255 * 8;
const SIZES: u64 = 8 + 32;

fn owners(mem: &CowMem) -> Vec<u8> {
    let mut t = vec![0u8; BUCKETS];
    mem.peek(TABLE, &mut t);
    t
}
fn bucket_pages(mem: &CowMem) -> u64 {
    let mut b = [0u8; 2];
    mem.peek(6, &mut b);
    u16::from_le_bytes(b) as u64
}
fn sizes(mem: &CowMem) -> Vec<u64> {
    let mut t = vec![0u8; 255 * 8];
    mem.peek(SIZES, &mut t);
    t.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

struct Foreign {
    id: u8,
    pages: u64,
    stamp: u32,
}

impl Foreign {
    fn put(mm: &MemoryManager<CowMem>, id: u8, pages: u64) -> Foreign {
        let m = mm.get(MemoryId::new(id));
        m.grow(pages);
        let stamp = 9000 + id as u32;
        m.write(0, &seg::pattern(stamp, (pages * 65536) as usize));
        Foreign { id, pages, stamp }
    }
    fn check(&self, mm: &MemoryManager<CowMem>) -> Result<(), Mis> {
        let m = mm.get(MemoryId::new(self.id));
        if m.size() != self.pages {
            return mis(Class::Other, format!("region {} outside the range changed its size from {} to {}", self.id, self.pages, m.size()));
        }
        let mut got = vec![0u8; (self.pages * 65536) as usize];
        m.read(0, &mut got);
        if got != seg::pattern(self.stamp, got.len()) {
            return mis(Class::Other, format!("contents of region {} outside the range changed", self.id));
        }
        Ok(())
    }
}

fn in_range(c: &Cfg, id: u8) -> bool {
    id >= c.base && (id as u16) < c.base as u16 + c.span as u16
}

/// every page touched belongs to the ranges given (the first page is the manager's own)
fn check_touch(mem: &CowMem, rd: &BTreeSet<u64>, wr: &BTreeSet<u64>, ok: &[&Cfg]) -> Result<(), Mis> {
    let own = owners(mem);
    let bp = bucket_pages(mem).max(1);
    for (kind, set) in [("wrote", wr), ("read", rd)] {
        for p in set {
            if *p == 0 {
                continue;
            }
            let o = own[((*p - 1) / bp) as usize];
            if !ok.iter().any(|c| in_range(c, o)) {
                return mis(Class::Other, format!("the file system at {}.. {kind} region {o}, which is outside its range", ok[0].base));
            }
        }
    }
    Ok(())
}

pub fn run_twin(d: &Driver, ca: &Cfg, cb: &Cfg, setup: &Setup, ops: &[&Op], mut log: Option<&mut Vec<String>>) -> Result<Res, Res> {
    let n = ops.len();
    let mem = CowMem::new();
    let mut mm = Rc::new(MemoryManager::init_with_bucket_size(mem.clone(), ca.bucket));
    let mut foreign = vec![];
    let mut ids = BTreeSet::new();
    for c in [ca, cb] {
        ids.insert(c.base.wrapping_sub(1));
        ids.insert(c.base.wrapping_add(c.span));
        // indices inside a wide range but beyond those in use may hold anything of the same owner: left alone
    }
    ids.insert(200);
    ids.retain(|i| *i != 255 && !in_range(ca, *i) && !in_range(cb, *i));
    for id in ids {
        foreign.push(Foreign::put(&mm, id, 2));
    }
    let bad = |k: usize, m: Mis| Res::Bad(k, m);
    mem.watch_start();
    let mk = |c: &Cfg, mm: &Rc<MemoryManager<CowMem>>| -> Result<Real, Mis> {
        let (c, mem, mm) = (*c, mem.clone(), mm.clone());
        catch_unwind(AssertUnwindSafe(|| Real::on_manager(c, mem, mm, (0..d.nmems).map(|_| CowMem::new()).collect())))
            .map_err(|p| Mis { class: Class::Trap, msg: format!("attaching trapped: {}", panic_msg(p)) })
    };
    let mut fs: Vec<(Real, Model)> = vec![];
    for c in [ca, cb] {
        mem.watch_start();
        let r = mk(c, &mm).map_err(|m| bad(0, m))?;
        let (rd, wr) = mem.watch_take();
        check_touch(&mem, &rd, &wr, &[c]).map_err(|m| bad(0, m))?;
        fs.push((r, Model::new(c.ct, c.chunk, false, d.nmems)));
    }
    let mut todo: Vec<(usize, Op)> = flatten(&setup.warm).into_iter().map(|o| (usize::MAX, o)).collect();
    for (k, o) in ops.iter().enumerate() {
        todo.extend(flatten(&[(*o).clone()]).into_iter().map(|o| (k, o)));
    }
    let mut hash = 0u64;
    for (k, o) in todo {
        let at = if k == usize::MAX { 0 } else { k };
        if o == Op::Reboot {
            for (r, _) in fs.iter_mut() {
                r.fs = None;
                r.mm = None;
            }
            mm = Rc::new(MemoryManager::init_with_bucket_size(mem.clone(), ca.bucket));
            for (r, m) in fs.iter_mut() {
                r.mm = Some(mm.clone());
                mem.watch_start();
                let mut c = Ctx { real: r, model: m, ignore: d.ignore, trace: None, log: log.as_deref_mut(), hash };
                c.step(&Op::Restart).map_err(|m| bad(at, m))?;
                let (rd, wr) = mem.watch_take();
                let cfg = r.cfg;
                check_touch(&mem, &rd, &wr, &[&cfg]).map_err(|m| bad(at, m))?;
            }
            continue;
        }
        let (side, op) = match o {
            Op::B(b) => (1, *b),
            o => (0, o),
        };
        let (real, model) = &mut fs[side];
        // both write different data
        if side == 1 && real.stamp == 0 {
            real.stamp = 500;
        }
        if !model.enabled(&op, d.stale_ok) {
            return Err(Res::Disabled(at));
        }
        if let Some(l) = log.as_deref_mut() {
            l.push(format!("side {}", ["A", "B"][side]));
        }
        let before = sizes(&mem);
        mem.watch_start();
        let mut c = Ctx { real, model, ignore: d.ignore, trace: None, log: log.as_deref_mut(), hash };
        let r = c.step(&op);
        hash = c.hash;
        let (rd, wr) = mem.watch_take();
        let cfg = c.real.cfg;
        check_touch(&mem, &rd, &wr, &[&cfg]).map_err(|m| bad(at, m))?;
        let after = sizes(&mem);
        for i in 0..255u8 {
            if before[i as usize] != after[i as usize] && !in_range(&cfg, i) {
                return Err(bad(at, Mis { class: Class::Other, msg: format!("region {i} outside the range changed its size") }));
            }
        }
        r.map_err(|m| bad(at, m))?;
    }
    let last = n.saturating_sub(1);
    let mut h = 0u64;
    for round in 0..2 {
        for (real, model) in fs.iter_mut() {
            let mut c = Ctx { real, model, ignore: d.ignore, trace: None, log: log.as_deref_mut(), hash: 0 };
            if round == 1 {
                c.step(&Op::Restart).map_err(|m| bad(last, m))?;
            }
            observe(&mut c, &d.universe, Scope::Full).map_err(|m| bad(last, m))?;
            fsck(&mem, c.real.cfg.base, false).map_err(|m| bad(last, m))?;
            h = h.rotate_left(9) ^ model.hash64();
        }
        for f in &foreign {
            f.check(&mm).map_err(|m| bad(last, m))?;
        }
        if round == 0 {
            for (r, _) in fs.iter_mut() {
                r.fs = None;
                r.mm = None;
            }
            mm = Rc::new(MemoryManager::init_with_bucket_size(mem.clone(), ca.bucket));
            for (r, _) in fs.iter_mut() {
                r.mm = Some(mm.clone());
            }
        }
    }
    Ok(Res::Ok { hash: h, outcomes: hash })
}

// --- attaching ---------------------------------------------------------------------------------

pub fn run_attach(cfg: &Cfg, setup: &Setup, ops: &[&Op]) -> Result<(), Mis> {
    for o in ops {
        match o {
            Op::Attach { from, to } => attach_range(cfg, *from, *to)?,
            Op::AttachBad { what, val } => attach_bad(cfg, setup, *what, *val)?,
            _ => {}
        }
    }
    Ok(())
}

fn attach_range(cfg: &Cfg, from: u8, to: u8) -> Result<(), Mis> {
    let valid = to as u32 >= from as u32 + 10 && to <= 254;
    let mem = CowMem::new();
    let mm = MemoryManager::init_with_bucket_size(mem.clone(), cfg.bucket.max(1));
    let mut foreign = vec![];
    let mut ids: BTreeSet<u8> = [0u8, 1, 128, 253, 254].into_iter().collect();
    for k in 0..12u8 {
        ids.insert(from.wrapping_add(k));
        ids.insert(from.wrapping_sub(k));
        ids.insert(to.wrapping_add(k));
        ids.insert(to.wrapping_sub(k));
    }
    ids.remove(&255);
    for id in ids {
        if valid && id >= from && id < to {
            continue;
        }
        foreign.push(Foreign::put(&mm, id, 1));
    }
    let before = mem.fork();
    mem.watch_start();
    let r = catch_unwind(AssertUnwindSafe(|| StableStorage::new_with_memory_manager(&mm, from..to)));
    match r {
        Err(p) => {
            let m = panic_msg(p);
            if valid {
                return mis(Class::OkErr, format!("range {from}..{to} is valid but refused: {m}"));
            }
            if m.contains("attempt to ") && m.contains("overflow") {
                return mis(Class::OkErr, format!("range {from}..{to} is not refused but overflows ({m}); a release build goes on with it"));
            }
            if !mem.same(&before) {
                return mis(Class::Other, format!("range {from}..{to} was refused after memory had been modified"));
            }
            Ok(())
        }
        Ok(st) => {
            if !valid {
                return mis(Class::OkErr, format!("range {from}..{to} was accepted"));
            }
            let r = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<u8>, String> {
                let mut fs = FileSystem::new(Box::new(st)).map_err(|e| format!("{e:?}"))?;
                let fd = fs.open(3, "d/f", FdStat::default(), OpenFlags::CREATE, 1).map_err(|e| format!("{e:?}"))?;
                let v = seg::pattern(77, 20000);
                fs.write_vec_with_offset(fd, &[SrcBuf { buf: v.as_ptr(), len: v.len() }], 9).map_err(|e| format!("{e:?}"))?;
                let mut out = vec![0u8; 20009];
                let b = DstBuf { buf: out.as_mut_ptr(), len: out.len() };
                fs.read_vec_with_offset(fd, &[b], 0).map_err(|e| format!("{e:?}"))?;
                Ok(out)
            }));
            let (rd, wr) = mem.watch_take();
            match r {
                Err(p) => return mis(Class::Trap, panic_msg(p)),
                Ok(Err(e)) => return mis(Class::OkErr, e),
                Ok(Ok(v)) => {
                    if v[..9] != [0u8; 9] || v[9..] != seg::pattern(77, 20000)[..] {
                        return mis(Class::Content, "wrong data".into());
                    }
                }
            }
            let c = Cfg { base: from, span: to - from, ..*cfg };
            check_touch(&mem, &rd, &wr, &[&c])?;
            for f in &foreign {
                f.check(&mm)?;
            }
            Ok(())
        }
    }
}

fn attach_bad(cfg: &Cfg, setup: &Setup, what: Corrupt, val: u64) -> Result<(), Mis> {
    // an ordinary image
    let (mem, cfg) = {
        let mut r = Real::new(*cfg, 0);
        for o in flatten(&setup.warm) {
            if let Out::Trap(m) = r.exec(&o) {
                return mis(Class::Trap, m);
            }
        }
        r.fs = None;
        r.mm = None;
        (r.mem.clone(), r.cfg)
    };
    {
        let mm = MemoryManager::init(mem.clone());
        let vm = |i: u8| mm.get(MemoryId::new(cfg.base + i));
        match what {
            Corrupt::Version | Corrupt::VersionOld => {
                // the header cell: "SCL", version byte, length, CBOR map {version, next_node}
                let next = {
                    let m = vm(0);
                    let mut len = [0u8; 4];
                    m.read(4, &mut len);
                    let mut b = vec![0u8; u32::from_le_bytes(len) as usize];
                    m.read(8, &mut b);
                    let h: std::collections::BTreeMap<String, u64> = ciborium::de::from_reader(&b[..]).map_err(|e| Mis { class: Class::Other, msg: format!("{e}") })?;
                    h["next_node"]
                };
                let mut b = vec![];
                #[derive(serde::Serialize)]
                struct H {
                    version: u32,
                    next_node: u64,
                }
                ciborium::ser::into_writer(&H { version: val as u32, next_node: next }, &mut b).unwrap();
                let m = vm(0);
                m.write(4, &(b.len() as u32).to_le_bytes());
                m.write(8, &b);
                if what == Corrupt::VersionOld {
                    vm(6).write(0, b"ALO1");
                    // regions introduced later do not exist yet
                    for id in [4u8, 8, 9] {
                        let id = (cfg.base + id) as u64;
                        mem.write(SIZES + id * 8, &0u64.to_le_bytes());
                        let own = owners(&mem);
                        for (b, o) in own.iter().enumerate() {
                            if *o as u64 == id {
                                mem.write(TABLE + b as u64, &[250]);
                            }
                        }
                    }
                }
            }
            Corrupt::Marker => vm(6).write(0, &(val as u32).to_le_bytes()),
        }
    }
    let before = mem.fork();
    let ok = match what {
        Corrupt::Marker => (val as u32).to_le_bytes() == *b"FSA1" || (val as u32).to_le_bytes() == *b"ALO1",
        _ => val == 1,
    };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let (st, _mm) = Real::open_storage(&cfg, &mem, false, None);
        FileSystem::new(st).is_ok()
    }));
    match (r, ok) {
        (Ok(true), true) => Ok(()),
        (Ok(true), false) => mis(Class::OkErr, format!("unsupported {what:?} {val} was accepted")),
        (Err(p), true) => mis(Class::Trap, format!("supported {what:?} {val} was refused: {}", panic_msg(p))),
        (Ok(false), true) => mis(Class::OkErr, format!("supported {what:?} {val} was refused")),
        (Err(_), false) | (Ok(false), false) => {
            if mem.same(&before) {
                Ok(())
            } else {
                mis(Class::Other, format!("unsupported {what:?} {val} was refused, but the memory had been modified"))
            }
        }
    }
}
