//! Exhaustive enumeration: every sequence of operations over an alphabet up to a depth is executed
//! from scratch on the real file system, in lockstep with the reference model.
use crate::fsck::{fsck, Usage};
use crate::mem::{CowMem, Snapshot};
use crate::model::*;
use crate::obs::*;
use crate::ops::*;
use crate::real::*;
use ic_stable_structures::Memory;
use rustc_hash::{FxHashMap, FxHashSet};
use serde_json::json;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// lockstep with the model, observe, check the image, re-open, observe again
    Plain,
    /// as Plain, and every history is repeated with a re-opening inserted at every point;
    /// all outcomes and the final observation have to be the same
    Upgrade,
    /// the history is run on every configuration; results are compared pairwise
    Backends { codes: bool },
    /// the history followed by the clean-up is repeated; storage must not grow
    Cycle,
    /// two file systems and foreign data in one memory manager; `B` operations go to the second one
    Twin(Cfg),
    /// attaching to ranges and to changed images
    Attach,
    /// every sequence is repeated with every growth request refused (once, and from then on)
    Faults,
}

#[derive(Clone, Debug, Default)]
pub struct Setup {
    pub name: String,
    /// executed once, the resulting memory image is shared by all executions
    pub cold: Vec<Op>,
    /// executed at the beginning of every execution
    pub warm: Vec<Op>,
}

#[derive(Clone)]
pub struct Driver {
    pub name: String,
    pub cfgs: Vec<Cfg>,
    pub nmems: usize,
    pub setups: Vec<Setup>,
    pub layers: Vec<Arc<Vec<Op>>>,
    pub stale_ok: bool,
    /// classes that count as violations of the property
    pub mask: u32,
    /// classes tolerated without pruning
    pub ignore: u32,
    pub fsck: bool,
    pub restart: bool,
    pub full_limit: usize,
    pub universe: Vec<String>,
    pub mode: Mode,
    pub cleanup: Vec<Op>,
    /// only sequences of the full length are executed (shorter ones are their prefixes)
    pub leaf_only: bool,
    /// skip this property-irrelevant observation entirely
    pub observe: bool,
    /// initial memory image (instead of an empty one) with the model that describes it
    pub image: Option<Arc<dyn Fn() -> (Snapshot, Model) + Send + Sync>>,
    pub legacy: bool,
    /// operations the property is about: a mismatch counts only when it needs at least one of them
    /// (it is gone when these operations are left out of the sequence)
    pub blame: Option<fn(&Op) -> bool>,
    /// classes that are the property's own whatever was done
    pub core: u32,
    /// every call of the implementation is given a stack of only one megabyte (as a wasm module has)
    pub thin: bool,
}

impl Driver {
    pub fn alphabet_size(&self) -> usize {
        self.layers.iter().map(|l| l.len()).max().unwrap_or(0)
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub driver: String,
    pub cfg: String,
    pub setup: String,
    pub ops: Vec<Op>,
    pub class: Class,
    pub msg: String,
    pub log: Vec<String>,
}

pub enum Res {
    Ok { hash: u64, outcomes: u64 },
    /// operation k is not enabled here
    Disabled(usize),
    /// the execution left the common ground of model and implementation at k for a reason other than this property
    Pruned(usize, Mis),
    Bad(usize, Mis),
}

pub struct Base {
    snap: Snapshot,
    mems: Vec<Snapshot>,
    model: Model,
    stamp: u32,
    fresh: bool,
}

pub fn flatten(ops: &[Op]) -> Vec<Op> {
    let mut v = vec![];
    for o in ops {
        match o {
            Op::Seq(s) => v.extend(flatten(s)),
            Op::B(b) => v.extend(flatten(&[(**b).clone()]).into_iter().map(|o| Op::B(Box::new(o)))),
            o => v.push(o.clone()),
        }
    }
    v
}

/// per-thread cache of prepared starting states
#[derive(Default)]
pub struct Bases(FxHashMap<(usize, usize, usize), Result<Base, Mis>>);

impl Bases {
    pub fn clear(&mut self) {
        self.0.clear();
    }
}

fn build_base(d: &Driver, cfg: &Cfg, setup: &Setup) -> Result<Base, Mis> {
    let (mut real, mut model) = match &d.image {
        Some(f) => {
            let (snap, model) = f();
            let mems: Vec<Snapshot> = (0..d.nmems).map(|_| Snapshot::default()).collect();
            if setup.cold.is_empty() || cfg.transient {
                return Ok(Base { snap, mems, model, stamp: 1000, fresh: false });
            }
            let mut r = Real::from_snapshot(*cfg, &snap, &mems);
            r.stamp = 1000;
            (r, model)
        }
        None => (Real::new(*cfg, d.nmems), Model::new(cfg.ct, cfg.chunk, cfg.transient, d.nmems)),
    };
    if setup.cold.is_empty() || cfg.transient {
        return Ok(Base { snap: Snapshot::default(), mems: vec![Snapshot::default(); d.nmems], model, stamp: 0, fresh: true });
    }
    let mut c = Ctx { real: &mut real, model: &mut model, ignore: d.ignore, trace: None, log: None, hash: 0 };
    for o in flatten(&setup.cold) {
        if !c.model.enabled(&o, true) {
            return mis(Class::Other, format!("setup operation not enabled: {o:?}"));
        }
        c.step(&o)?;
    }
    c.step(&Op::Restart)?;
    model.touched.clear();
    real.fs = None;
    Ok(Base {
        snap: real.mem.snapshot(),
        mems: real.mems.iter().map(|m| m.snapshot()).collect(),
        stamp: real.stamp,
        model,
        fresh: false,
    })
}

/// starting state for an execution
pub fn start(d: &Driver, cfg: &Cfg, b: &Base) -> (Real, Model) {
    let real = if b.fresh {
        Real::new(*cfg, d.nmems)
    } else {
        let mut r = Real::from_snapshot(*cfg, &b.snap, &b.mems);
        r.stamp = b.stamp;
        r
    };
    (real, b.model.clone())
}

pub fn outcome_hash(o: &Out) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut hasher = rustc_hash::FxHasher::default();
    let h = &mut hasher;
    match o {
        Out::Err(e) => e.hash(h),
        Out::Num(n) => n.hash(h),
        Out::Data(_, n) => n.hash(h),
        Out::List(l) => l.len().hash(h),
        _ => 7u8.hash(h),
    }
    h.finish()
}

pub struct Ex<'a> {
    /// executions of the last run (fault runs)
    pub extra: u64,
    pub d: &'a Driver,
    pub cfg: &'a Cfg,
    pub setup: &'a Setup,
    pub base: &'a Base,
    pub want_log: bool,
    pub log: Vec<String>,
}

impl Ex<'_> {
    pub fn scope(&self, model: &Model) -> Scope {
        if model.nodes.len() > self.d.full_limit {
            Scope::Touched(0)
        } else {
            Scope::Full
        }
    }

    pub fn warm(&self, real: &mut Real, model: &mut Model) -> Result<(), Mis> {
        let mut c = Ctx { real, model, ignore: self.d.ignore, trace: None, log: None, hash: 0 };
        if self.base.fresh {
            for o in flatten(&self.setup.cold) {
                c.step(&o)?;
            }
        }
        for o in flatten(&self.setup.warm) {
            c.step(&o)?;
        }
        Ok(())
    }

    /// classify a mismatch at position k
    pub fn verdict(&self, k: usize, m: Mis) -> Res {
        if self.d.mask & bit(m.class) != 0 {
            Res::Bad(k, m)
        } else {
            Res::Pruned(k, m)
        }
    }

    /// run ops in lockstep, with a re-opening before position `cut` (and at the end when cut == len)
    fn plain(&mut self, ops: &[&Op], cuts: &[usize], trace: &mut Option<Vec<Out>>) -> Result<(Real, Model, u64), Res> {
        let (mut real, mut model) = start(self.d, self.cfg, self.base);
        if let Err(m) = self.warm(&mut real, &mut model) {
            return Err(self.verdict(0, Mis { class: m.class, msg: format!("in the setup: {}", m.msg) }));
        }
        let mut hh = 0u64;
        let mut log = vec![];
        for k in 0..=ops.len() {
            let mut c = Ctx {
                real: &mut real,
                model: &mut model,
                ignore: self.d.ignore,
                trace: trace.as_mut(),
                log: if self.want_log { Some(&mut log) } else { None },
                hash: hh,
            };
            if cuts.contains(&k) {
                let keep = c.trace.take();
                let r = c.step(&Op::Restart);
                c.trace = keep;
                if let Err(m) = r {
                    self.log = log;
                    return Err(self.verdict(k, m));
                }
            }
            if k == ops.len() {
                break;
            }
            for o in flatten(&[ops[k].clone()]) {
                if !c.model.enabled(&o, self.d.stale_ok) {
                    return Err(Res::Disabled(k));
                }
                let r = c.step(&o);
                if let Err(m) = r {
                    self.log = log;
                    return Err(self.verdict(k, m));
                }
            }
            hh = c.hash;
        }
        self.log = log;
        Ok((real, model, hh))
    }

    fn observe_end(&mut self, real: &mut Real, model: &mut Model, restart: bool, trace: &mut Option<Vec<Out>>) -> Result<(), Mis> {
        let scope = self.scope(model);
        let mut log = std::mem::take(&mut self.log);
        let r = {
            let mut c = Ctx { real, model, ignore: self.d.ignore, trace: trace.as_mut(), log: if self.want_log { Some(&mut log) } else { None }, hash: 0 };
            observe(&mut c, &self.d.universe, scope)
        };
        self.log = log;
        r?;
        if self.d.fsck && !self.cfg.transient {
            fsck(&real.mem, self.cfg.base, self.d.legacy)?;
        }
        if restart && !self.cfg.transient {
            let mut log = std::mem::take(&mut self.log);
            let r = (|| {
                let mut c = Ctx { real, model, ignore: self.d.ignore, trace: None, log: if self.want_log { Some(&mut log) } else { None }, hash: 0 };
                c.step(&Op::Restart)?;
                observe(&mut c, &self.d.universe, scope)
            })();
            self.log = log;
            r.map_err(|m| Mis {
                class: if matches!(m.class, Class::Code | Class::Times | Class::ChunkType) { m.class } else { Class::Persist },
                msg: format!("after re-opening: {}", m.msg),
            })?;
        }
        Ok(())
    }

    pub fn run(&mut self, ops: &[&Op]) -> Res {
        match (self.run_all(ops), self.d.blame) {
            (Res::Bad(k, m), Some(f)) if self.d.core & bit(m.class) == 0 => {
                let rest: Vec<&Op> = ops.iter().copied().filter(|o| !f(o)).collect();
                if rest.len() == ops.len() {
                    return Res::Pruned(k, m);
                }
                let log = std::mem::take(&mut self.log);
                let other = matches!(self.run_all(&rest), Res::Bad(..));
                self.log = log;
                if other {
                    Res::Pruned(k, m)
                } else {
                    Res::Bad(k, m)
                }
            }
            (r, _) => r,
        }
    }

    fn run_all(&mut self, ops: &[&Op]) -> Res {
        let n = ops.len();
        match self.d.mode {
            Mode::Plain => {
                let (mut real, mut model, oh) = match self.plain(ops, &[], &mut None) {
                    Ok(x) => x,
                    Err(r) => return r,
                };
                let hash = model.hash64();
                if self.d.observe {
                    if let Err(m) = self.observe_end(&mut real, &mut model, self.d.restart, &mut None) {
                        return self.verdict(n.saturating_sub(1), m);
                    }
                }
                Res::Ok { hash, outcomes: oh }
            }
            Mode::Upgrade => self.run_upgrade(ops),
            Mode::Backends { codes } => self.run_backends(ops, codes),
            Mode::Cycle => self.run_cycle(ops),
            Mode::Twin(b) => match crate::twin::run_twin(self.d, self.cfg, &b, self.setup, ops, self.want_log.then_some(&mut self.log)) {
                Err(Res::Bad(k, m)) => self.verdict(k, m),
                Err(r) | Ok(r) => r,
            },
            Mode::Faults => self.run_faults(ops),
            Mode::Attach => match crate::twin::run_attach(self.cfg, self.setup, ops) {
                Ok(()) => Res::Ok { hash: outcome_hash(&Out::Num(ops.len() as u64)), outcomes: 0 },
                Err(m) => self.verdict(ops.len().saturating_sub(1), m),
            },
        }
    }

    fn run_upgrade(&mut self, ops: &[&Op]) -> Res {
        let n = ops.len();
        let mut t0 = Some(vec![]);
        let (mut real, mut model, oh) = match self.plain(ops, &[], &mut t0) {
            Ok(x) => x,
            // a divergence without any re-opening belongs to another property
            Err(Res::Bad(k, m)) => return Res::Pruned(k, m),
            Err(r) => return r,
        };
        let hash = model.hash64();
        let outs0 = t0.take().unwrap();
        // descriptors and mounts are lost by design: observe the plain run without them
        model.slots.clear();
        let fds: Vec<u32> = model.fds.keys().copied().filter(|x| *x != 3).collect();
        for f in fds {
            let _ = real.fs.as_mut().unwrap().close(f);
            model.fds.remove(&f);
        }
        let mut o0 = Some(vec![]);
        // the plain run is observed before and after a re-opening
        if let Err(m) = self.observe_end(&mut real, &mut model, false, &mut o0) {
            return Res::Pruned(n, m);
        }
        let o0 = o0.unwrap();
        for cut in 1..=n {
            let mut t1 = Some(vec![]);
            let (mut real, mut model) = match self.plain(ops, &[cut], &mut t1) {
                Ok((a, b, _)) => (a, b),
                Err(Res::Disabled(_)) | Err(Res::Ok { .. }) => continue,
                Err(Res::Bad(k, m)) | Err(Res::Pruned(k, m)) => {
                    return Res::Bad(
                        n.saturating_sub(1).max(k.min(n.saturating_sub(1))),
                        Mis { class: Class::Persist, msg: format!("with a re-opening after operation {cut}: {} (not so without)", m.msg) },
                    )
                }
            };
            let outs1 = t1.unwrap();
            for (i, (a, b)) in outs0.iter().zip(outs1.iter()).enumerate() {
                if !same_out(a, b, true) {
                    return Res::Bad(
                        n - 1,
                        Mis {
                            class: Class::Persist,
                            msg: format!("with a re-opening after operation {cut}, call {} answers {} instead of {}", i + 1, b.short(), a.short()),
                        },
                    );
                }
            }
            let fds: Vec<u32> = model.fds.keys().copied().filter(|x| *x != 3).collect();
            for f in fds {
                let _ = real.fs.as_mut().unwrap().close(f);
                model.fds.remove(&f);
            }
            let mut o1 = Some(vec![]);
            let saved_ignore = self.d.ignore;
            let _ = saved_ignore;
            match self.observe_end(&mut real, &mut model, false, &mut o1) {
                Ok(()) => {}
                Err(m) => {
                    return Res::Bad(n - 1, Mis { class: Class::Persist, msg: format!("with a re-opening after operation {cut}: {}", m.msg) })
                }
            }
            let o1 = o1.unwrap();
            if o0.len() != o1.len() {
                return Res::Bad(n - 1, Mis { class: Class::Persist, msg: format!("with a re-opening after operation {cut} the observable state differs") });
            }
            for (a, b) in o0.iter().zip(o1.iter()) {
                if !same_out(a, b, true) {
                    return Res::Bad(
                        n - 1,
                        Mis {
                            class: Class::Persist,
                            msg: format!("with a re-opening after operation {cut} the final state shows {} instead of {}", b.short(), a.short()),
                        },
                    );
                }
            }
        }
        Res::Ok { hash, outcomes: oh }
    }

    fn run_backends(&mut self, ops: &[&Op], codes: bool) -> Res {
        let n = ops.len();
        let mut first: Option<(Vec<Out>, &Cfg)> = None;
        let mut res = Res::Disabled(0);
        for (ci, cfg) in self.d.cfgs.iter().enumerate() {
            let base = match build_base(self.d, cfg, self.setup) {
                Ok(b) => b,
                Err(m) => return Res::Pruned(0, m),
            };
            let mut ex = Ex { d: self.d, cfg, setup: self.setup, base: &base, extra: 0, want_log: self.want_log, log: vec![] };
            let mut t = Some(vec![]);
            let r = ex.plain(ops, &[], &mut t);
            self.log = std::mem::take(&mut ex.log);
            let (mut real, mut model, oh) = match r {
                Ok(x) => x,
                Err(Res::Disabled(k)) => return Res::Disabled(k),
                Err(r @ Res::Ok { .. }) => return r,
                Err(Res::Bad(k, m)) | Err(Res::Pruned(k, m)) => {
                    // the model disagrees: if all backends disagree in the same way this is another property's business
                    let got = t.unwrap();
                    match &first {
                        None if ci == 0 => {
                            // remember how far the first one came and compare the others with it up to there
                            first = Some((got, cfg));
                            res = Res::Pruned(k, m);
                            continue;
                        }
                        Some((f, fc)) => {
                            if let Some(msg) = diff_outs(f, &got, codes, fc, cfg) {
                                return Res::Bad(k, Mis { class: Class::Other, msg });
                            }
                            if f.len() != got.len() {
                                return Res::Bad(k, Mis { class: Class::Other, msg: format!("{} deviates from the common behaviour: {}", cfg.name, m.msg) });
                            }
                            continue;
                        }
                        None => continue,
                    }
                }
            };
            if let Res::Disabled(_) = res {
                res = Res::Ok { hash: model.hash64(), outcomes: oh };
            }
            ex.log = std::mem::take(&mut self.log);
            let ob = ex.observe_end(&mut real, &mut model, false, &mut t);
            self.log = std::mem::take(&mut ex.log);
            let t = t.unwrap();
            match &first {
                None => first = Some((t, cfg)),
                Some((f, fc)) => {
                    if let Some(msg) = diff_outs(f, &t, codes, fc, cfg) {
                        return Res::Bad(n.saturating_sub(1), Mis { class: Class::Other, msg });
                    }
                }
            }
            if let Err(m) = ob {
                res = Res::Pruned(n.saturating_sub(1), m);
            }
        }
        res
    }

    fn run_cycle(&mut self, ops: &[&Op]) -> Res {
        let n = ops.len();
        let (mut real, mut model) = start(self.d, self.cfg, self.base);
        if let Err(m) = self.warm(&mut real, &mut model) {
            return self.verdict(0, m);
        }
        let mut hash = 0;
        let mut usages: Vec<Usage> = vec![];
        const REPS: usize = 7;
        for rep in 0..REPS {
            let mut c = Ctx { real: &mut real, model: &mut model, ignore: self.d.ignore, trace: None, log: None, hash: 0 };
            for k in 0..n {
                for o in flatten(&[ops[k].clone()]) {
                    if !c.model.enabled(&o, self.d.stale_ok) {
                        return Res::Disabled(k);
                    }
                    if let Err(m) = c.step(&o) {
                        return self.verdict(k, m);
                    }
                }
            }
            if rep == 0 {
                hash = c.model.hash64();
                if !self.cfg.transient {
                    if let Err(m) = fsck(&c.real.mem, self.cfg.base, self.d.legacy) {
                        return self.verdict(n.saturating_sub(1), m);
                    }
                }
            }
            let fds: Vec<u32> = c.model.fds.keys().copied().filter(|x| *x != 3).collect();
            for f in fds {
                if let Err(m) = c.step(&Op::Close(F::N(f))) {
                    return self.verdict(n, m);
                }
            }
            c.model.slots.clear();
            for o in flatten(&self.d.cleanup) {
                if let Op::Unmount(p) = &o {
                    // only when mounted
                    let i = c.model.resolve(ROOT, p);
                    if !matches!(i, Ok(i) if c.model.n(i).mount.is_some()) {
                        continue;
                    }
                }
                if let Op::RmRec { p, .. } = &o {
                    if c.model.resolve(ROOT, p).is_err() {
                        continue;
                    }
                }
                if let Err(m) = c.step(&o) {
                    return self.verdict(n, m);
                }
            }
            for m in real.mems.iter_mut() {
                *m = CowMem::new();
            }
            for m in model.mems.iter_mut() {
                *m = Default::default();
            }
            if !self.cfg.transient {
                match fsck(&real.mem, self.cfg.base, self.d.legacy) {
                    Ok(u) => usages.push(u),
                    Err(m) => return self.verdict(n.saturating_sub(1), m),
                }
            }
        }
        if !self.cfg.transient {
            let (a, b) = (&usages[1], &usages[REPS - 1]);
            if a.max_ptr != b.max_ptr || a.pages != b.pages || a.free != b.free {
                return Res::Bad(
                    n.saturating_sub(1),
                    Mis { class: Class::Leak, msg: format!("repeating the history grows the storage: {a:?} -> {b:?}") },
                );
            }
        }
        Res::Ok { hash, outcomes: 0 }
    }
}

fn norm_ents(l: &[Ent]) -> Vec<(u32, Vec<u8>, Option<u8>)> {
    l.iter().map(|e| (e.idx, e.name.clone(), e.ty)).collect()
}

/// same answer? descriptor numbers are not part of the answer
pub fn same_out(a: &Out, b: &Out, codes: bool) -> bool {
    match (a, b) {
        (Out::Fd(_), Out::Fd(_)) => true,
        (Out::Err(x), Out::Err(y)) => !codes || x == y,
        (Out::Data(x, n), Out::Data(y, m)) => n == m && x[..*n as usize] == y[..*n as usize],
        (Out::List(x), Out::List(y)) => norm_ents(x) == norm_ents(y),
        (Out::Meta(x), Out::Meta(y)) => {
            x.dir == y.dir && x.links == y.links && x.size == y.size && x.times == y.times && x.limit == y.limit
        }
        (x, y) => x == y,
    }
}

fn diff_outs(a: &[Out], b: &[Out], codes: bool, ca: &Cfg, cb: &Cfg) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        if !same_out(x, y, codes) {
            return Some(format!("call {} answers {} on {} but {} on {}", i + 1, x.short(), ca.name, y.short(), cb.name));
        }
    }
    None
}

// ------------------------------------------------------------------------------------------------

/// shared progress page: one slot per worker thread
pub struct Progress {
    ptr: *mut u8,
}
unsafe impl Send for Progress {}
unsafe impl Sync for Progress {}
pub const SLOT_BYTES: usize = 8192;
pub const MAX_THREADS: usize = 16;

impl Progress {
    pub fn map(path: &str, create: bool) -> Progress {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).expect("progress file");
        let len = SLOT_BYTES * MAX_THREADS;
        f.set_len(len as u64).unwrap();
        let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Progress { ptr: p as *mut u8 }
    }
    /// words: counter, driver, cfg, setup, n, indices...
    pub fn set(&self, t: usize, words: &[u32]) {
        unsafe {
            let p = self.ptr.add(t * SLOT_BYTES) as *mut u32;
            for (i, w) in words.iter().enumerate() {
                p.add(1 + i).write_volatile(*w);
            }
            let c = p.read_volatile();
            p.write_volatile(c.wrapping_add(1));
        }
    }
    /// every call executed by this thread counts as progress
    pub fn attach(&self, t: usize) {
        let p = unsafe { self.ptr.add(t * SLOT_BYTES) as *mut u32 };
        crate::real::BEAT.with(|b| b.set(p));
    }
    pub fn idle(&self, t: usize) {
        self.set(t, &[u32::MAX]);
    }
    pub fn get(&self, t: usize) -> (u32, Option<Vec<u32>>) {
        unsafe {
            let p = self.ptr.add(t * SLOT_BYTES) as *mut u32;
            let c = p.read_volatile();
            let d = p.add(1).read_volatile();
            if d == u32::MAX || c == 0 {
                return (c, None);
            }
            let n = p.add(4).read_volatile().min(1000);
            let mut v = vec![];
            for i in 0..(4 + n as usize) {
                v.push(p.add(1 + i).read_volatile());
            }
            (c, Some(v))
        }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub execs: u64,
    pub fault_runs: u64,
    pub steps: u64,
    pub disabled: u64,
    pub pruned: u64,
    pub states: FxHashSet<u64>,
    pub outcomes: FxHashSet<u64>,
    pub prune_example: Option<String>,
    pub prune_classes: HashMap<String, u64>,
    /// a few of the executions, written out
    pub samples: Vec<String>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.execs += o.execs;
        self.fault_runs += o.fault_runs;
        self.steps += o.steps;
        self.disabled += o.disabled;
        self.pruned += o.pruned;
        self.states.extend(o.states);
        self.outcomes.extend(o.outcomes);
        self.samples.extend(o.samples);
        self.samples.truncate(3);
        if self.prune_example.is_none() {
            self.prune_example = o.prune_example;
        }
        for (k, v) in o.prune_classes {
            *self.prune_classes.entry(k).or_default() += v;
        }
    }
}

pub struct DriverReport {
    pub name: String,
    pub stats: Stats,
    pub exhaustive: bool,
    pub depth: usize,
    pub wall: f64,
}

pub type Known = dyn Fn(&Violation) -> bool + Sync;

pub struct Outcome {
    pub reports: Vec<DriverReport>,
    pub violation: Option<Violation>,
    pub known_hits: Vec<Violation>,
}

fn with_ex<R>(bases: &mut Bases, drivers: &[Driver], key: (usize, usize, usize), f: impl FnOnce(Result<&mut Ex, Mis>) -> R) -> R {
    let d = &drivers[key.0];
    THIN.set(d.thin);
    let cfg = &d.cfgs[key.1];
    let setup = &d.setups[key.2];
    let b = bases.0.entry(key).or_insert_with(|| build_base(d, cfg, setup));
    match b {
        Ok(b) => {
            let mut ex = Ex { d, cfg, setup, base: b, extra: 0, want_log: false, log: vec![] };
            f(Ok(&mut ex))
        }
        Err(m) => f(Err(m.clone())),
    }
}

/// run one explicit sequence, with a log
pub fn run_one(d: &Driver, ci: usize, si: usize, ops: &[Op]) -> (Res, Vec<String>) {
    THIN.set(d.thin);
    let base = match build_base(d, &d.cfgs[ci], &d.setups[si]) {
        Ok(b) => b,
        Err(m) => {
            let m = Mis { class: m.class, msg: format!("in the setup: {}", m.msg) };
            let r = if d.mask & bit(m.class) != 0 { Res::Bad(0, m) } else { Res::Pruned(0, m) };
            return (r, vec![]);
        }
    };
    let mut ex = Ex { d, cfg: &d.cfgs[ci], setup: &d.setups[si], base: &base, extra: 0, want_log: true, log: vec![] };
    let refs: Vec<&Op> = ops.iter().collect();
    let r = ex.run(&refs);
    (r, std::mem::take(&mut ex.log))
}

pub fn explore(drivers: &[Driver], threads: usize, budget: Duration, progress: &Progress, known: &Known) -> Outcome {
    let mut reports = vec![];
    let t_start = Instant::now();
    let found: Mutex<Option<Violation>> = Mutex::new(None);
    let known_hits: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    for (di, d) in drivers.iter().enumerate() {
        let t0 = Instant::now();
        let depth = d.layers.len();
        // jobs: (pass, cfg, setup, prefix)
        let mut jobs: Vec<(usize, usize, usize, Vec<usize>)> = vec![];
        let ncfg = if matches!(d.mode, Mode::Backends { .. }) { 1 } else { d.cfgs.len() };
        for pass in 0..=depth {
            if d.leaf_only && pass != depth && pass != 0 {
                continue;
            }
            for ci in 0..ncfg {
                for si in 0..d.setups.len() {
                    match pass {
                        0 => jobs.push((0, ci, si, vec![])),
                        1 => {
                            for a in 0..d.layers[0].len() {
                                jobs.push((1, ci, si, vec![a]));
                            }
                        }
                        _ => {
                            for a in 0..d.layers[0].len() {
                                for b in 0..d.layers[1].len() {
                                    jobs.push((pass, ci, si, vec![a, b]));
                                }
                            }
                        }
                    }
                }
            }
        }
        let next = AtomicUsize::new(0);
        let capped = AtomicBool::new(false);
        let dead: Mutex<FxHashSet<(usize, usize, Vec<usize>)>> = Mutex::new(Default::default());
        let stats = Mutex::new(Stats::default());
        let done_execs = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (jobs, next, stop, stats, found, known_hits, capped, dead, done_execs) =
                    (&jobs, &next, &stop, &stats, &found, &known_hits, &capped, &dead, &done_execs);
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = Stats::default();
                        let mut bases = Bases::default();
                        let mut words: Vec<u32> = vec![];
                        progress.attach(t);
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let j = next.fetch_add(1, Ordering::Relaxed);
                            if j >= jobs.len() {
                                break;
                            }
                            let (pass, ci, si, prefix) = &jobs[j];
                            // prefixes known to be disabled or pruned
                            {
                                let dd = dead.lock().unwrap();
                                if (1..=prefix.len()).any(|k| k < *pass && dd.contains(&(*ci, *si, prefix[..k].to_vec()))) {
                                    continue;
                                }
                            }
                            let mut idx: Vec<usize> = prefix.clone();
                            idx.resize(*pass, 0);
                            let plen = prefix.len();
                            // odometer over the positions after the prefix
                            'job: loop {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                if t_start.elapsed() > budget {
                                    capped.store(true, Ordering::Relaxed);
                                    break;
                                }
                                words.clear();
                                words.extend([di as u32, *ci as u32, *si as u32, idx.len() as u32]);
                                words.extend(idx.iter().map(|x| *x as u32));
                                progress.set(t, &words);
                                let mut extra = 0;
                                let res = with_ex(&mut bases, drivers, (di, *ci, *si), |ex| match ex {
                                    Ok(ex) => {
                                        let ops: Vec<&Op> = idx.iter().enumerate().map(|(k, i)| &d.layers[k][*i]).collect();
                                        let r = ex.run(&ops);
                                        extra = ex.extra;
                                        r
                                    }
                                    Err(m) => {
                                        let m = Mis { class: m.class, msg: format!("in the setup: {}", m.msg) };
                                        if d.mask & bit(m.class) != 0 {
                                            Res::Bad(0, m)
                                        } else {
                                            Res::Pruned(0, m)
                                        }
                                    }
                                });
                                done_execs.fetch_add(1, Ordering::Relaxed);
                                let at = match res {
                                    Res::Ok { hash, outcomes } => {
                                        st.execs += 1;
                                        st.fault_runs += extra;
                                        st.steps += idx.len() as u64;
                                        st.states.insert(hash);
                                        st.outcomes.insert(outcomes);
                                        if idx.len() == depth && st.execs % 97 == 1 && st.samples.len() < 2 {
                                            let ops: Vec<&Op> = idx.iter().enumerate().map(|(k, i)| &d.layers[k][*i]).collect();
                                            let t: String = format!("{ops:?}").chars().take(600).collect();
                                            st.samples.push(format!("{} from {}: {t}", d.cfgs[*ci].name, d.setups[*si].name));
                                        }
                                        idx.len()
                                    }
                                    Res::Disabled(k) => {
                                        st.disabled += 1;
                                        if k + 1 <= plen {
                                            dead.lock().unwrap().insert((*ci, *si, idx[..k + 1].to_vec()));
                                        }
                                        k + 1
                                    }
                                    Res::Pruned(k, m) => {
                                        st.pruned += 1;
                                        *st.prune_classes.entry(format!("{:?}", m.class)).or_default() += 1;
                                        if st.prune_example.is_none() {
                                            let ops: Vec<&Op> = idx.iter().enumerate().map(|(k, i)| &d.layers[k][*i]).collect();
                                            st.prune_example = Some(format!("[{} {}] {ops:?}: {:?} {}", d.cfgs[*ci].name, d.setups[*si].name, m.class, m.msg));
                                        }
                                        let k = (k + 1).min(idx.len());
                                        if k >= 1 && k <= plen {
                                            dead.lock().unwrap().insert((*ci, *si, idx[..k].to_vec()));
                                        }
                                        k
                                    }
                                    Res::Bad(k, m) => {
                                        let keep = (k + 1).min(idx.len());
                                        let ops: Vec<Op> = idx.iter().enumerate().map(|(k, i)| d.layers[k][*i].clone()).take(keep.max(1).min(idx.len())).collect();
                                        let v = Violation {
                                            driver: d.name.clone(),
                                            cfg: d.cfgs[*ci].name.into(),
                                            setup: d.setups[*si].name.clone(),
                                            ops,
                                            class: m.class,
                                            msg: m.msg.clone(),
                                            log: vec![],
                                        };
                                        if known(&v) {
                                            let mut kh = known_hits.lock().unwrap();
                                            if kh.len() < 20000 {
                                                kh.push(v);
                                            }
                                            keep
                                        } else {
                                            let mut f = found.lock().unwrap();
                                            if f.as_ref().map(|o| o.ops.len() > v.ops.len()).unwrap_or(true) {
                                                *f = Some(v);
                                            }
                                            stop.store(true, Ordering::Relaxed);
                                            break 'job;
                                        }
                                    }
                                };
                                // advance at position `at - 1`
                                let mut p = at.min(idx.len());
                                loop {
                                    if p <= plen {
                                        break 'job;
                                    }
                                    p -= 1;
                                    idx[p] += 1;
                                    for q in p + 1..idx.len() {
                                        idx[q] = 0;
                                    }
                                    if idx[p] < d.layers[p].len() {
                                        break;
                                    }
                                    idx[p] = 0;
                                }
                            }
                        }
                        progress.idle(t);
                        stats.lock().unwrap().merge(st);
                    })
                    .unwrap();
            }
        });
        let s = stats.into_inner().unwrap();
        reports.push(DriverReport {
            name: d.name.clone(),
            exhaustive: !capped.load(Ordering::Relaxed) && !stop.load(Ordering::Relaxed),
            depth,
            stats: s,
            wall: t0.elapsed().as_secs_f64(),
        });
        if stop.load(Ordering::Relaxed) {
            break;
        }
    }
    Outcome { reports, violation: found.into_inner().unwrap(), known_hits: known_hits.into_inner().unwrap() }
}

pub fn report_json(r: &DriverReport, d: &Driver) -> serde_json::Value {
    json!({
        "driver": r.name,
        "configurations": d.cfgs.iter().map(|c| c.name).collect::<Vec<_>>(),
        "setups": d.setups.len(),
        "alphabet": d.layers.iter().map(|l| l.len()).collect::<Vec<_>>(),
        "depth": r.depth,
        "executions": r.stats.execs,
        "fault_runs": r.stats.fault_runs,
        "operations_executed": r.stats.steps,
        "distinct_states": r.stats.states.len(),
        "distinct_outcome_vectors": r.stats.outcomes.len(),
        "disabled_prefixes": r.stats.disabled,
        "pruned_prefixes": r.stats.pruned,
        "pruned_classes": r.stats.prune_classes,
        "pruned_example": r.stats.prune_example,
        "exhaustive_within_bounds": r.exhaustive,
        "samples": r.stats.samples,
        "wall_s": (r.wall * 100.0).round() / 100.0,
    })
}

#[allow(dead_code)]
fn unused(_: &dyn Memory) {}
