//! Refused memory growth at every point of a history.
use crate::engine::*;
use crate::fsck::fsck;
use crate::model::*;
use crate::obs::*;
use crate::ops::*;
use crate::real::*;
use ic_stable_structures::memory_manager::{MemoryId, MemoryManager};
use ic_stable_structures::Memory;

#[derive(Clone, Copy, Debug)]
enum Plan {
    None,
    /// growth request `at` of memory `mem` (0: the file system's own, k: mounted memory k-1)
    Grow { mem: usize, at: u64, forever: bool },
    /// the memory manager has only `left` free buckets
    Buckets { left: u64 },
}

const MAX_BUCKETS: u64 = 32768;
const HOG: u8 = 240;

fn allocated(r: &Real) -> u64 {
    let mut b = [0u8; 2];
    r.mem.peek(4, &mut b);
    u16::from_le_bytes(b) as u64
}

fn growth(r: &Real) -> Vec<u64> {
    std::iter::once(r.mem.grow_calls()).chain(r.mems.iter().map(|m| m.grow_calls())).collect()
}
fn failures(r: &Real) -> u64 {
    r.mem.grow_failures() + r.mems.iter().map(|m| m.grow_failures()).sum::<u64>()
}

impl Ex<'_> {
    fn fresh(&self, plan: Plan) -> Result<(Real, Model), Res> {
        let (mut real, mut model) = start(self.d, self.cfg, self.base);
        if let Err(m) = self.warm(&mut real, &mut model) {
            return Err(self.verdict(0, Mis { class: m.class, msg: format!("in the setup: {}", m.msg) }));
        }
        if let Plan::Buckets { left } = plan {
            // somebody else uses up the other buckets
            let free = MAX_BUCKETS - allocated(&real);
            if free > left {
                let own;
                let mm: &MemoryManager<_> = match &real.mm {
                    Some(m) => m,
                    None => {
                        own = MemoryManager::init(real.mem.clone());
                        &own
                    }
                };
                mm.get(MemoryId::new(HOG)).grow((free - left) * self.cfg.bucket.max(1) as u64);
            }
        }
        Ok((real, model))
    }

    /// the state after the effective operations, without any refusal on the way
    fn rebuild(&self, plan: Plan, eff: &[Op]) -> Result<(Real, Model), Res> {
        let (mut real, mut model) = self.fresh(plan)?;
        let mut c = Ctx { real: &mut real, model: &mut model, ignore: self.d.ignore, trace: None, log: None, hash: 0 };
        for (k, o) in eff.iter().enumerate() {
            if let Err(m) = c.step(o) {
                return Err(self.verdict(k, m));
            }
        }
        Ok((real, model))
    }

    fn look(&mut self, real: &mut Real, model: &mut Model) -> Result<(), Mis> {
        // observing closes and opens descriptors only; mounted memories may legitimately be grown by reading them
        for m in &real.mems {
            m.set_fault(None);
        }
        let scope = self.scope(model);
        let mut log = std::mem::take(&mut self.log);
        let r = {
            let mut c = Ctx { real, model, ignore: self.d.ignore, trace: None, log: if self.want_log { Some(&mut log) } else { None }, hash: 0 };
            observe(&mut c, &self.d.universe, scope)
        };
        self.log = log;
        r?;
        if !self.cfg.transient {
            fsck(&real.mem, self.cfg.base, false)?;
        }
        Ok(())
    }

    pub fn run_faults(&mut self, ops: &[&Op]) -> Res {
        let (real, model) = match self.fresh(Plan::None) {
            Ok(x) => x,
            Err(r) => return r,
        };
        // reference run
        let mut todo: Vec<(usize, Op)> = vec![];
        for (k, o) in ops.iter().enumerate() {
            todo.extend(flatten(&[(*o).clone()]).into_iter().map(|o| (k, o)));
        }
        let before = growth(&real);
        let alloc0 = allocated(&real);
        let (mut real, mut model) = (real, model);
        let mut hh = 0;
        for (k, o) in &todo {
            if !model.enabled(o, self.d.stale_ok) {
                return Res::Disabled(*k);
            }
            let mut c = Ctx { real: &mut real, model: &mut model, ignore: self.d.ignore, trace: None, log: None, hash: hh };
            if let Err(m) = c.step(o) {
                // without any refusal: another property's business
                return Res::Pruned(*k, m);
            }
            hh = c.hash;
        }
        let after = growth(&real);
        let hash = model.hash64();
        let mut plans = vec![];
        for (mem, (a, b)) in after.iter().zip(before.iter()).enumerate() {
            for at in 0..(a - b) {
                plans.push(Plan::Grow { mem, at, forever: false });
                plans.push(Plan::Grow { mem, at, forever: true });
            }
        }
        if !self.cfg.transient {
            for left in 0..(allocated(&real) - alloc0) {
                plans.push(Plan::Buckets { left });
            }
        }
        drop(real);
        for p in plans {
            self.extra += 1;
            if let Err(r) = self.run_plan(p, &todo) {
                return match r {
                    Res::Bad(k, m) => Res::Bad(k, Mis { class: m.class, msg: format!("with {p:?}: {}", m.msg) }),
                    r => r,
                };
            }
        }
        Res::Ok { hash, outcomes: hh }
    }

    fn arm(real: &Real, plan: Plan, later: bool) {
        if let Plan::Grow { mem, at, forever } = plan {
            let m = if mem == 0 { &real.mem } else { &real.mems[mem - 1] };
            if !later {
                m.set_fault(Some((at, forever)));
            } else if forever {
                m.set_fault(Some((0, true)));
            }
        }
    }

    fn run_plan(&mut self, plan: Plan, todo: &[(usize, Op)]) -> Result<(), Res> {
        let (mut real, mut model) = self.fresh(plan)?;
        let once = matches!(plan, Plan::Grow { forever: false, .. });
        Self::arm(&real, plan, false);
        let mut eff: Vec<Op> = vec![];
        let mut i = 0;
        let mut hit = false;
        let last = todo.last().map(|x| x.0).unwrap_or(0);
        if self.want_log {
            self.log.push(format!("--- {plan:?}"));
        }
        while i < todo.len() {
            let (k, op) = &todo[i];
            i += 1;
            if !model.enabled(op, self.d.stale_ok) {
                continue;
            }
            let failed = failures(&real);
            let pages = real.mem_pages();
            let saved = model.clone();
            let out = real.exec(op);
            let fired = failures(&real) > failed;
            if self.want_log {
                self.log.push(format!("{op:?} -> {}{}", out.short(), if fired { "   (growth refused)" } else { "" }));
            }
            let env = Env { pages: &pages, stamp: real.stamp };
            let r = model.step(op, &out, &env);
            match (&out, r) {
                (_, Ok(())) => eff.push(op.clone()),
                (_, Err(m)) if self.d.ignore & bit(m.class) != 0 => eff.push(op.clone()),
                (Out::Trap(_), Err(m)) => {
                    // the manager refuses without a failing call below it
                    if !(fired || matches!(plan, Plan::Buckets { .. }) || hit) {
                        return Err(self.verdict(*k, m));
                    }
                    hit = true;
                    // the platform rolls everything back
                    let stamp = real.stamp;
                    drop(real);
                    (real, model) = self.rebuild(plan, &eff)?;
                    if self.log_on() {
                        self.log.push("   rolled back".into());
                    }
                    Self::arm(&real, plan, true);
                    if let Err(m) = self.look(&mut real, &mut model) {
                        return Err(self.verdict(*k, Mis { class: m.class, msg: format!("after the rollback of {}: {}", short_op(op), m.msg) }));
                    }
                    Self::arm(&real, plan, true);
                    let _ = stamp;
                    if once {
                        // the same call again, now with room
                        i -= 1;
                    }
                }
                (Out::Err(_), Err(m)) => {
                    if !(fired || matches!(plan, Plan::Buckets { .. })) {
                        return Err(self.verdict(*k, m));
                    }
                    // reported: nothing may have changed
                    hit = true;
                    model = saved;
                    if let Err(m) = self.look(&mut real, &mut model) {
                        return Err(self.verdict(*k, Mis { class: m.class, msg: format!("after {} reported the refused growth: {}", short_op(op), m.msg) }));
                    }
                    Self::arm(&real, plan, true);
                }
                (_, Err(m)) => return Err(self.verdict(*k, Mis { class: m.class, msg: format!("{}: {}", short_op(op), m.msg) })),
            }
        }
        // with the refusal still in force, then with room again, then re-opened
        if let Err(m) = self.look(&mut real, &mut model) {
            return Err(self.verdict(last, m));
        }
        real.mem.set_fault(None);
        for m in &real.mems {
            m.set_fault(None);
        }
        if self.cfg.transient || matches!(plan, Plan::Buckets { .. }) && false {
            return Ok(());
        }
        let scope = self.scope(&model);
        let mut c = Ctx { real: &mut real, model: &mut model, ignore: self.d.ignore, trace: None, log: None, hash: 0 };
        let r = c.step(&Op::Restart).and_then(|_| observe(&mut c, &self.d.universe, scope));
        r.map_err(|m| self.verdict(last, Mis { class: Class::Persist, msg: format!("after re-opening: {}", m.msg) }))
    }

    fn log_on(&self) -> bool {
        self.want_log
    }
}
