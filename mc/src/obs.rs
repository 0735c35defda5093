//! Full observation of a state through the public interface, in lockstep with the model.
use crate::model::*;
use crate::ops::*;
use crate::real::Real;

pub struct Ctx<'a> {
    pub real: &'a mut Real,
    pub model: &'a mut Model,
    /// classes that are tolerated without stopping (they do not touch the state)
    pub ignore: u32,
    pub trace: Option<&'a mut Vec<Out>>,
    pub log: Option<&'a mut Vec<String>>,
    /// digest of the outcomes seen through this context
    pub hash: u64,
}

pub fn bit(c: Class) -> u32 {
    1 << c as u32
}

impl Ctx<'_> {
    /// one operation in lockstep
    pub fn step(&mut self, op: &Op) -> Result<(), Mis> {
        let pages = self.real.mem_pages();
        let out = self.real.exec(op);
        let env = Env { pages: &pages, stamp: self.real.stamp };
        let r = self.model.step(op, &out, &env);
        if let Some(l) = self.log.as_mut() {
            l.push(format!("{op:?} -> {}", out.short()));
        }
        self.hash = self.hash.rotate_left(7) ^ crate::engine::outcome_hash(&out);
        if let Some(t) = self.trace.as_mut() {
            t.push(out);
        }
        match r {
            Err(m) if self.ignore & bit(m.class) != 0 => Ok(()),
            Err(m) => Err(Mis { class: m.class, msg: format!("{}: {}", short_op(op), m.msg) }),
            Ok(()) => Ok(()),
        }
    }
    pub fn step_slot(&mut self, op: &Op, what: &str) -> Result<(), Mis> {
        self.step(op).map_err(|m| Mis { class: m.class, msg: format!("{what} {}", m.msg) })
    }
}

pub fn short_op(op: &Op) -> String {
    let s = format!("{op:?}");
    if s.len() > 300 {
        s.chars().take(300).collect::<String>() + ".."
    } else {
        s
    }
}

const SLOT: u8 = 250;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Scope {
    Full,
    /// only directories and files touched since the mark, plus root
    Touched(usize),
}

fn file(c: &mut Ctx, base: F, path: &str, ino: Ino, first: bool) -> Result<(), Mis> {
    c.step(&Op::OpenMeta { d: base, p: path.into() })?;
    if !first {
        return Ok(());
    }
    c.step(&Op::Open { d: base, p: path.into(), of: 0, ff: 0, rights: ALL_RIGHTS, t: 0, slot: Some(SLOT) })?;
    let f = F::S(SLOT);
    contents(c, f, ino)?;
    c.step(&Op::Meta(f))?;
    c.step(&Op::Close(f))
}

pub fn contents(c: &mut Ctx, f: F, ino: Ino) -> Result<(), Mis> {
    let n = c.model.n(ino);
    let size = n.esize();
    if size <= 300_000 {
        return c.step(&Op::PReadV(f, vec![size as u32 + 9], 0));
    }
    if size <= 8 << 20 {
        for a in (0..size + 9).step_by(1 << 20) {
            c.step(&Op::PReadV(f, vec![(1 << 20).min((size + 9 - a) as u32)], a))?;
        }
        return Ok(());
    }
    // windows around everything interesting
    let mut pts: Vec<u64> = vec![0, size];
    let data = match n.mount {
        Some(m) => c.model.mems[m as usize].edges(),
        None => n.data.edges(),
    };
    for e in data {
        if e <= size {
            pts.push(e);
        }
    }
    // chunk boundaries of every layout (the observation must not depend on the layout in use)
    for p in pts.clone() {
        for cs in [4096u64, 16384, 65536] {
            pts.push(p / cs * cs);
            pts.push((p / cs + 1) * cs);
        }
    }
    if n.mount.is_none() {
        // every stored chunk-sized segment is read completely when the total is moderate
        let total: u64 = n.data.0.iter().map(|s| s.end - s.start).sum();
        if total <= 64 << 20 {
            for s in n.data.0.clone() {
                let mut a = s.start;
                while a < s.end {
                    let l = (s.end - a).min(1 << 20) as u32;
                    c.step(&Op::PReadV(f, vec![l], a))?;
                    a += l as u64;
                }
            }
        }
    }
    pts.sort();
    pts.dedup();
    let mut last = 0u64;
    for p in pts {
        let a = p.saturating_sub(600).max(last);
        let b = p.saturating_add(600).min(size.saturating_add(600));
        if a < b {
            c.step(&Op::PReadV(f, vec![(b - a) as u32], a))?;
            last = b;
        }
    }
    Ok(())
}

/// `base`/`path`: where the directory is reached from; long chains of directories are
/// followed through a descriptor kept open every STRIDE levels
const STRIDE: usize = 32;
/// the walk goes no deeper than this
const ABYSS: usize = 2900;

#[allow(clippy::too_many_arguments)]
fn dir(c: &mut Ctx, base: F, path: &str, depth: usize, ino: Ino, scope: Scope, seen: &mut std::collections::BTreeSet<Ino>) -> Result<(), Mis> {
    if depth >= ABYSS {
        return Ok(());
    }
    let slot = if depth % STRIDE == 0 { 100 + (depth / STRIDE) as u8 } else { SLOT };
    let f = if path.is_empty() {
        base
    } else {
        c.step(&Op::OpenMeta { d: base, p: path.into() })?;
        c.step(&Op::Open { d: base, p: path.into(), of: DIRECTORY, ff: 0, rights: ALL_RIGHTS, t: 0, slot: Some(slot) })?;
        F::S(slot)
    };
    c.step(&Op::Meta(f))?;
    let is_touched = |c: &Ctx, i: Ino| match scope {
        Scope::Full => true,
        Scope::Touched(m) => c.model.touched[m.min(c.model.touched.len())..].contains(&i),
    };
    let list = is_touched(c, ino) || c.model.n(ino).entries.len() < 50;
    if list {
        c.step(&Op::List(f, None, 0))?;
    }
    let kept = !path.is_empty() && slot != SLOT;
    if !path.is_empty() && !kept {
        c.step(&Op::Close(f))?;
    }
    let (base, path) = if kept { (f, "") } else { (base, path) };
    let es = c.model.n(ino).entries.clone();
    for (name, k) in es {
        let p = if path.is_empty() { name.to_string() } else { format!("{path}/{name}") };
        let first = seen.insert(k);
        if c.model.n(k).dir {
            dir(c, base, &p, depth + 1, k, scope, seen)?;
        } else if is_touched(c, k) {
            file(c, base, &p, k, first)?;
        }
    }
    if kept {
        c.step(&Op::Close(f))?;
    }
    Ok(())
}

pub fn observe(c: &mut Ctx, universe: &[String], scope: Scope) -> Result<(), Mis> {
    let remap = |m: Mis| -> Mis {
        // success or failure of an observation says something about the tree
        let class = match m.class {
            Class::OkErr | Class::Value => Class::Tree,
            x => x,
        };
        Mis { class, msg: format!("observing the state: {}", m.msg) }
    };
    // descriptors first (their numbers must not be disturbed by the walk)
    let fds: Vec<(u32, Ino)> = c.model.fds.iter().filter(|(n, _)| **n != 3).map(|(n, s)| (*n, s.ino)).collect();
    for (n, ino) in fds {
        let f = F::N(n);
        c.step(&Op::GetStat(f)).map_err(remap)?;
        c.step(&Op::Meta(f)).map_err(remap)?;
        if !c.model.n(ino).dir {
            c.step(&Op::Tell(f)).map_err(|m| if m.class == Class::Value { Mis { class: Class::Fd, msg: format!("observing the cursor: {}", m.msg) } } else { remap(m) })?;
            if c.model.fds[&n].rights & R_READ != 0 && scope == Scope::Full {
                contents(c, f, ino).map_err(remap)?;
            }
        }
    }
    // nothing but the descriptors handed out and not closed is open
    let top = c.model.fds.keys().copied().filter(|x| *x < 200).max().unwrap_or(3).max(c.model.max_fd.min(200)) + 6;
    for n in 0..=top {
        if n == 3 || !c.model.fds.contains_key(&n) {
            c.step(&Op::GetStat(F::N(n))).map_err(|m| Mis { class: if m.class == Class::Trap { Class::Trap } else { Class::Fd }, msg: format!("descriptor {n}: {}", m.msg) })?;
        }
    }
    for p in universe {
        c.step(&Op::OpenMeta { d: F::Root, p: p.clone() }).map_err(remap)?;
    }
    let mut seen = std::collections::BTreeSet::new();
    dir(c, F::Root, "", 0, ROOT, scope, &mut seen).map_err(remap)?;
    memories(c)
}

/// the mounted memories hold exactly what the model says
pub fn memories(c: &mut Ctx) -> Result<(), Mis> {
    for (k, m) in c.real.mems.iter().enumerate() {
        let sm = &c.model.mems[k];
        let end = m.pages() * 65536;
        for s in &sm.0 {
            if s.end > end {
                return mis(Class::Mem, format!("memory {k} was not grown to hold byte {}", s.end));
            }
        }
        let mut ranges: Vec<(u64, u64)> = vec![];
        if end <= 4 * 65536 {
            ranges.push((0, end));
        } else {
            ranges.push((0, 65536));
            ranges.push((end - 65536, end));
            for e in sm.edges() {
                ranges.push((e.saturating_sub(5000), (e + 5000).min(end)));
            }
        }
        for (a, b) in ranges {
            let exp = sm.read(a, (b - a) as usize);
            let mut got = vec![0u8; exp.len()];
            m.peek(a, &mut got);
            if got != exp {
                let i = got.iter().zip(&exp).position(|(x, y)| x != y).unwrap();
                return mis(Class::Mem, format!("memory {k} differs at byte {}: {} expected {}", a + i as u64, got[i], exp[i]));
            }
        }
    }
    Ok(())
}
