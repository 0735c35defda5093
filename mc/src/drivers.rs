//! Per property: the alphabets, starting states, bounds and the classes of mismatch that count.
use crate::engine::*;
use crate::obs::bit;
use crate::ops::*;
use crate::real::*;
use std::sync::Arc;

pub const ALL: u32 = u32::MAX;

pub fn classes(c: &[Class]) -> u32 {
    c.iter().fold(0, |a, x| a | bit(*x))
}

/// everything a functional property cares about
fn func() -> u32 {
    use Class::*;
    classes(&[Trap, OkErr, Value, Tree, Content, Attr, Fd, Mem, Persist, Hang, Other])
}
fn soft() -> u32 {
    use Class::*;
    classes(&[Code, Times, ChunkType])
}

pub fn drv(name: &str, cfgs: &[Cfg], layers: Vec<Vec<Op>>) -> Driver {
    Driver {
        name: name.into(),
        cfgs: cfgs.to_vec(),
        nmems: 0,
        setups: vec![Setup::default()],
        layers: layers.into_iter().map(Arc::new).collect(),
        stale_ok: false,
        mask: func(),
        ignore: soft(),
        fsck: false,
        restart: true,
        full_limit: 200,
        universe: vec![],
        mode: Mode::Plain,
        cleanup: vec![],
        leaf_only: false,
        observe: true,
        image: None,
        legacy: false,
        blame: None,
        core: 0,
        thin: false,
    }
}

/// the same alphabet at every position
pub fn rep(a: &[Op], depth: usize) -> Vec<Vec<Op>> {
    (0..depth).map(|_| a.to_vec()).collect()
}

pub fn setup(name: &str, cold: Vec<Op>, warm: Vec<Op>) -> Setup {
    Setup { name: name.into(), cold, warm }
}

impl Driver {
    /// start from an image of an earlier version
    pub fn image(mut self, i: crate::image::Image) -> Self {
        self.image = Some(i);
        self.legacy = true;
        self
    }
    pub fn setups(mut self, s: Vec<Setup>) -> Self {
        self.setups = s;
        self
    }
    pub fn warm(mut self, w: Vec<Op>) -> Self {
        self.setups = vec![setup("warm", vec![], w)];
        self
    }
    pub fn uni(mut self, u: &[&str]) -> Self {
        self.universe = u.iter().map(|s| s.to_string()).collect();
        self
    }
    pub fn stale(mut self) -> Self {
        self.stale_ok = true;
        self
    }
    pub fn mems(mut self, n: usize) -> Self {
        self.nmems = n;
        self
    }
    pub fn add(mut self, c: &[Class]) -> Self {
        self.mask |= classes(c);
        self.ignore &= !classes(c);
        self
    }
    pub fn mask(mut self, m: u32) -> Self {
        self.mask = m;
        self.ignore &= !m;
        self
    }
    pub fn check_image(mut self) -> Self {
        self.fsck = true;
        self.mask |= classes(&[Class::Fsck, Class::Leak]);
        self
    }
    pub fn mode(mut self, m: Mode) -> Self {
        self.mode = m;
        self
    }
    pub fn no_restart(mut self) -> Self {
        self.restart = false;
        self
    }
    pub fn thin(mut self) -> Self {
        self.thin = true;
        self
    }
    pub fn leaf(mut self) -> Self {
        self.leaf_only = true;
        self
    }
}

// --- operation shorthands ----------------------------------------------------------------------
const RT: F = F::Root;
fn s(n: u8) -> F {
    F::S(n)
}
pub fn open(p: &str, of: u16, slot: u8) -> Op {
    Op::Open { d: RT, p: p.into(), of, ff: 0, rights: ALL_RIGHTS, t: 1, slot: Some(slot) }
}
pub fn openx(d: F, p: &str, of: u16, ff: u16, rights: u64, t: u64, slot: Option<u8>) -> Op {
    Op::Open { d, p: p.into(), of, ff, rights, t, slot }
}
/// create (or open) and close
pub fn touch(p: &str) -> Op {
    Op::Open { d: RT, p: p.into(), of: CREATE, ff: 0, rights: ALL_RIGHTS, t: 2, slot: None }
}
pub fn mkdir(p: &str) -> Op {
    Op::Mkdir { d: RT, p: p.into(), t: 3 }
}
pub fn rm(p: &str) -> Op {
    Op::RmFile { d: RT, p: p.into() }
}
pub fn rmdir(p: &str) -> Op {
    Op::RmDir { d: RT, p: p.into() }
}
pub fn rmrec(p: &str) -> Op {
    Op::RmRec { d: RT, p: p.into() }
}
pub fn link(a: &str, b: &str) -> Op {
    Op::Link { d: RT, p: a.into(), d2: RT, p2: b.into(), slot: None }
}
pub fn rename(a: &str, b: &str) -> Op {
    Op::Rename { d: RT, p: a.into(), d2: RT, p2: b.into(), slot: None }
}
fn pw(f: u8, off: u64, len: u32) -> Op {
    Op::PWriteV(s(f), vec![len], off)
}
fn pr(f: u8, off: u64, len: u32) -> Op {
    Op::PReadV(s(f), vec![len], off)
}
pub fn put(p: &str, off: u64, len: u32) -> Op {
    Op::Put { p: p.into(), off, len }
}
/// open, apply, close: as one step
fn with(p: &str, ops: Vec<Op>) -> Op {
    let mut v = vec![open(p, 0, 90)];
    v.extend(ops);
    v.push(Op::Close(s(90)));
    Op::Seq(v)
}
fn size(p: &str, n: u64) -> Op {
    with(p, vec![Op::SetSize(s(90), n)])
}
fn trunc(p: &str) -> Op {
    Op::Open { d: RT, p: p.into(), of: TRUNC, ff: 0, rights: ALL_RIGHTS, t: 1, slot: None }
}
pub fn mount(p: &str, m: u8, pol: Pol) -> Op {
    Op::Mount { p: p.into(), m, pol }
}
fn seqs(v: Vec<Op>) -> Op {
    Op::Seq(v)
}

pub const STABLE: [Cfg; 4] = [V2_4K, V2_16K, V2_64K, V1];

/// chunk size that matters for a configuration
fn csz(c: &Cfg) -> u64 {
    if c.transient || c.ct == 1 {
        4096
    } else {
        c.chunk as u64
    }
}

// --- C01 ---------------------------------------------------------------------------------------
fn c01(th: bool) -> Vec<Driver> {
    let mut v = vec![];
    for cfg in [V2_4K, V2_16K, V2_64K, V1, V1_4K, TRANS, V2_8K, V2_32K] {
        let c = csz(&cfg);
        let l = c as u32;
        let a = vec![
            pw(0, 0, 1),
            pw(0, c - 1, 2),
            pw(0, c, l),
            pw(0, 2 * c + 5, 10),
            pw(0, c / 2, 2 * l),
            pw(0, 0, 3 * l + 1),
            pw(0, 4 * c - 3, 3),
            pr(0, 0, 5 * l),
            pr(0, c - 1, 2),
            Op::Read(s(0), l + 1),
            Op::Write(s(0), l - 7),
            pw(1, c - 5, 9),
        ];
        let depth = match cfg.name {
            "v2-4k" => 4,
            "v2-16k" | "v1" | "transient" => if th { 4 } else { 3 },
            _ => if th { 4 } else { 3 },
        };
        v.push(drv(&format!("rw-{}", cfg.name), &[cfg], rep(&a, depth)).warm(vec![open("f", CREATE, 0), open("g", CREATE, 1)]).uni(&["f", "g"]));
    }
    // every pair of edges: where a write begins and ends within its first and last chunk, over old data
    for cfg in [V2_4K, V1, V2_16K, V2_64K, TRANS, V1_4K] {
        let c = csz(&cfg);
        let mut pts = vec![0, 1, 2, c / 2, c - 2, c - 1];
        if c > 4096 {
            pts.extend([4095, 4096, 4097, c - 4096]);
        }
        let mut a = vec![];
        for &x in &pts {
            for k in 0..3u64 {
                for &y in &pts {
                    let (from, to) = (c + x, c * (1 + k) + y);
                    if to > from {
                        a.push(pw(0, from, (to - from) as u32));
                    }
                }
            }
        }
        let old = setup("data", vec![], vec![open("f", CREATE, 0), pw(0, 0, (5 * c) as u32 + 9)]);
        let short = setup("short", vec![], vec![open("f", CREATE, 0), pw(0, 0, (c + c / 2) as u32)]);
        let empty = setup("empty", vec![], vec![open("f", CREATE, 0)]);
        let two = th || c == 4096 && !cfg.transient;
        v.push(drv(&format!("edges-{}", cfg.name), &[cfg], rep(&a, if two { 2 } else { 1 })).setups(vec![old, short, empty]).uni(&["f"]).no_restart());
    }
    // far offsets: 32-bit borders of byte offsets and of chunk indices
    for cfg in [V2_4K, V2_64K, V1, TRANS] {
        let c = csz(&cfg);
        let g4 = 1u64 << 32;
        let last = MAX_FILE_SIZE;
        let a = vec![
            pw(0, g4 - 3, 6),
            pw(0, g4 + c, 5),
            pw(0, last - 5, 5),
            pw(0, last - c - 1, 3),
            pw(0, 0, 4),
            pr(0, g4 - 10, 40),
            pr(0, last - c - 20, 60),
            pr(0, last - 10, 10),
            pw(0, g4 / 2 - 1, 2),
        ];
        v.push(drv(&format!("far-{}", cfg.name), &[cfg], rep(&a, if th { 4 } else { 3 })).warm(vec![open("f", CREATE, 0)]).uni(&["f"]));
    }
    // chunk indices around the pointer cache's batch sizes
    let c = 4096u64;
    let w = |i: u64| pw(0, i * c, 100);
    let a = vec![
        w(0), w(99), w(100), w(101), w(1023), w(1024), w(1025), w(2100),
        pr(0, 0, 10), pr(0, 99 * c, 3 * 4096), pr(0, 1000 * c, 40 * 4096), pr(0, 0, 1100 * 4096),
        pw(0, 1020 * c + 5, 8 * 4096),
        pr(0, 924 * c, 10),
    ];
    v.push(drv("batch-v2-4k", &[V2_4K], rep(&a, 3)).warm(vec![open("f", CREATE, 0)]).uni(&["f"]));
    v
}

// --- C02 ---------------------------------------------------------------------------------------
fn c02(th: bool) -> Vec<Driver> {
    let mut v = vec![];
    for cfg in [V2_4K, V2_16K, V2_64K, V1, V1_4K, TRANS] {
        let c = csz(&cfg);
        let l = c as u32;
        let ss = |n: u64| Op::SetSize(s(0), n);
        let a = vec![
            ss(0), ss(1), ss(c - 1), ss(c), ss(c + 1), ss(2 * c), ss(3 * c + 5),
            pw(0, 0, 2 * l + 10), pw(0, c - 2, 4), pw(0, 2 * c + 7, 3),
            trunc("f"),
            pr(0, 0, 4 * l),
            Op::SetMeta(s(0), MetaChange::Size(c + 3)),
        ];
        let depth = if th || cfg.name == "v2-4k" { 4 } else { 3 };
        v.push(drv(&format!("resize-{}", cfg.name), &[cfg], rep(&a, depth)).warm(vec![open("f", CREATE, 0)]).uni(&["f"]));
    }
    // V1 files with the default V2 chunk size: borders of both sizes matter; files with holes
    let ss = |n: u64| Op::SetSize(s(0), n);
    for cfg in [V1, V2_16K] {
        let a = vec![ss(4096), ss(8192), ss(10000), ss(16384), ss(20000), ss(65536), pw(0, 0, 40000), pw(0, 50000, 10), pr(0, 0, 70000)];
        v.push(drv(&format!("cross-{}", cfg.name), &[cfg], rep(&a, 4)).warm(vec![open("f", CREATE, 0)]).uni(&["f"]));
    }
    // large: shrink over many chunks, warm pointer cache
    let c = 4096u64;
    let a = vec![
        pw(0, 0, 1100 * 4096), pw(0, 1500 * c, 10), ss(1024 * c), ss(100 * c + 1), ss(1), ss(1500 * c), pr(0, 1000 * c, 200 * 4096), trunc("f"), pw(0, 101 * c, 5000),
        ss(6 << 30), pw(0, (4 << 30) + 5, 10), pr(0, (4 << 30) - 10, 30),
    ];
    v.push(drv("large-v2-4k", &[V2_4K], rep(&a, 3)).warm(vec![open("f", CREATE, 0)]).uni(&["f"]));
    v
}

// --- C03 ---------------------------------------------------------------------------------------
fn c03(th: bool) -> Vec<Driver> {
    let mut v = vec![];
    for cfg in [V2_4K, V2_16K, V1, TRANS, MM1] {
        let c = csz(&cfg);
        let l = c as u32;
        let a = vec![
            put("f", 0, 2 * l + 5),
            put("f", 2 * c - 3, 6),
            put("g", c + 9, 10),
            put("g", 0, l),
            rm("f"),
            rm("g"),
            size("f", c / 2),
            size("g", 3 * c),
            trunc("f"),
            put("h", 2 * c + 1, 1),
            with("g", vec![pr(90, 0, 4 * l)]),
            rename("f", "g"),
            link("f", "k"),
        ];
        let depth = if th || matches!(cfg.name, "v2-4k") { 4 } else { 3 };
        v.push(drv(&format!("files-{}", cfg.name), &[cfg], rep(&a, depth)).uni(&["f", "g", "h", "k"]));
    }
    // chunks used before: every pair of edges within the first and the last chunk of a write
    for cfg in [V2_4K, V2_8K, V2_16K, V2_32K, V2_64K, V1, TRANS] {
        let c = csz(&cfg);
        let mut pts = vec![0, 1, 2, c / 4, c / 2, c / 2 + 1, 3 * c / 4 + 3, c - 2, c - 1];
        if c > 4096 {
            pts.extend([4095, 4096, 4097, c - 4096]);
        }
        let mut a = vec![];
        for &x in &pts {
            for k in 0..3u64 {
                for &y in &pts {
                    let (from, to) = (c + x, c * (1 + k) + y);
                    if to > from {
                        a.push(pw(0, from, (to - from) as u32));
                    }
                }
            }
        }
        let b = vec![Op::SetSize(s(0), 6 * c), pw(1, 0, 3 * c as u32), pw(1, 2 * c + c / 2 + 5, 9), Op::SetSize(s(0), c + c / 2), Op::Restart, rm("z")];
        let old = |n: &str, last: Vec<Op>| setup(n, vec![], [vec![put("z", 0, (9 * c) as u32), put("y", 0, 3 * c as u32)], last, vec![open("f", CREATE, 0), open("g", CREATE, 1)]].concat());
        let setups = vec![old("removed", vec![rm("z")]), old("cut", vec![size("z", 5)]), old("truncated", vec![trunc("z"), rm("y")])];
        v.push(drv(&format!("used-{}", cfg.name), &[cfg], if th { vec![a.clone(), b.clone(), b] } else { vec![a, b] }).setups(if th { setups } else { setups[..1].to_vec() }).uni(&["f", "g", "z", "y"]).no_restart());
    }
    // with open descriptors and a mounted file next to an ordinary one
    let a = vec![
        pw(0, 0, 5000), pw(1, 4000, 5000), Op::SetSize(s(0), 100), Op::SetSize(s(1), 4097), pr(1, 0, 9000), pr(0, 0, 9000),
        mount("g", 0, Pol::Pages), Op::Unmount("g".into()), Op::Store("g".into()), Op::Init("g".into()), put("h", 4090, 10), rm("h"), rmrec("d"), put("d/x", 0, 9000),
        Op::MemWrite { m: 0, off: 4000, len: 200 },
    ];
    v.push(drv("mixed", &[V2_4K, V1, TRANS], rep(&a, if th { 4 } else { 3 })).mems(1).warm(vec![open("f", CREATE, 0), open("g", CREATE, 1)]).uni(&["f", "g", "h", "d", "d/x"]));
    v
}

// --- C04 ---------------------------------------------------------------------------------------
fn c04(th: bool) -> Vec<Driver> {
    let a = vec![
        touch("f"), mkdir("d"), put("f", 4090, 20), put("d/g", 0, 9000), rename("f", "d/f"), rename("d", "e"), link("f", "l"),
        rm("f"), rm("d/g"), rmrec("d"), size("f", 4096), size("f", 2), trunc("d/g"),
        with("f", vec![Op::SetLimit(s(90), 9000)]),
        with("f", vec![Op::SetATime(s(90), 77), Op::SetMTime(s(90), 1 << 40)]),
        with("d", vec![Op::SetMTime(s(90), 78)]),
    ];
    let uni = ["f", "d", "d/f", "d/g", "e", "e/g", "l"];
    let d = if th { 4 } else { 3 };
    let mut v = vec![
        drv("upgrade-tree", &[V2_4K, V1], rep(&a, d)).mode(Mode::Upgrade).uni(&uni).mask(ALL),
    ];
    let b = vec![
        put("f", 0, 5000),
        put("g", 100, 10),
        size("f", 10),
        seqs(vec![mount("f", 0, Pol::PrevPages), Op::Unmount("f".into())]),
        seqs(vec![mount("f", 0, Pol::Explicit(70000)), put("f", 10, 10), Op::Unmount("f".into())]),
        seqs(vec![mount("f", 0, Pol::PrevZero), Op::Store("f".into()), Op::Unmount("f".into())]),
        seqs(vec![mount("f", 0, Pol::PrevZero), Op::Init("f".into()), with("f", vec![Op::SetMTime(s(90), 99), Op::SetLimit(s(90), 80000)]), Op::Unmount("f".into())]),
        seqs(vec![Op::ChunkType(1), put("h", 0, 9000), Op::ChunkType(2)]),
        seqs(vec![Op::ChunkType(2), put("h", 5000, 9000)]),
        Op::ChunkSize(8192),
        size("h", 4096),
        rm("f"),
        rm("h"),
    ];
    v.push(drv("upgrade-mounts-layouts", &[V2_4K, V2_16K], rep(&b, d)).mode(Mode::Upgrade).mems(1).uni(&["f", "g", "h"]).mask(ALL));
    v
}

// --- namespace ---------------------------------------------------------------------------------
fn c05(th: bool) -> Vec<Driver> {
    let a = vec![
        touch("a"), touch("b"), mkdir("d"), mkdir("e"), touch("d/a"), mkdir("d/e"), touch("d/e/x"), mkdir("a"),
        rm("a"), rm("d/a"), rmdir("d"), rmdir("d/e"), rm("d"), rmdir("a"),
        rename("a", "d/a"), rename("d", "e"), rename("d/e", "e"), rename("d/a", "b"), link("a", "d/a"),
        openx(RT, "a", CREATE | EXCL, 0, ALL_RIGHTS, 5, None),
        openx(RT, "d", CREATE | DIRECTORY, 0, ALL_RIGHTS, 5, None),
        rmrec("d"),
    ];
    let uni = ["a", "b", "d", "e", "d/a", "d/e", "d/e/x", "e/a", "e/e", "e/e/x", "e/x", "a/x", "d/a/x"];
    let mut v = vec![];
    v.push(drv("tree", &[V2_4K], rep(&a, if th { 5 } else { 4 })).uni(&uni).check_image());
    v.push(drv("tree-others", &[V1, TRANS], rep(&a, 3)).uni(&uni).check_image());
    // through directory descriptors, which stay valid while their names change
    let b = vec![
        Op::OpenDir { d: RT, p: "d".into(), t: 4, slot: Some(0) },
        openx(RT, "d", DIRECTORY, 0, ALL_RIGHTS, 0, Some(1)),
        openx(s(0), "x", CREATE, 0, ALL_RIGHTS, 2, None),
        Op::Mkdir { d: s(0), p: "y".into(), t: 2 },
        Op::RmFile { d: s(0), p: "x".into() },
        Op::RmDir { d: RT, p: "d/y".into() },
        Op::Rename { d: s(0), p: "x".into(), d2: RT, p2: "x".into(), slot: None },
        Op::Rename { d: RT, p: "x".into(), d2: s(0), p2: "z".into(), slot: None },
        rename("d", "e"),
        rename("e", "d"),
        mkdir("e"),
        Op::List(s(0), None, 0),
        Op::Close(s(0)),
        rmdir("d"),
        Op::Rename { d: s(0), p: "y".into(), d2: RT, p2: "d".into(), slot: None },
        touch("e/x"),
    ];
    v.push(drv("dirfds", &[V2_4K, TRANS], rep(&b, if th { 5 } else { 4 })).uni(&["d", "d/x", "d/y", "x", "e", "e/x", "e/y", "d/z", "e/z"]).check_image());
    v
}

fn c06(th: bool) -> Vec<Driver> {
    let long255 = "n".repeat(255);
    let long256 = "n".repeat(256);
    let long254 = "n".repeat(254);
    let mut paths: Vec<String> = [
        "a", "./a", "a/", "a/.", ".//a", "d/a", "d/../a", "d//a", "./d/./a/", "x/../a", "x/y/../../a", "d/a/../a", "..", "../a", "d/../../a", "/a", "/", "", ".", "d/..", "a/../d/a",
        "ab", "A", "a ", "d/ab", "é", "d/é", "...", ".a", "a/b", "dd/a", "d/d/a", "d/dd",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    paths.push(long255.clone());
    paths.push(long256.clone());
    paths.push(long254.clone());
    paths.push(format!("d/{long255}"));
    paths.push(format!("d/{long256}"));
    paths.push(format!("{long256}/../a"));
    paths.push(format!("q/{long256}"));
    paths.push(format!("q/{long256}/r"));
    let mut a: Vec<Op> = vec![];
    for p in &paths {
        a.push(touch(p));
        a.push(mkdir(p));
        a.push(rm(p));
        a.push(rmdir(p));
        a.push(rename("a", p));
        a.push(rename(p, "z"));
        a.push(link("a", p));
        a.push(link(p, "z"));
        a.push(Op::OpenMeta { d: RT, p: p.clone() });
        a.push(rmrec(p));
        a.push(openx(RT, p, DIRECTORY, 0, ALL_RIGHTS, 1, None));
        a.push(openx(RT, p, CREATE | EXCL, 0, ALL_RIGHTS, 1, None));
    }
    // names of every length around the limits that differ in one byte only, wherever it is
    let mut alike: Vec<Vec<String>> = vec![];
    for n in [1usize, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 253, 254, 255] {
        let base = "m".repeat(n);
        for at in [0, 1, n / 2, n.saturating_sub(2), n - 1] {
            if at < n {
                for c in ['l', 'n', 'M'] {
                    let mut o = base.clone().into_bytes();
                    o[at] = c as u8;
                    alike.push(vec![base.clone(), String::from_utf8(o).unwrap()]);
                }
            }
        }
        if n < 255 {
            alike.push(vec![base.clone(), format!("{base}m")]);
            alike.push(vec![base.clone(), format!("{base}\u{1}")]);
        }
    }
    let mut w = vec![];
    for p in &alike {
        w.push(seqs(vec![put(&p[0], 0, 5), put(&p[1], 0, 9)]));
        w.push(seqs(vec![put(&p[1], 0, 5), put(&p[0], 0, 9), rm(&p[1])]));
        w.push(seqs(vec![put(&p[0], 0, 5), rename(&p[0], &p[1]), mkdir(&p[0])]));
        w.push(seqs(vec![mkdir(&format!("{}/x", p[0])), put(&format!("{}/x", p[1]), 0, 9), rmrec(&p[0])]));
        w.push(seqs(vec![put(&p[0], 0, 5), put("a", 0, 9), link(&p[0], &p[1]), rename("a", &p[0])]));
    }
    let alike_drv = drv("alike", &[V2_4K, TRANS], vec![w, if th { alike.iter().take(40).map(|p| rm(&p[1])).collect() } else { vec![Op::Restart, rm("m"), touch("ml")] }]).uni(&["m", "ml", "lm", "nm", "mn", "mm", "mmm"]).check_image();
    let uni: Vec<&str> = paths.iter().map(|x| x.as_str()).chain(["z", "z/a"]).collect();
    let sp = vec![
        setup("empty", vec![], vec![]),
        setup("a", vec![], vec![touch("a"), mkdir("d")]),
        setup("d/a", vec![], vec![mkdir("d"), touch("d/a"), touch("ab")]),
        setup("warm-names", vec![], vec![touch("a"), mkdir("d"), touch("d/a"), Op::OpenMeta { d: RT, p: "d/../a".into() }, Op::OpenMeta { d: RT, p: "./a".into() }, Op::OpenMeta { d: RT, p: "./d/./a/".into() }, mkdir("d/d"), touch("d/d/a")]),
    ];
    let mut v = vec![];
    v.push(alike_drv);
    v.push(drv("spellings-1", &[V2_4K, V1, TRANS], rep(&a, 1)).setups(sp.clone()).uni(&uni).check_image());
    // two spellings after one another: a structural change through one spelling, then everything observed through all of them
    let core = ["a", "./a", "d/a", "d/../a", "x/../a", "d//a/", "ab", "d"];
    let mut b: Vec<Op> = vec![];
    for p in core {
        for o in [touch(p), rm(p), rename(p, "z"), rename("z", p), rename("a", p), Op::OpenMeta { d: RT, p: p.into() }, link("d/a", p)] {
            b.push(o);
        }
    }
    b.push(rename("d", "dd"));
    b.push(mkdir("d"));
    b.push(rmrec("d"));
    v.push(drv("spellings-2", &[V2_4K], rep(&b, if th { 3 } else { 2 })).setups(sp).uni(&uni).check_image());
    // relative to a directory descriptor
    let mut c: Vec<Op> = vec![];
    for p in ["a", "./a", "../a", "e/../a", "e/a", "e/./a", "", ".", "..", "/a", "e/../../a", "d/a"] {
        c.push(openx(s(0), p, CREATE, 0, ALL_RIGHTS, 2, None));
        c.push(Op::RmFile { d: s(0), p: p.into() });
        c.push(Op::Mkdir { d: s(0), p: p.into(), t: 2 });
        c.push(Op::OpenMeta { d: s(0), p: p.into() });
        c.push(Op::Rename { d: s(0), p: p.into(), d2: RT, p2: "z".into(), slot: None });
        c.push(Op::Rename { d: RT, p: "b".into(), d2: s(0), p2: p.into(), slot: None });
    }
    v.push(
        drv("relative", &[V2_4K, TRANS], rep(&c, 2))
            .warm(vec![mkdir("d"), mkdir("d/e"), touch("a"), touch("b"), touch("d/a"), openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(0))])
            .uni(&["a", "d/a", "d/e/a", "z", "b", "d/d/a", "d/e"])
            .check_image(),
    );
    v
}

fn c07(th: bool) -> Vec<Driver> {
    let a = vec![
        link("f", "l"), link("l", "m"), link("f", "d/l"), link("d/l", "f"), link("f", "g"), link("g", "l"), link("f", "f"), link("l", "f"),
        link("d", "dl"), link("d", "e"), link("x", "y"),
        rm("f"), rm("l"), rm("m"), rm("d/l"), put("l", 10, 5000), put("f", 0, 10), size("l", 3), touch("f"),
        rename("l", "n"), rename("f", "l"), rename("l", "f"), rmrec("d"),
        with("l", vec![Op::SetMTime(s(90), 55), Op::SetLimit(s(90), 6000)]),
    ];
    let uni = ["f", "l", "m", "d/l", "g", "n", "dl", "e", "y", "d"];
    let w = vec![put("f", 0, 4100), mkdir("d"), mkdir("e"), put("g", 0, 100)];
    let mut v = vec![
        drv("links", &[V2_4K], rep(&a, if th { 4 } else { 3 })).warm(w.clone()).uni(&uni).check_image(),
        drv("links-others", &[V1, TRANS], rep(&a, if th { 3 } else { 2 })).warm(w.clone()).uni(&uni).check_image(),
    ];
    // descriptors of both names, and mounts
    let b = vec![
        link("f", "l"), openx(RT, "l", 0, 0, ALL_RIGHTS, 0, Some(1)), pw(0, 0, 10), pw(1, 4090, 20), pr(0, 0, 6000), rm("f"), rm("l"), Op::Close(s(0)), Op::Close(s(1)),
        mount("f", 0, Pol::Pages), Op::Unmount("f".into()), mount("l", 0, Pol::PrevPages), Op::Unmount("l".into()), Op::Store("l".into()),
        link("l", "m"), link("g", "l"), rm("m"), Op::SetSize(s(1), 5),
    ];
    v.push(drv("links-open", &[V2_4K, V1, TRANS], rep(&b, if th { 4 } else { 3 })).mems(1).warm(vec![put("f", 0, 4100), open("f", 0, 0), touch("g")]).uni(&["f", "l", "m", "g"]).check_image());
    // names come and go while the file has been mounted before, is mounted, and is mounted again
    let m = vec![
        link("f", "m"), link("l", "m"), rm("f"), rm("l"), rm("m"), rename("l", "m"), rename("g", "l"), mount("f", 0, Pol::Explicit(10)), mount("l", 0, Pol::PrevPages), Op::Unmount("f".into()), Op::Unmount("m".into()), Op::Store("l".into()), Op::Restart, with("l", vec![Op::SetMTime(s(90), 77)]),
    ];
    let w = |twice: bool| -> Vec<Op> {
        let mut w = vec![put("f", 0, 5000), link("f", "l"), touch("g"), mount("f", 0, Pol::Explicit(20))];
        if twice {
            w.push(Op::Unmount("l".into()));
        }
        w
    };
    v.push(drv("links-mounted", &[V2_4K, TRANS], rep(&m, if th { 5 } else { 4 })).mems(1).setups(vec![setup("before", w(true), vec![]), setup("now", vec![], w(false))]).uni(&["f", "l", "m", "g"]).add(&[Class::Times]).check_image());
    v
}

fn c08(th: bool) -> Vec<Driver> {
    let mut a = vec![];
    for x in ["f", "g", "d", "e", "d/s", "d/f", "d/s/t"] {
        for y in ["f", "g", "d", "e", "d/s", "d/f", "d/s/t", "n", "d/n", "e/n", "d/s/t/u", "q/r"] {
            a.push(rename(x, y));
        }
    }
    for (x, y) in [(".", "n"), ("", "n"), ("d", ""), ("d/..", "n"), ("f", "."), ("f", "./f"), ("d", "d/."), ("d", "./d/../d"), ("f", "/n"), ("..", "n"), ("zz", "n"), ("f", "g/x"), ("d", "f/x")] {
        a.push(rename(x, y));
    }
    let uni = ["f", "g", "d", "e", "d/s", "d/f", "d/s/t", "n", "d/n", "e/n", "n/s", "n/f", "n/s/t", "e/s/t", "e/f", "q/r", "q", "n/t", "e/s", "e/t"];
    let w = vec![put("f", 0, 4200), put("g", 5, 10), mkdir("d"), mkdir("e"), put("d/f", 0, 3), mkdir("d/s"), put("d/s/t", 0, 9)];
    let mut v = vec![];
    v.push(drv("pairs", &[V2_4K], rep(&a, if th { 3 } else { 2 })).warm(w.clone()).uni(&uni).check_image());
    v.push(drv("pairs-others", &[V1, TRANS], rep(&a, 1)).warm(w.clone()).uni(&uni).check_image());
    // with links, descriptors and directory descriptors
    let b = vec![
        link("f", "l"), rename("f", "l"), rename("l", "f"), rename("f", "g"), rename("g", "f"), rename("d", "e"), rename("e", "d"), rename("d/s", "e"), rename("f", "d/f"),
        openx(RT, "f", 0, 0, ALL_RIGHTS, 0, Some(0)), openx(RT, "g", 0, 0, ALL_RIGHTS, 0, Some(1)), openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(2)), openx(RT, "d/s", 0, 0, ALL_RIGHTS, 0, Some(3)),
        Op::Close(s(0)), Op::Close(s(1)), pw(0, 3, 6000),
        Op::Rename { d: RT, p: "d".into(), d2: s(3), p2: "in".into(), slot: None },
        Op::Rename { d: RT, p: "d".into(), d2: s(2), p2: "s/in".into(), slot: None },
        Op::Rename { d: s(2), p: "f".into(), d2: s(3), p2: "f".into(), slot: Some(4) },
        Op::Rename { d: s(2), p: "".into(), d2: RT, p2: "n".into(), slot: None },
        mount("f", 0, Pol::Pages), Op::Unmount("f".into()), Op::Unmount("g".into()),
    ];
    v.push(drv("rename-open", &[V2_4K, TRANS], rep(&b, if th { 4 } else { 3 })).mems(1).warm(w).uni(&uni).check_image());
    // every directory of a chain to every place relative to every directory of the chain
    let mut a = vec![];
    for (d, p) in [(RT, "d"), (RT, "d/e"), (RT, "d/e/k"), (s(0), "e"), (s(0), "e/k"), (s(1), "k"), (s(2), "m"), (RT, "z"), (s(1), "f")] {
        for (d2, p2) in [(RT, "x"), (s(0), "x"), (s(1), "x"), (s(2), "x"), (s(3), "x"), (RT, "d/e/k/x"), (RT, "d/e/k/m/x"), (s(0), "e/k/x"), (s(1), "k/m/x"), (s(0), "e"), (s(1), "k"), (s(2), "m"), (RT, "d"), (RT, "z"), (s(4), "x"), (s(2), "n1/n2/x"), (s(4), "d")] {
            a.push(Op::Rename { d, p: p.into(), d2, p2: p2.into(), slot: None });
        }
    }
    let dir = |p: &str, k: u8| openx(RT, p, DIRECTORY, 0, ALL_RIGHTS, 0, Some(k));
    let w = vec![mkdir("d/e/k/m"), mkdir("z"), put("d/e/f", 0, 9), put("d/e/k/m/g", 0, 4100), dir("d", 0), dir("d/e", 1), dir("d/e/k", 2), dir("d/e/k/m", 3), dir("z", 4)];
    let uni2 = ["d", "d/e", "d/e/k", "d/e/k/m", "d/e/k/m/g", "d/e/f", "x", "z", "z/x", "d/x", "d/e/x", "d/e/k/x"];
    v.push(drv("chain", &[V2_4K, TRANS], rep(&a, if th { 3 } else { 2 })).warm(w.clone()).uni(&uni2).check_image());
    v.push(drv("chain-cold", &[V2_4K, V1], vec![a]).setups(vec![setup("cold", w[..4].to_vec(), w[4..].to_vec())]).uni(&uni2).check_image());
    // attributes of every kind go with the object, whichever of its names is moved or replaced
    let set = |p: &str, k: u64| -> Vec<Op> { vec![with(p, vec![Op::SetATime(s(90), k), Op::SetMTime(s(90), 100 - k)])] };
    let mut w = vec![put("f", 0, 4200), link("f", "l"), link("f", "d/k"), put("g", 5, 10), link("g", "d/h"), mkdir("e"), touch("o")];
    w.insert(0, mkdir("d"));
    for (i, p) in ["f", "g", "d", "e", "o", ""].iter().enumerate() {
        w.extend(set(p, [5, 90, 7, 95, 50, 60][i]));
    }
    w.extend([with("g", vec![Op::SetLimit(s(90), 40)]), with("f", vec![Op::SetLimit(s(90), 5000)])]);
    let mut a = vec![];
    for x in ["f", "l", "d/k", "g", "d/h", "o", "d", "e"] {
        for y in ["f", "l", "d/k", "g", "o", "n", "d/n", "e", "e/n"] {
            a.push(rename(x, y));
        }
    }
    v.push(drv("attributes", &[V2_4K, V1, TRANS], rep(&a, if th { 3 } else { 2 })).warm(w).uni(&["f", "l", "d/k", "g", "d/h", "o", "n", "d", "e", "d/n", "e/n"]).add(&[Class::Times]).check_image());
    v
}

fn c09(th: bool) -> Vec<Driver> {
    // states in which things can be refused, then every refusal, then an ordinary operation
    let prep = vec![
        touch("f"), put("f", 0, 5000), mkdir("d"), touch("d/x"), open("f", 0, 0), openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(1)), link("f", "l"),
        mount("f", 0, Pol::Explicit(100)), with("f", vec![Op::SetLimit(s(90), 6000)]), openx(RT, "f", 0, 0, R_READ, 0, Some(2)), openx(RT, "f", 0, APPEND, R_WRITE, 0, Some(3)), mkdir("e"),
        openx(RT, "e", 0, 0, ALL_RIGHTS, 0, Some(4)),
    ];
    let long = "n".repeat(256);
    let refuse = vec![
        openx(RT, "f", CREATE | EXCL, 0, ALL_RIGHTS, 9, Some(5)), openx(RT, "zz", 0, 0, ALL_RIGHTS, 9, Some(5)), openx(RT, "f", DIRECTORY, 0, ALL_RIGHTS, 9, Some(5)), openx(RT, "f", DIRECTORY | TRUNC, 0, ALL_RIGHTS, 9, Some(5)),
        openx(RT, "f", CREATE | EXCL | TRUNC, 0, ALL_RIGHTS, 9, Some(5)),
        touch("f/x"), touch("f/x/y"), mkdir("f/x"), mkdir("f"), mkdir("d"), touch(&long), touch(&format!("n1/{long}")), touch(&format!("n1/n2/{long}")), touch(&format!("n1/{long}/n2")), mkdir(&format!("n1/{long}")), mkdir("../x"), touch("/x"), mkdir(""),
        link("zz", "n"), link("d", "n"), link("d", "n1/n2"), link("d", "e"), link("f", "f/x"), link("f", "d"), link("f", &format!("n1/{long}")), link("f", "/n"), link("d", "f"),
        rename("zz", "n"), rename("zz", "n1/n2"), rename("f", "d"), rename("d", "f"), rename("d", "d/y"), rename("d", "d/y/z"), rename("f", &format!("n1/{long}")), rename("f", "f/x"), rename("f", "n1/../../q"), rename("e", "d"), rename("f", "g1/g2"), rename("", "n"), rename("d/x", "f"), rename("d/x", "f/y"),
        rm("zz"), rm("d"), rm("f"), rm("l"), rmdir("f"), rmdir("d"), rmdir("e"), rmdir(""), rm(""), rmrec("zz"), rmrec("e"), rmrec("f"), rmrec(""),
        Op::Close(F::N(77)), Op::Renumber(F::N(77), F::N(4)), Op::Renumber(s(0), s(1)), Op::Renumber(s(1), F::Root), Op::Renumber(s(0), F::Root), Op::Renumber(F::Root, s(1)), Op::Flush(s(1)),
        Op::Write(s(2), 10), Op::Read(s(3), 10), Op::SetSize(s(2), 3), Op::WriteV(s(0), vec![3000, 4000]), Op::PWriteV(s(0), vec![4000, 3000], 10), Op::WriteV(s(3), vec![10, 5000]), pw(0, 5999, 2), pw(0, u64::MAX - 3, 10),
        Op::SetSize(s(0), 6001), Op::SetSize(s(0), MAX_FILE_SIZE + 1), Op::SetLimit(s(0), 1), Op::SetMeta(s(0), MetaChange::Size(6001)), Op::SetMeta(s(0), MetaChange::Limit(Some(2))), Op::SetMeta(s(0), MetaChange::Node), Op::SetMeta(s(0), MetaChange::Type), Op::SetMeta(s(1), MetaChange::Node), Op::SetMeta(s(1), MetaChange::Type),
        Op::Seek(s(0), -1, Wh::Set), Op::Seek(s(0), -9999, Wh::Cur), Op::Seek(s(0), -9999, Wh::End), Op::Seek(s(0), 5, Wh::End), Op::Seek(s(0), i64::MIN, Wh::Cur), Op::SetStat(s(1), APPEND, 0), Op::SetStat(s(1), 4, 0),
        Op::Write(s(1), 4), Op::Read(s(1), 4), Op::SetSize(s(1), 4), Op::Entry(s(1), 99), Op::Entry(s(0), 1),
        mount("d", 0, Pol::Pages), mount("d", 1, Pol::Explicit(5)), mount("f", 1, Pol::Pages), mount("f", 1, Pol::Explicit(7000)), mount("f/x", 1, Pol::Pages), mount("../x", 1, Pol::Pages), mount(&long, 1, Pol::Pages),
        Op::Unmount("d".into()), Op::Unmount("zz".into()), Op::Unmount("l".into()), Op::Init("zz".into()), Op::Store("zz".into()), Op::Init("d".into()), Op::Store("l".into()), Op::Init("e".into()),
    ];
    let uni = ["f", "d", "d/x", "e", "l", "n", "n1", "n1/n2", "g1", "g1/g2", "d/y", "zz"];
    let mut v = vec![];
    let mut layers = vec![];
    for _ in 0..(if th { 3 } else { 2 }) {
        layers.push(prep.clone());
    }
    layers.push(refuse.clone());
    v.push(drv("refusals", &[V2_4K], layers).mems(2).uni(&uni).check_image().stale());
    v.push(drv("refusals-others", &[V1, TRANS], vec![prep.clone(), refuse.clone()]).mems(2).uni(&uni).check_image().stale());
    // a refusal, then ordinary work on top of it
    let after = vec![touch("n1"), put("f", 0, 6000), mkdir("n1/n2"), rm("f"), rmrec("d"), rename("f", "n"), Op::Tell(s(0)), Op::Write(s(0), 5), open("f", CREATE, 6), Op::Restart, mount("f", 1, Pol::PrevPages)];
    let base = vec![put("f", 0, 5000), with("f", vec![Op::SetLimit(s(90), 6000)]), mkdir("d"), touch("d/x"), mkdir("e"), open("f", 0, 0), openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(1)), openx(RT, "f", 0, 0, R_READ, 0, Some(2)), openx(RT, "f", 0, APPEND, R_WRITE, 0, Some(3))];
    v.push(drv("refuse-then", &[V2_4K, TRANS], vec![refuse.clone(), after.clone()]).setups(vec![setup("rich", vec![], base.clone()), setup("mounted", vec![], { let mut b = base.clone(); b.push(mount("f", 0, Pol::Explicit(4500))); b })]).mems(2).uni(&uni).check_image().stale());
    if th {
        v.push(drv("refuse-twice-then", &[V2_4K], vec![refuse.clone(), refuse, after]).setups(vec![setup("rich", vec![], base)]).mems(2).uni(&uni).check_image().stale());
    }
    v
}

fn c10(th: bool) -> Vec<Driver> {
    let a = vec![
        open("f", CREATE, 0), open("g", CREATE, 1), openx(RT, "d", CREATE | DIRECTORY, 0, ALL_RIGHTS, 1, Some(2)), open("f", 0, 3),
        Op::Close(s(0)), Op::Close(s(1)), Op::Close(s(2)), Op::Close(F::N(4)), Op::Close(F::Root),
        Op::Renumber(s(0), s(1)), Op::Renumber(s(1), s(0)), Op::Renumber(s(0), s(2)), Op::Renumber(s(0), F::N(6)), Op::Renumber(s(1), F::N(20)), Op::Renumber(s(0), F::N(1)), Op::Renumber(s(2), F::Root), Op::Renumber(s(0), F::N(5)), Op::Renumber(F::N(20), F::N(4)),
        Op::Write(s(0), 5), Op::Write(s(1), 9), rename("f", "h"), Op::Renumber(s(0), s(0)),
    ];
    let mut v = vec![
        drv("fds", &[V2_4K], rep(&a, if th { 5 } else { 4 })).uni(&["f", "g", "d", "h"]).stale().no_restart(),
        drv("fds-others", &[TRANS, V1], rep(&a, 3)).uni(&["f", "g", "d", "h"]).stale().no_restart(),
    ];
    // deeper with the core of the table only
    let b = vec![
        open("f", CREATE, 0), open("g", CREATE, 1), Op::Close(s(0)), Op::Close(s(1)), Op::Renumber(s(0), F::N(5)), Op::Renumber(s(1), F::N(4)), Op::Renumber(s(0), s(1)), Op::Renumber(s(0), F::N(7)), openx(RT, "", 0, 0, ALL_RIGHTS, 0, Some(2)),
    ];
    v.push(drv("fds-deep", &[TRANS], rep(&b, if th { 7 } else { 6 })).stale().no_restart());
    v
}

fn c11(th: bool) -> Vec<Driver> {
    let sk = |d: i64, w: Wh| Op::Seek(s(0), d, w);
    let a = vec![
        Op::Read(s(0), 7), Op::Read(s(0), 0), Op::ReadV(s(0), vec![5, 0, 4093]), Op::PReadV(s(0), vec![3, 4096], 4090), Op::ReadV(s(0), vec![]),
        Op::Write(s(0), 6), Op::WriteV(s(0), vec![1, 0, 4096]), Op::PWriteV(s(0), vec![2, 3, 5], 4094), Op::Write(s(0), 0), Op::WriteV(s(0), vec![]),
        sk(0, Wh::Set), sk(4095, Wh::Set), sk(9000, Wh::Set), sk(-1, Wh::Set), sk(5, Wh::Cur), sk(-5, Wh::Cur), sk(0, Wh::Cur), sk(0, Wh::End), sk(-4, Wh::End), sk(-100000, Wh::End), sk(3, Wh::End),
        Op::Read(s(1), 9), Op::Write(s(1), 4), Op::SetSize(s(0), 4097), Op::Tell(s(0)),
    ];
    let w = vec![open("f", CREATE, 0), pw(0, 0, 5000), open("f", 0, 1)];
    let mut v = vec![
        drv("cursor", &[V2_4K], rep(&a, if th { 4 } else { 3 })).warm(w.clone()).no_restart(),
        drv("cursor-others", &[V1, V2_16K, TRANS], rep(&a, if th { 3 } else { 2 })).warm(w).no_restart(),
    ];
    let core = vec![
        Op::Read(s(0), 7), Op::Write(s(0), 6), sk(2, Wh::Set), sk(9, Wh::Cur), sk(-3, Wh::Cur), sk(-1, Wh::End), sk(0, Wh::End), pr(0, 1, 4), pw(0, 3, 4), Op::SetSize(s(0), 5), Op::WriteV(s(0), vec![2, 1]), Op::ReadV(s(0), vec![1, 30]),
    ];
    v.push(drv("cursor-deep", &[TRANS, V2_4K], rep(&core, if th { 5 } else { 4 })).warm(vec![open("f", CREATE, 0)]).no_restart());
    // append mode: every write goes to the end and leaves the cursor there
    let ap = vec![
        Op::Write(s(1), 4), Op::WriteV(s(1), vec![3, 0, 4096]), Op::PWriteV(s(1), vec![5], 2), Op::Seek(s(1), 0, Wh::Set), Op::Seek(s(1), 7, Wh::Cur), Op::Seek(s(1), -2, Wh::End), Op::Read(s(1), 5), Op::Write(s(0), 9), pw(0, 5000, 9), Op::SetSize(s(0), 2), Op::SetStat(s(0), APPEND, ALL_RIGHTS), Op::SetStat(s(1), 0, ALL_RIGHTS), Op::Read(s(0), 3),
        openx(RT, "f", TRUNC, APPEND, ALL_RIGHTS, 1, Some(0)), openx(RT, "f", 0, APPEND, ALL_RIGHTS, 1, Some(1)), mount("f", 0, Pol::Explicit(10)), Op::Unmount("f".into()),
    ];
    v.push(drv("cursor-append", &[V2_4K, TRANS, V1], rep(&ap, if th { 4 } else { 3 })).mems(1).warm(vec![open("f", CREATE, 0), pw(0, 0, 30), openx(RT, "f", 0, APPEND, ALL_RIGHTS, 0, Some(1))]).no_restart());
    // empty buffers anywhere in a vector, short reads through several buffers, no buffers at all
    let vecs: Vec<Vec<u32>> = vec![vec![0, 3], vec![3, 0, 4], vec![0, 0, 5, 0], vec![2, 4096, 0, 5000], vec![1, 1, 1], vec![0], vec![], vec![4095, 1, 1]];
    let mut e = vec![sk(4094, Wh::Set), sk(0, Wh::Set), sk(-5, Wh::End)];
    for l in &vecs {
        e.push(Op::ReadV(s(0), l.clone()));
        e.push(Op::WriteV(s(0), l.clone()));
        for o in [0u64, 4093, 4999] {
            e.push(Op::PReadV(s(0), l.clone(), o));
            e.push(Op::PWriteV(s(0), l.clone(), o));
        }
    }
    let w3 = vec![open("f", CREATE, 0), pw(0, 0, 5000)];
    v.push(drv("vectors", &[V2_4K, TRANS], rep(&e, 2)).setups(vec![setup("plain", vec![], w3.clone())]).no_restart());
    v.push(drv("vectors-mounted", &[V2_4K, TRANS], rep(&e, 2)).mems(1).setups(vec![setup("mounted", vec![], { let mut w = w3; w.extend([mount("f", 0, Pol::Explicit(0)), pw(0, 0, 5000)]); w })]).no_restart());
    // mounted files follow the same rules
    let m = vec![
        Op::Read(s(0), 7), Op::Write(s(0), 6), Op::WriteV(s(0), vec![5, 70000]), sk(65530, Wh::Set), sk(0, Wh::End), sk(-7, Wh::End), Op::PReadV(s(0), vec![10, 20], 65500), pw(0, 70000, 9), Op::ReadV(s(0), vec![8, 40]), Op::SetSize(s(0), 100),
    ];
    v.push(drv("cursor-mounted", &[V2_4K, TRANS], rep(&m, if th { 4 } else { 3 })).mems(1).warm(vec![open("f", CREATE, 0), mount("f", 0, Pol::Explicit(10))]).no_restart());
    v
}

fn c12(th: bool) -> Vec<Driver> {
    let rw = R_READ | R_WRITE;
    let a = vec![
        openx(RT, "f", CREATE, 0, R_READ, 1, Some(1)), openx(RT, "f", CREATE, 0, R_WRITE, 1, Some(1)), openx(RT, "f", CREATE, 0, 0, 1, Some(1)), openx(RT, "f", CREATE, APPEND, rw, 1, Some(1)), openx(RT, "f", TRUNC, APPEND, R_WRITE, 1, Some(2)), openx(RT, "f", 0, APPEND, ALL_RIGHTS & !R_WRITE, 1, Some(2)), openx(RT, "f", 0, 0, ALL_RIGHTS & !R_READ, 1, Some(2)),
        Op::Read(s(1), 5), Op::ReadV(s(1), vec![1, 2]), Op::PReadV(s(1), vec![9], 1), Op::Write(s(1), 5), Op::WriteV(s(1), vec![2, 4096]), Op::PWriteV(s(1), vec![3, 4], 1), Op::SetSize(s(1), 9),
        Op::Write(s(2), 3), Op::PWriteV(s(2), vec![4, 1], 0), Op::Read(s(2), 3),
        Op::SetStat(s(1), APPEND, rw), Op::SetStat(s(1), 0, rw), Op::SetStat(s(1), APPEND, R_WRITE), Op::SetStat(s(1), 0, R_READ), Op::SetStat(s(2), 0, 0),
        Op::Write(s(0), 11), Op::SetSize(s(0), 2), Op::Seek(s(1), 0, Wh::Set), Op::Renumber(s(1), s(0)), pw(0, 100, 3),
    ];
    let w = vec![open("f", CREATE, 0), pw(0, 0, 20)];
    let w2 = vec![open("f", CREATE, 0), pw(0, 0, 20), openx(RT, "f", CREATE, APPEND, rw, 1, Some(1)), openx(RT, "f", 0, 0, R_READ, 1, Some(2))];
    vec![
        drv("rights", &[V2_4K], rep(&a, if th { 4 } else { 3 })).setups(vec![setup("one", vec![], w.clone()), setup("three", vec![], w2.clone())]).no_restart(),
        drv("rights-others", &[V1, TRANS], rep(&a, if th { 3 } else { 2 })).setups(vec![setup("one", vec![], w), setup("three", vec![], w2.clone())]).no_restart(),
        drv("rights-mounted", &[V2_4K, TRANS], rep(&a, 2)).mems(1).setups(vec![setup("mounted", vec![], { let mut x = w2; x.push(mount("f", 0, Pol::Explicit(40))); x })]).no_restart(),
    ]
}

fn c13(th: bool) -> Vec<Driver> {
    let mut v = vec![];
    for cfg in [V2_4K, V1, TRANS] {
        let a = vec![
            Op::SetLimit(s(0), 5000), Op::SetLimit(s(0), 4096), Op::SetLimit(s(0), 10), Op::SetLimit(s(0), 0), Op::SetLimit(s(0), u64::MAX), Op::SetMeta(s(0), MetaChange::Limit(None)), Op::SetMeta(s(0), MetaChange::Limit(Some(12))),
            pw(0, 0, 10), pw(0, 9, 1), pw(0, 9, 2), pw(0, 10, 1), pw(0, 4095, 1), pw(0, 4095, 2), Op::PWriteV(s(0), vec![4, 6, 1], 0), Op::PWriteV(s(0), vec![4090, 6, 1], 0), Op::Write(s(0), 5000),
            Op::SetSize(s(0), 10), Op::SetSize(s(0), 11), Op::SetSize(s(0), 4096), Op::SetSize(s(0), 4097), Op::SetMeta(s(0), MetaChange::Size(13)), Op::Write(s(1), 6), trunc("f"), link("f", "l"), put("l", 3, 10),
        ];
        v.push(drv(&format!("limit-{}", cfg.name), &[cfg], rep(&a, if th { 4 } else { 3 })).warm(vec![open("f", CREATE, 0), openx(RT, "f", 0, APPEND, ALL_RIGHTS, 0, Some(1))]).uni(&["f", "l"]));
    }
    let m = vec![
        Op::SetLimit(s(0), 70000), Op::SetLimit(s(0), 100), mount("f", 0, Pol::Explicit(90)), mount("f", 0, Pol::Pages), mount("f", 0, Pol::PrevPages), mount("f", 0, Pol::PrevZero), Op::Unmount("f".into()), Op::MemGrow { m: 0, pages: 2 },
        pw(0, 95, 5), pw(0, 95, 6), pw(0, 69999, 2), pw(0, 0, 70000), Op::SetSize(s(0), 101), Op::Init("f".into()), Op::Store("f".into()), Op::Restart, put("f", 60, 50), rename("f", "g"), with("f", vec![Op::SetLimit(s(90), 95)]), put("f", 50, 10),
    ];
    v.push(drv("limit-mounted", &[V2_4K, TRANS], rep(&m, if th { 4 } else { 3 })).mems(1).warm(vec![open("f", CREATE, 0)]).uni(&["f", "g"]));
    v
}

fn c14(th: bool) -> Vec<Driver> {
    let a = vec![
        pw(0, 0, 10), pw(0, 65530, 12), pw(0, 200000, 5), pr(0, 0, 70000), pr(0, 65500, 100000), Op::Write(s(0), 9), Op::SetSize(s(0), 100), Op::SetSize(s(0), 131072), Op::SetSize(s(0), 0),
        Op::MemWrite { m: 0, off: 5, len: 20 }, Op::MemWrite { m: 0, off: 65535, len: 3 }, Op::MemGrow { m: 0, pages: 1 },
        Op::Unmount("f".into()), mount("f", 0, Pol::Pages), mount("f", 0, Pol::PrevZero), mount("f", 0, Pol::Explicit(65537)), put("l", 4, 70000), put("g", 1, 9), Op::WriteV(s(1), vec![3, 4]), Op::PReadV(s(1), vec![9, 65536], 1), trunc("l"),
        rename("g", "h"), Op::Renumber(s(0), F::N(9)),
    ];
    let w = vec![put("f", 0, 5000), link("f", "l"), open("f", 0, 0), openx(RT, "l", 0, APPEND, ALL_RIGHTS, 0, Some(1)), mount("f", 0, Pol::Pages)];
    let mut v = vec![
        drv("mirror", &[V2_4K], rep(&a, if th { 4 } else { 3 })).mems(1).warm(w.clone()).uni(&["f", "l", "g", "h"]).check_image(),
        drv("mirror-others", &[V1, TRANS, V2_64K], rep(&a, if th { 3 } else { 2 })).mems(1).warm(w).uni(&["f", "l", "g", "h"]).check_image(),
    ];
    // two mounts at once
    let b = vec![
        mount("f", 0, Pol::Pages), mount("g", 1, Pol::Pages), mount("g", 0, Pol::Explicit(30)), mount("f", 1, Pol::PrevPages), Op::Unmount("f".into()), Op::Unmount("g".into()), put("f", 10, 65536), put("g", 65530, 10), Op::MemWrite { m: 1, off: 3, len: 9 }, Op::Init("f".into()), Op::Store("f".into()), Op::Store("g".into()), rm("f"), rename("f", "g"), Op::Restart,
    ];
    v.push(drv("two-mounts", &[V2_4K, TRANS], rep(&b, if th { 5 } else { 4 })).mems(2).warm(vec![put("f", 0, 20), put("g", 0, 40)]).uni(&["f", "g"]).check_image());
    // transfers that start and end at every place around the border of a memory page
    let mut a = vec![];
    for off in [0u64, 1, 65528, 65529, 65530, 65531, 65534, 65535, 65536, 65537, 131070, 131071, 131072] {
        for len in [1u32, 2, 5, 6, 7, 8, 65535, 65536, 65537] {
            a.push(pw(0, off, len));
        }
    }
    let mut b: Vec<Op> = a.iter().step_by(4).cloned().collect();
    b.extend([65528u64, 65529, 65530, 65534, 65535, 65536, 65537, 131071, 131072, 131073].iter().map(|n| Op::SetSize(s(0), *n)));
    b.extend([Op::WriteV(s(0), vec![65535, 1]), Op::WriteV(s(0), vec![65535, 1, 1]), Op::WriteV(s(0), vec![65530, 7]), Op::MemGrow { m: 0, pages: 1 }, Op::MemWrite { m: 0, off: 65535, len: 2 }, Op::Store("f".into()), Op::Init("f".into()), pr(0, 65529, 8), pr(0, 0, 131_073), Op::ReadV(s(0), vec![65535, 2])]);
    let st = |name: &str, pages: u64, pol: Pol| setup(name, vec![put("f", 0, 5000)], if pages > 0 { vec![Op::MemGrow { m: 0, pages }, mount("f", 0, pol), open("f", 0, 0)] } else { vec![mount("f", 0, pol), open("f", 0, 0)] });
    v.push(drv("page-edges", &[V2_4K, TRANS], vec![if th { [a.clone(), b.clone()].concat() } else { b.clone() }, [a, b].concat()]).mems(1).setups(vec![st("empty", 0, Pol::Explicit(0)), st("page", 1, Pol::Pages), st("page-short", 1, Pol::Explicit(65530)), st("two", 2, Pol::Explicit(65537))]).uni(&["f"]).check_image());
    v
}

fn c15(th: bool) -> Vec<Driver> {
    let a = vec![
        mount("f", 0, Pol::Pages), mount("f", 0, Pol::PrevZero), mount("f", 0, Pol::PrevPages), mount("f", 0, Pol::Explicit(70000)), mount("/f", 0, Pol::Explicit(0)), Op::Unmount("f".into()), Op::Init("f".into()), Op::Store("f".into()), Op::Restart,
        put("f", 66000, 10), put("f", 0, 30), size("f", 10), size("f", 140000), Op::MemWrite { m: 0, off: 65530, len: 20 }, Op::MemGrow { m: 0, pages: 1 }, mount("f", 1, Pol::PrevZero), mount("f", 1, Pol::PrevPages),
        Op::Unmount("/f".into()), mount("n", 1, Pol::Pages), rm("f"), with("f", vec![Op::SetMTime(s(90), 44)]),
    ];
    let mut v = vec![];
    v.push(drv("policies", &[V2_4K], rep(&a, if th { 5 } else { 4 })).mems(2).uni(&["f", "n"]).add(&[Class::Times]).check_image());
    v.push(drv("policies-others", &[V1, TRANS, V2_16K], rep(&a, if th { 4 } else { 3 })).mems(2).uni(&["f", "n"]).add(&[Class::Times]).check_image());
    // transfers of sizes around the page border, over longer old content on either side
    let mut b = vec![];
    for n in [0u64, 1, 4096, 65535, 65536, 65537, 131072, 140000] {
        b.push(size("f", n));
    }
    b.extend([put("f", 0, 140001), put("f", 65535, 2), Op::MemWrite { m: 0, off: 0, len: 131072 }, Op::MemWrite { m: 0, off: 65530, len: 10 }]);
    let c = vec![Op::Init("f".into()), Op::Store("f".into()), Op::Unmount("f".into()), mount("f", 0, Pol::PrevPages)];
    let mut x = b.clone();
    x.extend(c.clone());
    for cfg in [V2_4K, V1, TRANS] {
        v.push(drv(&format!("transfer-{}", cfg.name), &[cfg], if th { vec![b.clone(), x.clone(), x.clone(), c.clone()] } else { vec![x.clone(), x.clone(), c.clone()] }).mems(1).setups(vec![setup("mounted", vec![], vec![put("f", 0, 66000), mount("f", 0, Pol::Explicit(100))]), setup("plain", vec![], vec![put("f", 3, 66000)])]).uni(&["f"]).add(&[Class::Times]).check_image());
    }
    v
}

fn c16(th: bool) -> Vec<Driver> {
    let clean = vec![Op::Unmount("f".into()), Op::Unmount("g".into()), rmrec("f"), rmrec("g"), rmrec("d"), rmrec("e"), rmrec("l"), rmrec("h"), rmrec("n")];
    let mut v = vec![];
    for cfg in [MM1, V1, Cfg { name: "v2-16k-mm1", chunk: 16384, ..MM1 }] {
        let c = csz(&cfg);
        let l = c as u32;
        let a = vec![
            put("f", 0, 3 * l), put("g", 2 * c, 5), put("d/x", 1, l), size("f", c), size("f", 1), size("f", 5 * c), trunc("f"), rm("f"), rm("g"), rmrec("d"), mkdir("e"), rename("f", "g"), rename("g", "f"), link("f", "l"), link("g", "l"), rename("l", "f"), rename("d", "e"), rmdir("e"),
            Op::Seq(vec![mount("f", 0, Pol::Explicit(10)), put("f", 0, 70000)]), Op::Store("f".into()), Op::Unmount("f".into()), rename("zz", "n/m"), touch(&format!("n/{}", "x".repeat(256))),
        ];
        v.push(drv(&format!("cycle-{}", cfg.name), &[cfg], rep(&a, if th { 3 } else { 2 })).mode(Mode::Cycle).mems(1).check_image().mask(classes(&[Class::Fsck, Class::Leak, Class::Trap, Class::Hang])).uni(&[]).clean(clean.clone()));
    }
    // accounting at every step of deeper histories
    let c = 4096u64;
    let a = vec![
        put("f", 0, 9000), put("f", 4 * c, 1), put("g", 100, 5), size("f", c), size("f", c + 1), size("f", 0), size("g", 6 * c), trunc("g"), rm("f"), rename("f", "g"), rename("g", "d/f"), link("f", "g"), link("f", "l"), rm("l"), rmrec("d"), mkdir("d"), mkdir("e"), rename("e", "d"),
        Op::ChunkType(1), Op::ChunkType(2),
    ];
    v.push(drv("account", &[V2_4K, V1_4K], rep(&a, if th { 5 } else { 4 })).mask(classes(&[Class::Fsck, Class::Leak, Class::Trap])).check_image().no_restart().no_obs());
    // removal refused because of open descriptors, then allowed
    let b = vec![
        open("f", CREATE, 0), put("f", 0, 9000), pw(0, 20000, 10), rm("f"), Op::Close(s(0)), rename("g", "f"), put("g", 0, 5000), link("f", "l"), rm("l"), openx(RT, "f", TRUNC, 0, ALL_RIGHTS, 0, Some(1)), Op::Close(s(1)), Op::SetSize(s(0), 5), mount("f", 0, Pol::Pages), Op::Unmount("f".into()), rmrec("d"), touch("d/e/x"), Op::Restart,
    ];
    v.push(drv("account-open", &[V2_4K], rep(&b, if th { 5 } else { 4 })).mems(1).mask(classes(&[Class::Fsck, Class::Leak, Class::Trap])).check_image().no_restart().no_obs());
    v
}

impl Driver {
    fn clean(mut self, c: Vec<Op>) -> Self {
        self.cleanup = c;
        self
    }
    fn no_obs(mut self) -> Self {
        // only the image is checked
        self.universe = vec![];
        self.full_limit = 0;
        self
    }
}

fn c17(th: bool) -> Vec<Driver> {
    let mut a = vec![
        touch("d/a"), touch("d/b"), mkdir("d/c"), touch("d/e"), rm("d/a"), rm("d/b"), rmdir("d/c"), rename("d/a", "d/z"), rename("d/b", "b"), link("d/a", "d/l"), rename("d/c", "d/b"), touch("a"),
        Op::List(s(0), None, 0), Op::List(s(0), Some(0), 1), Op::List(s(0), Some(2), 0), Op::Page(s(0), None, 1), Op::Page(s(0), Some(0), 2),
    ];
    let mut q = vec![];
    for st in [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(9), Some(DOT), Some(DOTDOT), Some(DOT - 1), Some(u32::MAX), Some(DOTDOT + 1)] {
        for l in [0, 1, 2, 3] {
            q.push(Op::List(s(0), st, l));
        }
        for n in [1, 2, 3] {
            q.push(Op::Page(s(0), st, n));
        }
    }
    for i in [0, 1, 2, 3, 4, 5, 6, 100, DOT, DOTDOT, u32::MAX] {
        q.push(Op::Entry(s(0), i));
    }
    q.push(Op::List(F::Root, None, 0));
    q.push(Op::Page(F::Root, None, 1));
    let w = vec![mkdir("d"), openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(0)), touch("d/a"), touch("d/b"), Op::List(s(0), None, 0)];
    let mut layers = rep(&a, if th { 4 } else { 3 });
    layers.push(q.clone());
    let w0 = vec![mkdir("d"), openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(0))];
    let two = vec![setup("two", vec![], w), setup("empty", vec![], w0)];
    let mut v = vec![
        drv("listing", &[V2_4K], layers.clone()).setups(two.clone()).uni(&["d/a"]).leaf(),
        drv("listing-others", &[TRANS], layers[layers.len() - 3..].to_vec()).setups(two).uni(&["d/a"]).leaf(),
    ];
    a.truncate(0);
    // a big directory, pages of every size around interesting numbers
    let big = vec![setup("big", vec![mkdir("d"), openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(0)), Op::FillFiles { d: s(0), prefix: "n".into(), n: 300 }, Op::Close(s(0))], vec![openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(0))])];
    let mut pg: Vec<Op> = vec![Op::List(s(0), None, 0)];
    for n in [1, 2, 7, 99, 100, 101, 299, 300, 301, 302, 303] {
        pg.push(Op::Page(s(0), None, n));
        pg.push(Op::Page(s(0), Some(0), n));
        pg.push(Op::List(s(0), Some(n), 0));
        pg.push(Op::List(s(0), None, n));
    }
    let del: Vec<Op> = vec![Op::RmFiles { d: s(0), prefix: "n".into(), from: 0, to: 1 }, Op::RmFiles { d: s(0), prefix: "n".into(), from: 100, to: 200 }, Op::RmFiles { d: s(0), prefix: "n".into(), from: 299, to: 300 }, Op::RmFiles { d: s(0), prefix: "n".into(), from: 0, to: 300 }, touch("d/new")];
    v.push(drv("listing-big", &[V2_4K, TRANS], vec![pg.clone(), del.clone(), pg]).setups(big).leaf().no_restart());
    v
}

fn c19(th: bool) -> Vec<Driver> {
    let cf = [V2_16K, V2_4K, V2_64K, V1, TRANS];
    let c = 4096u64;
    let a = vec![
        put("f", 0, 10000), put("f", c - 1, 2), put("f", 5 * c, 3), size("f", c), size("f", 1), size("f", 20000), trunc("f"), put("d/g", 3, 9), rm("f"), rename("f", "g"), rename("d", "e"), link("f", "l"), rm("l"), rmrec("d"), mkdir("d"), rmdir("d"), touch("f"),
    ];
    let b = vec![
        open("f", CREATE, 0), pw(0, 4090, 10), Op::Write(s(0), 5000), Op::Read(s(0), 5000), Op::SetSize(s(0), 4096), Op::SetSize(s(0), 9), Op::SetLimit(s(0), 6000), Op::Seek(s(0), 3, Wh::Set), Op::Seek(s(0), -2, Wh::End), Op::SetMeta(s(0), MetaChange::Type), Op::SetMeta(s(0), MetaChange::Size(4100)), Op::SetMeta(s(0), MetaChange::Node), mount("f", 0, Pol::Pages), Op::Unmount("f".into()), Op::Init("f".into()), Op::Store("f".into()), put("f", 65530, 10), rm("f"), Op::Close(s(0)), link("f", "l"), rename("f", "l"), Op::MemWrite { m: 0, off: 10, len: 40 },
        openx(RT, "f", TRUNC, APPEND, ALL_RIGHTS, 0, Some(0)),
    ];
    let e = vec![
        open("f", CREATE, 0), Op::SetSize(s(0), MAX_FILE_SIZE), Op::SetSize(s(0), MAX_FILE_SIZE + 1), pw(0, MAX_FILE_SIZE, 1), pw(0, MAX_FILE_SIZE - 1, 1), pw(0, u64::MAX, 2), pr(0, u64::MAX - 2, 9), Op::Seek(s(0), i64::MAX, Wh::Set), Op::Seek(s(0), i64::MIN, Wh::Cur), Op::SetLimit(s(0), u64::MAX), pr(0, MAX_FILE_SIZE - 3, 9), Op::List(RT, Some(DOT), 0), Op::List(RT, Some(DOTDOT), 2), Op::List(RT, None, 1), Op::Page(RT, None, 1), touch("a"), Op::Entry(RT, 1), Op::SetMeta(s(0), MetaChange::Size(MAX_FILE_SIZE + 1)), Op::Write(s(0), 3), Op::WriteV(s(0), vec![2, 3]), mount("f", 0, Pol::Explicit(MAX_FILE_SIZE + 5)),
    ];
    let m = classes(&[Class::Other, Class::Hang]);
    let mut v = vec![
        drv("backends-tree", &cf, rep(&a, if th { 5 } else { 4 })).mode(Mode::Backends { codes: true }).mask(m).uni(&["f", "g", "l", "d", "e", "d/g", "e/g"]),
        drv("backends-fds", &cf, rep(&b, if th { 5 } else { 4 })).mode(Mode::Backends { codes: true }).mems(1).mask(m).uni(&["f", "l"]).stale(),
        drv("backends-extreme", &cf, rep(&e, if th { 3 } else { 2 })).mode(Mode::Backends { codes: true }).mems(1).mask(m).uni(&["f", "a"]).stale(),
    ];
    let p = vec![
        mount("f", 0, Pol::Pages), mount("f", 0, Pol::PrevZero), mount("f", 0, Pol::PrevPages), mount("f", 0, Pol::Explicit(70_000)), mount("f", 0, Pol::Explicit(3)), Op::Unmount("f".into()), Op::Init("f".into()), Op::Store("f".into()),
        put("f", 0, 5000), put("f", 65_530, 10), size("f", 7), size("f", 66_000), Op::MemWrite { m: 0, off: 3, len: 65_000 }, Op::MemGrow { m: 0, pages: 1 }, with("f", vec![Op::SetLimit(s(90), 66_010)]), with("f", vec![Op::SetMeta(s(90), MetaChange::Times(4, 5, 6))]), mount("f", 1, Pol::PrevPages), mount("f", 1, Pol::PrevZero), rm("f"), link("f", "l"), put("l", 9, 9),
    ];
    v.push(drv("backends-mounts", &cf, rep(&p, if th { 4 } else { 3 })).mode(Mode::Backends { codes: true }).mems(2).mask(m).uni(&["f", "l"]));
    // the alphabets of the other properties, on every backend side by side
    let backend_dependent = |o: &Op| matches!(o, Op::Restart | Op::ChunkType(_) | Op::ChunkSize(_));
    for id in ["C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C20", "C22", "C24", "C26"] {
        for d in special(id, false) {
            if !matches!(d.mode, Mode::Plain) || d.image.is_some() || d.cfgs[0].name != "v2-4k" {
                continue;
            }
            let heavy = ["far", "batch", "large", "deep", "listing-big", "rmrec-sizes", "paths"].iter().any(|x| d.name.starts_with(x));
            let depth = if heavy { 1 } else { d.layers.len().min(if th { 3 } else { 2 }) };
            let mut layers: Vec<Vec<Op>> = d.layers[d.layers.len() - depth..].iter().map(|l| l.iter().filter(|o| !backend_dependent(o)).cloned().collect()).collect();
            if !th && layers.iter().map(|l| l.len()).product::<usize>() * d.setups.len() > 90_000 {
                layers.remove(0);
            }
            let mut b = drv(&format!("same-{id}-{}", d.name), &cf, layers).mode(Mode::Backends { codes: true }).mems(d.nmems).mask(m).full(if heavy { 0 } else { 60 });
            b.universe = d.universe.clone();
            // one history for every backend: nothing is re-opened on the way
            b.setups = d.setups.iter().map(|x| setup(&x.name, vec![], [x.cold.clone(), x.warm.clone()].concat())).collect();
            b.setups.retain(|x| th || !d.name.starts_with("rmrec-sizes") || x.name.ends_with("0"));
            b.stale_ok = d.stale_ok;
            v.push(b);
        }
    }
    v
}

fn c20(th: bool) -> Vec<Driver> {
    let a = vec![
        openx(RT, "f", CREATE, 0, ALL_RIGHTS, 11, None), openx(RT, "d/f", CREATE, 0, ALL_RIGHTS, 1 << 50, None), Op::Mkdir { d: RT, p: "d".into(), t: 13 }, openx(RT, "e", CREATE | DIRECTORY, 0, ALL_RIGHTS, 14, None), Op::OpenDir { d: RT, p: "d/s".into(), t: u64::MAX, slot: None },
        with("f", vec![Op::SetATime(s(90), 21)]), with("f", vec![Op::SetMTime(s(90), 22)]), with("d", vec![Op::SetATime(s(90), 23)]), with("d", vec![Op::SetMTime(s(90), u64::MAX)]), with("f", vec![Op::SetMeta(s(90), MetaChange::Times(31, 32, 33))]), with("", vec![Op::SetMTime(s(90), 35)]),
        put("f", 0, 5000), with("f", vec![Op::Read(s(90), 10)]), size("f", 3), trunc("f"), rename("f", "d/f"), rename("d", "q"), link("f", "l"), rm("f"), rm("l"), rmrec("d"), openx(RT, "f", CREATE, 0, ALL_RIGHTS, 99, None),
        with("f", vec![Op::SetMeta(s(90), MetaChange::Same)]), with("f", vec![Op::SetMeta(s(90), MetaChange::Type)]), with("f", vec![Op::SetMeta(s(90), MetaChange::Node)]), with("d", vec![Op::SetMeta(s(90), MetaChange::Type)]), with("d", vec![Op::SetMeta(s(90), MetaChange::Node)]), with("d", vec![Op::SetMeta(s(90), MetaChange::Times(1, 2, 3))]),
    ];
    let uni = ["f", "d", "e", "d/f", "d/s", "l", "q", "q/f", "q/s"];
    let b = vec![
        mount("f", 0, Pol::Explicit(50)), Op::Unmount("f".into()), Op::Init("f".into()), Op::Store("f".into()), with("f", vec![Op::SetATime(s(90), 21)]), with("f", vec![Op::SetMTime(s(90), 22)]), with("f", vec![Op::SetMeta(s(90), MetaChange::Times(31, 32, 33))]), put("f", 0, 10), with("f", vec![Op::SetLimit(s(90), 100)]), with("f", vec![Op::SetMeta(s(90), MetaChange::Size(60))]), Op::Restart, with("f", vec![Op::SetMeta(s(90), MetaChange::Limit(None))]), link("f", "l"), with("f", vec![Op::SetMeta(s(90), MetaChange::Size(101))]),
    ];
    vec![
        drv("attrs", &[V2_4K], rep(&a, if th { 4 } else { 3 })).uni(&uni).add(&[Class::Times]),
        drv("attrs-others", &[V1, TRANS], rep(&a, if th { 3 } else { 2 })).uni(&uni).add(&[Class::Times]),
        drv("attrs-mounted", &[V2_4K, TRANS], rep(&b, if th { 4 } else { 3 })).mems(1).warm(vec![openx(RT, "f", CREATE, 0, ALL_RIGHTS, 11, None)]).uni(&["f", "l"]).add(&[Class::Times]),
    ]
}

fn c21(th: bool) -> Vec<Driver> {
    let mut v = vec![];
    // names cache: 100 entries. Fill it with k lookups and act around the limit.
    let base_dir = |n: u32| vec![mkdir("d"), openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(9)), Op::FillFiles { d: s(9), prefix: "n".into(), n }];
    let w = |k: u32| vec![openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(9)), Op::TouchNames { d: s(9), prefix: "n".into(), from: 0, to: k }];
    let mut setups = vec![];
    for k in [97, 98, 99, 100, 101] {
        setups.push(setup(&format!("names-{k}"), base_dir(110), w(k)));
    }
    // the same name remembered by several spellings, first or last of all
    let both = [Op::OpenMeta { d: RT, p: "d/n0".into() }, Op::OpenMeta { d: RT, p: "d/n1".into() }, Op::OpenMeta { d: RT, p: "./d/../d/n2".into() }];
    for k in 93..=101 {
        setups.push(setup(&format!("names-alias-{k}"), base_dir(110), [both.to_vec(), w(k)].concat()));
        setups.push(setup(&format!("names-alias-last-{k}"), base_dir(110), [w(k), both.to_vec()].concat()));
    }
    let a = vec![
        touch("d/n0"), touch("d/x"), rm("d/n0"), rm("d/n99"), rename("d/n1", "d/x"), rename("d/n5", "d/n6"), link("d/n2", "d/x"), mkdir("d/y"), rename("d", "e"), put("d/n3", 0, 10), put("d/n98", 4000, 200), Op::RmFile { d: s(9), p: "n1".into() }, Op::OpenMeta { d: s(9), p: "n97".into() },
        Op::RmFile { d: s(9), p: "n0".into() }, Op::Rename { d: s(9), p: "n0".into(), d2: s(9), p2: "n1".into(), slot: None }, Op::Rename { d: s(9), p: "n1".into(), d2: RT, p2: "n0".into(), slot: None },
    ];
    v.push(drv("names", &[V2_4K], rep(&a, if th { 3 } else { 2 })).setups(setups).uni(&["d/n0", "d/n1", "d/n2", "d/n99", "d/x", "d/y", "e", "e/n1", "d/n6", "n0"]).full(10_000));
    // metadata cache: 1000 objects
    let mut setups = vec![];
    for k in [996u32, 998, 999, 1000, 1001] {
        setups.push(setup(&format!("metas-{k}"), base_dir(1010), w(k)));
    }
    let a = vec![
        touch("d/x"), put("d/n0", 0, 10), put("d/n998", 4000, 200), rm("d/n1"), rename("d/n2", "d/n3"), link("d/n4", "d/x"), size("d/n5", 100), with("d/n6", vec![Op::SetMTime(s(90), 3)]), Op::TouchNames { d: s(9), prefix: "n".into(), from: 990, to: 1002 }, mkdir("d/y"), with("d/n7", vec![Op::SetLimit(s(90), 5)]), put("d/n7", 0, 6),
    ];
    v.push(drv("metas", &[V2_16K], rep(&a, if th { 3 } else { 2 })).setups(setups).uni(&["d/n0", "d/n1", "d/n2", "d/n3", "d/x", "d/n1000"]).full(100).no_restart());
    // chunk pointers: 10000 cached, batches of 100..1024
    let c = 4096u64;
    let fill = |p: &str, chunks: u64| -> Vec<Op> { (0..chunks.div_ceil(1000)).map(|k| put(p, k * 1000 * c, ((chunks - k * 1000).min(1000) * c) as u32)).collect() };
    let mut cold = fill("f", 9900);
    cold.push(put("g", 0, 4096 * 300));
    cold.push(touch("h"));
    let mk = |name: &str, extra: Vec<Op>| setup(name, cold.clone(), { let mut x = vec![open("f", 0, 0), open("g", 0, 1), open("h", 0, 2)]; x.extend(extra); x });
    let rd = |k: u64, n: u64| pr(0, k * c, (n * c) as u32);
    let warm_f: Vec<Op> = (0..9).map(|k| rd(k * 1024, 1024)).collect();
    let mut wf2 = warm_f.clone();
    wf2.push(rd(9216, 684));
    let mut wf3 = wf2.clone();
    wf3.push(pr(1, 0, 4096 * 99));
    let setups = vec![mk("cold", vec![]), mk("warm-9216", warm_f), mk("warm-9900", wf2), mk("warm-full", wf3)];
    let a = vec![
        pw(2, 0, 5000), pw(2, 99 * c, 4097), pw(2, 0, 101 * 4096), pr(1, 0, 300 * 4096), pr(1, 150 * c, 10), Op::SetSize(s(0), 5000 * c + 1), Op::SetSize(s(0), 9899 * c), pw(0, 9899 * c, 9000), pw(0, 9950 * c, 10), rd(9800, 100), pw(1, 299 * c + 4000, 200), Op::SetSize(s(1), 10), pw(1, 200 * c, 3), rm("g"), pr(2, 0, 102 * 4096), trunc("f"),
    ];
    v.push(drv("pointers", &[V2_4K], rep(&a, 2)).setups(setups).full(0).no_restart());
    // single calls over more chunks than a batch, a cache or a page of pointers holds
    let mut a = vec![];
    for n in [1023u64, 1024, 1025, 2049, 4095, 4096, 4097, 8177, 10_001] {
        a.push(pw(0, 0, (n * c) as u32));
        a.push(pw(0, 5, (n * c) as u32));
        a.push(pr(0, 3, (n * c) as u32));
        if n > 8000 {
            a.push(Op::PWriteV(s(0), vec![(n * c / 2) as u32 + 1, (n * c / 2) as u32], 4095));
            a.push(Op::SetSize(s(0), n * c + 1));
        }
    }
    a.extend([Op::SetSize(s(0), 4097 * c), pw(0, 10_002 * c, 3), trunc("f"), pr(0, 0, 10_005 * 4096)]);
    v.push(drv("long-calls", &[V2_4K], vec![a.clone(), vec![pr(0, 0, 10_005 * 4096), pw(0, 4096 * c - 3, 9), pw(0, 0, 4098 * 4096), Op::SetSize(s(0), 1025 * c + 3)]]).warm(vec![open("f", CREATE, 0)]).full(0).no_restart());
    v.push(drv("long-calls-others", &[V1, V2_64K, TRANS], vec![a]).warm(vec![open("f", CREATE, 0)]).full(0).no_restart());
    // free list longer than one memory page of pointers (8176): freeing and reusing everything
    let cold = { let mut x = fill("f", 8300); x.push(put("g", 0, 10)); x };
    let a = vec![rm("f"), trunc("f"), size("f", 4096 * 60), size("f", 4096 * 100 + 5), put("g", 0, 4096 * 900), put("h", 0, 4096 * 1000), touch("k"), Op::Restart, rm("g"), put("f", 0, 100)];
    v.push(drv("free-list", &[V2_4K], rep(&a, if th { 3 } else { 2 })).setups(vec![setup("long-file", cold, vec![])]).uni(&["f", "g", "h", "k"]).full(0).check_image().no_restart());
    // memory regions: small buckets, so that chunk memory, pointer tables and metadata interleave
    let a = vec![put("f", 0, 70000), put("f", 200000, 10), put("g", 65000, 1000), Op::FillFiles { d: RT, prefix: "m".into(), n: 40 }, size("f", 65537), rm("f"), rm("g"), Op::Restart, rmrec("m3"), Op::RmFiles { d: RT, prefix: "m".into(), from: 0, to: 40 }, put("m39", 0, 66000)];
    v.push(drv("regions", &[MM1, Cfg { name: "v1-mm1", ct: 1, ..MM1 }], rep(&a, if th { 4 } else { 3 })).uni(&["f", "g", "m0", "m39"]).full(300).check_image());
    // many entries: behaves like few
    let cold = vec![mkdir("d"), openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(9)), Op::FillFiles { d: s(9), prefix: "n".into(), n: 2600 }];
    let a = vec![
        Op::List(s(9), None, 0), Op::Page(s(9), None, 999), Op::RmFiles { d: s(9), prefix: "n".into(), from: 0, to: 2600 }, Op::RmFiles { d: s(9), prefix: "n".into(), from: 1000, to: 2000 }, rmrec("d"), touch("d/z"), rm("d/n2599"), rename("d/n0", "z"), rename("d", "e"), rmdir("d"), Op::FillFiles { d: s(9), prefix: "k".into(), n: 110 }, put("d/n1300", 0, 100),
    ];
    v.push(drv("many", &[V2_4K, TRANS], rep(&a, if th { 2 } else { 1 })).setups(vec![setup("2600", cold, vec![openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(9))])]).uni(&["d", "d/n0", "d/n2599", "d/z", "z", "e", "e/n1"]).full(0).no_restart());
    v
}

impl Driver {
    pub fn full(mut self, n: usize) -> Self {
        self.full_limit = n;
        self
    }
}

fn c22(th: bool) -> Vec<Driver> {
    let m = classes(&[Class::Trap, Class::Hang]);
    let big: [u64; 12] = [0, 1, 4095, 4096, (1 << 32) - 1, 1 << 32, MAX_FILE_SIZE - 1, MAX_FILE_SIZE, MAX_FILE_SIZE + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX];
    let mut x: Vec<Op> = vec![];
    for b in big {
        for l in [0u32, 1, 4097] {
            x.push(pw(0, b, l));
            x.push(pr(0, b, l));
        }
        x.push(Op::PWriteV(s(0), vec![1, 2, 0, 3], b));
        x.push(Op::PReadV(s(0), vec![1, 2, 0, 3], b));
        x.push(Op::SetSize(s(0), b));
        x.push(Op::SetLimit(s(0), b));
        x.push(Op::SetMeta(s(0), MetaChange::Size(b)));
        x.push(Op::SetMeta(s(0), MetaChange::Limit(Some(b))));
        x.push(Op::SetATime(s(0), b));
        x.push(Op::SetMeta(s(0), MetaChange::Times(b, b, b)));
        for wh in [Wh::Set, Wh::Cur, Wh::End] {
            x.push(Op::Seek(s(0), b as i64, wh));
            x.push(Op::Seek(s(0), (b as i64).wrapping_neg(), wh));
        }
    }
    for a in [0, 1, 4096, i64::MAX as u64, u64::MAX] {
        for b in [0, 1, i64::MAX as u64, u64::MAX] {
            x.push(Op::Advice(s(0), a, b));
            x.push(Op::Allocate(s(0), a, b));
        }
    }
    x.extend([Op::Seek(s(0), i64::MIN, Wh::Set), Op::Seek(s(0), i64::MIN, Wh::Cur), Op::Seek(s(0), i64::MIN, Wh::End), Op::Seek(s(0), i64::MIN + 1, Wh::End), Op::Seek(s(0), i64::MAX, Wh::Cur)]);
    x.extend([Op::Write(s(0), 3), Op::WriteV(s(0), vec![3, 4]), Op::Read(s(0), 9), Op::ReadV(s(0), vec![1, 5000]), Op::Tell(s(0)), Op::SetStat(s(0), APPEND, ALL_RIGHTS), Op::SetStat(s(0), 0xffff, u64::MAX), trunc("f")]);
    let mut v = vec![];
    for cfg in [V2_4K, V2_64K, V1, TRANS] {
        v.push(drv(&format!("numbers-{}", cfg.name), &[cfg], rep(&x, 2)).mask(m | func()).warm(vec![open("f", CREATE, 0)]).no_restart());
    }
    if th {
        v.push(drv("numbers-3", &[V2_4K, V1], rep(&x, 3)).mask(m | func()).warm(vec![open("f", CREATE, 0)]).no_restart());
    }
    // descriptors
    let mut f: Vec<Op> = vec![];
    for n in [0u32, 1, 2, 3, 4, 5, 77, 1 << 31, u32::MAX - 1, u32::MAX] {
        let q = F::N(n);
        f.extend([
            Op::Close(q), Op::Flush(q), Op::Read(q, 3), Op::Write(q, 3), pw_n(q, 1, 1), pr_n(q, 1, 1), Op::Seek(q, 0, Wh::Cur), Op::Tell(q), Op::SetSize(q, 1), Op::SetLimit(q, 1), Op::SetATime(q, 1), Op::SetMTime(q, 1), Op::GetStat(q), Op::SetStat(q, 0, 0), Op::Meta(q), Op::SetMeta(q, MetaChange::Same), Op::Advice(q, 1, u64::MAX), Op::Allocate(q, 1, u64::MAX),
            Op::List(q, None, 0), Op::Entry(q, 1), openx(q, "x", CREATE, 0, ALL_RIGHTS, 0, Some(1)), Op::Mkdir { d: q, p: "y".into(), t: 0 }, Op::RmFile { d: q, p: "f".into() }, Op::RmDir { d: q, p: "f".into() }, Op::RmRec { d: q, p: "f".into() }, Op::OpenMeta { d: q, p: "f".into() },
            Op::Link { d: q, p: "f".into(), d2: RT, p2: "l".into(), slot: None }, Op::Link { d: RT, p: "f".into(), d2: q, p2: "l".into(), slot: None }, Op::Rename { d: q, p: "f".into(), d2: RT, p2: "l".into(), slot: None }, Op::Rename { d: RT, p: "f".into(), d2: q, p2: "l".into(), slot: None },
        ]);
        for m in [0u32, 3, 4, 5, 6, u32::MAX] {
            f.push(Op::Renumber(q, F::N(m)));
        }
    }
    f.push(open("f", 0, 2));
    f.push(openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(3)));
    v.push(drv("descriptors", &[V2_4K, TRANS], rep(&f, 2)).mask(m | func()).warm(vec![open("f", CREATE, 0), mkdir("d")]).stale().no_restart());
    if th {
        let mut g: Vec<Op> = vec![];
        for n in [0u32, 3, 4, 5, 6, u32::MAX] {
            for k in [0u32, 3, 4, 5, 6, 7, u32::MAX] {
                g.push(Op::Renumber(F::N(n), F::N(k)));
            }
            g.push(Op::Close(F::N(n)));
        }
        g.push(open("f", 0, 2));
        g.push(openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(3)));
        v.push(drv("descriptors-4", &[TRANS], rep(&g, 4)).mask(m | func()).warm(vec![open("f", CREATE, 0), mkdir("d")]).stale().no_restart());
    }
    // listing positions
    let mut l: Vec<Op> = vec![];
    for i in [0u32, 1, 2, 3, 4, 1 << 31, u32::MAX - 12, u32::MAX - 11, u32::MAX - 10, u32::MAX - 9, u32::MAX - 6, DOT, DOTDOT, u32::MAX - 3, u32::MAX - 2, u32::MAX - 1, u32::MAX] {
        for n in [0, 1, 2] {
            l.push(Op::List(RT, Some(i), n));
        }
        l.push(Op::Entry(RT, i));
        l.push(Op::Page(RT, Some(i), 1));
    }
    v.push(drv("positions", &[V2_4K, V1, TRANS], rep(&l, 1)).mask(m | func()).setups(vec![setup("none", vec![], vec![]), setup("three", vec![], vec![touch("a"), mkdir("b"), touch("c")])]).no_restart());
    // names and paths
    let mut ps: Vec<String> = ["", "/", "//", ".", "..", "./", "../", "a//", "//a", "a/../..", "a/b/../../..", "...", " ", "\u{0}", "a\u{0}b", "\u{fffd}", "💾", "a/💾/b", "\\", "a\\b", "-", "*"].iter().map(|x| x.to_string()).collect();
    for n in [1usize, 127, 128, 254, 255, 256, 257, 511, 512, 65535, 65536] {
        ps.push("x".repeat(n));
        ps.push(format!("q/{}", "x".repeat(n)));
        ps.push("é".repeat(n / 2));
    }
    ps.push("d/".repeat(3000) + "f");
    ps.push("x/../".repeat(3000) + "f");
    ps.push("./".repeat(3000) + "f");
    ps.push("../".repeat(300));
    let mut y: Vec<Op> = vec![];
    for p in &ps {
        y.extend([
            touch(p), mkdir(p), rm(p), rmdir(p), rmrec(p), Op::OpenMeta { d: RT, p: p.clone() }, link("f", p), link(p, "z"), rename("f", p), rename(p, "z"), openx(RT, p, DIRECTORY, 0, ALL_RIGHTS, 0, None), openx(RT, p, 15, 0xffff, u64::MAX, u64::MAX, None),
            mount(p, 0, Pol::Explicit(u64::MAX)), mount(p, 0, Pol::Pages), Op::Unmount(p.clone()), Op::Init(p.clone()), Op::Store(p.clone()),
        ]);
    }
    v.push(drv("paths", &[V2_4K, TRANS], rep(&y, 1)).mask(m | func()).mems(1).setups(vec![setup("file", vec![], vec![touch("f")]), setup("deep", vec![], vec![touch("f"), mkdir("d"), mkdir("x")])]));
    // deep nesting: recursion over the tree
    let deep = "d/".repeat(if th { 2500 } else { 1200 });
    let z = vec![mkdir(&deep), rmrec("d"), rename("d", "e"), touch(&(deep.clone() + "f")), rename("d/d", "e"), rename("d", "d/d/d"), rmrec("e"), rename(&(deep.clone() + "f"), "f"), Op::Restart];
    v.push(drv("deep", &[V2_4K, TRANS], rep(&z, 2)).mask(m | classes(&[Class::OkErr])).full(0).no_restart());
    v.extend(abyss(th, m | classes(&[Class::OkErr])));
    v
}
/// a nesting far deeper than a stack of one megabyte could follow by recursion
fn abyss(th: bool, m: u32) -> Vec<Driver> {
    let deep = "d/".repeat(if th { 40_000 } else { 12_000 });
    let f = deep.clone() + "f";
    let z = vec![rmrec("d"), rename("d", "e"), rename("d/d", "e"), rename("d", "d/d/d"), rmrec("e"), rmrec("d/d"), rename(&f, "f"), link(&f, "l"), Op::OpenMeta { d: RT, p: f.clone() }, openx(RT, &deep, DIRECTORY, 0, ALL_RIGHTS, 0, None), rm(&f), rmdir(&deep), Op::Restart];
    vec![drv("abyss", &[V2_4K, TRANS], rep(&z, if th { 2 } else { 1 })).mask(m).full(0).thin().no_restart().warm(vec![mkdir(&deep), touch(&f)])]
}
fn pw_n(f: F, off: u64, len: u32) -> Op {
    Op::PWriteV(f, vec![len], off)
}
fn pr_n(f: F, off: u64, len: u32) -> Op {
    Op::PReadV(f, vec![len], off)
}

fn c23(th: bool) -> Vec<Driver> {
    let one = vec![
        put("f", 0, 9000), put("g", 30000, 5), rm("f"), size("f", 1), trunc("g"), touch("d/x"), rename("f", "d/f"), link("f", "l"), rmrec("d"),
        seqs(vec![mount("f", 0, Pol::Explicit(10)), put("f", 5, 9), Op::Store("f".into()), Op::Unmount("f".into())]),
        seqs(vec![Op::ChunkType(1), put("h", 0, 9000), Op::ChunkType(2)]),
        Op::Restart,
    ];
    let mut a = one.clone();
    a.extend(one.iter().map(|o| Op::B(Box::new(o.clone()))));
    a.push(Op::Reboot);
    let uni = ["f", "g", "h", "l", "d", "d/x", "d/f"];
    let at = |name: &'static str, base: u8, span: u8, chunk: u32, ct: u8, bucket: u16| Cfg { name, base, span, chunk, ct, bucket, transient: false };
    let mut v = vec![];
    for (k, (a1, b1, depth)) in [
        (at("10..20", 10, 10, 4096, 2, 1), at("20..30", 20, 10, 4096, 2, 1), if th { 4 } else { 3 }),
        (at("0..10", 0, 10, 4096, 2, 2), at("244..254", 244, 10, 16384, 2, 2), 2),
        (at("10..30", 10, 20, 16384, 1, 1), at("30..40", 30, 10, 65536, 2, 1), 2),
        (at("229..239", 229, 10, 16384, 2, 1), at("219..229", 219, 10, 4096, 1, 1), 2),
    ]
    .into_iter()
    .enumerate()
    {
        let mut both = vec![];
        for o in [put("f", 0, 5000), mkdir("d"), put("g", 0, 40000)] {
            both.push(o.clone());
            both.push(Op::B(Box::new(o)));
        }
        v.push(drv(&format!("twin-{k}"), &[a1], rep(&a, depth)).mode(Mode::Twin(b1)).mems(1).setups(vec![setup("empty", vec![], vec![]), setup("both", vec![], both)]).uni(&uni).mask(ALL));
    }
    let mut r = vec![];
    for from in 0..=255u8 {
        for to in 0..=255u8 {
            // every range near the limits and near its own minimal length; all others in the thorough tier
            let near = (to as i32 - from as i32 - 10).abs() <= 12 || !(3..=248).contains(&to) || from < 3 || from > 240;
            if th || near {
                r.push(Op::Attach { from, to });
            }
        }
    }
    v.push(drv("ranges", &[at("ranges", 0, 10, 16384, 2, 1)], vec![r]).mode(Mode::Attach).mask(ALL));
    let mut b = vec![];
    for val in [0u64, 1, 2, 3, 23, 24, 255, 256, 65535, 65536, u32::MAX as u64] {
        b.push(Op::AttachBad { what: Corrupt::Version, val });
        b.push(Op::AttachBad { what: Corrupt::VersionOld, val });
    }
    for m in [b"FSA1", b"ALO1", b"FSA2", b"ALO2", b"fsa1", b"\0\0\0\0", b"FSA\0", b"SCL\x01", b"BTR\x01", b"\xff\xff\xff\xff"] {
        b.push(Op::AttachBad { what: Corrupt::Marker, val: u32::from_le_bytes(*m) as u64 });
    }
    let hist = vec![
        setup("empty", vec![], vec![]),
        setup("file", vec![], vec![put("f", 0, 20000)]),
        setup("rich", vec![], vec![put("f", 0, 20000), mkdir("d"), put("d/g", 70000, 10), rm("f"), link("d/g", "l"), Op::ChunkType(1), put("h", 0, 9000)]),
    ];
    v.push(drv("formats", &[MM1, V2_4K, V2_16K, V1], vec![b]).mode(Mode::Attach).setups(hist).mask(ALL));
    v
}

fn c24(th: bool) -> Vec<Driver> {
    let build = vec![
        put("d/a", 0, 5000), touch("d/s/b"), touch("d/s/t/c"), mkdir("d/e"), link("d/a", "keep"), link("d/a", "d/s/l"), touch("o"), link("o", "d/o"), open("d/a", 0, 0), openx(RT, "d/s", 0, 0, ALL_RIGHTS, 0, Some(1)), open("d/s/t/c", 0, 2), mount("d/s/b", 0, Pol::Explicit(9)), openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(3)), Op::Close(s(0)), Op::Close(s(1)), rename("d/s", "d/z"), openx(RT, "d/e", 0, 0, ALL_RIGHTS, 0, Some(4)),
    ];
    let rmv = vec![
        rmrec("d"), rmrec("d/s"), rmrec("d/a"), rmrec("d/s/t"), rmrec("o"), rmrec("keep"), rmrec("d/z"), rmrec("x"), rmrec("d/../d"), rmrec("./d/"), Op::RmRec { d: s(3), p: "s".into() }, Op::RmRec { d: s(3), p: "".into() }, rmrec("d/e"),
    ];
    let uni = ["d", "d/a", "d/s", "d/s/b", "d/s/t", "d/s/t/c", "d/e", "keep", "d/s/l", "o", "d/o", "d/z"];
    let mut layers = rep(&build, if th { 4 } else { 3 });
    layers.push(rmv.clone());
    let mut after = rmv.clone();
    after.extend([Op::Close(s(0)), Op::Close(s(2)), Op::Unmount("d/s/b".into()), put("d/a", 0, 10), touch("d/n")]);
    let full = vec![put("d/a", 0, 5000), touch("d/s/b"), touch("d/s/t/c"), mkdir("d/e"), link("d/a", "keep"), touch("o"), link("o", "d/o"), openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(3))];
    let pins: Vec<(&str, Vec<Op>)> = vec![
        ("nothing", vec![Op::Close(s(3))]),
        ("dirfd", vec![]),
        ("file-open", vec![Op::Close(s(3)), open("d/s/t/c", 0, 2)]),
        ("dir-open", vec![Op::Close(s(3)), openx(RT, "d/s/t", 0, 0, ALL_RIGHTS, 0, Some(2))]),
        ("empty-dir-open", vec![Op::Close(s(3)), openx(RT, "d/e", 0, 0, ALL_RIGHTS, 0, Some(2))]),
        ("linked-open", vec![Op::Close(s(3)), open("keep", 0, 2), open("d/o", 0, 0)]),
        ("mounted", vec![Op::Close(s(3)), mount("d/s/b", 0, Pol::Explicit(9))]),
        ("first-open", vec![Op::Close(s(3)), rm("keep"), open("d/a", 0, 0)]),
    ];
    let setups: Vec<Setup> = pins
        .into_iter()
        .map(|(n, p)| {
            let mut w = full.clone();
            w.extend(p);
            setup(n, vec![], w)
        })
        .collect();
    let mut v = vec![
        drv("rmrec", &[V2_4K], layers).mems(1).uni(&uni).check_image(),
        drv("rmrec-pinned", &[V2_4K, V1, TRANS], rep(&after, if th { 4 } else { 3 })).setups(setups).mems(1).uni(&uni).check_image(),
    ];
    // directories of every size around batch and page borders, removed whole: flat, nested, of files and of directories
    let mut sizes: Vec<u32> = vec![0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 102, 127, 128, 129, 130, 199, 200, 201, 255, 256, 257, 299, 300, 301, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1002];
    if th {
        sizes = (0..140).chain(sizes).chain([1023, 1024, 1025, 1026, 1999, 2000, 2001, 2047, 2048, 2049, 2500, 4095, 4096, 4097, 5000, 10_001]).collect();
        sizes.sort();
        sizes.dedup();
    } else {
        sizes.extend([1023, 1024, 1025, 1026, 2048, 2049]);
    }
    let dir = |p: &str, sl: u8| openx(RT, p, CREATE | DIRECTORY, 0, ALL_RIGHTS, 1, Some(sl));
    let setups: Vec<Setup> = sizes
        .iter()
        .flat_map(|&n| {
            let flat = vec![dir("d", 9), Op::FillFiles { d: s(9), prefix: "n".into(), n }, Op::Close(s(9)), touch("keep")];
            let mut nest = vec![dir("d", 8), dir("d/i", 9), Op::FillFiles { d: s(8), prefix: "m".into(), n: 3 }, Op::FillFiles { d: s(9), prefix: "n".into(), n }, Op::Close(s(9)), Op::Close(s(8)), touch("d/z"), touch("keep")];
            if n <= 300 {
                nest.push(mkdir("d/v"));
                nest.extend((0..n).map(|k| mkdir(&format!("d/v/{k}"))));
            }
            [setup(&format!("flat-{n}"), flat, vec![]), setup(&format!("nested-{n}"), nest, vec![])]
        })
        .collect();
    let a = vec![rmrec("d"), rmrec("d/i"), rmrec("d/v"), Op::Seq(vec![openx(RT, "d/n0", 0, 0, ALL_RIGHTS, 0, Some(5)), rmrec("d")]), Op::Seq(vec![openx(RT, "d/i/n1", 0, 0, ALL_RIGHTS, 0, Some(5)), rmrec("d")])];
    v.push(drv("rmrec-sizes", &[V2_4K, TRANS], if th { rep(&a, 2) } else { vec![a, vec![rmrec("d")]] }).setups(setups).uni(&["d", "d/n0", "d/i", "d/i/n0", "d/i/n1", "d/v/0", "d/z", "keep"]).full(60).check_image().no_restart());
    // nested deeper than recursion on an ordinary stack can follow, with directories beside the path
    let deep = "d/".repeat(if th { 40_000 } else { 9000 });
    let z = vec![rmrec("d"), rmrec("d/d"), Op::Seq(vec![touch("d/d/d/d/f"), mkdir("d/d/e"), rmrec("d")]), rmrec(&(deep.clone() + "x")), rmrec(&deep)];
    v.push(drv("rmrec-abyss", &[V2_4K], rep(&z, if th { 2 } else { 1 })).uni(&["d", "keep"]).full(0).thin().no_restart().warm(vec![touch("keep"), mkdir(&deep), touch(&(deep.clone() + "x"))]));
    v
}

fn c25(th: bool) -> Vec<Driver> {
    let a = vec![
        Op::ChunkType(1), Op::ChunkType(2), Op::ChunkSize(4096), Op::ChunkSize(16384), Op::ChunkSize(65536), Op::ChunkSize(8192), put("f", 0, 20000), put("f", 70000, 10), put("g", 4000, 5000), size("f", 4096), size("f", 9000), trunc("g"), rm("f"), touch("f"), touch("g"), mkdir("d"), Op::Restart, with("f", vec![pr(90, 0, 80000)]), mount("g", 0, Pol::Explicit(40)), Op::Store("g".into()), rename("f", "g"), link("f", "l"), rm("d"), rmdir("d"),
    ];
    let ss = |n: u64| Op::SetSize(s(0), n);
    let b = vec![Op::ChunkType(1), Op::ChunkType(2), ss(0), ss(10), ss(100), ss(4096), ss(5000), ss(16_384), ss(20_000), pw(0, 0, 9000), pw(0, 0, 40), pw(0, 17_000, 3), pw(0, 4090, 5), trunc("f"), put("g", 3, 5000), pr(0, 0, 22_000)];
    let c = vec![
        Op::ChunkType(1), Op::ChunkType(2), size("f", 10), size("f", 4000), size("f", 4096), size("f", 4097), size("f", 25_000), size("g", 10), size("g", 4096), size("g", 16_385), size("g", 25_000), size("h", 100), size("h", 12_000), size("k", 5), size("k", 31_000), trunc("f"), trunc("g"), trunc("h"),
        put("f", 4095, 2), put("f", 24_000, 20), put("g", 1, 1), put("g", 24_000, 20), put("h", 0, 3), put("k", 8000, 9000), rm("f"), rm("k"), rename("g", "f"), link("f", "g"), put("n", 0, 5000), Op::ChunkSize(8192), Op::Restart,
    ];
    vec![
        drv("config", &[V2_16K], rep(&a, if th { 5 } else { 4 })).mems(1).uni(&["f", "g", "l", "d"]).add(&[Class::ChunkType]).check_image(),
        drv("config-others", &[V2_4K, V1, V2_64K], rep(&a, if th { 4 } else { 3 })).mems(1).uni(&["f", "g", "l", "d"]).add(&[Class::ChunkType]).check_image(),
        // files of one layout treated while the other one is configured: sizes around both borders, holes, freed chunks
        drv("mixed-layouts", &[V2_4K, V1, V2_16K], rep(&b, if th { 5 } else { 4 })).warm(vec![open("f", CREATE, 0)]).uni(&["f", "g"]).add(&[Class::ChunkType]).check_image(),
        drv("mixed-after", &[V2_4K, V2_16K], rep(&c, if th { 4 } else { 3 }))
            .setups(vec![
                setup("old-layout", vec![Op::ChunkType(1), put("f", 0, 20_000), put("h", 9000, 5), Op::ChunkType(2), put("g", 0, 20_000), put("k", 30_000, 5)], vec![]),
                setup("new-layout", vec![Op::ChunkType(2), put("f", 0, 20_000), put("h", 9000, 5), Op::ChunkType(1), put("g", 0, 20_000), put("k", 30_000, 5)], vec![Op::ChunkType(1)]),
            ])
            .uni(&["f", "g", "h", "k"])
            .add(&[Class::ChunkType])
            .check_image(),
    ]
}

fn c26(th: bool) -> Vec<Driver> {
    let a = vec![
        open("f", CREATE, 0), open("f", 0, 1), openx(RT, "d", CREATE | DIRECTORY, 0, ALL_RIGHTS, 0, Some(2)), touch("g"), mkdir("e"), link("f", "l"), link("g", "f"), link("g", "l"),
        rm("f"), rm("l"), rmdir("d"), rmrec("d"), rmrec("f"), rename("g", "f"), rename("f", "g"), rename("e", "d"), rename("l", "f"), Op::Close(s(0)), Op::Close(s(1)), Op::Close(s(2)), mount("f", 0, Pol::Explicit(8)), Op::Unmount("f".into()), Op::Unmount("l".into()), Op::Write(s(0), 5), Op::Renumber(s(0), s(1)), Op::Renumber(s(0), F::N(9)),
    ];
    vec![
        drv("busy", &[V2_4K], rep(&a, if th { 5 } else { 4 })).mems(1).uni(&["f", "g", "l", "d", "e"]).no_restart().check_image(),
        drv("busy-others", &[V1, TRANS], rep(&a, 3)).mems(1).uni(&["f", "g", "l", "d", "e"]).no_restart().check_image(),
        drv("busy-rich", &[V2_4K, TRANS], rep(&a, 3)).mems(1).setups(vec![
            setup("open-linked", vec![], vec![open("f", CREATE, 0), link("f", "l"), touch("g"), mkdir("e"), openx(RT, "d", CREATE | DIRECTORY, 0, ALL_RIGHTS, 0, Some(2))]),
            setup("mounted-linked", vec![], vec![touch("f"), link("f", "l"), touch("g"), mount("f", 0, Pol::Explicit(8))]),
            setup("moved", vec![], vec![open("f", CREATE, 0), mkdir("e"), rename("f", "e/x"), rename("e", "d"), touch("f")]),
        ]).uni(&["f", "g", "l", "d", "e", "d/x"]).no_restart().check_image(),
    ]
}

fn c27(th: bool) -> Vec<Driver> {
    let a = vec![
        put("f", 0, 9000), put("f", 70000, 20), put("g", 100, 70000), mkdir("d/e"), touch("d/x"), Op::FillFiles { d: RT, prefix: "m".into(), n: 30 }, size("f", 150000), trunc("f"), link("f", "l"), rename("f", "d/y"), rename("d", "dd"), rm("f"), rmrec("d"),
        seqs(vec![Op::ChunkType(1), put("h", 0, 9000), Op::ChunkType(2)]),
        with("f", vec![Op::SetLimit(s(90), 1 << 20), Op::SetMTime(s(90), 4)]),
        with("f", vec![Op::PWriteV(s(90), vec![5000, 1, 70000], 10)]),
        open("f", CREATE, 0), Op::Write(s(0), 5000), Op::Restart,
    ];
    let uni = ["f", "g", "h", "l", "d", "d/x", "d/y", "d/e", "dd", "dd/x", "m0", "m29"];
    let mut v = vec![];
    let v1mm = Cfg { name: "v1-mm1", ct: 1, ..MM1 };
    let c64 = Cfg { name: "v2-64k-mm1", chunk: 65536, ..MM1 };
    v.push(drv("storage", &[MM1], rep(&a, if th { 4 } else { 3 })).mode(Mode::Faults).uni(&uni).check_image());
    v.push(drv("storage-others", &[v1mm, c64, V2_16K, Cfg { name: "v2-16k-mm2", bucket: 2, chunk: 16384, ..MM1 }], rep(&a, if th { 3 } else { 2 })).mode(Mode::Faults).uni(&uni).check_image());
    let m = vec![
        mount("f", 0, Pol::Explicit(10)), mount("f", 0, Pol::Pages), mount("f", 0, Pol::Explicit(140000)), mount("f", 0, Pol::PrevZero), Op::Unmount("f".into()), Op::Init("f".into()), Op::Store("f".into()), put("f", 0, 70000), put("f", 140000, 10), pw(0, 65530, 100), Op::PWriteV(s(0), vec![10, 65536, 65536], 9), pr(0, 0, 150000), size("f", 200000), size("f", 10), Op::Write(s(0), 66000), Op::ReadV(s(0), vec![70000, 70000]), put("g", 0, 9000), Op::Restart, open("f", 0, 0),
    ];
    v.push(
        drv("mounted", &[MM1, TRANS, v1mm], rep(&m, if th { 4 } else { 3 }))
            .mode(Mode::Faults)
            .mems(1)
            .setups(vec![setup("plain", vec![], vec![put("f", 0, 66000), open("f", 0, 0)]), setup("mounted", vec![], vec![put("f", 0, 66000), open("f", 0, 0), mount("f", 0, Pol::Explicit(100))])])
            .uni(&["f", "g"])
            .check_image(),
    );
    // large structures: the tables themselves grow
    let big = vec![Op::FillFiles { d: RT, prefix: "q".into(), n: 200 }, put("big", 0, 600_000), put("big", 4_000_000, 300_000), Op::RmFiles { d: RT, prefix: "q".into(), from: 0, to: 200 }, rm("big"), mkdir(&"deep/".repeat(20)), Op::Restart];
    v.push(drv("tables", &[MM1, v1mm], rep(&big, if th { 3 } else { 2 })).mode(Mode::Faults).uni(&["big", "q0", "q199", "deep/deep"]).check_image().full(60));
    v
}

fn c28(th: bool) -> Vec<Driver> {
    let mut v = c09(false);
    for d in v.iter_mut() {
        d.name = format!("codes-{}", d.name);
        d.mask = classes(&[Class::Code, Class::OkErr, Class::Trap]);
        d.ignore = soft() & !classes(&[Class::Code]);
        d.fsck = false;
        d.restart = false;
        d.universe = vec![];
        d.full_limit = 0;
    }
    // the code is the same on every backend, after lookups and after re-opening
    let cf = [V2_4K, V1, V2_64K, TRANS];
    let long = "n".repeat(256);
    let prep = vec![touch("f"), mkdir("d"), touch("d/x"), open("f", 0, 0), openx(RT, "d", 0, 0, ALL_RIGHTS, 0, Some(1)), mount("f", 0, Pol::Explicit(5)), openx(RT, "f", 0, 0, R_READ, 0, Some(2)), link("f", "l"), put("f", 0, 100), Op::Close(s(0)), Op::OpenMeta { d: RT, p: "f".into() }];
    let bad = vec![
        openx(RT, "f", CREATE | EXCL, 0, ALL_RIGHTS, 9, None), openx(RT, "zz", 0, 0, ALL_RIGHTS, 9, None), openx(RT, "f", DIRECTORY, 0, ALL_RIGHTS, 9, None), touch("f/x"), mkdir("d"), mkdir("f"), touch(&long), touch("/a"), touch("../a"), link("d", "n"), link("zz", "n"), link("f", "d"), rename("f", "d"), rename("d", "f"), rename("d", "d/y"), rename("zz", "n"), rename("f", "l"), rename("d/x", "f"),
        rm("zz"), rm("d"), rm("f"), rmdir("f"), rmdir("d"), rmrec("zz"), Op::Close(s(0)), Op::Renumber(s(0), s(1)), Op::Write(s(2), 3), Op::SetSize(s(2), 3), Op::SetLimit(s(0), 1), Op::SetMeta(s(0), MetaChange::Type), Op::SetMeta(s(0), MetaChange::Node), Op::SetMeta(s(1), MetaChange::Type), Op::Seek(s(0), -1, Wh::Set), Op::Seek(s(0), -1, Wh::Cur), Op::Seek(s(0), -1000, Wh::End), Op::Seek(s(0), 1, Wh::End), pw(0, MAX_FILE_SIZE, 1), Op::SetSize(s(0), MAX_FILE_SIZE + 1), Op::Read(s(1), 1), Op::Entry(s(1), 50), Op::List(s(0), None, 0), Op::SetStat(s(1), 1, 0), mount("d", 0, Pol::Pages), mount("f", 0, Pol::Pages), Op::Unmount("zz".into()), Op::Unmount("l".into()), Op::Store("d".into()), Op::Init("l".into()), Op::Flush(s(1)), Op::Meta(F::N(70)),
    ];
    let mut layers = rep(&prep, if th { 3 } else { 2 });
    layers.push(bad);
    v.push(drv("codes-backends", &cf, layers).mode(Mode::Backends { codes: true }).mems(1).mask(classes(&[Class::Other])).stale().full(0));
    v
}

/// the drivers run by the generic engine for a property
// --- C18 ---------------------------------------------------------------------------------------
fn c18(th: bool) -> Vec<Driver> {
    use crate::image::*;
    let mut v = vec![];
    let long = "n".repeat(255);
    let uni = ["a", "b", "d", "d/b", "d/s", "d/\u{1F4BE}", "d/k", "e", "l", "m", "s", "z", "zz", "d2", "nn"];
    // every object of the synthesised tree with every kind of operation
    let full: Vec<Op> = vec![
        put("a", 3, 10), put("a", 4090, 5000), put("a", 40_000, 20), put("e", 0, 17_000), put("s", 5000, 10), put("d/b", 16_380, 8), put("d/b", 20_000, 1), put("d/\u{1F4BE}", 4096, 3), put("m", 0, 10), put(&long, 5, 30),
        put("d/k", 0, 5000), put("nn", 16_000, 1000),
        size("a", 100), size("a", 8192), size("a", 50_000), size("d/b", 4096), size("d/b", 0), size("d/b", 16_384), size("s", 1), size("e", 30_000), size("m", 65_536),
        trunc("a"), trunc("d/b"), trunc("m"),
        rm("a"), rm("l"), rm("d/b"), rm("s"), rm("e"), rm("m"), rm(&long), rm("d/\u{1F4BE}"),
        rmdir("d"), rmdir("d/s"), rmrec("d"), rmrec("."), mkdir("d/s/t"), mkdir("d2"), mkdir("d"),
        rename("a", "z"), rename("a", "e"), rename("d/b", "a"), rename("d", "d2"), rename("d/s", "s2"), rename("l", "d/l"), rename(&long, "zz"), rename("m", "d/m"), rename("e", "d/s/e"),
        link("a", "d/k"), link("d/b", "e"), link("m", "zz"), link("l", "zz"), link("d", "zz"),
        with("a", vec![Op::SetMeta(s(90), MetaChange::Times(1, 2, 3))]), with("d/b", vec![Op::SetLimit(s(90), 21_000), pw(90, 20_500, 1000)]), with("e", vec![Op::SetATime(s(90), 9)]), with("d", vec![Op::SetMTime(s(90), 9)]),
        with("l", vec![pw(90, 0, 4), Op::SetMTime(s(90), 8)]),
        openx(RT, "a", EXCL | CREATE, 0, ALL_RIGHTS, 1, None), openx(RT, "a", 0, APPEND, ALL_RIGHTS, 1, Some(1)), openx(RT, "d", DIRECTORY, 0, ALL_RIGHTS, 1, Some(2)), Op::Write(s(1), 50), Op::List(s(2), Some(3), 2), Op::Page(RT, None, 2),
        Op::Entry(RT, 1), Op::Entry(RT, 3), Op::Entry(RT, 12),
        mount("m", 0, Pol::PrevZero), mount("m", 0, Pol::PrevPages), mount("m", 0, Pol::Explicit(9)), mount("a", 0, Pol::Pages), mount("s", 0, Pol::PrevZero), mount("e", 0, Pol::PrevPages), mount("d/b", 0, Pol::Explicit(300)),
        Op::Unmount("m".into()), Op::Init("m".into()), Op::Store("m".into()), Op::Init("a".into()), Op::Store("a".into()), Op::Store("e".into()), Op::Store("s".into()), Op::Init("d/b".into()),
        Op::MemWrite { m: 0, off: 0, len: 7000 }, Op::Restart, Op::ChunkType(1), Op::ChunkType(2),
    ];
    // the ones that change what is stored and how it is found
    let core: Vec<Op> = vec![
        put("a", 4090, 5000), put("e", 0, 17_000), put("s", 5000, 10), put("d/b", 20_000, 1), put("d/k", 0, 5000), size("a", 100), size("d/b", 16_384), size("e", 30_000), trunc("d/b"),
        rm("a"), rm("l"), rm("d/b"), rm("m"), rmrec("d"), mkdir("d/s/t"), rename("a", "e"), rename("d", "d2"), rename("d/b", "a"), rename(&long, "zz"), link("d/b", "e"), link("a", "d/k"),
        mount("m", 0, Pol::PrevPages), mount("a", 0, Pol::PrevZero), put("m", 5000, 2000), Op::Unmount("m".into()), Op::Init("m".into()), Op::Store("m".into()), Op::Store("a".into()), Op::MemWrite { m: 0, off: 0, len: 70_000 }, Op::Restart, Op::ChunkType(1),
        with("d/b", vec![Op::SetMeta(s(90), MetaChange::Times(1, 2, 3)), Op::SetLimit(s(90), 40_000)]),
    ];
    // a re-opening ends every mount, so it is compared only where none is active
    let closed = |ops: &[Op]| -> Vec<Op> {
        let mut v: Vec<Op> = ops.iter().filter(|o| !matches!(o, Op::Mount { .. } | Op::Unmount(_) | Op::Init(_) | Op::Store(_) | Op::ChunkType(_) | Op::Restart)).cloned().collect();
        for (p, pol) in [("m", Pol::PrevPages), ("m", Pol::PrevZero), ("a", Pol::PrevPages)] {
            let (mo, un) = (mount(p, 0, pol), Op::Unmount(p.into()));
            v.push(seqs(vec![mo.clone(), put(p, 5990, 30), un.clone()]));
            v.push(seqs(vec![mo.clone(), Op::Init(p.into()), un.clone()]));
            v.push(seqs(vec![mo, Op::Store(p.into()), un]));
        }
        v
    };
    for l in LAYOUTS {
        for ct in [2u8, 1] {
            let cfg = layout_cfg(l, ct);
            let name = format!("{}-{}", l.name, cfg.name);
            let img = synth_image(l, ct);
            v.push(drv(&format!("old-{name}"), &[cfg], rep(&full, 2)).mems(1).uni(&uni).image(img.clone()).add(&[Class::Times, Class::Code]).check_image());
            if ct == 2 || th {
                v.push(drv(&format!("upgrade-{name}"), &[cfg], rep(&closed(&core), if th { 3 } else { 2 })).mems(1).uni(&uni).image(img).mode(Mode::Upgrade).add(&[Class::Times]));
            }
        }
    }
    // images written by the original version
    let gold: Vec<Op> = vec![
        put("a", 4090, 5000), put("e", 0, 17_000), put("s", 5000, 10), put("d/c", 20_000, 1), put("d/k", 0, 90_000), size("a", 100), size("d/c", 16_384), size("m", 70_010), trunc("d/c"), put(&"y".repeat(255), 0, 20_001),
        rm("a"), rm("l"), rm("d/c"), rm("m"), rm("k"), rmrec("d"), rmdir("d/s"), mkdir("d/s/t"), rename("a", "e"), rename("d", "d2"), rename("d/c", "a"), link("d/c", "e"), link("a", "d/k"),
        mount("m", 0, Pol::PrevPages), mount("m", 0, Pol::PrevZero), mount("k", 1, Pol::PrevPages), put("m", 5000, 2000), Op::Unmount("m".into()), Op::Init("m".into()), Op::Store("m".into()), Op::Store("k".into()), Op::MemWrite { m: 0, off: 0, len: 70_000 }, Op::Restart, Op::ChunkType(1),
        with("d/c", vec![Op::SetMeta(s(90), MetaChange::Times(1, 2, 3)), Op::SetLimit(s(90), 400_000)]), Op::ChunkSize(8192),
    ];
    let names: Vec<Op> = vec![
        Op::TouchNames { d: RT, prefix: "x".into(), from: 0, to: 130 }, rm("d/aa"), rm("d/ab"), rm("d/a\u{1}"), rename("d/bb", "d/aaa"), rename("d/aab", "d/bb"), put("d/z3", 0, 5), put("x129", 0, 3), rm("x7"), rename("x8", "x30"), rename("d", "x20"),
        Op::FillFiles { d: RT, prefix: "x".into(), n: 70 }, rmrec("d"), link("d/z1", "d/aaaaaa"), Op::Page(RT, None, 7), Op::Restart, mkdir("d/ac"), openx(RT, "d/a", CREATE | EXCL, 0, ALL_RIGHTS, 0, None), openx(RT, "d/aaaaaaaaaaaaa", CREATE | EXCL, 0, ALL_RIGHTS, 0, None),
    ];
    for n in golden_names() {
        let (img, cfg) = golden_image(n);
        let is_names = n == "names";
        let ops = if is_names { &names } else { &gold };
        let uni2: &[&str] = if is_names { &["d/aaa", "d/aab", "x20", "x30", "x129", "x130", "d/ac"] } else { &["a", "d/b", "d/c", "d/k", "d2", "e", "gone", "junk", "k", "l", "m", "s"] };
        v.push(drv(&format!("golden-{n}"), &[cfg], rep(ops, if th && !is_names { 3 } else { 2 })).mems(2).uni(uni2).image(img.clone()).full(if is_names { 300 } else { 200 }).add(&[Class::Times, Class::Code, Class::ChunkType]).check_image());
        if th || n == "rich-16k" || n == "rich-v1" {
            v.push(drv(&format!("golden-upgrade-{n}"), &[cfg], rep(&closed(ops), 2)).mems(2).uni(uni2).image(img).mode(Mode::Upgrade).add(&[Class::Times, Class::ChunkType]));
        }
    }
    v
}

pub fn drivers(id: &str, th: bool) -> Vec<Driver> {
    let mut v = special(id, th);
    v.extend(crate::broad::broad(id, th));
    v.extend(crate::themes::themes(id, th));
    v
}

fn special(id: &str, th: bool) -> Vec<Driver> {
    match id {
        "C01" => c01(th),
        "C02" => c02(th),
        "C03" => c03(th),
        "C04" => c04(th),
        "C05" => c05(th),
        "C06" => c06(th),
        "C07" => c07(th),
        "C08" => c08(th),
        "C09" => c09(th),
        "C10" => c10(th),
        "C11" => c11(th),
        "C12" => c12(th),
        "C13" => c13(th),
        "C14" => c14(th),
        "C15" => c15(th),
        "C16" => c16(th),
        "C17" => c17(th),
        "C18" => c18(th),
        "C19" => c19(th),
        "C20" => c20(th),
        "C21" => c21(th),
        "C22" => c22(th),
        "C23" => c23(th),
        "C24" => c24(th),
        "C25" => c25(th),
        "C26" => c26(th),
        "C27" => c27(th),
        "C28" => c28(th),
        _ => vec![],
    }
}
