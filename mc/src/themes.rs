//! Alphabets of middle size around one theme each, explored deeper than the wide one: descriptors,
//! mounted files, unusual names, combinations of flags and of attributes, large transfers, numbers
//! of things. Every property whose operations take part explores them with its own classes.
use crate::broad::{core, plan};
use crate::drivers::*;
use crate::engine::*;
use crate::ops::*;
use crate::real::*;

const RT: F = F::Root;
fn s(n: u8) -> F {
    F::S(n)
}
fn ox(d: F, p: &str, of: u16, ff: u16, rights: u64, slot: Option<u8>) -> Op {
    openx(d, p, of, ff, rights, 6, slot)
}
fn w(p: &str, v: Vec<Op>) -> Op {
    let mut a = vec![open(p, 0, 90)];
    a.extend(v);
    a.push(Op::Close(s(90)));
    Op::Seq(a)
}
fn un(p: &str) -> Op {
    Op::Unmount(p.into())
}

fn chunk_of(c: &Cfg) -> u64 {
    if c.transient || c.ct == 1 {
        4096
    } else {
        c.chunk as u64
    }
}

/// adapt a driver to what a property is about
fn fit(id: &str, mut d: Driver) -> Option<Driver> {
    let p = plan(id)?;
    d.ignore |= classes(&[Class::Code, Class::Times, Class::ChunkType]);
    d = d.mask(p.mask);
    if p.fsck {
        d = d.check_image();
        d.mask = p.mask;
    }
    if d.layers.iter().any(|l| l.iter().any(|o| !(p.dom)(o))) {
        d.blame = Some(p.dom);
        d.core = core(id);
    }
    d.restart &= p.look > 1;
    d.observe &= p.look > 0;
    d.name = format!("theme-{}", d.name);
    Some(d)
}

// --- what the themes are ------------------------------------------------------------------------
fn descriptors(th: bool) -> Vec<Driver> {
    let full = |c: u64| -> Vec<Op> {
        vec![
            // how they are opened
            ox(RT, "f", 0, APPEND, R_READ | R_WRITE, Some(6)), ox(RT, "f", 0, APPEND, R_READ, Some(6)), ox(RT, "f", 0, 0, R_WRITE, Some(6)), ox(RT, "f", 0, 0, 0, Some(6)), ox(RT, "f", TRUNC, APPEND, R_READ, Some(6)), ox(RT, "d", DIRECTORY, 0, ALL_RIGHTS, Some(6)), ox(RT, "d", 0, 0, R_READ, Some(2)),
            // moving
            Op::Seek(s(0), 0, Wh::Cur), Op::Seek(s(0), 0, Wh::End), Op::Seek(s(1), 0, Wh::Cur), Op::Seek(s(1), -2, Wh::Cur), Op::Seek(s(1), 4, Wh::Set), Op::Seek(s(6), 0, Wh::Cur), Op::Seek(s(6), 3, Wh::Set), Op::Seek(s(6), -1, Wh::End), Op::Seek(s(0), 2 * c as i64, Wh::Set), Op::Tell(s(1)), Op::Tell(s(6)),
            // data
            Op::Read(s(0), 40), Op::Read(s(1), 40), Op::Read(s(6), 40), Op::Write(s(0), 30), Op::Write(s(1), 10), Op::Write(s(6), 11), Op::PWriteV(s(6), vec![5], 1), Op::PWriteV(s(1), vec![5], 1), Op::PReadV(s(6), vec![5], 1), Op::Write(s(3), 4),
            // sizes and limits
            Op::SetSize(s(0), 3), Op::SetSize(s(1), 0), Op::SetSize(s(6), 0), Op::SetSize(s(6), c + 5), Op::SetSize(s(3), 0), Op::SetLimit(s(6), c), Op::SetMeta(s(6), MetaChange::Size(1)), Op::SetMeta(s(3), MetaChange::Size(7)),
            // the table
            Op::SetStat(s(6), 0, ALL_RIGHTS), Op::SetStat(s(0), APPEND, R_WRITE), Op::SetStat(s(1), 0, R_READ), Op::GetStat(s(6)), Op::Renumber(s(6), s(0)), Op::Renumber(s(0), s(6)), Op::Renumber(s(6), F::N(1)), Op::Renumber(s(2), F::N(0)), Op::Renumber(s(0), F::N(2)), Op::Renumber(s(1), F::N(40)), Op::Renumber(s(2), s(0)), Op::Close(s(0)), Op::Close(s(1)), Op::Close(s(2)), Op::Close(s(6)), Op::Close(F::N(0)), Op::Close(F::N(1)), Op::Close(F::N(2)), Op::Write(F::N(2), 7), Op::Write(F::N(1), 7), Op::List(F::N(0), None, 0), Op::Meta(F::N(0)),
            // use
            rm("f"), rm("l"), rmdir("d"), rmrec("d"), rename("h", "f"), rename("d", "n"), touch("f"),
        ]
    };
    let mut v = vec![];
    for (i, cfg) in [V2_4K, TRANS, V1].iter().enumerate() {
        let c = chunk_of(cfg);
        let warm = vec![
            put("f", 0, c as u32 + 100), link("f", "l"), mkdir("d"), put("h", 0, 9), open("f", 0, 0), ox(RT, "l", 0, APPEND, ALL_RIGHTS, Some(1)), ox(RT, "d", DIRECTORY, 0, ALL_RIGHTS, Some(2)), ox(RT, "f", 0, 0, R_READ, Some(3)), Op::Seek(s(0), 20, Wh::Set),
        ];
        let std = [warm.clone(), vec![ox(RT, "d", DIRECTORY, 0, ALL_RIGHTS, Some(6)), Op::Renumber(s(6), F::N(0)), ox(RT, "f", 0, APPEND, R_READ, Some(7)), Op::Renumber(s(7), F::N(1)), ox(RT, "f", 0, APPEND, R_READ, Some(6))]].concat();
        let a = full(c);
        let d = drv(&format!("descriptors-{}", cfg.name), &[*cfg], rep(&a, if i == 0 && th { 4 } else { 3 })).uni(&["f", "l", "d", "h", "n"]);
        v.push(d.clone().warm(warm).no_restart());
        let mut e = d.warm(std);
        e.name = format!("standard-numbers-{}", cfg.name);
        if !th && i > 0 {
            e.layers.truncate(2);
        }
        e.layers.truncate(3);
        v.push(e);
    }
    v
}

fn mounted(th: bool) -> Vec<Driver> {
    let p64 = 65536u64;
    let a = vec![
        mount("f", 0, Pol::Explicit(40)), mount("f", 0, Pol::Explicit(p64 + 9)), mount("f", 0, Pol::PrevZero), mount("f", 0, Pol::PrevPages), mount("f", 0, Pol::Pages), mount("h", 1, Pol::PrevPages), mount("m", 1, Pol::Explicit(60)), un("f"), un("l"), un("m"), un("h"), Op::Init("f".into()), Op::Init("m".into()), Op::Store("f".into()), Op::Store("m".into()),
        w("f", vec![Op::SetATime(s(90), 400), Op::SetMTime(s(90), 500)]), w("f", vec![Op::SetMeta(s(90), MetaChange::Times(6, 7, 8))]), w("m", vec![Op::SetMTime(s(90), 600)]), w("f", vec![Op::SetLimit(s(90), 300_000)]), w("m", vec![Op::SetLimit(s(90), 100)]), w("f", vec![Op::SetMeta(s(90), MetaChange::Limit(None))]),
        put("f", 0, 30), put("f", 35, 10), put("m", 90, 5), put("f", p64 - 3, 9), put("h", 0, 5000), Op::Seq(vec![open("f", 0, 90), Op::SetSize(s(90), 20), Op::Close(s(90))]), w("f", vec![Op::SetSize(s(90), 2 * p64 + 1)]), w("m", vec![Op::SetSize(s(90), 0)]), ox(RT, "f", TRUNC, 0, ALL_RIGHTS, None),
        Op::Write(s(0), 12), Op::Read(s(0), 100_000), open("f", 0, 0), Op::Close(s(0)),
        Op::MemWrite { m: 0, off: 10, len: 100 }, Op::MemWrite { m: 1, off: p64 - 1, len: 4 }, Op::MemGrow { m: 0, pages: 1 },
        link("f", "l"), link("m", "l"), rm("f"), rm("l"), rename("f", "n"), rename("n", "f"), rename("h", "l"), Op::Restart, Op::ChunkType(1),
    ];
    let mut v = vec![];
    for (i, cfg) in [V2_4K, TRANS, V1, V2_16K].iter().enumerate() {
        if i == 3 && !th {
            continue;
        }
        let base = vec![put("f", 0, 5000), put("h", 0, 20), put("m", 0, 50), mount("m", 1, Pol::Explicit(90)), w("m", vec![Op::SetMTime(s(90), 900)])];
        let again = [base.clone(), vec![un("m"), mount("f", 0, Pol::Explicit(7000)), put("f", 6000, 9), w("f", vec![Op::SetATime(s(90), 400), Op::SetMTime(s(90), 500)]), un("f"), link("f", "l")]].concat();
        let setups = vec![setup("first", base[..3].to_vec(), vec![base[3].clone(), base[4].clone()]), setup("again", again, vec![])];
        let d = drv(&format!("mounted-{}", cfg.name), &[*cfg], rep(&a, if i == 0 && th { 4 } else { 3 })).mems(2).uni(&["f", "l", "m", "h", "n"]);
        let mut d = d.setups(setups);
        d.restart = i == 0;
        v.push(d);
    }
    v
}

/// names that look special but are not
pub const ODD: &[&str] = &[
    ".1", "..1", "...", "....", ".a", "a.", "a..", "1", "0", "-", "-1", " ", "  a", "a ", "a b", "\t", "\n", "\u{1}", "a\u{0}", "\\", "a\\b", "~", "*", "?", ":", "a:b", "%2e", "%2F", "#", "$", "@", "A", "CON", "\u{e9}", "e\u{301}", "\u{1F4BE}", "\u{feff}", "\u{202e}x", "lost+found", ".hidden", ".tmp", "0000000000", "4294967295", "x.tmp", ".wasi", "~a", "a~",
];

fn odd_names(th: bool) -> Vec<Driver> {
    let l255 = "n".repeat(255);
    let u254 = "\u{e9}".repeat(127);
    let mut names: Vec<&str> = ODD.to_vec();
    names.extend([l255.as_str(), u254.as_str()]);
    let j = |a: &str, b: &str| format!("{a}/{b}");
    let mut a = vec![];
    for n in &names {
        a.push(put(n, 0, 5));
        a.push(mkdir(n));
        a.push(Op::Seq(vec![put(&j("d", n), 0, 5)]));
        a.push(Op::Seq(vec![mkdir(&j("d", n)), put(&format!("d/{n}/x"), 0, 9), put(&format!("d/{n}/{n}"), 0, 9)]));
        a.push(Op::Seq(vec![mkdir(n), mkdir(&j(n, n)), put(&format!("{n}/{n}/{n}"), 0, 9)]));
        a.push(rename("a", n));
        a.push(link("a", n));
        a.push(rename("d", n));
        a.push(Op::Seq(vec![touch(n), rename(n, "z")]));
        a.push(Op::Seq(vec![touch(n), rename("a", n)]));
        a.push(Op::Seq(vec![mkdir(n), rmdir(n)]));
        a.push(Op::Seq(vec![touch(n), rm(n)]));
        a.push(ox(RT, n, CREATE | EXCL, 0, ALL_RIGHTS, None));
        a.push(ox(s(0), n, CREATE, 0, ALL_RIGHTS, None));
        a.push(Op::Mkdir { d: s(0), p: n.to_string(), t: 2 });
        a.push(Op::Seq(vec![put(n, 0, 5), mount(n, 0, Pol::Explicit(9)), un(n)]));
        a.push(Op::OpenMeta { d: RT, p: n.to_string() });
    }
    let b = vec![rmrec("d"), rmrec("."), rmrec("z"), rmdir("d"), Op::List(RT, None, 0), Op::Page(s(0), None, 1), Op::Entry(RT, 3), Op::Restart, rename("d", "e"), touch("x"), rm("a"), rmrec("d/.1"), rmrec(".1"), rmrec("0"), rmdir(".hidden"), rm(" "), rm("0"), rename("0", "-")];
    let warm = vec![put("a", 0, 7), mkdir("d"), touch("d/a"), ox(RT, "d", DIRECTORY, 0, ALL_RIGHTS, Some(0))];
    let mut uni: Vec<String> = names.iter().map(|n| n.to_string()).collect();
    uni.extend(["a", "d", "d/a", "z", "e", "e/a", "x", "n", "nn", "aa", "d/.1/x", "d/.1"].map(String::from));
    let u: Vec<&str> = uni.iter().map(|x| x.as_str()).collect();
    let mut v = vec![];
    for (i, cfg) in [V2_4K, TRANS, V1].iter().enumerate() {
        let layers = if th { vec![a.clone(), b.clone(), b.clone()] } else if i < 2 { vec![a.clone(), b.clone()] } else { vec![a.clone()] };
        v.push(drv(&format!("names-{}", cfg.name), &[*cfg], layers).mems(1).warm(warm.clone()).uni(&u));
    }
    v
}

/// every combination of flags on every kind of path
fn flags(th: bool) -> Vec<Driver> {
    let mut a = vec![];
    let paths = ["", ".", "./", "..", "/", "d", "d/", "d/.", "d/..", "d/../d", "f", "./f", "f/", "f/.", "f/x", "zz", "zz/", "d/zz", "zz/y", "m", "l", "d/../f"];
    for p in paths {
        for of in 0..16u16 {
            for (ff, r, slot) in [(0, ALL_RIGHTS, Some(6)), (APPEND, R_READ, Some(6)), (0, R_WRITE, None)] {
                a.push(ox(RT, p, of, ff, r, slot));
            }
            a.push(ox(s(2), p, of, 0, ALL_RIGHTS, None));
        }
        for d in [s(0), F::N(1), F::N(77)] {
            a.push(ox(d, p, CREATE, 0, ALL_RIGHTS, None));
            a.push(ox(d, p, 0, 0, ALL_RIGHTS, None));
        }
    }
    let then = vec![Op::Write(s(6), 3), Op::SetSize(s(6), 2), Op::List(s(6), None, 0), Op::Read(s(6), 9), Op::SetMTime(s(6), 3), touch("d/zz"), rmdir("d"), Op::Restart];
    let mut v = vec![];
    for (i, cfg) in [V2_4K, TRANS, V1].iter().enumerate() {
        let warm = vec![put("f", 0, 5000), link("f", "l"), mkdir("d"), put("m", 0, 9), mount("m", 0, Pol::Explicit(30)), open("f", 0, 0), ox(RT, "d", 0, 0, ALL_RIGHTS, Some(2))];
        let layers = if i == 0 || th { vec![a.clone(), then.clone()] } else { vec![a.clone()] };
        v.push(drv(&format!("flags-{}", cfg.name), &[*cfg], layers).mems(1).warm(warm).uni(&["f", "l", "d", "zz", "d/zz", "d/f", "d/d", "zz/y", "m"]));
    }
    v
}

/// several attributes in one call
fn attributes(th: bool) -> Vec<Driver> {
    let mut v = vec![];
    for (i, cfg) in [V2_4K, TRANS, V1].iter().enumerate() {
        let c = chunk_of(cfg);
        let mut a = vec![];
        for p in ["f", "h", "m", "d", ""] {
            for size in [None, Some(0), Some(3), Some(c + 5), Some(20 * c), Some(MAX_FILE_SIZE + 1)] {
                for limit in [None, Some(None), Some(Some(2)), Some(Some(c)), Some(Some(9 * c)), Some(Some(u64::MAX))] {
                    for (node, ty) in [(false, false), (true, false), (false, true), (true, true)] {
                        for times in [false, true] {
                            if (p == "d" || p.is_empty()) && times && node {
                                continue;
                            }
                            a.push(w(p, vec![Op::SetMeta(s(90), MetaChange::Combo { node, ty, size, limit, times })]));
                        }
                    }
                }
            }
        }
        let then = vec![put("f", c, 9), put("h", 0, 5), put("m", 0, 200), w("f", vec![Op::SetSize(s(90), 3 * c)]), Op::Restart, un("m"), rm("f")];
        let warm = vec![put("f", 0, 3 * c as u32 + 9), put("h", 0, 50), w("h", vec![Op::SetLimit(s(90), c)]), put("m", 0, 9), mount("m", 0, Pol::Explicit(2 * c + 30)), mkdir("d")];
        let layers = if th || i == 0 { vec![a, then] } else { vec![a] };
        v.push(drv(&format!("attributes-{}", cfg.name), &[*cfg], layers).mems(1).setups(vec![setup("warm", vec![], warm.clone()), setup("cold", warm[..3].to_vec(), warm[3..].to_vec())]).uni(&["f", "h", "m", "d"]));
    }
    v
}

/// large transfers and sizes; many buffers
fn scale(th: bool) -> Vec<Driver> {
    let m = 1u64 << 20;
    let mut v = vec![];
    for cfg in [V2_4K, V1, TRANS, V2_16K, V2_64K] {
        let c = chunk_of(&cfg);
        let a = vec![
            Op::PWriteV(s(0), vec![m as u32 + 10], 0), Op::PWriteV(s(0), vec![3 * m as u32 + 77], 5), Op::Write(s(0), 2 * m as u32 + 1), Op::PWriteV(s(0), vec![100], 1030 * c + 3), Op::WriteV(s(0), vec![m as u32, 1, 0, m as u32 + 3]), Op::WriteV(s(0), vec![7; 1100]), Op::PWriteV(s(0), vec![3; 2050], m - 7), Op::PWriteV(s(0), vec![c as u32 * 2 + 1; 40], c / 2), Op::PReadV(s(0), vec![9; 1100], 3), Op::ReadV(s(0), vec![100, m as u32, 1]), Op::PReadV(s(0), vec![4 * m as u32], 0),
            Op::PWriteV(s(0), vec![1300 * c.min(4096) as u32], 0), Op::PWriteV(s(0), vec![100, c as u32], 20 * c - 100), Op::SetSize(s(0), m), Op::SetSize(s(0), m + 1), Op::SetSize(s(0), 0), Op::SetSize(s(0), 200 * c + 5), Op::SetSize(s(0), 1100 * c), Op::SetSize(s(0), 5 * m), Op::SetLimit(s(0), m + 5), ox(RT, "f", TRUNC, 0, ALL_RIGHTS, None), put("g", 0, 2 * m as u32 + 5),
            Op::Seek(s(0), m as i64 - 3, Wh::Set), rm("f"), Op::SetStat(s(0), APPEND, ALL_RIGHTS),
        ];
        let two = th || cfg.name == "v2-4k";
        v.push(drv(&format!("scale-{}", cfg.name), &[cfg], rep(&a, if two { 3 } else { 2 })).warm(vec![open("f", CREATE, 0)]).uni(&["f", "g"]).no_restart());
        let b = vec![
            Op::PWriteV(s(1), vec![m as u32 + 10], 0), Op::PWriteV(s(1), vec![3 * m as u32 + 77], 65_531), Op::Write(s(1), 2 * m as u32 + 1), Op::WriteV(s(1), vec![7; 1100]), Op::PWriteV(s(1), vec![10], 40 * 65_536 - 5), Op::PReadV(s(1), vec![4 * m as u32], 0), Op::ReadV(s(1), vec![100, m as u32 + 3, 1]), Op::SetSize(s(1), 2 * m + 3), Op::SetSize(s(1), 7), Op::SetLimit(s(1), m + 5), Op::Store("m".into()), Op::Init("m".into()), un("m"), mount("m", 0, Pol::PrevPages), mount("m", 0, Pol::PrevZero), mount("m", 0, Pol::Explicit(2 * m + 9)), mount("g", 1, Pol::PrevZero), Op::Init("g".into()), Op::MemWrite { m: 0, off: 0, len: 2 * m as u32 + 50 }, Op::MemWrite { m: 0, off: m - 5, len: 10 },
        ];
        v.push(drv(&format!("scale-mounted-{}", cfg.name), &[cfg], rep(&b, if two { 3 } else { 2 })).mems(2).warm(vec![put("m", 0, 9), mount("m", 0, Pol::Explicit(30)), put("g", 0, 2 * m as u32 + 77), open("m", 0, 1)]).uni(&["m", "g"]).no_restart());
    }
    v
}

/// a number of things, and one more
fn numbers(th: bool) -> Vec<Driver> {
    let ks: Vec<u32> = if th { (1..=300).collect() } else { (1..=34).chain([47, 48, 49, 50, 62, 63, 64, 65, 97, 98, 99, 100, 101, 126, 127, 128, 129, 254, 255, 256, 257]).collect() };
    let slots = |k: u32| -> Vec<Op> { (0..k.min(200)).map(|i| ox(RT, &format!("p{}", i % 3), CREATE, 0, ALL_RIGHTS, Some(i as u8))).collect() };
    let mut setups = vec![];
    for &k in &ks {
        setups.push(setup(&format!("files-{k}"), vec![], vec![mkdir("d"), touch("f"), Op::FillFiles { d: RT, prefix: "n".into(), n: k }]));
        setups.push(setup(&format!("links-{k}"), vec![], [vec![mkdir("d"), put("f", 0, 9)], (0..k).map(|i| link("f", &format!("n{i}"))).collect()].concat()));
        setups.push(setup(&format!("dirs-{k}"), vec![], [vec![mkdir("d"), put("f", 0, 9)], (0..k).map(|i| mkdir(&format!("n{i}"))).collect()].concat()));
        setups.push(setup(&format!("gone-{k}"), vec![], vec![mkdir("d"), touch("f"), Op::FillFiles { d: RT, prefix: "n".into(), n: k }, Op::RmFiles { d: RT, prefix: "n".into(), from: 0, to: k }]));
        setups.push(setup(&format!("moved-{k}"), vec![], [vec![mkdir("d"), touch("f")], (0..k).flat_map(|_| [rename("f", "d/f"), rename("d/f", "f")]).collect()].concat()));
        setups.push(setup(&format!("rewritten-{k}"), vec![], [vec![mkdir("d")], (0..k).flat_map(|_| [put("f", 0, 5000), rm("f")]).collect(), vec![touch("f")]].concat()));
        if k <= 200 {
            setups.push(setup(&format!("open-{k}"), vec![], [vec![mkdir("d"), touch("f")], slots(k)].concat()));
        }
    }
    let a = vec![touch("x"), mkdir("y"), put("f", 3, 9000), link("f", "x"), rename("f", "n0"), rename("n0", "x"), rm("n0"), rmdir("n0"), rmdir("n3"), rm("f"), put("n1", 0, 5), Op::Restart, Op::List(RT, None, 0), Op::Page(RT, None, 3), rmrec("."), rmrec("n5"), Op::Close(s(0)), Op::Close(s(11)), open("f", 0, 250), Op::Write(s(0), 5), Op::Renumber(s(0), s(7)), rename("n1", "d/n1")];
    let mut v = vec![drv("numbers-v2-4k", &[V2_4K], vec![a.clone(), vec![touch("y"), mkdir("n2"), rm("n1"), open("x", CREATE, 251), Op::Restart, Op::List(RT, None, 0), put("f", 0, 9)]]).setups(setups.clone()).uni(&["f", "x", "y", "n0", "n1", "n2", "n3", "d", "d/n1"])];
    if !th {
        v[0].layers.truncate(1);
    }
    v.push(drv("numbers-transient", &[TRANS], vec![a]).setups(if th { setups } else { setups.into_iter().filter(|x| ["-1", "-7", "-8", "-16", "-17", "-64", "-100", "-128"].iter().any(|e| x.name.ends_with(e))).collect() }).uni(&["f", "x", "y", "n0", "n1", "n2", "n3", "d", "d/n1"]));
    for d in v.iter_mut() {
        d.full_limit = 60;
    }
    v
}

/// for the properties that compare a run with the same run in which the storage was re-opened
fn upgrade_numbers(th: bool) -> Vec<Driver> {
    let ks: Vec<u32> = (1..=if th { 300 } else { 66 }).chain([96, 97, 98, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001]).collect();
    let mut a = vec![];
    for &k in &ks {
        a.push(Op::FillFiles { d: RT, prefix: "n".into(), n: k });
        a.push(Op::Seq((0..k.min(130)).map(|i| put("f", i as u64 * 4096, 10)).collect()));
        if k <= 130 {
            a.push(Op::Seq((0..k).map(|i| mkdir(&format!("n{i}"))).collect()));
            a.push(Op::Seq((0..k).flat_map(|_| [put("g", 0, 5000), rm("g")]).collect()));
            a.push(Op::Seq([vec![touch("f")], (0..k).map(|i| link("f", &format!("n{i}"))).collect()].concat()));
            a.push(Op::Seq([vec![touch("f")], (0..k).flat_map(|i| [rename("f", &format!("n{i}")), rename(&format!("n{i}"), "f")]).collect()].concat()));
        }
    }
    let b = vec![touch("x"), mkdir("y"), put("f", 5000, 9), link("f", "z"), rm("n0"), rmdir("n0"), rename("f", "n1"), trunc("f"), rmrec("n2"), Op::FillFiles { d: RT, prefix: "m".into(), n: 17 }];
    let mut v = vec![];
    for (i, cfg) in [V2_4K, V1].iter().enumerate() {
        let l = if th && i == 0 { vec![a.clone(), b.clone(), b.clone()] } else { vec![a.clone(), b.clone()] };
        let mut d = drv(&format!("theme-numbers-{}", cfg.name), &[*cfg], l).mode(Mode::Upgrade).uni(&["f", "x", "y", "z", "n0", "n1", "n2", "m0", "m16"]).mask(ALL).full(60);
        if i > 0 && !th {
            d.layers.truncate(1);
        }
        v.push(d);
    }
    v
}

fn trunc(p: &str) -> Op {
    Op::Open { d: RT, p: p.into(), of: TRUNC, ff: 0, rights: ALL_RIGHTS, t: 1, slot: None }
}

/// the same alphabets, run on every storage and compared
fn backends(th: bool) -> Vec<Driver> {
    let all = [V2_4K, TRANS, V1, V2_64K];
    let mut v = vec![];
    for d in [descriptors(false), mounted(false), odd_names(false), flags(false), attributes(false), scale(false), numbers(false)].into_iter().flatten() {
        if !d.cfgs.iter().any(|c| c.name == "v2-4k") {
            continue;
        }
        let mut d = d.mode(Mode::Backends { codes: true }).mask(classes(&[Class::Other]));
        d.name = format!("theme-{}", d.name.trim_end_matches("-v2-4k"));
        d.cfgs = if d.layers.len() > 2 && !th { vec![V2_4K, TRANS] } else { all.to_vec() };
        let long = d.layers.len() > 2;
        for l in d.layers.iter_mut() {
            *l = std::sync::Arc::new(l.iter().filter(|o| !matches!(o, Op::Restart | Op::ChunkType(_))).cloned().collect());
        }
        if long && !th {
            d.layers.truncate(2);
        }
        for s in d.setups.iter_mut() {
            let cold = std::mem::take(&mut s.cold);
            s.warm = [cold, std::mem::take(&mut s.warm)].concat();
        }
        v.push(d);
    }
    v
}

pub fn themes(id: &str, th: bool) -> Vec<Driver> {
    if id == "C04" {
        return upgrade_numbers(th);
    }
    if id == "C19" {
        return backends(th);
    }
    let mut v = vec![];
    let mut take = |d: Vec<Driver>| v.extend(d.into_iter().filter_map(|d| fit(id, d)));
    if ["C09", "C10", "C11", "C12", "C22", "C26", "C28"].contains(&id) {
        take(descriptors(th));
    }
    if ["C07", "C13", "C14", "C15", "C20"].contains(&id) {
        take(mounted(th));
    }
    if ["C05", "C06", "C08", "C16", "C17", "C22", "C24"].contains(&id) {
        take(odd_names(th));
    }
    if ["C05", "C06", "C09", "C12", "C22", "C28"].contains(&id) {
        take(flags(th));
    }
    if ["C09", "C13", "C20", "C22", "C28", "C02"].contains(&id) {
        take(attributes(th));
    }
    if ["C01", "C02", "C03", "C13", "C14", "C15", "C16", "C22"].contains(&id) {
        let d = scale(th);
        let mounted = ["C14", "C15"].contains(&id);
        let plain = ["C01", "C02", "C16"].contains(&id);
        take(d.into_iter().filter(|d| if mounted { d.name.contains("mounted") } else if plain { !d.name.contains("mounted") } else { true }).collect());
    }
    if ["C05", "C07", "C08", "C10", "C16", "C17", "C22", "C24"].contains(&id) {
        take(numbers(th));
    }
    v
}
