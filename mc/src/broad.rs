//! One wide alphabet with every call of the interface, in ordinary and unusual forms, from starting
//! states that hold a bit of everything. Each property explores the histories in which its own
//! operations meet all the others.
use crate::drivers::*;
use crate::engine::*;
use crate::ops::*;
use crate::real::*;

const RT: F = F::Root;
fn s(n: u8) -> F {
    F::S(n)
}
fn open_at(d: F, p: &str, of: u16) -> Op {
    Op::Open { d, p: p.into(), of, ff: 0, rights: ALL_RIGHTS, t: 7, slot: None }
}
fn w(p: &str, o: Op) -> Op {
    Op::Seq(vec![open(p, 0, 90), o, Op::Close(s(90))])
}
/// the same through a descriptor opened for a directory
fn wd(p: &str, o: Op) -> Op {
    w(p, o)
}

/// what the starting states hold
pub fn tree(chunk: u64, mounted: bool) -> Vec<Op> {
    let c = chunk;
    let mut v = vec![
        mkdir("d"),
        mkdir("d/e"),
        mkdir("q"),
        put("f", 0, 2 * c as u32 + 300),
        link("f", "l"),
        put("d/g", c + 10, 5000),
        touch("h"),
        touch("d/e/k"),
        put("o", 0, 77),
    ];
    if mounted {
        v.push(put("m", 0, 50));
        v.push(mount("m", 0, Pol::Explicit(100)));
    }
    v
}

/// the same names again, with everything about them being less ordinary
pub fn varied(chunk: u64) -> Vec<Op> {
    let c = chunk;
    let times = |p: &str, a: u64, m: u64| w(p, Op::Seq(vec![Op::SetATime(s(90), a), Op::SetMTime(s(90), m)]));
    vec![
        put("big", 0, 6 * c as u32),
        mkdir("gone"),
        mkdir("d"),
        mkdir("q"),
        touch("q/gone"),
        Op::ChunkType(1),
        put("o", 0, 77),
        Op::ChunkType(2),
        put("x0", 0, 10),
        put("f", 3 * c + 100, 300),
        put("f", 5, 20),
        link("f", "l"),
        link("f", "d/l3"),
        mkdir("d/e"),
        put("d/g", 9 * c + 4000, 300),
        rm("big"),
        rmdir("gone"),
        rm("q/gone"),
        touch("h"),
        put("h", 2 * c, 10),
        open_at(RT, "h", TRUNC),
        put("d/e/k", 0, 3),
        rename("x0", "d/e/x0"),
        put("m", 0, 50),
        link("m", "d/m2"),
        mount("m", 0, Pol::Explicit(100)),
        put("m", 3, 60),
        Op::Unmount("m".into()),
        times("f", 5, 50),
        times("h", 50, 5),
        times("d", 8, 80),
        times("o", u64::MAX, 3),
        w("f", Op::SetLimit(s(90), 4 * c)),
        w("h", Op::SetLimit(s(90), 3 * c)),
        w("d/g", Op::SetLimit(s(90), 10 * c + 300)),
    ]
}

pub fn descriptors(mounted: bool) -> Vec<Op> {
    let o = |p: &str, ff: u16, rights: u64, slot: u8| Op::Open { d: RT, p: p.into(), of: 0, ff, rights, t: 1, slot: Some(slot) };
    let mut v = vec![o("f", 0, ALL_RIGHTS, 0), o("l", APPEND, ALL_RIGHTS, 1), o("d", 0, ALL_RIGHTS, 2), o("f", 0, R_READ, 3), o("h", 0, ALL_RIGHTS, 4)];
    if mounted {
        v.push(o("m", 0, ALL_RIGHTS, 5));
    }
    v.push(Op::Seek(s(0), 20, Wh::Set));
    v
}

pub const UNI: &[&str] = &[
    "f", "l", "h", "o", "m", "n", "d", "d/g", "d/e", "d/e/k", "q", "d/n", "d/x", "d/nd", "nd", "nd/nd2", "n1", "n1/n2", "n1/n2/n", "q/n", "g", "e", "e/k", "d/f", "d/h", "f/x", "l2", "d/e/h", "d/../f", "./d/e/../g", "/f", "../f",
];

pub fn alphabet(chunk: u64) -> Vec<Op> {
    let c = chunk;
    let l256 = "n".repeat(256);
    let l255 = "n".repeat(255);
    let mut v: Vec<Op> = vec![];
    // opening
    for p in ["f", "n", "d/n", "n1/n2/n", "f/x", "q", "./d/../f", "/f", "../f", "", "zz/../f", "m", "d/./g"] {
        v.push(open_at(RT, p, CREATE));
    }
    for p in ["zz", "f", "d", "m", &l256, "f/x", "d/zz", "x/../zz"] {
        v.push(open_at(RT, p, 0));
    }
    for (p, of) in [
        ("f", CREATE | EXCL), ("n", CREATE | EXCL), ("f", DIRECTORY), ("d", DIRECTORY), ("d", TRUNC), ("f", TRUNC), ("m", TRUNC), ("h", TRUNC), ("d/g", TRUNC), ("q", CREATE | DIRECTORY), ("nd", CREATE | DIRECTORY), ("f", DIRECTORY | TRUNC), ("f", CREATE | EXCL | TRUNC),
        ("d", CREATE), ("d", CREATE | EXCL), ("f", CREATE | DIRECTORY), ("o", CREATE | TRUNC), ("zz", TRUNC),
    ] {
        v.push(open_at(RT, p, of));
    }
    v.push(open_at(RT, &l256, CREATE));
    v.push(open_at(RT, &l255, CREATE));
    v.push(open_at(RT, &format!("n1/{l256}"), CREATE));
    v.push(open_at(RT, &format!("{l256}/x"), CREATE));
    for p in ["g", "../f", "e/../g", "x", "e/k", ""] {
        v.push(open_at(s(2), p, CREATE));
    }
    v.push(open_at(s(0), "x", CREATE));
    v.push(open("f", 0, 6));
    v.push(open("m", 0, 6));
    v.push(Op::Open { d: RT, p: "f".into(), of: 0, ff: 0, rights: R_WRITE, t: 1, slot: Some(6) });
    v.push(Op::Open { d: RT, p: "h".into(), of: CREATE, ff: APPEND, rights: R_READ | R_WRITE, t: 1, slot: Some(6) });
    v.push(Op::Open { d: RT, p: "d/e".into(), of: 0, ff: 0, rights: ALL_RIGHTS, t: 1, slot: Some(6) });
    v.push(Op::OpenDir { d: RT, p: "nd".into(), t: 8, slot: Some(6) });
    v.push(Op::OpenDir { d: s(2), p: "nd".into(), t: 8, slot: None });
    // directories
    for p in ["nd", "d", "f", "d/nd", "nd/nd2", "f/x", "", "..", "d/../nd", "/nd", "d/e/k"] {
        v.push(mkdir(p));
    }
    v.push(mkdir(&format!("nd/{l256}")));
    v.push(Op::Mkdir { d: s(2), p: "nd".into(), t: 9 });
    // removing
    for p in ["f", "l", "h", "o", "d", "d/g", "d/e/k", "zz", "m", "f/x", "", ".", "./h", "d/../o", "/h", "../h", "q", &l256] {
        v.push(rm(p));
    }
    for p in ["d", "q", "d/e", "f", "zz", "", "d/e/.", "/q", &l256, "f/x"] {
        v.push(rmdir(p));
    }
    for p in ["d", "f", "o", "q", "zz", "", "m", "d/e", "f/x", &l256, "l"] {
        v.push(rmrec(p));
    }
    v.push(Op::RmFile { d: s(2), p: "g".into() });
    v.push(Op::RmDir { d: s(2), p: "e".into() });
    v.push(Op::RmRec { d: s(2), p: "e".into() });
    v.push(Op::RmFile { d: s(0), p: "".into() });
    // links
    for (a, b) in [
        ("f", "n"), ("f", "d/n"), ("f", "h"), ("f", "f/x"), ("f", "g/x"), ("h", "f/x"), ("d", "n"), ("zz", "n"), ("l", "n"), ("h", "d/e/h"), ("f", "n1/n2/n"), ("m", "n"), ("f", "d"), ("f", "l"), ("f", "f"), ("o", "/n"), ("/o", "n"), ("o", "../n"), ("d/g", "n"), ("d/g", "d/e/k"), ("", "n"), ("o", ""),
        ("q", "nd/n"), ("f/x", "n"), ("d/zz", "n"),
    ] {
        v.push(link(a, b));
    }
    v.push(link("f", &l256));
    v.push(link("f", &format!("n1/{l256}")));
    v.push(link("f", &format!("{l256}/n")));
    v.push(link(&l256, "n"));
    v.push(Op::Link { d: s(2), p: "g".into(), d2: RT, p2: "n".into(), slot: None });
    v.push(Op::Link { d: RT, p: "o".into(), d2: s(2), p2: "n".into(), slot: Some(6) });
    // renaming
    for (a, b) in [
        ("f", "n"), ("f", "l"), ("l", "f"), ("h", "f"), ("f", "h"), ("o", "f"), ("o", "d/g"), ("d/g", "o"), ("d", "n"), ("d", "d/e/x"), ("d", "q"), ("q", "d"), ("d/e", "q"), ("q", "d/e"), ("h", "d"), ("d", "h"), ("d/g", "g"), ("h", "d/h"), ("zz", "n"), ("f", "f/x"), ("o", "f/x"), ("o", "n1/n2/n"), ("zz", "n1/n"),
        ("m", "n"), ("h", "m"), ("d/e", "e"), ("d/e", "d/x"), ("q", "d/e/x"), ("o", "o"), ("o", "./d/../o"), ("o", "/n"), ("", "n"), ("o", ""), ("d/e/k", "o"), ("d/e", "d"), ("o", "zz/.."), ("d", "d/."), ("f/x", "n"),
    ] {
        v.push(rename(a, b));
    }
    v.push(rename(&l256, "n"));
    v.push(rename("o", &l256));
    v.push(rename("o", &format!("n1/{l256}")));
    v.push(Op::Rename { d: s(2), p: "g".into(), d2: RT, p2: "n".into(), slot: None });
    v.push(Op::Rename { d: RT, p: "o".into(), d2: s(2), p2: "g".into(), slot: None });
    v.push(Op::Rename { d: RT, p: "o".into(), d2: s(2), p2: "n".into(), slot: Some(6) });
    // descriptor table
    for f in [s(0), s(1), s(2), s(3), s(4), s(6), F::N(0), F::N(1), F::N(2), RT, F::N(77), F::N(u32::MAX)] {
        v.push(Op::Close(f));
    }
    for (a, b) in [(s(0), s(1)), (s(0), F::N(1)), (s(4), F::N(0)), (s(2), RT), (s(0), F::N(9)), (F::N(77), s(0)), (s(0), s(0)), (s(2), s(0)), (s(4), F::N(2)), (F::N(9), F::N(30)), (RT, F::N(12)), (s(3), s(4)), (F::N(1), F::N(11))] {
        v.push(Op::Renumber(a, b));
    }
    v.extend([Op::Flush(s(0)), Op::Flush(s(2)), Op::Flush(F::N(77))]);
    for f in [s(0), s(1), s(2), s(3), s(6), F::N(1), F::N(77)] {
        v.push(Op::GetStat(f));
    }
    for (f, a, r) in [(s(0), APPEND, ALL_RIGHTS), (s(1), 0, ALL_RIGHTS), (s(0), 0, R_READ), (s(3), 0, ALL_RIGHTS), (s(2), APPEND, ALL_RIGHTS), (s(0), 0, R_WRITE), (F::N(77), 0, 0)] {
        v.push(Op::SetStat(f, a, r));
    }
    // data, through descriptors
    let l = c as u32;
    v.extend([
        Op::Read(s(0), 100), Op::Read(s(0), 0), Op::Read(s(3), 5000), Op::Read(s(1), 3), Op::Read(s(2), 3), Op::Read(s(6), 9), Op::ReadV(s(0), vec![5, 0, l]), Op::Write(s(0), 10), Op::Write(s(0), l + 1), Op::Write(s(0), 0), Op::Write(s(1), 7), Op::Write(s(3), 4), Op::Write(s(4), 3 * l), Op::Write(s(6), 11), Op::Write(s(2), 5),
        Op::WriteV(s(0), vec![3, l]), Op::WriteV(s(0), vec![]), Op::WriteV(s(1), vec![2, 0, 4096]), Op::ReadV(s(0), vec![]), Op::PReadV(s(0), vec![4 * l], 0), Op::PReadV(s(0), vec![10], c - 5), Op::PReadV(s(0), vec![10, 20], 2 * c + 290), Op::PReadV(s(0), vec![5], 1 << 33), Op::PReadV(s(0), vec![5], u64::MAX - 2), Op::PReadV(s(1), vec![9], 3), Op::PReadV(s(4), vec![9], 0),
        Op::PWriteV(s(0), vec![10], 0), Op::PWriteV(s(0), vec![10], c - 4), Op::PWriteV(s(0), vec![l], 2 * c + 100), Op::PWriteV(s(0), vec![5, 6], 4 * c + 7), Op::PWriteV(s(0), vec![5], 1 << 33), Op::PWriteV(s(0), vec![2], MAX_FILE_SIZE - 1), Op::PWriteV(s(0), vec![5], u64::MAX - 2), Op::PWriteV(s(0), vec![0], 3 * c), Op::PWriteV(s(1), vec![6], 2), Op::PWriteV(s(3), vec![6], 2), Op::PWriteV(s(4), vec![6], 2 * c + 9),
        Op::Write(s(5), 70_000), Op::PWriteV(s(5), vec![9], 90), Op::PWriteV(s(5), vec![9], 65_530), Op::PReadV(s(5), vec![200], 0), Op::Read(s(5), 30), Op::SetSize(s(5), 10), Op::SetSize(s(5), 66_000), Op::Seek(s(5), -3, Wh::End), Op::SetLimit(s(5), 101),
    ]);
    for (d, wh) in [(0, Wh::Set), (5000, Wh::Set), (-1, Wh::Set), (i64::MAX, Wh::Set), (3, Wh::Cur), (-3, Wh::Cur), (-100, Wh::Cur), (i64::MIN, Wh::Cur), (0, Wh::End), (-3, Wh::End), (1, Wh::End), (-1_000_000, Wh::End)] {
        v.push(Op::Seek(s(0), d, wh));
    }
    v.extend([Op::Tell(s(0)), Op::Tell(s(2)), Op::Seek(s(1), 4, Wh::Set), Op::Seek(s(2), 0, Wh::Set), Op::Tell(F::N(77))]);
    // data, through fresh descriptors
    for (p, off, len) in [("f", 0, 9), ("f", c - 1, 2), ("f", 3 * c, l), ("l", 100, l), ("h", 0, 10), ("h", c + 5, 2 * l), ("o", 70, 20), ("o", 0, 2 * l + 9), ("o", 2 * c - 1, 1), ("d/g", 0, 3), ("d/g", c + 5000, 8), ("m", 95, 20), ("n", 0, l + 3), ("n", 5 * c, 5), ("d/n", 0, 1)] {
        v.push(put(p, off, len));
    }
    // sizes
    for (p, n) in [("f", 0), ("f", 1), ("f", c - 1), ("f", c), ("f", c + 100), ("f", 2 * c + 299), ("f", 2 * c + 301), ("f", 5 * c), ("f", MAX_FILE_SIZE + 1), ("f", u64::MAX), ("o", 3), ("o", 78), ("o", 4 * c), ("d/g", c), ("d/g", 3), ("d", 1), ("m", 3), ("m", 70_000), ("h", c + 1), ("n", 3 * c)] {
        v.push(w(p, Op::SetSize(s(90), n)));
    }
    v.push(Op::SetSize(s(3), 3));
    v.push(Op::SetSize(s(0), c + 7));
    for (p, n) in [("f", 2 * c + 300), ("f", 2 * c + 310), ("f", 4 * c), ("f", 10), ("f", 0), ("f", u64::MAX), ("o", 77), ("o", 100), ("o", 76), ("d", 5), ("m", 100), ("m", 65_536), ("h", 0), ("h", 2 * c)] {
        v.push(w(p, Op::SetLimit(s(90), n)));
    }
    // attributes
    for p in ["f", "d", "", "o", "m", "d/g"] {
        v.push(wd(p, Op::SetATime(s(90), 5)));
        v.push(wd(p, Op::SetATime(s(90), 1 << 60)));
        v.push(wd(p, Op::SetMTime(s(90), 6)));
        v.push(wd(p, Op::SetMTime(s(90), 1 << 61)));
    }
    for f in [s(0), s(1), s(2), s(3)] {
        v.push(Op::SetATime(f, 1 << 33));
        v.push(Op::SetMTime(f, 44));
    }
    for p in ["f", "d", "m", "o"] {
        for ch in [MetaChange::Same, MetaChange::Node, MetaChange::Type, MetaChange::Times(3, 1 << 40, 2)] {
            v.push(wd(p, Op::SetMeta(s(90), ch)));
        }
    }
    for ch in [MetaChange::Size(5), MetaChange::Size(5 * c), MetaChange::Size(MAX_FILE_SIZE + 1), MetaChange::Limit(Some(4 * c)), MetaChange::Limit(Some(3)), MetaChange::Limit(None)] {
        v.push(w("f", Op::SetMeta(s(90), ch)));
    }
    v.extend([w("m", Op::SetMeta(s(90), MetaChange::Size(3))), w("o", Op::SetMeta(s(90), MetaChange::Size(200)))]);
    for p in ["d", "q", "f", "m", ""] {
        for ch in [MetaChange::Size(0), MetaChange::Size(1), MetaChange::Limit(Some(2)), MetaChange::Links(0), MetaChange::Links(1), MetaChange::Links(9), MetaChange::Layout(None), MetaChange::Layout(Some(1)), MetaChange::Layout(Some(2)), MetaChange::Obsolete(3)] {
            v.push(wd(p, Op::SetMeta(s(90), ch)));
        }
    }
    for f in [s(0), s(2), RT, F::N(77), F::N(1)] {
        v.push(Op::Meta(f));
    }
    for p in ["f", "d", "zz", "f/x", "", "/f", "d/../f", "d/e/../g", "../f", &l256, "m", "x/../o"] {
        v.push(Op::OpenMeta { d: RT, p: p.into() });
    }
    v.push(Op::OpenMeta { d: s(2), p: "e/k".into() });
    v.push(Op::OpenMeta { d: s(0), p: "".into() });
    for (a, b) in [(0, 10), (u64::MAX, u64::MAX), (1 << 40, 1 << 63)] {
        v.push(Op::Advice(s(0), a, b));
        v.push(Op::Allocate(s(0), a, b));
    }
    v.extend([Op::Advice(s(2), 0, 1), Op::Allocate(s(2), 0, 1), Op::Advice(F::N(77), 0, 1)]);
    // listing
    for f in [RT, s(2), s(6), s(0)] {
        v.push(Op::List(f, None, 0));
        v.push(Op::Page(f, None, 1));
        v.push(Op::List(f, Some(2), 1));
        v.push(Op::Entry(f, 1));
        v.push(Op::Entry(f, DOTDOT));
    }
    for st in [0, 1, 3, 9, DOT, DOTDOT, u32::MAX] {
        v.push(Op::List(RT, Some(st), 0));
        v.push(Op::Page(RT, Some(st), 2));
        v.push(Op::Entry(RT, st));
    }
    // mounted files
    for (p, m, pol) in [("h", 1, Pol::Pages), ("o", 1, Pol::PrevPages), ("o", 1, Pol::PrevZero), ("o", 1, Pol::Explicit(70_000)), ("f", 1, Pol::Explicit(20)), ("d", 1, Pol::Pages), ("n", 1, Pol::Pages), ("m", 1, Pol::Pages), ("n1/n", 1, Pol::Explicit(7)), ("f/x", 1, Pol::Pages), ("m", 0, Pol::PrevPages), ("m", 0, Pol::PrevZero), ("m", 0, Pol::Explicit(5)), ("/o", 1, Pol::Explicit(u64::MAX))] {
        v.push(mount(p, m, pol));
    }
    v.push(mount(&l256, 1, Pol::Pages));
    for p in ["m", "o", "h", "d", "zz", "f", "f/x"] {
        v.push(Op::Unmount(p.into()));
        v.push(Op::Init(p.into()));
        v.push(Op::Store(p.into()));
    }
    v.extend([Op::MemWrite { m: 0, off: 90, len: 30 }, Op::MemWrite { m: 0, off: 0, len: 65_536 }, Op::MemWrite { m: 1, off: 5, len: 65_600 }, Op::MemGrow { m: 0, pages: 1 }, Op::MemGrow { m: 1, pages: 2 }]);
    // the rest
    v.extend([Op::Restart, Op::ChunkType(1), Op::ChunkType(2), Op::ChunkSize(4096), Op::ChunkSize(16384)]);
    let mut seen = std::collections::HashSet::new();
    v.retain(|o| seen.insert(o.clone()));
    v
}

/// does any elementary operation satisfy it?
fn any(o: &Op, f: fn(&Op) -> bool) -> bool {
    match o {
        Op::Seq(v) => v.iter().any(|o| !matches!(o, Op::Open { slot: Some(90), .. } | Op::Close(F::S(90))) && any(o, f)),
        o => f(o),
    }
}

fn data_read(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::Read(..) | Op::ReadV(..) | Op::PReadV(..)))
}
fn data_write(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::Write(..) | Op::WriteV(..) | Op::PWriteV(..) | Op::Put { .. }))
}
fn truncates(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::Open { of, .. } if of & TRUNC != 0))
}
fn resize(o: &Op) -> bool {
    truncates(o) || any(o, |o| matches!(o, Op::SetSize(..) | Op::SetMeta(_, MetaChange::Size(_))))
}
fn removal(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::RmFile { .. } | Op::RmDir { .. } | Op::RmRec { .. }))
}
fn renaming(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::Rename { .. }))
}
fn linking(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::Link { .. }))
}
fn creating(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::Open { of, .. } if of & CREATE != 0) || matches!(o, Op::Mkdir { .. } | Op::OpenDir { .. }))
}
fn by_path(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::Open { .. } | Op::Mkdir { .. } | Op::OpenDir { .. } | Op::OpenMeta { .. } | Op::RmFile { .. } | Op::RmDir { .. } | Op::RmRec { .. } | Op::Rename { .. } | Op::Link { .. }))
}
fn naming(o: &Op) -> bool {
    creating(o) || removal(o) || renaming(o) || linking(o)
}
fn table(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::Close(_) | Op::Renumber(..) | Op::Open { slot: Some(_), .. } | Op::OpenDir { slot: Some(_), .. } | Op::Link { slot: Some(_), .. } | Op::Rename { slot: Some(_), .. } | Op::GetStat(_)))
}
fn cursor(o: &Op) -> bool {
    data_read(o) || any(o, |o| matches!(o, Op::Seek(..) | Op::Tell(_) | Op::Write(..) | Op::WriteV(..) | Op::PWriteV(..)))
}
fn rights(o: &Op) -> bool {
    any(o, |o| {
        matches!(o, Op::SetStat(..) | Op::GetStat(_))
            || matches!(o, Op::Read(f, _) | Op::Write(f, _) | Op::SetSize(f, _) if matches!(f, F::S(1) | F::S(3) | F::S(6)))
            || matches!(o, Op::WriteV(f, _) | Op::PWriteV(f, _, _) | Op::PReadV(f, _, _) if matches!(f, F::S(1) | F::S(3) | F::S(6)))
            || matches!(o, Op::Open { slot: Some(6), .. })
    })
}
fn limits(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::SetLimit(..) | Op::SetMeta(_, MetaChange::Limit(_))))
}
fn mounts(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::Mount { .. } | Op::Unmount(_) | Op::Init(_) | Op::Store(_)))
}
fn mount_io(o: &Op) -> bool {
    mounts(o) || any(o, |o| matches!(o, Op::MemWrite { .. } | Op::MemGrow { .. } | Op::Write(F::S(5), _) | Op::PWriteV(F::S(5), _, _) | Op::PReadV(F::S(5), _, _) | Op::Read(F::S(5), _) | Op::SetSize(F::S(5), _))) || any(o, |o| matches!(o, Op::Put { p, .. } if p == "m"))
}
fn listing(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::List(..) | Op::Page(..) | Op::Entry(..)))
}
fn attrs(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::SetATime(..) | Op::SetMTime(..) | Op::SetMeta(..) | Op::Meta(_) | Op::OpenMeta { .. }))
}
fn attrs_or_creating(o: &Op) -> bool {
    attrs(o) || creating(o)
}
fn config(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::ChunkType(_) | Op::ChunkSize(_)))
}
fn config_or_creating(o: &Op) -> bool {
    config(o) || creating(o)
}
fn changing(o: &Op) -> bool {
    !listing(o) && !data_read(o) && any(o, |o| !matches!(o, Op::Restart | Op::Meta(_) | Op::OpenMeta { .. } | Op::GetStat(_) | Op::Tell(_) | Op::Seek(..) | Op::Advice(..) | Op::Allocate(..) | Op::Flush(_) | Op::SetStat(..) | Op::Renumber(..) | Op::Close(_)))
}
fn content(o: &Op) -> bool {
    data_write(o) || resize(o)
}
fn space(o: &Op) -> bool {
    content(o) || naming(o)
}
fn in_use(o: &Op) -> bool {
    removal(o) || renaming(o)
}
fn rec(o: &Op) -> bool {
    any(o, |o| matches!(o, Op::RmRec { .. }))
}
fn sizing_limited(o: &Op) -> bool {
    limits(o)
}
fn everything(_: &Op) -> bool {
    true
}

pub struct Plan {
    pub dom: fn(&Op) -> bool,
    pub mask: u32,
    pub fsck: bool,
    /// three operations, the first and the last (or the last two) of the property's own
    deep: bool,
    /// 0: answers only, 1: the state is observed, 2: and observed again after a re-opening
    pub look: u8,
}

pub fn plan(id: &str) -> Option<Plan> {
    use Class::*;
    let p = |dom: fn(&Op) -> bool, c: &[Class]| Plan { dom, mask: classes(c), fsck: false, deep: true, look: 2 };
    Some(match id {
        "C01" => p(|o| data_write(o) || data_read(o), &[Content, Value, Attr, OkErr, Trap, Persist]),
        "C02" => p(resize, &[Content, Value, Attr, OkErr, Trap, Persist]),
        "C03" => p(content, &[Content, Attr, Mem, Persist]),
        "C05" => Plan { fsck: true, ..p(naming, &[Tree, OkErr, Value, Attr, Trap, Persist, Fsck, Leak]) },
        "C06" => Plan { look: 1, ..p(by_path, &[Tree, OkErr, Value, Trap]) },
        "C07" => Plan { fsck: true, ..p(linking, &[Tree, Times, OkErr, Attr, Content, Value, Persist, Trap, Fsck, Leak]) },
        "C08" => Plan { fsck: true, ..p(renaming, &[Tree, Times, OkErr, Attr, Content, Value, Persist, Trap, Fsck, Leak]) },
        "C09" => Plan { fsck: true, deep: false, ..p(everything, &[Tree, Attr, Content, Value, Fd, Mem, Persist, Fsck, Leak, Times, ChunkType]) },
        "C10" => Plan { look: 1, ..p(table, &[Fd, Value, OkErr, Trap]) },
        "C11" => Plan { look: 1, ..p(cursor, &[Value, Content, OkErr, Trap, Fd]) },
        "C12" => Plan { look: 1, ..p(rights, &[OkErr, Content, Value, Attr, Fd, Trap]) },
        "C13" => p(sizing_limited, &[OkErr, Attr, Content, Value, Mem, Persist, Trap]),
        "C14" => p(mount_io, &[Mem, Content, Value, Attr, OkErr, Trap, Persist]),
        "C15" => p(mounts, &[Mem, Content, Attr, OkErr, Value, Times, Trap, Persist, Fsck, Leak]),
        "C16" => Plan { fsck: true, ..p(space, &[Fsck, Leak]) },
        "C17" => Plan { look: 1, ..p(listing, &[Value, OkErr, Tree, Trap]) },
        "C20" => p(attrs_or_creating, &[Times, Attr, OkErr, Persist]),
        "C22" => Plan { deep: false, look: 1, ..p(everything, &[Trap, Hang]) },
        "C24" => Plan { fsck: true, ..p(rec, &[Tree, OkErr, Attr, Content, Value, Persist, Trap, Fsck, Leak]) },
        "C25" => Plan { fsck: true, ..p(config_or_creating, &[ChunkType, Content, Attr, OkErr, Value, Trap, Persist, Fsck, Leak]) },
        "C26" => Plan { fsck: true, ..p(in_use, &[OkErr, Fd, Tree, Content, Trap, Value]) },
        "C28" => Plan { deep: false, look: 0, ..p(everything, &[Code, OkErr, Trap]) },
        _ => return None,
    })
}

/// classes of mismatch that are about nothing but this property
pub fn core(id: &str) -> u32 {
    use Class::*;
    match id {
        "C20" => classes(&[Times]),
        "C14" | "C15" => classes(&[Mem]),
        "C10" => classes(&[Fd]),
        "C25" => classes(&[ChunkType]),
        "C05" => classes(&[Tree, Fsck]),
        "C16" => classes(&[Fsck, Leak]),
        "C03" => classes(&[Content, Mem]),
        _ => 0,
    }
}

fn chunk_of(c: &Cfg) -> u64 {
    if c.transient || c.ct == 1 {
        4096
    } else {
        c.chunk as u64
    }
}

fn starts(c: u64) -> Vec<Setup> {
    vec![
        setup("busy", tree(c, false), {
            // looked up and used by this instance, with open descriptors and a mounted file
            let mut w: Vec<Op> = ["f", "l", "d/g", "d/e/k", "h", "o", "q"].iter().map(|p| Op::OpenMeta { d: RT, p: p.to_string() }).collect();
            w.extend([put("m", 0, 50), mount("m", 0, Pol::Explicit(100))]);
            w.extend(descriptors(true));
            w.push(Op::PReadV(s(0), vec![40], c - 20));
            w
        }),
        // nothing open and nothing mounted, everything was looked up by an earlier instance only
        setup("idle", tree(c, false), vec![]),
        // the same names with a richer past: more names, unusual times, limits, holes, freed space, older mounts
        setup("varied", varied(c), {
            let mut w = vec![Op::OpenMeta { d: RT, p: "d/e/../g".into() }, mount("m", 0, Pol::PrevZero)];
            w.extend(descriptors(true));
            w.extend([open("o", 0, 7), open("d/e", 0, 8), Op::Close(s(7)), Op::SetStat(s(4), APPEND, ALL_RIGHTS), Op::Seek(s(3), c as i64, Wh::Set)]);
            w
        }),
    ]
}

/// histories of two and three operations, the property's own among all others
pub fn broad(id: &str, th: bool) -> Vec<Driver> {
    if id == "C04" {
        return upgrade(th);
    }
    if id == "C19" {
        return backends(th);
    }
    if id == "C21" {
        return thresholds(th);
    }
    let Some(p) = plan(id) else { return vec![] };
    let mut v = vec![];
    let cfgs: &[Cfg] = &[V2_4K, V1, TRANS, V2_16K];
    for (i, cfg) in cfgs.iter().enumerate() {
        let c = chunk_of(cfg);
        let b = alphabet(c);
        let own: Vec<Op> = b.iter().filter(|o| (p.dom)(o)).cloned().collect();
        let whole = own.len() == b.len();
        let build = |name: String, layers: Vec<Vec<Op>>| {
            let mut d = drv(&name, &[*cfg], layers).mems(2).setups(starts(c)).uni(UNI).mask(p.mask);
            if !whole {
                d.blame = Some(p.dom);
                d.core = core(id);
            }
            if p.fsck {
                d = d.check_image();
            }
            d.mask = p.mask;
            d.restart = p.look > 1;
            d.observe = p.look > 0;
            d
        };
        // classes that are not this property's end a history, apart from the tolerated ones
        if i == 0 || th {
            v.push(build(format!("broad-{}", cfg.name), vec![b.clone(), own.clone()]));
            if !whole {
                v.push(build(format!("broad-then-{}", cfg.name), vec![own.clone(), b.clone()]));
            }
        } else {
            v.push(build(format!("broad-{}", cfg.name), vec![own.clone()]));
            if own.len() < 120 {
                v.push(build(format!("broad-own-{}", cfg.name), vec![own.clone(), own.clone()]));
            }
        }
        if p.deep && th && i < 2 {
            v.push(build(format!("broad-deep-{}", cfg.name), vec![own.clone(), b.clone(), own.clone()]));
            v.push(build(format!("broad-deep2-{}", cfg.name), vec![b.clone(), own.clone(), own.clone()]));
        } else if p.deep && i == 0 && own.len() <= 20 {
            v.push(build(format!("broad-deep-{}", cfg.name), vec![own.clone(), b.clone(), own.clone()]));
        }
    }
    v
}

/// everything that changes something, by path, with a re-opening at every point
fn upgrade(th: bool) -> Vec<Driver> {
    let mut v = vec![];
    for (i, cfg) in [V2_4K, V1, V2_16K].iter().enumerate() {
        let c = chunk_of(cfg);
        // descriptors do not survive: only what is done by path, or through one opened for the purpose
        let slot = |o: &Op| any(o, |o| table(o) || (format!("{o:?}").contains("S(") && !format!("{o:?}").contains("S(90)")));
        let b: Vec<Op> = alphabet(c).into_iter().filter(|o| changing(o) && !slot(o) && !mounts(o) && !config(o)).collect();
        let fresh: Vec<Op> = b.iter().filter(|o| attrs(o) || limits(o) || naming(o)).cloned().collect();
        let setups = vec![setup("idle", tree(c, false), vec![]), setup("warm", vec![], tree(c, false))];
        let layers = if i == 0 || th { vec![b.clone(), b.clone()] } else { vec![b.clone()] };
        v.push(drv(&format!("broad-{}", cfg.name), &[*cfg], layers).mode(Mode::Upgrade).mems(2).setups(setups.clone()).uni(UNI).mask(ALL));
        if th {
            v.push(drv(&format!("broad-deep-{}", cfg.name), &[*cfg], vec![fresh.clone(), fresh.clone(), fresh]).mode(Mode::Upgrade).mems(2).setups(setups[..1].to_vec()).uni(UNI).mask(ALL));
        }
    }
    v
}

/// every call after every change, on all backends
fn backends(th: bool) -> Vec<Driver> {
    let b: Vec<Op> = alphabet(4096).into_iter().filter(|o| !matches!(o, Op::Restart) && !config(o)).collect();
    let own: Vec<Op> = b.iter().filter(|o| changing(o)).cloned().collect();
    let full = [tree(4096, false), vec![put("m", 0, 50), mount("m", 0, Pol::Explicit(100))], descriptors(true)].concat();
    let setups = vec![setup("busy", vec![], full), setup("idle", vec![], tree(4096, false))];
    let m = classes(&[Class::Other]);
    let mut v = vec![];
    let all: &[Cfg] = &[V2_4K, TRANS, V1, V2_64K];
    v.push(drv("broad-1", all, vec![b.clone()]).mode(Mode::Backends { codes: true }).mems(2).setups(setups.clone()).uni(UNI).mask(m));
    let names: Vec<Op> = own.iter().filter(|o| naming(o) || content(o) || mounts(o)).cloned().collect();
    if th {
        v.push(drv("broad-2", all, vec![own, b]).mode(Mode::Backends { codes: true }).mems(2).setups(setups).uni(UNI).mask(m));
    } else {
        v.push(drv("broad-2", &[V2_4K, TRANS], vec![names.clone(), names]).mode(Mode::Backends { codes: true }).mems(2).setups(setups[..1].to_vec()).uni(UNI).mask(m));
    }
    v
}

/// the same calls at the moments at which the caches fill up
fn thresholds(th: bool) -> Vec<Driver> {
    let c = 4096;
    let b: Vec<Op> = alphabet(c).into_iter().filter(|o| !matches!(o, Op::Restart)).collect();
    let names: Vec<Op> = b.iter().filter(|o| naming(o)).cloned().collect();
    let dir = || openx(RT, "w", 0, 0, ALL_RIGHTS, 0, Some(9));
    let cold = |n: u32| -> Vec<Op> { [tree(c, false), vec![mkdir("w"), dir(), Op::FillFiles { d: s(9), prefix: "n".into(), n }, Op::Close(s(9)), touch("m")]].concat() };
    let seen = || ["f", "d/g", "d/e/k", "m"].iter().map(|p| Op::OpenMeta { d: RT, p: p.to_string() }).collect::<Vec<_>>();
    let warm = |k: u32| -> Vec<Op> { [seen(), vec![dir(), Op::TouchNames { d: s(9), prefix: "n".into(), from: 0, to: k }, mount("m", 0, Pol::Explicit(100))], descriptors(true)].concat() };
    let mut v = vec![];
    let ks: Vec<u32> = (84..=101).collect();
    let setups: Vec<Setup> = ks.iter().map(|k| setup(&format!("names-{k}"), cold(110), warm(*k))).collect();
    v.push(drv("broad-names", &[V2_4K], vec![b.clone()]).mems(2).setups(setups.clone()).uni(UNI).full(60));
    let pick: Vec<Setup> = setups.iter().filter(|x| th || ["names-90", "names-96"].contains(&x.name.as_str())).cloned().collect();
    v.push(drv("broad-names-2", &[V2_4K], vec![names.clone(), names.clone()]).mems(2).setups(pick).uni(UNI).full(60).no_restart());
    let ks: Vec<u32> = if th { (960..=1001).collect() } else { (978..=1000).step_by(2).collect() };
    let setups: Vec<Setup> = ks.iter().map(|k| setup(&format!("metas-{k}"), cold(1010), warm(*k))).collect();
    v.push(drv("broad-metas", &[V2_4K], vec![b.clone()]).mems(2).setups(setups.clone()).uni(UNI).full(60).no_restart());
    v
}
