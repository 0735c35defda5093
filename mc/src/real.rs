//! Executes operations on the real file system.
use crate::mem::{CowMem, Snapshot};
use crate::ops::*;
use crate::seg;
use ic_stable_structures::memory_manager::{MemoryId, MemoryManager};
use ic_stable_structures::Memory;
use stable_fs::error::Error;
use stable_fs::fs::{Advice, ChunkSize, ChunkType, DstBuf, FdFlags, FdStat, FileSystem, OpenFlags, SrcBuf, Whence};
use stable_fs::storage::stable::StableStorage;
use stable_fs::storage::transient::TransientStorage;
use stable_fs::storage::types::{FileType, Metadata, MountedFileSizePolicy};
use stable_fs::storage::Storage;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub name: &'static str,
    pub transient: bool,
    /// chunk type for new files
    pub ct: u8,
    pub chunk: u32,
    /// bucket size of an explicit memory manager (0: the storage creates its own default one)
    pub bucket: u16,
    /// first memory index
    pub base: u8,
    /// number of memory indices given
    pub span: u8,
}

impl Cfg {
    pub const fn v2(name: &'static str, chunk: u32) -> Cfg {
        Cfg { name, transient: false, ct: 2, chunk, bucket: 0, base: 229, span: 10 }
    }
}

pub const V2_4K: Cfg = Cfg::v2("v2-4k", 4096);
pub const V2_8K: Cfg = Cfg::v2("v2-8k", 8192);
pub const V2_16K: Cfg = Cfg::v2("v2-16k", 16384);
pub const V2_32K: Cfg = Cfg::v2("v2-32k", 32768);
pub const V2_64K: Cfg = Cfg::v2("v2-64k", 65536);
pub const V1: Cfg = Cfg { name: "v1", transient: false, ct: 1, chunk: 16384, bucket: 0, base: 229, span: 10 };
pub const V1_4K: Cfg = Cfg { name: "v1+4k", transient: false, ct: 1, chunk: 4096, bucket: 0, base: 229, span: 10 };
pub const TRANS: Cfg = Cfg { name: "transient", transient: true, ct: 1, chunk: 4096, bucket: 0, base: 0, span: 10 };
pub const MM1: Cfg = Cfg { name: "v2-4k-mm1", transient: false, ct: 2, chunk: 4096, bucket: 1, base: 100, span: 10 };

pub fn chunk_size(s: u32) -> ChunkSize {
    match s {
        4096 => ChunkSize::CHUNK4K,
        8192 => ChunkSize::CHUNK8K,
        16384 => ChunkSize::CHUNK16K,
        32768 => ChunkSize::CHUNK32K,
        65536 => ChunkSize::CHUNK64K,
        _ => panic!("bad chunk size {s}"),
    }
}
pub fn chunk_type(t: u8) -> ChunkType {
    if t == 1 {
        ChunkType::V1
    } else {
        ChunkType::V2
    }
}

pub struct Real {
    pub cfg: Cfg,
    pub mem: CowMem,
    pub fs: Option<FileSystem>,
    pub mems: Vec<CowMem>,
    pub slots: BTreeMap<u8, u32>,
    pub stamp: u32,
    /// manager for other users of the same memory (only with explicit managers)
    pub mm: Option<Rc<MemoryManager<CowMem>>>,
    /// the manager belongs to somebody else: re-opening keeps it
    pub shared: bool,
}

pub fn err(e: Error) -> Out {
    Out::Err(format!("{e:?}"))
}

fn meta_out(m: &Metadata) -> MetaOut {
    MetaOut {
        node: m.node,
        dir: m.file_type == FileType::Directory,
        links: m.link_count,
        size: m.size,
        times: [m.times.accessed, m.times.modified, m.times.created],
        ct: m.chunk_type.map(|c| c as u8),
        limit: m.maximum_size_allowed,
    }
}

pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

thread_local! {
    /// progress counter of this thread, shared with the supervising process
    pub static BEAT: std::cell::Cell<*mut u32> = const { std::cell::Cell::new(std::ptr::null_mut()) };
}
thread_local! {
    /// calls of the implementation run on a stack of one megabyte
    pub static THIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn beat() {
    BEAT.with(|b| {
        let p = b.get();
        if !p.is_null() {
            unsafe { p.write_volatile(p.read_volatile().wrapping_add(1)) }
        }
    })
}

impl Real {
    pub fn open_storage(cfg: &Cfg, mem: &CowMem, fresh: bool, shared: Option<Rc<MemoryManager<CowMem>>>) -> (Box<dyn Storage>, Option<Rc<MemoryManager<CowMem>>>) {
        if cfg.transient {
            return (Box::new(TransientStorage::new()), None);
        }
        let (mut st, mm) = if cfg.bucket == 0 && cfg.base == 229 {
            (StableStorage::new(mem.clone()), None)
        } else {
            let mm = shared.unwrap_or_else(|| Rc::new(MemoryManager::init_with_bucket_size(mem.clone(), cfg.bucket.max(1))));
            (StableStorage::new_with_memory_manager(&mm, cfg.base..cfg.base + cfg.span), Some(mm))
        };
        if fresh && cfg.chunk != 16384 {
            st.set_chunk_size(chunk_size(cfg.chunk)).expect("chunk size");
        }
        if cfg.ct == 1 {
            st.set_chunk_type(ChunkType::V1);
        }
        (Box::new(st), mm)
    }
    /// on a fresh memory
    pub fn new(cfg: Cfg, nmems: usize) -> Self {
        let mem = CowMem::new();
        Self::on(cfg, mem, (0..nmems).map(|_| CowMem::new()).collect(), true)
    }
    pub fn from_snapshot(cfg: Cfg, s: &Snapshot, mems: &[Snapshot]) -> Self {
        Self::on(cfg, CowMem::from_snapshot(s), mems.iter().map(CowMem::from_snapshot).collect(), false)
    }
    pub fn on(cfg: Cfg, mem: CowMem, mems: Vec<CowMem>, fresh: bool) -> Self {
        let (st, mm) = Self::open_storage(&cfg, &mem, fresh, None);
        let fs = FileSystem::new(st).expect("file system");
        Real { cfg, mem, fs: Some(fs), mems, slots: BTreeMap::new(), stamp: 0, mm, shared: false }
    }
    /// in a memory manager shared with others
    pub fn on_manager(cfg: Cfg, mem: CowMem, mm: Rc<MemoryManager<CowMem>>, mems: Vec<CowMem>) -> Self {
        let (st, mm) = Self::open_storage(&cfg, &mem, true, Some(mm));
        let fs = FileSystem::new(st).expect("file system");
        Real { cfg, mem, fs: Some(fs), mems, slots: BTreeMap::new(), stamp: 0, mm, shared: true }
    }
    pub fn fdnum(&self, f: F) -> u32 {
        match f {
            F::Root => 3,
            F::N(n) => n,
            F::S(s) => *self.slots.get(&s).unwrap_or(&u32::MAX),
        }
    }
    pub fn mem_pages(&self) -> Vec<u64> {
        self.mems.iter().map(|m| m.pages()).collect()
    }
    pub fn exec(&mut self, op: &Op) -> Out {
        beat();
        if let Op::Restart = op {
            self.fs = None;
            let keep = self.mm.take().filter(|_| self.shared);
            let cfg = self.cfg;
            let mem = self.mem.clone();
            return match catch_unwind(AssertUnwindSafe(|| {
                let (st, mm) = Self::open_storage(&cfg, &mem, false, keep);
                (FileSystem::new(st), mm)
            })) {
                Ok((Ok(fs), mm)) => {
                    self.fs = Some(fs);
                    self.mm = mm;
                    Out::Unit
                }
                Ok((Err(e), _)) => err(e),
                Err(p) => Out::Trap(panic_msg(p)),
            };
        }
        self.stamp += 1;
        if THIN.get() {
            // the other thread works while this one waits for it, nothing is shared at the same time
            struct Lent<'a>(&'a mut Real, &'a Op);
            unsafe impl Send for Lent<'_> {}
            impl Lent<'_> {
                fn go(self) -> Out {
                    self.0.caught(self.1)
                }
            }
            let l = Lent(self, op);
            return std::thread::scope(|sc| std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(sc, move || l.go()).expect("thread").join().expect("caught"));
        }
        self.caught(op)
    }
    fn caught(&mut self, op: &Op) -> Out {
        match catch_unwind(AssertUnwindSafe(|| self.run(op))) {
            Ok(Ok(o)) => o,
            Ok(Err(e)) => err(e),
            Err(p) => Out::Trap(panic_msg(p)),
        }
    }
    fn opened(&mut self, fd: u32, slot: Option<u8>) -> Result<Out, Error> {
        match slot {
            Some(s) => {
                self.slots.insert(s, fd);
            }
            None => self.fs.as_mut().unwrap().close(fd)?,
        }
        Ok(Out::Fd(fd))
    }
    fn run(&mut self, op: &Op) -> Result<Out, Error> {
        let stamp = self.stamp;
        macro_rules! fs {
            () => {
                self.fs.as_mut().unwrap()
            };
        }
        let d0 = FdStat::default();
        Ok(match op {
            Op::Open { d, p, of, ff, rights, t, slot } => {
                let d = self.fdnum(*d);
                let st = FdStat { flags: FdFlags::from_bits_truncate(*ff), rights_base: *rights, rights_inheriting: ALL_RIGHTS };
                let fd = fs!().open(d, p, st, OpenFlags::from_bits_truncate(*of), *t)?;
                self.opened(fd, *slot)?
            }
            Op::Mkdir { d, p, t } => {
                let d = self.fdnum(*d);
                fs!().mkdir(d, p, d0, *t)?;
                Out::Unit
            }
            Op::OpenDir { d, p, t, slot } => {
                let d = self.fdnum(*d);
                let fd = fs!().create_open_directory(d, p, d0, *t)?;
                self.opened(fd, *slot)?
            }
            Op::RmFile { d, p } => {
                let d = self.fdnum(*d);
                fs!().remove_file(d, p)?;
                Out::Unit
            }
            Op::RmDir { d, p } => {
                let d = self.fdnum(*d);
                fs!().remove_dir(d, p)?;
                Out::Unit
            }
            Op::RmRec { d, p } => {
                let d = self.fdnum(*d);
                fs!().remove_recursive(d, p)?;
                Out::Unit
            }
            Op::Link { d, p, d2, p2, slot } => {
                let (d, d2) = (self.fdnum(*d), self.fdnum(*d2));
                let fd = fs!().create_hard_link(d, p, d2, p2)?;
                self.opened(fd, *slot)?
            }
            Op::Rename { d, p, d2, p2, slot } => {
                let (d, d2) = (self.fdnum(*d), self.fdnum(*d2));
                let fd = fs!().rename(d, p, d2, p2)?;
                self.opened(fd, *slot)?
            }
            Op::Close(f) => {
                let f = self.fdnum(*f);
                fs!().close(f)?;
                Out::Unit
            }
            Op::Flush(f) => {
                let f = self.fdnum(*f);
                fs!().flush(f)?;
                Out::Unit
            }
            Op::Renumber(a, b) => {
                let (a, b) = (self.fdnum(*a), self.fdnum(*b));
                fs!().renumber(a, b)?;
                Out::Unit
            }
            Op::Read(f, n) => {
                let f = self.fdnum(*f);
                let mut v = vec![0xEEu8; *n as usize];
                let r = fs!().read(f, &mut v)?;
                guard(&v, r);
                Out::Data(v, r)
            }
            Op::ReadV(f, ls) | Op::PReadV(f, ls, _) => {
                let f = self.fdnum(*f);
                let total: usize = ls.iter().map(|x| *x as usize).sum();
                let mut v = vec![0xEEu8; total];
                let mut bufs = vec![];
                let mut o = 0;
                for l in ls {
                    bufs.push(DstBuf { buf: v[o..].as_mut_ptr(), len: *l as usize });
                    o += *l as usize;
                }
                let r = match op {
                    Op::PReadV(_, _, off) => fs!().read_vec_with_offset(f, &bufs, *off)?,
                    _ => fs!().read_vec(f, &bufs)?,
                };
                guard(&v, r);
                Out::Data(v, r)
            }
            Op::Write(f, n) => {
                let f = self.fdnum(*f);
                let v = seg::pattern(stamp, *n as usize);
                Out::Num(fs!().write(f, &v)?)
            }
            Op::WriteV(f, ls) | Op::PWriteV(f, ls, _) => {
                let f = self.fdnum(*f);
                let total: usize = ls.iter().map(|x| *x as usize).sum();
                let v = seg::pattern(stamp, total);
                let mut bufs = vec![];
                let mut o = 0;
                for l in ls {
                    bufs.push(SrcBuf { buf: v[o..].as_ptr(), len: *l as usize });
                    o += *l as usize;
                }
                Out::Num(match op {
                    Op::PWriteV(_, _, off) => fs!().write_vec_with_offset(f, &bufs, *off)?,
                    _ => fs!().write_vec(f, &bufs)?,
                })
            }
            Op::Put { p, off, len } => {
                let fd = fs!().open(3, p, d0, OpenFlags::CREATE, 7)?;
                let v = seg::pattern(stamp, *len as usize);
                let r = fs!().write_vec_with_offset(fd, &[SrcBuf { buf: v.as_ptr(), len: v.len() }], *off);
                fs!().close(fd)?;
                Out::Num(r?)
            }
            Op::Seek(f, delta, wh) => {
                let f = self.fdnum(*f);
                let w = match wh {
                    Wh::Set => Whence::SET,
                    Wh::Cur => Whence::CUR,
                    Wh::End => Whence::END,
                };
                Out::Num(fs!().seek(f, *delta, w)?)
            }
            Op::Tell(f) => {
                let f = self.fdnum(*f);
                Out::Num(fs!().tell(f)?)
            }
            Op::SetSize(f, s) => {
                let f = self.fdnum(*f);
                fs!().set_file_size(f, *s)?;
                Out::Unit
            }
            Op::SetLimit(f, s) => {
                let f = self.fdnum(*f);
                fs!().set_file_size_limit(f, *s)?;
                Out::Unit
            }
            Op::SetMeta(f, ch) => {
                let f = self.fdnum(*f);
                let mut m = fs!().metadata(f)?;
                match ch {
                    MetaChange::Same => {}
                    MetaChange::Node => m.node += 1,
                    MetaChange::Type => {
                        m.file_type = if m.file_type == FileType::Directory { FileType::RegularFile } else { FileType::Directory }
                    }
                    MetaChange::Size(s) => m.size = *s,
                    MetaChange::Limit(l) => m.maximum_size_allowed = *l,
                    MetaChange::Times(a, b, c) => {
                        m.times.accessed = *a;
                        m.times.modified = *b;
                        m.times.created = *c;
                    }
                    MetaChange::Combo { node, ty, size, limit, times } => {
                        if *node {
                            m.node += 1;
                        }
                        if *ty {
                            m.file_type = if m.file_type == FileType::Directory { FileType::RegularFile } else { FileType::Directory };
                        }
                        if let Some(x) = size {
                            m.size = *x;
                        }
                        if let Some(x) = limit {
                            m.maximum_size_allowed = *x;
                        }
                        if *times {
                            m.times.accessed = 71;
                            m.times.modified = 72;
                            m.times.created = 73;
                        }
                    }
                    MetaChange::Links(n) => m.link_count = *n,
                    MetaChange::Layout(l) => {
                        m.chunk_type = l.map(|x| if x == 1 { ChunkType::V1 } else { ChunkType::V2 })
                    }
                    MetaChange::Obsolete(n) => {
                        m.first_dir_entry = Some(*n);
                        m.last_dir_entry = Some(*n);
                    }
                }
                fs!().set_metadata(f, m)?;
                Out::Unit
            }
            Op::SetATime(f, t) => {
                let f = self.fdnum(*f);
                fs!().set_accessed_time(f, *t)?;
                Out::Unit
            }
            Op::SetMTime(f, t) => {
                let f = self.fdnum(*f);
                fs!().set_modified_time(f, *t)?;
                Out::Unit
            }
            Op::GetStat(f) => {
                let f = self.fdnum(*f);
                let (ty, st) = fs!().get_stat(f)?;
                Out::Stat(ty == FileType::Directory, st.flags.bits(), st.rights_base, st.rights_inheriting)
            }
            Op::SetStat(f, ff, r) => {
                let f = self.fdnum(*f);
                fs!().set_stat(f, FdStat { flags: FdFlags::from_bits_truncate(*ff), rights_base: *r, rights_inheriting: ALL_RIGHTS })?;
                Out::Unit
            }
            Op::Meta(f) => {
                let f = self.fdnum(*f);
                Out::Meta(meta_out(&fs!().metadata(f)?))
            }
            Op::OpenMeta { d, p } => {
                let d = self.fdnum(*d);
                Out::Meta(meta_out(&fs!().open_metadata(d, p)?))
            }
            Op::Advice(f, off, len) => {
                let f = self.fdnum(*f);
                for a in [Advice::Normal, Advice::Sequential, Advice::Random, Advice::WillNeed, Advice::DontNeed, Advice::NoReuse] {
                    fs!().advice(f, *off, *len, a)?;
                }
                Out::Unit
            }
            Op::Allocate(f, off, len) => {
                let f = self.fdnum(*f);
                fs!().allocate(f, *off, *len)?;
                Out::Unit
            }
            Op::List(f, start, limit) => {
                let f = self.fdnum(*f);
                Out::List(self.list(f, *start, *limit)?)
            }
            Op::Page(f, start, n) => {
                let f = self.fdnum(*f);
                let mut all = vec![];
                let mut start = *start;
                let mut rounds = 0;
                loop {
                    // fetch one more than a page: the extra one is where the next page starts
                    let l = self.list(f, start, *n + 1)?;
                    rounds += 1;
                    assert!(rounds < 100_000, "paging does not end");
                    if l.len() <= *n as usize {
                        all.extend(l);
                        break;
                    }
                    start = Some(l[*n as usize].idx);
                    all.extend(l.into_iter().take(*n as usize));
                }
                Out::List(all)
            }
            Op::Entry(f, idx) => {
                let f = self.fdnum(*f);
                let e = fs!().get_direntry(f, *idx)?;
                Out::List(vec![Ent {
                    idx: *idx,
                    name: e.name.bytes[..e.name.length as usize].to_vec(),
                    node: e.node,
                    ty: e.entry_type.map(|t| t as u8),
                }])
            }
            Op::Mount { p, m, pol } => {
                let pol = match pol {
                    Pol::PrevZero => MountedFileSizePolicy::PreviousOrZero,
                    Pol::PrevPages => MountedFileSizePolicy::PreviousOrMemoryPages,
                    Pol::Explicit(s) => MountedFileSizePolicy::Explicit(*s),
                    Pol::Pages => MountedFileSizePolicy::MemoryPages,
                };
                let mem = self.mems[*m as usize].clone();
                fs!().mount_memory_file(p, Box::new(mem), pol)?;
                Out::Unit
            }
            Op::Unmount(p) => {
                let r = fs!().unmount_memory_file(p)?;
                Out::Num(r.size())
            }
            Op::Init(p) => {
                fs!().init_memory_file(p)?;
                Out::Unit
            }
            Op::Store(p) => {
                fs!().store_memory_file(p)?;
                Out::Unit
            }
            Op::MemWrite { m, off, len } => {
                let mem = &self.mems[*m as usize];
                let need = (off + *len as u64).div_ceil(65536);
                if mem.size() < need {
                    mem.grow(need - mem.size());
                }
                mem.write(*off, &seg::pattern(stamp, *len as usize));
                Out::Unit
            }
            Op::MemGrow { m, pages } => Out::Num(self.mems[*m as usize].grow(*pages) as u64),
            Op::Restart => unreachable!(),
            Op::ChunkType(t) => {
                fs!().storage.set_chunk_type(chunk_type(*t));
                Out::Unit
            }
            Op::ChunkSize(s) => {
                fs!().storage.set_chunk_size(chunk_size(*s))?;
                Out::Unit
            }
            Op::FillFiles { d, prefix, n } => {
                let d = self.fdnum(*d);
                for k in 0..*n {
                    let fd = fs!().open(d, &format!("{prefix}{k}"), d0, OpenFlags::CREATE, 5)?;
                    fs!().close(fd)?;
                }
                Out::Unit
            }
            Op::TouchNames { d, prefix, from, to } => {
                let d = self.fdnum(*d);
                for k in *from..*to {
                    let _ = fs!().open_metadata(d, &format!("{prefix}{k}"));
                }
                Out::Unit
            }
            Op::RmFiles { d, prefix, from, to } => {
                let d = self.fdnum(*d);
                for k in *from..*to {
                    let _ = fs!().remove_file(d, &format!("{prefix}{k}"));
                }
                Out::Unit
            }
            Op::Seq(_) | Op::B(_) | Op::Reboot | Op::Attach { .. } | Op::AttachBad { .. } => unreachable!("handled elsewhere"),
        })
    }
    fn list(&mut self, f: u32, start: Option<u32>, limit: u32) -> Result<Vec<Ent>, Error> {
        let mut l = vec![];
        self.fs.as_mut().unwrap().with_direntries(f, start, &mut |i, e| {
            l.push(Ent {
                idx: *i,
                name: e.name.bytes[..e.name.length as usize].to_vec(),
                node: e.node,
                ty: e.entry_type.map(|t| t as u8),
            });
            assert!(l.len() < 2_000_000, "listing does not end");
            limit == 0 || (l.len() as u32) < limit
        })?;
        Ok(l)
    }
}

/// bytes beyond the returned count must not carry data
fn guard(v: &[u8], n: u64) {
    assert!(n <= v.len() as u64, "read returned more than the buffer holds");
    if v[n as usize..].iter().any(|b| *b != 0xEE && *b != 0) {
        panic!("data past the returned length was put into the buffer");
    }
}

pub fn mmid(i: u8) -> MemoryId {
    MemoryId::new(i)
}
