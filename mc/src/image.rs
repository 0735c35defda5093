//! Memory images of earlier versions of the library.
//! Synthesised images are written table by table from a plain description, with record types
//! re-defined here (never taken from the library), in every layout the library has to read.
//! Golden images were written by the pinned original version (see tools/golden.sh); the model that
//! describes them is rebuilt from the recorded history.
use crate::mem::{CowMem, Snapshot};
use crate::model::*;
use crate::ops::*;
use crate::real::*;
use crate::seg::{self, SegMap};
use ic_stable_structures::memory_manager::{MemoryId, MemoryManager, VirtualMemory};
use ic_stable_structures::storable::{Bound, Storable};
use ic_stable_structures::{BTreeMap as SBTree, Cell, Memory};
use rustc_hash::FxHashMap;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::rc::Rc;
use std::sync::Arc;

// --- records as they were --------------------------------------------------------------------------
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FileType {
    Directory = 3,
    #[default]
    RegularFile = 4,
    #[allow(dead_code)]
    SymbolicLink = 7,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum ChunkType {
    V1 = 1,
    V2 = 2,
}
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Times {
    pub accessed: u64,
    pub modified: u64,
    pub created: u64,
}
#[derive(Clone, Debug, Default, Serialize)]
struct HeaderRec {
    version: u32,
    next_node: u64,
}
/// v0.4, v0.5
#[derive(Clone, Debug, Default, Serialize)]
struct MetaOld {
    node: u64,
    file_type: FileType,
    link_count: u64,
    size: u64,
    times: Times,
    first_dir_entry: Option<u32>,
    last_dir_entry: Option<u32>,
}
/// v0.6 (also the in-memory form written to the journal)
#[derive(Clone, Debug, Default, Serialize)]
struct MetaMid {
    node: u64,
    file_type: FileType,
    link_count: u64,
    size: u64,
    times: Times,
    first_dir_entry: Option<u32>,
    last_dir_entry: Option<u32>,
    chunk_type: Option<ChunkType>,
}
/// since v0.7: raw in chunks
#[repr(C, align(8))]
#[derive(Clone, Debug, Default, Serialize)]
struct MetaNew {
    node: u64,
    file_type: FileType,
    link_count: u64,
    size: u64,
    times: Times,
    first_dir_entry: Option<u32>,
    last_dir_entry: Option<u32>,
    chunk_type: Option<ChunkType>,
    maximum_size_allowed: Option<u64>,
}
#[derive(Clone, Debug, Serialize)]
struct NameRec {
    length: u8,
    #[serde(with = "serde_bytes")]
    bytes: Vec<u8>,
}
#[derive(Clone, Debug, Serialize)]
struct EntLinked {
    name: NameRec,
    node: u64,
    next_entry: Option<u32>,
    prev_entry: Option<u32>,
}
#[derive(Clone, Debug, Serialize)]
struct EntTyped {
    name: NameRec,
    node: u64,
    entry_type: Option<FileType>,
}

fn cbor<T: Serialize>(x: &T) -> Blob {
    let mut v = vec![];
    ciborium::ser::into_writer(x, &mut v).unwrap();
    Blob(v)
}

fn raw<T>(x: &T) -> Vec<u8> {
    // padding must be defined: copy over a zeroed buffer of the same layout is not enough, so the
    // object is built in zeroed memory by the callers (all fields are plain integers and options)
    let n = std::mem::size_of::<T>();
    let mut v = vec![0u8; n];
    unsafe { std::ptr::copy_nonoverlapping(x as *const T as *const u8, v.as_mut_ptr(), n) };
    v
}

#[derive(Clone)]
struct Blob(Vec<u8>);
impl Storable for Blob {
    fn to_bytes(&self) -> Cow<'_, [u8]> {
        Cow::Borrowed(&self.0)
    }
    fn into_bytes(self) -> Vec<u8> {
        self.0
    }
    fn from_bytes(b: Cow<[u8]>) -> Self {
        Blob(b.to_vec())
    }
    const BOUND: Bound = Bound::Unbounded;
}
#[derive(Clone)]
struct Chunk4K([u8; 4096]);
impl Storable for Chunk4K {
    fn to_bytes(&self) -> Cow<'_, [u8]> {
        Cow::Borrowed(&self.0)
    }
    fn into_bytes(self) -> Vec<u8> {
        self.0.to_vec()
    }
    fn from_bytes(b: Cow<[u8]>) -> Self {
        Chunk4K(b.as_ref().try_into().unwrap())
    }
    const BOUND: Bound = Bound::Bounded { max_size: 4096, is_fixed_size: true };
}
/// length byte and 255 bytes; ordered by the name alone
#[derive(Clone, PartialEq, Eq)]
struct NameKey([u8; 256]);
impl NameKey {
    fn new(n: &str) -> Self {
        let mut b = [0u8; 256];
        b[0] = n.len() as u8;
        b[1..1 + n.len()].copy_from_slice(n.as_bytes());
        NameKey(b)
    }
    fn name(&self) -> &[u8] {
        &self.0[1..1 + self.0[0] as usize]
    }
}
impl PartialOrd for NameKey {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for NameKey {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.name().cmp(o.name())
    }
}
impl Storable for NameKey {
    fn to_bytes(&self) -> Cow<'_, [u8]> {
        Cow::Borrowed(&self.0)
    }
    fn into_bytes(self) -> Vec<u8> {
        self.0.to_vec()
    }
    fn from_bytes(b: Cow<[u8]>) -> Self {
        NameKey(b.as_ref().try_into().unwrap())
    }
    const BOUND: Bound = Bound::Bounded { max_size: 256, is_fixed_size: true };
}

// --- description of a tree ------------------------------------------------------------------------
#[derive(Clone, Default)]
struct Obj {
    node: u64,
    dir: bool,
    entries: Vec<(u32, String, u64)>,
    size: u64,
    /// offset, length, stamp
    data: Vec<(u64, u64, u32)>,
    limit: Option<u64>,
}

fn tree() -> Vec<Obj> {
    let d = |node, entries: &[(u32, &str, u64)]| Obj {
        node,
        dir: true,
        entries: entries.iter().map(|(i, n, c)| (*i, n.to_string(), *c)).collect(),
        ..Default::default()
    };
    let f = |node, size, data: &[(u64, u64, u32)]| Obj { node, size, data: data.to_vec(), ..Default::default() };
    let long = "n".repeat(255);
    vec![
        d(0, &[(1, "d", 1), (2, "a", 2), (4, "e", 4), (7, "s", 6), (8, &long, 7), (9, "l", 2), (12, "m", 12)]),
        d(1, &[(1, "b", 3), (3, "s", 9), (4, "\u{1F4BE}", 10)]),
        f(2, 10000, &[(0, 5000, 1), (8192, 1808, 2)]),
        f(3, 20000, &[(0, 20000, 3)]),
        f(4, 0, &[]),
        f(6, 9000, &[]),
        Obj { limit: Some(20_000), ..f(7, 10, &[(0, 10, 4)]) },
        d(9, &[]),
        f(10, 4096, &[(0, 4096, 5)]),
        f(12, 70_000, &[(0, 300, 6), (16_380, 50, 7), (65_530, 4470, 8)]),
    ]
}
/// the remembered state of the mounted file
const M_NODE: u64 = 12;
const M_SIZE: u64 = 6000;
const M_TIMES: [u64; 3] = [4001, 4002, 4003];

fn times_of(n: u64) -> [u64; 3] {
    [100 + n, 200 + n, 300 + n]
}
fn links(objs: &[Obj], n: u64) -> u64 {
    if n == 0 {
        return 1;
    }
    objs.iter().flat_map(|o| &o.entries).filter(|e| e.2 == n).count() as u64
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Loc {
    /// older table, encoding without the chunk type
    Old,
    /// older table with the chunk type
    Mid,
    /// older table, current fields
    New,
    /// raw in a chunk
    Chunk,
    /// raw in a chunk, with an outdated record left in the older table
    Over,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Journal {
    Absent,
    Reset,
    Pending,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ents {
    Linked,
    Untyped,
    Typed,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Look {
    None,
    Full,
    Partial,
}
#[derive(Clone, Copy)]
pub struct Layout {
    pub name: &'static str,
    pub meta: fn(u64) -> Loc,
    /// layout of the data of a file
    pub data: fn(u64) -> u8,
    /// recorded chunk type
    pub rec: fn(u64) -> u8,
    /// marker, chunk size word (0: default), None: region never used
    pub alloc: Option<(&'static [u8; 4], u64)>,
    /// chunks in the free list
    pub free: u64,
    pub journal: Journal,
    pub mounted: Option<Loc>,
    pub ents: Ents,
    pub look: Look,
    pub base: u8,
    pub bucket: u16,
}

impl Layout {
    fn limits(&self, n: u64) -> bool {
        matches!((self.meta)(n), Loc::New | Loc::Chunk | Loc::Over)
    }
    fn ctype(&self, o: &Obj) -> u8 {
        if o.dir || (self.meta)(o.node) == Loc::Old {
            0
        } else {
            (self.rec)(o.node)
        }
    }
    pub fn chunk(&self) -> u64 {
        match self.alloc {
            Some((_, c)) if c != 0 => c,
            _ => 16384,
        }
    }
}

fn content(o: &Obj) -> SegMap {
    let mut s = SegMap::default();
    for (off, len, st) in &o.data {
        s.write(*off, *len, *st, *off);
    }
    s
}

/// chunk types for use with the layouts
pub fn all_v1(_: u64) -> u8 {
    1
}
pub fn all_v2(_: u64) -> u8 {
    2
}
pub fn mixed(n: u64) -> u8 {
    1 + (n / 2 % 2) as u8
}
pub fn none(_: u64) -> u8 {
    0
}
pub fn some_recorded(n: u64) -> u8 {
    if n % 3 == 0 {
        0
    } else {
        mixed(n)
    }
}

fn zeroed_new() -> Box<MetaNew> {
    // all-zero bytes first, so that padding is defined
    unsafe {
        let l = std::alloc::Layout::new::<MetaNew>();
        Box::from_raw(std::alloc::alloc_zeroed(l) as *mut MetaNew)
    }
}

pub fn synth(l: &Layout) -> Snapshot {
    let mem = CowMem::new();
    let mm = if l.bucket == 0 { MemoryManager::init(mem.clone()) } else { MemoryManager::init_with_bucket_size(mem.clone(), l.bucket) };
    let vm = |i: u8| -> VirtualMemory<CowMem> { mm.get(MemoryId::new(l.base + i)) };
    let objs = tree();
    let cs = l.chunk();
    Cell::init(vm(0), cbor(&HeaderRec { version: 1, next_node: 20 }));
    let mut metas: SBTree<u64, Blob, _> = SBTree::init(vm(1));
    let mut ents: SBTree<(u64, u32), Blob, _> = SBTree::init(vm(2));
    let mut v1: SBTree<(u64, u32), Chunk4K, _> = SBTree::init(vm(3));
    let newer = l.alloc.is_some();
    let mut mmetas: Option<SBTree<u64, Blob, _>> = newer.then(|| SBTree::init(vm(4)));
    let mut ptrs: Option<SBTree<(u64, u32), u64, _>> = newer.then(|| SBTree::init(vm(5)));
    let mut look: Option<SBTree<(u64, NameKey), u32, _>> = (l.look != Look::None).then(|| SBTree::init(vm(9)));
    let bytes = vm(7);
    let mut max = 0u64;
    let mut freed = vec![];
    let mut alloc = |ptrs: &mut Option<SBTree<(u64, u32), u64, _>>, key: (u64, u32), data: &[u8]| {
        // a part of the chunks was used by files removed since
        if freed.len() < l.free as usize {
            freed.push(max);
            max += cs;
        }
        let p = max;
        max += cs;
        let need = (p + cs).div_ceil(65536);
        if bytes.size() < need {
            assert!(bytes.grow(need - bytes.size()) >= 0);
        }
        bytes.write(p, data);
        ptrs.as_mut().expect("chunk memory").insert(key, p);
        freed.clone()
    };
    let mut free_list = vec![];
    for o in &objs {
        let t = times_of(o.node);
        let times = Times { accessed: t[0], modified: t[1], created: t[2] };
        let file_type = if o.dir { FileType::Directory } else { FileType::RegularFile };
        let link_count = links(&objs, o.node);
        let size = if o.dir { o.entries.len() as u64 } else { o.size };
        let (first, last) = match (o.dir, o.entries.first(), o.entries.last()) {
            (true, Some(a), Some(b)) => (Some(a.0), Some(b.0)),
            _ => (None, None),
        };
        let chunk_type = match l.ctype(o) {
            1 => Some(ChunkType::V1),
            2 => Some(ChunkType::V2),
            // directories carried the type in use as well
            _ if o.dir && (l.rec)(o.node) != 0 => Some(ChunkType::V2),
            _ => None,
        };
        let old = MetaOld { node: o.node, file_type, link_count, size, times, first_dir_entry: first, last_dir_entry: last };
        let mid = MetaMid { node: o.node, file_type, link_count, size, times, first_dir_entry: first, last_dir_entry: last, chunk_type };
        let mut new = zeroed_new();
        new.node = o.node;
        new.file_type = file_type;
        new.link_count = link_count;
        new.size = size;
        new.times = times;
        new.first_dir_entry = first;
        new.last_dir_entry = last;
        new.chunk_type = chunk_type;
        new.maximum_size_allowed = o.limit.filter(|_| l.limits(o.node));
        let mut rawmeta = raw(&*new);
        rawmeta.resize(1024, 0);
        match (l.meta)(o.node) {
            Loc::Old => {
                metas.insert(o.node, cbor(&old));
            }
            Loc::Mid => {
                metas.insert(o.node, cbor(&mid));
            }
            Loc::New => {
                metas.insert(o.node, cbor(&*new));
            }
            Loc::Chunk => free_list = alloc(&mut ptrs, (o.node, u32::MAX - 1), &rawmeta),
            Loc::Over => {
                let stale = MetaMid { size: size / 2, link_count: link_count + 1, times: Times::default(), chunk_type: None, ..mid };
                metas.insert(o.node, cbor(&stale));
                free_list = alloc(&mut ptrs, (o.node, u32::MAX - 1), &rawmeta);
            }
        }
        for (k, (idx, name, node)) in o.entries.iter().enumerate() {
            let mut b = name.clone().into_bytes();
            let length = b.len() as u8;
            b.resize(255, 0);
            let name_rec = NameRec { length, bytes: b };
            let ty = if objs.iter().any(|x| x.node == *node && x.dir) { FileType::Directory } else { FileType::RegularFile };
            let blob = match l.ents {
                Ents::Linked => cbor(&EntLinked {
                    name: name_rec,
                    node: *node,
                    next_entry: o.entries.get(k + 1).map(|e| e.0),
                    prev_entry: k.checked_sub(1).map(|k| o.entries[k].0),
                }),
                Ents::Untyped => cbor(&EntTyped { name: name_rec, node: *node, entry_type: None }),
                // entries made before the type was recorded stay as they are
                Ents::Typed => cbor(&EntTyped { name: name_rec, node: *node, entry_type: if l.look == Look::Partial && k % 2 == 0 { None } else { Some(ty) } }),
            };
            ents.insert((o.node, *idx), blob);
            if let Some(t) = look.as_mut() {
                if l.look == Look::Full || k % 2 == 1 {
                    t.insert((o.node, NameKey::new(name)), *idx);
                }
            }
        }
        if !o.dir {
            let c = content(o);
            let step = if (l.data)(o.node) == 1 { 4096 } else { cs };
            for i in 0..o.size.div_ceil(step) {
                let (a, b) = (i * step, (i + 1) * step);
                if !o.data.iter().any(|(off, len, _)| *off < b && off + len > a) {
                    continue;
                }
                let data = c.read(a, step as usize);
                if step == 4096 && (l.data)(o.node) == 1 {
                    v1.insert((o.node, i as u32), Chunk4K(data.try_into().unwrap()));
                } else {
                    free_list = alloc(&mut ptrs, (o.node, i as u32), &data);
                }
            }
        }
        if o.node == M_NODE {
            let times = Times { accessed: M_TIMES[0], modified: M_TIMES[1], created: M_TIMES[2] };
            let mmid = MetaMid { size: M_SIZE, times, ..mid.clone() };
            match l.mounted {
                Some(Loc::Chunk) => {
                    let mut m = zeroed_new();
                    m.node = M_NODE;
                    m.file_type = file_type;
                    m.link_count = link_count;
                    m.size = M_SIZE;
                    m.times = times;
                    m.chunk_type = chunk_type;
                    let mut r = raw(&*m);
                    r.resize(1024, 0);
                    free_list = alloc(&mut ptrs, (M_NODE, u32::MAX - 2), &r);
                }
                Some(_) => {
                    // a pending journal record is newer than the table
                    let rec = if l.journal == Journal::Pending { MetaMid { size: 77, times: Times::default(), ..mmid.clone() } } else { mmid.clone() };
                    mmetas.as_mut().unwrap().insert(M_NODE, cbor(&rec));
                }
                None => {}
            }
            if l.journal != Journal::Absent {
                let j = vm(8);
                j.grow(1);
                j.write(0, b"FSJ1\0\0\0\0");
                if l.journal == Journal::Pending {
                    j.write(16, &M_NODE.to_le_bytes());
                    j.write(24, &raw(&mmid));
                } else {
                    j.write(16, &u64::MAX.to_le_bytes());
                }
            }
        }
    }
    if let Some((marker, word)) = l.alloc {
        let a = vm(6);
        a.grow(1);
        a.write(0, marker);
        a.write(8, &word.to_le_bytes());
        a.write(16, &(free_list.len() as u64).to_le_bytes());
        a.write(24, &max.to_le_bytes());
        for (i, p) in free_list.iter().enumerate() {
            a.write(128 + i as u64 * 8, &p.to_le_bytes());
        }
    }
    mem.snapshot()
}

/// the model of the synthesised tree
pub fn synth_model(l: &Layout, ct: u8) -> Model {
    let objs = tree();
    let mut m = Model::new(ct, l.chunk() as u32, false, 1);
    m.pristine = false;
    m.untyped = true;
    let ino = |n: u64| objs.iter().position(|o| o.node == n).unwrap();
    m.nodes.clear();
    let mut pos = std::collections::HashMap::new();
    for (i, o) in objs.iter().enumerate() {
        let mut x = Inode::new(o.dir, 0, 0);
        x.links = links(&objs, o.node) as u32;
        x.entries = o.entries.iter().map(|(_, n, c)| (Rc::from(n.as_str()), ino(*c))).collect();
        for (idx, n, _) in &o.entries {
            pos.insert((i, n.clone()), *idx);
        }
        x.size = o.size;
        x.data = content(o);
        x.times = times_of(o.node);
        x.limit = o.limit.filter(|_| l.limits(o.node));
        x.ct = l.ctype(o);
        x.node = Some(o.node);
        if o.node == M_NODE && (l.mounted.is_some() || l.journal == Journal::Pending) {
            x.mm = Some(MMeta { size: M_SIZE, times: M_TIMES, limit: None });
        }
        m.nodes.push(Rc::new(x));
    }
    m.pos = Rc::new(pos);
    m
}

pub const LAYOUTS: &[Layout] = &{
    const B: Layout = Layout {
        name: "",
        meta: |_| Loc::Chunk,
        data: all_v2,
        rec: all_v2,
        alloc: Some((b"FSA1", 16384)),
        free: 0,
        journal: Journal::Absent,
        mounted: None,
        ents: Ents::Typed,
        look: Look::Full,
        base: 229,
        bucket: 0,
    };
    const E0: Layout = Layout { name: "v04", meta: |_| Loc::Old, data: all_v1, rec: none, alloc: None, ents: Ents::Linked, look: Look::None, ..B };
    const E1: Layout = Layout { name: "v06", meta: |_| Loc::Mid, alloc: Some((b"ALO1", 16384)), free: 2, journal: Journal::Reset, ents: Ents::Linked, look: Look::None, ..B };
    const E2: Layout = Layout { name: "v07", journal: Journal::Reset, ents: Ents::Linked, look: Look::None, free: 1, ..B };
    const E3: Layout = Layout { name: "v10", ..B };
    [
        E0,
        // the older image brought through a version that made the newer regions
        Layout { name: "v04-v06", alloc: Some((b"ALO1", 0)), journal: Journal::Reset, ..E0 },
        Layout { name: "v04-mm", base: 40, bucket: 1, ..E0 },
        E1,
        Layout { name: "v06-v1", data: all_v1, rec: all_v1, ..E1 },
        Layout { name: "v06-mixed", data: mixed, rec: some_recorded, mounted: Some(Loc::Mid), ..E1 },
        // no type recorded: the layout has to be found from the data
        Layout { name: "v06-unrecorded", data: mixed, rec: none, alloc: Some((b"ALO1", 4096)), ..E1 },
        Layout { name: "v06-pending", journal: Journal::Pending, ..E1 },
        Layout { name: "v06-pending-over", journal: Journal::Pending, mounted: Some(Loc::Mid), data: mixed, rec: mixed, ..E1 },
        Layout { name: "v06-pending-old", meta: |n| if n == 12 || n == 3 { Loc::Mid } else { Loc::Old }, data: mixed, rec: mixed, journal: Journal::Pending, mounted: Some(Loc::Mid), ..E1 },
        E2,
        Layout { name: "v07-over", meta: |n| if n % 2 == 0 { Loc::Over } else { Loc::Mid }, data: mixed, rec: some_recorded, mounted: Some(Loc::Chunk), ..E2 },
        Layout { name: "v07-unrecorded", data: mixed, rec: none, alloc: Some((b"FSA1", 4096)), free: 5, ents: Ents::Untyped, ..E2 },
        Layout { name: "v07-table", meta: |_| Loc::New, data: all_v1, rec: all_v1, ..E2 },
        E3,
        Layout { name: "v10-partial", meta: |n| [Loc::Chunk, Loc::Over, Loc::Mid, Loc::New, Loc::Old][n as usize % 5], data: mixed, rec: mixed, look: Look::Partial, mounted: Some(Loc::Chunk), alloc: Some((b"FSA1", 4096)), free: 3, ..E3 },
        Layout { name: "v10-64k-mm", base: 100, bucket: 3, alloc: Some((b"FSA1", 65536)), mounted: Some(Loc::Mid), ..E3 },
    ]
};

pub fn layout_cfg(l: &Layout, ct: u8) -> Cfg {
    Cfg { name: if ct == 1 { "new-v1" } else { "new-v2" }, transient: false, ct, chunk: l.chunk() as u32, bucket: l.bucket, base: l.base, span: 10 }
}

pub type Image = Arc<dyn Fn() -> (Snapshot, Model) + Send + Sync>;

pub fn synth_image(l: &'static Layout, ct: u8) -> Image {
    let snap = synth(l);
    Arc::new(move || (snap.clone(), synth_model(l, ct)))
}

// --- golden images ---------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
pub struct GoldenStep {
    pub op: Op,
    pub out: Out,
    pub pages: Vec<u64>,
    pub stamp: u32,
}
#[derive(Serialize, Deserialize)]
pub struct GoldenRec {
    pub name: String,
    pub ct: u8,
    pub chunk: u32,
    pub bucket: u16,
    pub base: u8,
    pub mems: usize,
    pub steps: Vec<GoldenStep>,
    pub mem: Vec<u64>,
    pub size: u64,
}

pub struct Golden {
    pub rec: GoldenRec,
    pub snap: Snapshot,
}

fn dir() -> String {
    format!("{}/golden", std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn golden_load(name: &str) -> Golden {
    let rec: GoldenRec = serde_json::from_slice(&std::fs::read(format!("{}/{name}.json", dir())).expect("golden record")).expect("golden record");
    let raw = std::fs::read(format!("{}/{name}.img", dir())).expect("golden image");
    let mut pages: FxHashMap<u64, Arc<[u8; 4096]>> = Default::default();
    // pages with their leading and trailing zeros cut off: page number, start, length, bytes
    let mut i = 0;
    let u = |i: usize, n: usize| raw[i..i + n].iter().rev().fold(0u64, |a, b| a << 8 | *b as u64);
    while i < raw.len() {
        let (pg, a, n) = (u(i, 4), u(i + 4, 2) as usize, u(i + 6, 2) as usize);
        let mut p = [0u8; 4096];
        p[a..a + n].copy_from_slice(&raw[i + 8..i + 8 + n]);
        pages.insert(pg, Arc::new(p));
        i += 8 + n;
    }
    Golden { snap: Snapshot { pages: Arc::new(pages), size: rec.size }, rec }
}

impl Golden {
    pub fn cfg(&self) -> Cfg {
        let r = &self.rec;
        Cfg { name: "golden", transient: false, ct: r.ct, chunk: r.chunk, bucket: r.bucket, base: r.base, span: 10 }
    }
    pub fn model(&self) -> Model {
        let r = &self.rec;
        let mut m = Model::new(r.ct, r.chunk, false, r.mems);
        for s in &r.steps {
            m.step(&s.op, &s.out, &Env { pages: &s.pages, stamp: s.stamp }).unwrap_or_else(|e| panic!("golden history {}: {}", r.name, e.msg));
        }
        m.step(&Op::Restart, &Out::Unit, &Env { pages: &vec![0; r.mems], stamp: 0 }).unwrap();
        // mounted memories do not belong to the image
        for x in m.mems.iter_mut() {
            *x = SegMap::default();
        }
        m
    }
}

pub fn golden_image(name: &str) -> (Image, Cfg) {
    let g = golden_load(name);
    let cfg = g.cfg();
    (Arc::new(move || (g.snap.clone(), g.model())), cfg)
}

/// names of all golden histories
pub fn golden_names() -> Vec<&'static str> {
    golden_histories().iter().map(|h| h.0).collect()
}

fn golden_histories() -> Vec<(&'static str, Cfg, Vec<Op>)> {
    use crate::drivers::*;
    let long = "y".repeat(255);
    let c16 = V2_16K;
    let rich = |c: u64| -> Vec<Op> {
        let l = c as u32;
        let w = |p: &str, ops: Vec<Op>| {
            let mut v = vec![Op::Open { d: F::Root, p: p.into(), of: CREATE, ff: 0, rights: ALL_RIGHTS, t: 9, slot: Some(90) }];
            v.extend(ops);
            v.push(Op::Close(F::S(90)));
            v
        };
        let t = F::S(90);
        let mut v = vec![mkdir("d"), mkdir("d/e"), mkdir("gone"), put("junk", 0, 5 * l), put("d/b", 0, 2 * l + 77)];
        v.extend(w("a", vec![
            Op::PWriteV(t, vec![5000], 0),
            Op::PWriteV(t, vec![20], 3 * c - 9),
            Op::SetATime(t, 11),
            Op::SetMTime(t, 12),
        ]));
        v.extend(w("e", vec![]));
        v.extend(w("s", vec![Op::SetSize(t, 9000)]));
        v.extend(w(&long, vec![Op::Write(t, 10), Op::SetLimit(t, 20_000)]));
        v.extend(w("d/\u{1F4BE}", vec![Op::PWriteV(t, vec![l], 0), Op::SetMeta(t, MetaChange::Times(21, 22, 23))]));
        v.extend([
            rmdir("gone"),
            rm("junk"),
            link("a", "l"),
            rename("d/b", "d/c"),
            put("d/b", 100, 9),
            mkdir("d/s"),
            put("m", 10, 70_000),
            mount("m", 0, Pol::Explicit(500)),
        ]);
        v.extend(w("m", vec![Op::PWriteV(t, vec![700], 5300), Op::SetMTime(t, 33)]));
        v.extend([
            Op::Unmount("m".into()),
            put("k", 0, l / 2),
            mount("k", 1, Pol::Explicit(1)),
        ]);
        v.extend(w("k", vec![Op::PWriteV(t, vec![66_000], 0)]));
        v.extend([Op::Store("k".into()), put("k", 3, 2)]);
        // left mounted
        v
    };
    let names = {
        let mut v = vec![mkdir("d")];
        let mut all: Vec<String> = vec![];
        for k in 1..=12 {
            all.push("a".repeat(k));
            all.push("b".repeat(13 - k));
            all.push(format!("{}{}", "a".repeat(k), "\u{1}"));
            all.push(format!("{}b", "a".repeat(k)));
            all.push(format!("z{k}"));
            all.push(format!("\u{e9}{}", "x".repeat(k * 20)));
        }
        for (i, n) in all.iter().enumerate() {
            v.push(Op::Open { d: F::Root, p: format!("d/{n}"), of: CREATE, ff: 0, rights: ALL_RIGHTS, t: i as u64, slot: None });
        }
        v.push(Op::FillFiles { d: F::Root, prefix: "x".into(), n: 130 });
        v.push(Op::RmFiles { d: F::Root, prefix: "x".into(), from: 20, to: 60 });
        v.push(Op::RmFile { d: F::Root, p: "d/aaa".into() });
        v.push(Op::RmFile { d: F::Root, p: "x129".into() });
        v
    };
    vec![
        ("rich-16k", c16, rich(16384)),
        ("rich-4k", V2_4K, rich(4096)),
        ("rich-64k", V2_64K, rich(65536)),
        ("rich-v1", V1, rich(4096)),
        ("rich-mm", Cfg { bucket: 2, base: 60, ..V2_4K }, rich(4096)),
        ("names", V2_4K, names),
    ]
}

/// run the histories and store the images (with the library version this binary was built with)
pub fn golden_write(out: &str) {
    std::fs::create_dir_all(out).unwrap();
    for (name, cfg, ops) in golden_histories() {
        let mut real = Real::new(cfg, 2);
        let mut model = Model::new(cfg.ct, cfg.chunk, false, 2);
        let mut steps = vec![];
        for op in ops {
            let pages = real.mem_pages();
            let o = real.exec(&op);
            model.step(&op, &o, &Env { pages: &pages, stamp: real.stamp }).unwrap_or_else(|e| panic!("{name} {op:?}: {}", e.msg));
            steps.push(GoldenStep { op, out: o, pages, stamp: real.stamp });
        }
        let s = real.mem.snapshot();
        let mut img = vec![];
        let mut keys: Vec<u64> = s.pages.keys().copied().collect();
        keys.sort();
        for k in keys {
            let p = &s.pages[&k];
            let Some(a) = p.iter().position(|b| *b != 0) else { continue };
            let z = p.iter().rposition(|b| *b != 0).unwrap() + 1;
            img.extend((k as u32).to_le_bytes());
            img.extend((a as u16).to_le_bytes());
            img.extend(((z - a) as u16).to_le_bytes());
            img.extend(&p[a..z]);
        }
        let rec = GoldenRec { name: name.into(), ct: cfg.ct, chunk: cfg.chunk, bucket: cfg.bucket, base: cfg.base, mems: 2, steps, mem: vec![], size: s.size };
        std::fs::write(format!("{out}/{name}.json"), serde_json::to_vec(&rec).unwrap()).unwrap();
        std::fs::write(format!("{out}/{name}.img"), &img).unwrap();
        println!("{name}: {} steps, {} image bytes", rec.steps.len(), img.len());
    }
    let _ = seg::pattern(0, 0);
}
