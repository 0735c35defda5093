//! Independent check of a raw stable memory image: decodes the tables themselves and checks that
//! every stored unit belongs to exactly one reachable object.
use crate::mem::CowMem;
use crate::ops::*;
use ic_stable_structures::memory_manager::{MemoryId, MemoryManager, VirtualMemory};
use ic_stable_structures::{BTreeMap as SBTree, Memory};
use stable_fs::fs::ChunkType;
use stable_fs::storage::types::{DirEntry, FileChunk, FileName, FileType, Metadata};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const META_IDX: u32 = u32::MAX - 1;
pub const MMETA_IDX: u32 = u32::MAX - 2;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Usage {
    /// virtual memory sizes in pages
    pub pages: Vec<u64>,
    pub max_ptr: u64,
    pub free: u64,
    pub chunk_size: u64,
    pub nodes: u64,
}

type Vm = VirtualMemory<CowMem>;

fn rd64(m: &Vm, i: u64) -> u64 {
    let mut b = [0u8; 8];
    m.read(i * 8, &mut b);
    u64::from_le_bytes(b)
}

fn rd_meta(m: &Vm, ptr: u64) -> Metadata {
    let mut meta = Metadata::default();
    let n = std::mem::size_of::<Metadata>();
    let mut raw = vec![0u8; n];
    m.read(ptr, &mut raw);
    unsafe { std::ptr::copy_nonoverlapping(raw.as_ptr(), &mut meta as *mut Metadata as *mut u8, n) };
    meta
}

/// structural: namespace tables; storage: chunk accounting. `legacy`: the image may lack lookup
/// entries and hold stray chunks of directories.
pub fn fsck(mem: &CowMem, base: u8, legacy: bool) -> Result<Usage, Mis> {
    let mem = mem.fork();
    let mm = MemoryManager::init(mem.clone());
    let vm = |i: u8| mm.get(MemoryId::new(base + i));
    let f = |m: String| -> Result<Usage, Mis> { mis(Class::Fsck, m) };
    let leak = |m: String| -> Result<Usage, Mis> { mis(Class::Leak, m) };
    let mut u = Usage { pages: (0..10).map(|i| vm(i).size()).collect(), ..Default::default() };
    if vm(0).size() == 0 || vm(6).size() == 0 {
        return Ok(u);
    }
    let dirents: SBTree<(u64, u32), DirEntry, Vm> = SBTree::init(vm(2));
    let lookup: SBTree<(u64, FileName), u32, Vm> = SBTree::init(vm(9));
    let v1: SBTree<(u64, u32), FileChunk, Vm> = SBTree::init(vm(3));
    let ptrs: SBTree<(u64, u32), u64, Vm> = SBTree::init(vm(5));
    let lmeta: SBTree<u64, Metadata, Vm> = SBTree::init(vm(1));
    let lmmeta: SBTree<u64, Metadata, Vm> = SBTree::init(vm(4));
    let alloc = vm(6);
    let bytes = vm(7);

    // --- allocator
    u.chunk_size = rd64(&alloc, 1);
    u.max_ptr = rd64(&alloc, 3);
    u.free = rd64(&alloc, 2);
    let cs = u.chunk_size;
    if u.max_ptr != 0 && (cs == 0 || u.max_ptr % cs != 0) {
        return f(format!("allocator: end pointer {} is not a multiple of the chunk size {cs}", u.max_ptr));
    }
    if (16 + u.free) * 8 > alloc.size() * 65536 {
        return f(format!("allocator: {} free pointers do not fit its memory", u.free));
    }
    let mut free = BTreeSet::new();
    for i in 0..u.free {
        let p = rd64(&alloc, 16 + i);
        if p % cs != 0 || p >= u.max_ptr {
            return f(format!("allocator: free pointer {p} invalid (end {})", u.max_ptr));
        }
        if !free.insert(p) {
            return f(format!("allocator: chunk {p} is in the free list twice"));
        }
    }
    // --- chunk pointers
    let mut used: BTreeMap<u64, (u64, u32)> = BTreeMap::new();
    let mut by_node: BTreeMap<u64, Vec<(u32, u64)>> = BTreeMap::new();
    for en in ptrs.iter() {
        let (k, p) = (*en.key(), en.value());
        if p % cs != 0 || p >= u.max_ptr {
            return f(format!("chunk pointer {p} of object {} index {} was never allocated (end {})", k.0, k.1, u.max_ptr));
        }
        if let Some(o) = used.insert(p, k) {
            return f(format!("chunk {p} belongs both to object {} index {} and to object {} index {}", o.0, o.1, k.0, k.1));
        }
        if free.contains(&p) {
            return f(format!("chunk {p} of object {} index {} is also in the free list", k.0, k.1));
        }
        by_node.entry(k.0).or_default().push((k.1, p));
    }
    if (used.len() + free.len()) as u64 != if cs == 0 { 0 } else { u.max_ptr / cs } {
        return leak(format!("{} chunks handed out, but {} in use and {} free", u.max_ptr / cs.max(1), used.len(), free.len()));
    }
    let mut v1_by_node: BTreeMap<u64, Vec<u32>> = BTreeMap::new();
    for k in v1.keys() {
        v1_by_node.entry(k.0).or_default().push(k.1);
    }
    // --- metadata
    let mut metas: BTreeMap<u64, Metadata> = BTreeMap::new();
    for en in lmeta.iter() {
        metas.insert(*en.key(), en.value());
    }
    for (n, l) in &by_node {
        for (idx, p) in l {
            if *idx == META_IDX {
                if p + std::mem::size_of::<Metadata>() as u64 > bytes.size() * 65536 {
                    return f(format!("metadata chunk of object {n} lies outside the chunk memory"));
                }
                metas.insert(*n, rd_meta(&bytes, *p));
            }
        }
    }
    for (n, m) in &metas {
        if m.node != *n {
            return f(format!("metadata of object {n} names object {}", m.node));
        }
    }
    // --- directory entries
    let mut dirs: BTreeMap<u64, Vec<(u32, DirEntry)>> = BTreeMap::new();
    let mut nlinks: HashMap<u64, u64> = HashMap::new();
    let mut total = 0u64;
    for en in dirents.iter() {
        let (k, v) = (*en.key(), en.value());
        *nlinks.entry(v.node).or_default() += 1;
        if !legacy {
            match lookup.get(&(k.0, v.name.clone())) {
                Some(i) if i == k.1 => {}
                o => {
                    return f(format!(
                        "entry {:?} at ({}, {}) has lookup index {o:?}",
                        String::from_utf8_lossy(&v.name.bytes[..v.name.length as usize]),
                        k.0,
                        k.1
                    ))
                }
            }
        }
        total += 1;
        dirs.entry(k.0).or_default().push((k.1, v));
    }
    for en in lookup.iter() {
        let (k, i) = (en.key().clone(), en.value());
        if dirents.get(&(k.0, i)).map(|e| e.name != k.1).unwrap_or(true) {
            return f(format!("lookup entry ({}, {:?}) names index {i}, which is not that entry", k.0, String::from_utf8_lossy(&k.1.bytes[..k.1.length as usize])));
        }
    }
    if !legacy && lookup.len() != total {
        return f(format!("{} lookup entries for {total} directory entries", lookup.len()));
    }
    // --- reachability
    let mut reach = BTreeSet::from([0u64]);
    let mut stack = vec![0u64];
    while let Some(d) = stack.pop() {
        let Some(es) = dirs.get(&d) else { continue };
        let mut names = BTreeSet::new();
        for (_, e) in es {
            if !names.insert(e.name.bytes[..e.name.length as usize].to_vec()) {
                return f(format!("name {:?} is twice in directory {d}", String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize])));
            }
            if reach.insert(e.node) {
                stack.push(e.node);
            }
        }
    }
    for d in dirs.keys() {
        if !reach.contains(d) {
            return f(format!("entries of directory {d} are not reachable from the root"));
        }
    }
    for n in &reach {
        let Some(m) = metas.get(n) else {
            if *n == 0 && !dirs.contains_key(&0) {
                continue;
            }
            return f(format!("reachable object {n} has no metadata"));
        };
        let es = dirs.get(n).map(|v| v.len()).unwrap_or(0) as u64;
        if m.file_type == FileType::Directory {
            if m.size != es {
                return f(format!("directory {n} has size {} but {es} entries", m.size));
            }
        } else if es != 0 {
            return f(format!("file {n} has directory entries"));
        }
        let links = nlinks.get(n).copied().unwrap_or(0);
        if *n != 0 && m.link_count != links {
            return f(format!("object {n} has link count {} but {links} names", m.link_count));
        }
        for (_, e) in dirs.get(n).into_iter().flatten() {
            if let (Some(t), Some(cm)) = (e.entry_type, metas.get(&e.node)) {
                if t != cm.file_type {
                    return f(format!("entry type of object {} differs from its metadata", e.node));
                }
            }
        }
    }
    u.nodes = reach.len() as u64;
    // --- nothing stored for unreachable objects
    for n in metas.keys() {
        if !reach.contains(n) {
            return leak(format!("metadata of object {n} is stored but not reachable"));
        }
    }
    for k in lmmeta.keys() {
        if !reach.contains(&k) {
            return leak(format!("mounted metadata of object {k} is stored but not reachable"));
        }
    }
    for (n, l) in &by_node {
        if !reach.contains(n) {
            return leak(format!("{} chunks of unreachable object {n} are in use", l.len()));
        }
        let m = &metas[n];
        for (idx, p) in l {
            let span = if *idx >= MMETA_IDX { 1024 } else { cs };
            if p + span > bytes.size() * 65536 {
                return f(format!("chunk {p} of object {n} lies outside the chunk memory"));
            }
            if *idx == META_IDX || *idx == MMETA_IDX {
                continue;
            }
            if m.file_type == FileType::Directory {
                if legacy {
                    // left by versions before the repair of shrinking directories
                    continue;
                }
                return leak(format!("directory {n} owns data chunk {idx}"));
            }
            if *idx as u64 >= m.size.div_ceil(cs) {
                return leak(format!("data chunk {idx} of object {n} lies past its end of file {}", m.size));
            }
            if m.chunk_type == Some(ChunkType::V1) {
                return leak(format!("object {n} with V1 layout owns V2 data chunk {idx}"));
            }
        }
    }
    for (n, l) in &v1_by_node {
        if !reach.contains(n) {
            return leak(format!("{} V1 chunks of unreachable object {n} are stored", l.len()));
        }
        let m = &metas[n];
        for idx in l {
            if *idx as u64 >= m.size.div_ceil(4096) {
                return leak(format!("V1 chunk {idx} of object {n} lies past its end of file {}", m.size));
            }
            if m.chunk_type == Some(ChunkType::V2) {
                return leak(format!("object {n} with V2 layout owns V1 data chunk {idx}"));
            }
        }
    }
    Ok(u)
}
