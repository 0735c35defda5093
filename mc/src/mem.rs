//! Copy-on-write sparse memory implementing the stable-structures `Memory` trait.
//! A snapshot is a shared immutable base; every execution works on a private overlay.
use ic_stable_structures::Memory;
use rustc_hash::FxHashMap;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

pub const WP: u64 = 65536;
const PS: u64 = 4096;
type Page = [u8; PS as usize];

#[derive(Clone, Default)]
pub struct Snapshot {
    pub pages: Arc<FxHashMap<u64, Arc<Page>>>,
    pub size: u64,
}

#[derive(Default)]
struct Inner {
    base: Snapshot,
    over: FxHashMap<u64, Box<Page>>,
    size: u64,
    /// largest size (in wasm pages) this memory may reach
    max_pages: u64,
    /// growth request to be refused (counted from the call of `set_fault`), and whether all later ones are refused too
    fault: Option<(u64, bool)>,
    grow_calls: u64,
    grow_failures: u64,
    /// wasm pages read and written since the watch was switched on
    watch: Option<(std::collections::BTreeSet<u64>, std::collections::BTreeSet<u64>)>,
}

#[derive(Clone)]
pub struct CowMem(Rc<RefCell<Inner>>);

impl CowMem {
    pub fn new() -> Self {
        Self::from_snapshot(&Snapshot::default())
    }
    pub fn from_snapshot(s: &Snapshot) -> Self {
        CowMem(Rc::new(RefCell::new(Inner {
            base: s.clone(),
            size: s.size,
            max_pages: 1 << 26,
            ..Default::default()
        })))
    }
    pub fn snapshot(&self) -> Snapshot {
        let i = self.0.borrow();
        if i.over.is_empty() && i.size == i.base.size {
            return i.base.clone();
        }
        let mut pages: FxHashMap<u64, Arc<Page>> = (*i.base.pages).clone();
        for (k, v) in i.over.iter() {
            pages.insert(*k, Arc::new(**v));
        }
        Snapshot { pages: Arc::new(pages), size: i.size }
    }
    /// independent copy sharing the base (cheap when the overlay is small)
    pub fn fork(&self) -> CowMem {
        let i = self.0.borrow();
        CowMem(Rc::new(RefCell::new(Inner {
            base: i.base.clone(),
            over: i.over.clone(),
            size: i.size,
            max_pages: i.max_pages,
            ..Default::default()
        })))
    }
    /// refuse the growth request number `at` from now on, and all later ones with `forever`
    pub fn set_fault(&self, f: Option<(u64, bool)>) {
        let mut i = self.0.borrow_mut();
        let n = i.grow_calls;
        i.fault = f.map(|(at, forever)| (n + at, forever));
    }
    pub fn grow_calls(&self) -> u64 {
        self.0.borrow().grow_calls
    }
    pub fn grow_failures(&self) -> u64 {
        self.0.borrow().grow_failures
    }
    pub fn watch_start(&self) {
        self.0.borrow_mut().watch = Some(Default::default());
    }
    /// pages read and pages written since the last call
    pub fn watch_take(&self) -> (std::collections::BTreeSet<u64>, std::collections::BTreeSet<u64>) {
        self.0.borrow_mut().watch.take().unwrap_or_default()
    }
    pub fn pages(&self) -> u64 {
        self.0.borrow().size
    }
    /// read without bounds check (zero outside), used by oracles
    pub fn peek(&self, offset: u64, dst: &mut [u8]) {
        let i = self.0.borrow();
        let mut done = 0usize;
        while done < dst.len() {
            let a = offset + done as u64;
            let (p, o) = (a / PS, (a % PS) as usize);
            let n = (PS as usize - o).min(dst.len() - done);
            if let Some(pg) = i.over.get(&p) {
                dst[done..done + n].copy_from_slice(&pg[o..o + n]);
            } else if let Some(pg) = i.base.pages.get(&p) {
                dst[done..done + n].copy_from_slice(&pg[o..o + n]);
            } else {
                dst[done..done + n].fill(0);
            }
            done += n;
        }
    }
    /// equality of contents and size
    pub fn same(&self, other: &CowMem) -> bool {
        let a = self.snapshot();
        let b = other.snapshot();
        if a.size != b.size {
            return false;
        }
        let z: Page = [0; PS as usize];
        for (k, v) in a.pages.iter() {
            let w: &Page = b.pages.get(k).map(|x| &**x).unwrap_or(&z);
            if !std::ptr::eq(&**v, w) && **v != *w {
                return false;
            }
        }
        for (k, v) in b.pages.iter() {
            if !a.pages.contains_key(k) && **v != z {
                return false;
            }
        }
        true
    }
}

impl Memory for CowMem {
    fn size(&self) -> u64 {
        self.0.borrow().size
    }
    fn grow(&self, pages: u64) -> i64 {
        let mut i = self.0.borrow_mut();
        i.grow_calls += 1;
        let ok = i.size.checked_add(pages).map(|n| n <= i.max_pages).unwrap_or(false);
        let call = i.grow_calls - 1;
        let ok = ok
            && match i.fault {
                None => true,
                Some((at, forever)) => !(call == at || forever && call > at),
            };
        if !ok {
            i.grow_failures += 1;
            return -1;
        }
        let old = i.size;
        i.size += pages;
        old as i64
    }
    fn read(&self, offset: u64, dst: &mut [u8]) {
        {
            let mut i = self.0.borrow_mut();
            let end = offset.checked_add(dst.len() as u64).expect("memory: read out of bounds");
            if end > i.size * WP {
                panic!("memory: read out of bounds");
            }
            if let (Some(w), true) = (i.watch.as_mut(), !dst.is_empty()) {
                w.0.extend(offset / WP..=(end - 1) / WP);
            }
        }
        self.peek(offset, dst);
    }
    fn write(&self, offset: u64, src: &[u8]) {
        let mut i = self.0.borrow_mut();
        let end = offset.checked_add(src.len() as u64).expect("memory: write out of bounds");
        if end > i.size * WP {
            panic!("memory: write out of bounds");
        }
        if let (Some(w), true) = (i.watch.as_mut(), !src.is_empty()) {
            w.1.extend(offset / WP..=(end - 1) / WP);
        }
        let mut done = 0usize;
        while done < src.len() {
            let a = offset + done as u64;
            let (p, o) = (a / PS, (a % PS) as usize);
            let n = (PS as usize - o).min(src.len() - done);
            let Inner { base, over, .. } = &mut *i;
            let pg = over.entry(p).or_insert_with(|| match base.pages.get(&p) {
                Some(b) => Box::new(**b),
                None => Box::new([0u8; PS as usize]),
            });
            pg[o..o + n].copy_from_slice(&src[done..done + n]);
            done += n;
        }
    }
}
