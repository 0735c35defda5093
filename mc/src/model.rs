//! The reference model: a deliberately plain in-memory file system.
//! Descriptor numbers, object ids and directory positions are environment answers: the model takes
//! them from the implementation and checks only the rules they have to obey.
use crate::ops::*;
use crate::seg::SegMap;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub type Ino = usize;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MMeta {
    pub size: u64,
    pub times: [u64; 3],
    pub limit: Option<u64>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Inode {
    pub alive: bool,
    pub dir: bool,
    pub links: u32,
    pub entries: Vec<(Rc<str>, Ino)>,
    pub size: u64,
    pub data: SegMap,
    pub times: [u64; 3],
    /// creation by link/rename intermediate directories: times not specified
    pub times_any: bool,
    pub limit: Option<u64>,
    /// chunk type recorded (1, 2) or 0 when not recorded (legacy)
    pub ct: u8,
    pub mm: Option<MMeta>,
    pub mount: Option<u8>,
    /// object id bound from the implementation
    pub node: Option<u64>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct FdSt {
    pub ino: Ino,
    pub cursor: u64,
    pub flags: u16,
    pub rights: u64,
    pub inh: u64,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub nodes: Vec<Rc<Inode>>,
    pub fds: BTreeMap<u32, FdSt>,
    pub slots: BTreeMap<u8, u32>,
    pub mems: Vec<SegMap>,
    pub def_ct: u8,
    pub cfg_ct: u8,
    pub chunk_size: u32,
    /// transient storage: chunk configuration calls are accepted without effect
    pub transient: bool,
    /// chunk size can still be changed
    pub pristine: bool,
    /// (dir, child) -> position seen
    pub pos: Rc<std::collections::HashMap<(Ino, String), u32>>,
    pub touched: Vec<Ino>,
    /// highest descriptor number seen
    pub max_fd: u32,
    /// the image may hold entries written without a type (images of old versions only)
    pub untyped: bool,
}

pub type Er = Vec<&'static str>;
type R<T> = Result<T, Er>;

fn e<T>(c: &[&'static str]) -> R<T> {
    Err(c.to_vec())
}

pub const NOENT: &str = "NoSuchFileOrDirectory";
pub const BADF: &str = "BadFileDescriptor";
pub const NOTDIR: &str = "NotADirectoryOrSymbolicLink";
pub const PERM: &str = "OperationNotPermitted";
pub const EXIST: &str = "FileExists";
pub const BUSY: &str = "TextFileBusy";
pub const NOTEMPTY: &str = "DirectoryNotEmpty";
pub const ISDIR: &str = "IsDirectory";
pub const INVAL: &str = "InvalidArgument";
pub const FBIG: &str = "FileTooLarge";
pub const SPIPE: &str = "InvalidSeek";
pub const TOOLONG: &str = "FilenameTooLong";
pub const DEVBUSY: &str = "DeviceOrResourceBusy";
pub const NODEV: &str = "NoSuchDevice";
pub const ACCES: &str = "PermissionDenied";

pub fn parts(path: &str) -> R<Vec<&str>> {
    if path.starts_with('/') {
        return e(&[PERM]);
    }
    let mut v: Vec<&str> = vec![];
    for p in path.split('/') {
        match p {
            "" | "." => {}
            ".." => {
                if v.pop().is_none() {
                    return e(&[PERM]);
                }
            }
            x => v.push(x),
        }
    }
    Ok(v)
}

impl Inode {
    pub fn new(dir: bool, t: u64, ct: u8) -> Self {
        Inode {
            alive: true,
            dir,
            links: 1,
            entries: vec![],
            size: 0,
            data: SegMap::default(),
            times: [t; 3],
            times_any: false,
            limit: None,
            ct: if dir { 0 } else { ct },
            mm: None,
            mount: None,
            node: None,
        }
    }
    pub fn esize(&self) -> u64 {
        if self.dir {
            return self.entries.len() as u64;
        }
        if self.mount.is_some() {
            self.mm.as_ref().unwrap().size
        } else {
            self.size
        }
    }
    pub fn etimes(&self) -> [u64; 3] {
        if self.mount.is_some() {
            self.mm.as_ref().unwrap().times
        } else {
            self.times
        }
    }
    pub fn elimit(&self) -> Option<u64> {
        if self.mount.is_some() {
            self.mm.as_ref().unwrap().limit
        } else {
            self.limit
        }
    }
}

pub struct Env<'a> {
    /// pages of each mounted memory before the step
    pub pages: &'a [u64],
    pub stamp: u32,
}

fn want_err(out: &Out, codes: &Er) -> Result<(), Mis> {
    match out {
        Out::Err(c) => {
            if codes.iter().any(|x| x == c) {
                Ok(())
            } else {
                mis(Class::Code, format!("expected error {codes:?}, got {c}"))
            }
        }
        Out::Trap(m) => mis(Class::Trap, format!("trapped: {m}; expected error {codes:?}")),
        o => mis(Class::OkErr, format!("expected error {codes:?}, but it succeeded: {}", o.short())),
    }
}

fn want_ok(out: &Out) -> Result<(), Mis> {
    match out {
        Out::Err(c) => mis(Class::OkErr, format!("expected success, got error {c}")),
        Out::Trap(m) => mis(Class::Trap, format!("trapped: {m}")),
        _ => Ok(()),
    }
}

pub const ROOT: Ino = 0;

impl Model {
    pub fn new(cfg_ct: u8, chunk_size: u32, transient: bool, nmems: usize) -> Self {
        let mut m = Model {
            nodes: vec![Rc::new(Inode::new(true, 0, 0))],
            fds: BTreeMap::new(),
            slots: BTreeMap::new(),
            mems: vec![SegMap::default(); nmems],
            def_ct: cfg_ct,
            cfg_ct,
            chunk_size,
            transient,
            pristine: true,
            pos: Rc::new(Default::default()),
            touched: vec![],
            max_fd: 3,
            untyped: false,
        };
        m.open_root();
        m
    }
    fn open_root(&mut self) {
        self.fds.insert(3, FdSt { ino: ROOT, cursor: 0, flags: 0, rights: ALL_RIGHTS, inh: ALL_RIGHTS });
    }
    pub fn n(&self, i: Ino) -> &Inode {
        &self.nodes[i]
    }
    pub fn nm(&mut self, i: Ino) -> &mut Inode {
        if self.touched.last() != Some(&i) {
            self.touched.push(i);
        }
        Rc::make_mut(&mut self.nodes[i])
    }
    pub fn fdnum(&self, f: F) -> Option<u32> {
        match f {
            F::Root => Some(3),
            F::N(n) => Some(n),
            F::S(s) => self.slots.get(&s).copied(),
        }
    }
    fn fd(&self, f: F) -> R<&FdSt> {
        match self.fdnum(f).and_then(|n| self.fds.get(&n)) {
            Some(x) => Ok(x),
            None => e(&[BADF]),
        }
    }
    fn fdir(&self, f: F) -> R<Ino> {
        let d = self.fd(f)?;
        if self.n(d.ino).dir {
            Ok(d.ino)
        } else {
            e(&[NOTDIR])
        }
    }
    fn ffile(&self, f: F) -> R<(u32, FdSt)> {
        let d = self.fd(f)?;
        if self.n(d.ino).dir {
            e(&[BADF])
        } else {
            Ok((self.fdnum(f).unwrap(), d.clone()))
        }
    }
    pub fn child(&self, d: Ino, name: &str) -> Option<Ino> {
        self.n(d).entries.iter().find(|(n, _)| &**n == name).map(|x| x.1)
    }
    fn walk(&self, d: Ino, ps: &[&str]) -> R<Ino> {
        let mut c = d;
        for p in ps {
            if p.len() > 255 {
                return e(&[TOOLONG]);
            }
            match self.child(c, p) {
                Some(x) => c = x,
                None => {
                    // a missing component of a path with an over-long later one: either cause may be reported
                    if ps.iter().any(|p| p.len() > 255) {
                        return e(&[NOENT, TOOLONG]);
                    }
                    return e(&[NOENT]);
                }
            }
        }
        Ok(c)
    }
    pub fn resolve(&self, d: Ino, p: &str) -> R<Ino> {
        let ps = parts(p)?;
        self.walk(d, &ps)
    }
    pub fn open_count(&self, i: Ino) -> usize {
        self.fds.values().filter(|f| f.ino == i).count()
    }
    /// can the missing path be created? returns Err(codes) or the list of names to create below an existing dir
    fn creatable<'a>(&self, d: Ino, p: &'a str) -> R<(Ino, Vec<&'a str>)> {
        let ps = parts(p)?;
        let mut c = d;
        let mut i = 0;
        let long = ps.iter().any(|p| p.len() > 255);
        while i < ps.len() {
            if ps[i].len() > 255 {
                return e(&[TOOLONG]);
            }
            match self.child(c, ps[i]) {
                Some(x) => c = x,
                None => break,
            }
            i += 1;
        }
        let rest: Vec<&str> = ps[i..].to_vec();
        if !self.n(c).dir {
            return if long { e(&[TOOLONG, INVAL, NOTDIR]) } else { e(&[INVAL, NOTDIR]) };
        }
        if long {
            return e(&[TOOLONG]);
        }
        Ok((c, rest))
    }
    fn add_node(&mut self, n: Inode) -> Ino {
        self.nodes.push(Rc::new(n));
        self.touched.push(self.nodes.len() - 1);
        self.pristine = false;
        self.nodes.len() - 1
    }
    fn add_entry(&mut self, d: Ino, name: &str, c: Ino) {
        self.nm(d).entries.push((Rc::from(name), c));
    }
    fn mkdirs(&mut self, base: Ino, names: &[&str], t: u64, any: bool) -> Ino {
        let mut c = base;
        for n in names {
            let mut nd = Inode::new(true, t, 0);
            nd.times_any = any;
            let x = self.add_node(nd);
            self.add_entry(c, n, x);
            c = x;
        }
        c
    }
    fn del_entry(&mut self, d: Ino, name: &str) {
        let key = (d, name.to_string());
        if self.pos.contains_key(&key) {
            Rc::make_mut(&mut self.pos).remove(&key);
        }
        self.nm(d).entries.retain(|(n, _)| &**n != name);
    }
    fn unlink_node(&mut self, i: Ino) {
        let n = self.nm(i);
        n.links -= 1;
        if n.links == 0 {
            n.alive = false;
            n.data = SegMap::default();
            n.size = 0;
        }
    }
    fn new_fd(&mut self, num: u32, ino: Ino, cursor: u64, flags: u16, rights: u64, slot: Option<u8>) -> Result<(), Mis> {
        if num <= 3 || self.fds.contains_key(&num) {
            return mis(Class::Fd, format!("open returned descriptor {num}, which is reserved or already in use"));
        }
        self.max_fd = self.max_fd.max(num);
        if let Some(s) = slot {
            self.slots.insert(s, num);
            self.fds.insert(num, FdSt { ino, cursor, flags: flags & 31, rights, inh: ALL_RIGHTS });
        }
        Ok(())
    }
    fn got_fd(out: &Out) -> Result<u32, Mis> {
        want_ok(out)?;
        match out {
            Out::Fd(n) => Ok(*n),
            _ => mis(Class::Value, "not a descriptor".into()),
        }
    }
    fn rm_check(&self, d: Ino, p: &str, want_dir: Option<bool>) -> R<(Ino, String, Ino)> {
        let ps = parts(p)?;
        let i = self.walk(d, &ps)?;
        let n = self.n(i);
        if n.mount.is_some() {
            return e(&[BUSY, DEVBUSY]);
        }
        if n.dir {
            if want_dir == Some(false) {
                return e(&[ISDIR]);
            }
            if !n.entries.is_empty() {
                return e(&[NOTEMPTY]);
            }
        } else if want_dir == Some(true) {
            return e(&[NOTDIR]);
        }
        if ps.is_empty() {
            return e(&[BUSY, INVAL, DEVBUSY]);
        }
        if n.links == 1 && self.open_count(i) > 0 {
            return e(&[BUSY]);
        }
        let parent = self.walk(d, &ps[..ps.len() - 1])?;
        Ok((parent, ps[ps.len() - 1].to_string(), i))
    }
    fn do_rm(&mut self, t: (Ino, String, Ino)) {
        self.del_entry(t.0, &t.1);
        self.unlink_node(t.2);
    }

    fn rm_rec(&mut self, d: Ino, p: &str) -> R<()> {
        let i = self.resolve(d, p)?;
        if !self.n(i).dir {
            let t = self.rm_check(d, p, Some(false))?;
            self.do_rm(t);
            return Ok(());
        }
        let kids: Vec<(Rc<str>, Ino)> = self.n(i).entries.clone();
        for (name, k) in kids {
            let r = if self.n(k).dir {
                self.rm_rec(i, &name)
            } else {
                self.rm_check(i, &name, Some(false)).map(|t| self.do_rm(t))
            };
            if r.is_err() {
                break;
            }
        }
        let t = match self.rm_check(d, p, Some(true)) {
            Ok(t) => t,
            Err(_) => return e(&[NOTEMPTY, BUSY, DEVBUSY, INVAL]),
        };
        self.do_rm(t);
        Ok(())
    }

    pub fn is_below(&self, anc: Ino, x: Ino) -> bool {
        if anc == x {
            return true;
        }
        self.n(anc).dir && self.n(anc).entries.iter().any(|(_, c)| self.n(*c).dir && self.is_below(*c, x))
    }

    /// link or rename. On success returns the object linked.
    fn link_rename(&mut self, d: F, p: &str, d2: F, p2: &str, rename: bool) -> R<Ino> {
        let sd = self.fdir(d)?;
        let dd = self.fdir(d2)?;
        let src = self.resolve(sd, p)?;
        let sdir = self.n(src).dir;
        // everything that can make the call fail, all plausible causes are accepted as codes
        let mut codes: Er = vec![];
        let mut refused = false;
        let dst = match self.resolve(dd, p2) {
            Ok(x) => Some(x),
            Err(c) if c.contains(&NOENT) => None,
            Err(c) => {
                codes.extend(c);
                refused = true;
                None
            }
        };
        if sdir && !rename {
            codes.push(PERM);
        }
        let sps = parts(p)?;
        let same = dst == Some(src);
        if rename {
            if sps.is_empty() {
                codes.push(INVAL);
                codes.push(BUSY);
                codes.push(DEVBUSY);
            }
            if self.n(src).mount.is_some() && !same {
                codes.push(BUSY);
            }
            if sdir && !same {
                // destination inside the source?
                let dps = parts(p2).unwrap_or_default();
                let mut c = dd;
                let mut below = self.is_below(src, dd);
                for q in &dps {
                    match self.child(c, q) {
                        Some(x) => c = x,
                        None => break,
                    }
                    if c == src {
                        below = true;
                    }
                }
                if below {
                    codes.push(INVAL);
                }
            }
        }
        if let Some(x) = dst {
            if !same {
                let n = self.n(x);
                if n.dir != sdir {
                    codes.push(if n.dir { ACCES } else { NOTDIR });
                } else {
                    if n.dir && !n.entries.is_empty() {
                        codes.push(NOTEMPTY);
                    }
                    if n.mount.is_some() {
                        codes.push(BUSY);
                        codes.push(DEVBUSY);
                    }
                    if n.links == 1 && self.open_count(x) > 0 {
                        codes.push(BUSY);
                    }
                    if parts(p2)?.is_empty() {
                        codes.push(INVAL);
                        codes.push(BUSY);
                    }
                }
            }
        } else if refused {
        } else if let Err(c) = self.creatable(dd, p2) {
            codes.extend(c);
        }
        if !codes.is_empty() {
            return Err(codes);
        }
        if same {
            return Ok(src);
        }
        if let Some(x) = dst {
            let ps = parts(p2)?;
            let par = self.walk(dd, &ps[..ps.len() - 1])?;
            self.do_rm((par, ps[ps.len() - 1].to_string(), x));
        }
        let (base, rest) = self.creatable(dd, p2)?;
        let rest: Vec<String> = rest.iter().map(|s| s.to_string()).collect();
        let rr: Vec<&str> = rest.iter().map(|s| &**s).collect();
        let t = self.n(src).times[2];
        let par = self.mkdirs(base, &rr[..rr.len() - 1], t, true);
        self.nm(src).links += 1;
        self.add_entry(par, rr[rr.len() - 1], src);
        if rename {
            let sp = self.walk(sd, &sps[..sps.len() - 1])?;
            self.del_entry(sp, sps[sps.len() - 1]);
            self.nm(src).links -= 1;
        }
        Ok(src)
    }

    fn read_at(&self, ino: Ino, off: u64, len: u64) -> Vec<u8> {
        let n = self.n(ino);
        let size = n.esize();
        if off >= size {
            return vec![];
        }
        let len = len.min(size - off) as usize;
        match n.mount {
            Some(m) => self.mems[m as usize].read(off, len),
            None => n.data.read(off, len),
        }
    }
    fn cap(&self, ino: Ino) -> u64 {
        self.n(ino).elimit().unwrap_or(MAX_FILE_SIZE).min(MAX_FILE_SIZE)
    }
    /// returns false when refused
    fn write_at(&mut self, ino: Ino, off: u64, len: u64, stamp: u32, base: u64) -> bool {
        if len == 0 {
            return true;
        }
        let cap = self.cap(ino);
        match off.checked_add(len) {
            Some(x) if x <= cap => {}
            _ => return false,
        }
        self.pristine = false;
        if let Some(m) = self.n(ino).mount {
            self.mems[m as usize].write(off, len, stamp, base);
            let mm = self.nm(ino).mm.as_mut().unwrap();
            mm.size = mm.size.max(off + len);
        } else {
            let n = self.nm(ino);
            n.data.write(off, len, stamp, base);
            n.size = n.size.max(off + len);
        }
        true
    }
    /// vectored write starting at off; returns (written, refused)
    fn write_vec(&mut self, ino: Ino, off: u64, lens: &[u32], stamp: u32) -> (u64, bool) {
        let mut w = 0u64;
        for l in lens {
            // one contiguous pattern over all buffers
            if !self.write_at(ino, off.wrapping_add(w), *l as u64, stamp, off) {
                return (w, true);
            }
            w += *l as u64;
        }
        (w, false)
    }
    fn resize(&mut self, ino: Ino, size: u64) {
        if self.n(ino).mount.is_some() {
            self.nm(ino).mm.as_mut().unwrap().size = size;
        } else {
            let n = self.nm(ino);
            n.data.truncate(size);
            n.size = size;
        }
    }
    pub fn bind_node(&mut self, ino: Ino, node: u64) -> Result<(), Mis> {
        match self.n(ino).node {
            Some(x) if x == node => Ok(()),
            Some(x) => mis(Class::Attr, format!("object id changed from {x} to {node}")),
            None => {
                for (j, o) in self.nodes.iter().enumerate() {
                    if o.alive && o.node == Some(node) {
                        return mis(Class::Attr, format!("object id {node} is shared by two live objects (model {j} and {ino})"));
                    }
                }
                Rc::make_mut(&mut self.nodes[ino]).node = Some(node);
                Ok(())
            }
        }
    }
    pub fn check_meta(&mut self, ino: Ino, m: &MetaOut) -> Result<(), Mis> {
        self.bind_node(ino, m.node)?;
        let n = self.n(ino);
        if m.dir != n.dir {
            return mis(Class::Attr, format!("type dir={} expected dir={}", m.dir, n.dir));
        }
        if m.size != n.esize() {
            return mis(Class::Attr, format!("size {} expected {}", m.size, n.esize()));
        }
        if m.links != n.links as u64 {
            return mis(Class::Attr, format!("link count {} expected {}", m.links, n.links));
        }
        if !n.dir && m.limit != n.elimit() {
            return mis(Class::Attr, format!("size limit {:?} expected {:?}", m.limit, n.elimit()));
        }
        if !n.times_any && m.times != n.etimes() {
            return mis(Class::Times, format!("times {:?} expected {:?}", m.times, n.etimes()));
        }
        if !n.dir && n.ct != 0 {
            let want = if self.transient { 1 } else { n.ct };
            if m.ct != Some(want) {
                return mis(Class::ChunkType, format!("chunk type {:?} expected {}", m.ct, want));
            }
        }
        Ok(())
    }
    fn check_data(exp: &[u8], out: &Out) -> Result<(), Mis> {
        want_ok(out)?;
        match out {
            Out::Data(d, n) => {
                if *n != exp.len() as u64 {
                    return mis(Class::Value, format!("read returned {n} bytes, expected {}", exp.len()));
                }
                if d.len() < exp.len() || d[..exp.len()] != *exp {
                    let k = d.iter().zip(exp.iter()).position(|(a, b)| a != b).unwrap_or(0);
                    return mis(
                        Class::Content,
                        format!("wrong data at byte {k} of {}: got {:?} expected {:?}", exp.len(), d.get(k), exp.get(k)),
                    );
                }
                Ok(())
            }
            _ => mis(Class::Value, "no data".into()),
        }
    }
    fn check_num(exp: u64, out: &Out) -> Result<(), Mis> {
        want_ok(out)?;
        match out {
            Out::Num(n) if *n == exp => Ok(()),
            Out::Num(n) => mis(Class::Value, format!("returned {n}, expected {exp}")),
            _ => mis(Class::Value, "no number".into()),
        }
    }
    pub fn check_listing(&mut self, d: Ino, start: Option<u32>, limit: u32, l: &[Ent], complete: bool) -> Result<(), Mis> {
        let dnode = self.n(d).node;
        let mut rest = l;
        let mut left = limit;
        let dots: usize = match start {
            None => 2,
            Some(DOT) => 2,
            Some(DOTDOT) => 1,
            _ => 0,
        };
        for k in (2 - dots)..2 {
            if complete && limit != 0 && left == 0 {
                break;
            }
            let want: (&[u8], u32) = if k == 0 { (b".", DOT) } else { (b"..", DOTDOT) };
            match rest.first() {
                Some(x) if x.name == want.0 && x.idx == want.1 => {
                    if k == 0 {
                        if let Some(dn) = dnode {
                            if x.node != dn {
                                return mis(Class::Tree, format!("'.' names object {} instead of {dn}", x.node));
                            }
                        }
                    }
                }
                _ => return mis(Class::Tree, format!("listing does not show {:?} first", String::from_utf8_lossy(want.0))),
            }
            rest = &rest[1..];
            if limit != 0 {
                left -= 1;
            }
        }
        let from = match start {
            None | Some(DOT) | Some(DOTDOT) => 0,
            Some(x) => x,
        };
        // entries: strictly increasing positions >= from, all names known, each once, right object and type
        let mut last: Option<u32> = None;
        let names: Vec<(Rc<str>, Ino)> = self.n(d).entries.clone();
        let mut seen = 0usize;
        let map: std::collections::HashMap<&[u8], Ino> = names.iter().map(|(n, i)| (n.as_bytes(), *i)).collect();
        let mut listed: std::collections::HashSet<&[u8]> = Default::default();
        for en in rest {
            if let Some(x) = last {
                if en.idx <= x {
                    return mis(Class::Tree, format!("positions not increasing: {} after {x}", en.idx));
                }
            }
            if en.idx < from {
                return mis(Class::Tree, format!("position {} below the requested start {from}", en.idx));
            }
            last = Some(en.idx);
            let nm = String::from_utf8_lossy(&en.name).to_string();
            let Some(&c) = map.get(&en.name[..]) else {
                return mis(Class::Tree, format!("listing shows {nm:?}, which does not exist"));
            };
            if !listed.insert(&en.name[..]) {
                return mis(Class::Tree, format!("listing shows {nm:?} twice"));
            }
            self.bind_node(c, en.node).map_err(|m| Mis { class: Class::Tree, msg: format!("entry {nm:?}: {}", m.msg) })?;
            let want = if self.n(c).dir { 3 } else { 4 };
            if en.ty != Some(want) && !(self.untyped && en.ty.is_none()) {
                return mis(Class::Tree, format!("entry {nm:?} has type {:?}", en.ty));
            }
            let key = (d, nm.clone());
            match self.pos.get(&key) {
                Some(p) if *p != en.idx => {
                    return mis(Class::Tree, format!("entry {nm:?} moved from position {p} to {}", en.idx));
                }
                Some(_) => {}
                None => {
                    Rc::make_mut(&mut self.pos).insert(key, en.idx);
                }
            }
            seen += 1;
        }
        if complete {
            // number of entries that have to be shown
            let total = names.len();
            let known_below = if from <= 1 {
                Some(0)
            } else {
                // count entries with known positions below from
                let mut c = 0;
                let mut all = true;
                for (n, _) in &names {
                    match self.pos.get(&(d, n.to_string())) {
                        Some(p) if *p < from => c += 1,
                        Some(_) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(c)
                } else {
                    None
                }
            };
            if let Some(k) = known_below {
                let avail = total - k;
                let want = if limit == 0 { avail } else { avail.min(left as usize) };
                if seen != want {
                    return mis(Class::Tree, format!("listing from {start:?} shows {seen} entries, expected {want}"));
                }
            }
        }
        Ok(())
    }

    fn open_like(&mut self, out: &Out, r: R<(Ino, u64)>, flags: u16, rights: u64, slot: Option<u8>) -> Result<(), Mis> {
        match r {
            Err(c) => want_err(out, &c),
            Ok((ino, cursor)) => {
                let n = Self::got_fd(out)?;
                self.new_fd(n, ino, cursor, flags, rights, slot)
            }
        }
    }

    fn open(&mut self, d: F, p: &str, of: u16, ff: u16, t: u64) -> R<(Ino, u64)> {
        let dir = self.fdir(d)?;
        match self.resolve(dir, p) {
            Ok(i) => {
                if of & CREATE != 0 && of & EXCL != 0 {
                    return e(&[EXIST]);
                }
                if self.n(i).dir {
                    return Ok((i, 0));
                }
                if of & DIRECTORY != 0 {
                    return e(&[PERM, NOTDIR]);
                }
                if of & TRUNC != 0 {
                    self.resize(i, 0);
                }
                let cur = if ff & APPEND != 0 { self.n(i).esize() } else { 0 };
                Ok((i, cur))
            }
            Err(c) if c.contains(&NOENT) => {
                if of & CREATE == 0 {
                    return Err(c);
                }
                let isdir = of & DIRECTORY != 0;
                let i = self.create(dir, p, isdir, t)?;
                Ok((i, 0))
            }
            Err(c) => Err(c),
        }
    }
    fn create(&mut self, dir: Ino, p: &str, isdir: bool, t: u64) -> R<Ino> {
        match self.resolve(dir, p) {
            Ok(_) => return e(&[EXIST]),
            Err(c) if c.contains(&NOENT) => {}
            Err(c) => return Err(c),
        }
        let (base, rest) = self.creatable(dir, p)?;
        let rest: Vec<String> = rest.iter().map(|s| s.to_string()).collect();
        let rr: Vec<&str> = rest.iter().map(|s| &**s).collect();
        let par = self.mkdirs(base, &rr[..rr.len() - 1], t, false);
        let ct = self.def_ct;
        let i = self.add_node(Inode::new(isdir, t, ct));
        self.add_entry(par, rr[rr.len() - 1], i);
        Ok(i)
    }

    /// Is the operation meaningful in this state? (used to prune the enumeration)
    pub fn enabled(&self, op: &Op, stale_ok: bool) -> bool {
        let ok = |f: &F| -> bool {
            match f {
                F::S(s) => match self.slots.get(s) {
                    None => false,
                    Some(n) => stale_ok || self.fds.contains_key(n),
                },
                _ => true,
            }
        };
        match op {
            Op::Open { d, .. } | Op::Mkdir { d, .. } | Op::OpenDir { d, .. } | Op::RmFile { d, .. } | Op::RmDir { d, .. } | Op::RmRec { d, .. } | Op::OpenMeta { d, .. } => ok(d),
            Op::Link { d, d2, .. } | Op::Rename { d, d2, .. } => ok(d) && ok(d2),
            Op::Close(f) | Op::Flush(f) | Op::Tell(f) | Op::GetStat(f) | Op::Meta(f) | Op::Advice(f, _, _) | Op::Allocate(f, _, _) => ok(f),
            Op::Renumber(a, b) => ok(a) && ok(b),
            // the metadata of the standard streams is a constant, there is nothing to set it from
            Op::SetMeta(F::N(0..=2), _) => false,
            Op::Read(f, _) | Op::Write(f, _) | Op::SetSize(f, _) | Op::SetLimit(f, _) | Op::SetATime(f, _) | Op::SetMTime(f, _) | Op::SetMeta(f, _) => ok(f),
            Op::ReadV(f, _) | Op::WriteV(f, _) => ok(f),
            Op::PReadV(f, _, _) | Op::PWriteV(f, _, _) => ok(f),
            Op::Seek(f, _, _) | Op::SetStat(f, _, _) | Op::List(f, _, _) | Op::Page(f, _, _) | Op::Entry(f, _) => ok(f),
            Op::Restart => !self.transient,
            Op::Mount { m, .. } => !self.nodes.iter().any(|n| n.mount == Some(*m)),
            Op::FillFiles { d, .. } | Op::TouchNames { d, .. } | Op::RmFiles { d, .. } => ok(d),
            _ => true,
        }
    }

    pub fn step(&mut self, op: &Op, out: &Out, env: &Env) -> Result<(), Mis> {
        match op {
            Op::Open { d, p, of, ff, rights, t, slot } => {
                let r = self.open(*d, p, *of, *ff, *t);
                self.open_like(out, r, *ff, *rights, *slot)
            }
            Op::Mkdir { d, p, t } => {
                let r = self.fdir(*d).and_then(|dir| self.create(dir, p, true, *t));
                match r {
                    Ok(_) => want_ok(out),
                    Err(c) => want_err(out, &c),
                }
            }
            Op::OpenDir { d, p, t, slot } => {
                let r = self.fdir(*d).and_then(|dir| self.create(dir, p, true, *t)).map(|i| (i, 0));
                self.open_like(out, r, 0, ALL_RIGHTS, *slot)
            }
            Op::RmFile { d, p } | Op::RmDir { d, p } => {
                let isdir = matches!(op, Op::RmDir { .. });
                let r = self.fdir(*d).and_then(|dir| self.rm_check(dir, p, Some(isdir)));
                match r {
                    Ok(t) => {
                        want_ok(out)?;
                        self.do_rm(t);
                        Ok(())
                    }
                    Err(c) => want_err(out, &c),
                }
            }
            Op::RmRec { d, p } => {
                let r = self.fdir(*d).and_then(|dir| self.rm_rec(dir, p));
                match r {
                    Ok(_) => want_ok(out),
                    Err(c) => want_err(out, &c),
                }
            }
            Op::Link { d, p, d2, p2, slot } | Op::Rename { d, p, d2, p2, slot } => {
                let ren = matches!(op, Op::Rename { .. });
                let r = self.link_rename(*d, p, *d2, p2, ren).map(|i| (i, 0));
                self.open_like(out, r, 0, ALL_RIGHTS, *slot)
            }
            Op::Close(f) => {
                let n = self.fdnum(*f).unwrap();
                if n == 3 {
                    return want_ok(out);
                }
                match self.fd(*f) {
                    Err(c) => want_err(out, &c),
                    Ok(_) => {
                        want_ok(out)?;
                        self.fds.remove(&n);
                        if let F::S(90) = f {
                            // descriptors used within one step are not referred to afterwards
                            self.slots.remove(&90);
                        }
                        Ok(())
                    }
                }
            }
            Op::Flush(f) => match self.ffile(*f) {
                Err(c) => want_err(out, &c),
                Ok(_) => want_ok(out),
            },
            Op::Renumber(a, b) => {
                let (a, b) = (self.fdnum(*a).unwrap(), self.fdnum(*b).unwrap());
                if a == b {
                    if self.fds.contains_key(&a) {
                        return want_ok(out);
                    }
                    // renumbering a closed descriptor onto itself has no effect; both answers are tolerated
                    return match out {
                        Out::Trap(m) => mis(Class::Trap, m.clone()),
                        _ => Ok(()),
                    };
                }
                let Some(src) = self.fds.get(&a).cloned() else {
                    return want_err(out, &vec![BADF]);
                };
                if a == 3 || b == 3 {
                    return want_err(out, &vec![BADF, INVAL, PERM, "NotSupported", "FunctionNotSupported"]);
                }
                if let Some(d) = self.fds.get(&b) {
                    if self.n(d.ino).dir != self.n(src.ino).dir {
                        return want_err(out, &vec![BADF]);
                    }
                }
                want_ok(out)?;
                self.fds.remove(&a);
                self.fds.insert(b, src);
                Ok(())
            }
            Op::Read(f, len) => self.read_op(*f, &[*len], None, out),
            Op::ReadV(f, lens) => self.read_op(*f, lens, None, out),
            Op::PReadV(f, lens, off) => self.read_op(*f, lens, Some(*off), out),
            Op::Write(f, len) => self.write_op(*f, &[*len], None, out, env.stamp),
            Op::WriteV(f, lens) => self.write_op(*f, lens, None, out, env.stamp),
            Op::PWriteV(f, lens, off) => self.write_op(*f, lens, Some(*off), out, env.stamp),
            Op::Put { p, off, len } => {
                let r = self.open(F::Root, p, CREATE, 0, 7);
                match r {
                    Err(c) => want_err(out, &c),
                    Ok((i, _)) => {
                        if self.n(i).dir {
                            return want_err(out, &vec![BADF]);
                        }
                        if self.write_at(i, *off, *len as u64, env.stamp, *off) {
                            Self::check_num(*len as u64, out)
                        } else {
                            want_err(out, &vec![FBIG])
                        }
                    }
                }
            }
            Op::Seek(f, delta, wh) => {
                let (num, st) = match self.ffile(*f) {
                    Err(c) => return want_err(out, &c),
                    Ok(x) => x,
                };
                let size = self.n(st.ino).esize() as i128;
                let target: i128 = match wh {
                    Wh::Set => *delta as i128,
                    Wh::Cur => st.cursor as i128 + *delta as i128,
                    Wh::End => size + *delta as i128,
                };
                let over = target > u64::MAX as i128;
                if *wh == Wh::End && *delta > 0 {
                    // seeking beyond the end from the end: refused today, POSIX would allow it
                    if let Out::Num(n) = out {
                        if *n as i128 == target {
                            self.fds.get_mut(&num).unwrap().cursor = *n;
                            return Ok(());
                        }
                        return mis(Class::Value, format!("seek returned {n}, expected {target} or an error"));
                    }
                    return want_err(out, &vec![SPIPE, INVAL]);
                }
                if target < 0 || over {
                    let mut c = vec![if *wh == Wh::End { SPIPE } else { INVAL }];
                    if over || *delta == i64::MIN {
                        c.extend([INVAL, SPIPE, "ValueTooLarge", "Overflow", "ValueTooLargeToBeStoredInDataType"]);
                    }
                    return want_err(out, &c);
                }
                Self::check_num(target as u64, out)?;
                self.fds.get_mut(&num).unwrap().cursor = target as u64;
                Ok(())
            }
            Op::Tell(f) => match self.ffile(*f) {
                Err(c) => want_err(out, &c),
                Ok((_, st)) => Self::check_num(st.cursor, out),
            },
            Op::SetSize(f, size) => {
                let (_, st) = match self.ffile(*f) {
                    Err(c) => return want_err(out, &c),
                    Ok(x) => x,
                };
                if st.rights & R_WRITE == 0 {
                    return want_err(out, &vec![INVAL]);
                }
                if *size > self.cap(st.ino) {
                    return want_err(out, &vec![FBIG]);
                }
                want_ok(out)?;
                self.resize(st.ino, *size);
                Ok(())
            }
            Op::SetLimit(f, lim) => {
                let (_, st) = match self.ffile(*f) {
                    Err(c) => return want_err(out, &c),
                    Ok(x) => x,
                };
                if *lim < self.n(st.ino).esize() {
                    return want_err(out, &vec![FBIG]);
                }
                want_ok(out)?;
                self.set_limit(st.ino, Some(*lim));
                Ok(())
            }
            Op::SetMeta(f, ch) => {
                let st = match self.fd(*f) {
                    Err(c) => return want_err(out, &c),
                    Ok(x) => x.clone(),
                };
                let i = st.ino;
                // the size of a directory, the number of links and the layout describe what is stored;
                // a request to change them is ignored or refused
                let kept = match ch {
                    MetaChange::Links(_) | MetaChange::Layout(_) | MetaChange::Obsolete(_) => true,
                    MetaChange::Size(_) | MetaChange::Limit(_) => self.n(i).dir,
                    _ => false,
                };
                if kept {
                    return match out {
                        Out::Trap(m) => mis(Class::Trap, m.clone()),
                        Out::Unit | Out::Err(_) => Ok(()),
                        _ => mis(Class::Value, "unexpected answer".into()),
                    };
                }
                match ch {
                    MetaChange::Links(_) | MetaChange::Layout(_) | MetaChange::Obsolete(_) => unreachable!(),
                    MetaChange::Same => want_ok(out),
                    MetaChange::Node => want_err(out, &vec!["IllegalByteSequence", INVAL, "FunctionNotSupported"]),
                    MetaChange::Type => want_err(out, &vec!["FunctionNotSupported", INVAL]),
                    MetaChange::Size(s) => {
                        if *s > self.cap(i) {
                            return want_err(out, &vec![FBIG]);
                        }
                        want_ok(out)?;
                        self.resize(i, *s);
                        Ok(())
                    }
                    MetaChange::Limit(l) => {
                        if let Some(l) = l {
                            if *l < self.n(i).esize() {
                                return want_err(out, &vec![FBIG]);
                            }
                        }
                        want_ok(out)?;
                        self.set_limit(i, *l);
                        Ok(())
                    }
                    MetaChange::Combo { node, ty, size, limit, times } => {
                        if *node || *ty {
                            return want_err(out, &vec!["IllegalByteSequence", "FunctionNotSupported", INVAL, FBIG]);
                        }
                        if self.n(i).dir {
                            // size and limit of a directory are ignored or refused
                            match out {
                                Out::Trap(m) => return mis(Class::Trap, m.clone()),
                                Out::Err(_) if size.is_some() || limit.is_some() => return Ok(()),
                                o => want_ok(o)?,
                            }
                        } else {
                            let lim = limit.unwrap_or(self.n(i).elimit());
                            let sz = size.unwrap_or(self.n(i).esize());
                            if sz > lim.unwrap_or(MAX_FILE_SIZE).min(MAX_FILE_SIZE) {
                                return want_err(out, &vec![FBIG]);
                            }
                            want_ok(out)?;
                            if size.is_some() {
                                self.resize(i, sz);
                            }
                            self.set_limit(i, lim);
                        }
                        if *times {
                            self.set_times(i, [71, 72, 73]);
                        }
                        Ok(())
                    }
                    MetaChange::Times(a, m, c) => {
                        want_ok(out)?;
                        self.set_times(i, [*a, *m, *c]);
                        Ok(())
                    }
                }
            }
            Op::SetATime(f, t) | Op::SetMTime(f, t) => {
                let st = match self.fd(*f) {
                    Err(c) => return want_err(out, &c),
                    Ok(x) => x.clone(),
                };
                want_ok(out)?;
                let mut tm = self.n(st.ino).etimes();
                tm[if matches!(op, Op::SetATime(..)) { 0 } else { 1 }] = *t;
                self.set_times(st.ino, tm);
                Ok(())
            }
            Op::GetStat(f) => match self.fd(*f) {
                Err(c) => want_err(out, &c),
                Ok(st) => {
                    want_ok(out)?;
                    let exp = Out::Stat(self.n(st.ino).dir, st.flags, st.rights, st.inh);
                    if *out != exp {
                        return mis(Class::Fd, format!("stat {} expected {}", out.short(), exp.short()));
                    }
                    Ok(())
                }
            },
            Op::SetStat(f, flags, rights) => {
                let num = self.fdnum(*f).unwrap();
                let st = match self.fd(*f) {
                    Err(c) => return want_err(out, &c),
                    Ok(x) => x.clone(),
                };
                if self.n(st.ino).dir && flags & (1 | 4) != 0 {
                    return want_err(out, &vec![BADF]);
                }
                want_ok(out)?;
                let s = self.fds.get_mut(&num).unwrap();
                s.flags = *flags & 31;
                s.rights = *rights;
                Ok(())
            }
            Op::Meta(f) => {
                if let Some(n) = self.fdnum(*f) {
                    if n <= 2 {
                        return match out {
                            Out::Trap(m) => mis(Class::Trap, m.clone()),
                            _ => Ok(()),
                        };
                    }
                }
                match self.fd(*f) {
                    Err(c) => want_err(out, &c),
                    Ok(st) => {
                        want_ok(out)?;
                        let i = st.ino;
                        match out {
                            Out::Meta(m) => self.check_meta(i, m),
                            _ => mis(Class::Value, "no metadata".into()),
                        }
                    }
                }
            }
            Op::OpenMeta { d, p } => {
                let r = self.fdir(*d).and_then(|dir| self.resolve(dir, p));
                match r {
                    Err(c) => want_err(out, &c),
                    Ok(i) => {
                        want_ok(out)?;
                        match out {
                            Out::Meta(m) => self.check_meta(i, m),
                            _ => mis(Class::Value, "no metadata".into()),
                        }
                    }
                }
            }
            Op::Advice(f, _, _) | Op::Allocate(f, _, _) => {
                if let Some(n) = self.fdnum(*f) {
                    if n <= 2 {
                        return match out {
                            Out::Trap(m) => mis(Class::Trap, m.clone()),
                            _ => Ok(()),
                        };
                    }
                }
                match self.ffile(*f) {
                    Err(c) => want_err(out, &c),
                    Ok(_) => want_ok(out),
                }
            }
            Op::List(f, start, limit) => match self.fdir(*f) {
                Err(c) => want_err(out, &c),
                Ok(d) => {
                    want_ok(out)?;
                    match out {
                        Out::List(l) => self.check_listing(d, *start, *limit, l, true),
                        _ => mis(Class::Value, "no list".into()),
                    }
                }
            },
            Op::Page(f, start, _n) => match self.fdir(*f) {
                Err(c) => want_err(out, &c),
                Ok(d) => {
                    want_ok(out)?;
                    match out {
                        Out::List(l) => self.check_listing(d, *start, 0, l, true),
                        _ => mis(Class::Value, "no list".into()),
                    }
                }
            },
            Op::Entry(f, idx) => match self.fdir(*f) {
                Err(c) => want_err(out, &c),
                Ok(d) => {
                    // positions are answers of the implementation: use the known ones
                    let mut exp: Option<(String, Ino)> = None;
                    let mut all = true;
                    for (n, i) in &self.n(d).entries {
                        match self.pos.get(&(d, n.to_string())) {
                            Some(p) if p == idx => exp = Some((n.to_string(), *i)),
                            Some(_) => {}
                            None => all = false,
                        }
                    }
                    match (exp, out) {
                        (_, Out::Trap(m)) => mis(Class::Trap, m.clone()),
                        (Some((n, i)), Out::List(l)) => {
                            if l.len() != 1 || l[0].name != n.as_bytes() {
                                return mis(Class::Tree, format!("entry at {idx} is not {n:?}"));
                            }
                            self.bind_node(i, l[0].node).map_err(|m| Mis { class: Class::Tree, msg: m.msg })
                        }
                        (Some((n, _)), o) => mis(Class::Tree, format!("entry {n:?} at {idx} not returned: {}", o.short())),
                        (None, Out::List(l)) => {
                            if all {
                                mis(Class::Tree, format!("nothing is at {idx}, got {:?}", l))
                            } else {
                                self.check_listing(d, Some(0), 0, l, false)
                            }
                        }
                        (None, o) => {
                            if all {
                                want_err(o, &vec![NOENT])
                            } else {
                                Ok(())
                            }
                        }
                    }
                }
            },
            Op::Mount { p, m, pol } => {
                let p = p.strip_prefix('/').unwrap_or(p);
                let r = self.open(F::Root, p, CREATE, 0, 0);
                let i = match r {
                    Err(c) => return want_err(out, &c),
                    Ok((i, _)) => i,
                };
                if self.n(i).dir {
                    return want_err(out, &vec![BADF]);
                }
                if self.n(i).mount.is_some() {
                    return want_err(out, &vec![DEVBUSY]);
                }
                let cur = env.pages[*m as usize] * 65536;
                let old = self.n(i).mm.as_ref().map(|x| x.size);
                let size = match pol {
                    Pol::Explicit(s) => *s,
                    Pol::Pages => cur,
                    Pol::PrevZero => old.filter(|o| *o <= cur).unwrap_or(0),
                    Pol::PrevPages => old.filter(|o| *o <= cur).unwrap_or(cur),
                };
                let n = self.n(i);
                let mut mm = n.mm.clone().unwrap_or(MMeta { size: 0, times: n.times, limit: n.limit });
                if size > mm.limit.unwrap_or(MAX_FILE_SIZE).min(MAX_FILE_SIZE) {
                    return want_err(out, &vec![FBIG]);
                }
                want_ok(out)?;
                mm.size = size;
                let n = self.nm(i);
                n.mm = Some(mm);
                n.mount = Some(*m);
                Ok(())
            }
            Op::Unmount(p) | Op::Init(p) | Op::Store(p) => {
                let p = p.strip_prefix('/').unwrap_or(p);
                let r = self.open(F::Root, p, 0, 0, 0);
                let i = match r {
                    Err(c) => return want_err(out, &c),
                    Ok((i, _)) => i,
                };
                if self.n(i).dir {
                    return want_err(out, &vec![BADF]);
                }
                let Some(m) = self.n(i).mount else {
                    return want_err(out, &vec![NODEV]);
                };
                match op {
                    Op::Unmount(_) => {
                        want_ok(out)?;
                        self.nm(i).mount = None;
                    }
                    Op::Init(_) => {
                        want_ok(out)?;
                        let n = self.n(i);
                        let (size, data) = (n.size, n.data.clone());
                        let mm = MMeta { size, times: n.times, limit: n.limit };
                        self.mems[m as usize].copy_prefix(&data, size);
                        self.nm(i).mm = Some(mm);
                    }
                    _ => {
                        let n = self.n(i);
                        let mm = n.mm.clone().unwrap();
                        if mm.size > n.limit.unwrap_or(MAX_FILE_SIZE).min(MAX_FILE_SIZE) {
                            return want_err(out, &vec![FBIG]);
                        }
                        want_ok(out)?;
                        let src = self.mems[m as usize].clone();
                        let n = self.nm(i);
                        n.data.truncate(mm.size);
                        n.data.copy_prefix(&src, mm.size);
                        n.size = mm.size;
                        n.times = mm.times;
                        n.limit = mm.limit;
                    }
                }
                Ok(())
            }
            Op::MemWrite { m, off, len } => {
                want_ok(out)?;
                self.mems[*m as usize].write(*off, *len as u64, env.stamp, *off);
                Ok(())
            }
            Op::MemGrow { .. } => Ok(()),
            Op::Restart => {
                want_ok(out)?;
                self.fds.clear();
                self.open_root();
                for i in 0..self.nodes.len() {
                    if self.nodes[i].mount.is_some() {
                        self.nm(i).mount = None;
                    }
                }
                self.def_ct = self.cfg_ct;
                Ok(())
            }
            Op::ChunkType(t) => {
                want_ok(out)?;
                self.def_ct = *t;
                Ok(())
            }
            Op::ChunkSize(s) => {
                if self.transient {
                    return want_ok(out);
                }
                if *s == self.chunk_size {
                    want_ok(out)
                } else if self.pristine {
                    want_ok(out)?;
                    self.chunk_size = *s;
                    Ok(())
                } else {
                    want_err(out, &vec![INVAL])
                }
            }
            Op::FillFiles { d, prefix, n } => {
                want_ok(out)?;
                let dir = self.fdir(*d).unwrap();
                for k in 0..*n {
                    let name = format!("{prefix}{k}");
                    if self.resolve(dir, &name).is_err() {
                        self.create(dir, &name, false, 5).unwrap();
                    }
                }
                Ok(())
            }
            Op::TouchNames { .. } => want_ok(out),
            Op::RmFiles { d, prefix, from, to } => {
                want_ok(out)?;
                let dir = self.fdir(*d).unwrap();
                for k in *from..*to {
                    let name = format!("{prefix}{k}");
                    if let Ok(t) = self.rm_check(dir, &name, Some(false)) {
                        self.do_rm(t);
                    }
                }
                Ok(())
            }
            Op::Seq(_) | Op::B(_) | Op::Reboot | Op::Attach { .. } | Op::AttachBad { .. } => unreachable!("handled elsewhere"),
        }
    }

    fn set_limit(&mut self, i: Ino, l: Option<u64>) {
        let n = self.nm(i);
        if n.mount.is_some() {
            n.mm.as_mut().unwrap().limit = l;
        } else {
            n.limit = l;
        }
    }
    fn set_times(&mut self, i: Ino, t: [u64; 3]) {
        let n = self.nm(i);
        if n.mount.is_some() {
            n.mm.as_mut().unwrap().times = t;
        } else {
            n.times = t;
        }
    }

    fn read_op(&mut self, f: F, lens: &[u32], off: Option<u64>, out: &Out) -> Result<(), Mis> {
        let (num, st) = match self.ffile(f) {
            Err(c) => return want_err(out, &c),
            Ok(x) => x,
        };
        if st.rights & R_READ == 0 {
            return want_err(out, &vec![PERM]);
        }
        let total: u64 = lens.iter().map(|x| *x as u64).sum();
        let exp = self.read_at(st.ino, off.unwrap_or(st.cursor), total);
        Self::check_data(&exp, out)?;
        if off.is_none() {
            self.fds.get_mut(&num).unwrap().cursor += exp.len() as u64;
        }
        Ok(())
    }

    fn write_op(&mut self, f: F, lens: &[u32], off: Option<u64>, out: &Out, stamp: u32) -> Result<(), Mis> {
        let (num, st) = match self.ffile(f) {
            Err(c) => return want_err(out, &c),
            Ok(x) => x,
        };
        if st.rights & R_WRITE == 0 {
            return want_err(out, &vec![PERM]);
        }
        let at = if st.flags & APPEND != 0 { self.n(st.ino).esize() } else { off.unwrap_or(st.cursor) };
        let (w, refused) = self.write_vec(st.ino, at, lens, stamp);
        if refused {
            return want_err(out, &vec![FBIG]);
        }
        Self::check_num(w, out)?;
        if off.is_none() {
            self.fds.get_mut(&num).unwrap().cursor = at + w;
        }
        Ok(())
    }

    /// canonical hash of the abstract state (object numbering by tree walk)
    pub fn hash64(&self) -> u64 {
        let mut h = rustc_hash::FxHasher::default();
        let mut ids: std::collections::HashMap<Ino, usize> = Default::default();
        fn go(m: &Model, i: Ino, h: &mut rustc_hash::FxHasher, ids: &mut std::collections::HashMap<Ino, usize>) {
            if let Some(k) = ids.get(&i) {
                k.hash(h);
                return;
            }
            ids.insert(i, ids.len());
            let n = m.n(i);
            n.dir.hash(h);
            n.links.hash(h);
            n.size.hash(h);
            n.data.hash(h);
            n.times.hash(h);
            n.limit.hash(h);
            n.ct.hash(h);
            n.mm.hash(h);
            n.mount.hash(h);
            let mut es: Vec<_> = n.entries.iter().collect();
            es.sort();
            for (nm, c) in es {
                nm.hash(h);
                go(m, *c, h, ids);
            }
            0xffu8.hash(h);
        }
        go(self, ROOT, &mut h, &mut ids);
        for (n, f) in &self.fds {
            n.hash(&mut h);
            ids.get(&f.ino).hash(&mut h);
            f.cursor.hash(&mut h);
            f.flags.hash(&mut h);
            f.rights.hash(&mut h);
        }
        self.mems.hash(&mut h);
        h.finish()
    }
}
