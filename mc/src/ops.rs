//! Operation alphabet.
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum F {
    /// root descriptor
    Root,
    /// the number last stored in a slot (possibly stale)
    S(u8),
    /// a literal number
    N(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Wh {
    Set,
    Cur,
    End,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Pol {
    PrevZero,
    PrevPages,
    Explicit(u64),
    Pages,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum MetaChange {
    Same,
    Node,
    Type,
    Size(u64),
    Limit(Option<u64>),
    Times(u64, u64, u64),
    /// several attributes in one call
    Combo { node: bool, ty: bool, size: Option<u64>, limit: Option<Option<u64>>, times: bool },
    /// what the file system itself maintains
    Links(u64),
    Layout(Option<u8>),
    Obsolete(u32),
}

pub const CREATE: u16 = 1;
pub const DIRECTORY: u16 = 2;
pub const EXCL: u16 = 4;
pub const TRUNC: u16 = 8;
pub const APPEND: u16 = 1;
pub const ALL_RIGHTS: u64 = (1 << 28) - 1;
pub const R_READ: u64 = 1 << 1;
pub const R_WRITE: u64 = 1 << 6;
pub const DOT: u32 = u32::MAX - 5;
pub const DOTDOT: u32 = u32::MAX - 4;
pub const MAX_FILE_SIZE: u64 = (u32::MAX as u64 - 10) * 4096;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    /// open; the descriptor is kept in a slot, or closed again at once when slot is None
    Open { d: F, p: String, of: u16, ff: u16, rights: u64, t: u64, slot: Option<u8> },
    Mkdir { d: F, p: String, t: u64 },
    OpenDir { d: F, p: String, t: u64, slot: Option<u8> },
    RmFile { d: F, p: String },
    RmDir { d: F, p: String },
    RmRec { d: F, p: String },
    Link { d: F, p: String, d2: F, p2: String, slot: Option<u8> },
    Rename { d: F, p: String, d2: F, p2: String, slot: Option<u8> },
    Close(F),
    Flush(F),
    Renumber(F, F),
    Read(F, u32),
    ReadV(F, Vec<u32>),
    PReadV(F, Vec<u32>, u64),
    Write(F, u32),
    WriteV(F, Vec<u32>),
    PWriteV(F, Vec<u32>, u64),
    /// open-write-close convenience: write `len` bytes at `off` through a fresh descriptor
    Put { p: String, off: u64, len: u32 },
    Seek(F, i64, Wh),
    Tell(F),
    SetSize(F, u64),
    SetLimit(F, u64),
    SetMeta(F, MetaChange),
    SetATime(F, u64),
    SetMTime(F, u64),
    GetStat(F),
    SetStat(F, u16, u64),
    Meta(F),
    OpenMeta { d: F, p: String },
    /// every kind of advice for a range
    Advice(F, u64, u64),
    Allocate(F, u64, u64),
    /// list directory from a start index, stopping after n entries (0 = never)
    List(F, Option<u32>, u32),
    /// page through a directory: n entries per page, resuming at the next reported index
    Page(F, Option<u32>, u32),
    Entry(F, u32),
    Mount { p: String, m: u8, pol: Pol },
    Unmount(String),
    Init(String),
    Store(String),
    MemWrite { m: u8, off: u64, len: u32 },
    MemGrow { m: u8, pages: u64 },
    Restart,
    ChunkType(u8),
    ChunkSize(u32),
    /// bulk helpers (deterministic loops of ordinary calls), used to reach thresholds
    FillFiles { d: F, prefix: String, n: u32 },
    TouchNames { d: F, prefix: String, from: u32, to: u32 },
    RmFiles { d: F, prefix: String, from: u32, to: u32 },
    /// sequence of operations run as one step (for setups)
    Seq(Vec<Op>),
    /// the operation is done by the second file system (twin mode)
    B(Box<Op>),
    /// the program is restarted: the shared memory manager and both file systems are re-opened (twin mode)
    Reboot,
    /// attach a file system to a range of memory indices
    Attach { from: u8, to: u8 },
    /// attach to an image after one field of its format markers was changed
    AttachBad { what: Corrupt, val: u64 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Corrupt {
    /// format version in the header
    Version,
    /// the same, on an image that lacks the newer regions and carries the older allocator marker
    VersionOld,
    /// marker of the chunk allocator
    Marker,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MetaOut {
    pub node: u64,
    pub dir: bool,
    pub links: u64,
    pub size: u64,
    pub times: [u64; 3],
    pub ct: Option<u8>,
    pub limit: Option<u64>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ent {
    pub idx: u32,
    pub name: Vec<u8>,
    pub node: u64,
    pub ty: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Out {
    Unit,
    Num(u64),
    Fd(u32),
    Data(Vec<u8>, u64),
    Meta(MetaOut),
    Stat(bool, u16, u64, u64),
    List(Vec<Ent>),
    Err(String),
    Trap(String),
}

impl Out {
    pub fn short(&self) -> String {
        match self {
            Out::Data(d, n) => {
                let mut runs: Vec<(u8, usize)> = vec![];
                for b in d.iter() {
                    match runs.last_mut() {
                        Some((x, c)) if x == b => *c += 1,
                        _ => runs.push((*b, 1)),
                    }
                    if runs.len() > 12 {
                        break;
                    }
                }
                format!("Data(n={n}, {} bytes, runs {:?}..)", d.len(), runs)
            }
            Out::List(l) => format!(
                "List[{}{}]",
                l.iter()
                    .take(20)
                    .map(|e| format!("{}:{}->{}", e.idx, String::from_utf8_lossy(&e.name), e.node))
                    .collect::<Vec<_>>()
                    .join(", "),
                if l.len() > 20 { format!(" .. {} entries", l.len()) } else { String::new() }
            ),
            o => {
                let s = format!("{o:?}");
                if s.len() > 400 {
                    s.chars().take(400).collect()
                } else {
                    s
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Class {
    Trap,
    /// succeeded where it must fail or the reverse
    OkErr,
    /// wrong error code
    Code,
    /// wrong returned value
    Value,
    Tree,
    Content,
    Attr,
    Times,
    ChunkType,
    Fd,
    Mem,
    Fsck,
    Leak,
    Persist,
    Hang,
    Other,
}

#[derive(Clone, Debug)]
pub struct Mis {
    pub class: Class,
    pub msg: String,
}

pub fn mis<T>(class: Class, msg: String) -> Result<T, Mis> {
    Err(Mis { class, msg })
}
