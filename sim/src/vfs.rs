//! The simulated file system: page cache, durable state, and disk faults.
use crate::net::{self, Kind};
use crate::rng::Rng;
use crate::sched::{self, Wait};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub const STORE_DIR: &str = "/data";
pub const STORE: &str = "/data/store.bin";
pub const BLOCKS: &str = "/blocks";
const PAGE: usize = 4096;

#[derive(Clone, Default)]
pub struct Inode {
    pub dir: bool,
    pub entries: BTreeMap<String, usize>,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug)]
pub enum Meta {
    Link(usize, String, usize),
    Unlink(usize, String),
    Rename(usize, String, usize, String),
    Size(usize, usize),
    Mk(usize, bool),
}
pub struct Fault {
    pub op: String,    // open read write fsync rename stat readdir create
    pub class: String, // store blk any
    pub skip: u64,
    pub count: u64,
    pub errno: i32,
    pub part: u64, // percent of the data written before a write error
}
pub struct Vfs {
    pub ino: BTreeMap<usize, Inode>,
    pub dur: BTreeMap<usize, Inode>,
    pub journal: Vec<Meta>,
    pub dirty: BTreeMap<usize, BTreeSet<usize>>,
    pub next: usize,
    pub faults: Vec<Fault>,
    pub delays: Vec<(String, String, u64, u64)>, // operation, class, skip, ns
    pub blk_last: u64, // when a block file was last touched
    pub short_pm: u64,
    pub eintr_pm: u64,
    pub rng: Rng,
    pub slow: Option<(u64, u64)>, // ns per operation, ns per KiB
    pub space: Option<u64>,       // bytes left under /data
    pub fd_limit: u64,
    pub cur_write: Option<(usize, u64, Vec<u8>)>,
    pub blk_opens: u64,
    pub store_muts: u64,
    pub bytes_read: u64,
    pub snap_writes: u64,
}

pub fn class_of(path: &str) -> &'static str {
    if path.starts_with("/data") {
        "store"
    } else if path.starts_with("/blocks") {
        "blk"
    } else {
        "other"
    }
}

impl Vfs {
    pub fn new(seed: u64) -> Vfs {
        let mut v = Vfs {
            ino: BTreeMap::new(),
            dur: BTreeMap::new(),
            journal: Vec::new(),
            dirty: BTreeMap::new(),
            next: 1,
            faults: Vec::new(),
            delays: Vec::new(),
            blk_last: 0,
            short_pm: 0,
            eintr_pm: 0,
            rng: Rng::new(seed),
            slow: None,
            space: None,
            fd_limit: 0,
            cur_write: None,
            blk_opens: 0,
            store_muts: 0,
            bytes_read: 0,
            snap_writes: 0,
        };
        v.ino.insert(1, Inode { dir: true, ..Default::default() });
        v.next = 2;
        for d in ["data", "blocks", "tmp"] {
            let i = v.next;
            v.next += 1;
            v.ino.insert(i, Inode { dir: true, ..Default::default() });
            v.ino.get_mut(&1).unwrap().entries.insert(d.into(), i);
        }
        v.dur = v.ino.clone();
        v
    }
    fn split(path: &str) -> Vec<&str> {
        path.split('/').filter(|s| !s.is_empty() && *s != ".").collect()
    }
    pub fn lookup(&self, path: &str) -> Result<usize, i32> {
        let mut i = 1;
        for p in Self::split(path) {
            let n = &self.ino[&i];
            if !n.dir {
                return Err(libc::ENOTDIR);
            }
            i = *n.entries.get(p).ok_or(libc::ENOENT)?;
        }
        Ok(i)
    }
    pub fn parent(&self, path: &str) -> Result<(usize, String), i32> {
        let s = Self::split(path);
        let Some((last, init)) = s.split_last() else { return Err(libc::EEXIST) };
        let mut i = 1;
        for p in init {
            let n = &self.ino[&i];
            if !n.dir {
                return Err(libc::ENOTDIR);
            }
            i = *n.entries.get(*p).ok_or(libc::ENOENT)?;
        }
        if !self.ino[&i].dir {
            return Err(libc::ENOTDIR);
        }
        Ok((i, last.to_string()))
    }
    pub fn path_of(&self, ino: usize) -> String {
        fn rec(v: &Vfs, at: usize, want: usize, p: &mut Vec<String>) -> bool {
            for (n, i) in &v.ino[&at].entries {
                p.push(n.clone());
                if *i == want || (v.ino.get(i).map(|x| x.dir).unwrap_or(false) && rec(v, *i, want, p)) {
                    return true;
                }
                p.pop();
            }
            false
        }
        let mut p = Vec::new();
        rec(self, 1, ino, &mut p);
        format!("/{}", p.join("/"))
    }
    /// The node (or the set-up) writes a file directly, durably.
    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        let (d, n) = self.parent(path).unwrap();
        let i = match self.ino[&d].entries.get(&n) {
            Some(i) => *i,
            None => {
                let i = self.next;
                self.next += 1;
                self.ino.get_mut(&d).unwrap().entries.insert(n.clone(), i);
                self.dur.get_mut(&d).unwrap().entries.insert(n, i);
                i
            }
        };
        let node = Inode { dir: false, entries: BTreeMap::new(), data };
        self.dur.insert(i, node.clone());
        self.ino.insert(i, node);
    }
    pub fn mkdir_setup(&mut self, path: &str) {
        let (d, n) = self.parent(path).unwrap();
        let i = self.next;
        self.next += 1;
        for t in [&mut self.ino, &mut self.dur] {
            t.get_mut(&d).unwrap().entries.insert(n.clone(), i);
            t.insert(i, Inode { dir: true, ..Default::default() });
        }
    }
    pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
        self.lookup(path).ok().map(|i| &self.ino[&i].data)
    }
    pub fn clear_dir(&mut self, path: &str) {
        if let Ok(d) = self.lookup(path) {
            self.ino.get_mut(&d).unwrap().entries.clear();
            self.dur.get_mut(&d).unwrap().entries.clear();
        }
    }
    pub fn fault(&mut self, op: &str, class: &str) -> Option<(i32, u64)> {
        for i in 0..self.faults.len() {
            let f = &mut self.faults[i];
            if f.op == op && (f.class == class || f.class == "any") {
                if f.skip > 0 {
                    f.skip -= 1;
                    continue;
                }
                let r = (f.errno, f.part);
                if f.count > 0 {
                    f.count -= 1;
                    if f.count == 0 {
                        self.faults.remove(i);
                    }
                }
                return Some(r);
            }
        }
        None
    }
    fn apply_meta(t: &mut BTreeMap<usize, Inode>, m: &Meta) {
        match m {
            Meta::Mk(i, dir) => {
                t.insert(*i, Inode { dir: *dir, ..Default::default() });
            }
            Meta::Link(d, n, i) => {
                t.get_mut(d).unwrap().entries.insert(n.clone(), *i);
            }
            Meta::Unlink(d, n) => {
                t.get_mut(d).unwrap().entries.remove(n);
            }
            Meta::Rename(d1, n1, d2, n2) => {
                if let Some(i) = t.get_mut(d1).unwrap().entries.remove(n1) {
                    t.get_mut(d2).unwrap().entries.insert(n2.clone(), i);
                }
            }
            Meta::Size(i, s) => {
                if let Some(x) = t.get_mut(i) {
                    x.data.resize(*s, 0);
                }
            }
        }
    }
    fn meta(&mut self, m: Meta) {
        Self::apply_meta(&mut self.ino, &m);
        self.journal.push(m);
    }
    pub fn commit_all(&mut self) {
        let j = std::mem::take(&mut self.journal);
        for m in &j {
            Self::apply_meta(&mut self.dur, m);
        }
    }
    pub fn fsync(&mut self, ino: usize) {
        // /data is a file system of its own
        let p = self.path_of(ino);
        if ino != 1 && !p.starts_with("/tmp") && !p.starts_with("/blocks") {
            self.commit_all();
        }
        let d = self.ino[&ino].data.clone();
        if let Some(x) = self.dur.get_mut(&ino) {
            x.data = d;
        }
        self.dirty.remove(&ino);
        if self.journal.is_empty() && self.ino.len() > 40 {
            self.gc();
        }
    }
    /// Forget files that no directory lists and nobody has open.
    fn gc(&mut self) {
        let mut keep: BTreeSet<usize> = crate::net::open_inodes().into_iter().collect();
        for t in [&self.ino, &self.dur] {
            for n in t.values() {
                keep.extend(n.entries.values());
            }
        }
        keep.insert(1);
        self.ino.retain(|i, _| keep.contains(i));
        self.dur.retain(|i, _| keep.contains(i));
        self.dirty.retain(|i, _| keep.contains(i));
    }
    /// Everything reaches the disk (a long quiet time).
    pub fn sync_all(&mut self) {
        self.commit_all();
        let l: Vec<usize> = self.dirty.keys().copied().collect();
        for i in l {
            if self.ino.contains_key(&i) {
                self.fsync(i);
            }
        }
        self.dirty.clear();
    }
    /// Power fails: an arbitrary prefix of the metadata journal and an arbitrary subset of the dirty sectors survive.
    pub fn power_loss(&mut self, rng: &mut Rng) {
        let n = match rng.below(4) {
            0 => 0,
            1 => self.journal.len() as u64,
            _ => rng.below(self.journal.len() as u64 + 1),
        } as usize;
        let j: Vec<Meta> = self.journal.drain(..).collect();
        for m in &j[..n] {
            Self::apply_meta(&mut self.dur, m);
        }
        let mode = rng.below(3);
        for (i, pages) in std::mem::take(&mut self.dirty) {
            let (Some(src), Some(dst)) = (self.ino.get(&i), self.dur.get_mut(&i)) else { continue };
            for p in pages {
                for s in 0..PAGE / 512 {
                    let keep = match mode {
                        0 => false,
                        1 => true,
                        _ => rng.pct(50),
                    };
                    let a = p * PAGE + s * 512;
                    let b = (a + 512).min(src.data.len()).min(dst.data.len());
                    if keep && a < b {
                        dst.data[a..b].copy_from_slice(&src.data[a..b]);
                    }
                }
            }
        }
        self.ino = self.dur.clone();
    }
    pub fn used_now(&self) -> u64 {
        self.used_by_data()
    }
    fn used_by_data(&self) -> u64 {
        fn rec(v: &Vfs, i: usize) -> u64 {
            let n = &v.ino[&i];
            if n.dir {
                n.entries.values().map(|x| rec(v, *x)).sum()
            } else {
                (n.data.len() as u64 + 511) / 512 * 512
            }
        }
        self.lookup("/data").map(|i| rec(self, i)).unwrap_or(0)
    }
    pub fn do_write(&mut self, ino: usize, pos: u64, b: &[u8]) {
        let end = pos as usize + b.len();
        let n = self.ino.get_mut(&ino).unwrap();
        if end > n.data.len() {
            self.meta(Meta::Size(ino, end));
        }
        let n = self.ino.get_mut(&ino).unwrap();
        n.data[pos as usize..end].copy_from_slice(b);
        if !b.is_empty() {
            let d = self.dirty.entry(ino).or_default();
            for p in pos as usize / PAGE..=(end - 1) / PAGE {
                d.insert(p);
            }
        }
    }
}

/// The disk takes its time: the calling thread sleeps.
fn slow(bytes: u64) {
    let wd = w();
    if let Some((op, kb)) = wd.vfs.slow {
        let d = op + kb * (bytes / 1024 + 1);
        let until = wd.now + d;
        wd.busy(d);
        wd.disk_slow_ns += d;
        wd.stat("fault.disk_slow_op", 1);
        sched::block(Wait::Sleep, Some(until));
    }
}
fn pre(op: &str, class: &'static str) -> Option<(i32, u64)> {
    point(match (op, class) {
        ("open", "store") => "vfs:open:store",
        ("open", "blk") => "vfs:open:blk",
        ("read", "blk") => "vfs:read:blk",
        ("read", "store") => "vfs:read:store",
        ("write", "store") => "vfs:write:store",
        ("fsync", "store") => "vfs:fsync:store",
        ("rename", "store") => "vfs:rename:store",
        _ => "vfs:other",
    });
    if class == "store" && op != "open" && op != "read" && op != "stat" {
        w().vfs.store_muts += 1;
        point("vfs:mut");
    }
    let wd = w();
    if class == "blk" {
        wd.vfs.blk_last = wd.now;
    }
    if let Some(i) = wd.vfs.delays.iter().position(|d| d.0 == op && d.1 == class) {
        if wd.vfs.delays[i].2 > 0 {
            wd.vfs.delays[i].2 -= 1;
        } else {
            let d = wd.vfs.delays.remove(i).3;
            let until = wd.now + d;
            wd.busy(d);
            wd.disk_slow_ns += d;
            wd.stat("fault.disk_slow_once", 1);
            sched::block(Wait::Sleep, Some(until));
        }
    }
    let wd = w();
    let f = wd.vfs.fault(op, class);
    if let Some((e, _)) = f {
        wd.stat(&format!("fault.disk_{}_{}", op, class), 1);
        wd.excuse(&format!("{}-{}-error", class, op));
        wd.note(format!("disk fault: {} on {} fails with errno {}", op, class, e));
    }
    f
}

pub fn open(path: &str, flags: i32) -> i32 {
    if class_of(path) != "other" {
        w().touch(path);
    }
    let class = class_of(path);
    sched::yield_point(40);
    if class == "store" && flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
        crate::res::writing(path);
        if let Some((e, _)) = pre("create", class) {
            return -e;
        }
    }
    if let Some((e, _)) = pre("open", class) {
        return -e;
    }
    slow(0);
    let wd = w();
    if !net::fd_room() {
        wd.stat("fault.no_fds", 1);
        wd.excuse("no-descriptors");
        return -libc::EMFILE;
    }
    let v = &mut wd.vfs;
    let ino = match v.lookup(path) {
        Ok(i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return -libc::EEXIST;
            }
            i
        }
        Err(e) => {
            if e != libc::ENOENT || flags & libc::O_CREAT == 0 {
                return -e;
            }
            let (d, n) = match v.parent(path) {
                Ok(x) => x,
                Err(e) => return -e,
            };
            let i = v.next;
            v.next += 1;
            v.meta(Meta::Mk(i, false));
            v.meta(Meta::Link(d, n, i));
            i
        }
    };
    let n = &v.ino[&ino];
    if n.dir {
        if flags & libc::O_ACCMODE != libc::O_RDONLY {
            return -libc::EISDIR;
        }
        return net::install(Kind::Dir { ino }, false);
    }
    if flags & libc::O_DIRECTORY != 0 {
        return -libc::ENOTDIR;
    }
    if flags & libc::O_TRUNC != 0 && !n.data.is_empty() {
        v.meta(Meta::Size(ino, 0));
        v.dirty.remove(&ino);
    }
    if class == "blk" {
        v.blk_opens += 1;
        crate::oracle::block_file_opened();
    }
    let wd = w();
    wd.lg(41, crate::world::fnv(path.as_bytes()));
    wd.tr(|| format!("open {} flags {:#x}", path, flags));
    net::install(Kind::File { ino, pos: 0, flags }, false)
}
fn file(fd: i32) -> Result<(usize, usize, u64, i32), i32> {
    let d = net::desc_of(fd).ok_or(libc::EBADF)?;
    match &net::desc(d).kind {
        Kind::File { ino, pos, flags } => Ok((d, *ino, *pos, *flags)),
        Kind::Dir { ino } => Ok((d, *ino, 0, 0)),
        _ => Err(libc::EINVAL),
    }
}
fn set_pos(d: usize, p: u64) {
    if let Kind::File { pos, .. } = &mut net::desc(d).kind {
        *pos = p;
    }
}
pub fn class_ino(ino: usize) -> &'static str {
    // an unlinked file counts as the store's
    let p = w().vfs.path_of(ino);
    if p.starts_with("/blocks") {
        "blk"
    } else if p.starts_with("/tmp") {
        "other"
    } else {
        "store"
    }
}
pub fn read(fd: i32, buf: &mut [u8], at: Option<u64>) -> i64 {
    sched::yield_point(42);
    let (d, ino, pos, _) = match file(fd) {
        Ok(x) => x,
        Err(e) => return -e as i64,
    };
    let class = class_ino(ino);
    if w().vfs.ino[&ino].dir {
        return -libc::EISDIR as i64;
    }
    if let Some((e, _)) = pre("read", class) {
        return -e as i64;
    }
    slow(buf.len() as u64);
    let wd = w();
    let v = &mut wd.vfs;
    let p = at.unwrap_or(pos);
    let data = &v.ino[&ino].data;
    let avail = (data.len() as u64).saturating_sub(p) as usize;
    let mut n = buf.len().min(avail);
    if n > 0 {
        if v.eintr_pm > 0 && v.rng.below(1000) < v.eintr_pm {
            wd.stat("fault.disk_eintr", 1);
            return -libc::EINTR as i64;
        }
        if n > 1 && v.short_pm > 0 && v.rng.below(1000) < v.short_pm {
            n = v.rng.range(1, n as u64 - 1) as usize;
            wd.stat("fault.disk_short_read", 1);
        }
    }
    if n == 0 {
        return 0; // at or past the end
    }
    let v = &mut w().vfs;
    buf[..n].copy_from_slice(&v.ino[&ino].data[p as usize..p as usize + n]);
    v.bytes_read += n as u64;
    if at.is_none() {
        set_pos(d, p + n as u64);
    }
    w().now += (n as u64) / 16;
    w().lg(43, n as u64);
    n as i64
}
pub fn write(fd: i32, b: &[u8], at: Option<u64>) -> i64 {
    sched::yield_point(44);
    let (d, ino, pos, flags) = match file(fd) {
        Ok(x) => x,
        Err(e) => return -e as i64,
    };
    if flags & libc::O_ACCMODE == libc::O_RDONLY {
        return -libc::EBADF as i64;
    }
    let class = class_ino(ino);
    let wd = w();
    let p = if flags & libc::O_APPEND != 0 { wd.vfs.ino[&ino].data.len() as u64 } else { at.unwrap_or(pos) };
    wd.vfs.cur_write = Some((ino, p, b.to_vec()));
    let f = pre("write", class);
    let wd = w();
    wd.vfs.cur_write = None;
    if let Some((e, part)) = f {
        let n = b.len() as u64 * part.min(100) / 100;
        if n > 0 && (n as usize) < b.len() {
            // the system call reports the part that was written; the error comes with the next one
            wd.vfs.do_write(ino, p, &b[..n as usize]);
            if at.is_none() {
                set_pos(d, p + n);
            }
            wd.vfs.faults.push(Fault { op: "write".into(), class: class.into(), skip: 0, count: 1, errno: e, part: 0 });
            return n as i64;
        }
        return -e as i64;
    }
    slow(b.len() as u64);
    let wd = w();
    let v = &mut wd.vfs;
    let mut n = b.len();
    if n > 0 {
        if v.eintr_pm > 0 && v.rng.below(1000) < v.eintr_pm {
            wd.stat("fault.disk_eintr", 1);
            return -libc::EINTR as i64;
        }
        if n > 1 && v.short_pm > 0 && v.rng.below(1000) < v.short_pm {
            n = v.rng.logu(1, n as u64 - 1) as usize;
            wd.stat("fault.disk_short_write", 1);
        }
    }
    let v = &mut w().vfs;
    if class == "store" {
        if let Some(cap) = v.space {
            let used = v.used_by_data();
            let grow = (p as usize + n).saturating_sub(v.ino[&ino].data.len()) as u64;
            if used + grow > cap {
                let room = cap.saturating_sub(used);
                let keep = n as u64 - (used + grow - cap).min(n as u64);
                let keep = keep.min(room + n as u64);
                w().stat("fault.disk_full", 1);
                w().excuse("disk-full");
                if keep == 0 {
                    w().note("disk fault: write fails, disk full".into());
                    return -libc::ENOSPC as i64;
                }
                n = keep as usize;
            }
        }
    }
    let v = &mut w().vfs;
    v.do_write(ino, p, &b[..n]);
    v.snap_writes += 1;
    if at.is_none() {
        set_pos(d, p + n as u64);
    }
    w().now += (n as u64) / 16;
    w().lg(45, n as u64);
    n as i64
}
pub fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    sched::yield_point(46);
    let (d, ino, pos, _) = match file(fd) {
        Ok(x) => x,
        Err(e) => return -e as i64,
    };
    if whence == 0 && class_ino(ino) == "blk" {
        if let Some((e, _)) = pre("seek", "blk") {
            return -e as i64;
        }
    }
    let len = w().vfs.ino[&ino].data.len() as i64;
    let p = match whence {
        0 => off,
        1 => pos as i64 + off,
        2 => len + off,
        _ => return -libc::EINVAL as i64,
    };
    if p < 0 {
        return -libc::EINVAL as i64;
    }
    set_pos(d, p as u64);
    p
}
pub fn fsync(fd: i32) -> i32 {
    sched::yield_point(47);
    let (_, ino, _, _) = match file(fd) {
        Ok(x) => x,
        Err(e) => return -e,
    };
    let class = class_ino(ino);
    if let Some((e, _)) = pre("fsync", class) {
        return -e;
    }
    slow(0);
    w().vfs.fsync(ino);
    w().tr(|| format!("fsync inode {}", ino));
    0
}
pub fn ftruncate(fd: i32, n: u64) -> i32 {
    sched::yield_point(48);
    let (_, ino, _, _) = match file(fd) {
        Ok(x) => x,
        Err(e) => return -e,
    };
    if let Some((e, _)) = pre("truncate", class_ino(ino)) {
        return -e;
    }
    w().vfs.meta(Meta::Size(ino, n as usize));
    0
}
pub fn rename(a: &str, b: &str) -> i32 {
    if class_of(b) != "other" {
        w().touch(b);
    }
    sched::yield_point(49);
    if let Some((e, _)) = pre("rename", class_of(b)) {
        return -e;
    }
    slow(0);
    let v = &mut w().vfs;
    let i = match v.lookup(a) {
        Ok(i) => i,
        Err(e) => return -e,
    };
    let ((d1, n1), (d2, n2)) = match (v.parent(a), v.parent(b)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) | (_, Err(e)) => return -e,
    };
    if let Ok(j) = v.lookup(b) {
        if v.ino[&j].dir != v.ino[&i].dir {
            return if v.ino[&j].dir { -libc::EISDIR } else { -libc::ENOTDIR };
        }
    }
    if (d1, &n1) != (d2, &n2) {
        v.meta(Meta::Rename(d1, n1, d2, n2));
    }
    w().lg(50, crate::world::fnv(b.as_bytes()));
    w().tr(|| format!("rename {} -> {}", a, b));
    0
}
pub fn unlink(p: &str, dir: bool) -> i32 {
    if class_of(p) != "other" {
        w().touch(p);
    }
    sched::yield_point(51);
    if let Some((e, _)) = pre("unlink", class_of(p)) {
        return -e;
    }
    let v = &mut w().vfs;
    match v.lookup(p) {
        Ok(i) => {
            let n = &v.ino[&i];
            if n.dir != dir {
                return if dir { -libc::ENOTDIR } else { -libc::EISDIR };
            }
            if dir && !n.entries.is_empty() {
                return -libc::ENOTEMPTY;
            }
            let (d, n) = v.parent(p).unwrap();
            v.meta(Meta::Unlink(d, n));
            0
        }
        Err(e) => -e,
    }
}
pub fn mkdir(p: &str) -> i32 {
    if class_of(p) != "other" {
        w().touch(p);
    }
    sched::yield_point(52);
    if let Some((e, _)) = pre("mkdir", class_of(p)) {
        return -e;
    }
    let v = &mut w().vfs;
    if v.lookup(p).is_ok() {
        return -libc::EEXIST;
    }
    match v.parent(p) {
        Ok((d, n)) => {
            let i = v.next;
            v.next += 1;
            v.meta(Meta::Mk(i, true));
            v.meta(Meta::Link(d, n, i));
            0
        }
        Err(e) => -e,
    }
}
pub fn stat(p: &str) -> Result<(usize, bool, u64), i32> {
    if class_of(p) != "other" {
        w().touch(p);
    }
    sched::yield_point(53);
    if let Some((e, _)) = pre("stat", class_of(p)) {
        return Err(e);
    }
    let v = &w().vfs;
    let i = v.lookup(p)?;
    Ok((i, v.ino[&i].dir, v.ino[&i].data.len() as u64))
}
pub fn fstat(fd: i32) -> Result<(usize, bool, u64), i32> {
    sched::yield_point(54);
    let (_, ino, _, _) = file(fd)?;
    let n = &w().vfs.ino[&ino];
    Ok((ino, n.dir, n.data.len() as u64))
}
/// Entries of a directory in an order the file system likes (seeded).
pub fn list(ino: usize) -> Vec<(String, bool, usize)> {
    let v = &mut w().vfs;
    let mut l: Vec<(String, bool, usize)> = v.ino[&ino].entries.iter().map(|(n, i)| (n.clone(), v.ino[i].dir, *i)).collect();
    v.rng.shuffle(&mut l);
    l.push((".".into(), true, ino));
    l.push(("..".into(), true, 1));
    l
}
pub fn readdir_fault() -> Option<i32> {
    pre("readdir", "blk").map(|x| x.0)
}
