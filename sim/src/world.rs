//! The simulated machine one session runs on: disk, descriptors, clock, faults, other processes.
use crate::program::raw_path;
use crate::rng::mix;
use crate::vfs::*;
use libc::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// File content in programs: readable text, optionally with one byte that is not UTF-8.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Blob {
    pub text: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub bad: Option<u32>,
    /// the text is repeated this many times (0 and 1: once)
    #[serde(default)]
    pub rep: u32,
}
impl Blob {
    pub fn new(text: &str) -> Blob {
        Blob { text: text.to_string(), bad: None, rep: 0 }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.text.repeat(self.rep.max(1) as usize).into_bytes();
        if let Some(b) = self.bad {
            // what is not UTF-8 about it, and where
            let (at, what): (usize, &[u8]) = match b >> 28 {
                0..=7 => (b as usize % (v.len() + 1), &[0xff]),
                8 => (b as usize % (v.len() + 1), &[0x80]),
                9 => (b as usize % (v.len() + 1), &[0xe9]),
                10 => (b as usize % (v.len() + 1), &[0xed, 0xa0, 0x80]),
                11 => (b as usize % (v.len() + 1), &[0xc0, 0xaf]),
                12 => (0, &[0xff, 0xfe]),
                13 => (v.len(), &[0xe2, 0x82]),
                14 => (v.len(), &[0xf0, 0x9f, 0x99]),
                _ => (v.len(), &[0xc3]),
            };
            v.splice(at..at, what.iter().copied());
        }
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Class {
    Any,
    Open,
    Read,
    Write,
    Stat,
    Realpath,
    Opendir,
    Readdir,
    Close,
    Seek,
    Sync,
    Change,
}
pub const NCLASS: usize = 12;

/// What another process (or the rest of this one) does to the machine.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ext {
    Write { path: String, data: Blob, keep_mtime: bool },
    Trunc { path: String, len: u32 },
    Append { path: String, data: Blob },
    Replace { path: String, data: Blob },
    Unlink { path: String },
    Mkdir { path: String },
    Retarget { link: String, target: String },
    Chmod { path: String, mode: u32 },
    Rename { from: String, to: String },
    Fill { left: u32 },
    Free,
    Announce { path: String, size: Option<u64> },
    Clock { delta_s: i64 },
    Chdir { dir: String },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Errno(i32),
    Short(u32),
    /// transfers some bytes, yet reports an error
    Torn(u32, i32),
    Zero,
    /// this call and every later one of its class within the operation fails
    Lasting(i32),
    Kill { torn: u32, after: bool },
    Ext(Ext),
    Stall(u32),
}

/// Fires at the nth call (from 0) of `class` within the operation it is attached to.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Trig {
    pub class: Class,
    pub nth: u32,
    pub act: Act,
}

pub struct OpenFile {
    pub ino: Ino,
    pub pos: u64,
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub path: Vec<u8>,
    pub served: Vec<u8>,
    pub contiguous: bool,
    pub eof: bool,
}

/// Bytes the file system served through one descriptor.
#[derive(Clone, Debug)]
pub struct Stream {
    pub ino: Ino,
    pub path: Vec<u8>,
    pub served: Vec<u8>,
    pub contiguous: bool,
    pub eof: bool,
}

pub struct SimDir {
    pub entries: Vec<(Vec<u8>, Ino, u8)>,
    pub pos: usize,
    pub fd: i32,
    pub ent: dirent64,
}

#[derive(Default, Clone)]
pub struct Limit {
    pub short: Option<usize>,
    pub torn: Option<(usize, i32)>,
    pub zero: bool,
}

/// No operation needs this many system calls, whatever it works on.
const RUNAWAY: u32 = 1_000_000;
pub const RAN_AWAY: i32 = 71;

pub const FD_BASE: i32 = 1 << 20;

pub struct World {
    pub vfs: Vfs,
    pub cwd: Vec<u8>,
    pub fds: BTreeMap<i32, OpenFile>,
    pub dirs: BTreeMap<usize, i32>,
    pub next_fd: i32,
    pub now: u64,
    /// how much of that is clock jumps rather than time passing
    pub jumped: i64,
    pub seed: u64,
    pub rand_ctr: u64,
    pub dead: bool,
    kill_pending: bool,
    pub read_chunk: usize,
    pub write_chunk: usize,
    pub coarse_clock: bool,
    // per operation
    pub trigs: Vec<Trig>,
    pub counts: [u32; NCLASS],
    lasting: Vec<(Class, i32)>,
    /// calls that met a lasting failure in this operation
    pub lasting_hits: u32,
    pub streams: Vec<Stream>,
    pub fired: Vec<&'static str>,
    /// faults other than benign ones (retryable, short, slow) fired in this operation
    pub hard_faults: u32,
    /// error codes the calls of the running operation were answered with
    pub errs: Vec<i32>,
    /// writes of the running operation that took nothing
    pub nothing_taken: u32,
    pub ext_in_op: u32,
    pub ext_touched: BTreeSet<Ino>,
    pub ext_paths: BTreeSet<Vec<u8>>,
    pub editor_opened: Vec<Vec<u8>>,
    // whole run
    pub syscalls: u64,
    pub hash: u64,
    pub trace: Option<Vec<String>>,
    pub stats: BTreeMap<&'static str, u64>,
}

fn errname(e: i32) -> &'static str {
    match e {
        EINTR => "EINTR",
        EIO => "EIO",
        ENOSPC => "ENOSPC",
        EDQUOT => "EDQUOT",
        EACCES => "EACCES",
        EPERM => "EPERM",
        EMFILE => "EMFILE",
        ENFILE => "ENFILE",
        ENOENT => "ENOENT",
        EROFS => "EROFS",
        ELOOP => "ELOOP",
        ESTALE => "ESTALE",
        ENOMEM => "ENOMEM",
        ETIMEDOUT => "ETIMEDOUT",
        EBUSY => "EBUSY",
        EFBIG => "EFBIG",
        EAGAIN => "EAGAIN",
        _ => "errno",
    }
}

impl World {
    pub fn new(seed: u64) -> World {
        World {
            vfs: Vfs::new(),
            cwd: b"/".to_vec(),
            fds: BTreeMap::new(),
            dirs: BTreeMap::new(),
            next_fd: FD_BASE,
            now: 1_700_000_000_000_000_000,
            jumped: 0,
            seed,
            rand_ctr: 0,
            dead: false,
            kill_pending: false,
            read_chunk: usize::MAX,
            write_chunk: usize::MAX,
            coarse_clock: false,
            trigs: Vec::new(),
            counts: [0; NCLASS],
            lasting: Vec::new(),
            lasting_hits: 0,
            streams: Vec::new(),
            fired: Vec::new(),
            hard_faults: 0,
            errs: Vec::new(),
            nothing_taken: 0,
            ext_in_op: 0,
            ext_touched: BTreeSet::new(),
            ext_paths: BTreeSet::new(),
            editor_opened: Vec::new(),
            syscalls: 0,
            hash: 0xcbf29ce484222325,
            trace: None,
            stats: BTreeMap::new(),
        }
    }

    pub fn begin_op(&mut self, trigs: &[Trig]) {
        self.trigs = trigs.to_vec();
        self.counts = [0; NCLASS];
        self.lasting.clear();
        self.lasting_hits = 0;
        self.streams.clear();
        self.fired.clear();
        self.hard_faults = 0;
        self.errs.clear();
        self.nothing_taken = 0;
        self.ext_in_op = 0;
        self.ext_touched.clear();
        self.ext_paths.clear();
        self.editor_opened.clear();
    }
    pub fn end_op(&mut self) {
        self.trigs.clear();
        let open: Vec<i32> = self.fds.keys().copied().collect();
        for fd in open {
            let f = &self.fds[&fd];
            self.streams.push(Stream {
                ino: f.ino,
                path: f.path.clone(),
                served: f.served.clone(),
                contiguous: f.contiguous,
                eof: f.eof,
            });
        }
    }

    pub fn note(&mut self, data: &[u8]) {
        for b in data {
            self.hash = (self.hash ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        self.hash = mix(self.hash);
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f());
        }
    }
    fn stat_inc(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }

    pub fn mtime_now(&self) -> u64 {
        if self.coarse_clock {
            self.now / 1_000_000_000 * 1_000_000_000
        } else {
            self.now
        }
    }

    /// Start of a system call by the program under test.
    fn enter(&mut self, class: Class, what: &str, arg: &[u8]) -> Result<Limit, i32> {
        if arg.starts_with(b"/proc/") || arg.starts_with(b"/sys/") {
            // the runtime asking about its machine, once per process: no part of the session
            return Err(ENOENT);
        }
        self.syscalls += 1;
        self.now += 10_000;
        if self.counts[0] > RUNAWAY {
            // whoever watches over this process takes it from here
            unsafe { _exit(RAN_AWAY) };
        }
        if self.dead {
            self.counts[0] += 1;
            return Err(EIO);
        }
        let any = self.counts[0];
        let nth = self.counts[class as usize];
        self.counts[0] += 1;
        self.counts[class as usize] += 1;
        self.note(&[class as u8]);
        self.note(arg);
        self.log(|| format!("    sys {} {}", what, String::from_utf8_lossy(arg)));
        let mut lim = Limit::default();
        let mut res: Result<(), i32> = Ok(());
        if self.trigs.is_empty() {
            return Ok(lim);
        }
        let mut lasting = None;
        let hits: Vec<Act> = self
            .trigs
            .iter()
            .filter(|t| (t.class == class && t.nth == nth) || (t.class == Class::Any && t.nth == any))
            .map(|t| t.act.clone())
            .collect();
        for act in hits {
            if self.dead {
                break;
            }
            self.log(|| format!("      !! {:?}", act));
            match act {
                Act::Ext(e) => {
                    self.stat_inc(ext_name(&e));
                    self.fired.push(ext_name(&e));
                    self.ext_in_op += 1;
                    self.ext(&e);
                }
                Act::Stall(ms) => {
                    self.stat_inc("stall");
                    self.now += ms as u64 * 1_000_000;
                }
                Act::Errno(e) => {
                    if class == Class::Close && e != EINTR {
                        // the descriptor is released anyway; nothing stored is lost
                        self.stat_inc("close_error");
                        self.fired.push("close_error");
                        res = Err(e);
                        continue;
                    }
                    self.stat_inc(match (class, e) {
                        (Class::Open, EINTR) => "open:EINTR",
                        (Class::Read, EINTR) => "read:EINTR",
                        (Class::Write, EINTR) => "write:EINTR",
                        (Class::Open, _) => "open:error",
                        (Class::Read, _) => "read:error",
                        (Class::Write, ENOSPC) => "write:ENOSPC",
                        (Class::Write, _) => "write:error",
                        (Class::Stat, _) => "stat:error",
                        (Class::Realpath, _) => "realpath:error",
                        (Class::Opendir, _) => "opendir:error",
                        (Class::Readdir, _) => "readdir:error",
                        _ => "other:error",
                    });
                    self.fired.push(errname(e));
                    let benign = e == EINTR && matches!(class, Class::Open | Class::Read | Class::Write | Class::Close);
                    if !benign {
                        self.hard_faults += 1;
                    }
                    res = Err(e);
                }
                Act::Lasting(e) => {
                    if class != Class::Close {
                        self.lasting.push((class, e));
                    }
                }
                Act::Short(n) => {
                    if matches!(class, Class::Read | Class::Write) {
                        self.stat_inc(if class == Class::Read { "read:short" } else { "write:short" });
                        self.fired.push("short");
                        lim.short = Some((n as usize).max(1));
                    }
                }
                Act::Torn(n, e) => {
                    if class == Class::Write {
                        self.stat_inc("write:torn");
                        self.fired.push("torn");
                        self.hard_faults += 1;
                        lim.torn = Some((n as usize, e));
                    }
                }
                Act::Zero => {
                    if class == Class::Write {
                        self.stat_inc("write:zero");
                        self.fired.push("zero");
                        self.hard_faults += 1;
                        lim.zero = true;
                    }
                }
                Act::Kill { torn, after } => {
                    self.stat_inc("kill");
                    self.fired.push("kill");
                    self.hard_faults += 1;
                    if class == Class::Write && torn > 0 {
                        lim.short = Some(torn as usize);
                        self.kill_pending = true;
                    } else if after {
                        self.kill_pending = true;
                    } else {
                        self.dead = true;
                        res = Err(EIO);
                    }
                }
            }
        }
        if let Some((_, e)) = self.lasting.iter().find(|(c, _)| *c == class) {
            lasting = Some(*e);
        }
        if let Some(e) = lasting {
            if self.lasting_hits == 0 {
                self.stat_inc("lasting_error");
                self.fired.push("lasting");
            }
            self.lasting_hits += 1;
            self.hard_faults += 1;
            res = Err(e);
        }
        res.map(|_| lim)
    }

    /// End of a system call: a kill that was due takes effect once the call's effect is on disk.
    fn leave<T>(&mut self, r: Result<T, i32>) -> Result<T, i32> {
        if self.kill_pending {
            self.kill_pending = false;
            self.dead = true;
        }
        if let Err(e) = &r {
            let e = *e;
            self.note(&e.to_le_bytes());
            self.log(|| format!("      -> errno {} {}", e, errname(e)));
        }
        r
    }

    fn may_write_dir(&self, dir: Ino) -> Result<(), i32> {
        if self.vfs.get(dir).mode & 0o300 == 0o300 {
            Ok(())
        } else {
            Err(EACCES)
        }
    }

    fn new_fd(&mut self, f: OpenFile) -> i32 {
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, f);
        fd
    }

    fn base_path(&self, dirfd: i32, path: &[u8]) -> Result<Vec<u8>, i32> {
        if path.first() == Some(&b'/') || dirfd == AT_FDCWD {
            return Ok(path.to_vec());
        }
        let f = self.fds.get(&dirfd).ok_or(EBADF)?;
        let mut p = f.path.clone();
        p.push(b'/');
        p.extend_from_slice(path);
        Ok(p)
    }

    pub fn sys_open(&mut self, dirfd: i32, path: &[u8], flags: i32, mode: u32) -> Result<i32, i32> {
        let r = match self.enter(Class::Open, "open", path) {
            Err(e) => Err(e),
            Ok(_) => self.do_open(dirfd, path, flags, mode),
        };
        self.leave(r)
    }
    fn do_open(&mut self, dirfd: i32, path: &[u8], flags: i32, mode: u32) -> Result<i32, i32> {
        let path = &self.base_path(dirfd, path)?[..];
        let acc = flags & O_ACCMODE;
        let (rd, wr) = (acc == O_RDONLY || acc == O_RDWR, acc == O_WRONLY || acc == O_RDWR);
        if flags & O_TMPFILE == O_TMPFILE {
            return Err(EOPNOTSUPP);
        }
        let excl = flags & O_CREAT != 0 && flags & O_EXCL != 0;
        let w = self.vfs.walk_for(&self.cwd, path, flags & O_NOFOLLOW == 0 && !excl, flags & O_CREAT != 0)?;
        let real = w.path();
        let now = self.mtime_now();
        let ino = match w.ino() {
            None => {
                if flags & O_CREAT == 0 {
                    return Err(ENOENT);
                }
                if w.slash {
                    return Err(EISDIR);
                }
                let (dir, name) = w.parent();
                if !self.vfs.is_dir(dir) {
                    return Err(ENOTDIR);
                }
                self.may_write_dir(dir)?;
                self.vfs.add(dir, &name, Node::File(Rc::new(Vec::new())), mode & 0o777 & !0o022, now)
            }
            Some(ino) => {
                if excl {
                    return Err(EEXIST);
                }
                match &self.vfs.get(ino).node {
                    Node::Link(_) => return Err(ELOOP),
                    Node::Dir(_) => {
                        if wr || flags & O_CREAT != 0 {
                            return Err(EISDIR);
                        }
                    }
                    Node::File(_) => {
                        if flags & O_DIRECTORY != 0 {
                            return Err(ENOTDIR);
                        }
                    }
                }
                let m = self.vfs.get(ino).mode;
                if (rd && m & 0o400 == 0) || (wr && m & 0o200 == 0) {
                    return Err(EACCES);
                }
                if flags & O_TRUNC != 0 && wr {
                    let i = self.vfs.get_mut(ino);
                    if let Node::File(d) = &mut i.node {
                        *d = Rc::new(Vec::new());
                        i.mtime = now;
                    }
                }
                ino
            }
        };
        if wr {
            self.editor_opened.push(real.clone());
        }
        Ok(self.new_fd(OpenFile {
            ino,
            pos: 0,
            read: rd,
            write: wr,
            append: flags & O_APPEND != 0,
            path: real,
            served: Vec::new(),
            contiguous: true,
            eof: false,
        }))
    }

    /// `at`: positional read (pread); None uses and advances the descriptor's position.
    pub fn sys_read(&mut self, fd: i32, out: &mut [u8], at: Option<u64>) -> Result<usize, i32> {
        let r = match self.enter(Class::Read, "read", &(out.len() as u32).to_le_bytes()[..0]) {
            Err(e) => Err(e),
            Ok(lim) => self.do_read(fd, out, at, lim),
        };
        if let Ok(n) = r {
            self.note(&(n as u64).to_le_bytes());
            self.log(|| format!("      -> {} bytes", n));
        }
        self.leave(r)
    }
    fn do_read(&mut self, fd: i32, out: &mut [u8], at: Option<u64>, lim: Limit) -> Result<usize, i32> {
        let chunk = self.read_chunk;
        let f = self.fds.get_mut(&fd).ok_or(EBADF)?;
        if !f.read {
            return Err(EBADF);
        }
        let data = match &self.vfs.inodes[&f.ino].node {
            Node::File(d) => d.clone(),
            _ => return Err(EISDIR),
        };
        let pos = at.unwrap_or(f.pos) as usize;
        let avail = data.len().saturating_sub(pos);
        let n = out.len().min(avail).min(chunk).min(lim.short.unwrap_or(usize::MAX));
        if n > 0 {
            out[..n].copy_from_slice(&data[pos..pos + n]);
        }
        if pos == f.served.len() {
            f.served.extend_from_slice(&data[pos.min(data.len())..(pos + n).min(data.len())]);
            if n == 0 && !out.is_empty() {
                f.eof = true;
            } else if n > 0 {
                f.eof = false;
            }
        } else if n > 0 {
            f.contiguous = false;
        }
        if at.is_none() {
            f.pos += n as u64;
        }
        Ok(n)
    }

    pub fn sys_write(&mut self, fd: i32, data: &[u8], at: Option<u64>) -> Result<usize, i32> {
        let r = match self.enter(Class::Write, "write", &[]) {
            Err(e) => Err(e),
            Ok(lim) => self.do_write(fd, data, at, lim),
        };
        if let Ok(n) = r {
            self.note(&(n as u64).to_le_bytes());
            self.log(|| format!("      -> {} of {} bytes", n, data.len()));
        }
        self.leave(r)
    }
    fn do_write(&mut self, fd: i32, data: &[u8], at: Option<u64>, lim: Limit) -> Result<usize, i32> {
        let chunk = self.write_chunk;
        let used = self.vfs.used();
        let cap = self.vfs.capacity;
        let now = self.mtime_now();
        let f = self.fds.get_mut(&fd).ok_or(EBADF)?;
        if !f.write {
            return Err(EBADF);
        }
        if lim.zero || data.is_empty() {
            self.nothing_taken += lim.zero as u32;
            return Ok(0);
        }
        let mut n = data.len().min(chunk).min(lim.short.unwrap_or(usize::MAX));
        if let Some((t, _)) = lim.torn {
            n = n.min(t);
        }
        let inode = self.vfs.inodes.get_mut(&f.ino).ok_or(EBADF)?;
        let file = match &mut inode.node {
            Node::File(d) => d,
            _ => return Err(EISDIR),
        };
        let pos = if f.append { file.len() } else { at.unwrap_or(f.pos) as usize };
        if let Some(cap) = cap {
            let grow_room = cap.saturating_sub(used) as usize;
            let room = (file.len().max(pos) - pos) + grow_room;
            if n > 0 && room == 0 {
                return Err(ENOSPC);
            }
            n = n.min(room);
        }
        let buf = Rc::make_mut(file);
        if n > 0 {
            if buf.len() < pos {
                buf.resize(pos, 0);
            }
            let end = pos + n;
            if buf.len() < end {
                buf.resize(end, 0);
            }
            buf[pos..end].copy_from_slice(&data[..n]);
            inode.mtime = now;
        }
        // a call that reports an error has not moved the position, whatever reached the disk
        if at.is_none() && lim.torn.is_none() {
            f.pos = (pos + n) as u64;
        }
        match lim.torn {
            Some((_, e)) => Err(e),
            None => Ok(n),
        }
    }

    pub fn sys_close(&mut self, fd: i32) -> Result<(), i32> {
        let r = self.enter(Class::Close, "close", &[]).map(|_| ());
        match self.fds.remove(&fd) {
            // A handle the checker has already reported (and forgotten) as leaked.
            None => return self.leave(Ok(())),
            Some(f) => {
                self.drop_orphan(f.ino);
                if self.dead {
                    return self.leave(Ok(()));
                }
                self.streams.push(Stream {
                    ino: f.ino,
                    path: f.path,
                    served: f.served,
                    contiguous: f.contiguous,
                    eof: f.eof,
                });
            }
        }
        self.leave(r)
    }
    fn drop_orphan(&mut self, ino: Ino) {
        if self.fds.values().any(|f| f.ino == ino) {
            return;
        }
        if self.vfs.inodes.get(&ino).map(|i| i.nlink == 0).unwrap_or(false) {
            self.vfs.inodes.remove(&ino);
        }
    }

    pub fn sys_lseek(&mut self, fd: i32, off: i64, whence: i32) -> Result<i64, i32> {
        let r = self.enter(Class::Seek, "lseek", &[]).and_then(|_| {
            let f = self.fds.get(&fd).ok_or(EBADF)?;
            let len = match &self.vfs.get(f.ino).node {
                Node::File(d) => d.len() as i64,
                _ => 0,
            };
            let base = match whence {
                SEEK_SET => 0,
                SEEK_CUR => f.pos as i64,
                SEEK_END => len,
                _ => return Err(EINVAL),
            };
            let p = base.checked_add(off).ok_or(EINVAL)?;
            if p < 0 {
                return Err(EINVAL);
            }
            self.fds.get_mut(&fd).unwrap().pos = p as u64;
            Ok(p)
        });
        self.leave(r)
    }

    pub fn sys_ftruncate(&mut self, fd: i32, len: i64) -> Result<(), i32> {
        let now = self.mtime_now();
        let r = self.enter(Class::Change, "ftruncate", &[]).and_then(|_| {
            let f = self.fds.get(&fd).ok_or(EBADF)?;
            if !f.write || len < 0 {
                return Err(EINVAL);
            }
            let i = self.vfs.inodes.get_mut(&f.ino).unwrap();
            match &mut i.node {
                Node::File(d) => {
                    Rc::make_mut(d).resize(len as usize, 0);
                    i.mtime = now;
                    Ok(())
                }
                _ => Err(EINVAL),
            }
        });
        self.leave(r)
    }

    pub fn sys_sync(&mut self) -> Result<(), i32> {
        let r = self.enter(Class::Sync, "fsync", &[]).map(|_| ());
        self.leave(r)
    }

    /// Returns (inode number, inode data) for any stat flavour.
    pub fn sys_stat(&mut self, dirfd: i32, path: Option<&[u8]>, follow: bool) -> Result<(Ino, u32, u64, u64, u32), i32> {
        let r = self.enter(Class::Stat, "stat", path.unwrap_or(b"<fd>")).and_then(|_| {
            let ino = match path {
                None => self.fds.get(&dirfd).ok_or(EBADF)?.ino,
                Some(p) => {
                    let p = self.base_path(dirfd, p)?;
                    self.vfs.lookup(&self.cwd, &p, follow)?
                }
            };
            let i = self.vfs.get(ino);
            let (kind, size) = match &i.node {
                Node::File(d) => (S_IFREG, i.announced.unwrap_or(d.len() as u64)),
                Node::Dir(_) => (S_IFDIR, 4096),
                Node::Link(t) => (S_IFLNK, t.len() as u64),
            };
            Ok((ino, kind | i.mode, size, i.mtime, i.nlink))
        });
        self.leave(r)
    }

    pub fn sys_access(&mut self, dirfd: i32, path: &[u8], amode: i32) -> Result<(), i32> {
        let r = self.enter(Class::Stat, "access", path).and_then(|_| {
            let p = self.base_path(dirfd, path)?;
            let ino = self.vfs.lookup(&self.cwd, &p, true)?;
            let m = self.vfs.get(ino).mode;
            if (amode & R_OK != 0 && m & 0o400 == 0)
                || (amode & W_OK != 0 && m & 0o200 == 0)
                || (amode & X_OK != 0 && m & 0o100 == 0)
            {
                return Err(EACCES);
            }
            Ok(())
        });
        self.leave(r)
    }

    pub fn sys_realpath(&mut self, path: &[u8]) -> Result<Vec<u8>, i32> {
        let r = self
            .enter(Class::Realpath, "realpath", path)
            .and_then(|_| self.vfs.realpath(&self.cwd, path));
        self.leave(r)
    }

    pub fn sys_readlink(&mut self, dirfd: i32, path: &[u8]) -> Result<Vec<u8>, i32> {
        let r = self.enter(Class::Realpath, "readlink", path).and_then(|_| {
            let p = self.base_path(dirfd, path)?;
            let ino = self.vfs.lookup(&self.cwd, &p, false)?;
            match &self.vfs.get(ino).node {
                Node::Link(t) => Ok(t.clone()),
                _ => Err(EINVAL),
            }
        });
        self.leave(r)
    }

    pub fn sys_chdir(&mut self, path: &[u8]) -> Result<(), i32> {
        let r = self.enter(Class::Change, "chdir", path).and_then(|_| {
            let w = self.vfs.walk(&self.cwd, path, true)?;
            let ino = w.ino().ok_or(ENOENT)?;
            if !self.vfs.is_dir(ino) {
                return Err(ENOTDIR);
            }
            if self.vfs.get(ino).mode & 0o100 == 0 {
                return Err(EACCES);
            }
            self.cwd = w.path();
            Ok(())
        });
        self.leave(r)
    }
    pub fn sys_getcwd(&mut self) -> Result<Vec<u8>, i32> {
        let r = self.enter(Class::Stat, "getcwd", &[]).map(|_| self.cwd.clone());
        self.leave(r)
    }

    /// The folder that holds (or would hold) the last component of a path, that component as it
    /// is written, whether slashes follow it, and what it denotes (links not followed).
    #[allow(clippy::type_complexity)]
    fn slot(&self, path: &[u8]) -> Result<(Ino, Vec<u8>, bool, Result<Option<Ino>, i32>), i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() > 4095 {
            return Err(ENAMETOOLONG);
        }
        let end = path.iter().rposition(|b| *b != b'/').map(|i| i + 1).unwrap_or(0);
        let slash = end < path.len();
        let at = path[..end].iter().rposition(|b| *b == b'/').map(|i| i + 1).unwrap_or(0);
        let name = path[at..end].to_vec();
        let dir = match &path[..at] {
            b"" if end == 0 => b"/",
            b"" => &b"."[..],
            d => d,
        };
        let dir = self.vfs.walk(&self.cwd, dir, true)?.ino().ok_or(ENOENT)?;
        let i = self.vfs.get(dir);
        let entries = match &i.node {
            Node::Dir(e) => e,
            _ => return Err(ENOTDIR),
        };
        if i.mode & 0o100 == 0 {
            return Err(EACCES);
        }
        let ino = if name.len() > 255 { Err(ENAMETOOLONG) } else { Ok(entries.get(&name).copied()) };
        Ok((dir, name, slash, ino))
    }

    pub fn sys_mkdir(&mut self, path: &[u8], mode: u32) -> Result<(), i32> {
        let now = self.mtime_now();
        let r = self.enter(Class::Change, "mkdir", path).and_then(|_| {
            let (d, n, _, ino) = self.slot(path)?;
            if matches!(&n[..], b"" | b"." | b"..") || ino?.is_some() {
                return Err(EEXIST);
            }
            self.may_write_dir(d)?;
            self.vfs.add(d, &n, Node::Dir(BTreeMap::new()), mode & 0o777 & !0o022, now);
            Ok(())
        });
        self.leave(r)
    }

    pub fn sys_unlink(&mut self, dirfd: i32, path: &[u8], rmdir: bool) -> Result<(), i32> {
        let r = self.enter(Class::Change, "unlink", path).and_then(|_| {
            let p = self.base_path(dirfd, path)?;
            let (d, n, slash, ino) = self.slot(&p)?;
            match (&n[..], rmdir) {
                (b".", true) => return Err(EINVAL),
                (b"..", true) => return Err(ENOTEMPTY),
                (b"", true) => return Err(EBUSY),
                (b"." | b".." | b"", false) => return Err(EISDIR),
                _ => (),
            }
            let ino = ino?.ok_or(ENOENT)?;
            if slash && !rmdir {
                return Err(if self.vfs.is_dir(ino) { EISDIR } else { ENOTDIR });
            }
            self.may_write_dir(d)?;
            match &self.vfs.get(ino).node {
                Node::Dir(e) => {
                    if !rmdir {
                        return Err(EISDIR);
                    }
                    if !e.is_empty() {
                        return Err(ENOTEMPTY);
                    }
                }
                _ => {
                    if rmdir {
                        return Err(ENOTDIR);
                    }
                }
            }
            let open: Vec<Ino> = self.fds.values().map(|f| f.ino).collect();
            self.vfs.detach(d, &n, &|i| open.contains(&i));
            Ok(())
        });
        self.leave(r)
    }

    pub fn sys_rename(&mut self, from: &[u8], to: &[u8], noreplace: bool) -> Result<(), i32> {
        let r = self.enter(Class::Change, "rename", to).and_then(|_| self.do_rename(from, to, noreplace, true));
        self.leave(r)
    }
    /// Is directory `a` the directory `b` or somewhere above it?
    fn above(&self, a: Ino, b: Ino) -> bool {
        a == b
            || match &self.vfs.get(a).node {
                Node::Dir(e) => e.values().any(|c| self.vfs.is_dir(*c) && self.above(*c, b)),
                _ => false,
            }
    }
    fn do_rename(&mut self, from: &[u8], to: &[u8], noreplace: bool, perm: bool) -> Result<(), i32> {
        let (ad, an, aslash, a) = self.slot(from)?;
        let (bd, bn, bslash, b) = self.slot(to)?;
        if [&an, &bn].iter().any(|n| matches!(&n[..], b"" | b"." | b"..")) {
            return Err(EBUSY);
        }
        let ino = a?.ok_or(ENOENT)?;
        let b = b?;
        if noreplace && b.is_some() {
            return Err(EEXIST);
        }
        let dir = self.vfs.is_dir(ino);
        if !dir && (aslash || bslash) {
            return Err(ENOTDIR);
        }
        // a directory cannot move below itself, nor replace one that holds it
        if dir && self.above(ino, bd) {
            return Err(EINVAL);
        }
        if b.is_some_and(|t| self.vfs.is_dir(t) && self.above(t, ad)) {
            return Err(ENOTEMPTY);
        }
        if b == Some(ino) {
            return Ok(());
        }
        if perm {
            self.may_write_dir(ad)?;
            self.may_write_dir(bd)?;
        }
        if let Some(t) = b {
            match (&self.vfs.get(ino).node, &self.vfs.get(t).node) {
                (Node::Dir(_), Node::Dir(_)) => (),
                (Node::Dir(_), _) => return Err(ENOTDIR),
                (_, Node::Dir(_)) => return Err(EISDIR),
                _ => (),
            }
        }
        if perm && dir && ad != bd && self.vfs.get(ino).mode & 0o200 == 0 {
            // its ".." has to change
            return Err(EACCES);
        }
        if b.is_some_and(|t| matches!(&self.vfs.get(t).node, Node::Dir(e) if !e.is_empty())) {
            return Err(ENOTEMPTY);
        }
        if b.is_some() {
            let open: Vec<Ino> = self.fds.values().map(|f| f.ino).collect();
            self.vfs.detach(bd, &bn, &|i| open.contains(&i));
        }
        if let Node::Dir(e) = &mut self.vfs.get_mut(ad).node {
            e.remove(&an);
        }
        if let Node::Dir(e) = &mut self.vfs.get_mut(bd).node {
            e.insert(bn, ino);
        }
        Ok(())
    }

    pub fn sys_link(&mut self, from: &[u8], to: &[u8], sym: bool) -> Result<(), i32> {
        let now = self.mtime_now();
        let r = self.enter(Class::Change, "link", to).and_then(|_| {
            let old = match sym {
                true if from.is_empty() => return Err(ENOENT),
                true if from.len() > 4095 => return Err(ENAMETOOLONG),
                true => None,
                false => Some(self.vfs.lookup(&self.cwd, from, false)?),
            };
            let (d, n, slash, ino) = self.slot(to)?;
            if matches!(&n[..], b"" | b"." | b"..") || ino?.is_some() {
                return Err(EEXIST);
            }
            if slash {
                return Err(ENOENT);
            }
            self.may_write_dir(d)?;
            match old {
                None => {
                    self.vfs.add(d, &n, Node::Link(from.to_vec()), 0o777, now);
                }
                Some(ino) => {
                    if self.vfs.is_dir(ino) {
                        return Err(EPERM);
                    }
                    self.vfs.get_mut(ino).nlink += 1;
                    if let Node::Dir(e) = &mut self.vfs.get_mut(d).node {
                        e.insert(n, ino);
                    }
                }
            }
            Ok(())
        });
        self.leave(r)
    }

    pub fn sys_chmod(&mut self, fd: Option<i32>, path: &[u8], mode: u32) -> Result<(), i32> {
        let r = self.enter(Class::Change, "chmod", path).and_then(|_| {
            let ino = match fd {
                Some(fd) => self.fds.get(&fd).ok_or(EBADF)?.ino,
                None => self.vfs.lookup(&self.cwd, path, true)?,
            };
            self.vfs.get_mut(ino).mode = mode & 0o777;
            Ok(())
        });
        self.leave(r)
    }

    pub fn sys_dup(&mut self, fd: i32) -> Result<i32, i32> {
        let r = self.enter(Class::Change, "dup", &[]).and_then(|_| {
            let f = self.fds.get(&fd).ok_or(EBADF)?;
            // Position is not shared between the copies; nothing in std relies on it here.
            let c = OpenFile {
                ino: f.ino,
                pos: f.pos,
                read: f.read,
                write: f.write,
                append: f.append,
                path: f.path.clone(),
                served: f.served.clone(),
                contiguous: f.contiguous,
                eof: f.eof,
            };
            Ok(self.new_fd(c))
        });
        self.leave(r)
    }

    pub fn sys_opendir(&mut self, path: &[u8]) -> Result<SimDir, i32> {
        let r = self.enter(Class::Opendir, "opendir", path).and_then(|_| {
            let w = self.vfs.walk(&self.cwd, path, true)?;
            let ino = w.ino().ok_or(ENOENT)?;
            let i = self.vfs.get(ino);
            let entries = match &i.node {
                Node::Dir(e) => e,
                _ => return Err(ENOTDIR),
            };
            if i.mode & 0o400 == 0 {
                return Err(EACCES);
            }
            let mut list: Vec<(Vec<u8>, Ino, u8)> = entries
                .iter()
                .map(|(n, ino)| {
                    let t = match self.vfs.get(*ino).node {
                        Node::File(_) => DT_REG,
                        Node::Dir(_) => DT_DIR,
                        Node::Link(_) => DT_LNK,
                    };
                    (n.clone(), *ino, t)
                })
                .collect();
            list.push((b".".to_vec(), ino, DT_DIR));
            list.push((b"..".to_vec(), ROOT, DT_DIR));
            // Directory order is arbitrary: the seed decides it.
            let seed = self.seed;
            list.sort_by_key(|(n, i, _)| {
                let mut h = seed ^ *i;
                for b in n {
                    h = mix(h ^ *b as u64);
                }
                h
            });
            let fd = self.new_fd(OpenFile {
                ino,
                pos: 0,
                read: true,
                write: false,
                append: false,
                path: w.path(),
                served: Vec::new(),
                contiguous: false,
                eof: false,
            });
            Ok(SimDir { entries: list, pos: 0, fd, ent: unsafe { std::mem::zeroed() } })
        });
        self.leave(r)
    }

    pub fn sys_readdir(&mut self, d: &mut SimDir) -> Result<bool, i32> {
        let r = self.enter(Class::Readdir, "readdir", &[]).map(|_| {
            if d.pos >= d.entries.len() {
                return false;
            }
            let (n, ino, t) = &d.entries[d.pos];
            d.pos += 1;
            d.ent = unsafe { std::mem::zeroed() };
            d.ent.d_ino = *ino;
            d.ent.d_off = d.pos as i64;
            d.ent.d_type = *t;
            for (i, b) in n.iter().enumerate() {
                d.ent.d_name[i] = *b as c_char;
            }
            d.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
            true
        });
        self.leave(r)
    }

    pub fn rand_bytes(&mut self, out: &mut [u8]) {
        for b in out.iter_mut() {
            self.rand_ctr += 1;
            *b = mix(self.seed ^ self.rand_ctr) as u8;
        }
    }

    // ---- other processes -------------------------------------------------------------------

    fn touched(&mut self, path: &[u8]) {
        if let Ok(w) = self.vfs.walk(&self.cwd, path, true) {
            self.ext_paths.insert(w.path());
            if let Some(i) = w.ino() {
                self.ext_touched.insert(i);
            }
        }
        if let Ok(w) = self.vfs.walk(&self.cwd, path, false) {
            self.ext_paths.insert(w.path());
            if let Some(i) = w.ino() {
                self.ext_touched.insert(i);
            }
        }
    }

    /// Other processes are not bound by the editor's permissions; impossible actions do nothing.
    pub fn ext(&mut self, e: &Ext) {
        if self.dead {
            return;
        }
        self.now += 1_000_000;
        let now = self.mtime_now();
        let cwd = self.cwd.clone();
        let open: Vec<Ino> = self.fds.values().map(|f| f.ino).collect();
        match e {
            Ext::Write { path, data, keep_mtime } => {
                let p = &raw_path(path);
                self.touched(p);
                if let Ok(w) = self.vfs.walk(&cwd, p, true) {
                    match w.ino() {
                        Some(i) => {
                            let i = self.vfs.get_mut(i);
                            if let Node::File(d) = &mut i.node {
                                *d = Rc::new(data.bytes());
                                if !keep_mtime {
                                    i.mtime = now;
                                }
                            }
                        }
                        None => {
                            let (d, n) = w.parent();
                            if self.vfs.is_dir(d) && !w.slash {
                                self.vfs.add(d, &n, Node::File(Rc::new(data.bytes())), 0o644, now);
                            }
                        }
                    }
                }
                self.touched(p);
            }
            Ext::Trunc { path, len } => {
                self.touched(&raw_path(path));
                if let Ok(i) = self.vfs.lookup(&cwd, &raw_path(path), true) {
                    let i = self.vfs.get_mut(i);
                    if let Node::File(d) = &mut i.node {
                        let n = (*len as usize).min(d.len());
                        Rc::make_mut(d).truncate(n);
                        i.mtime = now;
                    }
                }
            }
            Ext::Append { path, data } => {
                self.touched(&raw_path(path));
                if let Ok(i) = self.vfs.lookup(&cwd, &raw_path(path), true) {
                    let i = self.vfs.get_mut(i);
                    if let Node::File(d) = &mut i.node {
                        Rc::make_mut(d).extend_from_slice(&data.bytes());
                        i.mtime = now;
                    }
                }
            }
            Ext::Replace { path, data } => {
                let p = &raw_path(path);
                self.touched(p);
                if let Ok(w) = self.vfs.walk(&cwd, p, true) {
                    let (d, n) = w.parent();
                    let isdir = w.ino().map(|i| self.vfs.is_dir(i)).unwrap_or(w.slash);
                    if !isdir && !n.is_empty() && self.vfs.is_dir(d) {
                        if w.ino().is_some() {
                            self.vfs.detach(d, &n, &|i| open.contains(&i));
                        }
                        self.vfs.add(d, &n, Node::File(Rc::new(data.bytes())), 0o644, now);
                    }
                }
                self.touched(p);
            }
            Ext::Unlink { path } => {
                self.touched(&raw_path(path));
                if let Ok(w) = self.vfs.walk(&cwd, &raw_path(path), false) {
                    if let Some(i) = w.ino() {
                        let (d, n) = w.parent();
                        if !self.vfs.is_dir(i) {
                            self.vfs.detach(d, &n, &|i| open.contains(&i));
                        }
                    }
                }
            }
            Ext::Mkdir { path } => {
                self.touched(&raw_path(path));
                if let Ok(w) = self.vfs.walk(&cwd, &raw_path(path), false) {
                    let (d, n) = w.parent();
                    let isdir = w.ino().map(|i| self.vfs.is_dir(i)).unwrap_or(false);
                    if !isdir && !n.is_empty() {
                        if w.ino().is_some() {
                            self.vfs.detach(d, &n, &|i| open.contains(&i));
                        }
                        self.vfs.add(d, &n, Node::Dir(BTreeMap::new()), 0o755, now);
                    }
                }
                self.touched(&raw_path(path));
            }
            Ext::Retarget { link, target } => {
                self.touched(&raw_path(link));
                if let Ok(w) = self.vfs.walk(&cwd, &raw_path(link), false) {
                    if let Some(i) = w.ino() {
                        let i = self.vfs.get_mut(i);
                        if let Node::Link(t) = &mut i.node {
                            *t = raw_path(target);
                        }
                    }
                }
                self.touched(&raw_path(link));
            }
            Ext::Chmod { path, mode } => {
                self.touched(&raw_path(path));
                if let Ok(i) = self.vfs.lookup(&cwd, &raw_path(path), true) {
                    self.vfs.get_mut(i).mode = *mode;
                }
            }
            Ext::Rename { from, to } => {
                self.touched(&raw_path(from));
                self.touched(&raw_path(to));
                let _ = self.do_rename(&raw_path(from), &raw_path(to), false, false);
                self.touched(&raw_path(to));
            }
            Ext::Fill { left } => {
                let used = self.vfs.used();
                self.vfs.capacity = Some(used + *left as u64);
            }
            Ext::Free => self.vfs.capacity = None,
            Ext::Announce { path, size } => {
                if let Ok(i) = self.vfs.lookup(&cwd, &raw_path(path), true) {
                    self.vfs.get_mut(i).announced = *size;
                }
            }
            Ext::Clock { delta_s } => {
                let d = *delta_s as i64 * 1_000_000_000;
                self.now = self.now.wrapping_add(d as u64);
                self.jumped += d;
            }
            Ext::Chdir { dir } => {
                if let Ok(i) = self.vfs.lookup(&cwd, &raw_path(dir), true) {
                    if self.vfs.is_dir(i) {
                        if let Ok(p) = self.vfs.realpath(&cwd, &raw_path(dir)) {
                            self.cwd = p;
                        }
                    }
                }
            }
        }
    }
}

pub fn ext_name(e: &Ext) -> &'static str {
    match e {
        Ext::Write { .. } => "ext:write",
        Ext::Trunc { .. } => "ext:truncate",
        Ext::Append { .. } => "ext:append",
        Ext::Replace { .. } => "ext:replace",
        Ext::Unlink { .. } => "ext:unlink",
        Ext::Mkdir { .. } => "ext:mkdir_over",
        Ext::Retarget { .. } => "ext:retarget_link",
        Ext::Chmod { .. } => "ext:chmod",
        Ext::Rename { .. } => "ext:rename",
        Ext::Fill { .. } => "ext:disk_full",
        Ext::Free => "ext:disk_free",
        Ext::Announce { .. } => "ext:announce_size",
        Ext::Clock { .. } => "ext:clock_jump",
        Ext::Chdir { .. } => "ext:chdir",
    }
}
