//! Does the simulated file system behave like a real one? The same random calls, made through
//! the standard library, are served by the simulator and by the kernel (in a scratch folder, as
//! an unprivileged user), and every result and the whole tree are compared.
use crate::rng::{mix, Rng};
use crate::seam;
use crate::vfs::Node;
use crate::world::World;
use std::collections::BTreeMap;
use std::fs::{self, File, OpenOptions};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::os::unix::fs::{DirEntryExt, MetadataExt, OpenOptionsExt, PermissionsExt};
use std::path::{Path, PathBuf};

const NAMES: &[&str] = &["a", "b", "c", "d", "l", "m"];

#[derive(Clone, Debug)]
enum Call {
    Write(String, Vec<u8>),
    Open { path: String, r: bool, w: bool, a: bool, t: bool, c: bool, n: bool, mode: u32, script: Vec<Io> },
    Read(String),
    Text(String),
    Stat(String),
    Lstat(String),
    Canon(String),
    List(String),
    Mkdir(String),
    Rmdir(String),
    Remove(String),
    Rename(String, String),
    Hard(String, String),
    Soft(String, String),
    Target(String),
    Mode(String, u32),
    Chdir(String),
    Cwd,
    Copy(String, String),
    Exists(String),
}
#[derive(Clone, Debug)]
enum Io {
    Read(usize),
    Write(Vec<u8>),
    Seek(SeekFrom),
    Len(u64),
    Stat,
    Unlink(String),
    Sync,
    Rest,
}

fn path(r: &mut Rng) -> String {
    let mut s = match r.below(6) {
        0 | 1 => String::from("%/"),
        2 => String::from("./"),
        _ => String::new(),
    };
    let n = 1 + r.small(2).min(r.small(3));
    for i in 0..n {
        if i > 0 {
            s.push('/');
            match r.below(14) {
                0 => s.push('/'),
                1 => s.push_str("./"),
                2 => {
                    s.push_str("..");
                    continue;
                }
                _ => {}
            }
        }
        s.push_str(*r.pick(NAMES));
    }
    match r.below(30) {
        0 | 1 => s.push('/'),
        2 => s.push_str("/."),
        3 => s.push_str("/.."),
        4 => s = String::new(),
        5 => s = "x".repeat(r.range(254, 257)),
        6 => s.push_str(&"/.".repeat(if r.chance(50) { 2100 } else { 1000 })),
        7 => s = ".".into(),
        8 => s = "%".into(),
        _ => {}
    }
    s
}

fn data(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 2, 5, 100, 5000, 9000, 70000]);
    let n = r.below(n + 1);
    (0..n).map(|_| r.below(256) as u8).collect()
}

fn call(r: &mut Rng) -> Call {
    match r.below(30) {
        0..=3 => Call::Write(path(r), if r.chance(30) { b"text \xc3\xa9\n".to_vec() } else { data(r) }),
        4..=8 => {
            let n = r.below(6);
            let script = (0..n)
                .map(|_| match r.below(9) {
                    0 | 1 => Io::Read(r.below(300)),
                    2 | 3 => Io::Write(data(r)),
                    4 => Io::Seek(match r.below(3) {
                        0 => SeekFrom::Start(r.below(9000) as u64),
                        1 => SeekFrom::Current(r.below(300) as i64 - 100),
                        _ => SeekFrom::End(r.below(300) as i64 - 200),
                    }),
                    5 => Io::Len(r.below(9000) as u64),
                    6 => Io::Stat,
                    7 => {
                        if r.chance(50) {
                            Io::Unlink(path(r))
                        } else {
                            Io::Sync
                        }
                    }
                    _ => Io::Rest,
                })
                .collect();
            Call::Open {
                path: path(r),
                r: r.chance(60),
                w: r.chance(60),
                a: r.chance(20),
                t: r.chance(30),
                c: r.chance(50),
                n: r.chance(15),
                mode: *r.pick(&[0o644, 0o600, 0o400, 0o666, 0o000]),
                script,
            }
        }
        9 => Call::Read(path(r)),
        10 => Call::Text(path(r)),
        11 => Call::Stat(path(r)),
        12 => Call::Lstat(path(r)),
        13 | 14 => Call::Canon(path(r)),
        15 => Call::List(path(r)),
        16..=18 => Call::Mkdir(path(r)),
        19 => Call::Rmdir(path(r)),
        20 => Call::Remove(path(r)),
        21 | 22 => Call::Rename(path(r), path(r)),
        23 => Call::Hard(path(r), path(r)),
        24 | 25 => {
            let t = match r.below(4) {
                0 => format!("%/{}", r.pick(NAMES)),
                1 => format!("../{}", r.pick(NAMES)),
                2 => format!("{}/{}", r.pick(NAMES), r.pick(NAMES)),
                _ => r.pick(NAMES).to_string(),
            };
            Call::Soft(if r.chance(10) { t + "/" } else { t }, path(r))
        }
        26 => Call::Target(path(r)),
        27 => Call::Mode(path(r), *r.pick(&[0o755, 0o644, 0o000, 0o400, 0o200, 0o500, 0o300, 0o100, 0o777])),
        28 => match r.below(3) {
            0 => Call::Cwd,
            1 => Call::Chdir(if r.chance(50) { "%".into() } else { path(r) }),
            _ => Call::Exists(path(r)),
        },
        _ => Call::Copy(path(r), path(r)),
    }
}

fn e<T>(r: io::Result<T>) -> Result<T, String> {
    r.map_err(|e| match e.raw_os_error() {
        Some(n) => format!("errno {}", n),
        None => format!("{:?}", e.kind()),
    })
}

struct Names(BTreeMap<u64, usize>);
impl Names {
    /// inode numbers, in order of appearance
    fn of(&mut self, ino: u64) -> usize {
        let n = self.0.len();
        *self.0.entry(ino).or_insert(n)
    }
}

fn meta(m: fs::Metadata, names: &mut Names) -> String {
    let kind = m.file_type();
    let what = if kind.is_dir() { "dir" } else if kind.is_symlink() { "link" } else { "file" };
    // sizes and link counts of folders are the file system's own business
    let (len, links) = if kind.is_file() { (m.len(), m.nlink()) } else { (0, 0) };
    let mode = if kind.is_symlink() { 0 } else { m.mode() & 0o777 };
    format!("{} {} bytes mode {:o} links {} inode {}", what, len, mode, links, names.of(m.ino()))
}

/// Deep enough for paths that climb out of it to stay in the scratch folder.
const BASE: &str = "/u/u/u/u/u/u/cf";

fn perform(c: &Call, base: &str, names: &mut Names) -> Result<String, String> {
    let p = |s: &String| PathBuf::from(s.replace('%', base));
    let shown = |p: &Path| {
        let s = p.to_str().unwrap().to_string();
        let up = &base[..base.len() - BASE.len()];
        let s = s.strip_prefix(up).unwrap_or(if up.starts_with(&s) { "/" } else { "outside" }).to_string();
        if s.is_empty() { "/".to_string() } else { s }
    };
    match c {
        Call::Write(a, d) => e(fs::write(p(a), d)).map(|_| String::new()),
        Call::Open { path, r, w, a, t, c, n, mode, script } => {
            let mut f: File = e(OpenOptions::new().read(*r).write(*w).append(*a).truncate(*t).create(*c).create_new(*n).mode(*mode).open(p(path)))?;
            let mut out = String::new();
            for s in script {
                let x = match s {
                    Io::Read(n) => {
                        let mut b = vec![0; *n];
                        e(f.read(&mut b)).map(|k| format!("{:?}", &b[..k]))
                    }
                    Io::Write(d) => e(f.write(d)).map(|k| k.to_string()),
                    // where one may go in a folder is the file system's own business
                    Io::Seek(_) if f.metadata().map(|m| m.is_dir()).unwrap_or(false) => Ok(String::new()),
                    Io::Seek(s) => e(f.seek(*s)).map(|k| k.to_string()),
                    Io::Len(n) => e(f.set_len(*n)).map(|_| String::new()),
                    Io::Stat => e(f.metadata()).map(|m| meta(m, names)),
                    Io::Unlink(q) => e(fs::remove_file(p(q))).map(|_| String::new()),
                    Io::Sync => e(f.sync_all()).map(|_| String::new()),
                    Io::Rest => {
                        let mut b = Vec::new();
                        e(f.read_to_end(&mut b)).map(|k| format!("{} {:x}", k, sum(&b)))
                    }
                };
                out += &format!("{:?}; ", x);
            }
            Ok(out)
        }
        Call::Read(a) => e(fs::read(p(a))).map(|d| format!("{} {:x}", d.len(), sum(&d))),
        Call::Text(a) => e(fs::read_to_string(p(a))).map(|d| format!("{} {:x}", d.len(), sum(d.as_bytes()))),
        Call::Stat(a) => e(fs::metadata(p(a))).map(|m| meta(m, names)),
        Call::Lstat(a) => e(fs::symlink_metadata(p(a))).map(|m| meta(m, names)),
        Call::Canon(a) => e(fs::canonicalize(p(a))).map(|p| shown(&p)),
        Call::List(a) => {
            let mut v = Vec::new();
            for x in e(fs::read_dir(p(a)))? {
                let x = e(x)?;
                let t = e(x.file_type())?;
                let what = if t.is_dir() { 'd' } else if t.is_symlink() { 'l' } else { 'f' };
                v.push((x.file_name().to_str().unwrap().to_string(), what, x.ino()));
            }
            v.sort();
            Ok(format!("{:?}", v.iter().map(|(n, w, i)| (n, w, names.of(*i))).collect::<Vec<_>>()))
        }
        Call::Mkdir(a) => e(fs::create_dir(p(a))).map(|_| String::new()),
        Call::Rmdir(a) => e(fs::remove_dir(p(a))).map(|_| String::new()),
        Call::Remove(a) => e(fs::remove_file(p(a))).map(|_| String::new()),
        Call::Rename(a, b) => e(fs::rename(p(a), p(b))).map(|_| String::new()),
        Call::Hard(a, b) => e(fs::hard_link(p(a), p(b))).map(|_| String::new()),
        Call::Soft(a, b) => e(std::os::unix::fs::symlink(p(a), p(b))).map(|_| String::new()),
        Call::Target(a) => e(fs::read_link(p(a))).map(|t| t.to_str().unwrap().replace(base, "%")),
        Call::Mode(a, m) => e(fs::set_permissions(p(a), fs::Permissions::from_mode(*m))).map(|_| String::new()),
        Call::Chdir(a) => e(std::env::set_current_dir(p(a))).map(|_| String::new()),
        Call::Cwd => e(std::env::current_dir()).map(|p| shown(&p)),
        Call::Copy(a, b) => e(fs::copy(p(a), p(b))).map(|n| n.to_string()),
        Call::Exists(a) => e(p(a).try_exists()).map(|n| n.to_string()),
    }
}

fn sum(d: &[u8]) -> u64 {
    d.iter().fold(0, |h, b| mix(h ^ *b as u64))
}

fn walk(dir: &Path, base: &str, names: &mut Names, out: &mut Vec<String>, depth: u32) {
    let mut v: Vec<_> = match fs::read_dir(dir) {
        Ok(d) => d.filter_map(|x| x.ok()).map(|x| x.path()).collect(),
        Err(x) => {
            out.push(format!("{:?}", x.raw_os_error()));
            return;
        }
    };
    v.sort();
    for p in v {
        let name = p.to_str().unwrap().strip_prefix(&base[..base.len() - BASE.len()]).unwrap().to_string();
        let m = fs::symlink_metadata(&p);
        let dir = m.as_ref().map(|m| m.is_dir()).unwrap_or(false);
        let m = e(m).map(|m| meta(m, names));
        let text = e(fs::read(&p)).map(|d| (d.len(), sum(&d)));
        let link = e(fs::read_link(&p)).map(|t| t.to_str().unwrap().replace(base, "%"));
        out.push(format!("{} {:?} {:?} {:?}", name, m, text, link));
        if dir && depth < 8 {
            walk(&p, base, names, out, depth + 1);
        }
    }
}

fn wipe(dir: &Path) {
    if let Ok(d) = fs::read_dir(dir) {
        for x in d.filter_map(|x| x.ok()) {
            let p = x.path();
            if x.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0o777));
                wipe(&p);
                let _ = fs::remove_dir(&p);
            } else {
                let _ = fs::remove_file(&p);
            }
        }
    }
}

/// conform SEED RUNS SCRATCH: scratch is an empty folder; the process gives up its privileges.
pub fn main(a: &[String]) -> i32 {
    seam::allow_real();
    let (seed, runs): (u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let scratch = fs::canonicalize(&a[2]).unwrap();
    unsafe {
        libc::umask(0o022);
        if libc::geteuid() == 0 {
            let path = std::ffi::CString::new(scratch.to_str().unwrap()).unwrap();
            assert_eq!(libc::syscall(libc::SYS_chown, path.as_ptr(), 65534, 65534), 0);
            assert_eq!(libc::setgroups(0, std::ptr::null()), 0);
            assert_eq!(libc::setgid(65534), 0);
            assert_eq!(libc::setuid(65534), 0);
        }
    }
    let real_base = format!("{}{}", scratch.to_str().unwrap(), BASE);
    let (mut calls, mut good, mut kinds) = (0u64, 0u64, BTreeMap::new());
    for i in 0..runs {
        std::env::set_current_dir("/").unwrap();
        fs::set_permissions(&scratch, fs::Permissions::from_mode(0o755)).unwrap();
        wipe(&scratch);
        fs::set_permissions(&scratch, fs::Permissions::from_mode(0o755)).unwrap();
        fs::create_dir_all(&real_base).unwrap();
        std::env::set_current_dir(&real_base).unwrap();
        let mut r = Rng::new(mix(seed) ^ mix(i));
        let mut w = Box::new(World::new(1));
        let mut at = crate::vfs::ROOT;
        for name in BASE[1..].split('/') {
            at = w.vfs.add(at, name.as_bytes(), Node::Dir(BTreeMap::new()), 0o755, 0);
        }
        w.cwd = BASE.as_bytes().to_vec();
        let mut log = Vec::new();
        let mut first = Vec::new();
        for d in ["%/a", "%/a/b", "%/c", "%/a/b/d"] {
            if r.chance(70) {
                first.push(Call::Mkdir(d.into()));
            }
        }
        for f in ["%/d", "%/a/c", "%/c/m", "%/a/b/a"] {
            if r.chance(60) {
                first.push(Call::Write(f.into(), data(&mut r)));
            }
        }
        for (t, l) in [("a", "%/l"), ("../d", "%/a/l"), ("%/a/b", "%/c/l"), ("none", "%/m"), ("a/c", "%/b")] {
            if r.chance(50) {
                first.push(Call::Soft(t.into(), l.into()));
            }
        }
        let n = r.range(5, 60);
        for k in 0..n {
            let c = if k < first.len() { first[k].clone() } else { call(&mut r) };
            // numbers are reused once files are gone: only compared within one call
            let (mut rn, mut sn) = (Names(BTreeMap::new()), Names(BTreeMap::new()));
            let real = perform(&c, &real_base, &mut rn);
            let old = seam::enter(&mut *w);
            let sim = perform(&c, BASE, &mut sn);
            seam::enter(old);
            if matches!(c, Call::Rename(..) | Call::Rmdir(..)) {
                // the simulator knows its working directory by path, a kernel by inode
                if std::env::set_current_dir(&real_base).is_err() {
                    break;
                }
                let old = seam::enter(&mut *w);
                let _ = std::env::set_current_dir(BASE);
                seam::enter(old);
            }
            calls += 1;
            good += real.is_ok() as u64;
            let d = format!("{:?}", c);
            *kinds.entry(d[..d.find(|c: char| !c.is_alphanumeric()).unwrap_or(d.len())].to_string()).or_insert(0u64) += real.is_ok() as u64;
            log.push(format!("{:?} -> {:?}", c, real));
            let mut bad = real != sim;
            let (mut rt, mut st) = (Vec::new(), Vec::new());
            rn.0.clear();
            sn.0.clear();
            if !bad && (k % 8 == 7 || k + 1 == n) {
                walk(&scratch, &real_base, &mut rn, &mut rt, 0);
                let old = seam::enter(&mut *w);
                walk(Path::new("/"), BASE, &mut sn, &mut st, 0);
                seam::enter(old);
                bad = rt.len() != st.len();
                if bad {
                    log.push(format!("tree: real {:#?} simulated {:#?}", rt, st));
                }
                for (x, y) in rt.iter().zip(&st) {
                    if x != y {
                        log.push(format!("tree: real {} simulated {}", x, y));
                        bad = true;
                    }
                }
            }
            if bad {
                for l in &log {
                    println!("  {}", l.chars().take(300).collect::<String>());
                }
                println!("run {} call {}: {:?}\n  real      {:?}\n  simulated {:?}", i, k, c, real, sim);
                let _ = std::env::set_current_dir("/");
                wipe(&scratch);
                return 1;
            }
        }
    }
    let _ = std::env::set_current_dir("/");
    wipe(&scratch);
    println!("{} runs, {} calls ({} of them successful) agree: {:?}", runs, calls, good, kinds);
    0
}
