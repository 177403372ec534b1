//! Executes one program against the real library on a simulated machine and judges it.
use crate::model::{self, show, Desire, Go, Hist, P};
use crate::program::*;
use crate::rng::{mix, Rng};
use crate::vfs::{Node, Shape, Vfs};
use crate::world::*;
use crate::{alloc, seam};
use scribe::buffer::{Distance, GapBuffer, LineRange, Position, Range, Token};
use scribe::util::LineIterator;
use scribe::{Buffer, Workspace};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::OnceLock;
use syntect::parsing::syntax_definition::SyntaxDefinition;
use syntect::parsing::{ParseState, ScopeStack, SyntaxReference, SyntaxSet, SyntaxSetBuilder};

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
}

#[derive(Default)]
pub struct Outcome {
    pub fails: Vec<Fail>,
    pub hash: u64,
    pub syscalls: u64,
    pub sim_ns: u64,
    pub ops: u64,
    /// times the target property's oracle gave a verdict
    pub evals: u64,
    pub nontrivial: bool,
    pub stats: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    /// what the session's user saw, step by step (P21 only)
    pub seen: Vec<String>,
    /// the disk after each thing the other session did (P24 only)
    pub disks: Disks,
    /// blocks and bytes of memory not given back
    pub held: (i64, i64),
}

/// Handed from one run to the next as a whole, once the first has ended.
#[derive(Default)]
pub struct Disks(pub Vec<Vfs>);
// Its files share their content with nothing outside.
unsafe impl Send for Disks {}

thread_local! {
    static SESSION: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Session threads keep their panic message to themselves; others print as usual.
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if SESSION.try_with(|s| s.get()).unwrap_or(false) {
            let k = alloc::set_fill(0);
            let text = info.to_string();
            PANIC.with(|p| *p.borrow_mut() = Some(text));
            alloc::set_fill(k);
        } else {
            old(info)
        }
    }));
}

/// Once this many bytes of text have been looked at, a session draws to its close.
const WORK: usize = 12_000_000;

struct Ed {
    ws: Option<Workspace>,
    buf: Option<Buffer>,
    gb: Option<GapBuffer>,
    /// the workspace, while a buffer outside it is worked on
    aside: Option<Workspace>,
    /// the session beside this one
    peer_ws: Option<Workspace>,
    peer_buf: Option<Buffer>,
}
impl Ed {
    fn peer(&mut self) -> Option<&mut Buffer> {
        match &mut self.peer_ws {
            Some(ws) => ws.current_buffer.as_mut(),
            None => self.peer_buf.as_mut(),
        }
    }
    fn cur(&mut self) -> Option<&mut Buffer> {
        match &mut self.ws {
            Some(ws) => ws.current_buffer.as_mut(),
            None => self.buf.as_mut(),
        }
    }
}

/// An error as the application sees it.
#[derive(Clone, Debug, PartialEq)]
enum Why {
    /// of the file system: its code, if it has one, and its kind
    Io(Option<i32>, std::io::ErrorKind),
    EmptyWorkspace,
    MissingPath,
    MissingSyntax,
    /// a definition that cannot be understood
    Definition,
    /// the definitions met something in the text they cannot deal with
    Text,
    Other,
}
struct Told {
    text: String,
    why: Why,
}
impl std::fmt::Display for Told {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.text)
    }
}
fn told_io(e: std::io::Error) -> Told {
    Told { text: e.to_string(), why: Why::Io(e.raw_os_error(), e.kind()) }
}
fn told(e: scribe::Error) -> Told {
    use scribe::ErrorKind as K;
    use syntect::LoadingError as L;
    let io = |e: &std::io::Error| Why::Io(e.raw_os_error(), e.kind());
    let why = match e.kind() {
        K::Io(e) => io(e),
        K::EmptyWorkspace => Why::EmptyWorkspace,
        K::MissingPath => Why::MissingPath,
        K::MissingSyntax => Why::MissingSyntax,
        K::SyntaxLoadingError(L::Io(e)) => io(e),
        K::SyntaxLoadingError(L::WalkDir(e)) => match e.io_error() {
            Some(e) => io(e),
            None => Why::Io(None, std::io::ErrorKind::Other),
        },
        K::SyntaxLoadingError(L::ParseSyntax(..)) => Why::Definition,
        K::ParsingError(_) | K::ScopeError(_) => Why::Text,
        _ => Why::Other,
    };
    Told { text: e.to_string(), why }
}

#[derive(Clone, Debug, PartialEq)]
struct Obs {
    text: Rc<str>,
    cursor: P,
    path: Option<PathBuf>,
    id: Option<usize>,
    syn: Option<String>,
    modified: bool,
    cb: bool,
}

struct Sync {
    text: Rc<str>,
    point: u64,
    target: Option<Vec<u8>>,
    sure: bool,
    damaged: bool,
}

struct Buf {
    id: Option<usize>,
    obs: Obs,
    hist: Hist,
    sync: Option<Sync>,
    log: Option<Rc<RefCell<Vec<P>>>>,
    failed_save: bool,
    failed_reload: bool,
    switched: bool,
    user_path: bool,
    desire: Desire,
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
enum Doing {
    Edit,
    History,
    Group,
    Cursor,
    Save,
    Load,
    Reload,
    Select,
    Syntax,
    Construct,
    Gap,
    Look,
    Tokens,
    Search,
    Beside,
    Measure,
}

/// Properties a panic in such an operation also breaks (besides P17).
fn broken_by_panic(d: Doing) -> &'static [&'static str] {
    match d {
        Doing::Edit => &["P07", "P08", "P09", "P15"],
        Doing::History => &["P07", "P08", "P09"],
        Doing::Tokens => &["P19"],
        Doing::Search => &["P20"],
        Doing::Group => &["P08"],
        Doing::Cursor => &["P18"],
        Doing::Look => &["P22"],
        Doing::Beside => &[],
        Doing::Measure => &["P26", "P27"],
        Doing::Save => &["P01", "P02", "P03", "P04"],
        Doing::Load => &["P05", "P10", "P11", "P12", "P14"],
        Doing::Reload => &["P06", "P04"],
        Doing::Select => &["P11", "P12"],
        Doing::Syntax | Doing::Construct => &["P13"],
        Doing::Gap => &["P15"],
    }
}

const DOINGS: &[Doing] = &[
    Doing::Edit,
    Doing::History,
    Doing::Group,
    Doing::Cursor,
    Doing::Save,
    Doing::Load,
    Doing::Reload,
    Doing::Select,
    Doing::Syntax,
    Doing::Construct,
    Doing::Gap,
    Doing::Look,
    Doing::Tokens,
    Doing::Search,
    Doing::Beside,
    Doing::Measure,
];
fn doing_of(code: u64) -> Option<Doing> {
    DOINGS.iter().copied().find(|d| *d as u64 + 1 == code)
}
pub fn doing_name(code: u64) -> String {
    doing_of(code).map(|d| format!("{:?}", d)).unwrap_or("start-up".into())
}
/// Does a crash or hang in this operation break `prop`?
pub fn doing_breaks(code: u64, prop: &str, hang: bool) -> bool {
    match doing_of(code) {
        None => false,
        Some(d) => prop == if hang { "P23" } else { "P17" } || broken_by_panic(d).contains(&prop),
    }
}
thread_local! {
    static BOARD: Cell<*mut u64> = const { Cell::new(std::ptr::null_mut()) };
}
/// Where this thread reports what it is doing, for whoever finds the process dead.
pub fn set_board(p: *mut u64) {
    BOARD.with(|b| b.set(p));
}

pub fn nontrivial_rule(prop: &str) -> &'static str {
    match prop {
        "P01" | "P04" => "Non-trivial: it saved at least once and the oracle gave a verdict.",
        "P02" => "Non-trivial: at least one save failed and the state after it was judged.",
        "P03" => "Non-trivial: a save met a fault, another process or a kill, and the whole disk was compared.",
        "P05" => "Non-trivial: a file was opened and its text compared with the bytes served.",
        "P06" => "Non-trivial: a reload failed or changed the text, and was judged.",
        "P07" => "Non-trivial: at least one undo or redo had something to do and was judged.",
        "P09" => "Non-trivial: a text change was judged with an observer installed.",
        "P10" => "Non-trivial: a path naming a file already open was opened.",
        "P11" | "P12" => "Non-trivial: at least two buffers were open while selection or order was judged.",
        "P13" => "Non-trivial: a folder of definitions was loaded or refused, and judged.",
        "P14" => "Non-trivial: a file was loaded and the path recorded was judged.",
        "P18" => "Non-trivial: a cursor movement was judged against a text with more than one line.",
        "P19" => "Non-trivial: the tokens of a text of several lines were judged.",
        "P20" => "Non-trivial: a search with at least one occurrence was judged.",
        "P22" => "Non-trivial: a text of several lines in a file with an extension was described and judged.",
        "P26" => "Non-trivial: a stretch of a text of several lines was measured and judged.",
        "P27" => "Non-trivial: the lines of a text of several lines were judged.",
        "P28" => "Non-trivial: an operation reported an error, and the error was judged.",
        "P23" => "Non-trivial: a call that keeps failing was met.",
        "P25" => "Non-trivial: there was a buffer, and what was held at the end was judged.",
        "P24" => "Non-trivial: the session beside it did something, and the session alone was compared.",
        "P21" => "Non-trivial: at least one disturbance struck and the undisturbed session was compared.",
        "P16" => "Non-trivial: a file operation met a fault or another process, and open handles were counted.",
        _ => "Non-trivial: at least one operation was executed and judged.",
    }
}

struct Eng<'a> {
    prog: &'a Program,
    target: &'a str,
    w: Box<World>,
    ed: Ed,
    bufs: Vec<Buf>,
    cur: Option<usize>,
    /// the workspace's buffers and selection, while a buffer outside it is worked on
    aside: Option<(Vec<Buf>, Option<usize>)>,
    ids: BTreeSet<usize>,
    ws_path: PathBuf,
    defs: Vec<(String, String)>,
    defs_known: bool,
    gtext: Option<String>,
    /// the definitions of the workspace's folder (P19 only)
    own_set: Option<SyntaxSet>,
    out: Outcome,
    step: usize,
    doing: Doing,
    stop: bool,
    /// bytes of text observed so far: bounds what one session may cost
    work: usize,
    /// tree before the operation (P03 only)
    tree: Option<BTreeMap<Vec<u8>, (u64, Shape)>>,
    save_target: Option<(Vec<u8>, Option<u64>)>,
    save_old: Option<Rc<Vec<u8>>>,
    save_text: Option<Rc<str>>,
    /// where the operation may take the cursor of the selected buffer
    go: Go,
    result: &'static str,
    /// the other session is not there: all it does is change the disk like this (P24 only)
    alone: Option<std::vec::IntoIter<Vfs>>,
    /// what the workspace held when it was new (P25 only)
    base: (i64, i64),
    /// definitions have been used, and keep what they prepared
    lexed: bool,
    /// as many buffers as there ever were at a time
    peak: usize,
}

fn pos(p: P) -> Position {
    Position { line: p.0, offset: p.1 }
}

fn go(b: &mut Buffer, k: Mv) {
    match k {
        Mv::Up => b.cursor.move_up(),
        Mv::Down => b.cursor.move_down(),
        Mv::Left => b.cursor.move_left(),
        Mv::Right => b.cursor.move_right(),
        Mv::LineStart => b.cursor.move_to_start_of_line(),
        Mv::LineEnd => b.cursor.move_to_end_of_line(),
        Mv::First => b.cursor.move_to_first_line(),
        Mv::Last => b.cursor.move_to_last_line(),
    }
}

fn under(path: &[u8], dir: &[u8]) -> bool {
    path == dir || (path.starts_with(dir) && (dir == b"/" || path.get(dir.len()) == Some(&b'/')))
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

pub fn resolve(p: &Pos, text: &str) -> P {
    let s = model::shape(text);
    let nl = s.len();
    let l = p.l as usize % nl;
    match p.m {
        0 => (l, p.o as usize % (s[l] + 1)),
        1 => (l, s[l] + 1 + p.o as usize % 3),
        2 => (nl + p.l as usize % 3, p.o as usize % 3),
        3 => (usize::MAX, p.o as usize % 2),
        4 => (nl - 1, s[nl - 1]),
        _ => (l, usize::MAX),
    }
}

pub const BUILTIN: &[(&str, &str)] = &[
    ("rs", "Rust"),
    ("py", "Python"),
    ("Makefile", "Makefile"),
    ("md", "Markdown"),
    ("json", "JSON"),
    ("rb", "Ruby"),
    ("go", "Go"),
    ("java", "Java"),
    ("txt", "Plain Text"),
    ("zzz", "Plain Text"),
    ("nothing", "Plain Text"),
    ("d", "D"),
    // names of definitions that nobody claims as an extension
    ("rust", "Plain Text"),
    ("python", "Plain Text"),
    ("Ruby", "Plain Text"),
];

pub fn build_disk(prog: &Program) -> World {
    let mut w = World::new(prog.seed);
    for it in &prog.disk {
        let p = &raw_path(&it.path)[..];
        let walk = match w.vfs.walk(b"/", p, false) {
            Ok(x) if x.missing.is_some() => x,
            _ => continue,
        };
        let (d, n) = walk.parent();
        if !w.vfs.is_dir(d) {
            continue;
        }
        let now = w.now;
        let node = match &it.kind {
            Kind::File(b) => Node::File(Rc::new(b.bytes())),
            Kind::Dir => Node::Dir(BTreeMap::new()),
            Kind::Link(t) => Node::Link(raw_path(t)),
        };
        w.vfs.add(d, &n, node, 0o755, now);
    }
    for it in &prog.disk {
        if let Ok(i) = w.vfs.lookup(b"/", &raw_path(&it.path), false) {
            w.vfs.get_mut(i).mode = it.mode;
        }
    }
    if w.vfs.realpath(b"/", &raw_path(&prog.cwd)).is_ok() {
        w.cwd = raw_path(&prog.cwd);
    }
    w.coarse_clock = prog.coarse_clock;
    if let Some(c) = prog.read_chunk {
        w.read_chunk = c.max(1) as usize;
    }
    if let Some(c) = prog.write_chunk {
        w.write_chunk = c.max(1) as usize;
    }
    w
}

/// Runs `prog` on this thread (which must be a fresh one).
pub fn run(prog: &Program, target: &str, trace: bool, alone: Option<Disks>) -> Outcome {
    SESSION.with(|s| s.set(true));
    alloc::begin();
    let mut w = Box::new(build_disk(prog));
    if trace {
        w.trace = Some(Vec::new());
    }
    let mut e = Eng {
        prog,
        target,
        w,
        ed: Ed { ws: None, buf: None, gb: None, aside: None, peer_ws: None, peer_buf: None },
        alone: alone.map(|v| v.0.into_iter()),
        bufs: Vec::new(),
        cur: None,
        aside: None,
        ids: BTreeSet::new(),
        ws_path: PathBuf::new(),
        defs: Vec::new(),
        defs_known: true,
        gtext: None,
        own_set: None,
        out: Outcome::default(),
        step: 0,
        doing: Doing::Look,
        stop: false,
        work: 0,
        tree: None,
        save_target: None,
        save_old: None,
        save_text: None,
        go: Go::Same,
        result: "",
        base: (0, 0),
        lexed: false,
        peak: 0,
    };
    let t0 = e.w.now;
    e.main();
    // drop the library's objects inside the simulation
    let _ = e.raw(|ed| {
        ed.ws = None;
        ed.aside = None;
        ed.buf = None;
        ed.gb = None;
        ed.peer_ws = None;
        ed.peer_buf = None;
    });
    e.forget();
    let mut out = std::mem::take(&mut e.out);
    out.held = alloc::held();
    out.hash = e.w.hash;
    out.syscalls = e.w.syscalls;
    out.sim_ns = (e.w.now as i64 - t0 as i64 - e.w.jumped).max(0) as u64;
    out.stats = std::mem::take(&mut e.w.stats);
    let (filled, moved) = alloc::counters();
    if filled > 0 {
        out.stats.insert("heap:filled_allocation", filled);
        out.stats.insert("heap:forced_move", moved);
    }
    out.trace = e.w.trace.take().unwrap_or_default();
    out
}

impl<'a> Eng<'a> {
    /// What the session has seen so far is forgotten.
    fn forget(&mut self) {
        self.bufs = Vec::new();
        self.cur = None;
        self.aside = None;
        self.gtext = None;
        self.save_text = None;
        self.save_old = None;
        self.save_target = None;
        self.tree = None;
        self.ws_path = PathBuf::new();
    }

    // ---- plumbing ----------------------------------------------------------------------

    fn raw<T>(&mut self, f: impl FnOnce(&mut Ed) -> T) -> Result<T, String> {
        let w: *mut World = &mut *self.w;
        let ed: *mut Ed = &mut self.ed;
        let old = seam::enter(w);
        let k = alloc::set_fill(self.prog.fill);
        let l = alloc::in_library(true);
        let r = catch_unwind(AssertUnwindSafe(|| f(unsafe { &mut *ed })));
        alloc::in_library(l);
        alloc::set_fill(k);
        seam::enter(old);
        r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
    }

    /// The operation itself: faults and other processes strike here.
    fn call<T>(&mut self, doing: Doing, trigs: &[Trig], f: impl FnOnce(&mut Ed) -> T) -> Option<T> {
        self.doing = doing;
        let b = BOARD.with(|b| b.get());
        if !b.is_null() {
            unsafe { std::ptr::write_volatile(b.add(1), doing as u64 + 1) };
        }
        self.w.begin_op(trigs);
        let r = self.raw(f);
        self.w.end_op();
        self.out.ops += 1;
        match r {
            Ok(v) => Some(v),
            Err(m) => {
                self.panicked(&m);
                None
            }
        }
    }

    /// Looking at the state: never faulty, never counted.
    fn peek<T>(&mut self, f: impl FnOnce(&mut Ed) -> T) -> Option<T> {
        match self.raw(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.panicked(&m);
                None
            }
        }
    }

    fn panicked(&mut self, m: &str) {
        let msg = format!("panic during {:?}: {}", self.doing, m.replace('\n', " "));
        self.fail("P17", || msg.clone());
        for p in broken_by_panic(self.doing) {
            self.fail(p, || msg.clone());
        }
        self.stop = true;
    }

    fn fail(&mut self, prop: &'static str, msg: impl FnOnce() -> String) {
        if self.target == prop || self.target == "*" {
            let msg = msg();
            self.w.log(|| format!("  VIOLATION {} {}", prop, msg));
            self.out.fails.push(Fail { msg: format!("{} (at step {})", msg, self.step) });
            if self.target != "*" {
                self.stop = true;
            }
        } else {
            if self.w.trace.is_some() {
                let msg = msg();
                self.w.log(|| format!("  (breaks {}: {})", prop, msg));
            }
            *self.out.probes.entry("other_property_failed").or_insert(0) += 1;
        }
    }
    fn eval(&mut self, prop: &'static str) {
        if self.target == prop {
            self.out.evals += 1;
        }
    }
    fn probe(&mut self, k: &'static str) {
        *self.out.probes.entry(k).or_insert(0) += 1;
    }
    fn is(&self, p: &str) -> bool {
        self.target == p || self.target == "*"
    }

    fn observe(&mut self) -> Option<Option<Obs>> {
        let r = self.peek(|ed| {
            ed.cur().map(|b| {
                (
                    b.data(),
                    (b.cursor.line, b.cursor.offset),
                    b.path.clone(),
                    b.id,
                    b.syntax_definition.as_ref().map(|s| s.name.clone()),
                    b.modified(),
                    b.change_callback.is_some(),
                )
            })
        })?;
        Some(r.map(|(text, cursor, path, id, syn, modified, cb)| Obs {
            text: Rc::from(text),
            cursor,
            path,
            id,
            syn,
            modified,
            cb,
        }))
    }

    fn text(&self) -> Rc<str> {
        match self.cur {
            Some(i) => self.bufs[i].obs.text.clone(),
            None => Rc::from(""),
        }
    }

    fn new_buf(obs: Obs) -> Buf {
        Buf {
            id: obs.id,
            obs,
            hist: Hist::default(),
            sync: None,
            log: None,
            failed_save: false,
            failed_reload: false,
            switched: false,
            user_path: false,
            desire: Some(vec![0]),
        }
    }

    fn walk(&self, path: &Option<PathBuf>) -> Result<crate::vfs::Walk, i32> {
        match path {
            None => Err(libc::ENOENT),
            Some(p) => self.w.vfs.walk(&self.w.cwd, p.as_os_str().as_bytes(), true),
        }
    }

    fn only_exts(&self, st: &Step, ok: impl Fn(&Ext) -> bool) -> bool {
        st.trigs.iter().all(|t| match &t.act {
            Act::Ext(e) => ok(e),
            _ => true,
        })
    }

    // ---- the session -------------------------------------------------------------------

    fn main(&mut self) {
        let explicit = matches!(self.prog.steps.first(), Some(Step { op: Op::Workspace { .. }, .. }));
        if self.prog.workspace && !explicit {
            self.new_workspace("/w", None, &[]);
        }
        for i in 0..self.prog.steps.len() {
            if self.stop || self.work > WORK {
                break;
            }
            self.step = i;
            let st = &self.prog.steps[i];
            self.w.now += 500_000_000 + (mix(self.prog.seed ^ i as u64) % 10_000_000_000);
            self.w.log(|| format!("step {} {}", i, serde_json::to_string(&st.op).unwrap()));
            let d = mix(crate::rng::hash_str(&format!("{:?}", std::mem::discriminant(&st.op))));
            self.w.note(&d.to_le_bytes());
            if self.is("P03") {
                self.tree = Some(self.w.vfs.tree());
            }
            self.save_target = None;
            self.go = Go::Same;
            self.result = "";
            self.exec(st);
            if self.stop {
                break;
            }
            if self.w.dead {
                self.killed();
                continue;
            }
            self.after(st);
        }
        if !self.stop {
            self.step = self.prog.steps.len();
            self.finale();
            if matches!(self.target, "P21" | "P24") && !self.stop {
                self.record();
                self.record_disk();
            }
        }
    }

    fn new_workspace(&mut self, path: &str, syn: Option<&str>, trigs: &[Trig]) {
        self.bufs.clear();
        self.cur = None;
        self.aside = None;
        self.ids.clear();
        let vfs_before = if syn.is_some() { Some(self.w.vfs.clone()) } else { None };
        let cwd_before = self.w.cwd.clone();
        let r = self.call(Doing::Construct, trigs, |ed| {
            ed.ws = None;
            ed.aside = None;
            ed.buf = None;
            match Workspace::new(&os_path(path), syn.map(os_path).as_deref()) {
                Ok(ws) => {
                    let p = ws.path.clone();
                    ed.ws = Some(ws);
                    Ok(p)
                }
                Err(e) => Err(told(e)),
            }
        });
        let r = match r {
            Some(r) => r,
            None => return,
        };
        if let Ok(p) = &r {
            self.ws_path = p.clone();
        }
        if self.w.dead {
            return;
        }
        self.defs = Vec::new();
        self.defs_known = true;
        let quiet = self.w.ext_in_op == 0;
        let hard = self.w.hard_faults;
        let (mut valid, mut broken) = (Vec::new(), Vec::new());
        if let (Some(v), Some(s)) = (&vfs_before, syn) {
            collect_defs(v, &cwd_before, &raw_path(s), &mut valid, &mut broken);
        }
        self.own_set = match &vfs_before {
            Some(v) if self.is("P19") => Some(own_set(v)),
            _ => None,
        };
        if syn.is_some() && self.target == "P13" {
            self.out.nontrivial = true;
        }
        match r {
            Ok(_) => {
                self.eval("P13");
                if !valid.is_empty() && syn.is_some() {
                    self.out.nontrivial |= self.is("P13");
                }
                if quiet {
                    if let Some(b) = broken.first() {
                        let b = b.clone();
                        self.fail("P13", || format!("workspace created although {} cannot be loaded", b));
                    }
                    self.defs = valid.clone();
                    if self.is("P13") {
                        self.probe_syntaxes(valid);
                    }
                } else {
                    self.defs_known = syn.is_none();
                }
            }
            Err(e) => {
                // no folder at all may be refused
                let folder = syn.map(|s| self.w.vfs.lookup(&cwd_before, &raw_path(s), true).map(|i| self.w.vfs.is_dir(i)).unwrap_or(false)).unwrap_or(true);
                if quiet && hard == 0 && broken.is_empty() && folder && self.w.vfs.lookup(&cwd_before, &raw_path(path), true).is_ok() {
                    self.fail("P13", || format!("workspace creation failed on a healthy disk: {}", e));
                }
                self.probe("workspace_refused");
                self.blame("creating a workspace", None, &e, !broken.is_empty());
            }
        }
        self.base = alloc::held();
        self.lexed = false;
        self.peak = 0;
    }

    /// All buffers are gone: only the workspace is left.
    fn check_released(&mut self) {
        if self.stop || self.lexed || self.ed.ws.is_none() {
            return;
        }
        let n = self.bufs.len();
        self.peak = self.peak.max(n);
        self.peek(|ed| {
            ed.peer_ws = None;
            ed.peer_buf = None;
            ed.buf = None;
            ed.gb = None;
            if let Some(ws) = ed.ws.as_mut() {
                for _ in 0..n {
                    ws.close_current_buffer();
                }
            }
        });
        self.bufs = Vec::new();
        self.cur = None;
        self.gtext = None;
        self.save_text = None;
        self.save_old = None;
        self.save_target = None;
        self.eval("P25");
        let (now, base, peak) = (alloc::held(), self.base, self.peak as i64);
        if now.0 > base.0 + 8 || now.1 > base.1 + 4096 + 1024 * peak {
            self.fail("P25", || {
                format!("all buffers are closed and the workspace still holds {} blocks and {} bytes more than when it was new", now.0 - base.0, now.1 - base.1)
            });
        }
    }

    fn probe_syntaxes(&mut self, defs: Vec<(String, String)>) {
        for (ext, name) in &defs {
            let p = match ext.rfind('.') {
                Some(0) => format!("/w/{}", ext),
                None => format!("/w/probe.{}", ext),
                // no file has such an extension
                _ => continue,
            };
            let got = self.peek(|ed| {
                let ws = ed.ws.as_mut().unwrap();
                let mut b = Buffer::new();
                b.path = Some(os_path(&p));
                ws.add_buffer(b);
                let n = ws.current_buffer.as_ref().and_then(|b| b.syntax_definition.as_ref()).map(|s| s.name.clone());
                let id = ws.current_buffer.as_ref().and_then(|b| b.id);
                ws.close_current_buffer();
                (n, id)
            });
            if let Some((got, id)) = got {
                if let Some(id) = id {
                    self.ids.insert(id);
                }
                let claimed = defs.iter().any(|(e, n)| e == ext && got.as_ref() == Some(n));
                if !claimed {
                    self.fail("P13", || {
                        format!("workspace created, but definition {:?} for .{} is not available (got {:?})", name, ext, got)
                    });
                    return;
                }
            }
        }
    }

    fn expected_syntax(&self, path: &Option<PathBuf>) -> Option<String> {
        if !self.defs_known {
            return None;
        }
        let p = match path {
            None => return Some("Plain Text".into()),
            Some(p) => p,
        };
        let (name, whole) = match p.file_name() {
            None => return None,
            Some(n) => (n.to_string_lossy().to_string(), n.to_str().is_some()),
        };
        let key = match name.rfind('.') {
            // nothing can claim a name that is not text
            Some(0) | None if !whole => return Some("Plain Text".into()),
            Some(0) | None => name,
            Some(i) if i + 1 == name.len() => return None,
            Some(i) => name[i + 1..].to_string(),
        };
        let mut claims = self.defs.iter().filter(|(e, _)| *e == key);
        if let Some((_, n)) = claims.next() {
            return if claims.next().is_none() { Some(n.clone()) } else { None };
        }
        if self.defs.iter().any(|(e, _)| e.eq_ignore_ascii_case(&key)) {
            return None;
        }
        Some(default_set().find_syntax_by_extension(&key).map(|s| s.name.clone()).unwrap_or("Plain Text".into()))
    }

    fn check_syntax(&mut self, path: &Option<PathBuf>, syn: &Option<String>) {
        if let Some(want) = self.expected_syntax(path) {
            self.eval("P13");
            if syn.as_deref() != Some(&want) {
                let (p, s) = (path.clone(), syn.clone());
                self.fail("P13", || format!("buffer with path {:?} got syntax {:?}, expected {:?}", p, s, want));
            }
        }
    }

    /// Process death: the disk stays as it is, everything in memory is gone.
    fn killed(&mut self) {
        self.probe("killed");
        self.check_disk(true);
        let _ = self.raw(|ed| {
            ed.ws = None;
            ed.aside = None;
            ed.buf = None;
            ed.gb = None;
            ed.peer_ws = None;
            ed.peer_buf = None;
        });
        self.w.fds.clear();
        self.w.dirs.clear();
        let gone: Vec<u64> = self.w.vfs.inodes.iter().filter(|(_, i)| i.nlink == 0).map(|(k, _)| *k).collect();
        for g in gone {
            self.w.vfs.inodes.remove(&g);
        }
        self.w.dead = false;
        self.bufs.clear();
        self.cur = None;
        self.aside = None;
        self.gtext = None;
        if self.prog.workspace && !self.stop {
            self.new_workspace("/w", None, &[]);
        }
    }

    fn exec(&mut self, st: &Step) {
        match &st.op {
            Op::Workspace { path, syntaxes } => self.new_workspace(path, syntaxes.as_deref(), &st.trigs),
            Op::New => self.add_new(),
            Op::Open { path } => {
                if self.ed.ws.is_some() {
                    self.open(path, st)
                } else if !self.prog.workspace {
                    self.load(path, st)
                }
            }
            Op::AddFile { path } => {
                if self.ed.ws.is_some() || !self.prog.workspace {
                    self.load(path, st)
                }
            }
            Op::Insert { text } => self.insert(&text.get()),
            Op::Delete => self.delete_at_cursor(),
            Op::DeleteRange { a, b } => {
                let t = self.text();
                let (a, b) = (resolve(a, &t), resolve(b, &t));
                self.edit(
                    |ed| {
                        if let Some(buf) = ed.cur() {
                            buf.delete_range(Range::new(pos(a), pos(b)))
                        }
                    },
                    model::delete(&t, a, b),
                    true,
                );
            }
            Op::Replace { text } => {
                let new = text.get();
                let arg = new.clone();
                self.edit(
                    |ed| {
                        if let Some(buf) = ed.cur() {
                            buf.replace(arg)
                        }
                    },
                    new,
                    false,
                );
            }
            Op::ReplaceSame => {
                let t = self.text().to_string();
                let arg = t.clone();
                self.edit(
                    |ed| {
                        if let Some(buf) = ed.cur() {
                            buf.replace(arg)
                        }
                    },
                    t,
                    false,
                );
            }
            Op::Read { a, b } => {
                let t = self.text();
                if self.cur.is_none() {
                    return;
                }
                let (a, b) = (resolve(a, &t), resolve(b, &t));
                let got = self.call(Doing::Look, &[], |ed| {
                    ed.cur().and_then(|buf| buf.read(&Range::new(pos(a), pos(b))))
                });
                if let Some(got) = got {
                    let want = model::read(&t, a, b);
                    self.eval("P15");
                    if got != want {
                        self.fail("P15", || {
                            format!("read {:?}..{:?} of {} gave {:?}, expected {:?}", a, b, show(&t), got, want)
                        });
                    }
                }
            }
            Op::Goto { p } => {
                let t = self.text();
                let p = resolve(p, &t);
                let got = self.call(Doing::Cursor, &[], |ed| ed.cur().map(|b| b.cursor.move_to(pos(p))));
                if let Some(Some(got)) = got {
                    self.go = Go::To(p);
                    self.eval("P15");
                    let want = model::offset(&t, p).is_some();
                    if got != want {
                        self.fail("P18", || format!("moving to {:?} in {} reported {}", p, show(&t), got));
                        self.fail("P15", || {
                            format!("position {:?} of {} is {} but the buffer says otherwise", p, show(&t), if want { "valid" } else { "invalid" })
                        });
                    }
                }
            }
            Op::Move { k } => {
                let k = *k;
                self.go = Go::Move(k);
                self.call(Doing::Cursor, &[], |ed| {
                    if let Some(b) = ed.cur() {
                        go(b, k)
                    }
                });
            }
            Op::Start => {
                if let Some(i) = self.cur {
                    self.call(Doing::Group, &[], |ed| ed.cur().map(|b| b.start_operation_group()));
                    self.bufs[i].hist.start();
                }
            }
            Op::End => {
                if let Some(i) = self.cur {
                    self.call(Doing::Group, &[], |ed| ed.cur().map(|b| b.end_operation_group()));
                    if self.bufs[i].hist.end() {
                        self.probe("group_closed");
                    }
                }
            }
            Op::Undo { n } => {
                for _ in 0..*n {
                    if self.stop || !self.history(true) {
                        break;
                    }
                }
            }
            Op::Redo { n } => {
                for _ in 0..*n {
                    if self.stop || !self.history(false) {
                        break;
                    }
                }
            }
            Op::Save => self.save(st),
            Op::SetPath { path } => {
                if let Some(i) = self.cur {
                    let p = path.as_deref().map(os_path);
                    let q = p.clone();
                    self.call(Doing::Look, &[], |ed| ed.cur().map(|b| b.path = q));
                    self.bufs[i].obs.path = p;
                    self.bufs[i].user_path = true;
                }
            }
            Op::Reload => self.reload(st),
            Op::Next => self.turn(true),
            Op::Prev => self.turn(false),
            Op::Close => self.close(),
            Op::Cycle => self.cycle(),
            Op::Many { n } => {
                for _ in 0..*n {
                    if self.stop || self.ed.ws.is_none() {
                        break;
                    }
                    self.add_new();
                }
            }
            Op::Shut { n } => {
                for _ in 0..*n {
                    if self.stop || self.cur.is_none() {
                        break;
                    }
                    self.close();
                }
            }
            Op::Observe => {
                if let Some(i) = self.cur {
                    let log: Rc<RefCell<Vec<P>>> = Rc::new(RefCell::new(Vec::new()));
                    let l2 = log.clone();
                    self.call(Doing::Look, &[], |ed| {
                        ed.cur().map(|b| {
                            b.change_callback = Some(Box::new(move |p: Position| {
                                let k = alloc::set_fill(0);
                                l2.borrow_mut().push((p.line, p.offset));
                                alloc::set_fill(k);
                            }))
                        })
                    });
                    self.bufs[i].log = Some(log);
                    self.bufs[i].obs.cb = true;
                }
            }
            Op::UpdateSyntax => {
                if self.ed.ws.is_some() {
                    let r = self.call(Doing::Syntax, &[], |ed| ed.ws.as_mut().unwrap().update_current_syntax().map_err(told));
                    if let (Some(r), None) = (&r, self.cur) {
                        self.eval("P28");
                        if r.as_ref().map_err(|e| &e.why) != Err(&Why::EmptyWorkspace) {
                            let m = format!("updating the syntax in an empty workspace gave {:?}", r.as_ref().map_err(|e| &e.why));
                            self.fail("P28", || m);
                        }
                    }
                    let r = r.map(|r| r.is_ok());
                    if let (Some(ok), Some(i)) = (r, self.cur) {
                        if let Some(Some(o)) = self.observe() {
                            self.bufs[i].obs.syn = o.syn.clone();
                            if !ok {
                                self.fail("P13", || "updating the syntax of an open buffer failed".into());
                            }
                            self.check_syntax(&o.path, &o.syn);
                        }
                    }
                }
            }
            Op::SetSyntax { ext } => {
                if let Some(i) = self.cur {
                    let e = ext.clone();
                    let r = self.peek(|ed| {
                        let d = match (&ed.ws, &ed.aside) {
                            (Some(ws), _) | (_, Some(ws)) => e.and_then(|e| ws.syntax_set.find_syntax_by_extension(&e).cloned()),
                            _ => None,
                        };
                        let name = d.as_ref().map(|d| d.name.clone());
                        ed.cur().map(|b| b.syntax_definition = d);
                        name
                    });
                    if let Some(name) = r {
                        self.bufs[i].obs.syn = name;
                    }
                }
            }
            Op::Root { path } => {
                let p = os_path(path);
                if let Some(ws) = &mut self.ed.ws {
                    ws.path = p.clone();
                    self.ws_path = p;
                }
            }
            Op::Aside { path } => {
                if self.ed.ws.is_some() {
                    self.raw(|ed| {
                        ed.aside = ed.ws.take();
                        ed.buf = None;
                    })
                    .ok();
                    self.aside = Some((std::mem::take(&mut self.bufs), self.cur.take()));
                    match path {
                        None => self.add_new(),
                        Some(p) => self.load(p, st),
                    }
                    if self.cur.is_none() && !self.w.dead {
                        // nothing to work on: back to the workspace
                        self.raw(|ed| ed.ws = ed.aside.take()).ok();
                        if let Some((bufs, cur)) = self.aside.take() {
                            self.bufs = bufs;
                            self.cur = cur;
                        }
                    }
                }
            }
            Op::Adopt => self.adopt(),
            Op::Tokens => self.tokens(),
            Op::Search { text } => self.search(&text.get()),
            Op::Find { p, n } => {
                let t = self.text();
                if let Some(o) = model::offset(&t, resolve(p, &t)) {
                    let needle: String = model::clusters(&t[o..], *n as usize);
                    self.search(&needle);
                }
            }
            Op::Measure { a, b } => {
                let t = self.text();
                if self.cur.is_some() {
                    let (a, b) = (resolve(a, &t), resolve(b, &t));
                    self.measure(&t, a, b);
                }
            }
            Op::Info => {
                self.call(Doing::Look, &[], |ed| {
                    ed.cur().map(|b| (b.line_count(), b.file_name(), b.file_extension()));
                    if let Some(ws) = &mut ed.ws {
                        let _ = ws.current_buffer_path().map(|p| p.to_path_buf());
                        let _ = ws.buffer_paths().len();
                    }
                });
            }
            Op::Peer(p) => self.beside(p),
            Op::Extern(e) => {
                self.w.begin_op(&[]);
                *self.w.stats.entry(ext_name(e)).or_insert(0) += 1;
                self.w.note(&mix(crate::rng::hash_str(ext_name(e))).to_le_bytes());
                self.w.ext(e);
                self.w.end_op();
                self.tree = None;
            }
            Op::Crash => {
                self.w.begin_op(&[]);
                self.w.dead = true;
                *self.w.stats.entry("kill").or_insert(0) += 1;
            }
            Op::GNew { text } => {
                let t = text.get();
                self.call(Doing::Gap, &[], |ed| ed.gb = Some(GapBuffer::new(&t)));
                self.gtext = Some(t);
                self.gap_check("creation");
            }
            Op::GInsert { p, text } => {
                if let Some(g) = self.gtext.clone() {
                    let (p, t) = (resolve(p, &g), text.get());
                    self.call(Doing::Gap, &[], |ed| ed.gb.as_mut().map(|b| b.insert(&t, &pos(p))));
                    self.gtext = Some(model::insert(&g, p, &t));
                    self.gap_check("insertion");
                }
            }
            Op::GDelete { a, b } => {
                if let Some(g) = self.gtext.clone() {
                    let (a, b) = (resolve(a, &g), resolve(b, &g));
                    self.call(Doing::Gap, &[], |ed| ed.gb.as_mut().map(|x| x.delete(&Range::new(pos(a), pos(b)))));
                    self.gtext = Some(model::delete(&g, a, b));
                    self.gap_check("deletion");
                }
            }
            Op::GRead { a, b } => {
                if let Some(g) = self.gtext.clone() {
                    let (a, b) = (resolve(a, &g), resolve(b, &g));
                    let got = self.call(Doing::Gap, &[], |ed| {
                        ed.gb.as_ref().and_then(|x| x.read(&Range::new(pos(a), pos(b))))
                    });
                    if let Some(got) = got {
                        self.eval("P15");
                        let want = model::read(&g, a, b);
                        if got != want {
                            self.fail("P15", || {
                                format!("gap buffer read {:?}..{:?} of {} gave {:?}, expected {:?}", a, b, show(&g), got, want)
                            });
                        }
                    }
                }
            }
            Op::GBounds { p } => {
                if let Some(g) = self.gtext.clone() {
                    let p = resolve(p, &g);
                    let got = self.call(Doing::Gap, &[], |ed| ed.gb.as_ref().map(|x| x.in_bounds(&pos(p))));
                    if let Some(Some(got)) = got {
                        self.eval("P15");
                        if got != model::offset(&g, p).is_some() {
                            self.fail("P15", || format!("gap buffer in_bounds({:?}) of {} is {}", p, show(&g), got));
                        }
                    }
                }
            }
            Op::Burst { n, s } => {
                let mut r = Rng::new(mix(*s as u64));
                let limit = self.work + WORK / 4;
                for _ in 0..*n {
                    if self.stop || self.cur.is_none() || self.work > limit {
                        break;
                    }
                    let t = self.text();
                    if r.chance(50) {
                        let p = resolve(&Pos { m: 0, l: r.u32(), o: r.u32() }, &t);
                        self.call(Doing::Cursor, &[], |ed| ed.cur().map(|b| b.cursor.move_to(pos(p))));
                        self.go = Go::To(p);
                        self.settle(false, false, false);
                    }
                    // a very long history is one of a small text
                    let full = if *n > 2000 { t.len() > 60 } else { false };
                    if (r.chance(60) && !full) || t.len() > 4000 {
                        let pool = ["a", "é", "x\n", "\n", "word ", "日", "e\u{301}", "🙂"];
                        let s = *r.pick(&pool);
                        self.insert(s);
                    } else {
                        self.delete_at_cursor();
                    }
                    self.settle(true, false, false);
                }
            }
        }
    }

    fn search(&mut self, needle: &str) {
        let t = self.text();
        let got = self.call(Doing::Search, &[], |ed| {
            ed.cur().map(|b| b.search(needle).iter().map(|p| (p.line, p.offset)).collect::<Vec<P>>())
        });
        // what an empty needle matches is nobody's business
        if let (Some(Some(got)), false) = (got, needle.is_empty() || needle.contains('\r')) {
            let want = model::search(&t, needle);
            self.eval("P20");
            if self.target == "P20" && !want.is_empty() {
                self.out.nontrivial = true;
            }
            if got != want {
                self.fail("P20", || format!("searching {} for {} gave {:?}, expected {:?}", show(&t), show(needle), got, want));
            }
        }
    }

    fn tokens(&mut self) {
        if self.ed.ws.is_none() {
            return;
        }
        let t = self.text();
        if t.len() > 100_000 {
            // highlighting is slow: a second per 100 KB
            return;
        }
        self.work += 10 * t.len();
        self.lexed = true;
        let none = self.cur.is_none();
        let ahead = self.step % 7;
        let got = self.call(Doing::Tokens, &[], |ed| {
            let ws = ed.ws.as_ref().unwrap();
            let set = ws.current_buffer_tokens().map_err(told)?;
            let mut it = match set.iter() {
                Ok(it) => it,
                Err(e) => return Ok((Vec::new(), Some(told(e)))),
            };
            let plain = |t| match t {
                Token::Newline => None,
                Token::Lexeme(l) => Some((l.value.to_string(), (l.position.line, l.position.offset), l.scope)),
            };
            // a second look at the same text, begun before and ended after the first
            let mut beside = set.iter().ok();
            let mut w: Vec<_> = beside.iter_mut().flat_map(|b| b.take(ahead)).map(plain).collect();
            let v: Vec<_> = it.by_ref().map(plain).collect();
            if w.len() == ahead {
                w.extend(beside.iter_mut().flat_map(|b| b.take(ahead)).map(plain));
            }
            if w.len() < 2 * ahead && w.len() != v.len() || w[..] != v[..w.len().min(v.len())] {
                return Err(Told { text: format!("MIXED two iterations over the same tokens differ: {:?} and {:?}", w, v), why: Why::Text });
            }
            Ok((v, it.error.map(told)))
        });
        let got: Result<_, Told> = match got {
            None => return,
            Some(g) => g,
        };
        self.eval("P19");
        match &got {
            Err(e) if e.why != Why::Text => self.blame("asking for tokens", None, e, false),
            Ok((_, Some(e))) => {
                self.probe("tokens_ended_by_error");
                if self.is("P28") && e.why != Why::Text {
                    let m = format!("tokens ended by an error that is not of the definitions: {}", e);
                    self.fail("P28", || m);
                }
            }
            _ => (),
        }
        let (toks, error) = match got {
            Err(e) => {
                if e.text.starts_with("MIXED ") || self.cur.is_some_and(|i| self.bufs[i].obs.syn.is_some()) {
                    self.fail("P19", || format!("the selected buffer has no tokens: {}", e));
                }
                return;
            }
            Ok(_) if none => {
                self.fail("P19", || "tokens without a selected buffer".into());
                return;
            }
            Ok(x) => x,
        };
        let name = match self.cur.and_then(|i| self.bufs[i].obs.syn.clone()) {
            Some(n) => n,
            None => return,
        };
        let (spans, gives_up) = match &self.own_set {
            Some(set) if set.find_syntax_by_name(&name).is_some() => scopes_of(&t, set.find_syntax_by_name(&name).unwrap(), set),
            _ => {
                let set = default_set();
                match set.find_syntax_by_name(&name) {
                    Some(def) => scopes_of(&t, def, set),
                    None => return,
                }
            }
        };
        let fails = gives_up.is_some();
        if self.target == "P19" && t.contains('\n') {
            self.out.nontrivial = true;
        }
        if fails {
            self.probe("grammar_failed");
        }
        if error.is_some() != fails {
            self.fail("P19", || match error {
                Some(e) => format!("the grammar can handle {} but the tokens end with an error: {}", show(&t), e),
                None => format!("the grammar fails on {} but no error is recorded", show(&t)),
            });
            return;
        }
        // where each line starts, and the clusters in it
        let starts: Vec<usize> = std::iter::once(0).chain(t.match_indices('\n').map(|(i, _)| i + 1)).collect();
        let bounds = model::boundaries(&t);
        let mut at = 0;
        for k in &toks {
            let (value, p, scope) = match k {
                None => {
                    if !t[at..].starts_with('\n') {
                        self.fail("P19", || format!("a line break is reported at byte {} of {}", at, show(&t)));
                        return;
                    }
                    at += 1;
                    continue;
                }
                Some((v, p, s)) => (v, p, s),
            };
            if !t[at..].starts_with(&value[..]) || value.contains('\n') {
                self.fail("P19", || format!("token {} is not what follows byte {} of {}", show(value), at, show(&t)));
                return;
            }
            let line = starts.partition_point(|s| *s <= at) - 1;
            let col = bounds.binary_search(&at).ok().map(|i| i - bounds.partition_point(|b| *b < starts[line]));
            if p.0 != line || col.map(|c| c != p.1).unwrap_or(false) {
                self.fail("P19", || {
                    format!("token {} of {} carries position {:?}, expected line {} and column {:?}", show(value), show(&t), p, line, col)
                });
                return;
            }
            let end = at + value.len();
            if !value.is_empty() {
                let first = spans.partition_point(|s| s.0 <= at) - 1;
                for (from, want) in spans[first..].iter().take_while(|s| s.0 < end) {
                    if want != scope {
                        self.fail("P19", || {
                            format!("token {} of {} carries scopes {}, at byte {} the grammar gives {}", show(value), show(&t), scope, from, want)
                        });
                        return;
                    }
                }
            }
            at = end;
        }
        if gives_up.map(|l| at + 1 < l).unwrap_or(false) {
            self.fail("P19", || format!("the tokens of {} end at byte {}, before the line the grammar fails on", show(&t), at));
        }
        if !fails && at != t.len() {
            self.fail("P19", || format!("the tokens of {} end at byte {} without an error", show(&t), at));
        }
    }

    // ---- edits and history -------------------------------------------------------------

    fn insert(&mut self, s: &str) {
        if let Some(i) = self.cur {
            let t = self.text();
            let c = self.bufs[i].obs.cursor;
            let want = model::insert(&t, c, s);
            self.edit(
                |ed| {
                    if let Some(b) = ed.cur() {
                        b.insert(s)
                    }
                },
                want,
                true,
            );
        }
    }

    fn delete_at_cursor(&mut self) {
        if let Some(i) = self.cur {
            let t = self.text();
            let c = self.bufs[i].obs.cursor;
            let mut end = (c.0, c.1 + 1);
            if model::offset(&t, end).is_none() {
                end = (c.0 + 1, 0);
            }
            let want = model::delete(&t, c, end);
            self.edit(
                |ed| {
                    if let Some(b) = ed.cur() {
                        b.delete()
                    }
                },
                want,
                true,
            );
        }
    }

    /// `recorded`: an edit that leaves the text alone may still enter the history.
    fn edit(&mut self, f: impl FnOnce(&mut Ed), want: String, recorded: bool) {
        if !recorded {
            self.go = Go::Replaced;
        }
        let i = match self.cur {
            None => return,
            Some(i) => i,
        };
        let pre = self.text();
        if self.call(Doing::Edit, &[], f).is_none() {
            return;
        }
        let got = match self.observe() {
            Some(Some(o)) => o.text,
            _ => return,
        };
        self.eval("P15");
        if *got != *want {
            self.fail("P15", || {
                format!("edit of {} gave {}, the same edit on a string gives {}", show(&pre), show(&got), show(&want))
            });
        }
        if pre != got || recorded {
            self.bufs[i].hist.edit(&pre, &got, !recorded);
        }
        if pre != got {
            self.eval("P09");
        }
    }

    /// One undo or redo. False when there was nothing to do.
    fn history(&mut self, undo: bool) -> bool {
        let i = match self.cur {
            None => return false,
            Some(i) => i,
        };
        let pre = self.text();
        let had = if undo { self.bufs[i].hist.undo.len() + self.bufs[i].hist.group.iter().map(|g| g.len()).sum::<usize>() } else { self.bufs[i].hist.redo.len() };
        if self
            .call(Doing::History, &[], |ed| {
                if let Some(b) = ed.cur() {
                    if undo {
                        b.undo()
                    } else {
                        b.redo()
                    }
                }
            })
            .is_none()
        {
            return false;
        }
        let o = match self.observe() {
            Some(Some(o)) => o,
            _ => return false,
        };
        self.eval("P07");
        let was_open = self.bufs[i].hist.group.as_ref().map(|g| !g.is_empty()).unwrap_or(false);
        let had_group = self.bufs[i].hist.undo.last().map(|e| e.group).unwrap_or(false)
            || self.bufs[i].hist.redo.last().map(|e| e.group).unwrap_or(false);
        if was_open || had_group {
            self.eval("P08");
        }
        let r = if undo { self.bufs[i].hist.undone(&pre, &o.text) } else { self.bufs[i].hist.redone(&pre, &o.text) };
        let b = &self.bufs[i];
        let (fs, fr, sw) = (b.failed_save, b.failed_reload, b.switched);
        let mut moved = had > 0;
        match r {
            Ok(m) => {
                moved = m;
                self.go = match self.bufs[i].hist.moved {
                    None | Some((false, _)) => Go::Same,
                    Some((true, false)) => Go::Replaced,
                    Some((true, true)) => Go::Steps,
                };
                if self.target == "P07" && m {
                    self.out.nontrivial = true;
                }
                if fs {
                    self.eval("P02");
                }
            }
            Err(wrong) => {
                let m = wrong.msg;
                self.fail("P07", || m.clone());
                if wrong.group {
                    self.fail("P08", || m.clone());
                }
                if fs {
                    self.fail("P02", || format!("after a failed save: {}", m));
                }
                if fr {
                    self.fail("P06", || format!("after a failed reload: {}", m));
                }
                if sw {
                    self.fail("P11", || format!("after switching buffers: {}", m));
                }
                self.lose_history(i);
                self.go = Go::Anywhere;
            }
        }
        self.settle(true, false, false);
        moved
    }

    fn gap_check(&mut self, what: &str) {
        if self.stop {
            return;
        }
        let got = self.peek(|ed| ed.gb.as_ref().map(|b| b.to_string()));
        if let (Some(Some(got)), Some(want)) = (got, self.gtext.clone()) {
            self.eval("P15");
            if got != want {
                self.fail("P15", || format!("gap buffer holds {} after {}, expected {}", show(&got), what, show(&want)));
                self.gtext = Some(got);
            }
        }
    }


    /// Follow the real buffer from here on without knowing its history.
    fn lose_history(&mut self, i: usize) {
        self.bufs[i].hist.clear();
        if let Some(s) = &mut self.bufs[i].sync {
            s.sure = false;
        }
    }

    /// After an operation on the selected buffer: what changed must have been announced, what
    /// must not change did not, and the modified flag is honest.
    fn settle(&mut self, may_edit: bool, path_set: bool, syn_set: bool) {
        let i = match self.cur {
            None => return self.check_observers(None, "", ""),
            Some(i) => i,
        };
        if self.stop {
            return;
        }
        let o = match self.observe() {
            None => return,
            Some(None) => {
                self.fail("P11", || "the selected buffer disappeared".into());
                self.stop = true;
                return;
            }
            Some(Some(o)) => o,
        };
        self.work += o.text.len();
        let old = self.bufs[i].obs.clone();
        self.check_observers(Some(i), &old.text, &o.text);
        if o.text != old.text && !may_edit {
            self.fail("P15", || format!("text changed from {} to {} without an edit", show(&old.text), show(&o.text)));
            self.lose_history(i);
        }
        if o.id != old.id {
            self.fail("P12", || format!("buffer identifier changed from {:?} to {:?}", old.id, o.id));
        }
        if !path_set && o.path != old.path {
            self.fail("P14", || format!("buffer path changed from {:?} to {:?} by itself", old.path, o.path));
        }
        if !syn_set && o.syn != old.syn {
            self.fail("P13", || format!("syntax changed from {:?} to {:?} by itself", old.syn, o.syn));
        }
        if old.cb && !o.cb {
            self.fail("P09", || "the change observer was lost".into());
        }
        self.check_modified(i, &o);
        let go = std::mem::replace(&mut self.go, Go::Same);
        if go != Go::Same {
            self.eval("P18");
            if self.target == "P18" && matches!(go, Go::Move(_) | Go::To(_)) && o.text.contains('\n') {
                self.out.nontrivial = true;
            }
        }
        match model::cursor(go, old.cursor, o.cursor, &o.text, o.text == old.text, &self.bufs[i].desire) {
            Ok(d) => self.bufs[i].desire = d,
            Err(m) => {
                self.fail("P18", || format!("cursor {:?} became {:?} after {:?}, {}; text {}", old.cursor, o.cursor, go, m, show(&o.text)));
                self.bufs[i].desire = None;
            }
        }
        self.note_text(&o);
        self.bufs[i].obs = o;
    }

    fn note_text(&mut self, o: &Obs) {
        let b = o.text.as_bytes();
        let n = b.len().min(2048);
        self.w.note(&b[..n]);
        self.w.note(&[b.len() as u8, (b.len() >> 8) as u8, o.cursor.0 as u8, o.cursor.1 as u8, o.modified as u8]);
        self.w.log(|| {
            format!("  text {} cursor {:?} modified {} path {:?} id {:?}", show(&o.text), o.cursor, o.modified, o.path, o.id)
        });
    }

    /// P09: drains all observers.
    fn check_observers(&mut self, cur: Option<usize>, pre: &str, post: &str) {
        let mut bad = None;
        let mut judged = false;
        for (k, b) in self.bufs.iter().enumerate() {
            if let Some(log) = &b.log {
                let heard: Vec<P> = std::mem::take(&mut *log.borrow_mut());
                if Some(k) != cur {
                    if !heard.is_empty() {
                        bad = Some(format!("the observer of an unselected buffer heard {:?}", heard));
                    }
                } else if pre != post {
                    judged = true;
                    let d = model::first_difference(pre, post).unwrap();
                    if !heard.iter().any(|p| *p <= d) {
                        bad = Some(format!(
                            "text changed from {} to {} (first difference at {:?}) but the observer heard {:?}",
                            show(pre),
                            show(post),
                            d,
                            heard
                        ));
                    }
                }
            }
        }
        if judged {
            self.eval("P09");
            if self.target == "P09" {
                self.out.nontrivial = true;
            }
        }
        if let Some(m) = bad {
            self.fail("P09", || m);
        }
    }

    fn check_modified(&mut self, i: usize, o: &Obs) {
        self.eval("P04");
        let b = &self.bufs[i];
        let msg = match &b.sync {
            None if !o.modified => Some("never loaded, saved or reloaded, yet reported unmodified".to_string()),
            None => None,
            Some(s) if !o.modified => {
                if o.text != s.text {
                    Some(format!("reported unmodified with text {} while its file was left with {}", show(&o.text), show(&s.text)))
                } else if s.damaged {
                    Some("reported unmodified although a failed save has damaged its file".to_string())
                } else {
                    None
                }
            }
            Some(s) => {
                if s.sure && s.point == b.hist.point() && b.hist.certain() {
                    Some("reported modified although it is back at the point last synchronised with its file".to_string())
                } else {
                    None
                }
            }
        };
        if let Some(m) = msg {
            self.fail("P04", || m);
        }
    }

    // ---- files -------------------------------------------------------------------------

    fn untouched(&self, path: &[u8], ino: Option<u64>) -> bool {
        self.w.ext_in_op == 0
            || (self.w.ext_paths.iter().all(|p| !under(path, p))
                && ino.map(|i| !self.w.ext_touched.contains(&i)).unwrap_or(true))
    }

    fn save(&mut self, st: &Step) {
        let i = match self.cur {
            None => return,
            Some(i) => i,
        };
        let before = self.bufs[i].obs.clone();
        let walk = self.walk(&before.path);
        let target = walk.as_ref().ok().filter(|w| !w.slash).map(|w| (w.path(), w.ino()));
        let file = |v: &Vfs, p: &[u8]| v.content(b"/", p);
        let old = target.as_ref().and_then(|(p, _)| file(&self.w.vfs, p));
        let obstacle = match (&target, &walk) {
            (None, _) | (_, Err(_)) => true,
            (Some((p, _)), _) if self.w.vfs.walk(b"/", p, true).is_err() => true,
            (Some((_, Some(ino))), _) => {
                let n = self.w.vfs.get(*ino);
                !matches!(n.node, Node::File(_)) || n.mode & 0o200 == 0
            }
            (Some((_, None)), Ok(w)) => {
                let (d, _) = w.parent();
                !self.w.vfs.is_dir(d) || self.w.vfs.get(d).mode & 0o300 != 0o300
            }
        } || match self.w.vfs.capacity {
            None => false,
            Some(c) => {
                self.w.vfs.used() - old.as_ref().map(|o| o.len()).unwrap_or(0) as u64 + before.text.len() as u64 > c
            }
        };
        self.save_target = target.clone();
        self.save_old = old.clone();
        self.save_text = Some(before.text.clone());
        let r = self.call(Doing::Save, &st.trigs, |ed| ed.cur().map(|b| b.save().map_err(told_io)));
        let r = match r {
            Some(Some(r)) => r,
            _ => return,
        };
        if self.w.dead {
            return;
        }
        let o = match self.observe() {
            Some(Some(o)) => o,
            _ => return,
        };
        let chdir = !self.only_exts(st, |e| !matches!(e, Ext::Chdir { .. }));
        let clean = match &target {
            None => false,
            Some((p, ino)) => {
                !chdir
                    && self.untouched(p, *ino)
                    && self.walk(&before.path).map(|w| w.path() == *p).unwrap_or(false)
            }
        };
        let quiet = self.w.ext_in_op == 0;
        let now = target.as_ref().and_then(|(p, _)| file(&self.w.vfs, p));
        if self.target == "P01" || self.target == "P04" {
            self.out.nontrivial = true;
        }
        self.result = if r.is_ok() { "saved" } else { "save failed" };
        if let Err(e) = &r {
            let p = before.path.as_ref().map(|p| p.as_os_str().as_bytes().to_vec());
            self.blame("saving", p.as_deref(), e, false);
        }
        match r {
            Ok(()) => {
                self.eval("P01");
                if target.is_none() && quiet {
                    self.fail("P01", || format!("save to {:?} reported success although there is no such place", before.path));
                }
                if clean && now.as_ref().map(|d| &d[..]) != Some(before.text.as_bytes()) {
                    self.fail("P01", || {
                        format!(
                            "save reported success but the file holds {} instead of {}",
                            now.as_ref().map(|d| show(&lossy(d))).unwrap_or("nothing".into()),
                            show(&before.text)
                        )
                    });
                }
                if !self.w.fired.is_empty() {
                    self.probe("save_ok_despite_disturbance");
                }
                let point = self.bufs[i].hist.point();
                self.bufs[i].sync = Some(Sync {
                    text: before.text.clone(),
                    point,
                    target: target.map(|t| t.0),
                    sure: true,
                    damaged: false,
                });
            }
            Err(e) => {
                self.probe("save_failed");
                self.eval("P02");
                if self.target == "P02" {
                    self.out.nontrivial = true;
                }
                if !obstacle && quiet && self.w.hard_faults == 0 {
                    self.fail("P01", || format!("save of {} to {:?} failed with nothing in the way: {}", show(&before.text), before.path, e));
                    if self.bufs[i].failed_save {
                        self.fail("P02", || format!("a retried save failed with nothing in the way: {}", e));
                    }
                }
                let mut same = o.clone();
                same.modified = before.modified;
                if same != before {
                    self.fail("P02", || format!("failed save changed the buffer from {:?} to {:?}", before, o));
                }
                if let Some(s) = &mut self.bufs[i].sync {
                    s.sure = false;
                    if clean
                        && s.target == target.map(|t| t.0)
                        && old.is_some()
                        && now != old
                        && now.as_ref().map(|d| &d[..]) != Some(s.text.as_bytes())
                    {
                        s.damaged = true;
                        *self.out.probes.entry("save_failed_after_truncation").or_insert(0) += 1;
                    }
                }
                self.bufs[i].failed_save = true;
            }
        }
        if quiet && !self.bufs[i].user_path {
            if let Some(p) = &before.path {
                let pb = p.as_os_str().as_bytes().to_vec();
                if self.w.vfs.realpath(b"/", &pb).map(|r| r == pb).unwrap_or(false) {
                    self.eval("P14");
                    if let Some(other) = self.w.editor_opened.iter().find(|x| **x != pb).cloned() {
                        self.fail("P14", || format!("saving the buffer of {} wrote to {}", lossy(&pb), lossy(&other)));
                    }
                }
            }
        }
        if quiet && self.bufs[i].user_path {
            if let Some((p, _)) = self.save_target.clone() {
                self.eval("P14");
                if let Some(other) = self.w.editor_opened.iter().find(|x| **x != p).cloned() {
                    self.fail("P14", || format!("the path was set to {:?}, saving wrote to {}", before.path, lossy(&other)));
                }
            }
        }
    }

    /// Why a file could not be read as text, judged on the disk as it is now.
    fn unreadable(&self, walk: &Result<crate::vfs::Walk, i32>) -> bool {
        match walk {
            Err(_) => true,
            // reachable from the working directory only, not from the root
            Ok(w) if self.w.vfs.walk(b"/", &w.path(), true).is_err() => true,
            Ok(w) => match w.ino() {
                None => true,
                Some(i) => {
                    let n = self.w.vfs.get(i);
                    match &n.node {
                        Node::File(d) => {
                            n.mode & 0o400 == 0 || std::str::from_utf8(d).is_err() || n.announced.map(|a| a > 1 << 24).unwrap_or(false)
                        }
                        _ => true,
                    }
                }
            },
        }
    }

    /// The byte streams served in this operation that amount to exactly `text`.
    fn sources(&self, text: &str) -> Vec<Stream> {
        self.w
            .streams
            .iter()
            .filter(|s| {
                s.contiguous
                    && s.served == text.as_bytes()
                    && (s.eof
                        || match self.w.vfs.inodes.get(&s.ino).map(|n| &n.node) {
                            Some(Node::File(d)) => d[..] == s.served[..] && !self.w.ext_touched.contains(&s.ino),
                            _ => false,
                        })
            })
            .cloned()
            .collect()
    }

    fn loaded(&mut self, st: &Step, k: usize, o: &Obs) {
        self.eval("P05");
        if self.is("P05") {
            self.out.nontrivial = true;
        }
        let src = self.sources(&o.text);
        if src.is_empty() {
            let served: Vec<String> = self.w.streams.iter().map(|s| format!("{} eof={}", show(&lossy(&s.served)), s.eof)).collect();
            self.fail("P05", || format!("opened with text {} but the file system served {:?}", show(&o.text), served));
        }
        if o.modified {
            self.fail("P04", || "reported modified right after loading".into());
        }
        match &o.path {
            None => self.fail("P14", || "loaded buffer has no path".into()),
            Some(p) => {
                let pb = p.as_os_str().as_bytes().to_vec();
                let tame = self.only_exts(st, |e| {
                    matches!(
                        e,
                        Ext::Retarget { .. } | Ext::Write { .. } | Ext::Trunc { .. } | Ext::Append { .. } | Ext::Clock { .. } | Ext::Fill { .. } | Ext::Free | Ext::Announce { .. }
                    )
                });
                if tame {
                    self.eval("P14");
                    if self.is("P14") {
                        self.out.nontrivial = true;
                    }
                    if self.w.vfs.realpath(b"/", &pb).map(|r| r != pb).unwrap_or(true) {
                        self.fail("P14", || format!("recorded path {} is not an absolute, link-free path", lossy(&pb)));
                    } else if !src.is_empty() && !src.iter().any(|s| s.path == pb) {
                        let from = lossy(&src[0].path);
                        self.fail("P14", || format!("text was loaded from {} but the recorded path is {}", from, lossy(&pb)));
                    }
                }
            }
        }
        self.bufs[k].sync = Some(Sync {
            text: o.text.clone(),
            point: self.bufs[k].hist.point(),
            target: o.path.as_ref().map(|p| p.as_os_str().as_bytes().to_vec()),
            sure: true,
            damaged: false,
        });
        if self.ed.ws.is_some() {
            self.check_syntax(&o.path.clone(), &o.syn.clone());
        }
    }

    fn shape_of_ws(&mut self) -> Option<(Option<usize>, usize)> {
        self.peek(|ed| match &mut ed.ws {
            Some(ws) => (ws.current_buffer_index(), ws.buffer_paths().len()),
            None => (None, 0),
        })
    }

    fn add_new(&mut self) {
        let r = self.call(Doing::Select, &[], |ed| {
            let b = Buffer::new();
            match &mut ed.ws {
                Some(ws) => ws.add_buffer(b),
                None => ed.buf = Some(b),
            }
        });
        if r.is_some() {
            self.added(None);
        }
    }

    fn load(&mut self, path: &str, st: &Step) {
        let walk = self.w.vfs.walk(&self.w.cwd, &raw_path(path), true);
        let bad = self.unreadable(&walk);
        let r = self.call(Doing::Load, &st.trigs, |ed| {
            let b = Buffer::from_file(&os_path(path)).map_err(told_io)?;
            match &mut ed.ws {
                Some(ws) => ws.add_buffer(b),
                None => ed.buf = Some(b),
            }
            Ok::<(), Told>(())
        });
        if self.w.dead {
            return;
        }
        match r {
            None => (),
            Some(Ok(())) => self.added(Some(st)),
            Some(Err(e)) => self.refused(bad, path, &e),
        }
    }

    /// Is the error the one that stopped the operation?
    fn blame(&mut self, doing: &str, path: Option<&[u8]>, e: &Told, broken: bool) {
        use std::io::ErrorKind as K;
        self.eval("P28");
        if !self.is("P28") {
            return;
        }
        self.out.nontrivial = true;
        let errs = self.w.errs.clone();
        let kinds: Vec<K> = errs.iter().map(|e| std::io::Error::from_raw_os_error(*e).kind()).collect();
        let pathless = path.is_none();
        let ok = match (&e.why, doing) {
            (w, "asking for tokens") => *w == if self.cur.is_none() { Why::EmptyWorkspace } else { Why::MissingSyntax },
            (w, "reloading") if pathless => *w == Why::MissingPath,
            (Why::Io(_, K::NotFound), "saving") if pathless => true,
            (Why::Io(Some(c), _), _) => errs.contains(c),
            (Why::Io(None, K::InvalidData), _) => self.w.streams.iter().any(|s| std::str::from_utf8(&s.served).is_err()),
            (Why::Io(None, K::WriteZero), _) => self.w.nothing_taken > 0,
            (Why::Io(None, K::InvalidInput), _) if path.is_some_and(|p| p.contains(&0)) => true,
            // a size that no memory holds was announced
            (Why::Io(None, K::OutOfMemory), _) => self.w.vfs.inodes.values().any(|n| n.announced.is_some_and(|a| a > 1 << 24)) || self.w.ext_in_op > 0,
            // a folder within itself
            (Why::Io(None, K::Other), "creating a workspace") => broken || self.w.ext_in_op > 0,
            (Why::Io(None, k), _) => kinds.contains(k),
            (Why::Definition, _) => doing == "creating a workspace" && (broken || self.w.ext_in_op > 0),
            _ => false,
        };
        if !ok {
            let m = format!(
                "{} reported {:?} ({}), but what went wrong during it is: calls failed with {:?} ({:?}), {} writes took nothing, {} of the streams read were not UTF-8",
                doing, e.why, e, errs, kinds, self.w.nothing_taken,
                self.w.streams.iter().filter(|s| std::str::from_utf8(&s.served).is_err()).count()
            );
            self.fail("P28", || m);
        }
    }

    fn refused(&mut self, bad: bool, path: &str, e: &Told) {
        self.result = "open failed";
        self.blame("opening", Some(path.as_bytes()), e, false);
        self.probe("open_refused");
        if !bad && self.w.ext_in_op == 0 && self.w.hard_faults == 0 {
            let e = e.to_string();
            self.fail("P05", || format!("opening {} failed with nothing in the way: {}", path, e));
        }
        // nothing may have changed
        self.eval("P11");
        if self.ed.ws.is_some() {
            let want = (self.cur, self.bufs.len());
            if let Some(got) = self.shape_of_ws() {
                if got != want {
                    self.fail("P11", || format!("failed open changed (selection, buffer count) from {:?} to {:?}", want, got));
                    self.fail("P12", || format!("failed open changed (selection, buffer count) from {:?} to {:?}", want, got));
                    self.stop = true;
                }
            }
        }
        if let Some(o) = self.observe() {
            let want = self.cur.map(|i| self.bufs[i].obs.clone());
            if o != want {
                self.fail("P11", || format!("failed open changed the selected buffer from {:?} to {:?}", want, o));
                self.stop = true;
            }
        }
    }

    /// A buffer was added: it should be in its place and selected.
    fn placed(&mut self) -> Option<(usize, Obs)> {
        let o = match self.observe() {
            None => return None,
            Some(None) => {
                self.fail("P12", || "no buffer selected after adding one".into());
                self.stop = true;
                return None;
            }
            Some(Some(o)) => o,
        };
        let at;
        if self.ed.ws.is_some() {
            at = self.cur.map(|c| c + 1).unwrap_or(0);
            self.eval("P12");
            let want = (Some(at), self.bufs.len() + 1);
            if let Some(got) = self.shape_of_ws() {
                if got != want {
                    self.fail("P12", || format!("adding a buffer gave (selection, count) {:?}, expected {:?}", got, want));
                    self.stop = true;
                    return None;
                }
            }
            match o.id {
                Some(id) if self.ids.insert(id) => (),
                id => {
                    self.fail("P12", || format!("added buffer got identifier {:?}, which is missing or was used before", id));
                }
            }
        } else {
            self.bufs.clear();
            at = 0;
        }
        Some((at, o))
    }

    /// A buffer was added and selected; `st` if it was loaded from a file.
    fn added(&mut self, st: Option<&Step>) {
        let (at, o) = match self.placed() {
            None => return,
            Some(x) => x,
        };
        self.bufs.insert(at, Self::new_buf(o.clone()));
        self.cur = Some(at);
        self.settled(at, &o, st)
    }

    fn settled(&mut self, at: usize, o: &Obs, st: Option<&Step>) {
        match st {
            Some(st) => self.loaded(st, at, o),
            None => {
                if self.ed.ws.is_some() {
                    self.check_syntax(&o.path, &o.syn);
                }
            }
        }
        self.check_modified(at, o);
        self.note_text(o);
    }

    /// The buffer worked on outside the workspace is added to it, with all it has been through.
    fn adopt(&mut self) {
        let (bufs, sel) = match self.aside.take() {
            None => return,
            Some(x) => x,
        };
        let mine = self.cur.take().map(|i| self.bufs.swap_remove(i));
        self.bufs = bufs;
        self.cur = sel;
        let r = self.call(Doing::Select, &[], |ed| {
            ed.ws = ed.aside.take();
            if let (Some(b), Some(ws)) = (ed.buf.take(), &mut ed.ws) {
                ws.add_buffer(b);
            }
        });
        let mut mine = match (r, mine) {
            (Some(_), Some(b)) => b,
            _ => return,
        };
        self.probe("adopted");
        let (at, o) = match self.placed() {
            None => return,
            Some(x) => x,
        };
        let mut want = mine.obs.clone();
        want.id = o.id;
        let chosen = want.syn.is_some();
        if !chosen {
            want.syn = o.syn.clone();
        }
        self.eval("P11");
        if o != want {
            self.fail("P11", || format!("a buffer left as {:?} is {:?} once added to the workspace", want, o));
            if o.syn != want.syn {
                self.fail("P13", || format!("adding a buffer to the workspace changed its syntax from {:?} to {:?}", want.syn, o.syn));
            }
            self.stop = true;
            return;
        }
        mine.id = o.id;
        mine.obs = o.clone();
        self.bufs.insert(at, mine);
        self.cur = Some(at);
        if !chosen {
            self.check_syntax(&o.path, &o.syn);
        }
        self.check_modified(at, &o);
        self.note_text(&o);
    }

    fn open(&mut self, path: &str, st: &Step) {
        let walk = self.w.vfs.walk(&self.w.cwd, &raw_path(path), true);
        let real = self.w.vfs.realpath(&self.w.cwd, &raw_path(path)).ok();
        let bad = self.unreadable(&walk);
        let holders: Vec<usize> = match &real {
            None => Vec::new(),
            Some(r) => (0..self.bufs.len())
                .filter(|k| self.bufs[*k].obs.path.as_ref().map(|p| p.as_os_str().as_bytes() == &r[..]).unwrap_or(false))
                .collect(),
        };
        let r = self.call(Doing::Load, &st.trigs, |ed| {
            ed.ws.as_mut().unwrap().open_buffer(&os_path(path)).map_err(told)
        });
        if self.w.dead {
            return;
        }
        let quiet = self.w.ext_in_op == 0;
        let calm = quiet && self.w.hard_faults == 0;
        let r = match r {
            None => return,
            Some(r) => r,
        };
        if !holders.is_empty() {
            self.eval("P10");
            if self.target == "P10" {
                self.out.nontrivial = true;
            }
            self.probe("opened_a_file_already_open");
        }
        if let Err(e) = r {
            if calm && !holders.is_empty() {
                self.fail("P10", || format!("opening {}, which is already open, failed: {}", path, e));
            }
            return self.refused(bad && holders.is_empty(), path, &e);
        }
        let o = match self.observe() {
            None => return,
            Some(None) => {
                self.fail("P12", || "no buffer selected after a successful open".into());
                self.stop = true;
                return;
            }
            Some(Some(o)) => o,
        };
        let known = (0..self.bufs.len()).find(|k| o.id.is_some() && self.bufs[*k].id == o.id);
        match known {
            None => {
                if quiet && !holders.is_empty() {
                    self.fail("P10", || format!("opening {}, which is already open, added a second buffer", path));
                } else if let Some(twin) = self.bufs.iter().find(|b| b.obs.path.is_some() && b.obs.path == o.path) {
                    let m = format!("opening {} added a second buffer for {:?} (identifiers {:?} and {:?})", path, o.path, twin.id, o.id);
                    self.fail("P10", || m);
                }
                self.added(Some(st));
            }
            Some(k) => {
                if quiet {
                    // A path set by the application may denote the same file in other words.
                    let same = match (&self.bufs[k].obs.path, &real) {
                        (Some(p), Some(r)) => {
                            p == Path::new(OsStr::from_bytes(r))
                                || self.w.vfs.realpath(&self.w.cwd, p.as_os_str().as_bytes()).ok().as_ref() == Some(r)
                        }
                        _ => false,
                    };
                    if !same {
                        self.fail("P05", || format!("opening {} gave the text of {:?}", path, o.path));
                        self.fail("P10", || format!("opening {} selected the buffer of {:?}", path, o.path));
                    }
                }
                if self.bufs[k].obs != o {
                    let (a, b) = (self.bufs[k].obs.clone(), o.clone());
                    self.fail("P10", || format!("opening a file already open changed its buffer from {:?} to {:?}", a, b));
                }
                self.selected(k, self.bufs.len());
            }
        }
    }

    /// Buffer `k` should now be the selected one, of `n`.
    fn selected(&mut self, k: usize, n: usize) {
        let want = (Some(k), n);
        self.eval("P12");
        if let Some(got) = self.shape_of_ws() {
            if got != want {
                self.fail("P12", || format!("(selection, buffer count) is {:?}, expected {:?}", got, want));
                self.stop = true;
                return;
            }
        }
        let o = match self.observe() {
            None => return,
            Some(o) => o,
        };
        self.eval("P11");
        if self.target == "P11" && n > 1 {
            self.out.nontrivial = true;
        }
        let was = self.bufs[k].obs.clone();
        if o.as_ref() != Some(&was) {
            let id = o.as_ref().and_then(|o| o.id);
            self.fail("P11", || format!("buffer came back as {:?}, was left as {:?}", o, was));
            if id != was.id {
                self.fail("P12", || format!("expected buffer {:?} to be selected, found {:?}", was.id, id));
            }
            self.stop = true;
            return;
        }
        if self.cur != Some(k) {
            self.bufs[k].switched = true;
        }
        self.cur = Some(k);
        self.check_observers(None, "", "");
        self.note_text(&was);
    }

    fn reload(&mut self, st: &Step) {
        let i = match self.cur {
            None => return,
            Some(i) => i,
        };
        let before = self.bufs[i].obs.clone();
        let walk = self.walk(&before.path);
        let bad = self.unreadable(&walk);
        let bound = walk.as_ref().ok().map(|w| w.path());
        let r = self.call(Doing::Reload, &st.trigs, |ed| ed.cur().map(|b| b.reload().map_err(told)));
        let r = match r {
            Some(Some(r)) => r,
            _ => return,
        };
        if self.w.dead {
            return;
        }
        let o = match self.observe() {
            Some(Some(o)) => o,
            _ => return,
        };
        self.eval("P06");
        if self.target == "P06" && (r.is_err() || o.text != before.text) {
            self.out.nontrivial = true;
        }
        self.result = if r.is_ok() { "reloaded" } else { "reload failed" };
        if let Err(e) = &r {
            let p = before.path.as_ref().map(|p| p.as_os_str().as_bytes().to_vec());
            self.blame("reloading", p.as_deref(), e, false);
        }
        match r {
            Err(e) => {
                self.probe("reload_failed");
                if !bad && self.w.ext_in_op == 0 && self.w.hard_faults == 0 {
                    self.fail("P06", || format!("reload failed with nothing in the way: {}", e));
                }
                if o != before {
                    self.fail("P06", || format!("failed reload changed the buffer from {:?} to {:?}", before, o));
                }
                self.bufs[i].failed_reload = true;
            }
            Ok(()) => {
                self.go = Go::Replaced;
                let src = self.sources(&o.text);
                if src.is_empty() {
                    let served: Vec<String> =
                        self.w.streams.iter().map(|s| format!("{} eof={}", show(&lossy(&s.served)), s.eof)).collect();
                    self.fail("P06", || format!("reload gave {} but the file system served {:?}", show(&o.text), served));
                }
                if o.modified {
                    self.fail("P06", || "reported modified right after a successful reload".into());
                }
                if (&o.id, &o.path, &o.syn, o.cb) != (&before.id, &before.path, &before.syn, before.cb) {
                    self.fail("P06", || format!("reload changed more than text and cursor: {:?} to {:?}", before, o));
                }
                let c = before.cursor;
                let fits = |p: P| model::offset(&o.text, p).is_some();
                let want = if fits(c) {
                    c
                } else if fits((c.0, 0)) {
                    (c.0, 0)
                } else {
                    (0, 0)
                };
                if o.cursor != want && !(o.text == before.text && o.cursor == c) {
                    self.fail("P06", || format!("cursor {:?} became {:?} on reload, expected {:?}; text {}", c, o.cursor, want, show(&o.text)));
                }
                if o.text != before.text {
                    self.probe("reload_changed_text");
                    self.bufs[i].hist.edit(&before.text, &o.text, true);
                }
                let point = self.bufs[i].hist.point();
                self.bufs[i].sync = Some(Sync {
                    text: o.text.clone(),
                    point,
                    target: walk.ok().map(|w| w.path()),
                    sure: true,
                    damaged: false,
                });
            }
        }
        if self.w.ext_in_op == 0 && self.bufs[i].user_path {
            if let Some(p) = &bound {
                self.eval("P14");
                self.probe("reload_after_setting_a_path");
                if let Some(s) = self.w.streams.iter().find(|s| !s.served.is_empty() && s.path != *p).cloned() {
                    self.fail("P14", || format!("the path was set to {:?}, reloading read {}", before.path, lossy(&s.path)));
                }
            }
        }
        if self.w.ext_in_op == 0 && !self.bufs[i].user_path {
            if let Some(p) = &before.path {
                let pb = p.as_os_str().as_bytes().to_vec();
                if self.w.vfs.realpath(b"/", &pb).map(|r| r == pb).unwrap_or(false) {
                    self.eval("P14");
                    if let Some(s) = self.w.streams.iter().find(|s| !s.served.is_empty() && s.path != pb).cloned() {
                        self.fail("P14", || format!("reloading the buffer of {} read {}", lossy(&pb), lossy(&s.path)));
                    }
                }
            }
        }
    }

    // ---- workspace ---------------------------------------------------------------------

    fn turn(&mut self, forward: bool) {
        if self.ed.ws.is_none() {
            return;
        }
        let n = self.bufs.len();
        let r = self.call(Doing::Select, &[], |ed| {
            let ws = ed.ws.as_mut().unwrap();
            if forward {
                ws.next_buffer()
            } else {
                ws.previous_buffer()
            }
        });
        if r.is_none() {
            return;
        }
        match self.cur {
            None => self.empty(),
            Some(c) => self.selected(if forward { (c + 1) % n } else { (c + n - 1) % n }, n),
        }
    }

    fn empty(&mut self) {
        self.cur = None;
        if let Some(got) = self.shape_of_ws() {
            if got != (None, 0) {
                self.fail("P12", || format!("empty workspace reports (selection, count) {:?}", got));
                self.stop = true;
            }
        }
        if let Some(Some(_)) = self.observe() {
            self.fail("P12", || "empty workspace still has a selected buffer".into());
            self.stop = true;
        }
    }

    fn close(&mut self) {
        if self.ed.ws.is_none() {
            return;
        }
        if self.call(Doing::Select, &[], |ed| ed.ws.as_mut().unwrap().close_current_buffer()).is_none() {
            return;
        }
        if let Some(c) = self.cur {
            self.bufs.remove(c);
            self.probe("closed");
            if self.bufs.is_empty() {
                self.empty();
            } else {
                let k = c.saturating_sub(1);
                self.cur = None;
                self.selected(k, self.bufs.len());
            }
        } else {
            self.empty();
        }
    }

    fn cycle(&mut self) {
        for _ in 0..self.bufs.len() {
            if self.stop {
                return;
            }
            self.turn(true);
        }
    }

    fn check_ws(&mut self) {
        let r = self.peek(|ed| {
            let ws = ed.ws.as_mut()?;
            let cur = ws.current_buffer_path().map(|p| p.to_path_buf());
            let idx = ws.current_buffer_index();
            let paths: Vec<Option<PathBuf>> = ws.buffer_paths().into_iter().map(|p| p.map(|p| p.to_path_buf())).collect();
            Some((cur, idx, paths))
        });
        let (cur, idx, paths) = match r {
            Some(Some(x)) => x,
            _ => return,
        };
        let root = self.ws_path.clone();
        let rel = |p: &Option<PathBuf>| {
            p.as_ref().map(|p| p.strip_prefix(&root).map(|x| x.to_path_buf()).unwrap_or_else(|_| p.clone()))
        };
        let want: Vec<Option<PathBuf>> = self.bufs.iter().map(|b| rel(&b.obs.path)).collect();
        let wcur = self.cur.and_then(|c| want[c].clone());
        self.eval("P12");
        if self.target == "P12" && self.bufs.len() > 1 {
            self.out.nontrivial = true;
        }
        if (idx, &paths, &cur) != (self.cur, &want, &wcur) {
            let wi = self.cur;
            self.fail("P12", || {
                format!("workspace reports index {:?}, paths {:?}, current {:?}; expected {:?}, {:?}, {:?}", idx, paths, cur, wi, want, wcur)
            });
            self.stop = true;
        }
    }

    // ---- after every operation ---------------------------------------------------------

    fn after(&mut self, st: &Step) {
        self.peak = self.peak.max(self.bufs.len());
        self.out.nontrivial |= self.target == "P25" && self.peak > 0;
        self.eval("P16");
        self.eval("P17");
        if matches!(self.target, "P17" | "P15" | "P08") {
            self.out.nontrivial = true;
        }
        if self.target == "P16" && !self.w.fired.is_empty() {
            self.out.nontrivial = true;
        }
        if !self.w.fds.is_empty() {
            let open: Vec<String> = self.w.fds.values().map(|f| lossy(&f.path)).collect();
            self.fail("P16", || format!("handles still open after the operation: {:?}", open));
            self.w.fds.clear();
        }
        self.check_disk(false);
        if self.stop {
            return;
        }
        let may_edit = matches!(
            st.op,
            Op::Insert { .. } | Op::Delete | Op::DeleteRange { .. } | Op::Replace { .. } | Op::ReplaceSame | Op::Reload
        );
        let syn = matches!(st.op, Op::UpdateSyntax);
        self.settle(may_edit, false, syn);
        if self.ed.ws.is_some() && !self.stop {
            self.check_ws();
        }
        if self.is("P22") {
            self.check_info();
        }
        if self.is("P23") {
            self.check_effort();
        }
        if matches!(self.target, "P21" | "P24") {
            self.record();
        }
    }

    /// P26, P27: ranges, distances and lines agree with the text they are about.
    fn measure(&mut self, t: &str, a: P, b: P) {
        let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
        let ends = (model::offset(t, lo), model::offset(t, hi));
        let got = self.call(Doing::Measure, &[], |ed| {
            let (pa, pb) = (pos(a), pos(b));
            // the text as the buffer gives it
            let (cursor, data, read, count) = match ed.cur() {
                Some(buf) => ((buf.cursor.line, buf.cursor.offset), buf.data(), buf.read(&Range::new(pa, pb)), buf.line_count()),
                None => return Default::default(),
            };
            let mut bad: Vec<String> = Vec::new();
            let mut judge = |ok: bool, m: String| {
                if !ok && bad.len() < 3 {
                    bad.push(m);
                }
            };
            let near = |p: P| [(p.0, p.1.saturating_sub(1)), p, (p.0, p.1.saturating_add(1)), (p.0.saturating_add(1), 0), (p.0.saturating_sub(1), p.1.saturating_add(2))];
            let points: Vec<P> = near(lo).into_iter().chain(near(hi)).chain([(0, 0), cursor]).collect();
            for &p in &points {
                for &q in &[lo, hi] {
                    let (x, y) = (pos(p), pos(q));
                    let got = (x.partial_cmp(&y), x < y, x <= y, x > y, x >= y, x == y, x != y);
                    let want = (Some(p.cmp(&q)), p < q, p <= q, p > q, p >= q, p == q, p != q);
                    judge(got == want, format!("comparing {:?} with {:?} gives {:?}", p, q, got));
                }
            }
            for r in [Range::new(pa, pb), Range::new(pb, pa)] {
                let (s, e) = (r.start(), r.end());
                judge(((s.line, s.offset), (e.line, e.offset)) == (lo, hi), format!("the range between {:?} and {:?} is {:?}", a, b, r));
                judge(r == Range::new(pos(lo), pos(hi)), format!("{:?} differs from the same range the other way round", r));
                for &p in &points {
                    let got = r.includes(&pos(p));
                    judge(got == (lo <= p && p < hi), format!("{:?} in {:?}..{:?} is reported as {}", p, lo, hi, got));
                }
            }
            let (l0, l1) = (lo.0, hi.0);
            if l1 < 1 << 40 {
                for r in [LineRange::new(l0, l1), LineRange::new(l1, l0)] {
                    judge((r.start(), r.end()) == (l0, l1), format!("the lines between {} and {} are {:?}", l0, l1, r));
                    for p in points.iter().map(|p| p.0) {
                        let got = r.includes(p);
                        judge(got == (l0 <= p && p < l1), format!("line {} in {}..{} is reported as {}", p, l0, l1, got));
                    }
                    for (r, e) in [(r.to_range(), l1), (r.to_inclusive_range(), l1 + 1)] {
                        let got = ((r.start().line, r.start().offset), (r.end().line, r.end().offset));
                        judge(got == ((l0, 0), (e, 0)), format!("lines {}..{} are the range {:?}", l0, e, got));
                    }
                }
            }
            if let (Some(x), Some(y)) = ends {
                let s = read.as_deref().unwrap_or(&t[x..y]);
                let d = Distance::of_str(s);
                let sum = pos(lo) + d;
                let mut stepped = pos(lo);
                stepped += d;
                for (how, got) in [("+", sum), ("+=", stepped)] {
                    let got = (got.line, got.offset);
                    judge(got == hi, format!("{:?} {} the distance of {} gives {:?}, the text ends at {:?}", lo, how, show(s), got, hi));
                }
            }
            let mut lines: Vec<String> = Vec::new();
            let mut wrong = |ok: bool, m: String| {
                if !ok && lines.len() < 3 {
                    lines.push(m);
                }
            };
            let mut want: Vec<&str> = t.split_inclusive('\n').collect();
            if t.is_empty() || t.ends_with('\n') {
                want.push("");
            }
            let mut it = LineIterator::new(&data);
            for (i, w) in want.iter().enumerate() {
                let got = it.next();
                wrong(got == Some((i, *w)), format!("line {} of {} is given as {:?}", i, show(t), got.map(|(n, l)| (n, show(l)))));
                if got.is_none() {
                    break;
                }
            }
            for _ in 0..2 {
                let got = it.next();
                wrong(got.is_none(), format!("behind the last line of {} comes {:?}", show(t), got.map(|(n, l)| (n, show(l)))));
            }
            wrong(count == want.len(), format!("{} lines reported, {} found in {}", count, want.len(), show(t)));
            (bad, lines, want.len())
        });
        let Some((bad, lines, n)) = got else { return };
        self.eval("P26");
        self.eval("P27");
        self.out.nontrivial |= self.target == "P26" && n > 1 && lo != hi && matches!(ends, (Some(_), Some(_)));
        self.out.nontrivial |= self.target == "P27" && n > 1;
        if let Some(m) = bad.into_iter().next() {
            self.fail("P26", || m);
        }
        if let Some(m) = lines.into_iter().next() {
            self.fail("P27", || m);
        }
    }

    /// P22: what the buffer says about itself.
    fn check_info(&mut self) {
        let (t, p) = match self.cur {
            Some(i) => (self.bufs[i].obs.text.clone(), self.bufs[i].obs.path.clone()),
            None => return,
        };
        let old = self.doing;
        self.doing = Doing::Look;
        let got = self.peek(|ed| ed.cur().map(|b| (b.line_count(), b.file_name(), b.file_extension())));
        self.doing = old;
        let (lines, name, ext) = match got {
            Some(Some(g)) => g,
            _ => return,
        };
        self.eval("P22");
        let want_lines = model::lines_lf(&t);
        let bytes = p.as_ref().map(|p| p.as_os_str().as_bytes().to_vec()).unwrap_or_default();
        let last = model::last_name(&bytes);
        let want_name = last.and_then(|n| std::str::from_utf8(n).ok()).map(String::from);
        let want_ext = last.and_then(model::extension).map(|e| lossy(e));
        self.out.nontrivial |= self.target == "P22" && want_lines > 1 && want_ext.is_some();
        if lines != want_lines {
            self.fail("P22", || format!("{} lines reported for {}", lines, show(&t)));
        } else if name != want_name {
            self.fail("P22", || format!("file name {:?} reported for path {:?}", name, p));
        } else if ext != want_ext {
            self.fail("P22", || format!("file extension {:?} reported for path {:?}", ext, p));
        }
    }

    /// P23: no operation keeps asking for what it is not going to get.
    fn check_effort(&mut self) {
        self.eval("P23");
        let hits = self.w.lasting_hits;
        self.out.nontrivial |= self.target == "P23" && hits > 0;
        let disk: usize = self.w.vfs.inodes.values().map(|i| if let Node::File(d) = &i.node { d.len() + 20 } else { 40 }).sum();
        let (calls, most) = (self.w.counts[0] as usize, 1000 + 8 * (disk + self.text().len()));
        if hits > 500 {
            self.fail("P23", || format!("the operation asked {} times for what keeps failing", hits));
        } else if calls > most {
            self.fail("P23", || format!("the operation made {} system calls where {} bytes could be moved", calls, disk));
        }
    }

    /// One step of the session beside this one (or, if it is not there, of what it did to the disk).
    fn beside(&mut self, p: &Peer) {
        self.tree = None;
        self.w.begin_op(&[]);
        self.w.end_op();
        if let Some(a) = &mut self.alone {
            if let Some(v) = a.next() {
                self.w.vfs = v;
            }
            return;
        }
        let text = self.peek(|ed| ed.peer().map(|b| b.data())).flatten().unwrap_or_default();
        let p = p.clone();
        self.call(Doing::Beside, &[], |ed| match p {
            Peer::Workspace { path, syntaxes } => ed.peer_ws = Workspace::new(&os_path(&path), syntaxes.as_deref().map(os_path).as_deref()).ok(),
            Peer::Open { path } => match &mut ed.peer_ws {
                Some(ws) => drop(ws.open_buffer(&os_path(&path))),
                None => {
                    if let Ok(b) = Buffer::from_file(&os_path(&path)) {
                        ed.peer_buf = Some(b)
                    }
                }
            },
            Peer::Add { path } => {
                if let (Some(ws), Ok(b)) = (&mut ed.peer_ws, Buffer::from_file(&os_path(&path))) {
                    ws.add_buffer(b)
                }
            }
            Peer::New => match &mut ed.peer_ws {
                Some(ws) => ws.add_buffer(Buffer::new()),
                None => ed.peer_buf = Some(Buffer::new()),
            },
            Peer::Next => {
                if let Some(ws) = &mut ed.peer_ws {
                    ws.next_buffer()
                }
            }
            Peer::Close => match &mut ed.peer_ws {
                Some(ws) => ws.close_current_buffer(),
                None => ed.peer_buf = None,
            },
            Peer::Tokens => {
                if let Some(ws) = &mut ed.peer_ws {
                    let _ = ws.update_current_syntax();
                    if let Ok(t) = ws.current_buffer_tokens() {
                        let _ = t.iter().map(|i| i.take(200).count());
                    }
                }
            }
            p => {
                if let Some(b) = ed.peer() {
                    match p {
                        Peer::Insert { text } => b.insert(text.get()),
                        Peer::Delete => {
                            if b.cursor.offset < 1 << 40 && b.cursor.line < 1 << 40 {
                                b.delete()
                            }
                        }
                        Peer::Replace { text } => b.replace(text.get()),
                        Peer::Goto { p } => drop(b.cursor.move_to(pos(resolve(&p, &text)))),
                        Peer::Move { k } => go(b, k),
                        Peer::Start => b.start_operation_group(),
                        Peer::End => b.end_operation_group(),
                        Peer::Undo => b.undo(),
                        Peer::Redo => b.redo(),
                        Peer::Save => drop(b.save()),
                        Peer::SetPath { path } => b.path = path.as_deref().map(os_path),
                        Peer::Reload => drop(b.reload()),
                        Peer::Search { text } => drop(b.search(&text.get())),
                        Peer::Observe => b.change_callback = Some(Box::new(|_| ())),
                        _ => (),
                    }
                }
            }
        });
        self.out.nontrivial |= self.target == "P24";
        if self.target == "P24" {
            let v = self.w.vfs.clone();
            self.out.disks.0.push(v);
        }
    }

    /// Everything the user of the session can see now.
    fn record(&mut self) {
        let o = match self.observe() {
            None => return,
            Some(o) => o,
        };
        let ws = self.peek(|ed| {
            ed.ws.as_mut().map(|ws| {
                (ws.current_buffer_index(), ws.buffer_paths().into_iter().map(|p| p.map(|p| p.to_path_buf())).collect::<Vec<_>>())
            })
        });
        self.eval(if self.target == "P24" { "P24" } else { "P21" });
        self.out.seen.push(format!("step {} {}: {:?} {:?}", self.step, self.result, o, ws));
    }

    fn record_disk(&mut self) {
        for (k, (_, s)) in self.w.vfs.tree() {
            let what = match s {
                Shape::File(d, _) => show(&lossy(&d)) + &format!(" {:x}", crate::rng::hash_str(&lossy(&d))),
                s => format!("{:?}", s),
            };
            self.out.seen.push(format!("at the end, {} holds {}", lossy(&k), what));
        }
    }

    /// P03: only a save writes, and only to its own file.
    fn check_disk(&mut self, dead: bool) {
        let before = match self.tree.take() {
            None => return,
            Some(t) => t,
        };
        let now = self.w.vfs.tree();
        self.eval("P03");
        if self.save_target.is_some() {
            self.out.nontrivial |= self.target == "P03" && (dead || !self.w.fired.is_empty());
        }
        let (tpath, tino) = match &self.save_target {
            Some((p, i)) => (Some(p.clone()), *i),
            None => (None, None),
        };
        let keys: BTreeSet<&Vec<u8>> = before.keys().chain(now.keys()).collect();
        let mut bad = None;
        for k in keys {
            let (a, b) = (before.get(k), now.get(k));
            if a == b {
                continue;
            }
            if self.w.ext_in_op > 0
                && (self.w.ext_paths.iter().any(|p| under(k, p))
                    || a.map(|x| self.w.ext_touched.contains(&x.0)).unwrap_or(false)
                    || b.map(|x| self.w.ext_touched.contains(&x.0)).unwrap_or(false))
            {
                continue;
            }
            let is_target = tpath.as_ref() == Some(k)
                || (tino.is_some() && (a.map(|x| x.0) == tino && b.map(|x| x.0) == tino));
            if is_target {
                let content = match b {
                    Some((_, Shape::File(d, _))) => Some(d.clone()),
                    None => None,
                    Some(_) => {
                        bad = Some(format!("{} is no longer a file", lossy(k)));
                        break;
                    }
                };
                let text = self.save_text.as_ref().map(|t| t.as_bytes().to_vec()).unwrap_or_default();
                let fine = match &content {
                    None => self.save_old.is_none(),
                    Some(d) => self.save_old.as_ref().map(|o| **o == **d).unwrap_or(false) || text.starts_with(d),
                };
                if !fine {
                    bad = Some(format!(
                        "{} after {} save holds {}, neither its former content {} nor a leading part of {}",
                        lossy(k),
                        if dead { "an interrupted" } else { "a" },
                        content.map(|d| show(&lossy(&d))).unwrap_or("nothing at all".into()),
                        self.save_old.as_ref().map(|d| show(&lossy(d))).unwrap_or("(none)".into()),
                        show(&String::from_utf8_lossy(&text))
                    ));
                }
                continue;
            }
            if dead && a.is_none() {
                continue; // a leftover of the interrupted operation
            }
            bad = Some(match (a, b) {
                (None, _) => format!("the operation created {}", lossy(k)),
                (_, None) => format!("the operation removed {}", lossy(k)),
                _ => format!("the operation changed {}", lossy(k)),
            });
        }
        if let Some(m) = bad {
            self.fail("P03", || m);
        }
    }

    /// Faults have stopped: what must still be possible now?
    fn finale(&mut self) {
        self.w.log(|| "finale".to_string());
        self.w.begin_op(&[]);
        self.adopt();
        if self.ed.ws.is_some() {
            self.cycle();
        }
        if self.is("P02") && !self.stop {
            if let Some(i) = self.cur {
                if self.bufs[i].failed_save {
                    self.w.vfs.capacity = None;
                    let ok = match self.walk(&self.bufs[i].obs.path) {
                        Err(_) => false,
                        Ok(w) => {
                            let (d, _) = w.parent();
                            !w.slash
                                && self.w.vfs.is_dir(d)
                                && self.w.vfs.get(d).mode & 0o300 == 0o300
                                && match w.ino() {
                                    Some(ino) => matches!(self.w.vfs.get(ino).node, Node::File(_)) && self.w.vfs.get(ino).mode & 0o200 != 0,
                                    None => true,
                                }
                        }
                    };
                    if !ok {
                        if let Ok(root) = self.w.vfs.lookup(b"/", b"/", true) {
                            self.w.vfs.get_mut(root).mode = 0o755;
                        }
                        let p = Some(PathBuf::from("/rescued"));
                        let q = p.clone();
                        self.peek(|ed| ed.cur().map(|b| b.path = q));
                        self.bufs[i].obs.path = p;
                        self.bufs[i].user_path = true;
                    }
                    self.eval("P02");
                    self.probe("retried_after_recovery");
                    let text = self.bufs[i].obs.text.clone();
                    let r = self.call(Doing::Save, &[], |ed| ed.cur().map(|b| b.save().map_err(told_io)));
                    let path = self.bufs[i].obs.path.clone().unwrap();
                    let now = self.w.vfs.content(&self.w.cwd, path.as_os_str().as_bytes());
                    match r {
                        Some(Some(Ok(()))) => {
                            if now.as_ref().map(|d| &d[..]) != Some(text.as_bytes()) {
                                self.fail("P02", || format!("retried save succeeded but the file lacks the text {}", show(&text)));
                            }
                        }
                        Some(Some(Err(e))) => {
                            self.fail("P02", || format!("save still fails after the cause is gone: {}", e));
                        }
                        _ => (),
                    }
                    let point = self.bufs[i].hist.point();
                    self.bufs[i].sync =
                        Some(Sync { text, point, target: None, sure: true, damaged: false });
                    self.settle(false, true, false);
                }
            }
        }
        let all = if self.is("P11") { self.bufs.len() } else { 1 };
        for _ in 0..all {
            if self.cur.is_none() || self.stop {
                break;
            }
            let mut undone = 0;
            while !self.stop && self.history(true) && undone < 20_000 {
                undone += 1;
            }
            let mut k = 0;
            while !self.stop && k < 20_000 && self.history(false) {
                k += 1;
            }
            if self.ed.ws.is_some() && all > 1 && !self.stop {
                self.turn(true);
            }
        }
        if self.is("P25") {
            self.check_released();
        }
        if self.ed.ws.is_some() && !self.stop && (self.is("P11") || self.is("P12")) {
            while !self.bufs.is_empty() && !self.stop {
                self.close();
                if !self.stop {
                    self.check_ws();
                }
            }
        }
    }
}

pub fn default_set() -> &'static SyntaxSet {
    static SET: OnceLock<SyntaxSet> = OnceLock::new();
    SET.get_or_init(SyntaxSet::load_defaults_newlines)
}

/// The definitions of a folder, read by the harness itself.
fn own_set(v: &Vfs) -> SyntaxSet {
    let mut b = SyntaxSetBuilder::new();
    for (k, (_, s)) in v.tree() {
        if let (Shape::File(d, _), true) = (s, k.ends_with(b".sublime-syntax")) {
            if let Ok(def) = SyntaxDefinition::load_from_str(&lossy(&d), true, None) {
                b.add(def);
            }
        }
    }
    b.build()
}

/// What the grammar itself says about a text: from which byte on which scopes are open, and
/// where the line starts at which it gives up.
fn scopes_of(text: &str, def: &SyntaxReference, set: &SyntaxSet) -> (Vec<(usize, ScopeStack)>, Option<usize>) {
    let mut v = vec![(0, ScopeStack::new())];
    let mut state = ParseState::new(def);
    let mut stack = ScopeStack::new();
    let mut at = 0;
    let mut lines: Vec<&str> = text.split_inclusive('\n').collect();
    if text.is_empty() || text.ends_with('\n') {
        lines.push("");
    }
    for l in lines {
        let ops = match state.parse_line(l, set) {
            Ok(ops) => ops,
            Err(_) => return (v, Some(at)),
        };
        for (o, op) in ops {
            if stack.apply(&op).is_err() {
                return (v, Some(at));
            }
            if v.last().unwrap().0 == at + o {
                v.pop();
            }
            v.push((at + o, stack.clone()));
        }
        at += l.len();
    }
    (v, None)
}

/// The definitions below `folder`, and what there cannot be loaded.
fn collect_defs(v: &Vfs, cwd: &[u8], folder: &[u8], valid: &mut Vec<(String, String)>, broken: &mut Vec<String>) {
    match v.walk(cwd, folder, true) {
        Ok(w) if w.ino().is_some() => descend(v, w.ino().unwrap(), &w.path(), &mut Vec::new(), valid, broken),
        _ => broken.push(lossy(folder)),
    }
}
fn descend(v: &Vfs, ino: u64, path: &[u8], above: &mut Vec<u64>, valid: &mut Vec<(String, String)>, broken: &mut Vec<String>) {
    let n = v.get(ino);
    let is_def = path.ends_with(b".sublime-syntax");
    match &n.node {
        Node::File(d) => {
            if !is_def {
                return;
            }
            match def_of(d) {
                Some(all) if n.mode & 0o400 != 0 => {
                    for x in all {
                        if !valid.contains(&x) {
                            valid.push(x)
                        }
                    }
                }
                _ => broken.push(lossy(path)),
            }
        }
        Node::Dir(e) => {
            if is_def || n.mode & 0o500 != 0o500 || above.contains(&ino) {
                broken.push(lossy(path));
                return;
            }
            above.push(ino);
            for name in e.keys() {
                let mut p = path.to_vec();
                p.push(b'/');
                p.extend_from_slice(name);
                match v.walk(b"/", &p, true) {
                    Ok(w) if w.ino().is_some() => descend(v, w.ino().unwrap(), &p, above, valid, broken),
                    _ => broken.push(lossy(&p)),
                }
            }
            above.pop();
        }
        Node::Link(_) => (),
    }
}

/// Definitions are generated with their extension and name on the second line.
fn def_of(d: &[u8]) -> Option<Vec<(String, String)>> {
    let s = std::str::from_utf8(d).ok()?;
    let mut l = s.lines();
    if l.next()? != "%YAML 1.2" {
        return None;
    }
    let rest = l.next()?.strip_prefix("# def ")?;
    let (e, n) = rest.split_once(' ')?;
    Some(e.split(',').map(|e| (e.to_string(), n.to_string())).collect())
}
pub fn def_text(exts: &str, name: &str) -> String {
    let ext = exts.split(',').next().unwrap();
    format!(
        "%YAML 1.2\n# def {} {}\n---\nname: {}\nfile_extensions: [{}]\nscope: source.{}\ncontexts:\n  main:\n    - match: '\\b{}\\b'\n      scope: keyword.{}\n",
        exts, name, name, exts.replace(',', ", "), ext, ext, ext
    )
}
