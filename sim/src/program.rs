//! A session as data: everything one simulated run does, and the only thing a replay needs.
use crate::world::{Blob, Ext, Trig};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pos {
    /// 0 in range, 1 past the end of a line, 2 past the last line, 3 huge line, 4 end of text, 5 huge offset
    pub m: u8,
    pub l: u32,
    pub o: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Text {
    pub s: String,
    #[serde(default)]
    pub rep: u32,
}
impl Text {
    pub fn get(&self) -> String {
        self.s.repeat(self.rep.max(1) as usize)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mv {
    Up,
    Down,
    Left,
    Right,
    LineStart,
    LineEnd,
    First,
    Last,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// replaces the workspace (and all buffers) by a new one
    Workspace { path: String, syntaxes: Option<String> },
    New,
    Open { path: String },
    /// loads without the workspace's duplicate check, then adds
    AddFile { path: String },
    Insert { text: Text },
    Delete,
    DeleteRange { a: Pos, b: Pos },
    Replace { text: Text },
    ReplaceSame,
    Read { a: Pos, b: Pos },
    /// ranges, distances and lines of the current text
    Measure { a: Pos, b: Pos },
    Goto { p: Pos },
    Move { k: Mv },
    Start,
    End,
    Undo { n: u32 },
    Redo { n: u32 },
    Save,
    SetPath { path: Option<String> },
    Reload,
    Next,
    Prev,
    Close,
    /// step through all buffers once, checking each
    Cycle,
    /// adds so many empty buffers
    Many { n: u32 },
    /// closes so many buffers
    Shut { n: u32 },
    Observe,
    UpdateSyntax,
    /// the application chooses the definition that claims an extension, or none
    SetSyntax { ext: Option<String> },
    /// the application makes another directory the workspace's
    Root { path: String },
    /// a buffer of its own, beside the workspace, becomes the one that is worked on
    Aside { path: Option<String> },
    /// that buffer is added to the workspace as it is
    Adopt,
    Tokens,
    Search { text: Text },
    /// search for the `n` clusters that follow a position
    Find { p: Pos, n: u32 },
    Info,
    /// another workspace or buffer of this process is used
    Peer(Peer),
    Extern(Ext),
    /// the process is killed between operations
    Crash,
    // a bare gap buffer
    GNew { text: Text },
    GInsert { p: Pos, text: Text },
    GDelete { a: Pos, b: Pos },
    GRead { a: Pos, b: Pos },
    GBounds { p: Pos },
    /// n small edits in a row (position and text from `s`)
    Burst { n: u32, s: u32 },
}

/// What happens in a session beside the one that is watched, on the same disk.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Peer {
    Workspace { path: String, syntaxes: Option<String> },
    Open { path: String },
    Add { path: String },
    New,
    Insert { text: Text },
    Delete,
    Replace { text: Text },
    Goto { p: Pos },
    Move { k: Mv },
    Start,
    End,
    Undo,
    Redo,
    Save,
    SetPath { path: Option<String> },
    Reload,
    Next,
    Close,
    Tokens,
    Search { text: Text },
    Observe,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    pub op: Op,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub trigs: Vec<Trig>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    File(Blob),
    Dir,
    Link(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Item {
    pub path: String,
    pub kind: Kind,
    pub mode: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Program {
    pub property: String,
    pub seed: u64,
    /// workspace session (otherwise one stand-alone buffer at a time)
    pub workspace: bool,
    pub cwd: String,
    #[serde(default)]
    pub coarse_clock: bool,
    #[serde(default)]
    pub read_chunk: Option<u32>,
    #[serde(default)]
    pub write_chunk: Option<u32>,
    /// what fresh and freed memory holds (0: whatever the system allocator left)
    #[serde(default)]
    pub fill: u32,
    pub disk: Vec<Item>,
    pub steps: Vec<Step>,
}

impl Program {
    /// The same session on a machine where nothing disturbs it: every call served at once and
    /// in full, sizes announced truthfully, the clock even, fresh memory clean, other hash seeds.
    pub fn calm(&self) -> Program {
        let mut p = self.clone();
        p.seed = crate::rng::mix(p.seed ^ 0xca1a);
        p.coarse_clock = false;
        p.read_chunk = None;
        p.write_chunk = None;
        p.fill = 0;
        for s in &mut p.steps {
            s.trigs.clear();
            if let Op::Extern(Ext::Write { keep_mtime, .. }) = &mut s.op {
                *keep_mtime = false;
            }
            if let Op::Extern(Ext::Announce { .. } | Ext::Clock { .. }) = s.op {
                s.op = Op::Extern(Ext::Clock { delta_s: 0 });
            }
        }
        p
    }
}

/// The bytes of a path written in a program: U+F8FF and U+F8FE stand for bytes that are not UTF-8.
pub fn raw_path(s: &str) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    let mut buf = [0; 4];
    for c in s.chars() {
        if c == '\u{F8FF}' {
            v.push(0xFF);
        } else if c == '\u{F8FE}' {
            v.push(0xFE);
        } else {
            v.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
        }
    }
    v
}
pub fn os_path(s: &str) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStringExt;
    std::path::PathBuf::from(std::ffi::OsString::from_vec(raw_path(s)))
}
