//! Seeded generator: one seed, one session (disk, operations, faults, other processes).
//! Swarm style: every run draws its own subset and weighting of operations, alphabets and faults.
use crate::engine::{def_text, BUILTIN};
use crate::program::*;
use crate::rng::Rng;
use crate::world::*;
use libc::*;

const ALPHABETS: &[&[&str]] = &[
    &["a", "b", "word", " ", "xyz", "(", "fn main() {}", "0"],
    &["\n", "a\n", "\n\n", "line\n", "x", "\nend"],
    &["\r\n", "a\r\n", "\r", "\n", "b\r\n\r\n", "\r\r\n", "q"],
    &["é", "e\u{301}", "\u{301}", "\u{300}\u{301}", "z\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}\u{301}\u{300}", "a\u{20dd}", "n\u{303}", "e", "o"],
    &["🙂", "👩\u{200d}👩\u{200d}👧", "👩", "\u{200d}", "👍\u{1f3fd}", "\u{1f3fd}", "❤\u{fe0f}", "x"],
    &["🇩🇪", "🇩", "🇪", "🇫🇷", "\u{1f1fa}", "-", "\n"],
    &["한", "\u{1112}", "\u{1161}", "\u{11ab}", "글", "가", " "],
    &["नि", "क्षि", "\u{94d}", "ก็", "ำ", "த", "\u{e33}"],
    &["\0", "\u{feff}", "\u{2028}", "\u{85}", "\u{b}", "\u{c}", "\t", "\u{7f}", "\u{200b}"],
    &["日本語", "中", "文", "\u{3000}", "。", "\n"],
    &["𝕏", "𐍈", "\u{10ffff}", "\u{e000}", "\u{fffd}", "ß", "ﬃ"],
    &["let ", "\"", "/*", "*/", "#", "    ", "\t", ";\n", "é = 1;\n"],
];

/// Pieces of source text, one list per language: what matters to a tokenizer is what spans lines.
const CODE: &[&[&str]] = &[
    &["fn f() {\n", "/* ", " */", "// x\n", "\"str", "\"", "r#\"", "\"#", "'a", "#[x]\n", "}\n", "é", "\n", "let x = 1;"],
    &["def f(x):\n", "\"\"\"", "'''", "# c\n", "    return", "\"a\\\n", "\n", "é", "class A:\n", "r'", "@"],
    &["# T\n", "```rust\n", "```\n", "**b**", "`c`", "\n\n", "* i\n", "> q\n", "<div>", "</div>", "[a](b)", "    code\n", "---\n", "fn x() {}\n"],
    &["<<-EOS\n", "EOS\n", "=begin\n", "=end\n", "#{", "}", "\"", "def x\n", "end\n", ":s", "%w(", ")"],
    &["<script>", "</script>\n", "<style>", "</style>", "<!--", "-->\n", "var x = '", "';", "/*", "*/", "<b class=\"", "\">", "\n"],
    &["#if 0\n", "#endif\n", "#define X \\\n", "/*", "*/", "\"", "int main() {\n", "}\n", "//", "\\\n", "\r\n"],
    &["cat <<EOF\n", "EOF\n", "$(", ")", "\t", "`", "\"", "'", "\n", "if x; then\n", "fi\n"],
    &["word ", "abc", "ac", "{", "}", "\"", "\\", "\n", "é", "e\u{301}", "oops", "oops\n", "x\n", "\u{301}", "\r\n", "🙂"],
];

fn workspace_like(prop: &str) -> bool {
    matches!(prop, "P10" | "P11" | "P12" | "P13" | "P16" | "P17" | "P22" | "P24" | "P25")
}

fn pieces(i: usize) -> &'static [&'static str] {
    if i < ALPHABETS.len() {
        ALPHABETS[i]
    } else {
        CODE[i - ALPHABETS.len()]
    }
}

/// Grammars for definition folders (after the header).
const GRAMMARS: &[&str] = &[
    // gives up where the text says so
    "  main:\n    - match: 'oops'\n      push: nowhere\n    - match: '\\w+'\n      scope: word.x\n",
    // spans lines, captures, pushes without consuming anything
    "  main:\n    - match: '\"'\n      push: string\n    - match: '(a)(b)?(c)'\n      scope: all.x\n      captures:\n        1: one.x\n        2: two.x\n        3: three.x\n    - match: '(?=\\{)'\n      push: braces\n  string:\n    - meta_scope: string.x\n    - match: '\\\\.'\n      scope: esc.x\n    - match: '\"'\n      pop: true\n  braces:\n    - meta_content_scope: inner.x\n    - match: '\\{'\n      scope: open.x\n    - match: 'oops'\n      set: string\n    - match: '\\}'\n      pop: true\n",
    // tokens that end inside a cluster, rules that look at line ends
    "  main:\n    - match: 'e'\n      scope: e.x\n    - match: '\\p{M}'\n      scope: mark.x\n    - match: '$'\n      push: next\n    - match: '\\r'\n      scope: cr.x\n  next:\n    - meta_scope: next.x\n    - match: 'oops'\n      push: nowhere\n    - match: '^'\n      pop: true\n",
    // rules that need the line end itself
    "  main:\n    - match: '\\w+\\n'\n      scope: last.x\n    - match: '\\w+$'\n      scope: end.x\n    - match: '\\w+'\n      scope: word.x\n    - match: '#.*\\n?'\n      scope: note.x\n    - match: '\\n'\n      scope: nl.x\n",
];

const FIRST: &[&str] = &["#!/bin/bash\n", "#!/usr/bin/env python\n", "#!/usr/bin/env ruby\n", "<?xml version=\"1.0\"?>\n", "<!DOCTYPE html>\n", "# -*- mode: ruby -*-\n", "<?php\n", "#!/usr/bin/perl\n"];

/// Long stretches without a line break, with breaks, and with wide clusters.
/// Failures nobody reckons with. (Not ENOSYS: the standard library notes that for the process.)
const ODD: &[i32] = &[
    EPERM, ENXIO, E2BIG, EBADF, EEXIST, EXDEV, ENODEV, ENOTDIR, EISDIR, EINVAL, ENOTTY, ETXTBSY, EFBIG, ESPIPE, EMLINK, EPIPE, EDEADLK,
    ENAMETOOLONG, ENOLCK, ENOTEMPTY, EPROTO, EOVERFLOW, EILSEQ, EUSERS, EOPNOTSUPP, ECONNRESET, ENOTCONN, ECONNABORTED, ECONNREFUSED,
    EHOSTUNREACH, ENETDOWN, EREMOTEIO, ENOMEDIUM, EMEDIUMTYPE, ECANCELED, ENOKEY, EKEYEXPIRED, EDQUOT, ENODATA, EADDRINUSE, ETIME, ENOLINK, ERANGE,
];

const LONG: &[&str] = &["abcdefgh", "line of text\n", "é", "日本\n", "e\u{301}x", "\r\n", "🙂 \n", "0123456789abcde\n", "\u{301}", "\n"];

const DIRS: &[&str] = &["/w", "/w/sub", "/w/sub/deep", "/out", "/tmp", "/w2", "/w/d\u{f8ff}"];
const FILES: &[&str] = &[
    "/w/a.txt",
    "/w/b.rs",
    "/w/sub/c.py",
    "/w/sub/deep/d",
    "/out/e.txt",
    "/out/Makefile",
    "/w/f g.txt",
    "/w/ü.md",
    "/w2/a.txt",
    "/w/sub/a.txt",
    "/w/.hidden",
    "/w/x.zzz",
    // U+F8FF, U+F8FE: bytes that are not UTF-8
    "/w/n\u{f8ff}m.rs",
    "/out/\u{f8ff}",
    "/w/e.t\u{f8ff}t",
    "/w/d\u{f8ff}/f.txt",
    "/w/sub/nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.rs",
    "/w/UP.RS",
    "/w/two.d.py",
    // names that are nearly those of others
    "/w/A.txt",
    "/w/n\u{f8fe}m.rs",
    "/w/u\u{308}.md",
    "/w/a.txt ",
    "/w/sub/script",
];
const LINKS: &[(&str, &str)] = &[
    ("/w/l1", "a.txt"),
    ("/w/ld", "sub"),
    ("/out/l2", "/w/l1"),
    ("/out/back", "../w"),
    ("/w/loop", "loop"),
    ("/w/dangling", "/out/none.txt"),
    ("/w/esc", "../out/e.txt"),
    ("/cur", "/w/sub"),
    ("/w/sub/up", ".."),
    ("/w/lrs", "/w/b.rs"),
    ("/w/lb\u{f8ff}", "n\u{f8ff}m.rs"),
];

struct Profile {
    workspace: usize,
    steps: (usize, usize),
    edit: u32,
    cursor: u32,
    history: u32,
    group: u32,
    save: u32,
    reload: u32,
    open: u32,
    add: u32,
    new: u32,
    switch: u32,
    close: u32,
    setpath: u32,
    observe: u32,
    syntax: u32,
    read: u32,
    ext: u32,
    crash: u32,
    look: u32,
    gap: u32,
    burst: u32,
    wsnew: u32,
    /// percent of file operations that meet disturbances
    faults: usize,
    kill: usize,
    in_op_ext: usize,
    big: usize,
    fill: usize,
}

const BASE: Profile = Profile {
    workspace: 50,
    steps: (6, 36),
    edit: 30,
    cursor: 10,
    history: 8,
    group: 4,
    save: 8,
    reload: 5,
    open: 6,
    add: 2,
    new: 2,
    switch: 3,
    close: 1,
    setpath: 1,
    observe: 1,
    syntax: 1,
    read: 2,
    ext: 4,
    crash: 0,
    look: 1,
    gap: 0,
    burst: 0,
    wsnew: 0,
    faults: 40,
    kill: 0,
    in_op_ext: 15,
    big: 2,
    fill: 50,
};

fn profile(prop: &str) -> Profile {
    match prop {
        "P01" => Profile { save: 26, setpath: 3, big: 6, faults: 55, in_op_ext: 5, ext: 7, ..BASE },
        "P02" => Profile { save: 24, history: 12, group: 8, faults: 75, in_op_ext: 10, ext: 7, ..BASE },
        "P03" => Profile { save: 24, setpath: 3, kill: 45, faults: 70, in_op_ext: 5, ext: 6, crash: 1, close: 2, ..BASE },
        "P04" => Profile { save: 14, reload: 10, history: 16, group: 12, faults: 45, ext: 8, cursor: 6, big: 0, ..BASE },
        "P05" => Profile {
            open: 26, add: 14, edit: 8, cursor: 3, history: 2, group: 0, save: 5, reload: 3, ext: 14, faults: 60, in_op_ext: 30, big: 7, new: 1, ..BASE
        },
        "P06" => Profile { reload: 24, ext: 22, cursor: 18, edit: 20, history: 8, save: 6, faults: 50, in_op_ext: 25, observe: 3, big: 3, ..BASE },
        "P07" => Profile { edit: 36, history: 26, group: 5, cursor: 12, save: 4, reload: 5, ext: 5, burst: 1, open: 3, big: 1, ..BASE },
        "P08" => Profile { edit: 34, history: 16, group: 24, cursor: 8, save: 5, reload: 5, ext: 4, open: 3, big: 1, ..BASE },
        "P09" => Profile { observe: 10, edit: 36, history: 18, group: 6, reload: 9, save: 4, ext: 8, switch: 6, cursor: 10, workspace: 60, big: 1, ..BASE },
        "P10" => Profile {
            workspace: 100, open: 40, edit: 10, cursor: 2, history: 2, group: 0, save: 5, reload: 2, ext: 10, new: 3, add: 1, switch: 6, close: 4,
            setpath: 1, faults: 35, in_op_ext: 40, big: 0, ..BASE
        },
        "P11" => Profile {
            workspace: 100, steps: (15, 60), open: 16, new: 8, add: 3, switch: 20, close: 8, edit: 26, history: 10, group: 6, save: 8, reload: 6, ext: 5, observe: 3,
            syntax: 4, setpath: 2, big: 0, ..BASE
        },
        "P12" => Profile {
            workspace: 100, steps: (15, 70), open: 18, new: 16, add: 4, switch: 24, close: 16, edit: 5, cursor: 1, history: 1, group: 0, save: 4, reload: 1, ext: 4,
            setpath: 5, wsnew: 1, big: 0, ..BASE
        },
        "P13" => Profile {
            workspace: 100, steps: (3, 14), open: 30, new: 3, add: 3, edit: 4, cursor: 0, history: 0, group: 0, save: 2, reload: 3, setpath: 16, syntax: 26, switch: 6,
            close: 3, ext: 2, look: 4, faults: 40, in_op_ext: 0, big: 0, fill: 20, ..BASE
        },
        "P14" => Profile {
            open: 24, add: 14, edit: 14, cursor: 1, history: 2, group: 0, save: 18, reload: 12, ext: 24, faults: 55, in_op_ext: 60, setpath: 7, big: 0, ..BASE
        },
        "P15" => Profile {
            workspace: 25, edit: 50, gap: 40, cursor: 16, history: 6, read: 16, burst: 1, save: 3, reload: 4, open: 4, group: 3, big: 4, fill: 92, ..BASE
        },
        "P16" => Profile { open: 24, add: 10, save: 20, reload: 16, ext: 10, setpath: 3, faults: 80, in_op_ext: 20, edit: 10, history: 2, look: 2, wsnew: 1, ..BASE },
        "P17" => Profile { gap: 6, look: 8, setpath: 3, read: 6, crash: 1, burst: 1, wsnew: 1, close: 3, switch: 5, steps: (8, 60), cursor: 20, history: 16, ..BASE },
        "P18" => Profile {
            steps: (10, 60), cursor: 44, edit: 26, history: 12, group: 3, save: 4, reload: 6, switch: 6, open: 5, add: 1, ext: 5, observe: 1, burst: 1, read: 0, faults: 20, big: 2, ..BASE
        },
        "P19" => Profile {
            workspace: 100, fill: 8, look: 34, edit: 30, cursor: 4, history: 5, group: 1, save: 3, reload: 4, open: 10, add: 2, new: 2, switch: 4, setpath: 9, ext: 3, read: 0, faults: 15, big: 1, ..BASE
        },
        "P20" => Profile { look: 40, edit: 30, cursor: 4, history: 6, group: 1, save: 3, reload: 5, switch: 4, open: 6, ext: 4, read: 1, faults: 25, big: 2, ..BASE },
        "P22" => Profile { setpath: 14, edit: 34, open: 10, add: 3, new: 3, history: 10, reload: 8, ext: 8, switch: 6, close: 2, read: 1, group: 4, ..BASE },
        "P23" => Profile { save: 18, reload: 14, open: 20, add: 6, edit: 20, ext: 8, wsnew: 6, cursor: 4, switch: 3, faults: 80, fill: 15, ..BASE },
        "P28" => Profile {
            workspace: 85, save: 14, reload: 16, open: 22, add: 8, edit: 12, ext: 12, wsnew: 7, cursor: 2, history: 2, group: 0, switch: 3, close: 6, setpath: 7, syntax: 7, look: 8, faults: 70,
            in_op_ext: 15, fill: 15, ..BASE
        },
        "P24" => Profile { workspace: 60, wsnew: 1, switch: 6, open: 10, save: 9, reload: 8, history: 10, group: 5, observe: 2, syntax: 2, faults: 20, look: 3, burst: 1, big: 1, ..BASE },
        "P25" => Profile {
            workspace: 85, open: 16, add: 6, new: 5, close: 8, switch: 5, save: 12, reload: 12, history: 12, group: 6, observe: 3, syntax: 2, setpath: 2, look: 3, ext: 6, faults: 60,
            in_op_ext: 10, wsnew: 1, crash: 1, burst: 1, gap: 2, big: 8, ..BASE
        },
        "P26" | "P27" => Profile { look: 34, edit: 32, cursor: 6, history: 10, reload: 8, open: 8, ext: 5, group: 3, read: 1, faults: 25, big: 2, ..BASE },
        "P21" => Profile { save: 20, reload: 16, open: 14, add: 6, edit: 26, ext: 12, look: 6, faults: 85, in_op_ext: 15, wsnew: 1, switch: 5, close: 2, setpath: 2, ..BASE },
        _ => Profile { ..BASE },
    }
}

pub struct Gen {
    r: Rng,
    prop: String,
    p: Profile,
    alphabets: Vec<usize>,
    paths: Vec<String>,
    links: Vec<String>,
    focus: Vec<String>,
    cwd: String,
    wild: bool,
    big_allowed: bool,
    folder: bool,
    /// this session is about tokens
    lexing: bool,
}

pub fn generate(prop: &str, seed: u64) -> Program {
    let mut r = Rng::new(seed);
    let p = profile(prop);
    let mut g = Gen {
        alphabets: Vec::new(),
        paths: Vec::new(),
        links: Vec::new(),
        focus: Vec::new(),
        cwd: "/w".into(),
        wild: r.chance(35),
        big_allowed: r.chance(p.big * 3),
        folder: false,
        lexing: false,
        prop: prop.to_string(),
        p,
        r,
    };
    g.program(seed)
}

impl Gen {
    fn is(&self, p: &str) -> bool {
        self.prop == p
    }

    fn swarm(&mut self, w: u32, keep: bool) -> u32 {
        match self.r.below(8) {
            0 | 1 if !keep => 0,
            2 => w * 3,
            3 => (w + 1) / 2,
            _ => w,
        }
    }

    fn text_small(&mut self) -> String {
        let n = match self.r.below(10) {
            0 => 0,
            1..=5 => self.r.range(1, 2),
            6..=8 => self.r.range(2, 6),
            _ => self.r.range(6, 25),
        };
        let mut s = String::new();
        for _ in 0..n {
            let a = pieces(*self.r.pick(&self.alphabets));
            s.push_str(self.r.pick(a));
        }
        s
    }

    fn text(&mut self) -> Text {
        if self.big_allowed && self.r.chance(18) {
            return Text { s: self.r.pick(LONG).to_string(), rep: self.big() };
        }
        if self.r.chance(4) {
            return Text { s: self.r.pick(LONG).to_string(), rep: self.r.range(2, 60) as u32 };
        }
        Text { s: self.text_small(), rep: 0 }
    }

    /// sizes around the buffer sizes programs use
    fn big(&mut self) -> u32 {
        if self.r.chance(3) && !self.is("P19") {
            return 65_534 + self.r.below(5) as u32;
        }
        let around = *self.r.pick(&[512usize, 1024, 1024, 2048, 4096, 8192]);
        let d = self.r.below(5);
        (around + d - 2) as u32
    }

    fn blob(&mut self) -> Blob {
        if self.big_allowed && self.r.chance(25) {
            if matches!(self.prop.as_str(), "P01" | "P05" | "P06") && self.r.below(600) == 0 {
                // megabytes
                let text = self.r.pick(&["abcdefgh", "line of text\n", "0123456789abcde\n", "日本\n"]).to_string();
                return Blob { text, bad: None, rep: 400_000 + self.r.below(400_000) as u32 };
            }
            return Blob { text: self.r.pick(LONG).to_string(), bad: if self.r.chance(10) { Some(self.r.u32()) } else { None }, rep: self.big() };
        }
        let mut text = String::new();
        // first lines by which other programs tell a language
        if self.r.chance(if matches!(self.prop.as_str(), "P13" | "P19") { 25 } else { 2 }) {
            text.push_str(self.r.pick(FIRST));
        }
        if self.r.chance(2) {
            text.insert(0, '\u{feff}');
        }
        for _ in 0..self.r.range(0, 3) {
            text.push_str(&self.text_small());
            if self.r.chance(60) {
                text.push('\n');
            }
        }
        let bad = if self.r.chance(7) { Some(self.r.u32()) } else { None };
        Blob { text, bad, rep: 0 }
    }

    fn good_blob(&mut self) -> Blob {
        let mut b = self.blob();
        if self.r.chance(70) {
            b.bad = None;
        }
        b
    }

    fn pos(&mut self) -> Pos {
        let m = match self.r.below(20) {
            0 => 1,
            1 => 2,
            2 if self.wild => 3,
            3 if self.wild => 5,
            4..=6 => 4,
            _ => 0,
        };
        Pos { m, l: self.r.u32() >> 8, o: self.r.u32() >> 8 }
    }

    fn file(&mut self) -> String {
        if !self.focus.is_empty() && self.r.chance(75) {
            self.r.pick(&self.focus).clone()
        } else {
            self.r.pick(&self.paths).clone()
        }
    }

    /// Where a buffer is moved to: a file of the same name elsewhere, one nearly of that name,
    /// or any.
    fn moved_path(&mut self) -> Option<String> {
        match self.r.below(20) {
            0..=8 => Some(self.r.pick(&["/w/a.txt", "/w2/a.txt", "/w/sub/a.txt", "/w/A.txt", "/w/a.txt ", "/w/l1", "/w/ld/a.txt"]).to_string()),
            9..=11 => Some(self.r.pick(&["/w/b.rs", "/w/sub/c.py", "/out/c.py", "/w/sub/b.rs", "/out/b.rs", "/w2/b.rs", "/out/a.txt", "/w/lrs"]).to_string()),
            12 | 13 => Some(self.spelled()),
            14..=16 => Some(self.file()),
            _ => self.set_path(),
        }
    }

    /// Some spelling of a path.
    fn spelled(&mut self) -> String {
        let mut p = match self.r.below(30) {
            0 => return self.r.pick(&["/w", "/w/sub", "/", "", ".", "..", "/nowhere/x", "/w/a.txt/x", "/w/a.txt/", "/w/loop", "/w/new.txt", "no.txt"]).to_string(),
            1..=6 if !self.links.is_empty() => {
                let l = self.r.pick(&self.links).clone();
                if matches!(l.as_str(), "/w/ld" | "/out/back" | "/cur" | "/w/sub/up") {
                    let f = self.r.pick(&["a.txt", "c.py", "deep/d", "b.rs", "sub/a.txt", "sub/c.py"]);
                    format!("{}/{}", l, f)
                } else {
                    l
                }
            }
            _ => self.file(),
        };
        if self.r.chance(30) {
            p = match self.r.below(6) {
                0 => p.replacen('/', "//", 1),
                1 => p.replacen("/w/", "/w/./", 1),
                2 => p.replacen("/w/", "/w/sub/../", 1),
                3 => p.replacen("/w/", "/out/../w/", 1),
                4 => format!("/.{}", p),
                _ => p.replacen("/sub/", "/sub/deep/../", 1),
            };
        }
        if self.r.chance(35) {
            // relative to the initial working directory
            let c = if self.cwd == "/" { "/".to_string() } else { format!("{}/", self.cwd) };
            if let Some(rest) = p.strip_prefix(&c) {
                p = if self.r.chance(30) { format!("./{}", rest) } else { rest.to_string() };
            } else if let (true, Some(rest)) = (self.cwd == "/w" || self.cwd == "/out", p.strip_prefix('/')) {
                p = format!("../{}", rest);
            }
        }
        p
    }

    fn plain(&mut self) -> String {
        match self.r.below(8) {
            0 if !self.links.is_empty() => self.r.pick(&self.links).clone(),
            1 => self.spelled(),
            _ => self.file(),
        }
    }

    fn ext(&mut self, in_op: bool) -> Ext {
        let tame = self.is("P14") && in_op;
        let many_links = matches!(self.prop.as_str(), "P10" | "P14");
        loop {
            let links = self.links.len();
            let w = [
                18,                                                    // write
                7,                                                     // trunc
                6,                                                     // append
                if tame { 0 } else { 10 },                             // replace
                if tame { 0 } else { 5 },                              // unlink
                if tame { 0 } else { 2 },                              // mkdir
                if links == 0 { 0 } else if many_links { 40 } else { 6 }, // retarget
                if tame { 0 } else { 6 },                              // chmod
                if tame { 0 } else { 4 },                              // rename
                7,                                                     // fill
                if in_op { 0 } else { 5 },                             // free
                5,                                                     // announce
                3,                                                     // clock
                if in_op { 1 } else if many_links { 8 } else { 3 },    // chdir
            ];
            let p = self.plain();
            return match self.r.weighted(&w) {
                0 => Ext::Write { path: p, data: self.good_blob(), keep_mtime: self.r.chance(30) },
                1 => Ext::Trunc { path: p, len: self.r.below(12) as u32 },
                2 => Ext::Append { path: p, data: self.good_blob() },
                3 => Ext::Replace { path: p, data: self.good_blob() },
                4 => Ext::Unlink { path: p },
                5 => Ext::Mkdir { path: p },
                6 => {
                    let link = self.r.pick(&self.links).clone();
                    let target = match link.as_str() {
                        "/w/ld" => self.r.pick(&["deep", "/out", "sub", "/w2", "sub/deep"]).to_string(),
                        "/out/back" => self.r.pick(&["../w2", "../w", "../w/sub"]).to_string(),
                        "/cur" => self.r.pick(&["/w", "/w/sub", "/w2", "/out"]).to_string(),
                        "/w/sub/up" => self.r.pick(&["..", "../../w2", "/out"]).to_string(),
                        _ => self.file(),
                    };
                    Ext::Retarget { link, target }
                }
                7 => Ext::Chmod {
                    path: if self.r.chance(25) { self.r.pick(DIRS).to_string() } else { p },
                    mode: *self.r.pick(&[0o644, 0o444, 0o000, 0o755, 0o200, 0o400]),
                },
                8 => {
                    let to = self.file();
                    if p.is_empty() || to == p {
                        continue;
                    }
                    Ext::Rename { from: p, to }
                }
                9 => Ext::Fill { left: *self.r.pick(&[0, 0, 1, 2, 3, 5, 10, 40, 1000]) },
                10 => Ext::Free,
                11 => Ext::Announce {
                    path: p,
                    size: match self.r.below(10) {
                        // more than there is memory for
                        9 if !self.is("P21") => Some(1 << 45),
                        0 => None,
                        1 => Some(0),
                        2 => Some(1),
                        3 => Some(7),
                        4 => Some(4095),
                        5 => Some(4096),
                        6 => Some(self.r.below(60) as u64),
                        7 => Some(70_000),
                        _ => Some(1 << 20),
                    },
                },
                12 => Ext::Clock { delta_s: *self.r.pick(&[-1_000_000, -3600, -1, 0, 1, 3600, 100_000_000]) },
                _ => Ext::Chdir { dir: self.r.pick(&["/", "/w", "/out", "/w/sub", "/tmp", ".."]).to_string() },
            };
        }
    }

    fn nth(&mut self, wide: usize) -> u32 {
        if self.r.chance(60) {
            self.r.below(3) as u32
        } else {
            self.r.below(wide) as u32
        }
    }

    /// Something that strikes an operation without giving it a reason to fail.
    fn harmless(&mut self) -> Trig {
        let class = *self.r.pick(&[Class::Open, Class::Read, Class::Read, Class::Write, Class::Write, Class::Any]);
        let act = match (class, self.r.below(10)) {
            (Class::Any, 0..=3) => Act::Ext(Ext::Clock { delta_s: *self.r.pick(&[-1_000_000, -3600, -1, 1, 3600, 100_000_000]) }),
            (Class::Any, 4..=7) => Act::Ext(Ext::Announce { path: self.file(), size: *self.r.pick(&[None, Some(0), Some(1), Some(7), Some(31), Some(4096), Some(70_000)]) }),
            (Class::Any, _) => Act::Stall(self.r.below(50_000) as u32),
            (Class::Open, _) | (_, 0..=3) => Act::Errno(EINTR),
            _ => Act::Short(self.r.range(1, 9) as u32),
        };
        Trig { class, nth: self.nth(if class == Class::Open { 3 } else { 14 }), act }
    }

    /// A call that fails, and goes on failing for as long as the operation asks.
    fn lasting(&mut self, kind: char) -> Trig {
        let class = *match kind {
            's' => self.r.pick(&[Class::Open, Class::Write, Class::Write, Class::Write, Class::Realpath, Class::Stat, Class::Sync, Class::Any]),
            'c' => self.r.pick(&[Class::Open, Class::Read, Class::Stat, Class::Opendir, Class::Readdir, Class::Realpath, Class::Any]),
            _ => self.r.pick(&[Class::Open, Class::Read, Class::Read, Class::Stat, Class::Realpath, Class::Seek, Class::Any]),
        };
        let e = *self.r.pick(&[EIO, EACCES, ENOENT, EAGAIN, ENOSPC, EDQUOT, EMFILE, ENFILE, EBUSY, ESTALE, ETIMEDOUT, ELOOP, EROFS, ENOMEM, EPERM]);
        Trig { class, nth: if self.r.chance(60) { 0 } else { self.nth(9) }, act: Act::Lasting(e) }
    }

    /// Something the session beside this one does.
    fn peer(&mut self) -> Vec<Step> {
        let n = 1 + self.r.small(4);
        let mut v = Vec::new();
        for _ in 0..n {
            let p = match self.r.below(40) {
                0 => Peer::Workspace { path: self.r.pick(&["/w", "/out", "/w/sub", "."]).to_string(), syntaxes: None },
                1..=6 => Peer::Open { path: self.spelled() },
                7 | 8 => Peer::Add { path: self.spelled() },
                9 => Peer::New,
                10..=16 => Peer::Insert { text: self.text() },
                17 | 18 => Peer::Delete,
                19 => Peer::Replace { text: self.text() },
                20 => Peer::Goto { p: self.pos() },
                21 => Peer::Move { k: *self.r.pick(&[Mv::Up, Mv::Down, Mv::Left, Mv::Right, Mv::LineEnd, Mv::Last]) },
                22 => Peer::Start,
                23 => Peer::End,
                24 | 25 => Peer::Undo,
                26 => Peer::Redo,
                27..=30 => Peer::Save,
                31 => Peer::SetPath { path: self.set_path() },
                32 | 33 => Peer::Reload,
                34 => Peer::Next,
                35 => Peer::Close,
                36 => Peer::Tokens,
                37 => Peer::Search { text: Text { s: self.text_small(), rep: 0 } },
                _ => Peer::Observe,
            };
            v.push(Step { op: Op::Peer(p), trigs: Vec::new() });
        }
        v
    }

    fn trig(&mut self, kind: char) -> Trig {
        if self.is("P21") {
            return self.harmless();
        }
        let mut t = self.usual_trig(kind);
        if let Act::Errno(e) | Act::Lasting(e) | Act::Torn(_, e) = &mut t.act {
            if *e != EINTR && self.r.chance(15) {
                *e = *self.r.pick(ODD);
            }
        }
        t
    }

    fn usual_trig(&mut self, kind: char) -> Trig {
        let errs_open: &[i32] = &[EACCES, EIO, EMFILE, ENFILE, ENOENT, EROFS, EINTR, EINTR, ENOSPC, ELOOP, ESTALE, EBUSY, ENOMEM];
        let errs_io: &[i32] = &[EIO, EINTR, EINTR, ENOSPC, EDQUOT, EAGAIN, EFBIG, ESTALE, ETIMEDOUT, EPERM];
        if self.p.kill > 0 && kind == 's' && self.r.chance(self.p.kill) {
            let torn = if self.r.chance(60) { self.r.below(20) as u32 } else { 0 };
            let class = if torn > 0 && self.r.chance(80) { Class::Write } else { Class::Any };
            return Trig { class, nth: self.nth(12), act: Act::Kill { torn, after: self.r.chance(50) } };
        }
        if kind != 'c' && self.r.chance(self.p.in_op_ext) {
            return Trig { class: Class::Any, nth: self.nth(8), act: Act::Ext(self.ext(true)) };
        }
        if self.r.chance(3) {
            return Trig { class: Class::Any, nth: self.nth(8), act: Act::Stall(self.r.below(5000) as u32) };
        }
        if self.is("P23") && self.r.chance(60) {
            return self.lasting(kind);
        }
        match kind {
            's' => {
                let class = *self.r.pick(&[
                    Class::Open, Class::Write, Class::Write, Class::Write, Class::Write, Class::Write, Class::Close, Class::Any, Class::Sync, Class::Change, Class::Stat, Class::Realpath,
                ]);
                let act = match class {
                    Class::Write => match self.r.below(10) {
                        0..=2 => Act::Short(self.r.range(1, 9) as u32),
                        3 => Act::Torn(self.r.below(9) as u32, *self.r.pick(errs_io)),
                        4 => Act::Zero,
                        5 => Act::Errno(EINTR),
                        _ => Act::Errno(*self.r.pick(errs_io)),
                    },
                    Class::Open => Act::Errno(*self.r.pick(errs_open)),
                    _ => Act::Errno(*self.r.pick(&[EIO, ENOSPC, EINTR, EACCES, EDQUOT])),
                };
                let act = match act {
                    // a torn write that claims to have been merely interrupted is not a legal outcome
                    Act::Torn(n, EINTR) | Act::Torn(n, EAGAIN) => Act::Torn(n, EIO),
                    a => a,
                };
                Trig { class, nth: if class == Class::Write { self.nth(20) } else { self.r.below(2) as u32 }, act }
            }
            'c' => {
                let class = *self.r.pick(&[Class::Open, Class::Read, Class::Read, Class::Stat, Class::Opendir, Class::Readdir, Class::Any, Class::Any]);
                let act = match class {
                    Class::Read => {
                        if self.r.chance(40) {
                            Act::Short(self.r.range(1, 9) as u32)
                        } else {
                            Act::Errno(*self.r.pick(&[EIO, EINTR, EISDIR, ESTALE]))
                        }
                    }
                    _ => Act::Errno(*self.r.pick(&[EIO, EACCES, EMFILE, ENOENT, ENOMEM, ESTALE, EINTR])),
                };
                Trig { class, nth: self.nth(14), act }
            }
            _ => {
                let mut class = *self.r.pick(&[
                    Class::Open, Class::Read, Class::Read, Class::Read, Class::Realpath, Class::Stat, Class::Close, Class::Any, Class::Seek,
                ]);
                if self.is("P10") && self.r.chance(50) {
                    class = Class::Realpath;
                }
                let act = match class {
                    Class::Read => match self.r.below(10) {
                        0..=3 => Act::Short(self.r.range(1, 9) as u32),
                        4 | 5 => Act::Errno(EINTR),
                        _ => Act::Errno(*self.r.pick(&[EIO, EISDIR, ESTALE, ETIMEDOUT, EAGAIN, ENOMEM])),
                    },
                    Class::Open => Act::Errno(*self.r.pick(errs_open)),
                    _ => Act::Errno(*self.r.pick(&[EIO, EACCES, ENOENT, ELOOP, ESTALE, EINTR, ENOMEM])),
                };
                let nth = if class == Class::Read { self.nth(12) } else { self.r.below(3) as u32 };
                Trig { class, nth, act }
            }
        }
    }

    fn trigs(&mut self, kind: char) -> Vec<Trig> {
        if !self.r.chance(self.p.faults) {
            return Vec::new();
        }
        let n = 1 + self.r.small(4);
        (0..n).map(|_| self.trig(kind)).collect()
    }

    fn set_path(&mut self) -> Option<String> {
        match self.r.below(10) {
            0 => None,
            1 => Some(self.spelled()),
            2..=4 => Some(self.r.pick(&["/w/new.txt", "/out/new.rs", "/w/sub/made", "/nowhere/x.txt", "/w/noext.", "/w/.rs", "/w/A.B.py", "/w/q\u{f8ff}", "/w/q.\u{f8ff}", "/w/q\u{f8ff}.py", "/w/Q.RS", "/w/..", "/w/x/.", "/w/y.rs/", "/w/Makefile", "plain", "/w/a.tar.gz", "/w/...", "/w/x.r s"]).to_string()),
            5..=8 if self.is("P19") => {
                let e = self.r.pick(&["rs", "py", "md", "rb", "html", "c", "sh", "js", "foo", "bar", "qux", "java", "css", "xml", "php", "yaml", "tex"]);
                Some(format!("/w/n.{}", e))
            }
            _ if self.is("P13") => {
                let e = self.r.pick(&["rs", "py", "foo", "bar", "md", "zzz", "txt", "json", "Makefile", "nothing", "rust", "python", "Ruby", "foox", "fooy", "pyw", "htm", "yml", "hpp", "PY", "Rs", "hidden", "GNUmakefile", "Rakefile", "gemspec", "bashrc", "markdn", "h", "cfg"]);
                Some(match self.r.below(20) {
                    0..=3 => format!("/w/{}", e),
                    // names that would tell somebody who looks closer than the statement does
                    4 => format!("/w/n.{}.{}", e, self.r.pick(&["orig", "bak", "1", "zzz"])),
                    5 => format!("/w/{}.{}", self.r.pick(&["Makefile", "foo", "n.rs"]), self.r.pick(&["bak", "in", "foo~"])),
                    6 => format!("/w/.{}", e),
                    7 => format!("/w/{}.d/plain", e),
                    8 => format!("/w/n.{}~", e),
                    _ => format!("/w/n.{}", e),
                })
            }
            _ => Some(self.file()),
        }
    }

    fn step(&mut self, w: &[u32]) -> Vec<Step> {
        let op = |op: Op| vec![Step { op, trigs: Vec::new() }];
        match self.r.weighted(w) {
            0 => {
                let mut v = Vec::new();
                if self.r.chance(50) {
                    v.push(Step { op: Op::Goto { p: self.pos() }, trigs: Vec::new() });
                }
                let e = match self.r.below(20) {
                    0..=8 => Op::Insert { text: self.text() },
                    9..=13 => Op::Delete,
                    14..=17 => {
                        let (a, b) = (self.pos(), self.pos());
                        Op::DeleteRange { a, b }
                    }
                    18 => Op::Replace { text: self.text() },
                    _ => {
                        if self.r.chance(40) {
                            Op::ReplaceSame
                        } else {
                            Op::Replace { text: self.text() }
                        }
                    }
                };
                v.push(Step { op: e, trigs: Vec::new() });
                v
            }
            1 => {
                if self.r.chance(50) {
                    op(Op::Goto { p: self.pos() })
                } else {
                    let k = *self.r.pick(&[Mv::Up, Mv::Down, Mv::Left, Mv::Right, Mv::LineStart, Mv::LineEnd, Mv::First, Mv::Last]);
                    op(Op::Move { k })
                }
            }
            2 => {
                let n = if self.r.chance(70) { 1 } else { self.r.range(2, 8) as u32 };
                if self.r.chance(60) {
                    op(Op::Undo { n })
                } else {
                    op(Op::Redo { n })
                }
            }
            3 => {
                if self.r.chance(50) {
                    op(Op::Start)
                } else {
                    op(Op::End)
                }
            }
            4 => {
                let mut v = Vec::new();
                let trigs = self.trigs('s');
                v.push(Step { op: Op::Save, trigs });
                v
            }
            5 => {
                let mut v = Vec::new();
                if self.r.chance(50) {
                    let e = match self.ext(false) {
                        e @ (Ext::Write { .. } | Ext::Trunc { .. } | Ext::Append { .. } | Ext::Replace { .. }) => e,
                        _ => Ext::Write { path: self.file(), data: self.good_blob(), keep_mtime: self.r.chance(30) },
                    };
                    v.push(Step { op: Op::Extern(e), trigs: Vec::new() });
                }
                let trigs = self.trigs('l');
                v.push(Step { op: Op::Reload, trigs });
                // another version, possibly with the same time stamp, and the same again
                if self.r.chance(20) {
                    for _ in 0..self.r.range(1, 2) {
                        let e = Ext::Write { path: self.file(), data: self.good_blob(), keep_mtime: self.r.chance(60) };
                        v.push(Step { op: Op::Extern(e), trigs: Vec::new() });
                        let trigs = self.trigs('l');
                        v.push(Step { op: Op::Reload, trigs });
                    }
                }
                v
            }
            6 => {
                let path = self.spelled();
                let trigs = self.trigs('l');
                let mut v = vec![Step { op: Op::Open { path: path.clone() }, trigs }];
                if self.is("P10") && self.r.chance(50) {
                    if self.r.chance(30) {
                        v.push(Step { op: Op::Insert { text: self.text() }, trigs: Vec::new() });
                    }
                    let trigs = self.trigs('l');
                    let again = if self.r.chance(50) { path } else { self.spelled() };
                    v.push(Step { op: Op::Open { path: again }, trigs });
                }
                v
            }
            7 => {
                let path = self.spelled();
                let trigs = self.trigs('l');
                vec![Step { op: Op::AddFile { path }, trigs }]
            }
            8 if workspace_like(&self.prop) && self.r.chance(2) => {
                let n = if self.r.chance(4) { self.r.range(1000, 1100) } else { self.r.range(5, 300) } as u32;
                let mut v = op(Op::Many { n });
                if self.r.chance(50) {
                    v.push(Step { op: Op::Shut { n: self.r.below(n as usize + 2) as u32 }, trigs: Vec::new() });
                }
                v
            }
            // a buffer that has a past when it comes into the workspace
            8 if self.r.chance(30) => {
                let path = if self.r.chance(60) { Some(self.spelled()) } else { None };
                let trigs = if path.is_some() { self.trigs('l') } else { Vec::new() };
                let mut v = vec![Step { op: Op::Aside { path }, trigs }];
                let mut w = w.to_vec();
                // no opening, switching or closing meanwhile
                for k in [6, 7, 8, 9, 10, 16, 20] {
                    if let Some(x) = w.get_mut(k) {
                        *x = 0;
                    }
                }
                w[0] += 1;
                for _ in 0..self.r.small(8) {
                    v.extend(self.step(&w));
                }
                v.extend(op(Op::Adopt));
                v
            }
            8 => op(Op::New),
            9 => match self.r.below(5) {
                0 => op(Op::Cycle),
                1 | 2 => op(Op::Next),
                _ => op(Op::Prev),
            },
            10 => op(Op::Close),
            11 if self.is("P19") => {
                let mut v = op(Op::SetPath { path: self.set_path() });
                if self.r.chance(80) {
                    v.push(Step { op: Op::UpdateSyntax, trigs: Vec::new() });
                }
                v
            }
            11 if workspace_like(&self.prop) && self.r.chance(15) => {
                op(Op::Root { path: self.r.pick(&["/w", "/w/sub", "/w/s", "/out", "/", "/w2", "w", "/w/sub/../sub", ""]).to_string() })
            }
            11 if self.is("P14") => {
                // another file of the same name or kind, a new one, or the same one spelled
                // otherwise; then the buffer is read from and written to where it now points
                let mut v = op(Op::SetPath { path: self.moved_path() });
                if self.r.chance(60) {
                    v.push(Step { op: if self.r.chance(60) { Op::Reload } else { Op::Save }, trigs: Vec::new() });
                }
                v
            }
            11 => op(Op::SetPath { path: self.set_path() }),
            12 => op(Op::Observe),
            13 if self.r.chance(30) => {
                let e = self.r.pick(&["rs", "py", "md", "html", "rb", "foo", "bar", "zzz", "txt", "json"]).to_string();
                op(Op::SetSyntax { ext: if self.r.chance(85) { Some(e) } else { None } })
            }
            13 => op(Op::UpdateSyntax),
            14 => {
                let (a, b) = (self.pos(), self.pos());
                op(Op::Read { a, b })
            }
            15 => op(Op::Extern(self.ext(false))),
            16 => op(Op::Crash),
            17 if (self.is("P19") || self.lexing) && self.r.chance(92) => op(Op::Tokens),
            17 if matches!(self.prop.as_str(), "P26" | "P27") && self.r.chance(94) => {
                let (a, b) = (self.pos(), self.pos());
                op(Op::Measure { a, b })
            }
            17 if self.is("P20") && self.r.chance(94) => {
                if self.r.chance(60) {
                    let n = 1 + self.r.small(6);
                    op(Op::Find { p: self.pos(), n: n as u32 })
                } else if self.r.chance(70) {
                    let a = pieces(*self.r.pick(&self.alphabets));
                    op(Op::Search { text: Text { s: self.r.pick(a).trim_end_matches('\n').to_string(), rep: 0 } })
                } else {
                    op(Op::Search { text: self.text() })
                }
            }
            17 => match self.r.below(3) {
                0 => op(Op::Tokens),
                1 => op(Op::Search { text: self.text() }),
                _ => op(Op::Info),
            },
            18 => {
                let (a, b) = (self.pos(), self.pos());
                match self.r.below(12) {
                    0 => op(Op::GNew { text: self.text() }),
                    1..=5 => op(Op::GInsert { p: a, text: self.text() }),
                    6..=8 => op(Op::GDelete { a, b }),
                    9 | 10 => op(Op::GRead { a, b }),
                    _ => op(Op::GBounds { p: a }),
                }
            }
            19 => {
                let n = match self.r.below(600) {
                    0 => self.r.range(9_000, 11_000),
                    1..=90 => self.r.range(1000, 1400),
                    _ => self.r.range(10, 140),
                };
                let s = self.r.u32();
                let mut v = op(Op::Burst { n: n as u32, s });
                if self.r.chance(50) {
                    v.push(Step { op: Op::Undo { n: n as u32 + 2 }, trigs: Vec::new() });
                    v.push(Step { op: Op::Redo { n: self.r.below(n + 1) as u32 }, trigs: Vec::new() });
                }
                v
            }
            _ => {
                let path = self.r.pick(&["/w", "/out", "/w/sub", "/cur", "/w/ld", "/nowhere", "."]).to_string();
                let trigs = self.trigs('c');
                vec![Step { op: Op::Workspace { path, syntaxes: None }, trigs }]
            }
        }
    }

    /// A history longer than anyone types in a short session, with a point of
    /// synchronisation somewhere inside and a long walk back and forth.
    fn long_history(&mut self) -> Vec<Step> {
        let mut v = Vec::new();
        let plain = |op: Op| Step { op, trigs: Vec::new() };
        let mut total = 0u32;
        for part in 0..self.r.range(2, 3) {
            let n = *self.r.pick(&[10u32, 40, 70, 110, 130, 220, 260, 510, 520, 1030]);
            let n = if self.r.chance(2) { 10_050 } else { n };
            let n = if total > 600 { n.min(40) } else { n };
            total += n;
            let group = self.r.chance(if self.is("P08") { 60 } else { 15 });
            if group {
                v.push(plain(Op::Start));
            }
            let s = self.r.u32();
            v.push(plain(Op::Burst { n, s }));
            if group && self.r.chance(80) {
                v.push(plain(Op::End));
            }
            if part == 0 || self.r.chance(40) {
                let sync = if self.r.chance(75) { Op::Save } else { Op::Reload };
                let trigs = if sync == Op::Save && self.r.chance(30) { self.trigs('s') } else { Vec::new() };
                v.push(Step { op: sync, trigs });
            }
        }
        for _ in 0..self.r.range(1, 3) {
            let n = if self.r.chance(50) { total + 3 } else { self.r.below(total as usize + 1) as u32 };
            v.push(plain(Op::Undo { n }));
            let n = if self.r.chance(50) { total + 3 } else { self.r.below(total as usize + 1) as u32 };
            v.push(plain(Op::Redo { n }));
        }
        v
    }

    fn program(&mut self, seed: u64) -> Program {
        let workspace = self.r.chance(self.p.workspace);
        let na = self.r.range(1, 3);
        if self.is("P19") && self.r.chance(85) || self.r.chance(4) {
            for _ in 0..self.r.range(1, 2) {
                let a = ALPHABETS.len() + self.r.below(CODE.len());
                self.alphabets.push(a);
            }
        }
        for _ in 0..if self.alphabets.is_empty() { na } else { self.r.below(2) } {
            let a = if self.r.chance(35) { self.r.below(3) } else { self.r.below(ALPHABETS.len()) };
            self.alphabets.push(a);
        }
        let cwd = self.r.pick(&["/w", "/w", "/w", "/out", "/"]).to_string();
        self.cwd = cwd.clone();
        let mut disk = Vec::new();
        for d in DIRS {
            disk.push(Item { path: d.to_string(), kind: Kind::Dir, mode: 0o755 });
        }
        let keep = self.r.range(30, 95);
        for f in FILES {
            if *f == "/w/a.txt" || self.r.chance(keep) {
                let b = self.blob();
                let mode = if self.r.chance(4) { *self.r.pick(&[0o444, 0o000, 0o200]) } else { 0o644 };
                disk.push(Item { path: f.to_string(), kind: Kind::File(b), mode });
                self.paths.push(f.to_string());
            }
        }
        let keep = if matches!(self.prop.as_str(), "P10" | "P14") { 80 } else { self.r.below(80) };
        for (l, t) in LINKS {
            if self.r.chance(keep) {
                disk.push(Item { path: l.to_string(), kind: Kind::Link(t.to_string()), mode: 0o777 });
                self.links.push(l.to_string());
            }
        }
        if self.r.chance(6) {
            let d = self.r.pick(DIRS).to_string();
            disk.push(Item { path: d, kind: Kind::Dir, mode: 0o555 });
        }
        for _ in 0..self.r.range(1, 3) {
            let f = self.r.pick(&self.paths).clone();
            self.focus.push(f);
        }
        let mut steps = Vec::new();
        if self.is("P13") {
            self.folder = true;
            self.syntax_folder(&mut disk, &mut steps);
        }
        if self.is("P19") && self.r.chance(14) {
            self.grammars(&mut disk, &mut steps);
        }
        if matches!(self.prop.as_str(), "P25" | "P17") && workspace && self.r.below(200) == 0 {
            self.alphabets = vec![ALPHABETS.len() + CODE.len() - 1];
            self.focus.clear();
            self.grammars(&mut disk, &mut steps);
            self.p.look = 30;
            self.lexing = true;
        }
        if self.is("P16") && self.r.chance(1) || self.is("P28") && workspace && self.r.chance(3) {
            self.syntax_folder(&mut disk, &mut steps);
        }
        // a beginning that gives later operations something to work on
        if workspace && steps.is_empty() && self.r.chance(5) {
            let path = self.r.pick(&["/w", "/out", "/cur", "/w/ld", ".", "/"]).to_string();
            steps.push(Step { op: Op::Workspace { path, syntaxes: None }, trigs: Vec::new() });
        }
        match self.r.below(10) {
            0 => (),
            1 | 2 => {
                steps.push(Step { op: Op::New, trigs: Vec::new() });
                if self.r.chance(60) {
                    steps.push(Step { op: Op::SetPath { path: Some(self.file()) }, trigs: Vec::new() });
                }
            }
            _ => {
                let path = self.file();
                let op = if self.r.chance(70) { Op::Open { path } } else { Op::AddFile { path } };
                steps.push(Step { op, trigs: Vec::new() });
            }
        }
        if self.is("P09") || self.r.chance(10) {
            steps.push(Step { op: Op::Observe, trigs: Vec::new() });
        }
        if self.is("P24") {
            if self.r.chance(60) {
                let path = self.r.pick(&["/w", "/w", "/out", "/w/sub"]).to_string();
                let mut syntaxes = None;
                let mut own = None;
                if workspace && self.r.chance(6) {
                    let item = |path: &str, kind: Kind| Item { path: path.into(), kind, mode: 0o755 };
                    disk.push(item("/syn", Kind::Dir));
                    for (i, e) in ["foo", "rs"].iter().enumerate() {
                        disk.push(item(&format!("/syn/{}.sublime-syntax", e), Kind::File(Blob::new(&def_text(e, &format!("Beside{}", i))))));
                        let p = format!("/w/t.{}", e);
                        disk.push(item(&p, Kind::File(Blob::new("x\n"))));
                        self.paths.push(p.clone());
                        self.focus.push(p);
                    }
                    syntaxes = Some("/syn".to_string());
                    if self.r.chance(60) {
                        own = Some(if self.r.chance(70) { None } else { syntaxes.clone() });
                    }
                    if self.r.chance(20) {
                        syntaxes = None;
                    }
                }
                steps.push(Step { op: Op::Peer(Peer::Workspace { path, syntaxes }), trigs: Vec::new() });
                if let Some(syntaxes) = own {
                    steps.push(Step { op: Op::Workspace { path: "/w".into(), syntaxes }, trigs: Vec::new() });
                    let path = self.r.pick(&["/w/t.foo", "/w/t.rs"]).to_string();
                    steps.push(Step { op: Op::Open { path }, trigs: Vec::new() });
                }
            }
            let path = self.file();
            steps.push(Step { op: Op::Peer(Peer::Open { path }), trigs: Vec::new() });
        }
        if self.p.gap > 0 && self.r.chance(80) {
            let text = self.text();
            steps.push(Step { op: Op::GNew { text }, trigs: Vec::new() });
        }
        let p = &self.p;
        let raw = [
            p.edit, p.cursor, p.history, p.group, p.save, p.reload, p.open, p.add, p.new, p.switch, p.close, p.setpath, p.observe, p.syntax, p.read, p.ext, p.crash, p.look,
            p.gap, p.burst, p.wsnew,
        ];
        let max = *raw.iter().max().unwrap();
        let mut w: Vec<u32> = Vec::new();
        for x in raw {
            let v = self.swarm(x, x * 2 >= max);
            w.push(v);
        }
        if w.iter().sum::<u32>() == 0 {
            w[0] = 1;
        }
        let (lo, hi) = self.p.steps;
        let n = match self.r.below(20) {
            0 => self.r.range(hi, hi * 4),
            1..=6 => self.r.range(lo.min(3), lo.max(4)),
            _ => self.r.range(lo, hi),
        };
        let long = matches!(self.prop.as_str(), "P02" | "P04" | "P06" | "P07" | "P08" | "P09" | "P11" | "P18") && self.r.chance(2);
        if self.is("P18") && self.r.chance(2) {
            steps.extend(self.wide());
        }
        let at = if long { self.r.range(steps.len(), n.max(steps.len() + 1)) } else { usize::MAX };
        while steps.len() < n {
            if steps.len() >= at {
                let s = self.long_history();
                steps.extend(s);
                break;
            }
            if self.is("P24") && self.r.chance(45) {
                let s = self.peer();
                steps.extend(s);
            }
            let s = self.step(&w);
            steps.extend(s);
        }
        if long {
            for _ in 0..self.r.below(8) {
                let s = self.step(&w);
                steps.extend(s);
            }
        }
        let chunk = |r: &mut Rng| if r.chance(25) { Some(*r.pick(&[1u32, 2, 3, 5, 7, 16, 31, 32, 64, 1000])) } else { None };
        let mut read_chunk = chunk(&mut self.r);
        let mut write_chunk = chunk(&mut self.r);
        if self.big_allowed {
            read_chunk = read_chunk.map(|c| c.max(500));
            write_chunk = write_chunk.map(|c| c.max(500));
        }
        Program {
            property: self.prop.clone(),
            seed,
            workspace,
            cwd,
            coarse_clock: self.r.chance(30),
            read_chunk,
            write_chunk,
            fill: if self.r.chance(self.p.fill) { self.r.range(1, crate::alloc::PATTERNS.len()) as u32 } else { 0 },
            disk,
            steps,
        }
    }

    /// A folder of definitions that load, some of which give up on some texts.
    /// Moving between wide and narrow lines.
    fn wide(&mut self) -> Vec<Step> {
        let mut v = Vec::new();
        for i in 0..self.r.range(2, 4) {
            if i > 0 {
                v.push(Op::Insert { text: Text { s: "\n".into(), rep: 0 } });
                v.push(Op::Move { k: Mv::Down });
                v.push(Op::Move { k: Mv::LineStart });
            }
            if self.r.chance(70) {
                let s = self.r.pick(&["a", "a", "é", "日", "e\u{301}", "🙂", "\t", " "]).to_string();
                let around = *self.r.pick(&[256usize, 1000, 4096, 32_768, 65_536, 65_536]);
                v.push(Op::Insert { text: Text { s, rep: (around + self.r.below(40) - 20) as u32 } });
                v.push(Op::Move { k: Mv::LineEnd });
            } else {
                v.push(Op::Insert { text: self.text() });
            }
        }
        for _ in 0..self.r.range(3, 9) {
            let k = *self.r.pick(&[Mv::Up, Mv::Up, Mv::Down, Mv::Down, Mv::LineEnd, Mv::Left]);
            v.push(Op::Move { k });
        }
        v.into_iter().map(|op| Step { op, trigs: Vec::new() }).collect()
    }

    fn grammars(&mut self, disk: &mut Vec<Item>, steps: &mut Vec<Step>) {
        let item = |disk: &mut Vec<Item>, path: &str, kind: Kind| disk.push(Item { path: path.into(), kind, mode: 0o755 });
        item(disk, "/syn", Kind::Dir);
        for (i, e) in ["foo", "bar", "qux"].iter().enumerate() {
            let body = GRAMMARS[(i + self.r.below(2)) % GRAMMARS.len()];
            let head = def_text(e, &format!("G{}", i));
            let head = &head[..head.find("contexts:\n").unwrap() + 10];
            item(disk, &format!("/syn/{}.sublime-syntax", e), Kind::File(Blob::new(&format!("{}{}", head, body))));
            let p = format!("/w/t.{}", e);
            let b = self.good_blob();
            item(disk, &p, Kind::File(b));
            self.paths.push(p.clone());
            self.focus.push(p);
        }
        self.alphabets.push(ALPHABETS.len() + CODE.len() - 1);
        steps.push(Step { op: Op::Workspace { path: "/w".into(), syntaxes: Some("/syn".into()) }, trigs: Vec::new() });
    }

    fn syntax_folder(&mut self, disk: &mut Vec<Item>, steps: &mut Vec<Step>) {
        let item = |disk: &mut Vec<Item>, path: &str, kind: Kind, mode: u32| disk.push(Item { path: path.into(), kind, mode });
        let dirs = ["/syn", "/syn/a", "/syn/a/b", "/syn/z", "/syn/a/b/c", "/syn/.h", "/syn/a/b/c/d"];
        let nd = self.r.range(1, dirs.len());
        for d in &dirs[..nd] {
            item(disk, d, Kind::Dir, if self.r.chance(4) { 0o000 } else { 0o755 });
        }
        let exts = ["foo", "bar", "rs", "py", "Makefile", "zzz", "md", "qux", "d"];
        if self.is("P13") && self.r.chance(4) {
            // as deep as nobody expects
            let mut d = "/syn".to_string();
            let levels = self.r.range(5, 20);
            for i in 0..levels {
                d = format!("{}/{}", d, i);
                item(disk, &d, Kind::Dir, 0o755);
            }
            item(disk, &format!("{}/deep.sublime-syntax", d), Kind::File(Blob::new(&def_text("deep", "Deep"))), 0o644);
        }
        if self.is("P13") && self.r.chance(3) {
            // a whole collection
            let m = *self.r.pick(&[12, 20, 35, 70, 70, 140]);
            for i in 0..m {
                let d = dirs[self.r.below(nd)];
                item(disk, &format!("{}/c{}.sublime-syntax", d, i), Kind::File(Blob::new(&def_text(&format!("e{}", i), &format!("Many{}", i)))), 0o644);
            }
        }
        let n = self.r.below(6);
        let spoiled = self.r.chance(45);
        for i in 0..n {
            let d = dirs[self.r.below(nd)];
            let ext = *self.r.pick(&exts);
            let name = format!("Def{}", i);
            let path = format!("{}/{}{}.sublime-syntax", d, ["m", "a", "Z", "k"][self.r.below(4)], i);
            let more = match self.r.below(10) {
                0 | 1 => ",foox,fooy",
                2 => ",pyw",
                3 => ",.hidden,c.d",
                _ => "",
            };
            let good = def_text(&format!("{}{}", ext, more), &name);
            let good = if self.is("P13") && self.r.chance(4) {
                let pad = "# all about this\n".repeat(self.r.range(100, 6000));
                if self.r.chance(50) { format!("{}{}", good, pad) } else { good.replacen("---\n", &format!("---\n{}", pad), 1) }
            } else {
                good
            };
            let (kind, mode) = if spoiled && self.r.chance(40) {
                match self.r.below(7) {
                    0 => (Kind::File(Blob { text: good, bad: Some(self.r.u32()), rep: 0 }), 0o644),
                    1 => (Kind::File(Blob::new("{ this is: [ not a definition")), 0o644),
                    2 => (Kind::File(Blob::new("%YAML 1.2\n---\nname: X\ncontexts:\n  main: []\n")), 0o644),
                    3 => (Kind::File(Blob::new(&good)), 0o000),
                    4 => (Kind::Link("nowhere.sublime-syntax".into()), 0o777),
                    5 => (Kind::File(Blob::new("")), 0o644),
                    _ => (Kind::Dir, 0o755),
                }
            } else {
                (Kind::File(Blob::new(&good)), 0o644)
            };
            item(disk, &path, kind, mode);
        }
        if self.r.chance(30) {
            item(disk, "/syn/readme.txt", Kind::File(Blob { text: "x".into(), bad: Some(0), rep: 0 }), 0o644);
        }
        if self.r.chance(12) {
            item(disk, "/syn/linked", Kind::Link("/lib".into()), 0o777);
            item(disk, "/lib", Kind::Dir, 0o755);
            item(disk, "/lib/l.sublime-syntax", Kind::File(Blob::new(&def_text("lnk", "Linked"))), 0o644);
        }
        if self.r.chance(5) {
            item(disk, "/syn/self", Kind::Link(".".into()), 0o777);
        }
        if self.r.chance(5) {
            item(disk, "/syn/gone", Kind::Link("/nowhere".into()), 0o777);
        }
        for (i, e) in ["foo", "bar", "qux", "lnk"].iter().enumerate() {
            let p = format!("/w/t{}.{}", i, e);
            item(disk, &p, Kind::File(Blob::new("x\n")), 0o644);
            self.paths.push(p);
        }
        for (e, _) in BUILTIN {
            if self.r.chance(40) {
                let p = if *e == "Makefile" { "/w/Makefile".to_string() } else { format!("/w/u.{}", e) };
                item(disk, &p, Kind::File(Blob::new("y\n")), 0o644);
                self.paths.push(p);
            }
        }
        let folder = match self.r.below(12) {
            0 => "/nosyn",
            1 => "../syn",
            2 => "/w/a.txt",
            _ => "/syn",
        };
        let trigs = self.trigs('c');
        steps.push(Step { op: Op::Workspace { path: "/w".into(), syntaxes: Some(folder.into()) }, trigs });
    }
}
