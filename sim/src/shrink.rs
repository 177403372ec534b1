//! Reduces a failing session while the same kind of violation persists.
use crate::program::*;
use crate::world::*;
use std::time::{Duration, Instant};

/// What kind of violation a message reports: its words up to the first concrete value.
pub fn class(msg: &str) -> String {
    msg.chars().take_while(|c| !matches!(c, '"' | '(' | '/' | '{' | '[') && !c.is_ascii_digit()).collect()
}

pub struct Shrinker<'a> {
    pub fails: &'a dyn Fn(&Program) -> bool,
    pub until: Instant,
    pub tries: u64,
}

impl<'a> Shrinker<'a> {
    fn bad(&mut self, p: &Program) -> bool {
        self.tries += 1;
        Instant::now() < self.until && (self.fails)(p)
    }

    fn drop_from<T: Clone>(&mut self, p: &mut Program, get: impl Fn(&mut Program) -> &mut Vec<T>) -> bool {
        let mut any = false;
        let mut size = (get(p).len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < get(p).len() {
                let mut q = p.clone();
                let v = get(&mut q);
                let end = (i + size).min(v.len());
                v.drain(i..end);
                if self.bad(&q) {
                    *p = q;
                    any = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                return any;
            }
            size = (size / 2).max(1);
        }
    }

    fn accept(&mut self, p: &mut Program, f: impl FnOnce(&mut Program)) -> bool {
        let mut q = p.clone();
        f(&mut q);
        if q != *p && self.bad(&q) {
            *p = q;
            true
        } else {
            false
        }
    }

    fn shorten_text(&mut self, p: &mut Program, get: impl Fn(&mut Program) -> Option<&mut String>) -> bool {
        let mut any = false;
        loop {
            let s: Vec<char> = match get(p) {
                None => return any,
                Some(s) => s.chars().collect(),
            };
            let mut progressed = false;
            let mut size = s.len();
            while size > 0 && !progressed {
                let mut i = 0;
                while i + size <= s.len() {
                    let t: String = s[..i].iter().chain(&s[i + size..]).collect();
                    if self.accept(p, |q| {
                        if let Some(x) = get(q) {
                            *x = t
                        }
                    }) {
                        progressed = true;
                        any = true;
                        break;
                    }
                    i += size;
                }
                size /= 2;
            }
            if !progressed {
                return any;
            }
        }
    }

    pub fn run(&mut self, p: &mut Program) {
        for _ in 0..6 {
            let mut any = false;
            any |= self.drop_from(p, |q| &mut q.steps);
            for i in 0..p.steps.len() {
                if !p.steps[i].trigs.is_empty() {
                    any |= self.drop_from(p, move |q| &mut q.steps[i].trigs);
                }
            }
            any |= self.drop_from(p, |q| &mut q.disk);
            any |= self.accept(p, |q| q.fill = 0);
            any |= self.accept(p, |q| q.read_chunk = None);
            any |= self.accept(p, |q| q.write_chunk = None);
            any |= self.accept(p, |q| q.coarse_clock = false);
            any |= self.accept(p, |q| q.cwd = "/".into());
            any |= self.accept(p, |q| q.workspace = false);
            for i in 0..p.steps.len() {
                for j in 0..p.steps[i].trigs.len() {
                    any |= self.accept(p, |q| q.steps[i].trigs[j].nth = 0);
                    any |= self.accept(p, |q| match &mut q.steps[i].trigs[j].act {
                        Act::Short(n) => *n = 1,
                        Act::Torn(n, _) => *n = 0,
                        Act::Kill { torn, .. } => *torn = 0,
                        _ => (),
                    });
                }
                any |= self.accept(p, |q| match &mut q.steps[i].op {
                    Op::Undo { n } | Op::Redo { n } => *n = 1,
                    Op::Burst { n, .. } => *n /= 2,
                    Op::Insert { text } | Op::Replace { text } | Op::GNew { text } | Op::GInsert { text, .. } => text.rep /= 2,
                    _ => (),
                });
                any |= self.shorten_text(p, move |q| match q.steps.get_mut(i).map(|s| &mut s.op) {
                    Some(Op::Insert { text } | Op::Replace { text } | Op::GNew { text } | Op::GInsert { text, .. } | Op::Search { text }) => Some(&mut text.s),
                    Some(Op::Extern(Ext::Write { data, .. } | Ext::Append { data, .. } | Ext::Replace { data, .. })) => Some(&mut data.text),
                    _ => None,
                });
                for k in 0..3 {
                    any |= self.accept(p, |q| {
                        let small = |x: &mut Pos| match k {
                            0 => *x = Pos { m: x.m, l: 0, o: 0 },
                            1 => x.l %= 8,
                            _ => x.o %= 8,
                        };
                        match &mut q.steps[i].op {
                            Op::Goto { p } | Op::GBounds { p } | Op::GInsert { p, .. } => small(p),
                            Op::DeleteRange { a, b } | Op::Read { a, b } | Op::Measure { a, b } | Op::GDelete { a, b } | Op::GRead { a, b } => {
                                small(a);
                                small(b)
                            }
                            _ => (),
                        }
                    });
                }
            }
            for i in 0..p.disk.len() {
                any |= self.accept(p, |q| {
                    if let Kind::File(b) = &mut q.disk[i].kind {
                        b.rep = 0
                    }
                });
                if p.disk[i].path.ends_with(".sublime-syntax") {
                    continue;
                }
                any |= self.accept(p, |q| q.disk[i].kind = Kind::File(Blob::new("")));
                any |= self.shorten_text(p, move |q| match q.disk.get_mut(i).map(|d| &mut d.kind) {
                    Some(Kind::File(b)) => Some(&mut b.text),
                    _ => None,
                });
            }
            if !any || Instant::now() > self.until {
                return;
            }
        }
    }
}

pub fn shrink(prog: &Program, fails: &dyn Fn(&Program) -> bool, budget: Duration) -> (Program, u64) {
    let mut p = prog.clone();
    let mut s = Shrinker { fails, until: Instant::now() + budget, tries: 0 };
    s.run(&mut p);
    (p, s.tries)
}
