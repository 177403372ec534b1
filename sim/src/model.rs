//! Reference models: text addressed by line and grapheme offset, and the undo history.
use crate::program::Mv;
use std::rc::Rc;
use unicode_segmentation::UnicodeSegmentation;

pub type P = (usize, usize);

pub fn is_break(g: &str) -> bool {
    g == "\n" || g == "\r\n"
}

/// Byte offset of a position, if the text has that position.
pub fn offset(text: &str, p: P) -> Option<usize> {
    let (mut line, mut off) = (0, 0);
    for (i, g) in text.grapheme_indices(true) {
        if (line, off) == p {
            return Some(i);
        }
        if is_break(g) {
            if line == p.0 {
                return None;
            }
            line += 1;
            off = 0;
        } else {
            off += 1;
        }
    }
    if (line, off) == p {
        Some(text.len())
    } else {
        None
    }
}

/// Clusters per line (line breaks not counted).
pub fn shape(text: &str) -> Vec<usize> {
    let mut v = vec![0];
    for g in text.graphemes(true) {
        if is_break(g) {
            v.push(0);
        } else {
            *v.last_mut().unwrap() += 1;
        }
    }
    v
}

/// Number of lines as line feeds make them.
pub fn lines_lf(text: &str) -> usize {
    text.bytes().filter(|b| *b == b'\n').count() + 1
}

/// The name a path ends in, if it ends in one.
pub fn last_name(path: &[u8]) -> Option<&[u8]> {
    path.split(|b| *b == b'/').filter(|c| !c.is_empty() && *c != b".").last().filter(|c| *c != b"..")
}

/// What follows the last dot of a name, unless the dot comes first or nothing follows.
pub fn extension(name: &[u8]) -> Option<&[u8]> {
    let at = name.iter().rposition(|b| *b == b'.')?;
    if at == 0 || at + 1 == name.len() {
        None
    } else {
        Some(&name[at + 1..])
    }
}

pub fn insert(text: &str, p: P, s: &str) -> String {
    match offset(text, p) {
        None => text.to_string(),
        Some(o) => {
            let mut t = String::with_capacity(text.len() + s.len());
            t.push_str(&text[..o]);
            t.push_str(s);
            t.push_str(&text[o..]);
            t
        }
    }
}

fn order(a: P, b: P) -> (P, P) {
    if a <= b {
        (a, b)
    } else {
        (b, a)
    }
}

pub fn delete(text: &str, a: P, b: P) -> String {
    let (a, b) = order(a, b);
    let s = match offset(text, a) {
        Some(s) => s,
        None => return text.to_string(),
    };
    let e = match offset(text, b) {
        Some(e) => e,
        None => b.0.checked_add(1).and_then(|l| offset(text, (l, 0))).unwrap_or(text.len()),
    };
    format!("{}{}", &text[..s], &text[e.max(s)..])
}

pub fn read(text: &str, a: P, b: P) -> Option<String> {
    let (a, b) = order(a, b);
    Some(text[offset(text, a)?..offset(text, b)?].to_string())
}

/// Latest position an announcement may carry for a change whose first difference is where
/// the common prefix of `old` and `new` ends.
pub fn first_difference(old: &str, new: &str) -> Option<P> {
    if old == new {
        return None;
    }
    let mut n = old.bytes().zip(new.bytes()).take_while(|(a, b)| a == b).count();
    while !old.is_char_boundary(n) || !new.is_char_boundary(n) {
        n -= 1;
    }
    let s = shape(&old[..n]);
    Some((s.len() - 1, *s.last().unwrap()))
}

// ---- cursor -----------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Go {
    /// stays
    Same,
    To(P),
    Move(Mv),
    /// the text was replaced as a whole
    Replaced,
    /// the text was replaced as a whole, perhaps several times, among other changes
    Steps,
    Anywhere,
}

/// The columns vertical movement may aim for (`None`: unknown).
pub type Desire = Option<Vec<usize>>;

fn with(d: &Desire, c: usize) -> Desire {
    let mut v = d.clone()?;
    if !v.contains(&c) {
        v.push(c);
    }
    Some(v)
}

/// Judges where the cursor went from `old`, given the new text; the desire afterwards, or
/// where it should have gone.
pub fn cursor(go: Go, old: P, new: P, text: &str, same_text: bool, d: &Desire) -> Result<Desire, String> {
    let want = |p: P| format!("expected {:?}", p);
    let s = shape(text);
    let inb = |p: P| p.0 < s.len() && p.1 <= s[p.0];
    let vertical = |t: usize| -> Result<Desire, String> {
        match d {
            None if new.0 == t && inb(new) => Ok(if new.1 < s[t] { Some(vec![new.1]) } else { None }),
            None => Err(format!("expected line {}", t)),
            Some(v) => {
                let left: Vec<usize> = v.iter().copied().filter(|c| new == (t, (*c).min(s[t]))).collect();
                if left.is_empty() {
                    Err(format!("expected line {}, column {:?} or the end of the line", t, v))
                } else {
                    Ok(Some(left))
                }
            }
        }
    };
    match go {
        Go::Anywhere => Ok(None),
        Go::Same if new == old => Ok(d.clone()),
        Go::Same => Err(want(old)),
        Go::To(p) => {
            if inb(p) {
                if new == p {
                    Ok(Some(vec![p.1]))
                } else {
                    Err(want(p))
                }
            } else if new == old {
                Ok(d.clone())
            } else {
                Err(want(old))
            }
        }
        Go::Replaced => {
            let p = if inb(old) {
                old
            } else if inb((old.0, 0)) {
                (old.0, 0)
            } else {
                (0, 0)
            };
            if new == p || (same_text && new == old) {
                Ok(with(d, new.1))
            } else {
                Err(want(p))
            }
        }
        Go::Steps => {
            if new == old || new == (old.0, 0) || new == (0, 0) {
                Ok(with(d, new.1))
            } else {
                Err(want(old))
            }
        }
        Go::Move(_) if !inb(old) => {
            // an edit left the cursor outside the text
            if new == old || inb(new) {
                Ok(None)
            } else {
                Err(format!("expected a place in the text or {:?}", old))
            }
        }
        Go::Move(k) => {
            let (l, o) = old;
            let explicit = |p: P| {
                if new != p {
                    Err(want(p))
                } else if p == old {
                    Ok(with(d, p.1))
                } else {
                    Ok(Some(vec![p.1]))
                }
            };
            let stay = || if new == old { Ok(d.clone()) } else { Err(want(old)) };
            match k {
                Mv::Up if l == 0 => stay(),
                Mv::Down if l + 1 == s.len() => stay(),
                Mv::Up => vertical(l - 1),
                Mv::Down => vertical(l + 1),
                Mv::First => vertical(0).map(|v| with(&v, new.1)),
                Mv::Last => vertical(s.len() - 1).map(|v| with(&v, new.1)),
                Mv::Left => explicit((l, o.saturating_sub(1))),
                Mv::Right => explicit((l, (o + 1).min(s[l]))),
                Mv::LineStart => explicit((l, 0)),
                Mv::LineEnd => explicit((l, s[l])),
            }
        }
    }
}

/// The first `n` clusters of a text.
pub fn clusters(text: &str, n: usize) -> String {
    text.graphemes(true).take(n).collect()
}

/// Where clusters start (and the text ends), in bytes.
pub fn boundaries(text: &str) -> Vec<usize> {
    text.grapheme_indices(true).map(|(i, _)| i).chain([text.len()]).collect()
}

// ---- searching --------------------------------------------------------------------------

/// Where `needle` occurs within a line, as positions.
pub fn search(text: &str, needle: &str) -> Vec<P> {
    let mut v = Vec::new();
    let (mut line, mut off) = (0, 0);
    let ends: Vec<usize> = text.grapheme_indices(true).filter(|(_, g)| is_break(g)).map(|(i, _)| i).chain([text.len()]).collect();
    for (i, g) in text.grapheme_indices(true) {
        if is_break(g) {
            line += 1;
            off = 0;
            continue;
        }
        if text[i..ends[line]].starts_with(needle) {
            v.push((line, off));
        }
        off += 1;
    }
    v
}

// ---- history ------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Ent {
    pub pre: Rc<str>,
    pub post: Rc<str>,
    pub serial: u64,
    /// left the text as it was: an implementation may or may not record it
    pub noop: bool,
    pub group: bool,
    /// replaced the text as a whole (or, a group, contains such a change)
    pub replaced: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Hist {
    pub undo: Vec<Ent>,
    pub redo: Vec<Ent>,
    /// so many of the oldest entries to redo may or may not be gone, because an edit that
    /// left the text alone came after them
    pub doubtful: usize,
    pub group: Option<Vec<Ent>>,
    pub next_serial: u64,
    /// an empty group ended (or was dropped) since the last recorded change
    pub empty_group: bool,
    /// what the last undo or redo was about: (replacement of the whole text, group)
    pub moved: Option<(bool, bool)>,
}

/// What an undo or redo that gave a wrong text was about.
pub struct Wrong {
    pub msg: String,
    pub group: bool,
}

fn short(s: &str) -> String {
    let mut t: String = s.chars().take(60).collect();
    if t.len() < s.len() {
        t.push_str(&format!("…({} bytes)", s.len()));
    }
    format!("{:?}", t)
}
pub fn show(s: &str) -> String {
    short(s)
}

impl Hist {
    /// Identifies the present point in the history.
    pub fn point(&self) -> u64 {
        if let Some(g) = &self.group {
            if let Some(e) = g.last() {
                return e.serial;
            }
        }
        self.undo.last().map(|e| e.serial).unwrap_or(0)
    }

    /// Whether the implementation is certainly at `point()`: next to changes that left the
    /// text alone, which it may or may not have recorded, that cannot be told.
    pub fn certain(&self) -> bool {
        match self.group.as_ref().and_then(|g| g.last()) {
            Some(e) => !e.noop,
            None => !self.undo.last().map(|e| e.noop).unwrap_or(false) && !self.redo.last().map(|e| e.noop).unwrap_or(false),
        }
    }

    /// An edit took the text from `pre` to `post`.
    pub fn edit(&mut self, pre: &Rc<str>, post: &Rc<str>, replaced: bool) {
        self.next_serial += 1;
        let noop = pre == post;
        let e = Ent { pre: pre.clone(), post: post.clone(), serial: self.next_serial, noop, group: false, replaced };
        if noop {
            self.doubtful = self.redo.len();
        } else {
            self.redo.clear();
            self.doubtful = 0;
        }
        match &mut self.group {
            Some(g) => g.push(e),
            None => {
                if !noop {
                    self.empty_group = false;
                }
                self.undo.push(e)
            }
        }
    }

    pub fn start(&mut self) {
        if self.group.is_none() {
            self.group = Some(Vec::new());
        }
    }
    /// Ends the open group, if any; tells whether it held anything.
    pub fn end(&mut self) -> bool {
        match self.group.take() {
            None => false,
            Some(g) if g.is_empty() => {
                self.empty_group = true;
                false
            }
            Some(g) => {
                let pre = g[0].pre.clone();
                let last = g.last().unwrap();
                let replaced = g.iter().any(|e| e.replaced);
                let e = Ent {
                    noop: pre == last.post,
                    pre,
                    post: last.post.clone(),
                    serial: last.serial,
                    group: true,
                    replaced,
                };
                if !e.noop {
                    self.empty_group = false;
                }
                self.undo.push(e);
                true
            }
        }
    }

    /// Checks the text `new` an undo produced from `cur`.
    pub fn undone(&mut self, cur: &str, new: &str) -> Result<bool, Wrong> {
        self.end();
        self.moved = None;
        loop {
            match self.undo.pop() {
                None => {
                    return if new == cur {
                        Ok(false)
                    } else {
                        Err(Wrong {
                            msg: format!("undo with nothing left to undo changed {} into {}", short(cur), short(new)),
                            group: false,
                        })
                    };
                }
                Some(e) if e.noop => {
                    self.moved = Some((e.replaced, e.group));
                    self.redo.push(e);
                    if new == cur {
                        return Ok(true);
                    }
                }
                Some(e) => {
                    self.moved = Some((e.replaced, e.group));
                    let r = if *e.pre == *new {
                        Ok(true)
                    } else {
                        Err(Wrong {
                            msg: format!(
                                "undo of {} should restore {} but gave {}",
                                if e.group { "a group" } else { "a change" },
                                short(&e.pre),
                                short(new)
                            ),
                            group: e.group || (self.empty_group && new == cur),
                        })
                    };
                    self.redo.push(e);
                    return r;
                }
            }
        }
    }

    pub fn redone(&mut self, cur: &str, new: &str) -> Result<bool, Wrong> {
        self.moved = None;
        if let Some(g) = &self.group {
            if g.iter().any(|e| !e.noop) {
                return if new == cur {
                    Ok(false)
                } else {
                    Err(Wrong {
                        msg: format!("redo after new changes in an open group turned {} into {}", short(cur), short(new)),
                        group: true,
                    })
                };
            }
            if !g.is_empty() && new == cur {
                return Ok(false);
            }
        }
        loop {
            let doubt = self.redo.len() <= self.doubtful;
            match self.redo.pop() {
                None => {
                    return if new == cur {
                        Ok(false)
                    } else {
                        Err(Wrong {
                            msg: format!("redo with nothing to redo changed {} into {}", short(cur), short(new)),
                            group: false,
                        })
                    };
                }
                Some(e) if e.noop => {
                    self.doubtful = self.doubtful.min(self.redo.len());
                    self.moved = Some((e.replaced, e.group));
                    self.undo.push(e);
                    if new == cur {
                        return Ok(true);
                    }
                }
                Some(e) => {
                    if doubt && new == cur {
                        self.redo.clear();
                        self.doubtful = 0;
                        return Ok(false);
                    }
                    if doubt {
                        self.doubtful = 0;
                    }
                    self.moved = Some((e.replaced, e.group));
                    let r = if *e.post == *new {
                        Ok(true)
                    } else {
                        Err(Wrong {
                            msg: format!(
                                "redo of {} should restore {} but gave {}",
                                if e.group { "a group" } else { "a change" },
                                short(&e.post),
                                short(new)
                            ),
                            group: e.group || (self.empty_group && new == cur),
                        })
                    };
                    self.undo.push(e);
                    return r;
                }
            }
        }
    }

    pub fn clear(&mut self) {
        self.undo.clear();
        self.redo.clear();
        self.group = None;
        self.doubtful = 0;
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn positions() {
        let t = "ab\r\ncd\n\u{65}\u{301}x";
        assert_eq!(shape(t), vec![2, 2, 2]);
        assert_eq!(offset(t, (0, 2)), Some(2));
        assert_eq!(offset(t, (0, 3)), None);
        assert_eq!(offset(t, (1, 0)), Some(4));
        assert_eq!(offset(t, (2, 1)), Some(10));
        assert_eq!(offset(t, (2, 2)), Some(11));
        assert_eq!(offset(t, (3, 0)), None);
        assert_eq!(delete(t, (0, 1), (0, 9)), "acd\n\u{65}\u{301}x");
        assert_eq!(delete(t, (1, 0), (2, 9)), "ab\r\n");
        assert_eq!(first_difference("ab\ncd", "ab\ncx"), Some((1, 1)));
    }
}
