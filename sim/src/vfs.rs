//! An in-memory POSIX-like file system: inodes, directories, links, permissions, capacity.
use libc::*;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub type Ino = u64;
pub const ROOT: Ino = 1;

#[derive(Clone, PartialEq, Debug)]
pub enum Node {
    File(Rc<Vec<u8>>),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Link(Vec<u8>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub mtime: u64,
    pub nlink: u32,
    /// Size announced by stat instead of the real one (special files do this).
    pub announced: Option<u64>,
}

#[derive(Clone)]
pub struct Vfs {
    pub inodes: BTreeMap<Ino, Inode>,
    pub next: Ino,
    /// Total bytes all files together may hold.
    pub capacity: Option<u64>,
}

/// Outcome of a path walk. `stack` holds the directories walked (root first) and,
/// when the final component exists, that component.
pub struct Walk {
    pub stack: Vec<(Vec<u8>, Ino)>,
    pub missing: Option<Vec<u8>>,
    pub slash: bool,
}

impl Walk {
    pub fn ino(&self) -> Option<Ino> {
        if self.missing.is_some() {
            None
        } else {
            Some(self.stack.last().unwrap().1)
        }
    }
    pub fn path(&self) -> Vec<u8> {
        let mut p = Vec::new();
        for (n, _) in self.stack.iter().skip(1) {
            p.push(b'/');
            p.extend_from_slice(n);
        }
        if let Some(m) = &self.missing {
            p.push(b'/');
            p.extend_from_slice(m);
        }
        if p.is_empty() {
            p.push(b'/');
        }
        p
    }
    /// Directory that holds (or would hold) the final component, and its name.
    pub fn parent(&self) -> (Ino, Vec<u8>) {
        match &self.missing {
            Some(m) => (self.stack.last().unwrap().1, m.clone()),
            None => {
                let n = self.stack.len();
                if n == 1 {
                    (ROOT, Vec::new())
                } else {
                    (self.stack[n - 2].1, self.stack[n - 1].0.clone())
                }
            }
        }
    }
}

impl Vfs {
    pub fn new() -> Vfs {
        let mut inodes = BTreeMap::new();
        inodes.insert(
            ROOT,
            Inode { node: Node::Dir(BTreeMap::new()), mode: 0o755, mtime: 0, nlink: 1, announced: None },
        );
        Vfs { inodes, next: 2, capacity: None }
    }

    pub fn used(&self) -> u64 {
        self.inodes
            .values()
            .map(|i| if let Node::File(d) = &i.node { d.len() as u64 } else { 0 })
            .sum()
    }

    pub fn get(&self, ino: Ino) -> &Inode {
        &self.inodes[&ino]
    }
    pub fn get_mut(&mut self, ino: Ino) -> &mut Inode {
        self.inodes.get_mut(&ino).unwrap()
    }
    pub fn is_dir(&self, ino: Ino) -> bool {
        matches!(self.get(ino).node, Node::Dir(_))
    }

    pub fn walk(&self, cwd: &[u8], path: &[u8], follow_last: bool) -> Result<Walk, i32> {
        self.walk_for(cwd, path, follow_last, false)
    }
    /// `create`: on behalf of an open that may create the file.
    pub fn walk_for(&self, cwd: &[u8], path: &[u8], follow_last: bool, create: bool) -> Result<Walk, i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() > 4095 {
            return Err(ENAMETOOLONG);
        }
        let mut slash = path.len() > 1 && path.ends_with(b"/");
        let mut q: VecDeque<Vec<u8>> = VecDeque::new();
        let push = |p: &[u8], q: &mut VecDeque<Vec<u8>>| {
            let comps: Vec<Vec<u8>> =
                p.split(|b| *b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
            for c in comps.into_iter().rev() {
                q.push_front(c);
            }
        };
        push(path, &mut q);
        let mut stack: Vec<(Vec<u8>, Ino)> = vec![(Vec::new(), ROOT)];
        if path[0] != b'/' {
            // where the process already is
            for c in cwd.split(|b| *b == b'/').filter(|c| !c.is_empty()) {
                match &self.get(stack.last().unwrap().1).node {
                    Node::Dir(e) => stack.push((c.to_vec(), *e.get(c).ok_or(ENOENT)?)),
                    _ => return Err(ENOENT),
                }
            }
        }
        let mut links = 0;
        while let Some(c) = q.pop_front() {
            let cur = stack.last().unwrap().1;
            let inode = self.get(cur);
            let entries = match &inode.node {
                Node::Dir(e) => e,
                _ => return Err(ENOTDIR),
            };
            if inode.mode & 0o100 == 0 {
                return Err(EACCES);
            }
            if c == b"." {
                continue;
            }
            if c == b".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                continue;
            }
            if create && slash && q.is_empty() {
                // what is created by opening is no directory
                return Err(EISDIR);
            }
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            match entries.get(&c) {
                None => {
                    if q.iter().all(|x| x == b".") && q.is_empty() {
                        return Ok(Walk { stack, missing: Some(c), slash });
                    }
                    return Err(ENOENT);
                }
                Some(&ino) => {
                    if let Node::Link(t) = &self.get(ino).node {
                        if !q.is_empty() || follow_last || slash {
                            links += 1;
                            if links > 40 {
                                return Err(ELOOP);
                            }
                            if t.is_empty() {
                                return Err(ENOENT);
                            }
                            if q.is_empty() && t.ends_with(b"/") {
                                slash = true;
                            }
                            if t[0] == b'/' {
                                stack.truncate(1);
                            }
                            let t = t.clone();
                            push(&t, &mut q);
                            continue;
                        }
                    }
                    stack.push((c, ino));
                }
            }
        }
        let w = Walk { stack, missing: None, slash };
        if w.slash && !self.is_dir(w.ino().unwrap()) {
            return Err(ENOTDIR);
        }
        Ok(w)
    }

    pub fn lookup(&self, cwd: &[u8], path: &[u8], follow: bool) -> Result<Ino, i32> {
        self.walk(cwd, path, follow)?.ino().ok_or(ENOENT)
    }

    /// Not a system call: the C library walks the path piece by piece with readlink, however long
    /// the path is, asking nothing of "." and little of "..".
    pub fn realpath(&self, cwd: &[u8], path: &[u8]) -> Result<Vec<u8>, i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        let pieces = |p: &[u8]| -> Vec<Vec<u8>> {
            p.split(|b| *b == b'/').filter(|c| !c.is_empty()).rev().map(|c| c.to_vec()).collect()
        };
        // still to do, last first
        let mut todo = pieces(path);
        let mut slash = path.ends_with(b"/");
        let mut stack: Vec<(Vec<u8>, Ino)> = vec![(Vec::new(), ROOT)];
        if path[0] != b'/' {
            for c in pieces(cwd).into_iter().rev() {
                match &self.get(stack.last().unwrap().1).node {
                    Node::Dir(e) => stack.push((c.clone(), *e.get(&c).ok_or(ENOENT)?)),
                    _ => return Err(ENOENT),
                }
            }
        }
        let mut links = 0;
        while let Some(c) = todo.pop() {
            if c == b"." {
                continue;
            }
            if c == b".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                continue;
            }
            for (_, d) in &stack {
                match &self.get(*d).node {
                    Node::Dir(_) if self.get(*d).mode & 0o100 == 0 => return Err(EACCES),
                    Node::Dir(_) => (),
                    _ => return Err(ENOTDIR),
                }
            }
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let ino = match &self.get(stack.last().unwrap().1).node {
                Node::Dir(e) => *e.get(&c).ok_or(ENOENT)?,
                _ => return Err(ENOTDIR),
            };
            if let Node::Link(t) = &self.get(ino).node {
                links += 1;
                if links > 40 {
                    return Err(ELOOP);
                }
                if t.first() == Some(&b'/') {
                    stack.truncate(1);
                }
                if todo.is_empty() && t.ends_with(b"/") {
                    slash = true;
                }
                todo.extend(pieces(t));
                continue;
            }
            // what comes next asks for a directory, unless it finds out for itself
            let rest = todo.iter().rev().find(|c| *c != b".");
            let checked = match rest {
                None => slash || !todo.is_empty(),
                Some(c) => c == b"..",
            };
            if checked && !self.is_dir(ino) {
                return Err(ENOTDIR);
            }
            stack.push((c, ino));
        }
        Ok(Walk { stack, missing: None, slash: false }.path())
    }

    pub fn add(&mut self, parent: Ino, name: &[u8], node: Node, mode: u32, now: u64) -> Ino {
        let ino = self.next;
        self.next += 1;
        self.inodes.insert(ino, Inode { node, mode, mtime: now, nlink: 1, announced: None });
        if let Node::Dir(e) = &mut self.get_mut(parent).node {
            e.insert(name.to_vec(), ino);
        }
        ino
    }

    pub fn detach(&mut self, parent: Ino, name: &[u8], keep: &dyn Fn(Ino) -> bool) {
        let mut gone = None;
        if let Node::Dir(e) = &mut self.get_mut(parent).node {
            gone = e.remove(name);
        }
        if let Some(ino) = gone {
            let i = self.get_mut(ino);
            i.nlink = i.nlink.saturating_sub(1);
            if i.nlink == 0 && !keep(ino) {
                self.inodes.remove(&ino);
            }
        }
    }

    /// Content of the regular file at `path` (links followed), if there is one.
    pub fn content(&self, cwd: &[u8], path: &[u8]) -> Option<Rc<Vec<u8>>> {
        let ino = self.lookup(cwd, path, true).ok()?;
        match &self.get(ino).node {
            Node::File(d) => Some(d.clone()),
            _ => None,
        }
    }

    /// Every reachable path with what it denotes, for whole-disk comparison.
    pub fn tree(&self) -> BTreeMap<Vec<u8>, (Ino, Shape)> {
        let mut out = BTreeMap::new();
        self.tree_into(ROOT, &mut Vec::new(), &mut out);
        out
    }
    fn tree_into(&self, dir: Ino, prefix: &mut Vec<u8>, out: &mut BTreeMap<Vec<u8>, (Ino, Shape)>) {
        if let Node::Dir(e) = &self.get(dir).node {
            for (n, &ino) in e {
                let len = prefix.len();
                prefix.push(b'/');
                prefix.extend_from_slice(n);
                let i = self.get(ino);
                match &i.node {
                    Node::File(d) => {
                        out.insert(prefix.clone(), (ino, Shape::File(d.clone(), i.mode)));
                    }
                    Node::Link(t) => {
                        out.insert(prefix.clone(), (ino, Shape::Link(t.clone())));
                    }
                    Node::Dir(_) => {
                        out.insert(prefix.clone(), (ino, Shape::Dir(i.mode)));
                        self.tree_into(ino, prefix, out);
                    }
                }
                prefix.truncate(len);
            }
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Shape {
    File(Rc<Vec<u8>>, u32),
    Link(Vec<u8>),
    Dir(u32),
}
