//! In-memory file system with a visible image (page cache) and a durable one.
use std::collections::BTreeMap;

pub type Ino = usize;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Kind {
    File,
    Dir,
    Symlink(String),
}

#[derive(Clone, Debug)]
pub enum DOp {
    Write(u64, Vec<u8>),
    Trunc(u64),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub kind: Kind,
    pub data: Vec<u8>,
    pub entries: BTreeMap<String, Ino>,
    pub parent: Ino,
    pub mode: u32,
    pub mtime: i128,
    pub durable: Vec<u8>,
    pub durable_entries: BTreeMap<String, Ino>,
    pub pending: Vec<DOp>,
    pub nlink: u32,
}

/// One atomic metadata transaction: a set of (dir, name, new target).
pub type MetaOp = Vec<(Ino, String, Option<Ino>)>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Audit {
    Create(String),
    Write(String),
    Trunc(String),
    Unlink(String),
    Rename(String, String),
    Mkdir(String),
    Rmdir(String),
    Chmod(String),
    Link(String),
}

#[derive(Clone, Debug)]
pub struct Fs {
    pub inodes: Vec<Inode>,
    pub meta: Vec<MetaOp>,
    pub cwd: String,
    /// character devices that never end, and how much was read from them
    pub endless: Vec<Ino>,
    pub endless_read: u64,
    pub audit: Vec<Audit>,
    pub used: u64,
    pub capacity: Option<u64>,
}

pub const ROOT: Ino = 0;

fn new_inode(kind: Kind, parent: Ino, mode: u32) -> Inode {
    Inode {
        kind,
        data: Vec::new(),
        entries: BTreeMap::new(),
        parent,
        mode,
        mtime: 0,
        durable: Vec::new(),
        durable_entries: BTreeMap::new(),
        pending: Vec::new(),
        nlink: 1,
    }
}

impl Fs {
    pub fn new() -> Fs {
        Fs {
            endless: vec![],
            endless_read: 0,
            inodes: vec![new_inode(Kind::Dir, ROOT, 0o755)],
            meta: Vec::new(),
            cwd: "/work".into(),
            audit: Vec::new(),
            used: 0,
            capacity: None,
        }
    }

    pub fn abs(&self, p: &str) -> String {
        if p.starts_with('/') { p.to_string() } else { format!("{}/{}", self.cwd, p) }
    }

    /// Resolve to (parent dir inode, last name, inode if it exists).
    /// Follows intermediate symlinks always and the last one if `follow`.
    pub fn lookup(&self, path: &str, follow: bool) -> Result<(Ino, String, Option<Ino>), i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let p = self.abs(path);
        self.walk(ROOT, &p, follow, 0)
    }

    pub fn walk(&self, start: Ino, path: &str, follow: bool, depth: u32) -> Result<(Ino, String, Option<Ino>), i32> {
        if depth > 20 {
            return Err(libc::ELOOP);
        }
        let mut cur = if path.starts_with('/') { ROOT } else { start };
        let comps: Vec<&str> = path.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        let must_dir = path.ends_with('/') || path.ends_with("/.");
        let mut last = (self.inodes[cur].parent, String::new(), Some(cur));
        let n = comps.len();
        for (i, c) in comps.iter().enumerate() {
            if self.inodes[cur].kind != Kind::Dir {
                return Err(libc::ENOTDIR);
            }
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            if *c == ".." {
                cur = self.inodes[cur].parent;
                last = (self.inodes[cur].parent, String::new(), Some(cur));
                continue;
            }
            let is_last = i + 1 == n;
            match self.inodes[cur].entries.get(*c) {
                None => {
                    if is_last {
                        return Ok((cur, c.to_string(), None));
                    }
                    return Err(libc::ENOENT);
                }
                Some(&ino) => {
                    if let Kind::Symlink(t) = &self.inodes[ino].kind {
                        if !is_last || follow || must_dir {
                            let (pd, nm, r) = self.walk(cur, t, true, depth + 1)?;
                            match r {
                                Some(x) => {
                                    last = (pd, nm, Some(x));
                                    cur = x;
                                    continue;
                                }
                                None => {
                                    if is_last {
                                        return Ok((pd, nm, None));
                                    }
                                    return Err(libc::ENOENT);
                                }
                            }
                        }
                    }
                    last = (cur, c.to_string(), Some(ino));
                    cur = ino;
                }
            }
        }
        if must_dir && self.inodes[cur].kind != Kind::Dir {
            return Err(libc::ENOTDIR);
        }
        Ok(last)
    }

    pub fn path_of(&self, ino: Ino) -> String {
        // linear search upwards; directories know their parent, files are found by scan
        if ino == ROOT {
            return "/".into();
        }
        for (i, n) in self.inodes.iter().enumerate() {
            if n.kind == Kind::Dir {
                for (name, &x) in &n.entries {
                    if x == ino {
                        let base = self.path_of(i);
                        return if base == "/" { format!("/{}", name) } else { format!("{}/{}", base, name) };
                    }
                }
            }
        }
        format!("<unlinked:{}>", ino)
    }

    pub fn join(&self, dir: Ino, name: &str) -> String {
        let base = self.path_of(dir);
        if base == "/" { format!("/{}", name) } else { format!("{}/{}", base, name) }
    }

    fn commit_meta(&mut self, op: MetaOp) {
        for (d, n, t) in &op {
            match t {
                Some(i) => {
                    self.inodes[*d].entries.insert(n.clone(), *i);
                }
                None => {
                    self.inodes[*d].entries.remove(n);
                }
            }
        }
        self.meta.push(op);
    }

    pub fn create(&mut self, dir: Ino, name: &str, mode: u32, now: i128) -> Ino {
        let ino = self.inodes.len();
        let mut n = new_inode(Kind::File, dir, mode);
        n.mtime = now;
        self.inodes.push(n);
        self.commit_meta(vec![(dir, name.to_string(), Some(ino))]);
        let p = self.join(dir, name);
        self.audit.push(Audit::Create(p));
        ino
    }

    pub fn symlink(&mut self, target: &str, dir: Ino, name: &str) -> Ino {
        let ino = self.inodes.len();
        self.inodes.push(new_inode(Kind::Symlink(target.to_string()), dir, 0o777));
        self.commit_meta(vec![(dir, name.to_string(), Some(ino))]);
        let p = self.join(dir, name);
        self.audit.push(Audit::Link(p));
        ino
    }

    pub fn mkdir(&mut self, dir: Ino, name: &str, mode: u32, now: i128) -> Ino {
        let ino = self.inodes.len();
        let mut n = new_inode(Kind::Dir, dir, mode);
        n.mtime = now;
        self.inodes.push(n);
        self.commit_meta(vec![(dir, name.to_string(), Some(ino))]);
        let p = self.join(dir, name);
        self.audit.push(Audit::Mkdir(p));
        ino
    }

    pub fn truncate(&mut self, ino: Ino, len: u64, now: i128) {
        let old = self.inodes[ino].data.len() as u64;
        if old == len {
            return;
        }
        let n = &mut self.inodes[ino];
        n.data.resize(len as usize, 0);
        n.mtime = now;
        n.pending.push(DOp::Trunc(len));
        self.used = self.used + len - old;
        let p = self.path_of(ino);
        self.audit.push(Audit::Trunc(p));
    }

    /// Write, honouring the capacity; returns bytes written or ENOSPC.
    pub fn write(&mut self, ino: Ino, off: u64, b: &[u8], now: i128) -> Result<usize, i32> {
        let old = self.inodes[ino].data.len() as u64;
        let mut n = b.len() as u64;
        if let Some(cap) = self.capacity {
            let end = off + n;
            if end > old {
                let grow = end - old;
                let free = cap.saturating_sub(self.used);
                if grow > free {
                    let overwr = old.saturating_sub(off).min(n);
                    n = overwr + free.min(n - overwr);
                    if off > old {
                        n = 0;
                    }
                    if n == 0 && !b.is_empty() {
                        return Err(libc::ENOSPC);
                    }
                }
            }
        }
        let end = off + n;
        let node = &mut self.inodes[ino];
        if end > old {
            node.data.resize(end as usize, 0);
            self.used += end - old;
        }
        node.data[off as usize..end as usize].copy_from_slice(&b[..n as usize]);
        node.mtime = now;
        node.pending.push(DOp::Write(off, b[..n as usize].to_vec()));
        Ok(n as usize)
    }

    pub fn fsync(&mut self, ino: Ino) {
        if self.inodes[ino].kind == Kind::Dir {
            // directory fsync: journal commit of everything so far
            self.sync_meta();
            return;
        }
        let n = &mut self.inodes[ino];
        n.durable = n.data.clone();
        n.pending.clear();
    }

    pub fn sync_meta(&mut self) {
        let ops = std::mem::take(&mut self.meta);
        for op in ops {
            self.apply_durable(&op);
        }
    }

    fn apply_durable(&mut self, op: &MetaOp) {
        for (d, n, t) in op {
            match t {
                Some(i) => {
                    self.inodes[*d].durable_entries.insert(n.clone(), *i);
                }
                None => {
                    self.inodes[*d].durable_entries.remove(n);
                }
            }
        }
    }

    /// Everything currently visible becomes durable (initial state of a run).
    pub fn sync_all(&mut self) {
        self.sync_meta();
        for i in 0..self.inodes.len() {
            let n = &mut self.inodes[i];
            n.durable = n.data.clone();
            n.pending.clear();
        }
    }

    /// Power loss: only durable state survives, plus an arbitrary part of what
    /// was in flight, chosen by `choose(n)` in 0..n.  0 everywhere means
    /// "nothing beyond what was synced".
    pub fn power_loss(&mut self, choose: &mut dyn FnMut(u64) -> u64) {
        let meta = std::mem::take(&mut self.meta);
        let keep = choose(meta.len() as u64 + 1) as usize;
        for op in &meta[..keep] {
            self.apply_durable(op);
        }
        for i in 0..self.inodes.len() {
            let pend = std::mem::take(&mut self.inodes[i].pending);
            if !pend.is_empty() {
                // a subset: prefix of ops, and possibly a torn last one
                let k = choose(pend.len() as u64 + 1) as usize;
                let skip = if k > 1 { choose(k as u64 + 1) as usize } else { 0 };
                let mut d = std::mem::take(&mut self.inodes[i].durable);
                for (j, op) in pend[..k].iter().enumerate() {
                    if skip > 0 && j == skip - 1 {
                        continue; // lost write in the middle (reordered write-back)
                    }
                    match op {
                        DOp::Trunc(l) => d.resize(*l as usize, 0),
                        DOp::Write(off, b) => {
                            let mut n = b.len();
                            if j + 1 == k && n > 512 {
                                let t = choose(4) as usize;
                                if t > 0 {
                                    n = (n * t / 4) / 512 * 512;
                                }
                            }
                            let end = *off as usize + n;
                            if d.len() < end {
                                d.resize(end, 0);
                            }
                            d[*off as usize..end].copy_from_slice(&b[..n]);
                        }
                    }
                }
                self.inodes[i].durable = d;
            }
            let n = &mut self.inodes[i];
            n.data = n.durable.clone();
            n.entries = n.durable_entries.clone();
        }
        self.recount();
    }
    /// Link counts, parents and the space used, from the directory tree.
    pub fn recount(&mut self) {
        for n in &mut self.inodes {
            n.nlink = 0;
        }
        for d in 0..self.inodes.len() {
            for i in self.inodes[d].entries.values().copied().collect::<Vec<_>>() {
                self.inodes[i].nlink += 1;
                if self.inodes[i].kind == Kind::Dir {
                    self.inodes[i].parent = d;
                }
            }
        }
        self.used = self.inodes.iter().filter(|n| n.kind == Kind::File && n.nlink > 0).map(|n| n.data.len() as u64).sum();
    }

    // ---- god-mode helpers ------------------------------------------------
    pub fn mkdir_p(&mut self, path: &str) -> Ino {
        let p = self.abs(path);
        let mut cur = ROOT;
        for c in p.split('/').filter(|c| !c.is_empty()) {
            cur = match self.inodes[cur].entries.get(c) {
                Some(&i) => i,
                None => self.mkdir(cur, c, 0o755, 0),
            };
        }
        cur
    }
    pub fn put(&mut self, path: &str, data: &[u8]) -> Ino {
        let p = self.abs(path);
        let (dir, name) = p.rsplit_once('/').unwrap();
        let d = self.mkdir_p(if dir.is_empty() { "/" } else { dir });
        let ino = match self.inodes[d].entries.get(name) {
            Some(&i) => i,
            None => self.create(d, name, 0o644, 0),
        };
        self.used = self.used + data.len() as u64 - self.inodes[ino].data.len() as u64;
        let n = &mut self.inodes[ino];
        n.data = data.to_vec();
        n.pending.push(DOp::Trunc(0));
        n.pending.push(DOp::Write(0, data.to_vec()));
        ino
    }
    pub fn get(&self, path: &str) -> Option<&[u8]> {
        match self.lookup(path, true) {
            Ok((_, _, Some(i))) if self.inodes[i].kind == Kind::File => Some(&self.inodes[i].data),
            _ => None,
        }
    }
    pub fn exists(&self, path: &str) -> bool {
        matches!(self.lookup(path, false), Ok((_, _, Some(_))))
    }
    pub fn remove(&mut self, path: &str) {
        if let Ok((d, n, Some(_))) = self.lookup(path, false) {
            self.commit_meta(vec![(d, n, None)]);
            self.recount();
        }
    }
    pub fn rename_ino(&mut self, sd: Ino, sn: &str, dd: Ino, dn: &str, ino: Ino) {
        let a = self.join(sd, sn);
        let b = self.join(dd, dn);
        if let Some(&old) = self.inodes[dd].entries.get(dn) {
            if old != ino && self.inodes[old].kind == Kind::File {
                self.inodes[old].nlink -= 1;
                if self.inodes[old].nlink == 0 {
                    self.used -= self.inodes[old].data.len() as u64;
                }
            }
        }
        if self.inodes[ino].kind == Kind::Dir {
            self.inodes[ino].parent = dd;
        }
        self.commit_meta(vec![(sd, sn.to_string(), None), (dd, dn.to_string(), Some(ino))]);
        self.audit.push(Audit::Rename(a, b));
    }
    pub fn unlink_at(&mut self, d: Ino, name: &str, dir: bool) {
        let p = self.join(d, name);
        if let Some(&i) = self.inodes[d].entries.get(name) {
            if self.inodes[i].kind == Kind::File {
                self.inodes[i].nlink -= 1;
                if self.inodes[i].nlink == 0 {
                    self.used -= self.inodes[i].data.len() as u64;
                }
            }
        }
        self.commit_meta(vec![(d, name.to_string(), None)]);
        self.audit.push(if dir { Audit::Rmdir(p) } else { Audit::Unlink(p) });
    }
    /// All paths (files with contents, dirs with None).
    pub fn tree(&self) -> BTreeMap<String, Option<Vec<u8>>> {
        let mut out = BTreeMap::new();
        self.tree_rec(ROOT, "", &mut out);
        out
    }
    fn tree_rec(&self, d: Ino, base: &str, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for (n, &i) in &self.inodes[d].entries {
            let p = format!("{}/{}", base, n);
            match &self.inodes[i].kind {
                Kind::File => {
                    out.insert(p, Some(self.inodes[i].data.clone()));
                }
                Kind::Dir => {
                    out.insert(p.clone(), None);
                    self.tree_rec(i, &p, out);
                }
                Kind::Symlink(t) => {
                    out.insert(p, Some(format!("-> {}", t).into_bytes()));
                }
            }
        }
    }
}
