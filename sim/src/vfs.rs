//! The simulated file system: POSIX-like name space with a volatile view and a
//! durable view (what survives a power loss).
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Ino = usize;
pub type Data = Arc<Vec<u8>>;

#[derive(Clone, Debug)]
pub enum Node {
    File { data: Data, durable: Data, mode: u32 },
    Dir { entries: BTreeMap<String, Ino>, mode: u32 },
    Link { target: String },
}

#[derive(Clone, Debug)]
pub struct MetaOp {
    pub dir: Ino,
    pub name: String,
    pub ino: Option<Ino>,
}

#[derive(Clone, Debug)]
pub struct Vfs {
    pub nodes: Vec<Node>,
    pub nlink: Vec<u32>,
    pub mtime: Vec<i64>,
    /// Name-space changes since the last checkpoint, in order.
    pub meta: Vec<(u64, Vec<MetaOp>)>,
    /// Prefix of `meta` that is known to be on disk.
    pub meta_synced: usize,
    /// Directory contents at the last checkpoint.
    pub base: BTreeMap<Ino, BTreeMap<String, Ino>>,
    pub seq: u64,
    /// Remaining free bytes, if the disk is limited.
    pub free: Option<i64>,
    /// The working directory of the process whose call is being answered.
    pub cwd: String,
    /// The file system's clock, in nanoseconds.
    pub now: i64,
}

pub const CWD: &str = "/w";
pub type R<T> = Result<T, i32>;

pub struct Resolved {
    pub parent: Ino,
    pub name: String,
    pub ino: Option<Ino>,
    /// Canonical absolute path of parent + name.
    pub path: String,
    pub trailing_slash: bool,
}

impl Default for Vfs {
    fn default() -> Self {
        Self::new()
    }
}

impl Vfs {
    pub fn new() -> Self {
        let mut v = Vfs {
            nodes: vec![],
            nlink: vec![],
            mtime: vec![],
            meta: vec![],
            meta_synced: 0,
            base: BTreeMap::new(),
            seq: 0,
            free: None,
            cwd: CWD.to_string(),
            now: 1_700_000_000_000_000_000,
        };
        v.alloc(Node::Dir { entries: BTreeMap::new(), mode: 0o755 });
        v.mkdir_p(CWD);
        v.mkdir_p("/home/sim");
        v.mkdir_p("/tmp");
        v.checkpoint();
        v
    }
    fn alloc(&mut self, n: Node) -> Ino {
        self.nodes.push(n);
        self.nlink.push(1);
        self.mtime.push(0);
        self.nodes.len() - 1
    }
    pub fn checkpoint(&mut self) {
        self.meta.clear();
        self.meta_synced = 0;
        self.base.clear();
        for (i, n) in self.nodes.iter_mut().enumerate() {
            match n {
                Node::Dir { entries, .. } => {
                    self.base.insert(i, entries.clone());
                }
                Node::File { data, durable, .. } => *durable = data.clone(),
                _ => {}
            }
        }
    }
    pub fn mkdir_p(&mut self, p: &str) {
        let mut cur = 0;
        for c in p.split('/').filter(|c| !c.is_empty()) {
            let next = match &self.nodes[cur] {
                Node::Dir { entries, .. } => entries.get(c).copied(),
                _ => panic!("not a dir"),
            };
            cur = match next {
                Some(i) => i,
                None => {
                    let i = self.alloc(Node::Dir { entries: BTreeMap::new(), mode: 0o755 });
                    if let Node::Dir { entries, .. } = &mut self.nodes[cur] {
                        entries.insert(c.to_string(), i);
                    }
                    i
                }
            };
        }
    }
    pub fn is_dir(&self, i: Ino) -> bool {
        matches!(self.nodes[i], Node::Dir { .. })
    }
    fn lookup(&self, dir: Ino, name: &str) -> R<Option<Ino>> {
        match &self.nodes[dir] {
            Node::Dir { entries, mode } => {
                if mode & 0o100 == 0 {
                    return Err(libc::EACCES);
                }
                Ok(entries.get(name).copied())
            }
            _ => Err(libc::ENOTDIR),
        }
    }
    /// Resolve a path; `follow` says whether a final symlink is followed.
    pub fn resolve(&self, path: &str, follow: bool) -> R<Resolved> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.as_bytes().contains(&0) {
            return Err(libc::EINVAL);
        }
        let full = if path.starts_with('/') { path.to_string() } else { format!("{}/{path}", self.cwd) };
        let mut todo: Vec<String> =
            full.split('/').filter(|c| !c.is_empty() && *c != ".").rev().map(String::from).collect();
        let trailing_slash = path.ends_with('/') || path.ends_with("/.");
        let mut stack: Vec<(Ino, String)> = vec![(0, String::new())];
        let mut links = 0;
        while let Some(c) = todo.pop() {
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let cur = stack.last().unwrap().0;
            if c == ".." {
                if !self.is_dir(cur) {
                    return Err(libc::ENOTDIR);
                }
                if stack.len() > 1 {
                    stack.pop();
                }
                continue;
            }
            let last = todo.is_empty();
            let found = self.lookup(cur, &c)?;
            match found {
                Some(i) => {
                    if let Node::Link { target } = &self.nodes[i] {
                        if !last || follow || trailing_slash {
                            links += 1;
                            if links > 40 {
                                return Err(libc::ELOOP);
                            }
                            if target.starts_with('/') {
                                stack.truncate(1);
                            }
                            for t in target.split('/').filter(|c| !c.is_empty() && *c != ".").rev() {
                                todo.push(t.to_string());
                            }
                            continue;
                        }
                    }
                    if last {
                        let p = Self::join(&stack, &c);
                        return Ok(Resolved { parent: cur, name: c, ino: Some(i), path: p, trailing_slash });
                    }
                    if !self.is_dir(i) {
                        return Err(libc::ENOTDIR);
                    }
                    stack.push((i, c));
                }
                None => {
                    if last {
                        let p = Self::join(&stack, &c);
                        return Ok(Resolved { parent: cur, name: c, ino: None, path: p, trailing_slash });
                    }
                    return Err(libc::ENOENT);
                }
            }
        }
        // The path named a directory by "/" or "..".
        let (i, n) = stack.pop().unwrap();
        let parent = stack.last().map(|x| x.0).unwrap_or(0);
        let p = if stack.is_empty() { "/".to_string() } else { Self::join(&stack, &n) };
        Ok(Resolved { parent, name: n, ino: Some(i), path: p, trailing_slash })
    }
    fn join(stack: &[(Ino, String)], c: &str) -> String {
        let mut s = String::new();
        for (_, n) in &stack[1..] {
            s.push('/');
            s.push_str(n);
        }
        s.push('/');
        s.push_str(c);
        s
    }
    /// Content at a path as seen now (follows symlinks). None: missing or not a file.
    pub fn content(&self, path: &str) -> Option<Data> {
        let r = self.resolve(path, true).ok()?;
        match &self.nodes[r.ino?] {
            Node::File { data, .. } => Some(data.clone()),
            _ => None,
        }
    }
    pub fn set_names(&mut self, ops: Vec<MetaOp>) {
        for op in &ops {
            if let Node::Dir { entries, .. } = &mut self.nodes[op.dir] {
                match op.ino {
                    Some(i) => {
                        entries.insert(op.name.clone(), i);
                    }
                    None => {
                        entries.remove(&op.name);
                    }
                }
            }
        }
        self.seq += 1;
        self.meta.push((self.seq, ops));
    }
    fn dir_writable(&self, d: Ino) -> R<()> {
        match &self.nodes[d] {
            Node::Dir { mode, .. } => {
                if mode & 0o200 == 0 {
                    Err(libc::EACCES)
                } else {
                    Ok(())
                }
            }
            _ => Err(libc::ENOTDIR),
        }
    }
    pub fn create(&mut self, r: &Resolved, mode: u32) -> R<Ino> {
        if r.trailing_slash {
            return Err(libc::EISDIR);
        }
        self.dir_writable(r.parent)?;
        let e: Data = Arc::new(vec![]);
        let i = self.alloc(Node::File { data: e.clone(), durable: e, mode: mode & 0o7777 });
        self.set_names(vec![MetaOp { dir: r.parent, name: r.name.clone(), ino: Some(i) }]);
        Ok(i)
    }
    pub fn set_data(&mut self, i: Ino, d: Vec<u8>) {
        self.seq += 1;
        self.now += 1000;
        self.mtime[i] = self.now;
        if let Node::File { data, .. } = &mut self.nodes[i] {
            *data = Arc::new(d);
        }
    }
    pub fn fsync(&mut self, i: Ino) {
        match &mut self.nodes[i] {
            Node::File { data, durable, .. } => *durable = data.clone(),
            Node::Dir { .. } => self.meta_synced = self.meta.len(),
            _ => {}
        }
    }
    pub fn sync_all(&mut self) {
        for i in 0..self.nodes.len() {
            self.fsync(i);
        }
        self.meta_synced = self.meta.len();
    }
    /// /tmp is a file system of its own.
    pub fn device(path: &str) -> i64 {
        (path == "/tmp" || path.starts_with("/tmp/")) as i64
    }
    pub fn rename(&mut self, a: &str, b: &str, flags: u32) -> R<(String, String)> {
        let ra = self.resolve(a, false)?;
        let rb = self.resolve(b, false)?;
        let ia = ra.ino.ok_or(libc::ENOENT)?;
        if Self::device(&ra.path) != Self::device(&rb.path) {
            return Err(libc::EXDEV);
        }
        self.dir_writable(ra.parent)?;
        self.dir_writable(rb.parent)?;
        if flags & 2 != 0 {
            // RENAME_EXCHANGE
            let ib = rb.ino.ok_or(libc::ENOENT)?;
            self.set_names(vec![
                MetaOp { dir: ra.parent, name: ra.name.clone(), ino: Some(ib) },
                MetaOp { dir: rb.parent, name: rb.name.clone(), ino: Some(ia) },
            ]);
            return Ok((ra.path, rb.path));
        }
        if let Some(ib) = rb.ino {
            if flags & 1 != 0 {
                return Err(libc::EEXIST);
            }
            if ib == ia {
                return Ok((ra.path, rb.path));
            }
            match (self.is_dir(ia), self.is_dir(ib)) {
                (true, false) => return Err(libc::ENOTDIR),
                (false, true) => return Err(libc::EISDIR),
                (true, true) => {
                    if let Node::Dir { entries, .. } = &self.nodes[ib] {
                        if !entries.is_empty() {
                            return Err(libc::ENOTEMPTY);
                        }
                    }
                }
                _ => {}
            }
            self.nlink[ib] = self.nlink[ib].saturating_sub(1);
        }
        if (ra.trailing_slash || rb.trailing_slash) && !self.is_dir(ia) {
            return Err(libc::ENOTDIR);
        }
        self.set_names(vec![
            MetaOp { dir: ra.parent, name: ra.name.clone(), ino: None },
            MetaOp { dir: rb.parent, name: rb.name.clone(), ino: Some(ia) },
        ]);
        Ok((ra.path, rb.path))
    }
    pub fn link(&mut self, a: &str, b: &str, follow: bool) -> R<(String, String)> {
        let ra = self.resolve(a, follow)?;
        let ia = ra.ino.ok_or(libc::ENOENT)?;
        let rb = self.resolve(b, false)?;
        if rb.ino.is_some() {
            return Err(libc::EEXIST);
        }
        if self.is_dir(ia) {
            return Err(libc::EPERM);
        }
        if Self::device(&ra.path) != Self::device(&rb.path) {
            return Err(libc::EXDEV);
        }
        self.dir_writable(rb.parent)?;
        if rb.trailing_slash {
            return Err(libc::ENOENT);
        }
        self.nlink[ia] += 1;
        self.set_names(vec![MetaOp { dir: rb.parent, name: rb.name.clone(), ino: Some(ia) }]);
        Ok((ra.path, rb.path))
    }
    pub fn symlink(&mut self, target: &str, b: &str) -> R<String> {
        let rb = self.resolve(b, false)?;
        if rb.ino.is_some() {
            return Err(libc::EEXIST);
        }
        self.dir_writable(rb.parent)?;
        let i = self.alloc(Node::Link { target: target.to_string() });
        self.set_names(vec![MetaOp { dir: rb.parent, name: rb.name.clone(), ino: Some(i) }]);
        Ok(rb.path)
    }
    pub fn unlink(&mut self, a: &str) -> R<String> {
        let ra = self.resolve(a, false)?;
        let ia = ra.ino.ok_or(libc::ENOENT)?;
        if self.is_dir(ia) {
            return Err(libc::EISDIR);
        }
        if ra.trailing_slash {
            return Err(libc::ENOTDIR);
        }
        self.dir_writable(ra.parent)?;
        self.nlink[ia] = self.nlink[ia].saturating_sub(1);
        self.set_names(vec![MetaOp { dir: ra.parent, name: ra.name.clone(), ino: None }]);
        Ok(ra.path)
    }
    pub fn rmdir(&mut self, a: &str) -> R<String> {
        let ra = self.resolve(a, false)?;
        let ia = ra.ino.ok_or(libc::ENOENT)?;
        match &self.nodes[ia] {
            Node::Dir { entries, .. } => {
                if !entries.is_empty() {
                    return Err(libc::ENOTEMPTY);
                }
            }
            _ => return Err(libc::ENOTDIR),
        }
        self.dir_writable(ra.parent)?;
        self.set_names(vec![MetaOp { dir: ra.parent, name: ra.name.clone(), ino: None }]);
        Ok(ra.path)
    }
    pub fn mkdir(&mut self, a: &str, mode: u32) -> R<String> {
        let ra = self.resolve(a, false)?;
        if ra.ino.is_some() {
            return Err(libc::EEXIST);
        }
        self.dir_writable(ra.parent)?;
        let i = self.alloc(Node::Dir { entries: BTreeMap::new(), mode: mode & 0o7777 });
        self.set_names(vec![MetaOp { dir: ra.parent, name: ra.name.clone(), ino: Some(i) }]);
        Ok(ra.path)
    }
    /// Everything in the tree: path -> description (content for files).
    pub fn list(&self) -> BTreeMap<String, Entry> {
        let mut out = BTreeMap::new();
        self.walk(0, "", &mut out);
        out
    }
    fn walk(&self, d: Ino, prefix: &str, out: &mut BTreeMap<String, Entry>) {
        if let Node::Dir { entries, .. } = &self.nodes[d] {
            for (n, &i) in entries {
                let p = format!("{prefix}/{n}");
                match &self.nodes[i] {
                    Node::File { data, .. } => {
                        out.insert(p, Entry::File(data.clone()));
                    }
                    Node::Link { target } => {
                        out.insert(p, Entry::Link(target.clone()));
                    }
                    Node::Dir { .. } => {
                        out.insert(p.clone(), Entry::Dir);
                        self.walk(i, &p, out);
                    }
                }
            }
        }
    }
    // ---- power loss ----------------------------------------------------------
    /// Inode bound to (dir, name) if only the first `k` name-space changes survive.
    pub fn binding_at(&self, dir: Ino, name: &str, k: usize) -> Option<Ino> {
        for (_, ops) in self.meta[..k].iter().rev() {
            for op in ops.iter().rev() {
                if op.dir == dir && op.name == name {
                    return op.ino;
                }
            }
        }
        self.base.get(&dir).and_then(|e| e.get(name).copied())
    }
    /// All contents inode `i` may have after a power loss now.
    pub fn loss_contents(&self, i: Ino) -> Vec<(Data, &'static str)> {
        match &self.nodes[i] {
            Node::File { data, durable, .. } => {
                let mut v = vec![(data.clone(), "all data written back")];
                if data != durable {
                    v.push((durable.clone(), "no unsynced data written back"));
                    if data.len() > 1 {
                        v.push((Arc::new(data[..data.len() / 2].to_vec()), "half of the data written back"));
                        let mut z = data[..data.len() / 2].to_vec();
                        z.resize(data.len(), 0);
                        v.push((Arc::new(z), "second half zero-filled"));
                    }
                }
                v
            }
            _ => vec![],
        }
    }
    /// Apply a power loss: keep a prefix of the name-space changes; `data` picks
    /// the fate of each inode's unsynced data.
    pub fn power_loss(&mut self, keep: usize, data_choice: u64) {
        let k = keep.clamp(self.meta_synced, self.meta.len());
        let mut dirs = self.base.clone();
        for (_, ops) in &self.meta[..k] {
            for op in ops {
                let e = dirs.entry(op.dir).or_default();
                match op.ino {
                    Some(i) => {
                        e.insert(op.name.clone(), i);
                    }
                    None => {
                        e.remove(&op.name);
                    }
                }
            }
        }
        for (i, e) in dirs {
            if let Node::Dir { entries, .. } = &mut self.nodes[i] {
                *entries = e;
            }
        }
        for i in 0..self.nodes.len() {
            let c = self.loss_contents(i);
            if c.len() > 1 {
                let pick = (crate::rng::mix(data_choice ^ (i as u64) << 7) % c.len() as u64) as usize;
                let d = c[pick].0.clone();
                if let Node::File { data, .. } = &mut self.nodes[i] {
                    *data = d;
                }
            }
        }
        self.checkpoint();
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Entry {
    File(Data),
    Link(String),
    Dir,
}
