//! Helpers shared by the property checks: commands, reference runs, faults.
use crate::case::*;
use crate::kernel::*;
use crate::rng::Rng;
use crate::vfs::*;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

#[derive(Default, Debug)]
pub struct Verdict {
    pub violations: Vec<Violation>,
    /// The case exercised what the property is about.
    pub nontrivial: bool,
    /// Hash of everything observable (event logs of all its sessions).
    pub hash: u64,
}
impl Verdict {
    pub fn bad(&mut self, class: &str, detail: String) {
        if !self.violations.iter().any(|v| v.class == class) {
            self.violations.push(Violation { class: class.into(), detail });
        }
    }
}

pub struct Ctx {
    pub k: Kernel,
    /// Accumulated hash of the sessions run for the current case.
    pub hash: u64,
    /// Sessions' traces, if wanted.
    pub keep_trace: bool,
    pub traces: Vec<String>,
}

/// A parsed bulloak command line.
#[derive(Clone, Debug, Default)]
pub struct Cmd {
    pub check: bool,
    pub write: bool,
    pub force: bool,
    pub fix: bool,
    pub stdout: bool,
    pub skip_mods: bool,
    pub trees: Vec<String>,
}
pub fn parse_cmd(args: &[String]) -> Cmd {
    let mut c = Cmd::default();
    let mut it = args.iter();
    match it.next().map(|s| s.as_str()) {
        Some("check") => c.check = true,
        _ => {}
    }
    let mut takes = false;
    for a in it {
        if takes {
            takes = false;
            continue;
        }
        if let Some(l) = a.strip_prefix("--") {
            match l {
                "write-files" => c.write = true,
                "force-write" => c.force = true,
                "fix" => c.fix = true,
                "stdout" => c.stdout = true,
                "skip-modifiers" => c.skip_mods = true,
                "solidity-version" => takes = true,
                _ => {}
            }
        } else if a.starts_with('-') && a.len() > 1 {
            for ch in a[1..].chars() {
                match ch {
                    'w' => c.write = true,
                    'f' => c.force = true,
                    'm' => c.skip_mods = true,
                    's' => takes = true,
                    _ => {}
                }
            }
        } else {
            c.trees.push(a.clone());
        }
    }
    c
}
impl Cmd {
    pub fn writes(&self) -> bool {
        (!self.check && self.write) || (self.check && self.fix && !self.stdout)
    }
}
/// The Solidity file that belongs to a tree, by the documented naming rule.
pub fn sol_path(tree: &str) -> String {
    Path::new(tree).with_extension("t.sol").to_string_lossy().into_owned()
}
pub fn abs(p: &str) -> String {
    if p.starts_with('/') {
        p.to_string()
    } else {
        format!("{CWD}/{}", p.trim_start_matches("./"))
    }
}
/// The same command line for other trees.
pub fn with_trees(args: &[String], trees: &[String]) -> Vec<String> {
    let c = parse_cmd(args);
    let mut v: Vec<String> = args.iter().filter(|a| !c.trees.contains(a)).cloned().collect();
    v.extend(trees.iter().cloned());
    v
}
pub fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}
/// "N issue(s) fixed" on standard output.
pub fn fixed_count(out: &str) -> Option<usize> {
    let t = strip_ansi(out);
    for l in t.lines().rev() {
        let w: Vec<&str> = l.split_whitespace().collect();
        for i in 0..w.len() {
            if w[i].starts_with("issue") && w.get(i + 1).is_some_and(|x| x.starts_with("fixed")) && i > 0 {
                return w[i - 1].parse().ok();
            }
        }
    }
    None
}
/// "to apply N fix(es)" on standard error of `check`.
pub fn fixable_count(err: &str) -> usize {
    let t = strip_ansi(err);
    for l in t.lines().rev() {
        let w: Vec<&str> = l.split_whitespace().collect();
        for i in 0..w.len() {
            if w[i] == "apply" && w.get(i + 2).is_some_and(|x| x.starts_with("fix")) {
                return w[i + 1].parse().unwrap_or(0);
            }
        }
    }
    0
}
/// Diagnostic lines without the closing summary.
pub fn diag_lines(err: &str) -> Vec<String> {
    strip_ansi(err)
        .lines()
        .map(|l| l.trim_end().to_string())
        .filter(|l| !l.is_empty())
        .filter(|l| {
            !(l.contains("Could not scaffold")
                || l.contains("check failed")
                || l.contains("checks failed")
                || l.contains("issue fixed")
                || l.contains("issues fixed"))
        })
        .collect()
}
/// Does the text name this tree or its Solidity file?
pub fn names(text: &str, tree: &str) -> bool {
    let t = strip_ansi(text);
    t.contains(tree) || t.contains(&sol_path(tree))
}

pub struct Reference {
    pub out: ProcOut,
    pub vfs: Vfs,
    pub ops: Vec<OpRec>,
}

impl Ctx {
    pub fn note(&mut self, s: &Session) {
        self.hash = crate::rng::mix(self.hash ^ s.log_hash);
        if self.keep_trace {
            let t = std::mem::take(&mut self.k.last_trace);
            self.traces.push(format!("--- session: {}", s.procs.len()));
            self.traces.extend(t);
            for (i, p) in s.procs.iter().enumerate() {
                self.traces.push(format!("     p{i} ended: {:?}", p.exit));
                for (n, b) in [("stdout", &p.out), ("stderr", &p.err)] {
                    if !b.is_empty() {
                        self.traces.push(format!("     p{i} {n}: {:?}", strip_ansi(&String::from_utf8_lossy(b))));
                    }
                }
            }
        }
    }
    /// A fault-free run on a copy of the world.
    pub fn reference(&mut self, vfs: &Vfs, args: &[String]) -> Reference {
        let mut v = vfs.clone();
        let t = self.k.trace;
        self.k.trace = false;
        let s = self.k.session(&mut v, &[RunSpec::of(args.to_vec())], &[], &[], &Observe::default());
        self.k.trace = t;
        self.hash = crate::rng::mix(self.hash ^ s.log_hash);
        let Session { mut procs, ops, .. } = s;
        Reference { out: procs.remove(0), vfs: v, ops }
    }
    pub fn run(&mut self, vfs: &mut Vfs, spec: &RunSpec) -> Session {
        let s = self.k.run1(vfs, spec);
        self.note(&s);
        s
    }
    pub fn run_obs(
        &mut self,
        vfs: &mut Vfs,
        runs: &[RunSpec],
        actors: &[Vec<Change>],
        schedule: &[u8],
        obs: &Observe,
    ) -> Session {
        let s = self.k.session(vfs, runs, actors, schedule, obs);
        self.note(&s);
        s
    }
    /// What `scaffold` prints for this tree text (None: it rejects it).
    pub fn scaffold_text(&mut self, tree: &[u8], flags: &[&str]) -> Option<String> {
        let mut v = Vfs::new();
        apply_all(&mut v, &Change::Replace { path: "t.tree".into(), content: Content::from_bytes(tree) });
        let mut args = vec!["scaffold".to_string()];
        args.extend(flags.iter().map(|s| s.to_string()));
        args.push("t.tree".into());
        let r = self.reference(&v, &args);
        if r.out.ok() {
            Some(r.out.stdout())
        } else {
            None
        }
    }
}

// ---- faults --------------------------------------------------------------------
pub fn errnos(c: Class) -> &'static [i32] {
    use libc::*;
    match c {
        Class::Open => &[EACCES, EIO, EMFILE, ENFILE, ENOSPC, EROFS, EINTR, ENOMEM, EDQUOT],
        Class::Read => &[EIO, EINTR, ESTALE],
        Class::Write => &[EIO, ENOSPC, EDQUOT, EINTR, EFBIG],
        Class::Stat => &[EACCES, EIO, ENOMEM, ESTALE],
        Class::Fsync => &[EIO, ENOSPC, EDQUOT],
        Class::Rename => &[EIO, EACCES, ENOSPC, EROFS, EBUSY, EDQUOT],
        Class::Link => &[EIO, EACCES, ENOSPC, EROFS, EDQUOT],
        Class::Unlink => &[EIO, EACCES, EBUSY, EROFS],
        Class::Chmod => &[EIO, EPERM, EROFS],
        Class::Truncate => &[EIO, EROFS],
        Class::Readlink | Class::Cwd => &[EACCES, EIO],
        Class::Mkdir => &[EACCES, ENOSPC, EROFS],
        Class::Readdir => &[EIO],
        Class::Close => &[EIO],
        Class::Seek => &[EIO],
        _ => &[EIO],
    }
}

#[derive(Clone, Copy, Default)]
pub struct FaultMix {
    pub errors: bool,
    pub kills: bool,
    pub shorts: bool,
    /// Only faults on the trees and Solidity files, selected by path.
    pub by_path: bool,
    /// Also EPERM/EOPNOTSUPP for hard links (file systems without them).
    pub no_links: bool,
}

/// Draw one fault that will hit a call the reference run makes.
pub fn draw_fault(r: &mut Rng, ops: &[OpRec], mix: FaultMix) -> Option<Fault> {
    let cand: Vec<&OpRec> = ops
        .iter()
        .filter(|o| {
            !o.path.starts_with('<')
                && !matches!(o.class, Class::Clock | Class::Other | Class::Close | Class::Seek)
                && o.name != "actor"
        })
        .collect();
    if cand.is_empty() {
        return None;
    }
    // Bias towards calls that create in-flight state.
    let hot: Vec<&OpRec> = cand
        .iter()
        .copied()
        .filter(|o| o.mutates || matches!(o.class, Class::Fsync | Class::Rename | Class::Link | Class::Unlink | Class::Write))
        .collect();
    let o = if !hot.is_empty() && r.chance(3, 5) { *r.pick(&hot) } else { *r.pick(&cand) };
    let mut kinds = vec![];
    if mix.errors {
        kinds.extend([0, 0, 0, 1]);
        if o.class == Class::Write {
            kinds.extend([3, 3]);
        }
    }
    if mix.kills {
        kinds.extend([4, 5]);
        if o.class == Class::Write {
            kinds.extend([6, 6, 6]);
        }
    }
    if mix.shorts && matches!(o.class, Class::Write | Class::Read) {
        kinds.extend([2]);
    }
    if kinds.is_empty() {
        return None;
    }
    let kind = match *r.pick(&kinds) {
        0 => FaultKind::Errno(pick_errno(r, o, mix)),
        1 => {
            let mut e = pick_errno(r, o, mix);
            if e == libc::EINTR {
                e = libc::EIO;
            }
            FaultKind::Sticky(e)
        }
        2 => FaultKind::Short(r.range(1, 64)),
        3 => FaultKind::Torn(r.below((o.ret.max(1) as usize) + 1), *r.pick(&[libc::ENOSPC, libc::EIO])),
        4 => FaultKind::KillBefore,
        5 => FaultKind::KillAfter,
        _ => FaultKind::KillTorn(r.below((o.ret.max(1) as usize) + 1)),
    };
    // Count among calls of the same class (and path, if by path).
    if mix.by_path || r.chance(1, 3) {
        let key = key_of(&o.path);
        if mix.by_path && !(key.ends_with(".tree") || key.ends_with(".t.sol")) {
            return None;
        }
        let m = |x: &&&OpRec| x.class == o.class && (key_of(&x.path) == key || key_of(&x.path2) == key) && x.seq < o.seq;
        let nth = cand.iter().filter(m).count() as u32;
        Some(Fault { class: o.class, nth, path: Some(key), kind })
    } else {
        let all: Vec<&OpRec> = ops.iter().filter(|x| x.class == o.class && !x.path.starts_with('<') && x.seq < o.seq).collect();
        Some(Fault { class: o.class, nth: all.len() as u32, path: None, kind })
    }
}
fn pick_errno(r: &mut Rng, o: &OpRec, mix: FaultMix) -> i32 {
    if o.class == Class::Link && mix.no_links && r.chance(1, 2) {
        return *r.pick(&[libc::EPERM, libc::EOPNOTSUPP]);
    }
    *r.pick(errnos(o.class))
}
/// The last path component(s) a fault is keyed by.
fn key_of(p: &str) -> String {
    p.strip_prefix("/w/").unwrap_or(p).trim_start_matches("./").to_string()
}

pub fn draw_io(r: &mut Rng) -> Io {
    Io {
        read_max: *r.pick(&[0, 1, 3, 7, 16, 64, 512]),
        write_max: *r.pick(&[0, 1, 5, 13, 64, 500]),
        eintr_every: *r.pick(&[0, 0, 2, 3, 5]),
        jitter: if r.chance(1, 2) { r.next() | 1 } else { 0 },
    }
}

pub fn contents(v: &Vfs, paths: &[String]) -> BTreeMap<String, Option<Data>> {
    paths.iter().map(|p| (p.clone(), v.content(p))).collect()
}
pub fn show(d: &Option<Data>) -> String {
    match d {
        None => "<absent>".into(),
        Some(d) => {
            let s = String::from_utf8_lossy(d);
            if s.len() > 400 {
                let mut e = 300;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                format!("{:?}... ({} bytes)", &s[..e], s.len())
            } else {
                format!("{s:?}")
            }
        }
    }
}
pub fn dedup(v: &[String]) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    for x in v {
        if !o.contains(x) {
            o.push(x.clone());
        }
    }
    o
}
