//! The simulator proper: owns the fork server of the real binary, answers every
//! system call from the virtual world, decides every interleaving and fault.
use crate::case::*;
use crate::rng::{hash_bytes, mix};
use crate::vfs::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::sync::Arc;

const VBASE: i64 = 0x4000_0000;
const REQ_HDR: usize = 48;
const RSP_HDR: usize = 64;
/// Calls after which a run counts as never ending.
pub const MAX_OPS: usize = 60_000;
/// The same when reads and writes are cut into small pieces.
pub const MAX_OPS_CHUNKED: usize = 600_000;

pub struct Server {
    child: libc::pid_t,
    ctl: OwnedFd,
    buf: Vec<u8>,
}

fn seqpacket() -> io::Result<(OwnedFd, OwnedFd)> {
    let mut sv = [0; 2];
    let r = unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, sv.as_mut_ptr()) };
    if r != 0 {
        return Err(io::Error::last_os_error());
    }
    unsafe { Ok((OwnedFd::from_raw_fd(sv[0]), OwnedFd::from_raw_fd(sv[1]))) }
}

impl Server {
    pub fn start(bin: &str, shim: &str) -> io::Result<Server> {
        use std::os::unix::process::CommandExt;
        let (a, b) = seqpacket()?;
        let bfd = b.as_raw_fd();
        let mut cmd = std::process::Command::new(bin);
        cmd.env_clear()
            .env("LD_PRELOAD", shim)
            .env("SIM_CTL_FD", "198")
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", "/home/sim")
            .env("LANG", "C.UTF-8")
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .current_dir("/");
        unsafe {
            cmd.pre_exec(move || {
                libc::personality(0x0040000);
                if libc::dup2(bfd, 198) < 0 {
                    return Err(io::Error::last_os_error());
                }
                let rl = libc::rlimit { rlim_cur: 8 << 20, rlim_max: 8 << 20 };
                libc::setrlimit(libc::RLIMIT_STACK, &rl);
                let nf = libc::rlimit { rlim_cur: 1024, rlim_max: 1024 };
                libc::setrlimit(libc::RLIMIT_NOFILE, &nf);
                Ok(())
            });
        }
        let child = cmd.spawn()?;
        let pid = child.id() as libc::pid_t;
        std::mem::forget(child);
        Ok(Server { child: pid, ctl: a, buf: vec![0; 70_000] })
    }
    fn fork(&mut self, argv: &[String], env: &[(String, String)], seed: u64, pid: u32) -> io::Result<(libc::pid_t, OwnedFd)> {
        let (mine, theirs) = seqpacket()?;
        let mut blob = Vec::new();
        for a in argv {
            blob.extend_from_slice(a.as_bytes());
            blob.push(0);
        }
        for (k, v) in env {
            blob.extend_from_slice(format!("{k}={v}\0").as_bytes());
        }
        if blob.len() > 32000 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "argv too long"));
        }
        let mut msg = Vec::with_capacity(24 + blob.len());
        msg.extend_from_slice(&(b'F' as u32).to_le_bytes());
        msg.extend_from_slice(&((argv.len() | env.len() << 16) as u32).to_le_bytes());
        msg.extend_from_slice(&seed.to_le_bytes());
        msg.extend_from_slice(&pid.to_le_bytes());
        msg.extend_from_slice(&(blob.len() as u32).to_le_bytes());
        msg.extend_from_slice(&blob);
        send_with_fd(self.ctl.as_raw_fd(), &msg, theirs.as_raw_fd())?;
        drop(theirs);
        let mut b = [0u8; 4];
        recv_exact(self.ctl.as_raw_fd(), &mut b)?;
        let p = i32::from_le_bytes(b);
        if p <= 0 {
            return Err(io::Error::new(io::ErrorKind::Other, "fork failed in fork server"));
        }
        Ok((p, mine))
    }
    fn wait(&mut self, pid: libc::pid_t) -> io::Result<i32> {
        let mut msg = vec![0u8; 24];
        msg[0..4].copy_from_slice(&(b'W' as u32).to_le_bytes());
        msg[16..20].copy_from_slice(&(pid as u32).to_le_bytes());
        send(self.ctl.as_raw_fd(), &msg)?;
        let mut b = [0u8; 4];
        recv_exact(self.ctl.as_raw_fd(), &mut b)?;
        Ok(i32::from_le_bytes(b))
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        unsafe {
            libc::kill(self.child, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(self.child, &mut st, 0);
        }
    }
}

fn send(fd: RawFd, b: &[u8]) -> io::Result<()> {
    loop {
        let r = unsafe { libc::send(fd, b.as_ptr() as *const _, b.len(), libc::MSG_NOSIGNAL) };
        if r < 0 {
            let e = io::Error::last_os_error();
            if e.kind() == io::ErrorKind::Interrupted {
                continue;
            }
            return Err(e);
        }
        return Ok(());
    }
}
fn send_with_fd(fd: RawFd, b: &[u8], pass: RawFd) -> io::Result<()> {
    unsafe {
        let mut iov = libc::iovec { iov_base: b.as_ptr() as *mut _, iov_len: b.len() };
        let mut cbuf = [0u64; 8];
        let mut mh: libc::msghdr = std::mem::zeroed();
        mh.msg_iov = &mut iov;
        mh.msg_iovlen = 1;
        mh.msg_control = cbuf.as_mut_ptr() as *mut _;
        mh.msg_controllen = libc::CMSG_SPACE(4) as _;
        let c = libc::CMSG_FIRSTHDR(&mh);
        (*c).cmsg_level = libc::SOL_SOCKET;
        (*c).cmsg_type = libc::SCM_RIGHTS;
        (*c).cmsg_len = libc::CMSG_LEN(4) as _;
        *(libc::CMSG_DATA(c) as *mut i32) = pass;
        loop {
            let r = libc::sendmsg(fd, &mh, libc::MSG_NOSIGNAL);
            if r < 0 {
                let e = io::Error::last_os_error();
                if e.kind() == io::ErrorKind::Interrupted {
                    continue;
                }
                return Err(e);
            }
            return Ok(());
        }
    }
}
fn recv_exact(fd: RawFd, b: &mut [u8]) -> io::Result<()> {
    loop {
        let r = unsafe { libc::recv(fd, b.as_mut_ptr() as *mut _, b.len(), 0) };
        if r < 0 {
            let e = io::Error::last_os_error();
            if e.kind() == io::ErrorKind::Interrupted {
                continue;
            }
            return Err(e);
        }
        if r as usize != b.len() {
            return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "fork server is gone"));
        }
        return Ok(());
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
    /// Killed by the simulator as an injected crash.
    Killed,
    /// Made more calls than any terminating run could.
    TooManyCalls,
    /// Burned its CPU limit without making a call.
    Hang,
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub seq: usize,
    pub proc: usize,
    pub class: Class,
    pub name: &'static str,
    pub path: String,
    pub path2: String,
    pub ret: i64,
    pub err: i32,
    pub injected: bool,
    pub mutates: bool,
    /// A write through the descriptor that created the file.
    pub own: bool,
    /// Canonical paths whose name or content this call changed.
    pub touched: Vec<(String, Touch)>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Touch {
    Created,
    Removed,
    Replaced,
    Truncated,
    Data,
    Meta,
}

#[derive(Clone, Debug)]
pub struct ProcOut {
    pub exit: Exit,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub ops: usize,
    pub bytes: usize,
    pub fired: Vec<usize>,
    pub stream_failed: [bool; 3],
    pub disk_full: bool,
    /// Most files the run had open at a time.
    pub most_fds: usize,
    pub panicked: bool,
}
impl ProcOut {
    pub fn ok(&self) -> bool {
        self.exit == Exit::Code(0)
    }
    pub fn stdout(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
    pub fn stderr(&self) -> String {
        String::from_utf8_lossy(&self.err).into_owned()
    }
    /// The run was ended by the simulator, not by itself.
    pub fn killed(&self) -> bool {
        self.exit == Exit::Killed
    }
}

#[derive(Clone, Debug)]
pub struct Watch {
    pub seq: usize,
    pub by: usize,
    pub path: String,
    pub content: Option<Data>,
    /// True if something that is not a regular file is there.
    pub odd: bool,
}

#[derive(Clone, Debug)]
pub struct LossState {
    pub seq: usize,
    pub path: String,
    pub content: Option<Data>,
    pub how: &'static str,
}

#[derive(Clone, Debug, Default)]
pub struct Session {
    pub procs: Vec<ProcOut>,
    pub ops: Vec<OpRec>,
    pub watch: Vec<Watch>,
    pub loss: Vec<LossState>,
    pub switches: usize,
    pub log_hash: u64,
    pub shape_hash: u64,
    pub sim_ns: u64,
    /// Schedule entries consumed.
    pub sched_used: usize,
}

#[derive(Clone)]
struct OpenFile {
    ino: Ino,
    pos: u64,
    flags: i32,
    path: String,
    /// This descriptor created the file.
    created: bool,
}

struct Proc {
    chan: OwnedFd,
    pid: libc::pid_t,
    spec: RunSpec,
    fds: BTreeMap<i64, usize>,
    files: Vec<OpenFile>,
    next_fd: i64,
    out: Vec<u8>,
    err: Vec<u8>,
    counts: Vec<u32>,
    done: Vec<bool>,
    sticky: Vec<bool>,
    fired: Vec<usize>,
    ops: usize,
    bytes: usize,
    /// Calls on each path, and whether the last one was interrupted.
    io_ops: BTreeMap<u64, (u32, bool)>,
    stream_failed: [bool; 3],
    disk_full: bool,
    fds_out: bool,
    most_fds: usize,
    started: bool,
    pending: Option<Req>,
    exit: Option<Exit>,
}

#[derive(Clone, Debug)]
struct Req {
    op: u32,
    a: [i64; 4],
    s1: Vec<u8>,
    s2: Vec<u8>,
}
#[derive(Default)]
struct Rsp {
    ret: i64,
    err: i32,
    x: [i64; 6],
    data: Vec<u8>,
}
impl Rsp {
    fn ok(r: i64) -> Rsp {
        Rsp { ret: r, ..Default::default() }
    }
    fn fail(e: i32) -> Rsp {
        Rsp { ret: -1, err: e, ..Default::default() }
    }
}

fn class_of(op: u32) -> (Class, &'static str) {
    use Class::*;
    match op {
        1 => (Open, "open"),
        2 => (Read, "read"),
        3 => (Read, "pread"),
        4 => (Write, "write"),
        5 => (Write, "pwrite"),
        6 => (Close, "close"),
        7 => (Seek, "lseek"),
        8 => (Stat, "stat"),
        9 => (Stat, "lstat"),
        10 => (Stat, "fstat"),
        11 => (Stat, "access"),
        12 => (Fsync, "fsync"),
        13 => (Fsync, "fdatasync"),
        14 => (Rename, "rename"),
        15 => (Link, "link"),
        16 => (Link, "symlink"),
        17 => (Unlink, "unlink"),
        18 => (Unlink, "rmdir"),
        19 => (Mkdir, "mkdir"),
        20 => (Readlink, "readlink"),
        21 => (Readlink, "realpath"),
        22 => (Cwd, "getcwd"),
        23 => (Cwd, "chdir"),
        24 => (Chmod, "chmod"),
        25 => (Chmod, "fchmod"),
        26 => (Other, "utimes"),
        27 => (Other, "futimes"),
        28 => (Truncate, "truncate"),
        29 => (Truncate, "ftruncate"),
        30 => (Readdir, "readdir"),
        31 => (Other, "dup"),
        32 => (Clock, "clock_gettime"),
        33 => (Clock, "sleep"),
        34 => (Other, "flock"),
        35 => (Fsync, "sync"),
        36 => (Chmod, "chown"),
        _ => (Other, "misc"),
    }
}

fn errno_name(e: i32) -> String {
    match e {
        libc::EIO => "EIO".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EACCES => "EACCES".into(),
        libc::EINTR => "EINTR".into(),
        libc::EPIPE => "EPIPE".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::ENFILE => "ENFILE".into(),
        libc::EROFS => "EROFS".into(),
        libc::EDQUOT => "EDQUOT".into(),
        libc::EPERM => "EPERM".into(),
        libc::ENOENT => "ENOENT".into(),
        libc::EBUSY => "EBUSY".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::EXDEV => "EXDEV".into(),
        libc::EOPNOTSUPP => "EOPNOTSUPP".into(),
        libc::EMLINK => "EMLINK".into(),
        libc::EFBIG => "EFBIG".into(),
        libc::ESTALE => "ESTALE".into(),
        e => format!("errno{e}"),
    }
}
pub fn fault_label(f: &Fault) -> String {
    let c = format!("{:?}", f.class).to_lowercase();
    match &f.kind {
        FaultKind::Errno(e) => format!("{c}:{}", errno_name(*e)),
        FaultKind::Sticky(e) => format!("{c}:{}:sticky", errno_name(*e)),
        FaultKind::Short(_) => format!("{c}:short"),
        FaultKind::Torn(_, e) => format!("{c}:torn+{}", errno_name(*e)),
        FaultKind::KillBefore => "kill:before-call".into(),
        FaultKind::KillAfter => "kill:after-call".into(),
        FaultKind::KillTorn(_) => "kill:mid-write".into(),
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub processes: u64,
    pub calls: u64,
    pub sim_ns: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub logs: BTreeSet<u64>,
    pub shapes: BTreeSet<u64>,
    pub switches: u64,
}
impl Stats {
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_default() += 1;
    }
    pub fn merge(&mut self, o: Stats) {
        self.processes += o.processes;
        self.calls += o.calls;
        self.sim_ns += o.sim_ns;
        self.switches += o.switches;
        for (k, v) in o.fired {
            *self.fired.entry(k).or_default() += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_default() += v;
        }
        self.logs.extend(o.logs);
        self.shapes.extend(o.shapes);
    }
}

/// What a session should observe besides answering calls.
#[derive(Default, Clone)]
pub struct Observe {
    pub watch: Vec<String>,
    pub loss: bool,
}

pub struct Kernel {
    server: Server,
    bin: String,
    shim: String,
    pub stats: Stats,
    rbuf: Vec<u8>,
    pub trace: bool,
    pub last_trace: Vec<String>,
}

impl Kernel {
    pub fn new(bin: &str, shim: &str) -> io::Result<Kernel> {
        Ok(Kernel {
            server: Server::start(bin, shim)?,
            bin: bin.into(),
            shim: shim.into(),
            stats: Stats::default(),
            rbuf: vec![0; 80_000],
            trace: false,
            last_trace: vec![],
        })
    }

    pub fn run1(&mut self, vfs: &mut Vfs, spec: &RunSpec) -> Session {
        self.session(vfs, std::slice::from_ref(spec), &[], &[], &Observe::default())
    }

    pub fn session(
        &mut self,
        vfs: &mut Vfs,
        runs: &[RunSpec],
        actors: &[Vec<Change>],
        schedule: &[u8],
        obs: &Observe,
    ) -> Session {
        match self.session_inner(vfs, runs, actors, schedule, obs) {
            Ok(s) => s,
            Err(e) => {
                eprintln!("HARNESS-ERROR: {e} ({} / {})", self.bin, self.shim);
                std::process::exit(3);
            }
        }
    }

    fn session_inner(
        &mut self,
        vfs: &mut Vfs,
        runs: &[RunSpec],
        actors: &[Vec<Change>],
        schedule: &[u8],
        obs: &Observe,
    ) -> io::Result<Session> {
        let mut s = Session::default();
        self.last_trace.clear();
        let mut procs: Vec<Proc> = Vec::new();
        for spec in runs {
            let mut argv = vec!["bulloak".to_string()];
            argv.extend(spec.args.iter().cloned());
            let pid = if spec.pid == 0 { 4242 } else { spec.pid };
            let (p, chan) = self.server.fork(&argv, &spec.env, spec.hash_seed, pid)?;
            let n = spec.faults.len();
            procs.push(Proc {
                chan,
                pid: p,
                spec: spec.clone(),
                fds: BTreeMap::new(),
                files: vec![],
                next_fd: VBASE + 3,
                out: vec![],
                err: vec![],
                counts: vec![0; n],
                done: vec![false; n],
                sticky: vec![false; n],
                fired: vec![],
                ops: 0,
                bytes: 0,
                io_ops: BTreeMap::new(),
                stream_failed: [false; 3],
                disk_full: false,
                fds_out: false,
                most_fds: 0,
                started: false,
                pending: None,
                exit: None,
            });
        }
        if runs.len() == 1 {
            vfs.free = runs[0].disk_free;
        } else {
            vfs.free = runs.iter().filter_map(|r| r.disk_free).min();
        }
        // Watched paths: remember what is there first.
        let mut seen: BTreeMap<String, (Option<Data>, bool)> = BTreeMap::new();
        let mut loss_seen: BTreeSet<(String, usize, usize)> = BTreeSet::new();
        for p in &obs.watch {
            let c = look(vfs, p);
            s.watch.push(Watch { seq: 0, by: usize::MAX, path: p.clone(), content: c.0.clone(), odd: c.1 });
            seen.insert(p.clone(), c);
        }
        let mut actor_pos: Vec<(usize, u8)> = vec![(0, 0); actors.len()];
        let mut si = 0;
        let mut cur = 0usize;
        let mut log = 0u64;
        let mut shape = 0u64;
        loop {
            // Runnable: processes not finished, then actors with steps left.
            let mut runnable: Vec<usize> =
                (0..procs.len()).filter(|&i| procs[i].exit.is_none()).collect();
            for (k, a) in actors.iter().enumerate() {
                if actor_pos[k].0 < a.len() {
                    runnable.push(procs.len() + k);
                }
            }
            if runnable.is_empty() {
                break;
            }
            let pick = if runnable.len() == 1 {
                runnable[0]
            } else {
                let e = if si < schedule.len() { schedule[si] } else { 0 };
                si += 1;
                if e == 0 {
                    if runnable.contains(&cur) {
                        cur
                    } else {
                        runnable[0]
                    }
                } else {
                    runnable[(e as usize - 1) % runnable.len()]
                }
            };
            if pick != cur {
                s.switches += 1;
                cur = pick;
            }
            let seq = s.ops.len() + 1;
            let mut mutated;
            if pick >= procs.len() {
                let k = pick - procs.len();
                let (pos, half) = actor_pos[k];
                let (touched, finished) = apply_change(vfs, &actors[k][pos], half);
                mutated = !touched.is_empty();
                actor_pos[k] = if finished { (pos + 1, 0) } else { (pos, half + 1) };
                s.sim_ns += 50_000;
                let rec = OpRec {
                    seq,
                    proc: pick,
                    class: Class::Other,
                    name: "actor",
                    path: change_path(&actors[k][pos]).to_string(),
                    path2: String::new(),
                    ret: 0,
                    err: 0,
                    injected: false,
                    mutates: mutated,
                    own: false,
                    touched,
                };
                log = hash_bytes(log, format!("{rec:?}").as_bytes());
                shape = hash_bytes(shape, format!("{pick} actor").as_bytes());
                if self.trace {
                    self.last_trace.push(format!("{:4} actor{} {:?}", seq, k, change_label(&actors[k][pos])));
                }
                s.ops.push(rec);
            } else {
                let p = &mut procs[pick];
                mutated = false;
                if !p.started {
                    p.started = true;
                    self.next_request(&mut procs[pick])?;
                } else {
                    let req = p.pending.take().expect("parked request");
                    let (rec, kill, data_hash) = self.serve(vfs, &mut procs[pick], pick, seq, req, &mut s.sim_ns)?;
                    mutated |= rec.mutates;
                    log = hash_bytes(log, format!("{rec:?}{data_hash}").as_bytes());
                    shape = hash_bytes(
                        shape,
                        format!("{pick} {} {} {} {}", rec.name, role(&rec.path), rec.err, rec.injected).as_bytes(),
                    );
                    if self.trace {
                        self.last_trace.push(format!(
                            "{:4} p{} {}({}{}{}) = {}{}{}{}",
                            seq,
                            pick,
                            rec.name,
                            rec.path,
                            if rec.path2.is_empty() { "" } else { ", " },
                            rec.path2,
                            rec.ret,
                            if rec.ret < 0 { format!(" {}", errno_name(rec.err)) } else { String::new() },
                            if rec.injected { "  [injected]" } else { "" },
                            if kill { "  [killed]" } else { "" },
                        ));
                    }
                    s.ops.push(rec);
                    if !kill && procs[pick].exit.is_none() {
                        self.next_request(&mut procs[pick])?;
                    }
                }
            }
            if mutated && !obs.watch.is_empty() {
                for p in &obs.watch {
                    let c = look(vfs, p);
                    let old = seen.get(p).unwrap();
                    if old != &c {
                        s.watch.push(Watch { seq, by: pick, path: p.clone(), content: c.0.clone(), odd: c.1 });
                        seen.insert(p.clone(), c);
                    }
                }
            }
            if mutated && obs.loss {
                for p in &obs.watch {
                    if let Ok(r) = vfs.resolve(p, true) {
                        for k in vfs.meta_synced..=vfs.meta.len() {
                            match vfs.binding_at(r.parent, &r.name, k) {
                                None => {
                                    if loss_seen.insert((p.clone(), usize::MAX, 0)) {
                                        s.loss.push(LossState { seq, path: p.clone(), content: None, how: "name absent" });
                                    }
                                }
                                Some(i) => {
                                    for (d, how) in vfs.loss_contents(i) {
                                        let key = (p.clone(), i, hash_bytes(7, &d) as usize);
                                        if loss_seen.insert(key) {
                                            s.loss.push(LossState { seq, path: p.clone(), content: Some(d), how });
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        s.sched_used = si.min(schedule.len());
        vfs.free = None;
        for mut p in procs {
            let exit = p.exit.take().unwrap();
            log = hash_bytes(log, &p.out);
            log = hash_bytes(log, &p.err);
            log = hash_bytes(log, format!("{exit:?}").as_bytes());
            shape = hash_bytes(shape, format!("{exit:?}").as_bytes());
            self.stats.processes += 1;
            self.stats.calls += p.ops as u64;
            for &i in &p.fired {
                *self.stats.fired.entry(fault_label(&p.spec.faults[i])).or_default() += 1;
            }
            for (fd, n) in [(1usize, "stdout"), (2, "stderr")] {
                if p.stream_failed[fd] {
                    let e = p.spec.streams.iter().find(|x| x.fd == fd as i32).map(|x| x.errno).unwrap_or(0);
                    *self.stats.fired.entry(format!("{n}:{}", errno_name(e))).or_default() += 1;
                }
            }
            if p.disk_full {
                *self.stats.fired.entry("disk-full".into()).or_default() += 1;
            }
            if p.fds_out {
                *self.stats.fired.entry("out-of-descriptors".into()).or_default() += 1;
            }
            if p.spec.io != Io::default() {
                *self.stats.fired.entry("chunked/interrupted I/O".into()).or_default() += 1;
            }
            let panicked = exit == Exit::Code(101)
                || String::from_utf8_lossy(&p.err).contains("panicked at");
            s.procs.push(ProcOut {
                exit,
                out: p.out,
                err: p.err,
                ops: p.ops,
                bytes: p.bytes,
                fired: p.fired,
                stream_failed: p.stream_failed,
                disk_full: p.disk_full,
                most_fds: p.most_fds,
                panicked,
            });
        }
        s.log_hash = log;
        s.shape_hash = shape;
        self.stats.sim_ns += s.sim_ns;
        self.stats.switches += s.switches as u64;
        self.stats.shapes.insert(shape);
        self.stats.logs.insert(log);
        Ok(s)
    }

    /// Let a process run until its next call or its end.
    fn next_request(&mut self, p: &mut Proc) -> io::Result<()> {
        let fd = p.chan.as_raw_fd();
        let mut pfd = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        // CPU time is limited to 20 s in the child; the wall limit only guards
        // against a child that sleeps outside the simulator.
        let r = loop {
            let r = unsafe { libc::poll(&mut pfd, 1, 180_000) };
            if r < 0 && io::Error::last_os_error().kind() == io::ErrorKind::Interrupted {
                continue;
            }
            break r;
        };
        if r == 0 {
            unsafe { libc::kill(p.pid, libc::SIGKILL) };
            self.server.wait(p.pid)?;
            p.exit = Some(Exit::Hang);
            return Ok(());
        }
        let n = loop {
            let n = unsafe { libc::recv(fd, self.rbuf.as_mut_ptr() as *mut _, self.rbuf.len(), 0) };
            if n < 0 && io::Error::last_os_error().kind() == io::ErrorKind::Interrupted {
                continue;
            }
            break n;
        };
        if n <= 0 {
            let st = self.server.wait(p.pid)?;
            p.exit = Some(if libc::WIFEXITED(st) {
                let c = libc::WEXITSTATUS(st);
                if c == 125 {
                    return Err(io::Error::new(io::ErrorKind::Other, "shim protocol error"));
                }
                Exit::Code(c)
            } else if libc::WIFSIGNALED(st) {
                let sg = libc::WTERMSIG(st);
                if sg == libc::SIGXCPU {
                    Exit::Hang
                } else {
                    Exit::Signal(sg)
                }
            } else {
                Exit::Signal(-1)
            });
            return Ok(());
        }
        let b = &self.rbuf[..n as usize];
        if b.len() < REQ_HDR {
            return Err(io::Error::new(io::ErrorKind::Other, "short request"));
        }
        let u = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
        let i = |o: usize| i64::from_le_bytes(b[o..o + 8].try_into().unwrap());
        let (l1, l2) = (u(4) as usize, u(8) as usize);
        p.pending = Some(Req {
            op: u(0),
            a: [i(16), i(24), i(32), i(40)],
            s1: b[REQ_HDR..REQ_HDR + l1].to_vec(),
            s2: b[REQ_HDR + l1..REQ_HDR + l1 + l2].to_vec(),
        });
        Ok(())
    }

    fn kill(&mut self, p: &mut Proc, how: Exit) -> io::Result<()> {
        unsafe { libc::kill(p.pid, libc::SIGKILL) };
        self.server.wait(p.pid)?;
        p.exit = Some(how);
        p.fds.clear();
        Ok(())
    }

    fn serve(
        &mut self,
        vfs: &mut Vfs,
        p: &mut Proc,
        idx: usize,
        seq: usize,
        req: Req,
        ns: &mut u64,
    ) -> io::Result<(OpRec, bool, u64)> {
        p.ops += 1;
        let (class, name) = class_of(req.op);
        let path_op = matches!(req.op, 1 | 8 | 9 | 11 | 14..=21 | 23 | 24 | 26 | 28 | 36);
        let fd = req.a[0];
        let path = if path_op {
            String::from_utf8_lossy(&req.s1).into_owned()
        } else {
            match fd {
                0 => "<stdin>".into(),
                1 => "<stdout>".into(),
                2 => "<stderr>".into(),
                _ => match p.fds.get(&fd) {
                    Some(&f) => p.files[f].path.clone(),
                    None => String::new(),
                },
            }
        };
        let path2 = String::from_utf8_lossy(&req.s2).into_owned();
        let mut rec = OpRec {
            seq,
            proc: idx,
            class,
            name,
            path: path.clone(),
            path2: path2.clone(),
            ret: 0,
            err: 0,
            injected: false,
            mutates: false,
            own: false,
            touched: vec![],
        };
        *ns += match class {
            Class::Fsync => 5_000_000,
            Class::Rename | Class::Link | Class::Unlink => 200_000,
            Class::Open | Class::Stat => 30_000,
            _ => 10_000,
        };
        let most = if p.spec.io.read_max > 0 || p.spec.io.write_max > 0 { MAX_OPS_CHUNKED } else { MAX_OPS };
        if p.ops > most {
            self.kill(p, Exit::TooManyCalls)?;
            return Ok((rec, true, 0));
        }
        // Which faults apply to this call?
        let mut limit: Option<usize> = None;
        let mut fail: Option<i32> = None;
        let mut kill_before = false;
        let mut kill_after = false;
        let mut torn: Option<(usize, Option<i32>)> = None;
        let transfers = matches!(req.op, 2..=5);
        // Chunked and interrupted I/O.  What a file meets depends on the calls
        // on that file only, and an interrupted call is none for the faults.
        let mut chunk: Option<usize> = None;
        let mut interrupted = false;
        if transfers || req.op == 1 {
            let io = &p.spec.io;
            let at = p.io_ops.entry(hash_bytes(2, path.as_bytes())).or_insert((0, false));
            at.0 += 1;
            if io.eintr_every > 0 && !at.1 && at.0 % io.eintr_every == 0 {
                interrupted = true;
                at.1 = true;
                fail = Some(libc::EINTR);
            } else {
                at.1 = false;
            }
            if transfers {
                let m = if matches!(req.op, 2 | 3) { io.read_max } else { io.write_max };
                if m > 0 {
                    chunk = Some(if io.jitter != 0 { 1 + (mix(io.jitter ^ at.0 as u64) % m as u64) as usize } else { m });
                }
            }
        }
        for k in 0..p.spec.faults.len() {
            if interrupted {
                break;
            }
            let f = &p.spec.faults[k];
            if f.class != Class::Any && f.class != class {
                continue;
            }
            if fd >= 0 && !path_op && fd <= 2 && f.path.is_none() && f.class != Class::Any {
                continue; // stream faults are separate
            }
            if let Some(sfx) = &f.path {
                if !(path_matches(&path, sfx) || (!path2.is_empty() && path_matches(&path2, sfx))) {
                    continue;
                }
            }
            if p.sticky[k] {
                if let FaultKind::Sticky(e) | FaultKind::Torn(_, e) = &f.kind {
                    fail = Some(*e);
                    rec.injected = true;
                }
                continue;
            }
            let c = p.counts[k];
            p.counts[k] += 1;
            if p.done[k] || c != f.nth {
                continue;
            }
            p.done[k] = true;
            p.fired.push(k);
            rec.injected = true;
            match &f.kind {
                FaultKind::Errno(e) => fail = Some(*e),
                FaultKind::Sticky(e) => {
                    fail = Some(*e);
                    p.sticky[k] = true;
                }
                FaultKind::Short(n) => limit = Some((*n).max(1)),
                FaultKind::Torn(n, e) => {
                    torn = Some((*n, Some(*e)));
                    p.sticky[k] = true;
                }
                FaultKind::KillBefore => kill_before = true,
                FaultKind::KillAfter => kill_after = true,
                FaultKind::KillTorn(n) => {
                    if matches!(req.op, 4 | 5) {
                        torn = Some((*n, None));
                    }
                    kill_after = true;
                }
            }
        }
        if kill_before {
            self.kill(p, Exit::Killed)?;
            return Ok((rec, true, 0));
        }
        if let Some(m) = chunk {
            limit = Some(limit.map_or(m, |l| l.min(m)));
        }
        let mut rsp = if let Some(e) = fail {
            Rsp::fail(e)
        } else if let (Some((n, errno)), true) = (&torn, matches!(req.op, 4 | 5)) {
            let n = (*n).min(req.s1.len());
            if n == 0 {
                match errno {
                    Some(e) => Rsp::fail(*e),
                    None => Rsp::ok(0),
                }
            } else {
                self.exec(vfs, p, &req, Some(n), &mut rec)
            }
        } else {
            self.exec(vfs, p, &req, limit, &mut rec)
        };
        if matches!(req.op, 2 | 3) && rsp.ret >= 0 {
            p.bytes += rsp.ret as usize;
        }
        rec.ret = if req.op == 1 && rsp.ret >= 0 { 3 } else { rsp.ret };
        rec.err = if rsp.ret < 0 { rsp.err } else { 0 };
        let mut dh = hash_bytes(1, &rsp.data);
        if matches!(req.op, 4 | 5) && rsp.ret > 0 {
            dh = hash_bytes(dh, &req.s1[..rsp.ret as usize]);
        }
        if kill_after {
            self.kill(p, Exit::Killed)?;
            return Ok((rec, true, dh));
        }
        let mut msg = Vec::with_capacity(RSP_HDR + rsp.data.len());
        msg.extend_from_slice(&rsp.ret.to_le_bytes());
        msg.extend_from_slice(&rsp.err.to_le_bytes());
        msg.extend_from_slice(&(rsp.data.len() as u32).to_le_bytes());
        for x in &rsp.x {
            msg.extend_from_slice(&x.to_le_bytes());
        }
        msg.append(&mut rsp.data);
        send(p.chan.as_raw_fd(), &msg)?;
        Ok((rec, false, dh))
    }

    /// Execute a call against the virtual world.
    fn exec(&mut self, vfs: &mut Vfs, p: &mut Proc, req: &Req, limit: Option<usize>, rec: &mut OpRec) -> Rsp {
        if !p.spec.cwd.is_empty() {
            vfs.cwd = p.spec.cwd.clone();
        }
        vfs.now += 1000;
        let done = self.exec_inner(vfs, p, req, limit, rec);
        vfs.cwd = CWD.to_string();
        match done {
            Ok(r) => r,
            Err(e) => Rsp::fail(e),
        }
    }
    fn exec_inner(
        &mut self,
        vfs: &mut Vfs,
        p: &mut Proc,
        req: &Req,
        limit: Option<usize>,
        rec: &mut OpRec,
    ) -> R<Rsp> {
        let utf = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
        let fd = req.a[0];
        let at = |d: i64, path: String| -> R<String> {
            if d == libc::AT_FDCWD as i64 || path.starts_with('/') {
                return Ok(path);
            }
            match p.fds.get(&d) {
                Some(&f) => Ok(format!("{}/{}", p.files[f].path, path)),
                None => Err(libc::EBADF),
            }
        };
        match req.op {
            1 => {
                let path = at(req.a[0], utf(&req.s1))?;
                let flags = req.a[1] as i32;
                let mode = req.a[2] as u32;
                let acc = flags & libc::O_ACCMODE;
                let nofollow = flags & libc::O_NOFOLLOW != 0 || (flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0);
                let mut r = vfs.resolve(&path, !nofollow)?;
                if p.spec.max_fds.is_some_and(|m| p.fds.len() >= m) {
                    p.fds_out = true;
                    return Err(libc::EMFILE);
                }
                let mut created = false;
                // A dangling symlink with O_CREAT creates its target.
                let ino = match r.ino {
                    Some(i) => {
                        if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                            return Err(libc::EEXIST);
                        }
                        if let Node::Link { .. } = &vfs.nodes[i] {
                            return Err(libc::ELOOP);
                        }
                        i
                    }
                    None => {
                        if flags & libc::O_CREAT == 0 {
                            return Err(libc::ENOENT);
                        }
                        if vfs.free == Some(0) {
                            p.disk_full = true;
                            return Err(libc::ENOSPC);
                        }
                        let i = vfs.create(&r, mode & !p.spec.umask.unwrap_or(0o022))?;
                        created = true;
                        rec.mutates = true;
                        rec.touched.push((r.path.clone(), Touch::Created));
                        r.ino = Some(i);
                        i
                    }
                };
                match &vfs.nodes[ino] {
                    Node::Dir { .. } => {
                        if acc != libc::O_RDONLY || flags & libc::O_CREAT != 0 {
                            return Err(libc::EISDIR);
                        }
                    }
                    Node::File { mode, data, .. } => {
                        if flags & libc::O_DIRECTORY != 0 || r.trailing_slash {
                            return Err(libc::ENOTDIR);
                        }
                        if !created {
                            if acc != libc::O_WRONLY && mode & 0o400 == 0 {
                                return Err(libc::EACCES);
                            }
                            if acc != libc::O_RDONLY && mode & 0o200 == 0 {
                                return Err(libc::EACCES);
                            }
                        }
                        if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY && !data.is_empty() {
                            if let Some(f) = &mut vfs.free {
                                *f += data.len() as i64;
                            }
                            vfs.set_data(ino, vec![]);
                            rec.mutates = true;
                            rec.touched.push((r.path.clone(), Touch::Truncated));
                        }
                    }
                    Node::Link { .. } => return Err(libc::ELOOP),
                }
                let n = p.next_fd;
                p.next_fd += 1;
                p.files.push(OpenFile { ino, pos: 0, flags, path: r.path.clone(), created });
                p.fds.insert(n, p.files.len() - 1);
                p.most_fds = p.most_fds.max(p.fds.len());
                Ok(Rsp::ok(n))
            }
            2 | 3 => {
                if fd == 0 {
                    return Ok(Rsp::ok(0));
                }
                let f = &mut p.files[*p.fds.get(&fd).ok_or(libc::EBADF)?];
                if f.flags & libc::O_ACCMODE == libc::O_WRONLY {
                    return Err(libc::EBADF);
                }
                let data = match &vfs.nodes[f.ino] {
                    Node::File { data, .. } => data.clone(),
                    _ => return Err(libc::EISDIR),
                };
                let pos = if req.op == 3 { req.a[2] as u64 } else { f.pos } as usize;
                let mut n = (req.a[1].max(0) as usize).min(data.len().saturating_sub(pos));
                if let Some(l) = limit {
                    n = n.min(l);
                }
                let out = if n == 0 { vec![] } else { data[pos..pos + n].to_vec() };
                if req.op == 2 {
                    f.pos += n as u64;
                }
                Ok(Rsp { ret: n as i64, data: out, ..Default::default() })
            }
            4 | 5 => {
                let mut n = req.s1.len();
                if let Some(l) = limit {
                    n = n.min(l);
                }
                let fd = match p.fds.get(&fd) {
                    Some(&f) if p.files[f].path == "<stdout>" => 1,
                    Some(&f) if p.files[f].path == "<stderr>" => 2,
                    _ => fd,
                };
                if fd == 1 || fd == 2 {
                    let cap = p.spec.streams.iter().find(|s| s.fd == fd as i32).cloned();
                    let buf = if fd == 1 { &mut p.out } else { &mut p.err };
                    if let Some(c) = cap {
                        if n > 0 && (buf.len() >= c.after || p.stream_failed[fd as usize]) {
                            p.stream_failed[fd as usize] = true;
                            return Err(c.errno);
                        }
                        n = n.min(c.after - buf.len());
                    }
                    buf.extend_from_slice(&req.s1[..n]);
                    return Ok(Rsp::ok(n as i64));
                }
                let fi = *p.fds.get(&fd).ok_or(libc::EBADF)?;
                let f = &mut p.files[fi];
                if f.flags & libc::O_ACCMODE == libc::O_RDONLY {
                    return Err(libc::EBADF);
                }
                let data = match &vfs.nodes[f.ino] {
                    Node::File { data, .. } => data.clone(),
                    _ => return Err(libc::EBADF),
                };
                let pos = if f.flags & libc::O_APPEND != 0 {
                    data.len()
                } else if req.op == 5 {
                    req.a[2] as usize
                } else {
                    f.pos as usize
                };
                let grow = (pos + n).saturating_sub(data.len()) as i64;
                if let Some(free) = &mut vfs.free {
                    if grow > *free {
                        let over = (grow - *free) as usize;
                        p.disk_full = true;
                        if over >= n {
                            return Err(libc::ENOSPC);
                        }
                        n -= over;
                        *free = 0;
                    } else {
                        *free -= grow;
                    }
                }
                let mut d = (*data).clone();
                if d.len() < pos {
                    d.resize(pos, 0);
                }
                let end = (pos + n).min(d.len());
                d.splice(pos..end, req.s1[..n].iter().copied());
                let (ino, path) = (f.ino, f.path.clone());
                if req.op == 4 {
                    f.pos = (pos + n) as u64;
                }
                if n > 0 {
                    vfs.set_data(ino, d);
                    rec.mutates = true;
                    rec.own = p.files[fi].created;
                    rec.touched.push((path, Touch::Data));
                }
                Ok(Rsp::ok(n as i64))
            }
            6 => {
                if fd <= 2 {
                    return Ok(Rsp::ok(0));
                }
                p.fds.remove(&fd).ok_or(libc::EBADF)?;
                Ok(Rsp::ok(0))
            }
            7 => {
                if fd <= 2 {
                    return Err(libc::ESPIPE);
                }
                let f = &mut p.files[*p.fds.get(&fd).ok_or(libc::EBADF)?];
                let len = match &vfs.nodes[f.ino] {
                    Node::File { data, .. } => data.len() as i64,
                    _ => 0,
                };
                let base = match req.a[2] as i32 {
                    libc::SEEK_SET => 0,
                    libc::SEEK_CUR => f.pos as i64,
                    libc::SEEK_END => len,
                    _ => return Err(libc::EINVAL),
                };
                let np = base + req.a[1];
                if np < 0 {
                    return Err(libc::EINVAL);
                }
                f.pos = np as u64;
                Ok(Rsp::ok(np))
            }
            8 | 9 | 11 => {
                let path = at(req.a[0], utf(&req.s1))?;
                let r = vfs.resolve(&path, req.op != 9)?;
                let i = r.ino.ok_or(libc::ENOENT)?;
                if r.trailing_slash && !vfs.is_dir(i) {
                    return Err(libc::ENOTDIR);
                }
                if req.op == 11 {
                    let m = match &vfs.nodes[i] {
                        Node::File { mode, .. } | Node::Dir { mode, .. } => *mode,
                        _ => 0o777,
                    };
                    let want = req.a[1] as u32;
                    if (want & 4 != 0 && m & 0o400 == 0) || (want & 2 != 0 && m & 0o200 == 0) || (want & 1 != 0 && m & 0o100 == 0) {
                        return Err(libc::EACCES);
                    }
                    return Ok(Rsp::ok(0));
                }
                Ok(stat_rsp(vfs, i, &r.path))
            }
            10 => {
                if fd <= 2 {
                    let mut r = Rsp::ok(0);
                    r.x[0] = 0o010600; // a pipe
                    return Ok(r);
                }
                let f = &p.files[*p.fds.get(&fd).ok_or(libc::EBADF)?];
                Ok(stat_rsp(vfs, f.ino, &f.path))
            }
            12 | 13 => {
                if fd <= 2 {
                    return Err(libc::EINVAL);
                }
                let i = p.files[*p.fds.get(&fd).ok_or(libc::EBADF)?].ino;
                vfs.fsync(i);
                Ok(Rsp::ok(0))
            }
            14 => {
                let a = at(req.a[1], utf(&req.s1))?;
                let b = at(req.a[2], utf(&req.s2))?;
                let existed = vfs.resolve(&b, false).ok().and_then(|r| r.ino).is_some();
                let (a, b) = vfs.rename(&a, &b, req.a[0] as u32)?;
                rec.mutates = true;
                rec.touched.push((a, Touch::Removed));
                rec.touched.push((b, if existed { Touch::Replaced } else { Touch::Created }));
                Ok(Rsp::ok(0))
            }
            15 => {
                let a = at(req.a[1], utf(&req.s1))?;
                let b = at(req.a[2], utf(&req.s2))?;
                let (_, b) = vfs.link(&a, &b, req.a[0] as i32 & libc::AT_SYMLINK_FOLLOW != 0)?;
                rec.mutates = true;
                rec.touched.push((b, Touch::Created));
                Ok(Rsp::ok(0))
            }
            16 => {
                let b = at(req.a[2], utf(&req.s2))?;
                let b = vfs.symlink(&utf(&req.s1), &b)?;
                rec.mutates = true;
                rec.touched.push((b, Touch::Created));
                Ok(Rsp::ok(0))
            }
            17 => {
                let a = vfs.unlink(&at(req.a[0], utf(&req.s1))?)?;
                rec.mutates = true;
                rec.touched.push((a, Touch::Removed));
                Ok(Rsp::ok(0))
            }
            18 => {
                let a = vfs.rmdir(&at(req.a[0], utf(&req.s1))?)?;
                rec.mutates = true;
                rec.touched.push((a, Touch::Removed));
                Ok(Rsp::ok(0))
            }
            19 => {
                let a = vfs.mkdir(&at(req.a[0], utf(&req.s1))?, req.a[1] as u32)?;
                rec.mutates = true;
                rec.touched.push((a, Touch::Created));
                Ok(Rsp::ok(0))
            }
            20 => {
                let r = vfs.resolve(&at(req.a[0], utf(&req.s1))?, false)?;
                match &vfs.nodes[r.ino.ok_or(libc::ENOENT)?] {
                    Node::Link { target } => {
                        Ok(Rsp { ret: target.len() as i64, data: target.clone().into_bytes(), ..Default::default() })
                    }
                    _ => Err(libc::EINVAL),
                }
            }
            21 => {
                let r = vfs.resolve(&utf(&req.s1), true)?;
                r.ino.ok_or(libc::ENOENT)?;
                Ok(Rsp { ret: 0, data: r.path.into_bytes(), ..Default::default() })
            }
            22 => Ok(Rsp { ret: 0, data: vfs.cwd.as_bytes().to_vec(), ..Default::default() }),
            23 => Err(libc::EACCES),
            24 => {
                let r = vfs.resolve(&at(req.a[0], utf(&req.s1))?, true)?;
                let i = r.ino.ok_or(libc::ENOENT)?;
                if let Node::File { mode, .. } | Node::Dir { mode, .. } = &mut vfs.nodes[i] {
                    let new = req.a[1] as u32 & 0o7777;
                    if *mode != new {
                        *mode = new;
                        rec.mutates = true;
                        rec.touched.push((r.path, Touch::Meta));
                    }
                }
                Ok(Rsp::ok(0))
            }
            25 => {
                if fd <= 2 {
                    return Err(libc::EINVAL);
                }
                let f = &p.files[*p.fds.get(&fd).ok_or(libc::EBADF)?];
                if let Node::File { mode, .. } | Node::Dir { mode, .. } = &mut vfs.nodes[f.ino] {
                    let new = req.a[1] as u32 & 0o7777;
                    if *mode != new {
                        *mode = new;
                        rec.mutates = true;
                        rec.touched.push((f.path.clone(), Touch::Meta));
                    }
                }
                Ok(Rsp::ok(0))
            }
            26 | 36 => {
                let r = vfs.resolve(&at(req.a[0], utf(&req.s1))?, true)?;
                r.ino.ok_or(libc::ENOENT)?;
                rec.mutates = true;
                rec.touched.push((r.path, Touch::Meta));
                Ok(Rsp::ok(0))
            }
            27 => {
                if fd > 2 {
                    let f = &p.files[*p.fds.get(&fd).ok_or(libc::EBADF)?];
                    rec.mutates = true;
                    rec.touched.push((f.path.clone(), Touch::Meta));
                }
                Ok(Rsp::ok(0))
            }
            28 | 29 => {
                let (i, path, len) = if req.op == 28 {
                    let r = vfs.resolve(&utf(&req.s1), true)?;
                    (r.ino.ok_or(libc::ENOENT)?, r.path, req.a[0])
                } else {
                    let f = &p.files[*p.fds.get(&fd).ok_or(libc::EBADF)?];
                    if f.flags & libc::O_ACCMODE == libc::O_RDONLY {
                        return Err(libc::EINVAL);
                    }
                    (f.ino, f.path.clone(), req.a[1])
                };
                let (data, mode) = match &vfs.nodes[i] {
                    Node::File { data, mode, .. } => (data.clone(), *mode),
                    _ => return Err(libc::EISDIR),
                };
                if req.op == 28 && mode & 0o200 == 0 {
                    return Err(libc::EACCES);
                }
                if len < 0 || len > 1 << 28 {
                    return Err(libc::EFBIG);
                }
                if data.len() != len as usize {
                    let mut d = (*data).clone();
                    d.resize(len as usize, 0);
                    vfs.set_data(i, d);
                    rec.mutates = true;
                    rec.touched.push((path, Touch::Truncated));
                }
                Ok(Rsp::ok(0))
            }
            30 => {
                let f = &p.files[*p.fds.get(&fd).ok_or(libc::EBADF)?];
                match &vfs.nodes[f.ino] {
                    Node::Dir { entries, .. } => {
                        let mut out = vec![];
                        // Directory order is a source of nondeterminism too: derive it from the run's hash seed.
                        let mut names: Vec<(&String, &Ino)> = entries.iter().collect();
                        let hs = p.spec.hash_seed;
                        if hs != 0 {
                            names.sort_by_key(|(n, _)| hash_bytes(hs, n.as_bytes()));
                        }
                        for (n, &i) in names {
                            out.push(match &vfs.nodes[i] {
                                Node::File { .. } => 8u8,
                                Node::Dir { .. } => 4,
                                Node::Link { .. } => 10,
                            });
                            out.extend_from_slice(n.as_bytes());
                            out.push(0);
                            if out.len() > 60_000 {
                                break;
                            }
                        }
                        Ok(Rsp { ret: 0, data: out, ..Default::default() })
                    }
                    _ => Err(libc::ENOTDIR),
                }
            }
            31 => {
                let n = p.next_fd;
                p.next_fd += 1;
                if fd <= 2 {
                    let path = ["<stdin>", "<stdout>", "<stderr>"][fd.max(0) as usize].to_string();
                    p.files.push(OpenFile { ino: 0, pos: 0, flags: libc::O_RDWR, path, created: false });
                    p.fds.insert(n, p.files.len() - 1);
                } else {
                    let f = *p.fds.get(&fd).ok_or(libc::EBADF)?;
                    p.fds.insert(n, f);
                }
                Ok(Rsp::ok(n))
            }
            32 => {
                let mut r = Rsp::ok(0);
                r.x[0] = vfs.now + p.spec.clock;
                Ok(r)
            }
            33 => {
                vfs.now += req.a[0].clamp(0, 3_600_000_000_000);
                Ok(Rsp::ok(0))
            }
            34 => Ok(Rsp::ok(0)),
            35 => {
                vfs.sync_all();
                Ok(Rsp::ok(0))
            }
            _ => Err(libc::ENOSYS),
        }
    }
}

fn path_matches(p: &str, sfx: &str) -> bool {
    p == sfx || p.ends_with(&format!("/{sfx}")) || (sfx.starts_with('*') && p.ends_with(&sfx[1..]))
}

fn role(p: &str) -> &'static str {
    if p.starts_with('<') {
        "stream"
    } else if p.ends_with(".tree") {
        "tree"
    } else if p.ends_with(".t.sol") {
        "sol"
    } else {
        "other"
    }
}

fn stat_rsp(vfs: &Vfs, i: Ino, path: &str) -> Rsp {
    let mut r = Rsp::ok(0);
    let (mode, size) = match &vfs.nodes[i] {
        Node::File { data, mode, .. } => (0o100000 | mode, data.len() as i64),
        Node::Dir { mode, .. } => (0o040000 | mode, 4096),
        Node::Link { target } => (0o120777, target.len() as i64),
    };
    r.x = [mode as i64, size, i as i64 + 1, vfs.nlink[i] as i64, vfs.mtime[i], Vfs::device(path)];
    r
}

fn look(vfs: &Vfs, p: &str) -> (Option<Data>, bool) {
    match vfs.resolve(p, true) {
        Ok(r) => match r.ino {
            Some(i) => match &vfs.nodes[i] {
                Node::File { data, .. } => (Some(data.clone()), false),
                _ => (None, true),
            },
            None => (None, false),
        },
        Err(libc::ENOENT) => (None, false),
        Err(_) => (None, true),
    }
}

pub fn change_path(c: &Change) -> &str {
    match c {
        Change::Replace { path, .. }
        | Change::Overwrite { path, .. }
        | Change::Create { path, .. }
        | Change::Delete { path }
        | Change::Symlink { path, .. }
        | Change::Mkdir { path }
        | Change::Chmod { path, .. } => path,
    }
}
pub fn change_label(c: &Change) -> String {
    let k = match c {
        Change::Replace { .. } => "replace",
        Change::Overwrite { .. } => "overwrite",
        Change::Create { .. } => "create",
        Change::Delete { .. } => "delete",
        Change::Symlink { .. } => "symlink",
        Change::Mkdir { .. } => "mkdir",
        Change::Chmod { .. } => "chmod",
    };
    format!("{k} {}", change_path(c))
}

/// Apply (one half of) a change; returns what it touched and whether it is complete.
pub fn apply_change(vfs: &mut Vfs, c: &Change, half: u8) -> (Vec<(String, Touch)>, bool) {
    match c {
        Change::Replace { path, content } => {
            let Ok(r) = vfs.resolve(path, true) else { return (vec![], true) };
            if let Some(i) = r.ino {
                if vfs.is_dir(i) {
                    return (vec![], true);
                }
            }
            let d = Arc::new(content.bytes());
            let mode = match r.ino.map(|i| &vfs.nodes[i]) {
                Some(Node::File { mode, .. }) => *mode,
                _ => 0o644,
            };
            vfs.nodes.push(Node::File { data: d.clone(), durable: d, mode });
            vfs.nlink.push(1);
            vfs.mtime.push(vfs.now);
            let i = vfs.nodes.len() - 1;
            vfs.set_names(vec![MetaOp { dir: r.parent, name: r.name.clone(), ino: Some(i) }]);
            (vec![(r.path, if r.ino.is_some() { Touch::Replaced } else { Touch::Created })], true)
        }
        Change::Overwrite { path, content } => {
            let Ok(r) = vfs.resolve(path, true) else { return (vec![], true) };
            let i = match r.ino {
                Some(i) => i,
                None => match vfs.create(&r, 0o644) {
                    Ok(i) => i,
                    Err(_) => return (vec![], true),
                },
            };
            if vfs.is_dir(i) {
                return (vec![], true);
            }
            let b = content.bytes();
            match half {
                0 => vfs.set_data(i, vec![]),
                1 => vfs.set_data(i, b[..b.len() / 2].to_vec()),
                _ => {
                    vfs.set_data(i, b);
                    vfs.fsync(i);
                }
            }
            (vec![(r.path, if r.ino.is_some() { Touch::Data } else { Touch::Created })], half >= 2)
        }
        Change::Create { path, content } => {
            let Ok(r) = vfs.resolve(path, true) else { return (vec![], true) };
            if r.ino.is_some() {
                return (vec![], true);
            }
            let Ok(i) = vfs.create(&r, 0o644) else { return (vec![], true) };
            vfs.set_data(i, content.bytes());
            vfs.fsync(i);
            (vec![(r.path, Touch::Created)], true)
        }
        Change::Delete { path } => match vfs.unlink(path) {
            Ok(p) => (vec![(p, Touch::Removed)], true),
            Err(_) => (vec![], true),
        },
        Change::Symlink { path, target } => match vfs.symlink(target, path) {
            Ok(p) => (vec![(p, Touch::Created)], true),
            Err(_) => (vec![], true),
        },
        Change::Mkdir { path } => match vfs.mkdir(path, 0o755) {
            Ok(p) => (vec![(p, Touch::Created)], true),
            Err(_) => (vec![], true),
        },
        Change::Chmod { path, mode } => {
            let Ok(r) = vfs.resolve(path, true) else { return (vec![], true) };
            if let Some(i) = r.ino {
                if let Node::File { mode: m, .. } | Node::Dir { mode: m, .. } = &mut vfs.nodes[i] {
                    *m = *mode;
                }
            }
            (vec![(r.path, Touch::Meta)], true)
        }
    }
}

/// Apply a change completely.
pub fn apply_all(vfs: &mut Vfs, c: &Change) {
    let p = change_path(c);
    if let Some(i) = p.rfind('/') {
        let dir = if p.starts_with('/') { p[..i].to_string() } else { format!("{CWD}/{}", &p[..i]) };
        if vfs.resolve(&dir, true).map(|r| r.ino.is_none()).unwrap_or(true) && !dir.contains("..") {
            vfs.mkdir_p(&dir);
        }
    }
    let mut h = 0;
    loop {
        let (_, done) = apply_change(vfs, c, h);
        if done {
            break;
        }
        h += 1;
    }
}

/// Build the initial world of a case.
pub fn build_world(files: &[Change]) -> Vfs {
    let mut v = Vfs::new();
    for c in files {
        apply_all(&mut v, c);
    }
    v.checkpoint();
    v
}
