//! A case is one fully explicit simulated execution: files, runs, faults,
//! schedule.  It is what a seed expands to and what a replay file contains.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Content {
    Text(String),
    Hex(String),
}
impl Content {
    pub fn from_bytes(b: &[u8]) -> Content {
        match std::str::from_utf8(b) {
            Ok(s) => Content::Text(s.to_string()),
            Err(_) => Content::Hex(b.iter().map(|x| format!("{x:02x}")).collect()),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Content::Text(s) => s.clone().into_bytes(),
            Content::Hex(h) => (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0))
                .collect(),
        }
    }
    pub fn text(&self) -> Option<String> {
        String::from_utf8(self.bytes()).ok()
    }
}

/// One change to the file system made by something other than bulloak.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Change {
    /// Write a temporary file and rename it over the path.
    Replace { path: String, content: Content },
    /// Truncate and write in place (the way a simple editor does), in two halves.
    Overwrite { path: String, content: Content },
    /// Create the file if it does not exist (like `set -C; >file`).
    Create { path: String, content: Content },
    Delete { path: String },
    Symlink { path: String, target: String },
    Mkdir { path: String },
    Chmod { path: String, mode: u32 },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[serde(rename_all = "snake_case")]
pub enum Class {
    Open,
    Read,
    Write,
    Close,
    Seek,
    Stat,
    Fsync,
    Rename,
    Link,
    Unlink,
    Chmod,
    Truncate,
    Mkdir,
    Readlink,
    Cwd,
    Readdir,
    Clock,
    Other,
    /// Any call at all (used for kills at the n-th call).
    Any,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum FaultKind {
    /// The call fails with this errno, once.
    Errno(i32),
    /// The call and every later matching one fails.
    Sticky(i32),
    /// A read or write transfers at most this many bytes, once.
    Short(usize),
    /// A write stores this many bytes, and every later one on that file fails.
    Torn(usize, i32),
    /// The process is killed before the call.
    KillBefore,
    /// The process is killed right after the call.
    KillAfter,
    /// The process is killed after this many bytes of the write were stored.
    KillTorn(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub class: Class,
    /// Zero-based count among the calls that match class and path.
    pub nth: u32,
    /// Suffix of the path the call is about; None matches all.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub path: Option<String>,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Io {
    /// Largest number of bytes a read / write moves (0: unlimited).
    #[serde(default)]
    pub read_max: usize,
    #[serde(default)]
    pub write_max: usize,
    /// Every n-th read/write/open is interrupted first (0: never).
    #[serde(default)]
    pub eintr_every: u32,
    /// Seed for jitter of chunk sizes (0: no jitter).
    #[serde(default)]
    pub jitter: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct StreamFault {
    /// 1 or 2.
    pub fd: i32,
    /// The stream accepts this many bytes, then fails.
    pub after: usize,
    pub errno: i32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct RunSpec {
    pub args: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub streams: Vec<StreamFault>,
    #[serde(default)]
    pub io: Io,
    #[serde(default)]
    pub hash_seed: u64,
    #[serde(default)]
    pub pid: u32,
    #[serde(default)]
    pub clock: i64,
    /// Free bytes on the disk while this run lasts.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub disk_free: Option<i64>,
    /// Files the run may have open at a time, besides the standard streams.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub max_fds: Option<usize>,
    /// The working directory, if not the usual one.
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub cwd: String,
    /// Further environment variables.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub env: Vec<(String, String)>,
    /// The file mode creation mask, if not 022.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub umask: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Step {
    /// One or more runs at the same time, with other actors, under a schedule.
    /// Schedule entry 0: let the current one go on; n: switch to runnable n-1.
    Run {
        runs: Vec<RunSpec>,
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        actors: Vec<Vec<Change>>,
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        schedule: Vec<u8>,
    },
    Edit(Change),
    PowerLoss { keep: usize, data: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub files: Vec<Change>,
    pub steps: Vec<Step>,
    /// Property-specific parameters.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub params: Vec<i64>,
}

impl RunSpec {
    pub fn new(args: &[&str]) -> RunSpec {
        RunSpec { args: args.iter().map(|s| s.to_string()).collect(), ..Default::default() }
    }
    pub fn of(args: Vec<String>) -> RunSpec {
        RunSpec { args, ..Default::default() }
    }
    /// The same command without faults or odd I/O.
    pub fn clean(&self) -> RunSpec {
        RunSpec { args: self.args.clone(), ..Default::default() }
    }
}
