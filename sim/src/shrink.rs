//! Minimising a failing case: drop and simplify parts of it while a violation
//! of the same class remains.
use crate::case::*;
use crate::props;
use crate::world::*;
use std::time::{Duration, Instant};

pub struct Shrunk {
    pub case: Case,
    pub violation: Violation,
    pub evals: usize,
}

struct S<'a> {
    ctx: &'a mut Ctx,
    class: String,
    best: Case,
    violation: Violation,
    evals: usize,
    max: usize,
    until: Instant,
}

impl S<'_> {
    fn left(&self) -> bool {
        self.evals < self.max && Instant::now() < self.until
    }
    /// Keep the candidate if it fails in the same way.
    fn attempt(&mut self, c: Case) -> bool {
        if !self.left() || c == self.best {
            return false;
        }
        self.evals += 1;
        let v = props::judge(self.ctx, &c);
        match v.violations.into_iter().find(|x| x.class == self.class) {
            Some(x) => {
                self.best = c;
                self.violation = x;
                true
            }
            None => false,
        }
    }
    /// Remove runs of elements of a list, long ones first.
    fn drop_from(&mut self, len: impl Fn(&Case) -> usize, cut: impl Fn(&mut Case, usize, usize)) -> bool {
        let mut any = false;
        let mut size = len(&self.best).max(1);
        while size >= 1 {
            let mut at = 0;
            while at < len(&self.best) && self.left() {
                let n = size.min(len(&self.best) - at);
                let mut c = self.best.clone();
                cut(&mut c, at, n);
                if self.attempt(c) {
                    any = true;
                } else {
                    at += size;
                }
            }
            if size == 1 {
                break;
            }
            size = (size / 2).max(1);
        }
        any
    }
    fn edit(&mut self, f: impl Fn(&mut Case)) -> bool {
        let mut c = self.best.clone();
        f(&mut c);
        self.attempt(c)
    }

    fn pass(&mut self) -> bool {
        let mut any = false;
        any |= self.drop_from(|c| c.steps.len(), |c, at, n| {
            c.steps.drain(at..at + n);
        });
        any |= self.drop_from(|c| c.files.len(), |c, at, n| {
            c.files.drain(at..at + n);
        });
        for i in 0..self.best.steps.len() {
            let Step::Run { runs, actors, .. } = &self.best.steps[i] else { continue };
            let (nr, na) = (runs.len(), actors.len());
            fn run(c: &mut Case, i: usize) -> (&mut Vec<RunSpec>, &mut Vec<Vec<Change>>, &mut Vec<u8>) {
                match &mut c.steps[i] {
                    Step::Run { runs, actors, schedule } => (runs, actors, schedule),
                    _ => unreachable!(),
                }
            }
            any |= self.edit(|c| run(c, i).2.clear());
            if nr > 1 {
                any |= self.drop_from(
                    move |c| if let Step::Run { runs, .. } = &c.steps[i] { runs.len().saturating_sub(1) } else { 0 },
                    move |c, at, n| {
                        run(c, i).0.drain(at + 1..at + 1 + n);
                    },
                );
                any |= self.edit(|c| {
                    if run(c, i).0.len() > 1 {
                        run(c, i).0.remove(0);
                    }
                });
            }
            if na > 0 {
                any |= self.drop_from(
                    move |c| if let Step::Run { actors, .. } = &c.steps[i] { actors.len() } else { 0 },
                    move |c, at, n| {
                        run(c, i).1.drain(at..at + n);
                    },
                );
            }
            let na = if let Step::Run { actors, .. } = &self.best.steps[i] { actors.len() } else { 0 };
            for k in 0..na {
                any |= self.drop_from(
                    move |c| if let Step::Run { actors, .. } = &c.steps[i] { actors[k].len() } else { 0 },
                    move |c, at, n| {
                        run(c, i).1[k].drain(at..at + n);
                    },
                );
            }
            // The schedule: shorten it, then switch less often.
            loop {
                let n = run(&mut self.best.clone(), i).2.len();
                if n == 0 || !self.edit(|c| run(c, i).2.truncate(n / 2)) {
                    break;
                }
                any = true;
            }
            let n = run(&mut self.best.clone(), i).2.len();
            for k in 0..n.min(400) {
                if k < run(&mut self.best.clone(), i).2.len() && run(&mut self.best.clone(), i).2[k] != 0 {
                    any |= self.edit(|c| run(c, i).2[k] = 0);
                }
            }
            let nr = run(&mut self.best.clone(), i).0.len();
            for k in 0..nr {
                any |= self.drop_from(
                    move |c| if let Step::Run { runs, .. } = &c.steps[i] { runs[k].faults.len() } else { 0 },
                    move |c, at, n| {
                        run(c, i).0[k].faults.drain(at..at + n);
                    },
                );
                any |= self.drop_from(
                    move |c| if let Step::Run { runs, .. } = &c.steps[i] { runs[k].streams.len() } else { 0 },
                    move |c, at, n| {
                        run(c, i).0[k].streams.drain(at..at + n);
                    },
                );
                any |= self.edit(|c| run(c, i).0[k].io = Io::default());
                any |= self.edit(|c| run(c, i).0[k].disk_free = None);
                any |= self.edit(|c| run(c, i).0[k].max_fds = None);
                any |= self.edit(|c| run(c, i).0[k].env.clear());
                any |= self.edit(|c| run(c, i).0[k].umask = None);
                any |= self.edit(|c| run(c, i).0[k].hash_seed = 0);
                any |= self.edit(|c| run(c, i).0[k].pid = 0);
                any |= self.edit(|c| run(c, i).0[k].clock = 0);
                // Arguments, except the subcommand.
                let args = run(&mut self.best.clone(), i).0[k].args.clone();
                for a in (1..args.len()).rev() {
                    if args[a] == "-s" || args[a] == "--solidity-version" {
                        continue;
                    }
                    let valued = a > 0 && matches!(args[a - 1].as_str(), "-s" | "--solidity-version");
                    any |= self.edit(|c| {
                        let v = &mut run(c, i).0[k].args;
                        if a < v.len() && v[a] == args[a] {
                            v.remove(a);
                            if valued {
                                v.remove(a - 1);
                            }
                        }
                    });
                }
            }
        }
        any
    }
    fn contents(&mut self) -> bool {
        let mut any = false;
        for i in 0..self.best.files.len() {
            fn content(c: &Case, i: usize) -> Option<(&str, &Content)> {
                match &c.files[i] {
                    Change::Replace { path, content } | Change::Overwrite { path, content } | Change::Create { path, content } => Some((path, content)),
                    _ => None,
                }
            }
            fn set(c: &mut Case, i: usize, b: Vec<u8>) {
                match &mut c.files[i] {
                    Change::Replace { content, .. } | Change::Overwrite { content, .. } | Change::Create { content, .. } => *content = Content::from_bytes(&b),
                    _ => {}
                }
            }
            let Some((path, _)) = content(&self.best, i) else { continue };
            let sol = path.ends_with(".sol") && self.best.property != "P15";
            let lines = |c: &Case| -> Vec<Vec<u8>> {
                content(c, i).map(|(_, x)| x.bytes().split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect()).unwrap_or_default()
            };
            any |= self.drop_from(
                |c| lines(c).len(),
                |c, at, n| {
                    let mut l = lines(c);
                    let cut: Vec<u8> = l.drain(at..at + n).flatten().collect();
                    // Solidity is cut at balanced places only, so that it
                    // stays what the properties speak about.
                    if !sol || balanced(&cut) {
                        set(c, i, l.concat());
                    }
                },
            );
            if !sol {
                let n = content(&self.best, i).map(|x| x.1.bytes().len()).unwrap_or(0);
                if n <= 2000 {
                    any |= self.drop_from(
                        |c| content(c, i).map(|x| x.1.bytes().len()).unwrap_or(0),
                        |c, at, n| {
                            let mut b = content(c, i).unwrap().1.bytes();
                            b.drain(at..at + n);
                            set(c, i, b);
                        },
                    );
                }
            }
        }
        any
    }
}

fn balanced(b: &[u8]) -> bool {
    let mut depth = 0i64;
    for &c in b {
        match c {
            b'{' | b'(' | b'[' => depth += 1,
            b'}' | b')' | b']' => {
                depth -= 1;
                if depth < 0 {
                    return false;
                }
            }
            _ => {}
        }
    }
    let t = String::from_utf8_lossy(b);
    depth == 0 && t.matches("/*").count() == t.matches("*/").count() && t.matches('"').count() % 2 == 0
}

pub fn shrink(ctx: &mut Ctx, case: Case, violation: Violation, max: usize, time: Duration) -> Shrunk {
    let mut s = S { ctx, class: violation.class.clone(), best: case, violation, evals: 0, max, until: Instant::now() + time };
    loop {
        let a = s.pass();
        let b = s.contents();
        if !(a || b) || !s.left() {
            break;
        }
    }
    Shrunk { case: s.best, violation: s.violation, evals: s.evals }
}
