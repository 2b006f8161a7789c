//! P29: options mean the same however they are spelt, and a command line that
//! is refused or asks for help does nothing.
use super::*;
use std::collections::BTreeSet as Set;

#[derive(Clone, Debug, PartialEq, Eq)]
enum Line {
    Refused,
    Help,
    Run { cmd: String, on: Set<&'static str>, version: Option<String>, files: Vec<String> },
}
const SCAFFOLD: &[(&str, Option<char>)] = &[("write-files", Some('w')), ("force-write", Some('f')), ("solidity-version", Some('s')), ("vm-skip", Some('S')), ("skip-modifiers", Some('m'))];
const CHECK: &[(&str, Option<char>)] = &[("fix", None), ("stdout", None), ("skip-modifiers", Some('m'))];

/// The documented options, read independently.
fn read(args: &[String]) -> Line {
    let Some(first) = args.first() else { return Line::Refused };
    let opts = match first.as_str() {
        "scaffold" => SCAFFOLD,
        "check" => CHECK,
        "help" if args.len() == 1 => return Line::Help,
        "help" if args.len() == 2 && matches!(args[1].as_str(), "scaffold" | "check" | "help") => return Line::Help,
        "-h" | "--help" | "-V" | "--version" => return Line::Help,
        _ => return Line::Refused,
    };
    let mut on: Set<&'static str> = Set::new();
    let mut version = None;
    let mut files = vec![];
    let mut i = 1;
    let mut rest = false;
    while i < args.len() {
        let a = &args[i];
        i += 1;
        if rest || !a.starts_with('-') || a == "-" {
            files.push(a.clone());
            continue;
        }
        if a == "--" {
            rest = true;
            continue;
        }
        let mut found: Vec<(&'static str, Option<String>)> = vec![];
        if let Some(l) = a.strip_prefix("--") {
            let (n, v) = l.split_once('=').map_or((l, None), |(n, v)| (n, Some(v.to_string())));
            if n == "help" && v.is_none() {
                return Line::Help;
            }
            let Some(o) = opts.iter().find(|o| o.0 == n) else { return Line::Refused };
            found.push((o.0, v));
        } else {
            let c: Vec<char> = a.chars().skip(1).collect();
            let mut k = 0;
            while k < c.len() {
                if c[k] == 'h' {
                    return Line::Help;
                }
                let Some(o) = opts.iter().find(|o| o.1 == Some(c[k])) else { return Line::Refused };
                k += 1;
                if o.0 == "solidity-version" && k < c.len() {
                    let v: String = c[k..].iter().collect();
                    found.push((o.0, Some(v.strip_prefix('=').unwrap_or(&v).to_string())));
                    break;
                }
                found.push((o.0, None));
            }
        }
        for (n, v) in found {
            if n == "solidity-version" {
                let v = match v {
                    Some(v) => v,
                    None => {
                        let Some(v) = args.get(i).filter(|v| !v.starts_with('-')) else { return Line::Refused };
                        i += 1;
                        v.clone()
                    }
                };
                if version.replace(v).is_some() {
                    return Line::Refused;
                }
            } else if v.is_some() || !on.insert(n) {
                return Line::Refused;
            }
        }
    }
    if on.contains("force-write") && !on.contains("write-files") || on.contains("stdout") && !on.contains("fix") {
        return Line::Refused;
    }
    Line::Run { cmd: first.clone(), on, version, files }
}

/// The same command line, spelt another way.
fn respelt(r: &mut Rng, args: &[String]) -> Vec<String> {
    let Line::Run { cmd, on, version, files } = read(args) else { return args.to_vec() };
    let opts = if cmd == "scaffold" { SCAFFOLD } else { CHECK };
    let short = |n: &str| opts.iter().find(|o| o.0 == n).and_then(|o| o.1);
    let mut words: Vec<Vec<String>> = vec![];
    let mut cluster = String::new();
    let mut names: Vec<&str> = on.iter().copied().collect();
    r.shuffle(&mut names);
    for n in names {
        match short(n) {
            Some(c) if r.chance(1, 2) => cluster.push(c),
            Some(c) if r.chance(1, 2) => words.push(vec![format!("-{c}")]),
            _ => words.push(vec![format!("--{n}")]),
        }
    }
    if let Some(v) = version.or_else(|| (cmd == "scaffold" && r.chance(1, 3)).then(|| "0.8.0".to_string())) {
        match r.below(6) {
            0 => words.push(vec!["-s".into(), v]),
            1 => words.push(vec![format!("-s{v}")]),
            2 => words.push(vec![format!("-s={v}")]),
            3 => words.push(vec![format!("--solidity-version={v}")]),
            4 if !cluster.is_empty() => {
                words.push(vec![format!("-{cluster}s"), v]);
                cluster.clear();
            }
            _ => words.push(vec!["--solidity-version".into(), v]),
        }
    }
    if !cluster.is_empty() {
        words.push(vec![format!("-{cluster}")]);
    }
    r.shuffle(&mut words);
    let mut v = vec![cmd];
    if r.chance(1, 3) {
        v.extend(words.concat());
        if r.chance(1, 2) {
            v.push("--".into());
        }
        v.extend(files);
    } else {
        // Options between the files.
        let mut f = files.into_iter().peekable();
        let mut w = words.into_iter().peekable();
        while f.peek().is_some() || w.peek().is_some() {
            if w.peek().is_some() && (f.peek().is_none() || r.chance(1, 2)) {
                v.extend(w.next().unwrap());
            } else {
                v.extend(f.next());
            }
        }
    }
    v
}
fn refused(r: &mut Rng, args: &[String]) -> Vec<String> {
    let mut v = args.to_vec();
    let at = 1 + r.below(v.len());
    match r.below(12) {
        0 => v.insert(at, r.pick(&["--nope", "--write", "--dry-run", "-x", "--fix=yes", "-q", "--Write-Files", "--skip_modifiers", "--force"]).to_string()),
        1 => v.insert(at, if v[0] == "check" { "-w" } else { "--fix" }.into()),
        2 => v[0] = r.pick(&["scafold", "Check", "fix", "frob", "format", "SCAFFOLD"]).to_string(),
        3 => {
            v.remove(0);
        }
        4 => {
            v.retain(|a| !matches!(a.as_str(), "-w" | "--write-files" | "-wf"));
            v.insert(1, if v[0] == "check" { "--stdout" } else { "-f" }.into());
            v.retain(|a| a != "--fix");
        }
        5 => v.push("-s".into()),
        6 => v.insert(at, r.pick(&["--help", "-h"]).to_string()),
        7 => v = vec![r.pick(&["--help", "-h", "--version", "-V", "help"]).to_string()],
        8 => v = vec![],
        9 => v = vec!["help".into(), r.pick(&["scaffold", "check", "nothing"]).to_string()],
        10 => {
            // An option twice.
            let o: Vec<String> = v.iter().filter(|a| a.starts_with('-') && a.as_str() != "-s").cloned().collect();
            if o.is_empty() {
                v.insert(at, "-mm".into());
            } else {
                let x = r.pick(&o).clone();
                v.push(x);
            }
        }
        _ => {
            // No files at all.
            let files = parse_cmd(&v).trees;
            v.retain(|a| !files.contains(a));
        }
    }
    v
}

pub fn generate(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 3), sols: if r.chance(1, 2) { Sols::Fixable } else { Sols::Mixed }, bad: r.chance(1, 4), user: true, helpers: r.chance(1, 4) };
    let w = world(ctx, r, &o);
    let mut base = RunSpec::of(any_cmd(r, &w.args()));
    env(r, &mut base);
    let v = build_world(&w.files);
    if r.chance(1, 3) {
        let re = ctx.reference(&v, &base.args);
        let mix = FaultMix { errors: true, shorts: true, by_path: true, ..Default::default() };
        add_faults(r, &mut base, &re.ops, mix, 1);
    }
    if r.chance(1, 4) {
        base.io = draw_io(r);
    }
    let mut steps = vec![run_step(base.clone())];
    for _ in 0..r.range(1, 2) {
        let mut s = base.clone();
        s.args = respelt(r, &base.args);
        steps.push(run_step(s));
    }
    if r.chance(2, 3) {
        let mut s = base.clone();
        s.args = refused(r, &base.args);
        steps.push(run_step(s));
    }
    case(w.files, steps)
}

pub fn judge(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let pre = build_world(&c.files);
    let mut done: Vec<(Line, RunSpec, ProcOut, Vfs)> = vec![];
    for st in &c.steps {
        let Step::Run { runs, .. } = st else { continue };
        for s in runs {
            if !s.streams.is_empty() || s.disk_free.is_some() {
                continue;
            }
            let line = read(&s.args);
            let mut w = pre.clone();
            let mut ses = ctx.run(&mut w, s);
            let p = ses.procs.remove(0);
            let how = format!("`{}`", quote(&s.args));
            let known: Vec<String> = pre.list().keys().cloned().collect();
            let quiet = |v: &mut Verdict, what: &str| {
                if w.list() != pre.list() || ses.ops.iter().any(|o| o.mutates && !o.path.starts_with('<')) {
                    v.bad("effects of a command line that does nothing", format!("{how} {what}, but changes files: {:?}", ses.ops.iter().filter(|o| o.mutates).map(|o| format!("{} {}", o.name, o.path)).collect::<Vec<_>>()));
                }
                if let Some(o) = ses.ops.iter().find(|o| o.class == Class::Open && known.contains(&o.path) && (o.path.ends_with(".tree") || o.path.ends_with(".sol"))) {
                    v.bad("effects of a command line that does nothing", format!("{how} {what}, but opens {}", o.path));
                }
            };
            match &line {
                Line::Refused => {
                    quiet(v, "has to be refused");
                    if p.ok() || !matches!(p.exit, Exit::Code(_)) {
                        v.bad("wrong command line accepted", format!("{how} ends with {:?}", p.exit));
                    }
                    if p.err.is_empty() || !p.out.is_empty() {
                        v.bad("wrong command line not explained", format!("{how} prints {:?} and {:?}", p.stdout(), p.stderr()));
                    }
                    v.nontrivial = true;
                }
                Line::Help => {
                    quiet(v, "asks for help");
                    if !p.ok() || p.out.is_empty() {
                        v.bad("no help", format!("{how} ends with {:?} and prints {:?}", p.exit, p.stdout()));
                    }
                    v.nontrivial = true;
                }
                Line::Run { files, .. } => {
                    if files.is_empty() {
                        quiet(v, "lists no files");
                        if !p.ok() {
                            v.bad("nothing to do, but failed", format!("{how} ends with {:?}: {:?}", p.exit, p.stderr()));
                        }
                        v.nontrivial = true;
                    } else if matches!(p.exit, Exit::Code(2)) {
                        v.bad("right command line refused", format!("{how}: {:?}", strip_ansi(&p.stderr())));
                    }
                }
            }
            done.push((line, s.clone(), p, w));
        }
    }
    let same = |a: &Line, b: &Line| match (a, b) {
        (Line::Run { cmd, on, version, files }, Line::Run { cmd: c2, on: o2, version: v2, files: f2 }) => {
            let d = |v: &Option<String>| v.clone().unwrap_or_else(|| "0.8.0".into());
            cmd == c2 && on == o2 && files == f2 && d(version) == d(v2)
        }
        _ => false,
    };
    for (i, (l1, s1, p1, w1)) in done.iter().enumerate() {
        for (l2, s2, p2, w2) in &done[..i] {
            let (mut x, mut y) = (s1.clone(), s2.clone());
            x.args.clear();
            y.args.clear();
            if !same(l1, l2) || x != y {
                continue;
            }
            v.nontrivial |= s1.args != s2.args;
            let how = format!("`{}` and `{}`", quote(&s1.args), quote(&s2.args));
            if p1.exit != p2.exit || p1.out != p2.out || p1.err != p2.err {
                v.bad("spelling of options makes a difference", format!("{how} end with {:?} and {:?} and print {:?} {:?} and {:?} {:?}", p1.exit, p2.exit, p1.stdout(), p1.stderr(), p2.stdout(), p2.stderr()));
            }
            if w1.list() != w2.list() {
                v.bad("spelling of options makes a difference", format!("{how} leave different files"));
            }
        }
    }
}
