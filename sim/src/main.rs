//! Driver: spreads cases over worker processes, minimises and replays failures,
//! writes evidence.
mod case;
mod gen;
mod kernel;
mod model;
mod props;
mod rng;
mod scan;
mod shrink;
mod vfs;
mod world;

use case::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use world::*;

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
fn die(m: &str) -> ! {
    eprintln!("HARNESS-ERROR: {m}");
    std::process::exit(3)
}
fn new_ctx(trace: bool) -> Ctx {
    let t = root().join("target");
    let bin = std::env::var("SIM_BIN").unwrap_or_else(|_| t.join("bin/bulloak").to_string_lossy().into_owned());
    let shim = std::env::var("SIM_SHIM").unwrap_or_else(|_| t.join("shim.so").to_string_lossy().into_owned());
    let mut k = kernel::Kernel::new(&bin, &shim).unwrap_or_else(|e| die(&format!("cannot start {bin}: {e}")));
    k.trace = trace;
    Ctx { k, hash: 0, keep_trace: trace, traces: vec![] }
}
fn env_num(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

// ---- how much ------------------------------------------------------------------
struct Budget {
    cases: u64,
    wall: u64,
    shrink_evals: usize,
    shrink_s: u64,
}
/// Cases per tier: fixed numbers, so that the outcome is a function of the
/// seed; the wall limit only protects against a much slower machine.
fn budget(p: &str, thorough: bool) -> Budget {
    let quick = match p {
        "P01" => 32000,
        "P02" => 14000,
        "P03" => 13000,
        "P04" => 11000,
        "P05" => 11000,
        "P06" => 11000,
        "P07" => 20000,
        "P08" => 9500,
        "P09" => 12000,
        "P10" => 10000,
        "P11" => 6500,
        "P12" => 7500,
        "P13" => 12000,
        "P14" => 8500,
        "P15" => 36000,
        "P16" => 9000,
        "P17" => 1500,
        "P18" => 12000,
        "P20" => 8000,
        "P19" => 10000,
        "P21" => 9000,
        "P22" => 9000,
        "P23" => 13000,
        "P24" => 8000,
        "P25" => 8000,
        "P26" => 9000,
        "P27" => 9000,
        "P28" => 9000,
        "P29" => 9000,
        _ => 1000,
    };
    let quick = env_num("VERIF_CASES", quick);
    if thorough {
        Budget { cases: quick * env_num("VERIF_FACTOR", 40), wall: env_num("VERIF_WALL", 5400), shrink_evals: 6000, shrink_s: 300 }
    } else {
        Budget { cases: quick, wall: env_num("VERIF_WALL", 240), shrink_evals: 1200, shrink_s: 90 }
    }
}

/// Samples are for reading: cut very long file contents.
fn shorten(v: &mut serde_json::Value) {
    match v {
        serde_json::Value::String(s) if s.chars().count() > 1500 => {
            let n = s.chars().count();
            *s = format!("{}... ({n} characters)", s.chars().take(500).collect::<String>());
        }
        serde_json::Value::Array(a) => a.iter_mut().for_each(shorten),
        serde_json::Value::Object(o) => o.values_mut().for_each(shorten),
        _ => {}
    }
}

// ---- known findings ------------------------------------------------------------
struct Finding {
    property: String,
    class: String,
    key: String,
    text: String,
}
/// Lines `finding: property=P.. class="..." key="..." text`, where key is a
/// part of the violation's description that names what fails.  `fixed:` lines
/// and anything else suppress nothing.
fn findings() -> Vec<Finding> {
    let s = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        let Some(rest) = l.strip_prefix("finding: property=") else { continue };
        let Some((p, rest)) = rest.split_once(' ') else { continue };
        let q = |name: &str, s: &str| -> Option<(String, String)> {
            let s = s.trim_start().strip_prefix(name)?.strip_prefix("=\"")?;
            let (a, b) = s.split_once('"')?;
            Some((a.to_string(), b.to_string()))
        };
        let Some((class, rest)) = q("class", rest) else { die(&format!("bad finding line: {l}")) };
        let Some((key, rest)) = q("key", &rest) else { die(&format!("bad finding line: {l}")) };
        v.push(Finding { property: p.into(), class, key, text: rest.trim().into() });
    }
    v
}
fn listed<'a>(f: &'a [Finding], p: &str, v: &Violation) -> Option<&'a Finding> {
    f.iter().find(|f| f.property == p && f.class == v.class && v.detail.contains(&f.key))
}

// ---- workers -------------------------------------------------------------------
#[derive(Serialize, Deserialize, Default)]
struct Report {
    /// Lowest failing case of this worker.
    failing: Option<(u64, String, String)>,
    known: BTreeMap<String, u64>,
    done: u64,
    last: u64,
    capped: bool,
    nontrivial: Vec<u64>,
    hashes: Vec<(u64, u64)>,
    processes: u64,
    calls: u64,
    sim_ns: u64,
    switches: u64,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    logs: Vec<u64>,
    shapes: Vec<u64>,
}

fn worker(a: &[String]) {
    let (p, seed, w, n, limit, wall, stop) =
        (&a[0], num(&a[1]), num(&a[2]), num(&a[3]), num(&a[4]), num(&a[5]), PathBuf::from(&a[6]));
    let known = findings();
    let mut ctx = new_ctx(false);
    let mut rep = Report::default();
    let t0 = Instant::now();
    let mut i = w;
    while i < limit {
        if t0.elapsed().as_secs() >= wall {
            rep.capped = true;
            break;
        }
        if let Ok(s) = std::fs::read_to_string(&stop) {
            if s.trim().parse::<u64>().is_ok_and(|k| k < i) {
                break;
            }
        }
        let c = props::gen(p, &mut ctx, seed, i);
        let v = props::judge(&mut ctx, &c);
        rep.done += 1;
        rep.last = i;
        if v.nontrivial {
            rep.nontrivial.push(rng::hash_bytes(1, &serde_json::to_vec(&(&c.files, &c.steps)).unwrap()));
        }
        if i % 16 == 3 {
            rep.hashes.push((i, v.hash));
        }
        let mut new = None;
        for x in v.violations {
            match listed(&known, p, &x) {
                Some(f) => *rep.known.entry(format!("{} {} {}", f.class, f.key, f.text)).or_default() += 1,
                None => new = new.or(Some(x)),
            }
        }
        if let Some(x) = new {
            rep.failing = Some((i, x.class, x.detail));
            let _ = std::fs::write(&stop, format!("{i}"));
            break;
        }
        i += n;
    }
    let s = std::mem::take(&mut ctx.k.stats);
    rep.processes = s.processes;
    rep.calls = s.calls;
    rep.sim_ns = s.sim_ns;
    rep.switches = s.switches;
    rep.fired = s.fired;
    rep.probes = s.probes;
    rep.logs = s.logs.into_iter().collect();
    rep.shapes = s.shapes.into_iter().collect();
    println!("{}", serde_json::to_string(&rep).unwrap());
}
fn num(s: &str) -> u64 {
    s.parse().unwrap_or_else(|_| die(&format!("not a number: {s}")))
}
fn workers() -> u64 {
    env_num("SIM_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16))
}
fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("sim-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap_or_else(|e| die(&format!("{}: {e}", d.display())));
    d
}
fn spread(p: &str, seed: u64, limit: u64, wall: u64, n: u64) -> Vec<Report> {
    let dir = scratch();
    let stop = dir.join("stop");
    let me = std::env::current_exe().unwrap();
    let kids: Vec<_> = (0..n)
        .map(|w| {
            Command::new(&me)
                .arg("worker")
                .arg(p)
                .args([seed, w, n, limit, wall].map(|x| x.to_string()))
                .arg(&stop)
                .stdout(Stdio::piped())
                .spawn()
                .unwrap_or_else(|e| die(&format!("cannot start a worker: {e}")))
        })
        .collect();
    let mut reps = vec![];
    for k in kids {
        let o = k.wait_with_output().unwrap_or_else(|e| die(&format!("worker: {e}")));
        if !o.status.success() {
            die(&format!("a worker ended with {}", o.status));
        }
        let l = o.stdout.lines().map_while(Result::ok).last().unwrap_or_default();
        reps.push(serde_json::from_str::<Report>(&l).unwrap_or_else(|e| die(&format!("worker report: {e}"))));
    }
    let _ = std::fs::remove_file(&stop);
    let _ = std::fs::remove_dir(&dir);
    reps
}

// ---- replay files ----------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    what: String,
    seed: u64,
    index: u64,
    /// Hash of the event logs; an exact replay has the same.
    log: String,
    case: Case,
    shrink_evaluations: usize,
    /// What happened, call by call.
    trace: Vec<String>,
}

fn replay(file: &Path) -> i32 {
    let s = std::fs::read_to_string(file).unwrap_or_else(|e| die(&format!("{}: {e}", file.display())));
    let r: Replay = serde_json::from_str(&s).unwrap_or_else(|e| die(&format!("{}: {e}", file.display())));
    let mut ctx = new_ctx(true);
    let v = props::judge(&mut ctx, &r.case);
    for l in &ctx.traces {
        println!("{l}");
    }
    let same = format!("{:016x}", v.hash) == r.log;
    match v.violations.iter().find(|x| x.class == r.class) {
        Some(x) => {
            println!("{}: {}", x.class, brief(&x.detail));
            println!("event log {}", if same { "identical to the recorded one" } else { "differs from the recorded one (the program has changed)" });
            println!("VIOLATION property={} replay={}", r.property, file.display());
            1
        }
        None => {
            println!("not reproduced: {} ({})", r.property, r.class);
            0
        }
    }
}
/// Does the file reproduce, exactly, in a fresh process?
fn confirm(file: &Path) -> (bool, bool) {
    let o = Command::new(std::env::current_exe().unwrap()).arg("replay").arg(file).output();
    match o {
        Ok(o) => (o.status.code() == Some(1), String::from_utf8_lossy(&o.stdout).contains("identical to the recorded one")),
        Err(_) => (false, false),
    }
}
fn record(ctx: &mut Ctx, case: &Case, violation: &Violation, evals: usize, file: &Path) {
    ctx.keep_trace = true;
    ctx.k.trace = true;
    let v = props::judge(ctx, case);
    let r = Replay {
        property: case.property.clone(),
        class: violation.class.clone(),
        what: violation.detail.clone(),
        seed: case.seed,
        index: case.index,
        log: format!("{:016x}", v.hash),
        case: case.clone(),
        shrink_evaluations: evals,
        trace: std::mem::take(&mut ctx.traces),
    };
    ctx.keep_trace = false;
    ctx.k.trace = false;
    if let Some(d) = file.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(file, serde_json::to_string_pretty(&r).unwrap()).unwrap_or_else(|e| die(&format!("{}: {e}", file.display())));
}

// ---- check -----------------------------------------------------------------------
fn check(p: &str) -> i32 {
    if !props::ALL.contains(&p) {
        die(&format!("unknown property {p}"));
    }
    let seed = env_num("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let b = budget(p, thorough);
    let n = workers();
    println!("{p}: seed {seed}, {} cases, {n} workers", b.cases);
    let t0 = Instant::now();
    let reps = spread(p, seed, b.cases, b.wall, n);
    let search_s = t0.elapsed().as_secs_f64();

    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut done = 0;
    let mut nontrivial = BTreeSet::new();
    let mut st = kernel::Stats::default();
    let mut first: Option<(u64, String, String)> = None;
    let mut capped = false;
    let mut hashes = vec![];
    for r in reps {
        done += r.done;
        capped |= r.capped;
        nontrivial.extend(r.nontrivial);
        for (k, v) in r.known {
            *known.entry(k).or_default() += v;
        }
        hashes.extend(r.hashes);
        st.merge(kernel::Stats {
            processes: r.processes,
            calls: r.calls,
            sim_ns: r.sim_ns,
            fired: r.fired,
            probes: r.probes,
            logs: r.logs.into_iter().collect(),
            shapes: r.shapes.into_iter().collect(),
            switches: r.switches,
        });
        if let Some(f) = r.failing {
            if first.as_ref().map_or(true, |g| f.0 < g.0) {
                first = Some(f);
            }
        }
    }
    let mut ctx = new_ctx(false);

    // The same seeds once more, in another process and order: event logs must agree.
    let mut rechecked = 0;
    if first.is_none() {
        hashes.sort();
        let t = Instant::now();
        for (i, h) in hashes.iter().rev().step_by((hashes.len() / 24).max(1)) {
            let c = props::gen(p, &mut ctx, seed, *i);
            let v = props::judge(&mut ctx, &c);
            if v.hash != *h {
                die(&format!("case {i} of {p} is not deterministic"));
            }
            rechecked += 1;
            if t.elapsed().as_secs() > 20 {
                break;
            }
        }
    }

    // Samples for the evidence.
    let mut samples = vec![];
    for i in 0..40 {
        let c = props::gen(p, &mut ctx, seed, i);
        let v = props::judge(&mut ctx, &c);
        if v.nontrivial {
            let mut x = serde_json::to_value(&c).unwrap();
            shorten(&mut x);
            samples.push(x);
            if samples.len() == 2 {
                break;
            }
        }
    }

    let mut code = 0;
    let mut violations = 0;
    if let Some((i, class, detail)) = first {
        violations = 1;
        let c = props::gen(p, &mut ctx, seed, i);
        println!("case {i}: {class}: {}", brief(&detail));
        let v = Violation { class, detail };
        let s = shrink::shrink(&mut ctx, c.clone(), v.clone(), b.shrink_evals, Duration::from_secs(b.shrink_s));
        let file = root().join("replays").join(format!("{p}-seed{seed}-case{i}.json"));
        record(&mut ctx, &s.case, &s.violation, s.evals, &file);
        let mut ok = confirm(&file);
        if !ok.0 {
            record(&mut ctx, &c, &v, 0, &file);
            ok = (0..3).map(|_| confirm(&file)).find(|o| o.0).unwrap_or((false, false));
        }
        if !ok.0 {
            die(&format!("case {i} of {p} failed ({}: {}), but its replay does not", v.class, v.detail));
        }
        println!("minimised with {} evaluations; replays {}", s.evals, if ok.1 { "exactly" } else { "with another event log" });
        println!("{}: {}", s.violation.class, brief(&s.violation.detail));
        println!("VIOLATION property={p} replay={}", file.display());
        code = 1;
    }
    for f in findings().iter().filter(|f| f.property == p) {
        println!("KNOWN-FINDING: property={p} {} ({}; {})", f.text, f.class, f.key);
    }

    let wall = t0.elapsed().as_secs_f64();
    let per_h = |x: f64| (x / search_s.max(0.001) * 3600.0).round() as u64;
    let ev = serde_json::json!({
        "property": p,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": violations,
        "assumptions": props::ASSUMPTIONS,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": nontrivial.len(),
            "rule": props::rule(p),
            "samples": samples,
            "stopped_by_wall_limit": capped,
            "simulated_processes": st.processes,
            "simulated_system_calls": st.calls,
            "simulated_time_s": (st.sim_ns as f64 / 1e9 * 10.0).round() / 10.0,
            "cases_per_hour": per_h(done as f64),
            "simulated_processes_per_hour": per_h(st.processes as f64),
            "workers": n,
            "faults_fired": st.fired,
            "probes": st.probes,
            "context_switches": st.switches,
            "distinct_event_logs": st.logs.len(),
            "distinct_interleavings": {
                "count": st.shapes.len(),
                "measure": "sequences of (who, system call, kind of path, errno, injected) over one session, ended by the exit statuses",
            },
            "deterministic_reruns": rechecked,
            "known_findings_hit": known,
            "real_code": props::REAL,
            "stubs": props::STUBS,
        },
    });
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{p}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap_or_else(|e| die(&format!("evidence: {e}")));
    if code == 0 {
        println!(
            "{p}: held in {done} cases ({} distinct non-trivial), {} simulated processes, {} fault kinds, {:.0} s",
            nontrivial.len(),
            st.processes,
            st.fired.len(),
            wall
        );
    }
    code
}

/// Same seeds, different worker counts, fresh processes: same event logs.
fn selftest(cases: u64) -> i32 {
    let mut bad = 0;
    for p in props::ALL {
        let mut all: Vec<BTreeMap<u64, u64>> = vec![];
        for n in [workers(), 3, workers(), 1 + workers() / 2] {
            let reps = spread(p, 7, cases, 3600, n);
            all.push(reps.into_iter().flat_map(|r| r.hashes).collect());
        }
        let mut k = 0;
        for (i, h) in &all[0] {
            for o in &all[1..] {
                if let Some(g) = o.get(i) {
                    k += 1;
                    if g != h {
                        println!("{p}: case {i} differs");
                        bad += 1;
                    }
                }
            }
        }
        println!("{p}: {k} comparisons");
        let _ = std::io::stdout().flush();
    }
    match props::spec::selftest() {
        Ok(n) => println!("model: {n} trees mean the same however they are drawn"),
        Err(e) => {
            println!("model: the drawing of a tree changes its meaning:\n{e}");
            bad += 1;
        }
    }
    println!("selftest: {bad} differences");
    (bad > 0) as i32
}

/// For development: all violation classes over a range of cases.
fn sweep(a: &[String]) {
    let mut ctx = new_ctx(false);
    let (seed, from, n) = (num(&a[1]), num(&a[2]), num(&a[3]));
    let t = Instant::now();
    let mut seen: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut nt = 0;
    for i in from..from + n {
        let c = props::gen(&a[0], &mut ctx, seed, i);
        let v = props::judge(&mut ctx, &c);
        nt += v.nontrivial as u64;
        for x in v.violations {
            if std::env::var_os("ALL").is_some() {
                println!("{i}: {}: {}", x.class, brief(&x.detail));
            }
            let e = seen.entry(x.class).or_insert((0, i, x.detail));
            e.0 += 1;
        }
    }
    println!("== {}: {nt} nontrivial of {n}, {:?}", a[0], t.elapsed());
    for (k, (c, i, d)) in seen {
        println!("   [{c}] {k} (case {i}): {}", d.chars().take(1500).collect::<String>());
    }
}
fn brief(s: &str) -> String {
    if s.chars().count() <= 1500 {
        return s.to_string();
    }
    s.chars().take(1500).collect::<String>() + " [...]"
}
fn show(p: &str, seed: u64, i: u64) {
    let mut ctx = new_ctx(false);
    let c = props::gen(p, &mut ctx, seed, i);
    println!("{}", serde_json::to_string_pretty(&c).unwrap());
    ctx.keep_trace = true;
    ctx.k.trace = true;
    let v = props::judge(&mut ctx, &c);
    for l in &ctx.traces {
        println!("{l}");
    }
    println!("{:?}", v);
}
/// For development: minimise one case and print it.
fn minimise(p: &str, seed: u64, i: u64, class: Option<&String>) {
    let mut ctx = new_ctx(false);
    let c = props::gen(p, &mut ctx, seed, i);
    let v = props::judge(&mut ctx, &c);
    let Some(x) = v.violations.into_iter().find(|x| class.is_none() || Some(&x.class) == class) else {
        println!("case {i} does not fail");
        return;
    };
    let s = shrink::shrink(&mut ctx, c, x, 3000, Duration::from_secs(120));
    println!("{}", serde_json::to_string_pretty(&s.case).unwrap());
    ctx.keep_trace = true;
    ctx.k.trace = true;
    props::judge(&mut ctx, &s.case);
    for l in &ctx.traces {
        println!("{l}");
    }
    println!("{} evaluations: {}: {}", s.evals, s.violation.class, brief(&s.violation.detail));
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") if a.len() == 2 => check(&a[1]),
        Some("replay") if a.len() == 2 => replay(Path::new(&a[1])),
        Some("worker") if a.len() == 8 => {
            worker(&a[1..]);
            0
        }
        Some("selftest") => selftest(a.get(1).map_or(160, |s| num(s))),
        Some("sweep") if a.len() == 5 => {
            sweep(&a[1..]);
            0
        }
        Some("show") if a.len() == 4 => {
            show(&a[1], num(&a[2]), num(&a[3]));
            0
        }
        Some("min") if a.len() >= 4 => {
            minimise(&a[1], num(&a[2]), num(&a[3]), a.get(4));
            0
        }
        _ => die("usage: sim check P | replay FILE | selftest [N] | sweep P SEED FROM N | show P SEED I | min P SEED I [CLASS]"),
    };
    std::process::exit(code);
}
