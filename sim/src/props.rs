//! The properties: how a seed becomes a case, and how a case is judged.
//!
//! `gen` may run the real binary (to derive Solidity files from what `scaffold`
//! prints and to aim faults at calls the command really makes); everything it
//! decides ends up in the case.  `judge` recomputes every expectation from the
//! case alone, so that a shrunk or edited case is judged by the same rules.
use crate::case::*;
use crate::gen::{self, Marks, SolOpts};
use crate::kernel::*;
use crate::rng::Rng;
use crate::scan;
use crate::vfs::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

#[path = "props/spec.rs"]
pub mod spec;
#[path = "props/usage.rs"]
mod usage;

pub const ALL: &[&str] = &[
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15",
    "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27", "P28", "P29",
];

pub fn gen(p: &str, ctx: &mut Ctx, seed: u64, index: u64) -> Case {
    let mut r = Rng::new(crate::rng::mix(seed ^ crate::rng::hash_bytes(11, p.as_bytes())) ^ index.wrapping_mul(0x9E37_79B9));
    let r = &mut r;
    let mut c = match p {
        "P01" => gen_p01(ctx, r),
        "P02" => gen_p02(ctx, r),
        "P03" => gen_p03(ctx, r),
        "P04" => gen_p04(ctx, r),
        "P05" => gen_p05(ctx, r),
        "P06" => gen_p06(ctx, r),
        "P07" => gen_p07(ctx, r),
        "P08" => gen_p08(ctx, r),
        "P09" => gen_p09(ctx, r),
        "P10" => gen_p10(ctx, r),
        "P11" => gen_p11(ctx, r),
        "P12" => gen_p12(ctx, r),
        "P13" => gen_p13(ctx, r),
        "P14" => gen_p14(ctx, r),
        "P15" if index == 0 => deep_parens(),
        "P15" if index == 1 => deep_levels(),
        "P15" => gen_p15(ctx, r),
        "P16" => gen_p16(ctx, r),
        "P17" => gen_p17(ctx, r),
        "P18" => gen_p18(ctx, r),
        "P20" => gen_p20(ctx, r),
        "P19" => gen_p19(ctx, r),
        "P21" | "P22" | "P23" | "P24" | "P25" | "P26" | "P27" | "P28" => spec::generate(p, ctx, r),
        "P29" => usage::generate(ctx, r),
        _ => panic!("unknown property {p}"),
    };
    c.property = p.to_string();
    c.seed = seed;
    c.index = index;
    c
}

pub fn judge(ctx: &mut Ctx, c: &Case) -> Verdict {
    ctx.hash = 0;
    ctx.traces.clear();
    let mut v = Verdict::default();
    match c.property.as_str() {
        "P01" => judge_p01(ctx, c, &mut v),
        "P02" => judge_p02(ctx, c, &mut v),
        "P03" => judge_p03(ctx, c, &mut v),
        "P04" => judge_p04(ctx, c, &mut v),
        "P05" => judge_p05(ctx, c, &mut v),
        "P06" => judge_p06(ctx, c, &mut v),
        "P07" => judge_p07(ctx, c, &mut v),
        "P08" => judge_p08(ctx, c, &mut v),
        "P09" => judge_p09(ctx, c, &mut v),
        "P10" => judge_p10(ctx, c, &mut v),
        "P11" => judge_p11(ctx, c, &mut v),
        "P12" => judge_p12(ctx, c, &mut v),
        "P13" => judge_p13(ctx, c, &mut v),
        "P14" => judge_p14(ctx, c, &mut v),
        "P15" => judge_p15(ctx, c, &mut v),
        "P16" => judge_p16(ctx, c, &mut v),
        "P17" => judge_p17(ctx, c, &mut v),
        "P18" => judge_p18(ctx, c, &mut v),
        "P20" => judge_p20(ctx, c, &mut v),
        "P19" => judge_p19(ctx, c, &mut v),
        "P21" | "P22" | "P23" | "P24" | "P25" | "P26" | "P27" | "P28" => spec::judge(ctx, c, &mut v),
        "P29" => usage::judge(ctx, c, &mut v),
        p => panic!("unknown property {p}"),
    }
    v.hash = ctx.hash;
    v
}

// ---- worlds ------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
enum Sols {
    /// None exists.
    Absent,
    /// Some exist: agreeing, with user code, with things to fix, arbitrary.
    Mixed,
    /// All exist and mostly need fixing.
    Fixable,
}
struct WOpts {
    n: (usize, usize),
    sols: Sols,
    /// Missing, invalid, unreadable inputs among them.
    bad: bool,
    user: bool,
    helpers: bool,
}
struct TreeF {
    /// As given on the command line.
    arg: String,
    model: Option<gen::Tree>,
}
struct World {
    files: Vec<Change>,
    trees: Vec<TreeF>,
    marks: Marks,
}
impl World {
    fn args(&self) -> Vec<String> {
        self.trees.iter().map(|t| t.arg.clone()).collect()
    }
    fn sols(&self) -> Vec<String> {
        self.trees.iter().map(|t| sol_path(&t.arg)).collect()
    }
}
fn put(path: &str, text: &str) -> Change {
    Change::Replace { path: path.to_string(), content: Content::from_bytes(text.as_bytes()) }
}
fn put_b(path: &str, b: &[u8]) -> Change {
    Change::Replace { path: path.to_string(), content: Content::from_bytes(b) }
}
const NAMES: &[&str] = &["a.tree", "spec/b.tree", "c.x.tree", "deep/er/d.tree", "Vault_e.tree", "f g.tree", "hspec", "UPPER.TREE", "dir.tree/g.tree", "données/été.tree", ".hidden.tree", "x.tree.tree"];

fn some_sol(ctx: &mut Ctx, r: &mut Rng, text: &str, o: &WOpts, m: &mut Marks) -> Option<String> {
    let base = ctx.scaffold_text(text.as_bytes(), &[])?;
    let heavy = o.sols == Sols::Fixable;
    let so = SolOpts {
        violate: heavy || r.chance(1, 2),
        user: o.user && r.chance(2, 3),
        no_contract: heavy,
        helpers: o.helpers && r.chance(1, 4),
        rename: r.chance(1, 3),
    };
    Some(gen::sol_from(r, &base, &so, m))
}

/// Now and then a long batch: many more files of a few kinds.
fn crowd(ctx: &mut Ctx, r: &mut Rng, w: &mut World, o: &WOpts) {
    if !r.chance(1, 80) {
        return;
    }
    let kinds: Vec<(gen::Tree, String, Option<String>)> = (0..3)
        .map(|_| {
            let t = gen::tree(r);
            let text = gen::finish(r, gen::render(&t));
            let s = match o.sols {
                Sols::Absent => None,
                _ => some_sol(ctx, r, &text, o, &mut w.marks),
            };
            (t, text, s)
        })
        .collect();
    let n = r.range(8, 130);
    for i in 0..n {
        let path = format!("many/t{i}.tree");
        let (t, text, sol) = r.pick(&kinds).clone();
        let bad = o.bad && r.chance(1, 40);
        let text = if bad { gen::invalid_tree(r) } else { text };
        w.files.push(put(&path, &text));
        if let (Some(s), true) = (sol, r.chance(3, 4)) {
            w.files.push(put(&sol_path(&path), &s));
        }
        let at = r.below(w.trees.len() + 1);
        w.trees.insert(at, TreeF { arg: path, model: (!bad).then_some(t) });
    }
}
fn world(ctx: &mut Ctx, r: &mut Rng, o: &WOpts) -> World {
    let mut w = World { files: vec![], trees: vec![], marks: Marks(0) };
    let n = r.range(o.n.0, o.n.1);
    let mut names: Vec<&str> = NAMES.to_vec();
    // Plain names most of the time.
    if r.chance(1, 2) {
        r.shuffle(&mut names);
    }
    for i in 0..n {
        let path = names[i].to_string();
        let arg = match r.below(8) {
            0 => format!("./{path}"),
            1 => format!("/w/{path}"),
            _ => path.clone(),
        };
        let bad = o.bad && r.chance(1, 4);
        let mut model = None;
        let text;
        if bad && r.chance(2, 3) {
            match r.below(5) {
                0 => {
                    // Missing altogether.
                    w.trees.push(TreeF { arg, model: None });
                    continue;
                }
                1 => {
                    w.files.push(Change::Mkdir { path: path.clone() });
                    w.trees.push(TreeF { arg, model: None });
                    continue;
                }
                2 => {
                    text = gen::tree_text(r);
                    w.files.push(put(&path, &text));
                    w.files.push(Change::Chmod { path: path.clone(), mode: 0 });
                }
                3 => {
                    // Not text.
                    let mut b = gen::tree_text(r).into_bytes();
                    let at = r.below(b.len() + 1);
                    b.insert(at, *r.pick(&[0xff, 0xe2, 0x80, 0xc3]));
                    while std::str::from_utf8(&b).is_ok() {
                        b.insert(at, 0xff);
                    }
                    w.files.push(put_b(&path, &b));
                    text = gen::tree_text(r);
                }
                _ => {
                    text = gen::invalid_tree(r);
                    w.files.push(put(&path, &text));
                }
            }
        } else {
            let mut t = gen::tree(r);
            if r.chance(1, 70) {
                gen::fatten(r, &mut t);
            }
            text = if r.chance(1, 12) { let k = r.range(10, 40); gen::big_tree(r, k) } else { gen::finish(r, gen::render(&t)) };
            model = Some(t);
            if r.chance(1, 24) {
                // The tree is a link; its Solidity file belongs next to the link.
                let real = format!("src/{i}.tree");
                w.files.push(put(&real, &text));
                w.files.push(Change::Symlink { path: path.clone(), target: abs(&real) });
            } else {
                w.files.push(put(&path, &text));
            }
        }
        let sol = sol_path(&path);
        let want = match o.sols {
            Sols::Absent => false,
            Sols::Mixed => r.chance(2, 3),
            Sols::Fixable => true,
        };
        if want {
            if bad && r.chance(1, 2) {
                match r.below(5) {
                    4 => w.files.push(put_b(&sol, b"// SPDX-License-Identifier: MIT\npragma solidity 0.8.0;\n\ncontract K { /* caf\xe9 */ }\n")),
                    0 => w.files.push(Change::Mkdir { path: sol.clone() }),
                    1 => w.files.push(put(&sol, "contract Broken { function f( }")),
                    2 => {
                        if let Some(s) = some_sol(ctx, r, &text, o, &mut w.marks) {
                            w.files.push(put(&sol, &s));
                            w.files.push(Change::Chmod { path: sol.clone(), mode: 0 });
                        }
                    }
                    _ => {}
                }
            } else if let Some(s) = some_sol(ctx, r, &text, o, &mut w.marks) {
                let mut s = s;
                if let (true, Some(m)) = (o.user && r.chance(1, 6), &mut model) {
                    // A pair that has been fixed before, and whose tree was edited since.
                    for _ in 0..r.range(1, 2) {
                        let old = gen::render(m);
                        let was = build_world(&[put("h.tree", &old), put("h.t.sol", &s)]);
                        let re = ctx.reference(&was, &["check".into(), "--fix".into(), "h.tree".into()]);
                        if let Some(d) = re.vfs.content(&abs("h.t.sol")) {
                            s = String::from_utf8_lossy(&d).into_owned();
                        }
                        *m = gen::edit_tree(r, m);
                    }
                    w.files.push(put(&path, &(gen::render(m) + "\n")));
                }
                w.files.push(put(&sol, &s));
                if r.chance(1, 20) {
                    w.files.push(Change::Chmod { path: sol.clone(), mode: 0o444 });
                }
            } else {
                w.files.push(put(&sol, "// SPDX-License-Identifier: MIT\npragma solidity 0.8.0;\n\ncontract Kept {\n    uint256 x = 1;\n}\n"));
            }
        }
        w.trees.push(TreeF { arg, model });
    }
    ages(r, &mut w.files);
    w
}
/// Files come about in any order, so that any of them may be the newest.
fn ages(r: &mut Rng, files: &mut Vec<Change>) {
    if !r.chance(1, 3) {
        return;
    }
    let mut groups: Vec<(String, Vec<Change>)> = vec![];
    for f in files.drain(..) {
        let p = abs(change_path(&f));
        match groups.iter_mut().find(|g| p.starts_with(&g.0) || g.0.starts_with(&p)) {
            Some(g) => g.1.push(f),
            None => groups.push((p, vec![f])),
        }
    }
    r.shuffle(&mut groups);
    files.extend(groups.into_iter().flat_map(|g| g.1));
}

fn scaffold_flags(r: &mut Rng) -> Vec<String> {
    let mut f: Vec<String> = vec![];
    if r.chance(1, 4) {
        f.push(if r.chance(1, 2) { "-m" } else { "--skip-modifiers" }.into());
    }
    if r.chance(1, 4) {
        f.push(if r.chance(1, 2) { "-S" } else { "--vm-skip" }.into());
    }
    if r.chance(1, 4) {
        f.push("-s".into());
        f.push((*r.pick(&["0.8.0", "0.7.6", ">=0.8.0", "^0.8.20", ">=0.8.19 <0.9.0"])).into());
    }
    f
}
fn cmd(head: &[&str], flags: &[String], trees: &[String]) -> Vec<String> {
    let mut v: Vec<String> = head.iter().map(|s| s.to_string()).collect();
    v.extend(flags.iter().cloned());
    v.extend(trees.iter().cloned());
    v
}
fn write_cmd(r: &mut Rng, trees: &[String]) -> Vec<String> {
    match r.below(3) {
        0 => cmd(&["scaffold", "-w"], &scaffold_flags(r), trees),
        1 => {
            let f = scaffold_flags(r);
            if r.chance(1, 2) { cmd(&["scaffold", "-wf"], &f, trees) } else { cmd(&["scaffold", "--write-files", "--force-write"], &f, trees) }
        }
        _ => fix_cmd(r, trees),
    }
}
fn fix_cmd(r: &mut Rng, trees: &[String]) -> Vec<String> {
    if r.chance(1, 4) { cmd(&["check", "--fix", "-m"], &[], trees) } else { cmd(&["check", "--fix"], &[], trees) }
}
fn check_cmd(r: &mut Rng, trees: &[String]) -> Vec<String> {
    if r.chance(1, 4) { cmd(&["check", "-m"], &[], trees) } else { cmd(&["check"], &[], trees) }
}
fn any_cmd(r: &mut Rng, trees: &[String]) -> Vec<String> {
    match r.below(6) {
        0 => cmd(&["scaffold"], &scaffold_flags(r), trees),
        1 => check_cmd(r, trees),
        2 => cmd(&["check", "--fix", "--stdout"], &[], trees),
        _ => write_cmd(r, trees),
    }
}
/// A fresh seed for hashing, a process id and a clock.
fn env(r: &mut Rng, s: &mut RunSpec) {
    s.hash_seed = if r.chance(1, 2) { r.next() >> 1 | 1 } else { 0 };
    if r.chance(1, 2) {
        s.pid = r.range(2, 4_000_000) as u32;
    }
    if r.chance(1, 2) {
        s.clock = *r.pick(&[-1_700_000_000_000_000_000, -86_400_000_000_000, 3_600_000_000_000, 4_000_000_000_000_000_000]);
    }
}
fn schedule(r: &mut Rng, len: usize, den: usize) -> Vec<u8> {
    (0..len).map(|_| if r.chance(1, den) { r.range(1, 4) as u8 } else { 0 }).collect()
}
fn run_step(spec: RunSpec) -> Step {
    Step::Run { runs: vec![spec], actors: vec![], schedule: vec![] }
}
fn case(files: Vec<Change>, mut steps: Vec<Step>) -> Case {
    // Large files are not delivered byte by byte.
    let size: usize = files.iter().map(|f| match f {
        Change::Replace { content: Content::Text(t), .. } => t.len(),
        _ => 0,
    }).sum();
    if size > 30_000 {
        for s in &mut steps {
            let Step::Run { runs, .. } = s else { continue };
            for x in runs {
                let least = |n: usize| if n == 0 { 0 } else { n.max(size / 128) };
                x.io.read_max = least(x.io.read_max);
                x.io.write_max = least(x.io.write_max);
            }
        }
    }
    Case { property: String::new(), seed: 0, index: 0, files, steps, params: vec![] }
}
fn add_faults(r: &mut Rng, spec: &mut RunSpec, ops: &[OpRec], mix: FaultMix, n: usize) {
    for _ in 0..n {
        if let Some(f) = draw_fault(r, ops, mix) {
            spec.faults.push(f);
        }
    }
}
/// Faults for a run that may happen on a file system without hard links; the
/// further faults then hit what the run does there.
fn add_faults_any_fs(ctx: &mut Ctx, r: &mut Rng, v: &Vfs, spec: &mut RunSpec, ops: &[OpRec], mix: FaultMix, n: usize) {
    let cm = parse_cmd(&spec.args);
    if !mix.no_links || cm.check || !cm.write || cm.force || !r.chance(1, 4) {
        return add_faults(r, spec, ops, mix, n);
    }
    let e = *r.pick(&[libc::EPERM, libc::EOPNOTSUPP]);
    spec.faults.push(Fault { class: Class::Link, nth: 0, path: None, kind: FaultKind::Sticky(e) });
    let mut w = v.clone();
    let s = ctx.run_obs(&mut w, std::slice::from_ref(spec), &[], &[], &Observe::default());
    add_faults(r, spec, &s.ops, mix, n);
}
fn out_paths(args: &[String]) -> Vec<String> {
    dedup(&parse_cmd(args).trees.iter().map(|t| abs(&sol_path(t))).collect::<Vec<_>>())
}
/// List some trees more than once, under the same or another spelling, where
/// the runs for one tree cannot get in each other's way.
fn repeat_trees(r: &mut Rng, spec: &mut RunSpec) {
    let cm = parse_cmd(&spec.args);
    if cm.trees.is_empty() || !spec.faults.is_empty() || !repeatable(&cm) {
        return;
    }
    let mut trees = cm.trees.clone();
    for _ in 0..r.range(1, 2) {
        let t = r.pick(&cm.trees).clone();
        let t = match r.below(4) {
            0 => abs(&t),
            1 if !t.starts_with('/') && !t.starts_with("./") => format!("./{t}"),
            _ => t,
        };
        let at = r.below(trees.len() + 1);
        trees.insert(at, t);
    }
    spec.args = with_trees(&spec.args, &trees);
}
/// Two runs on one tree in a batch do what each does alone.
fn repeatable(cm: &Cmd) -> bool {
    if cm.check { !cm.writes() } else { !cm.write || cm.force }
}
/// The outputs of the listed trees are separate, or sharing them does not matter.
fn independent(spec: &RunSpec, cm: &Cmd) -> bool {
    let mut t: Vec<String> = dedup(&cm.trees.iter().map(|t| abs(t)).collect::<Vec<_>>());
    t.sort();
    t.dedup();
    let outs = out_paths(&spec.args);
    if outs.len() == cm.trees.len() {
        return true;
    }
    spec.faults.is_empty() && repeatable(cm) && (outs.len() == t.len() || !cm.writes())
}
/// Where the name really is, following directories (and links at the end if asked).
fn canon(v: &Vfs, p: &str, follow: bool) -> String {
    v.resolve(p, follow).map(|r| r.path).unwrap_or_else(|_| p.to_string())
}
fn clean_spec(s: &RunSpec) -> bool {
    s.faults.is_empty() && s.streams.is_empty() && s.disk_free.is_none()
}
/// Apply the steps that are not runs.
fn other_step(v: &mut Vfs, s: &Step) {
    match s {
        Step::Edit(c) => apply_all(v, c),
        Step::PowerLoss { keep, data } => {
            let k = v.meta_synced + (*keep).min(v.meta.len() - v.meta_synced);
            v.power_loss(k, *data);
        }
        Step::Run { .. } => {}
    }
}
fn quote(args: &[String]) -> String {
    format!("bulloak {}", args.join(" "))
}

// ---- P01 ---------------------------------------------------------------------
fn gen_p01(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let mut w = world(ctx, r, &WOpts { n: (1, 3), sols: Sols::Absent, bad: r.clone().chance(1, 6), user: false, helpers: false });
    for s in w.sols() {
        let k = w.marks.next();
        let mark = format!("// existing {k}\ncontract Kept{k} {{}}\n");
        match r.below(12) {
            0..=4 => w.files.push(put(&s, &mark)),
            5 => w.files.push(put(&s, "")),
            6 => w.files.push(Change::Mkdir { path: s.clone() }),
            7 => {
                w.files.push(put("real.sol", &mark));
                w.files.push(Change::Symlink { path: s.clone(), target: "/w/real.sol".into() });
            }
            8 => w.files.push(Change::Symlink { path: s.clone(), target: "/w/gone.sol".into() }),
            9 => {
                w.files.push(put(&s, &mark));
                w.files.push(Change::Chmod { path: s.clone(), mode: *r.pick(&[0, 0o444, 0o200]) });
            }
            _ => {}
        }
    }
    let mut trees = w.args();
    if r.chance(1, 5) {
        let t = r.pick(&trees).clone();
        trees.push(t);
    }
    let mut spec = RunSpec::of(cmd(&["scaffold", "-w"], &scaffold_flags(r), &trees));
    env(r, &mut spec);
    let v = build_world(&w.files);
    let re = ctx.reference(&v, &spec.args);
    let mut actors = vec![];
    if r.chance(2, 3) {
        let mut a = vec![];
        for _ in 0..r.range(1, 2) {
            let p = r.pick(&w.sols()).clone();
            let k = w.marks.next();
            let content = Content::Text(if r.chance(1, 6) { String::new() } else { format!("// by another process {k}\n") });
            a.push(match r.below(4) {
                0 => Change::Replace { path: p, content },
                1 if r.chance(1, 2) => Change::Mkdir { path: p },
                _ => Change::Create { path: p, content },
            });
        }
        actors.push(a);
    }
    let nf = *r.pick(&[0, 0, 1, 1, 2]);
    // Without hard links the file system offers no way to store a complete file
    // under a name only if it is free, so that is not combined with other processes.
    let no_links = actors.is_empty();
    add_faults_any_fs(ctx, r, &v, &mut spec, &re.ops, FaultMix { errors: true, kills: true, shorts: true, by_path: false, no_links }, nf);
    if r.chance(1, 4) {
        spec.io = draw_io(r);
    }
    if r.chance(1, 12) {
        spec.disk_free = Some(r.below(2000) as i64);
    }
    let schedule = if actors.is_empty() {
        vec![]
    } else {
        // The other process acts at one or two uniformly chosen moments.
        let n = re.ops.len() + 4;
        let mut s = vec![0u8; n];
        for _ in 0..r.range(1, 3) {
            s[r.clone().below(n)] = 2;
            r.next();
        }
        s
    };
    case(w.files, vec![Step::Run { runs: vec![spec], actors, schedule }])
}
fn judge_p01(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, actors, schedule } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        if runs.iter().any(|s| parse_cmd(&s.args).check || parse_cmd(&s.args).force || !parse_cmd(&s.args).write) {
            continue;
        }
        let pre = vfs.clone();
        // Output names, and what they lead to.
        let mut guarded: BTreeMap<String, Option<usize>> = BTreeMap::new(); // -> creator, once it exists
        let mut outs: Vec<(String, BTreeSet<String>)> = vec![];
        for s in runs {
            for o in out_paths(&s.args) {
                let mut set = BTreeSet::new();
                for f in [false, true] {
                    set.insert(canon(&pre, &o, f));
                }
                outs.push((o, set));
            }
        }
        const OTHER: usize = usize::MAX;
        for (_, set) in &outs {
            for p in set {
                if pre.resolve(p, false).is_ok_and(|r| r.ino.is_some()) {
                    guarded.insert(p.clone(), Some(OTHER));
                } else {
                    guarded.insert(p.clone(), None);
                }
            }
        }
        let s = ctx.run_obs(&mut vfs, runs, actors, schedule, &Observe::default());
        let mut made: BTreeMap<(usize, String), usize> = BTreeMap::new();
        for op in &s.ops {
            for (p, t) in &op.touched {
                let Some(owner) = guarded.get_mut(p) else { continue };
                let by = op.proc;
                if by >= runs.len() {
                    *owner = if *t == Touch::Removed { None } else { Some(OTHER) };
                    continue;
                }
                match t {
                    Touch::Created => {
                        *owner = Some(by);
                        *made.entry((by, p.clone())).or_default() += 1;
                    }
                    _ if op.own && *t == Touch::Data => {}
                    _ => {
                        if let Some(o) = *owner {
                            // Touching what this very run made is no harm, as long as it
                            // is not a finished earlier output of the same run.
                            if o != by || (*t != Touch::Removed && *t != Touch::Meta) {
                                v.bad(
                                    "existing output touched",
                                    format!("`{}` did {:?} on {p}, which already existed (call {}: {})", quote(&runs[by].args), t, op.seq, op.name),
                                );
                            }
                        }
                        if *t == Touch::Removed {
                            *owner = None;
                        } else {
                            *owner = Some(by);
                        }
                    }
                }
            }
        }
        // What was there and nobody else touched is still there, unchanged.
        let actor_paths: BTreeSet<String> = actors.iter().flatten().map(|c| canon(&pre, &abs(change_path(c)), true)).collect();
        for (o, set) in &outs {
            for p in set {
                if actor_paths.contains(p) {
                    continue;
                }
                let (a, b) = (pre.list().get(p).cloned(), vfs.list().get(p).cloned());
                if a.is_some() && a != b {
                    v.bad("existing output changed", format!("{o} held {} before and {} after", entry(&a), entry(&b)));
                }
                v.nontrivial |= a.is_some();
            }
        }
        v.nontrivial |= !actors.is_empty();
        // Skipping is said.
        for (i, run) in runs.iter().enumerate() {
            let p = &s.procs[i];
            if !p.ok() {
                continue;
            }
            let err = strip_ansi(&p.stderr());
            for (o, set) in &outs {
                let listed = parse_cmd(&run.args).trees.iter().filter(|t| abs(&sol_path(t)) == *o).count();
                let created: usize = set.iter().map(|p| made.get(&(i, p.clone())).copied().unwrap_or(0)).sum();
                // Each spelling on the command line counts for the same output.
                let shown: Vec<String> = parse_cmd(&run.args).trees.iter().map(|t| sol_path(t)).filter(|t| abs(t) == *o).collect();
                let said = err
                    .lines()
                    .filter(|l| l.to_lowercase().contains("skip") && shown.iter().any(|t| l.contains(t.as_str())))
                    .count();
                if listed > created.min(1) && said + created.min(1) < listed {
                    v.bad(
                        "skip not reported",
                        format!("`{}` exited 0, left {o} alone {} time(s) but said so {said} time(s); stderr: {err:?}", quote(&run.args), listed - created.min(1)),
                    );
                }
            }
        }
    }
}
fn entry(e: &Option<Entry>) -> String {
    match e {
        Some(Entry::File(d)) => show(&Some(d.clone())),
        Some(e) => format!("{e:?}"),
        None => "<absent>".into(),
    }
}

// ---- P02 ---------------------------------------------------------------------
fn gen_p02(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 2), sols: if r.chance(1, 2) { Sols::Fixable } else { Sols::Mixed }, bad: false, user: true, helpers: false };
    let w = world(ctx, r, &o);
    let mut files = w.files.clone();
    if r.chance(1, 6) {
        // The output is a symbolic link.
        if let Some(p) = files.iter().position(|f| matches!(f, Change::Replace { path, .. } if path.ends_with(".t.sol"))) {
            if let Change::Replace { path, content } = files[p].clone() {
                files[p] = Change::Replace { path: "store/real.sol".into(), content };
                files.retain(|f| !matches!(f, Change::Chmod { path: q, .. } if *q == path));
                files.push(Change::Symlink { path, target: "/w/store/real.sol".into() });
            }
        }
    }
    let mut v = build_world(&files);
    let mut steps = vec![];
    for _ in 0..r.range(1, 2) {
        let mut spec = RunSpec::of(write_cmd(r, &w.args()));
        env(r, &mut spec);
        let re = ctx.reference(&v, &spec.args);
        let nf = *r.pick(&[0, 1, 1, 1, 2, 3]);
        let no_links = r.clone().chance(1, 5);
        add_faults_any_fs(ctx, r, &v, &mut spec, &re.ops, FaultMix { errors: true, kills: true, shorts: true, by_path: false, no_links }, nf);
        if r.chance(1, 3) {
            spec.io = draw_io(r);
        }
        if r.chance(1, 8) {
            spec.disk_free = Some(r.below(3000) as i64);
        }
        v = re.vfs;
        steps.push(run_step(spec));
    }
    if r.chance(1, 4) {
        steps.insert(1, Step::PowerLoss { keep: r.below(4), data: r.next() });
    }
    case(files, steps)
}
fn judge_p02(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, .. } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        for spec in runs {
            if !parse_cmd(&spec.args).writes() {
                continue;
            }
            vfs.checkpoint();
            let outs = out_paths(&spec.args);
            let re = ctx.reference(&vfs, &spec.args);
            let old = contents(&vfs, &outs);
            let new = contents(&re.vfs, &outs);
            v.nontrivial |= old != new && !(clean_spec(spec) && spec.io == Io::default());
            // What counts as complete: what the printing form of the command shows.
            let cm = parse_cmd(&spec.args);
            if re.out.ok() {
                for t in &cm.trees {
                    let o = abs(&sol_path(t));
                    let big = new.get(&o).and_then(|d| d.as_ref()).is_some_and(|d| d.len() > 2500);
                    if big && old.get(&o) != new.get(&o) {
                        if let Some(why) = incomplete(ctx, &re.vfs, &cm, t, &spec.args) {
                            v.bad("incomplete output", format!("`{}` leaves an incomplete file: {why}", quote(&spec.args)));
                        }
                    }
                }
            }
            let s = ctx.run_obs(&mut vfs, std::slice::from_ref(spec), &[], &[], &Observe { watch: outs.clone(), loss: true });
            let ok = |p: &String, d: &Option<Data>| old.get(p) == Some(d) || new.get(p) == Some(d);
            // Without hard links no primitive stores a complete file only if its
            // name is free: then only what a run leaves that ends by itself, and
            // that can clean up, counts.
            let no_links = s.ops.iter().any(|o| o.class == Class::Link && o.injected && matches!(o.err, libc::EPERM | libc::EOPNOTSUPP));
            if no_links && (s.procs[0].killed() || s.ops.iter().any(|o| o.class == Class::Unlink && o.err != 0)) {
                continue;
            }
            for w in s.watch.iter().filter(|_| !no_links) {
                if !w.odd && !ok(&w.path, &w.content) {
                    v.bad(
                        "torn output",
                        format!("after call {} of `{}`, {} holds {} (old: {}, complete new: {})", w.seq, quote(&spec.args), w.path, show(&w.content), show(&old[&w.path]), show(&new[&w.path])),
                    );
                }
            }
            for l in s.loss.iter().filter(|_| !no_links) {
                if !ok(&l.path, &l.content) {
                    v.bad(
                        "torn output after power loss",
                        format!("a power loss after call {} of `{}` ({}) leaves {} with {} (old: {})", l.seq, quote(&spec.args), l.how, l.path, show(&l.content), show(&old[&l.path])),
                    );
                }
            }
            for p in &outs {
                let d = vfs.content(p);
                if !ok(p, &d) {
                    v.bad("torn output", format!("`{}` left {p} with {}", quote(&spec.args), show(&d)));
                }
                // A power loss after the run has ended.
                let ino = if no_links { vfs.resolve(p, true).ok().and_then(|r| r.ino) } else { None };
                for (d, how) in ino.map(|i| vfs.loss_contents(i)).unwrap_or_default() {
                    if !ok(p, &Some(d.clone())) {
                        v.bad("torn output after power loss", format!("a power loss after the end of `{}` ({how}) leaves {p} with {}", quote(&spec.args), show(&Some(d))));
                    }
                }
            }
        }
    }
}

// ---- P03 ---------------------------------------------------------------------
fn gen_p03(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 4), sols: if r.chance(1, 2) { Sols::Fixable } else { Sols::Mixed }, bad: r.chance(1, 2), user: true, helpers: false };
    let mut w = world(ctx, r, &o);
    crowd(ctx, r, &mut w, &o);
    let mut spec = RunSpec::of(write_cmd(r, &w.args()));
    env(r, &mut spec);
    let v = build_world(&w.files);
    let re = ctx.reference(&v, &spec.args);
    let nf = *r.pick(&[0, 1, 1, 1, 2]);
    add_faults_any_fs(ctx, r, &v, &mut spec, &re.ops, FaultMix { errors: true, kills: false, shorts: true, by_path: false, no_links: true }, nf);
    if r.chance(1, 5) {
        spec.io = draw_io(r);
    }
    if r.chance(1, 6) {
        spec.disk_free = Some(r.below(2500) as i64);
    }
    case(w.files, vec![run_step(spec)])
}
fn judge_p03(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, .. } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        for spec in runs {
            let cm = parse_cmd(&spec.args);
            let pre = vfs.clone();
            let s = ctx.run(&mut vfs, spec);
            let p = &s.procs[0];
            if !cm.writes() || p.killed() {
                continue;
            }
            v.nontrivial = true;
            let err = p.stderr();
            let out = p.stdout();
            let mut sum_stored = 0;
            for t in &cm.trees {
                let o = abs(&sol_path(t));
                let one = ctx.reference(&pre, &with_trees(&spec.args, &[t.clone()]));
                let had = pre.resolve(&o, true).is_ok_and(|r| r.ino.is_some());
                let skip = !cm.check && !cm.force && had;
                let want = one.vfs.content(&o);
                let got = vfs.content(&o);
                let done = one.out.ok() && got == want && (skip || got.is_some());
                if done && cm.check {
                    sum_stored += fixed_count(&one.out.stdout()).unwrap_or(0);
                }
                if p.ok() && !skip {
                    if let Some(why) = incomplete(ctx, &vfs, &cm, t, &spec.args) {
                        v.bad("success without the result", format!("`{}` exited 0, but {why}", quote(&spec.args)));
                    }
                }
                if let (true, Some(f)) = (p.ok(), undecodable(&pre, &cm, t)) {
                    v.bad("success despite a bad input", format!("`{}` exited 0, but {f} is not text", quote(&spec.args)));
                }
                if p.ok() {
                    if !one.out.ok() {
                        v.bad("success despite a bad input", format!("`{}` exited 0, but {t} cannot be processed: {:?}", quote(&spec.args), strip_ansi(&one.out.stderr())));
                    } else if !done {
                        v.bad("success without the result", format!("`{}` exited 0, but {o} holds {} instead of {}", quote(&spec.args), show(&got), show(&want)));
                    } else if skip && !strip_ansi(&err).to_lowercase().contains("skip") {
                        v.bad("success without the result", format!("`{}` exited 0 and neither wrote {o} nor said it skipped it", quote(&spec.args)));
                    }
                } else if !done && !names(&err, t) {
                    v.bad("failed file not named", format!("`{}` exited {:?} and {t} was not processed, but stderr does not name it: {:?}", quote(&spec.args), p.exit, strip_ansi(&err)));
                }
            }
            if cm.check {
                if let Some(n) = fixed_count(&out) {
                    if n > sum_stored {
                        v.bad("fixed count too high", format!("`{}` reports {n} fixed issue(s), but only {sum_stored} belong to files that were stored", quote(&spec.args)));
                    }
                }
            }
        }
    }
}

/// Is what is stored for this tree less than what the command stands for?
/// (For scaffold, what it would print; for a fix, a file that passes.)
fn incomplete(ctx: &mut Ctx, v: &Vfs, cm: &Cmd, tree: &str, args: &[String]) -> Option<String> {
    let o = abs(&sol_path(tree));
    let d = v.content(&o)?;
    if cm.check {
        let mut a = vec!["check".to_string()];
        if cm.skip_mods {
            a.push("-m".into());
        }
        a.push(tree.to_string());
        let re = ctx.reference(v, &a);
        if !re.out.ok() {
            return Some(format!("{o} does not pass `{}`: {:?}", quote(&a), strip_ansi(&re.out.stderr())));
        }
        if let Agree::Differs { contract, missing, pairs } = agreement(ctx, v, tree, cm.skip_mods) {
            return Some(format!("{o} differs from {tree}: contract missing {contract}, missing {missing:?}, misplaced {pairs:?}"));
        }
        return None;
    }
    let a: Vec<String> = with_trees(args, &[tree.to_string()])
        .into_iter()
        .filter(|x| !matches!(x.as_str(), "-w" | "-f" | "-wf" | "-fw" | "--write-files" | "--force-write"))
        .collect();
    let re = ctx.reference(v, &a);
    let want = scan::flat(&re.out.stdout());
    let got = std::str::from_utf8(&d).ok().and_then(scan::flat);
    if re.out.ok() && want != got {
        return Some(format!("{o} holds {} and not what `{}` prints: {:?}", show(&Some(d)), quote(&a), re.out.stdout()));
    }
    None
}

/// A file this tree needs is not text: which one.
fn undecodable(v: &Vfs, cm: &Cmd, tree: &str) -> Option<String> {
    let mut need = vec![abs(tree)];
    if cm.check {
        need.push(abs(&sol_path(tree)));
    }
    need.into_iter().find(|p| v.content(p).is_some_and(|d| std::str::from_utf8(&d).is_err()))
}

// ---- P04 ---------------------------------------------------------------------
fn spec_sol(ctx: &mut Ctx, r: &mut Rng, text: &str, m: &mut Marks) -> Option<String> {
    let base = ctx.scaffold_text(text.as_bytes(), &[])?;
    let so = SolOpts { violate: r.chance(1, 2), user: r.chance(1, 2), no_contract: r.chance(1, 4), helpers: r.chance(1, 3), rename: r.chance(1, 5) };
    Some(gen::sol_from(r, &base, &so, m))
}
fn gen_p04(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 3), sols: Sols::Absent, bad: r.chance(1, 5), user: true, helpers: true };
    let mut w = world(ctx, r, &o);
    let mut texts: BTreeMap<String, String> = BTreeMap::new();
    for f in &w.files {
        if let Change::Replace { path, content } = f {
            texts.insert(path.clone(), content.text().unwrap_or_default());
        }
    }
    // In some worlds all pairs agree, with or without modifiers.
    let agree = r.chance(1, 6).then(|| r.chance(1, 2));
    for (p, t) in &texts {
        if let (Some(m), true) = (agree, r.chance(9, 10)) {
            let flags: &[&str] = if m { &["-m"] } else { &[] };
            if let Some(base) = ctx.scaffold_text(t.as_bytes(), flags) {
                let so = SolOpts { violate: false, user: r.chance(1, 2), no_contract: false, helpers: r.chance(1, 3), rename: false };
                let s = gen::sol_from(r, &base, &so, &mut w.marks);
                w.files.push(put(&sol_path(p), &s));
            }
        } else if r.chance(9, 10) {
            if let Some(s) = spec_sol(ctx, r, t, &mut w.marks) {
                let s = if r.chance(1, 25) { s.chars().take(s.chars().count() * 2 / 3).collect() } else { s };
                w.files.push(put(&sol_path(p), &s));
            }
        }
    }
    ages(r, &mut w.files);
    let mut steps = vec![];
    let mut v = build_world(&w.files);
    for _ in 0..r.range(1, 3) {
        if !steps.is_empty() {
            // Somebody edits a tree or a Solidity file.
            let i = r.below(w.trees.len());
            let arg = w.trees[i].arg.trim_start_matches("./").trim_start_matches("/w/").to_string();
            let e = match (&w.trees[i].model, r.below(3)) {
                (Some(m), 0 | 1) => {
                    let t = gen::edit_tree(r, m);
                    let text = gen::render(&t) + "\n";
                    w.trees[i].model = Some(t);
                    texts.insert(arg.clone(), text.clone());
                    Some(put(&arg, &text))
                }
                (Some(_), _) => {
                    let text = texts.get(&arg).cloned().unwrap_or_default();
                    spec_sol(ctx, r, &text, &mut w.marks).map(|s| put(&sol_path(&arg), &s))
                }
                _ => None,
            };
            if let Some(e) = e {
                apply_all(&mut v, &e);
                steps.push(Step::Edit(e));
            }
        }
        let mut spec = RunSpec::of(if agree == Some(true) && r.chance(3, 4) { cmd(&["check", "-m"], &[], &w.args()) } else { check_cmd(r, &w.args()) });
        env(r, &mut spec);
        if r.chance(1, 3) {
            let re = ctx.reference(&v, &spec.args);
            let n = r.range(1, 2);
            add_faults(r, &mut spec, &re.ops, FaultMix { errors: true, shorts: true, ..Default::default() }, n);
        }
        if r.chance(1, 6) {
            spec.io = draw_io(r);
        }
        steps.push(run_step(spec));
    }
    case(w.files, steps)
}
/// What `scaffold` says about this tree: the contract and its constructs.
fn expected(ctx: &mut Ctx, v: &Vfs, tree: &str) -> Option<(String, Vec<(String, String)>)> {
    let d = readable(v, tree)?;
    let text = ctx.scaffold_text(&d, &[])?;
    let s = scan::parse(&text)?;
    let c = s.items.iter().find(|i| i.kind == "contract")?;
    Some((c.name.clone(), scan::constructs(c)))
}
fn readable(v: &Vfs, p: &str) -> Option<Data> {
    let r = v.resolve(&abs(p), true).ok()?;
    match &v.nodes[r.ino?] {
        Node::File { data, mode, .. } if mode & 0o400 != 0 => Some(data.clone()),
        _ => None,
    }
}
#[derive(Debug)]
enum Agree {
    Yes,
    /// Cannot be compared at all.
    No(String),
    /// Missing names; pairs of which one is out of place.
    Differs { contract: bool, missing: Vec<String>, pairs: Vec<(String, String)> },
}
fn agreement(ctx: &mut Ctx, v: &Vfs, tree: &str, skip_mods: bool) -> Agree {
    let Some((name, want)) = expected(ctx, v, tree) else { return Agree::No("the tree is missing or invalid".into()) };
    let Some(d) = readable(v, &sol_path(tree)) else { return Agree::No("the Solidity file is missing or unreadable".into()) };
    let Ok(text) = std::str::from_utf8(&d) else { return Agree::No("the Solidity file is not text".into()) };
    let Some(src) = scan::parse(text) else { return Agree::No("the Solidity file does not parse".into()) };
    let Some(c) = src.contract(&name) else { return Agree::Differs { contract: true, missing: vec![], pairs: vec![] } };
    let have = scan::constructs(c);
    let mut missing = vec![];
    let mut pos: Vec<(usize, String)> = vec![];
    for (k, n) in &want {
        match have.iter().position(|(hk, hn)| hk == k && hn == n) {
            Some(i) => pos.push((i, n.clone())),
            None if skip_mods && k == "modifier" => {}
            None => missing.push(n.clone()),
        }
    }
    let mut pairs = vec![];
    for i in 0..pos.len() {
        for j in i + 1..pos.len() {
            if pos[i].0 > pos[j].0 {
                pairs.push((pos[i].1.clone(), pos[j].1.clone()));
            }
        }
    }
    if missing.is_empty() && pairs.is_empty() {
        Agree::Yes
    } else {
        Agree::Differs { contract: false, missing, pairs }
    }
}
/// Is this name in the text as a word of its own?
fn mentions(text: &str, name: &str) -> bool {
    let id = |c: char| c.is_alphanumeric() || c == '_' || c == '$';
    let mut from = 0;
    while let Some(i) = text[from..].find(name) {
        let (a, b) = (from + i, from + i + name.len());
        let l = text[..a].chars().next_back().is_some_and(id);
        let r = text[b..].chars().next().is_some_and(id);
        if !l && !r {
            return true;
        }
        from = b;
    }
    false
}
fn judge_p04(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, .. } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        for spec in runs {
            let cm = parse_cmd(&spec.args);
            let pre = vfs.clone();
            let s = ctx.run(&mut vfs, spec);
            if !cm.check || cm.fix {
                continue;
            }
            let p = &s.procs[0];
            let err = strip_ansi(&p.stderr());
            let mut all = true;
            for t in &cm.trees {
                let a = agreement(ctx, &pre, t, cm.skip_mods);
                v.nontrivial |= !matches!(a, Agree::No(_));
                if matches!(a, Agree::Yes) {
                    continue;
                }
                all = false;
                if p.ok() {
                    v.bad("check passes on a mismatch", format!("`{}` exited 0, but for {t}: {a:?}", quote(&spec.args)));
                }
                // A file that is balanced text, but no Solidity, is reported as such.
                let unparsable = err.contains("pars") && err.contains(&sol_path(t));
                if let (Agree::Differs { contract, missing, pairs }, true) = (&a, clean_spec(spec) && !unparsable) {
                    if *contract {
                        let n = expected(ctx, &pre, t).map(|x| x.0).unwrap_or_default();
                        // The tree's root may have characters that a contract's name cannot.
                        let letters: String = err.replace('-', "_").chars().filter(|c| c.is_alphanumeric() || matches!(c, '_' | '$')).collect();
                        if !mentions(&err, &n) && !letters.contains(&n) {
                            v.bad("missing contract not named", format!("`{}` does not name the missing contract {n}: {err:?}", quote(&spec.args)));
                        }
                    }
                    for m in missing {
                        if !mentions(&err, m) {
                            v.bad("missing construct not named", format!("`{}` does not name {m}, which {t} asks for: {err:?}", quote(&spec.args)));
                        }
                    }
                    for (a, b) in pairs {
                        if !mentions(&err, a) && !mentions(&err, b) {
                            v.bad("misplaced construct not named", format!("`{}` names neither {a} nor {b}, which are in the wrong order: {err:?}", quote(&spec.args)));
                        }
                    }
                }
            }
            if !p.ok() && all && clean_spec(spec) {
                v.bad("check fails on a match", format!("`{}` exited {:?}, but every pair agrees; stderr: {err:?}", quote(&spec.args), p.exit));
            }
            if !p.ok() && clean_spec(spec) && p.exit != Exit::Code(1) {
                v.bad("check ends oddly", format!("`{}` ended with {:?}; stderr: {err:?}", quote(&spec.args), p.exit));
            }
            if p.ok() && p.out.is_empty() {
                v.bad("success not reported", format!("`{}` exited 0 and printed nothing", quote(&spec.args)));
            }
        }
    }
}

// ---- P05 ---------------------------------------------------------------------
fn gen_p05(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (2, 4), sols: if r.chance(1, 2) { Sols::Fixable } else { Sols::Mixed }, bad: r.chance(3, 4), user: true, helpers: r.chance(1, 3) };
    let mut w = world(ctx, r, &o);
    crowd(ctx, r, &mut w, &o);
    let mut trees = w.args();
    r.shuffle(&mut trees);
    let mut spec = RunSpec::of(any_cmd(r, &trees));
    env(r, &mut spec);
    let v = build_world(&w.files);
    if r.chance(1, 2) {
        let re = ctx.reference(&v, &spec.args);
        let n = r.range(1, 3);
        add_faults(r, &mut spec, &re.ops, FaultMix { errors: true, by_path: true, shorts: true, ..Default::default() }, n);
    }
    if spec.faults.is_empty() && r.chance(1, 6) {
        repeat_trees(r, &mut spec);
    }
    if r.chance(1, 6) {
        spec.io = draw_io(r);
    }
    case(w.files, vec![run_step(spec)])
}
fn without_summary(out: &str) -> String {
    strip_ansi(out)
        .lines()
        .filter(|l| !(l.contains("issue fixed") || l.contains("issues fixed") || l.contains("All checks completed")))
        .map(|l| l.trim_end())
        .collect::<Vec<_>>()
        .join("\n")
        .trim_end()
        .to_string()
}
fn judge_p05(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, .. } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        for spec in runs {
            let cm = parse_cmd(&spec.args);
            // Two listed trees with the same output would legitimately interact.
            let outs = out_paths(&spec.args);
            if !independent(spec, &cm) || cm.trees.len() < 2 || cm.trees.iter().any(|t| outs.contains(&abs(t))) {
                continue;
            }
            if spec.faults.iter().any(|f| f.path.is_none()) || spec.disk_free.is_some() || !spec.streams.is_empty() {
                continue;
            }
            v.nontrivial = true;
            let outs: Vec<String> = cm.trees.iter().map(|t| abs(&sol_path(t))).collect();
            let pre = vfs.clone();
            let s = ctx.run(&mut vfs, spec);
            let b = &s.procs[0];
            let mut out = vec![];
            let mut diag = vec![];
            let mut ok = true;
            let mut fixed = 0;
            for (i, t) in cm.trees.iter().enumerate() {
                let mut w = pre.clone();
                let mut one = spec.clone();
                one.args = with_trees(&spec.args, &[t.clone()]);
                let s1 = ctx.run(&mut w, &one);
                let p = &s1.procs[0];
                ok &= p.ok();
                out.push(without_summary(&p.stdout()));
                diag.extend(diag_lines(&p.stderr()));
                fixed += fixed_count(&p.stdout()).unwrap_or(0);
                let (a, z) = (w.content(&outs[i]), vfs.content(&outs[i]));
                if a != z {
                    v.bad("stored content differs in a batch", format!("`{}` leaves {} with {}, alone it becomes {}", quote(&spec.args), outs[i], show(&z), show(&a)));
                }
            }
            if b.ok() != ok {
                v.bad("exit status differs in a batch", format!("`{}` exited {:?}, but {} alone; stderr {:?}", quote(&spec.args), b.exit, if ok { "every file succeeds" } else { "some file fails" }, strip_ansi(&b.stderr())));
            }
            let glue = |v: &[String]| v.iter().filter(|s| !s.trim().is_empty()).map(|s| s.trim_end()).collect::<Vec<_>>().join("\n").lines().filter(|l| !l.trim().is_empty()).collect::<Vec<_>>().join("\n");
            let (x, y) = (glue(&[without_summary(&b.stdout())]), glue(&out));
            if x != y {
                v.bad("printed output differs in a batch", format!("`{}` prints {x:?}, the files alone print {y:?}", quote(&spec.args)));
            }
            let mut d = diag_lines(&b.stderr());
            d.sort();
            diag.sort();
            if d != diag {
                let only: Vec<&String> = d.iter().filter(|l| !diag.contains(l)).chain(diag.iter().filter(|l| !d.contains(l))).collect();
                v.bad("diagnostics differ in a batch", format!("`{}`: {} lines in the batch, {} alone; differing: {only:?}", quote(&spec.args), d.len(), diag.len()));
            }
            if cm.check && cm.fix {
                if let Some(n) = fixed_count(&b.stdout()) {
                    if n != fixed {
                        v.bad("fixed count differs in a batch", format!("`{}` reports {n}, the files alone {fixed}", quote(&spec.args)));
                    }
                }
            }
        }
    }
}

// ---- P06 ---------------------------------------------------------------------
fn gen_p06(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 3), sols: if r.chance(1, 2) { Sols::Fixable } else { Sols::Mixed }, bad: r.chance(1, 2), user: true, helpers: r.chance(1, 3) };
    let mut w = world(ctx, r, &o);
    crowd(ctx, r, &mut w, &o);
    if r.chance(1, 3) {
        let i = r.below(w.trees.len());
        let p = w.trees[i].arg.trim_start_matches("./").trim_start_matches("/w/").to_string();
        w.files.retain(|f| change_path(f) != p);
        let t = gen::many_errors_tree(r);
        w.files.push(put(&p, &t));
    }
    let args = any_cmd(r, &w.args());
    let mut steps = vec![];
    for i in 0..r.range(2, 4) {
        let mut spec = RunSpec::of(args.clone());
        if i > 0 {
            env(r, &mut spec);
            spec.hash_seed = r.next() >> 1 | 1;
            if r.chance(1, 2) {
                spec.io = draw_io(r);
            }
        }
        steps.push(run_step(spec));
    }
    case(w.files, steps)
}
fn judge_p06(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let world = build_world(&c.files);
    let mut first: Option<(RunSpec, ProcOut, Vfs)> = None;
    for st in &c.steps {
        let Step::Run { runs, .. } = st else { continue };
        for spec in runs {
            if !clean_spec(spec) {
                continue;
            }
            let mut w = world.clone();
            let s = ctx.run(&mut w, spec);
            let p = s.procs[0].clone();
            let Some((_, p0, w0)) = &first else {
                first = Some((spec.clone(), p, w));
                continue;
            };
            if first.as_ref().unwrap().0.args != spec.args {
                continue;
            }
            v.nontrivial = true;
            let how = format!("`{}` with hash seed {}, pid {}, clock {}, io {:?}", quote(&spec.args), spec.hash_seed, spec.pid, spec.clock, spec.io);
            if p.out != p0.out {
                v.bad("standard output varies", format!("{how} prints {:?} instead of {:?}", p.stdout(), p0.stdout()));
            }
            if p.err != p0.err {
                v.bad("standard error varies", format!("{how} reports {:?} instead of {:?}", strip_ansi(&p.stderr()), strip_ansi(&p0.stderr())));
            }
            if p.exit != p0.exit {
                v.bad("exit status varies", format!("{how} ends with {:?} instead of {:?}", p.exit, p0.exit));
            }
            if w.list() != w0.list() {
                let (a, b) = (w.list(), w0.list());
                let d: Vec<&String> = a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).collect();
                v.bad("files vary", format!("{how} leaves different files: {d:?}"));
            }
        }
    }
}

// ---- P07 ---------------------------------------------------------------------
fn gen_p07(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 3), sols: if r.chance(1, 2) { Sols::Fixable } else { Sols::Mixed }, bad: r.chance(1, 3), user: true, helpers: false };
    let mut w = world(ctx, r, &o);
    // Bystanders with tempting names.
    for p in ["other.tree", "other.t.sol", "a.sol", "a.t.sol.bak", "spec/notes.txt", ".a.t.sol.tmp", "a.t.sol.tmp", "a.t.sol~", ".a.t.sol.4242-0.tmp"] {
        if r.chance(1, 3) {
            let k = w.marks.next();
            w.files.push(put(p, &format!("bystander {k}\n")));
        }
    }
    let mut steps = vec![];
    let mut v = build_world(&w.files);
    for _ in 0..r.range(1, 2) {
        let mut spec = RunSpec::of(any_cmd(r, &w.args()));
        env(r, &mut spec);
        let re = ctx.reference(&v, &spec.args);
        let n = *r.pick(&[0, 1, 1, 2, 3]);
        let kills = r.chance(1, 4);
        add_faults(r, &mut spec, &re.ops, FaultMix { errors: true, kills, shorts: true, by_path: false, no_links: true }, n);
        if r.chance(1, 6) {
            spec.io = draw_io(r);
        }
        if r.chance(1, 8) {
            spec.disk_free = Some(r.below(2500) as i64);
        }
        v = re.vfs;
        steps.push(run_step(spec));
    }
    case(w.files, steps)
}
fn judge_p07(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, .. } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        for spec in runs {
            let cm = parse_cmd(&spec.args);
            let pre = vfs.clone();
            let s = ctx.run(&mut vfs, spec);
            let p = &s.procs[0];
            v.nontrivial = true;
            let mut allowed = BTreeSet::new();
            if cm.writes() {
                for o in out_paths(&spec.args) {
                    if cm.check && !pre.resolve(&o, true).is_ok_and(|r| r.ino.is_some()) {
                        continue;
                    }
                    allowed.insert(canon(&pre, &o, false));
                    allowed.insert(canon(&pre, &o, true));
                }
            }
            let mut made: BTreeSet<String> = BTreeSet::new();
            let mut stuck: BTreeSet<String> = BTreeSet::new();
            for op in &s.ops {
                if op.injected && op.err != 0 && op.class == Class::Unlink {
                    // The run tried.
                    stuck.insert(canon(&pre, &abs(&op.path), false));
                }
                for (q, t) in &op.touched {
                    if allowed.contains(q) {
                        continue;
                    }
                    if !cm.writes() {
                        v.bad("read-only command changed something", format!("`{}` did {t:?} on {q} (call {})", quote(&spec.args), op.seq));
                        continue;
                    }
                    match t {
                        Touch::Created => {
                            made.insert(q.clone());
                        }
                        _ if made.contains(q) => {
                            if *t == Touch::Removed {
                                made.remove(q);
                            }
                        }
                        _ => v.bad("foreign file changed", format!("`{}` did {t:?} on {q}, which is none of its outputs (call {})", quote(&spec.args), op.seq)),
                    }
                }
            }
            let (a, b) = (pre.list(), vfs.list());
            for k in a.keys().chain(b.keys()) {
                if a.get(k) == b.get(k) || allowed.contains(k) {
                    continue;
                }
                if !a.contains_key(k) {
                    if p.killed() || stuck.contains(k) {
                        continue;
                    }
                    v.bad("file left behind", format!("`{}` ended with {:?} and left {k}", quote(&spec.args), p.exit));
                } else {
                    v.bad("foreign file changed", format!("`{}` changed {k}", quote(&spec.args)));
                }
            }
        }
    }
}

// ---- P08 ---------------------------------------------------------------------
fn gen_p08(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 3), sols: if r.chance(2, 3) { Sols::Fixable } else { Sols::Mixed }, bad: r.chance(1, 8), user: true, helpers: false };
    let w = world(ctx, r, &o);
    let args = write_cmd(r, &w.args());
    let v = build_world(&w.files);
    let re = ctx.reference(&v, &args);
    let mut steps = vec![];
    for _ in 0..r.range(1, 3) {
        let mut spec = RunSpec::of(args.clone());
        env(r, &mut spec);
        let n = r.range(1, 2);
        add_faults(r, &mut spec, &re.ops, FaultMix { errors: true, kills: true, shorts: true, by_path: false, no_links: false }, n);
        if r.chance(1, 6) {
            spec.io = draw_io(r);
        }
        if r.chance(1, 10) {
            spec.disk_free = Some(r.below(2500) as i64);
        }
        steps.push(run_step(spec));
        if r.chance(1, 3) {
            steps.push(Step::PowerLoss { keep: r.below(5), data: r.next() });
        }
    }
    let mut last = RunSpec::of(args);
    env(r, &mut last);
    steps.push(run_step(last));
    case(w.files, steps)
}
fn judge_p08(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let world = build_world(&c.files);
    let Some(args) = c.steps.iter().rev().find_map(|s| match s {
        Step::Run { runs, .. } => runs.first().map(|r| r.args.clone()),
        _ => None,
    }) else {
        return;
    };
    if !parse_cmd(&args).writes() {
        return;
    }
    let outs = out_paths(&args);
    let re = ctx.reference(&world, &args);
    let want = contents(&re.vfs, &outs);
    let mut vfs = world;
    for st in &c.steps {
        match st {
            Step::Run { runs, .. } => {
                for spec in runs {
                    if spec.args != args {
                        return;
                    }
                    let s = ctx.run(&mut vfs, spec);
                    v.nontrivial |= !s.procs[0].fired.is_empty();
                }
            }
            Step::Edit(_) => return,
            s => other_step(&mut vfs, s),
        }
    }
    // One run without faults, then another.
    let spec = RunSpec::of(args.clone());
    let s1 = ctx.run(&mut vfs, &spec);
    let got = contents(&vfs, &outs);
    for p in &outs {
        if got[p] != want[p] {
            v.bad(
                "rerun does not converge",
                format!("after the interrupted runs, `{}` leaves {p} with {} instead of {} (stderr {:?})", quote(&args), show(&got[p]), show(&want[p]), strip_ansi(&s1.procs[0].stderr())),
            );
        }
    }
    ctx.run(&mut vfs, &spec);
    let again = contents(&vfs, &outs);
    for p in &outs {
        if again[p] != got[p] {
            v.bad("second rerun changes the output", format!("running `{}` again changes {p} from {} to {}", quote(&args), show(&got[p]), show(&again[p])));
        }
    }
}

// ---- P09 ---------------------------------------------------------------------
fn gen_p09(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 2), sols: Sols::Fixable, bad: false, user: true, helpers: r.chance(1, 2) };
    let mut w = world(ctx, r, &o);
    let mut v = build_world(&w.files);
    let mut steps = vec![];
    for k in 0..r.range(1, 3) {
        if k > 0 && r.chance(2, 3) {
            let i = r.below(w.trees.len());
            if let Some(m) = w.trees[i].model.clone() {
                let t = gen::edit_tree(r, &m);
                let p = w.trees[i].arg.trim_start_matches("./").trim_start_matches("/w/").to_string();
                let e = put(&p, &(gen::render(&t) + "\n"));
                w.trees[i].model = Some(t);
                apply_all(&mut v, &e);
                steps.push(Step::Edit(e));
            }
        }
        let mut spec = RunSpec::of(fix_cmd(r, &w.args()));
        env(r, &mut spec);
        let re = ctx.reference(&v, &spec.args);
        if r.chance(1, 3) {
            let n = r.range(1, 2);
            add_faults(r, &mut spec, &re.ops, FaultMix { errors: true, kills: true, shorts: true, by_path: false, no_links: true }, n);
        }
        if r.chance(1, 8) {
            spec.io = draw_io(r);
        }
        v = re.vfs;
        steps.push(run_step(spec));
        if r.chance(1, 8) {
            steps.push(Step::PowerLoss { keep: r.below(5), data: r.next() });
        }
    }
    case(w.files, steps)
}
/// What the formatter may do to the spelling of code.
fn same_spelling(s: &str) -> String {
    s.to_string()
}
fn inv_of(src: &scan::Source, test: &str) -> scan::Inv {
    let mut v: scan::Inv = scan::inventory(src, test).into_iter().map(|(a, b)| (a, same_spelling(&b))).collect();
    v.retain(|(_, b)| !b.is_empty());
    v
}
/// Compare a Solidity file before and after a fix.
fn preserved(ctx: &mut Ctx, pre: &Vfs, tree: &str, a: &Option<Data>, b: &Option<Data>) -> Option<(String, String)> {
    if a == b {
        return None;
    }
    let Some(a) = a else { return None };
    let Some(b) = b else { return Some(("file lost".into(), "the Solidity file is gone".into())) };
    let ta = String::from_utf8_lossy(a);
    let Ok(tb) = std::str::from_utf8(b) else { return Some(("file corrupted".into(), "the Solidity file is not text any more".into())) };
    let Some(sa) = scan::parse(&ta) else { return Some(("unparsable file changed".into(), format!("a file that does not parse was changed to {}", show(&Some(b.clone()))))) };
    let Some(sb) = scan::parse(tb) else { return Some(("file corrupted".into(), format!("the fixed file does not parse: {}", show(&Some(b.clone()))))) };
    let Some((name, spec)) = expected(ctx, pre, tree) else { return Some(("changed without a valid tree".into(), show(&Some(b.clone())))) };
    // The test contract: the one with the right name, or one that was renamed to it.
    let mut cands: Vec<String> = vec![];
    if sa.contract(&name).is_some() {
        cands.push(name.clone());
    } else {
        for c in sa.items.iter().filter(|i| i.kind == "contract") {
            cands.push(c.name.clone());
        }
        cands.push(name.clone());
    }
    let mut best: Option<(String, String)> = None;
    for old in &cands {
        let ia = inv_of(&sa, old);
        let ib = inv_of(&sb, &name);
        let lost = scan::minus(&ia, &ib);
        let added = scan::minus(&ib, &ia);
        if !lost.is_empty() {
            let m = ("user code lost or changed".to_string(), format!("not there any more: {lost:?}; new: {added:?}"));
            if best.is_none() {
                best = Some(m);
            }
            continue;
        }
        // Only constructs of the spec that were not there, their comments, and markers may be new.
        let had: Vec<(String, String)> = sa.contract(old).map(scan::constructs).unwrap_or_default();
        let odd: Vec<(String, String)> = added
            .iter()
            .filter(|(place, what)| {
                if place == "contract <test contract>" && !sa.items.iter().any(|i| i.kind == "contract" && i.name == *old) {
                    return false;
                }
                if place.starts_with("pragma ") && !sa.items.iter().any(|i| i.kind == "pragma") {
                    return false;
                }
                if place == "comment in file" && what.contains("SPDX") && !sa.comments.iter().any(|c| c.contains("SPDX")) {
                    return false;
                }
                if place == "comment in <test contract>" && separator(what) {
                    return false;
                }
                for (k, n) in &spec {
                    let here = format!("{k} {n} in <test contract>");
                    if (*place == here || *place == format!("comment in {here}")) && !had.contains(&(k.clone(), n.clone())) {
                        return false;
                    }
                }
                true
            })
            .cloned()
            .collect();
        if !odd.is_empty() {
            if best.is_none() {
                best = Some(("something foreign added".to_string(), format!("new and not asked for by the tree: {odd:?}")));
            }
            continue;
        }
        // Each added construct once.
        for (k, n) in &spec {
            let here = format!("{k} {n} in <test contract>");
            let c = ib.iter().filter(|(p, _)| *p == here).count();
            let c0 = ia.iter().filter(|(p, _)| *p == here).count();
            if c > c0.max(1) {
                return Some(("construct duplicated".into(), format!("{here} is there {c} times")));
            }
        }
        return None;
    }
    best
}
fn separator(c: &str) -> bool {
    c.contains("AUTOGENERATED SEPARATOR")
        || c.contains("could not be automatically moved")
        || c.chars().all(|c| matches!(c, '<' | '>' | '=' | ' '))
}
fn judge_p09(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        match st {
            Step::Run { runs, .. } => {
                for spec in runs {
                    let cm = parse_cmd(&spec.args);
                    if !(cm.check && cm.fix) {
                        continue;
                    }
                    vfs.checkpoint();
                    let pre = vfs.clone();
                    let s = ctx.run(&mut vfs, spec);
                    for t in dedup(&cm.trees) {
                        let o = abs(&sol_path(&t));
                        let (a, b) = (pre.content(&o), vfs.content(&o));
                        v.nontrivial |= a != b;
                        if let Some((class, why)) = preserved(ctx, &pre, &t, &a, &b) {
                            v.bad(&class, format!("`{}` on {o} ({:?}): {why}", quote(&spec.args), s.procs[0].exit));
                        }
                    }
                }
            }
            Step::Edit(e) => apply_all(&mut vfs, e),
            Step::PowerLoss { .. } => {
                let pre = vfs.clone();
                other_step(&mut vfs, st);
                // The loss may bring back the state before the last run, never a damaged file.
                for (p, e) in pre.list() {
                    if p.ends_with(".t.sol") {
                        if let Entry::File(d) = e {
                            let b = vfs.content(&p);
                            let parse = |d: &Data| std::str::from_utf8(d).ok().and_then(scan::parse).is_some();
                            if parse(&d) && !b.as_ref().is_some_and(parse) {
                                v.bad("file lost in a power loss", format!("{p} held {} and after the power loss {}", show(&Some(d)), show(&b)));
                            }
                        }
                    }
                }
            }
        }
    }
}

// ---- P10 ---------------------------------------------------------------------
fn gen_p10(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 3), sols: Sols::Fixable, bad: r.chance(1, 5), user: true, helpers: r.chance(1, 3) };
    let mut w = world(ctx, r, &o);
    let mut steps = vec![];
    let args = fix_cmd(r, &w.args());
    for k in 0..r.range(1, 3) {
        if k > 0 {
            let i = r.below(w.trees.len());
            if let Some(m) = w.trees[i].model.clone() {
                let t = gen::edit_tree(r, &m);
                let p = w.trees[i].arg.trim_start_matches("./").trim_start_matches("/w/").to_string();
                steps.push(Step::Edit(put(&p, &(gen::render(&t) + "\n"))));
                w.trees[i].model = Some(t);
            }
        }
        let mut spec = RunSpec::of(args.clone());
        env(r, &mut spec);
        if r.chance(1, 8) {
            spec.io = draw_io(r);
        }
        steps.push(run_step(spec));
    }
    case(w.files, steps)
}
fn judge_p10(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, .. } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        for spec in runs {
            let cm = parse_cmd(&spec.args);
            let pre = vfs.clone();
            let s = ctx.run(&mut vfs, spec);
            // One listing per output: a file that is listed twice is fixed once, but reported twice.
            if !(cm.check && cm.fix && !cm.stdout) || !clean_spec(spec) || out_paths(&spec.args).len() != cm.trees.len() {
                continue;
            }
            // A file that may not be written cannot be fixed.
            if cm.trees.iter().any(|t| locked(&pre, &sol_path(t))) {
                continue;
            }
            let p = &s.procs[0];
            let mut args = vec!["check".to_string()];
            if cm.skip_mods {
                args.push("-m".into());
            }
            // Titles that make no valid Solidity leave nothing to fix with.
            let mut titles = false;
            for t in &cm.trees {
                let Some(d) = pre.content(&abs(t)) else { continue };
                if std::str::from_utf8(&d).is_ok() && ctx.scaffold_text(&d, &[]).is_none() {
                    let mut one = args.clone();
                    one.push(t.clone());
                    titles |= fixable_count(&ctx.reference(&pre, &one).out.stderr()) > 0;
                }
            }
            if titles {
                continue;
            }
            args.extend(cm.trees.iter().cloned());
            let before = ctx.reference(&pre, &args);
            let after = ctx.reference(&vfs, &args);
            let f0 = fixable_count(&before.out.stderr());
            let f1 = fixable_count(&after.out.stderr());
            v.nontrivial |= f0 > 0;
            if p.ok() && !after.out.ok() {
                v.bad("violations remain after a successful fix", format!("`{}` exited 0, but `{}` still reports {:?}", quote(&spec.args), quote(&args), strip_ansi(&after.out.stderr())));
            }
            if !p.ok() && f1 > 0 && p.exit == Exit::Code(1) {
                v.bad("fixable violations remain", format!("after `{}` (exit 1), `{}` still reports {f1} fixable: {:?}", quote(&spec.args), quote(&args), strip_ansi(&after.out.stderr())));
            }
            if p.ok() {
                // The independent scanner agrees.
                for t in &cm.trees {
                    let a = agreement(ctx, &vfs, t, cm.skip_mods);
                    if !matches!(a, Agree::Yes) {
                        v.bad("violations remain after a successful fix", format!("`{}` exited 0, but for {t}: {a:?}", quote(&spec.args)));
                    }
                }
            }
            if !matches!(p.exit, Exit::Code(0 | 1)) {
                v.bad("fix crashed", format!("`{}` ended with {:?}: {:?}", quote(&spec.args), p.exit, strip_ansi(&p.stderr())));
                continue;
            }
            match fixed_count(&p.stdout()) {
                Some(n) if n != f0 => v.bad("wrong number of fixed issues", format!("`{}` reports {n} fixed, but `{}` had found {f0} fixable", quote(&spec.args), quote(&args))),
                None if p.ok() => v.bad("no number of fixed issues", format!("`{}` exited 0 and printed {:?}", quote(&spec.args), p.stdout())),
                _ => {}
            }
        }
    }
}

/// Does this path lead to something that cannot be read and written?
fn locked(v: &Vfs, p: &str) -> bool {
    match v.resolve(&abs(p), true) {
        Ok(r) => match r.ino.map(|i| &v.nodes[i]) {
            Some(Node::File { mode, .. }) => mode & 0o600 != 0o600,
            _ => false,
        },
        Err(_) => false,
    }
}

// ---- P11 ---------------------------------------------------------------------
fn gen_p11(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 3), sols: if r.chance(1, 2) { Sols::Absent } else { Sols::Mixed }, bad: false, user: true, helpers: false };
    let mut w = world(ctx, r, &o);
    let flags = scaffold_flags(r);
    let m: Vec<String> = flags.iter().filter(|f| *f == "-m" || *f == "--skip-modifiers").cloned().collect();
    let trees = w.args();
    let mut steps = vec![];
    let mut v = build_world(&w.files);
    let mut push = |ctx: &mut Ctx, r: &mut Rng, v: &mut Vfs, args: Vec<String>, faulty: bool| {
        let mut spec = RunSpec::of(args);
        env(r, &mut spec);
        let re = ctx.reference(v, &spec.args);
        if faulty {
            let n = r.range(1, 2);
            add_faults(r, &mut spec, &re.ops, FaultMix { errors: true, kills: true, shorts: true, by_path: false, no_links: true }, n);
        }
        if r.chance(1, 10) {
            spec.io = draw_io(r);
        }
        *v = re.vfs;
        steps.push(run_step(spec));
    };
    if r.chance(1, 3) {
        let a = write_cmd(r, &trees);
        push(ctx, r, &mut v, a, true);
    }
    let head: &[&str] = if r.chance(1, 2) { &["scaffold", "-wf"] } else { &["scaffold", "-w"] };
    push(ctx, r, &mut v, cmd(head, &flags, &trees), r.clone().chance(1, 5));
    let k = r.range(2, 4);
    for _ in 0..k {
        let a = match r.below(7) {
            0 | 1 => cmd(&["check"], &m, &trees),
            2 | 3 => cmd(&["check", "--fix"], &m, &trees),
            4 => cmd(&["scaffold", "-w"], &flags, &trees),
            5 => cmd(&["check", "--fix", "--stdout"], &m, &trees),
            _ => cmd(&["scaffold"], &flags, &trees),
        };
        let f = r.chance(1, 5);
        push(ctx, r, &mut v, a, f);
    }
    push(ctx, r, &mut v, cmd(&["check"], &m, &trees), false);
    push(ctx, r, &mut v, cmd(&["check", "--fix"], &m, &trees), false);
    if r.chance(1, 3) {
        // Then the tree changes and everything starts over.
        let i = r.below(w.trees.len());
        if let Some(md) = w.trees[i].model.clone() {
            let t = gen::edit_tree(r, &md);
            let p = w.trees[i].arg.trim_start_matches("./").trim_start_matches("/w/").to_string();
            let e = put(&p, &(gen::render(&t) + "\n"));
            w.trees[i].model = Some(t);
            steps.push(Step::Edit(e));
            steps.push(run_step(RunSpec::of(cmd(&["scaffold", "-wf"], &flags, &trees))));
            steps.push(run_step(RunSpec::of(cmd(&["check"], &m, &trees))));
        }
    }
    case(w.files, steps)
}
fn judge_p11(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    // Output -> (modifier flag, content) while it is what scaffold stored.
    let mut stored: BTreeMap<String, (bool, Vec<String>)> = BTreeMap::new();
    let toks = |d: &Option<Data>| d.as_ref().and_then(|d| std::str::from_utf8(d).ok()).and_then(scan::flat);
    for st in &c.steps {
        let Step::Run { runs, .. } = st else {
            if let Step::Edit(e) = st {
                let p = abs(change_path(e));
                stored.remove(&p);
                stored.remove(&abs(&sol_path(&p)));
            } else {
                stored.clear();
            }
            other_step(&mut vfs, st);
            continue;
        };
        for spec in runs {
            let cm = parse_cmd(&spec.args);
            let outs = out_paths(&spec.args);
            let pre = vfs.clone();
            let s = ctx.run(&mut vfs, spec);
            let p = &s.procs[0];
            let known = !cm.trees.is_empty() && outs.iter().all(|o| stored.get(o).is_some_and(|x| x.0 == cm.skip_mods));
            if cm.check && known && clean_spec(spec) {
                v.nontrivial = true;
                if !p.ok() {
                    v.bad("scaffolded file fails check", format!("`{}` ended with {:?} on what scaffold stored: {:?}", quote(&spec.args), p.exit, strip_ansi(&p.stderr())));
                }
                if cm.fix && p.ok() && fixed_count(&p.stdout()) != Some(0) {
                    v.bad("scaffolded file is fixed", format!("`{}` prints {:?}", quote(&spec.args), p.stdout()));
                }
            }
            // Whatever ran on it, the content stays the same up to formatting.
            for o in &outs {
                let same_flag = stored.get(o).is_some_and(|x| x.0 == cm.skip_mods);
                if cm.check && same_flag {
                    if let Some((_, want)) = stored.get(o) {
                        let got = toks(&vfs.content(o));
                        if got.as_ref() != Some(want) {
                            v.bad("scaffolded file changed by check", format!("`{}` changed {o} from {} to {}", quote(&spec.args), show(&pre.content(o)), show(&vfs.content(o))));
                            stored.remove(o);
                        }
                    }
                }
            }
            if cm.check && cm.fix {
                for o in &outs {
                    if stored.get(o).is_some_and(|x| x.0 != cm.skip_mods) {
                        stored.remove(o);
                    }
                }
            }
            if !cm.check && cm.write {
                let touched: BTreeSet<&String> = s.ops.iter().filter(|o| o.proc == 0).flat_map(|o| o.touched.iter().map(|t| &t.0)).collect();
                // Without hard links a file is written in place, so a run cut short may leave a part of it.
                let torn = !p.ok() && s.ops.iter().any(|o| o.class == Class::Link && o.injected && matches!(o.err, libc::EPERM | libc::EOPNOTSUPP));
                for o in &outs {
                    if torn {
                        if vfs.content(o) != pre.content(o) {
                            stored.remove(o);
                        }
                        continue;
                    }
                    let d = vfs.content(o);
                    if d != pre.content(o) || (touched.contains(o) && p.ok()) {
                        match toks(&d) {
                            Some(t) => {
                                stored.insert(o.clone(), (cm.skip_mods, t));
                            }
                            None => {
                                stored.remove(o);
                                if p.ok() {
                                    v.bad("scaffolded file does not parse", format!("`{}` stored {} in {o}", quote(&spec.args), show(&d)));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

// ---- P12 ---------------------------------------------------------------------
fn gen_p12(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let race = r.chance(1, 2);
    let o = WOpts { n: (1, 2), sols: if race { Sols::Absent } else { Sols::Mixed }, bad: false, user: true, helpers: false };
    let w = world(ctx, r, &o);
    let v = build_world(&w.files);
    let mut runs = vec![];
    let mut ops = 0;
    let n = r.range(2, 3);
    for _ in 0..n {
        let mut trees = w.args();
        if r.chance(1, 3) {
            r.shuffle(&mut trees);
        }
        let args = if race { cmd(&["scaffold", "-w"], &scaffold_flags(r), &trees) } else { write_cmd(r, &trees) };
        let mut spec = RunSpec::of(args);
        env(r, &mut spec);
        // Two processes never share a process id.
        spec.pid = 1000 + runs.len() as u32 * 7;
        if r.chance(1, 12) && !runs.is_empty() {
            // ... unless they live in different containers on one volume.
            spec.pid = 1000;
        }
        let re = ctx.reference(&v, &spec.args);
        ops += re.ops.len();
        if r.chance(1, 4) {
            add_faults(r, &mut spec, &re.ops, FaultMix { errors: !race, kills: true, shorts: true, by_path: false, no_links: false }, 1);
        }
        if r.chance(1, 6) {
            spec.io = draw_io(r);
        }
        runs.push(spec);
    }
    let mut actors = vec![];
    if !race && r.chance(1, 4) {
        let i = r.below(w.trees.len());
        if let Some(m) = &w.trees[i].model {
            let t = gen::edit_tree(r, m);
            let p = w.trees[i].arg.trim_start_matches("./").trim_start_matches("/w/").to_string();
            actors.push(vec![put(&p, &(gen::render(&t) + "\n"))]);
        }
    }
    let den = *r.pick(&[1, 2, 4, 10, 25]);
    let s = schedule(r, ops * 2 + 20, den);
    case(w.files, vec![Step::Run { runs, actors, schedule: s }])
}
fn judge_p12(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, actors, schedule } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        let pre = vfs.clone();
        let cms: Vec<Cmd> = runs.iter().map(|s| parse_cmd(&s.args)).collect();
        let mut outs: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for cm in &cms {
            for t in &cm.trees {
                outs.entry(abs(&sol_path(t))).or_default().insert(t.clone());
            }
        }
        let watch: Vec<String> = outs.keys().cloned().collect();
        let s = ctx.run_obs(&mut vfs, runs, actors, schedule, &Observe { watch: watch.clone(), loss: false });
        v.nontrivial |= runs.len() > 1 && s.switches > 1;
        for (o, trees) in &outs {
            // Versions of the tree(s).
            let mut allowed: Vec<Option<Data>> = vec![pre.content(o)];
            let mut ok = true;
            let mut tv: Vec<(String, Option<Data>)> = vec![];
            for t in trees {
                tv.push((t.clone(), pre.content(&abs(t))));
            }
            for ch in actors.iter().flatten() {
                let p = abs(change_path(ch));
                match ch {
                    Change::Replace { content, .. } => {
                        let d = Some(std::sync::Arc::new(content.bytes()));
                        for t in trees {
                            if abs(t) == p {
                                tv.push((t.clone(), d.clone()));
                            }
                        }
                        if p == *o {
                            allowed.push(d);
                        }
                    }
                    _ => ok &= p != *o && !trees.iter().any(|t| abs(t) == p),
                }
            }
            if !ok {
                continue;
            }
            // Everything some run produces from some version, transitively.
            let rounds = 1 + cms.iter().filter(|c| c.check && c.fix).count();
            for _ in 0..rounds {
                let mut more: Vec<Option<Data>> = vec![];
                for (i, cm) in cms.iter().enumerate() {
                    if !cm.writes() {
                        continue;
                    }
                    for (t, d) in &tv {
                        if !cm.trees.contains(t) {
                            continue;
                        }
                        let Some(d) = d else { continue };
                        let bases: Vec<Option<Data>> = if cm.check { allowed.clone() } else { vec![None] };
                        for b in bases {
                            let mut m = Vfs::new();
                            apply_all(&mut m, &put_b(&abs(t), d));
                            if let Some(b) = &b {
                                apply_all(&mut m, &put_b(o, b));
                            } else if cm.check {
                                continue;
                            }
                            let re = ctx.reference(&m, &with_trees(&runs[i].args, &[t.clone()]));
                            let x = re.vfs.content(o);
                            if x.is_some() && !allowed.contains(&x) && !more.contains(&x) {
                                more.push(x);
                            }
                        }
                    }
                }
                if more.is_empty() {
                    break;
                }
                allowed.extend(more);
            }
            for w in s.watch.iter().filter(|w| w.path == *o) {
                if !w.odd && !allowed.contains(&w.content) {
                    v.bad(
                        "mixed or partial content",
                        format!("after step {} (by {}), {o} holds {}, which no run produces from any version of its inputs", w.seq, w.by, show(&w.content)),
                    );
                }
            }
            // The race for a missing output.
            let mine: Vec<usize> = (0..runs.len()).filter(|&i| cms[i].trees.iter().any(|t| abs(&sol_path(t)) == *o)).collect();
            let fair = mine.len() > 1
                && pre.content(o).is_none()
                && !pre.resolve(o, false).is_ok_and(|r| r.ino.is_some())
                && actors.is_empty()
                && mine.iter().all(|&i| {
                    !cms[i].check && cms[i].write && !cms[i].force && cms[i].trees.iter().filter(|t| abs(&sol_path(t)) == *o).count() == 1
                })
                && runs.iter().all(clean_or_short)
                && mine.iter().all(|&i| !s.procs[i].killed())
                && tv.iter().all(|(_, d)| d.as_ref().is_some_and(|d| ctx.scaffold_text(d, &[]).is_some()));
            if fair {
                let mut creators: Vec<usize> = vec![];
                for op in &s.ops {
                    for (p, t) in &op.touched {
                        if p == o && *t == Touch::Created {
                            creators.push(op.proc);
                        }
                    }
                }
                if creators.len() != 1 {
                    v.bad("not exactly one creator", format!("{o} was created {} times (by runs {creators:?})", creators.len()));
                }
                for &i in &mine {
                    let err = strip_ansi(&s.procs[i].stderr());
                    let said = err.lines().any(|l| l.to_lowercase().contains("skip") && cms[i].trees.iter().any(|t| abs(&sol_path(t)) == *o && l.contains(&sol_path(t))));
                    if said == creators.contains(&i) {
                        v.bad(
                            "loser of the race does not say so",
                            format!("run {i} `{}` {} {o}, and its stderr is {err:?}", quote(&runs[i].args), if said { "created" } else { "did not create" }),
                        );
                    }
                    if !s.procs[i].ok() {
                        v.bad("loser of the race fails", format!("run {i} `{}` ended with {:?}: {err:?}", quote(&runs[i].args), s.procs[i].exit));
                    }
                }
            }
        }
    }
}
fn clean_or_short(s: &RunSpec) -> bool {
    s.streams.is_empty() && s.disk_free.is_none() && s.faults.iter().all(|f| matches!(f.kind, FaultKind::Short(_) | FaultKind::KillAfter | FaultKind::KillBefore | FaultKind::KillTorn(_)))
}

// ---- P13 ---------------------------------------------------------------------
fn gen_p13(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 2), sols: if r.chance(2, 3) { Sols::Fixable } else { Sols::Mixed }, bad: false, user: true, helpers: false };
    let mut w = world(ctx, r, &o);
    let args = match r.below(5) {
        0 => cmd(&["scaffold"], &scaffold_flags(r), &w.args()),
        1 => cmd(&["scaffold", "-wf"], &scaffold_flags(r), &w.args()),
        2 => check_cmd(r, &w.args()),
        3 => cmd(&["check", "--fix", "--stdout"], &[], &w.args()),
        _ => fix_cmd(r, &w.args()),
    };
    let mut a = vec![];
    for _ in 0..r.range(1, 3) {
        let i = r.below(w.trees.len());
        let p = w.trees[i].arg.trim_start_matches("./").trim_start_matches("/w/").to_string();
        let Some(m) = w.trees[i].model.clone() else { continue };
        let t = if r.chance(1, 2) { gen::edit_tree(r, &m) } else { gen::tree_named(r, &m.contract) };
        let text = gen::render(&t) + "\n";
        if r.chance(1, 2) {
            a.push(put(&p, &text));
            w.trees[i].model = Some(t);
        } else if let Some(base) = ctx.scaffold_text(text.as_bytes(), &[]) {
            let so = SolOpts { violate: true, user: true, no_contract: false, helpers: false, rename: r.chance(1, 4) };
            let s = gen::sol_from(r, &base, &so, &mut w.marks);
            a.push(put(&sol_path(&p), &s));
        }
    }
    let v = build_world(&w.files);
    let mut spec = RunSpec::of(args);
    env(r, &mut spec);
    if r.chance(1, 3) {
        spec.io = draw_io(r);
    }
    let mut v2 = v.clone();
    let n = ctx.run(&mut v2, &spec).ops.len() + 3;
    let mut s = vec![0u8; n];
    for _ in 0..r.range(1, 3) {
        let i = r.below(n);
        s[i] = 2;
    }
    case(w.files, vec![Step::Run { runs: vec![spec], actors: vec![a], schedule: s }])
}
fn judge_p13(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, actors, schedule } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        if runs.len() != 1 || !clean_spec(&runs[0]) || actors.iter().flatten().any(|a| !matches!(a, Change::Replace { .. })) {
            continue;
        }
        let spec = &runs[0];
        let cm = parse_cmd(&spec.args);
        let outs = out_paths(&spec.args);
        if outs.len() != cm.trees.len() {
            continue;
        }
        let pre = vfs.clone();
        let s = ctx.run_obs(&mut vfs, runs, actors, schedule, &Observe { watch: outs.clone(), loss: false });
        let p = &s.procs[0];
        v.nontrivial |= s.switches > 0 && !actors.is_empty();
        // What the run stored, per output.
        let mut kept: BTreeMap<String, Option<Data>> = BTreeMap::new();
        for op in s.ops.iter().filter(|o| o.proc == 0) {
            for (q, _) in &op.touched {
                if outs.contains(q) {
                    let d = s.watch.iter().filter(|w| w.path == *q && w.seq <= op.seq).next_back().and_then(|w| w.content.clone());
                    kept.insert(q.clone(), d);
                }
            }
        }
        // The versions of each file.
        let mut paths: Vec<String> = cm.trees.iter().map(|t| abs(t)).collect();
        paths.extend(outs.iter().cloned());
        let mut vers: Vec<Vec<Option<Data>>> = vec![];
        for q in &paths {
            let mut l = vec![pre.content(q)];
            for ch in actors.iter().flatten() {
                if let Change::Replace { path, content } = ch {
                    if abs(path) == *q {
                        let d = Some(std::sync::Arc::new(content.bytes()));
                        if !l.contains(&d) {
                            l.push(d);
                        }
                    }
                }
            }
            vers.push(l);
        }
        let total: usize = vers.iter().map(|l| l.len()).product();
        if total > 200 {
            continue;
        }
        let mut found = false;
        let mut seen = vec![];
        for k in 0..total {
            let mut w = pre.clone();
            let mut x = k;
            for (q, l) in paths.iter().zip(&vers) {
                let d = &l[x % l.len()];
                x /= l.len();
                match d {
                    Some(d) if w.content(q).as_ref() != Some(d) => {
                        apply_all(&mut w, &put_b(q, d));
                    }
                    _ => {}
                }
            }
            let re = ctx.reference(&w, &spec.args);
            if re.out.out != p.out || re.out.err != p.err || re.out.exit != p.exit {
                continue;
            }
            let same = outs.iter().all(|o| match kept.get(o) {
                Some(d) => re.vfs.content(o) == *d,
                None => re.vfs.content(o) == w.content(o),
            });
            if same {
                found = true;
                break;
            }
            seen.push(k);
        }
        if !found {
            v.bad(
                "result of no single version",
                format!(
                    "`{}` with {:?}: exit {:?}, stdout {:?}, stderr {:?}, stored {:?}; none of the {total} combinations of versions gives this{}",
                    quote(&spec.args),
                    actors.iter().flatten().map(change_label).collect::<Vec<_>>(),
                    p.exit,
                    p.stdout().chars().take(300).collect::<String>(),
                    strip_ansi(&p.stderr()),
                    kept.iter().map(|(k, d)| format!("{k}: {}", show(d))).collect::<Vec<_>>(),
                    if seen.is_empty() { "" } else { " (what it printed fits some, what it stored does not)" }
                ),
            );
        }
    }
}

// ---- P14 ---------------------------------------------------------------------
fn gen_p14(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 4), sols: if r.chance(1, 2) { Sols::Fixable } else { Sols::Mixed }, bad: r.chance(1, 3), user: true, helpers: false };
    let mut w = world(ctx, r, &o);
    crowd(ctx, r, &mut w, &o);
    let args = match r.below(6) {
        0 | 1 => cmd(&["scaffold"], &scaffold_flags(r), &w.args()),
        2 => cmd(&["check", "--fix", "--stdout"], &[], &w.args()),
        _ => any_cmd(r, &w.args()),
    };
    let mut spec = RunSpec::of(args);
    env(r, &mut spec);
    let v = build_world(&w.files);
    let re = ctx.reference(&v, &spec.args);
    if r.chance(3, 4) {
        for (fd, len) in [(1, re.out.out.len()), (2, re.out.err.len())] {
            if len > 0 && r.chance(2, 3) {
                let after = match r.below(4) {
                    0 => 0,
                    1 => len - 1 - r.below(len.min(12)),
                    _ => r.below(len),
                };
                spec.streams.push(StreamFault { fd, after, errno: *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO]) });
            }
        }
    }
    if r.chance(1, 2) || spec.streams.is_empty() {
        spec.io = draw_io(r);
    }
    case(w.files, vec![run_step(spec)])
}
fn judge_p14(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, .. } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        for spec in runs {
            let cm = parse_cmd(&spec.args);
            if !spec.faults.is_empty() || spec.disk_free.is_some() {
                continue;
            }
            let outs = out_paths(&spec.args);
            let pre = vfs.clone();
            let re = ctx.reference(&pre, &spec.args);
            let s = ctx.run_obs(&mut vfs, std::slice::from_ref(spec), &[], &[], &Observe { watch: outs.clone(), loss: false });
            let p = &s.procs[0];
            v.nontrivial |= !p.out.is_empty() || !p.err.is_empty() || p.stream_failed != [false; 3];
            let failed = p.stream_failed[1] || p.stream_failed[2];
            for (fd, name, got, want) in [(1, "standard output", &p.out, &re.out.out), (2, "standard error", &p.err, &re.out.err)] {
                if p.stream_failed[fd] {
                    // What the run says about the failure of standard output may
                    // come before the byte at which standard error fails.
                    let reports = fd == 2 && p.stream_failed[1];
                    if !want.starts_with(got) && !reports {
                        v.bad("delivered output is not a prefix", format!("`{}`: {name} failed after {:?}, which is not how an undisturbed run starts", quote(&spec.args), String::from_utf8_lossy(got)));
                    }
                    if p.ok() {
                        v.bad("success with undelivered output", format!("`{}` exited 0 although {name} failed after {} of {} bytes", quote(&spec.args), got.len(), want.len()));
                    }
                } else if !failed && got != want {
                    v.bad("output altered", format!("`{}` delivers {:?} on {name} instead of {:?}", quote(&spec.args), String::from_utf8_lossy(got), String::from_utf8_lossy(want)));
                } else if p.ok() && got != want {
                    v.bad("output altered", format!("`{}` exits 0 and delivers {:?} on {name} instead of {:?}", quote(&spec.args), String::from_utf8_lossy(got), String::from_utf8_lossy(want)));
                }
            }
            if !failed && p.exit != re.out.exit {
                v.bad("exit status altered", format!("`{}` exits {:?} instead of {:?}", quote(&spec.args), p.exit, re.out.exit));
            }
            for w in &s.watch {
                let (a, b) = (pre.content(&w.path), re.vfs.content(&w.path));
                if !w.odd && w.content != a && w.content != b {
                    v.bad("stored file affected", format!("`{}` with a failing stream leaves {} with {}", quote(&spec.args), w.path, show(&w.content)));
                }
            }
            if !failed {
                for o in &outs {
                    if vfs.content(o) != re.vfs.content(o) {
                        v.bad("stored file affected", format!("`{}` leaves {o} with {} instead of {}", quote(&spec.args), show(&vfs.content(o)), show(&re.vfs.content(o))));
                    }
                }
            }
            // Results come in the order the files were listed.
            if !cm.check && !cm.write && outs.len() > 1 {
                let mut cat = vec![];
                for t in &cm.trees {
                    cat.extend(ctx.reference(&pre, &with_trees(&spec.args, &[t.clone()])).out.out);
                }
                if cat != re.out.out {
                    v.bad("results out of order", format!("`{}` prints {:?}, the files one by one {:?}", quote(&spec.args), re.out.stdout(), String::from_utf8_lossy(&cat)));
                }
            }
            if cm.check && cm.stdout {
                let shown: Vec<String> = strip_ansi(&re.out.stdout()).lines().filter_map(|l| l.strip_prefix("--> ").map(|s| s.to_string())).collect();
                let want: Vec<String> = cm.trees.iter().map(|t| sol_path(t)).filter(|s| shown.contains(s)).collect();
                if shown != want {
                    v.bad("results out of order", format!("`{}` shows {shown:?} instead of {want:?}", quote(&spec.args)));
                }
            }
        }
    }
}

// ---- P15 ---------------------------------------------------------------------
/// Solidity nested so deeply that the parser's stack does not suffice (a known finding).
fn deep_parens() -> Case {
    let n = 60_000;
    let sol = format!("pragma solidity 0.8.0;\n\ncontract Foo {{\n    uint256 x = {}1{};\n\n    function test_Works() external {{}}\n}}\n", "(".repeat(n), ")".repeat(n));
    case(
        vec![put("deep-parens.tree", "Foo\n└── it works\n"), put("deep-parens.t.sol", &sol)],
        vec![run_step(RunSpec::new(&["check", "deep-parens.tree"]))],
    )
}
/// A tree with thousands of levels: likewise.
fn deep_levels() -> Case {
    let n = 2000;
    let mut t = String::from("Foo\n");
    for i in 0..n {
        t.push_str(&format!("{}└── when c{i}\n", " ".repeat(i)));
    }
    t.push_str(&format!("{}└── it works\n", " ".repeat(n)));
    let mut s = RunSpec::new(&["scaffold", "deep-levels.tree"]);
    // What Windows gives a main thread.  (With 8 MB a debug build takes as many levels.)
    s.env.push(("SIM_STACK_KB".into(), "1024".into()));
    case(vec![put("deep-levels.tree", &t)], vec![run_step(s)])
}
fn gen_p15(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 2), sols: if r.chance(1, 2) { Sols::Fixable } else { Sols::Mixed }, bad: r.chance(1, 6), user: true, helpers: true };
    let mut w = world(ctx, r, &o);
    let style = r.below(4);
    for f in w.files.iter_mut() {
        if let Change::Replace { path, content } = f {
            let tree = !path.ends_with(".sol");
            let hit = match style {
                0 => tree && r.chance(2, 3),
                1 => !tree && r.chance(2, 3),
                2 => r.chance(1, 2),
                _ => false,
            };
            if hit {
                let mut b = content.bytes();
                for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                    b = gen::damage(r, &b);
                }
                *content = Content::from_bytes(&b);
            }
        }
    }
    let mut spec = RunSpec::of(any_cmd(r, &w.args()));
    env(r, &mut spec);
    let v = build_world(&w.files);
    let mut actors = vec![];
    let mut sched = vec![];
    if style == 3 || r.chance(1, 4) {
        let re = ctx.reference(&v, &spec.args);
        let n = r.range(1, 3);
        add_faults(r, &mut spec, &re.ops, FaultMix { errors: true, shorts: true, no_links: true, ..Default::default() }, n);
        if r.chance(1, 3) {
            // A file is overwritten in place while it is read.
            let texts: Vec<(String, Content)> = w.files.iter().filter_map(|f| if let Change::Replace { path, content } = f { Some((path.clone(), content.clone())) } else { None }).collect();
            if !texts.is_empty() {
                let (path, content) = r.pick(&texts).clone();
                let b = if r.chance(1, 2) { gen::tree_text(r).into_bytes() } else { gen::damage(r, &content.bytes()) };
                actors.push(vec![Change::Overwrite { path, content: Content::from_bytes(&b) }]);
                spec.io = Io { read_max: *r.pick(&[0, 1, 7, 64]), ..Default::default() };
                sched = schedule(r, re.ops.len() + 10, 5);
            }
        }
    }
    if r.chance(1, 10) {
        spec.disk_free = Some(r.below(1000) as i64);
    }
    case(w.files, vec![Step::Run { runs: vec![spec], actors, schedule: sched }])
}
fn judge_p15(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, actors, schedule } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        let size: usize = vfs.list().values().map(|e| if let Entry::File(d) = e { d.len() } else { 0 }).sum::<usize>()
            + actors.iter().flatten().map(|a| match a { Change::Replace { content, .. } | Change::Overwrite { content, .. } | Change::Create { content, .. } => content.bytes().len(), _ => 0 }).sum::<usize>();
        let pre = vfs.clone();
        let s = ctx.run_obs(&mut vfs, runs, actors, schedule, &Observe::default());
        for (spec, p) in runs.iter().zip(&s.procs) {
            if p.killed() || !spec.streams.is_empty() {
                continue;
            }
            v.nontrivial = true;
            let err = strip_ansi(&p.stderr());
            match p.exit {
                Exit::Code(0 | 1) if !p.panicked => {}
                _ if p.panicked => v.bad("panic", format!("`{}` panicked: {}", quote(&spec.args), err.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" | "))),
                Exit::Hang | Exit::TooManyCalls => v.bad("hang", format!("`{}` did not end ({:?} after {} calls)", quote(&spec.args), p.exit, p.ops)),
                _ => v.bad("abnormal end", format!("`{}` ended with {:?}: {err}", quote(&spec.args), p.exit)),
            }
            if actors.is_empty() && p.ok() {
                let cm = parse_cmd(&spec.args);
                if let Some(f) = cm.trees.iter().find_map(|t| undecodable(&pre, &cm, t)) {
                    v.bad("damage not reported", format!("`{}` exited 0, but {f} is not text", quote(&spec.args)));
                }
            }
            if p.exit == Exit::Code(1) && err.trim().is_empty() {
                v.bad("silent failure", format!("`{}` exited 1 without a message", quote(&spec.args)));
            }
            let listed = parse_cmd(&spec.args).trees.len();
            let bound = 600 + 120 * listed + 8 * (size * listed.max(1) + p.out.len() + p.err.len());
            if p.ops > bound {
                v.bad("too many system calls", format!("`{}` made {} calls for {size} bytes in {listed} file(s)", quote(&spec.args), p.ops));
            }
        }
    }
}

// ---- P16 ---------------------------------------------------------------------
/// Drop the options that say where the result goes.
fn redirected(args: &[String], to: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = args.iter().filter(|x| !matches!(x.as_str(), "-w" | "-f" | "-wf" | "-fw" | "--write-files" | "--force-write" | "--stdout")).cloned().collect();
    for (i, t) in to.iter().enumerate() {
        v.insert(1 + i, t.to_string());
    }
    v
}
fn gen_p16(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 3), sols: if r.chance(2, 3) { Sols::Fixable } else { Sols::Mixed }, bad: r.chance(1, 4), user: true, helpers: r.chance(1, 4) };
    let mut w = world(ctx, r, &o);
    crowd(ctx, r, &mut w, &o);
    let args = if r.chance(1, 3) {
        cmd(&["scaffold"], &scaffold_flags(r), &w.args())
    } else {
        let f: Vec<String> = if r.chance(1, 4) { vec!["-m".into()] } else { vec![] };
        cmd(&["check", "--fix", "--stdout"], &f, &w.args())
    };
    let mut spec = RunSpec::of(args);
    env(r, &mut spec);
    let v = build_world(&w.files);
    if r.chance(1, 2) {
        let re = ctx.reference(&v, &spec.args);
        add_faults(r, &mut spec, &re.ops, FaultMix { errors: true, by_path: true, shorts: true, ..Default::default() }, 1);
        spec.faults.retain(|f| matches!(f.kind, FaultKind::Errno(_) | FaultKind::Short(_)));
    }
    if r.chance(1, 4) {
        spec.io = draw_io(r);
    }
    case(w.files, vec![run_step(spec)])
}
/// The texts between "--> path" and "<--".
fn shown(out: &str) -> Option<Vec<(String, String)>> {
    let mut v = vec![];
    let mut cur: Option<(String, Vec<&str>)> = None;
    let text = strip_ansi(out);
    for l in text.lines() {
        match &mut cur {
            None => {
                if let Some(p) = l.strip_prefix("--> ") {
                    cur = Some((p.to_string(), vec![]));
                }
            }
            Some((_, t)) if l != "<--" => t.push(l),
            Some(_) => {
                let (p, t) = cur.take().unwrap();
                v.push((p, t.join("\n")));
            }
        }
    }
    cur.is_none().then_some(v)
}
fn lines_of(d: &[u8]) -> String {
    String::from_utf8_lossy(d).trim().lines().collect::<Vec<_>>().join("\n")
}
fn judge_p16(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, .. } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        for spec in runs {
            let cm = parse_cmd(&spec.args);
            let outs = out_paths(&spec.args);
            if cm.writes() || (cm.check && !cm.stdout) || outs.len() != cm.trees.len() || spec.faults.iter().any(|f| f.path.is_none()) {
                continue;
            }
            if !spec.streams.is_empty() || spec.disk_free.is_some() {
                continue;
            }
            let pre = vfs.clone();
            let a = ctx.run(&mut vfs, spec);
            let a = &a.procs[0];
            let variants: &[&[&str]] = if cm.check { &[&[]] } else { &[&["-w", "-f"], &["-w"]] };
            for to in variants {
                let mut w = pre.clone();
                if to.len() == 1 {
                    // Nothing is there yet.
                    for o in &outs {
                        let _ = w.unlink(o);
                    }
                    w.checkpoint();
                }
                let mut other = spec.clone();
                other.args = redirected(&spec.args, to);
                let sb = ctx.run(&mut w, &other);
                let b = &sb.procs[0];
                if a.killed() || b.killed() {
                    continue;
                }
                // Storing may fail where printing does not.
                let blocked = cm.trees.iter().zip(&outs).any(|(t, o)| {
                    pre.resolve(o, true).is_ok_and(|r| r.ino.is_some_and(|i| pre.is_dir(i))) && to.len() != 1 || locked(&pre, o) || (to.len() == 1 && w.content(o).is_none() && a.ok()) || (names(&b.stderr(), t) && !names(&a.stderr(), t))
                });
                v.nontrivial |= !blocked;
                if !blocked && a.exit != b.exit {
                    v.bad("printing and storing end differently", format!("`{}` exits {:?}, `{}` {:?}: {:?} / {:?}", quote(&spec.args), a.exit, quote(&other.args), b.exit, strip_ansi(&a.stderr()), strip_ansi(&b.stderr())));
                }
                if cm.check {
                    let Some(blocks) = shown(&a.stdout()) else {
                        v.bad("printed result incomplete", format!("`{}` prints {:?}", quote(&spec.args), a.stdout()));
                        continue;
                    };
                    for (p, t) in &blocks {
                        let Some(i) = cm.trees.iter().position(|x| sol_path(x) == *p) else {
                            v.bad("unknown result printed", format!("`{}` prints a result for {p}", quote(&spec.args)));
                            continue;
                        };
                        if locked(&pre, &outs[i]) {
                            continue;
                        }
                        let got = w.content(&outs[i]);
                        if got.as_ref().map(|d| lines_of(d)) != Some(lines_of(t.as_bytes())) {
                            v.bad("printed and stored results differ", format!("`{}` prints {t:?} for {p}, `{}` stores {}", quote(&spec.args), quote(&other.args), show(&got)));
                        }
                    }
                    for (t, o) in cm.trees.iter().zip(&outs) {
                        let stored = sb.ops.iter().any(|op| op.touched.iter().any(|(p, _)| p == o));
                        if stored && !blocks.iter().any(|b| b.0 == sol_path(t)) {
                            v.bad("result not printed", format!("`{}` stores {o}, but `{}` prints nothing for it", quote(&other.args), quote(&spec.args)));
                        }
                    }
                    if !blocked && fixed_count(&a.stdout()) != fixed_count(&b.stdout()) {
                        v.bad("fixed counts differ", format!("`{}` reports {:?} fixed issues, `{}` {:?}", quote(&spec.args), fixed_count(&a.stdout()), quote(&other.args), fixed_count(&b.stdout())));
                    }
                } else if !blocked {
                    let mut want = vec![];
                    for (t, o) in cm.trees.iter().zip(&outs) {
                        // A tree that fails is named and prints nothing.
                        if names(&a.stderr(), t) {
                            continue;
                        }
                        if let Some(d) = w.content(o) {
                            want.extend_from_slice(&d);
                            want.push(b'\n');
                        }
                    }
                    if want != a.out {
                        v.bad("printed and stored results differ", format!("`{}` prints {:?}, `{}` stores {:?}", quote(&spec.args), a.stdout(), quote(&other.args), String::from_utf8_lossy(&want)));
                    }
                }
            }
        }
    }
}

// ---- P17 ---------------------------------------------------------------------
/// Files a run may have open at a time.
const FDS: usize = 6;
fn gen_p17(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let n = *r.pick(&[6, 8, 12, 20, 32, 48, 48, 90, 150]);
    let mut files = vec![];
    let mut trees = vec![];
    let mut m = Marks(0);
    let kinds: Vec<(String, Option<String>)> = (0..3)
        .map(|_| {
            let t = gen::tree(r);
            let text = gen::finish(r, gen::render(&t));
            let o = WOpts { n: (1, 1), sols: Sols::Fixable, bad: false, user: true, helpers: false };
            let s = some_sol(ctx, r, &text, &o, &mut m);
            (text, s)
        })
        .collect();
    let with = r.below(3);
    for i in 0..n {
        let path = format!("{}t{i}.tree", if r.chance(1, 4) { "d/" } else { "" });
        let (text, sol) = r.pick(&kinds).clone();
        match r.below(24) {
            0 => {}
            1 => files.push(put(&path, &gen::invalid_tree(r))),
            _ => files.push(put(&path, &text)),
        }
        if let (Some(s), true) = (sol, with > 0 && (with > 1 || r.chance(1, 2))) {
            files.push(put(&sol_path(&path), &s));
        }
        trees.push(path);
    }
    let mut spec = RunSpec::of(any_cmd(r, &trees));
    env(r, &mut spec);
    spec.max_fds = Some(FDS);
    case(files, vec![run_step(spec)])
}
fn judge_p17(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, .. } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        for spec in runs {
            if !clean_spec(spec) {
                continue;
            }
            let cm = parse_cmd(&spec.args);
            let pre = vfs.clone();
            let mut free = spec.clone();
            free.max_fds = None;
            let mut w = pre.clone();
            let re = ctx.run(&mut w, &free);
            let re = &re.procs[0];
            let s = ctx.run(&mut vfs, spec);
            let p = &s.procs[0];
            v.nontrivial |= cm.trees.len() > FDS;
            if re.most_fds > FDS {
                v.bad("open files pile up", format!("a batch of {} files has {} files open at a time", cm.trees.len(), re.most_fds));
            }
            if (&p.out, &p.err, &p.exit) != (&re.out, &re.err, &re.exit) || vfs.list() != w.list() {
                v.bad("few descriptors change the result", format!("`{}` with {FDS} descriptors exits {:?} instead of {:?}: {:?}", quote(&spec.args), p.exit, re.exit, strip_ansi(&p.stderr())));
            }
            let mut sum = 0;
            for t in &cm.trees {
                sum += ctx.reference(&pre, &with_trees(&spec.args, &[t.clone()])).out.ops;
            }
            if p.ops > sum + sum / 4 + 100 {
                v.bad("calls grow faster than the batch", format!("`{}` makes {} calls for {} files, which take {sum} calls one by one", quote(&spec.args), p.ops, cm.trees.len()));
            }
        }
    }
}

// ---- P18 ---------------------------------------------------------------------
fn gen_p18(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 2), sols: Sols::Fixable, bad: false, user: true, helpers: false };
    let w = world(ctx, r, &o);
    let mut files = w.files.clone();
    for s in w.sols() {
        let Some(at) = files.iter().position(|f| matches!(f, Change::Replace { path, .. } if abs(path) == abs(&s))) else { continue };
        let Change::Replace { path, content } = files[at].clone() else { continue };
        files.retain(|f| !matches!(f, Change::Chmod { path: q, .. } if *q == path));
        if r.chance(1, 5) {
            files.remove(at);
            continue;
        }
        let mut real = path.clone();
        let k = w.marks.0 + at;
        if r.chance(1, 2) {
            real = (*r.pick(&["store/real.sol", "real.t.sol", "/tmp/real.sol", "store/x/y.sol", ".hidden"])).to_string();
            if let Some(i) = real.rfind('/') {
                real.insert_str(i + 1, &format!("{k}-"));
            } else {
                real.insert_str(0, &format!("{k}-"));
            }
            let dangling = r.chance(1, 6);
            if dangling {
                if real.starts_with("store/") {
                    files.push(put("store/keep", ""));
                }
                files.remove(at);
            } else {
                files[at] = Change::Replace { path: real.clone(), content };
            }
            // One or two links, relative or absolute.
            let up = "../".repeat(abs(&path).matches('/').count() - 2);
            let mut target = if real.starts_with('/') || r.chance(1, 2) { abs(&real) } else { format!("{up}{real}") };
            if r.chance(1, 4) {
                files.push(Change::Symlink { path: format!("link{k}"), target: if target.starts_with('/') { target } else { real.clone() } });
                target = format!("{up}link{k}");
            }
            files.push(Change::Symlink { path, target });
            if dangling {
                continue;
            }
        }
        if r.chance(3, 4) {
            files.push(Change::Chmod { path: real, mode: *r.pick(&[0o600, 0o640, 0o664, 0o755, 0o600, 0o444, 0o400, 0o4755, 0o666]) });
        }
    }
    let mut v = build_world(&files);
    let mut steps = vec![];
    for _ in 0..r.range(1, 2) {
        let args = match r.below(5) {
            0 | 1 => fix_cmd(r, &w.args()),
            2 => cmd(&["scaffold", "-w"], &scaffold_flags(r), &w.args()),
            _ => cmd(&["scaffold", "-wf"], &scaffold_flags(r), &w.args()),
        };
        let mut spec = RunSpec::of(args);
        env(r, &mut spec);
        if r.chance(1, 3) {
            spec.umask = Some(*r.pick(&[0, 0o002, 0o027, 0o077]));
        }
        let re = ctx.reference(&v, &spec.args);
        let nf = *r.pick(&[0, 1, 1, 2]);
        add_faults_any_fs(ctx, r, &v, &mut spec, &re.ops, FaultMix { errors: true, kills: true, shorts: true, by_path: false, no_links: true }, nf);
        if r.chance(1, 5) {
            spec.io = draw_io(r);
        }
        if r.chance(1, 10) {
            spec.disk_free = Some(r.below(2500) as i64);
        }
        v = re.vfs;
        steps.push(run_step(spec));
    }
    case(files, steps)
}
fn judge_p18(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    let mode = |v: &Vfs, o: &str| -> Option<u32> {
        match &v.nodes[v.resolve(o, true).ok()?.ino?] {
            Node::File { mode, .. } => Some(*mode),
            _ => None,
        }
    };
    let link = |v: &Vfs, o: &str| -> Option<String> {
        match &v.nodes[v.resolve(o, false).ok()?.ino?] {
            Node::Link { target } => Some(target.clone()),
            _ => None,
        }
    };
    for st in &c.steps {
        let Step::Run { runs, .. } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        for spec in runs {
            let cm = parse_cmd(&spec.args);
            if !cm.writes() {
                continue;
            }
            let pre = vfs.clone();
            let s = ctx.run(&mut vfs, spec);
            let p = &s.procs[0];
            for o in out_paths(&spec.args) {
                let (l, m) = (link(&pre, &o), mode(&pre, &o));
                let born = 0o666 & !spec.umask.unwrap_or(0o022);
                if m.is_none() {
                    if let Some(n) = mode(&vfs, &o) {
                        v.nontrivial = true;
                        if n != born {
                            v.bad("odd permissions", format!("`{}` created {o} with mode {n:o} instead of {born:o}", quote(&spec.args)));
                        }
                    }
                    if l.is_none() {
                        continue;
                    }
                }
                v.nontrivial |= vfs.content(&o) != pre.content(&o) || l.is_some() || m.is_some_and(|m| m & 0o200 == 0);
                if let Some(l) = l {
                    let now = link(&vfs, &o);
                    if now.as_ref() != Some(&l) {
                        v.bad("link replaced", format!("{o} was a link to {l} and is {} after `{}`", now.map_or("no link".into(), |n| format!("a link to {n}")), quote(&spec.args)));
                        continue;
                    }
                }
                let Some(m) = m else { continue };
                match mode(&vfs, &o) {
                    Some(n) if n == m => {}
                    n => v.bad("permissions changed", format!("{o} had mode {m:o} and has {} after `{}`", n.map_or("none".into(), |n| format!("{n:o}")), quote(&spec.args))),
                }
                if m & 0o200 == 0 {
                    if vfs.content(&o) != pre.content(&o) {
                        v.bad("write-protected file changed", format!("{o} has mode {m:o} and was changed by `{}`", quote(&spec.args)));
                    } else if p.ok() {
                        let t = cm.trees.iter().find(|t| abs(&sol_path(t)) == o).unwrap();
                        let mut open = pre.clone();
                        if let Some(i) = open.resolve(&o, true).ok().and_then(|r| r.ino) {
                            if let Node::File { mode, .. } = &mut open.nodes[i] {
                                *mode = 0o644;
                            }
                        }
                        let one = ctx.reference(&open, &with_trees(&spec.args, &[t.clone()]));
                        if one.vfs.content(&o) != pre.content(&o) {
                            v.bad("write-protected file not reported", format!("{o} is write-protected and out of date, but `{}` exits 0", quote(&spec.args)));
                        }
                    }
                }
            }
        }
    }
}

// ---- P19 ---------------------------------------------------------------------
fn gen_p19(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 4), sols: if r.chance(1, 2) { Sols::Fixable } else { Sols::Mixed }, bad: r.chance(2, 3), user: true, helpers: r.chance(1, 3) };
    let mut w = world(ctx, r, &o);
    crowd(ctx, r, &mut w, &o);
    let args = match r.below(4) {
        0 => cmd(&["scaffold"], &scaffold_flags(r), &w.args()),
        1 => write_cmd(r, &w.args()),
        _ => check_cmd(r, &w.args()),
    };
    let mut spec = RunSpec::of(args);
    env(r, &mut spec);
    let v = build_world(&w.files);
    if r.chance(1, 2) {
        let re = ctx.reference(&v, &spec.args);
        let n = r.range(1, 3);
        add_faults(r, &mut spec, &re.ops, FaultMix { errors: true, shorts: true, by_path: true, ..Default::default() }, n);
    }
    if spec.faults.is_empty() && r.chance(1, 4) {
        repeat_trees(r, &mut spec);
    }
    if r.chance(1, 6) {
        spec.io = draw_io(r);
    }
    case(w.files, vec![run_step(spec)])
}
/// The number in front of a word on the last line that has it.
fn number_before(text: &str, words: &[&str]) -> Option<(usize, String)> {
    for l in text.lines().rev() {
        let w: Vec<&str> = l.split_whitespace().collect();
        for i in 1..w.len() {
            let x = w[i].trim_matches(|c: char| !c.is_alphanumeric());
            if words.contains(&x) {
                if let Ok(n) = w[i - 1].parse() {
                    return Some((n, x.to_string()));
                }
            }
        }
    }
    None
}
/// The summary line of standard error, if any.
fn summary(err: &str) -> Option<String> {
    let l = err.lines().filter(|l| !l.trim().is_empty()).next_back()?;
    (l.contains(" failed") || l.contains("Could not scaffold")).then(|| l.to_string())
}
fn judge_p19(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, .. } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        for spec in runs {
            let cm = parse_cmd(&spec.args);
            if !independent(spec, &cm) || cm.trees.is_empty() || spec.faults.iter().any(|f| f.path.is_none()) || spec.disk_free.is_some() || !spec.streams.is_empty() {
                continue;
            }
            let pre = vfs.clone();
            let s = ctx.run(&mut vfs, spec);
            let p = &s.procs[0];
            if p.killed() || !matches!(p.exit, Exit::Code(0 | 1)) {
                continue;
            }
            v.nontrivial = true;
            let (out, err) = (strip_ansi(&p.stdout()), strip_ansi(&p.stderr()));
            let what = quote(&spec.args);
            // Every file alone, under the same faults.
            let mut failing = 0;
            let mut fixed = 0;
            for t in &cm.trees {
                let mut w = pre.clone();
                let mut one = spec.clone();
                one.args = with_trees(&spec.args, &[t.clone()]);
                let s1 = ctx.run(&mut w, &one);
                let q = &s1.procs[0];
                failing += !q.ok() as usize;
                if q.killed() {
                    continue;
                }
                fixed += fixed_count(&q.stdout()).unwrap_or(0);
                let named = names(&err, t);
                if !q.ok() && !named {
                    v.bad("failing file not reported", format!("`{what}` does not mention {t}, which fails alone: {err:?}"));
                }
            }
            if cm.check {
                let located = err.lines().filter(|l| l.trim_start().starts_with("--> ")).count();
                let fixes = err.lines().filter(|l| l.trim_start().starts_with("+ fix: run")).count();
                if cm.fix {
                    match fixed_count(&out) {
                        Some(n) if n == fixed => {
                            let (_, w) = number_before(&out, &["issue", "issues"]).unwrap_or_default();
                            if (w == "issue") != (n == 1) {
                                v.bad("summary wrong", format!("`{what}` says {n} {w}"));
                            }
                        }
                        n => v.bad("summary wrong", format!("`{what}` reports {n:?} fixed issues, the files alone {fixed}")),
                    }
                    continue;
                }
                let sum = number_before(&summary(&err).unwrap_or_default(), &["check", "checks"]);
                let offered = number_before(&summary(&err).unwrap_or_default(), &["fix", "fixes"]);
                match &sum {
                    Some((n, w)) => {
                        if *n != located || (w == "check") != (*n == 1) {
                            v.bad("summary wrong", format!("`{what}` says {n} {w} failed and reports {located}: {err:?}"));
                        }
                    }
                    None if located > 0 => v.bad("summary missing", format!("`{what}` reports {located} violations without a summary: {err:?}")),
                    None => {}
                }
                match &offered {
                    Some((n, w)) if *n != fixes || (w == "fix") != (*n == 1) => v.bad("summary wrong", format!("`{what}` offers {n} {w} and lists {fixes}: {err:?}")),
                    None if fixes > 0 => v.bad("summary wrong", format!("`{what}` lists {fixes} fixes and offers none: {err:?}")),
                    _ => {}
                }
                if (located > 0) != !p.ok() || (failing > 0) != !p.ok() {
                    v.bad("exit status and report disagree", format!("`{what}` exits {:?} and reports {located} violations in {failing} files", p.exit));
                }
                let success = out.contains("All checks completed successfully");
                if success != p.ok() {
                    v.bad("exit status and report disagree", format!("`{what}` exits {:?} and prints {out:?}", p.exit));
                }
                // A fix is offered for a listed tree. (The hint puts `.tree`
                // for `.t.sol`, so trees named otherwise are left out.)
                if cm.trees.iter().all(|t| t.ends_with(".tree") && !t.contains(".t.sol")) {
                    for l in err.lines().filter_map(|l| l.trim_start().strip_prefix("+ fix: run `bulloak check --fix ")) {
                        if !cm.trees.iter().any(|t| l.trim_end().strip_suffix('`') == Some(t)) {
                            v.bad("fix for no listed tree", format!("`{what}` offers {l:?}"));
                        }
                    }
                }
                // Each violation names a listed file.
                for l in err.lines().filter_map(|l| l.trim_start().strip_prefix("--> ")) {
                    let known = cm.trees.iter().any(|t| [t.clone(), sol_path(t)].iter().any(|f| l == f || l.strip_prefix(f.as_str()).and_then(|x| x.strip_prefix(':')).is_some_and(|x| x.parse::<usize>().is_ok_and(|n| n > 0))));
                    if !known {
                        v.bad("unknown place", format!("`{what}` reports a violation at {l:?}"));
                    }
                }
            } else {
                let blocks = err.lines().filter(|l| l.starts_with("file: ")).count();
                let sum = number_before(&summary(&err).unwrap_or_default(), &["files"]);
                match sum {
                    Some((n, _)) if n == failing && n == blocks && !p.ok() => {}
                    None if failing == 0 && p.ok() && blocks == 0 => {}
                    sum => v.bad("summary wrong", format!("`{what}` exits {:?}, names {blocks} failed files, says {sum:?}, and {failing} of the files fail alone: {err:?}", p.exit)),
                }
            }
        }
    }
}

// ---- P20 ---------------------------------------------------------------------
const HOMES: &[&str] = &["/w", "/", "/tmp", "/home/sim", "/w/spec", "/w/deep/er"];
const VARS: &[(&str, &str)] = &[
    ("NO_COLOR", "1"), ("CLICOLOR_FORCE", "1"), ("FORCE_COLOR", "3"), ("TERM", "dumb"), ("COLUMNS", "20"), ("LINES", "5"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "C"),
    ("LC_ALL", "de_DE.ISO-8859-1"), ("TZ", "Asia/Tokyo"), ("TMPDIR", "/nonexistent"), ("TMPDIR", "/tmp"), ("HOME", "/nonexistent"), ("PWD", "/elsewhere"), ("RUST_LOG", "trace"),
    ("USER", "someone else"), ("EDITOR", "vi"), ("SOURCE_DATE_EPOCH", "0"), ("CI", "true"), ("DEBUG", "1"), ("FOUNDRY_PROFILE", "ci"), ("LESS", ""),
];
/// Another way to write the same path for a process in `cwd`.
fn respell(r: &mut Rng, cwd: &str, path: &str) -> String {
    let up = "../".repeat(cwd.matches('/').count() - (cwd == "/") as usize);
    let rel = match path.strip_prefix(&format!("{}/", cwd.trim_end_matches('/'))) {
        Some(p) => p.to_string(),
        None => format!("{up}{}", &path[1..]),
    };
    match r.below(7) {
        0 => path.to_string(),
        1 => path.replace("/w/", "/w/./"),
        2 => path.replace("/w/", "//w//"),
        3 => path.replace("/w/", "/home/sim/proj/"),
        4 => path.replace("/w/", "/w/spec/../"),
        5 => format!("./{rel}"),
        _ => rel,
    }
}
fn gen_p20(ctx: &mut Ctx, r: &mut Rng) -> Case {
    let o = WOpts { n: (1, 3), sols: if r.chance(1, 2) { Sols::Fixable } else { Sols::Mixed }, bad: r.chance(1, 4), user: true, helpers: r.chance(1, 4) };
    let w = world(ctx, r, &o);
    let mut files = w.files.clone();
    files.push(Change::Mkdir { path: "spec".into() });
    files.push(Change::Mkdir { path: "deep/er".into() });
    files.push(Change::Symlink { path: "/home/sim/proj".into(), target: "/w".into() });
    let base = RunSpec::of(any_cmd(r, &w.args()));
    let mut steps = vec![run_step(base.clone())];
    for _ in 0..2 {
        let mut s = base.clone();
        if r.chance(3, 4) {
            s.cwd = (*r.pick(HOMES)).to_string();
        }
        let cwd = if s.cwd.is_empty() { "/w".to_string() } else { s.cwd.clone() };
        let trees: Vec<String> = w.trees.iter().map(|t| respell(r, &cwd, &abs(&t.arg))).collect();
        s.args = with_trees(&base.args, &trees);
        for _ in 0..r.below(4) {
            let (k, v) = *r.pick(VARS);
            s.env.push((k.into(), v.into()));
        }
        steps.push(run_step(s));
    }
    case(files, steps)
}
/// The text without styling and with every listed file replaced by its number.
fn unspelt(text: &[u8], trees: &[String]) -> String {
    let mut t = strip_ansi(&String::from_utf8_lossy(text));
    let mut names: Vec<(String, String)> = vec![];
    for (i, a) in trees.iter().enumerate() {
        let s = sol_path(a);
        names.push((s.replace(".t.sol", ".tree"), format!("\u{1}{i}.tree")));
        names.push((s, format!("\u{1}{i}.sol")));
        names.push((a.clone(), format!("\u{1}{i}.tree")));
    }
    names.sort_by_key(|n| std::cmp::Reverse(n.0.len()));
    for (n, m) in names {
        t = t.replace(&n, &m);
    }
    t
}
fn judge_p20(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let pre = build_world(&c.files);
    let specs: Vec<&RunSpec> = c.steps.iter().flat_map(|s| if let Step::Run { runs, .. } = s { runs.iter().collect() } else { vec![] }).collect();
    let Some((base, others)) = specs.split_first() else { return };
    let real = |s: &RunSpec, t: &str| -> Option<String> {
        let mut w = pre.clone();
        if !s.cwd.is_empty() {
            w.cwd = s.cwd.clone();
        }
        // The directory decides; the last name is kept.
        let (d, n) = t.rsplit_once('/').unwrap_or((".", t));
        let d = if d.is_empty() { "/" } else { d };
        let r = w.resolve(d, true).ok()?;
        r.ino?;
        Some(format!("{}/{n}", r.path))
    };
    let bm = parse_cmd(&base.args);
    if specs.iter().any(|s| !clean_spec(s)) || out_paths(&base.args).len() != bm.trees.len() {
        return;
    }
    let mut vfs = pre.clone();
    let a = ctx.run(&mut vfs, base);
    let a = &a.procs[0];
    for s in others {
        let m = parse_cmd(&s.args);
        if with_trees(&s.args, &[]) != with_trees(&base.args, &[]) || m.trees.len() != bm.trees.len() {
            continue;
        }
        if bm.trees.iter().zip(&m.trees).any(|(x, y)| real(base, x).is_none() || real(base, x) != real(s, y)) {
            continue;
        }
        v.nontrivial |= s.cwd != base.cwd || s.args != base.args || s.env != base.env;
        let mut w = pre.clone();
        let b = ctx.run(&mut w, s);
        let b = &b.procs[0];
        let how = format!("`{}`{}{} and `{}`", quote(&s.args), if s.cwd.is_empty() { String::new() } else { format!(" in {}", s.cwd) }, s.env.iter().map(|(k, v)| format!(" with {k}={v}")).collect::<String>(), quote(&base.args));
        if a.exit != b.exit {
            v.bad("exit status depends on the surroundings", format!("{how} end with {:?} and {:?}: {:?}", b.exit, a.exit, strip_ansi(&b.stderr())));
        }
        if vfs.list() != w.list() {
            let (x, y) = (vfs.list(), w.list());
            let d: Vec<&String> = x.keys().chain(y.keys()).filter(|k| x.get(*k) != y.get(*k)).collect();
            v.bad("stored files depend on the surroundings", format!("{how} leave different files: {d:?}"));
        }
        for (what, x, y) in [("standard output", &a.out, &b.out), ("standard error", &a.err, &b.err)] {
            let (x, y) = (unspelt(x, &bm.trees), unspelt(y, &m.trees));
            if x != y {
                v.bad(&format!("{what} depends on the surroundings"), format!("{how} print {y:?} and {x:?}"));
            }
        }
    }
}

// ---- descriptions for the evidence ----------------------------------------------
pub const ASSUMPTIONS: &[&str] = &[
    "The simulated file system follows POSIX semantics for the calls bulloak makes, with delayed durability of data and names (ordered metadata journal, fsync flushes).",
    "Faults are those of the listed kinds; memory corruption and bit flips on disk are not injected.",
    "Solidity validity and the names in a contract are read by an independent scanner, not by a Solidity compiler.",
];
pub const REAL: &[&str] = &["the bulloak binary built from /repo's working tree, unmodified: main, cli, scaffold, check, bulloak-foundry, bulloak-syntax, clap, forge-fmt, solang-parser, Rust's standard library"];
pub const STUBS: &[&str] = &["kernel file system", "standard output and standard error sinks", "clocks and sleep", "random numbers (hash seeds)", "process ids", "process scheduling between simulated runs and other actors"];
/// How the cases of a property are made, and which count as non-trivial.
pub fn rule(p: &str) -> String {
    let r = match p {
        "P01" => "1-3 trees, at each output one of: nothing, a file, an empty, unreadable or read-only file, a directory, a link, a dangling link; one `scaffold -w` without -f, with 0-2 faults (errors, kills, torn writes), chunked I/O, a full disk, and another process that creates or replaces outputs at seeded points between system calls. Non-trivial: an output existed or another process ran.",
        "P02" => "1-2 trees with and without Solidity files (some behind links); 1-2 runs of scaffold -w, -wf or check --fix, with 0-3 faults (errors, kills before/after/inside a write), chunked I/O, a full disk, a power loss in between; every output is read after every system call and for power losses after every call. Non-trivial: the run would change an output and is disturbed.",
        "P03" => "1-4 trees, half of the worlds with missing, invalid, unreadable or unparsable ones among them; one writing command with 0-2 faults, chunked I/O or a full disk. Non-trivial: the command ended by itself.",
        "P04" => "1-3 trees with Solidity files made from what scaffold prints by dropping, moving, renaming and adding definitions; then seeded edits of trees and Solidity files between 1-3 runs of check, a third of them with faults. Non-trivial: a tree and its Solidity file can be compared.",
        "P05" => "2-4 trees, three quarters of the worlds with broken ones, in any order, any command, half of them with 1-3 faults tied to one listed file; compared with one run per file under the same faults. Non-trivial: at least two different outputs are listed.",
        "P06" => "1-4 trees, any command, run twice from the same files with different hash seeds, process ids, clocks and delivery of I/O. Non-trivial: the two environments differ.",
        "P07" => "1-4 trees, any command, any faults, other files around that must not change. Non-trivial: the run made system calls under this world.",
        "P08" => "1-2 trees; 1-4 disturbed runs of one writing command (kills, errors, torn writes, full disk, power losses), then two undisturbed ones; compared with one undisturbed run from the start. Non-trivial: a disturbed run ended differently from an undisturbed one or was killed.",
        "P09" => "1-3 trees with Solidity files that hold marked user code (functions, modifiers, variables, structs, events, imports, comments, helper contracts, odd strings); 1-4 runs of check --fix with edits of trees and code, faults and kills in between. Non-trivial: a fix changed a file.",
        "P10" => "1-3 trees with Solidity files that miss, misplace or misname constructs; one check --fix (after seeded edits), judged by check before and after. Non-trivial: check had found something fixable.",
        "P11" => "1-3 trees; histories of 4-9 runs of scaffold -w/-wf, check, check --fix with and without -m, some killed or failing, then an edit and the same again. Non-trivial: an output stored by scaffold was checked or fixed later.",
        "P12" => "1-2 trees; 2-3 commands run at the same time with a seeded scheduler switching between any two system calls; -w without -f races, forced writes, fixes, with kills and errors. Non-trivial: the scheduler switched at least once.",
        "P13" => "1-2 trees; one command while another process atomically replaces trees and Solidity files at seeded points between system calls; the result is searched among the results for every combination of versions. Non-trivial: the other process acted during the run.",
        "P14" => "1-4 trees, any command, standard output and/or error failing at a seeded byte (EPIPE, ENOSPC, EIO), short and interrupted writes. Non-trivial: something was printed or a stream failed.",
        "P15" => "1-2 trees with damaged trees and Solidity files (torn, zero-filled, bit-flipped, cut, spliced, non-UTF-8), files overwritten while they are read, 1-3 failing system calls, full disk; any command. Non-trivial: the command ran to its own end.",
        "P16" => "1-3 trees with and without Solidity files; `scaffold` or `check --fix --stdout`, half of them with a failing or short read of one listed file, and the storing form of the same command under the same faults. Non-trivial: both forms could finish.",
        "P17" => "6-48 listed trees of which some are missing or invalid, any command, with at most six files open at a time; compared with the same run without that limit and with one run per file. Non-trivial: more files are listed than may be open.",
        "P18" => "1-2 trees whose outputs are links (relative, absolute, chained, across file systems, dangling) or have unusual permissions; 1-2 runs of scaffold -wf or check --fix with 0-2 faults, kills, a full disk. Non-trivial: the output changed, is a link or is write-protected.",
        "P20" => "1-3 trees with and without Solidity files, any command, run three times from the same files: plainly, and twice with the listed paths written differently (absolute, with . and .., doubled slashes, through a linked directory), from other working directories and with other environment variables. Non-trivial: the surroundings differ.",
        "P19" => "1-4 trees, two thirds of the worlds with broken ones, any reporting command, half of them with 1-3 faults tied to one listed file; the report is compared with its own summary and with one run per file. Non-trivial: the command ended by itself.",
        "P21" | "P22" | "P23" | "P24" | "P25" | "P26" | "P27" | "P28" => return spec_rule(p),
        "P29" => "1-3 trees with and without Solidity files, any command, a third with a failing or short call on a listed file; run from the same files with its options spelt two or three ways (long, short, clustered, with =, between and before the files, defaults spelt out), and once as a command line that is refused, asks for help or lists no files. Non-trivial: two spellings differ, or a line does nothing.",
        _ => "",
    };
    format!("{r} A case is the full list of files, runs, faults and scheduling decisions; two cases are distinct if these differ.")
}
fn spec_rule(p: &str) -> String {
    let what = match p {
        "P21" => "mostly valid trees of 1-3 roots and up to six levels; the constructs, their order and the modifiers of each test are compared with the reference model",
        "P22" => "trees whose titles use words with digits, hyphens, quotes, underscores, non-ASCII letters, keywords and revert forms, some of them twice; names are compared with the reference model, and no name may occur twice",
        "P23" => "two thirds of the trees break a rule (wrong or missing branches, keywords, characters, children, roots, names, or arbitrary damage); acceptance, line and column are compared with the reference model, for scaffold and check",
        "P24" => "trees drawn in other ways (dashes, indentation, comments, blank lines, Windows line endings, spacing, keyword case, when/given), several drawings of one tree in one run, and check against Solidity made from another drawing; compared with the reference model",
        "P25" => "files of 1-4 roots that share conditions, some with missing or differing contract names or tests of the same name; compared with the reference model",
        "P26" => "trees with long and odd actions and nested descriptions and every combination of flags; syntax, pragma, shapes and the comments of each test are compared with the reference model",
        "P28" => "trees with Solidity files that lack, misplace or rename constructs and hold user code; what check --fix adds is compared with the reference model",
        _ => "trees with Solidity files that lack, misplace or rename constructs and hold user code; the places that check points to are compared with the reference model and an independent scanner",
    };
    format!("1-3 trees: {what}. Histories of 1-3 runs of scaffold (printing, -w, -wf) or check with seeded flags, with edits in between, a third of the runs with chunked and interrupted I/O, a fifth with a kill, short read or error and a repetition, a fifth with another process that replaces a tree while it is read (the result has to fit one version). Non-trivial: the model says what one of the judged trees means. A case is the full list of files, runs, faults and scheduling decisions; two cases are distinct if these differ.")
}
