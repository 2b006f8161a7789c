//! P21-P27: what the commands make of a tree refines a small reference model
//! (`model.rs`) throughout simulated histories: trees that are edited, replaced
//! while they are read, delivered in pieces, and runs that are killed.
use super::*;
use crate::model::{self, Bad, Meaning, Spec};
use std::fmt::Write as _;

// ---- what a run produced -------------------------------------------------------
#[derive(Clone, Debug)]
pub enum Outcome {
    /// The Solidity text that was printed or stored.
    Text(String),
    /// The message of the rejection.
    Rejected(String),
}

#[derive(Clone, Debug, Default)]
struct Form {
    skip_mods: bool,
    vm_skip: bool,
    pragma: String,
}
fn form(args: &[String]) -> Form {
    let mut f = Form { pragma: "0.8.0".into(), ..Default::default() };
    let mut it = args.iter().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "-m" | "--skip-modifiers" => f.skip_mods = true,
            "-S" | "--vm-skip" => f.vm_skip = true,
            "-s" | "--solidity-version" => f.pragma = it.next().cloned().unwrap_or_default(),
            _ => {}
        }
    }
    f
}

/// A deviation: kind (see `owns`), class, description.
type Dev = (char, &'static str, String);

/// S structure, N names, V valid tree rejected, A invalid tree accepted,
/// M valid tree rejected as its code is malformed, D clashing names accepted,
/// L place of a rejection, C comments, X syntax and shape, K invalid tree in
/// `check`, W where `check` points.
fn owns(p: &str, kind: char, multi: bool) -> bool {
    match p {
        "P21" => matches!(kind, 'S' | 'V' | 'M'),
        "P22" => matches!(kind, 'N' | 'M' | 'D'),
        "P23" => matches!(kind, 'V' | 'A' | 'L' | 'K' | 'M' | 'D'),
        "P24" => matches!(kind, 'S' | 'V' | 'N' | 'A' | 'W' | 'M' | 'D'),
        "P25" => multi && matches!(kind, 'S' | 'N' | 'V' | 'A' | 'K' | 'M' | 'D'),
        "P26" => matches!(kind, 'C' | 'X' | 'M'),
        "P27" => matches!(kind, 'W'),
        "P28" => matches!(kind, 'F'),
        _ => false,
    }
}

/// Positions "(line L, column C)" in a message.
fn places(msg: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for part in msg.split("(line ").skip(1) {
        let Some((l, rest)) = part.split_once(", column ") else { continue };
        let Some((c, _)) = rest.split_once(')') else { continue };
        if let (Ok(l), Ok(c)) = (l.trim().parse(), c.trim().parse()) {
            v.push((l, c));
        }
    }
    v
}
/// A number or name in the text as a word of its own.
fn says(text: &str, what: &str) -> bool {
    mentions(text, what) || text.contains(what) && !what.chars().all(|c| c.is_alphanumeric() || c == '_')
}

fn misplaced(bads: &[Bad], msg: &str) -> Vec<Dev> {
    let mut d = vec![];
    let at = places(msg);
    for b in bads {
        let silent = b.at.contains(&(1, 1)) && at.is_empty();
        if !b.at.is_empty() && !silent && !at.iter().any(|p| b.at.contains(p)) {
            d.push(('L', "wrong place", format!("the rule \"{}\" is broken at (line, column) {:?}, but the message points to {at:?}: {msg:?}", b.rule, b.at)));
        }
        for n in &b.names {
            if !says(msg, n) {
                d.push(('L', "part not named", format!("the rule \"{}\" is broken, but the message does not mention {n}: {msg:?}", b.rule)));
            }
        }
    }
    for p in &at {
        if !bads.iter().any(|b| b.at.contains(p)) {
            d.push(('L', "wrong place", format!("the message points to {p:?}, where nothing is wrong; wrong is {:?}: {msg:?}", bads)));
        }
    }
    d
}

struct Emitted {
    test: bool,
    name: String,
    mods: Vec<String>,
    notes: Vec<String>,
    code: Vec<String>,
}

fn words_eq(t: &[String], w: &[&str]) -> bool {
    t.len() == w.len() && t.iter().zip(w).all(|(a, b)| a == b)
}

/// Read a modifier or test, which has to have the documented shape.
fn emitted(m: &scan::Item, text: &str, d: &mut Vec<Dev>) -> Option<Emitted> {
    let t = &m.toks;
    if m.kind == "modifier" {
        if !words_eq(t, &["modifier", &m.name, "(", ")", "{", "_", ";", "}"]) {
            d.push(('X', "wrong modifier", format!("{:?}", t.join(" "))));
        }
        return Some(Emitted { test: false, name: m.name.clone(), mods: vec![], notes: vec![], code: vec![] });
    }
    let Some(b) = t.iter().position(|x| x == "{") else {
        d.push(('X', "test without a body", format!("{:?}", t.join(" "))));
        return None;
    };
    if t.len() < 5 || !words_eq(&t[..5], &["function", &m.name, "(", ")", "external"]) || b < 5 {
        d.push(('X', "wrong test head", format!("{:?}", t.join(" "))));
        return None;
    }
    let slice = &text[m.start..m.end];
    let toks = scan::tokens(slice).unwrap_or_default();
    let open = toks.iter().position(|k| !k.comment && k.text == "{").unwrap_or(0);
    if toks[..open].iter().any(|k| k.comment) {
        d.push(('C', "comment outside its test", format!("{slice:?}")));
    }
    Some(Emitted {
        test: true,
        name: m.name.clone(),
        mods: t[5..b].to_vec(),
        notes: toks[open..].iter().filter(|k| k.comment).map(|k| k.text.clone()).collect(),
        code: t[b..].to_vec(),
    })
}
/// Comments and body of a test.
fn contents_differ(x: &model::Construct, y: &Emitted, vm_skip: bool, d: &mut Vec<Dev>) {
    let notes: Vec<String> = x.notes.iter().map(|(k, t)| format!("// {}{t}", " ".repeat(*k))).collect();
    if notes != y.notes {
        let bare = |v: &[String]| v.iter().map(|s| s.trim_start_matches('/').trim().to_string()).collect::<Vec<_>>();
        let class = if bare(&notes) == bare(&y.notes) { "wrong indentation of a comment" } else { "wrong comments" };
        d.push(('C', class, format!("{} holds {:?}, expected {:?}", y.name, y.notes, notes)));
    }
    let body: &[&str] = if vm_skip { &["{", "vm", ".", "skip", "(", "true", ")", ";", "}"] } else { &["{", "}"] };
    if !words_eq(&y.code, body) {
        d.push(('X', "wrong body", format!("{} has the body {:?}, expected {:?}", y.name, y.code.join(" "), body.join(" "))));
    }
}

/// Compare a Solidity text with what the tree stands for.
fn differs(s: &Spec, text: &str, f: &Form) -> Vec<Dev> {
    let mut d: Vec<Dev> = vec![];
    let Some(src) = scan::parse(text) else {
        return vec![('X', "not Solidity", format!("the text does not parse: {text:?}"))];
    };
    let contracts: Vec<&scan::Item> = src.contract_like().collect();
    if contracts.len() != 1 || contracts[0].kind != "contract" {
        return vec![('S', "not one contract", format!("{} contracts in {text:?}", contracts.len()))];
    }
    let c = contracts[0];
    // Around the contract: a pragma with the version asked for, and what `-S` needs.
    let want_pragma = scan::flat(&format!("pragma solidity {};", f.pragma)).unwrap_or_default();
    let pragmas: Vec<&scan::Item> = src.items.iter().filter(|i| i.kind == "pragma").collect();
    if pragmas.len() != 1 || pragmas[0].toks.concat() != want_pragma.concat() {
        d.push(('X', "wrong version pragma", format!("expected `pragma solidity {};` in {text:?}", f.pragma)));
    }
    let imports = src.items.iter().filter(|i| i.kind == "import").count();
    if f.vm_skip != (imports == 1) || (!f.vm_skip && imports > 0) {
        d.push(('X', "wrong imports", format!("{imports} imports in {text:?}")));
    }
    for i in &src.items {
        if !matches!(i.kind.as_str(), "pragma" | "import" | "contract") {
            d.push(('X', "unexpected definition", format!("{} {} in {text:?}", i.kind, i.name)));
        }
    }
    let head: Vec<&str> = if f.vm_skip { vec!["contract", &s.contract, "is", "Test", "{"] } else { vec!["contract", &s.contract, "{"] };
    if c.name != s.contract {
        d.push(('N', "wrong contract name", format!("the contract is {}, expected {}", c.name, s.contract)));
    } else if !words_eq(&c.toks, &head[..head.len() - 1]) && !words_eq(&c.toks, &head) {
        d.push(('X', "wrong contract head", format!("{:?}, expected {head:?}", c.toks)));
    }
    let mut got = vec![];
    for m in &c.members {
        match m.kind.as_str() {
            "modifier" | "function" => got.extend(emitted(m, text, &mut d)),
            k => d.push(('S', "unexpected definition", format!("{k} {} in {text:?}", m.name))),
        }
    }
    if !c.own_comments.is_empty() {
        d.push(('C', "comment outside its test", format!("{:?}", c.own_comments)));
    }
    // The documented correspondence.
    let want: Vec<&model::Construct> = s.items.iter().filter(|i| i.test || !f.skip_mods).collect();
    let line = |w: &[(bool, String)]| w.iter().map(|(t, n)| format!("{} {n}", if *t { "test" } else { "modifier" })).collect::<Vec<_>>().join(", ");
    let w: Vec<(bool, String)> = want.iter().map(|i| (i.test, i.name.clone())).collect();
    let g: Vec<(bool, String)> = got.iter().map(|i| (i.test, i.name.clone())).collect();
    if w.iter().map(|x| x.0).ne(g.iter().map(|x| x.0)) {
        d.push(('S', "wrong constructs", format!("expected [{}], got [{}]", line(&w), line(&g))));
        return d;
    }
    if w != g {
        let mut a = w.clone();
        let mut b = g.clone();
        a.sort();
        b.sort();
        if a == b {
            d.push(('S', "wrong order", format!("expected [{}], got [{}]", line(&w), line(&g))));
            return d;
        }
    }
    for (i, (x, y)) in want.iter().zip(&got).enumerate() {
        if x.name != y.name {
            d.push(('N', "wrong name", format!("construct {} is {}, expected {} (tree line {})", i + 1, y.name, x.name, x.line)));
        }
        if y.name.chars().any(|c| !c.is_alphanumeric() && model::ident_char(c) != Some(true) || model::ident_char(c) == Some(false)) || y.name.starts_with(|c: char| c.is_ascii_digit()) {
            d.push(('N', "no identifier", format!("construct {} is {:?}", i + 1, y.name)));
        }
        if got[..i].iter().any(|z| z.name == y.name) {
            d.push(('N', "name used twice", format!("{} in [{}]", y.name, line(&g))));
        }
        if !x.test {
            continue;
        }
        // Modifiers: those of the conditions above, outermost first.
        let mut right = x.mods.len() == y.mods.len();
        for (m, n) in x.mods.iter().zip(&y.mods) {
            let at = want.iter().position(|z| !z.test && z.name == *m);
            right &= match at {
                Some(k) => got[k].name == *n,
                None => m == n,
            };
        }
        if !right {
            d.push(('S', "wrong modifiers", format!("{} carries {:?}, expected {:?} (tree line {})", y.name, y.mods, x.mods, x.line)));
        }
        contents_differ(x, y, f.vm_skip, &mut d);
    }
    d
}

/// What a fix added to a Solidity file.
fn fix_deviations(m: &Meaning, before: &str, after: &str, skip_mods: bool) -> Vec<Dev> {
    let Meaning::Spec(s) = m else { return vec![] };
    let (Some(a), Some(b)) = (scan::parse(before), scan::parse(after)) else { return vec![] };
    let Some(new) = b.contract(&s.contract) else { return vec![] };
    if model::odd_name(&s.contract) || b.items.iter().filter(|i| i.name == s.contract).count() > 1 {
        return vec![];
    }
    let old = match (a.contract(&s.contract), a.contract_like().count()) {
        (Some(c), _) => Some(c),
        (None, 0) => None,
        // It was renamed.
        (None, 1) => a.first_contract(),
        _ => return vec![],
    };
    let was: Vec<(String, String)> = old.map(scan::constructs).unwrap_or_default();
    let mut d = vec![];
    let mut rest = was.clone();
    for x in &new.members {
        let key = (x.kind.clone(), x.name.clone());
        if !matches!(x.kind.as_str(), "function" | "modifier") {
            continue;
        }
        if let Some(i) = rest.iter().position(|y| *y == key) {
            rest.swap_remove(i);
            continue;
        }
        // Added.
        let item = s.items.iter().find(|i| i.name == x.name && i.test == (x.kind == "function"));
        let Some(item) = item else {
            d.push(('F', "unasked construct added", format!("{} {} was added, which the tree does not ask for", x.kind, x.name)));
            continue;
        };
        if !item.test && skip_mods && old.is_some() {
            d.push(('F', "unasked construct added", format!("modifier {} was added in spite of -m", x.name)));
        }
        if was.contains(&key) {
            d.push(('F', "construct added twice", format!("{} {} was there already", x.kind, x.name)));
        }
        let mut e = vec![];
        if let Some(y) = emitted(x, after, &mut e) {
            if item.test {
                if item.mods != y.mods {
                    e.push(('S', "wrong modifiers", format!("{} carries {:?}, expected {:?} (tree line {})", y.name, y.mods, item.mods, item.line)));
                }
                contents_differ(item, &y, false, &mut e);
            }
        }
        d.extend(e.into_iter().map(|(_, c, t)| ('F', c, t)));
    }
    d
}

fn deviations(m: &Meaning, o: &Outcome, f: &Form) -> Vec<Dev> {
    match (m, o) {
        (Meaning::Unknown, _) => vec![],
        (Meaning::Spec(s), _) if model::odd_name(&s.contract) => vec![],
        (Meaning::Spec(s), Outcome::Text(t)) => differs(s, t, f),
        (Meaning::Spec(_), Outcome::Rejected(msg)) => vec![(if msg.contains("format") && places(msg).is_empty() { 'M' } else { 'V' }, "valid tree rejected", format!("the message is {msg:?}"))],
        (Meaning::Invalid(b), Outcome::Text(t)) => vec![(if b.iter().all(|b| matches!(b.rule, "duplicate" | "same name")) { 'D' } else { 'A' }, "invalid tree accepted", format!("{b:?}, but the result is {t:?}"))],
        (Meaning::Invalid(b), Outcome::Rejected(msg)) => misplaced(b, msg),
    }
}

/// Rejections: listed name -> message.
fn rejections(err: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut cur = String::new();
    for l in strip_ansi(err).lines() {
        if let Some(n) = l.strip_prefix("file: ") {
            v.push((n.to_string(), std::mem::take(&mut cur)));
        } else {
            let _ = writeln!(cur, "{l}");
        }
    }
    v
}
/// What `scaffold` printed, one text per tree.
fn printed(out: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for l in out.split_inclusive('\n') {
        if l.starts_with("// SPDX-License-Identifier") || v.is_empty() {
            v.push(String::new());
        }
        v.last_mut().unwrap().push_str(l);
    }
    v
}
/// What `check` reports: message and place.
fn reports(err: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut cur = String::new();
    for l in strip_ansi(err).lines() {
        if let Some(p) = l.trim_start().strip_prefix("--> ") {
            v.push((std::mem::take(&mut cur), p.trim().to_string()));
        } else {
            if l.starts_with("warn:") {
                cur.clear();
            }
            let _ = writeln!(cur, "{l}");
        }
    }
    v
}
/// The report is about this place: the file, or a line of it.
fn place_in(p: &str, file: &str) -> Option<Option<usize>> {
    let rest = p.strip_prefix(file)?;
    if rest.is_empty() {
        return Some(None);
    }
    rest.strip_prefix(':')?.parse().ok().map(Some)
}
fn quoted<'a>(msg: &'a str, q: char) -> Option<&'a str> {
    msg.split(q).nth(1)
}

/// What `check` has to say about a tree and a Solidity file.
fn check_deviations(m: &Meaning, sol: Option<&str>, tree: &str, skip_mods: bool, rep: &[(String, String)]) -> Vec<Dev> {
    let sol_name = sol_path(tree);
    let mine: Vec<(&String, bool, Option<usize>)> = rep
        .iter()
        .filter_map(|(m, p)| match (place_in(p, tree), place_in(p, &sol_name)) {
            (Some(l), _) => Some((m, true, l)),
            (None, Some(l)) => Some((m, false, l)),
            _ => None,
        })
        .collect();
    let mut d = vec![];
    let s = match m {
        Meaning::Unknown => return d,
        Meaning::Invalid(b) => {
            if !mine.iter().any(|x| x.1) {
                d.push(('K', "invalid tree not reported", format!("{tree} breaks {b:?}, but check reports {rep:?}")));
            }
            return d;
        }
        Meaning::Spec(s) => s,
    };
    if model::odd_name(&s.contract) {
        return d;
    }
    if let Some(x) = mine.iter().find(|x| x.0.contains("parsing the tree")) {
        d.push(('K', "valid tree rejected", format!("{tree} is a valid tree, but check reports {:?}", x.0)));
        return d;
    }
    let Some(text) = sol else { return d };
    let Some(src) = scan::parse(text) else { return d };
    if mine.iter().any(|x| x.0.contains("parsing")) {
        return d;
    }
    let Some(c) = src.contract(&s.contract) else {
        // The tree's root may have characters that a contract's name cannot.
        let named = |m: &str| {
            let letters: String = m.replace('-', "_").chars().filter(|c| c.is_alphanumeric() || *c == '_').collect();
            mentions(m, &s.contract) || letters.contains(&s.contract)
        };
        if src.contract_like().count() == 0 && !mine.iter().any(|x| x.1 && named(x.0)) {
            d.push(('W', "missing contract not placed", format!("the contract {} is missing, but check reports {mine:?} for {tree}", s.contract)));
        }
        if src.contract_like().count() == 1 {
            let line = line_at(text, src.first_contract().unwrap());
            if !mine.iter().any(|x| !x.1 && x.2 == Some(line) && named(x.0)) {
                d.push(('W', "wrong contract not placed", format!("line {line} of {sol_name} has the wrong contract instead of {}, but check reports {mine:?}", s.contract)));
            }
        }
        return d;
    };
    if src.contract_like().count() > 1 {
        // Which of several contracts is meant is not this property's business.
        let other = src.contract_like().filter(|x| x.name == s.contract).count();
        if other != 1 {
            return d;
        }
    }
    // Missing constructs: each on its line of the tree, once.
    let have: Vec<(&scan::Item, String)> = c.members.iter().map(|m| (m, m.kind.clone())).filter(|x| x.1 == "function" || x.1 == "modifier").collect();
    let find = |i: &model::Construct| have.iter().position(|(m, k)| m.name == i.name && (k == "function") == i.test);
    let mut want: Vec<(String, usize)> = s.items.iter().filter(|i| find(i).is_none() && (i.test || !skip_mods)).map(|i| (i.name.clone(), i.line)).collect();
    let mut got: Vec<(String, usize)> = mine.iter().filter(|x| x.1 && x.0.contains("missing")).filter_map(|x| Some((quoted(x.0, '"')?.to_string(), x.2?))).collect();
    want.sort();
    got.sort();
    if want != got {
        d.push(('W', "missing constructs misreported", format!("missing are {want:?} (name, line of {tree}), but check reports {got:?}: {mine:?}")));
    }
    // Misplaced ones: at their line of the Solidity file.
    let pos: Vec<(usize, &model::Construct)> = s.items.iter().filter_map(|i| Some((find(i)?, i))).collect();
    let mut pairs = vec![];
    for i in 0..pos.len() {
        for j in i + 1..pos.len() {
            if pos[i].0 > pos[j].0 {
                pairs.push((pos[i], pos[j]));
            }
        }
    }
    let moved: Vec<(String, Option<usize>)> = mine.iter().filter(|x| !x.1 && x.0.contains("position")).filter_map(|x| Some((quoted(x.0, '`')?.to_string(), x.2))).collect();
    for (n, l) in &moved {
        let at: Vec<usize> = pairs.iter().flat_map(|(a, b)| [a, b]).filter(|x| x.1.name == *n).map(|x| line_at(text, have[x.0].0)).collect();
        if at.is_empty() {
            d.push(('W', "construct in place reported", format!("check reports {n} of {sol_name} as misplaced: {mine:?}")));
        } else if !l.is_some_and(|l| at.contains(&l)) {
            d.push(('W', "misplaced construct at another line", format!("{n} stands at line {at:?} of {sol_name}, but check reports {l:?}")));
        }
    }
    for (a, b) in &pairs {
        if !moved.iter().any(|x| x.0 == a.1.name || x.0 == b.1.name) {
            d.push(('W', "misplaced construct not reported", format!("{} and {} are in the wrong order in {sol_name}, but check reports {mine:?}", a.1.name, b.1.name)));
        }
    }
    d
}
/// Line of an item's first token that is no comment.
fn line_at(text: &str, i: &scan::Item) -> usize {
    let s = scan::tokens(&text[i.start..i.end]).unwrap_or_default().iter().find(|t| !t.comment).map(|t| t.start).unwrap_or(0);
    1 + text[..i.start + s].matches('\n').count()
}

pub fn judge(ctx: &mut Ctx, c: &Case, v: &mut Verdict) {
    let p = c.property.as_str();
    let mut vfs = build_world(&c.files);
    for st in &c.steps {
        let Step::Run { runs, actors, schedule } = st else {
            other_step(&mut vfs, st);
            continue;
        };
        if runs.len() != 1 {
            continue;
        }
        let spec = &runs[0];
        let cm = parse_cmd(&spec.args);
        let f = form(&spec.args);
        let pre = vfs.clone();
        // Every version that a file has during the run.
        let versions = |path: &str| -> Vec<Option<Data>> {
            let mut x = vec![readable(&pre, path)];
            x.extend(actors.iter().flatten().filter_map(|a| match a {
                Change::Replace { path: q, content } if abs(q) == abs(path) => Some(Some(content.bytes().into())),
                _ => None,
            }));
            x
        };
        // A version: its number of roots and its meaning.
        let meanings = |path: &str| -> Option<Vec<(bool, Meaning)>> {
            let mut out = vec![];
            for d in versions(path) {
                let t = String::from_utf8(d?.to_vec()).ok()?;
                let many = t.contains("\n\n") || t.contains("\n\r\n");
                out.push((many, model::spec(&t)));
            }
            Some(out)
        };
        let s = ctx.run_obs(&mut vfs, runs, actors, schedule, &Observe::default());
        let pr = &s.procs[0];
        let distinct = dedup(&cm.trees.iter().map(|t| abs(t)).collect::<Vec<_>>()).len() == cm.trees.len() && out_paths(&spec.args).len() == cm.trees.len();
        if !distinct || !spec.streams.is_empty() || spec.disk_free.is_some() {
            continue;
        }
        let clean = clean_or_short(spec) && !pr.killed();
        let mut seen = false;
        let mut say = |t: &str, devs: Vec<Vec<Dev>>, multi: bool| {
            // The result has to fit one of the versions.
            let best = devs.into_iter().map(|d| d.into_iter().filter(|x| owns(p, x.0, multi)).collect::<Vec<_>>()).min_by_key(|d| d.len()).unwrap_or_default();
            for (_, class, text) in best {
                v.bad(class, format!("`{}`, {t}: {text}", quote(&spec.args)));
            }
        };
        if cm.check {
            if cm.fix && !cm.stdout {
                // Whatever became of the run: what it stored is what the tree asks for.
                for t in &cm.trees {
                    let o = abs(&sol_path(t));
                    let moved = actors.iter().flatten().any(|a| abs(change_path(a)) == o);
                    let (Some(x), Some(y), Some(ms)) = (pre.content(&o), vfs.content(&o), meanings(t)) else { continue };
                    if x == y || moved {
                        continue;
                    }
                    let (x, y) = (String::from_utf8_lossy(&x).into_owned(), String::from_utf8_lossy(&y).into_owned());
                    seen |= met(&ms, true, &mut ctx.k.stats);
                    let devs = ms.iter().map(|m| fix_deviations(&m.1, &x, &y, f.skip_mods)).collect();
                    say(t, devs, ms.iter().any(|m| m.0));
                }
            }
            if cm.fix || !clean {
                v.nontrivial |= seen;
                continue;
            }
            let rep = reports(&pr.stderr());
            for t in &cm.trees {
                let Some(ms) = meanings(t) else { continue };
                let sols = versions(&sol_path(t));
                let mut devs = vec![];
                for (_, m) in &ms {
                    for sol in &sols {
                        let text = sol.as_ref().and_then(|d| std::str::from_utf8(d).ok());
                        devs.push(check_deviations(m, text, t, f.skip_mods, &rep));
                    }
                }
                seen |= met(&ms, true, &mut ctx.k.stats);
                say(t, devs, ms.iter().any(|m| m.0));
            }
            v.nontrivial |= seen;
            continue;
        }
        let rej = rejections(&pr.stderr());
        if cm.write {
            for t in &cm.trees {
                let o = abs(&sol_path(t));
                let (a, b) = (pre.content(&o), vfs.content(&o));
                let Some(ms) = meanings(t) else { continue };
                let r = rej.iter().find(|x| x.0 == *t);
                let outcome = match (&b, r) {
                    (_, Some(r)) if clean => Outcome::Rejected(r.1.clone()),
                    (Some(d), _) if a != b => Outcome::Text(String::from_utf8_lossy(d).into_owned()),
                    _ => continue,
                };
                seen |= met(&ms, false, &mut ctx.k.stats);
                let devs = ms.iter().map(|m| deviations(&m.1, &outcome, &f)).collect();
                say(t, devs, ms.iter().any(|m| m.0));
            }
            v.nontrivial |= seen;
            continue;
        }
        if !clean {
            continue;
        }
        let texts = printed(&pr.stdout());
        let mut next = texts.iter();
        let mut complete = true;
        for t in &cm.trees {
            let outcome = match rej.iter().find(|x| x.0 == *t) {
                Some(r) => Outcome::Rejected(r.1.clone()),
                None => match next.next() {
                    Some(x) => Outcome::Text(x.clone()),
                    None => {
                        complete = false;
                        continue;
                    }
                },
            };
            let Some(ms) = meanings(t) else { continue };
            seen |= met(&ms, false, &mut ctx.k.stats);
            let devs = ms.iter().map(|m| deviations(&m.1, &outcome, &f)).collect();
            say(t, devs, ms.iter().any(|m| m.0));
        }
        if !complete || next.next().is_some() {
            v.bad("not one result per tree", format!("`{}` prints {} texts and rejects {:?}", quote(&spec.args), texts.len(), rej.iter().map(|x| &x.0).collect::<Vec<_>>()));
        }
        v.nontrivial |= seen;
    }
}
/// Count what kinds of trees the runs met; is the model about one of them?
fn met(ms: &[(bool, Meaning)], check: bool, st: &mut crate::kernel::Stats) -> bool {
    let mut known = false;
    for (_, m) in ms {
        known |= !matches!(m, Meaning::Unknown);
        let k = match m {
            Meaning::Unknown => "tree without a model".to_string(),
            Meaning::Spec(s) if model::odd_name(&s.contract) => "tree without a model".to_string(),
            Meaning::Spec(s) => format!("valid tree, {} root(s)", if s.roots > 2 { "3+".to_string() } else { s.roots.to_string() }),
            Meaning::Invalid(b) => format!("invalid tree: {}", b.first().map(|b| b.rule).unwrap_or("?")),
        };
        st.probe(&format!("{}{k}", if check { "check: " } else { "" }));
    }
    known
}

// ---- trees -----------------------------------------------------------------------
const PLAIN: &[&str] = &["stream", "owner", "balance", "caller", "token", "is", "has", "exceeds", "the", "a", "null", "zero", "paused", "max", "not", "and", "authorized"];
/// Words for titles of conditions.
const ODD: &[&str] = &["non-zero", "re-entered", "it's", "\"quoted\"", "_x", "x_", "A", "ERC20", "UPPER", "camelCase", "123", "0x1f", "\u{e9}lan", "gr\u{f6}\u{df}er", "x\u{b2}", "\u{bd}x", "when", "given", "it", "When", "-", "--", "a-", "-b", "'", "'s", "revert", "Revert", "test", "\u{3b1}\u{3b2}"];
/// Words for actions and descriptions, besides those.
const WILD: &[&str] = &["revert.", "`code`", "{state}", "(x,y)", "100%", "a/b", "https://x.y/z", "=>", "*/", "/*", "\\", "\\n", "\u{20ac}", "\u{2192}", "\u{1F980}", "$", "#1", ";", "}", "{", "\"open", "'", "x;y", "a\u{2500}b", "m\u{251c}n", "!", "...", "@dev", "<b>", "[0]", "&&", "||", "~", "^", "5,000", "1.5", "::", "a::b", "_;", "\"\"", "\u{201c}so\u{201d}", "--", "-", "it's", "%s", "\\\"", "/", "*", "\u{e9}t\u{e9}", "cafe\u{301}", "a\u{b7}b", "c\u{203f}d", "\u{bd}x", "\"no\";", "x\";", "\");", "$1", "${x}", "// y", "/** z", "__bulloak_comment__", "\"\\\"", "'\";'"];

fn word(r: &mut Rng, wild: bool) -> String {
    let k = r.below(12);
    if wild && k < 3 {
        return r.pick(WILD).to_string();
    }
    match k {
        0..=2 => r.pick(ODD).to_string(),
        3 => {
            let n = r.range(1, 9);
            (0..n).map(|_| *r.pick(&['a', 'B', 'c', 'X', 'y', '7', '_', '-', 'e'])).collect()
        }
        _ => r.pick(PLAIN).to_string(),
    }
}
fn phrase(r: &mut Rng, wild: bool, lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    (0..n).map(|_| word(r, wild)).collect::<Vec<_>>().join(" ")
}
struct Gen {
    n: usize,
    /// Titles used so far, in all roots.
    old: Vec<String>,
    /// Allow titles to occur again now and then.
    again: bool,
}
/// Another title that gets the same name, or nearly so.
fn like(r: &mut Rng, t: &str) -> String {
    let (kw, rest) = t.split_once(' ').unwrap_or((t, "x"));
    let words: Vec<&str> = rest.split(' ').collect();
    let i = r.below(words.len());
    let mut w: Vec<String> = words.iter().map(|w| w.to_string()).collect();
    match r.below(6) {
        0 | 1 if i > 0 => {
            // One word instead of two.
            let x = w.remove(i);
            w[i - 1].push_str(&first_upper(&x));
        }
        2 => w[i] = first_upper(&w[i]),
        3 => w[i] = if w[i].contains('-') { w[i].replace('-', "_") } else { w[i].replace('_', "-") },
        4 => w[i].push_str(*r.pick(&["'", "\""])),
        5 => w.insert(i, "'".into()),
        _ => w[i] = w[i].to_lowercase(),
    }
    let kw = if r.chance(1, 3) { first_upper(kw) } else { kw.to_string() };
    format!("{kw} {}", w.join(" "))
}
fn first_upper(w: &str) -> String {
    let mut c = w.chars();
    c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
}
fn s_cond_title(r: &mut Rng, g: &mut Gen, many: bool) -> String {
    if !g.old.is_empty() && (many && r.chance(1, 2) || g.again && r.chance(1, 12)) {
        let t = r.pick(&g.old).clone();
        return if g.again && r.chance(1, 3) { like(r, &t) } else { t };
    }
    let kw = *r.pick(&["when", "given", "when", "given", "When", "Given", "WHEN", "GIVEN", "wHen", "giVen"]);
    g.n += 1;
    let t = match r.below(10) {
        0 => format!("{kw} {}", phrase(r, false, 1, 2)),
        1 if r.chance(1, 12) => format!("{kw} {} n{}", phrase(r, false, 30, 90), g.n),
        1 => format!("{kw} {} n{}", phrase(r, false, 8, 20), g.n),
        2 => format!("{kw} n{} {}", g.n, phrase(r, false, 1, 3)),
        _ => format!("{kw} {} n{}", phrase(r, false, 1, 4), g.n),
    };
    g.old.push(t.clone());
    t
}
fn s_act(r: &mut Rng, g: &mut Gen, top: bool) -> gen::Node {
    let kw = *r.pick(&["it", "it", "It", "IT", "iT"]);
    g.n += 1;
    let title = if top {
        match r.below(12) {
            0 => format!("{kw} {}", phrase(r, true, 1, 3)),
            1 if g.again => kw.to_string(),
            3 if !g.old.is_empty() && r.chance(1, 4) => {
                // What a condition says, as an action.
                let t = r.pick(&g.old);
                let t = if r.chance(1, 2) { t.as_str() } else { t.split_once(' ').map_or(t.as_str(), |x| x.1) };
                if g.again { format!("{kw} {t}") } else { format!("{kw} {t} t{}", g.n) }
            }
            2 => format!("{kw} {} t{}", phrase(r, true, 8, 24), g.n),
            _ => format!("{kw} {} t{}", phrase(r, true, 0, 5), g.n),
        }
    } else {
        match r.below(12) {
            0..=2 => format!("{kw} {}", r.pick(&["should revert", "should revert.", "Should Revert", "SHOULD REVERT!", "should  revert", "should rev-ert", "should reverts", "should revert now", "shouldrevert", "should \"revert\"", "should revert_", "will revert"])),
            3 => kw.to_string(),
            4 if r.chance(1, 12) => format!("{kw} {}", phrase(r, true, 60, 600)),
            4 => format!("{kw} {}", phrase(r, true, 8, 30)),
            _ => format!("{kw} {}", phrase(r, true, 0, 6)),
        }
    };
    let mut desc = vec![];
    if r.chance(1, 4) {
        let mut d: usize = 0;
        for i in 0..if r.chance(1, 20) { r.range(6, 16) } else { r.range(1, 5) } {
            let mut t = if r.chance(1, 60) { phrase(r, true, 30, 300) } else { phrase(r, true, 1, 6) };
            // A description starts with a word.
            if matches!(t.split(' ').next().unwrap().to_lowercase().as_str(), "when" | "given" | "it") {
                t = format!("so {t}");
            }
            desc.push((d, t));
            d = match r.below(3) {
                0 => d + 1,
                1 => d.saturating_sub(1),
                _ => d,
            };
            if i == 0 && d > 1 {
                d = 1;
            }
        }
    }
    gen::Node::Act { title, desc }
}
fn s_cond(r: &mut Rng, g: &mut Gen, many: bool, depth: usize, budget: &mut usize) -> gen::Node {
    let title = s_cond_title(r, g, many);
    *budget = budget.saturating_sub(1);
    let mut kids = vec![];
    let acts = if r.chance(1, 60) { r.range(4, 14) } else { *r.pick(&[0, 1, 1, 1, 2, 3]) };
    for _ in 0..acts {
        kids.push(s_act(r, g, false));
    }
    if depth > 0 && *budget > 0 && (depth > 6 || r.chance(3, 5)) {
        for _ in 0..if depth > 6 { *r.pick(&[1, 1, 1, 2]) } else { r.range(1, 3) } {
            if *budget > 0 {
                kids.push(s_cond(r, g, many, depth - 1, budget));
            }
        }
    }
    if kids.is_empty() {
        kids.push(s_act(r, g, false));
    }
    if r.chance(1, 3) {
        r.shuffle(&mut kids);
    }
    gen::Node::Cond { title, kids }
}
fn s_tree(r: &mut Rng, roots: usize, again: bool) -> gen::Tree {
    let contract = if r.chance(1, 3) { format!("{}{}", r.pick(&["Foo", "my", "A_b", "X-y", "It's", "\u{c9}t\u{e9}", "_q", "Foo::", "when", "F.o", "Foo()"]), r.pick(&["", "", "1", "T", "-z"])) } else { gen::contract_name(r) };
    let contract = if roots > 1 { contract.replace("::", "") } else { contract };
    let contract = if matches!(contract.as_str(), "when" | "given" | "it") { "Foo".to_string() } else { contract };
    let mut g = Gen { n: 0, old: vec![], again };
    let mut out = vec![];
    let mut fs: Vec<String> = vec![];
    for i in 0..roots {
        let f = match r.below(8) {
            0 => r.pick(&["re-enter", "\"f\"", "f()", "_f", "F", "if", "transfer.from", "a::b", "mint!", "\u{e9}"]).to_string() + &i.to_string(),
            1 if again && i > 0 => fs[i - 1].clone(),
            _ => format!("{}{i}", r.pick(&["hash", "min", "pair", "Cancel", "mint", "x"])),
        };
        fs.push(f.clone());
        let id = if roots > 1 { format!("{contract}::{f}") } else { contract.clone() };
        let mut budget = *r.pick(&[1, 2, 3, 5, 8, 14]);
        let mut kids = vec![];
        let mut depth = r.range(0, 5);
        let mut width = r.range(1, 4);
        match r.below(40) {
            0 => {
                // A deep tree.
                depth = r.range(7, 16);
                budget = depth + r.below(10);
            }
            1 => {
                // A wide one.
                width = r.range(8, 24);
                budget = width + 6;
                depth = depth.min(1);
            }
            _ => {}
        }
        for _ in 0..width {
            if r.chance(1, 3) || budget == 0 {
                kids.push(s_act(r, &mut g, true));
            } else {
                // Modifiers are shared between roots, not within one.
                kids.push(s_cond(r, &mut g, i > 0, depth, &mut budget));
            }
        }
        if !again || r.chance(5, 6) {
            // Drop what would occur twice in this root.
            let mut seen = vec![];
            unique(&mut kids, &mut seen);
        }
        if kids.is_empty() {
            kids.push(s_act(r, &mut g, true));
        }
        out.push((id, kids));
    }
    gen::Tree { roots: out, contract }
}
fn unique(kids: &mut Vec<gen::Node>, seen: &mut Vec<String>) {
    kids.retain_mut(|k| match k {
        gen::Node::Cond { title, kids } => {
            let key = title.to_lowercase();
            if seen.contains(&key) {
                return false;
            }
            seen.push(key);
            unique(kids, seen);
            !kids.is_empty()
        }
        _ => true,
    });
}

/// How a tree is drawn and decorated.
struct Style {
    spaces: bool,
    comments: bool,
    fancy: bool,
    blanks: bool,
    crlf: bool,
}
const NOTES: &[&str] = &["// note: when it lies", "//", "// \u{251c}\u{2500}\u{2500} given nothing", "// it should not", "//x", "// \u{2514}\u{2500}\u{2500} it", "/// doc", "// Foo::bar", "// \u{2502}"];
fn style(r: &mut Rng) -> Style {
    if r.chance(1, 4) {
        return Style { spaces: false, comments: false, fancy: false, blanks: false, crlf: false };
    }
    Style { spaces: r.chance(1, 2), comments: r.chance(1, 2), fancy: r.chance(1, 2), blanks: r.chance(1, 2), crlf: r.chance(1, 6) }
}
fn spread(r: &mut Rng, t: &str, s: &Style) -> String {
    if !s.spaces || !r.chance(1, 3) {
        return t.to_string();
    }
    let mut o = String::new();
    for (i, w) in t.split(' ').enumerate() {
        if i > 0 {
            o.push_str(&" ".repeat(r.range(1, 3)));
        }
        o.push_str(w);
    }
    if r.chance(1, 3) {
        o.push_str("  ");
    }
    o
}
/// The columns of siblings are equal; those of children lie further right.
fn draw(r: &mut Rng, out: &mut Vec<String>, prefix: &str, kids: &[gen::Node], s: &Style) {
    let dashes = if s.fancy { r.below(5) } else { 2 };
    let gap = if s.fancy { r.range(if dashes == 0 { 1 } else { 0 }, 3) } else { 1 };
    let width = if s.fancy { r.range(0, 5) } else { 3 };
    let bar = !s.fancy || r.chance(1, 2);
    let branch = |last: bool| format!("{}{}{}", if last { "\u{2514}" } else { "\u{251c}" }, "\u{2500}".repeat(dashes), " ".repeat(gap));
    for (i, k) in kids.iter().enumerate() {
        let last = i + 1 == kids.len();
        let cont = format!("{prefix}{}{}", if last || !bar { " " } else { "\u{2502}" }, " ".repeat(width));
        let note = |r: &mut Rng, out: &mut Vec<String>| {
            if s.comments && r.chance(1, 6) {
                let l = format!("{}{}", r.pick(&["", "  ", prefix, cont.as_str()]), r.pick(NOTES));
                out.push(l);
            }
        };
        let tail = |r: &mut Rng, t: String| if s.comments && r.chance(1, 6) { format!("{t} {}", r.pick(NOTES)) } else { t };
        note(r, out);
        match k {
            gen::Node::Cond { title, kids } => {
                let l = format!("{prefix}{}{}", branch(last), spread(r, title, s));
                out.push(tail(r, l));
                draw(r, out, &cont, kids, s);
            }
            gen::Node::Act { title, desc } => {
                let l = format!("{prefix}{}{}", branch(last), spread(r, title, s));
                out.push(tail(r, l));
                for (j, (d, t)) in desc.iter().enumerate() {
                    note(r, out);
                    let more = desc[j + 1..].iter().take_while(|(e, _)| e >= d).any(|(e, _)| e == d);
                    let l = format!("{cont}{}{}{}", " ".repeat(d * (width + 1)), branch(!more), spread(r, t, s));
                    out.push(tail(r, l));
                }
            }
        }
    }
}
/// Comments between trees.
fn notes_block(r: &mut Rng) -> String {
    let mut o = String::new();
    for _ in 0..*r.pick(&[1, 1, 2, 3]) {
        let ind = *r.pick(&["", "", "", "  ", "    "]);
        o.push_str(&format!("{ind}{}\n", r.pick(NOTES)));
    }
    o.push('\n');
    o
}
/// Nothing but space between trees.
fn blank_block(r: &mut Rng) -> String {
    let mut o = String::new();
    for _ in 0..r.range(1, 2) {
        o.push_str(&" ".repeat(r.range(1, 4)));
        o.push('\n');
    }
    o.push('\n');
    o
}
fn draw_tree(r: &mut Rng, t: &gen::Tree, s: &Style) -> String {
    let mut parts = vec![];
    for (id, kids) in &t.roots {
        let mut out = vec![];
        if s.comments && r.chance(1, 6) {
            out.push(r.pick(NOTES).to_string());
        }
        let mut l = id.clone();
        if s.comments && r.chance(1, 6) {
            l = format!("{l} {}", r.pick(NOTES));
        }
        if s.spaces && r.chance(1, 6) {
            l = format!("  {l} ");
        }
        out.push(l);
        let pre = if s.fancy { " ".repeat(r.below(4)) } else { String::new() };
        draw(r, &mut out, &pre, kids, s);
        parts.push(out.join("\n"));
    }
    let mut o = String::new();
    if s.blanks && r.chance(1, 3) {
        o.push_str(&"\n".repeat(r.range(1, 3)));
    }
    if s.blanks && r.chance(1, 6) {
        o.push_str(&blank_block(r));
    }
    if s.comments && r.chance(1, 5) {
        o.push_str(&notes_block(r));
    }
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            o.push_str(&"\n".repeat(if s.blanks { r.range(2, 4) } else { 2 }));
            if s.blanks && r.chance(1, 5) {
                o.push_str(&blank_block(r));
            }
            if s.comments && r.chance(1, 6) {
                o.push_str(&notes_block(r));
            }
        }
        o.push_str(p);
    }
    if s.comments && r.chance(1, 10) {
        o.push_str("\n\n");
        o.push_str(notes_block(r).trim_end());
    }
    o.push_str(&"\n".repeat(if s.blanks { r.below(4) } else { 1 }));
    if s.blanks && r.chance(1, 8) {
        o.push_str(&format!("\n\n{}", blank_block(r).trim_end_matches('\n')));
    }
    if s.comments && r.chance(1, 40) {
        o = stretch(r, &o);
    }
    if s.crlf {
        o = o.replace('\n', "\r\n");
    }
    o
}
/// Comments that make a text hundreds of lines long, or many thousand bytes.
fn stretch(r: &mut Rng, text: &str) -> String {
    let lines: Vec<&str> = text.split_inclusive('\n').collect();
    let inside: Vec<usize> = (1..lines.len()).filter(|&i| lines[i - 1].trim().chars().count() > 0 && lines[i].trim().chars().count() > 0).collect();
    if inside.is_empty() {
        return text.to_string();
    }
    let (n, len) = if r.chance(1, 3) { (r.range(2, 6), r.range(1000, 8000)) } else { (r.range(60, 700), r.range(0, 40)) };
    let spots: Vec<usize> = (0..r.range(1, 3)).map(|_| *r.pick(&inside)).collect();
    let mut o = String::new();
    for (i, l) in lines.iter().enumerate() {
        for _ in 0..spots.iter().filter(|&&x| x == i).count() {
            for k in 0..n {
                o.push_str("// ");
                o.push_str(&["it ", "when ", "\u{2514}\u{2500} ", "lorem ", "\u{e9} "][k % 5].repeat(len / 4));
                o.push('\n');
            }
        }
        o.push_str(l);
    }
    o
}
/// The same tree with its keywords spelt another way.
fn respell_keywords(r: &mut Rng, kids: &mut [gen::Node], swap: bool) {
    for k in kids {
        match k {
            gen::Node::Cond { title, kids } => {
                let (kw, rest) = title.split_once(' ').unwrap_or((title.as_str(), ""));
                let mut kw = kw.to_string();
                if swap && r.chance(1, 2) {
                    kw = if kw.to_lowercase() == "when" { "given".into() } else { "when".into() };
                }
                if r.chance(1, 2) {
                    kw = kw.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                }
                *title = format!("{kw} {rest}");
                respell_keywords(r, kids, swap);
            }
            gen::Node::Act { title, .. } => {
                if r.chance(1, 2) {
                    let rest = title[2..].to_string();
                    *title = format!("{}{rest}", r.pick(&["it", "It", "IT", "iT"]));
                }
            }
        }
    }
}

/// Break one rule of the format (most of the time).
fn spoil(r: &mut Rng, t: &gen::Tree, s: &Style) -> String {
    let text = draw_tree(r, t, s);
    let nl = if text.contains("\r\n") { "\r\n" } else { "\n" };
    let mut lines: Vec<String> = text.split(nl).map(|l| l.to_string()).collect();
    let branches: Vec<usize> = lines.iter().enumerate().filter(|(_, l)| l.trim_start_matches([' ', '\u{2502}']).starts_with(['\u{251c}', '\u{2514}'])).map(|(i, _)| i).collect();
    let conds: Vec<usize> = branches
        .iter()
        .copied()
        .filter(|&i| {
            let w = lines[i].trim_start_matches([' ', '\u{2502}', '\u{251c}', '\u{2514}', '\u{2500}']).to_lowercase();
            w.starts_with("when ") || w.starts_with("given ")
        })
        .collect();
    if branches.is_empty() {
        return "Foo\n".into();
    }
    let i = *r.pick(&branches);
    let k = if conds.is_empty() { i } else { *r.pick(&conds) };
    match r.below(20) {
        0 => lines[i] = lines[i].replacen(['\u{251c}', '\u{2514}'], " ", 1),
        1 => {
            // Another word instead of the keyword.
            let l = lines[i].clone();
            let at = l.find(|c: char| c.is_alphanumeric()).unwrap_or(0);
            lines[i] = format!("{}{} {}", &l[..at], r.pick(&["if", "then", "whenever", "its", "Foo", "wen", "1", "\u{130}t", "\u{131}t", "g\u{131}ven", "G\u{130}VEN", "wh\u{e9}n", "whe", "given's", "it-", "_it", "when_", "it2"]), &l[at..]);
        }
        2 => {
            // A character that no title of a condition may have.
            let l = lines[k].trim_end().to_string();
            let words: Vec<usize> = l.match_indices(' ').map(|x| x.0).filter(|&p| l[..p].chars().any(|c| c.is_alphanumeric())).collect();
            let c = *r.pick(&['!', '.', ',', ':', ';', '(', ')', '{', '`', '@', '#', '$', '%', '&', '*', '+', '=', '?', '<', '|', '~', '\\', '/', '\u{20ac}', '\u{2192}', '\u{1F980}']);
            lines[k] = if words.is_empty() || r.chance(1, 3) { format!("{l}{c}") } else { let p = *r.pick(&words); format!("{}{c}{}", &l[..p], &l[p..]) };
        }
        3 => lines[i] = lines[i].replacen('\u{2514}', "\u{251c}", 1),
        4 => lines[i] = lines[i].replacen('\u{251c}', "\u{2514}", 1),
        5 => {
            // A keyword alone.
            let l = lines[k].clone();
            let at = l.find(|c: char| c.is_alphabetic()).unwrap_or(0);
            let e = l[at..].find(' ').map(|x| at + x).unwrap_or(l.len());
            lines[k] = l[..e].to_string();
        }
        6 => {
            // A condition without children.
            let at = lines[i].find(['\u{251c}', '\u{2514}']).unwrap_or(0);
            let c = format!("{}\u{251c}\u{2500}\u{2500} when lonely {}", &lines[i][..at].to_string(), r.below(9));
            lines.insert(i, c);
        }
        7 => {
            // The same condition again.
            let mut x = lines[k].replacen('\u{2514}', "\u{251c}", 1);
            let at = x.find('\u{251c}').unwrap_or(0);
            let act = format!("{}    \u{2514}\u{2500}\u{2500} it should x", x[..at].to_string());
            if r.chance(1, 2) {
                x = x.replacen("when", "When", 1);
            }
            let p = *r.pick(&conds.iter().copied().chain([k]).collect::<Vec<_>>());
            lines.insert(p, act);
            lines.insert(p, x);
        }
        8 => {
            // No root.
            if let Some(p) = lines.iter().position(|l| !l.is_empty() && !l.trim_start().starts_with("//")) {
                lines.remove(p);
            }
        }
        9 => {
            if let Some(p) = lines.iter().position(|l| !l.is_empty() && !l.trim_start().starts_with("//")) {
                lines[p] = format!("{} and more", lines[p].trim_end());
            }
        }
        10 => {
            // A description that starts with a keyword.
            let at = lines[i].find(['\u{251c}', '\u{2514}']).unwrap_or(0);
            let d = format!("{}    \u{2514}\u{2500}\u{2500} {} so", &lines[i][..at].to_string(), r.pick(&["it", "when", "given", "It"]));
            lines.insert(i + 1, d);
        }
        11 => lines.insert(i + 1, r.pick(&["\u{251c}\u{2500}\u{2500}", "\u{2514}\u{2500}\u{2500} ", "    \u{2514}", "\u{2502}   \u{251c}\u{2500}\u{2500}"]).to_string()),
        12 => lines.insert(i, String::new()),
        13 => {
            lines.remove(i);
        }
        14 => {
            let j = *r.pick(&branches);
            lines.swap(i, j);
        }
        15 => {
            // Several rules at once.
            for n in 0..r.range(1, 3) {
                let at = lines[i].find(['\u{251c}', '\u{2514}']).unwrap_or(0);
                let c = format!("{}\u{251c}\u{2500}\u{2500} when lonely {}", &lines[i][..at].to_string(), n % 2);
                lines.insert(i, c);
            }
        }
        16 => {
            let p = lines.iter().position(|l| l.contains("::"));
            if let Some(p) = p {
                let p = *r.pick(&lines.iter().enumerate().filter(|(_, l)| l.contains("::")).map(|(i, _)| i).chain([p]).collect::<Vec<_>>());
                let near = |l: &str, r: &mut Rng| {
                    let (a, b) = l.split_once("::").unwrap_or((l, ""));
                    let a = match r.below(6) {
                        0 => a.to_uppercase(),
                        1 => a.to_lowercase(),
                        2 => format!("{a}_"),
                        3 => format!("{a}'"),
                        4 => if a.contains('-') { a.replace('-', "_") } else { a.replace('_', "-") },
                        _ => a.chars().take(a.chars().count().max(2) - 1).collect(),
                    };
                    format!("{a}::{b}")
                };
                lines[p] = match r.below(8) {
                    4..=7 => near(&lines[p], r),
                    0 => lines[p].replacen("::", "", 1),
                    1 => lines[p].replacen("::", ":", 1),
                    2 => lines[p].split_once("::").map(|x| format!("::{}", x.1)).unwrap_or_default(),
                    _ => format!("Other{}", lines[p]),
                };
            } else {
                lines.push("Foo::bar".into());
            }
        }
        17 => {
            // Another root at the end.
            lines.push(String::new());
            lines.push(format!("{}\n\u{2514}\u{2500}\u{2500} it should last", r.pick(&["Bar::x", "Foo", "::x", "Foo::bar", &t.contract])).replace('\n', nl));
        }
        18 => {
            lines.truncate(r.below(lines.len()).max(1));
        }
        _ => {
            let b = gen::damage(r, text.as_bytes());
            return String::from_utf8_lossy(&b).into_owned();
        }
    }
    lines.join(nl)
}

// ---- histories -------------------------------------------------------------------
fn roots_for(p: &str, r: &mut Rng) -> usize {
    match p {
        "P25" => *r.pick(&[2, 2, 2, 2, 3, 3, 4, 4, 1, 7]),
        _ => *r.pick(&[1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 3, 3, 6]),
    }
}
fn text_for(p: &str, r: &mut Rng) -> (String, gen::Tree) {
    let again = match p {
        "P22" | "P23" | "P25" => r.chance(1, 3),
        _ => false,
    };
    let n = roots_for(p, r);
    let t = s_tree(r, n, again);
    let s = style(r);
    let bad = match p {
        "P23" => r.chance(2, 3),
        "P25" => r.chance(1, 4),
        "P22" | "P27" => r.chance(1, 12),
        _ => r.chance(1, 25),
    };
    (if bad { spoil(r, &t, &s) } else { draw_tree(r, &t, &s) }, t)
}
/// Another text for the same tree.
fn variant(r: &mut Rng, t: &gen::Tree) -> String {
    let mut t = t.clone();
    if r.chance(1, 2) {
        let swap = r.chance(1, 2);
        for (_, k) in t.roots.iter_mut() {
            respell_keywords(r, k, swap);
        }
    }
    let s = Style { spaces: r.chance(1, 2), comments: r.chance(2, 3), fancy: r.chance(2, 3), blanks: r.chance(1, 2), crlf: r.chance(1, 4) };
    draw_tree(r, &t, &s)
}
pub fn generate(p: &str, ctx: &mut Ctx, r: &mut Rng) -> Case {
    let names = ["a.tree", "spec/b.tree", "c.x.tree"];
    let k = r.range(1, 3);
    let mut files = vec![];
    let mut trees: Vec<(String, String, gen::Tree)> = vec![];
    for name in names.iter().take(k) {
        let (text, t) = if p == "P24" && !trees.is_empty() && r.chance(2, 3) {
            // The same tree, written another way.
            let t = trees[0].2.clone();
            (variant(r, &t), t)
        } else {
            text_for(p, r)
        };
        files.push(put(name, &text));
        trees.push((name.to_string(), text, t));
    }
    let mut v = build_world(&files);
    let mut steps: Vec<Step> = vec![];
    let checks = match p {
        "P27" | "P28" => 3,
        "P23" | "P24" | "P25" => 1,
        _ => 0,
    };
    for _ in 0..r.range(1, 3) {
        if !steps.is_empty() {
            // Somebody edits a tree.
            let i = r.below(k);
            let (text, t) = match r.below(4) {
                0 => text_for(p, r),
                1 => {
                    let t = gen::edit_tree(r, &trees[i].2);
                    let s = style(r);
                    (draw_tree(r, &t, &s), t)
                }
                _ => {
                    let t = trees[i].2.clone();
                    (if p == "P23" { let s = style(r); spoil(r, &t, &s) } else { variant(r, &t) }, t)
                }
            };
            let e = put(&trees[i].0, &text);
            apply_all(&mut v, &e);
            steps.push(Step::Edit(e));
            trees[i].1 = text;
            trees[i].2 = t;
        }
        let mut list: Vec<String> = trees.iter().map(|t| t.0.clone()).collect();
        if r.chance(1, 4) {
            r.shuffle(&mut list);
        }
        if r.chance(1, 4) {
            list.truncate(1);
        }
        let check = r.below(4) < checks;
        let args = if check {
            let mut m = Marks(0);
            for t in &trees {
                // The Solidity file: of this tree or of one written another way.
                let old = v.content(&abs(&sol_path(&t.0)));
                if old.is_some() && r.chance(1, 2) {
                    continue;
                }
                let Some(base) = ctx.scaffold_text(t.1.as_bytes(), &[]) else { continue };
                let violate = p == "P27" || p == "P28" || r.chance(1, 3);
                let so = SolOpts { violate, user: r.chance(1, if p == "P28" { 2 } else { 4 }), no_contract: violate && r.chance(1, 6), helpers: false, rename: violate && r.chance(1, 6) };
                let mut text = gen::sol_from(r, &base, &so, &mut m);
                if violate && r.chance(1, 3) {
                    let so = SolOpts { violate, ..Default::default() };
                    text = gen::sol_from(r, &text, &so, &mut m);
                }
                let e = put(&sol_path(&t.0), &text);
                apply_all(&mut v, &e);
                steps.push(Step::Edit(e));
            }
            if p == "P28" {
                fix_cmd(r, &list)
            } else {
                check_cmd(r, &list)
            }
        } else {
            let f = scaffold_flags(r);
            match r.below(3) {
                0 if list.iter().all(|t| v.content(&abs(&sol_path(t))).is_none()) => cmd(&["scaffold", "-w"], &f, &list),
                0 | 1 => cmd(&["scaffold", "-wf"], &f, &list),
                _ => cmd(&["scaffold"], &f, &list),
            }
        };
        let mut spec = RunSpec::of(args);
        env(r, &mut spec);
        if r.chance(1, 3) {
            spec.io = draw_io(r);
            if trees.iter().map(|t| t.1.len()).sum::<usize>() > 20_000 {
                // Not byte by byte.
                spec.io.read_max = spec.io.read_max.max(64);
                spec.io.write_max = spec.io.write_max.max(64);
            }
        }
        let re = ctx.reference(&v, &spec.args);
        let mut again = None;
        if r.chance(1, 5) {
            let mix = FaultMix { kills: r.chance(1, 2), shorts: true, errors: r.chance(1, 4), ..Default::default() };
            add_faults(r, &mut spec, &re.ops, mix, 1);
            // And once more, undisturbed.
            again = Some(spec.clean());
        }
        let mut actors = vec![];
        let mut sched = vec![];
        if spec.faults.is_empty() && r.chance(1, 5) {
            let i = r.below(k);
            let t = trees[i].2.clone();
            let text = if r.chance(1, 2) { text_for(p, r).0 } else { variant(r, &t) };
            actors.push(vec![put(&trees[i].0, &text)]);
            let n = re.ops.len() + 2;
            sched = vec![0u8; n];
            sched[r.below(n)] = 2;
            trees[i].1 = text.clone();
            apply_all(&mut v, &put(&trees[i].0, &text));
        }
        steps.push(Step::Run { runs: vec![spec.clone()], actors, schedule: sched });
        if let Some(a) = again {
            let w = parse_cmd(&a.args);
            if !w.write || w.force {
                steps.push(run_step(a));
            }
        }
        if parse_cmd(&spec.args).writes() {
            for t in &parse_cmd(&spec.args).trees {
                if let Some(d) = re.vfs.content(&abs(&sol_path(t))) {
                    apply_all(&mut v, &put_b(&sol_path(t), &d));
                }
            }
        }
    }
    case(files, steps)
}

/// The model itself does not see how a tree is drawn.
pub fn selftest() -> Result<usize, String> {
    let mut n = 0;
    for i in 0..20_000 {
        let mut r = Rng::new(i * 7919 + 1);
        let roots = r.range(1, 3);
        let t = s_tree(&mut r, roots, false);
        let a = draw_tree(&mut r, &t, &Style { spaces: false, comments: false, fancy: false, blanks: false, crlf: false });
        let s = Style { spaces: true, comments: true, fancy: false, blanks: true, crlf: i % 2 == 0 };
        let b = draw_tree(&mut r, &t, &s);
        let strip = |m: Meaning| match m {
            Meaning::Spec(mut s) => {
                for x in s.items.iter_mut() {
                    x.line = 0;
                    x.col = 0;
                }
                format!("{s:?}")
            }
            Meaning::Invalid(b) => format!("{:?}", b.iter().map(|x| x.rule).collect::<Vec<_>>()),
            Meaning::Unknown => "?".into(),
        };
        let (x, y) = (strip(model::spec(&a)), strip(model::spec(&b)));
        if x != y {
            return Err(format!("{a}\n{x}\n{b}\n{y}"));
        }
        n += 1;
    }
    Ok(n)
}
