//! A small executable reference model of the tree format: what a tree text
//! means, written from the documentation and sharing no code with bulloak.
//! `spec` says which tests and modifiers a tree stands for, or which part of
//! it breaks which rule.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Construct {
    pub test: bool,
    pub name: String,
    /// Modifiers that a test carries, outermost first.
    pub mods: Vec<String>,
    /// Actions and descriptions with their indentation, in order (tests only).
    pub notes: Vec<(usize, String)>,
    /// Line of the file and column that it comes from.
    pub line: usize,
    pub col: usize,
    /// Which root it comes from.
    pub root: usize,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Spec {
    pub contract: String,
    pub items: Vec<Construct>,
    pub roots: usize,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bad {
    pub rule: &'static str,
    /// Lines and columns that may be named as the place; none: no place is.
    pub at: Vec<(usize, usize)>,
    /// What else the message has to name.
    pub names: Vec<String>,
}
fn b(rule: &'static str, at: &[(usize, usize)]) -> Bad {
    Bad { rule, at: at.to_vec(), names: vec![] }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Meaning {
    Spec(Spec),
    Invalid(Vec<Bad>),
    /// Characters that the model has no opinion about.
    Unknown,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum K {
    Tee,
    Corner,
    Cond,
    It,
    Word,
}
#[derive(Clone, Debug)]
struct T {
    k: K,
    s: String,
    line: usize,
    col: usize,
    last: usize,
}

fn first_upper(w: &str) -> String {
    let mut c = w.chars();
    c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
}
fn first_lower(w: &str) -> String {
    let mut c = w.chars();
    c.next().map(|f| f.to_lowercase().collect::<String>() + c.as_str()).unwrap_or_default()
}
/// Characters that may stand in an identifier.
pub fn ident_char(c: char) -> Option<bool> {
    match c {
        'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => Some(true),
        _ if c.is_ascii() => Some(false),
        // Letters beyond ASCII; symbols and punctuation.
        'à'..='ö' | 'ø'..='ÿ' | 'À'..='Ö' | 'Ø'..='ß' | 'ā'..='ž' | 'ａ'..='ｚ' | 'α'..='ω' => Some(true),
        // A combining accent, a middle dot and a connector may continue one.
        '\u{301}' | '·' | '‿' => Some(true),
        '─' | '│' | '├' | '└' | '€' | '²' | '½' | '→' | '“' | '”' | '…' | '–' | '—' | '±' | '§' | '≥' | '≤' | '≠' | '\u{1F980}' | '\u{1F680}' => Some(false),
        _ => None,
    }
}
/// Hyphens become underscores, whatever may not be in an identifier is left out.
fn clean(s: &str) -> Option<String> {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '-' => o.push('_'),
            ' ' => o.push(' '),
            c => {
                if ident_char(c)? {
                    o.push(c);
                }
            }
        }
    }
    Some(o)
}
fn pascal<'a>(w: impl Iterator<Item = &'a str>) -> String {
    w.map(first_upper).collect()
}

struct Fail(Vec<Bad>);
enum Stop {
    Bad(Fail),
    Unknown,
}
type R<X> = Result<X, Stop>;
fn bad<X>(rule: &'static str, at: &[(usize, usize)]) -> R<X> {
    Err(Stop::Bad(Fail(vec![b(rule, at)])))
}

/// Lines `l0..` of a block as tokens.
fn lex(block: &[&str], l0: usize) -> R<Vec<T>> {
    let mut v: Vec<T> = vec![];
    // Inside the title of a condition, only characters of identifiers (and quotes) may occur.
    for (i, l) in block.iter().enumerate() {
        let line = l0 + i;
        let c: Vec<char> = l.chars().collect();
        let mut p = 0;
        let mut strict = false;
        while p < c.len() {
            let at = p;
            match c[p] {
                ' ' | '─' | '│' => p += 1,
                '\t' | '\r' => {
                    strict = false;
                    p += 1;
                }
                '├' | '└' => {
                    v.push(T { k: if c[p] == '├' { K::Tee } else { K::Corner }, s: c[p].to_string(), line, col: at + 1, last: at + 1 });
                    p += 1;
                }
                '/' if c.get(p + 1) == Some(&'/') => break,
                x if x.is_whitespace() => return Err(Stop::Unknown),
                _ => {
                    let mut s = String::new();
                    while p < c.len() && !c[p].is_whitespace() {
                        if strict {
                            let ok = match c[p] {
                                '_' | '-' | '\'' | '"' => true,
                                x if x.is_ascii() => x.is_ascii_alphanumeric(),
                                // A superscript digit is a number to Unicode, if not a letter.
                                '²' | '½' => true,
                                // These are neither.
                                '\u{301}' | '·' | '‿' => false,
                                x => ident_char(x).ok_or(Stop::Unknown)?,
                            };
                            if !ok {
                                return bad("character", &[(line, p + 1)]);
                            }
                        }
                        s.push(c[p]);
                        p += 1;
                    }
                    let k = match s.to_lowercase().as_str() {
                        "when" | "given" => K::Cond,
                        "it" => K::It,
                        _ => K::Word,
                    };
                    if k == K::Cond && v.last().is_some_and(|t| matches!(t.k, K::Tee | K::Corner)) {
                        strict = true;
                    }
                    v.push(T { k, s, line, col: at + 1, last: p });
                }
            }
        }
    }
    Ok(v)
}

#[derive(Debug)]
enum N {
    Cond { title: String, kids: Vec<N>, line: usize, col: usize },
    Act { title: String, notes: Vec<(usize, String)>, line: usize, col: usize },
}

struct P<'a> {
    t: &'a [T],
    i: usize,
}
impl P<'_> {
    fn at(t: &T) -> [(usize, usize); 1] {
        [(t.line, t.col)]
    }
    fn words(&mut self) -> Vec<String> {
        let mut w = vec![];
        while let Some(t) = self.t.get(self.i) {
            if matches!(t.k, K::Tee | K::Corner) {
                break;
            }
            w.push(t.s.clone());
            self.i += 1;
        }
        w
    }
    /// The branch that starts at the current token, with everything right of it.
    fn node(&mut self, up: Option<&T>) -> R<N> {
        let b = self.t[self.i].clone();
        // A branch with nothing behind it: it, or the one that it hangs on.
        let dangling = |b: &T, up: Option<&T>| -> Vec<(usize, usize)> { [Some(b), up].into_iter().flatten().map(|t| (t.line, t.col)).collect() };
        let Some(f) = self.t.get(self.i + 1).cloned() else { return bad("end", &dangling(&b, up)) };
        match f.k {
            K::Cond => {
                self.i += 1;
                let w = self.words();
                if w.len() == 1 {
                    return bad("title", &P::at(&f));
                }
                let mut kids = vec![];
                while let Some(t) = self.t.get(self.i) {
                    if t.col <= b.col {
                        break;
                    }
                    kids.push(self.node(Some(&b))?);
                }
                Ok(N::Cond { title: w.join(" "), kids, line: b.line, col: b.col })
            }
            K::It => {
                self.i += 1;
                let w = self.words();
                let mut notes = vec![];
                while let Some(t) = self.t.get(self.i).cloned() {
                    if t.col <= b.col {
                        break;
                    }
                    let Some(n) = self.t.get(self.i + 1).cloned() else { return bad("end", &dangling(&t, Some(&b))) };
                    if n.k != K::Word {
                        return bad("description", &P::at(&n));
                    }
                    self.i += 1;
                    notes.push((t.col - b.col, self.words().join(" ")));
                }
                Ok(N::Act { title: w.join(" "), notes, line: b.line, col: b.col })
            }
            _ => bad("token", &P::at(&f)),
        }
    }
}

fn identifiers(n: &N, top: bool, out: &mut Vec<(String, (usize, usize))>, bads: &mut Vec<Bad>) -> Option<()> {
    match n {
        N::Cond { title, kids, line, col } => {
            if kids.is_empty() {
                bads.push(b("childless", &[(*line, *col)]));
            }
            out.push((first_lower(&pascal(clean(title)?.split_whitespace())), (*line, *col)));
            for k in kids {
                identifiers(k, false, out, bads)?;
            }
        }
        N::Act { title, line, col, .. } if top => {
            out.push((first_lower(&pascal(clean(title)?.split_whitespace())), (*line, *col)));
        }
        _ => {}
    }
    Some(())
}

fn emit(n: &N, top: bool, stack: &mut Vec<String>, out: &mut Vec<Construct>, root: usize) -> Option<()> {
    match n {
        N::Act { title, notes, line, col } => {
            if top {
                let name = clean(&pascal(title.split_whitespace().skip(1)))?;
                let mut all = vec![(0, title.clone())];
                all.extend(notes.iter().cloned());
                out.push(Construct { test: true, name: format!("test_{name}"), mods: vec![], notes: all, line: *line, col: *col, root });
            }
        }
        N::Cond { title, kids, line, col } => {
            let t = clean(title)?;
            let nested = kids.iter().any(|k| matches!(k, N::Cond { .. }));
            if nested {
                let name = first_lower(&pascal(t.split_whitespace()));
                out.push(Construct { test: false, name: name.clone(), mods: vec![], notes: vec![], line: *line, col: *col, root });
                stack.push(name);
            }
            let mut notes = vec![];
            let mut revert = None;
            for k in kids {
                if let N::Act { title, notes: d, .. } = k {
                    if revert.is_none() {
                        revert = Some(clean(&title.to_lowercase())? == "it should revert");
                    }
                    notes.push((0, title.clone()));
                    notes.extend(d.iter().cloned());
                }
            }
            if let Some(revert) = revert {
                let mut w = t.split_whitespace();
                let kw = first_upper(w.next().unwrap_or(""));
                let rest = pascal(w);
                let name = if revert { format!("test_Revert{kw}_{rest}") } else { format!("test_{kw}{rest}") };
                out.push(Construct { test: true, name, mods: stack.clone(), notes, line: *line, col: *col, root });
            }
            for k in kids {
                if matches!(k, N::Cond { .. }) {
                    emit(k, false, stack, out, root)?;
                }
            }
            if nested {
                stack.pop();
            }
        }
    }
    Some(())
}

struct Root {
    id: String,
    items: Vec<Construct>,
}

fn root(block: &[&str], l0: usize, index: usize) -> R<Root> {
    let t = lex(block, l0)?;
    let Some(f) = t.first() else { return bad("empty", &[]) };
    if f.k != K::Word {
        return bad("rootless", &P::at(f));
    }
    let mut p = P { t: &t, i: 1 };
    let mut kids = vec![];
    while let Some(b) = t.get(p.i) {
        if !matches!(b.k, K::Tee | K::Corner) {
            return bad("word", &P::at(b));
        }
        kids.push(p.node(None)?);
        // Only the last child of a root hangs on a corner.
        let last = p.i >= t.len();
        if last != (b.k == K::Corner) {
            return bad(if last { "tee" } else { "corner" }, &P::at(b));
        }
    }
    let mut bads = vec![];
    if kids.is_empty() {
        bads.push(b("no children", &[(f.line, f.last), (f.line, f.col)]));
    }
    let mut ids = vec![];
    for k in &kids {
        identifiers(k, true, &mut ids, &mut bads).ok_or(Stop::Unknown)?;
    }
    for (i, (n, at)) in ids.iter().enumerate() {
        let same = ids.iter().filter(|x| x.0 == *n).count();
        if same > 1 && ids[..i].iter().all(|x| x.0 != *n) {
            let mut d = b("duplicate", &[*at]);
            d.names = ids.iter().filter(|x| x.0 == *n).map(|x| x.1 .0.to_string()).collect();
            bads.push(d);
        }
    }
    if !bads.is_empty() {
        return Err(Stop::Bad(Fail(bads)));
    }
    let mut items = vec![];
    for k in &kids {
        emit(k, true, &mut vec![], &mut items, index).ok_or(Stop::Unknown)?;
    }
    Ok(Root { id: f.s.clone(), items })
}

/// The blocks of a text that are more than comments: first line and lines.
fn blocks(text: &str) -> Vec<(usize, Vec<&str>)> {
    let mut v: Vec<(usize, Vec<&str>)> = vec![];
    let mut open = false;
    for (i, l) in text.split('\n').enumerate() {
        if l.is_empty() {
            open = false;
            continue;
        }
        if open {
            v.last_mut().unwrap().1.push(l);
        } else {
            v.push((i + 1, vec![l]));
            open = true;
        }
    }
    v.retain(|(_, b)| !b.iter().all(|l| l.trim().is_empty() || l.trim().starts_with("//")) || b.iter().any(|l| l.trim().starts_with("//")) && b.iter().any(|l| l.trim().is_empty()));
    v
}
/// Nothing but comments and lines of blanks: is it a tree or not?
fn unclear(b: &[&str]) -> bool {
    b.iter().all(|l| l.trim().is_empty() || l.trim().starts_with("//"))
}

pub fn spec(text: &str) -> Meaning {
    let text = text.replace("\r\n", "\n");
    let bl = blocks(&text);
    if bl.is_empty() {
        return Meaning::Invalid(vec![b("empty", &[])]);
    }
    if bl.iter().any(|(_, l)| unclear(l)) {
        return Meaning::Unknown;
    }
    let many = bl.len() > 1;
    let mut roots = vec![];
    for (i, (l0, lines)) in bl.iter().enumerate() {
        match root(lines, *l0, i) {
            Ok(r) => roots.push(r),
            Err(Stop::Unknown) => return Meaning::Unknown,
            Err(Stop::Bad(f)) => return Meaning::Invalid(f.0),
        }
    }
    let mut items: Vec<Construct> = vec![];
    let mut contract = String::new();
    let invalid = |rule, names: &[&str]| Meaning::Invalid(vec![Bad { rule, at: vec![], names: names.iter().map(|s| s.to_string()).collect() }]);
    for (i, r) in roots.into_iter().enumerate() {
        if !many {
            let Some(c) = clean(&r.id) else { return Meaning::Unknown };
            contract = c;
            items = r.items;
            break;
        }
        let n = format!("#{}", i + 1);
        let Some((c, f)) = r.id.split_once("::") else {
            return invalid("separator", &[&n]);
        };
        if c.is_empty() {
            return invalid("contract name", &[&n]);
        }
        if i > 0 && c != contract {
            return invalid("contract names", &[c, &contract]);
        }
        contract = c.to_string();
        let Some(f) = clean(f) else { return Meaning::Unknown };
        for mut x in r.items {
            if x.test {
                x.name = format!("test_{}{}", first_upper(&f), &x.name["test_".len()..]);
            } else if items.iter().any(|y| !y.test && y.name == x.name) {
                continue;
            }
            items.push(x);
        }
    }
    if many {
        let Some(c) = clean(&contract) else { return Meaning::Unknown };
        contract = c;
    }
    // Every test has a name of its own.
    for (i, x) in items.iter().enumerate() {
        if let Some(y) = items[..i].iter().find(|y| x.test && y.test && y.name == x.name) {
            let mut d = b("same name", &[(y.line, y.col)]);
            d.names = vec![x.name.clone(), y.line.to_string(), x.line.to_string()];
            return Meaning::Invalid(vec![d]);
        }
    }
    let roots = bl.len();
    Meaning::Spec(Spec { contract, items, roots })
}

/// Names that Solidity would not take for a contract.
pub fn odd_name(n: &str) -> bool {
    const WORDS: &[&str] = &["contract", "function", "mapping", "abstract", "address", "bool", "string", "struct", "enum", "event", "modifier", "library", "interface", "import", "pragma", "using", "return", "if", "else", "for", "while", "do", "new", "delete", "is", "var", "byte", "bytes", "uint", "int", "public", "private", "internal", "external", "memory", "storage", "calldata", "payable", "pure", "view", "virtual", "override", "constant", "immutable", "constructor", "fallback", "receive", "error", "revert", "assembly", "try", "catch", "throw", "emit", "type", "unchecked", "true", "false", "this", "super", "_"];
    n.is_empty() || n.starts_with(|c: char| c.is_ascii_digit()) || WORDS.contains(&n)
}
