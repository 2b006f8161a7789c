//! A small, independent scanner for Solidity source: enough structure to say
//! which definitions a file has, in which order, and with which tokens.  It
//! shares no code with bulloak or its parser.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub text: String,
    pub start: usize,
    pub end: usize,
    pub comment: bool,
}

/// Tokens of a source text; None if a string or block comment never ends.
pub fn tokens(src: &str) -> Option<Vec<Tok>> {
    let b = src.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        let s = i;
        let mut comment = false;
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                i += 1;
            }
            comment = true;
        } else if c == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            i += 2;
            loop {
                if i + 1 >= b.len() {
                    return None;
                }
                if b[i] == b'*' && b[i + 1] == b'/' {
                    i += 2;
                    break;
                }
                i += 1;
            }
            comment = true;
        } else if c == b'"' || c == b'\'' {
            i += 1;
            loop {
                if i >= b.len() || b[i] == b'\n' {
                    return None;
                }
                if b[i] == b'\\' {
                    i += 2;
                    continue;
                }
                if b[i] == c {
                    i += 1;
                    break;
                }
                i += 1;
            }
        } else if c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c >= 0x80 {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$' || b[i] >= 0x80) {
                i += 1;
            }
        } else {
            i += 1;
        }
        if i > b.len() {
            return None;
        }
        v.push(Tok { text: src.get(s..i)?.to_string(), start: s, end: i, comment });
    }
    Some(v)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Item {
    pub kind: String,
    pub name: String,
    /// Code tokens, without comments.
    pub toks: Vec<String>,
    /// Comments inside the item.
    pub comments: Vec<String>,
    pub start: usize,
    pub end: usize,
    /// Members, for contracts.
    pub members: Vec<Item>,
    /// Comments directly in the contract, outside every member.
    pub own_comments: Vec<String>,
    /// Byte offset just after the opening brace, for contracts.
    pub body: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Source {
    pub items: Vec<Item>,
    /// Comments at file level.
    pub comments: Vec<String>,
}

fn norm_comment(c: &str) -> String {
    let c = c.trim();
    let inner = if let Some(r) = c.strip_prefix("//") {
        r.trim_start_matches('/')
    } else {
        c.trim_start_matches("/*").trim_end_matches("*/").trim_matches('*')
    };
    inner.split_whitespace().filter(|w| *w != "*").collect::<Vec<_>>().join(" ")
}

/// Parse a source text into items; None if brackets do not match up.
pub fn parse(src: &str) -> Option<Source> {
    let t = tokens(src)?;
    let mut depth: Vec<char> = vec![];
    for k in &t {
        if k.comment {
            continue;
        }
        match k.text.as_str() {
            "{" | "(" | "[" => depth.push(k.text.chars().next().unwrap()),
            "}" | ")" | "]" => {
                let o = depth.pop()?;
                if !matches!((o, k.text.as_str()), ('{', "}") | ('(', ")") | ('[', "]")) {
                    return None;
                }
            }
            _ => {}
        }
    }
    if !depth.is_empty() {
        return None;
    }
    let mut s = Source::default();
    let (items, comments) = items(&t);
    // The last item must be complete.
    if items.iter().any(|i| i.body == 0 && !matches!(i.toks.last().map(|t| t.as_str()), Some(";" | "}"))) {
        return None;
    }
    // Nothing starts with a bracket.
    let odd = |i: &Item| i.toks.first().is_some_and(|t| matches!(t.as_str(), "(" | "{" | "["));
    if items.iter().any(|i| odd(i) || i.members.iter().any(odd)) {
        return None;
    }
    // An import names a file.
    if items.iter().any(|i| i.kind == "import" && !i.toks.iter().any(|t| t.starts_with(['"', '\'']))) {
        return None;
    }
    s.items = items;
    s.comments = comments;
    Some(s)
}

fn items(t: &[Tok]) -> (Vec<Item>, Vec<String>) {
    let mut out = vec![];
    let mut comments = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i].comment {
            comments.push(norm_comment(&t[i].text));
            i += 1;
            continue;
        }
        if t[i].text == ";" {
            i += 1;
            continue;
        }
        // One item: up to `;` or a closing brace at depth 0.
        let s = i;
        let mut depth = 0i32;
        let mut brace0 = None;
        let import_like = matches!(t[s].text.as_str(), "import" | "using");
        while i < t.len() {
            if !t[i].comment {
                match t[i].text.as_str() {
                    "{" | "(" | "[" => {
                        if depth == 0 && t[i].text == "{" && brace0.is_none() {
                            brace0 = Some(i);
                        }
                        depth += 1;
                    }
                    "}" | ")" | "]" => {
                        depth -= 1;
                        if depth == 0 && t[i].text == "}" && !import_like {
                            i += 1;
                            break;
                        }
                    }
                    ";" if depth == 0 => {
                        i += 1;
                        break;
                    }
                    _ => {}
                }
            }
            i += 1;
        }
        out.push(item(&t[s..i], brace0.map(|b| b - s)));
    }
    (out, comments)
}

fn item(t: &[Tok], brace: Option<usize>) -> Item {
    let code: Vec<&Tok> = t.iter().filter(|k| !k.comment).collect();
    let w = |i: usize| code.get(i).map(|k| k.text.as_str()).unwrap_or("");
    let (kind, name) = match w(0) {
        "abstract" => ("contract", w(2)),
        "contract" => ("contract", w(1)),
        "interface" => ("interface", w(1)),
        "library" => ("library", w(1)),
        "function" => ("function", w(1)),
        "modifier" => ("modifier", w(1)),
        "struct" => ("struct", w(1)),
        "enum" => ("enum", w(1)),
        "event" => ("event", w(1)),
        "error" => ("error", w(1)),
        "type" => ("type", w(1)),
        "constructor" => ("constructor", ""),
        "receive" => ("receive", ""),
        "fallback" => ("fallback", ""),
        "import" => ("import", ""),
        "pragma" => ("pragma", ""),
        "using" => ("using", ""),
        _ => {
            // A variable: the last identifier before `=` or `;` at depth 0.
            let mut d = 0;
            let mut n = "";
            for k in &code {
                match k.text.as_str() {
                    "(" | "[" | "{" => d += 1,
                    ")" | "]" | "}" => d -= 1,
                    "=" | ";" if d == 0 => break,
                    x if d == 0 && x.chars().next().is_some_and(|c| c.is_alphabetic() || c == '_') => n = &k.text,
                    _ => {}
                }
            }
            ("var", n)
        }
    };
    let mut it = Item {
        kind: kind.to_string(),
        name: name.to_string(),
        toks: code.iter().map(|k| k.text.clone()).collect(),
        comments: t.iter().filter(|k| k.comment).map(|k| norm_comment(&k.text)).collect(),
        start: t.first().map(|k| k.start).unwrap_or(0),
        end: t.last().map(|k| k.end).unwrap_or(0),
        members: vec![],
        own_comments: vec![],
        body: 0,
    };
    if matches!(kind, "contract" | "interface" | "library") {
        if let Some(b) = brace {
            let (m, c) = items(&t[b + 1..t.len() - 1]);
            it.members = m;
            it.own_comments = c;
            // Comments between the name and the brace count as the contract's own.
            for k in &t[..b] {
                if k.comment {
                    it.own_comments.push(norm_comment(&k.text));
                }
            }
            it.body = t[b].end;
            it.toks = t[..b].iter().filter(|k| !k.comment).map(|k| k.text.clone()).collect();
        }
    }
    it
}

impl Source {
    pub fn contract(&self, name: &str) -> Option<&Item> {
        self.items.iter().find(|i| i.kind == "contract" && i.name == name)
    }
    pub fn contract_like(&self) -> impl Iterator<Item = &Item> {
        self.items.iter().filter(|i| matches!(i.kind.as_str(), "contract" | "interface" | "library"))
    }
    pub fn first_contract(&self) -> Option<&Item> {
        self.contract_like().next()
    }
}

/// Functions and modifiers of a contract, in order.
pub fn constructs(c: &Item) -> Vec<(String, String)> {
    c.members
        .iter()
        .filter(|m| m.kind == "function" || m.kind == "modifier")
        .map(|m| (m.kind.clone(), m.name.clone()))
        .collect()
}

/// One line of the inventory of a file: where, what, and with which content.
pub type Inv = Vec<(String, String)>;

/// Everything a file defines, as (place, content) pairs.  `test` is the name of
/// the test contract, which may be renamed by a fix.
pub fn inventory(s: &Source, test: &str) -> Inv {
    let mut v = vec![];
    for c in &s.comments {
        v.push(("comment in file".to_string(), c.clone()));
    }
    for i in &s.items {
        let is_test = i.kind == "contract" && i.name == test;
        if matches!(i.kind.as_str(), "contract" | "interface" | "library") {
            let n = if is_test { "<test contract>".to_string() } else { i.name.clone() };
            let mut head = i.toks.clone();
            if is_test {
                for t in head.iter_mut() {
                    if t == test {
                        *t = "<test contract>".into();
                    }
                }
            }
            v.push((format!("{} {}", i.kind, n), head.join(" ")));
            for c in &i.own_comments {
                v.push((format!("comment in {n}"), c.clone()));
            }
            for m in &i.members {
                let mut toks = m.toks.clone();
                if matches!(m.kind.as_str(), "function" | "modifier") {
                    // The order of attributes is layout.
                    let e = toks.iter().position(|t| t == "{").unwrap_or(toks.len());
                    toks[..e].sort();
                }
                v.push((format!("{} {} in {}", m.kind, m.name, n), toks.join(" ")));
                for c in &m.comments {
                    v.push((format!("comment in {} {} in {}", m.kind, m.name, n), c.clone()));
                }
            }
        } else {
            let mut toks = i.toks.clone();
            // `import * as X from "y";` is also written `import "y" as X;`.
            if i.kind == "import" && toks.len() == 7 && toks[1] == "*" {
                toks = vec![toks[0].clone(), toks[5].clone(), toks[2].clone(), toks[3].clone(), toks[6].clone()];
            }
            v.push((format!("{} {}", i.kind, i.name), toks.join(" ")));
            for c in &i.comments {
                v.push((format!("comment in {} {}", i.kind, i.name), c.clone()));
            }
        }
    }
    v.sort();
    v
}

/// Inventory entries of `a` that are missing from or more frequent than in `b`.
pub fn minus(a: &Inv, b: &Inv) -> Inv {
    let mut rest = b.clone();
    let mut out = vec![];
    for x in a {
        match rest.iter().position(|y| y == x) {
            Some(i) => {
                rest.swap_remove(i);
            }
            None => out.push(x.clone()),
        }
    }
    out
}

/// The code tokens and comments of a text, ignoring layout.
pub fn flat(src: &str) -> Option<Vec<String>> {
    Some(tokens(src)?.into_iter().map(|t| if t.comment { format!("//{}", norm_comment(&t.text)) } else { t.text }).collect())
}
