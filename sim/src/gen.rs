//! Workload generation: trees, Solidity files derived from what the real
//! `scaffold` prints, user edits and damage.
use crate::rng::Rng;
use crate::scan;

#[derive(Clone, Debug)]
pub enum Node {
    Cond { title: String, kids: Vec<Node> },
    Act { title: String, desc: Vec<(usize, String)> },
}

#[derive(Clone, Debug)]
pub struct Tree {
    /// (root identifier, children)
    pub roots: Vec<(String, Vec<Node>)>,
    pub contract: String,
}

const NOUNS: &[&str] = &["stream", "owner", "balance", "caller", "token", "asset", "id", "vault", "fee", "deadline", "array", "sender"];
const VERBS: &[&str] = &["is", "has", "exceeds", "matches", "references", "holds"];
const ADJ: &[&str] = &["null", "zero", "expired", "paused", "non-zero", "the max", "empty", "canceled", "cold", "not authorized"];
const EFFECTS: &[&str] = &["revert", "revert.", "emit an event", "return true", "update the balance", "not change {state}", "transfer `amount` to \"owner\"", "match keccak256(abi.encodePacked(a,b))", "cost 10% more", "réussir à 100 €", "do nothing // see notes", "bump x += 1; y--"];

fn cond_title(r: &mut Rng, n: &mut usize, shared: &mut Vec<String>, used: &[String]) -> String {
    if !shared.is_empty() && r.chance(1, 3) {
        let t = r.pick(shared).clone();
        if !used.contains(&t) {
            return t;
        }
    }
    *n += 1;
    let kw = *r.pick(&["when", "given", "When", "Given", "WHEN"]);
    let t = match r.below(16) {
        0 => format!("{kw} a-b {} re-entered {n}", r.pick(NOUNS)),
        1 => format!("{kw} the {} isn't {} {n}", r.pick(NOUNS), r.pick(ADJ)),
        2 => format!("{kw} {} or {} \"{}\" x²{n}", r.pick(NOUNS), r.pick(NOUNS), r.pick(ADJ)),
        3 => format!("{kw} _x{n} {} -- y", r.pick(NOUNS)),
        4 => format!("{kw} the {} {} {} and the {} {} {} and nobody else {} anything at all in case{n}", r.pick(NOUNS), r.pick(VERBS), r.pick(ADJ), r.pick(NOUNS), r.pick(VERBS), r.pick(ADJ), r.pick(VERBS)),
        5 => format!("{kw} msg-sender_{n}   {} {}", r.pick(VERBS), r.pick(NOUNS)),
        6 => format!("{kw} élan{n} größer {}", r.pick(ADJ)),
        7 => format!("{kw} when{n} given {}", r.pick(NOUNS)),
        8 | 12 => format!("{kw} {} {} {} {}", r.pick(NOUNS), r.pick(VERBS), r.pick(ADJ), n),
        9 | 13 => format!("{kw} the {} {} {} case{}", r.pick(NOUNS), r.pick(VERBS), r.pick(ADJ), n),
        10 | 14 => format!("{kw} {}'s {} {}{}", r.pick(NOUNS), r.pick(NOUNS), r.pick(VERBS), n),
        _ => format!("{kw} {}{} {}", r.pick(NOUNS), n, r.pick(ADJ)),
    };
    shared.push(t.clone());
    t
}

fn act(r: &mut Rng, n: &mut usize, top: bool) -> Node {
    *n += 1;
    let kw = *r.pick(&["it", "It", "IT"]);
    let title = if top {
        // Becomes a function name: keep it unique and word-like.
        format!("{kw} should {} {}{}", r.pick(&["update", "hold", "never lose", "emit", "re-use", "not, ever, pay the", "match {a,b} of", "cost 5 € per"]), r.pick(NOUNS), n)
    } else if r.chance(1, 4) {
        format!("{kw} should revert{}", if r.chance(1, 2) { "." } else { "" })
    } else {
        format!("{kw} should {}", r.pick(EFFECTS))
    };
    let mut desc = vec![];
    if r.chance(1, 5) {
        let k = r.range(1, 3);
        let mut d = 0;
        for i in 0..k {
            desc.push((d, format!("because {} {} {}", r.pick(NOUNS), r.pick(VERBS), i)));
            if r.chance(1, 2) && i == 0 {
                d += 1;
            }
        }
    }
    Node::Act { title, desc }
}

fn cond(r: &mut Rng, n: &mut usize, shared: &mut Vec<String>, used: &mut Vec<String>, depth: usize, budget: &mut usize) -> Node {
    let title = cond_title(r, n, shared, used);
    used.push(title.clone());
    *budget = budget.saturating_sub(1);
    let mut kids = vec![];
    let acts = if r.chance(3, 4) { r.range(1, 2) } else { 0 };
    for _ in 0..acts {
        kids.push(act(r, n, false));
    }
    if depth > 0 && *budget > 0 && (acts == 0 || depth > 4 || r.chance(2, 5)) {
        for _ in 0..r.range(1, 2) {
            if *budget > 0 {
                kids.push(cond(r, n, shared, used, depth - 1, budget));
            }
        }
    }
    if kids.is_empty() {
        kids.push(act(r, n, false));
    }
    if r.chance(1, 6) {
        r.shuffle(&mut kids);
    }
    Node::Cond { title, kids }
}

pub fn contract_name(r: &mut Rng) -> String {
    let base = *r.pick(&["Foo", "Vault", "HashPair", "Stream", "Token_Lib", "CancelTest", "X", "Foo_Unit", "Foo-Bar", "foo", "_Base", "Foo's", "Vaultä"]);
    let suf = *r.pick(&["", "", "", "Test", "_Test", "2", "Bar", "-v2", "\u{e9}t\u{e9}"]);
    format!("{base}{suf}")
}

pub fn tree(r: &mut Rng) -> Tree {
    let name = contract_name(r);
    tree_named(r, &name)
}

pub fn tree_named(r: &mut Rng, contract: &str) -> Tree {
    let multi = r.chance(1, 4);
    let mut n = 0;
    let mut shared = vec![];
    let mut roots = vec![];
    let k = if multi { r.range(1, 3) } else { 1 };
    for i in 0..k {
        let id = if multi { format!("{contract}::{}{}", r.pick(&["hash", "min", "pair", "Cancel", "mint"]), i) } else { contract.to_string() };
        let mut used = vec![];
        let mut budget = *r.pick(&[1, 2, 3, 5, 8]);
        let mut kids = vec![];
        let mut depth = r.range(0, 3);
        let mut want = r.range(1, 3);
        match r.below(50) {
            0 => {
                depth = r.range(6, 10);
                budget = depth + 3;
            }
            1 => {
                want = r.range(6, 16);
                budget = want;
                depth = 1;
            }
            _ => {}
        }
        for _ in 0..want {
            if budget == 0 {
                break;
            }
            if r.chance(1, 3) {
                kids.push(act(r, &mut n, true));
            } else {
                kids.push(cond(r, &mut n, &mut shared, &mut used, depth, &mut budget));
            }
        }
        if kids.is_empty() {
            kids.push(act(r, &mut n, true));
        }
        roots.push((id, kids));
    }
    Tree { roots, contract: contract.to_string() }
}

fn render_kids(out: &mut Vec<String>, prefix: &str, kids: &[Node], wide: bool) {
    for (i, k) in kids.iter().enumerate() {
        let last = i + 1 == kids.len();
        let (branch, cont) = if last { ("└── ", "    ") } else { ("├── ", if wide { "│   " } else { "│   " }) };
        match k {
            Node::Cond { title, kids } => {
                out.push(format!("{prefix}{branch}{title}"));
                render_kids(out, &format!("{prefix}{cont}"), kids, wide);
            }
            Node::Act { title, desc } => {
                out.push(format!("{prefix}{branch}{title}"));
                let p = format!("{prefix}{cont}");
                for (j, (d, t)) in desc.iter().enumerate() {
                    // Children of the same depth that follow decide the corner.
                    let more = desc[j + 1..].iter().take_while(|(e, _)| e >= d).any(|(e, _)| e == d);
                    let ind = "    ".repeat(*d);
                    out.push(format!("{p}{ind}{}{t}", if more { "├── " } else { "└── " }));
                }
            }
        }
    }
}

pub fn render(t: &Tree) -> String {
    let mut parts = vec![];
    for (id, kids) in &t.roots {
        let mut out = vec![id.clone()];
        render_kids(&mut out, "", kids, true);
        parts.push(out.join("\n"));
    }
    parts.join("\n\n")
}

pub fn tree_text(r: &mut Rng) -> String {
    let t = tree(r);
    finish(r, render(&t))
}
pub fn tree_text_named(r: &mut Rng, name: &str) -> String {
    let t = tree_named(r, name);
    finish(r, render(&t))
}
pub fn finish(r: &mut Rng, mut s: String) -> String {
    if r.chance(1, 8) {
        // Comments between the branches.
        let mut o = String::new();
        for l in s.split_inclusive('\n') {
            o.push_str(l);
            if l.ends_with('\n') && l.trim().len() > 1 && r.chance(1, 4) {
                o.push_str(*r.pick(&["// note: when it lies\n", "    // ├── given nothing\n", "│   // aside\n"]));
            }
        }
        s = o;
    }
    if r.chance(1, 8) {
        s = format!("// spec notes\n\n{s}");
    }
    if r.chance(1, 30) && !s.contains("\n\n") {
        s = s.replace('\n', "\r\n");
    }
    match r.below(6) {
        0 => {}
        1 => s.push_str("\n\n"),
        _ => s.push('\n'),
    }
    s
}

/// A larger tree, so that files span several I/O chunks.
pub fn big_tree(r: &mut Rng, conds: usize) -> String {
    let mut n = 0;
    let mut shared = vec![];
    let mut used = vec![];
    let mut kids = vec![];
    let mut budget = conds;
    while budget > 0 {
        kids.push(cond(r, &mut n, &mut shared, &mut used, 3, &mut budget));
    }
    render(&Tree { roots: vec![(contract_name(r), kids)], contract: String::new() })
}

/// One action more, long enough that what is read and stored does not fit into
/// one page, one pipe or one buffer.
pub fn fatten(r: &mut Rng, t: &mut Tree) {
    let size = *r.pick(&[2_000, 4_000, 8_000, 9_000, 16_000, 33_000, 66_000, 132_000]) + r.below(500);
    let mut title = "it should ".to_string();
    while title.len() < size {
        title.push_str(r.pick(NOUNS));
        title.push(' ');
    }
    let k = r.below(t.roots.len());
    let kids = &mut t.roots[k].1;
    let p = r.below(kids.len() + 1);
    kids.insert(p, Node::Cond { title: "when the tale is long".into(), kids: vec![Node::Act { title: title.trim_end().to_string(), desc: vec![] }] });
}
/// A change to a tree that keeps it valid: parse-free, on the text's model.
pub fn edit_tree(r: &mut Rng, t: &Tree) -> Tree {
    let mut t = t.clone();
    let mut n = 500 + r.below(400);
    let k = r.below(t.roots.len());
    let kids = &mut t.roots[k].1;
    match r.below(5) {
        0 => {
            let a = act(r, &mut n, true);
            let p = r.below(kids.len() + 1);
            kids.insert(p, a);
        }
        1 => {
            let mut b = 2;
            let c = cond(r, &mut n, &mut vec![], &mut vec![], 1, &mut b);
            let p = r.below(kids.len() + 1);
            kids.insert(p, c);
        }
        2 if kids.len() > 1 => {
            let p = r.below(kids.len());
            kids.remove(p);
        }
        3 if kids.len() > 1 => {
            r.shuffle(kids);
        }
        _ => {
            let mut b = 3;
            let c = cond(r, &mut n, &mut vec![], &mut vec![], 2, &mut b);
            kids.push(c);
        }
    }
    t
}

// ---- invalid trees -----------------------------------------------------------
pub fn invalid_tree(r: &mut Rng) -> String {
    let good = tree_text(r);
    match r.below(9) {
        7 | 8 => {
            // A name that Solidity doesn't allow.
            let n = *r.pick(&["1Foo", "contract", "function", "Foo\u{2003}Bar", "7", "\u{1F980}", "Foo/Bar", "a.b", "mapping", "Foo\"", "{"]);
            tree_text_named(r, n)
        }
        0 => String::new(),
        1 => "Foo\n".into(),
        2 => "├── when rootless\n└── it should fail\n".into(),
        3 => "Foo\n└── when there are no children\n".into(),
        4 => "Foo\n├── when same thing\n│   └── it should a\n└── when same thing\n    └── it should b\n".into(),
        5 => format!("Foo\n└── it one\n\nBar::x\n└── it two\n\n{good}"),
        _ => "Foo\n├── when a b\n│   └── it should x\n└── whatever\n".into(),
    }
}

/// Many duplicate identifiers at once: several diagnostics from one run.
pub fn many_errors_tree(r: &mut Rng) -> String {
    let mut s = String::from("Foo\n");
    let k = r.range(2, 6);
    for i in 0..k {
        for _ in 0..r.range(2, 3) {
            s.push_str(&format!("├── when dup {i}\n│   └── it should fail\n"));
        }
    }
    s.push_str("└── it should end\n");
    s
}

// ---- Solidity files ----------------------------------------------------------
#[derive(Clone, Debug, Default)]
pub struct SolOpts {
    /// Change things a fix has to repair (drop, reorder, rename).
    pub violate: bool,
    /// Add user code of its own.
    pub user: bool,
    /// Allow the contract to be missing altogether.
    pub no_contract: bool,
    /// Allow other contracts, interfaces and libraries in the file.
    pub helpers: bool,
    pub rename: bool,
}

pub struct Marks(pub usize);
impl Marks {
    pub fn next(&mut self) -> usize {
        self.0 += 1;
        self.0
    }
}

const BODY: &[&str] = &[
    "uint256 mk{n} = {n};",
    "assertEq(mk{n}, \"a {{ brace }} {n}\");",
    "// note {n}: keep // this } and {{ that",
    "/* block {n} */",
    "if (mk{n}) {{\n            revert();\n        }}",
    "emit Mk{n}(msg.sender);",
    "string memory s{n} = \"contract Foo {{ }} // {n}\";",
    "// contract Foo mk{n}",
    "vm.expectRevert(bytes(\"mk{n}\"));",
    "// größer als {n} € → ok",
    "assembly {{\n            let x{n} := mload(0x40)\n            mstore(x{n}, {n})\n        }}",
    "unchecked {{\n            total += {n};\n        }}",
    "try target.call{n}() returns (uint256 v) {{\n            total = v;\n        }} catch {{\n            total = {n};\n        }}",
    "for (uint256 i = 0; i < {n}; ++i) {{\n            total += i;\n        }}",
    "(uint256 a{n}, address b{n}) = pair({n});",
    "target.pay{{value: {n}}}(msg.sender);",
    "bytes32 h{n} = keccak256(abi.encodePacked(\"x{n}\", uint256({n})));",
    "uint256 t{n} = mk > {n} ? 1 : 2;",
    "revert Err{n}({{code: {n}}});",
    "delete slots[{n}];",
    "uint256 k{n} = {n}; // trailing note {n}",
    "while (total < {n}) {{\n            total++;\n        }}",
    "/*\n         * star {n}\n         * more }} of it {{\n         */",
    "Data memory d{n} = Data({{a: {n}, b: address(this)}});",
    "uint256[] memory list{n} = new uint256[]({n});",
    "return;",
    "/* a\n\n\n           gap {n}\n\n\n        */",
    "string memory t{n} = \"two  spaces  {n}\";",
    "bytes memory h{n} = hex\"00ff{n}{n}\";",
    "assembly {{\n            // yul {n}\n            let x{n} := mload(0x40)\n            mstore(0x40, add(x{n}, 0x20))\n        }}",
    "unchecked {{\n            total += {n};\n        }}",
    "try this.external{n}() returns (uint256 r{n}) {{\n            total = r{n};\n        }} catch Error(string memory) {{\n            total = 0;\n        }} catch {{\n            revert(\"{n}\");\n        }}",
    "for (uint256 i{n}; i{n} < {n}; ++i{n}) {{\n            if (i{n} == 1) continue;\n            else break;\n        }}",
    "do {{ total--; }} while (total > {n});",
    "(bool ok{n}, ) = address(this).call{{value: {n}}}(\"\");",
    "emit Something{n}(total, address(this)); // emitted {n}",
    "total = total > {n} ? {n} : total;",
    "vm.prank(address(uint160({n})));\n\n        // after a blank line {n}\n        total = {n};",
];

fn fill(t: &str, n: usize) -> String {
    t.replace("{n}", &n.to_string()).replace("{{", "{").replace("}}", "}")
}

fn body_lines(r: &mut Rng, m: &mut Marks, k: usize) -> String {
    let mut s = String::new();
    for _ in 0..k {
        let t = *r.pick(BODY);
        let n = m.next();
        s.push_str("        ");
        s.push_str(&fill(t, n));
        s.push('\n');
    }
    s
}

fn user_member(r: &mut Rng, m: &mut Marks) -> String {
    let n = m.next();
    if r.chance(1, 150) {
        // Much code or many comments: files of many lines and bytes.
        return if r.chance(1, 2) {
            let k = r.range(50, 300);
            format!("    function large{n}() internal {{\n{}    }}", body_lines(r, m, k))
        } else {
            let k = r.range(200, 600);
            let c: String = (0..k).map(|i| format!("    // table {n} row {i}: {}\n", "col | ".repeat(i % 30))).collect();
            format!("{c}    uint256 internal table{n};")
        };
    }
    match r.below(36) {
        30 => format!("    /*\n    wide {n}\n\n\n    apart {n}\n\n\n\n    */"),
        31 => format!("    string internal gap{n} = \"a  b   c    d\\t {n}  \";"),
        32 => format!("    /// long {n} {}\n    uint256 internal long{n};", "word and more ".repeat(r.range(5, 30))),
        33 => format!("    /*    aligned {n}\n          |  a  |  b  |\n          |  1  |  2  |\n    */\n    uint256 internal aligned{n};"),
        34 => format!("    string internal uni{n} = unicode\"\u{e9}\u{4e2d}\u{1f680} {n}\"; // \u{fc}\u{2192}"),
        35 => format!("    function veryLong{n}(uint256 firstArgument, address secondArgument, bytes calldata thirdArgument, uint256[] memory fourthArgument) public virtual returns (uint256 firstResult, address secondResult) {{\n        return (firstArgument + {n}, secondArgument);\n    }}"),
        0 => format!("    uint256 internal userVar{n} = {n};"),
        1 => format!("    function helper{n}(uint256 a) internal pure returns (uint256) {{\n{}        return a + {n};\n    }}", body_lines(r, m, 1)),
        2 => format!("    modifier userMod{n}() {{\n        // guard {n}\n        _;\n    }}"),
        3 => format!("    // free comment {n}"),
        4 => format!("    event Evt{n}(address indexed who, uint256 amount);"),
        5 => format!("    struct S{n} {{\n        uint256 a;\n        address b;\n    }}"),
        6 => format!("    error Err{n}(uint256 code);"),
        7 => format!("    mapping(address => uint256) public map{n};"),
        8 | 9 => format!("    function setUp() public virtual {{\n{}    }}", body_lines(r, m, 2)),
        10 | 11 => format!("    /// @dev doc {n}\n    function test_user{n}() external {{\n{}    }}", body_lines(r, m, 1)),
        12 => format!("    constructor(uint256 a) {{\n        // made {n}\n        total = a;\n    }}"),
        13 => "    receive() external payable {}".to_string(),
        14 => format!("    fallback() external payable {{\n        total = {n};\n    }}"),
        15 => format!("    using Lib{n} for uint256;"),
        16 => format!("    enum Kind{n} {{\n        A{n},\n        B{n}\n    }}"),
        17 => format!("    type Id{n} is uint256;"),
        18 => format!("    uint256 private constant C{n} = {n} * 1e18;"),
        19 => format!("    /**\n     * @notice docs {n}\n     * with a brace }} and contract Foo\n     */\n    function documented{n}() public view virtual returns (uint256, address) {{\n        return ({n}, msg.sender);\n    }}"),
        20 => format!("    /* block {n} */"),
        21 => format!("    uint256 public v{n}; // beside it {n}"),
        22 => format!("    function over{n}(uint256 a, address b) external payable virtual userMod{n}(a) returns (bool ok) {{\n        ok = a > {n} && b != address(0);\n    }}"),
        23 => format!("    mapping(address => mapping(uint256 => bool)) internal nested{n};"),
        24 => format!("    string internal s{n} = \"function test_X() {{ }} {n}\";"),
        25 => format!("    modifier argMod{n}(uint256 a) {{\n        require(a > {n}, \"low\");\n        _;\n        total = a;\n    }}"),
        26 => format!("    Helper internal helper{n} = new Helper(); // not a modifier whenX() {{}}"),
        27 => format!("    function testFuzz_{n}(uint256 a, bytes calldata data) external {{\n{}    }}", body_lines(r, m, 2)),
        28 => format!("    // =====\n    // section {n}\n    // ====="),
        _ => format!("    function invariant_{n}() public view {{\n        assert(total == {n});\n    }}"),
    }
}

fn other_contract(r: &mut Rng, m: &mut Marks, name: &str) -> String {
    let n = m.next();
    match r.below(11) {
        0 => format!("interface IOther{n} {{\n    function ping{n}() external;\n}}"),
        1 => format!("library Lib{n} {{\n    function go{n}(uint256 a) internal pure returns (uint256) {{\n        return a;\n    }}\n}}"),
        2 => format!("contract Helper{n} {{\n    uint256 public v{n};\n\n    function poke() external {{\n        v{n} = {n};\n    }}\n}}"),
        3 => format!("abstract contract {name}Base{n} {{\n    function base{n}() internal virtual {{}}\n}}"),
        4 => format!("contract {name}Extra{n} {{\n    function extra{n}() external {{}}\n}}"),
        5 => format!("struct Free{n} {{\n    uint256 a;\n}}"),
        6 => format!("error FreeErr{n}(address who);"),
        7 => format!("uint256 constant FREE{n} = {n};"),
        8 => format!("enum FreeKind{n} {{\n    A,\n    B\n}}"),
        9 => format!("/// @title doc {n}\n/// @notice of contract {name}\ninterface I{name}{n} {{\n    event E{n}();\n}}"),
        _ => format!("function free{n}(uint256 a) pure returns (uint256) {{\n    return a + {n};\n}}"),
    }
}

/// Rewrite the head of a generated function the way users do.
fn restyle(r: &mut Rng, m: &mut Marks, x: &str) -> String {
    let n = m.next();
    let t = x.trim_start();
    if !t.starts_with("function") {
        // A modifier.
        return match r.below(5) {
            4 => x.split('{').next().unwrap().trim_end().to_string() + " virtual;",
            0 => x.replacen("() {", "() virtual {", 1),
            1 => format!("    /// @dev scene {n}\n{x}"),
            2 => x.replacen("_;", &format!("vm.prank(user{n});\n        _;"), 1),
            _ => x.replacen("_;", &format!("// setting {n}\n        _;"), 1),
        };
    }
    match r.below(8) {
        6 => x.split('{').next().unwrap().trim_end().to_string() + " virtual;",
        7 => x.replacen(" external", "\n        external\n        override(A, B)", 1),
        0 => x.replacen(" external", " public", 1),
        1 => x.replacen(" external", " external virtual", 1),
        2 => x.replacen("()", &format!("(uint256 amount{n})"), 1),
        3 => format!("    /// @notice what {n} is about\n{x}"),
        4 => format!("    /**\n     * @dev why {n}\n     */\n{x}"),
        _ => format!("    // above {n}\n{x}"),
    }
}

/// Derive a Solidity file from what `scaffold` printed for the tree.
pub fn sol_from(r: &mut Rng, base: &str, o: &SolOpts, m: &mut Marks) -> String {
    let Some(src) = scan::parse(base) else { return base.to_string() };
    let Some(c) = src.first_contract() else { return base.to_string() };
    let mut name = c.name.clone();
    // Members as texts, with their comments (they lie inside the member).
    let mut members: Vec<(bool, String)> =
        c.members.iter().map(|i| (true, format!("    {}", &base[i.start..i.end]))).collect();
    if o.user {
        // Fill bodies.
        for x in members.iter_mut() {
            if x.1.trim_start().starts_with("function") && r.chance(1, 2) {
                if let Some(p) = x.1.rfind('}') {
                    let k = r.range(1, 3);
                    let b = body_lines(r, m, k);
                    let head = x.1[..p].trim_end().to_string();
                    x.1 = format!("{head}\n{b}    }}");
                }
            }
        }
        for x in members.iter_mut() {
            if r.chance(1, 8) {
                x.1 = restyle(r, m, &x.1);
            }
        }
    }
    if o.violate {
        match r.below(8) {
            0 => {}
            6 => {
                // Give one another name, close to the right one.
                if !members.is_empty() {
                    let p = r.below(members.len());
                    let x = &members[p].1;
                    let head = x.trim_start().split(' ').next().unwrap_or("").to_string();
                    let nm = x.split("function ").nth(1).or(x.split("modifier ").nth(1)).and_then(|s| s.split('(').next()).unwrap_or("").trim().to_string();
                    if (head == "function" || head == "modifier") && nm.len() > 2 {
                        let new = match r.below(6) {
                            0 => nm.to_uppercase(),
                            1 => nm.to_lowercase(),
                            2 => format!("{nm}s"),
                            3 => nm[..nm.len() - nm.chars().next_back().unwrap().len_utf8()].to_string(),
                            4 => format!("{nm}_"),
                            _ => format!("_{nm}"),
                        };
                        members[p].1 = x.replacen(&nm, &new, 1);
                    }
                }
            }
            7 => {
                // The right name on the wrong kind of construct.
                if !members.is_empty() {
                    let p = r.below(members.len());
                    let x = members[p].1.clone();
                    if x.trim_start().starts_with("modifier ") {
                        members[p].1 = x.replacen("modifier ", "function ", 1).replacen("() {", "() internal {", 1).replacen("_;", "return;", 1);
                    }
                }
            }
            1 | 2 => {
                // Drop some.
                let k = r.range(1, members.len().max(1));
                for _ in 0..k {
                    if !members.is_empty() {
                        let p = r.below(members.len());
                        members.remove(p);
                    }
                }
            }
            3 | 4 => {
                // Reorder.
                if members.len() > 1 {
                    match r.below(3) {
                        0 => r.shuffle(&mut members),
                        1 => {
                            let i = r.below(members.len() - 1);
                            members.swap(i, i + 1);
                        }
                        _ => {
                            let k = r.range(1, members.len() - 1);
                            members.rotate_left(k);
                        }
                    }
                }
            }
            _ => {
                if members.len() > 1 {
                    let p = r.below(members.len());
                    members.remove(p);
                    r.shuffle(&mut members);
                }
            }
        }
    }
    if o.user {
        let k = r.below(5);
        let mut setup = false;
        // An overload of one of the tree's functions.
        if !members.is_empty() && r.chance(1, 12) {
            let i = r.below(members.len());
            let x = members[i].1.clone();
            if x.trim_start().starts_with("function ") {
                let n = m.next();
                let x = x.trim_start_matches(|c| c == '\n');
                let o = format!("{}(uint256 over{n}) external {{\n        total = {n};\n    }}", x.split('(').next().unwrap());
                let o = o.rsplit("*/").next().unwrap().to_string();
                let p = r.below(members.len() + 1);
                members.insert(p, (false, o));
            }
        }
        for _ in 0..k {
            let u = user_member(r, m);
            if u.contains("setUp") || u.contains("receive()") || u.contains("fallback()") || u.contains("constructor(") {
                if setup {
                    continue;
                }
                setup = true;
            }
            let p = r.below(members.len() + 1);
            members.insert(p, (false, u));
        }
    }
    let old_name = name.clone();
    if o.rename && r.chance(1, 3) {
        name = match r.below(4) {
            0 => format!("{name}Old"),
            1 => "Renamed".to_string(),
            2 => format!("Un{name}"),
            _ => name.chars().take(name.chars().count().max(2) - 1).collect(),
        };
    }
    let mut parts: Vec<String> = vec![];
    if r.chance(3, 4) {
        parts.push("// SPDX-License-Identifier: UNLICENSED".into());
    }
    if r.chance(11, 12) {
        parts.push((*r.pick(&["pragma solidity 0.8.0;", "pragma solidity >=0.8.0;", "pragma solidity ^0.8.20;", "pragma solidity >=0.8.19 <0.9.0;"])).into());
    }
    if o.user && r.chance(1, 2) {
        let n = m.next();
        parts.push(match r.below(4) {
            0 => format!("import \"./Dep{n}.sol\";"),
            1 => format!("import * as Dep{n} from \"./Dep{n}.sol\";"),
            2 => format!("import {{Dep{n} as D{n}, Other{n}}} from \"./Dep{n}.sol\"; // needed {n}"),
            _ => format!("import {{Dep{n}}} from \"./Dep{n}.sol\";"),
        });
    } else if base.contains("import ") {
        for i in &src.items {
            if i.kind == "import" {
                parts.push(base[i.start..i.end].to_string());
            }
        }
    }
    let mut before = vec![];
    let mut after = vec![];
    if o.helpers && r.chance(1, 2) {
        for _ in 0..r.range(1, 2) {
            let h = other_contract(r, m, &old_name);
            if r.chance(1, 2) {
                before.push(h);
            } else {
                after.push(h);
            }
        }
    }
    if o.user && r.chance(1, 3) {
        let n = m.next();
        before.push(format!("// file note {n} about contract {name}"));
    }
    let missing = o.no_contract && r.chance(1, 6);
    let mut text = parts.join("\n");
    text.push_str("\n\n");
    for b in before {
        text.push_str(&b);
        text.push_str("\n\n");
    }
    if !missing {
        let gap = *r.pick(&["contract ", "contract ", "contract ", "contract  ", "contract\n    "]);
        let heritage: String = {
            // Keep what scaffold printed after the name (e.g. `is Test`).
            let s = &base[c.start..c.body];
            let p = s.find(&old_name).map(|p| p + old_name.len()).unwrap_or(s.len());
            s[p..].trim_end().trim_end_matches('{').trim_end().to_string()
        };
        let pre = if o.user && r.chance(1, 16) { "abstract " } else { "" };
        let doc = if o.user && r.chance(1, 8) { format!("/// @title {name} {{ }}\n/// @author me\n") } else { String::new() };
        let heritage = if o.user && heritage.is_empty() && r.chance(1, 8) { " is Base, Other".to_string() } else { heritage };
        let note = if o.user && r.chance(1, 24) { format!(" // opens {{ contract {}\n", m.next()) } else { " ".into() };
        text.push_str(&format!("{doc}{pre}{gap}{name}{heritage}{note}{{"));
        if members.is_empty() {
            text.push_str(if r.chance(1, 2) { "}" } else { "\n}" });
        } else {
            text.push('\n');
            let sep = if r.chance(3, 4) { "\n\n" } else { "\n" };
            text.push_str(&members.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(sep));
            if o.user && r.chance(1, 5) {
                let n = m.next();
                text.push_str(&format!("\n    // tail {n}"));
            }
            text.push_str("\n}");
        }
        text.push('\n');
    }
    for a in after {
        text.push('\n');
        text.push_str(&a);
        text.push('\n');
    }
    match r.below(24) {
        0 => text = text.trim_end().to_string(),
        1 => text.push_str("\n\n\n"),
        2 if o.user => text.push_str(&format!("// the end {}\n", m.next())),
        3 if o.user => text = text.replace("    ", "\t"),
        4 if o.user => text = text.replace('\n', "\r\n"),
        5 if o.user => text = format!("// head {}\n/* and\n a block */\n\n{text}", m.next()),
        6 if o.user => text = format!("\n\n{text}"),
        _ => {}
    }
    text
}

// ---- damage ------------------------------------------------------------------
pub fn damage(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = v.len();
    if n == 0 {
        return vec![0; r.below(20)];
    }
    match r.below(11) {
        0 => v.truncate(r.below(n)),
        1 => {
            let s = r.below(n);
            for x in &mut v[s..] {
                *x = 0;
            }
        }
        2 => {
            let s = r.below(n);
            let e = (s + r.range(1, 64)).min(n);
            for x in &mut v[s..e] {
                *x = 0;
            }
        }
        3 => {
            for _ in 0..r.range(1, 4) {
                let i = r.below(n);
                v[i] ^= 1 << r.below(8);
            }
        }
        4 => {
            let s = r.below(n);
            let e = (s + r.range(1, 40)).min(n);
            v.drain(s..e);
        }
        5 => {
            let s = r.below(n);
            let e = (s + r.range(1, 80)).min(n);
            let c = v[s..e].to_vec();
            let p = r.below(n);
            v.splice(p..p, c);
        }
        6 => {
            // Tear at a line boundary.
            let lines: Vec<&[u8]> = b.split_inclusive(|&c| c == b'\n').collect();
            let s = r.below(lines.len());
            let mut l: Vec<Vec<u8>> = lines.iter().map(|x| x.to_vec()).collect();
            l.remove(s);
            v = l.concat();
        }
        7 => {
            let p = r.below(n + 1);
            let junk: &[&[u8]] = &[b"\xff\xfe", b"\0\0\0", "├".as_bytes(), "└── ".as_bytes(), b"}", b"{", b"\"", b"/*", b"\r\n", b"it ", b"when", "→".as_bytes(), b"\t", "\u{2028}".as_bytes(), b"\n\n", b"::", b"//", b"\r"];
            let j = *r.pick(junk);
            v.splice(p..p, j.iter().copied());
        }
        8 => {
            // Swap two lines.
            let mut l: Vec<Vec<u8>> = b.split_inclusive(|&c| c == b'\n').map(|x| x.to_vec()).collect();
            if l.len() > 1 {
                let i = r.below(l.len());
                let j = r.below(l.len());
                l.swap(i, j);
            }
            v = l.concat();
        }
        9 => {
            // Remove or double one character (on a character boundary if possible).
            if let Ok(s) = std::str::from_utf8(b) {
                let cs: Vec<char> = s.chars().collect();
                let i = r.below(cs.len());
                let mut c2 = cs.clone();
                if r.chance(1, 2) {
                    c2.remove(i);
                } else {
                    let c = c2[i];
                    c2.insert(i, c);
                }
                v = c2.into_iter().collect::<String>().into_bytes();
            }
        }
        _ => {
            // Replace newlines.
            if r.chance(1, 2) {
                v = String::from_utf8_lossy(b).replace('\n', "\r\n").into_bytes();
            } else {
                v = String::from_utf8_lossy(b).replace('\n', "\r").into_bytes();
            }
        }
    }
    v
}
