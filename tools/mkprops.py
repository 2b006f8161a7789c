#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os

SCAF = "crates/bulloak/src/scaffold.rs"
CHK = "crates/bulloak/src/check.rs"
CTX = "crates/foundry/src/check/context.rs"
VIO = "crates/foundry/src/check/violation.rs"
MATCH = "crates/foundry/src/check/rules/structural_match.rs"
UTIL = "crates/foundry/src/check/utils.rs"
SOL = "crates/foundry/src/sol/mod.rs"
FSC = "crates/foundry/src/scaffold/mod.rs"
COMB = "crates/foundry/src/hir/combiner.rs"
HTR = "crates/foundry/src/hir/translator.rs"
SEM = "crates/syntax/src/semantics.rs"
PAR = "crates/syntax/src/parser.rs"
TOK = "crates/syntax/src/tokenizer.rs"
SPL = "crates/syntax/src/splitter.rs"
ERR = "crates/syntax/src/error.rs"
UTL = "crates/syntax/src/utils.rs"
SFMT = "crates/foundry/src/sol/fmt.rs"
STR = "crates/foundry/src/sol/translator.rs"

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

prop("P01", "Without -f, scaffold -w never touches an existing file",
  "`bulloak scaffold -w` without `-f` never changes, truncates, replaces or removes a file that already exists at an output path. "
  "This holds whenever another process creates that file, whichever system calls fail, and when one tree is listed more than once. "
  "A run that leaves such a file alone and meets no other error says on standard error that the output was skipped.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of the run with other processes creating or replacing the output, every failing or interrupted system call, every batch of trees (with repetitions)",
  "One test runs `scaffold -w` over files that already exist, with nothing failing and nobody else writing; the race between looking for the file and writing it, and a failing look-up, are never exercised.",
  [SCAF],
  [("the output is only created when nothing is there, unless force was requested", SCAF + " write_file")],
  [("output path", "the .t.sol sibling of a listed tree", SCAF)],
  ["the simulated disk after every operation", "standard error", "exit status"])

prop("P02", "An output file always holds complete old or complete new content",
  "At every instant while `scaffold -w`, `scaffold -wf` or `check --fix` runs, and after the run is killed, the machine loses power, or any system call fails, "
  "each output path holds either exactly what it held before the run (possibly nothing) or exactly the complete new content. "
  "It is never empty, truncated, partially written or a mixture. "
  "(On file systems without hard links, where no system call stores a complete file only if its name is free, this is asked of `scaffold -w` for runs that end by themselves, once they have ended.)",
  ["crash_points", "fault_sequences", "inputs"],
  "every kill or power-loss point between and inside system calls, every failing, short or interrupted write, full disks; every tree and Solidity file",
  "No test writes through a failing disk, kills the process or looks at the file while it is being written.",
  [SCAF, CHK],
  [("outputs are stored by the command's write step", SCAF + " write_file; " + CHK + " write")],
  [("output path", "the .t.sol sibling of a listed tree", SCAF)],
  ["the simulated disk after every operation, and the states a power loss can leave"])

prop("P03", "Exit status 0 means every listed file was really processed",
  "If `scaffold -w`, `scaffold -wf` or `check --fix` exits with status 0, every listed tree was processed and its output path holds the complete result (or, without `-f`, the run said it skipped that file). "
  "If a listed tree or its Solidity file cannot be read, parsed or stored, the exit status is not 0 and standard error names that file; a file that is not UTF-8 text cannot be read. "
  "The number of fixed issues that `check --fix` reports counts only issues of files that were stored.",
  ["fault_sequences", "inputs", "histories"],
  "every failing system call on any file of any batch; every mixture of good, missing, unreadable and invalid inputs",
  "No test makes a write fail, and no test of --fix has a missing or unreadable file; the exit status is not asserted anywhere.",
  [SCAF, CHK, CTX],
  [("errors of each file are collected and turned into the exit status", SCAF + " run; " + CHK + " run, exit")],
  [], ["exit status", "standard error", "the simulated disk at the end"])

prop("P04", "check passes exactly when spec and Solidity file agree",
  "Without I/O faults, `bulloak check` exits 0 and reports success exactly when, for every listed tree, the matching Solidity file exists and parses, has a contract named after the tree's root, "
  "and that contract contains every function and modifier that `scaffold` generates for the tree, in that order (modifiers may be absent with `-m`); otherwise it exits 1 and names each missing or misplaced construct. "
  "I/O faults can turn success into failure but never failure into success.",
  ["inputs", "fault_sequences", "histories"],
  "every history of user edits to the tree and the Solidity file, every read or look-up fault at any point of the batch",
  "The tests check a dozen fixed pairs with all files readable; they never fail a read and never assert the exit status.",
  [MATCH, CTX, CHK, SOL],
  [("presence and order rule", MATCH + " check_fns_structure"), ("contract name rule", MATCH + " check_contract_names"),
   ("unreadable files become violations", CTX + " Context::new")],
  [], ["exit status", "standard output", "standard error"])

prop("P05", "Files in one batch do not influence each other",
  "What a command does for one listed tree (content printed or stored, diagnostics) is the same as if that tree had been listed alone, whatever the other listed files contain, whether they are missing, unreadable or hit by I/O errors, and in whichever order they are listed. "
  "The exit status is 0 exactly when it would be 0 for every file alone.",
  ["inputs", "fault_sequences", "configurations"],
  "every batch of good, invalid, missing and faulted files, in every order, for every command and flag",
  "Every test passes exactly one file to the binary.",
  [SCAF, CHK, FSC],
  [("each file is processed independently and its error collected", SCAF + " run; " + CHK + " run")],
  [], ["standard output", "standard error", "exit status", "the simulated disk at the end"])

prop("P06", "Runs are deterministic and blind to how I/O is delivered",
  "Two runs with the same arguments on the same files produce byte-identical standard output, standard error, exit status and files. "
  "Hash seeds, process id, clock, and reads or writes that are short or interrupted make no difference.",
  ["schedules", "fault_sequences", "inputs"],
  "every hash seed, process id and clock, every way of splitting or interrupting reads and writes, every batch of valid or invalid inputs",
  "Each test runs once with whatever hash seed it gets and with full-length reads and writes.",
  [SEM, COMB, VIO, MATCH, SCAF, CHK],
  [("order of duplicate-identifier reports", SEM + " analyze"), ("hash sets used only for membership", COMB + "; " + VIO)],
  [("identifiers", "hash map from identifier to the places it occurs", SEM)],
  ["standard output", "standard error", "exit status", "the simulated disk at the end"])

prop("P07", "Commands change nothing but the outputs they were asked for",
  "`scaffold` without `-w`, `check` without `--fix`, and `check --fix --stdout` never create, change or remove anything in the file system. "
  "`scaffold -w` and `check --fix` change nothing except the `.t.sol` files that belong to the listed trees (`check --fix` only ones that exist already), and a run that ends by itself leaves no other file behind. "
  "This holds whichever system calls fail.",
  ["fault_sequences", "inputs", "configurations"],
  "every command, flag and batch, every sequence of failing system calls",
  "Tests only look at what is printed; nothing compares the directory before and after, and no call ever fails.",
  [SCAF, CHK, CTX],
  [("only the write steps touch the file system", SCAF + " process_file; " + CHK + " write")],
  [], ["the simulated disk after every operation and at the end"])

prop("P08", "Rerunning after crashes ends where one clean run would",
  "After any sequence of killed or failed runs of `scaffold -w`, `scaffold -wf` or `check --fix`, running the same command once more without faults leaves every output exactly as a single undisturbed run from the start would have. "
  "Running it again after that changes nothing.",
  ["crash_points", "fault_sequences", "histories"],
  "every sequence of up to several interrupted runs, each stopped or failing at any system call, then one fault-free run",
  "No test interrupts a run or runs a command twice on the same file.",
  [SCAF, CHK, VIO],
  [("fixing a fixed file is a no-op", VIO + " fix, fix_order"), ("outputs are stored completely or not at all", SCAF + " write_file; " + CHK + " write")],
  [], ["the simulated disk at the end of each run"])

prop("P09", "check --fix never loses or duplicates code the user wrote",
  "Every function, modifier, state variable, other definition, import and comment that is in a Solidity file before `check --fix` is in it exactly once afterwards, with the same content up to formatting; only the test contract's name, the order of the spec's functions and added spec constructs may differ. "
  "This holds over any sequence of edits, fixes, failed runs and crashes.",
  ["inputs", "histories", "crash_points", "fault_sequences"],
  "every Solidity file with user code around and inside the generated functions, every history of edits and fixes, every fault or crash during a fix",
  "The fix tests look for one expected snippet in the output of five fixed files with empty test bodies.",
  [VIO, CTX, CHK, SOL],
  [("reordering moves function texts", VIO + " fix_order"), ("insertion adds text at an offset", CTX + " insert_function_at"), ("renaming and adding the contract", VIO + " fix")],
  [], ["the simulated disk at the end of each run"])

prop("P10", "One fault-free check --fix leaves nothing fixable",
  "After a fault-free `check --fix` that exits 0, `check` on the same files with the same flags reports no violations. "
  "If it exits non-zero, only violations that cannot be fixed automatically remain, and the count of fixed issues equals the number of fixable ones `check` reported before.",
  ["inputs", "histories"],
  "every combination of missing functions and modifiers, wrong order, wrong contract name, missing contract and extra user code, reached by any history of edits and earlier runs",
  "Five fixed files are fixed once, and `check` is never run on the result.",
  [VIO, CHK, MATCH],
  [("fixes are applied violation by violation, order last", CHK + " run"), ("insertion point", VIO + " get_insertion_offset"), ("reordering", VIO + " fix_order")],
  [], ["exit status", "standard output", "standard error", "the simulated disk"])

prop("P11", "Scaffolded files pass check, and fixing them changes nothing",
  "Whenever `scaffold -w` has stored the output for a tree, `check` on that tree with the same modifier flag succeeds, and `check --fix` reports zero fixed issues and leaves the file's content unchanged up to formatting, until somebody edits the tree or the file. "
  "This holds for every flag combination and whatever other runs, crashes and restarts happened before or in between.",
  ["inputs", "histories", "crash_points", "configurations"],
  "every valid tree file (single and multiple roots), every flag combination, every history of other commands and crashes",
  "Scaffold and check are tested on separate fixed files; no test feeds the output of one to the other.",
  [FSC, HTR, COMB, STR, SFMT, MATCH, CTX],
  [("both commands derive constructs from the same intermediate representation", FSC + " scaffold; " + CTX + " Context::new")],
  [], ["exit status", "standard output", "the simulated disk"])

prop("P12", "Concurrent runs leave one run's complete output, never a mix",
  "When several `bulloak` commands run at the same time on the same files, every output path always holds its initial content or the complete content that one of the runs produces from some complete version of its inputs. "
  "When several `scaffold -w` runs without `-f` race for one missing output, exactly one creates it and the others report that they skipped it.",
  ["schedules", "fault_sequences"],
  "every interleaving, at system-call granularity, of two or three runs on overlapping files, with short and interrupted writes and crashes of some of the runs",
  "Tests run one command at a time.",
  [SCAF, CHK],
  [("the write step of each command", SCAF + " write_file; " + CHK + " write")],
  [], ["the simulated disk after every operation", "standard error"])

prop("P13", "Each input is used as one snapshot",
  "When another process atomically replaces trees or Solidity files while a command runs, everything the command prints, decides and stores for a pair of files is what it would have been for some single version of each of those files. "
  "Versions are never mixed inside one result.",
  ["schedules"],
  "every interleaving of the run's system calls with atomic replacements of the tree and of the Solidity file by other versions",
  "No test changes a file while the command runs.",
  [CTX, SCAF, CHK],
  [("each file is read once and carried in memory", CTX + " Context::new; " + SCAF + " process_file")],
  [], ["standard output", "standard error", "exit status", "the content stored by the run"])

prop("P14", "Exit status 0 means the printed output was delivered in full",
  "This is about `scaffold` and `check`. If standard output or standard error fails at any byte (closed pipe, full disk, I/O error), what was delivered is a prefix of what an undisturbed run prints, the exit status is not 0, and the files already stored are unaffected. "
  "Short or interrupted writes lose, repeat and reorder nothing, and results are printed in the order the files were listed.",
  ["fault_sequences", "inputs"],
  "every failure point and chunking of the output streams, every command, flag and batch",
  "Tests capture output through a pipe that always accepts everything.",
  [SCAF, CHK],
  [("output is printed with the standard print macros, line by line", SCAF + " process_file; " + CHK + " write, exit")],
  [], ["bytes accepted by the simulated streams", "exit status"])

prop("P15", "Damaged inputs and failing disks end in a diagnostic, not a crash",
  "Whatever bytes a listed tree or Solidity file contains (torn, zero-filled, truncated, bit-flipped, changed while being read), and whichever file system call fails, every command ends by itself with exit status 0 or 1 after a number of system calls linear in the number and size of its files, never by a panic, a signal or a hang. "
  "Exit status 1 comes with a message on standard error, and a listed file that is not UTF-8 text is never taken for a good one.",
  ["inputs", "fault_sequences", "crash_points"],
  "every corruption a crash or a bad disk leaves in either kind of file, every failing system call, for every command and flag",
  "Tests feed well-formed files, or one of a few fixed malformed trees, from a disk that never fails.",
  [TOK, PAR, SEM, ERR, SPL, CTX, UTIL, VIO, FSC, SCAF, CHK],
  [("parse errors are values carried to the command", PAR + "; " + CTX), ("line numbers of violations", UTIL + " offset_to_line_column")],
  [], ["exit status and termination signal", "standard error", "number of system calls"])

prop("P16", "What is printed is what would be stored",
  "`scaffold` prints, for each listed tree in order, exactly the text that `scaffold -w` or `scaffold -wf` with the same options stores for it, and `check --fix --stdout` prints for each Solidity file exactly the text that `check --fix` stores (up to blank lines around it). "
  "Both forms end with the same exit status and report the same number of fixed issues, also when some listed files are missing, invalid or unreadable or reading them fails in the same way.",
  ["inputs", "configurations", "fault_sequences"],
  "every tree and Solidity file, batch and option, every failing, short or interrupted read of a listed file",
  "Tests look at printed output and at stored files of different fixtures and never compare the two.",
  [SCAF, CHK],
  [("one text is either printed or stored", SCAF + " process_file; " + CHK + " write")],
  [], ["standard output", "exit status", "the simulated disk"])

prop("P17", "Batches of any size need a bounded number of open files",
  "However many files are listed, a run has only a small constant number of files open at any time, so that a batch larger than the limit on open descriptors gives the same output, exit status and files as without the limit, "
  "and the number of system calls of a batch grows linearly with the number of listed files.",
  ["configurations", "fault_sequences", "inputs"],
  "every number of listed files, mixture of good, missing and invalid ones, and limit on open descriptors",
  "Every test lists one file, and no test limits descriptors.",
  [SCAF, CHK, CTX],
  [("files are read and stored one at a time", SCAF + " run; " + CHK + " run; " + CTX + " Context::new")],
  [], ["number of open descriptors", "number of system calls", "exit status", "the simulated disk"])

prop("P18", "Replacing an output keeps its links and permissions",
  "When `scaffold -wf` or `check --fix` replaces an output that is a symbolic link, the link stays and the file that it names is what is replaced (or created); the permissions of a replaced file stay as they were. "
  "A file that the user may not write to is not changed, and the run reports that instead of exiting 0. A file that a command creates has ordinary permissions (0666 without the umask). "
  "This holds whichever system calls fail and when the run is killed.",
  ["inputs", "fault_sequences", "crash_points"],
  "every kind of link (relative, absolute, chained, to another file system, dangling), every mode and umask, every failing system call or kill",
  "No test has an output that is a link or has unusual permissions.",
  [SCAF, CHK],
  [("the write step of each command", SCAF + " write_file; " + CHK + " write")],
  [], ["types, targets and modes in the simulated file system", "exit status"])

prop("P19", "The report adds up",
  "The summary of every run agrees with what happened: `check` announces as many failed checks and available fixes as it lists, and success exactly when it lists none and exits 0; `check --fix` announces the sum of the issues fixed in each file; `scaffold` announces exactly the files that it lists as failed. "
  "Every file that would fail alone is named, every violation names a listed file (with a positive line number if any), and singular and plural forms match the numbers. "
  "This holds whichever files are missing, invalid or unreadable and whichever calls on one of them fail.",
  ["inputs", "fault_sequences", "configurations"],
  "every batch of good, missing, invalid, unreadable and faulted files, for every command",
  "Tests compare whole outputs of one-file runs; no test counts anything over a batch or with a failing file in it.",
  [SCAF, CHK, VIO],
  [("the summary counts what was collected", CHK + " exit, run; " + SCAF + " report_errors")],
  [], ["standard output", "standard error", "exit status"])

prop("P20", "Surroundings and spelling of paths make no difference",
  "What a command stores, prints and returns depends on the listed files and options only: not on the working directory, on how a path is written (relative, absolute, with `.`, `..` or doubled slashes, through a linked directory), or on environment variables such as the locale, terminal width, colour settings, `TMPDIR`, `HOME` or `PWD`. "
  "Messages differ at most in the spelling of the listed paths and in colour, and the output of a tree is always next to the name it was listed by, also when that name is a link.",
  ["configurations", "inputs"],
  "every working directory, spelling of the listed paths and environment, for every command and batch",
  "Every test passes one absolute path from one directory in the environment of the test runner.",
  [SCAF, CHK, CTX],
  [("output paths are derived from the listed path", SCAF + " process_file; " + CTX + " Context::new")],
  [], ["standard output", "standard error", "exit status", "the simulated disk"])

# ---- what a tree means: decided by refinement against a reference model over
# ---- simulated histories
prop("P21", "Tests and modifiers correspond one to one to the tree",
  "Whatever `scaffold` prints or stores for a valid tree is one contract with one test per top-level action and per condition that has actions, and one modifier per condition that has sub-conditions, in tree order, each test carrying the modifiers of the conditions above it, outermost first. "
  "This holds for every run of a history: the result fits the tree as it was at some moment of the run, however the tree is edited in between or replaced while it is read.",
  ["inputs", "histories", "schedules"], "every valid tree and every history of edits and runs, with chunked and interrupted reads, kills and concurrent replacement of the tree", "Golden files cover a few trees.",
  [HTR, STR, "crates/foundry/src/scaffold/modifiers.rs"],
  [("depth-first translation with a modifier stack", HTR + " visit_condition")])
prop("P22", "Names follow the documented convention and are identifiers",
  "Test and modifier names are the words of the title in Pascal or camel case with the documented prefixes (`test_`, `test_Revert..._` if the first action of the condition is exactly \"it should revert\", the function name of the root in files with several roots), contain only identifier characters (hyphens become underscores, everything else is left out), and two different constructs of one accepted tree never share a name.",
  ["inputs", "histories", "schedules"], "every valid title, in every run of a history", "A handful of titles are tested.",
  [HTR, UTL, SEM, COMB], [("sanitising and casing", UTL), ("duplicate detection", SEM + " analyze; " + COMB + " combine")])
prop("P23", "Invalid trees are rejected at the right place",
  "A tree that breaks a rule of the format (branches, keywords, characters, childless conditions, duplicates, missing or badly named roots, ...) is rejected by `scaffold` and by `check`, naming the tree and, where a part of the text is at fault, the line and column of that part in the file; a valid tree is never rejected.",
  ["inputs", "histories", "schedules"], "every tree text, in every run of a history", "Each error kind is tested on one or two inputs.",
  [TOK, PAR, SEM, ERR, SPL, VIO], [("spans carried by tokens", TOK), ("error rendering", ERR)])
prop("P24", "Keywords, comments and separators do not change meaning",
  "Keyword case, `when` versus `given`, comments, spacing, blank lines around and between trees, Windows line endings and the drawing of branches do not change which constructs are generated, apart from the words echoed in names and comments; Solidity made from one drawing of a tree passes `check` against another.",
  ["inputs", "histories", "schedules"], "every valid tree and every such rewriting of it, also as an edit between two runs", "A few rewritings are tested.",
  [TOK, PAR, SPL], [("keyword and comment scanning", TOK)])
prop("P25", "Multi-root files merge into one contract without collisions",
  "All roots of one file merge into one contract with each shared modifier once and every test of every root under its function's name, and roots whose contract names are missing or differ, or that would give two tests one name, are rejected.",
  ["inputs", "histories", "schedules"], "every file with several roots, in every run of a history", "Few multi-root files are tested.",
  [COMB], [("merging and deduplication", COMB + " combine")])
prop("P26", "Emitted Solidity is valid and carries the action texts",
  "Everything `scaffold` prints or stores is well-formed Solidity with the requested version pragma, a test has no body but what `-S` asks for, and every action and description appears verbatim and in order, descriptions indented as in the tree, as a comment inside its test and nowhere else.",
  ["inputs", "histories", "schedules"], "every valid tree and flag combination, in every run of a history", "Golden files cover a few trees.",
  [STR, SFMT, FSC], [("comments are smuggled through the parse tree and restored", SFMT + " cleanup_comments")])
prop("P27", "Check points at the place that has to change",
  "`check` reports every missing construct exactly once with the line of the tree file that asks for it, every misplaced construct with its line in the Solidity file (and none that is in place), and a missing or misnamed contract with the tree or the contract's line.",
  ["inputs", "histories", "schedules"], "every valid tree and Solidity file, in every run of a history of edits", "Tests look at a few messages for one-tree files.",
  [MATCH, VIO, HTR], [("spans carried into the intermediate representation", HTR), ("locations of violations", MATCH)],
  [], ["standard error"])
prop("P28", "Fixes add what scaffold would emit, and only that",
  "Each modifier or test that `check --fix` adds to a Solidity file is one that the tree asks for and the file lacked, is added once, and has the head, the modifiers and the comments that the tree gives it; with `-m` no modifier is added to an existing contract.",
  ["inputs", "histories", "schedules"], "every valid tree and Solidity file, in every run of a history of edits, kills and failures", "Tests compare a few fixed files.",
  [VIO, CTX, STR], [("insertion of missing functions", VIO + " fix; " + CTX + " insert_function_at")],
  [], ["the simulated disk"])
prop("P29", "Options mean the same however they are spelt, and refused lines do nothing",
  "Long, short, clustered and `=`-joined options in any position, and defaults spelt out, make no difference to what a command stores, prints and returns. A command line that is refused, asks for help or the version, or lists no files reads no tree and changes nothing; refused ones are explained on standard error with a non-zero status.",
  ["inputs", "configurations"], "every command line", "Tests use one spelling of each option.",
  ["crates/bulloak/src/cli.rs", SCAF, CHK], [("argument definitions", SCAF + " Scaffold; " + CHK + " Check")],
  [], ["standard output", "standard error", "exit status", "the simulated disk"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
