#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per claimed property."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL = ("The real binary, built from /repo's working tree, runs against a simulated kernel; every call about files, "
        "time, randomness and process ids is decided by a seeded scheduler and fault injector. ")
T = "deterministic simulation with fault injection: "
C = {
 "P01": ("seeded races with another process, faults, kills; every mutation of a pre-existing output is an invariant violation",
         "Seeded search over schedules and faults of 1-3 tree batches; not exhaustive. Trusts the simulated file system's create/link/rename semantics."),
 "P02": ("invariant after every system call and for power losses after every call: each output is complete old or complete new",
         "Every intermediate state and every power-loss image reachable at a call boundary of each simulated run is examined; runs and fault sequences are sampled. The complete new content is what an undisturbed run of the same binary stores."),
 "P03": ("seeded errors, short writes, full disks; exit status compared with what is on the simulated disk afterwards",
         "Sampled. What a file should hold comes from undisturbed runs on that file alone, from what scaffold prints and from check."),
 "P04": ("independent scanner as oracle over histories of edits and checks, with injected I/O faults",
         "Sampled. The expected constructs come from what scaffold prints for the tree; the constructs a Solidity file has come from an independent scanner."),
 "P05": ("batch compared with one run per file under the same per-file faults",
         "Sampled. Metamorphic: both sides run the real binary."),
 "P06": ("the same files and arguments under different hash seeds, process ids, clocks and I/O delivery",
         "Sampled. All of the program's sources of nondeterminism that it asks the system for are under the simulator's control."),
 "P07": ("every mutation the run makes is attributed to a path and compared with what the command may change, under faults",
         "Sampled. Every mutating call of each simulated run is judged, not only the final state."),
 "P08": ("histories of kills, failures and power losses, then a clean run, compared with one undisturbed run",
         "Sampled. The expectation comes from an undisturbed run of the same binary on the initial files."),
 "P09": ("inventory of definitions and comments before and after each run in histories of edits, fixes, failures and crashes",
         "Sampled. The inventory comes from an independent scanner; layout and spelling changes that the formatter makes are normalised."),
 "P10": ("check before, check --fix, check after on simulated files over histories of edits",
         "Sampled. check itself is decided by P04's independent oracle."),
 "P11": ("histories of scaffold, check and fix runs with kills and failures in between",
         "Sampled. Compares tokens and comments, not layout."),
 "P12": ("2-3 real processes in one simulated system, a seeded scheduler switches at every system call",
         "Sampled schedules. Complete contents are computed from undisturbed runs on every version of the inputs."),
 "P13": ("another process replaces inputs atomically at seeded points; the result is searched among those of all version combinations",
         "Sampled schedules. The search over version combinations is exhaustive per case."),
 "P14": ("standard output and error fail at seeded bytes; short and interrupted writes",
         "Sampled. Prefix, exit status and order are judged against an undisturbed run of the same binary."),
 "P15": ("damaged inputs, inputs that change while they are read, failing system calls",
         "Sampled. The program runs with debug assertions and overflow checks, a bound on system calls and a CPU limit."),
 "P16": ("printing and storing forms of one command on the same simulated files under the same faults",
         "Sampled. Metamorphic: both sides run the real binary."),
 "P17": ("batches of 6 to 48 files with at most six open descriptors; descriptors and calls counted by the simulated kernel",
         "Sampled. The expectation comes from the same run without the limit and from one run per file."),
 "P18": ("links, modes and umasks of outputs in the simulated file system before and after each run, under faults and kills",
         "Sampled. Ownership, ACLs and extended attributes are not simulated."),
 "P19": ("the report's own lists, summary and exit status compared with each other and with one run per file under the same per-file faults",
         "Sampled. The wording of the summary lines is taken from the original tree."),
 "P20": ("the same files under other working directories, spellings of paths and environment variables",
         "Sampled. Metamorphic: all sides run the real binary."),
}
SPEC = (" The expectation comes from an independent reference model of the tree format (sim/src/model.rs) that shares no code with bulloak; "
        "faults reach this property only through delivery (chunked, interrupted and short reads), kills and concurrent replacement of trees, "
        "so most of the strength is the seeded breadth of trees and histories.")
C.update({
 "P21": ("refinement of a reference model of trees by what each run of a seeded history prints and stores, with racing edits, kills and chunked I/O",
         "Sampled." + SPEC),
 "P22": ("names in what each run of a seeded history prints and stores against a reference naming function",
         "Sampled." + SPEC),
 "P23": ("seeded damage to valid trees between runs of a history; acceptance and reported positions against a reference parser",
         "Sampled. Where the format is not documented the model has no opinion." + SPEC),
 "P24": ("a tree is redrawn between the runs of a history; results before and after compared, and with the reference model",
         "Sampled. Metamorphic and model-based." + SPEC),
 "P25": ("files of several roots under histories and races against a reference merge",
         "Sampled." + SPEC),
 "P26": ("everything each run of a history prints and stores is scanned and its comments compared with the reference model",
         "Sampled. Well-formedness is judged by an independent scanner, not by the Solidity compiler." + SPEC),
 "P27": ("the diagnostics of each check in a history of edits against positions computed from model and scanner",
         "Sampled. Locations in the Solidity file are judged for structure the scanner understands." + SPEC),
 "P28": ("definitions before and after each fix in a history of edits, failures and kills against the reference model",
         "Sampled." + SPEC),
 "P29": ("the same simulated world run with respelt command lines; refused lines judged call by call by the simulated kernel",
         "Sampled. An independent option parser decides which lines are refused."),
})
m = {
 "version": 1,
 "setup_cmd": "./build.sh setup",
 "checks": [{
   "property": p,
   "quick_cmd": f"./check {p}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
   "evidence_file": f"evidence/{p}.json",
   "technique": T + t,
   "level": "exploration",
   "level_note": REAL + n,
 } for p, (t, n) in C.items()],
 "not_applicable": [],
 "notes": "No hooks in /repo: the seam is the boundary between libc and the kernel (shim/shim.c, loaded into the real binary). Defects found are repaired by fix: commits listed in known-findings.txt.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
