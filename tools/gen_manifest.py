#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and the 'fixed' entries of /verif/known_findings.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/driver")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
SIM = "deterministic simulation with fault injection: "
T = {
 "C01": (SIM + "seeded delivery schedules (splits, EINTR, pipe/file/stdin/buffer) against one whole read", "Compares every delivery with one whole read of the same bytes; trusts the whole read itself (other properties judge it)."),
 "C02": (SIM + "seeded open/read/seek/shrink faults on every input", "Each failing run must fail visibly and leave nothing behind, or equal the healthy run."),
 "C03": (SIM + "seeded short/interrupted/failing writes, flushes, closes, opens on every destination", "Exit 0 must mean byte equality with the undisturbed run."),
 "C04": (SIM + "seeded kill points (also inside writes) and failing steps, file system invariant at the crash point", "Kill points are seam events; bytes handed to the kernel count as durable (no reordering inside the kernel)."),
 "C05": (SIM + "chains of load/save processes over one simulated disk, infoset oracle", "Oracle: generated model plus Python's expat and json readers; documents are restricted to what the formats can express."),
 "C06": (SIM + "edit pipelines cut into processes, reference tree model", "Oracle: a small ordered-tree interpreter of the commands and the uncut run."),
 "C07": (SIM + "seeded preemption of caller threads at basic blocks, compared with each thread alone", "Preemption at every basic block of the library; libxml2's own locking runs for real, not preempted inside."),
 "C08": (SIM + "seeded call histories with failures, probe compared with a fresh process", "Probe results compared with a fresh process."),
 "C09": (SIM + "seeded initial heap/stack contents, placement and reuse", "Same scenario under different memory contents must give the same history; automatic variables are covered through compiler initialisation patterns."),
 "C10": (SIM + "seeded allocation failures (program and libxml2)", "Exit 0 must mean the full correct result."),
 "C11": (SIM + "seeded API histories repeated, allocator and descriptor accounting", "Counts blocks and descriptors the library holds after everything was freed."),
 "C12": (SIM + "seeded corruption of stored bytes under AddressSanitizer with work bounds", "Memory errors are found by AddressSanitizer with exact-size buffers; loops by basic block and event bounds."),
 "C13": (SIM + "simulated children with seeded run times, exit codes, fork/exec/wait faults", "Oracle: independent list of matches with their content."),
 "C14": (SIM + "simulated terminal with seeded keys, delays, sizes, hang-ups", "Oracle: line model of the rendered document; bounded steps."),
 "C15": (SIM + "simulated xterm with seeded reply splits, delays, silence, hang-up, virtual clock", "Oracle: brightness rule and time bound on the virtual clock."),
 "C16": (SIM + "every destination (memory, stdout, callback with failures, save file) compared byte for byte", "Compares destinations with each other."),
 "C17": (SIM + "every command in two simulated worlds that differ in all the command line does not name; the log of opened files is compared with what is named, and the two runs with each other", "What libxslt reads for a stylesheet counts as named; locale settings are out of the simulator's reach."),
 "C18": (SIM + "threads that log, preempted at basic blocks, allocations that fail and a log that a crash cut, read back by a second process and an independent XML reader", "Values are compared as read back; the tool's own log by number of lines."),
 "C19": (SIM + "the same command on a document and on one 32 times as long, delivered in seeded pieces; steps, peak memory and calls counted by the simulator", "Work inside libxml2 is counted only as requested memory; grammars and growing depth are left out."),
}
NA = {
 "C20": "Pure function of grammar and text: no schedule, clock, fault, crash or history takes part, so simulation adds nothing over plain differential testing of a parser.",
 "C21": "Pure function of document and query/stylesheet/schema, decided inside libxml2/libxslt; no nondeterminism or fault to simulate.",
 "C22": "Pure function of a string; nothing to schedule or to fail.",
 "C23": "Pure function of document and theme; nothing to schedule or to fail.",
 "C24": "Pure function of the input text; how the text arrives is covered by C01.",
 "C25": "Pure string functions; nothing to schedule or to fail.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if not os.path.exists(V + "/driver/props/%s.py" % i.lower()):
        na.append(dict(property=i, reason="check under construction")); continue
    checks.append(dict(property=i, quick_cmd="python3 driver/check.py %s --tier quick" % i, thorough_cmd="python3 driver/check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=T[i][0], level="exploration", level_note=T[i][1]))
json.dump(dict(version=1, setup_cmd="python3 driver/build.py", hooks=dict(guard="none", enable="No guarded hooks: the seam is put in at link time (objcopy --redefine-syms on the objects compiled from /repo's working tree), so the shipped sources carry no instrumentation.", source_commits=[]),
               checks=checks, not_applicable=na, notes="Replay a violation: python3 driver/check.py --replay <path>. VERIF_THOROUGH_S bounds the thorough tier (default 3600 s)."),
          open(V + "/MANIFEST.json", "w"), indent=1)
# fixed entries: commit subject -> (property, what failed)
FIXED = json.load(open(V + "/tools/fixed.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE).stdout.decode().splitlines()
kf = [k for k in json.load(open(V + "/known_findings.json"))] if os.path.exists(V + "/known_findings.json") else []
kf = [k for k in kf if k.get("status") == "open"]
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    ps, what = FIXED.get(s[5:], (None, None))
    if ps is None: print("no fixed.json entry for:", s); continue
    for q in ps: kf.append(dict(status="fixed", property=q, commit=h, classes=[], what=what, line="fixed: property=%s %s %s" % (q, h, what)))
json.dump(kf, open(V + "/known_findings.json", "w"), indent=1)
