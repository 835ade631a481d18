#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.  CLAIMED lists what has a check.
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {
 "S01": ("seeded simulation of thread schedules: own scheduler at every memory access of the library", "Threads are real library code run one at a time; a seeded scheduler chooses every switch. Sampling of schedules, sequentially consistent memory."),
 "A01": ("seeded simulation with scripted allocation failures, compared with the fault-free call", "Sampling over ~240 library operations, their arguments and every allocation position; address sanitizer watches memory. Assumes exhaustion shows as a failing operator new or malloc."),
 "H02": ("seeded simulation of object histories with allocation failures against list-of-numbers models", "Sampling of histories over pools of five objects of 20 kinds; models are independent reimplementations on plain integers."),
 "A02": ("seeded simulation of call histories with allocation failures and rejected inputs; live-memory conservation", "Sampling of histories; every tracked allocation made inside library calls is accounted for."),
 "C01": ("seeded simulation of process trees: braced command lines against the same line with words in place, under varied pipe delivery", "Sampling of command lines from a grammar over all command groups; the shell behind popen is a model of POSIX quoting and splitting."),
 "C02": ("seeded simulation of process trees with sub-commands failing to start, dying, exiting, losing output or running out of memory", "Sampling of command lines, sub-commands and failure points."),
 "C03": ("seeded simulation of commands whose output is accepted in pieces, refused from a byte on, or refused once", "Sampling of commands and failure points, places near buffer ends preferred. Output refused only after the process has ended is out of reach."),
 "C04": ("seeded simulation of commands with failing memory, failing input and impossible requests", "Sampling of commands and failure points; memory failures start at main()."),
 "H01": ("seeded simulation of call histories with abandoned calls, each answer compared with a fresh process", "Sampling of histories over ~240 operations; reference is the same code run first in a forked process."),
 "R01": ("seeded simulation of input arriving in pieces of any size, with interrupted calls, from a stream, a file or the tool's input", "Sampling over value kinds, spellings and deliveries; an independent model of the text formats says what must be read."),
 "R02": ("seeded simulation of read errors, truncation, and failing memory while data is being read", "Sampling over value kinds and fault positions; the independent text model says which answers are honest."),
 "R03": ("seeded simulation of damaged stored or delivered text (flipped, lost, repeated, moved bytes and blocks)", "Sampling over value kinds and damage; the independent text model decides what the damaged bytes may mean."),
 "W01": ("seeded simulation of file writes with full disk, I/O errors, short and interrupted writes, failing open and close", "Sampling over value kinds and failure positions; the simulated disk holds what was really written."),
 "G01": ("seeded simulation of histories of seedings and draws under a simulated clock and process id, against an independent model of the generator", "Sampling of histories; counters about to carry are preferred."),
 "G02": ("seeded simulation of the random source: every word can be scripted (zeros, ones, constants, cycles, edge words), with abandoned draws", "Sampling of requests and sources; irreducibility is judged by trial division, so degrees are bounded (24 over F_2)."),
 "G03": ("seeded simulation of a random device with failing opens, short, interrupted and failing reads and end of file", "Sampling of device scripts and draws against the bytes the device supplied."),
 "G04": ("seeded simulation of random commands under every kind of clock and process id", "Sampling of commands, clocks and process ids; shapes judged by an independent reader."),
}
NA = {
 "M01": "A pure function of its operands: no thread, clock, I/O, randomness or failure takes part, so a simulator has nothing to schedule or inject; sampling inputs would be property-based testing.",
 "M02": "Factoring reads no clock, device or shared state and has no schedule; the quantifier is over inputs only, which simulation with fault injection does not explore. Its behaviour under memory faults, histories and threads is in A01, A02, H01 and S01.",
 "M03": "Deterministic functions of integers or polynomials; nothing nondeterministic for a simulator to control.",
 "M04": "Deterministic functions of one matrix; correctness over all matrices is a question about inputs, not about schedules or faults (those are in A01, A02, H01, S01).",
 "M05": "Deterministic functions of one element and its modulus; no schedule, time or fault takes part in the mathematical answer.",
 "M06": "Pure enumeration of finite sets; no nondeterminism or fault for the outcome to depend on.",
 "M07": "Closed-form mathematical identities over inputs; the only stateful part, the table filled on demand, is decided in H01 and S01.",
 "M08": "A pure round trip through text with no I/O boundary, schedule or fault; delivery, damage and storage of text are decided in R01, R02, R03 and W01.",
}
CLAIMED = "A01 A02 H01 H02 C01 C02 C03 C04 R01 R02 R03 W01 G01 G02 G03 G04 S01".split()
checks = [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
           "evidence_file": "evidence/%s.json" % p["id"], "technique": T[p["id"]][0], "level": "exploration", "level_note": T[p["id"]][1]} for p in props if p["id"] in CLAIMED]
na = [{"property": p["id"], "reason": NA.get(p["id"], "Check under construction; not claimed yet.")} for p in props if p["id"] not in CLAIMED]
m = {"version": 1, "setup_cmd": "python3 sim/build.py lib hist sys thr", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is at the operating-system and compiler boundary (see DESIGN.md). ./check ID [quick|thorough]; build/A/sim_lib|sim_sys, build/B/sim_thr replay FILE reproduces a reported run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
