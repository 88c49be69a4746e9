#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from the checks themselves."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sim")
from dst import core
NOTE = {
 "C01": "Every team size 1-8 and every interleaving is decided by the seeded scheduler; a race detector over the same accesses makes conflicts visible even when the sampled schedule hides them. Sampled schedules, not all. Trusts gcc's OpenMP lowering and the runtime's model of it (sequentially consistent memory).",
 "C02": "Sampled clocks and memory contents; compares complete output trees byte by byte. Stack contents are varied only as far as the heap arena and the clock perturb them.",
 "C03": "Sampled splittings down to single bytes with interrupted calls; complete trees compared byte by byte.",
 "C04": "Every write-side operation of each sampled case is failed (large cases: a sample plus the last write and the close of every file); errno, persistence and position sampled. Close failures leave earlier data on disk. Assumes no loss after a successful close.",
 "C05": "Every read-side operation of each sampled case is failed; allocation failures are stratified over the whole run. A terminating signal counts as a non-zero status.",
 "C06": "Every I/O operation of each sampled case is a kill point (before, after or torn), kills between operations are sampled. Process death, not power loss.",
 "C07": "Sampled histories of kills and restarts; restarted runs are judged by the snapshot they started from, by each other and by the reference model.",
 "C08": "Cut positions sampled over the whole file and concentrated at line and token ends; positions where what is left is itself a complete file are excluded by an independent reading of the declared data.",
 "C09": "Sampled damage of each kind over every entry; refusals must come before any snapshot.",
 "C10": "Layouts, histories and faults sampled; every file below the scratch root is compared and every write-side operation's path checked. The working directory and everything else outside the scratch root is guarded by the I/O seam, which refuses and reports such writes.",
 "C11": "Sampled cadences and clocks; the rule is evaluated with a 1e-9 relative margin at multiples of the period.",
 "C12": "Every snapshot of sampled runs is parsed strictly by independent readers.",
 "C13": "Reference model with dense linear algebra; comparisons are skipped where the outcome hinges on a discontinuity closer than 1e-9.",
 "C14": "Reference model; also checks each row of the equation against the reported pressure field.",
 "C15": "Reference model of prediction, collision and correction; discontinuities closer than 1e-9 are skipped.",
 "C16": "Sampled cases with leaving particles, borders and ghosts, followed over several steps and restarts.",
 "C17": "Exhaustive pair sums against the cell-based search, observed through number densities.",
 "C18": "Every reported step of sampled runs compared with the state history of the same run; rounding of the printed digits allowed for.",
 "C19": "Answer scripts, splittings, ends and errors of standard input and faults at I/O operations sampled.",
 "C20": "Write-side operations of each sampled history failed, torn or killed; both generators, followed by a repairing run and by a simulation started from the result.",
 "C21": "Sampled input files and directory layouts; initial state observed in full precision through the binary vtu snapshot 0, densities through the explicit pressure of step 1.",
 "C22": "Sampled clouds and histories; totals are computed from full-precision snapshots with tolerances scaled to rounding.",
 "C25": "Sampled prof files, paths and faults; file size limits at sampled bytes stand for a full disk. What cannot be told from a complete file by its content is judged by the exit status alone.",
 "C26": "Two or three processes, interleaved at their file operations (each operation is atomic); sampled schedules, kills and faults.",
 "C27": "The limits of the long run are those measured in a short one plus a small fixed margin; what grows by less than the margin over the sampled lengths is missed. Scenes that move are judged by blocks instead of bytes.",
 "C28": "Interleaved at the external commands of the scripts, which run for real; build/mps is a stand-in. Sampled histories. runner.ps1 is not covered (no PowerShell here).",
 "C29": "Failing, blocking and interrupted console writes sampled over both streams; complete trees compared byte by byte. Writes that bypass stdio and iostreams are captured but not failed.",
 "C30": "Numbers replaced at random, one to a dozen at a time; runs called upon to make more than 24 steps are left out and the heap is limited, so domains of very many cells end for want of memory. Writes into static and stack memory show only by their effects.",
 "C31": "Sampled histories of one to five edits, placed between I/O operations (each operation is atomic) of short runs.",
 "C32": "Sampled histories of 3 to 12 runs of small cases, one run at a time (concurrent runs: C26); one kill or fault per run.",
}
NA = [
 ("C23", "Pure functions of their arguments: no schedule, clock, fault or history changes them, so simulation would only dress up input generation. Their use inside a run is covered indirectly (C12 compares the number density ratio, C13-C17 the pair sums)."),
 ("C24", "A statement about agreement with physical experiments, not about behaviour under schedules, faults or histories; there is no executable oracle for it."),
]
def level_note(c): return NOTE[c]
checks = []
for c in core.all_ids():
    k = core.load(c)
    checks.append({"property": c, "quick_cmd": "./dst check " + c, "thorough_cmd": "./dst check %s --tier thorough" % c, "evidence_file": "evidence/%s.json" % c,
                   "technique": k.technique, "level": k.level, "level_note": level_note(c)})
json.dump({"version": 1, "setup_cmd": "./dst build", "checks": checks, "not_applicable": [{"property": a, "reason": b} for a, b in NA],
           "notes": "No hooks in /repo: every seam is at the libc, OpenMP, clock and heap interfaces of the unmodified objects (see DESIGN.md)."},
          open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
