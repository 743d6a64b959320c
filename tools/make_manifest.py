#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "runtime monitoring: call histories against freshly forked processes, argument and global-state monitors on every nested call",
    "C02": "runtime monitoring: seeded thread scheduler (line and bytecode preemption) and free-running stress, results against isolated runs",
    "C03": "runtime monitoring: memory-bounds monitor on every strided view (poisoned canary buffers) and slice oracle on nested framing calls",
    "C04": "runtime monitoring: oracle on every nested pre-emphasis and windowing call, metamorphic options check in every extractor",
    "C05": "runtime monitoring: formula, inverse and monotonicity oracles on direct and nested conversions",
    "C06": "runtime monitoring: reference triangle oracle on filter banks over random configurations",
    "C07": "runtime monitoring: reference filter-shape oracle on bark and gammatone banks",
    "C08": "runtime monitoring: row-gain oracle on banks and extractors",
    "C09": "runtime monitoring: reference power-spectrum model on every spectrogram entry",
    "C10": "runtime monitoring: reference cepstral pipeline on every frame",
    "C11": "runtime monitoring: oracle on the post-processing stages of every extractor",
    "C12": "runtime monitoring: metamorphic filter bank oracle (given, permuted, zeroed, scaled banks)",
    "C13": "runtime monitoring: normal-equation and optimality oracles on every frame",
    "C14": "runtime monitoring: power-series oracle on cepstra and nested conversions",
    "C15": "runtime monitoring: reference PLP model, RASTA recursion and causality oracles",
    "C16": "runtime monitoring: reference constant-Q inner products and cepstra",
    "C17": "runtime monitoring: stage-by-stage reference oracles on nested PNCC stages, look-ahead monitor",
    "C18": "runtime monitoring: finiteness and shape sanitizer on hostile signals with a CPU-time watchdog",
    "C19": "runtime monitoring: locality oracle over edited, cut, extended and delayed signals",
    "C20": "runtime monitoring: strongest-bin oracle per frame",
    "C21": "runtime monitoring: reference YIN on every frame and nested stage",
    "C22": "runtime monitoring: reference statistics and range/gain invariants",
    "C23": "runtime monitoring: reference deltas and algebraic invariants",
    "C24": "runtime monitoring: rejection and acceptance oracle over invalid and boundary parameters",
    "C25": "runtime monitoring: gain and sign metamorphic oracle",
    "C26": "runtime monitoring: representation metamorphic oracle",
    "C27": "runtime monitoring: inspection of the drawn matplotlib artists against the input data",
    "C28": "runtime monitoring: omitted, explicit and positional calls compared",
}
checks = []
for k, t in sorted(T.items()):
    checks.append(dict(property=k, quick_cmd=f"./run_check.sh {k} quick", thorough_cmd=f"./run_check.sh {k} thorough", technique=t, level="exploration", level_note="Holds on every execution observed under seeded random, boundary and hostile workloads (counts in the evidence file); not a proof for all inputs. numpy, scipy and the interpreter are trusted."))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
