"""Writes MANIFEST.json (the list of claimed properties lives here)."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SESSION = ("Quint specification (session.qnt over ad.qnt/fx.qnt): invariants checked by simulation, "
           "generated behaviours replayed step by step on the real library")
NOTE = ("Every behaviour explored satisfied the specification's invariants and was reproduced by the real code at every "
        "step. Behaviours are sampled (seeded), not exhaustive. Trusted: the Quint simulator, the reference definitions in "
        "fx.qnt/ad.qnt (themselves tested against central differences), the replay harness.")
CHECKS = {p: (SESSION, "model_checking", NOTE) for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"]}
CHAIN = ("Quint specification of composed behaviours (chain.qnt): invariants checked by simulation, behaviours replayed on the "
         "real chains, tapes and driver")
CHECKS["C10"] = (CHAIN, "model_checking", NOTE)
REV = ("TLA+ specification: dynamic programme over all strategies equals the closed form and bounds every strategy (TLC, exhaustive in "
       "the model's bounds); event traces recorded from the real reverse_sequence validated by TLC against ReverseTrace.tla")
REVN = ("Every recorded run is accepted by the trace specification. Sizes enumerated densely for small cases and sampled for "
        "large ones; the lower bound is proved by TLC for the model's bounds only. Trusted: TLC, the recording harness.")
CHECKS["C11"] = (REV, "model_checking", REVN)
CHECKS["C12"] = (REV, "model_checking", REVN)
CHECKS["C15"] = ("TLA+ specifications Forms.tla and Chains.tla enumerated exhaustively by TLC within their bounds, every transition "
                 "replayed on the real objects; plus composed behaviours of chain.qnt", "model_checking",
                 "Every enumerated declaration, call and construction history is reproduced by the real code. Trusted: TLC, the "
                 "replay harness; extra arguments 0..3, chains of up to 12 members.")
CHECKS["C13"] = ("TLA+ specification Lifecycle.tla: invariants and action properties model checked by TLC, every transition (and long "
                 "random walks) replayed on real contexts", "model_checking",
                 "Exhaustive within the bounds in Lifecycle_*.cfg, random walks beyond. Trusted: TLC, the replay harness.")
CHECKS["C14"] = ("TLA+ specification Recording.tla model checked by TLC; histories recorded from the real library under systematically "
                 "enumerated schedules of its lock and atomic operations validated by TLC against RecordingTrace.tla", "model_checking",
                 "Every recorded history is explained by some order of atomic steps. Schedules: all with at most two preemptions "
                 "(capped for the largest scenarios), then random and truly parallel ones; sequentially consistent memory. Trusted: "
                 "TLC, the scheduler in shim/adv_std.rs.")
CHECKS["C18"] = ("Quint specification of single calls (numbers.qnt: conversions, casts, constants over the whole number range, special "
                 "values included): invariants checked by simulation, calls replayed on the real scalars", "model_checking", NOTE)
CHECKS["C16"] = ("TLA+ specification Handles.tla (ownership in the C++ interface): invariants and action properties model checked by TLC, "
                 "every transition and random walks replayed on the compiled C++ and C interfaces", "model_checking",
                 "Exhaustive within the bounds of Handles_*.cfg, random walks beyond. Memory errors are seen by the sanitizers and by "
                 "overwriting freed memory, leaks by counting allocations. Trusted: TLC, the sanitizers, the replay driver.")
CHECKS["C17"] = ("TLA+ specification Columns.tla: claims, starts, ends and assembly of concurrent evaluations model checked by TLC; every "
                 "order of starts and ends imposed on the real drivers, and real parallelism with random delays", "model_checking",
                 "Every order within the bounds, on all ten drivers; larger sizes and several callers by random schedules. Trusted: TLC, "
                 "the gate in columns/. Which worker takes which direction is up to the thread pool.")
NOT = {
    "C19": "An ulp-level bound is a statement about binary rounding of the platform's libm; the specification works on "
           "(fixed-point) reals and has no model of rounding, and neither TLC nor Quint can evaluate transcendental functions "
           "to the required accuracy over all floats. Values and derivatives are compared within a tolerance under C02/C03 instead.",
}
PENDING = ["C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"]
for p in PENDING:
    if p not in CHECKS:
        NOT[p] = "check under construction"

m = {
    "version": 1,
    "setup_cmd": "bash bin/setup.sh",
    "hooks": {"guard": "none needed in /repo: for C14 and C17 the library is compiled with --extern std=shim/adv_std.rs (bin/rustc_wrap.sh)",
              "enable": "RUSTC_WRAPPER=bin/rustc_wrap.sh (bin/vlib.py build_shim)",
              "source_commits": []},
    "checks": [{"property": p, "quick_cmd": "python3 bin/check.py %s --tier quick" % p,
                "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
                "technique": t, "level": l, "level_note": n} for p, (t, l, n) in sorted(CHECKS.items())],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT.items())],
}
if os.path.exists(os.path.join(ROOT, "bin", "hook_commits.txt")):
    m["hooks"]["source_commits"] = open(os.path.join(ROOT, "bin", "hook_commits.txt")).read().split()
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
