#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after changing the list of checks)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
DYN = {
    "C01": ("reference-model monitor over recorded histories (debug, release, ASan, Miri)", "Every accepted or rejected handle of the driven histories agrees with an independent liveness model; 2^32-cycle reuse only in the thorough tier."),
    "C02": ("reference-model monitor of component values on every access path", "Values read through every path equal the model's on the driven histories."),
    "C03": ("hostile-handle workload under ASan and Miri with an exact-match oracle", "No accepted handle differs from a live one, no UB reported, on the forged and foreign handles tried."),
    "C04": ("value ledger (unique id per component value) plus LeakSanitizer/ASan/Miri", "Each tracked value is dropped exactly once on the driven histories, faults included."),
    "C06": ("reference-model monitor of iteration passes, Break at every position", "Every pass over every path presents exactly the live set of the model."),
    "C07": ("exhaustive decision vectors and random loops against a loop oracle", "All 4^n decision vectors for small n in every archetype shape tried, random beyond."),
    "C08": ("uniqueness monitor over all issued handles, presets near the counter limits", "No handle reissued on the driven histories; the limit itself is reached through a guarded hook and, in the thorough tier, by 2^32 real cycles."),
    "C09": ("direct-handle monitor: acceptance against the structural history of the archetype", "Each direct handle's acceptance agrees with the model on the driven histories."),
    "C10": ("fault injection at every kind of operation with a control run, ledger and model audit afterwards", "After each injected panic the world passes the full audit; faults are those listed in the evidence."),
    "C11": ("reader/writer model plus live-reference address monitor over nested and overlapping borrows", "All ordered pairs of accesses, random chains, and random held-guard schedules."),
    "C12": ("length/capacity monitor with a counting allocator, archetypes filled to 2^24", "Exact on the driven histories and at the real limit."),
    "C13": ("differential observation of clone and original, with diverging histories", "Clone and original answer identically, then independently, on the driven histories."),
    "C14": ("conversion oracle over all 2^32 keys and over issued handles", "Every 32-bit key with several generations, all archetypes of the monitored world."),
    "C17": ("event-log monitor against the model's log, size_hint at every position", "Logs equal the model's on the driven histories and patterns of empty logs."),
}
GEN = {}
try:
    from genlist import GEN  # noqa
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
na = []
for p in props:
    if p in DYN or p in GEN:
        t, n = (DYN.get(p) or GEN.get(p))
        checks.append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough", "evidence_file": f"evidence/{p}.json",
                       "technique": t, "level": "exploration", "level_note": n + " Assumes the harness' model states the property correctly; says nothing about executions not driven."})
    else:
        na.append({"property": p, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(gecs_verif)", "enable": "RUSTFLAGS=\"--cfg gecs_verif\"", "source_commits": [os.popen("git -C /repo rev-parse 224bc95").read().strip()]},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Known findings and repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
