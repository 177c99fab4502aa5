#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties the harness implements (harness list)."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.check_output([here + "/target/release/harness", "list"], text=True)
have = []
for l in out.splitlines():
    if l.split()[0] not in have:
        have.append(l.split()[0])
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
T = {
 "C01": "property-based testing: random optimizer runs against a running minimum of all evaluations",
 "C02": "property-based testing: reported pairs against the set of recorded evaluations",
 "C03": "property-based testing: containment invariant over all recorded goal arguments",
 "C04": "model-based testing: recorded component calls of every generation against a reference flow model",
 "C05": "model-based testing: recorded component calls of every iteration against a reference flow model",
 "C06": "property-based testing: recomputed extremes and cross-comparison of all views",
 "C07": "model-based testing: observer events against an event grammar",
 "C08": "model-based testing: stop criteria against executable reference criteria over generated histories",
 "C09": "metamorphic testing: split runs against unsplit runs under equal random numbers",
 "C10": "differential testing: repeated run against a newly built optimizer under equal random numbers",
 "C11": "metamorphic testing: observed, interleaved, nested and threaded runs against solitary runs",
 "C12": "metamorphic testing: monotone goal transformations and power-of-two rescaling",
 "C13": "property-based testing: filters against an executable rule on boundary-biased points",
 "C14": "property-based testing: surplus and order rule over generated populations",
 "C15": "property-based testing: structural rules and exact rank distributions (statistical)",
 "C16": "property-based testing: bit-mask reference over all types and cut positions",
 "C17": "property-based testing: reference formulas and membership in the set of all cuts",
 "C18": "property-based testing: Hamming distance and parity, rates (statistical)",
 "C19": "property-based testing: containment, counts and distribution (statistical)",
 "C20": "property-based testing: documented equations under controlled random streams in running swarms",
 "C21": "property-based testing: reference schedule, alone and in running swarms",
 "C22": "property-based testing: norm and direction rule in higher precision",
 "C23": "property-based testing: clamp and teleport rule, rates (statistical)",
 "C24": "property-based testing: independent reference statistics",
 "C25": "model-based testing: recorded statistics against reference lists over run, pause and merge histories",
 "C26": "property-based testing: goal calls counted against recorded candidates",
 "C27": "property-based testing: parsed log output against recorded states",
 "C28": "property-based testing: double-precision reference formulas and minimum search",
 "C29": "fuzzing of runs with hostile goal functions: no failure, exact iteration count",
 "C30": "statistical testing over random streams with wide margins, differential against random search",
 "C31": "model-based testing: component identities in recorded runs; equal replacements are invisible",
 "C32": "fuzzing of component shapes: malformed data refused, fitting data accepted",
 "C33": "fault injection at every component call of generated runs, differential against unfailed and newly built optimizers",
}
NOTE = ("Generated-input search over the real code with the random stream under control; every failure is shrunk to a "
        "replayable case. Sampling, not proof: inputs outside the generators' ranges (DESIGN.md) are not reached. "
        "Trusts the harness oracle, the vendored copy of the rand crate (only its thread_rng word source differs) and the compiler.")
checks = []
for p in props:
    if p["id"] in have:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": T[p["id"]],
            "level": "exploration",
            "level_note": NOTE,
        })
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in have]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: randomness is controlled by patching the rand crate in the harness build. Findings and repairs: known-findings.txt. Replays: bash replay.sh FILE."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
