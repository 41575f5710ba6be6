"""Findings, known findings, evidence and exit codes."""

from __future__ import annotations

import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VSTATIC_EVIDENCE", os.path.join(VERIF, "evidence"))


class Finding:
    def __init__(self, rule, construct, where, message):
        self.rule = rule  # short rule id, e.g. "P01.reader-key"
        self.construct = construct  # stable construct key, no line numbers
        self.where = where  # file:line (function)
        self.message = message

    @property
    def key(self):
        return f"{self.rule}::{self.construct}"

    def __str__(self):
        return f"{self.where}: [{self.rule}] {self.construct}: {self.message}"


class Report:
    """Collects what a rule analysed and what it found."""

    def __init__(self, prop, tier="quick", seed=1):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.findings: dict[str, Finding] = {}
        self.obligations: list[tuple[str, str]] = []  # (rule, instance)
        self.unanalysed: list[str] = []
        self.rules: dict[str, str] = {}
        self.notes: dict = {}
        self.minimums: dict[str, int] = {}
        self.t0 = time.time()

    def rule(self, rid, text, minimum=0):
        self.rules[rid] = text
        self.minimums[rid] = minimum

    def ob(self, rid, instance):
        self.obligations.append((rid, instance))

    def find(self, rid, construct, where, message):
        f = Finding(rid, construct, where, message)
        self.findings.setdefault(f.key, f)

    def skip(self, what):
        self.unanalysed.append(what)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [e for e in data.get("known", []) if e["property"] == prop]


def finish(rep: Report, digest: str, modules: int, functions: int, level="other"):
    known = {e["key"]: e for e in load_known(rep.prop)}
    new, old = [], []
    for k, f in sorted(rep.findings.items()):
        (old if k in known else new).append(f)
    counts: dict[str, int] = {}
    distinct: dict[str, set] = {}
    for rid, inst in rep.obligations:
        counts[rid] = counts.get(rid, 0) + 1
        distinct.setdefault(rid, set()).add(inst)
    short = [
        f"{rid}: {counts.get(rid, 0)} instances, at least {mn} expected"
        for rid, mn in rep.minimums.items()
        if counts.get(rid, 0) < mn
    ]
    if rep.unanalysed and len(rep.obligations) >= 0.7 * sum(rep.minimums.values()):
        # a rule about one or two constructs that says it cannot resolve them gives no verdict on them; the others stand
        lost = [s for rid, s in zip([r for r, mn in rep.minimums.items() if counts.get(r, 0) < mn], short) if rep.minimums[rid] <= 10]
        rep.unanalysed += lost
        short = [s for s in short if s not in lost]
    samples = []
    for rid in rep.rules:
        samples += [f"{rid}: {i}" for i in sorted(distinct.get(rid, ()))[:6]]
    ev = {
        "property": rep.prop,
        "tier": rep.tier,
        "seed": rep.seed,
        "level": level,
        "coverage": {
            "explanation": (
                f"Static analysis of the current source of /repo/mrmustard ({modules} modules, "
                f"{functions} functions parsed; tree digest {digest[:16]}). Each obligation is one "
                "instance of a rule at one construct of the code; an obligation that is not listed "
                "as a finding was decided to hold. Constructs the analysis could not resolve are "
                "listed as not analysed and carry no verdict."
            ),
            "rules": rep.rules,
            "obligations": len(rep.obligations),
            "obligations_by_rule": counts,
            "distinct_instances_by_rule": {r: len(s) for r, s in distinct.items()},
            "samples": samples[:60],
            "not_analysed": sorted(set(rep.unanalysed))[:80],
            "not_analysed_count": len(set(rep.unanalysed)),
            "findings": [str(f) for f in new],
            "known_findings_seen": [str(f) for f in old],
            **rep.notes,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(new),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{rep.prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    print(
        f"{rep.prop}: {len(rep.obligations)} obligations over {modules} modules / {functions} "
        f"functions, {len(new)} new finding(s), {len(old)} known, "
        f"{len(set(rep.unanalysed))} construct(s) without verdict"
    )
    for rid in rep.rules:
        print(f"  {rid}: {counts.get(rid, 0)} instances ({rep.rules[rid]})")
    for f in old:
        print(f"KNOWN-FINDING: property={rep.prop} {f}")
    if new:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, f"{rep.prop}.txt")
        with open(rpath, "w") as fh:
            for f in new:
                fh.write(f"{f}\n  key: {f.key}\n  rule: {rep.rules.get(f.rule, '')}\n")
        for f in new:
            print(f"finding: {f}")
        print(f"VIOLATION property={rep.prop} replay={rpath}")
        return 1
    if short:
        for s in short:
            print(f"ANALYSIS-BROKEN: {s}", file=sys.stderr)
        return 2
    return 0


ASSUMPTIONS = [
    "CPython semantics of the parsed source; no monkey patching of the package at run time",
    "third-party calls (numpy, jax, numba, opt_einsum) behave as their documentation says with "
    "respect to purity, aliasing and argument order",
]
