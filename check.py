#!/usr/bin/env python3
"""Decide one property (or all) on the current source of the repository."""
import argparse
import importlib
import json
import os
import sys
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.loader import BrokenAnchor, Program   # noqa: E402
from sa.model import Ctx                      # noqa: E402
from sa.rules.table import RULES              # noqa: E402


def known_findings():
    path = HERE / "known_findings.txt"
    result = []
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("known: "):
                fields = dict(f.split("=", 1) for f in line[7:].split(" ", 2)[:2])
                result.append((fields["property"], fields["key"], line[7:].split(" ", 2)[2]))
    return result


def run(prop, tier, program=None, verbose=False):
    started = time.time()
    ctx = Ctx(prop, program, tier)
    incomplete = None
    try:
        RULES[prop](ctx)
    except BrokenAnchor as e:
        incomplete = str(e)
    except Exception as e:   # an analysis error is not a violation
        if os.environ.get("SA_DEBUG"):
            raise
        incomplete = f"{type(e).__name__}: {e}"
    if incomplete and not ctx.findings and not ctx.discharged:
        raise BrokenAnchor(incomplete)
    known = [(k, t) for p, k, t in known_findings() if p == prop]
    listed = {k for k, _ in known}
    violations = [f for f in ctx.findings.values() if f.key not in listed]
    for k, t in known:
        if k in ctx.findings:
            print(f"KNOWN-FINDING: property={prop} {t}")
    evidence = HERE / "evidence"
    evidence.mkdir(exist_ok=True)
    if violations:
        replay = evidence / f"{prop}-violation.txt"
        replay.write_text("\n\n".join(f.text() for f in violations) + "\n")
        for f in violations:
            print(f.text())
        print(f"VIOLATION property={prop} replay={replay}")
    coverage = {
        "explanation": "Path-sensitive interprocedural dataflow analysis (abstract interpretation with trace "
                       "partitioning over the syntax trees of the package, callees inlined). Rules: "
                       + "; ".join(ctx.rules),
        "functions_analysed": len(ctx.functions),
        "functions": sorted(f"{m}:{q}" for m, q in ctx.functions),
        "paths": ctx.paths,
        "call_sites": len(ctx.call_sites),
        "path_events": ctx.events,
        "obligations": ctx.obligations,
        "discharged": ctx.discharged,
        "undecided": len(ctx.undecided),
        "undecided_samples": ctx.undecided[:20],
        "instances_per_rule": ctx.instances,
        "samples": ctx.samples,
        "incomplete": incomplete or "no",
    }
    (evidence / f"{prop}.json").write_text(json.dumps({
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": coverage,
        "assumptions": [
            "models of the external functions in sa/library.py",
            "loops are represented by no iteration and one generic iteration",
            "what the analysis cannot decide is counted as undecided and not reported"],
        "wall_s": round(time.time() - started, 3),
        "violations": len(violations),
    }, indent=1))
    if incomplete:
        print(f"{prop}: incomplete: {incomplete}", file=sys.stderr)
    if verbose:
        for u in ctx.undecided:
            print("  undecided", u[:300])
    print(f"{prop}: {len(ctx.functions)} functions, {ctx.paths} paths, {len(ctx.call_sites)} call sites, "
          f"{ctx.obligations} obligations, {ctx.discharged} discharged, {len(ctx.undecided)} undecided, "
          f"{len(violations)} violations, {time.time() - started:.1f} s")
    return 1 if violations else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    props = sorted(RULES) if a.property == ["all"] else a.property
    program = Program()
    worst = 0
    for prop in props:
        try:
            worst = max(worst, run(prop, a.tier, program, a.v))
        except BrokenAnchor as e:
            print(f"{prop}: analysis broken: {e}", file=sys.stderr)
            worst = max(worst, 2)
            if len(props) == 1:
                return 2
    return worst


if __name__ == "__main__":
    sys.exit(main())
