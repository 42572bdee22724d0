#!/usr/bin/env python3
"""Self-test of the rules: broken variants have to be reported, equivalent ones not.

Variants are texts that replace fragments of the current sources, in memory.
  run.py [-v] [property ...]     all variants (of the properties)
"""
import argparse
import io
import contextlib
import multiprocessing
import sys
import time
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.setrecursionlimit(20000)

from sa.loader import Program, REPO, BrokenAnchor    # noqa: E402
from sa.model import Ctx                             # noqa: E402
from sa.rules.table import RULES                     # noqa: E402
from variants import BROKEN, EQUIVALENT              # noqa: E402

PKG = "dataladmetadatamodel/"


def dense(text):
    """Text without blank lines."""
    while "\n\n" in text:
        text = text.replace("\n\n", "\n")
    return text


def overlay(edits):
    files = {}
    for name, old, new in edits:
        rel = PKG + name
        text = files.get(rel) or dense((Path(REPO) / rel).read_text())
        old, new = dense(old), dense(new)
        if text.count(old) < 1:
            raise ValueError(f"fragment not found in {rel}: {old!r}")
        files[rel] = text.replace(old, new)
    return files


def one(job):
    prop, label, edits, listed = job
    t = time.time()
    try:
        program = Program(overlay=overlay(edits))
        ctx = Ctx(prop, program)
        RULES[prop](ctx)
        found = [f for f in ctx.findings.values() if f.key not in listed]
        return job, [f.text().split("\n")[0] for f in found], None, time.time() - t
    except ValueError as e:
        return job, [], f"STALE {e}", 0
    except BrokenAnchor as e:
        return job, [], f"BROKEN {e}", 0
    except Exception:
        return job, [], traceback.format_exc()[-600:], 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-l", "--label", default="", help="only variants with this text in their label")
    ap.add_argument("-b", "--broken", action="store_true", help="only broken variants")
    a = ap.parse_args()
    listed = set()
    known = Path(__file__).resolve().parent.parent / "known_findings.txt"
    if known.exists():
        for line in known.read_text().splitlines():
            if line.startswith("known: "):
                listed.add(dict(f.split("=", 1) for f in line[7:].split(" ", 2)[:2])["key"])
    jobs = []
    for prop, label, edits in BROKEN:
        if prop in RULES and (not a.props or prop in a.props):
            jobs.append((prop, label, edits, listed))
    props = [p for p in RULES if not a.props or p in a.props]
    for label, edits in EQUIVALENT:
        for prop in props:
            jobs.append((prop, "=" + label, edits, listed))
    jobs = [j for j in jobs if a.label in j[1] and not (a.broken and j[1].startswith("="))]
    bad = 0
    with multiprocessing.Pool(8) as pool:
        for (prop, label, edits, _), found, err, wall in pool.imap(one, jobs, 1):
            want = not label.startswith("=")
            good = err is None and bool(found) == want
            if not good:
                bad += 1
            if a.v or not good:
                print("ok  " if good else "FAIL", prop, label, f"{wall:.1f}s", (err or "")[:300])
                if a.v and want or not want and found:
                    for f in found[:2]:
                        print("       ", f[:220])
    print(f"{len(jobs)} variants, {bad} not as expected")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
