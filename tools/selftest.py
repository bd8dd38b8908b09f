#!/usr/bin/env python3
"""Is one seed one exactly repeatable execution?  Runs each world twice, with other hash seeds and another distribution over
processes, and compares the digest of the event log of every run.

    tools/selftest.py [--runs N] [--seed N] [C01 ...]
"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import runner
from sim.worlds import META

ap = argparse.ArgumentParser()
ap.add_argument("--runs", type=int, default=300)
ap.add_argument("--seed", default="77")
ap.add_argument("props", nargs="*")
a = ap.parse_args()
bad = 0
for p in a.props or sorted(META):
    n = a.runs if p != "C12" else min(a.runs, 60)
    one = runner.check(p, "quick", a.seed, n, 8, keep_digests=True, quiet=True, write=False)
    two = runner.check(p, "quick", a.seed, n, 5, keep_digests=True, quiet=True, hashseed="31337", write=False)
    diff = [x[0] for x, y in zip(one["digests"], two["digests"]) if x != y]
    print("%s: %d runs twice, %d differ%s%s%s" % (p, len(one["digests"]), len(diff), " %r" % diff[:5] if diff else "",
          "; violations %d/%d" % (len(one["viols"]), len(two["viols"])) if one["viols"] or two["viols"] else "",
          "; ERROR %s" % one["errors"][0] if one["errors"] else ""), flush=True)
    bad += bool(diff or one["viols"] or one["errors"] or len(one["digests"]) != len(two["digests"]))
sys.exit(1 if bad else 0)
