#!/usr/bin/env python3
"""Self-test of the simulator: every run executed twice (in two processes) over many seeds and at two worker counts; the
complete event traces must be identical.   selftest.py [plans per property and build] [seeds]"""
import json, subprocess, sys, tempfile, os
import build as B
from props import PROPS
n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
seeds = int(sys.argv[2]) if len(sys.argv) > 2 else 3
bins = B.build(["A", "B", "T"]); bad = runs = 0
with tempfile.TemporaryDirectory() as d:
    for p, c in PROPS.items():
        for v in c["thorough"]["workers"]:
            tr = {}
            for seed in range(1, seeds + 1):
                for workers in (8, 3):                      # traces must not depend on the number of workers either
                    ps = []
                    for w in range(workers):
                        o = "%s/%d.json" % (d, w)
                        ps.append((subprocess.Popen([bins[v], "search", "-p", p, "-s", str(seed), "-from", str(1000 + w), "-step", str(workers), "-to", str(1000 + n), "-wall", "300", "-out", o, "-dir", d, "-tag", str(w), "-det", "1" if workers == 8 else "0"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), o))
                    hs = set()
                    for q, o in ps:
                        q.wait(); r = json.load(open(o)); bad += r["mismatches"] + r["violations"]; runs += r["runs"]; hs |= set(r["hashes"])
                    if tr.setdefault(seed, hs) != hs: bad += 1; print("%s %s seed %d: traces depend on the worker count" % (p, v, seed))
            print(p, v, "runs", runs, "differences", bad, flush=True)
print("selftest: %d runs, %d differences" % (runs, bad)); sys.exit(bad > 0)
