#!/usr/bin/env python3
"""Driver of the deterministic simulator: check.py <property> [quick|thorough]   |   check.py replay FILE [-v]
Exit 0: held on every simulated run.  Exit 1 + "VIOLATION property=<id> replay=<path>".  Exit 2: error of the machinery."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as B
from props import PROPS, COMMON

def sim(binary, *args, timeout=400):
    p = subprocess.run([binary] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
def replay(binary, f):
    """One replay in a fresh process -> (status, class, hash, msg)."""
    rc, out, err = sim(binary, "replay", "-f", f)
    m = re.search(r"RESULT status=(\d+) class=(\S*) hash=(\S+)\nMSG (.*)", out)
    if rc not in (0, 1) or not m: raise RuntimeError("replay of %s failed (exit %d): %s %s" % (f, rc, out[-500:], err[-500:]))
    return int(m[1]), m[2], m[3], m[4]
def header(f):
    h = {}
    for l in open(f, errors="replace"):
        m = re.match(r"# (class|msg|hash) (.*)", l)
        if m: h[m[1]] = m[2]
        m = re.match(r"(prop|variant) (\S+)", l)
        if m: h[m[1]] = m[2]
    return h
def known(prop):
    """Known findings of a property: [(plan file, class, text)] from the committed file (see its head)."""
    r = []
    for l in open(V + "/known-findings.txt"):
        m = re.match(r"finding: property=(\S+) plan=(\S+) class=(\S+) (.*)", l)
        if m and m[1] == prop: r.append((V + "/" + m[2], m[3], m[4]))
    return r

def run(prop, tier):
    t0 = time.time()
    cfg = PROPS[prop]; seed = int(os.environ.get("VERIF_SEED", "1"))
    tc = cfg[tier]; variants = list(tc["workers"])
    bins = B.build(variants)
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    procs = []
    try:
        t1 = time.time(); tag = 0
        for v, n in tc["workers"].items():
            base = 10_000_000 * (1 + "ABT".index(v)); count = tc["plans"][v]
            for w in range(n):
                out = "%s/out-%s-%d.json" % (tmp, v, w)
                err = open("%s/err-%s-%d" % (tmp, v, w), "wb")
                p = subprocess.Popen([bins[v], "search", "-p", prop, "-s", str(seed), "-from", str(base + w), "-step", str(n), "-to", str(base + count), "-wall", str(tc["wall"]),
                                      "-out", out, "-dir", tmp, "-tag", str(tag), "-det", str(tc.get("det", 0))], stdout=err, stderr=err, start_new_session=True)
                procs.append((p, out, err.name, v)); tag += 1
        # known findings are replayed while the search runs
        kf = []
        for f, cls, text in known(prop):
            v = header(f)["variant"]; b = bins.get(v) or B.build([v])[v]
            st, c, h, msg = replay(b, f)
            if st == 2 and c == cls: kf.append((text, f, h))
            elif st == 2: shutil.copy(f, tmp + "/fail-%s-known-%d.plan" % (v, len(kf))); 
        grace = None
        while any(p.poll() is None for p, *_ in procs):
            time.sleep(0.2)
            if grace is None and glob.glob(tmp + "/fail-*.plan"): grace = time.time() + 20
            if (grace and time.time() > grace) or time.time() - t1 > tc["wall"] + 120:
                for p, *_ in procs:
                    if p.poll() is None:
                        try: os.killpg(p.pid, signal.SIGKILL)
                        except ProcessLookupError: pass
                for p, *_ in procs: p.wait()
                break
        search_wall = time.time() - t1
        fails = sorted(glob.glob(tmp + "/fail-*.plan"))
        for p, out, ef, v in procs:
            if p.returncode not in (0, -9) or (p.returncode == -9 and not fails):
                sys.stderr.write("worker failed (%s): %s\n" % (p.returncode, open(ef, errors="replace").read()[-3000:]))
                if not fails: return 2              # with failing plans at hand the verdict is theirs (they must reproduce)
        R = [json.load(open(out)) for p, out, ef, v in procs if os.path.exists(out)]
        mism = sum(r["mismatches"] for r in R)
        if mism:
            sys.stderr.write("nondeterministic simulation: %d of the doubled runs differ\n" % mism)
            for p, out, ef, v in procs: sys.stderr.write(open(ef, errors="replace").read()[-1500:])
            return 2
        verdict, rep, desc, gate = 0, None, None, {}
        if fails:
            verdict, rep, desc, gate = gated(prop, seed, fails, bins, tmp)
        evidence(prop, tier, seed, cfg, tc, R, time.time() - t0, tb, search_wall, kf, verdict, rep, desc, gate)
        for text, f, h in kf: print("KNOWN-FINDING: property=%s %s" % (prop, text))
        if verdict == 1:
            print(desc); print("VIOLATION property=%s replay=%s" % (prop, rep))
        else:
            print("%s %s: %s; %d simulated runs (%d fault-free, %d with faults or schedules), %.0f s" % (prop, tier, "held on every run" if verdict == 0 else "ERROR " + str(desc), sum(r["runs"] for r in R), sum(r["faultfree"] for r in R), sum(r["faulted"] for r in R), time.time() - t0))
        return verdict
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
        shutil.rmtree(tmp, ignore_errors=True)

def gated(prop, seed, fails, bins, tmp):
    """A failing plan counts only if two fresh processes reproduce it identically; it is then minimised, and the
    minimised plan must again reproduce identically in two fresh processes."""
    why = []
    for f in fails[:8]:
        v = header(f)["variant"]; b = bins[v]
        a, c = replay(b, f), replay(b, f)
        if a[0] != 2 or c[0] != 2 or a[1] != c[1] or (a[2] != c[2] and a[1] != "hang"):
            why.append("%s: %s vs %s" % (os.path.basename(f), a, c)); continue
        os.makedirs(V + "/replays", exist_ok=True)
        dst = "%s/replays/%s-seed%d.plan" % (V, prop, seed)
        shutil.copy(f, dst); best = a; mini = False
        if a[1] not in ("hang", "setup-failed"):
            m = tmp + "/min.plan"
            rc, out, err = sim(b, "minimise", "-f", f, "-o", m, "-wall", 40)
            if rc == 0 and os.path.exists(m):
                x, y = replay(b, m), replay(b, m)
                if x[0] == 2 and x[:3] == y[:3]: shutil.copy(m, dst); best = x; mini = True
        else:
            t = open(f).read(); open(dst, "w").write(t)
        n = sum(1 for l in open(dst) if l.startswith("op ")); nf = sum(1 for l in open(dst) if l.startswith(("fault ", "pre ")))
        desc = "violation of %s [%s]: %s\n  minimised=%s ops=%d faults/preemptions=%d; reproduced in fresh processes, trace hash %s; replay: python3 %s/check.py replay %s" % (prop, best[1], best[3], mini, n, nf, best[2], V, dst)
        return 1, dst, desc, {"class": best[1], "message": best[3], "hash": best[2], "minimised": mini, "ops": n, "faults_and_preemptions": nf}
    return 2, None, "failing runs did not reproduce identically: " + "; ".join(why), {}

def evidence(prop, tier, seed, cfg, tc, R, wall, tb, sw, kf, verdict, rep, desc, gate):
    tot = {}
    for r in R:
        for k, n in r["ctr"].items(): tot[k] = tot.get(k, 0) + n
    ops = {}
    for r in R:
        for k, n in r["ops"].items(): ops[k] = ops.get(k, 0) + n
    FK = ["open_fail", "read_eio", "read_short", "read_eintr", "write_eio", "write_enospc", "write_short", "seek_fail", "close_eio", "unlink_fail", "crash_before_syscall", "crash_after_syscall", "crash_torn_write", "disk_full_sticky", "alloc_fail_one", "alloc_fail_rest", "tampered_file", "clock_jump", "preemption", "team_shrunk", "realloc_moved", "rename_fail", "fsync_fail"]
    runs = sum(r["runs"] for r in R)
    sigs = set().union(*[set((r["variant"], s) for s in r["sigs"]) for r in R]) if R else set()
    scheds = set().union(*[set(r["scheds"]) for r in R]) if R else set()
    hashes = set().union(*[set((r["variant"], s) for s in r["hashes"]) for r in R]) if R else set()
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(hashes),
        "rule": cfg["rule"] + " A run counts as distinct when the hash of its complete event trace (calls, results, system calls, faults, crashes, schedule-dependent outcomes) differs from that of every other run of the same build; trivial runs (no operation executed) do not occur because every plan executes at least one library call.",
        "samples": [s for r in R[:4] for s in r["samples"][:2]],
        "plans": sum(r["plans"] for r in R), "fault_free_runs": sum(r["faultfree"] for r in R), "fault_or_schedule_runs": sum(r["faulted"] for r in R),
        "runs_by_build": {v: sum(r["runs"] for r in R if r["variant"] == v) for v in tc["workers"]},
        "runs_per_hour": int(runs / sw * 3600) if sw else 0, "seeds_per_hour": int(sum(r["plans"] for r in R) / sw * 3600) if sw else 0,
        "simulated_seconds": sum(r["simtime"] for r in R), "simulated_processes": sum(r["processes"] for r in R), "crash_restarts": tot.get("restarts", 0),
        "faults_injected": {k: tot[k] for k in FK if tot.get(k)},
        "scheduling_decisions": {"yield_points": tot.get("steps", 0), "preemptions": tot.get("preemption", 0), "choices_at_blocking": tot.get("forced_choices", 0)},
        "distinct_interleavings": len(scheds), "interleaving_measure": "hash of the sequence of (step, chosen thread) decisions of a run",
        "distinct_behaviour_classes": len(sigs), "behaviour_class_measure": cfg.get("sig", "module-specific signature of operation shape and (fault kind, system call type, position)"),
        "library_calls_by_operation": ops, "simulated_syscalls": tot.get("syscalls", 0), "simulated_allocations": tot.get("allocs", 0),
        "probes": {cfg.get("probes", {}).get(int(k[5:]), k): n for k, n in tot.items() if k.startswith("probe")},
        "components_real": COMMON["real"], "components_stub": COMMON["stub"],
        "determinism": "every run executed twice, traces identical" if tc.get("det") else "failing plans are re-executed twice in fresh processes before they are believed; `selftest.py` doubles runs",
        "cut_by_wall_limit": any(r["cut"] for r in R), "build_s": round(tb, 1),
        "known_findings_reproduced": [{"finding": t, "plan": os.path.relpath(f, V), "hash": h} for t, f, h in kf],
    }
    if gate: cov["violation"] = gate
    e = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"), "coverage": cov,
         "assumptions": COMMON["assumptions"] + cfg.get("assumptions", []), "wall_s": round(wall, 1), "violations": 1 if verdict == 1 else 0}
    os.makedirs(V + "/evidence", exist_ok=True)
    t = V + "/evidence/.%s.tmp" % prop
    json.dump(e, open(t, "w"), indent=1); os.rename(t, V + "/evidence/%s.json" % prop)

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        f = os.path.abspath(sys.argv[2]); h = header(f); b = B.build([h["variant"]])[h["variant"]]
        rc, out, err = sim(b, "replay", "-f", f, "-trace", 1)
        sys.stdout.write(out if "-v" in sys.argv else "\n".join(out.splitlines()[-40:]) + "\n")
        if err.strip() and "-v" in sys.argv: sys.stderr.write(err)
        return rc
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return run(prop, tier)
if __name__ == "__main__":
    try: sys.exit(main())
    except Exception as e:
        import traceback; traceback.print_exc(); sys.exit(2)
