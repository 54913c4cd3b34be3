import sys, os, json, time, importlib, tempfile, shutil, pickle, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.setup_paths()
VERIF = core.VERIF
sys.path.insert(0, os.path.join(VERIF, "checks"))

def find_module(pid):
    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if f.lower().startswith(pid.lower()) and f.endswith(".py"):
            return importlib.import_module(f[:-3])
    sys.exit("no check module for " + pid)

def load_known(pid):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == pid]

def run_replay(mod, pid, path, scratch):
    d = json.load(open(path))
    test = [t for t in mod.TESTS if t.name == d["test"]][0]
    signal.signal(signal.SIGVTALRM, core._on_vtalrm)
    ctx = core.Ctx(test); ctx.scratch = scratch; ctx.tier = "quick"
    try:
        os.chdir(scratch)
        core.run_case(test, d["case"], ctx)
    except (Exception, core.CaseHang) as e:
        kind = "violation" if isinstance(e, core.CaseHang) else core.classify_exception(e)
        print(core.describe(e))
        if kind == "violation":
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(path)))
            return 1
        return 2
    print("replay passes")
    return 0

def main():
    pid = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = None
    if "--test" in sys.argv:
        only = sys.argv[sys.argv.index("--test") + 1]
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        mod = find_module(pid)
        if hasattr(mod, "setup"):
            r = mod.setup(scratch, tier)
            if r is not None:      # setup can itself find that the tree does not build
                print(r)
                return 2
        if "--replay" in sys.argv:
            return run_replay(mod, pid, sys.argv[sys.argv.index("--replay") + 1], scratch)
        return run_all(mod, pid, tier, seed, scratch, t0, only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def run_all(mod, pid, tier, seed, scratch, t0, only):
    tests = [t for t in mod.TESTS if only is None or t.name == only]
    ncpu = min(8, os.cpu_count() or 1)
    width = int(os.environ.get("VERIF_JOBS", ncpu))   # processes at a time; the number of shards stays the same
    budget = getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 3000)
    budget *= max(1, ncpu // max(1, width))
    deadline = t0 + budget
    hard = t0 + budget + (400 if tier == "quick" else 1200)
    jobs = []
    for t in tests:
        ns = t.shards or ncpu
        for s in range(ns):
            jobs.append((t, s, ns))
    # heavy tests first would be nice; keep declared order
    running, results, pending = {}, [], list(jobs)
    failed = None
    while pending or running:
        while pending and len(running) < width and failed is None:
            t, s, ns = pending.pop(0)
            out = os.path.join(scratch, "res.%s.%d" % (t.name, s))
            sys.stdout.flush(); sys.stderr.flush()
            pid_ = os.fork()
            if pid_ == 0:
                try:
                    os.setsid()
                    core.worker(t, tier, seed, s, ns, scratch, out, deadline)
                finally:
                    os._exit(99)
            running[pid_] = (t, s, out)
        if not running:
            break
        p, st = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            time.sleep(0.02)
            if time.time() > hard:
                for q in running:
                    kill(q)
                failed = failed or dict(status="harness", msg="hard time limit", test="?", case=None)
                for q in running:
                    try: os.waitpid(q, 0)
                    except ChildProcessError: pass
                running = {}
            continue
        if p not in running:
            continue
        t, s, out = running.pop(p)
        kill(p)
        if not os.path.exists(out):
            r = dict(status="harness", msg="worker died with status %r" % (st,), test=t.name, shard=s, case=None,
                     evals=0, rejected=0, keys=set(), labels={}, samples=[], slow=(0, None), truncated=True)
        else:
            r = pickle.load(open(out, "rb"))
        results.append(r)
        if r["status"] != "ok" and failed is None:
            failed = r
            for q in running:
                kill(q)
            for q in running:
                try: os.waitpid(q, 0)
                except ChildProcessError: pass
            running = {}
            break
    # a violation takes precedence over a harness error
    keys = set(); labels = {}; samples = []; evals = rej = 0; trunc = []; per = {}
    for r in results:
        keys |= r["keys"]; evals += r["evals"]; rej += r["rejected"]
        pt = per.setdefault(r["test"], dict(evaluations=0, nontrivial=set()))
        pt["evaluations"] += r["evals"]; pt["nontrivial"] |= r["keys"]
        for k, v in r["labels"].items():
            labels[r["test"] + ":" + k] = labels.get(r["test"] + ":" + k, 0) + v
        if r["truncated"]: trunc.append("%s/%d" % (r["test"], r["shard"]))
    if os.environ.get("VERIF_SLOW"):
        for r in sorted(results, key=lambda r: -r["slow"][0])[:5]: print("slow", r["test"], r["shard"], r["slow"])
    seen = {}
    for r in results:
        for smp in r["samples"]:
            if seen.get(smp["test"], 0) < 3:
                seen[smp["test"]] = seen.get(smp["test"], 0) + 1
                samples.append(smp)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples,
                            per_test={k: dict(evaluations=v["evaluations"], distinct_nontrivial=len(v["nontrivial"])) for k, v in per.items()},
                            labels=dict(sorted(labels.items())), rejected=rej, stopped_early_by_time_budget=trunc),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2),
              violations=1 if failed and failed["status"] == "violation" else 0)
    if not (failed and failed["status"] != "violation") or True:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", pid + ".json")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=repr)
    if failed is None:
        for k in load_known(pid):
            ok = True
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs%s" %
              (pid, evals, len(keys), time.time() - t0, " (time budget cut %d shards)" % len(trunc) if trunc else ""))
        return 0
    if failed["status"] == "violation":
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replay", "%s-%s.json" % (pid, failed["test"]))
        with open(path, "w") as f:
            json.dump(dict(property=pid, test=failed["test"], case=failed["case"], message=failed["msg"], seed=seed, tier=tier,
                           how="./check %s --replay %s" % (pid, path)), f, indent=1, default=repr)
        print("test:", failed["test"])
        print("case:", json.dumps(failed["case"], default=repr)[:2000])
        print(failed["msg"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("HARNESS ERROR in %s: %s\ncase: %r" % (failed["test"], failed["msg"], failed["case"]))
    return 2

def kill(p):
    try: os.killpg(p, signal.SIGKILL)
    except (ProcessLookupError, PermissionError): pass

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
