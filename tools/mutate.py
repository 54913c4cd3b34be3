"""Development aid: automatic small mutations of the repository; those that pass the repository's tests are given to the checks.
usage: mutate.py OUT.jsonl WORKERS N_PER_FILE SEED FILE:CHECKS ...      (FILE relative to the repository, CHECKS = C01+C02)
Works on copies under /tmp/mut; nothing registered in MANIFEST.json uses this."""
import ast, json, os, random, shutil, subprocess, sys, threading, queue
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
SW = {"<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="]}
def mutants(src):
    tree = ast.parse(src); lines = src.split("\n")
    off = [0]
    bl = [l.encode() for l in lines]
    for l in bl: off.append(off[-1] + len(l) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []
    def add(n, new, what): out.append((pos(n), new, "%d: %s -> %s" % (n.lineno, " ".join(seg(n).split())[:90], " ".join(new.split())[:90])))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__": skip |= set(ast.walk(n))
        if isinstance(n, ast.FunctionDef) and n.name in ("main", "__repr__", "print_self", "verbose_print", "print_this"): skip |= set(ast.walk(n))
        if isinstance(n, (ast.arg, ast.AnnAssign)) and n.annotation is not None: skip |= set(ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns is not None: skip |= set(ast.walk(n.returns))
        if isinstance(n, ast.JoinedStr): skip |= set(ast.walk(n))
        if isinstance(n, ast.Assert): skip |= set(ast.walk(n))
        if isinstance(n, ast.Raise): skip |= set(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            o = CMP[type(n.ops[0])]
            for w in SW[o]: add(n, "%s %s %s" % (seg(n.left), w, seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant) | isinstance(n.right, ast.Constant) and isinstance(getattr(n.right, "value", None), str):
            add(n, "%s %s %s" % (seg(n.left), "-" if isinstance(n.op, ast.Add) else "+", seg(n.right)), "arith")
        elif isinstance(n, ast.BoolOp):
            add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % seg(v) for v in n.values) + ")", "bool")
            for i in range(len(n.values)): add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % seg(v) for j, v in enumerate(n.values) if j != i) + ")", "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): add(n, "(%s)" % seg(n.operand), "not")
        elif isinstance(n, ast.Constant) and type(n.value) is int: add(n, str(n.value + 1), "const"); (n.value > 0) and add(n, str(n.value - 1), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool: add(n, str(not n.value), "const")
        elif isinstance(n, ast.If): add(n.test, "not (%s)" % seg(n.test), "if"); add(n.test, "False", "if"); add(n.test, "True", "if")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not seg(n).startswith("print"): add(n, "pass", "del")
        elif isinstance(n, (ast.AugAssign,)) : add(n, "pass", "del")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)): add(n, "pass", "del")
        elif isinstance(n, ast.Continue): add(n, "break", "flow")
        elif isinstance(n, ast.Break): add(n, "continue", "flow")
    res = []
    for (s, e), new, w in out:
        t = (b[:s] + new.encode() + b[e:]).decode()
        try: ast.parse(t)
        except SyntaxError: continue
        res.append((w, t))
    return res
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
def tests(w):
    bad = set()
    procs = []
    for f in sorted(os.listdir(w + "/Code")):
        if f.startswith("test_") and f.endswith(".py") and "MPI" not in f:
            procs.append((f, subprocess.Popen(("exec 9>/tmp/.vptest; flock 9; " if "Enumerate" in f else "") + "ulimit -v 8000000; cd %s/Code && PYTHONPATH=%s/Code:/opt/vp/plugins timeout 200 /opt/venv/bin/python -m pytest -q --rootdir=%s -p no:cacheprovider -p vp_argv -p pytest_timeout --timeout=60 %s 2>&1 | grep -E '^(FAILED|ERROR)|rror'" % (w, w, w, f), shell=True, stdout=subprocess.PIPE, text=True, env=ENV)))
    for f, p in procs:
        for l in p.communicate()[0].splitlines():
            if l.startswith(("FAILED", "ERROR")): bad.add(" ".join(l.split()[:2]))
            elif "rror" in l and "no tests" not in l: bad.add(f + " error")
    return bad
def main():
    out, workers, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    q = queue.Queue(); n = 0
    for a in sys.argv[5:]:
        f, cs = a.split(":"); src = open("/repo/" + f).read(); ms = mutants(src); rng = random.Random("%d %s" % (seed, f)); rng.shuffle(ms)
        for w, t in ms[:per]: q.put((f, cs.split("+"), w, t)); n += 1
    print(n, "mutants"); lock = threading.Lock(); fo = open(out, "a")
    def run(j):
        w = "/tmp/mut/w%d" % j; shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/mut", exist_ok=True); shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git", "build")); v = "/tmp/mut/v%d" % j
        shutil.rmtree(v, ignore_errors=True); shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence")); os.makedirs(v + "/evidence")
        base = tests(w)
        while True:
            try: f, cs, what, t = q.get_nowait()
            except queue.Empty: break
            orig = open("/repo/" + f).read(); open(w + "/" + f, "w").write(t)
            r = dict(file=f, what=what)
            try:
                if tests(w) - base: r["result"] = "tests"
                else:
                    r["result"] = "SURVIVED"; r["rc"] = {}
                    for c in cs:
                        p = subprocess.run(["./check", c], cwd=v, env=dict(os.environ, VERIF_REPO=w, VERIF_JOBS=str(max(1, 8 // workers)), VERIF_TIER="quick", VERIF_SEED="1"), capture_output=True, text=True)
                        r["rc"][c] = p.returncode
                        if p.returncode == 1: r["result"] = "caught " + c; break
                        if p.returncode: r["result"] = "harness " + c; r["out"] = (p.stdout + p.stderr)[-600:]
            finally: open(w + "/" + f, "w").write(orig)
            with lock: fo.write(json.dumps(r) + "\n"); fo.flush()
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(v, ignore_errors=True)
    ts = [threading.Thread(target=run, args=(j,)) for j in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
