"""C23: native enumerators, run as programs built from the current tree.  Oracle: an independent tree-normal-form expansion
driven by literal execution; every output line is checked to be true and the set of lines to be exactly the closure."""
import os, re, gzip, subprocess, sys, shutil, stat, functools
from collections import Counter
from hypothesis import strategies as st
import core, ref, gen, recs, cpp, recur
from core import Test, Violation, Rejected

PROPERTY = "C23"
RULE = "enumeration with at least 20 machines of at least two classes, or a staged run whose second stage continued at least two machines"
ASSUMPTIONS = ["at least 2 states and 2 symbols; start machines leave open cells undefined (no explicit halt transitions), as the tools write them",
    "a machine listed as unknown must not halt within the step limit, nor have a recurrence whose start and period are below a quarter of it",
    "half of the cases run a build with address and undefined-behaviour sanitizers, whose reports are violations",
    "the shell drivers run with a stand-in for rm that refuses paths outside the scratch folder"]
BUDGET = dict(quick=240, thorough=900)
def setup(scratch, tier): return cpp.build(scratch, ["lr_enum", "lr_enum_continue", "lb_enum", "lb_enum_continue"])

# ---------------------------------------------------------------- reference expansion
UNDEF = (1, 1, -1, True)
def children(tm, s, k):
    """all normal-form fillings of the open cell (s, k)"""
    rows = ref.parse(tm); ns, nk = len(rows), len(rows[0])
    d = [t for r in rows for t in r if not t[3]]
    ms = min(ns - 1, max([0] + [t[2] for t in d]) + 1); mk = min(nk - 1, max([0] + [t[0] for t in d]) + 1)
    out = []
    for n in range(ms + 1):
        for w in range(mk + 1):
            for v in ((1, -1) if d else (1,)):
                rows[s][k] = (w, v, n, False); out.append(ref.show(rows))
    return out
def undefined(tm): return tm.count("---")
@functools.lru_cache(60000)
def run(tm, n):
    r = ref.run(tm, n); return (r.steps, r.from_state, r.from_sym) if r.halted else None

def closure(roots, out, allow, limit):
    """out: Counter of machine -> (class, data).  Checks that it is exactly the closure of the roots."""
    todo, seen = list(roots), Counter()
    while todo:
        t = todo.pop(); seen[t] += 1
        if t not in out: raise Violation("machine %s is missing from the output" % t)
        cls, data = out[t]
        if cls == "Halt":
            steps, s, k = run(t, data + 1)
            if allow or undefined(t) > 1: todo += children(t, s, k)
    for t in out:
        if t not in seen: raise Violation("machine %s (%s) does not belong to this enumeration" % (t, out[t][0]))
    return seen

def parse_lr(halt, inf, unk, limit, deep):
    """checks that every line is true; returns machine -> class and the multiset"""
    out, cnt = {}, Counter()
    for line in halt:
        m = re.fullmatch(r"(\S+) \| Halt (\d+)", line)
        if not m: raise Violation("line %r in the halting list" % line)
        t, n = m.group(1), int(m.group(2)); r = run(t, n)
        if not r or r[0] != n: raise Violation("%s listed as halting at step %d, true %r" % (t, n, r))
        out[t] = ("Halt", n); cnt[t] += 1
    for line in inf:
        m = re.fullmatch(r"(\S+) \| Lin_Recur (\d+) (-?\d+) <(\d+)", line)
        if not m: raise Violation("line %r in the infinite list" % line)
        t = m.group(1); recur_ok(t, int(m.group(4)), int(m.group(2)), int(m.group(3)))
        out[t] = ("Inf", int(m.group(2))); cnt[t] += 1
    for line in unk:
        if not re.fullmatch(r"\S+", line): raise Violation("line %r in the unknown list" % line)
        r = run(line, limit)
        if r: raise Violation("%s listed as unknown with a limit of %d steps, but it halts at step %d" % (line, limit, r[0]))
        if deep:
            t = recur_true(line)
            if t and 4 * max(t[0], t[1], 1) < limit: raise Violation("%s listed as unknown with a limit of %d, but it recurs (start, period, offset) = %r" % (line, limit, t))
        out[line] = ("Unknown", None); cnt[line] += 1
    d = [t for t in cnt if cnt[t] > 1]
    return out, cnt
@functools.lru_cache(20000)
def recur_true(t): return recur.true_recurrence(t, 600)
@functools.lru_cache(20000)
def recur_ok(t, s, p, off): recur.check_claim(t, s, p, off)

def lines(p, gz):
    p = str(p) + (".gz" if gz else "")
    if gz: return gzip.open(p, "rt").read().splitlines()
    return open(p).read().splitlines()
STAT = re.compile(r"^Final (\S*) ?: Total: (\d+)  Halt: (\d+)  Infinite: (\d+)  Unknown: (\d+)  Max Period: (\d+) : (\S*)", re.M)
def lr(prog, head, d, tag, tail, c, limit):
    fs = [d / (tag + x) for x in ("halt", "inf", "unk")]
    o = cpp.run(c["san"], prog, *head, *fs, *tail, str(c["allow"]).lower(), *(["true" if c["gz"] else "false"] + ([str(c["only"]).lower()] if c["only"] is not None else []) if c["gz"] or c["only"] is not None else []))
    h, i, u = (lines(f, c["gz"]) for f in fs)
    return o, h, i, u
def check_stats(o, h, i, u, only, total=None):
    m = STAT.search(o)
    if not m: raise Violation("no final statistics: %r" % o[-300:])
    t, nh, ni, nu, mp = map(int, m.groups()[1:6])
    if nu != len(u) or t != nh + ni + nu: raise Violation("statistics %r with %d unknown machines" % (m.groups(), len(u)))
    if only:
        if h or i: raise Violation("only unknown machines were asked for, but others were written: %r" % (h + i)[:3])
    else:
        if (nh, ni) != (len(h), len(i)): raise Violation("statistics %r with %d halting and %d infinite machines" % (m.groups(), len(h), len(i)))
        per = max([int(x.split(" | Lin_Recur ")[1].split()[0]) for x in i] + [0])
        if per != mp: raise Violation("largest period reported %d, in the list %d" % (mp, per))
    return t, nh, ni, nu, mp, m.group(7)

def opts(): return dict(allow=st.booleans(), gz=st.sampled_from([False, False, False, True]), only=st.sampled_from([None, None, False, True]), san=st.booleans())

# ---------------------------------------------------------------- subtree below given partial machines
@st.composite
def partial(draw):
    size = draw(st.sampled_from([(2, 2), (3, 2), (4, 2), (5, 2), (2, 3), (3, 3), (2, 4), (2, 5), (6, 2), (9, 2), (2, 9)]))
    rows = ref.parse(draw(st.one_of(gen.walk_tm(st.just(size)), gen.table_tm(st.just(size), p_halt=0, p_undef=0))))
    cells = [(s, k) for s in range(size[0]) for k in range(size[1])]
    rows = [[UNDEF if t[2] < 0 else t for t in r] for r in rows]
    most = 3 if size[0] * size[1] <= 8 else 2
    keep = draw(st.permutations(cells))
    und = [c for c in keep if rows[c[0]][c[1]][3]]
    for s, k in und[most:]:
        rows[s][k] = (draw(st.integers(0, size[1] - 1)), draw(st.sampled_from([1, -1])), draw(st.integers(0, size[0] - 1)), False)
    und = und[:most]
    more = draw(st.integers(0, most)) - len(und)
    for s, k in [c for c in keep if c not in und][:max(0, more)]: rows[s][k] = UNDEF
    return ref.show(rows)
def subtree_cases(): return st.fixed_dictionaries(dict(opts(), roots=st.lists(partial(), min_size=1, max_size=3), limit=st.one_of(st.integers(1, 40), st.integers(20, 300)), nl=st.booleans()))
def subtree(c, ctx):
    d = recs.fresh(ctx); p = d / "in.txt"
    c = dict(c); 
    if c["allow"] and sum(undefined(t) > 2 for t in c["roots"]): c["allow"] = False
    if len({(t.count("_"), len(t)) for t in c["roots"]}) > 1: pass    # a file may mix sizes
    p.write_text("\n".join(c["roots"]) + ("\n" if c["nl"] else ""))
    o, h, i, u = lr("lr_enum_continue", [p, c["limit"]], d, "o_", ["7"], c, c["limit"])
    t, nh, ni, nu, mp, mtm = check_stats(o, h, i, u, c["only"])
    if c["only"]:
        # compare with a full run
        c2 = dict(c, only=None, gz=False); o2, h2, i2, u2 = lr("lr_enum_continue", [p, c["limit"]], d, "f_", ["7"], c2, c["limit"])
        s2 = check_stats(o2, h2, i2, u2, None)
        if (t, nh, ni, nu) != s2[:4] or u != u2: raise Violation("with only_unknown the result differs: %r / %r" % ((t, nh, ni, nu), s2))
        if mp != s2[4]: raise Violation("largest period with only_unknown %d, without %d" % (mp, s2[4]))
        h, i = h2, i2
    if ni and mtm and mtm not in [x.split()[0] for x in i]: raise Violation("machine with the largest period %s is not in the list" % mtm)
    out, cnt = parse_lr(h, i, u, c["limit"], True)
    seen = closure(c["roots"], out, c["allow"], c["limit"])
    if seen != cnt: raise Violation("machines listed %r times, expected %r" % (*[[(t, n) for t, n in (x - y).items()][:3] for x, y in ((cnt, seen), (seen, cnt))],))
    if len(cnt) >= 20 and len({x[0] for x in out.values()}) > 1: ctx.nontrivial()

# ---------------------------------------------------------------- whole enumerations, stopped and continued
SMALL = [(2, 2), (2, 2), (3, 2), (2, 3)]
def staged_cases(): return st.fixed_dictionaries(dict(opts(), size=st.sampled_from(SMALL), first=st.integers(1, 30), limit=st.integers(1, 250), parts=st.integers(1, 4), mid=st.one_of(st.none(), st.integers(1, 80)), seed=st.integers(0, 999)))
def staged(c, ctx):
    import random
    d = recs.fresh(ctx); ns, nk = c["size"]
    c = dict(c, only=None)
    o, h, i, u = lr("lr_enum", [ns, nk, c["limit"]], d, "w_", [], c, c["limit"])
    check_stats(o, h, i, u, False)
    root = ref.parse("_".join(["---" * nk] * ns)); root[0][0] = (1, 1, 1, False)
    out, cnt = parse_lr(h, i, u, c["limit"], True)
    seen = closure([ref.show(root)], out, c["allow"], c["limit"])
    if seen != cnt: raise Violation("some machine listed more than once: %r" % (cnt - seen))
    # the same in stages
    stages = [min(x, c["limit"]) for x in (c["first"], c["mid"], c["limit"]) if x is not None]
    c0 = dict(c, gz=False)
    o, H, I, U = lr("lr_enum", [ns, nk, stages[0]], d, "s0_", [], c0, stages[0])
    rng = random.Random(c["seed"]); moved = 0
    for j, lim in enumerate(stages[1:]):
        rng.shuffle(U); moved = max(moved, len(U)); nu = []
        for q in range(c["parts"]):
            part = U[q::c["parts"]]; p = d / ("in%d_%d" % (j, q)); p.write_text("".join(x + "\n" for x in part))
            cc = c if j == len(stages) - 2 else c0
            o, h2, i2, u2 = lr("lr_enum_continue", [p, lim], d, "s%d_%d_" % (j + 1, q), [q], cc, lim)
            check_stats(o, h2, i2, u2, False); H += h2; I += i2; nu += u2
        U = nu
    for name, a, b in (("halting", h, H), ("infinite", i, I), ("unknown", u, U)):
        if name == "infinite":   # the start bound and the reference configuration may depend on the stages
            a, b = [x.split(" <")[0] for x in a], [x.split(" <")[0] for x in b]
            a, b = [" ".join(x.split()[:4]) for x in a], [" ".join(x.split()[:4]) for x in b]
        if Counter(a) != Counter(b): raise Violation("%s machines differ between one run and stages %r: only in one run %r, only in stages %r" % (name, stages, list((Counter(a) - Counter(b)))[:3], list((Counter(b) - Counter(a)))[:3]))
    if moved > 1 and len(cnt) >= 20: ctx.nontrivial()

# ---------------------------------------------------------------- lazy beaver
BOUND = 260
@functools.lru_cache(None)
def lb_tree(ns, nk):
    """node -> halting step within BOUND or None; children"""
    t0 = "_".join(["---" * nk] * ns); nodes = {}; todo = [t0]
    while todo:
        t = todo.pop(); r = ref.run(t, BOUND)
        kids = []
        if r.halted and undefined(t) > 1: kids = children(t, r.from_state, r.from_sym)
        nodes[t] = (r.steps if r.halted else None, kids); todo += kids
    return t0, nodes
@functools.lru_cache(200)
def lb_expect(ns, nk, limit):
    t0, nodes = lb_tree(ns, nk); steps, non, halted, total = set(), [], 0, 0; todo = [t0]
    while todo:
        t = todo.pop(); n, kids = nodes[t]; total += 1
        if n is not None and n <= limit: steps.add(n); halted += 1; todo += kids
        else: non.append(t)
    return steps, Counter(non), halted, total
def witness(p, limit):
    got = {}
    for line in open(p).read().splitlines():
        m = re.fullmatch(r"(\d+)\t(\S+)", line)
        if not m: raise Violation("witness line %r" % line)
        n, t = int(m.group(1)), m.group(2)
        if n in got: raise Violation("step count %d has two witnesses" % n)
        r = run(t, n)
        if not r or r[0] != n: raise Violation("witness %s for %d steps: true %r" % (t, n, r))
        got[n] = t
    return got
def lb_cases(): return st.fixed_dictionaries(dict(size=st.sampled_from(SMALL), limit=st.one_of(st.integers(1, 60), st.integers(1, 250)), first=st.integers(1, 12), parts=st.integers(1, 4), san=st.booleans(), nonhalt=st.booleans(), seed=st.integers(0, 999)))
def lazy(c, ctx):
    import random
    d = recs.fresh(ctx); ns, nk = c["size"]; lim = c["limit"]
    o = cpp.run(c["san"], "lb_enum", ns, nk, lim, d / "wit", *([d / "non"] if c["nonhalt"] else []))
    steps, non, halted, total = lb_expect(ns, nk, lim)
    got = witness(d / "wit", lim)
    if set(got) != steps: raise Violation("step counts found differ from the true ones: missing %r, extra %r" % (sorted(steps - set(got))[:5], sorted(set(got) - steps)[:5]))
    m = re.findall(r"# TMs (simulated|halted) = (\d+)", o)
    if dict(m) != dict(simulated=str(total), halted=str(halted)): raise Violation("statistics %r, true %d simulated, %d halted" % (m, total, halted))
    if c["nonhalt"]:
        n = Counter((d / "non").read_text().splitlines())
        if n != non: raise Violation("machines left over differ: missing %r, extra %r" % (list((non - n))[:3], list((n - non))[:3]))
    true_lb = next(k for k in range(1, BOUND + 1) if k not in lb_expect(ns, nk, BOUND)[0])
    m = re.search(r"LB\((\d+), (\d+)\) = (\d+)", o)
    if m:
        if tuple(map(int, m.groups())) != (ns, nk, true_lb): raise Violation("printed LB(%s, %s) = %s, true value %d" % (*m.groups(), true_lb))
    elif "nconclusive" not in o: raise Violation("neither a result nor 'inconclusive': %r" % o[-200:])
    elif true_lb < lim: raise Violation("inconclusive with a limit of %d, though LB = %d" % (lim, true_lb))
    # stopped at `first` and continued in parts
    f = min(c["first"], lim)
    cpp.run(c["san"], "lb_enum", ns, nk, f, d / "wit0", d / "non0")
    rest = (d / "non0").read_text().splitlines(); random.Random(c["seed"]).shuffle(rest)
    all_ = set(witness(d / "wit0", f)); files = [str(d / "wit0")]; sim = 0
    for q in range(c["parts"]):
        part = rest[q::c["parts"]]; (d / ("p%d" % q)).write_text("".join(x + "\n" for x in part))
        o = cpp.run(c["san"], "lb_enum_continue", d / ("p%d" % q), lim, d / ("w%d" % q), q)
        all_ |= set(witness(d / ("w%d" % q), lim)); files.append(str(d / ("w%d" % q)))
        sim += int(re.search(r"# TMs simulated = (\d+)", o).group(1))
    if all_ != steps: raise Violation("stopped after %d steps and continued to %d: step counts differ: missing %r, extra %r" % (f, lim, sorted(steps - all_)[:5], sorted(all_ - steps)[:5]))
    want = total - (lb_expect(ns, nk, f)[3] - len(rest))
    if sim != want: raise Violation("stopped after %d steps and continued to %d: %d machines simulated in the second part, expected %d" % (f, lim, sim, want))
    if len(steps) > 1: merge(files, c["seed"] % 7, steps)
    if len(rest) > 1 and len(steps) > 5: ctx.nontrivial()

def merge(files, n, steps):
    p = subprocess.run([sys.executable, os.path.join(core.REPO, "cpp", "scripts", "merge_steps_examples.py"), "-n", str(n)] + files, capture_output=True, text=True)
    if p.returncode: raise Violation("merging failed: %s" % p.stderr[-800:])
    got = [x.split("\t") for x in p.stdout.splitlines()]
    if [int(x[0]) for x in got] != sorted(steps): raise Violation("merged list has steps %r, expected %r" % ([x[0] for x in got][:20], sorted(steps)[:20]))
    for k, t in got:
        r = run(t, int(k))
        if not r or r[0] != int(k): raise Violation("merged witness %s for %s steps: true %r" % (t, k, r))
    holes = [k for k in range(min(steps), max(steps)) if k not in steps]
    m = re.search(r"Min un-attained steps:([ \d]*)", p.stderr); t = re.search(r"Total un-attained steps: (\d+)", p.stderr)
    if not m or [int(x) for x in m.group(1).split()] != holes[:n]: raise Violation("smallest steps not reached: %r, true %r" % (m and m.group(1), holes[:n]))
    if not t or int(t.group(1)) != len(holes): raise Violation("number of steps not reached: %r, true %d" % (t and t.group(1), len(holes)))

# ---------------------------------------------------------------- any halting machine has a listed step count
def cover_cases(): return st.sampled_from([(2, 2), (3, 2), (2, 3)]).flatmap(lambda s: st.fixed_dictionaries(dict(tms=st.lists(st.one_of(gen.table_tm(st.just(s)), gen.walk_tm(st.just(s))), min_size=20, max_size=60))))
_lb = {}
def cover(c, ctx):
    t = c["tms"][0]; size = (t.count("_") + 1, len(t.split("_")[0]) // 3)
    if size not in _lb:
        d = recs.fresh(ctx); cpp.run(False, "lb_enum", *size, 200, d / "w"); _lb[size] = set(witness(d / "w", 200))
    k = 0
    for t in c["tms"]:
        r = ref.run(t, 200)
        if r.halted:
            k += r.steps > 3
            if r.steps not in _lb[size]: raise Violation("%s halts after %d steps, which the enumeration says no machine of that size does" % (t, r.steps))
    if k: ctx.nontrivial()

# ---------------------------------------------------------------- the shell drivers
def script_cases(tier, rng):
    out = []
    for k in range(8 if tier == "quick" else 80):
        ns, nk = rng.choice(SMALL)
        out.append(dict(kind="lb" if k % 3 == 2 else "lr", size=[ns, nk], first=rng.randint(1, 9), limit=rng.randint(10, 120), parts=rng.randint(1, 3), allow=rng.random() < 0.5, gz=k % 4 == 1, only=k % 5 == 3, null=k % 6 == 4))
    return out
def script(c, ctx):
    d = recs.fresh(ctx); (d / "bin").mkdir()
    (d / "bin" / "rm").write_text('#!/bin/bash\nfor a in "$@"; do case "$a" in -*) ;; *) r=$(realpath -m "$a"); case "$r" in %s/*) ;; *) echo "refused: $a" >&2; exit 9;; esac;; esac; done\nexec /bin/rm "$@"\n' % d)
    (d / "bin" / "rm").chmod(0o755)
    w = d / "work"; w.mkdir(); shutil.copytree(os.path.join(core.REPO, "cpp", "scripts"), w / "scripts")
    for e in ("lr_enum", "lr_enum_continue", "lb_enum", "lb_enum_continue"): os.symlink(os.path.join(os.environ["VERIF_CPP"], "cpp_plain", e), w / e)
    if c["null"]: c = dict(c, gz=False)      # compressed, that driver would write next to /dev/null
    ns, nk = c["size"]; env = dict(os.environ, PATH="%s:%s" % (d / "bin", os.environ["PATH"])); tf = lambda b: "true" if b else "false"
    if c["kind"] == "lb": cmd = ["scripts/lb_enum_local_parallel.sh", ns, nk, c["first"], c["limit"], c["parts"]]
    elif c["null"]: cmd = ["scripts/lr_enum_local_parallel_dev_null.sh", ns, nk, tf(c["allow"]), c["first"], c["limit"], c["parts"]]
    else: cmd = ["scripts/lr_enum_local_parallel.sh", ns, nk, tf(c["allow"]), c["first"], c["limit"], c["parts"], tf(c["gz"]), tf(c["only"])]
    p = subprocess.run(["bash"] + [str(x) for x in cmd], cwd=w, env=env, capture_output=True, text=True, timeout=600)
    if p.returncode: raise Violation("%r: exit %d: %s" % (cmd, p.returncode, p.stderr[-600:]))
    if c["kind"] == "lb":
        steps = lb_expect(ns, nk, c["limit"])[0]
        base = w / "data" / "lazy_beaver" / ("%dx%d" % (ns, nk)) / str(c["first"])
        got = {int(x.split("\t")[0]) for x in (base / "steps_final").read_text().splitlines()}
        if c["first"] < c["limit"] and got != steps: raise Violation("%r: step counts differ: missing %r, extra %r" % (cmd, sorted(steps - got)[:5], sorted(got - steps)[:5]))
    else:
        base = w / "data" / "lin_recur" / ("%dx%d" % (ns, nk)) / str(c["limit"]) / str(c["parts"])
        o = cpp.run(False, "lr_enum", ns, nk, c["limit"], d / "h", d / "i", d / "u", tf(c["allow"]))
        names = [("unknown", "u")] + ([] if c["only"] or c["null"] else [("halt", "h"), ("inf", "i")])
        for n, f in names:
            cut = lambda x: x.split(" <")[0] if n == "inf" else x
            got = Counter(cut(x) for x in lines(base / (n + "_final.txt"), c["gz"])); want = Counter(cut(x) for x in (d / f).read_text().splitlines())
            if n == "inf": got, want = (Counter(" ".join(x.split()[:4]) for x in y.elements()) for y in (got, want))
            if got != want: raise Violation("%r: %s list differs: missing %r, extra %r" % (cmd, n, list(want - got)[:3], list(got - want)[:3]))
    ctx.nontrivial()

TESTS = [Test("subtree", subtree, strategy=subtree_cases, quick=1600, thorough=30000),
    Test("staged", staged, strategy=staged_cases, quick=160, thorough=3000),
    Test("lazy", lazy, strategy=lb_cases, quick=160, thorough=3000),
    Test("cover", cover, strategy=cover_cases, quick=2400, thorough=40000),
    Test("script", script, cases=script_cases)]
