"""C27: the Rust rule validator.  Rules it accepts are run on concrete tapes; correct proofs must be accepted."""
import json, os, random, copy
from hypothesis import strategies as st
import core, rustdrv, rcfg
from core import Test, Violation, Rejected
from rustdrv import enc_subst, tup, val, ask, Panic, free

PROPERTY = "C27"
RULE = "an accepted rule that was run for at least two assignments of its variables with at least one machine step, or a rejected mutant of a correct rule"
ASSUMPTIONS = ["an accepted rule is tried for small values of its variables (0..3), within 40000 machine steps, in random surroundings; the number of steps to run is the one its proof stands for",
    "configurations have an infinite block only at the far end; proofs with an admitted step make no claim, nor do rules that use them",
    "the proofs that must be accepted are: runs of a fixed number of steps on one-symbol blocks, chains proved by applying the induction hypothesis first, their use with other counts, and the complete proofs of the repository's own test suite (also after renaming variables)"]
BUDGET = dict(quick=240, thorough=600)
def setup(scratch, tier): return rustdrv.build(scratch)
PROOFS = json.load(open(os.path.join(core.VERIF, "data", "rust_proofs.json")))

# ---------------------------------------------------------------- talking to the validator
def enc_steps(steps):
    out = []
    for s in steps:
        if s[0] == "T": out.append("T%d" % s[1])
        elif s[0] == "A": out.append("A")
        elif s[0] == "H": out.append("H" + enc_subst({k: tup(e) for k, e in s[1].items()}))
        else: out.append("R%d:%s" % (s[1], enc_subst({k: tup(e) for k, e in s[2].items()})))
    return "\x1f".join(out)
def enc_rule(r): return "\x1e".join([rcfg.text(r["init"]), rcfg.text(r["final"]), r["kind"], enc_steps(r["base"]), enc_steps(r["ind"])])
def accepted(tm, rules):
    try: r = ask("rules", tm, "\x1d".join(map(enc_rule, rules)))
    except Panic as ex: raise Violation("panic: %s" % ex)
    except ValueError as ex: raise Violation("refused: %s" % ex)
    return r[0] == "accepted", r
def show(tm, r):
    return "%s: %s --> %s (%s %s %s)" % (tm, rcfg.text(r["init"]), rcfg.text(r["final"]), r["kind"], json.dumps(r["base"]), json.dumps(r["ind"]))

# ---------------------------------------------------------------- what an accepted rule claims
CAP = 40000
class Count:
    def __init__(s, rules): s.rules, s.memo, s.calls = rules, {}, 0
    def count(s, i, env):
        r = s.rules[i]; key = (i, tuple(sorted(env.items())))
        if key in s.memo:
            if s.memo[key] is None: raise Circular()
            return s.memo[key]
        s.calls += 1
        if s.calls > 20000: raise Rejected()
        s.memo[key] = None
        if r["kind"] == "S": steps, e = r["base"], env
        elif env["n"] == 0: steps, e = r["base"], env
        else: steps, e = r["ind"], dict(env, n=env["n"] - 1)
        t = 0
        for st_ in steps:
            if st_[0] == "T": t += st_[1]
            elif st_[0] == "A": raise Rejected()
            else:
                j, sub = (i, st_[1]) if st_[0] == "H" else (st_[1], st_[2])
                if j >= len(s.rules): raise Circular()
                t += s.count(j, dict(env0, **dict(e, **{k: val(tup(x), dict(env0, **e)) for k, x in sub.items()})))
            if t > CAP: raise Rejected()
        s.memo[key] = t
        return t
class Circular(Exception): pass
ALL = "nabcdefghijklmopqrstuvwxyz"
env0 = dict.fromkeys(ALL, 0)
def cvars(r):
    v = set()
    for c in (r["init"], r["final"]):
        for h in ("left", "right"):
            for w, e in c[h]: v |= free(tup(e))
    return v | ({"n"} if r["kind"] == "I" else set())
def admits(rules):
    bad = set()
    for i, r in enumerate(rules):
        if any(s[0] == "A" or s[0] == "R" and s[1] in bad for s in r["base"] + r["ind"]): bad.add(i)
    return bad
def true_rule(tm, rules, i, rng, ctx, tries=6):
    """run rule i for several assignments; returns (assignments tried, steps made)"""
    r = rules[i]; tab = rcfg.table(tm); vs = sorted(cvars(r)); n = steps = 0; nsym = len(tab[0])
    todo = [{v: 0 for v in vs}, {v: 1 for v in vs}] + [{v: rng.randint(0, 3) for v in vs} for _ in range(tries if vs else 0)]
    if not vs: todo = todo[:1]
    for env in todo:
        env = dict(env0, **env)
        try:
            x = rcfg.conc(r["init"], env); y = rcfg.conc(r["final"], env)
            try: k = Count(rules).count(i, env)
            except (Circular, RecursionError): raise Violation("accepted with a proof that uses itself: " + show(tm, r))
        except Rejected: continue
        for h in (0, 1):
            if x.t[h] is None:
                add = [rng.randrange(nsym) for _ in range(rng.randint(0, 3))]
                x.h[h] = add + x.h[h]; x.t[h] = [0]
                if y.t[h] is None: y.h[h] = add + y.h[h]; y.t[h] = [0]
                else: raise Violation("accepted, but turns a finite half tape into an infinite one: " + show(tm, r))
        start = rcfg.sh(x)
        got = rcfg.run(tab, x, k)
        short = {v: env[v] for v in vs}
        if got < k: raise Violation("accepted, but after %d steps from %s it cannot go on (%s): %s" % (got, start, short, show(tm, r)))
        if not rcfg.same(x, y): raise Violation("accepted, but %d steps from %s give %s, not %s (%s): %s" % (k, start, rcfg.sh(x), rcfg.sh(y), short, show(tm, r)))
        n += 1; steps += k; ctx.evals += 1
    return n, steps

def judge(tm, rules, i, rng, ctx, must=None, key=None):
    """rules[:i+1]; rule i checked if accepted"""
    ok, r = accepted(tm, rules[:i + 1])
    if must and not ok: raise Violation("a correct proof is rejected (%s): %s" % (r[1], show(tm, rules[i])))
    ctx.label("accepted" if ok else "rejected")
    if ok:
        bad = admits(rules[:i + 1])
        if i in bad: ctx.label("admitted"); return
        n, steps = true_rule(tm, rules[:i + 1], i, rng, ctx)
        if n >= 2 and steps or n and not cvars(rules[i]) and steps: ctx.nontrivial(key or show(tm, rules[i]))
        elif not n: ctx.label("too-long")
    else: ctx.nontrivial(key or show(tm, rules[i]))

# ---------------------------------------------------------------- the repository's own proofs, and mutants of them
def own(case, ctx):
    k, i, seed = case
    p = PROOFS[k]
    judge(p["tm"], p["rules"], i, random.Random(seed), ctx, must=True)
def own_cases(tier, rng): return [[k, i, rng.randrange(10 ** 6)] for k, p in enumerate(PROOFS) for i in range(len(p["rules"]))]

def exprs_of(r):
    """all (container, key) places that hold a count"""
    out = []
    for c in (r["init"], r["final"]):
        for h in ("left", "right"):
            for b in c[h]: out.append((b, 1))
    for st_ in r["base"] + r["ind"]:
        if st_[0] in "HR":
            d = st_[-1]
            for k in sorted(d): out.append((d, k))
    return out
def mut_expr(e, rng, vs):
    if e == "inf": return rng.choice(["inf", ["V", {}, 5]])
    if e[0] == "R" and rng.random() < .8:
        e = list(e); j = rng.randint(1, 4)
        e[j] = rng.choice(vs) if j == 1 else mut_expr(e[j], rng, vs)
        return e
    if e[0] == "R": return e[4]
    d = dict(e[1]); c = e[2]; x = rng.random()
    if x < .5: c = max(0, c + rng.choice([-1, 1]))
    elif x < .7: v = rng.choice(vs); d[v] = d.get(v, 0) + 1
    elif x < .85 and d: v = rng.choice(sorted(d)); d[v] -= 1; d = {q: k for q, k in d.items() if k}
    elif d: v, w = rng.choice(sorted(d)), rng.choice(vs); d[w] = d.get(w, 0) + d.pop(v)
    return ["V", d, c]
def mutate(rules, i, rng, tm):
    r = rules[i]; syms = "0123456789"[:len(tm.split("_")[0]) // 3]; states = [chr(65 + q) for q in range(len(tm.split("_")))] + ["Z"]
    vs = sorted(cvars(r) | {"n", "a"})
    x = rng.choice(["expr", "expr", "expr", "both", "steps", "tcount", "hyp", "ruleid", "kind", "nobase", "symbol", "head", "block", "hypbase", "swapvars"])
    steps = [s for s in r["base"] + r["ind"]]
    if x == "expr" or x == "both":
        p = exprs_of(r)
        for _ in range(2 if x == "both" else 1):
            if p: c, k = rng.choice(p); c[k] = mut_expr(c[k], rng, vs)
    elif x == "steps":
        p = rng.choice([r["base"], r["ind"]])
        if p:
            j = rng.randrange(len(p)); y = rng.random()
            if y < .4: p.pop(j)
            elif y < .7: p.insert(j, copy.deepcopy(p[j]))
            else: q = rng.randrange(len(p)); p[j], p[q] = p[q], p[j]
    elif x == "tcount":
        t = [s for s in steps if s[0] == "T"]
        if t: s = rng.choice(t); s[1] = max(0, s[1] + rng.choice([-2, -1, 1, 2]))
    elif x == "hyp":
        t = [s for s in steps if s[0] == "H"]
        if t:
            s = rng.choice(t); y = rng.random()
            if y < .4: s[1]["n"] = ["V", {"n": 1}, 1]
            elif y < .6: s[1].pop("n", None)
            elif y < .8: s[1]["n"] = ["V", {rng.choice(vs): 1}, 0]
            else: v = rng.choice(vs); s[1][v] = mut_expr(s[1].get(v, ["V", {v: 1}, 0]), rng, vs)
    elif x == "ruleid":
        t = [s for s in steps if s[0] in "RH"]
        if t:
            s = rng.choice(t); d = s[-1]; s[:] = ["R", rng.choice([i, i, i + 1, max(0, i - 1), rng.randint(0, i)]), d]
        else: r["base"].append(["R", i, {}])
    elif x == "kind":
        if r["kind"] == "S": r["kind"] = "I"; r["ind"] = copy.deepcopy(r["base"])
        else: r["kind"] = "S"; r["base"] = r["ind"]; r["ind"] = []
    elif x == "nobase": r["base"] = []
    elif x == "symbol":
        b = [b for c in (r["init"], r["final"]) for h in ("left", "right") for b in c[h]]
        if b: b = rng.choice(b); j = rng.randrange(len(b[0])); b[0] = b[0][:j] + rng.choice(syms) + b[0][j + 1:]
    elif x == "head":
        c = rng.choice([r["init"], r["final"]])
        if rng.random() < .5: c["state"] = rng.choice(states)
        else: c["dir"] = rng.choice("LR")
    elif x == "block":
        c = rng.choice([r["init"], r["final"]]); h = c[rng.choice(["left", "right"])]
        if h and rng.random() < .5: h.pop(rng.randrange(len(h)))
        else: h.insert(rng.randint(1 if h and h[0][1] == "inf" else 0, len(h)), [rng.choice(syms), rng.choice([["V", {}, 1], ["V", {rng.choice(vs): 1}, 0]])])
    elif x == "hypbase": r["base"].insert(rng.randint(0, len(r["base"])), ["H", {"n": rng.choice([["V", {"n": 1}, 0], ["V", {}, 0]])}])
    elif x == "swapvars":
        a, b = rng.choice(vs), rng.choice(vs)
        where = rng.choice(["init", "final"])
        r[where] = json.loads(json.dumps(r[where]))
        for h in ("left", "right"):
            for blk in r[where][h]: blk[1] = swapname(blk[1], a, b)
    return x
def swapname(e, a, b):
    if e == "inf": return e
    s = lambda v: b if v == a else a if v == b else v
    if e[0] == "V": return ["V", {s(v): k for v, k in e[1].items()}, e[2]]
    return ["R", s(e[1]), *(swapname(x, a, b) for x in e[2:])]
def drop_inf(r):
    """out of domain: infinite blocks that are not farthest"""
    for c in (r["init"], r["final"]):
        for h in ("left", "right"):
            if any(b[1] == "inf" for b in c[h][1:]): raise Rejected()
def mutant(case, ctx):
    k, i, m, seed = case
    p = PROOFS[k]; rules = copy.deepcopy(p["rules"]); i %= len(rules); rng = random.Random(seed)
    kinds = [mutate(rules, i, rng, p["tm"]) for _ in range(m)]
    drop_inf(rules[i])
    for x in kinds: ctx.label(x)
    judge(p["tm"], rules, i, rng, ctx)
def mutant_cases(): return st.tuples(st.integers(0, len(PROOFS) - 1), st.integers(0, 40), st.sampled_from([1, 1, 1, 2, 3]), st.integers(0, 10 ** 9)).map(list)

# renaming the variables of every rule keeps a proof correct
def ren(e, m, rng):
    if e == "inf": return e
    if e[0] == "V": return ["V", {m.get(v, v): k for v, k in e[1].items()}, e[2]]
    n, b = ren(e[3], m, rng), ren(e[4], m, rng)
    body = e[2]; v = e[1]
    avoid = {m.get(x, x) for x in free(tup(body)) - {v}}
    w = rng.choice([x for x in "nabcdef" if x not in avoid])
    return ["R", w, ren(body, dict(m, **{v: w}), rng), n, b]
def renamed(case, ctx):
    k, i, seed = case
    p = PROOFS[k]; rules = copy.deepcopy(p["rules"]); i %= len(rules); rng = random.Random(seed); maps = []
    for r in rules:
        used = cvars(r) | {v for s in r["base"] + r["ind"] if s[0] in "HR" for e in s[-1].values() for v in free(tup(e))} | {v for s in r["base"] + r["ind"] if s[0] == "H" for v in s[-1]}
        ind = r["kind"] == "I"
        names = sorted(used - ({"n"} if ind else set()))
        pool = [v for v in ("abcdef" if ind else "nabcdef") if True]
        while len(pool) < len(names): pool.append([v for v in ALL if v not in pool and v != "n"][0])
        maps.append(dict(zip(names, rng.sample(pool, len(names)))))
    for j, r in enumerate(rules):
        m = maps[j]
        for c in (r["init"], r["final"]):
            for h in ("left", "right"):
                for b in c[h]: b[1] = ren(b[1], m, rng)
        for s in r["base"] + r["ind"]:
            if s[0] in "HR":
                tgt = j if s[0] == "H" else s[1]
                # variables the step leaves alone are the target's own names: spell them out
                full = {v: ["V", {v: 1}, 0] for v in sorted(cvars(p["rules"][tgt]))}
                full.update((v, e) for v, e in s[-1].items() if v in full or s[0] == "H")
                s[-1] = {maps[tgt].get(v, v): ren(e, m, rng) for v, e in full.items()}
    judge(p["tm"], rules, i, rng, ctx, must=True)
def renamed_cases(): return st.tuples(st.integers(0, len(PROOFS) - 1), st.integers(0, 40), st.integers(0, 10 ** 9)).map(list)

# ---------------------------------------------------------------- built rules
def blocks_of(cells):
    out = []
    for c in cells:
        if out and out[-1][0] == str(c): out[-1][1] = ["V", {}, out[-1][1][2] + 1]
        else: out.append([str(c), ["V", {}, 1]])
    return out
def cfg(l, r, s, d): return dict(left=l, right=r, state=s, dir=d)
C = lambda k=0, **v: ["V", dict(v), k]
def build(tm, kind, w, q, d, k, steps, rng):
    """correct rules of the given kind for the machine, or None"""
    tab = rcfg.table(tm)
    if kind == "run":
        left = [rng.randrange(len(tab[0])) for _ in range(rng.randint(0, 6))]; right = [rng.randrange(len(tab[0])) for _ in range(rng.randint(0, 6))]
        inf = [rng.random() < .3, rng.random() < .3]
        x = rcfg.Conc(left[:], [0] if inf[0] else None, right[:], [0] if inf[1] else None, q, d)
        n = rcfg.run(tab, x, steps)
        mk = lambda h, i: [["0", "inf"]] * inf[i] + blocks_of(h)
        return [dict(init=cfg(mk(left, 0), mk(right, 1), q, "LR"[d]), final=cfg(mk(x.h[0], 0), mk(x.h[1], 1), x.state, "LR"[x.dir]), kind="S", base=[["T", n]] if rng.random() < .5 else [["T", n // 2], ["T", n - n // 2]], ind=[])], tm
    # a chain: entering word w in state q moving in direction d, the head comes out at the far side in the same state
    if rng.random() < .7:   # make it so
        cells = [[t[i:i + 3] for i in range(0, len(t), 3)] for t in tm.split("_")]
        path = [q] + [chr(65 + rng.randrange(len(tab))) for _ in w[1:]] + [q]
        for i, sym in enumerate(w[::-1]): cells[ord(path[i]) - 65][sym] = "%d%s%s" % (rng.randrange(len(tab[0])), "LR"[d], path[i + 1])
        tm = "_".join("".join(r) for r in cells); tab = rcfg.table(tm)
    x = rcfg.Conc([], None, [], None, q, d); x.h[d] = w[:]
    n = 0
    while x.h[d] or x.dir != d:
        if rcfg.run(tab, x, 1) == 0: return None, tm
        n += 1
        if n > 200: return None, tm
    if x.state != q or len(x.h[1 - d]) != len(w): return None, tm
    a, b = "".join(map(str, w)), "".join(map(str, x.h[1 - d]))
    near, far = ("right", "left") if d == 1 else ("left", "right")
    def rule(cnt, kind, base, ind):
        i, f = cfg([], [], q, "LR"[d]), cfg([], [], q, "LR"[d])
        i[near] = [[a, cnt]]; f[far] = [[b, cnt]]
        return dict(init=i, final=f, kind=kind, base=base, ind=ind)
    rules = [rule(C(n=1), "I", [], [["H", {"n": C(n=1)}], ["T", n]])]
    if kind == "chain": return rules, tm
    cnt = rng.choice([C(k), C(k, a=1), C(k, a=2, b=1), C(0, n=2), C(k, n=1), ["R", "a", C(1, a=2), C(n=1), C(k)]])
    rules.append(rule(cnt, "S", [["R", 0, {"n": cnt}]], []))
    if kind == "use2" and cnt[0] == "V":
        rules.append(rule(C(k, n=3), "S", [["R", 0, {"n": C(0, n=3)}], ["R", 0, {"n": C(k)}]], []))
    return rules, tm
def built(case, ctx):
    tm, kind, w, q, d, k, steps, m, seed = case
    rng = random.Random(seed)
    rules, tm = build(tm, kind, w, q, d, k, steps, rng)
    if rules is None: raise Rejected()
    rules = json.loads(json.dumps(rules)); i = len(rules) - 1
    for _ in range(m): ctx.label(mutate(rules, i, rng, tm)); drop_inf(rules[i])
    ctx.label(kind)
    judge(tm, rules, i, rng, ctx, must=m == 0)
def built_cases():
    def cs(nm):
        ns, ms = nm
        def table(seed):
            rng = random.Random(seed)
            cell = lambda: rng.choice(["---", "1RZ"]) if rng.random() < .1 else "%d%s%s" % (rng.randrange(ms), rng.choice("LR"), chr(65 + rng.randrange(ns)))
            return "_".join("".join(cell() for _ in range(ms)) for _ in range(ns))
        tm = st.integers(0, 10 ** 9).map(table)
        return st.tuples(tm, st.sampled_from(["run", "chain", "chain", "use", "use", "use2"]), st.lists(st.integers(0, ms - 1), min_size=1, max_size=3), st.sampled_from([chr(65 + j) for j in range(ns)]), st.integers(0, 1),
            st.integers(0, 3), st.integers(0, 30), st.sampled_from([0, 0, 1, 1, 2]), st.integers(0, 10 ** 9)).map(list)
    return st.tuples(st.integers(1, 3), st.integers(2, 3)).flatmap(cs)

# ---------------------------------------------------------------- claims "proved" by circular means
def circular(case, ctx):
    tm, a, b, kind, seed = case
    rng = random.Random(seed)
    ident = {v: C(**{v: 1}) for v in "nab"}
    sub = {v: rng.choice([C(**{v: 1}), C(1, **{v: 1}), C(0), C(rng.randint(0, 3))]) for v in rng.sample("nab", rng.randint(0, 3))}
    hyp = dict(sub, n=C(n=1))
    r0 = dict(init=a, final=b, kind="S", base=[["T", 0]], ind=[])
    rules = {"self": [dict(r0, base=[["R", 0, rng.choice([sub, ident])]])],
        "future": [dict(r0, base=[["R", 1, ident]]), dict(r0, base=[["R", 0, ident]])],
        "hyp-simple": [dict(r0, base=[["H", hyp]])],
        "hyp-base": [dict(r0, kind="I", base=[["H", rng.choice([hyp, dict(sub, n=C(0))])]], ind=[["H", hyp]])],
        "hyp-up": [dict(r0, kind="I", base=[["T", 0]], ind=[["H", dict(sub, n=rng.choice([C(1, n=1), C(2, n=1), C(0), C(3), C(n=2), C(a=1)]))]])],
        "hyp-missing": [dict(r0, kind="I", base=[["T", 0]], ind=[["H", {k: e for k, e in sub.items() if k != "n"}]])],
        "hyp": [dict(r0, kind="I", base=[["T", 0]], ind=[["H", hyp]])],
        "nothing": [dict(r0, base=[])]}[kind]
    rules = json.loads(json.dumps(rules))
    ctx.label(kind)
    for i in range(len(rules)):
        ok, r = accepted(tm, rules[:i + 1])
        if not ok: break
        true_rule(tm, rules[:i + 1], i, rng, ctx); ctx.label("accepted")
    ctx.nontrivial(json.dumps(case[:4]))
def circular_cases():
    word = st.text("01", min_size=1, max_size=2)
    cnt = st.sampled_from([C(1), C(2), C(n=1), C(1, n=1), C(a=1), C(2, b=1)])
    halft = st.lists(st.tuples(word, cnt).map(list), max_size=2)
    c = st.builds(cfg, halft, halft, st.sampled_from("AB"), st.sampled_from("LR"))
    return st.tuples(st.sampled_from(["1RB1LB_1LA1RZ", "1RB0LA_1LA0RB", "0RA1RA_1LB0LB"]), c, st.one_of(c, c), st.sampled_from(["self", "future", "hyp-simple", "hyp-base", "hyp-up", "hyp-up", "hyp-missing", "hyp", "nothing"]), st.integers(0, 10 ** 9)).map(
        lambda t: [t[0], t[1], dict(t[2], state=t[1]["state"], dir=t[1]["dir"]) if t[4] % 3 else t[1], t[3], t[4]])

TESTS = [
    Test("own", own, cases=own_cases, quick=200, thorough=1000),
    Test("mutant", mutant, strategy=mutant_cases, quick=4000, thorough=40000),
    Test("renamed", renamed, strategy=renamed_cases, quick=1000, thorough=8000),
    Test("built", built, strategy=built_cases, quick=5000, thorough=60000),
    Test("circular", circular, strategy=circular_cases, quick=600, thorough=10000),
]
