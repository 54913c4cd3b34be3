"""C25: symbolic configurations of the Rust library against the concrete tapes they denote."""
import random
from hypothesis import strategies as st
import core, rustdrv, rcfg, gen
from core import Test, Violation, Rejected
from rustdrv import enc_subst, tup, val, ask, Panic

PROPERTY = "C25"
RULE = "step: the head crosses a block whose count has a variable or is infinite; others: a block with a variable count on each of the configurations"
ASSUMPTIONS = ["machines have at most 25 states and 10 symbols (one letter, one digit)", "an infinite block is the farthest of its half tape",
    "a step or a comparison that depends on the value of a variable may be refused; with constant counts and one-symbol blocks, and for a sub-configuration that is spelled out in the configuration, it may not"]
BUDGET = dict(quick=240, thorough=600)
VARS = "nab"
def setup(scratch, tier): return rustdrv.build(scratch)

sums = st.one_of(st.integers(0, 5).map(lambda k: ["V", {}, k]), st.builds(lambda vs, c: ["V", {v: k for v, k in vs}, c],
    st.lists(st.tuples(st.sampled_from(VARS), st.integers(1, 2)), min_size=1, max_size=2, unique_by=lambda x: x[0]), st.integers(0, 3)))
small = st.one_of(sums, sums, st.builds(lambda v, f, n, b: ["R", v, f, n, b], st.sampled_from(VARS), sums, sums, sums))
def config(nsym=3, states="ABC", words=2, counts=small, inf=True, maxb=4, minb=0):
    sym = st.sampled_from([str(i) for i in range(nsym)])
    word = st.one_of(sym, st.text("0123456789"[:nsym], min_size=1, max_size=words))
    block = st.tuples(word, counts).map(list)
    top = st.one_of(st.just([]), st.tuples(word, st.just("inf")).map(lambda x: [list(x)]), st.just([["0", "inf"]]), st.just([["0", "inf"]])) if inf else st.just([])
    halft = st.builds(lambda a, b: a + b, top, st.lists(block, min_size=minb, max_size=maxb))
    return st.builds(lambda l, r, s, d: dict(left=l, right=r, state=s, dir=d), halft, halft, st.sampled_from(states), st.sampled_from("LR"))

def envs(seed, n=6):
    rng = random.Random(seed)
    yield dict.fromkeys(VARS, 0)
    for _ in range(n): yield {v: rng.randint(0, 4) for v in VARS}
def over(f, seed):
    k = 0
    for env in envs(seed):
        try: f(env); k += 1
        except Rejected: pass
    if not k: raise Rejected()
def hasvar(c): return any(tup(e) != "inf" and (e[0] == "R" or e[1]) for h in ("left", "right") for w, e in c[h])
def const(c): return not hasvar(c)
def sums_only(*cs): return all(e == "inf" or e[0] == "V" for c in cs for h in ("left", "right") for w, e in c[h])
def sh(c): return ask("cfg", rcfg.text(c))[0]
def guard(f):
    def g(case, ctx):
        try: f(case, ctx)
        except Panic as ex: raise Violation("panic: %s" % ex)
        except ValueError as ex: raise Violation("refused: %s" % ex)
    return g

# ---------------------------------------------------------------- text
@guard
def text(case, ctx):
    c, seed = case
    t = rcfg.text(c); r = sh(c)
    got = rcfg.parse(r)
    if got["state"] != c["state"] or got["dir"] != c["dir"]: raise Violation("%r prints as %r" % (t, r))
    for h in ("left", "right"):
        if [w for w, e in got[h]] != [w for w, e in c[h]]: raise Violation("%r prints as %r" % (t, r))
    def f(env):
        if not rcfg.same(rcfg.conc(c, env), rcfg.conc(got, env)): raise Violation("%r prints as %r" % (t, r))
    over(f, seed)
    if sums_only(c):
        if r != t: raise Violation("%r prints as %r" % (t, r))
        rng = random.Random(seed)
        loose = "".join(" " * rng.randint(1, 3) if ch == " " else ch for ch in t)
        if ask("cfg", loose)[0] != r: raise Violation("%r prints as %r" % (loose, ask("cfg", loose)[0]))
    if hasvar(c): ctx.nontrivial(t)
def text_cases(): return st.tuples(config(nsym=10, states="ABCDEFGHIJKLMNOPQRSTUVWXYZ", words=5), st.integers(0, 10 ** 6)).map(list)
@guard
def machine(case, ctx):
    tm, = case
    r = ask("tm", tm); rows = tm.split("_")
    if r != [tm, str(len(rows)), str(len(rows[0]) // 3)]: raise Violation("%s reads as %r" % (tm, r))
    if "---" in tm or "Z" in tm: ctx.nontrivial(tm)
def machine_cases():
    cell = lambda n, m: st.one_of(st.just("---"), st.builds(lambda a, d, s: "%d%s%s" % (a, d, s), st.integers(0, m - 1), st.sampled_from("LR"), st.one_of(st.just("Z"), st.integers(0, n - 1).map(lambda i: chr(65 + i)))), )
    return st.tuples(st.integers(1, 25), st.integers(2, 10)).flatmap(lambda nm: st.lists(st.lists(cell(*nm), min_size=nm[1], max_size=nm[1]).map("".join), min_size=nm[0], max_size=nm[0]).map("_".join)).map(lambda t: [t])

# ---------------------------------------------------------------- steps
@guard
def step(case, ctx):
    tm, c, n, seed = case
    while not steps(tm, c, n, seed, ctx) and n: n //= 2
    if n > 2 and (hasvar(c) or any(e == "inf" for h in ("left", "right") for w, e in c[h])): ctx.nontrivial("%s %s %d" % (tm, rcfg.text(c), n))
def steps(tm, c, n, seed, ctx):
    t = rcfg.text(c); tab = rcfg.table(tm)
    r = ask("step", tm, str(n), t)
    ok = r[0] == "some"; ctx.evals += 1
    got = rcfg.parse(r[1]) if ok else None
    if ok:
        def f(env):
            x = rcfg.conc(c, env); y = rcfg.conc(got, env)
            k = rcfg.run(tab, x, n)
            if k < n: raise Violation("%s: %d steps from %s give %s, but for %s only %d are possible" % (tm, n, sh(c), r[1], env, k))
            if not rcfg.same(x, y): raise Violation("%s: %d steps from %s give %s; for %s that is %s, not %s" % (tm, n, sh(c), r[1], env, rcfg.sh(y), rcfg.sh(x)))
        over(f, seed)
    else:
        plenty = all(e == "inf" or e[0] == "V" and (not e[1] or e[2] >= n) for h in ("left", "right") for w, e in c[h])
        if plenty:
            x = rcfg.conc(c, dict.fromkeys(VARS, 0))
            if rcfg.run(tab, x, n) == n: raise Violation("%s: %d steps from %s are refused: %s" % (tm, n, sh(c), r[1]))
    ctx.label("steps" if ok else "refused")
    return ok
def step_cases():
    def cs(nm):
        ns, m = nm
        def table(seed):
            rng = random.Random(seed)
            cell = lambda: rng.choice(["---", "1RZ", "0LZ"]) if rng.random() < .04 else "%d%s%s" % (rng.randrange(m), rng.choice("LR"), chr(65 + rng.randrange(ns)))
            return "_".join("".join(cell() for _ in range(m)) for _ in range(ns))
        tm = st.integers(0, 10 ** 9).map(table)
        big = st.builds(lambda e, k: e if e == "inf" or e[0] == "R" else ["V", e[1], e[2] + k], st.one_of(sums, sums, sums, small), st.sampled_from([0, 2, 5, 40]))
        return st.tuples(tm, config(nsym=m, states="ABCD"[:ns], counts=big, words=3, minb=1, maxb=5), st.integers(0, 40), st.integers(0, 10 ** 6)).map(list)
    return st.tuples(st.integers(1, 4), st.integers(2, 4)).flatmap(cs)

# ---------------------------------------------------------------- substitution
@guard
def subst(case, ctx):
    c, s, seed = case
    s = {k: tup(e) for k, e in s.items()}
    base = dict(c)
    if not sums_only(c): raise Rejected()
    t = rcfg.text(c); r, = ask("cfg", t + "@" + enc_subst(s)); got = rcfg.parse(r)
    def f(env):
        e2 = dict(env, **{k: val(x, env) for k, x in s.items()})
        if not rcfg.same(rcfg.conc(c, e2), rcfg.conc(got, env)): raise Violation("%s with %s is %s, wrong for %s" % (t, enc_subst(s), r, env))
    over(f, seed)
    if hasvar(c) and s: ctx.nontrivial(t + enc_subst(s))
def subst_cases(): return st.tuples(config(counts=sums), st.dictionaries(st.sampled_from(VARS), small, max_size=3), st.integers(0, 10 ** 6)).map(list)

# ---------------------------------------------------------------- sub-configurations and equivalence
def respell(blocks, rng):
    """another spelling of the same half tape: split and unroll blocks"""
    out = []
    for w, e in blocks:
        x = rng.random()
        if e == "inf":
            out.append([w * rng.randint(1, 3) if x < .3 else w, "inf"])
            if x > .6: out.append([w, ["V", {}, rng.randint(0, 3)]])
            elif x < .1: out[-1:] = [[w[-1] + w[:-1], "inf"], [w[-1], ["V", {}, 1]]] if len(w) > 1 else out[-1:]
        elif e[0] == "V" and x < .4 and e[2]:
            k = rng.randint(0, e[2])
            if rng.random() < .5: out += [[w, ["V", e[1], e[2] - k]]] + [[w, ["V", {}, k]]] * (k > 0)
            else: out += [[w, ["V", {}, e[2] - k]], [w, ["V", e[1], k]]]
        elif e[0] == "V" and x < .6 and not e[1] and e[2] % 2 == 0: out.append([w * 2, ["V", {}, e[2] // 2]])
        elif e[0] == "V" and x < .7 and e[2]: out += [[w, ["V", e[1], e[2] - 1]]] + [[ch, ["V", {}, 1]] for ch in w]
        else: out.append([w, e])
    return out
def tweak(blocks, rng):
    b = [list(x) for x in blocks]
    if not b: return [[rng.choice("012"), ["V", {}, 1]]]
    i = rng.randrange(len(b)); x = rng.random()
    if x < .3: b[i][0] = b[i][0][:-1] + rng.choice("012")
    elif x < .6 and b[i][1] != "inf" and b[i][1][0] == "V": b[i][1] = ["V", b[i][1][1], max(0, b[i][1][2] + rng.choice([-1, 1]))]
    elif x < .75: b.pop(i)
    elif x < .9 and b[i][1] != "inf" and b[i][1][0] == "V":
        v, w = rng.sample(VARS, 2); b[i][1] = ["V", {(w if q == v else q): k for q, k in b[i][1][1].items()}, b[i][1][2]]
    else: b.insert(i, [rng.choice("012"), ["V", {rng.choice(VARS): 1}, 0]])
    return fix(b)
def fix(b): return [x for i, x in enumerate(b) if x[1] != "inf" or i == 0]
def simple(*cs): return all(len(w) == 1 and (e == "inf" or e[0] == "V" and not e[1]) for c in cs for h in ("left", "right") for w, e in c[h])

@guard
def equiv(case, ctx):
    c, how, seed = case
    rng = random.Random(seed)
    d = dict(c)
    for h in ("left", "right"):
        if how != "same": d[h] = respell(d[h], rng)
    if how == "tweak":
        h = rng.choice(["left", "right", "state", "dir"])
        if h in ("left", "right"): d[h] = tweak(d[h], rng)
        elif h == "dir": d["dir"] = "LR"[d["dir"] == "L"]
        else: d["state"] = rng.choice("ABC")
    a, b = rcfg.text(c), rcfg.text(d)
    r = ask("equiv", a, b)[0]; r2 = ask("equiv", b, a)[0]
    eq = []
    def f(env): eq.append((rcfg.same(rcfg.conc(c, env), rcfg.conc(d, env)), env))
    over(f, seed)
    for x in (r, r2):
        if x == "true":
            for y, env in eq:
                if not y: raise Violation("%s and %s are said to be the same, but differ for %s" % (sh(c), sh(d), env))
        else:
            if how == "same": raise Violation("%s is said not to be the same as itself" % sh(c))
            if simple(c, d) and eq[0][0]: raise Violation("%s and %s are said to differ" % (sh(c), sh(d)))
    ctx.label("%s-%s" % (how, r))
    if hasvar(c) or any(e == "inf" for h in ("left", "right") for w, e in c[h]): ctx.nontrivial(a + " " + b)
ones = st.integers(0, 6).map(lambda k: ["V", {}, k])
def some_config(): return st.one_of(config(words=3), config(counts=sums), config(words=1), config(words=1, counts=ones), config(nsym=2, words=1, counts=ones))
def equiv_cases(): return st.tuples(some_config(), st.sampled_from(["same", "respell", "respell", "tweak"]), st.integers(0, 10 ** 6)).map(list)

@guard
def replace(case, ctx):
    old, rest, new, how, seed = case
    rng = random.Random(seed)
    c = dict(state=old["state"], dir=old["dir"])
    for h in ("left", "right"):
        o = old[h] if how == "spelled" else respell(old[h], rng)
        if how == "tweak" and rng.random() < .6: o = tweak(o, rng)
        inf = any(e == "inf" for w, e in o)
        c[h] = (list(rest[h]) if not inf else []) + o
    if how == "tweak" and rng.random() < .2: c["state"] = rng.choice("ABC")
    if how == "tweak" and rng.random() < .2: c["dir"] = rng.choice("LR")
    new = dict(new)
    for h in ("left", "right"):   # the replacement is infinite exactly where the replaced part is
        o = any(e == "inf" for w, e in old[h])
        new[h] = ([["0", "inf"]] if o else []) + [b for b in new[h] if b[1] != "inf"]
    a, b, n = rcfg.text(c), rcfg.text(old), rcfg.text(new)
    r = ask("replace", a, b, n); ok = r[0] == "some"
    got = rcfg.parse(r[1]) if ok else None
    fits = []
    def f(env):
        x, y, z = rcfg.conc(c, env), rcfg.conc(old, env), rcfg.conc(new, env)
        m = [rcfg.minus(x.h[i], x.t[i], y.h[i], y.t[i]) for i in (0, 1)] if x.state == y.state and x.dir == y.dir else [None]
        fit = None not in m; fits.append(fit)
        if ok:
            if not fit: raise Violation("%s is said to contain %s, but does not for %s" % (sh(c), sh(old), env))
            h = [(m[i][0] + z.h[i], m[i][1] if m[i][1] is not None else z.t[i]) for i in (0, 1)]
            want = rcfg.Conc(*h[0], *h[1], z.state, z.dir); g = rcfg.conc(got, env)
            if not rcfg.same(want, g): raise Violation("%s with %s replaced by %s gives %s; for %s that is %s, not %s" % (sh(c), sh(old), sh(new), r[1], env, rcfg.sh(g), rcfg.sh(want)))
    over(f, seed)
    if not ok:
        if how == "spelled" and sums_only(c, old): raise Violation("%s is said not to contain %s: %s" % (sh(c), sh(old), r[1]))
        if simple(c, old) and fits[0]: raise Violation("%s is said not to contain %s: %s" % (sh(c), sh(old), r[1]))
    ctx.label("%s-%s" % (how, r[0]))
    if hasvar(old): ctx.nontrivial(a + " " + b)
def replace_cases(): return st.tuples(some_config(), config(words=1), config(words=2), st.sampled_from(["spelled", "respell", "respell", "tweak"]), st.integers(0, 10 ** 6)).map(list)

TESTS = [
    Test("text", text, strategy=text_cases, quick=800, thorough=15000),
    Test("machine", machine, strategy=machine_cases, quick=200, thorough=3000),
    Test("step", step, strategy=step_cases, quick=4000, thorough=60000),
    Test("subst", subst, strategy=subst_cases, quick=600, thorough=15000),
    Test("equiv", equiv, strategy=equiv_cases, quick=2500, thorough=60000),
    Test("replace", replace, strategy=replace_cases, quick=2500, thorough=60000),
]
