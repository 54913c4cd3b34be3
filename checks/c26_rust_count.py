"""C26: counting expressions of the Rust library against their numeric value."""
import itertools, random
from hypothesis import strategies as st
import core, rustdrv
from core import Test, Violation, Rejected
from rustdrv import enc, enc_subst, read, read_fun, val, free, tup, ask, Panic

PROPERTY = "C26"
RULE = "operations: an iterated function takes part (all names come from a pool of four, so capture is common); text: two or more terms"
ASSUMPTIONS = ["coefficients, constants and variable values are small enough that no intermediate result exceeds 64 bits (the library's count type)",
    "an addition may be refused only between two iterated functions; a subtraction may be refused whenever an iterated function is involved, except that an expression minus itself (up to names of bound variables) is 0"]
BUDGET = dict(quick=240, thorough=600)
VARS = "nabc"
def setup(scratch, tier): return rustdrv.build(scratch)

sums = st.builds(lambda vs, c: ["V", {v: k for v, k in vs if k}, c], st.lists(st.tuples(st.sampled_from(VARS), st.integers(0, 3)), max_size=3, unique_by=lambda x: x[0]), st.integers(0, 3))
def rec(sub): return st.builds(lambda v, f, n, b: ["R", v, f, n, b], st.sampled_from(VARS), sub, st.one_of(sums, sums, st.just(["V", {}, 1]), sub), sub)
exprs = st.one_of(sums, rec(sums), rec(sums), rec(st.one_of(sums, rec(sums))))
orinf = st.one_of(exprs, exprs, exprs, exprs, exprs, st.just("inf"))
substs = st.dictionaries(st.sampled_from(VARS), exprs, max_size=3)

def alpha(e, rng):
    """rename bound variables at random (capture-avoiding)"""
    if e == "inf" or e[0] == "V": return e
    v, f, n, b = e[1], alpha(e[2], rng), alpha(e[3], rng), alpha(e[4], rng)
    c = [x for x in VARS + "xyz" if x == v or x not in names(f)]
    w = rng.choice(c)
    return ("R", w, ren(f, v, w), n, b)
def names(e):
    if e == "inf": return set()
    if e[0] == "V": return set(e[1])
    return {e[1]} | names(e[2]) | names(e[3]) | names(e[4])
def ren(e, v, w):
    if e == "inf": return e
    if e[0] == "V": return ("V", {(w if x == v else x): k for x, k in e[1].items()}, e[2])
    return ("R", e[1], e[2] if e[1] == v else ren(e[2], v, w), ren(e[3], v, w), ren(e[4], v, w))

def envs(seed, n=7):
    rng = random.Random(seed)
    yield dict.fromkeys(VARS, 0)
    for _ in range(n): yield {v: rng.randint(0, 3) for v in VARS}
def values(pairs, seed):
    """[(f(env), g(env))] over the environments in which both can be computed; pairs: function env -> (x, y)"""
    k = 0
    for env in envs(seed):
        try: x, y = pairs(env)
        except Rejected: continue
        k += 1
        yield env, x, y
    if not k: raise Rejected()
def same(what, e, want, seed, wantfree=None):
    """printed expression e has value want(env)"""
    r = read(e)
    extra = free(r) - set(VARS)
    if extra: raise Violation("%s = %s has the free variables %s" % (what, e, extra))
    for env, x, y in values(lambda env: (val(r, env), want(env)), seed):
        if x != y: raise Violation("%s = %s: value %s, expected %s for %s" % (what, e, x, y, env))
def sh(e): return ask("expr", enc(e))[0]

def ops(case, ctx):
    op, a, b, s, v, w, seed = case
    a, b = tup(a), tup(b); s = {k: tup(x) for k, x in s.items()}
    try: _ops(op, a, b, s, v, w, seed, ctx)
    except Panic as ex: raise Violation("panic: %s" % ex)
    except ValueError as ex: raise Violation("refused: %s" % ex)
    if any(x != "inf" and x[0] == "R" for x in [a, b, *s.values()]): ctx.nontrivial("%s %s" % (op, a))
    ctx.label(op)
def _ops(op, a, b, s, v, w, seed, ctx):
    fin = lambda x: ("V", {}, 2) if x == "inf" else x
    def env_s(env): return dict(env, **{k: val(x, env) for k, x in s.items()})
    if op == "print": same("print", sh(a), lambda env: val(a, env), seed)
    elif op == "subst":
        r, = ask("subst", enc(a), enc_subst(s))
        same("(%s)[%s]" % (sh(a), ", ".join("%s:=%s" % (k, sh(x)) for k, x in s.items())), r, lambda env: val(a, env_s(env)), seed)
    elif op == "add":
        r = ask("add", enc(a), enc(b)); what = "%s + %s" % (sh(a), sh(b))
        if r[0] == "none":
            if a == "inf" or b == "inf" or "V" in (a[0], b[0]): raise Violation(what + " was refused")
        else: same(what, r[1], lambda env: val(a, env) + val(b, env), seed); ctx.label("granted")
    elif op in ("sub", "same"):
        if op == "same": b = alpha(a, random.Random(seed))
        r = ask("sub", enc(a), enc(b)); what = "%s - %s" % (sh(a), sh(b))
        if r[0] == "none":
            if op == "same": raise Violation(what + " was refused")
            if a == "inf": raise Violation(what + " was refused")
            if b != "inf" and a[0] == b[0] == "V" and a[2] >= b[2] and all(a[1].get(x, 0) >= k for x, k in b[1].items()): raise Violation(what + " was refused")
        else:
            ctx.label("granted")
            if a != "inf" and b == "inf": raise Violation("%s = %s" % (what, r[1]))
            if a == b == "inf": same(what, r[1], lambda env: 0, seed)
            else: same(what, r[1], lambda env: val(a, env) - val(b, env), seed)
            if op == "same" and read(r[1]) != ("V", {}, 0): raise Violation("%s = %s" % (what, r[1]))
    elif op == "dec":
        r = ask("dec", enc(a))
        if r[0] == "some": same("%s - 1" % sh(a), r[1], lambda env: val(a, env) - 1, seed); ctx.label("granted")
        elif a == "inf" or a[0] == "V" and a[2] > 0: raise Violation("%s - 1 was refused" % sh(a))
    elif op == "zero":
        r, = ask("zero", enc(a))
        if r == "true":
            for env, x, _ in values(lambda env: (val(a, env), 0), seed):
                if x != 0: raise Violation("%s is said to be zero, but is %s for %s" % (sh(a), x, env))
        elif a == ("V", {}, 0): raise Violation("0 is said not to be zero")
    elif op == "apply":
        a, b = fin(a), fin(b); r, = ask("apply", v, enc(a), enc(b))
        same("(λ%s.%s)(%s)" % (v, sh(a), sh(b)), r, lambda env: val(a, dict(env, **{v: val(b, env)})), seed)
    elif op == "compose":
        a, b = fin(a), fin(b); r, = ask("compose", v, enc(a), w, enc(b)); x, f = read_fun(r)
        what = "(λ%s.%s) then (λ%s.%s) = %s" % (v, sh(a), w, sh(b), r)
        for arg in range(3):
            for env, p, q in values(lambda env: (val(f, dict(env, **{x: arg})), val(b, dict(env, **{w: val(a, dict(env, **{v: arg}))}))), seed + arg):
                if p != q: raise Violation("%s: at %d the value is %s, expected %s for %s" % (what, arg, p, q, env))
OPS = ["print", "subst", "subst", "subst", "add", "sub", "same", "dec", "zero", "apply", "compose"]
def ops_cases(): return st.tuples(st.sampled_from(OPS), orinf, orinf, substs, st.sampled_from(VARS), st.sampled_from(VARS), st.integers(0, 10 ** 6)).map(list)

# equal and nearly equal iterated functions: a granted difference must hold
def near(case, ctx):
    a, k, mut, seed = case
    a = tup(a); rng = random.Random(seed)
    simple = a[2][0] == a[3][0] == a[4][0] == "V" and a[3][1] and a[2][1].get(a[1])
    if mut in ("unroll", "unrolled"):       # f^(n+k)(x) against f^n(f^k(x)), and the reverse
        b = ("R", a[1], a[2], a[3], ("R", a[1], a[2], ("V", {}, k), a[4]))
        if a[3][0] != "V": raise Rejected()
        a = ("R", a[1], a[2], ("V", a[3][1], a[3][2] + k), a[4])
        if mut == "unrolled": a, b = b, a
    elif mut == "names":      # replace one name everywhere, which may or may not keep the meaning
        v, w = rng.sample(VARS, 2); b = rename_all(a, v, w)
    elif mut == "body":
        v, w = rng.sample(VARS, 2); b = ("R", w, rename_all(a[2], v, w) if rng.random() < .5 else a[2], a[3], a[4])
    else: b = tup(case[0]); b = ("R", b[1], b[2], b[3], alpha(b[4], rng))
    try: r = ask("sub", enc(a), enc(b))
    except Panic as ex: raise Violation("panic: %s" % ex)
    what = "%s - %s" % (sh(a), sh(b))
    if r[0] == "some": same(what, r[1], lambda env: val(a, env) - val(b, env), seed); ctx.label("granted")
    else:
        ctx.label("refused")
        if mut == "alpha" or mut in ("unroll", "unrolled") and simple: raise Violation(what + " was refused")
    ctx.nontrivial("%s %s" % (mut, a))
def rename_all(e, v, w):
    if e == "inf": return e
    if e[0] == "V":
        d = {}
        for x, k in e[1].items(): x = w if x == v else x; d[x] = d.get(x, 0) + k
        return ("V", d, e[2])
    return ("R", w if e[1] == v else e[1], *(rename_all(x, v, w) for x in e[2:]))
def near_cases(): return st.tuples(rec(st.one_of(sums, rec(sums))), st.integers(0, 2), st.sampled_from(["unroll", "unrolled", "names", "body", "alpha"]), st.integers(0, 10 ** 6)).map(list)

# text forms
ALL = "nabcdefghijklmopqrstuvwxyz"
def text(case, ctx):
    terms, seed = case
    t = "+".join(terms); want = None
    import re
    if t == "inf": want = "inf"
    elif all(re.fullmatch(r"[0-9]*[a-z]|[0-9]+", p) for p in terms): want = rustdrv.varsum(t)
    try: r, = ask("parse", t)
    except Panic as ex: raise Violation("parsing %r: panic %s" % (t, ex))
    except ValueError:
        if want is not None and all(int(re.sub("[a-z]", "", p) or 0) < 1 << 64 for p in terms): raise Violation("%r was refused" % t)
        ctx.label("refused"); return
    if want is None: raise Violation("%r was read as %s" % (t, r))
    got = read(r)
    if got != want and (got == "inf" or want == "inf" or {k: c for k, c in got[1].items() if c} != {k: c for k, c in want[1].items() if c} or got[2] != want[2]):
        raise Violation("%r was read as %s" % (t, r))
    if ask("parse", r)[0] != r: raise Violation("%r does not read back as itself" % r)
    if len(terms) > 1: ctx.nontrivial(t)
good = st.one_of(st.sampled_from(ALL), st.integers(0, 10 ** 6).map(str), st.builds(lambda k, v: "%d%s" % (k, v), st.integers(0, 10 ** 6), st.sampled_from(ALL)))
bad = st.one_of(st.sampled_from(["", "2n5", "n2", "2N", "-1", " n", "n ", "nn", "2.5", "n*2", "inf", "<x30>", "99999999999999999999999"]), st.text("0123456789naz-* N", max_size=5))
def text_cases(): return st.tuples(st.one_of(st.lists(good, min_size=1, max_size=5), st.lists(st.one_of(good, good, bad), min_size=1, max_size=3)), st.just(0)).map(list)

TESTS = [
    Test("ops", ops, strategy=ops_cases, quick=6000, thorough=150000),
    Test("near", near, strategy=near_cases, quick=3000, thorough=60000),
    Test("text", text, strategy=text_cases, quick=1000, thorough=20000),
]
