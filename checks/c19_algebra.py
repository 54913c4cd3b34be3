"""C19: Algebraic_Expression against an independent polynomial model and evaluation."""
import math
from fractions import Fraction
from hypothesis import strategies as st
from core import Test, Violation, Rejected

PROPERTY = "C19"
RULE = "an expression with at least one variable and two operations, compared with the model as a polynomial and at sampled assignments"
ASSUMPTIONS = ["bounds and always-greater answers are over non-negative integer assignments (documented)", "division is by non-zero integers; results may be fractions",
    "text round trip is for expressions with integer coefficients"]
BUDGET = dict(quick=240, thorough=600)
NV = 4
IDS = [0, 1, 25, 26, 113]      # printed a, b, z, <x26>, <x113>

# ---- model: dict {((var, power), ...): coefficient} --------------------------------------
def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0: del r[m]
    return r
def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            e = dict(m)
            for v, k in n: e[v] = e.get(v, 0) + k
            key = tuple(sorted(e.items()))
            r[key] = r.get(key, 0) + c * d
            if r[key] == 0: del r[key]
    return r
def const(c): return {(): c} if c else {}
def psub(p, subs):
    r = {}
    for m, c in p.items():
        t = const(c)
        for v, k in m:
            f = subs.get(v, {((v, 1),): 1})
            for _ in range(k): t = pmul(t, f)
        r = padd(r, t)
    return r
def peval(p, vals):
    r = Fraction(0)
    for m, c in p.items():
        x = Fraction(c)
        for v, k in m: x *= vals[v] ** k
        r += x
    return r
def degree(p): return max((sum(k for _, k in m) for m in p), default=0)

# ---- expressions ---------------------------------------------------------------------------
def coef(): return st.one_of(st.integers(-5, 5), st.integers(-5, 5), st.sampled_from([1, -1, 0, 2, 10**20, -10**20]))
@st.composite
def tree(draw, size):
    if size <= 1:
        if draw(st.integers(0, 3)) == 0: return ["c", draw(coef())]
        return [draw(st.sampled_from(["v", "v", "vc"])), draw(st.integers(0, NV - 1)), draw(st.integers(-4, 9))]
    k = draw(st.sampled_from(["+", "+", "-", "-", "*", "*", "n", "/", "^", "s", "ci", "rs"]))
    if k == "n": return [k, draw(tree(size - 1))]
    if k == "/": return [k, draw(tree(size - 1)), draw(st.sampled_from([1, 2, 3, 4, 6, -1, -2]))]
    if k == "^": return [k, draw(tree(size - 1)), draw(st.integers(0, 3))]
    if k == "ci": return [draw(st.sampled_from(["+i", "*i", "-i"])), draw(tree(size - 1)), draw(coef())]
    if k == "rs": return ["i-", draw(coef()), draw(tree(size - 1))]
    a = draw(st.integers(1, size - 1))
    if k == "s": return [k, draw(tree(a)), draw(st.integers(0, NV - 1)), draw(tree(size - a))]
    return [k, draw(tree(a)), draw(tree(size - a))]

def expr(x, A): return x if A.is_expr(x) else A.ConstantToExpression(x)
KEPT = []          # every intermediate expression of the case with its model: later operations must not change it
def ev(t, A, V):
    """(object, model)"""
    r = ev_(t, A, V); KEPT.append(r + (t,)); return r
def ev_(t, A, V):
    k = t[0]
    if k == "c": return A.ConstantToExpression(t[1]), const(t[1])
    if k == "v": return A.VariableToExpression(V[t[1]]), {((t[1], 1),): 1}
    if k == "vc": return A.VarPlusConstExpression(V[t[1]], t[2]), padd({((t[1], 1),): 1}, const(t[2]))
    if k == "i-":
        e, p = ev(t[2], A, V); return expr(t[1] - e, A), padd(const(t[1]), p, -1)
    e, p = ev(t[1], A, V)
    if k == "n": return expr(-e, A), padd({}, p, -1)
    if k == "/": return expr(e / t[2], A), {m: Fraction(c) / t[2] for m, c in p.items()}
    if k == "^":
        q = const(1)
        for _ in range(t[2]):
            q = pmul(q, p)
            if degree(q) > 8 or len(q) > 150: raise Rejected()
        return expr(e ** t[2], A), q
    if k == "+i": return expr(e + t[2] if t[2] % 2 else t[2] + e, A), padd(p, const(t[2]))
    if k == "-i": return expr(e - t[2], A), padd(p, const(-t[2]))
    if k == "*i": return expr(e * t[2] if t[2] % 2 else t[2] * e, A), pmul(p, const(t[2]))
    if k == "s":
        f, q = ev(t[3], A, V)
        if degree(p) * max(degree(q), 1) > 8 or len(p) * len(q) ** min(degree(p), 4) > 3000: raise Rejected()
        return expr(A.substitute(e, {V[t[2]]: f}), A), psub(p, {t[2]: q})
    f, q = ev(t[2], A, V)
    if k == "+": return expr(e + f, A), padd(p, q)
    if k == "-": return expr(e - f, A), padd(p, q, -1)
    if degree(p) + degree(q) > 8 or len(p) * len(q) > 400: raise Rejected()
    return expr(e * f, A), pmul(p, q)

def check(e, p, A, V, vals, t):
    for v in vals:
        got = A.substitute(e, {V[i]: v[i] for i in range(NV)}); want = peval(p, v)
        if A.is_expr(got) or got != want: raise Violation("%s at %r is %s, should be %s (from %r)" % (e, v, got, want, t))
        if not isinstance(got, (int, Fraction)): raise Violation("%s at %r is %r, not an exact number" % (e, v, got))
    vs = {v for m in p for v, _ in m}
    if set(A.variables(e)) != {V[i] for i in vs}: raise Violation("variables of %s are %r, should be %r (from %r)" % (e, A.variables(e), vs, t))
    if A.is_const(e) != (not vs): raise Violation("is_const(%s) is %r" % (e, A.is_const(e)))
    m = A.min_val(e)
    for v in vals:
        if all(x >= 0 for x in v) and m > peval(p, v): raise Violation("lower bound %s of %s exceeds its value at %r" % (m, e, v))
    if m != -math.inf and m > peval(p, [0] * NV): raise Violation("lower bound %s of %s exceeds its value at zero" % (m, e))
    lin = e.as_strictly_linear(); nc = {m: c for m, c in p.items() if m}
    isl = len(nc) == 1 and sum(k for _, k in next(iter(nc))) == 1
    if (lin is not None) != isl: raise Violation("as_strictly_linear(%s) is %r" % (e, lin))
    if isl:
        (mon, c), = nc.items()
        if lin[0] != V[mon[0][0]] or lin[1] != c or lin[2] != p.get((), 0): raise Violation("as_strictly_linear(%s) is %r" % (e, lin))
    vpc = isl and next(iter(nc.values())) == 1
    if bool(e.is_var_plus_const()) != vpc: raise Violation("is_var_plus_const(%s) is %r" % (e, e.is_var_plus_const()))
    try: r = e.variable_restricted()
    except A.BadOperation: r = None
    if (r is not None) != vpc or vpc and r != V[next(iter(nc))[0][0]]: raise Violation("variable_restricted(%s) is %r" % (e, r))
    if len(nc) == 1 and len(next(iter(nc))) == 1 and e.variable() != V[next(iter(nc))[0][0]]: raise Violation("variable of %s is %r" % (e, e.variable()))
    if all(Fraction(c).denominator == 1 for c in p.values()) and all(isinstance(x, int) for x in e.scalars()):
        b = A.Expression_from_string(repr(e))
        if not b == e or repr(b) != repr(e): raise Violation("%s printed and parsed is %s" % (e, b))
        for v in vals[:1]:
            if A.substitute(b, {V[i]: v[i] for i in range(NV)}) != peval(p, v): raise Violation("%s parsed has another value" % e)

@st.composite
def case(draw):
    a = draw(tree(draw(st.integers(2, 7))))
    return dict(a=a, b=draw(st.one_of(st.none(), tree(draw(st.integers(1, 6))), st.just(a))), vals=draw(st.lists(st.lists(st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(-5, 300)), min_size=NV, max_size=NV), min_size=2, max_size=4)),
        ids=draw(st.permutations(range(5))), extra=draw(tree(2)))
def fn(c, ctx):
    import Algebraic_Expression as A
    import Common
    if not hasattr(A, "is_const"): A.is_const = Common.is_const
    V = [A.Variable(IDS[i]) for i in c["ids"][:NV]]; KEPT.clear()
    e, p = ev(c["a"], A, V)
    check(e, p, A, V, c["vals"], c["a"])
    ctx.evals += len(c["vals"]) + 6
    if c["b"] is not None:
        f, q = ev(c["b"], A, V)
        x, y = ev(c["extra"], A, V)
        # same polynomial put together in another way
        pairs = [(e, p, f, q), (e + f, padd(p, q), f + e, padd(p, q)), ((e + x) - x, p, e, p), (e + f - e, q, f, q)]
        if degree(p) + degree(y) <= 8 and len(p) * len(y) < 200: pairs.append((e * (x + 1), pmul(p, padd(y, const(1))), e * x + e, padd(pmul(p, y), p)))
        for g, gp, h, hp in pairs:
            g, h = expr(g, A), expr(h, A)
            d = padd(gp, hp, -1)
            if (g == h) != (not d) or (g != h) != bool(d): raise Violation("%s == %s is %r" % (g, h, g == h))
            for name, ans, strict in (("always_ge", A.always_ge(g, h), False), ("always_gt", A.always_gt(g, h), True)):
                if ans:
                    ctx.label(name + " yes")
                    for v in [[0] * NV] + [[1 if i == j else 0 for i in range(NV)] for j in range(NV)] + c["vals"]:
                        if min(v) < 0: continue
                        z = peval(d, v)
                        if z < 0 or strict and z == 0: raise Violation("%s(%s, %s) but the difference is %s at %r" % (name, g, h, z, v))
                elif not {m: k for m, k in d.items() if m} and (d.get((), 0) > 0 or d.get((), 0) == 0 and not strict): raise Violation("%s(%s, %s) denied though the difference is the constant %s" % (name, g, h, d.get((), 0)))
        if not p == const(p.get((), 0)):
            k = p.get((), 0)
            if e == k: raise Violation("%s equals the number %s" % (e, k))
        elif not e == p.get((), 0): raise Violation("%s differs from the number %s" % (e, p.get((), 0)))
        if e == math.inf: raise Violation("%s equals infinity" % e)
    for g, gp, t in KEPT:
        v = c["vals"][0]; got = A.substitute(g, {V[i]: v[i] for i in range(NV)})
        if A.is_expr(got) or got != peval(gp, v): raise Violation("%r at %r is %s after it was used in other operations, should be %s" % (t, v, got, peval(gp, v)))
    if any(m for m in p): ctx.nontrivial((repr(e), c["a"]))

def fresh(n, ctx):
    import Algebraic_Expression as A
    vs = [A.NewVariableExpression() for _ in range(n)]
    ids = [e.variable() for e in vs]
    if len(set(ids)) != n: raise Violation("new variables are not distinct")
    ctx.nontrivial(n)
TESTS = [Test("polynomials", fn, strategy=case, quick=40000, thorough=400000),
         Test("fresh", fresh, strategy=lambda: st.integers(2, 60), quick=30, thorough=200)]
