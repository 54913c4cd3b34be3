"""C18: Exp_Int arithmetic against plain integers, an independent modular evaluator and exact comparison of constructed neighbours."""
import math
from hypothesis import strategies as st
from core import Test, Violation, Rejected

PROPERTY = "C18"
RULE = "an expression that contains at least one power and on which at least five relations (value, sign, remainder, comparison, text) were compared"
ASSUMPTIONS = ["bases 2..30, exponents >= 0, one base per sum or product (mixed bases may be refused)",
    "refusing (ExpIntException, or NotImplementedError for a modulus with a prime factor above 97) is accepted only when some quantity in the expression may exceed 2^900",
    "values are compared exactly up to about 2^60000; beyond that remainders use an independent Euler-theorem evaluator and comparisons use neighbours whose order is known by construction"]
BUDGET = dict(quick=240, thorough=900)

LIMIT_BITS = 60000

class Big(Exception): pass

# ---- exact evaluation -------------------------------------------------------
def exact(t):
    """Exact int, or raises Big."""
    k = t[0]
    if k == "i": return t[1]
    if k == "p":
        x = exact(t[2])
        if x < 0: raise Rejected()
        if x > LIMIT_BITS or x * math.log2(t[1]) > LIMIT_BITS: raise Big()
        return t[1] ** x
    if k == "n": return -exact(t[1])
    if k in ("/", "//"): return exact(t[1]) // t[2]
    a, b = exact(t[1]), exact(t[2])
    r = a + b if k == "+" else a - b if k == "-" else a * b
    if r.bit_length() > 4 * LIMIT_BITS: raise Big()
    return r

def absbits(t):
    """Upper bound of the bit length any term can reach in the numerator of t."""
    k = t[0]
    if k == "i": return t[1].bit_length()
    if k == "p":
        if absbits(t[2]) > 11: return 10**9
        return exact(t[2]) * math.log2(t[1]) + 1
    if k == "n": return absbits(t[1])
    if k in ("/", "//"): return absbits(t[1]) + 1
    a, b = absbits(t[1]), absbits(t[2])
    return a + b if k == "*" else max(a, b) + 8
def small_powers(t):
    """Is every quantity in t (exponents included) far below the size from which only formulas are kept?"""
    if t[0] == "p" and not small_powers(t[2]): return False
    return absbits(t) < 900

def powers(t):
    if t[0] == "i": return 0
    return (t[0] == "p") + sum(powers(c) for c in t[1:] if isinstance(c, list))

# ---- independent remainder of towers -----------------------------------------
def factor(n):
    f = {}; p = 2
    while p * p <= n:
        while n % p == 0: f[p] = f.get(p, 0) + 1; n //= p
        p += 1
    if n > 1: f[n] = f.get(n, 0) + 1
    return f
def phi(n):
    r = 1
    for p, k in factor(n).items(): r *= (p - 1) * p ** (k - 1)
    return r
def rem(t, m):
    try: return exact(t) % m
    except Big: pass
    if m < 0: return rem(t, -m) % m
    k = t[0]
    if k == "p":
        try: return pow(t[1], exact(t[2]), m)
        except Big: pass
        # exponent is astronomically large: b^x = b^(x mod phi + phi*c) once the exponent exceeds log2 m
        f = phi(m)
        return pow(t[1], rem(t[2], f) + f * (m.bit_length() // f + 1), m)
    if k == "n": return -rem(t[1], m) % m
    if k in ("/", "//") and t[2] < 0: return rem([k, ["n", t[1]], -t[2]], m)
    if k in ("/", "//"): return ((rem(t[1], m * t[2]) - rem(t[1], t[2])) // t[2]) % m
    a, b = rem(t[1], m), rem(t[2], m)
    return (a + b if k == "+" else a - b if k == "-" else a * b) % m
def denoms(t):
    if t[0] == "i": return 1
    r = abs(t[2]) if t[0] in ("/", "//") else 1
    for c in t[1:]:
        if isinstance(c, list): r *= denoms(c)
    return r

# ---- the code under test --------------------------------------------------------
KEPT = []          # every intermediate value of the case with its expression: later operations must not change it
def build(t, E):
    v = build_(t, E)
    if not isinstance(v, int): KEPT.append((v, t))
    return v
def kept_unchanged(E, ctx):
    for v, t in KEPT:
        if 27720 % denoms(t): continue
        try: r = v % 27720
        except (E.ExpIntException, NotImplementedError): continue
        w = rem(t, 27720); ctx.evals += 1
        if r != w: raise Violation("%s %% 27720 is %r after the value was used in other operations, should be %d" % (show(t), r, w))
def build_(t, E):
    k = t[0]
    if k == "i": return t[1]
    if k == "p": return E.exp_int(t[1], build(t[2], E))
    if k == "n": return -build(t[1], E)
    a = build(t[1], E)
    if k == "/":
        if isinstance(a, int): return a // t[2]
        return (a - a % t[2]) / t[2]
    if k == "//":
        if isinstance(a, int): return a // t[2]
        q, r = divmod(a, t[2])
        if not isinstance(r, int): raise Violation("divmod(..., %d) has remainder %r" % (t[2], r))
        return q
    b = build(t[2], E)
    return a + b if k == "+" else a - b if k == "-" else a * b

def show(t):
    k = t[0]
    if k == "i": return str(t[1])
    if k == "p": return "%d^(%s)" % (t[1], show(t[2]))
    if k == "n": return "-(%s)" % show(t[1])
    return "(%s %s %s)" % (show(t[1]), k, show(t[2]) if isinstance(t[2], list) else t[2])

def guarded(f, t, E, what):
    """Runs f; a refusal is only in order when some power is beyond the exact range."""
    try: return True, f()
    except E.ExpIntException as e:
        if all(small_powers(x) for x in t): raise Violation("%s refused although every power is small: %s: %s" % (what, " ; ".join(show(x) for x in t), e))
        return False, None

def text_value(V):
    s = str(V)
    if len(s) > 2000: return None
    return s.replace("^", "**").replace("/", "//")

def domain(*trees):
    """Exponents must not be negative."""
    for t in trees:
        if t[0] == "p":
            try:
                if exact(t[2]) < 0: raise Rejected()
            except Big: pass
        domain(*(c for c in t[1:] if isinstance(c, list)))

# ---- strategies ------------------------------------------------------------------
def ints(): return st.one_of(st.integers(-12, 12), st.integers(-10**6, 10**6), st.sampled_from([2**63, -2**63, 10**30, 10**320, -10**320, 2**1000, 3**700, 2**1999]))
def pos(): return st.one_of(st.integers(1, 12), st.integers(1, 200), st.sampled_from([332, 333, 500, 996, 997, 998, 999, 1000, 1001, 1002, 1023, 1500, 3000, 5000]))
BASES = [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 27, 30]
@st.composite
def exponent(draw, depth):
    c = draw(st.integers(0, 9)) if depth else 0
    if c < 5: return ["i", draw(pos())]
    x = ["p", draw(st.sampled_from(BASES)), draw(exponent(depth - 1))]
    for _ in range(draw(st.integers(0, 2))):
        op = draw(st.sampled_from("++*/-s"))
        if op == "+": x = ["+", x, ["i", draw(st.integers(0, 50))]]
        elif op == "*": x = ["*", x, ["i", draw(st.integers(1, 9))]]
        elif op == "/": x = ["//", x, draw(st.integers(2, 9))]
        elif op == "-": x = ["-", x, ["i", draw(st.integers(0, 50))]]
        else:
            b = x
            while b[0] != "p": b = b[1]
            x = ["+", x, ["p", b[1], draw(exponent(depth - 1))]]
    return x
@st.composite
def expr(draw, base, depth, size):
    if size <= 1 or draw(st.integers(0, 5)) == 0:
        if draw(st.integers(0, 3)) == 0: return ["i", draw(ints())]
        x = ["p", base, draw(exponent(depth))]
        c = draw(st.integers(0, 4))
        if c == 0: x = ["*", ["i", draw(ints())], x]
        elif c == 1: x = ["n", x]
        return x
    op = draw(st.sampled_from(["+", "+", "-", "-", "*", "/", "//", "n"]))
    if op == "n": return ["n", draw(expr(base, depth, size - 1))]
    if op in ("/", "//"): return [op, draw(expr(base, depth, size - 1)), draw(st.sampled_from([2, 3, 4, 5, 6, 7, 8, 9, 12, 30, 49, 96, -1, -2, -3, -4, -6, -9]))]
    k = draw(st.integers(1, size - 1))
    return [op, draw(expr(base, depth, k)), draw(expr(base, depth, size - k))]
@st.composite
def case(draw):
    base = draw(st.sampled_from(BASES)); depth = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3]))
    a = draw(expr(base, depth, draw(st.integers(1, 6))))
    b = draw(st.one_of(expr(base, depth, draw(st.integers(1, 4))), st.just(None)))
    return dict(a=a, b=b, off=draw(st.lists(st.sampled_from([0, 0, 1, -1, 2, -2, 10, -10**9, 10**9]), min_size=1, max_size=2)),
        mods=draw(st.lists(st.one_of(st.integers(1, 100), st.sampled_from([128, 1000, 1024, 97, 97 * 97, 2**20, 3**9, 9699690, 101, 210 * 210, -1, -2, -3, -5, -7, -8, -12, -1024, -101])), min_size=1, max_size=3)))

def cmp(a, b): return (a > b) - (a < b)
def relations(X, Y, want, t, E, ctx, what):
    """All four comparisons, both ways round."""
    for f, w in ((lambda: X > Y, want > 0), (lambda: X >= Y, want >= 0), (lambda: X < Y, want < 0), (lambda: X <= Y, want <= 0),
                 (lambda: Y > X, want < 0), (lambda: Y >= X, want <= 0), (lambda: Y < X, want > 0), (lambda: Y <= X, want >= 0)):
        ok, r = guarded(f, t, E, "comparison")
        if not ok: ctx.label("comparison refused"); return
        ctx.evals += 1
        if bool(r) != w: raise Violation("comparison %s is wrong (true sign of the difference: %d)" % (what, want))

def arith(c, ctx):
    import Exp_Int as E
    a, b = c["a"], c["b"]; KEPT.clear()
    if not powers(a): raise Rejected()
    domain(a, b or ["i", 0])
    T = [a]
    try: v = exact(a)
    except Big: v = None
    ok, V = guarded(lambda: build(a, E), T, E, "building")
    if not ok: ctx.label("refused"); return
    n = 0
    if v is not None:
        ctx.label("exact")
        got = E.try_eval(V)
        if got is None and small_powers(a): raise Violation("no value although every power is small: %s" % show(a))
        if got is not None:
            n += 1
            if not isinstance(got, int) or got != v: raise Violation("value of %s is %s, should be %s" % (show(a), str(got)[:80], str(v)[:80]))
        ok, s = guarded(lambda: E.sign(V), T, E, "sign")
        if ok:
            n += 1
            if s != cmp(v, 0): raise Violation("sign of %s is %r, value is %s..." % (show(a), s, str(v)[:30]))
        if not isinstance(V, int) and v.bit_length() < 20000:
            tv = text_value(V)
            if tv:
                n += 1
                if eval(tv, {}) != v: raise Violation("text %s of %s does not denote its value" % (str(V)[:200], show(a)))
            got = E.try_simplify(V)
            if isinstance(got, int) and got != v: raise Violation("simplified value of %s is wrong" % show(a))
        for d in c["off"]:
            n += 1
            relations(V, v + d, cmp(0, d), T, E, ctx, "of %s with its value%+d" % (show(a), d))
    else: ctx.label("beyond exact range")
    for m in c["mods"]:
        if isinstance(V, int): break
        try: ok, r = guarded(lambda: V % m, T, E, "remainder")
        except NotImplementedError:
            if max(factor(abs(m) * denoms(a)), default=1) <= 97: raise Violation("remainder of %s by %d not supported" % (show(a), m))
            ctx.label("modulus not supported"); continue
        if ok:
            n += 1; w = rem(a, m)
            if r != w: raise Violation("%s %% %d is %r, should be %d" % (show(a), m, r, w))
    if b is not None:
        T = [a, b]
        try: w = exact(b)
        except Big: w = None
        ok, W = guarded(lambda: build(b, E), T, E, "building")
        if ok:
            if v is not None and w is not None:
                n += 1
                relations(V, W, cmp(v, w), T, E, ctx, "of %s with %s" % (show(a), show(b)))
            if not isinstance(V, int) or not isinstance(W, int):
                ok1, D = guarded(lambda: V - W, T, E, "difference")
                if ok1:
                    ok2, s = guarded(lambda: E.sign(D), T, E, "sign")
                    if ok2:
                        ctx.label("order laws"); n += 1
                        relations(V, W, s, T, E, ctx, "of %s with %s (against the sign of their difference)" % (show(a), show(b)))
    kept_unchanged(E, ctx)
    if n >= 5: ctx.nontrivial(show(a))
    ctx.evals += n

# ---- neighbours of huge values: order known by construction --------------------------
@st.composite
def close(draw):
    base = draw(st.sampled_from(BASES))
    E = draw(exponent(3))
    side = lambda: dict(terms=draw(st.lists(st.tuples(st.one_of(st.integers(-20, 20), st.sampled_from([base, base**2, base**5 + 1, -base**3, 7**10 + 1, -2, 2])), st.sampled_from([0, 0, 1, 2, 3, 5, 10, 60])), min_size=1, max_size=3)),
        k=draw(st.one_of(st.integers(-20, 20), st.sampled_from([10**320, -10**400, 2**70]))))
    return dict(base=base, E=E, a=side(), b=side(), low=draw(st.one_of(st.none(), st.integers(1, 30))))
def closefn(c, ctx):
    import Exp_Int as X
    b = c["base"]; E = c["E"]; KEPT.clear()
    domain(E)
    try:
        if exact(E) < 1500: raise Rejected()
    except Big: pass
    def side(s):
        t = None; coef = 0
        for k, d in s["terms"]:
            if k == 0: continue
            x = ["*", ["i", k], ["p", b, ["+", E, ["i", d]]]]
            t = x if t is None else ["+", t, x]; coef += k * b ** d
        k = s["k"]; low = c["low"]
        if t is None: return None, 0, k
        if low: t = ["+", t, ["p", b, ["i", low]]]; k += b ** low
        return ["+", t, ["i", s["k"]]], coef, k
    ta, ca, ka = side(c["a"]); tb, cb, kb = side(c["b"])
    if ta is None or tb is None: raise Rejected()
    # b^E > 2^1500 exceeds twice any k used here
    want = cmp(ca, cb) or cmp(ka, kb)
    T = [ta, tb]
    for t, co, k in ((ta, ca, ka), (tb, cb, kb)):
        ok, V = guarded(lambda: build(t, X), T, X, "building")
        if not ok: ctx.label("refused"); return
        ok, s = guarded(lambda: X.sign(V), T, X, "sign")
        if ok and s != (cmp(co, 0) or cmp(k, 0)): raise Violation("sign of %s is %r" % (show(t), s))
        if co == 0:
            got = X.try_eval(V)
            if got is not None and got != k: raise Violation("value of %s is %s" % (show(t), str(got)[:60]))
    ok, A = guarded(lambda: build(ta, X), T, X, "building"); ok2, B = guarded(lambda: build(tb, X), T, X, "building")
    relations(A, B, want, T, X, ctx, "of %s with %s" % (show(ta), show(tb)))
    ok, D = guarded(lambda: A - B, T, X, "difference")
    if ok:
        ok, s = guarded(lambda: X.sign(D), T, X, "sign")
        if ok and s != want: raise Violation("sign of (%s) - (%s) is %r, should be %d" % (show(ta), show(tb), s, want))
        if ok: ctx.nontrivial("%s|%s" % (show(ta), show(tb)))
    kept_unchanged(X, ctx)
    ctx.evals += 3

# ---- growing towers: monotone -----------------------------------------------------------
@st.composite
def towers(draw):
    return dict(base=draw(st.sampled_from(BASES)), x=draw(exponent(3)), y=draw(exponent(3)), k=draw(st.integers(1, 30)))
def mono(c, ctx):
    import Exp_Int as X
    b = c["base"]; KEPT.clear()
    domain(c["x"], c["y"])
    for t in (c["x"], c["y"]):
        try:
            if exact(t) < 1: raise Rejected()
        except Big: pass
    try: X0 = build(c["x"], X)
    except X.ExpIntException: ctx.label("refused"); return
    T = [["p", 2, ["i", 5000]]]
    P = X.exp_int(b, X0)
    for what, f, want in (("b^x > x", lambda: P > X0, True), ("b^x < b^(x+k)", lambda: P < X.exp_int(b, X0 + c["k"]), True), ("b^x + k > b^x", lambda: P + c["k"] > P, True),
            ("b^x >= b^x", lambda: P >= X.exp_int(b, X0), True), ("b^x > b^x", lambda: P > X.exp_int(b, X0), False), ("(k+1) b^x > b^x", lambda: P * (c["k"] + 1) > P, True),
            ("-b^x < b^x", lambda: -P < P, True), ("-b^x < -b^(x-..)", lambda: -(P + c["k"]) < -P, True)):
        ok, r = guarded(f, T, X, what)
        if ok and bool(r) != want: raise Violation("%s fails for b=%d x=%s k=%d" % (what, b, show(c["x"]), c["k"]))
        ctx.evals += 1
    try: Y0 = build(c["y"], X)
    except X.ExpIntException: return
    ok, r = guarded(lambda: (X0 > Y0) if not isinstance(X0, int) else not (Y0 >= X0), T, X, "x > y")
    ok2, q = guarded(lambda: P > X.exp_int(b, Y0), T, X, "b^x > b^y")
    if ok and ok2:
        ctx.nontrivial("%d %s %s" % (b, show(c["x"]), show(c["y"])))
        if bool(r) != bool(q): raise Violation("x > y is %r but b^x > b^y is %r: b=%d x=%s y=%s" % (r, q, b, show(c["x"]), show(c["y"])))
    try:
        v, w = exact(c["x"]), exact(c["y"])
        if ok2 and bool(q) != (v > w): raise Violation("b^x > b^y wrong: b=%d x=%s y=%s" % (b, show(c["x"]), show(c["y"])))
    except Big: pass

# ---- powers with unknowns: substitution -------------------------------------------------
@st.composite
def symbolic(draw):
    lin = lambda: [draw(st.integers(1, 4)), draw(st.integers(0, 6))]
    return dict(base=draw(st.sampled_from(BASES[:9])), terms=draw(st.lists(st.tuples(st.integers(-9, 9).filter(bool), st.integers(0, 1), st.integers(1, 4), st.integers(0, 9)), min_size=1, max_size=3)),
        const=draw(st.integers(-50, 50)), denom=draw(st.integers(1, 6)), vals=draw(st.lists(st.integers(0, 40), min_size=2, max_size=2)), later=draw(st.booleans()),
        lin=draw(st.one_of(st.none(), st.tuples(st.integers(0, 1), st.integers(-5, 5).filter(bool)))))
def symfn(c, ctx):
    import Exp_Int as X, Algebraic_Expression as A
    vs = [A.Variable(), A.Variable()]
    e = 0; want = 0
    for co, i, k, d in c["terms"]:
        e = e + co * X.exp_int(c["base"], k * A.VariableToExpression(vs[i]) + d)
        want += co * c["base"] ** (k * c["vals"][i] + d)
    e = e + c["const"]; want += c["const"]
    q = 1
    if want % c["denom"] == 0: q = c["denom"]
    if q != 1: e = e / q; want //= q
    if c["lin"]:
        e = e + c["lin"][1] * A.VariableToExpression(vs[c["lin"][0]]); want += c["lin"][1] * c["vals"][c["lin"][0]]
    used = {i for _, i, _, _ in c["terms"]} | ({c["lin"][0]} if c["lin"] else set())
    if set(A.variables(e)) != {vs[i] for i in used}: raise Violation("variables of %s" % e)
    m = A.min_val(e)
    if m > want: raise Violation("minimum of %s given as %s, but %s at %r" % (e, m, want, c["vals"]))
    if c["later"]:   # one variable at a time
        r = A.substitute(A.substitute(e, {vs[0]: c["vals"][0]}), {vs[1]: c["vals"][1]})
    else: r = A.substitute(e, {vs[0]: c["vals"][0], vs[1]: c["vals"][1]})
    got = X.try_eval(r)
    if got is None or got != want: raise Violation("%s with %r is %s, should be %d" % (e, c["vals"], r, want))
    ctx.nontrivial(str(e)); ctx.evals += 1

TESTS = [Test("arith", arith, strategy=case, quick=6000, thorough=120000),
         Test("close", closefn, strategy=close, quick=3000, thorough=60000),
         Test("monotone", mono, strategy=towers, quick=2000, thorough=40000),
         Test("symbolic", symfn, strategy=symbolic, quick=1500, thorough=20000)]
