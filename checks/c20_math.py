"""C20: number-theory helpers against definitions and independent algorithms."""
import math
from fractions import Fraction
from hypothesis import strategies as st
from core import Test, Violation, Rejected

PROPERTY = "C20"
RULE = "arguments that share a factor, form a proper power, have a repeated prime factor, or an exponent above the modulus"
ASSUMPTIONS = ["domains: gcd any integers; lcm positive integers; int_pow n >= 1 (small enough for its linear search); factorisation, Carmichael function and moduli with prime factors up to 97, others must be refused",
    "products and sums with floats: n >= 0 and 0.1 <= x <= 100 as used for logarithms; relative error 1e-12 or absolute error 2 is allowed"]
BUDGET = dict(quick=240, thorough=300)
P = [p for p in range(2, 98) if all(p % q for q in range(2, p))]
OVER = [101, 103, 107, 10007, 101 * 103, 101 * 101]

def nat(): return st.one_of(st.integers(0, 60), st.integers(0, 10**6), st.integers(0, 2**200))
@st.composite
def smooth(draw, big=True):
    n = 1
    for _ in range(draw(st.integers(0, 5))):
        n *= draw(st.one_of(st.sampled_from(P[:4]), st.sampled_from(P))) ** draw(st.one_of(st.integers(1, 3), st.integers(1, 12 if big else 3)))
    return n
def factor(n):
    f = []; p = 2
    while n > 1:
        k = 0
        while n % p == 0: n //= p; k += 1
        if k: f.append((p, k))
        p += 1
    return f
def lam(fs):
    r = 1
    for p, k in fs: r = math.lcm(r, (p - 1) * p ** (k - 1) if p > 2 or k < 3 else 2 ** (k - 2))
    return r

@st.composite
def pair(draw):
    g = draw(st.one_of(st.just(1), nat())); return [g * draw(nat()) * draw(st.sampled_from([1, 1, -1])), g * draw(nat()) * draw(st.sampled_from([1, 1, -1]))]
def gcdfn(c, ctx):
    import Math as M
    a, b = c
    g = M.gcd(a, b)
    if g != math.gcd(a, b): raise Violation("gcd(%d, %d) = %r" % (a, b, g))
    if a > 0 and b > 0:
        l = M.lcm(a, b)
        if l != math.lcm(a, b): raise Violation("lcm(%d, %d) = %r" % (a, b, l))
    if g > 1: ctx.nontrivial()

def powfn(n, ctx):
    import Math as M
    got = M.int_pow(n)
    best = (n, 1)
    for m in range(2, int(n ** (1 / 2)) + 2):
        if m >= n: break
        k, x = 1, m
        while x < n: x *= m; k += 1
        if x == n: best = (m, k); break
    if tuple(got) != best: raise Violation("int_pow(%d) = %r, should be %r" % (n, got, best))
    if best[1] > 1: ctx.nontrivial()
def pows():
    return st.one_of(st.integers(1, 3000), st.tuples(st.integers(2, 60), st.integers(1, 12)).map(lambda t: t[0] ** t[1]).filter(lambda n: n < 10**9), st.tuples(st.integers(2, 10), st.integers(1, 100)).map(lambda t: t[0] ** t[1]).filter(lambda n: n < 10**7 or n in [2**k for k in range(100)]),
        st.integers(2, 3000).map(lambda n: n * n), st.integers(2, 200).map(lambda n: n ** 3), st.integers(1, 2000).map(lambda n: n * n + 1))

def factfn(c, ctx):
    import Math as M
    n, over = c
    if over:
        for f in (M.prime_factor, M.carmichael):
            try: r = f(n * over)
            except NotImplementedError: continue
            raise Violation("%s(%d) = %r although %d has a prime factor above 97" % (f.__name__, n * over, r, over))
    fs = factor(n)
    got = M.prime_factor(n)
    if [tuple(x) for x in got] != fs: raise Violation("prime_factor(%d) = %r" % (n, got))
    l, k0 = M.carmichael(n)
    if l != lam(fs): raise Violation("carmichael(%d) = %r, should be %d" % (n, l, lam(fs)))
    if k0 < max((k for _, k in fs), default=0): raise Violation("carmichael(%d): powers do not cycle from exponent %d on" % (n, k0))
    if n < 400:   # definition
        units = [a for a in range(1, n + 1) if math.gcd(a, n) == 1]
        m = 1
        while any(pow(a, m, n) != 1 % n for a in units): m += 1
        if m != l: raise Violation("carmichael(%d) = %d, by definition %d" % (n, l, m))
        for a in range(n):
            if pow(a, k0, n) != pow(a, k0 + l, n): raise Violation("%d^%d and %d^%d differ modulo %d" % (a, k0, a, k0 + l, n))
    if any(k > 1 for _, k in fs): ctx.nontrivial()

@st.composite
def modcase(draw):
    m = draw(st.one_of(st.integers(1, 96), smooth(), smooth(False)))
    b = draw(st.one_of(st.integers(0, 200), nat(), smooth(False)))
    k = draw(st.one_of(st.integers(0, 20), st.integers(0, 10**4), st.integers(0, 2**300)))
    return [b, k, m]
def modfn(c, ctx):
    import Math as M
    b, k, m = c
    if any(p > 97 for p, _ in factor(m)): raise Rejected()
    r = M.exp_mod(b, k, m)
    if r != pow(b, k, m): raise Violation("exp_mod(%d, %d, %d) = %r, should be %d" % (b, k, m, r, pow(b, k, m)))
    if k > m > 1: ctx.nontrivial()

@st.composite
def towercase(draw): return dict(b=draw(st.lists(st.integers(2, 12), min_size=2, max_size=5)), top=draw(st.integers(1, 3000)), m=draw(st.one_of(st.integers(2, 96), smooth(False).filter(lambda n: n > 1))))
def tower_mod(bs, top, m):
    if m == 1: return 0
    if len(bs) == 1: return pow(bs[0], top, m)
    # exact exponent if small
    x = top; small = True
    for b in reversed(bs[1:]):
        if x > 60: small = False; break
        x = b ** x
    if small: return pow(bs[0], x, m)
    f = lam(factor(m)); add = f * (m.bit_length() // f + 1)
    return pow(bs[0], tower_mod(bs[1:], top, f) + add, m)
def towerfn(c, ctx):
    import Math as M, Exp_Int as E
    x = c["top"]
    for b in reversed(c["b"][1:]): x = E.exp_int(b, x)
    r = M.exp_mod(c["b"][0], E.try_simplify(x), c["m"]); w = tower_mod(c["b"], c["top"], c["m"])
    if r != w: raise Violation("%r^%d mod %d is %r, should be %d" % (c["b"], c["top"], c["m"], r, w))
    ctx.nontrivial()

@st.composite
def prec(draw): return [draw(st.one_of(nat(), st.integers(0, 2**60), st.sampled_from([2**49 - 1, 2**49, 2**50 - 1, 2**50, 2**50 + 1, 2**53 + 1, 2**1100, 10**400]))), draw(st.one_of(st.floats(0.1, 100), st.integers(2, 100).map(math.log10), st.integers(2, 10**6).map(math.log10)))]
def precfn(c, ctx):
    import Math as M
    n, x = c
    for name, got, want in (("mult", M.prec_mult(n, x), Fraction(n) * Fraction(x)), ("add", M.prec_add(n, x), n + Fraction(x)), ("add", M.prec_add(n, -x), n - Fraction(x)), ("add", M.prec_add(float(min(n, 10**15)) + 0.5, x), Fraction(float(min(n, 10**15)) + 0.5) + Fraction(x))):
        tol = 2 if n >= 2**49 else Fraction(1, 10**9)
        if isinstance(got, float) and not math.isfinite(got): raise Violation("prec_%s(%d, %r) = %r" % (name, n, x, got))
        if abs(Fraction(got) - want) > tol + abs(want) / 2**50: raise Violation("prec_%s(%d, %r) = %r, should be about %s" % (name, n, x, got, str(want.__round__())[:60]))
    if n >= 2**49: ctx.nontrivial()

TESTS = [Test("gcd_lcm", gcdfn, strategy=pair, quick=3000, thorough=60000, examples=[[0, 0], [0, 5], [5, 0], [-4, 6]]),
         Test("int_pow", powfn, strategy=pows, quick=3000, thorough=40000),
         Test("int_pow_all", powfn, cases=lambda tier, rng: list(range(1, 4000 if tier == "quick" else 40000))),
         Test("factor", factfn, strategy=lambda: st.tuples(st.one_of(smooth(), st.sampled_from([n for n in range(1, 400) if all(p < 98 for p, _ in factor(n))])), st.sampled_from([0, 0, 0] + OVER)).map(list), quick=2500, thorough=40000),
         Test("exp_mod", modfn, strategy=modcase, quick=6000, thorough=100000),
         Test("exp_mod_all", modfn, cases=lambda tier, rng: [[b, k, m] for m in range(1, 65) for b in range(0, 20) for k in range(0, 40 if tier == "quick" else 130)]),
         Test("towers", towerfn, strategy=towercase, quick=3000, thorough=50000),
         Test("precision", precfn, strategy=prec, quick=3000, thorough=50000)]
