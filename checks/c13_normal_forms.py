import io, itertools
from hypothesis import strategies as st
import core, ref, gen
from core import Test, Violation, Rejected
core.setup_paths()
import IO, TNF, LNF, Permute, Adjacent, Zero_Reflexive

PROPERTY = "C13"
RULE = ("case = machine (as text), a renaming of states and symbols, a mirror flag and a step limit.  Non-trivial = tree normal form: the renaming was not the identity and at least 2 states and all symbols "
        "were ordered by the run; lexical normal form: the table changed; neighbours: at least two running transitions; start states: 2+ states")
ASSUMPTIONS = ["machines whose very first transition halts or is undefined have no first direction: only behaviour, not canonicity under mirroring, is checked for them",
               "tree normal form orders symbols by first write and states by first visit, and the last one left over needs no visit (as the enumerator does)"]
BUDGET = dict(quick=150, thorough=1500)

def table(tm):
    rows = tm.split("_"); out = []
    for r in rows:
        row = []
        for i in range(0, len(r), 3):
            t = r[i:i + 3]
            if t == "---": row.append(None)
            else:
                q = ord(t[2]) - 65
                row.append("H" if q >= len(rows) else (int(t[0]), t[1], q))
        out.append(row)
    return out
def text(tab): return "_".join("".join("---" if c is None else "1RZ" if c == "H" else "%d%s%s" % (c[0], c[1], chr(65 + c[2])) for c in row) for row in tab)
OTHER = {"L": "R", "R": "L"}

def rename(tab, smap, ymap, flip):
    """smap[old state] = new state, ymap[old symbol] = new symbol"""
    out = [[None] * len(tab[0]) for _ in tab]
    for q, row in enumerate(tab):
        for s, c in enumerate(row):
            out[smap[q]][ymap[s]] = c if c in (None, "H") else (ymap[c[0]], OTHER[c[1]] if flip else c[1], smap[c[2]])
    return out

def order(tab, limit):
    """(state order, symbol order, step at which both were complete, steps until halt or None).  Own run of the table."""
    ns, ny = len(tab), len(tab[0])
    so, yo = [0], [0]
    tape, pos, q, t = {}, 0, 0, 0
    def fill(o, n):
        if len(o) == n - 1: o.append((set(range(n)) - set(o)).pop())
    first = True
    while True:
        if len(so) == ns and len(yo) == ny: return so, yo, t, False
        c = tab[q][tape.get(pos, 0)]
        if c in (None, "H"):
            fill(so, ns); fill(yo, ny)   # after the halting step what is left over is known too
            return so, yo, t + 1, True
        if t >= limit: return so, yo, t, False
        w, d, nq = c
        tape[pos] = w; pos += 1 if d == "R" else -1; q = nq; t += 1
        if w not in yo: yo.append(w)
        if nq not in so: so.append(nq)
        fill(so, ns); fill(yo, ny)

def tnf(tm, limit):
    src = IO.parse_tm(tm); before = src.ttable_str(); r = TNF.to_TNF(src, limit)
    if src.ttable_str() != before: raise Violation("to_TNF changed its argument %s to %s" % (before, src.ttable_str()))
    return None if r is None else r.ttable_str()

def check_tnf(case, ctx):
    tm, limit = case["tm"], case["limit"]
    tab = table(tm); ns, ny = len(tab), len(tab[0])
    so, yo, t, halted = order(tab, limit + 5)
    complete = len(so) == ns and len(yo) == ny
    got = tnf(tm, limit)
    first = tab[0][0]
    # expected
    if not complete:
        if got is not None: raise Violation("to_TNF(%s, %d) = %s, but the run does not order all states and symbols" % (tm, limit, got))
        ctx.label("cannot be ordered")
        return
    if got is None:
        if t <= limit: raise Violation("to_TNF(%s, %d) gives up, but %d steps are enough" % (tm, limit, t))
        return
    if t > limit + 1: raise Violation("to_TNF(%s, %d) = %s needs %d steps" % (tm, limit, got, t))
    g = table(got)
    smap = {o: i for i, o in enumerate(so)}; ymap = {o: i for i, o in enumerate(yo)}
    flips = [first[1] == "L"] if first not in (None, "H") else [False, True]
    wants = [text(rename(tab, smap, ymap, f)) for f in flips]
    if got not in wants: raise Violation("to_TNF(%s) = %s, the tree normal form is %s" % (tm, got, wants[0]))
    if tnf(got, limit + 2) != got: raise Violation("to_TNF is not idempotent: %s -> %s -> %s" % (tm, got, tnf(got, limit + 2)))
    if first in (None, "H"): return
    # every renamed and mirrored version has the same normal form
    sp = [0] + [1 + x for x in case["sperm"] if x < ns - 1]; yp = [0] + [1 + x for x in case["yperm"] if x < ny - 1]
    other = text(rename(tab, dict(enumerate(sp)), dict(enumerate(yp)), case["flip"]))
    go = tnf(other, limit + 2)
    ctx.evals += 2
    if go != got: raise Violation("%s and its renamed version %s have different normal forms: %s, %s" % (tm, other, got, go))
    if other != text(tab) and t >= 2: ctx.nontrivial((ns, ny)); ctx.label("%dx%d" % (ns, ny))

def check_permute_table(case, ctx):
    tab = table(case["tm"]); ns, ny = len(tab), len(tab[0])
    so = [x for x in case["so"] if x < ns]; yo = [x for x in case["yo"] if x < ny]
    src = IO.parse_tm(case["tm"])
    before = src.ttable_str()
    got = TNF.permute_table(src, so, yo, case["flip"]).ttable_str()
    want = text(rename(tab, {o: i for i, o in enumerate(so)}, {o: i for i, o in enumerate(yo)}, case["flip"]))
    if got != want: raise Violation("permuting %s by %r %r (mirror %r) gives %s, expected %s" % (case["tm"], so, yo, case["flip"], got, want))
    if src.ttable_str() != before: raise Violation("permuting changed the original machine %s to %s" % (before, src.ttable_str()))
    if so != sorted(so) and yo != sorted(yo): ctx.nontrivial()

def lnf_oracle(tab):
    ns, ny = len(tab), len(tab[0])
    return min(text(rename(tab, dict(enumerate(sp)), dict(enumerate(yp)), f)) for sp in itertools.permutations(range(ns)) for yp in itertools.permutations(range(ny)) for f in (False, True))

def trace(tab, q, s0, n, mirror=False):
    """sequence of (state, symbol read, position), with blank = s0"""
    tape, pos, out = {}, 0, []
    for _ in range(n):
        x = tape.get(pos, s0)
        out.append((q, x, pos))
        c = tab[q][x]
        if c in (None, "H"): out.append(c); break
        tape[pos] = c[0]; pos += 1 if (c[1] == "R") != mirror else -1; q = c[2]
    return out

def check_lnf(case, ctx):
    tm = case["tm"]; tab = table(tm); ns, ny = len(tab), len(tab[0])
    src = IO.parse_tm(tm); before = src.ttable_str()
    r = LNF.brute_lnf(src)
    got = r.ttable_str()
    if src.ttable_str() != before: raise Violation("lexical normal form changed its argument %s" % before)
    want = lnf_oracle(tab)
    if got != want: raise Violation("lexical normal form of %s is %s, got %s" % (tm, want, got))
    q0, s0 = int(r.init_state), int(r.init_symbol)
    # same run from the reported start
    a = trace(tab, 0, 0, 200); ok = False
    g = table(got)
    for mirror in (False, True):
        b = trace(g, q0, s0, 200, mirror)
        if len(a) != len(b): continue
        sm, ym = {}, {}; good = True
        for x, y in zip(a, b):
            if not (isinstance(x, tuple) and isinstance(y, tuple)): good = good and x == y; continue
            if x[2] != y[2] or sm.setdefault(x[0], y[0]) != y[0] or ym.setdefault(x[1], y[1]) != y[1]: good = False; break
        if good and len(set(sm.values())) == len(sm) and len(set(ym.values())) == len(ym): ok = True
    if not ok: raise Violation("lexical normal form of %s: %s started in state %d on symbol %d does not run like the original" % (tm, got, q0, s0))
    sp = [x for x in case["so"] if x < ns]; yp = [x for x in case["yo"] if x < ny]
    other = text(rename(tab, dict(enumerate(sp)), dict(enumerate(yp)), case["flip"]))
    g2 = LNF.brute_lnf(IO.parse_tm(other)).ttable_str()
    if g2 != got: raise Violation("%s and its renamed version %s have different lexical normal forms: %s, %s" % (tm, other, got, g2))
    if got != text(tab): ctx.nontrivial(); ctx.label("%dx%d" % (ns, ny))

def canon(tab, q0, limit=3000):
    """visited part, relabelled by first visit / first write and mirrored to start to the right, plus length of the run"""
    smap, ymap = {q0: 0}, {0: 0}
    tape, pos, q = {}, 0, q0
    flip, seen, out = None, {}, []
    for _ in range(limit):
        x = tape.get(pos, 0)
        c = tab[q][x]
        if c in ("H", None):
            out.append(((smap[q], ymap[x]), c)); return out
        w, d, nq = c
        if flip is None: flip = (d == "L")
        ymap.setdefault(w, len(ymap)); smap.setdefault(nq, len(smap))
        k = (smap[q], ymap[x])
        if k not in seen:
            seen[k] = 1; out.append((k, (ymap[w], OTHER[d] if flip else d, smap[nq]), _))
        tape[pos] = w; pos += 1 if d == "R" else -1; q = nq
    return out

def same_cells(a, b):
    """b is a with states and symbols renamed by some bijection that keeps blank, possibly mirrored"""
    ns, ny = len(a), len(a[0])
    cnt = lambda t: (sum(c is None for r in t for c in r), sum(c == "H" for r in t for c in r))
    return cnt(a) == cnt(b)

def check_starts(case, ctx):
    tm = case["tm"]; tab = table(tm); ns, ny = len(tab), len(tab[0])
    outs = [x.ttable_str() for x in Permute.permute_start_state(IO.parse_tm(tm), case["limit"])]
    if len(outs) != ns: raise Violation("%d start-state variants of %s, it has %d states" % (len(outs), tm, ns))
    for i, o in enumerate(outs):
        ctx.evals += 1
        a, b = canon(tab, i), canon(table(o), 0)
        if a != b: raise Violation("variant %d of %s is %s, which does not run like the original started in state %s" % (i, tm, o, chr(65 + i)))
        if not same_cells(tab, table(o)): raise Violation("variant %d of %s is %s, which is not a renaming of the same table" % (i, tm, o))
        sp = list(range(ns)); sp[0], sp[i] = sp[i], sp[0]
        plain = text(rename(tab, dict(enumerate(sp)), dict(enumerate(range(ny))), False))
        want = tnf(plain, case["limit"])
        if o != (want if want is not None else plain): raise Violation("variant %d of %s is %s, expected %s" % (i, tm, o, want or plain))
    buf = io.StringIO()
    with IO.StdText.Writer(buf) as w:
        Permute.write_perms(IO.parse_tm(tm), w, case["limit"]); written = buf.getvalue().split()
    if written != outs: raise Violation("write_perms of %s wrote %r, expected %r" % (tm, written, outs))
    if ns >= 2: ctx.nontrivial()

def check_adjacent(case, ctx):
    tm = case["tm"]; tab = table(tm); ns, ny = len(tab), len(tab[0])
    src = IO.parse_tm(tm); before = src.ttable_str()
    outs = [x.ttable_str() for x in Adjacent.adjacent(src)]
    if src.ttable_str() != before: raise Violation("listing neighbours changed the machine %s" % before)
    want = set(); base = [[before.split("_")[q][3 * s:3 * s + 3] for s in range(ny)] for q in range(ns)]
    for q in range(ns):
        for s in range(ny):
            if tab[q][s] in (None, "H"): continue
            for w in range(ny):
                for d in "LR":
                    for n in range(ns):
                        if (w, d, n) == tab[q][s]: continue
                        b = [list(r) for r in base]; b[q][s] = "%d%s%s" % (w, d, chr(65 + n))
                        want.add("_".join("".join(r) for r in b))
    if len(set(outs)) != len(outs): raise Violation("neighbours of %s: listed twice: %s" % (tm, min(o for o in outs if outs.count(o) > 1)))
    if set(outs) - want: raise Violation("neighbours of %s: %s is not one" % (tm, min(set(outs) - want)))
    if want - set(outs): raise Violation("neighbours of %s: %s is missing" % (tm, min(want - set(outs))))
    ctx.evals += len(outs)
    if case["write"] and ns * ny <= 6:
        buf = io.StringIO()
        with IO.StdText.Writer(buf) as w:
            Adjacent.write_adjacent(IO.parse_tm(tm), w, case["limit"]); written = buf.getvalue().split()
        exp = []
        for x in [before] + outs: exp += [p.ttable_str() for p in Permute.permute_start_state(IO.parse_tm(x), case["limit"])]
        if sorted(written) != sorted(exp): raise Violation("write_adjacent of %s wrote %d machines, expected %d (first difference %r)" % (tm, len(written), len(exp), sorted(set(written) ^ set(exp))[:1]))
    if len(outs) > 2 * ns * ny: ctx.nontrivial()

def check_zero(case, ctx):
    tab = table(case["tm"])
    want = any(row[0] is None or (row[0] != "H" and row[0][2] == q) for q, row in enumerate(tab))
    got = Zero_Reflexive.is_zero_reflexive(IO.parse_tm(case["tm"]))
    if bool(got) != want: raise Violation("is_zero_reflexive(%s) = %r, true %r" % (case["tm"], got, want))
    ctx.label(str(want)); ctx.nontrivial(want)

perm = lambda n: st.permutations(list(range(n))).map(list)
LIM = st.sampled_from([0, 1, 2, 3, 5, 10, 50, 200, 1000])
def machines(cells=12):
    sz = gen.sizes(cells)
    return st.one_of(gen.walk_tm(size=sz), gen.table_tm(size=sz), gen.table_tm(size=sz, p_halt=1, p_undef=1, p_run=30), gen.walk_tm(size=sz), gen.any_tm(max_cells=cells, max_corpus_steps=5000)) 
@st.composite
def named(draw, cells=12):
    tm = draw(machines(cells)); tab = table(tm); ns, ny = len(tab), len(tab[0])
    return tm
def s_tnf(): return st.fixed_dictionaries(dict(tm=machines(14), limit=LIM, sperm=perm(8), yperm=perm(8), flip=st.booleans()))
def s_tnf2():
    # renamed versions of normal-form machines: the interesting direction
    @st.composite
    def go(draw):
        tm = draw(gen.walk_tm(size=st.sampled_from([(3, 3), (2, 4), (4, 3), (2, 5), (3, 4), (5, 2), (6, 2), (2, 6)])))
        tab = table(tm); ns, ny = len(tab), len(tab[0])
        sp = [0] + [1 + x for x in draw(perm(ns - 1))]; yp = [0] + [1 + x for x in draw(perm(ny - 1))]
        t = text(rename(tab, dict(enumerate(sp)), dict(enumerate(yp)), draw(st.booleans())))
        return dict(tm=t, limit=draw(LIM), sperm=draw(perm(8)), yperm=draw(perm(8)), flip=draw(st.booleans()))
    return go()
def s_perm(): return st.fixed_dictionaries(dict(tm=machines(14), so=perm(9), yo=perm(9), flip=st.booleans()))
def s_lnf(): return st.fixed_dictionaries(dict(tm=st.one_of(machines(8), gen.table_tm(size=st.sampled_from([(3, 3), (4, 2), (2, 4), (3, 2), (2, 3), (2, 2)]))), so=perm(9), yo=perm(9), flip=st.booleans()))
def s_start(): return st.fixed_dictionaries(dict(tm=machines(12), limit=LIM))
def s_adj(): return st.fixed_dictionaries(dict(tm=machines(9), limit=st.sampled_from([3, 50, 300]), write=st.integers(0, 4).map(lambda x: x == 0)))
def s_zero(): return st.fixed_dictionaries(dict(tm=st.one_of(machines(14), gen.table_tm(p_undef=1, p_run=20, p_halt=3))))

TESTS = [
    Test("tree_normal_form", check_tnf, strategy=s_tnf, quick=9000, thorough=60000,
         examples=[dict(tm="1RB1LA2LA_2RC1LB1RC_0LD1RD2LA_1LA2RC0RB", limit=1000, sperm=list(range(8)), yperm=list(range(8)), flip=True)]),
    Test("renamed_normal_form", check_tnf, strategy=s_tnf2, quick=9000, thorough=60000),
    Test("permute_table", check_permute_table, strategy=s_perm, quick=5000, thorough=30000),
    Test("lexical_normal_form", check_lnf, strategy=s_lnf, quick=2400, thorough=15000),
    Test("start_states", check_starts, strategy=s_start, quick=5000, thorough=30000),
    Test("neighbours", check_adjacent, strategy=s_adj, quick=1500, thorough=10000),
    Test("zero_reflexive", check_zero, strategy=s_zero, quick=5000, thorough=20000),
]
