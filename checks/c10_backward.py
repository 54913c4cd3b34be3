from hypothesis import strategies as st
import core, ref, gen
from core import Test, Violation, Rejected
core.setup_paths()
import IO, Backtracking_Filter, Reverse_Engineer_Filter, TM_Enum, io_pb2
from IO import TM_Record

PROPERTY = "C10"
RULE = ("case = machine x depth x width limit.  Non-trivial = the backward search was decided by more than one level of search or found the halting run itself, "
        "the reverse-engineering filter proved the machine infinite, or the machine is a halter of 5+ steps (so a proof would be wrong)")
ASSUMPTIONS = ["a cannot-halt verdict is refuted by a halt within 300k literal steps or by the known-halting corpus",
               "the documented early give-up (a halting state with a transition to itself) and the width limit may withhold a verdict, never add one"]
BUDGET = dict(quick=150, thorough=3000)

def record(tm): return TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(tm), allow_no_halt=False))

def table(tm):
    """rows of (write, dir, next) or None for halt/undefined; written without the code under test"""
    out = []
    rows = tm.split("_")
    for r in rows:
        row = []
        for i in range(0, len(r), 3):
            t = r[i:i + 3]
            q = ord(t[2]) - 65 if t != "---" else -1
            row.append(None if t == "---" or q >= len(rows) else (int(t[0]), 1 if t[1] == "R" else 0, q))
        out.append(row)
    return out

def search(tab, hq, hs, depth, cap):
    """('dead', levels, width) | ('init', levels, width) | ('open', ..) by explicit sets of known cells around the head."""
    ns = len(tab[0])
    can_be = [[s == 0 for s in range(ns)] for _ in (0, 1)]     # can_be[side][s]
    edges = {}
    for q, row in enumerate(tab):
        for s, t in enumerate(row):
            if t:
                can_be[1 - t[1]][t[0]] = True                   # written while moving right: ends on the left
                edges.setdefault(t[2], []).append((q, s) + t)
    start = (hq, 0, {0: hs})
    def is_init(c): return c[0] == 0 and all(v == 0 for v in c[2].values())
    if is_init(start): return ("init", 0, 1)
    frontier, width = [start], 1
    for lvl in range(1, depth + 1):
        nxt = []
        for q, pos, cells in frontier:
            for (pq, ps, w, d, _) in edges.get(q, []):
                p = pos - 1 if d else pos + 1
                if p in cells and cells[p] != w: continue
                c = dict(cells); c[p] = ps
                cfg = (pq, p, c)
                if is_init(cfg): return ("init", lvl, width)
                if all(can_be[0 if k < p else 1][v] for k, v in c.items() if k != p): nxt.append(cfg)
        frontier = nxt
        width = max(width, len(frontier))
        if not frontier: return ("dead", lvl, width)
        if len(frontier) > cap: return ("open", lvl, width)
    return ("open", depth, width)

def check_backtrack(case, ctx):
    tm, depth, wid = case["tm"], case["depth"], case["width"]
    rec = record(tm)
    ok = Backtracking_Filter.backtrack(rec, depth, wid)
    s, f = rec.proto.status, rec.proto.filter.backtrack
    if bool(ok) != s.halt_status.is_decided: raise Violation("returned %s but halting decided=%s" % (ok, s.halt_status.is_decided))
    if s.quasihalt_status.is_decided: raise Violation("decides quasi-halting")
    if bool(f.result.success) != bool(ok): raise Violation("recorded success %s, returned %s" % (f.result.success, ok))
    if (f.parameters.num_steps, f.parameters.max_width) != (depth, wid): raise Violation("recorded parameters differ")
    r = ref.run(tm, 300000)
    if ok:
        if s.halt_status.is_halting or s.halt_status.inf_reason != io_pb2.INF_BACKTRACK: raise Violation("recorded as halting=%s reason=%s" % (s.halt_status.is_halting, s.halt_status.inf_reason))
        if r.halted or "steps" in case: raise Violation("backtracking %d steps (width %d) proves it infinite but it halts at step %d" % (depth, wid, case.get("steps", r.steps)))
    tab = table(tm)
    halts = [(q, x) for q, row in enumerate(tab) for x, t in enumerate(row) if t is None]
    selfloop = any(t and t[2] == q for q, _ in halts for t in tab[q])
    res = [search(tab, q, x, depth, wid) for q, x in halts]
    alldead = all(k == "dead" for k, _, _ in res)
    if ok and not all(k == "dead" for k, _, _ in (search(tab, q, x, depth, 20000) for q, x in halts)):
        raise Violation("backtracking %d steps (width %d) proves it infinite, but exhaustive backward search gives %s" % (depth, wid, res))
    if alldead and not selfloop and all(w <= wid for _, _, w in res) and not ok:
        raise Violation("every backward path dies within the depth and width (%s) but no proof is recorded" % res)
    if r.halted and r.steps >= 5: ctx.label("halter"); ctx.nontrivial()
    if any(l > 1 for _, l, _ in res) and alldead: ctx.label("proved"); ctx.nontrivial()

def check_table(case, ctx):
    """the search result itself: 'halted' answers and their depth"""
    tm = case["tm"]
    T = [[(t.symbol_out, t.dir_out, t.state_out) for t in row] for row in IO.parse_tm(tm).trans_table]
    res = Backtracking_Filter.backtrack_ttable(T, case["depth"], case["width"])
    r = ref.run(tm, 300000)
    if res.halted and res.success: raise Violation("both halted and infinite")
    if res.success and r.halted: raise Violation("proves it infinite but it halts at step %d" % r.steps)
    if res.halted:
        if not r.halted: raise Violation("says the halting run was found, but it does not halt in 300k steps")
        if r.steps != res.max_steps + 1: raise Violation("says halting is reached after %d steps backwards, but the run has %d steps" % (res.max_steps, r.steps))
        ctx.label("found-halt"); ctx.nontrivial()
    tab = table(tm)
    halts = [(q, x) for q, row in enumerate(tab) for x, t in enumerate(row) if t is None]
    selfloop = any(t and t[2] == q for q, _ in halts for t in tab[q])
    if not selfloop:
        # same order and limits: dead / init / open must match for each halt in turn
        want = "dead"; deep = wide = 0
        for q, x in halts:
            k, l, w = search(tab, q, x, case["depth"], case["width"])
            if k != "dead": want = k; deep = l; break
            deep = max(deep, l); wide = max(wide, w)
        got = "dead" if res.success else "init" if res.halted else "open"
        if want != got: raise Violation("answer %s, exhaustive backward search within the same limits: %s" % (got, want))
        if want != "open" and res.max_steps != deep: raise Violation("reports %d steps backwards, search needed %d" % (res.max_steps, deep))
        if deep > 1: ctx.label(want); ctx.nontrivial()

def check_reverse(case, ctx):
    tm = case["tm"]
    got = Reverse_Engineer_Filter.is_infinite(IO.parse_tm(tm))
    r = ref.run(tm, 300000)
    if got and (r.halted or "steps" in case): raise Violation("reverse engineering proves it infinite but it halts at step %d" % case.get("steps", r.steps))
    tab = table(tm)
    def unreachable(q, x):
        into = [t[1] for row in tab for t in row if t and t[2] == q]
        if not into: return (q, x) != (0, 0)
        if x == 0: return False
        wr = [t[1] for row in tab for t in row if t and t[0] == x]
        return not wr or len(set(into + wr)) == 1
    want = all(unreachable(q, x) for q, row in enumerate(tab) for x, t in enumerate(row) if t is None)
    if bool(got) != want: raise Violation("reverse engineering says infinite=%s, the stated criteria say %s" % (got, want))
    rec = record(tm)
    Reverse_Engineer_Filter.filter(rec)
    s = rec.proto.status
    if bool(got) != s.halt_status.is_decided or bool(got) != rec.proto.filter.reverse_engineer.success: raise Violation("verdict %s not recorded faithfully" % got)
    if s.quasihalt_status.is_decided: raise Violation("decides quasi-halting")
    if got and (s.halt_status.is_halting or s.halt_status.inf_reason != io_pb2.INF_REVERSE_ENGINEER): raise Violation("recorded as halting=%s reason=%s" % (s.halt_status.is_halting, s.halt_status.inf_reason))
    if got: ctx.label("proved"); ctx.nontrivial()
    elif r.halted and r.steps >= 5: ctx.nontrivial()

def params(): return dict(depth=st.integers(1, 14), width=st.sampled_from([1, 2, 3, 5, 10, 30]))
def halters():
    l = [dict(tm=x[0], steps=x[1]) for x in gen.corpus("halters.txt")]
    return st.tuples(st.sampled_from(l), st.fixed_dictionaries(params())).map(lambda t: dict(t[0], **t[1]))
@st.composite
def few_halts(draw):
    ns, ny = draw(st.sampled_from([(2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (5, 2), (2, 4), (6, 2)]))
    cells = [[None] * ny for _ in range(ns)]
    hs = {(draw(st.integers(0, ns - 1)), draw(st.integers(0, ny - 1))) for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2])))}
    noself = draw(st.booleans())
    rows = []
    for q in range(ns):
        row = ""
        for x in range(ny):
            if (q, x) in hs: row += draw(st.sampled_from(["---", "1RZ"]))
            else:
                tgt = draw(st.integers(0, ns - 1))
                if noself and tgt == q and any(h[0] == q for h in hs): tgt = (q + 1) % ns
                row += str(draw(st.integers(0, ny - 1))) + draw(st.sampled_from("LR")) + chr(65 + tgt)
        rows.append(row)
    return "_".join(rows)
def tms(): return st.one_of(few_halts(), few_halts(), gen.any_tm(max_cells=12, max_corpus_steps=300))
def full(): return st.fixed_dictionaries(dict(tm=tms(), **params()))

TESTS = [
    Test("filter_halters", check_backtrack, strategy=halters, quick=2500, thorough=60000),
    Test("filter_any", check_backtrack, strategy=full, quick=12000, thorough=300000),
    Test("search", check_table, strategy=full, quick=12000, thorough=300000, examples=[dict(tm="1RZ1LA", depth=3, width=10), dict(tm="---1LB_1LA1RB", depth=3, width=10), dict(tm="1RA1LA", depth=3, width=10)]),
    Test("reverse_halters", check_reverse, strategy=lambda: halters(), quick=2500, thorough=60000),
    Test("reverse_any", check_reverse, strategy=lambda: st.fixed_dictionaries(dict(tm=tms())), quick=20000, thorough=500000),
    Test("reverse_patterned", check_reverse, strategy=lambda: st.fixed_dictionaries(dict(tm=gen.prefix_tm())), quick=3000, thorough=60000),
]
