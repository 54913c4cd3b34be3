from types import SimpleNamespace
from hypothesis import strategies as st
import core, ref, gen
from core import Test, Violation, Rejected
core.setup_paths()
import IO, CPS, CPS_Filter, TM_Enum, io_pb2
from IO import TM_Record

PROPERTY = "C08"
RULE = ("case = machine x block size x window size x bounds.  Non-trivial = the decider proved the machine infinite (then 300k literal steps and the halting corpus must not "
        "contradict it), or the machine is a known halter of 20+ steps that the decider had to leave undecided, or the outcome was compared with the reference closure after at least 4 windows")
ASSUMPTIONS = ["an infinite verdict is refuted by a halt within 300k literal steps or by the known-halting corpus",
               "the reference closure is compared only where it finishes within 4000 windows"]
BUDGET = dict(quick=150, thorough=3000)

def closure(tm, bs, ws, cap=4000, stepcap=20000, edgecap=6000):
    """least closed set of (state, entry side, window), computed independently; True = no halt in it, False = contains a halt, None = too large
    (a halting window is not followed, and the set is still closed, so that its size bounds what any order of exploration can meet)"""
    T = ref.parse(tm)
    blank = (0,) * bs
    cont = [{blank: {blank}}, {blank: {blank}}]       # outward continuations, left / right
    start = (0, 1, (0,) * ws)
    out = {}
    users = [dict(), dict()]
    seen = {start}
    work = [start]
    halts = False; edges = 0
    def run(c):
        st_, d, w = c
        w = list(w); pos = bs - 1 if d == 0 else ws - bs
        vis = set(); n = 0
        while 0 <= pos < ws:
            n += 1
            if n > 200:
                key = (st_, pos, tuple(w))
                if key in vis: return ("loop",)
                vis.add(key)
                if n > stepcap: return ("big",)
            wr, mv, nx, u = T[st_][w[pos]]
            if nx < 0: return ("halt",)
            w[pos] = wr; pos += mv; st_ = nx
        return ("exit", st_, 0 if pos < 0 else 1, tuple(w))
    changed = True
    while changed:
        changed = False
        for c in list(seen):
            if c not in out:
                out[c] = run(c); changed = True
            o = out[c]
            if o[0] == "halt": halts = True; continue
            if o[0] == "big": return None, len(seen)
            if o[0] == "loop": continue
            _, s2, d2, w2 = o
            b = 1 - d2
            blk = (lambda w, side, i: w[i * bs:(i + 1) * bs] if side == 0 else w[len(w) - (i + 1) * bs:len(w) - i * bs])
            far, second = blk(w2, b, 0), blk(w2, b, 1)
            e = cont[b].setdefault(second, set())
            if far not in e: e.add(far); edges += 1; changed = True
            e = cont[b].setdefault(far, set()); old = set(cont[b].get(blk(c[2], b, 0), ()))
            if not old <= e: edges += len(old - e); e |= old; changed = True
            if edges > edgecap: return None, len(seen)
            for f in list(cont[d2].get(blk(c[2], d2, 0), ())):
                w3 = f + w2[:ws - bs] if d2 == 0 else w2[bs:] + f
                n = (s2, d2, w3)
                if n not in seen:
                    seen.add(n); changed = True
                    if len(seen) > cap: return None, len(seen)
    return not halts, len(seen)

def decide(tm, case):
    res = io_pb2.ClosedGraphFilterResult(); status = io_pb2.BBStatus()
    CPS.filter(IO.parse_tm(tm), case["bs"], case["ws"], case["max_steps"], case["max_iters"], case["max_configs"], case["max_edges"], res, status)
    return res, status

def consistent(success, status, what):
    hs = status.halt_status
    if bool(success) != bool(hs.is_decided): raise Violation("%s: success=%s but halting decided=%s" % (what, success, hs.is_decided))
    if hs.is_decided and hs.is_halting: raise Violation("%s: reports halting" % what)
    if status.quasihalt_status.is_decided: raise Violation("%s: decides quasi-halting, which it does not compute" % what)
    if hs.is_decided and hs.inf_reason != io_pb2.INF_CLOSED_GRAPH: raise Violation("%s: reason %s" % (what, io_pb2.InfReason.Name(hs.inf_reason)))

def check(case, ctx):
    tm = case["tm"]
    case = dict(case, ws=max(case["ws"], 2 * case["bs"]))
    res, status = decide(tm, case)
    consistent(res.success, status, "closed position set")
    if not res.success:
        if case.get("steps", 0) >= 20: ctx.nontrivial((tm, case["bs"], case["ws"])); ctx.label("halter-undecided")
        return
    if "steps" in case: raise Violation("declared infinite with block %d window %d, but halts at step %d" % (case["bs"], case["ws"], case["steps"]))
    r = ref.run(tm, 300000)
    if r.halted: raise Violation("declared infinite with block %d window %d, but halts at step %d" % (case["bs"], case["ws"], r.steps))
    if (res.block_size, res.window_size) != (case["bs"], case["ws"]): raise Violation("reports block/window %d/%d for a run with %d/%d" % (res.block_size, res.window_size, case["bs"], case["ws"]))
    # running out of these bounds leaves the question open
    if res.num_iters > case["max_iters"] or res.num_steps > case["max_steps"]: raise Violation("verdict given although bounds were passed: %d of %d iterations, %d of %d steps" % (res.num_iters, case["max_iters"], res.num_steps, case["max_steps"]))
    ctx.nontrivial((tm, case["bs"], case["ws"])); ctx.label("proved-bs%d" % case["bs"])

def check_exact(case, ctx):
    tm = case["tm"]; bs = case["bs"]; ws = max(case["ws"], 2 * bs)
    want, n = closure(tm, bs, ws)
    if want is None: raise Rejected()
    res, status = decide(tm, dict(bs=bs, ws=ws, max_steps=10**9, max_iters=10**6, max_configs=10**6, max_edges=10**6))
    consistent(res.success, status, "closed position set")
    if bool(res.success) != want:
        raise Violation("block %d window %d: decider says %s, exhaustive closure (%d windows) says %s" % (bs, ws, "infinite" if res.success else "unknown", n, "infinite" if want else "a halting window is reachable"))
    if n >= 4: ctx.nontrivial((tm, bs, ws)); ctx.label("infinite" if want else "unknown")

def check_filter(case, ctx):
    """the record-level filter: tries block / window sizes"""
    tm = case["tm"]
    rec = TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(tm), allow_no_halt=False))
    args = SimpleNamespace(min_block_size=case["lo"], max_block_size=case["lo"] + case["span"], max_window_size=case["win"] or None,
                           max_steps=case["max_steps"], max_iters=500, max_configs=2000, max_edges=2000)
    if case["win"]: args.max_block_size = None
    CPS_Filter.filter_all(rec, args)
    info = rec.proto.filter.closed_graph
    consistent(info.result.success, rec.proto.status, "closed position set filter")
    if info.result.success:
        r = ref.run(tm, 300000)
        if r.halted or "steps" in case: raise Violation("declared infinite (block %d window %d), but halts at step %d" % (info.result.block_size, info.result.window_size, r.steps))
        sub, _ = decide(tm, dict(bs=info.result.block_size, ws=info.result.window_size, max_steps=10**7, max_iters=10**5, max_configs=10**5, max_edges=10**5))
        if not sub.success: raise Violation("reported sizes block %d window %d do not prove the machine infinite" % (info.result.block_size, info.result.window_size))
        ctx.nontrivial(); ctx.label("proved")
    if rec.ttable_str() != IO.parse_tm(tm).ttable_str(): raise Violation("record machine changed")

BOUNDS = dict(max_steps=st.sampled_from([100000, 100000, 3000, 200, 20]), max_iters=st.sampled_from([500, 500, 3, 1]), max_configs=st.sampled_from([1500, 1500, 40]), max_edges=st.sampled_from([1500, 1500, 20]))
def sizes(): return dict(bs=st.sampled_from([1, 1, 1, 2, 2, 3, 4, 5]), ws=st.one_of(st.sampled_from([2, 3, 4, 6, 9]), st.integers(2, 12)))

def halters():
    l = [dict(tm=x[0], steps=x[1]) for x in gen.corpus("halters.txt")]
    big = [d for d in l if d["steps"] >= 60]
    return st.tuples(st.one_of(st.sampled_from(big), st.sampled_from(l)), st.fixed_dictionaries(dict(**sizes(), **BOUNDS))).map(lambda t: dict(t[0], **t[1]))
def anytm():
    return st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=12, max_corpus_steps=300), **sizes(), **BOUNDS))
def exact():
    return st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=12, max_corpus_steps=300), **sizes()))
def filt():
    return st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=10, max_corpus_steps=300), lo=st.integers(1, 3), span=st.integers(0, 2), win=st.sampled_from([0, 0, 2, 4, 6]), max_steps=st.sampled_from([100000, 1000])))

TESTS = [
    Test("known_halters", check, strategy=halters, quick=30000, thorough=500000),
    Test("any_machine", check, strategy=anytm, quick=24000, thorough=400000),
    Test("exact_closure", check_exact, strategy=exact, quick=20000, thorough=300000),
    Test("record_filter", check_filter, strategy=filt, quick=5000, thorough=80000),
]
