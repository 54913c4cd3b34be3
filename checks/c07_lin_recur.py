from hypothesis import strategies as st
import core, ref, gen
from recur import last_diff, true_recurrence
from core import Test, Violation, Rejected
core.setup_paths()
import IO, Lin_Recur_Detect, Halting_Lib, io_pb2

PROPERTY = "C07"
RULE = ("case = machine x step bound x min-start flag; non-trivial = the detector reported a recurrence (certificate then checked against the literal transition "
        "sequence over >= 30 further periods), or a true recurrence / halt inside the bound that has to be found")
ASSUMPTIONS = ["a claimed recurrence is followed literally for max(30 periods, 20000 steps) after its start"]
BUDGET = dict(quick=150, thorough=3000)

def check(case, ctx):
    tm, max_steps, want_min = case["tm"], case["max_steps"], case["min"]
    info = io_pb2.LinRecurFilterInfo()
    info.parameters.max_steps = max_steps
    info.parameters.find_min_start_step = want_min
    status = io_pb2.BBStatus()
    Lin_Recur_Detect.filter(IO.parse_tm(tm), info, status)
    res = info.result
    hs = status.halt_status
    r = ref.run(tm, 2 * max_steps + 10)
    if hs.is_decided and hs.is_halting:
        if res.success: raise Violation("both halting and recurrent")
        got = (Halting_Lib.get_big_int(hs.halt_steps), Halting_Lib.get_big_int(hs.halt_score), hs.from_state, hs.from_symbol)
        want = (r.steps, r.score, r.from_state, r.from_sym) if r.halted else None
        if got != want: raise Violation("reported halting (steps, score, state, symbol) = %r, true %r" % (got, want))
        ctx.label("halt"); ctx.nontrivial()
        return
    if r.halted and r.steps <= max_steps and max_steps >= 2:
        raise Violation("halts at step %d <= bound %d but reported %s" % (r.steps, max_steps, "recurrent" if res.success else "unknown"))
    if not res.success:
        if hs.is_decided or status.quasihalt_status.is_decided: raise Violation("no recurrence and no halt found, but the status is decided: %s" % status)
        if case["complete"]:
            t = true_recurrence(tm, 1500)
            if t and 4 * max(t[0], t[1], 1) < max_steps:
                raise Violation("recurrence (start, period, offset) = %r missed with a bound of %d steps" % (t, max_steps))
            ctx.label("miss-checked" if not t else "late-recurrence")
        return
    if not hs.is_decided: raise Violation("recurrent but halting left undecided")
    s, p, off = res.start_step, res.period, res.offset
    if p < 1: raise Violation("period %d" % p)
    H = s + max(30 * p, 20000)
    if H > 4_000_000: H = s + max(4 * p, 20000)
    run = ref.Run(tm)
    seq = run.seq(H)
    if run.halted: raise Violation("reported recurrent (start %d, period %d) but halts at step %d" % (s, p, run.steps))
    if seq[2 * s:2 * (H - p)] != seq[2 * (s + p):]:
        raise Violation("claimed recurrence start %d period %d offset %d: transition sequence does not repeat with that period" % (s, p, off))
    x = ref.Run(tm).to(s).pos; y = ref.Run(tm).to(s + p).pos
    if y - x != off: raise Violation("claimed offset %d, true %d (start %d, period %d)" % (off, y - x, s, p))
    for d in range(1, p):
        if p % d == 0 and seq[2 * s:2 * (H - d)] == seq[2 * (s + d):]:
            raise Violation("claimed period %d, but it already repeats with period %d (start %d)" % (p, d, s))
    first = last_diff(seq, p) + 1
    if want_min and first != s: raise Violation("claimed earliest start %d, true earliest start %d (period %d)" % (s, first, p))
    # quasi-halting
    last = ref.Run(tm).last_seen(H)
    recur = {i for i, v in enumerate(last) if v >= H - p}
    others = [(v, i) for i, v in enumerate(last) if i not in recur and v >= 0]
    q = status.quasihalt_status
    if not q.is_decided: raise Violation("quasi-halting left undecided for a recurrent machine")
    if bool(others) != q.is_quasihalting: raise Violation("quasi-halting reported %s, true %s (states last used at %r)" % (q.is_quasihalting, bool(others), last))
    if others:
        v, i = max(others)
        got = (Halting_Lib.get_big_int(q.quasihalt_steps), q.quasihalt_state)
        if got != (v + 1, i): raise Violation("quasi-halt (step, state) reported %r, true %r" % (got, (v + 1, i)))
        ctx.label("quasihalt")
    ctx.nontrivial(); ctx.label("recur-offset%s" % ("+" if off > 0 else "-" if off < 0 else "0"))
    if s > 100: ctx.label("start>100")
    if p > 50: ctx.label("period>50")

def cases():
    r = gen.corpus_tm("recurs.txt")
    tm = st.one_of(gen.any_tm(max_cells=15, max_corpus_steps=2000), gen.any_tm(max_cells=15, max_corpus_steps=2000), r, gen.mutant_tm(r))
    return st.fixed_dictionaries(dict(tm=tm, max_steps=st.one_of(st.sampled_from([128, 500, 1000]), st.integers(1, 60), st.integers(100, 3000), st.integers(1000, 9000)), min=st.booleans(), complete=st.integers(0, 3).map(lambda x: x == 0)))

def unlimited(case, ctx):
    """bound 0 = no bound: only machines already known to halt or recur"""
    tm = case["tm"]
    r = ref.run(tm, 3000)
    if not r.halted:
        t = true_recurrence(tm, 2000)
        if not t: raise Rejected()
    info = io_pb2.LinRecurFilterInfo(); info.parameters.find_min_start_step = True
    status = io_pb2.BBStatus()
    Lin_Recur_Detect.filter(IO.parse_tm(tm), info, status)
    if r.halted:
        if info.result.success or not status.halt_status.is_halting or Halting_Lib.get_big_int(status.halt_status.halt_steps) != r.steps:
            raise Violation("halts at %d, reported %s %s" % (r.steps, info.result, status))
    else:
        got = (info.result.start_step, info.result.period, info.result.offset)
        if not info.result.success or got != t: raise Violation("recurrence (start, period, offset) true %r, reported %r" % (t, got))
    ctx.nontrivial()

TESTS = [
    Test("bounded", check, strategy=cases, quick=40000, thorough=700000),
    Test("unlimited", unlimited, strategy=lambda: st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=14, max_corpus_steps=2000))), quick=12000, thorough=200000),
]
