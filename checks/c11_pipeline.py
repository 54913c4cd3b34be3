import math, optparse, io, contextlib
from hypothesis import strategies as st
import core, ref, gen, simlib
from core import Test, Violation, Rejected
core.setup_paths()
import IO, Macro_Simulator, Halting_Lib, TM_Enum, Alarm, io_pb2
from IO import TM_Record
from Macro import Simulator
from Exp_Int import ExpInt

PROPERTY = "C11"
RULE = ("case = machine x option set given to the pipeline (as command-line words).  Non-trivial = the pipeline reached a verdict (halting with 3+ steps, infinite, quasi-halting), "
        "or the machine is a known halter of 50+ steps; timeout cases: the injected time-out really fired")
ASSUMPTIONS = ["an infinite verdict is refuted by a halt within 300k literal steps or by the known-halting corpus",
               "data/giants.txt and data/beep.txt are the numbers of the repository's own lists of published machines, agreed by several option sets",
               "a quasi-halting verdict is compared with the last uses of states in a literal run of 60k steps or 50 times the reported step",
               "with step counting switched off (or experimental linear rules on) the recorded step count is 0 and is not compared"]
BUDGET = dict(quick=200, thorough=3000)

def parse_options(words):
    p = optparse.OptionParser()
    Macro_Simulator.add_option_group(p)
    o, rest = p.parse_args(list(words))
    assert not rest
    return o

def record(tm): return TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(tm), allow_no_halt=False))

_cache = {}
def truth(tm, horizon):
    r = _cache.get((tm, horizon))
    if r is None:
        if len(_cache) > 200: _cache.clear()
        x = ref.run(tm, horizon)
        r = _cache[tm, horizon] = (x.halted, x.steps, x.score if x.halted else None, x.from_state, x.from_sym)
    return r

def verify(tm, status, steps_on, known=None, what=""):
    """every decided fact of the status is true.  Returns labels."""
    hs, qs = status.halt_status, status.quasihalt_status
    labels = []
    horizon = 300000
    halted, steps, score, fs, fx = truth(tm, horizon)
    if known and not halted: halted, steps, score, fs, fx = True, known, None, None, None
    if not hs.is_decided:
        if hs.is_halting: raise Violation("%sundecided but marked halting" % what)
        if qs.is_quasihalting and not qs.is_decided: raise Violation("%squasi-halting undecided but marked quasi-halting" % what)
    elif hs.is_halting:
        gs, gc = Halting_Lib.get_big_int(hs.halt_steps), Halting_Lib.get_big_int(hs.halt_score)
        if not halted:
            if not steps_on: raise_if_small(tm, gc, what)
            elif isinstance(gs, ExpInt) or gs > horizon:
                if isinstance(gs, ExpInt) or gs > 20_000_000: labels.append("huge-halt"); return labels
                halted, steps, score, fs, fx = truth(tm, 20_000_000)
            if not halted and steps_on: raise Violation("%srecorded halting at step %s, but it does not halt within 20M steps" % (what, gs))
        if halted:
            if steps_on and gs != steps: raise Violation("%srecorded %s steps, true %d" % (what, gs, steps))
            if score is not None and gc != score: raise Violation("%srecorded score %s, true %d" % (what, gc, score))
            if fs is not None and (hs.from_state, hs.from_symbol) != (fs, fx): raise Violation("%srecorded halting transition %r, true %r" % (what, (hs.from_state, hs.from_symbol), (fs, fx)))
        if qs.is_decided and qs.is_quasihalting: raise Violation("%sboth halting and quasi-halting" % what)
        labels.append("halt" if steps < 3 else "halt3+")
        return labels
    else:
        if halted: raise Violation("%srecorded infinite (%s) but it halts at step %d" % (what, io_pb2.InfReason.Name(hs.inf_reason), steps))
        if hs.inf_reason == io_pb2.INF_UNSPECIFIED: raise Violation("%sinfinite without a reason" % what)
        labels.append(io_pb2.InfReason.Name(hs.inf_reason))
    if qs.is_decided:
        if halted: raise Violation("%squasi-halting decided as %s, halting undecided, but it halts at %d" % (what, qs.is_quasihalting, steps))
        if qs.is_quasihalting:
            t, q = Halting_Lib.get_big_int(qs.quasihalt_steps), qs.quasihalt_state
            if isinstance(t, int) and t < 400000:
                H = max(60000, 50 * t)
                last = ref.Run(tm).last_seen(H)
                if last[q] + 1 != t: raise Violation("%squasi-halt recorded at step %d in state %d, but within %d steps that state is last used at step %d" % (what, t, q, H, last[q]))
                bad = [(v, i) for i, v in enumerate(last) if i != q and t <= v < H // 2]
                # later last-uses must belong to states that keep recurring
                H2 = 8 * H
                last2 = ref.Run(tm).last_seen(H2)
                bad = [(v, i) for v, i in bad if last2[i] == v]
                if bad: raise Violation("%squasi-halt recorded at step %d in state %d, but state %d is last used later, at step %d" % (what, t, q, bad[0][1], bad[0][0]))
                labels.append("quasihalt")
        else:
            H = 400000
            last = ref.Run(tm).last_seen(H)
            bad = [(v, i) for i, v in enumerate(last) if 0 <= v < 1000 and v * 300 < H]
            if bad and hs.inf_reason in (io_pb2.INF_LIN_RECUR, io_pb2.INF_MACRO_STEP, io_pb2.INF_CHAIN_STEP):
                raise Violation("%srecorded as not quasi-halting, but state %d is last used at step %d of %d" % (what, bad[0][1], bad[0][0], H))
            labels.append("no-quasihalt")
    return labels

def raise_if_small(tm, score, what):
    if isinstance(score, int) and score < 1000: raise Violation("%srecorded halting with score %d, but it does not halt within 300k steps" % (what, score))

def check(case, ctx):
    tm = case["tm"]
    o = parse_options(case["opts"])
    steps_on = o.compute_steps and not o.exp_linear_rules
    rec = record(tm)
    with contextlib.redirect_stdout(io.StringIO()):
        Macro_Simulator.run_options(rec, o)
    labels = verify(tm, rec.proto.status, steps_on, case.get("steps"))
    r = rec.proto.filter.simulator.result
    unk = r.unknown_info.WhichOneof("reason")
    if unk and rec.proto.status.halt_status.is_decided: raise Violation("halting decided although the simulator gave up (%s)" % unk)
    if rec.tm().ttable_str() != tm: raise Violation("machine of the record changed to %s" % rec.tm().ttable_str())
    for l in labels: ctx.label(l)
    if case["again"]:
        # saved, reloaded, cleared (as the tools do) and run again with other options: never contradicts
        rec2 = TM_Record.TM_Record(proto=io_pb2.TMRecord.FromString(rec.proto.SerializeToString()))
        rec2.clear_proto()
        if rec2.proto.HasField("status") or rec2.proto.HasField("filter"): raise Violation("clearing a record leaves results behind")
        o2 = parse_options(case["opts2"])
        with contextlib.redirect_stdout(io.StringIO()):
            Macro_Simulator.run_options(rec2, o2)
        a, b = rec.proto.status.halt_status, rec2.proto.status.halt_status
        if a.is_decided and b.is_decided and a.is_halting != b.is_halting: raise Violation("first run says halting=%s, second run says %s" % (a.is_halting, b.is_halting))
        verify(tm, rec2.proto.status, o2.compute_steps and not o2.exp_linear_rules, case.get("steps"), "second run: ")
        ctx.label("again")
    if any(l != "halt" for l in labels) or case.get("steps", 0) >= 50: ctx.nontrivial((tm, case["opts"]))

def check_giants(case, ctx):
    """machines whose known halting or quasi-halting numbers are far beyond literal execution: recorded numbers must agree with them modulo simlib.RES_M"""
    tm = case["tm"]
    o = parse_options(case["opts"])
    rec = record(tm)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        Macro_Simulator.run_options(rec, o)
    hs, qs = rec.proto.status.halt_status, rec.proto.status.quasihalt_status
    if not hs.is_decided: ctx.label("giant-undecided"); return
    res = lambda b: Halting_Lib.get_big_int(b) % simlib.RES_M
    if hs.is_halting:
        if case["kind"] != "halt": raise Violation("recorded as halting; it runs forever")
        if o.compute_steps and not o.exp_linear_rules and case["steps"] is not None and res(hs.halt_steps) != case["steps"]:
            raise Violation("recorded %d steps modulo %d, true %d" % (res(hs.halt_steps), simlib.RES_M, case["steps"]))
        if res(hs.halt_score) != case["score"]: raise Violation("recorded score is %d modulo %d, true %d" % (res(hs.halt_score), simlib.RES_M, case["score"]))
        ctx.label("giant-halt")
    else:
        if case["kind"] == "halt": raise Violation("recorded as infinite (%s); it halts" % io_pb2.InfReason.Name(hs.inf_reason))
        if qs.is_decided:
            if not qs.is_quasihalting: raise Violation("recorded as not quasi-halting; known to quasi-halt in state %d" % case["q"])
            if (qs.quasihalt_state, res(qs.quasihalt_steps)) != (case["q"], case["n"]):
                raise Violation("recorded quasi-halt (state %d, steps %d modulo %d), known (%d, %d)" % (qs.quasihalt_state, res(qs.quasihalt_steps), simlib.RES_M, case["q"], case["n"]))
            ctx.label("giant-quasihalt")
    ctx.nontrivial((tm, case["opts"]))

def giants():
    l = [dict(kind="halt", tm=t, steps=None if a == "-" else int(a), score=int(b)) for t, a, b, k in simlib.rows("giants.txt")]
    q = [dict(kind="quasihalt", tm=t, q=int(a), n=int(b)) for t, a, b, k in simlib.rows("beep.txt")]
    return st.tuples(st.one_of(st.sampled_from(l), st.sampled_from(q)), opts(), st.sampled_from([300, 1000, 3000]), st.integers(0, 3)).map(
        lambda t: dict(t[0], opts=t[1] + ["--max-loops", str(t[2])] + (["--recursive"] if t[3] else [])))

class Clock:
    """stands in for the timer: raises the alarm exception in the k-th simulator step"""
    def __init__(self, k): self.k = k; self.fired = False
    def __enter__(self):
        self.real = Simulator.Simulator.step
        clock = self
        def step(sim, *a, **kw):
            clock.k -= 1
            if clock.k == 0:
                clock.fired = True
                raise Alarm.AlarmException("Timeout!")
            return clock.real(sim, *a, **kw)
        Simulator.Simulator.step = step
        return self
    def __exit__(self, *a): Simulator.Simulator.step = self.real

def check_timeout(case, ctx):
    tm = case["tm"]
    o = parse_options(case["opts"])
    steps_on = o.compute_steps and not o.exp_linear_rules
    rec = record(tm)
    with Clock(case["k"]) as c, contextlib.redirect_stdout(io.StringIO()):
        Macro_Simulator.run_timer(rec, o, 600)
    import signal
    if signal.getitimer(signal.ITIMER_REAL)[0] != 0:
        signal.setitimer(signal.ITIMER_REAL, 0)
        raise Violation("the time limit is still armed after the machine was finished")
    for l in verify(tm, rec.proto.status, steps_on, case.get("steps"), "after a time-out: " if c.fired else ""): ctx.label(l)
    unk = rec.proto.filter.simulator.result.unknown_info.WhichOneof("reason")
    if c.fired:
        if rec.proto.status.halt_status.is_decided: raise Violation("time-out before any verdict, but halting is decided")
        if unk != "over_time": raise Violation("time-out recorded as %s" % unk)
        ctx.label("timeout"); ctx.nontrivial((tm, case["opts"], case["k"]))
    elif unk == "over_time": raise Violation("recorded as timed out without a time-out")

@st.composite
def opts(draw, big=False):
    w = ["--max-loops", str(draw(st.sampled_from([1, 5, 20, 60, 150, 300, 300, 1000] + ([2000] if big else []))))]
    def maybe(p, *words):
        if draw(st.integers(0, 99)) < p: w.extend(words)
    maybe(30, "--tape-limit", str(draw(st.sampled_from([1, 4, 10, 50, 100]))))
    maybe(50, "--lin-steps", str(draw(st.sampled_from([0, 0, 1, 2, 10, 50, 300]))))
    maybe(20, "--lin-min")
    maybe(45, "--no-reverse-engineer")
    maybe(60, "--no-ctl")
    maybe(3, "--no-sim")
    maybe(15, "--no-prover")
    maybe(30, "--recursive")
    maybe(12, "--limited-rules")
    maybe(8, "--exp-linear-rules")
    maybe(8, "--exp-meta-linear-rules")
    maybe(8, "--no-steps")
    maybe(20, "--no-backsymbol")
    maybe(40, "--block-size", str(draw(st.sampled_from([1, 1, 2, 3, 4]))))
    maybe(50, "--max-block-size", str(draw(st.sampled_from([1, 2, 5, 8]))))
    maybe(10, "--block-mult", str(draw(st.integers(1, 3))))
    maybe(15, "--max-block-mult", str(draw(st.integers(1, 3))))
    maybe(10, "--max-num-reps", str(draw(st.sampled_from([1, 3, 30]))))
    maybe(5, "--max-prover-configs", str(draw(st.sampled_from([1, 10]))))
    return w

def halters():
    l = [dict(tm=x[0], steps=x[1]) for x in gen.corpus("halters.txt")]
    big = [d for d in l if d["steps"] >= 100]
    return st.tuples(st.one_of(st.sampled_from(big), st.sampled_from(l)), opts(True), opts(), st.booleans()).map(lambda t: dict(t[0], opts=t[1], opts2=t[2], again=t[3]))
def anyc():
    return st.fixed_dictionaries(dict(tm=st.one_of(gen.any_tm(max_cells=14, max_corpus_steps=300), gen.any_tm(max_cells=14, max_corpus_steps=300), gen.any_tm(max_cells=14, max_corpus_steps=300), gen.corpus_tm("ruleinf.txt")), opts=opts(), opts2=opts(), again=st.integers(0, 3).map(lambda x: x == 0)))
def timeouts():
    return st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=14, max_corpus_steps=100000), opts=opts(), k=st.one_of(st.integers(1, 30), st.integers(1, 300))))

TESTS = [
    Test("known_halters", check, strategy=halters, quick=12000, thorough=100000),
    Test("any_machine", check, strategy=anyc, quick=30000, thorough=200000),
    Test("giants", check_giants, strategy=giants, quick=2500, thorough=40000),
    Test("timeouts", check_timeout, strategy=timeouts, quick=8000, thorough=60000),
]
