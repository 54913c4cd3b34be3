from hypothesis import strategies as st
import core, ref, gen, simlib
from core import Test, Violation, Rejected
from simlib import Turing_Machine

PROPERTY = "C01"
RULE = ("case = machine (random table / table grown along its own run / corpus halters / mutants of corpus) x acceleration options; "
        "non-trivial = the accelerated simulator reported a halt that was compared with literal execution; "
        "labels count rule and chain use")
ASSUMPTIONS = ["literal interpreter vlib/refsim.c is the definition of a run", "an undefined transition acts as 1RZ and counts one step (repository convention)",
               "reported steps above 2e7 are not replayed (counted as rejected), except for the listed giants, which are compared modulo a fixed number with values that several independent option sets agree on"]
BUDGET = dict(quick=150, thorough=3000)

def halted(sim):
    return sim.op_state in (Turing_Machine.HALT, Turing_Machine.UNDEFINED)

def check(case, ctx):
    tm, o, loops = case["tm"], case["o"], case["loops"]
    sim = simlib.make_sim(tm, o)
    simlib.drive(sim, loops)
    compare(tm, o, sim, ctx)

def compare(tm, o, sim, ctx):
    if not halted(sim):
        ctx.label("no-halt-verdict")
        return
    from_sym, from_state = sim.op_details[0][:2]
    if sim.compute_steps:
        if not simlib.small(sim.step_num):
            ctx.label("too-long-to-replay"); raise Rejected()
        r = ref.run(tm, int(sim.step_num) + 1)
        if not r.halted or r.steps != sim.step_num:
            raise Violation("reports halt at step %r, literal run %s" % (sim.step_num,
                "halts at %d" % r.steps if r.halted else "is still running then"))
    else:
        r = ref.run(tm, 3_000_000)
        if not r.halted:
            ctx.label("too-long-to-replay"); raise Rejected()
    if (r.from_state, r.from_sym) != (from_state, from_sym):
        raise Violation("reports halt from (state %r, symbol %r), true (%d, %d)" % (from_state, from_sym, r.from_state, r.from_sym))
    nz = sim.get_nonzeros()
    if nz != r.score:
        raise Violation("reports score %r, true score %d" % (nz, r.score))
    undefined = ref.parse(tm)[r.from_state][r.from_sym][3]
    want = Turing_Machine.UNDEFINED if undefined else Turing_Machine.HALT
    if sim.op_state != want:
        raise Violation("condition %r, expected %r" % (sim.op_state, want))
    ctx.nontrivial((tm, sorted(o.items())))
    if sim.num_rule_moves: ctx.label("halt-after-rules")
    if sim.num_chain_moves: ctx.label("halt-after-chain")
    if o["n"] > 1: ctx.label("halt-in-block-machine")
    if r.steps > 1000: ctx.label("halt-after-1000+steps")

def cases_main():
    return st.fixed_dictionaries(dict(tm=st.one_of(gen.corpus_tm(max_steps=100000), gen.walk_tm(), gen.mutant_tm(gen.corpus_tm(max_steps=100000)), gen.table_tm()),
                                      o=simlib.options(), loops=st.sampled_from([50, 300, 1500])))

LONG = None
def cases_long():
    big = [x[0] for x in gen.corpus("halters.txt") if x[1] >= 300]
    return st.fixed_dictionaries(dict(tm=st.sampled_from(big), o=simlib.options(), loops=st.sampled_from([1000, 4000])))

def giants(case, ctx):
    """halters far beyond literal execution: step count and score modulo simlib.RES_M, as agreed by independent option sets (data/giants.txt)"""
    tm, o = case["tm"], case["o"]
    sim = simlib.make_sim(tm, o)
    while sim.op_state == Turing_Machine.RUNNING and sim.num_loops < case["loops"] and sim.tape.compressed_size() < 100: sim.step()
    if sim.op_state == Turing_Machine.INF_REPEAT: raise Violation("declared infinite; it halts")
    if not halted(sim): ctx.label("giant-unfinished"); return
    if sim.compute_steps and case["steps"] is not None and sim.step_num % simlib.RES_M != case["steps"]:
        raise Violation("halts after %d steps modulo %d, known %d" % (sim.step_num % simlib.RES_M, simlib.RES_M, case["steps"]))
    nz = sim.get_nonzeros()
    if nz % simlib.RES_M != case["score"]: raise Violation("score is %d modulo %d, known %d" % (nz % simlib.RES_M, simlib.RES_M, case["score"]))
    ctx.nontrivial((tm, sorted(o.items()))); ctx.label("giant" if isinstance(nz, int) else "giant-formula")

def giant_cases():
    l = [dict(tm=t, steps=None if a == "-" else int(a), score=int(b)) for t, a, b, k in simlib.rows("giants.txt")]
    huge = [d for d in l if d["steps"] is None]
    plain = st.tuples(st.sampled_from(l), simlib.options(), st.sampled_from([500, 2000, 5000]), st.integers(0, 3)).map(
        lambda t: dict(t[0], o=dict(t[1], prover=True, recursive=bool(t[3]) or t[1].get("recursive", False)), loops=t[2]))
    exp = st.tuples(st.sampled_from(huge), simlib.options(), st.sampled_from([1, 2, 2, 3]), st.sampled_from([True, True, False])).map(
        lambda t: dict(t[0], o=dict(t[1], prover=True, recursive=True, exp_linear_rules=True, exp_meta_linear_rules=True, n=t[2], off=0, back=t[3]), loops=2000))
    return st.one_of(plain, exp)

TESTS = [
    Test("giants", giants, strategy=giant_cases, quick=3000, thorough=50000),
    Test("long_halters", check, strategy=cases_long, quick=20000, thorough=400000),
    Test("any_machine", check, strategy=cases_main, quick=24000, thorough=500000),
]
