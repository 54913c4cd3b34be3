from hypothesis import strategies as st
import core, ref, gen, simlib
from core import Test, Violation, Rejected
from simlib import Turing_Machine
import io_pb2

PROPERTY = "C03"
RULE = ("case = machine x acceleration options; non-trivial = the simulator reported 'infinite' (then a literal run of 200k+ steps must not halt and the "
        "named recurring states / last-use times must agree with it) or the machine is a known halter with 50+ steps that was run to a verdict or to the loop limit")
ASSUMPTIONS = ["an infinite verdict is refuted by a halt within max(300000, 100x the step count of the verdict) literal steps, or by the known halting corpus"]
BUDGET = dict(quick=150, thorough=3000)
KNOWN = None

def check(case, ctx):
    tm, o, loops = case["tm"], case["o"], case["loops"]
    sim = simlib.make_sim(tm, o)
    simlib.drive(sim, loops)
    if sim.op_state != Turing_Machine.INF_REPEAT:
        if case.get("steps", 0) >= 50: ctx.nontrivial((tm, sorted(o.items()))); ctx.label("long-halter-not-misjudged")
        return
    T = sim.step_num if (sim.compute_steps and simlib.small(sim.step_num)) else None
    if "steps" in case:
        raise Violation("declared infinite (reason %s after %r steps) but it halts at step %d" % (io_pb2.InfReason.Name(sim.inf_reason), T, case["steps"]))
    horizon = min(20_000_000, max(300000, 100 * (T or 0)))
    r = ref.run(tm, horizon)
    if r.halted:
        raise Violation("declared infinite (reason %s after %r steps) but it halts at step %d" % (io_pb2.InfReason.Name(sim.inf_reason), T, r.steps))
    ctx.nontrivial((tm, sorted(o.items())))
    ctx.label(io_pb2.InfReason.Name(sim.inf_reason))
    # quasi-halting facts
    if T is None or sim.states_last_seen is None or sim.inf_recur_states is None:
        return
    ctx.label("recurring-states-checked")
    got = {int(k): v for k, v in sim.states_last_seen.items()}
    if sim.inf_reason != io_pb2.INF_MACRO_STEP:   # inside a macro step the report may already include uses after step T
        at_T = ref.Run(tm).last_seen(T)
        want = {i: v for i, v in enumerate(at_T) if v >= 0}
        if got != want:
            raise Violation("states last used before step %d: reports %r, true %r" % (T, got, want))
    later = ref.Run(tm).last_seen(horizon)
    recur = {int(s) for s in sim.inf_recur_states}
    for s in range(len(later)):
        if s not in recur and later[s] != got.get(s, -1):
            raise Violation("state %d reported as not recurring, last used at step %r, but truly last used at step %d (recurring: %r, reason %s)" % (s, got.get(s), later[s], sorted(recur), io_pb2.InfReason.Name(sim.inf_reason)))
        if s in recur and sim.inf_reason != io_pb2.INF_PROOF_SYSTEM and later[s] < horizon - 100000:
            raise Violation("state %d reported as recurring, but not used after step %d (horizon %d, reason %s)" % (s, later[s], horizon, io_pb2.InfReason.Name(sim.inf_reason)))

def halters():
    l = [dict(tm=x[0], steps=x[1]) for x in gen.corpus("halters.txt")]
    big = [d for d in l if d["steps"] >= 100]
    return st.tuples(st.one_of(st.sampled_from(big), st.sampled_from(l)), simlib.options(), st.sampled_from([200, 1000, 3000])).map(lambda t: dict(t[0], o=t[1], loops=t[2]))

def cases():
    return st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=14, max_corpus_steps=100), o=simlib.options(), loops=st.sampled_from([60, 300, 1000])))

def rule_cases():
    return st.tuples(gen.corpus_tm("ruleinf.txt"), simlib.options(), st.sampled_from([300, 1000])).map(lambda t: dict(tm=t[0], o=dict(t[1], prover=True), loops=t[2]))

def giants(case, ctx):
    """published quasi-halting times (Machines/beep) far beyond literal execution: exact as residues"""
    tm, o = case["tm"], case["o"]
    sim = simlib.make_sim(tm, o)
    while sim.op_state == Turing_Machine.RUNNING and sim.num_loops < case["loops"] and sim.tape.compressed_size() < 100:
        sim.step()
    if sim.op_state in (Turing_Machine.HALT, Turing_Machine.UNDEFINED): raise Violation("reported as halting; it runs forever")
    if sim.op_state != Turing_Machine.INF_REPEAT: return
    if sim.states_last_seen is None or sim.inf_recur_states is None: return
    ignore = {int(s) for s in sim.inf_recur_states}
    left = [(v, int(q)) for q, v in sim.states_last_seen.items() if int(q) not in ignore]
    got = max(left) if left else None
    if got is None or got[1] != case["q"] or (got[0] + 1) % simlib.RES_M != case["n"]:
        raise Violation("%s verdict: last use of a state that stops being used: %r; known: state %d with %d steps modulo %d" % (io_pb2.InfReason.Name(sim.inf_reason),
            got and (got[1], (got[0] + 1) % simlib.RES_M), case["q"], case["n"], simlib.RES_M))
    ctx.nontrivial((tm, sorted(o.items()))); ctx.label("published-quasihalt")

def giant_cases():
    l = [dict(tm=t, q=int(q), n=int(n)) for t, q, n, k in simlib.rows("beep.txt")]
    return st.tuples(st.sampled_from(l), simlib.options(), st.sampled_from([500, 3000])).map(lambda t: dict(t[0], o=dict(t[1], prover=True, recursive=t[2] == 500 or t[1].get("recursive", False)), loops=t[2]))

TESTS = [
    Test("published_quasihalts", giants, strategy=giant_cases, quick=1500, thorough=20000),
    Test("rules_then_infinite", check, strategy=rule_cases, quick=4000, thorough=60000),
    Test("known_halters", check, strategy=halters, quick=16000, thorough=300000),
    Test("any_machine", check, strategy=cases, quick=16000, thorough=300000),
]
