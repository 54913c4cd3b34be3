from hypothesis import strategies as st
import core, ref, gen, simlib
from core import Test, Violation, Rejected
from simlib import Turing_Machine

PROPERTY = "C02"
RULE = ("case = machine x acceleration options x number of loops; after every loop the simulator's state, direction and whole tape are expanded to base "
        "cells and compared with a literal run advanced to the reported step count (when steps are not tracked: with the first later literal "
        "configuration equal to it).  Non-trivial = at least one chain move, macro move or rule was applied and compared")
ASSUMPTIONS = ["literal interpreter vlib/refsim.c is the definition of a run", "configurations beyond 5e6 steps or 2e5 cells are not compared"]
BUDGET = dict(quick=150, thorough=3000)
MAXSTEP = 5_000_000

def check(case, ctx):
    tm, o, loops = case["tm"], case["o"], case["loops"]
    sim = simlib.make_sim(tm, o)
    r = ref.Run(tm)
    last = 0
    compared = 0
    rules = 0
    for _ in range(loops):
        prev_rules = sim.num_rule_moves
        sim.step()
        if sim.op_state != Turing_Machine.RUNNING:
            break
        if sim.compute_steps:
            if not simlib.small(sim.step_num) or sim.step_num > MAXSTEP:
                ctx.label("too-long"); break
            if sim.step_num < last:
                raise Violation("step count went from %r to %r" % (last, sim.step_num))
            last = sim.step_num
            parts = (sim.steps_from_macro, sim.steps_from_chain, sim.steps_from_rule)
            if sum(parts) != sim.step_num:
                raise Violation("after %r steps the moves account for %r steps (macro, chain, rule)" % (sim.step_num, parts))
            r.to(int(sim.step_num))
            if r.halted:
                raise Violation("still running at step %r, but literal run halts at %d" % (sim.step_num, r.steps))
            c = simlib.sim_config(sim)
            if c is None:
                continue
            w = simlib.ref_config(r, c[1])
            if c != w:
                raise Violation("after %r steps (loop %d%s): shows %r, true %r" % (sim.step_num, sim.num_loops,
                    ", rule applied" if sim.num_rule_moves > prev_rules else "", c, w))
            compared += 1
            if sim.states_last_seen is not None and (sim.step_num <= 3000 or sim.num_rule_moves > prev_rules and sim.step_num <= 100000):
                got = {int(k): v for k, v in sim.states_last_seen.items()}
                want = {i: v for i, v in enumerate(ref.Run(tm).last_seen(int(sim.step_num))) if v >= 0}
                if got != want:
                    raise Violation("after %r steps (loop %d%s): states last used at steps %r, true %r" % (sim.step_num, sim.num_loops,
                        ", rule applied" if sim.num_rule_moves > prev_rules else "", got, want))
                ctx.label("last-use-compared")
            if sim.num_rule_moves > prev_rules: rules += 1
        else:
            c = simlib.sim_config(sim)
            if c is None: break
            ok = False
            while r.steps < 300000 and not r.halted:
                if r.state == c[0] and simlib.ref_config(r, c[1]) == c:
                    ok = True; break
                r.to(r.steps + 1)
            if not ok:
                if r.halted:
                    raise Violation("shows configuration %r (loop %d) that the literal run never reaches before halting at step %d" % (c, sim.num_loops, r.steps))
                ctx.label("nosteps-not-found-in-horizon"); break
            compared += 1
            ctx.label("compared-without-steps")
    if rules: ctx.label("rule-results-compared", rules)
    if compared >= 3:
        ctx.nontrivial((tm, sorted(o.items())))

def cases():
    return st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=14, max_corpus_steps=3_000_000), o=simlib.options(), loops=st.sampled_from([30, 120, 400])))
def cases_rules():
    big = [x[0] for x in gen.corpus("halters.txt") if x[1] >= 200] 
    return st.fixed_dictionaries(dict(tm=st.one_of(st.sampled_from(big), gen.corpus_tm("nonhalters.txt"), gen.corpus_tm("ruleinf.txt"), gen.corpus_tm("metarules.txt")), o=simlib.options().map(lambda o: dict(o, prover=True)), loops=st.sampled_from([150, 500])))

TESTS = [
    Test("rule_machines", check, strategy=cases_rules, quick=9000, thorough=150000),
    Test("any_machine", check, strategy=cases, quick=10000, thorough=200000),
]
