from hypothesis import strategies as st
import core, ref, gen, simlib
from core import Test, Violation, Rejected
import IO, Common, Direct_Simulator
from Macro import Turing_Machine as T

PROPERTY = "C21"
RULE = ("case = machine x list of calls (single steps, seeks to absolute step numbers, copies); after each call all visible fields are compared with the literal "
        "interpreter.  Non-trivial = at least 3 steps were taken")
ASSUMPTIONS = ["an undefined transition acts as 1RZ and counts one step (repository convention)"]
BUDGET = dict(quick=200, thorough=1500)

def compare(sim, r, what):
    if sim.step_num != r.steps: raise Violation("%s: step count %r, true %d" % (what, sim.step_num, r.steps))
    if bool(sim.halted) != r.halted: raise Violation("%s: halted %r, true %r at step %d" % (what, sim.halted, r.halted, r.steps))
    if sim.tape.position != r.pos: raise Violation("%s: head at %r, true %d" % (what, sim.tape.position, r.pos))
    if int(sim.state) != (r.state if not r.halted else -1): raise Violation("%s: state %r, true %d" % (what, sim.state, r.state))
    lo, cells = r.cells()
    for i, v in enumerate(cells):
        if sim.tape.read_pos(lo + i) != v: raise Violation("%s: cell %d is %r, true %d" % (what, lo + i, sim.tape.read_pos(lo + i), v))
    for p in (lo - 1, lo + len(cells)):
        if sim.tape.read_pos(p) != 0: raise Violation("%s: untouched cell %d is not blank" % (what, p))
    if (sim.tape.pos_leftmost(), sim.tape.pos_rightmost()) != (r.lo, r.hi): raise Violation("%s: visited range %r, true %r" % (what, (sim.tape.pos_leftmost(), sim.tape.pos_rightmost()), (r.lo, r.hi)))
    if sim.tape.count_nonzero() != r.score: raise Violation("%s: non-zero cells %r, true %d" % (what, sim.tape.count_nonzero(), r.score))
    if r.halted:
        if sim.halt_score != r.score: raise Violation("%s: score %r, true %d" % (what, sim.halt_score, r.score))
        if (sim.halt_from_state, sim.halt_from_symbol) != (r.from_state, r.from_sym): raise Violation("%s: halted from %r, true %r" % (what, (sim.halt_from_state, sim.halt_from_symbol), (r.from_state, r.from_sym)))

def check(case, ctx):
    tm = case["tm"]
    sim = Direct_Simulator.DirectSimulator(simlib.parse_tm(tm))
    r = ref.Run(tm)
    spare = None
    for c in case["calls"]:
        if c[0] == "step":
            for _ in range(c[1]): sim.step()
            r.to(r.steps + c[1])
        elif c[0] == "seek":
            sim.seek(c[1]); r.to(c[1])
        elif c[0] == "copy":
            spare = (sim.copy(), r.steps)
        compare(sim, r, repr(c))
    if spare:
        compare(spare[0], ref.run(tm, spare[1]), "copy")
        spare[0].seek(spare[1] + 50); compare(spare[0], ref.run(tm, spare[1] + 50), "copy run on")
    if r.steps >= 3: ctx.nontrivial((tm, case["calls"]))
    if r.halted: ctx.label("halted")

def cases():
    call = st.one_of(st.tuples(st.just("step"), st.integers(0, 30)), st.tuples(st.just("seek"), st.integers(0, 400)), st.tuples(st.just("copy")))
    return st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=14), calls=st.lists(call, min_size=1, max_size=6)))

def check_tape(case, ctx):
    """the tape on its own: any sequence of reads, writes at any position, moves and copies against a dictionary"""
    tapes = [(Direct_Simulator.DirectTape(case["init"]), {}, [0])]
    touched = 0
    for c in case["calls"]:
        t, d, pos = tapes[c[-1] % len(tapes)]
        lo, hi = min(list(d) + [0]), max(list(d) + [0])
        if c[0] == "move": t.move(c[1]); pos[0] += 1 if c[1] else -1; d.setdefault(pos[0], case["init"])
        elif c[0] == "write": t.write(c[1]); d[pos[0]] = c[1]
        elif c[0] == "write_pos": t.write_pos(c[1], c[2]); d[c[2]] = c[1]; touched += c[2] < lo or c[2] > hi
        elif c[0] == "copy" and len(tapes) < 3: tapes.append((t.copy(), dict(d), list(pos)))
        for t, d, pos in tapes:
            if t.position != pos[0]: raise Violation("%r: head at %r, should be %d" % (c, t.position, pos[0]))
            if t.read() != d.get(pos[0], case["init"]): raise Violation("%r: the head reads %r, should be %r" % (c, t.read(), d.get(pos[0], case["init"])))
            for p in set(d) | {min(list(d) + [0]) - 1, max(list(d) + [0]) + 1}:
                if t.read_pos(p) != d.get(p, case["init"]): raise Violation("%r: cell %d is %r, should be %r" % (c, p, t.read_pos(p), d.get(p, case["init"])))
            if t.count_nonzero() != sum(v != case["init"] for v in d.values()): raise Violation("%r: %r non-blank cells" % (c, t.count_nonzero()))
            if t.pos_leftmost() > min(list(d) + [0]) or t.pos_rightmost() < max(list(d) + [0]): raise Violation("%r: the ends are %r" % (c, (t.pos_leftmost(), t.pos_rightmost())))
    if touched: ctx.nontrivial((case["init"], case["calls"]))

def tape_cases():
    k = st.integers(0, 5); pos = st.integers(-12, 12); sym = st.integers(0, 3)
    call = st.one_of(st.tuples(st.just("move"), st.integers(0, 1), k), st.tuples(st.just("write"), sym, k), st.tuples(st.just("write_pos"), sym, pos, k), st.tuples(st.just("copy"), k))
    return st.fixed_dictionaries(dict(init=st.sampled_from([0, 0, 1]), calls=st.lists(call, min_size=1, max_size=25)))

def check_full(case, ctx):
    x = case
    sim = Direct_Simulator.DirectSimulator(simlib.parse_tm(x["tm"]))
    sim.seek(x["steps"] + 10)
    compare(sim, ref.run(x["tm"], x["steps"] + 10), "run to the end")
    ctx.nontrivial()

def check_table(case, ctx):
    """what the parsed machine says about each transition"""
    tm = simlib.parse_tm(case); tab = ref.parse(case)
    if (tm.num_states, tm.num_symbols) != (len(tab), len(tab[0])): raise Violation("size %r" % ((tm.num_states, tm.num_symbols),))
    for s, row in enumerate(tab):
        for k, (w, d, n, u) in enumerate(row):
            t = tm.get_trans_object(k, T.Simple_Machine_State(s))
            want = (w, 1 if d > 0 else 0, n, T.UNDEFINED if u else (T.HALT if n < 0 else T.RUNNING), 1)
            got = (t.symbol_out, t.dir_out, int(t.state_out), t.condition, t.num_base_steps)
            if got != want: raise Violation("transition %d,%d reads %r, should be %r" % (s, k, got, want))
            if t.condition != T.RUNNING and tuple(t.condition_details[0][:2]) != (k, s): raise Violation("halting transition %d,%d has details %r" % (s, k, t.condition_details))
            if dict(t.states_last_seen) != {s: 0}: raise Violation("transition %d,%d has last seen %r" % (s, k, t.states_last_seen))
            for k2, v in ((k, 1 if k else 0),):
                if tm.eval_symbol(k2) != v: raise Violation("eval_symbol(%d)" % k2)
    if len(tab) * len(tab[0]) >= 4: ctx.nontrivial()

TESTS = [
    Test("calls", check, strategy=cases, quick=12000, thorough=250000),
    Test("tape", check_tape, strategy=tape_cases, quick=4000, thorough=60000),
    Test("to_the_end", check_full, strategy=lambda: st.sampled_from([dict(tm=x[0], steps=x[1]) for x in gen.corpus("halters.txt") if x[1] <= 30000]), quick=2500, thorough=7000),
    Test("table", check_table, strategy=lambda: gen.table_tm(st.tuples(st.integers(1, 9), st.integers(1, 9))), quick=3000, thorough=30000),
]
