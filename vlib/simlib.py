"""Helpers around the accelerated simulator (public classes only)."""
import math
from hypothesis import strategies as st
import core, ref, gen
from core import Violation, Rejected
core.setup_paths()
import IO
from Macro import Simulator, Turing_Machine
from Exp_Int import ExpInt

def parse_tm(s):
    return IO.parse_tm(s)

@st.composite
def options(draw, exotic=True):
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 3, 4, 5, 6]))
    o = dict(n=n, off=0, back=draw(st.booleans()), prover=draw(st.sampled_from([True, True, True, False])))
    if n > 1 and draw(st.integers(0, 3)) == 0:
        o["off"] = draw(st.integers(0, n - 1))
    if o["prover"]:
        for k in ("recursive", "limited_rules", "exp_linear_rules", "exp_meta_linear_rules"):
            if exotic and draw(st.integers(0, 2)) == 0:
                o[k] = True
        if exotic and draw(st.integers(0, 3)) == 0:
            o["max_num_reps"] = draw(st.sampled_from([1, 2, 3, 50]))
        if exotic and draw(st.integers(0, 5)) == 0:
            o["max_prover_configs"] = draw(st.sampled_from([1, 5, 50]))
    if draw(st.integers(0, 9)) == 0:
        o["compute_steps"] = False
    return o

def make_machine(base, o):
    m = base
    if o["n"] != 1:
        m = Turing_Machine.Block_Macro_Machine(m, o["n"], o["off"]) if o["off"] else Turing_Machine.Block_Macro_Machine(m, o["n"])
    if o["back"]:
        m = Turing_Machine.Backsymbol_Macro_Machine(m)
    return m

def make_options(o):
    opts = Simulator.create_default_options()
    for k, v in o.items():
        if k not in ("n", "off", "back"):
            assert hasattr(opts, k), k
            setattr(opts, k, v)
    if o.get("exp_linear_rules"):
        opts.compute_steps = False   # as the pipeline does: steps are not available with these rules
    return opts

def make_sim(tm_str, o):
    base = parse_tm(tm_str)
    return Simulator.Simulator(make_machine(base, o), make_options(o))

def flat(symbol):
    """base symbols of a (possibly nested) macro symbol, left to right"""
    if isinstance(symbol, (tuple, list)):
        out = []
        for s in symbol:
            out += flat(s)
        return out
    return [int(symbol)]

def sim_config(sim, limit=200000):
    """(state, dir, left cells nearest-first, right cells nearest-first) in base cells; infinite blank ends dropped.
    Head reads right[0] if dir is right, else left[0].  None if too large or not concrete."""
    tape = sim.tape
    halves = []
    for d in (0, 1):
        out = []
        blocks = list(tape.tape[d])
        first = blocks[0]
        if not (first.num == math.inf):
            raise Violation("outermost run is not infinite: %r" % (tape,))
        if any(flat(first.symbol)):
            raise Violation("outermost run is not blank: %r" % (tape,))
        for b in reversed(blocks[1:]):
            k = b.num
            if isinstance(k, ExpInt): return None
            if not isinstance(k, int):
                raise Violation("repetition count %r (%s) is not an integer: %r" % (k, type(k).__name__, tape))
            if k <= 0:
                raise Violation("non-positive run length %r in %r" % (k, tape))
            cells = flat(b.symbol)
            if d == 0: cells = cells[::-1]
            if len(out) + k * len(cells) > limit: return None
            out += cells * k
        halves.append(out)
    state = sim.state
    if hasattr(state, "back_symbol"):
        back = flat(state.back_symbol)
        behind = 0 if sim.dir == 1 else 1
        if behind == 0: back = back[::-1]
        halves[behind] = back + halves[behind]
        state = state.base_state
    if sim.tape.dir != sim.dir:
        raise Violation("tape direction %r differs from simulator direction %r" % (sim.tape.dir, sim.dir))
    if hasattr(state, "offset"):
        # only in the start configuration: head is `offset` cells into the front block
        if sim.step_num != 0: raise Violation("start state seen after start")
        return None
    return int(state), int(sim.dir), strip(halves[0]), strip(halves[1])

def strip(l):
    n = len(l)
    while n and l[n - 1] == 0: n -= 1
    return l[:n]

def ref_config(r, dir):
    """same shape for a reference run, where the head cell is put on the side given by dir"""
    lo, c = r.cells()
    p = r.pos - lo
    if dir == 1:
        left, right = c[:p][::-1], c[p:]
    else:
        left, right = c[:p + 1][::-1], c[p + 1:]
    return r.state, dir, strip(left), strip(right)

REF_LIMIT = 20_000_000
def small(x):
    return isinstance(x, int) and not isinstance(x, bool) and x <= REF_LIMIT

def drive(sim, loops):
    """run up to `loops` loops, stopping early once the run is far beyond anything that can be replayed literally"""
    for i in range(loops):
        if sim.op_state != Turing_Machine.RUNNING:
            break
        sim.step()
        if sim.tape.compressed_size() > 100: break    # as the pipeline's tape limit does
        if sim.num_rule_moves and i % 8 == 0:
            if not small(sim.step_num): break
            if any(isinstance(b.num, ExpInt) for h in sim.tape.tape for b in h): break

# residues used to compare numbers far too large to write down
RES_M = 2**10 * 3**6 * 5**4 * 7**2 * 11 * 13 * 17 * 31
def rows(name):
    import os
    with open(os.path.join(gen.DATA, name)) as f:
        return [l.rstrip("\n").split("\t") for l in f if l.strip()]
