from hypothesis import strategies as st
import core, ref, gen, simlib
from core import Test, Violation, Rejected
from simlib import Turing_Machine as T
from Macro import Block_Finder, Simulator
import io_pb2, IO, math, optparse

PROPERTY = "C04"
RULE = ("case = base machine x macro wrapping (block size, back symbol, nesting, offset start) x cell contents x state x direction; oracle = literal run of the "
        "base machine on that bounded strip of cells.  Non-trivial = the strip run takes at least 3 base steps or ends in halt / endless loop")
ASSUMPTIONS = ["'gave up' is accepted whenever the true strip run exceeds 400 base steps", "block_finder: only its contract (size in range, usable) is checked"]
BUDGET = dict(quick=200, thorough=2500)
CAP = 60000

def strip_run(table, cells, pos, state):
    """literal run on a bounded strip.  -> dict(kind, cells, pos, state, dir, steps, last, from)"""
    cells = list(cells)
    seen_at = {}
    last = {}
    d = None
    k = 0
    while True:
        key = (state, pos, tuple(cells))
        if key in seen_at:
            rec = set()
            return dict(kind="loop", steps=k, start=seen_at[key], last=last)
        if k < CAP: seen_at[key] = k
        else: return dict(kind="long")
        sym = cells[pos]
        w, mv, nx, undef = table[state][sym]
        last[state] = k
        cells[pos] = w; pos += mv; k += 1; d = 1 if mv > 0 else 0
        if nx < 0:
            return dict(kind="undef" if undef else "halt", cells=cells, steps=k, dir=d, frm=(sym, state), last=last)
        state = nx
        if not (0 <= pos < len(cells)):
            return dict(kind="exit", cells=cells, steps=k, dir=d, state=state, last=last)

def build(base, wraps, off, give_up):
    m = base
    for i, w in enumerate(wraps):
        if w == "b":
            m = T.Backsymbol_Macro_Machine(m)
        else:
            kw = {}
            if give_up: kw["max_sim_steps_per_symbol"] = give_up
            if off and i == 0: m = T.Block_Macro_Machine(m, w, off, **kw)
            else: m = T.Block_Macro_Machine(m, w, **kw)
    return m

def nest(cells, wraps):
    """pack base cells of ONE symbol of the given nested block machine"""
    blocks = [w for w in wraps if w != "b"]
    def mk(cs, bl):
        if not bl: return cs[0]
        n = bl[-1]; inner = len(cs) // n
        return T.Block_Symbol(mk(cs[i*inner:(i+1)*inner], bl[:-1]) for i in range(n))
    return mk(list(cells), blocks)

def check(case, ctx):
    tm = case["tm"]; table = ref.parse(tm)
    nk = len(table[0])
    base = simlib.parse_tm(tm)
    wraps = case["wraps"]
    m = build(base, wraps, 0, case["give_up"])
    if case["tiny_cache"] and hasattr(m, "max_cells"):
        m.max_cells = 2
    width = 1
    for w in wraps:
        if w != "b": width *= w
    back = "b" in wraps
    for q in case["queries"]:
        total = width * (2 if back else 1)
        cells = [c % nk for c in (q["cells"] * total)[:total]]
        state = q["state"] % len(table)
        d = q["dir"]
        st_in = T.Simple_Machine_State(state)
        if back:
            if d == 1:
                b, f = cells[:width], cells[width:]
                pos = width
            else:
                f, b = cells[:width], cells[width:]
                pos = width - 1
            st_in = T.Backsymbol_Macro_Machine_State(st_in, nest(b, wraps))
            sym_in = nest(f, wraps)
        else:
            sym_in = nest(cells, wraps)
            pos = 0 if d == 1 else width - 1
        w = strip_run(table, cells, pos, state)
        for rep in range(2):   # second time: possibly from the cache
            t = m.get_trans_object(sym_in, st_in, d)
            judge(t, w, wraps, width, back, tm, cells, state, d, m, case["give_up"])
        ev = m.eval_symbol(sym_in) + m.eval_state(st_in)
        if ev != sum(1 for c in cells if c):
            raise Violation("non-zero count of %r is %d" % (cells, ev))
        ctx.label(w["kind"])
        if q is not case["queries"][0]: ctx.evals += 1
        if w["kind"] != "exit" or w["steps"] >= 3:
            ctx.nontrivial((tm, str(wraps), cells, state, d))

def judge(t, w, wraps, width, back, tm, cells, state, d, m, give_up):
    where = "wraps %r cells %r state %d dir %d" % (wraps, cells, state, d)
    limit = min(400, (give_up or 400))
    if t.condition == T.GAVE_UP:
        if w["kind"] == "long" or w["kind"] == "loop" or w["steps"] > limit:
            if not give_up and w["kind"] == "loop" and w["steps"] <= 150:
                raise Violation("gave up on a loop entered after %d steps: %s" % (w["steps"], where))
            return
        raise Violation("gave up, but the strip run ends (%s) after %d steps: %s" % (w["kind"], w["steps"], where))
    if w["kind"] == "long":
        if t.condition != T.RUNNING or t.num_base_steps > CAP: return
        raise Violation("reports leaving after %r steps, but literal run stays over %d steps: %s" % (t.num_base_steps, CAP, where))
    want = dict(exit=T.RUNNING, halt=T.HALT, undef=T.UNDEFINED, loop=T.INF_REPEAT)[w["kind"]]
    if t.condition != want:
        raise Violation("condition %r, literal run: %s after %d steps: %s" % (t.condition, w["kind"], w["steps"], where))
    if want == T.INF_REPEAT:
        got = {int(x) for x in t.inf_recur_states}; true = {q for q, k in w["last"].items() if k >= w["start"]}
        if got != true: raise Violation("loops forever in states %r, literal run in %r: %s" % (sorted(got), sorted(true), where))
        return
    if t.num_base_steps != w["steps"]:
        raise Violation("counts %r base steps, literal run %d: %s" % (t.num_base_steps, w["steps"], where))
    if t.dir_out != w["dir"]:
        raise Violation("leaves to side %r, literal run %d: %s" % (t.dir_out, w["dir"], where))
    out = simlib.flat(t.symbol_out)
    so = t.state_out
    if back:
        b = simlib.flat(so.back_symbol)
        out = out + b if t.dir_out == 1 else b + out
        so = so.base_state
    if out != w["cells"]:
        raise Violation("leaves cells %r, literal run %r: %s" % (out, w["cells"], where))
    if want == T.RUNNING:
        if int(so) != w["state"]:
            raise Violation("leaves in state %r, literal run %d: %s" % (so, w["state"], where))
    else:
        if tuple(t.condition_details[0][:2]) != w["frm"]:
            raise Violation("halts from %r, literal run (symbol,state) %r: %s" % (t.condition_details, w["frm"], where))
    ls = {int(k): v for k, v in t.states_last_seen.items()}
    if ls != w["last"]:
        raise Violation("last uses of states %r, literal run %r: %s" % (ls, w["last"], where))

WRAPS = [[1], [2], [3], [4], [5], [6], [8], ["b"], [2, "b"], [3, "b"], [4, "b"], [5, "b"], [2, 2], [2, 3], [3, 2, "b"]]
def cases():
    q = st.fixed_dictionaries(dict(cells=st.lists(st.integers(0, 5), min_size=1, max_size=12), state=st.integers(0, 6), dir=st.integers(0, 1)))
    return st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=14, max_corpus_steps=3_000_000), wraps=st.sampled_from(WRAPS), queries=st.lists(q, min_size=1, max_size=8),
                                      give_up=st.sampled_from([0, 0, 0, 20, 200]), tiny_cache=st.booleans()))

# long strip runs (counters inside a block) and endless loops need machines that stay inside
def cases_inside():
    tms = st.one_of(gen.table_tm(st.sampled_from([(3, 2), (4, 2), (2, 3), (3, 3), (5, 2), (2, 4)]), p_halt=0, p_undef=0, p_run=1), gen.corpus_tm("nonhalters.txt"))
    q = st.fixed_dictionaries(dict(cells=st.lists(st.integers(0, 5), min_size=1, max_size=16), state=st.integers(0, 6), dir=st.integers(0, 1)))
    return st.fixed_dictionaries(dict(tm=tms, wraps=st.sampled_from([[5], [6], [7], [8], [10], [3, "b"], [4, "b"], [5, "b"], [6, "b"], [2, 3], [2, 2, "b"]]), queries=st.lists(q, min_size=3, max_size=10),
                                      give_up=st.just(0), tiny_cache=st.just(False)))

# the whole start of a run inside one cell: blank or nearly blank strip, head in the middle, many sweeps before it is left
def cases_wide():
    tms = st.one_of(gen.corpus_tm("nonhalters.txt"), gen.any_tm(max_cells=14), gen.table_tm(st.sampled_from([(3, 2), (4, 2), (2, 3), (3, 3), (5, 2), (2, 4)]), p_halt=0, p_undef=0, p_run=1))
    q = st.fixed_dictionaries(dict(cells=st.one_of(st.just([0]), st.just([1]), st.lists(st.integers(0, 3), min_size=1, max_size=3), st.lists(st.sampled_from([0, 0, 0, 1, 1, 2]), min_size=8, max_size=40)), state=st.integers(0, 5), dir=st.integers(0, 1)))
    return st.fixed_dictionaries(dict(tm=tms, wraps=st.sampled_from([[12, "b"], [16, "b"], [20, "b"], [30, "b"], [4, 4, "b"], [5, 6, "b"], [24], [40]]), queries=st.lists(q, min_size=2, max_size=5),
                                      give_up=st.sampled_from([0, 0, 0, 50, 300]), tiny_cache=st.just(False)))

def check_offset(case, ctx):
    """start inside a block: first transition of the offset machine equals the literal run from that cell"""
    tm, n, off = case["tm"], case["n"], 1 + case["off"] % (case["n"] - 1)
    table = ref.parse(tm)
    m = T.Block_Macro_Machine(simlib.parse_tm(tm), n, off)
    t = m.get_trans_object(m.init_symbol, m.init_state, m.init_dir)
    w = strip_run(table, [0] * n, off, 0)
    judge(t, w, [n], n, False, tm, [0] * n, 0, 1, m, 0)
    if w["kind"] != "exit" or w["steps"] >= 3: ctx.nontrivial((tm, n, off))

def check_block_finder(case, ctx):
    tm = simlib.parse_tm(case["tm"])
    parser = optparse.OptionParser(); Simulator.add_option_group(parser); Block_Finder.add_option_group(parser)
    options, _ = parser.parse_args([])
    p = io_pb2.BlockFinderParams(); r = io_pb2.BlockFinderResult()
    p.compression_search_loops = case["loops"]; p.mult_sim_loops = case["mloops"]
    p.max_block_mult = case["mult"]; p.max_block_size = case["maxsize"]; p.block_mult = case["bm"]
    Block_Finder.block_finder(tm, options, p, r)
    b = r.best_block_size
    if b < 1: raise Violation("best block size %r" % b)
    if case["maxsize"] and not case["bm"] and b > case["maxsize"]:
        raise Violation("best block size %d exceeds the maximum %d" % (b, case["maxsize"]))
    if case["bm"] and r.best_compression_block_size and b != case["bm"] * r.best_compression_block_size:
        raise Violation("block size %d is not multiple %d of %d" % (b, case["bm"], r.best_compression_block_size))
    r2 = io_pb2.BlockFinderResult()
    Block_Finder.block_finder(simlib.parse_tm(case["tm"]), options, p, r2)
    if r2.best_block_size != b: raise Violation("block size differs between two searches: %d, %d" % (b, r2.best_block_size))
    if b > 1: ctx.nontrivial()

def cases_bf():
    return st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=10), loops=st.sampled_from([0, 1, 10, 50, 200]), mloops=st.sampled_from([0, 10, 100]), mult=st.integers(0, 3), maxsize=st.sampled_from([0, 0, 1, 2, 3, 5]), bm=st.sampled_from([0, 0, 0, 1, 2])))

TESTS = [
    Test("transitions", check, strategy=cases, quick=16000, thorough=300000),
    Test("long_inside", check, strategy=cases_inside, quick=4000, thorough=60000),
    Test("wide", check, strategy=cases_wide, quick=6000, thorough=60000),
    Test("offset_start", check_offset, strategy=lambda: st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=14), n=st.integers(2, 8), off=st.integers(0, 6))), quick=4000, thorough=60000),
    Test("offset_wide", check_offset, strategy=lambda: st.fixed_dictionaries(dict(tm=st.one_of(gen.corpus_tm("nonhalters.txt"), gen.any_tm(max_cells=14)), n=st.integers(9, 40), off=st.integers(0, 40))), quick=4000, thorough=60000),
    Test("block_finder", check_block_finder, strategy=cases_bf, quick=1200, thorough=20000),
]
