from types import SimpleNamespace
from hypothesis import strategies as st
import core, ref, gen
from core import Test, Violation, Rejected
core.setup_paths()
import IO, CTL1, CTL2, CTL3, CTL4, CTL_Filter, TM_Enum, io_pb2
from IO import TM_Record
from Macro import Turing_Machine, Simulator

PROPERTY = "C09"
RULE = ("case = machine x block size x offset x back-symbol x cutoff, given to all four deciders.  Non-trivial = at least one decider proved the machine infinite, or the machine "
        "is a halter of 8+ steps still running at the cutoff (so the closure really had to contain the halt); exact_closure: non-trivial = the tape at the cutoff had at least two finite runs")
ASSUMPTIONS = ["an infinite verdict is refuted by a halt within 300k literal steps or by the known-halting corpus"]
BUDGET = dict(quick=150, thorough=3000)
MODS = dict(CTL1=CTL1, CTL2=CTL2, CTL3=CTL3, CTL4=CTL4)

def check(case, ctx):
    tm = case["tm"]
    r = ref.run(tm, 300000)
    off = case["off"] % case["bs"]
    if r.halted and r.steps <= case["cutoff"]:
        case = dict(case, cutoff=case["cutoff"] % r.steps)
    for name, mod in MODS.items():
        res = mod.test_CTL(IO.parse_tm(tm), cutoff=case["cutoff"], block_size=case["bs"], offset=off, use_backsymbol=case["back"])
        ok = res[0]
        ctx.evals += 1
        if ok and (r.halted or "steps" in case):
            raise Violation("%s (block %d offset %d back-symbol %s cutoff %d) declares it infinite, but it halts at step %d" % (name, case["bs"], off, case["back"], case["cutoff"], case.get("steps", r.steps)))
        if ok: ctx.label(name + "-proved"); ctx.nontrivial((tm, name, case["bs"]))
    if r.halted and r.steps >= 8: ctx.label("halter"); ctx.nontrivial((tm, case["bs"], off, case["cutoff"]))

# ---- independent closure of each language class, over the macro machine's own transitions (those are C04's business)
BLANK = "blank"
class L1:      # A*
    @staticmethod
    def of(cells, z, loose): return (set(cells) | ({z} if loose else set()),)
    @staticmethod
    def pop(h, z): return [(x, ("keep",)) for x in h[0]] + [(z, ("end",))]
    @staticmethod
    def rest(h, how, z): return h if how == ("keep",) else (set(),)
    @staticmethod
    def back(h, how, x, z): return (h[0] | {x},) if how == ("keep",) else ({x},)
    @staticmethod
    def push(h, x): return (h[0] | {x},)
class L2:      # A* B
    @staticmethod
    def of(cells, z, loose): return (set(cells[:-1]), {cells[-1]} if cells else {z})
    @staticmethod
    def pop(h, z): return [(x, "A") for x in h[0]] + [(x, "B") for x in h[1]]
    @staticmethod
    def rest(h, how, z): return h if how == "A" else (set(), {z})
    @staticmethod
    def back(h, how, x, z): return (h[0] | {x}, h[1]) if how == "A" else (set(), {x})
    @staticmethod
    def push(h, x): return (h[0] | {x}, h[1])
class L3:      # A B*
    @staticmethod
    def of(cells, z, loose): return ({cells[0]}, set(cells[1:])) if cells else ({z}, {z} if loose else set())
    @staticmethod
    def pop(h, z): return [(x, None) for x in h[0]]
    @staticmethod
    def rest(h, how, z): return (h[1] | {z}, h[1])
    @staticmethod
    def back(h, how, x, z): return ({x}, h[1])
    @staticmethod
    def push(h, x): return ({x}, h[0] | h[1])
class L4:      # A* B C
    @staticmethod
    def of(cells, z, loose):
        c = list(cells) + [z] * max(0, 2 - len(cells))
        return (set(c[:-2]), {c[-2]}, {c[-1]})
    @staticmethod
    def pop(h, z): return [(x, "A") for x in h[0]] + [(x, "B") for x in h[1]]
    @staticmethod
    def rest(h, how, z): return h if how == "A" else (set(), h[2], {z})
    @staticmethod
    def back(h, how, x, z): return (h[0] | {x}, h[1], h[2]) if how == "A" else (set(), {x}, h[2])
    @staticmethod
    def push(h, x): return (h[0] | {x},) + h[1:]
LANG = dict(CTL1=L1, CTL2=L2, CTL3=L3, CTL4=L4)

def closure(lang, m, state, d, halves, loose):
    z = m.init_symbol
    table = {(state, d): [lang.of(h, z, loose) for h in halves]}
    changed = True
    while changed:
        changed = False
        for (q, dr), hs in list(table.items()):
            hs = [tuple(set(c) for c in h) for h in hs]
            for x, how in lang.pop(hs[dr], z):
                t = m.get_trans_object(x, q, dr)
                if t.condition != Turing_Machine.RUNNING: return False
                new = [None, None]
                if t.dir_out == dr:
                    new[dr] = lang.rest(hs[dr], how, z); new[1 - dr] = lang.push(hs[1 - dr], t.symbol_out)
                else:
                    new[dr] = lang.back(hs[dr], how, t.symbol_out, z); new[1 - dr] = hs[1 - dr]
                cur = table.get((t.state_out, t.dir_out))
                if cur is None:
                    table[t.state_out, t.dir_out] = [tuple(set(c) for c in h) for h in new]; changed = True
                else:
                    for s in (0, 1):
                        for a, b in zip(cur[s], new[s]):
                            if not b <= a: a |= b; changed = True
    return True

def check_exact(case, ctx):
    tm = case["tm"]
    off = case["off"] % case["bs"]
    for name, mod in MODS.items():
        ok = mod.test_CTL(IO.parse_tm(tm), cutoff=case["cutoff"], block_size=case["bs"], offset=off, use_backsymbol=case["back"])[0]
        m = IO.parse_tm(tm)
        if case["bs"] != 1: m = Turing_Machine.Block_Macro_Machine(m, case["bs"], off)
        if case["back"]: m = Turing_Machine.Backsymbol_Macro_Machine(m)
        opts = Simulator.create_default_options(); opts.prover = False
        sim = Simulator.Simulator(m, opts); sim.seek(case["cutoff"])
        if sim.op_state != Turing_Machine.RUNNING: want = (False, False)
        else:
            halves = [[b.symbol for b in reversed(h[1:]) for _ in range(min(b.num, 4))] for h in sim.tape.tape]   # more than 4 repeats make no difference to any class
            want = [closure(LANG[name], m, sim.state, sim.dir, halves, l) for l in (False, True)]   # the blank part of the tape may be put into the starting sets or not
        ctx.evals += 1
        if bool(ok) not in want:
            raise Violation("%s (block %d offset %d back-symbol %s cutoff %d) says %s, the exhaustive closure of its language class says %s" % (
                name, case["bs"], off, case["back"], case["cutoff"], "infinite" if ok else "unknown", "infinite" if want[0] else "unknown"))
        if sim.op_state == Turing_Machine.RUNNING and len(sim.tape.tape[0]) + len(sim.tape.tape[1]) > 3: ctx.nontrivial((tm, name, case["bs"], off, case["cutoff"])); ctx.label(name + ("-infinite" if want[0] else "-unknown"))

def check_filter(case, ctx):
    tm = case["tm"]
    rec = TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(tm), allow_no_halt=False))
    args = SimpleNamespace(type=case["type"], block_size=case["bs"], offset=case["off"] % case["bs"], no_backsymbol=not case["back"], cutoff=case["cutoff"],
                           min_block_size=1, max_block_size=case["maxbs"] or None, all_offsets=case["all"])
    if case["maxbs"]: args.offset = 0
    ok = CTL_Filter.filter_all(rec, args)
    s = rec.proto.status
    if bool(ok) != s.halt_status.is_decided: raise Violation("filter returned %s but halting decided=%s" % (ok, s.halt_status.is_decided))
    if s.quasihalt_status.is_decided: raise Violation("decides quasi-halting, which it does not compute")
    if ok:
        if s.halt_status.is_halting: raise Violation("recorded as halting")
        if s.halt_status.inf_reason != io_pb2.INF_CTL: raise Violation("recorded reason %s" % s.halt_status.inf_reason)
        r = ref.run(tm, 300000)
        if r.halted: raise Violation("recorded infinite but halts at step %d" % r.steps)
        c = rec.proto.filter.ctl
        info = dict(CTL1=c.ctl_as, CTL2=c.ctl_as_b, CTL3=c.ctl_a_bs, CTL4=c.ctl_as_b_c)
        for k, v in info.items():
            if v.result.success != (k == case["type"]): raise Violation("success recorded under %s for a %s run" % (k, case["type"]))
        v = info[case["type"]].parameters
        if not MODS[case["type"]].test_CTL(IO.parse_tm(tm), cutoff=v.cutoff, block_size=v.block_size, offset=v.offset, use_backsymbol=case["back"])[0]:
            raise Violation("recorded parameters block %d offset %d cutoff %d do not prove it" % (v.block_size, v.offset, v.cutoff))
        ctx.nontrivial(); ctx.label("proved")

def params():
    return dict(bs=st.sampled_from([1, 1, 1, 2, 2, 3, 4]), off=st.sampled_from([0, 0, 1, 2, 3]), back=st.booleans(), cutoff=st.one_of(st.integers(0, 30), st.sampled_from([10, 20, 50, 100, 200])))
def halters():
    l = [dict(tm=x[0], steps=x[1]) for x in gen.corpus("halters.txt") if x[1] < 250000]
    big = [d for d in l if d["steps"] >= 60]
    return st.tuples(st.one_of(st.sampled_from(big), st.sampled_from(l)), st.fixed_dictionaries(params())).map(lambda t: dict(t[0], **t[1]))

TESTS = [
    Test("known_halters", check, strategy=halters, quick=6000, thorough=150000),
    Test("any_machine", check, strategy=lambda: st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=12, max_corpus_steps=300), **params())), quick=6000, thorough=150000),
    Test("patterned", check, strategy=lambda: st.fixed_dictionaries(dict(tm=gen.prefix_tm(), **params())), quick=40000, thorough=800000),
    Test("exact_closure", check_exact, strategy=lambda: st.fixed_dictionaries(dict(tm=st.one_of(gen.any_tm(max_cells=12, max_corpus_steps=300), gen.prefix_tm()), **params())), quick=6000, thorough=100000),
    Test("record_filter", check_filter, strategy=lambda: st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=12, max_corpus_steps=300), type=st.sampled_from(list(MODS)), maxbs=st.sampled_from([0, 0, 2, 3]), all=st.booleans(), **params())), quick=3000, thorough=50000),
]
