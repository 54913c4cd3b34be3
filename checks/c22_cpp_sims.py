"""C22: native simulators and recurrence checker, run as programs built from the current tree, against literal execution."""
import os, re
from hypothesis import strategies as st
import core, ref, gen, recs, cpp, recur
from core import Test, Violation, Rejected

PROPERTY = "C22"
RULE = "simulators: a file with at least one machine that halts within the limit and one that does not (or a limit within one step of a halt); recurrence checker: a recurrence or halt was reported, or one had to be found"
ASSUMPTIONS = ["machines of up to 25 states and 9 symbols in standard text, possibly followed by other text, one per line",
    "claimed recurrences are followed literally for at least 30 periods / 3000 steps", "half of the cases run a build with address and undefined-behaviour sanitizers, whose reports are violations"]
BUDGET = dict(quick=240, thorough=900)
def setup(scratch, tier): return cpp.build(scratch, ["direct_sim", "direct_sim_all", "lin_recur"])

BIG = st.sampled_from([(25, 2), (2, 9), (10, 3), (25, 9), (3, 9), (12, 2)])
def machines(): return st.one_of(gen.any_tm(max_cells=15, max_corpus_steps=3000), gen.any_tm(max_cells=15, max_corpus_steps=3000), gen.walk_tm(BIG), gen.table_tm(BIG), gen.prefix_tm(), gen.corpus_tm("recurs.txt"))
TAILS = ["", "", "", " Halt 5", "\t# x", ", y", "#c", "|1RB", " | Lin_Recur 3 1 <4"]

def files():
    return st.fixed_dictionaries(dict(tms=st.lists(st.tuples(machines(), st.sampled_from(TAILS)).map(list), min_size=0, max_size=12),
        limit=st.one_of(st.integers(0, 60), st.integers(0, 3000), st.sampled_from([100, 1000, 20000])), near=st.sampled_from([None, None, -1, 0, 1]), nl=st.booleans(), san=st.booleans()))
def write(d, c):
    p = d / "in.txt"
    p.write_text("\n".join(t + x for t, x in c["tms"]) + ("\n" if c["nl"] and c["tms"] else ""))
    return p
def limit(c):
    n = c["limit"]
    if c["near"] is not None:
        for t, _ in c["tms"]:
            r = ref.run(t, 20000)
            if r.halted: return max(0, r.steps + c["near"])
    return n
def sim_all(c, ctx):
    d = recs.fresh(ctx); p = write(d, c); n = limit(c); o = d / "out.txt"
    out = cpp.run(c["san"], "direct_sim_all", p, n, o)
    lines = o.read_text().splitlines()
    if len(lines) != len(c["tms"]): raise Violation("%d machines in, %d lines out" % (len(c["tms"]), len(lines)))
    h = 0
    for (t, _), line in zip(c["tms"], lines):
        r = ref.run(t, n)
        h += r.halted
        want = "%s %s %d" % (t, "Halt" if r.halted else "Unknown", r.steps)
        if line.split() != want.split(): raise Violation("limit %d: wrote %r, true %r" % (n, line, want))
    m = re.search(r"Total:\s*(\d+)\s+Halt:\s*(\d+)\s+Unknown:\s*(\d+)", out)
    if not m: raise Violation("no totals in the output: %r" % out)
    if tuple(map(int, m.groups())) != (len(lines), h, len(lines) - h): raise Violation("totals %r, true %r" % (m.groups(), (len(lines), h, len(lines) - h)))
    if 0 < h < len(lines) or (h and c["near"] is not None): ctx.nontrivial()

def sim_one(c, ctx):
    if not c["tms"]: raise Rejected()
    d = recs.fresh(ctx); p = write(d, c); n = limit(c)
    k = c["limit"] % len(c["tms"])
    out = cpp.run(c["san"], "direct_sim", p, k + 1, n)
    r = ref.run(c["tms"][k][0], n)
    m = re.search(r"Simulated (\d+)", out); hm = re.search(r"Halted at step (\d+)", out)
    if not m or int(m.group(1)) != r.steps: raise Violation("line %d, limit %d: simulated %r steps, true %d" % (k + 1, n, m and m.group(1), r.steps))
    if (int(hm.group(1)) if hm else None) != (r.steps if r.halted else None): raise Violation("line %d, limit %d: halted at %r, true %r" % (k + 1, n, hm and hm.group(1), r.steps if r.halted else None))
    if k and (r.halted or c["near"] is not None): ctx.nontrivial()

def lr_cases(): return st.fixed_dictionaries(dict(tm=st.one_of(machines(), machines(), gen.corpus_tm("recurs.txt"), gen.mutant_tm(gen.corpus_tm("recurs.txt"))), before=st.lists(st.one_of(machines(), machines(), st.sampled_from(["", "# list", "   "])), max_size=3), log=st.one_of(st.integers(0, 12), st.integers(8, 14)), tail=st.sampled_from(TAILS), san=st.sampled_from([False, False, True]), complete=st.booleans()))
def lin_recur(c, ctx):
    d = recs.fresh(ctx); p = d / "in.txt"; tm = c["tm"]
    p.write_text("\n".join(c["before"] + [tm + c["tail"]]) + "\n")
    out = cpp.run(c["san"], "lin_recur", p, len(c["before"]) + 1, c["log"])
    f = {k: int(v) for k, v in re.findall(r"^(\w+): (-?\d+)\s*$", out, re.M)}
    for k in ("steps_run", "is_halted", "is_lin_recurrent"):
        if k not in f: raise Violation("no %s in the output %r" % (k, out))
    bound = 2 ** c["log"]
    r = ref.run(tm, 2 * bound + 10)
    if f["is_halted"]:
        if f["is_lin_recurrent"]: raise Violation("both halting and recurrent")
        want = (r.steps, r.from_state, r.from_sym) if r.halted else None
        got = (f["steps_run"], f.get("last_state"), f.get("last_symbol"))
        if got != want: raise Violation("halting (steps, state, symbol) reported %r, true %r" % (got, want))
        ctx.nontrivial(); ctx.label("halt"); return
    if r.halted and r.steps <= bound: raise Violation("halts at step %d, reported %s with a bound of %d" % (r.steps, "recurrent" if f["is_lin_recurrent"] else "unknown", bound))
    if not 0 <= f.get("max_ref_config_step", 0) <= f["steps_run"]: raise Violation("reference configuration at step %d of %d steps run" % (f["max_ref_config_step"], f["steps_run"]))
    if f["steps_run"] > 2 * bound + 2: raise Violation("%d steps run with a bound of %d" % (f["steps_run"], bound))
    if f["is_lin_recurrent"]:
        s, p_, off = f["start_step"], f["period"], f["offset"]
        recur.check_claim(tm, s, p_, off)
        ctx.nontrivial(); ctx.label("recur%s" % ("+" if off > 0 else "-" if off < 0 else "0"))
        if s > 100: ctx.label("start>100")
    else:
        if f["steps_run"] < bound: raise Violation("gave up after %d steps with a bound of %d" % (f["steps_run"], bound))
        if c["complete"]:
            t = recur.true_recurrence(tm, 1500)
            if t and 4 * max(t[0], t[1], 1) < bound: raise Violation("recurrence (start, period, offset) = %r missed with a bound of %d steps" % (t, bound))
            if t: ctx.label("late recurrence")

def both(c, ctx):
    """the native checker and the scripting-language checker never contradict each other"""
    core.setup_paths()
    import IO, Lin_Recur_Detect, io_pb2, Halting_Lib
    d = recs.fresh(ctx); p = d / "in.txt"; tm = c["tm"]; p.write_text(tm + "\n")
    log = max(2, c["log"]); bound = 2 ** log
    out = cpp.run(False, "lin_recur", p, 1, log)
    f = {k: int(v) for k, v in re.findall(r"^(\w+): (-?\d+)\s*$", out, re.M)}
    info = io_pb2.LinRecurFilterInfo(); info.parameters.max_steps = bound; info.parameters.find_min_start_step = False
    status = io_pb2.BBStatus(); Lin_Recur_Detect.filter(IO.parse_tm(tm), info, status)
    ph = status.halt_status.is_decided and status.halt_status.is_halting
    if f["is_halted"] and info.result.success or ph and f["is_lin_recurrent"]: raise Violation("one reports halting, the other recurrence: %r / %s %s" % (f, info.result, status))
    if ph and f["is_halted"] and Halting_Lib.get_big_int(status.halt_status.halt_steps) != f["steps_run"]: raise Violation("halting steps differ: %r / %s" % (f, status))
    if info.result.success and f["is_lin_recurrent"]:
        if (info.result.period, info.result.offset) != (f["period"], f["offset"]): raise Violation("period and offset differ: %r / %s" % (f, info.result))
        ctx.nontrivial()

TESTS = [Test("sim_all", sim_all, strategy=files, quick=2400, thorough=40000),
    Test("sim_one", sim_one, strategy=files, quick=1600, thorough=25000),
    Test("lin_recur", lin_recur, strategy=lr_cases, quick=8000, thorough=150000),
    Test("both", both, strategy=lr_cases, quick=2400, thorough=40000)]
