import os, math, itertools, random
from pathlib import Path
from hypothesis import strategies as st
import core, ref, gen
from core import Test, Violation, Rejected
core.setup_paths()
import IO, Enumerate, TM_Enum, Count, IO_Categorize, Halting_Lib, io_pb2
import contextlib, io
from IO import TM_Record

PROPERTY = "C12"
RULE = ("case = enumeration settings (size, order, seed, no-halt flag, first-transition flag, decision options, stop point).  Non-trivial = an enumeration of 10+ machines was fully "
        "compared with an independent tree construction; single-machine cases: an expansion with 2+ children or a concrete random machine that had to be found in exactly one family")
ASSUMPTIONS = ["sizes 1x2..1x4, 2x2, 2x3, 3x2 are enumerated completely; larger sizes (2x4, 4x2, 3x3, 8x2, 2x8) only up to a stop point"]
BUDGET = dict(quick=220, thorough=3000)

def table(tm):
    """rows of None (undefined) | 'H' | (write, dir, next)"""
    rows = tm.split("_"); out = []
    for r in rows:
        row = []
        for i in range(0, len(r), 3):
            t = r[i:i + 3]
            if t == "---": row.append(None)
            else:
                q = ord(t[2]) - 65
                row.append("H" if q >= len(rows) else (int(t[0]), t[1], q))
        out.append(row)
    return out
def text(tab): return "_".join("".join("---" if c is None else "1RZ" if c == "H" else "%d%s%s" % (c[0], c[1], chr(65 + c[2])) for c in row) for row in tab)

def children(tab, q, s, no_halt):
    """all fillings of the reached undefined cell that keep the first-use order of states and symbols"""
    ns, ny = len(tab), len(tab[0])
    used = [c for row in tab for c in row if c is not None]
    top_q = max([0] + [c[2] for c in used if c != "H"]); top_s = max([0] + [c[0] for c in used if c != "H"])
    left = sum(c is None for row in tab for c in row)
    if left == 1 and not no_halt: return set()
    out = set()
    for nq in range(min(ns, top_q + 2)):
        for w in range(min(ny, top_s + 2)):
            for d in ("R",) if not used else ("L", "R"):
                t = [list(r) for r in tab]; t[q][s] = (w, d, nq)
                out.add(text(t))
    return out

def run_enum(scratch, words, name="out.pb"):
    out = os.path.join(scratch, name)
    with contextlib.redirect_stdout(io.StringIO()):
        Enumerate.main(["--outfile", out, "--force", "--time", "0"] + words)
    with IO.Proto.Reader(out) as rd: recs = list(rd)
    return out, recs

def split(recs):
    """machines as they were before a halt transition was filled in, and their verdicts"""
    done = {}
    for r in recs:
        h = r.proto.status.halt_status
        tab = table(r.tm().ttable_str())
        v = "unknown"
        if h.is_decided:
            v = "halt" if h.is_halting else "inf"
            if h.is_halting:
                q, s = h.from_state, h.from_symbol
                if tab[q][s] != "H": raise Violation("record %s: halting transition %r not written into the table" % (text(tab), (q, s)))
                tab[q][s] = None
                x = ref.run(text(tab), 5_000_000)
                if not x.halted or (x.from_state, x.from_sym) != (q, s): raise Violation("record %s says the run ends in the undefined transition %r, true %r" % (text(tab), (q, s), (x.from_state, x.from_sym) if x.halted else "no halt"))
                v = ("halt", q, s)
                if Halting_Lib.get_big_int(h.halt_steps) != x.steps: raise Violation("record %s: %s steps recorded, true %d" % (text(tab), Halting_Lib.get_big_int(h.halt_steps), x.steps))
        if any("H" in row for row in tab): raise Violation("record %s has a halting transition that the run does not use" % text(tab))
        k = text(tab)
        if k in done: raise Violation("machine %s enumerated twice" % k)
        done[k] = v
    return done

def compare_tree(done, roots, no_halt, what=""):
    """the output must be exactly the tree below the roots"""
    want = set(); todo = list(roots)
    while todo:
        k = todo.pop()
        if k in want: raise Violation("tree oracle reached %s twice" % k)
        want.add(k)
        v = done.get(k)
        if v is None: raise Violation("%smachine %s is missing from the enumeration" % (what, k))
        if v == "inf":
            x = ref.run(k, 20000)
            if x.halted: raise Violation("%smachine %s is listed as infinite, but reaches an undefined transition at step %d" % (what, k, x.steps))
        if isinstance(v, tuple): todo.extend(children(table(k), v[1], v[2], no_halt))
    extra = set(done) - want
    if extra: raise Violation("%smachine %s does not belong to the enumeration" % (what, min(extra)))

def root(states, symbols, first):
    t = [[None] * symbols for _ in range(states)]
    if first: t[0][0] = (1, "R", 1)
    return text(t)

def words_of(c):
    w = ["--states", str(c["q"]), "--symbols", str(c["s"])]
    if c["no_halt"]: w.append("--allow-no-halt")
    if not c["first"]: w.append("--no-first-1rb")
    if c["order"] == "bfs": w.append("--breadth-first")
    if c["order"] == "random": w += ["--randomize", "--seed", str(c["seed"])]
    return w + list(c["opts"]) + list(c.get("out", []))

def check_full(case, ctx):
    _, recs = run_enum(ctx.scratch, words_of(case))
    done = split(recs)
    compare_tree(done, [root(case["q"], case["s"], case["first"])], case["no_halt"])
    if case["first"] and case["q"] >= 2 and case["s"] >= 2:
        n = case["q"] * case["s"]
        total = sum(Count.count(r.tm(), case["no_halt"]) for r in recs)
        want = (n - 1) * (2 * n) ** (n - 2) + ((2 * n) ** (n - 1) if case["no_halt"] else 0)
        if total != want: raise Violation("the families cover %d machines, there are %d" % (total, want))
    members(case, done, ctx)
    ctx.evals += len(done)
    if len(done) >= 10: ctx.nontrivial(); ctx.label("%dx%d" % (case["q"], case["s"]))
    return done

def canon(tab, limit=4000):
    """relabel by order of first visit / first write, mirrored so that the first move is to the right; only the visited part.  -> dict cell -> entry"""
    ns, ny = len(tab), len(tab[0])
    smap, ymap = {0: 0}, {0: 0}
    tape, pos, q = {}, 0, 0
    flip = None
    seen = {}
    for _ in range(limit):
        x = tape.get(pos, 0)
        c = tab[q][x]
        if c == "H" or c is None:
            seen[smap[q], ymap[x]] = "H"
            break
        w, d, nq = c
        if flip is None: flip = (d == "L")
        if w not in ymap: ymap[w] = len(ymap)
        if nq not in smap: smap[nq] = len(smap)
        dd = d if not flip else {"L": "R", "R": "L"}[d]
        seen[smap[q], ymap[x]] = (ymap[w], dd, smap[nq])
        tape[pos] = w; pos += 1 if d == "R" else -1; q = nq
    return seen

def members(case, done, ctx):
    """random concrete machines of the space lie in exactly one family"""
    rng = random.Random(case["mseed"])
    ns, ny = case["q"], case["s"]
    fams = [(k, [(q, s, c) for q, row in enumerate(table(k)) for s, c in enumerate(row) if c is not None], v) for k, v in done.items()]
    for _ in range(40 if len(fams) > 500 else 80):
        tab = [[(rng.randrange(ny), rng.choice("LR"), rng.randrange(ns)) for _ in range(ny)] for _ in range(ns)]
        if case["first"]: tab[0][0] = (rng.randrange(1, ny), rng.choice("LR"), rng.randrange(1, ns))
        cells = [(q, s) for q in range(ns) for s in range(ny) if not (case["first"] and (q, s) == (0, 0))]
        for c in rng.sample(cells, rng.choice([1, 1, 2]) if len(cells) > 1 else 1): tab[c[0]][c[1]] = "H"
        if case["no_halt"] and rng.random() < .4: tab = [[(rng.randrange(ny), rng.choice("LR"), rng.randrange(ns)) if c == "H" else c for c in row] for row in tab]
        seen = canon(tab)
        hit = []
        for k, defined, v in fams:
            if any(seen.get((q, s)) != c for q, s, c in defined): continue
            if isinstance(v, tuple) and seen.get(v[1:]) != "H": continue
            hit.append(k)
        if len(hit) != 1: raise Violation("machine %s of the space lies in %d families: %s" % (text(tab), len(hit), hit[:3]))
        ctx.evals += 1

def check_resume(case, ctx):
    """stop after n machines, keep the decided ones, continue from the undecided ones - possibly several times"""
    words = words_of(case)
    _, recs = run_enum(ctx.scratch, words)
    single = split(recs)
    decided = []
    w = words + ["--num-enum", str(case["stops"][0])]
    f, recs = run_enum(ctx.scratch, w, "part0.pb")
    k = 0
    while True:
        k += 1
        und = [r for r in recs if not r.proto.status.halt_status.is_decided]
        decided += [r for r in recs if r.proto.status.halt_status.is_decided]
        if k > len(case["stops"]): break
        f = os.path.join(ctx.scratch, "todo%d.pb" % k)
        if case["via_tool"]:
            d = os.path.join(ctx.scratch, "cat%d" % k); os.makedirs(d, exist_ok=True)
            with contextlib.redirect_stdout(io.StringIO()): IO_Categorize.filter([Path(ctx.scratch, "part%d.pb" % (k - 1))], Path(d))
            f = os.path.join(d, "unknown.pb")
        else:
            with IO.Proto.Writer(f) as wr:
                for r in und: wr.write_record(r)
        rest = [] if k == len(case["stops"]) else ["--num-enum", str(case["stops"][k])]
        _, recs = run_enum(ctx.scratch, words + ["--infile", f] + rest, "part%d.pb" % k)
    final = split(decided + und)
    if final != single:
        a = sorted(set(single) - set(final)); b = sorted(set(final) - set(single)); c = sorted(x for x in set(final) & set(single) if final[x] != single[x])
        raise Violation("stopped at %r and continued: missing %s extra %s changed %s" % (case["stops"], a[:2], b[:2], c[:2]))
    ctx.evals += len(final)
    if len(final) >= 10: ctx.nontrivial(); ctx.label("%dx%d" % (case["q"], case["s"]))

def check_partial(case, ctx):
    """large sizes: everything below the stop point plus the pending machines is still an exact cut through the tree"""
    _, recs = run_enum(ctx.scratch, words_of(case) + ["--num-enum", str(case["n"])])
    done = split(recs)
    compare_tree(done, [root(case["q"], case["s"], case["first"])], case["no_halt"])
    if case["first"]:
        n = case["q"] * case["s"]
        total = sum(Count.count(r.tm(), case["no_halt"]) for r in recs)
        want = (n - 1) * (2 * n) ** (n - 2) + ((2 * n) ** (n - 1) if case["no_halt"] else 0)
        if total != want: raise Violation("the families cover %d machines, there are %d" % (total, want))
    ctx.evals += len(done)
    ctx.nontrivial(); ctx.label("%dx%d" % (case["q"], case["s"]))

def check_children(case, ctx):
    """one expansion"""
    tab = table(case["tm"])
    x = ref.run(case["tm"], 3000)
    if not x.halted: raise Rejected()
    q, s = x.from_state, x.from_sym
    if tab[q][s] is not None: raise Rejected()
    e = TM_Enum.TM_Enum(IO.parse_tm(case["tm"]), allow_no_halt=case["no_halt"])
    kids = list(e.enum_children(q, s))
    got = [k.tm.ttable_str() for k in kids]
    if len(set(got)) != len(got): raise Violation("the same child twice")
    want = children(tab, q, s, case["no_halt"])
    if set(got) != want: raise Violation("children of %s at %r: missing %s, extra %s" % (case["tm"], (q, s), sorted(want - set(got))[:3], sorted(set(got) - want)[:3]))
    if e.tm.ttable_str() != text(tab): raise Violation("expanding changed the parent to %s" % e.tm.ttable_str())
    for k in kids[:3]:
        if k.allow_no_halt != case["no_halt"]: raise Violation("child forgets the no-halt setting")
    if len(got) > 1: ctx.nontrivial()

def check_count(case, ctx):
    """family size by its definition: injective renamings of the used non-fixed states and symbols, times the fillings"""
    tab = table(case["tm"])
    ns, ny = len(tab), len(tab[0])
    tab[0][0] = (1, "R", 1)
    # bring into first-use order so that the family is well defined
    tm = text(tab)
    ent = [c for row in tab for c in row if c is not None and c != "H"]
    us, uq = max(c[0] for c in ent) + 1, max(c[2] for c in ent) + 1
    und = sum(c is None for row in tab for c in row); hl = sum(c == "H" for row in tab for c in row)
    if hl > 1: raise Rejected()
    n = 2 * ns * ny
    fill = n ** und if hl else (und * n ** (und - 1) if und else 0) + (n ** und if case["no_halt"] else 0)
    want = math.perm(ny - 2, us - 2) * math.perm(ns - 2, uq - 2) * fill
    got = Count.count(IO.parse_tm(tm), case["no_halt"])
    if got != want: raise Violation("family of %s (no-halt %s) counted as %d, true %d" % (tm, case["no_halt"], got, want))
    if want > 1: ctx.nontrivial()

OPTS = [[], ["--max-loops", "50"], ["--no-reverse-engineer", "--no-ctl"], ["--lin-steps", "0"], ["--lin-steps", "2", "--max-loops", "20"], ["--recursive"], ["--no-backsymbol"], ["--block-size", "2"], ["--no-prover", "--max-loops", "30"], ["--no-sim", "--lin-steps", "20"], ["--tape-limit", "3"]]
OUT = [[], [], ["--no-output"], ["--save-freq", "1"], ["--save-freq", "3", "--no-output"], ["--debug-print-current"]]
def base(sizes, first=st.booleans()):
    return dict(qs=st.sampled_from(sizes), no_halt=st.booleans(), first=first, order=st.sampled_from(["dfs", "bfs", "random"]), seed=st.integers(1, 10**6), opts=st.sampled_from(OPTS), out=st.sampled_from(OUT), mseed=st.integers(0, 10**9))
def fix(c):
    c = dict(c); c["q"], c["s"] = c.pop("qs")
    if c["q"] < 2 or c["s"] < 2: c["first"] = False
    return c
def full(): return st.fixed_dictionaries(base([(2, 2), (2, 2), (1, 2), (1, 3), (1, 4)])).map(fix)
def bigger(): return st.fixed_dictionaries(base([(2, 3), (3, 2)], st.just(True))).map(fix)
def resume(): return st.fixed_dictionaries(dict(base([(2, 2), (2, 2), (1, 3)]), stops=st.lists(st.integers(1, 40), min_size=1, max_size=3), via_tool=st.booleans())).map(fix)
def partial(): return st.fixed_dictionaries(dict(base([(2, 4), (4, 2), (3, 3), (5, 2), (2, 5), (8, 2), (2, 8), (9, 2), (3, 9)]), n=st.integers(1, 400))).map(fix)
@st.composite
def prefix_machine(draw):
    """grow a random tree path from the blank machine"""
    q, s = draw(st.sampled_from([(2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (5, 2), (4, 3), (6, 2), (2, 6)]))
    tm = root(q, s, draw(st.booleans()))
    for _ in range(draw(st.integers(0, q * s))):
        x = ref.run(tm, 500)
        if not x.halted: break
        ch = sorted(children(table(tm), x.from_state, x.from_sym, True))
        tm = ch[draw(st.integers(0, len(ch) - 1))]
    x = ref.run(tm, 500)
    return tm
def gen_children(): return st.fixed_dictionaries(dict(tm=prefix_machine(), no_halt=st.booleans()))
@st.composite
def any_table(draw):
    q, s = draw(st.sampled_from([(2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (5, 2), (5, 3), (4, 5), (2, 8), (8, 2)]))
    h = draw(st.booleans())
    t = [[draw(st.one_of(st.none(), st.tuples(st.integers(0, s - 1), st.sampled_from("LR"), st.integers(0, q - 1)))) for _ in range(s)] for _ in range(q)]
    if h: t[draw(st.integers(1, q - 1))][draw(st.integers(0, s - 1))] = "H"
    return dict(tm=text(t), no_halt=draw(st.booleans()))

TESTS = [
    Test("complete_bigger", check_full, strategy=bigger, quick=16, thorough=200, cpu_limit=400),
    Test("complete_small", check_full, strategy=full, quick=120, thorough=3000),
    Test("resume", check_resume, strategy=resume, quick=100, thorough=2000),
    Test("partial", check_partial, strategy=partial, quick=160, thorough=3000),
    Test("children", check_children, strategy=gen_children, quick=4000, thorough=100000),
    Test("family_size", check_count, strategy=any_table, quick=4000, thorough=100000),
]
