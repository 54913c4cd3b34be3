import os, io, re, sys, contextlib, runpy
from decimal import Decimal, getcontext
from pathlib import Path
from hypothesis import strategies as st
import core, ref, gen, recs
from core import Test, Violation, Rejected
from recur import true_recurrence
core.setup_paths()
import IO, Lin_Recur_Detect, CPS, CTL1, CTL2, CTL3, CTL4, io_pb2
from google.protobuf import text_format
import importlib.util

getcontext().prec = 60
PROPERTY = "C28"
RULE = ("case = machine x command line of one tool, run as a user would (the script is executed as __main__, its printed text is parsed back).  Non-trivial = the tool printed at least "
        "one verdict, count or configuration that was compared with literal execution (or with the library decider for deciders' own data)")
ASSUMPTIONS = ["numbers of 10^10 and above are printed as approximations: these are compared to the digits shown (towers of powers: to 0.005 in height), for drawn numbers and where the full number is printed beside it", "configurations shown after the halting step are compared by their score only", "the interactive view runs on a stand-in for the terminal library that keeps pads as the real one does, including its refusal of the bottom-right corner"]
BUDGET = dict(quick=150, thorough=3000)

def cli(script, args, stdin=None):
    """run a script exactly as from the shell, in this process; returns its standard output"""
    argv, path0 = sys.argv, list(sys.path)
    out, err = io.StringIO(), io.StringIO()
    sys.argv = [script] + [str(a) for a in args]
    old_in = sys.stdin
    if stdin is not None: sys.stdin = io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(os.path.join(core.CODE, script), run_name="__main__")
            except SystemExit as e:
                if e.code not in (None, 0): raise Violation("%s %r stops with exit code %r: %s" % (script, args, e.code, err.getvalue()[-400:]))
    finally:
        sys.argv = argv; sys.path[:] = path0; sys.stdin = old_in
    return out.getvalue()

def restart(tm, s):
    """same machine with its start state renamed to A (swapped)"""
    if s == 0: return tm
    T = ref.parse(tm); T[0], T[s] = T[s], T[0]
    sw = lambda n: s if n == 0 else 0 if n == s else n
    return ref.show([[(w, d, sw(n), u) for (w, d, n, u) in row] for row in T])

def near(s, level, top, what, slack=0.0):
    """s must show the number whose level-fold log10 is `top` to the digits it shows"""
    if top is None: raise Violation("%s: zero shown as %r" % (what, s))
    m = re.fullmatch(r"~10(\^|↑↑)([\d_]+\.\d+)", s)
    if not m: raise Violation("%s: cannot read the approximate number %r" % (what, s))
    got, top = Decimal(m.group(2).replace("_", "")), Decimal(top)
    while level > 1 and top < 12: top, level = 10 ** top, level - 1
    if m.group(1) == "^":
        if level != 1: raise Violation("%s: %r, but it is a tower of %d tens with %s on top" % (what, s, level, top))
        want, tol = Decimal(top), Decimal("0.00001") + abs(Decimal(top)) * Decimal("1e-14")
    else:
        t, h = Decimal(top), level
        while t >= 1: t = t.log10(); h += 1
        want, tol = h - 1 + t, Decimal("0.00001") + Decimal(slack)
    if abs(got - want) > tol: raise Violation("%s: shown as %r, true exponent %.7f" % (what, s, want))

def approx(case, ctx):
    """the three ways of showing a number too long to print"""
    import Halting_Lib as H
    from Exp_Int import exp_int, try_simplify
    k, level, slack = case["k"], 1, 0.0
    if k == "int":
        v = case["m"] * 10 ** case["e"] + case["d"]
        if v < 0: raise Rejected
        full, top = v, Decimal(v).log10() if v else None
    else:
        b, c, d, e = case["b"], case["c"], case["d"], case["e"]
        lg = lambda n: Decimal(n).log10()
        v = exp_int(b, e) * c + d; full = None
        if e < 4000:
            full = b ** e * c + d; top = Decimal(full).log10() if full > 0 else None
            if full <= 0: raise Rejected
        else: top = e * lg(b) + lg(c)
        for n, b2 in enumerate(case["tower"]):
            if try_simplify(v) == full: v = full     # as the simulator would
            if not isinstance(v, int) and full is None or (full or 0) > 4000:
                v = exp_int(b2, v); full = None; level += 1
                if level == 2: top = top + lg(lg(b2))
                slack = 0.005
    a = H.big_int_approx_str(v); af = H.big_int_approx_and_full_str(v); ao = H.big_int_approx_or_full_str(v)
    if full is not None and full < 10**10:
        if int(a) != full or number(af, "full form") != full: raise Violation("%d shown as %r and %r" % (full, a, af))
    else:
        near(a, level, top, "approximation of %s" % str(v)[:60], slack)
        p = [x.strip() for x in af.split("=")]
        if p[0] != a: raise Violation("two approximations of one number: %r, %r" % (a, af))
        if isinstance(v, int) and len(p) > 1 and int(p[1]) != v: raise Violation("%d shown as %r" % (v, af))
        if not isinstance(v, int) and (len(p) != 2 or p[1] != str(v)): raise Violation("%s shown as %r" % (v, af))
    if isinstance(v, int):
        if re.fullmatch(r"[\d_]+", ao):
            if int(ao) != v: raise Violation("%d shown as %r" % (v, ao))
        else: near(ao, 1, top, "short form of %d" % v)
    elif ao != str(v): raise Violation("%s shown as %r" % (v, ao))
    if full is None or full >= 10**10: ctx.nontrivial(); ctx.label("tower %d" % level if k != "int" else "int")

def approx_cases():
    ints = st.fixed_dictionaries(dict(k=st.just("int"), m=st.one_of(st.integers(0, 9), st.integers(0, 10**12)), e=st.one_of(st.integers(0, 60), st.integers(0, 3000)), d=st.integers(-3, 3)))
    exps = st.fixed_dictionaries(dict(k=st.just("exp"), b=st.sampled_from([2, 3, 4, 5, 6, 7, 10, 12]), c=st.one_of(st.just(1), st.integers(1, 10**6)), d=st.one_of(st.just(0), st.integers(-10**6, 10**6)),
                                      e=st.one_of(st.integers(1, 60), st.integers(900, 1100), st.integers(1, 3999), st.integers(4000, 10**6), st.integers(4000, 10**15)), tower=st.lists(st.integers(2, 9), max_size=3)))
    return st.one_of(ints, exps)

NUM = r"(-?[\d_]+|~\S+|N/A)"
def number(s, what):
    """'1_234  =  1_234' -> 1234, None if only approximate"""
    parts = [p.strip() for p in s.split("=")]
    vals = []
    for p in parts:
        if re.fullmatch(r"-?[\d_]+", p): vals.append(int(p))
        elif p.startswith("~10^") or p.startswith("~10↑") or p == "N/A" or "(" in p: pass
        else: raise Violation("%s: cannot read the printed number %r" % (what, s))
    if len(set(vals)) > 1: raise Violation("%s: prints two different values: %r" % (what, s))
    if vals and parts[0].startswith("~10"): near(parts[0], 1, Decimal(abs(vals[0])).log10() if vals[0] else None, what)
    return vals[0] if vals else None

def runs(tokens, what):
    out = []
    for t in tokens:
        m = re.fullmatch(r"(\d+)\^(\S+)", t)
        if not m: raise Violation("%s: cannot read the tape element %r" % (what, t))
        if m.group(2) == "inf":
            if set(m.group(1)) != {"0"}: raise Violation("%s: infinite run of non-blanks %r" % (what, t))
            continue
        if not re.fullmatch(r"[\d_]+", m.group(2)): return None
        n = int(m.group(2))
        if n * len(m.group(1)) > 100000: return None
        out += [int(c) for c in m.group(1)] * n
    return out

def tape_line(line, what):
    """-> (state letter, head cell on the right?, left cells left-to-right, right cells left-to-right) or None"""
    m = re.fullmatch(r"(\S+(?: \S+\^\S+)*)(?: \((\d+)\))? ([A-Z])> (\S+(?: \S+)*)", line)
    if m: right = True; l, back, s, r = m.groups()
    else:
        m = re.fullmatch(r"(\S+(?: \S+\^\S+)*) <([A-Z])(?: \((\d+)\))? (\S+(?: \S+)*)", line)
        if not m: raise Violation("%s: cannot read the configuration line %r" % (what, line[:300]))
        right = False; l, s, back, r = m.groups()
    L, R = runs(l.split(), what), runs(r.split(), what)
    if L is None or R is None: return None
    if back:
        if right: L = L + [int(c) for c in back]
        else: R = [int(c) for c in back] + R
    return s, right, L, R

def lstrip(l):
    i = 0
    while i < len(l) and l[i] == 0: i += 1
    return l[i:]
def rstrip(l): return lstrip(l[::-1])[::-1]

def same_config(tm, shown, step, start, what):
    s, right, L, R = shown
    r = ref.Run(tm).to(step)
    if r.halted or r.steps != step: raise Violation("%s: shows a running configuration at step %d, but the machine halts at step %d" % (what, step, r.steps))
    lo, c = r.cells(); p = r.pos - lo
    if right: wl, wr = c[:p], c[p:]
    else: wl, wr = c[:p + 1], c[p + 1:]
    true_state = r.state if start == 0 else {0: start, start: 0}.get(r.state, r.state)
    if chr(65 + true_state) != s: raise Violation("%s: shows state %s at step %d, true %s" % (what, s, step, chr(65 + true_state)))
    if (lstrip(L), rstrip(R)) != (lstrip(list(wl)), rstrip(list(wr))):
        raise Violation("%s: tape shown at step %d is %r | %r, true %r | %r" % (what, step, lstrip(L), rstrip(R), lstrip(list(wl)), rstrip(list(wr))))

LIM = 3_000_000
def quick_sim(case, ctx):
    start = case["start"] % (case["tm"].count("_") + 1)
    tm = restart(case["tm"], start)
    args = case["args"] + ["--max-loops", case["loops"], "--bf-loops", 200]
    if start: args += ["--start-state", chr(65 + start)]
    args += ["--", case["tm"]]
    text = cli("Quick_Sim.py", args)
    what = "Quick_Sim"
    html = "--html-format" in case["args"]
    lines = text.split("\n")
    compared = 0
    # snapshots
    total = None; last_nz = None; shown = None; state = None
    prev = -1
    for i, l in enumerate(lines):
        m = re.match(r"Total: +(\S+) +\d+$", l)
        if m: total = number(m.group(1), what); shown = None
        if l.startswith("Elapsed time:") and i + 1 < len(lines) and not html:
            shown = tape_line(lines[i + 1], what); ctx.evals += 1
            if total is not None:
                if total < prev: raise Violation("printed step totals decrease: %d after %d" % (total, prev))
                prev = total
            if shown and total is not None and total <= LIM and shown[0] != "Z":
                same_config(tm, shown, total, start, what); compared += 1
        m = re.match(r"Num Nonzeros: (.*)$", l)
        if m and total is not None and total <= LIM:
            v = number(m.group(1), what)
            r = ref.Run(tm).to(total)
            if v is not None and v != r.score: raise Violation("prints %d non-zero symbols at step %d, true %d" % (v, total, r.score))
            compared += 1
        m = re.match(r" [ \d]{5}\d  (\S.*) \((-?\d+), (\d+)\)$", l)
        if m and not html:     # verbose line
            t = int(m.group(3)); c = tape_line(m.group(1), what)
            if c and c[0] != "Z" and t <= LIM: same_config(tm, c, t, start, what); compared += 1
    tail = text[text.rfind("Num Nonzeros:"):]
    def field(name):
        m = re.search(r"^%s *(.*)$" % re.escape(name), tail[1:], re.M)
        return m.group(1) if m else None
    halted = "Turing Machine Halted" in tail; undef = "Turing Machine reached Undefined transition" in tail
    inf = "Turing Machine proven Infinite" in tail
    if halted or undef:
        score = number(field("Nonzeros:"), what)
        if field("Steps:") is not None:
            n = number(field("Steps:"), what)
            if n is None or n > LIM: raise Rejected()
            r = ref.run(tm, n + 1)
            if not r.halted or r.steps != n: raise Violation("prints that the machine halts after %d steps, literal run %s" % (n, "halts at %d" % r.steps if r.halted else "still runs"))
        else:
            r = ref.run(tm, LIM)
            if not r.halted: raise Rejected()
        if score is not None and score != r.score: raise Violation("prints final score %d, true %d" % (score, r.score))
        if ref.parse(tm)[r.from_state][r.from_sym][3] != undef: raise Violation("prints %r for a halt from (%d, %d)" % (tail[-200:], r.from_state, r.from_sym))
        if undef:
            want = r.from_state if start == 0 else {0: start, start: 0}.get(r.from_state, r.from_state)
            got = (field("State:"), field("Symbol:"))
            if got[0] not in (str(want), chr(65 + want)) or got[1] != str(r.from_sym): raise Violation("prints undefined transition (state %s, symbol %s), true (%d, %d)" % (got + (want, r.from_sym)))
        ctx.label("halted"); compared += 1
    elif inf:
        r = ref.run(tm, 200000)
        if r.halted: raise Violation("prints that the machine is infinite, but it halts at step %d" % r.steps)
        q = text_format.Parse(tail[tail.index("Quasihalt:") + 10:].split("Macro Machine TTable")[0], io_pb2.QuasihaltStatus())
        if q.is_decided and start == 0:
            last = ref.Run(tm).last_seen(200000)
            old = [(v, i) for i, v in enumerate(last) if 0 <= v < 100000]
            if q.is_quasihalting:
                k = q.quasihalt_steps.int
                if k <= 100000 and (k - 1, q.quasihalt_state) != (max(old) if old else None):
                    raise Violation("prints quasi-halt (%d, state %d), states were last used at %r" % (k, q.quasihalt_state, last))
        ctx.label("infinite"); compared += 1
    if "--print-macro-ttable" in case["args"] and "Macro Machine TTable" in text: macro_table(case["tm"], text, ctx)
    if compared >= 2: ctx.nontrivial()
    if re.search(r"^Rules proven: [1-9]", text, re.M): ctx.label("rules")

def macro_table(tm, text, ctx):
    body = text[text.index("Macro Machine TTable"):].split("\n")[1:]
    T = ref.parse(tm)
    rows = [[c.strip() for c in l.strip().strip("|").split("|")] for l in body if l.startswith("|")]
    syms = rows[0][1:]
    for row in rows[1:]:
        m = re.fullmatch(r"(<)?(?:\((\d+)\) )?([A-Z])(?: \((\d+)\))?(>)?", row[0])
        if not m or bool(m.group(1)) == bool(m.group(5)): raise Violation("cannot read the row name %r" % row[0])
        d = 1 if m.group(5) else -1
        back = m.group(2) or m.group(4) or ""
        for sym, cell in zip(syms, row[1:]):
            if not cell: continue
            m2 = re.fullmatch(r"(?:<([A-Z])(?: \((\d+)\))? (\d+)|(\d+) (?:\((\d+)\) )?([A-Z])>) \[(\d+)\]", cell)
            if not m2: raise Violation("cannot read the cell %r" % cell)
            n = int(m2.group(7))
            tape = [int(c) for c in (back + sym if d > 0 else sym + back)]
            pos = len(back) if d > 0 else len(sym) - 1
            s = ord(m.group(3)) - 65; k = 0; seen = set(); loop = False
            while 0 <= pos < len(tape) and s >= 0 and k < n:
                key = (s, pos, tuple(tape)); loop = loop or key in seen; seen.add(key)
                w, mv, nx, u = T[s][tape[pos]]
                tape[pos] = w; pos += mv; s = nx; k += 1
            if m2.group(1): st_, bk, out, left = m2.group(1), m2.group(2) or "", m2.group(3), True
            else: st_, bk, out, left = m2.group(6), m2.group(5) or "", m2.group(4), False
            got = "".join(map(str, tape))
            if s < 0:
                if st_ != "Z": raise Violation("macro table: %s on %s is shown as %r but halts after %d steps" % (row[0], sym, cell, k))
                continue
            if loop: continue      # never leaves the cell: nothing to show
            # after leaving on one side the block left behind has the other cells; the back symbol is the part next to the head
            want = (bk + out) if left else (out + bk)
            if k != n or (pos < 0) != left or (0 <= pos < len(tape)) or chr(65 + s) != st_ or want != got:
                raise Violation("macro table: %s on %s is shown as %r, literally: tape %s state %s position %d after %d steps" % (row[0], sym, cell, got, chr(65 + s), pos, k))
            ctx.evals += 1
    ctx.label("macro-table")

@st.composite
def qs_cases(draw):
    tm = draw(st.one_of(gen.any_tm(max_cells=14, max_corpus_steps=100000), gen.walk_tm(), gen.prefix_tm()))
    a = []
    n = draw(st.sampled_from([None, 1, 1, 2, 3, 4]))
    if n: a += ["--block-size", n]
    if draw(st.booleans()): a.append("--no-backsymbol")
    mode = draw(st.sampled_from(["", "", "-q", "-v"]))
    if mode: a.append(mode)
    for f, k in (("-p", 4), ("-r", 2), ("--limited-rules", 4), ("--exp-linear-rules", 4), ("--exp-meta-linear-rules", 4), ("--no-steps", 6), ("--html-format", 12), ("--full-reps", 6), ("--print-macro-ttable", 2), ("--freeze-prover", 6), ("--latex", 6)):
        if draw(st.integers(0, k)) == k: a.append(f)
    if draw(st.booleans()): a += ["--print-loops", draw(st.sampled_from([1, 3, 10, 50]))]
    return dict(tm=tm, args=a, start=draw(st.sampled_from([0, 0, 0, 1, 2])), loops=draw(st.sampled_from([5, 40, 200])))

def direct(case, ctx):
    text = cli("Direct_Simulator.py", ["--", case["tm"], case["steps"]])
    r = ref.run(case["tm"], case["steps"])
    if not text.startswith(IO.parse_tm(case["tm"]).ttable_str()): raise Violation("prints machine %r" % text.split("\n")[0])
    m = re.search(r"Simulated ([\d_]+) steps", text)
    if not m or int(m.group(1)) != r.steps: raise Violation("prints %r, true number of steps simulated %d" % (text, r.steps))
    m = re.search(r"Halted with score ([\d_]+) at step ([\d_]+)", text)
    got = (int(m.group(1)), int(m.group(2))) if m else None
    want = (r.score, r.steps) if r.halted else None
    if got != want: raise Violation("prints halt (score, step) %r, true %r" % (got, want))
    ctx.nontrivial(); ctx.label("halted" if r.halted else "running")

def strip_time(m):
    [m.result.ClearField(f) for f in list(m.result.DESCRIPTOR.fields_by_name) if f.startswith("elapsed")]
    return m

def lin(case, ctx):
    tm = case["tm"]
    args = ([] if case["min"] else ["--no-min-start-step"])
    if case["max"]: args += ["--max-steps", case["max"]]
    else:
        r = ref.run(tm, 3000)
        if not r.halted and not true_recurrence(tm, 1500): raise Rejected()
    text = cli("Lin_Recur_Detect.py", args + ["--", tm])
    i = re.search(r"^(halt_status|quasihalt_status)", text, re.M)
    i = i.start() if i else len(text)
    info = strip_time(text_format.Parse(text[:i], io_pb2.LinRecurFilterInfo()))
    status = text_format.Parse(text[i:], io_pb2.BBStatus())
    want = io_pb2.LinRecurFilterInfo(); ws = io_pb2.BBStatus()
    want.parameters.max_steps = case["max"]; want.parameters.find_min_start_step = case["min"]
    Lin_Recur_Detect.filter(IO.parse_tm(tm), want, ws); strip_time(want)
    if (info, status) != (want, ws): raise Violation("prints %s, the detector's result is %s %s" % (text, want, ws))
    if status.halt_status.is_decided:
        r = ref.run(tm, 20000)
        if r.halted and not status.halt_status.is_halting: raise Violation("prints non-halting, but halts at step %d" % r.steps)
        ctx.nontrivial()

def cps(case, ctx):
    tm, bs, ws = case["tm"], case["bs"], case["ws"]
    args = ["--max-iters", case["iters"]]
    pos = ["--", tm, bs] + ([max(ws, 2 * bs)] if ws else [])
    ws = max(ws, 2 * bs) if ws else 3 * bs
    if case["verbose"]: args.append("-v")
    if case["cert"]: args.append("--savask-cert")
    text = cli("CPS.py", args + pos)
    res = io_pb2.ClosedGraphFilterResult(); status = io_pb2.BBStatus()
    CPS.filter(IO.parse_tm(tm), bs, ws, 1_000_000, case["iters"], 10_000, 10_000, res, status)
    fields = [f.name for f in res.DESCRIPTOR.fields]
    top = [l for l in text.split("\n") if re.match(r"(%s): " % "|".join(fields), l)]
    got = text_format.Parse("\n".join(top), io_pb2.ClosedGraphFilterResult())
    if got != res: raise Violation("prints %s, the decider's result is %s" % (got, res))
    m = re.search(r"^(halt_status|quasihalt_status)", text, re.M)
    st2 = text_format.Parse(text[m.start():] if m else "", io_pb2.BBStatus())
    if st2 != status: raise Violation("prints %s, the decider's status is %s" % (st2, status))
    if case["cert"]:
        l = [l for l in text.split("\n") if l.startswith(IO.parse_tm(tm).ttable_str() + " ")]
        if len(l) != 1: raise Violation("no certificate line")
        certificate(tm, bs, ws, res.success, l[0].split(" ")[1:])
    if res.success or case["verbose"]: ctx.nontrivial()
    if res.success: ctx.label("proved")

def certificate(tm, bs, ws, success, w):
    """the printed certificate: continuation pairs on each side, then all windows; must be closed under the machine's moves"""
    if not success:
        if w != ["Nothing"]: raise Violation("certificate %r printed without a proof" % " ".join(w)[:200])
        return
    if w[0] != "Result": raise Violation("proof found but certificate is %r" % " ".join(w)[:200])
    w = w[1:]; edges = []
    for d in (0, 1):
        n = int(w[0]); e = w[1:1 + 2 * n]; w = w[1 + 2 * n:]
        if any(len(x) != bs or not x.isdigit() for x in e) or len(e) != 2 * n: raise Violation("certificate: bad continuation list %r" % e[:20])
        edges.append(set(zip(e[::2], e[1::2])))
        if len(edges[-1]) != n: raise Violation("certificate: says %d continuations, lists %d" % (n, len(edges[-1])))
    n = int(w[0]); confs = w[1:]
    if len(confs) != n or len(set(confs)) != n: raise Violation("certificate: says %d windows, lists %d" % (n, len(set(confs))))
    parsed = set()
    for c in confs:
        m = re.fullmatch(r"(\d*)(?:<([A-Z])|([A-Z])>)(\d*)", c)
        if not m: raise Violation("certificate: cannot read the window %r" % c)
        tape = m.group(1) + m.group(4)
        if len(tape) != ws: raise Violation("certificate: window %r is not %d cells" % (c, ws))
        if m.group(2): st_, pos = m.group(2), len(m.group(1)) - 1
        else: st_, pos = m.group(3), len(m.group(1))
        if not 0 <= pos < ws: raise Violation("certificate: head outside the window in %r" % c)
        parsed.add((ord(st_) - 65, pos, tape))
    T = ref.parse(tm)
    if not any(s == 0 and set(t) == {"0"} for s, p, t in parsed): raise Violation("certificate does not contain the blank tape in state A")
    for b in (0, 1):
        if ("0" * bs, "0" * bs) not in edges[b]: raise Violation("certificate: blank is not continued by blank on side %d" % b)
    for s, pos, t in parsed:
        w0 = [int(x) for x in t]; vis = set(); s0 = s; dead = False
        while 0 <= pos < ws:
            key = (s, pos, tuple(w0))
            if key in vis: dead = True; break
            vis.add(key)
            a, mv, nx, u = T[s][w0[pos]]
            if nx < 0: raise Violation("certificate: window %s reaches a halt" % t)
            w0[pos] = a; pos += mv; s = nx
        if dead: continue
        d = 0 if pos < 0 else 1
        t2 = "".join(map(str, w0))
        edge = (lambda x, side: x[:bs] if side == 0 else x[-bs:])
        back = 1 - d
        far, second = edge(t2, back), (t2[bs:2 * bs] if back == 0 else t2[-2 * bs:-bs])
        if (second, far) not in edges[back]: raise Violation("certificate: %s followed by %s on side %d (from window %s) is missing" % (second, far, back, t))
        for a, b in edges[back]:
            if a == edge(t, back) and (far, b) not in edges[back]: raise Violation("certificate: %s followed by %s on side %d (from window %s) is missing" % (far, b, back, t))
        for a, b in edges[d]:
            if a != edge(t, d): continue
            t3 = b + t2[:ws - bs] if d == 0 else t2[bs:] + b
            p3 = bs - 1 if d == 0 else ws - bs
            if (s, p3, t3) not in parsed: raise Violation("certificate: window %s of state %s, reached from %s, is missing" % (t3, chr(65 + s), t))

def ctl(case, ctx):
    mod = {1: CTL1, 2: CTL2, 3: CTL3, 4: CTL4}[case["k"]]
    n = case["n"]; off = case["off"] % n
    args = ([] if case["back"] else ["--no-backsymbol"]) + ["--", case["tm"], case["cutoff"], n, off]
    text = cli("CTL%d.py" % case["k"], args)
    m = re.search(r"(Success :\)|Failure :\() in (\d+) iterations\s*$", text)
    if not m: raise Violation("no result line printed: %r" % text[-300:])
    got = m.group(1).startswith("Success")
    want = mod.test_CTL(IO.parse_tm(case["tm"]), cutoff=case["cutoff"], block_size=n, offset=off, use_backsymbol=case["back"])
    if (got, int(m.group(2))) != (bool(want[0]), want[1]): raise Violation("prints %r, the decider's result is %r" % (m.group(0), want))
    if got:
        r = ref.run(case["tm"], 200000)
        if r.halted: raise Violation("prints success, but the machine halts at step %d" % r.steps)
        ctx.label("proved")
    ctx.nontrivial()

def tm_print(case, ctx):
    text = cli("TM_Print.py", ["--", case["tm"]])
    rows = [[c.strip() for c in l.strip().strip("|").split("|")] for l in text.split("\n") if l.startswith("|")]
    T = ref.parse(case["tm"]); ns, nk = len(T), len(T[0])
    if rows[0] != [""] + [str(k) for k in range(nk)] or set(rows[1]) != {":-:"} or len(rows[1]) != nk + 1: raise Violation("table head %r" % rows[:2])
    if [r[0] for r in rows[2:]] != [chr(65 + i) for i in range(ns)]: raise Violation("row names %r" % [r[0] for r in rows[2:]])
    got = "_".join("".join(r[1:]) for r in rows[2:])
    if got != ref.show(T): raise Violation("prints %s for %s" % (got, ref.show(T)))
    ctx.nontrivial()

COLOR = [49, 41, 42, 44, 46, 43, 45]
def visual(case, ctx):
    tm = case["tm"]; T = ref.parse(tm)
    nk = len(T[0]); ns = len(T)
    args = ["--no-ttable", "--print-width", case["width"], "--print", case["print"]] + (["--relative"] if case["rel"] else [])
    args += ["--", tm]
    state, pos, tape = 0, 0, {}
    lo = hi = 0
    if case["conf"]:
        s, left, L, R = case["conf"]
        s %= ns
        L = [[[c % nk for c in b], n] for b, n in L]; R = [[[c % nk for c in b], n] for b, n in R]
        txt = lambda H: ["".join(map(str, b)) + ("^%d" % n if n != 1 else "") for b, n in H]
        args.append(" ".join(txt(L) + ["<%s" % chr(65 + s) if left else "%s>" % chr(65 + s)] + txt(R)))
        l = [c for b, n in L for c in b * n]; r = [c for b, n in R for c in b * n]
        if left: r = [l.pop() if l else 0] + r
        state = s
        tape = {i - len(l): c for i, c in enumerate(l)}; tape.update(enumerate(r))
        lo, hi = -len(l), max(len(r) - 1, 0)
    want = []; step = 0
    half = case["width"] // 2 - 10
    while True:
        lo, hi = min(lo, pos), max(hi, pos)
        if "a" in case["print"] or ("l" in case["print"] and pos == lo) or ("r" in case["print"] and pos == hi):
            base = pos if case["rel"] else 0
            cells = [(tape.get(p, 0), p == pos) for p in range(base - half, base + half + 1)]
            want.append((step, cells, state, tape.get(pos, 0)))
        if state < 0: break
        if step > 600: raise Rejected()
        w, mv, nx, u = T[state][tape.get(pos, 0)]
        tape[pos] = w; pos += mv; state = nx; step += 1
    text = cli("Visual_Simulator.py", args)
    got = []
    for l in text.split("\n"):
        m = re.match(r"\033\[0m *(\d+): (.*?)\033\[0m *(\S+) *\033\[(\d+)m *(\d+)\033\[0m$", l)
        if not m: continue
        cells = [(COLOR.index(int(c)), ch) for c, ch in re.findall(r"\033\[(?:1;)?(\d+)m(.)", m.group(2))]
        got.append((int(m.group(1)), cells, m.group(3), int(m.group(5)), COLOR.index(int(m.group(4)))))
    if len(got) != len(want): raise Violation("prints %d tape rows, should be %d: %r" % (len(got), len(want), text[:300]))
    for g, w in zip(got, want):
        name = "HALT" if w[2] < 0 else chr(65 + w[2]); mark = "!" if w[2] < 0 else chr(65 + w[2])
        ok = g[0] == w[0] and g[2] in (name, str(w[2])) and g[3] == w[3] == g[4] and len(g[1]) == len(w[1]) and \
            all(a[0] == b[0] and a[1] == (mark if b[1] else " ") for a, b in zip(g[1], w[1]))
        if not ok: raise Violation("row for step %d shown as %r, true %r" % (w[0], g, w))
        ctx.evals += 1
    m = re.search(r"TM Halted on step (\d+)", text)
    if not m or int(m.group(1)) != step: raise Violation("prints %r, halts at step %d" % (text[-60:], step))
    if len(want) > 2: ctx.nontrivial()

def tms(): return gen.any_tm(max_cells=14, max_corpus_steps=3000)
def vis_cases():
    half = st.lists(st.tuples(st.lists(st.integers(0, 6), min_size=1, max_size=3), st.sampled_from([1, 1, 2, 3, 5])), max_size=3)
    conf = st.one_of(st.none(), st.tuples(st.integers(0, 6), st.booleans(), half, half))
    tm = st.one_of(gen.corpus_tm(max_steps=400), gen.walk_tm(limit=40), gen.table_tm(p_halt=3), gen.table_tm(gen.sizes(14, 7, 6)))
    return st.fixed_dictionaries(dict(tm=tm, conf=conf, width=st.sampled_from([24, 40, 80, 81]), rel=st.booleans(), print=st.sampled_from(["a", "l", "r", "lr"])))

# ---- the interactive tape view, on a stand-in for the terminal
class FakeError(Exception): pass
class Pad:
    def __init__(self, h, w): self.h, self.w, self.cells = h, w, {}
    def getmaxyx(self): return self.h, self.w
    def bkgd(self, *a): pass
    bkgdset = bkgd
    def clear(self): self.cells = {}
    erase = clear
    def resize(self, h, w):
        if h > 20000 or w > 20000: raise Violation("the view keeps growing (%d x %d)" % (h, w))
        self.h, self.w = h, w
        self.cells = {k: v for k, v in self.cells.items() if k[0] < h and k[1] < w}
    def addstr(self, y, x, text, attr=0):
        for ch in text:
            if not (0 <= y < self.h and 0 <= x < self.w): raise FakeError("addwstr() returned ERR")
            self.cells[y, x] = (ch, attr); x += 1
        if x == self.w and y == self.h - 1: raise FakeError("addwstr() returned ERR")      # as the real one: the corner is drawn, then it fails
    def addch(self, y, x, ch, attr=0): self.addstr(y, x, ch if isinstance(ch, str) else chr(ch), attr)
    def insstr(self, y, x, text, attr=0):
        if not (0 <= y < self.h and 0 <= x < self.w): raise FakeError("insstr() returned ERR")
        row = [self.cells.pop((y, i), None) for i in range(x, self.w)]
        for i, v in enumerate([(ch, attr) for ch in text] + row):
            if v is not None and x + i < self.w: self.cells[y, x + i] = v
    def insch(self, y, x, ch, attr=0): self.insstr(y, x, ch if isinstance(ch, str) else chr(ch), attr)
    def refresh(self, py, px, y1, x1, y2, x2):
        py, px = max(py, 0), max(px, 0)
        if py >= self.h or px >= self.w: raise FakeError("prefresh() returned ERR")
        self.screen = [[self.cells.get((py + i, px + j), (" ", 1)) for j in range(x2 - x1 + 1)] for i in range(y2 - y1 + 1)]
    noutrefresh = refresh

VIEW_KEYS = {"KEY_DOWN": "d", "KEY_ENTER": "d", "j": "d", "KEY_UP": "u", "k": "u", "KEY_NPAGE": "D", " ": "D", "KEY_PPAGE": "U", "b": "U", "<": "top", "KEY_RIGHT": "r", "l": "r", "KEY_LEFT": "l", "h": "l", ".": "mid", "x": "", "KEY_F(1)": ""}
def curses_view(case, ctx):
    tm, lines, cols = case["tm"], case["lines"], case["cols"]
    buf = max(case["buf"], lines + 1, cols + 1)
    keys = [k for k, n in case["keys"] for _ in range(n)]
    rows = []; run = ref.Run(tm)
    def expected(t):
        """(state, head, leftmost cell, cells) after t steps, None once halted"""
        while len(rows) <= t:
            run.to(len(rows))
            rows.append(None if run.halted else (run.state, run.pos, *run.cells()))
        return rows[t]
    line = pos = 0
    def look(what):
        for i, row in enumerate(pads[0].screen):
            r = expected(line + i)
            for j, got in enumerate(row):
                p = pos - cols // 2 + j
                if r is None: want = (" ", 1)
                else: want = (chr(65 + r[0]) if p == r[1] else " ", 1 + (r[3][p - r[2]] if 0 <= p - r[2] < len(r[3]) else 0))
                if got != want: raise Violation("after %s: step %d, cell %d is shown as %r in colour %r, should be %r in colour %r" % (what, line + i, p, got[0], got[1], want[0], want[1]))
    todo = list(keys); done = []; pads = []
    class Screen:
        def getkey(self):
            nonlocal line, pos
            # the view as the user sees it before pressing the next key
            if done:
                k = VIEW_KEYS[done[-1]]
                if k in "dDuU" and k: line = max(0, line + {"d": 1, "u": -1, "D": lines, "U": -lines}[k])
                elif k == "top": line = 0
                elif k in ("r", "l"): pos += 1 if k == "r" else -1
                elif k == "mid": pos = 0
            if len(done) % 5 == 0 or not todo: look(done[-6:] or "start"); ctx.evals += 1
            if not todo: return "q"
            done.append(todo.pop(0)); return done[-1]
        def __getattr__(self, name): return lambda *a, **k: None
    import types
    m = types.ModuleType("curses")
    def newpad(h, w): pads.append(Pad(h, w)); pads[:] = pads[-1:]; return pads[0]
    m.__dict__.update(LINES=lines, COLS=cols, error=FakeError, newpad=newpad, wrapper=lambda f, *a, **k: f(Screen(), *a, **k), color_pair=lambda n: n, init_pair=lambda *a: None,
                      curs_set=lambda *a: None, has_colors=lambda: True, **{"COLOR_" + n: i for i, n in enumerate("BLACK RED GREEN YELLOW BLUE MAGENTA CYAN WHITE".split())})
    class Other(int):       # anything else of the library: a number that can also be called
        def __call__(self, *a, **k): return None
    m.__getattr__ = lambda name: Other(0)
    old = sys.modules.get("curses")
    sys.modules["curses"] = m
    try: cli("Curses_Sim.py", [tm, "--buffer-size", buf, "--log-file", os.devnull])
    finally:
        if old is None: del sys.modules["curses"]
        else: sys.modules["curses"] = old
    if todo: raise Violation("the view ended with keys left to press")
    if line or pos: ctx.nontrivial((tm, lines, cols, tuple(keys)))
    ctx.label("halted" if expected(line + lines) is None else "running")

def curses_cases():
    tm = st.one_of(gen.walk_tm(gen.sizes(14, 7, 6), limit=40), gen.table_tm(gen.sizes(14, 7, 6), p_halt=0, p_undef=0), gen.corpus_tm("recurs.txt"), gen.corpus_tm(max_steps=400))
    return st.fixed_dictionaries(dict(tm=tm.filter(lambda t: len(t.split("_")[0]) <= 21), lines=st.integers(2, 12), cols=st.integers(3, 16), buf=st.integers(4, 45),
        keys=st.lists(st.tuples(st.sampled_from(sorted(VIEW_KEYS)), st.one_of(st.integers(1, 3), st.integers(1, 25))), max_size=8)))

TESTS = [
    Test("curses_view", curses_view, strategy=curses_cases, quick=1200, thorough=20000),
    Test("quick_sim", quick_sim, strategy=qs_cases, quick=5000, thorough=100000),
    Test("approx_numbers", approx, strategy=approx_cases, quick=6000, thorough=100000),
    Test("direct", direct, strategy=lambda: st.fixed_dictionaries(dict(tm=st.one_of(tms(), gen.table_tm()), steps=st.one_of(st.integers(0, 60), st.integers(0, 5000)))), quick=1500, thorough=20000),
    Test("lin_recur", lin, strategy=lambda: st.fixed_dictionaries(dict(tm=st.one_of(tms(), gen.corpus_tm("recurs.txt")), min=st.booleans(), max=st.sampled_from([0, 50, 500, 3000]))), quick=2000, thorough=30000),
    Test("cps", cps, strategy=lambda: st.fixed_dictionaries(dict(tm=gen.any_tm(max_cells=12, max_corpus_steps=300), bs=st.sampled_from([1, 1, 2, 3]), ws=st.sampled_from([0, 0, 2, 3, 5, 7]), iters=st.sampled_from([500, 500, 3]), verbose=st.booleans(), cert=st.booleans())), quick=2500, thorough=40000),
    Test("ctl", ctl, strategy=lambda: st.fixed_dictionaries(dict(tm=st.one_of(gen.any_tm(max_cells=12, max_corpus_steps=300), gen.prefix_tm()), k=st.integers(1, 4), cutoff=st.sampled_from([0, 5, 20, 60, 200]), n=st.integers(1, 4), off=st.integers(0, 3), back=st.booleans())), quick=2500, thorough=40000),
    Test("tm_print", tm_print, strategy=lambda: st.fixed_dictionaries(dict(tm=st.one_of(tms(), gen.table_tm()))), quick=1000, thorough=10000),
    Test("visual", visual, strategy=vis_cases, quick=1500, thorough=25000),
]
