import copy, math
from types import SimpleNamespace
from fractions import Fraction
from hypothesis import strategies as st
import core, ref, gen, simlib
from core import Test, Violation, Rejected
from simlib import Turing_Machine
from Macro import Proof_System, Rule_Func, Tape
import Exp_Int
import Algebraic_Expression as ae

PROPERTY = "C06"
RULE = ("rule_on_tape: a rule proven during an accelerated run is applied by the proof system to tapes of the same shape with freshly drawn repetition counts; "
        "non-trivial = the proof system applied it (or called it endless) and the outcome was compared with literal execution of that starting tape. "
        "rule_application: a rule stated directly (diff, limited, linear, exponential or general, with drawn minimums, step polynomials and last-use polynomials) is applied to drawn counts, some symbolic, and compared with iterating what it states; non-trivial = called endless or applied at least twice. "
        "series_sum: non-trivial = polynomial of degree >= 1 in the summation variable, N >= 2.  rule_funcs: non-trivial = at least 2 repetitions.")
ASSUMPTIONS = ["results whose step count exceeds 20M or whose tape exceeds 200k cells are not replayed literally",
               "rules applied without step counts are confirmed by searching 30M literal steps for the resulting configuration (tapes up to 500 cells)"]
BUDGET = dict(quick=200, thorough=3000)

def as_head(c):
    state, d, left, right = c
    cells = left[::-1] + right
    return cells, (len(left) - 1 if d == 0 else len(left)), state

def live(tm, o, state, d, tape, sim, step0, ctx):
    """a rule the run proved and applied in the same loop: literal execution of the configuration it was applied to"""
    start = simlib.sim_config(SimpleNamespace(tape=tape, state=state, dir=d, step_num=1))
    end = simlib.sim_config(SimpleNamespace(tape=sim.tape, state=sim.state, dir=sim.dir, step_num=1))
    if start is None or end is None: return
    cells, head, s0 = as_head(start)
    r = ref.Run(tm).init(cells, head, s0)
    if simlib.small(step0) and simlib.small(sim.step_num) and sim.step_num > step0:
        r.to(sim.step_num - step0)
        ok = not r.halted and simlib.ref_config(r, end[1]) == end
    else:
        ec, eh, es = as_head(end)
        if len(ec) > 500: return
        ok = r.find(ec, eh, es, 30_000_000)
    if not ok:
        raise Violation("rule applied as it was proven, to %s, gives %s; literal execution disagrees" % (tape.print_with_state(state), sim.tape.print_with_state(sim.state)))
    ctx.nontrivial((tm, sorted(o.items()), repr(tape))); ctx.label("applied-when-proven")

def check_rule(case, ctx):
    tm, o, loops, exps = case["tm"], case["o"], case["loops"], case["exps"]
    sim = simlib.make_sim(tm, o)
    shots = []
    for i in range(loops):
        if sim.op_state != Turing_Machine.RUNNING: break
        n = sim.prover.num_rules
        shot = (sim.state, sim.dir, sim.tape)
        shot_tape = sim.tape.copy()
        step0, moves0 = sim.step_num, sim.num_rule_moves
        sim.step()
        if sim.prover.num_rules > n:
            shots.append((shot[0], shot[1], shot_tape))
            if sim.num_rule_moves > moves0 and sim.op_state == Turing_Machine.RUNNING and len(shots) <= 12:
                live(tm, o, shot[0], shot[1], shot_tape, sim, step0, ctx)
        if sim.tape.compressed_size() > 60: break
        if sim.num_rule_moves and not all(isinstance(b.num, int) and b.num < 10**30 or b.num == math.inf for h in sim.tape.tape for b in h): break
    if not shots: return
    prover = copy.copy(sim.prover)
    prover.frozen = True
    k = 0
    for state, d, tape0 in shots[:6]:
        for rep in range(4):
            tape = tape0.copy()
            for h in tape.tape:
                for b in h:
                    if b.num != math.inf and not (isinstance(b.num, int) and b.num == 1):
                        k += 1
                        # the counts the rule was proven from are kept in one of the trials, and some of them in another
                        if rep == 2 or rep == 3 and k % 2: continue
                        b.num = exps[k % len(exps)]
            if o.get("limited_rules") and case["extra"]:
                e = case["extra"]
                syms = [b.symbol for h in tape.tape for b in h]
                side, s = e[0] % 2, syms[e[1] % len(syms)]
                h = tape.tape[side]
                if h[0].symbol != s and (len(h) < 2 or h[1].symbol != s):
                    h.insert(1, Tape.Repeated_Symbol(s, 1 + e[2] % 9))
            start = simlib.sim_config(SimpleNamespace(tape=tape, state=state, dir=d, step_num=1))
            if start is None: continue
            before = repr(tape)
            res = prover.log_and_apply(tape, state, 0, 0)
            if repr(tape) != before:
                raise Violation("applying a rule changed the tape it was given: %s -> %s" % (before, tape))
            ctx.evals += 1
            if res.condition == Proof_System.NOTHING_TO_DO: continue
            cells, head, s0 = as_head(start)
            r = ref.Run(tm).init(cells, head, s0)
            if res.condition == Proof_System.INF_REPEAT:
                r.to(200000)
                if r.halted:
                    raise Violation("rule said to apply forever at %s, but the machine halts after %d steps from there" % (tape.print_with_state(state), r.steps))
                ctx.nontrivial((tm, sorted(o.items()), before)); ctx.label("endless")
                continue
            if res.condition != Proof_System.APPLY_RULE: raise Violation("unknown prover verdict %r" % (res.condition,))
            t = res.new_tape
            if any(isinstance(b.num, Exp_Int.ExpInt) for h in t.tape for b in h):
                t = t.copy()
                for h in t.tape:
                    for b in h: b.num = Exp_Int.try_simplify(b.num)
            end = simlib.sim_config(SimpleNamespace(tape=t, state=state, dir=t.dir, step_num=1))
            if end is None: continue
            n = res.num_base_steps
            n = Exp_Int.try_simplify(n)
            if n is not None and o.get("compute_steps", True) and prover.compute_steps:
                if not simlib.small(n):
                    if not isinstance(n, (int, Exp_Int.ExpInt)): raise Violation("step count of a rule application is not an integer: %r" % (n,))
                    continue
                r.to(n)
                if r.halted or simlib.ref_config(r, end[1]) != end or n <= 0:
                    raise Violation("rule applied to %s claims %s after %d steps; literal execution: %s" % (tape.print_with_state(state), t.print_with_state(state), n, "halted at %d" % r.steps if r.halted else simlib.ref_config(r, end[1])))
                ctx.nontrivial((tm, sorted(o.items()), before)); ctx.label("applied")
                if res.states_last_seen is not None and n <= 2_000_000:
                    want = {i: v for i, v in enumerate(ref.Run(tm).init(cells, head, s0).last_seen(n)) if v >= 0}
                    got = {int(q): Exp_Int.try_simplify(v) for q, v in res.states_last_seen.items()}
                    if got != want:
                        raise Violation("rule applied to %s: states last used at %r, literal execution %r" % (tape.print_with_state(state), got, want))
                    ctx.label("last-seen")
            else:
                ec, eh, es = as_head(end)
                if len(ec) > 500: continue
                if not r.find(ec, eh, es, 30_000_000):
                    raise Violation("rule applied to %s claims %s, which literal execution does not reach (%s)" % (tape.print_with_state(state), t.print_with_state(state), "halted at %d" % r.steps if r.halted else "searched %d steps" % r.steps))
                ctx.nontrivial((tm, sorted(o.items()), before)); ctx.label("applied-no-steps")

@st.composite
def rule_cases(draw, meta=False):
    o = draw(simlib.options()); o["prover"] = True
    if meta or draw(st.integers(0, 1)): o["recursive"] = True
    if meta: tm = gen.corpus_tm("metarules.txt"); tm = st.one_of(tm, tm, gen.mutant_tm(tm))
    else: tm = gen.any_tm(max_cells=15, max_corpus_steps=100000)
    return dict(tm=draw(tm), o=o, loops=draw(st.sampled_from([150, 500, 1200])),
                exps=draw(st.lists(st.one_of(st.integers(2, 6), st.integers(2, 40)), min_size=6, max_size=6)),
                extra=draw(st.one_of(st.none(), st.tuples(st.integers(0, 1), st.integers(0, 7), st.integers(0, 8)).map(list))))

# ---- series_sum
def check_series(case, ctx):
    k, a, b = ae.Variable(10), ae.Variable(0), ae.Variable(1)
    K, A, B = map(ae.VariableToExpression, (k, a, b))
    expr = ae.ConstantToExpression(0)
    terms = [(Fraction(c, den) if den > 1 else c, pk, pa, pb) for c, den, pk, pa, pb in case["terms"]]
    for c, pk, pa, pb in terms:
        e = ae.ConstantToExpression(ae.simp_frac(Fraction(c)))
        for v, p in ((K, pk), (A, pa), (B, pb)):
            for _ in range(p): e = e * v
        expr = expr + e
    va, vb, n0, nslope = case["a"], case["b"], case["n0"], case["nslope"]
    n = n0 + nslope * va
    N = n0 if not nslope else A * nslope + n0
    try:
        got = Proof_System.series_sum(expr, k, N)
    except NotImplementedError:
        if max((t[1] for t in terms), default=0) <= 3: raise Violation("refused a polynomial of degree <= 3 in k: %s" % expr)
        return
    got = ae.substitute(got, {a: va, b: vb})
    want = sum(c * kk**pk * va**pa * vb**pb for c, pk, pa, pb in terms for kk in range(n))
    if got != want or (isinstance(want, Fraction) and want.denominator == 1 and isinstance(got, float)):
        raise Violation("sum over k=0..%s-1 of %s at a=%d b=%d: got %s, true %s" % (N, expr, va, vb, got, want))
    if n >= 2 and any(t[1] for t in terms if t[0]): ctx.nontrivial()

def series_cases():
    term = st.tuples(st.integers(-6, 9), st.sampled_from([1, 1, 1, 2, 3, 6]), st.integers(0, 3), st.sampled_from([0, 0, 1, 2]), st.sampled_from([0, 0, 0, 1])).map(list)
    return st.fixed_dictionaries(dict(terms=st.lists(term, min_size=1, max_size=4), a=st.integers(0, 8), b=st.integers(0, 5),
                                      n0=st.integers(1, 12), nslope=st.sampled_from([0, 0, 1, 1, 2])))

# ---- Rule_Func
def check_func(case, ctx):
    x = ae.Variable(5)
    kind, start, mn, reps = case["kind"], case["start"], case["min"], case["reps"]
    start = start + mn
    if kind == "sub":
        f = Rule_Func.Subtract_Func(var=x, min=mn, const=case["c"])
        n, fin = f.max_reps(start)
        cur, cnt = start, 0
        while cur >= mn: cur -= case["c"]; cnt += 1
        if (n, fin) != (cnt, cur): raise Violation("x -> x-%d while x >= %d from %d: claims %r repetitions ending at %r, true %r" % (case["c"], mn, start, n, fin, (cnt, cur)))
        if not f.is_decreasing: raise Violation("subtraction not marked as decreasing")
        if bool(f.has_collatz_decrease) != (case["c"] > 1): raise Violation("has_collatz_decrease wrong for decrease by %d" % case["c"])
        if f.apply_rep(start, reps) != start - reps * case["c"]: raise Violation("apply_rep")
        if cnt >= 2: ctx.nontrivial()
        return
    if kind == "add":
        f = Rule_Func.Add_Func(var=x, min=mn, const=case["c"]); step = lambda v: v + case["c"]
    elif kind == "mult":
        f = Rule_Func.Mult_Func(var=x, min=mn, coef=case["m"], const=case["b"]); step = lambda v: case["m"] * v + case["b"]
    else:
        # exponents on a tape are integers, so only integer-valued functions occur
        m, c, u, v, d = case["m"], case["c"], case["u"], case["v"], case["den"]
        whole = c * (m**u - 1)
        d = [q for q in range(1, 30) if whole % q == 0][d % len([q for q in range(1, 30) if whole % q == 0])]
        b = case["b"] - (c * m**(u * mn + v) + case["b"]) % d
        case = dict(case, den=d, b=b)
        f = Rule_Func.Pow_Func(var=x, min=mn, base=case["m"], coef_base=case["c"], const_base=case["b"], denom=case["den"], coef_exp=case["u"], const_exp=case["v"])
        def step(v):
            q = Fraction(case["m"]) ** (case["u"] * v + case["v"]) * case["c"] + case["b"]
            return q / case["den"]
    if f.is_decreasing: raise Violation("%s marked as decreasing" % f)
    # a function not marked decreasing must not decrease any value from its minimum on
    if f.min < mn: raise Violation("minimum lowered from %d to %r for %s" % (mn, f.min, f))
    for v in range(int(f.min), int(f.min) + 12):
        if v >= f.min and step(v) < v:
            raise Violation("%s is marked as never decreasing from %r on, but maps %d to %s" % (f, f.min, v, step(v)))
    if kind != "pow":
        cur = start
        for _ in range(reps): cur = step(cur)
        got = Exp_Int.try_simplify(f.apply_rep(start, reps))
        if got != cur: raise Violation("%s applied %d times to %d: got %r, true %d" % (f, reps, start, got, cur))
    if reps >= 2: ctx.nontrivial()

def func_cases():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["sub", "sub", "add", "mult", "mult", "pow"]), start=st.integers(0, 60), min=st.integers(1, 15), reps=st.integers(1, 12),
                                      c=st.integers(1, 7), m=st.integers(2, 6), b=st.one_of(st.integers(-40, 20), st.integers(-3000, 10)), den=st.integers(0, 5), u=st.integers(1, 3), v=st.integers(0, 4)))

# ---- rules stated directly, applied by the proof system, against iterating what the rule states
APPLY_TM = "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA"
def build_rule(case, opts):
    """-> (rule, vars, start tape maker).  Blocks are listed left half first, outermost first, as on a tape."""
    blocks, nleft, kind = case["blocks"], case["nleft"], case["kind"]
    V = {i: ae.Variable() for i, b in enumerate(blocks) if b["k"] == "var"}
    X = {i: ae.VariableToExpression(v) for i, v in V.items()}
    def poly(terms):
        e = ae.ConstantToExpression(0)
        for c, vs, half in terms:
            t = ae.ConstantToExpression(c)
            vs = [v for v in vs if v in X]
            for v in vs: t = t * X[v]
            if half and vs: t = t * (X[vs[0]] + 1) * ae.ConstantToExpression(Fraction(1, 2))
            e = e + t
        return e
    def tape(nums, lo=0, hi=0):
        t = Tape.Chain_Tape(); t.init(0, case["dir"], opts)
        for j, (i, b) in enumerate((i, b) for i, b in enumerate(blocks)):
            h = 0 if i < nleft else 1
            t.tape[h].append(Tape.Repeated_Symbol(1 + i % 2, nums[i]))
        return t
    return V, X, poly, tape

def ev_poly(terms, x):
    tot = Fraction(0)
    for c, vs, half in terms:
        t = Fraction(c); vs = [v for v in vs if v in x]
        for v in vs: t *= x[v]
        if half and vs: t = t * (x[vs[0]] + 1) / 2
        tot += t
    return tot

def ev(v, sub=None):
    if sub: v = ae.substitute(v, sub)
    if isinstance(v, ae.Expression) and v.is_const: v = v.const
    return Exp_Int.try_simplify(v)

def check_apply(case, ctx):
    blocks, nleft, kind = case["blocks"], case["nleft"], case["kind"]
    o = dict(n=1, off=0, back=False, prover=True, recursive=True)
    if kind in ("linear", "exp"): o["exp_linear_rules"] = True   # also turns step counting off
    o["max_num_reps"] = case["max_reps"]
    sim = simlib.make_sim(APPLY_TM, o)
    prover, state = sim.prover, sim.state
    V, X, poly, tape = build_rule(case, prover.options)
    steps, seen = case["steps"], {"ABC"[i]: t for i, t in enumerate(case["seen"])}
    PS = Proof_System
    def res_expr(i):
        f = blocks[i]["f"]
        if f[0] == "add": return X[i] + f[1]
        if f[0] == "mult": return X[i] * f[1] + f[2]
        if f[0] == "const": return f[1]
        if f[0] == "mix":
            j = sorted(V)[f[1] % len(V)]
            return X[j] * f[2] + f[3] + (X[i] if f[4] else 0)
        return Exp_Int.exp_int(f[1], X[i] + f[2]) + f[3]
    def res_val(i, x):
        f = blocks[i]["f"]
        if f[0] == "add": return x[i] + f[1]
        if f[0] == "mult": return x[i] * f[1] + f[2]
        if f[0] == "const": return f[1]
        if f[0] == "mix": return x[sorted(V)[f[1] % len(V)]] * f[2] + f[3] + (x[i] if f[4] else 0)
        if x[i] + f[2] > 3000: raise OverflowError
        return f[1] ** (x[i] + f[2]) + f[3]
    const = [1 if b["k"] == "one" else None for b in blocks]
    syms = {}
    start = []
    for i, b in enumerate(blocks):
        if i in V and kind in ("diff", "limited") and b["sym"]:
            y = ae.Variable(); syms[i] = y
            start.append(ae.VarPlusConstExpression(y, b["start"]))
        else: start.append(b["start"] if i in V else 1)
    try:
        if kind in ("diff", "limited"):
            init = tape([X[i] + b["min"] if i in V else 1 for i, b in enumerate(blocks)])
            diff = tape([b["f"][1] if i in V else 0 for i, b in enumerate(blocks)])
            seen_e = {q: poly(t) for q, t in seen.items()}
            if kind == "diff":
                rule = PS.Diff_Rule(init, diff, state, poly(steps), 7, 3, False, states_last_seen=seen_e)
            else:
                ld, rd = nleft, len(blocks) - nleft
                if not (ld and rd): raise Rejected
                for t in (init, diff):
                    t.tape[0] = t.tape[0][-ld:]; t.tape[1] = t.tape[1][-rd:]
                rule = PS.Limited_Diff_Rule(init, ld, rd, diff, state, poly(steps), 7, 3, states_last_seen=seen_e)
        else:
            var_list = [None] + [V.get(i) for i in range(nleft)] + [None] + [V.get(i) for i in range(nleft, len(blocks))]
            ml = [b["min"] if i in V else 1 for i, b in enumerate(blocks)]
            min_list = [math.inf] + ml[:nleft] + [math.inf] + ml[nleft:]
            rtape = tape([res_expr(i) if i in V else 1 for i in range(len(blocks))])
            args = (var_list, min_list, rtape, 0, 7, 3, None)
            if prover.compute_steps: args = args[:3] + (poly(steps), 7, 3, {q: poly(t) for q, t in seen.items()})
            if kind == "linear": rule = PS.Linear_Rule.try_gen(*args)
            elif kind == "exp": rule = PS.Exponential_Rule.try_gen(*args)
            else: rule = PS.General_Rule(*args)
            if not rule: ctx.label("not-" + kind); return
    except (TypeError, AttributeError) as e:
        # these classes are internal: if they can no longer be built this way there is nothing to apply here
        if e.__traceback__.tb_next is None: ctx.label("rule-classes-changed"); return
        raise
    st_tape = tape(start)
    if kind == "limited":
        for h, extra in enumerate(case["ctxblocks"]):
            st_tape.tape[h][1:1] = [Tape.Repeated_Symbol(5 + j, e) for j, e in enumerate(extra)]
    before = repr(st_tape)
    try: ok, out = prover.apply_rule(rule, (state, st_tape, 0, 0))
    except (TypeError, AttributeError, ValueError) as e:
        if e.__traceback__.tb_next is None: ctx.label("rule-classes-changed"); return
        raise
    if repr(st_tape) != before: raise Violation("applying a rule changed the tape it was given: %s -> %s" % (before, st_tape))
    ctx.evals += 1
    if not ok: ctx.label(kind + "-refused"); return
    res = out[0]
    steps_known = prover.compute_steps
    for y in ([0, 1, 4] if syms else [0]):
        ysub = {v: y + j for j, v in enumerate(syms.values())}
        cur = {i: ev(start[i], ysub) for i in V}
        mins = {i: blocks[i]["min"] for i in V}
        total, n = Fraction(0), 0
        hist = [(dict(cur), total)]
        bad = None
        cap = 400 if kind in ("diff", "limited", "linear") else 60
        try:
            while n < cap:
                if any(cur[i] < mins[i] for i in V): bad = n; break
                # in a diff rule the step count is in terms of the excess over the minimum
                ex = {i: cur[i] - mins[i] for i in V} if kind in ("diff", "limited") else dict(cur)
                total += ev_poly(steps, ex); lastx = ex
                cur = {i: res_val(i, cur) for i in V}
                n += 1
                hist.append((dict(cur), total, lastx))
        except OverflowError: pass
        desc = "%s, start %s%s" % (repr(rule).replace("\n", "; "), before, " with %r" % ysub if ysub else "")
        if res.condition == PS.INF_REPEAT:
            if bad is not None: raise Violation("%s: said to apply forever, but after %d applications the counts are %r, below the minimums" % (desc, bad, hist[bad][0]))
            ctx.nontrivial(); ctx.label(kind + "-endless"); continue
        if res.condition != PS.APPLY_RULE: raise Violation("unknown verdict %r" % (res.condition,))
        got = [[(b.symbol, ev(b.num, ysub)) for b in h] for h in res.new_tape.tape]
        if any(isinstance(v, Exp_Int.ExpInt) for h in got for _, v in h): ctx.label("too-big"); continue
        def expect(x):
            w = tape([x[i] if i in V else 1 for i in range(len(blocks))])
            if kind == "limited":
                for h, extra in enumerate(case["ctxblocks"]): w.tape[h][1:1] = [Tape.Repeated_Symbol(5 + j, e) for j, e in enumerate(extra)]
            return [[(b.symbol, b.num) for b in h if b.num != 0] for h in w.tape]
        want = [k for k in range(1, len(hist)) if expect(hist[k][0]) == got]
        if not want:
            raise Violation("%s: result %s is not reached by applying the rule while every count is at least its minimum (which gives %s)" % (desc, got, [list(h[0].values()) for h in hist[:6]]))
        if steps_known:
            g = ev(res.num_base_steps, ysub)
            want = [k for k in want if hist[k][1] == g]
            if not want: raise Violation("%s: result %s claimed after %s steps; adding up the applications gives %s" % (desc, got, g, [str(h[1]) for h in hist[:8]]))
            if res.states_last_seen is not None:
                gl = {q: ev(v, ysub) for q, v in res.states_last_seen.items()}
                k = want[0]
                wl = {q: hist[k - 1][1] + ev_poly(t, hist[k][2]) for q, t in seen.items()}
                if len(want) == 1 and gl != wl: raise Violation("%s: states last used at %r, adding up gives %r" % (desc, gl, {q: str(v) for q, v in wl.items()}))
        if want[0] >= 2: ctx.nontrivial()
        ctx.label(kind + "-applied")

@st.composite
def apply_cases(draw):
    kind = draw(st.sampled_from(["diff", "diff", "limited", "linear", "linear", "general", "general", "exp"]))
    nl, nr = draw(st.integers(0, 3)), draw(st.integers(0, 3))
    if nl + nr == 0: nr = 1
    blocks = []
    small = kind == "exp"
    for i in range(nl + nr):
        if draw(st.integers(0, 4)) == 0: blocks.append(dict(k="one")); continue
        if kind in ("diff", "limited"): f = ["add", draw(st.sampled_from([-3, -2, -1, -1, -1, 0, 1, 2, 5]))]
        else:
            t = draw(st.sampled_from(dict(linear=["add", "add", "mult"], general=["add", "add", "mult", "const", "mix", "mix"], exp=["add", "pow", "pow"])[kind]))
            if t == "add": f = ["add", draw(st.sampled_from([-3, -2, -1, -1, 0, 1, 2]))]
            elif t == "mult": f = ["mult", draw(st.integers(2, 5)), draw(st.integers(-12, 6))]
            elif t == "const": f = ["const", draw(st.integers(1, 20))]
            elif t == "mix": f = ["mix", draw(st.integers(0, 5)), draw(st.integers(1, 3)), draw(st.integers(-3, 4)), draw(st.booleans())]
            else: f = ["pow", draw(st.integers(2, 3)), draw(st.integers(0, 3)), draw(st.integers(-6, 5))]
        lo = 1 - f[1] if f[0] == "add" and f[1] < 0 else 1
        if f[0] == "mult" and f[2] < 0: lo = -f[2] // f[1] + 1
        if f[0] == "mix": lo = max(1, 1 - f[3])
        mn = lo + draw(st.sampled_from([0, 0, 1, 3]))
        if f[0] == "pow": mn = max(mn, 3)
        over = draw(st.integers(0, 6)) if small else draw(st.one_of(st.integers(0, 12), st.integers(0, 90)))
        blocks.append(dict(k="var", min=mn, f=f, start=mn + over, sym=draw(st.integers(0, 3)) == 0))
    nv = [i for i, b in enumerate(blocks) if b["k"] == "var"]
    term = st.tuples(st.integers(0, 6), st.lists(st.sampled_from(nv), max_size=2) if nv else st.just([]), st.booleans()).map(list)
    return dict(kind=kind, nleft=nl, blocks=blocks, dir=draw(st.integers(0, 1)), steps=draw(st.lists(term, min_size=1, max_size=3)),
                seen=draw(st.lists(st.lists(term, min_size=1, max_size=2), min_size=1, max_size=3)), max_reps=2 if small else draw(st.sampled_from([1, 3, 10, 10, 40])),
                ctxblocks=[draw(st.lists(st.integers(1, 9), max_size=2)), draw(st.lists(st.integers(1, 9), max_size=2))])

TESTS = [
    Test("rule_on_tape", check_rule, strategy=rule_cases, quick=12000, thorough=250000),
    Test("meta_rules", check_rule, strategy=lambda: rule_cases(meta=True), quick=16000, thorough=300000),
    Test("series_sum", check_series, strategy=series_cases, quick=8000, thorough=100000),
    Test("rule_application", check_apply, strategy=apply_cases, quick=6000, thorough=120000),
    Test("rule_funcs", check_func, strategy=func_cases, quick=8000, thorough=100000),
]
