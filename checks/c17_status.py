"""C17: values stored in a status come back unchanged; the status interface is model-checked over call sequences."""
import os
from hypothesis import strategies as st
from core import Test, Violation, Rejected

PROPERTY = "C17"
RULE = "a stored value of at least 2^62 or in exponential form that went through serialised bytes; or a history of at least two status writes"
ASSUMPTIONS = ["fields that are documented as meaningful only for the other verdict are not compared",
    "a value nested too deeply for the interpreter's recursion limit may be refused with RecursionError, never altered"]
BUDGET = dict(quick=240, thorough=600)

def ints():
    edge = [s * (2**k + d) for k in (31, 32, 62, 63, 64, 65, 128, 1000, 5000, 70000) for d in (-2, -1, 0, 1, 2) for s in (1, -1)]
    return st.one_of(st.integers(-300, 300), st.sampled_from(edge), st.integers(-2**70, 2**70), st.integers(0, 2**200), st.integers(0, 10**30).map(lambda n: 10**n.bit_length() * 7 + n))
def enc(strategy): return strategy.map(lambda v: hex(v))

@st.composite
def expo(draw, depth):
    """["e", base, [[coef, exponent], ...], const, denom]: (sum coef*base^exponent + const)/denom made integral by the builder"""
    base = draw(st.sampled_from([2, 3, 4, 5, 6, 7, 8, 10, 12, 97]))
    terms = [[draw(st.one_of(st.integers(-9, 9), st.integers(-2**70, 2**70)).filter(bool)), draw(exponent(depth))] for _ in range(draw(st.integers(1, 3)))]
    return ["e", base, terms, draw(st.one_of(st.integers(-20, 20), st.integers(-2**80, 2**80))), draw(st.sampled_from([1, 1, 2, 3, 6, 7]))]
@st.composite
def exponent(draw, depth):
    if depth and draw(st.integers(0, 2)): 
        return ["e", draw(st.sampled_from([2, 3, 5, 7, 10])), [[draw(st.integers(1, 9)), draw(exponent(depth - 1))]], draw(st.integers(0, 50)), 1]
    return draw(st.one_of(st.integers(1, 30), st.sampled_from([999, 1000, 1001, 5000, 2**63, 2**64 + 1])))
def make(t, E):
    if isinstance(t, int): return t
    if isinstance(t, str): return int(t, 16)
    if t[0] == "deep":
        x = t[2]
        for _ in range(t[1]): x = t[4] * E.exp_int(t[3], x) + t[5]
        return x
    _, b, terms, c, d = t
    x = c
    for co, ex in terms: x = x + co * E.exp_int(b, make(ex, E))
    if d != 1 and not isinstance(x, int): x = (x - x % d) / d
    return x
def values(): return st.one_of(enc(ints()), expo(0), expo(1), expo(2), st.builds(lambda n, s, b, k, c: ["deep", n, s, b, k, c], st.integers(1, 60), st.integers(1, 2000), st.sampled_from([2, 3, 5, 7]), st.integers(1, 20), st.integers(0, 9)))
def same(a, b, E):
    if isinstance(a, int) or isinstance(b, int): return isinstance(a, int) and isinstance(b, int) and a == b
    return E.struct_eq(a, b) and str(a) == str(b) and all(a % m == b % m for m in (7, 64, 45)) and a.tower_value == b.tower_value and a.sign == b.sign
def sh(x): return (hex(x) if isinstance(x, int) else str(x))[:200]
def get(v, E):
    try: return make(v, E)
    except E.ExpIntException: raise Rejected()

def roundtrip(c, ctx):
    import Halting_Lib as H, Exp_Int as E, io_pb2
    x = get(c["v"], E)
    f = io_pb2.BigInt()
    if c["dirty"] is not None: H.set_big_int(f, get(c["dirty"], E))
    try: H.set_big_int(f, x)
    except RecursionError: ctx.label("refused"); return
    except (ValueError, OverflowError):
        if isinstance(x, int) and x < 0: ctx.label("negative refused"); return
        raise
    g = io_pb2.BigInt(); g.ParseFromString(f.SerializeToString())
    for h in (f, g):
        y = H.get_big_int(h)
        if y is None or not same(x, y, E): raise Violation("stored %s, read %s" % (sh(x), sh(y)))
    if not isinstance(x, int) or abs(x) >= 2**62: ctx.nontrivial(sh(x))
    if not isinstance(x, int):
        # the message form of exponential integers
        m = io_pb2.BigInt(); H.serialize_exp_int(x, m.exp_int)
        g = io_pb2.BigInt(); g.ParseFromString(m.SerializeToString())
        y = H.get_big_int(g)
        if y is None or not same(x, y, E): raise Violation("message form: stored %s, read %s" % (sh(x), sh(y)))
        # older files: small coefficients and constants in their own fields
        def old(ei):
            if ei.HasField("const") and ei.const.WhichOneof("big_int") == "int": ei.const_old = ei.const.int; ei.ClearField("const")
            for t in ei.terms:
                if t.coef.WhichOneof("big_int") == "int": t.coef_old = t.coef.int; t.ClearField("coef")
                if t.exponent.WhichOneof("big_int") == "int" and t.exponent.int >= 0: n = t.exponent.int; t.exponent.uint_old = n
        old(m.exp_int)
        y = H.get_big_int(m)
        if y is None or not same(x, y, E): raise Violation("old message form: stored %s, read %s" % (sh(x), sh(y)))
    elif 0 <= x < 2**64:
        f = io_pb2.BigInt(); f.uint_old = x
        if H.get_big_int(f) != x: raise Violation("old unsigned form of %d read as %r" % (x, H.get_big_int(f)))
    if H.get_big_int(io_pb2.BigInt()) is not None: raise Violation("unset value read as %r" % H.get_big_int(io_pb2.BigInt()))

# ---- histories of status writes --------------------------------------------------------
@st.composite
def history(draw):
    v = lambda: draw(st.one_of(enc(ints().map(abs)), enc(st.integers(0, 2000)), expo(1)))
    opt = lambda s: draw(st.one_of(st.none(), s))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["halt", "inf", "notquasi", "recur", "recur", "io"]))
        if k == "halt": ops.append([k, v(), v(), opt(st.integers(0, 9)), opt(st.integers(0, 9))])
        elif k == "inf": ops.append([k, draw(st.integers(0, 12))])
        elif k == "notquasi" or k == "io": ops.append([k])
        else:
            n = draw(st.integers(1, 6))
            seen = opt(st.dictionaries(st.integers(0, 5).map(str), st.one_of(st.integers(0, 40), st.integers(0, 2**70)), max_size=6))
            ops.append([k, opt(st.lists(st.integers(0, 5), max_size=6)), seen])
    return ops
def histfn(ops, ctx):
    import Halting_Lib as H, Exp_Int as E, io_pb2
    s = io_pb2.BBStatus(); reasons = [x.number for x in io_pb2.InfReason.DESCRIPTOR.values]
    halt = None; quasi = None
    for op in ops:
        k = op[0]
        if k == "halt":
            a, b = get(op[1], E), get(op[2], E)
            for x in (a, b):
                if not isinstance(x, int) and x.sign < 0 or isinstance(x, int) and x < 0: raise Rejected()
            H.set_halting(s, a, b, op[3], op[4])
            halt = ("halt", a, b, op[3] if op[3] is not None else (halt[3] if halt and halt[0] == "halt" else None), op[4] if op[4] is not None else (halt[4] if halt and halt[0] == "halt" else None)); quasi = ("no",)
        elif k == "inf":
            r = reasons[op[1] % len(reasons)]; H.set_not_halting(s, r); halt = ("inf", r)
        elif k == "notquasi": H.set_not_quasihalting(s); quasi = ("no",)
        elif k == "recur":
            seen = None if op[2] is None else {int(a): b for a, b in op[2].items()}
            H.set_inf_recur(s, op[1], None if seen is None else dict(seen))
            if op[1] is None or seen is None: quasi = None
            else:
                left = {a: b for a, b in seen.items() if a not in op[1]}
                if not left: quasi = ("no",)
                else: quasi = ("yes", max(left.values()) + 1, {a for a, b in left.items() if b == max(left.values())})
        else:
            t = io_pb2.BBStatus(); t.ParseFromString(s.SerializeToString()); s = t
        h, q = s.halt_status, s.quasihalt_status
        if h.is_decided != (halt is not None): raise Violation("halting decided=%r after %r" % (h.is_decided, op))
        if halt:
            if h.is_halting != (halt[0] == "halt"): raise Violation("is_halting=%r after %r" % (h.is_halting, ops))
            if halt[0] == "halt":
                for name, f, x in (("steps", h.halt_steps, halt[1]), ("score", h.halt_score, halt[2])):
                    if not same(x, H.get_big_int(f), E): raise Violation("%s is %s, stored %s" % (name, sh(H.get_big_int(f)), sh(x)))
                if halt[3] is not None and h.from_state != halt[3] or halt[4] is not None and h.from_symbol != halt[4]: raise Violation("halting transition (%r,%r), stored %r" % (h.from_state, h.from_symbol, halt[3:]))
            elif h.inf_reason != halt[1]: raise Violation("reason %r, stored %r" % (h.inf_reason, halt[1]))
        if q.is_decided != (quasi is not None): raise Violation("quasihalting decided=%r after %r" % (q.is_decided, op))
        if quasi:
            if q.is_quasihalting != (quasi[0] == "yes"): raise Violation("is_quasihalting=%r after %r" % (q.is_quasihalting, op))
            if quasi[0] == "yes":
                if H.get_big_int(q.quasihalt_steps) != quasi[1] or q.quasihalt_state not in quasi[2]:
                    raise Violation("quasihalt (%r, state %r), expected (%r, %r)" % (H.get_big_int(q.quasihalt_steps), q.quasihalt_state, quasi[1], quasi[2]))
    if len(ops) >= 2: ctx.nontrivial()

# ---- through a record file -----------------------------------------------------------------
@st.composite
def filecase(draw): return dict(vals=draw(st.lists(st.tuples(values(), values()), min_size=1, max_size=4)), gz=draw(st.booleans()))
def filefn(c, ctx):
    import Halting_Lib as H, Exp_Int as E, IO, TM_Enum
    from IO import TM_Record, Proto
    import recs
    vals = []
    for a, b in c["vals"]:
        a, b = get(a, E), get(b, E)
        if any((x < 0 if isinstance(x, int) else x.sign < 0) for x in (a, b)): raise Rejected()
        vals.append((a, b))
    p = os.path.join(recs.fresh(ctx), "x.pb" + (".gz" if c["gz"] else ""))
    with Proto.Writer(p) as w:
        for a, b in vals:
            r = TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm("1RB1LB_1LA1RZ"), allow_no_halt=False))
            H.set_halting(r.proto.status, a, b, 1, 1); w.write_record(r)
    with Proto.Reader(p) as rd: back = list(rd)
    if len(back) != len(vals): raise Violation("%d records back of %d" % (len(back), len(vals)))
    for r, (a, b) in zip(back, vals):
        h = r.proto.status.halt_status
        x, y = H.get_big_int(h.halt_steps), H.get_big_int(h.halt_score)
        if not (h.is_decided and h.is_halting) or not same(a, x, E) or not same(b, y, E): raise Violation("wrote %s, %s; read %s, %s" % (sh(a), sh(b), sh(x), sh(y)))
    ctx.nontrivial()

@st.composite
def rt(draw): return dict(v=draw(values()), dirty=draw(st.one_of(st.none(), values())))
TESTS = [Test("roundtrip", roundtrip, strategy=rt, quick=12000, thorough=80000,
              examples=[dict(v=["deep", 400, 138, 5, 13, 1], dirty=None), dict(v=["deep", 5000, 138, 5, 13, 1], dirty=None)]),
         Test("history", histfn, strategy=history, quick=15000, thorough=200000),
         Test("files", filefn, strategy=filecase, quick=1500, thorough=15000)]
