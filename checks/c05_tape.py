import math
from hypothesis import strategies as st
import core, gen
from core import Test, Violation, Rejected
core.setup_paths()
from Macro import Tape, Simulator, Turing_Machine
import Direct_Simulator

PROPERTY = "C05"
RULE = ("case = initial contents plus a sequence of tape operations (single move, chain move, copy, switch to a copy, reads); after every operation the tape is "
        "expanded and compared with an array model.  Non-trivial = the sequence contains a merge, a split of a run, a chain move or a copy followed by edits")
BUDGET = dict(quick=200, thorough=1500)

class Model:
    """two stacks of single cells, nearest last; blanks beyond"""
    def __init__(self, blank, d):
        self.h = [[], []]; self.dir = d; self.blank = blank
    def copy(self):
        m = Model(self.blank, self.dir); m.h = [list(self.h[0]), list(self.h[1])]; return m
    def pop(self, d): return self.h[d].pop() if self.h[d] else self.blank
    def top(self): return self.h[self.dir][-1] if self.h[self.dir] else self.blank
    def norm(self, d):
        l = self.h[d]; i = 0
        while i < len(l) and l[i] == self.blank: i += 1
        return l[i:]

def sym(k, kind):
    if kind == "int": return k
    return Turing_Machine.Block_Symbol((k % 2, k // 2 % 2))

def eval_symbol(s):
    return (s != 0) if isinstance(s, int) else sum(1 for x in s if x)

def expand(tape, d, blank):
    bl = list(tape.tape[d])
    if bl[0].num != math.inf: raise Violation("outermost run not infinite: %r" % bl)
    if bl[0].symbol != blank: raise Violation("outermost run not blank: %r" % bl)
    prev = None
    out = []
    for i, b in enumerate(bl):
        if prev is not None and prev == b.symbol: raise Violation("adjacent runs of equal symbol: %r" % bl)
        prev = b.symbol
        if i:
            if not isinstance(b.num, int) or b.num <= 0: raise Violation("bad run length %r in %r" % (b.num, bl))
            out += [b.symbol] * b.num
    return out

def compare(tape, m, what):
    for d in (0, 1):
        e = expand(tape, d, m.blank)
        i = 0
        while i < len(e) and e[i] == m.blank: i += 1
        if i: raise Violation("blank run next to the infinite blank: %r" % tape.tape[d])
        if e[i:] != m.norm(d):
            raise Violation("%s: side %d is %r, should be %r" % (what, d, e, m.norm(d)))
    if tape.dir != m.dir: raise Violation("%s: direction %r, should be %r" % (what, tape.dir, m.dir))
    if tape.get_top_symbol() != m.top(): raise Violation("%s: top symbol %r, should be %r" % (what, tape.get_top_symbol(), m.top()))
    nz = tape.get_nonzeros(eval_symbol, 3)
    want = 3 + sum(eval_symbol(s) for d in (0, 1) for s in m.h[d])
    if nz != want: raise Violation("%s: non-zero count %r, should be %r" % (what, nz, want))
    runs = 0
    for d in (0, 1):
        runs += 1; p = m.blank
        for s in m.norm(d):
            if s != p: runs += 1
            p = s
    if tape.compressed_size() != runs: raise Violation("%s: compressed size %r, should be %d" % (what, tape.compressed_size(), runs))

def check(case, ctx):
    kind = case["kind"]
    blank = sym(0, kind)
    t = Tape.Chain_Tape(); t.init(blank, case["dir"], Simulator.create_default_options())
    m = Model(blank, case["dir"])
    for d in (0, 1):
        for k, n in case["init"][d]:
            s = sym(k, kind)
            if s == t.tape[d][-1].symbol: continue
            t.tape[d].append(Tape.Repeated_Symbol(s, n)); m.h[d] += [s] * n
    compare(t, m, "initial")
    tapes = [(t, m)]
    cur = 0
    interesting = False
    for op in case["ops"]:
        t, m = tapes[cur]
        if op[0] == "move":
            s = sym(op[1], kind); d = op[2]
            m.pop(m.dir); m.h[1 - d].append(s); m.dir = d
            t.apply_single_move(s, d)
        elif op[0] == "chain":
            s = sym(op[1], kind); cur_sym = m.top()
            if not m.norm(m.dir):
                r = t.apply_chain_move(s)
                if r != math.inf: raise Violation("chain move over the infinite blank reports %r" % r)
            else:
                n = 0
                l = m.h[m.dir]
                lo = len(l) - len(m.norm(m.dir))
                while len(l) > lo and l[-1] == cur_sym: l.pop(); n += 1
                m.h[1 - m.dir] += [s] * n
                r = t.apply_chain_move(s)
                if r != n: raise Violation("chain move over %d cells reports %r" % (n, r))
            interesting = True
        elif op[0] == "copy":
            c = t.copy()
            if not (c == t): raise Violation("copy differs from original")
            if len(tapes) < 4: tapes.append((c, m.copy()))
        elif op[0] == "switch":
            cur = op[1] % len(tapes); interesting = True
        compare(*tapes[cur], repr(op))
        t, m = tapes[cur]
        for u, n in tapes:
            if u is not t and (t == u) and (m.dir != n.dir or any(m.norm(d) != n.norm(d) for d in (0, 1))):
                raise Violation("%r: tapes %r and %r compare equal" % (op, t, u))
    for i, (t, m) in enumerate(tapes):
        compare(t, m, "final state of copy %d" % i)
    if interesting and len(case["ops"]) >= 3: ctx.nontrivial()

def cases():
    k = st.integers(0, 3)
    op = st.one_of(st.tuples(st.just("move"), k, st.integers(0, 1)), st.tuples(st.just("move"), k, st.integers(0, 1)), st.tuples(st.just("chain"), k), st.tuples(st.just("copy")), st.tuples(st.just("switch"), st.integers(0, 3)))
    half = st.lists(st.tuples(k, st.integers(1, 9)), max_size=5)
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["int", "block"]), dir=st.integers(0, 1), init=st.tuples(half, half), ops=st.lists(op, min_size=1, max_size=40)))

def check_direct(case, ctx):
    t = Direct_Simulator.DirectTape(0); tapes = [[t, {}, 0, 0, 0]]  # tape, cells, pos, lo, hi
    cur = 0
    for op in case:
        T = tapes[cur]
        t, cells, pos, lo, hi = T
        if op[0] == "write": t.write(op[1]); cells[pos] = op[1]
        elif op[0] == "move":
            for _ in range(op[2]):
                t.move(op[1]); pos += 1 if op[1] else -1
                lo, hi = min(lo, pos), max(hi, pos)
        elif op[0] == "write_pos":
            t.write_pos(op[1], op[2]); cells[op[2]] = op[1]; lo, hi = min(lo, op[2]), max(hi, op[2])
        elif op[0] == "copy":
            if len(tapes) < 4: tapes.append([t.copy(), dict(cells), pos, lo, hi])
        elif op[0] == "switch": cur = op[1] % len(tapes)
        T[2:] = [pos, lo, hi]
        for t, cells, pos, lo, hi in tapes:
            if t.position != pos: raise Violation("position %r, should be %d after %r" % (t.position, pos, op))
            if t.read() != cells.get(pos, 0): raise Violation("reads %r, should be %r after %r" % (t.read(), cells.get(pos, 0), op))
            if (t.pos_leftmost(), t.pos_rightmost()) != (lo, hi): raise Violation("extent %r, should be %r after %r" % ((t.pos_leftmost(), t.pos_rightmost()), (lo, hi), op))
            for p in range(lo - 2, hi + 3):
                if t.read_pos(p) != cells.get(p, 0): raise Violation("cell %d is %r, should be %r after %r" % (p, t.read_pos(p), cells.get(p, 0), op))
            if t.count_nonzero() != sum(1 for v in cells.values() if v): raise Violation("non-zero count %r after %r" % (t.count_nonzero(), op))
    if len(case) >= 3: ctx.nontrivial()

def cases_direct():
    op = st.one_of(st.tuples(st.just("write"), st.integers(0, 3)), st.tuples(st.just("move"), st.integers(0, 1), st.integers(1, 5)), st.tuples(st.just("write_pos"), st.integers(0, 3), st.integers(-15, 15)),
                   st.tuples(st.just("copy")), st.tuples(st.just("switch"), st.integers(0, 3)))
    return st.lists(op, min_size=1, max_size=25)

TESTS = [
    Test("chain_tape", check, strategy=cases, quick=16000, thorough=300000),
    Test("direct_tape", check_direct, strategy=cases_direct, quick=5000, thorough=80000),
]
