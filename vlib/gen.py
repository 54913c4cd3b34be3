"""Hypothesis strategies for Turing machines (as standard text) and related data."""
import os, functools
from hypothesis import strategies as st
import ref
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")

SIZES = [(2, 2), (3, 2), (4, 2), (5, 2), (2, 3), (3, 3), (2, 4), (2, 5), (6, 2), (4, 3), (3, 4), (1, 2), (1, 3), (2, 6), (7, 2), (1, 5)]

@functools.lru_cache(None)
def corpus(name):
    """list of (tm, steps, score) with steps None for non-halting lists"""
    out = []
    with open(os.path.join(DATA, name)) as f:
        for line in f:
            line = line.strip()
            if line and not line.startswith("#"):
                p = line.split()
                out.append(tuple([p[0]] + [int(x) for x in p[1:]]))
    return out

def sizes(max_cells=12, max_states=7, max_symbols=6, min_states=1):
    return st.sampled_from([s for s in SIZES if s[0] * s[1] <= max_cells and s[0] <= max_states and s[1] <= max_symbols and s[0] >= min_states])

def cell(ns, nk, p_halt=1, p_undef=1, p_run=10):
    """one transition string"""
    run = st.tuples(st.integers(0, nk - 1), st.sampled_from("RL"), st.integers(0, ns - 1)).map(lambda t: "%d%s%s" % (t[0], t[1], chr(65 + t[2])))
    halt = st.tuples(st.integers(0, nk - 1), st.sampled_from("RL")).map(lambda t: "%d%sZ" % t)
    return st.integers(0, p_halt + p_undef + p_run - 1).flatmap(
        lambda k: run if k >= p_halt + p_undef else (halt if k < p_halt else st.just("---")))

@st.composite
def table_tm(draw, size=None, **kw):
    """arbitrary table"""
    ns, nk = draw(size if size is not None else sizes())
    c = cell(ns, nk, **kw)
    return "_".join("".join(draw(c) for _ in range(nk)) for _ in range(ns))

@st.composite
def walk_tm(draw, size=None, limit=60, fill=True):
    """A table built by running it: each undefined cell reached is either left (halt) or filled by a drawn running
    transition.  Mostly normal-form machines that stay alive; unreached cells are filled at random at the end."""
    ns, nk = draw(size if size is not None else sizes())
    rows = [[None] * nk for _ in range(ns)]
    maxst, maxsym = 0, 0
    tape, pos, state = {}, 0, 0
    defined, total = 0, ns * nk
    for t in range(limit):
        sym = tape.get(pos, 0)
        tr = rows[state][sym]
        if tr is None:
            if defined >= 1 and (defined >= total - 1 or draw(st.integers(0, 11)) == 0):
                break
            w = draw(st.integers(0, min(maxsym + 1, nk - 1)))
            d = draw(st.sampled_from([1, -1])) if defined else 1
            n = draw(st.integers(0, min(maxst + 1, ns - 1))) if (defined or ns == 1) else 1
            if not defined and nk > 1: w = draw(st.sampled_from([1, 1, 1, 0]))
            maxst, maxsym = max(maxst, n), max(maxsym, w)
            tr = rows[state][sym] = (w, d, n, False)
            defined += 1
        tape[pos] = tr[0]; pos += tr[1]; state = tr[2]
    hole = draw(st.sampled_from(["undef", "halt", "mixed", "rand"]))
    for r in rows:
        for i in range(nk):
            if r[i] is None:
                k = hole
                if k == "mixed": k = draw(st.sampled_from(["undef", "halt", "rand"]))
                if k == "undef": r[i] = (1, 1, -1, True)
                elif k == "halt": r[i] = (draw(st.integers(0, nk - 1)), draw(st.sampled_from([1, -1])), -1, False)
                else: r[i] = (draw(st.integers(0, nk - 1)), draw(st.sampled_from([1, -1])), draw(st.integers(0, ns - 1)), False)
    return ref.show(rows)

def corpus_tm(name="halters.txt", max_steps=None, max_cells=None):
    l = [x for x in corpus(name) if (max_steps is None or x[1] <= max_steps) and
         (max_cells is None or (x[0].count("_") + 1) * (len(x[0].split("_")[0]) // 3) <= max_cells)]
    return st.sampled_from([x[0] for x in l])

@st.composite
def mutant_tm(draw, base):
    """change one or two cells of a known machine"""
    tm = draw(base)
    rows = [[r[i:i+3] for i in range(0, len(r), 3)] for r in tm.split("_")]
    ns, nk = len(rows), len(rows[0])
    for _ in range(draw(st.integers(1, 2))):
        s, k = draw(st.integers(0, ns - 1)), draw(st.integers(0, nk - 1))
        rows[s][k] = draw(cell(ns, nk))
    return "_".join("".join(r) for r in rows)

def any_tm(max_cells=12, max_corpus_steps=5000):
    s = sizes(max_cells)
    c = corpus_tm(max_steps=max_corpus_steps, max_cells=max_cells)
    i = corpus_tm("nonhalters.txt", max_cells=max_cells)
    return st.one_of(walk_tm(s), c, table_tm(s), mutant_tm(st.one_of(c, i)), i)

@st.composite
def prefix_tm(draw, max_prefix=9):
    """A machine that first writes a drawn pattern with dedicated states, then hands over to a small drawn core
    (2-4 states) that sweeps over it.  Gives rich tapes, long repeated runs and halts that depend on one rare spot."""
    nk = draw(st.sampled_from([2, 3, 3, 4]))
    nc = draw(st.integers(1, 4))
    # pattern as runs, so repeated symbols are common
    pat = []
    while len(pat) < max_prefix and (not pat or draw(st.integers(0, 4))):
        pat += [draw(st.integers(0, nk - 1))] * draw(st.integers(1, 4))
    pat = pat[:max_prefix]
    d = draw(st.sampled_from("RL"))
    np_ = len(pat)
    rows = []
    for i, s in enumerate(pat):
        nxt = chr(65 + i + 1)
        turn = d if i + 1 < np_ else draw(st.sampled_from("RL"))
        rows.append("%d%s%s" % (s, turn, nxt) + "".join("%d%s%s" % (s, turn, nxt) for _ in range(nk - 1)))
    mode = draw(st.sampled_from(["sweep", "count", "count", "random"]))
    shift = [draw(st.integers(0, nc - 1)) for _ in range(nk)]
    keep, wrap = draw(st.booleans()), draw(st.booleans())
    if not wrap: shift = [0] * nk; shift[draw(st.integers(0, nk - 1))] = 1
    for i in range(nc):
        row = ""
        for k in range(nk):
            r = draw(st.integers(0, 9))
            if mode == "count":
                # sweep back counting symbols modulo nc; what happens at the first blank depends on the count
                fwd = "L" if d == "R" else "R"
                if k == 0:
                    e = draw(st.sampled_from(["halt", "go", "go", "turn"]))
                    row += "1RZ" if e == "halt" else "%d%s%s" % (draw(st.integers(0, nk - 1)), fwd if e == "go" else d, chr(65 + np_ + i))
                else:
                    if not wrap and shift[k] and i == nc - 1: row += draw(st.sampled_from(["1RZ", "---"]))
                    else: row += "%d%s%s" % (k if keep else draw(st.integers(0, nk - 1)), fwd, chr(65 + np_ + (i + shift[k]) % nc))
            elif mode == "sweep":
                fwd = "L" if (d == "R") == (i % 2 == 0) else "R"
                if r < 6: row += "%d%s%s" % (k if r < 4 else draw(st.integers(0, nk - 1)), fwd, chr(65 + np_ + i))
                elif r == 6: row += "1RZ"
                elif r == 7: row += "---"
                else: row += "%d%s%s" % (draw(st.integers(0, nk - 1)), "R" if fwd == "L" else "L", chr(65 + np_ + draw(st.integers(0, nc - 1))))
            else:
                if r == 6: row += "1RZ"
                else: row += "%d%s%s" % (draw(st.integers(0, nk - 1)), draw(st.sampled_from("RL")), chr(65 + np_ + draw(st.integers(0, nc - 1))))
        rows.append(row)
    return "_".join(rows)
