"""Symbolic configurations of the Rust library: text form, and the concrete tapes they denote.
A configuration is {"left": blocks, "right": blocks, "state": "A", "dir": "L"|"R"}; blocks are [word, count], farthest
from the head first, the last symbol of a word closest to the head."""
import re
import rustdrv
from core import Violation, Rejected
from rustdrv import enc, enc_subst, tup, val, read
MAXCELLS = 4000

def text(c):
    """driver form: text, iterated counts through placeholder variables"""
    used = set(); ph = {}
    for h in ("left", "right"):
        for w, e in c[h]:
            e = tup(e)
            if e != "inf" and e[0] == "V": used |= set(e[1])
    free = [v for v in "zyxwvutsrqpomlkjihgfedcban" if v not in used]
    def blocks(h, rev):
        out = []
        for w, e in c[h]:
            e = tup(e)
            if e == "inf": n = "inf"
            elif e[0] == "V": n = show(e)
            else:
                n = free.pop(0); ph[n] = e
            if rev: w = w[::-1]
            out.append(w if n == "1" else "%s^%s" % (w, n))
        return " ".join(out[::-1] if rev else out)
    head = " <%s " % c["state"] if c["dir"] == "L" else " %s> " % c["state"]
    t = blocks("left", False) + head + blocks("right", True)
    return t + ("@" + enc_subst(ph) if ph else "")
ORDER = "nabcdefghijklmopqrstuvwxyz"
def show(e):
    ts = [("%d%s" % (k, v) if k != 1 else v) for v, k in sorted(e[1].items(), key=lambda x: ORDER.index(x[0])) if k]
    if e[2] or not ts: ts.append(str(e[2]))
    return "+".join(ts)

def split(t):
    out, depth, cur = [], 0, ""
    for ch in t:
        if ch == " " and not depth:
            if cur: out.append(cur)
            cur = ""
        else:
            depth += (ch == "(") - (ch == ")"); cur += ch
    if cur: out.append(cur)
    return out
def parse(t):
    """printed configuration -> configuration"""
    ws = split(t)
    k = [i for i, w in enumerate(ws) if re.fullmatch(r"<.|.>", w)]
    if len(k) != 1: raise Violation("cannot read the printed configuration %r" % t)
    k = k[0]; h = ws[k]
    def block(w, rev):
        m = re.fullmatch(r"([0-9]+)(?:\^(.+))?", w)
        if not m: raise Violation("cannot read the printed configuration %r" % t)
        return [m.group(1)[::-1] if rev else m.group(1), read(m.group(2)) if m.group(2) else ("V", {}, 1)]
    return dict(left=[block(w, False) for w in ws[:k]], right=[block(w, True) for w in ws[:k:-1]],
                state=h.strip("<>"), dir="L" if h[0] == "<" else "R")

class Conc:
    """concrete half tapes, nearest cell last; tail: repeating word (farthest part), written like a block, or None"""
    def __init__(s, l, lt, r, rt, state, dir): s.h, s.t, s.state, s.dir = [l, r], [lt, rt], state, dir
    def copy(s): return Conc(s.h[0][:], s.t[0], s.h[1][:], s.t[1], s.state, s.dir)
def half(blocks, env):
    cells, tail = [], None
    for w, e in blocks:
        n = val(tup(e), env)
        if n == float("inf"):
            if cells or tail: raise Rejected()
            tail = [int(x) for x in w]; continue
        if n * len(w) + len(cells) > MAXCELLS: raise Rejected()
        cells += [int(x) for x in w] * n
    return cells, tail
def conc(c, env):
    l, lt = half(c["left"], env); r, rt = half(c["right"], env)
    return Conc(l, lt, r, rt, c["state"], 0 if c["dir"] == "L" else 1)
def wide(cells, tail, n):
    """the n cells closest to the head (nearest last), extending into the tail"""
    k = max(0, -(-(n - len(cells)) // len(tail)))
    return (tail * k + cells)[-n:] if n else []
def same_half(a, at, b, bt):
    if (at is None) != (bt is None): return False
    if at is None: return a == b
    n = max(len(a), len(b)) + len(at) * len(bt) + len(at) + len(bt)
    return wide(a, at, n) == wide(b, bt, n)
def same(x, y): return x.state == y.state and x.dir == y.dir and all(same_half(x.h[i], x.t[i], y.h[i], y.t[i]) for i in (0, 1))
def minus(a, at, b, bt):
    """what is left of half tape a after removing b from its head end, or None"""
    if bt is not None: return ([], None) if same_half(a, at, b, bt) else None
    if at is None:
        return (a[:len(a) - len(b)], None) if len(b) <= len(a) and a[len(a) - len(b):] == b else None
    k = len(b) + len(at) - len(b) % len(at) if len(b) > len(a) else len(a)
    n = len(b) + len(a) + len(at); n += (len(a) - n) % len(at)
    w = wide(a, at, n)
    return (w[:len(w) - len(b)], at) if w[len(w) - len(b):] == b else None
def sh(x): return "%s%s %s %s%s" % ("(%s)*" % x.t[0] if x.t[0] else "", "".join(map(str, x.h[0])), "<" + x.state if x.dir == 0 else x.state + ">", "".join(map(str, x.h[1][::-1])), "(%s)*" % x.t[1][::-1] if x.t[1] else "")

def table(tm):
    rows = []
    for r in tm.split("_"): rows.append([None if r[i] == "-" else (int(r[i]), 0 if r[i + 1] == "L" else 1, r[i + 2]) for i in range(0, len(r), 3)])
    return rows
def run(tab, x, n):
    """n steps; returns the number of steps made before it cannot go on (n: all)"""
    for i in range(n):
        if x.state == "Z": return i
        h = x.h[x.dir]
        if not h:
            if x.t[x.dir] is None: return i
            h.extend(x.t[x.dir])
        t = tab[ord(x.state) - 65][h[-1]]
        if t is None: return i
        h.pop(); x.state, x.dir = t[2], t[1]; x.h[1 - x.dir].append(t[0])
    return n
