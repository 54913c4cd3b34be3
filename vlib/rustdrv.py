"""Builds the Rust library of the current tree (scratch copy, offline stand-in for enum-map) with a line-protocol driver,
and talks to it.  Expressions are Python tuples: ('V', {var: coef}, const), ('R', var, f, reps, base), 'inf'."""
import os, shutil, subprocess, select, re
import core
from core import Violation, Rejected
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rust")

def build(scratch):
    d = os.path.join(scratch, "rs"); os.makedirs(d)
    for x in ("enum-map", "enum-map-derive"): shutil.copytree(os.path.join(HERE, x), os.path.join(d, x))
    shutil.copytree(os.path.join(core.REPO, "rust", "src"), os.path.join(d, "src"))
    with open(os.path.join(d, "src", "validator.rs"), "a") as f: f.write(open(os.path.join(HERE, "harness.rs")).read())
    os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True); shutil.copy(os.path.join(HERE, "driver.rs"), os.path.join(d, "src", "bin", "vp_driver.rs"))
    open(os.path.join(d, "Cargo.toml"), "w").write('[package]\nname = "busy_beaver"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nenum-map = { path = "enum-map" }\nregex = "1"\nthiserror = "1"\n[profile.dev]\nopt-level = 2\ndebug = false\n')
    p = subprocess.run(["cargo", "build", "--offline", "--bin", "vp_driver"], cwd=d, capture_output=True, text=True, env=dict(os.environ, CARGO_NET_OFFLINE="true"))
    if p.returncode: return "the Rust library does not build with the driver:\n" + p.stderr[-3000:]
    os.environ["VERIF_RS"] = os.path.join(d, "target", "debug", "vp_driver")
    return None

class Panic(Exception): pass
_p = None
def ask(*fields, timeout=30):
    """one command; returns the answer fields after 'ok'.  'err' -> ValueError, panic -> Panic, no answer -> Violation"""
    global _p
    line = "\t".join(fields)
    assert "\n" not in line
    if _p is None or _p.poll() is not None:
        _p = subprocess.Popen([os.environ["VERIF_RS"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    _p.stdin.write(line.encode() + b"\n"); _p.stdin.flush()
    buf = b""
    while not buf.endswith(b"\n"):
        r, _, _ = select.select([_p.stdout], [], [], timeout)
        if not r:
            _p.kill(); _p = None
            raise Violation("no answer within %d s to %r" % (timeout, fields))
        x = os.read(_p.stdout.fileno(), 1 << 16)
        if not x: _p = None; raise Violation("the library crashed on %r" % (fields,))
        buf += x
    kind, _, rest = buf.decode().rstrip("\n").partition("\t")
    if kind == "ok": return rest.split("\t")
    if kind == "err": raise ValueError(rest)
    raise Panic("%s on %r" % (rest, fields))

# ---------------------------------------------------------------- expressions
def V(const=0, **vs): return ("V", dict(vs), const)
def enc(e):
    if e == "inf": return "I"
    if e[0] == "V": return "V %d %s %d" % (len(e[1]), " ".join("%s %d" % (k, e[1][k]) for k in sorted(e[1])), e[2])
    return "R %s %s %s %s" % (e[1], enc(e[2]), enc(e[3]), enc(e[4]))
def enc_subst(s): return " ".join("%s %s" % (k, enc(s[k])) for k in sorted(s))
def tup(e): return e if e == "inf" else ("V", dict(e[1]), e[2]) if e[0] == "V" else ("R", e[1], tup(e[2]), tup(e[3]), tup(e[4]))   # from JSON

class P:
    def __init__(s, t): s.t, s.i = t, 0
    def eat(s, x):
        if not s.t.startswith(x, s.i): raise Violation("cannot read the printed expression %r at %d" % (s.t, s.i))
        s.i += len(x)
    def count(s):
        if s.t.startswith("inf", s.i): s.i += 3; return "inf"
        if s.t.startswith("(", s.i):
            s.eat("("); r = s.rec(); s.eat(")"); return r
        m = re.compile(r"[0-9a-z+]+|(?:[0-9+]*<x\d+>[0-9a-z+]*)+").match(s.t, s.i)
        if not m: raise Violation("cannot read the printed expression %r at %d" % (s.t, s.i))
        s.i = m.end(); return varsum(m.group())
    def rec(s):
        par = s.t.startswith("(", s.i)
        if par: s.eat("(")
        v, f = s.fun()
        n = V(1)
        if par: s.eat(")^"); n = s.count()
        s.eat(" "); return ("R", v, f, n, s.count())
    def fun(s):
        s.eat("λ"); m = re.compile(r"[a-z]|<x\d+>").match(s.t, s.i); s.i = m.end(); s.eat(".")
        return m.group(), s.count()
def varsum(t):
    vs, c = {}, 0
    for p in t.split("+"):
        m = re.fullmatch(r"(\d*)([a-z]|<x\d+>)", p)
        if m: vs[m.group(2)] = vs.get(m.group(2), 0) + (int(m.group(1)) if m.group(1) else 1)
        elif re.fullmatch(r"\d+", p): c += int(p)
        else: raise Violation("cannot read the printed sum %r" % t)
    return ("V", vs, c)
def read(t):
    p = P(t); r = p.count()
    if p.i != len(t): raise Violation("cannot read the printed expression %r" % t)
    return r
def read_fun(t):
    p = P(t); r = p.fun()
    if p.i != len(t): raise Violation("cannot read the printed function %r" % t)
    return r

CAP = 10 ** 12
def val(e, env, fuel=None):
    """numeric value; Rejected when too large to iterate"""
    fuel = fuel if fuel is not None else [4000]
    if e == "inf": return float("inf")
    if e[0] == "V":
        r = e[2] + sum(c * env[v] for v, c in e[1].items())
        if r > CAP: raise Rejected()
        return r
    n, x = val(e[3], env, fuel), val(e[4], env, fuel)
    for _ in range(n):
        fuel[0] -= 1
        if fuel[0] < 0: raise Rejected()
        x = val(e[2], dict(env, **{e[1]: x}), fuel)
    return x
def free(e):
    if e == "inf": return set()
    if e[0] == "V": return {v for v in e[1]}
    return (free(e[2]) - {e[1]}) | free(e[3]) | free(e[4])
