"""Reference semantics, written from the definition of a Turing machine (independent of /repo)."""
import ctypes, os, subprocess, hashlib, tempfile
_lib = None
def lib():
    global _lib
    if _lib is None:
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "refsim.c")
        d = os.environ.get("VERIF_SCRATCH") or tempfile.mkdtemp()
        so = os.path.join(d, "refsim.so")
        if not os.path.exists(so):
            subprocess.check_call(["gcc", "-O2", "-shared", "-fPIC", "-o", so + ".%d" % os.getpid(), src])
            os.rename(so + ".%d" % os.getpid(), so)
        L = ctypes.CDLL(so)
        L.sim_new.restype = ctypes.c_void_p
        L.sim_new.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_int32)]
        L.sim_free.argtypes = [ctypes.c_void_p]
        L.sim_run.argtypes = [ctypes.c_void_p, ctypes.c_int64]
        L.sim_score.argtypes = [ctypes.c_void_p]; L.sim_score.restype = ctypes.c_int64
        L.sim_get.argtypes = [ctypes.c_void_p, ctypes.c_int]; L.sim_get.restype = ctypes.c_int64
        L.sim_tape.argtypes = [ctypes.c_void_p, ctypes.c_char_p]
        L.sim_last_seen.argtypes = [ctypes.c_void_p, ctypes.c_int64, ctypes.POINTER(ctypes.c_int64)]
        L.sim_init.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int64, ctypes.c_int64, ctypes.c_int]
        L.sim_find.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int64, ctypes.c_int64, ctypes.c_int, ctypes.c_int64]
        L.sim_find.restype = ctypes.c_int
        L.sim_seq.argtypes = [ctypes.c_void_p, ctypes.c_int64, ctypes.POINTER(ctypes.c_uint16)]; L.sim_seq.restype = ctypes.c_int64
        _lib = L
    return _lib

def parse(s):
    """'1RB---_1LA1RZ' -> rows of (write, dir(+1/-1), next(-1 halt), undefined?).  Letters >= number of rows halt."""
    rows = s.split("_")
    ns = len(rows)
    out = []
    for r in rows:
        assert len(r) % 3 == 0
        row = []
        for i in range(0, len(r), 3):
            t = r[i:i+3]
            if t == "---":
                row.append((1, 1, -1, True))
            else:
                nx = ord(t[2]) - ord("A")
                if not (0 <= nx < ns): nx = -1
                row.append((int(t[0]), {"R": 1, "L": -1}[t[1]], nx, False))
        out.append(row)
    return out

def show(rows):
    out = []
    for r in rows:
        out.append("".join("---" if u else "%d%s%s" % (w, "R" if d > 0 else "L", "Z" if n < 0 else chr(65 + n)) for (w, d, n, u) in r))
    return "_".join(out)

class Run:
    """Incremental literal run from the blank tape."""
    def __init__(self, table):
        if isinstance(table, str): table = parse(table)
        self.table = table
        ns, nk = len(table), len(table[0])
        w = bytes(t[0] for r in table for t in r)
        d = bytes(t[1] & 0xff for r in table for t in r)
        n = (ctypes.c_int32 * (ns * nk))(*[t[2] for r in table for t in r])
        self.h = lib().sim_new(ns, nk, w, d, n)
        self.ns = ns
    def __del__(self):
        try: lib().sim_free(self.h)
        except Exception: pass
    def init(self, cells, head, state):
        """restart from the given cells (list), head index (may lie outside) and state"""
        cells = list(cells)
        if head < 0: cells = [0] * (-head) + cells; head = 0
        if head >= len(cells): cells += [0] * (head - len(cells) + 1)
        lib().sim_init(self.h, bytes(cells), len(cells), head, state); return self
    def find(self, cells, head, state, limit):
        """run on until this configuration (up to blank ends) is reached"""
        cells = list(cells)
        if head < 0: cells = [0] * (-head) + cells; head = 0
        if head >= len(cells): cells += [0] * (head - len(cells) + 1)
        return bool(lib().sim_find(self.h, bytes(cells), len(cells), head, state, limit))
    def seq(self, n):
        """run n more steps; list of table cell indexes (state*symbols+symbol) used"""
        arr = (ctypes.c_uint16 * n)()
        k = lib().sim_seq(self.h, n, arr)
        return bytes(memoryview(arr).cast("B")[:2 * k])   # two bytes per step
    def to(self, step):
        lib().sim_run(self.h, step); return self
    def _g(self, k): return lib().sim_get(self.h, k)
    steps = property(lambda s: s._g(0)); halted = property(lambda s: bool(s._g(1))); state = property(lambda s: s._g(2))
    from_state = property(lambda s: s._g(3)); from_sym = property(lambda s: s._g(4)); pos = property(lambda s: s._g(5))
    lo = property(lambda s: s._g(6)); hi = property(lambda s: s._g(7))
    @property
    def score(self): return lib().sim_score(self.h)
    def cells(self):
        lo, hi = self.lo, self.hi
        b = ctypes.create_string_buffer(hi - lo + 1)
        lib().sim_tape(self.h, b)
        return lo, list(b.raw[:hi - lo + 1])
    def tape(self):
        """dict of non-zero cells"""
        lo, c = self.cells()
        return {lo + i: v for i, v in enumerate(c) if v}
    def last_seen(self, step):
        """fresh run: last configuration index (< min(step, halt)) in which each state was current (-1: never)."""
        arr = (ctypes.c_int64 * self.ns)()
        lib().sim_last_seen(self.h, step, arr)
        return list(arr)

def run(tm, max_steps):
    return Run(tm).to(max_steps)

def mirror(table):
    return [[(w, -d, n, u) if not u else (w, d, n, u) for (w, d, n, u) in r] for r in table]
