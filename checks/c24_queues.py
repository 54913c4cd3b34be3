"""C24: work queues.  Single-process queues against a list; the parallel queue (master and workers,
real code, one module instance per process) run over a simulated message-passing library whose
message delivery, process scheduling, cancellation and clock are driven by the generated case."""
import sys, os, io, types, random, threading, pickle, time as _time, collections
from hypothesis import strategies as st
import core
from core import Test, Violation, Rejected

PROPERTY = "C24"
RULE = "single queue: at least one pop with two or more jobs waiting and one from an empty queue; parallel queue: more jobs than one batch, and jobs moved between at least two workers"
ASSUMPTIONS = ["messages between one pair of processes are not reordered (the message-passing library guarantees it); delivery between different pairs, process speeds, the clock, buffering or blocking of sends, and whether a cancelled message still arrives are arbitrary",
    "a worker pushes the jobs that result from a job before it asks for the next one, as the callers do",
    "a cancelled but already delivered message may still be received"]
BUDGET = dict(quick=240, thorough=600)

# ---------------------------------------------------------------- simulated message passing
class Stop(BaseException): pass
real_time = _time.time
class Clock:
    active = None
def fake_time():
    w = Clock.active
    return w.now if w is not None and threading.get_ident() in w.idents else real_time()

class Status:
    source = tag = -1
    def Get_source(self): return self.source
    def Get_tag(self): return self.tag
ANY = -1
class Msg:
    __slots__ = ("src", "tag", "data", "got", "dead")
    def __init__(s, src, tag, data): s.src, s.tag, s.data, s.got, s.dead = src, tag, data, False, False
class Request:
    def __init__(s, w, m, dst): s.w, s.m, s.dst = w, m, dst
    def Cancel(s):
        if not s.m.got and s.w.rng.random() < s.w.p_cancel:
            s.m.dead = True
            for q in (s.w.flight[s.m.src, s.dst], s.w.box[s.dst]):
                if s.m in q: q.remove(s.m)
    cancel = Cancel
    def Wait(s, status=None): s.w.switch(None)
    wait = Wait
    def Test(s, status=None): s.w.switch(None); return True
    test = Test
    Free = lambda s: None

class Comm:
    def __init__(s, w, rank): s.w, s.rank = w, rank
    def Get_rank(s): return s.rank
    def Get_size(s): return s.w.n
    rank_ = property(Get_rank); size = property(Get_size)
    def _put(s, obj, dest, tag):
        m = Msg(s.rank, tag, pickle.dumps(obj)); s.w.flight[s.rank, dest].append(m); s.w.sent += 1
        return m
    def send(s, obj, dest, tag=0):
        m = s._put(obj, dest, tag)
        if s.w.rng.random() < s.w.p_block: s.w.switch(lambda: m.got)
        else: s.w.switch(None)
    def ssend(s, obj, dest, tag=0):
        m = s._put(obj, dest, tag); s.w.switch(lambda: m.got)
    def isend(s, obj, dest, tag=0):
        m = s._put(obj, dest, tag); s.w.switch(None); return Request(s.w, m, dest)
    issend = isend
    def _find(s, source, tag):
        c = [m for m in s.w.box[s.rank] if (source in (ANY, m.src)) and (tag in (ANY, m.tag))]
        if not c: return None
        if source == ANY and len(c) > 1:      # any source may win, but the earliest of that source
            src = s.w.rng.choice(sorted({m.src for m in c})); c = [m for m in c if m.src == src]
        return c[0]
    def _fill(s, m, status):
        if status is not None: status.source, status.tag = m.src, m.tag
    def recv(s, buf=None, source=ANY, tag=ANY, status=None):
        s.w.switch(lambda: s._find(source, tag) is not None)
        m = s._find(source, tag); s.w.box[s.rank].remove(m); m.got = True; s._fill(m, status)
        return pickle.loads(m.data)
    def Probe(s, source=ANY, tag=ANY, status=None):
        s.w.switch(lambda: s._find(source, tag) is not None); s._fill(s._find(source, tag), status); return True
    probe = Probe
    def Iprobe(s, source=ANY, tag=ANY, status=None):
        s.w.switch(None); m = s._find(source, tag)
        if m is None: return False
        s._fill(m, status); return True
    iprobe = Iprobe

class World:
    """n processes as threads, exactly one runs at a time; every message-passing call is a switch point."""
    def __init__(w, n, rng, c):
        w.n, w.rng, w.now, w.idents, w.sent = n, rng, 1000.0, set(), 0
        w.flight = collections.defaultdict(list); w.box = collections.defaultdict(list)
        w.p_block, w.p_cancel, w.p_deliver, w.p_clock = c["block"], c["cancel"], c["deliver"], c["clock"]
        w.speed = [rng.choice([1, 1, 3, 10, 0.1]) for _ in range(n)]
        w.main = threading.Semaphore(0); w.sems = [threading.Semaphore(0) for _ in range(n)]
        w.cond = [None] * n; w.done = [False] * n; w.error = None; w.abort = False; w.cur = None
    def switch(w, cond):
        i = w.cur; w.cond[i] = cond
        w.main.release(); w.sems[i].acquire()
        if w.abort: raise Stop()
    def body(w, i, f):
        w.sems[i].acquire(); w.idents.add(threading.get_ident())
        try:
            if not w.abort: f()
        except Stop: pass
        except BaseException as e: w.error = w.error or e
        finally:
            w.done[i] = True; w.main.release()
    def run(w, fns, limit):
        ts = [threading.Thread(target=w.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts: t.start()
        Clock.active = w
        try:
            for tick in range(limit):
                if w.error: raise w.error
                if all(w.done): return
                runnable = [i for i in range(w.n) if not w.done[i] and (w.cond[i] is None or w.cond[i]())]
                pend = [k for k in sorted(w.flight) if w.flight[k]]
                if w.rng.random() < w.p_clock: w.now += w.rng.choice([0.01, 5, 10.5, 130])
                if pend and (not runnable or w.rng.random() < w.p_deliver):
                    k = w.rng.choice(pend)
                    for _ in range(w.rng.choice([1, 1, 2, len(w.flight[k])])):
                        if w.flight[k]: w.box[k[1]].append(w.flight[k].pop(0))
                    continue
                if not runnable:
                    raise Violation("no process can go on and no message is under way (deadlock)")
                w.cur = w.rng.choices(runnable, [w.speed[i] for i in runnable])[0]
                w.cond[w.cur] = None
                w.sems[w.cur].release(); w.main.acquire()
            raise Violation("the queue had not finished after %d message operations" % limit)
        finally:
            Clock.active = None; w.abort = True
            for i in range(w.n): w.sems[i].release()
            for t in ts: t.join(5)

def load(w, rank):
    """A fresh instance of the module as process `rank` sees it."""
    if _time.time is not fake_time: _time.time = fake_time
    MPI = types.ModuleType("mpi4py.MPI")
    MPI.COMM_WORLD = Comm(w, rank); MPI.ANY_SOURCE = MPI.ANY_TAG = ANY; MPI.Status = Status
    pkg = types.ModuleType("mpi4py"); pkg.MPI = MPI
    path = os.path.join(core.CODE, "MPI_Work_Queue.py")
    global _code
    try: _code
    except NameError: _code = compile(open(path).read(), path, "exec")
    old = {k: sys.modules.get(k) for k in ("mpi4py", "mpi4py.MPI")}
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pkg, MPI
    try:
        m = types.ModuleType("MPI_Work_Queue_%d" % rank); m.__file__ = path
        exec(_code, m.__dict__)
    finally:
        for k, v in old.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    return m

# ---------------------------------------------------------------- parallel queue
def par_strategy():
    prob = st.sampled_from([0.0, 0.05, 0.3, 0.7, 0.95])
    return st.fixed_dictionaries(dict(workers=st.integers(1, 6), initial=st.one_of(st.integers(0, 6), st.integers(0, 120), st.sampled_from([19, 20, 38, 100, 300])),
        total=st.one_of(st.integers(0, 40), st.integers(0, 800)), burst=st.sampled_from([1, 2, 5, 12, 40, 90]), one=st.booleans(),
        deliver=st.sampled_from([0.05, 0.3, 0.7, 0.95]), block=st.sampled_from([0.0, 0.0, 0.3, 1.0]), cancel=prob, clock=st.sampled_from([0.0, 0.01, 0.1, 0.5]), seed=st.integers(0, 2**32)))

def parallel(c, ctx):
    rng = random.Random(c["seed"]); n = c["workers"] + 1
    w = World(n, rng, c)
    mods = [load(w, r) for r in range(n)]
    # the tree of jobs: job j has the children kids[j]
    kids = collections.defaultdict(list); size = c["initial"]; extra = min(c["total"], 800) if size else 0
    at = 0
    while extra and at < size:
        if rng.random() < 0.6 or at == size - 1:
            k = min(extra, rng.randint(1, c["burst"])); kids[at] = list(range(size, size + k)); size += k; extra -= k
        at += 1
    took, by, ended, master_done = [], {}, [], []
    def master():
        m = mods[0].Master(pout=io.StringIO())
        for j in range(c["initial"]): m.push_job(j)
        m.run_master(); master_done.append(len(took))
    def worker(r):
        def f():
            q = mods[r].MPI_Worker_Work_Queue(master_proc_num=0, pout=io.StringIO())
            prng = random.Random(c["seed"] * 31 + r)
            while True:
                j = q.pop_job()
                if j is None:
                    ended.append((r, len(took))); return
                took.append(j); by[j] = r
                k = list(kids.get(j, ())) if isinstance(j, int) else []
                if c["one"]:
                    for x in k: q.push_job(x)
                else:
                    while k:
                        i = prng.randint(1, len(k)); part, k = k[:i], k[i:]
                        q.push_jobs(part); del part[:]
                    if prng.random() < 0.2: q.push_jobs([])
                w.switch(None)
        return f
    w.run([master] + [worker(r) for r in range(1, n)], 60000)
    cnt = collections.Counter(took)
    twice = [j for j in cnt if cnt[j] > 1]
    if twice: raise Violation("jobs handed out more than once: %r" % (twice[:5],))
    lost = [j for j in range(size) if j not in cnt]
    for r, t in ended:
        if t < size: raise Violation("worker %d was told that no job is left after %d of %d jobs" % (r, t, size))
    if lost: raise Violation("%d of %d jobs were never handed out: %r" % (len(lost), size, lost[:5]))
    if len(cnt) != size: raise Violation("jobs that were never pushed were handed out: %r" % ([j for j in cnt if not (isinstance(j, int) and 0 <= j < size)][:5],))
    if len(ended) != n - 1 or not master_done: raise Violation("not every process ended")
    parent = {x: p for p in kids for x in kids[p]}
    moved = sum(1 for x, p in parent.items() if by[x] != by[p])
    if moved: ctx.label("job moved to another worker")
    if size > 25 and moved and len(set(by.values())) > 1: ctx.nontrivial()

# ---------------------------------------------------------------- single-process queues
JOBS = st.one_of(st.integers(-3, 3), st.sampled_from(["", "a", [], [1], 0, False, {}]))
def seq_strategy():
    op = st.one_of(st.just(["pop"]), st.just(["pop"]), st.tuples(st.just("push"), JOBS).map(list), st.tuples(st.just("all"), st.lists(JOBS, max_size=6)).map(list), st.tuples(st.just("iter"), st.lists(JOBS, max_size=6)).map(list), st.just(["stats"]), st.just(["print"]))
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["LIFO", "FIFO"]), ops=st.lists(op, min_size=1, max_size=60), drain=st.booleans()))
def sequential(c, ctx):
    import Work_Queue
    lifo = c["kind"] == "LIFO"
    q = Work_Queue.Basic_LIFO_Work_Queue() if lifo else Work_Queue.Basic_FIFO_Work_Queue()
    model, deep, empty, n, lo, hi = [], False, False, 0, 0, 0
    def pop():
        nonlocal deep, empty
        got = q.pop_job()
        if not model:
            empty = True
            if got is not None: raise Violation("an empty queue returned %r" % (got,))
            return
        deep |= len(model) > 1
        want = model.pop() if lifo else model.pop(0)
        if got is not want: raise Violation("popped %r, next in %s order is %r" % (got, c["kind"], want))
    def job(x):
        nonlocal n
        n += 1; return (n, x) if n % 3 else (x if not isinstance(x, (int, str)) else [x])
    for op in c["ops"]:
        if op[0] == "pop": pop()
        elif op[0] == "push": x = job(op[1]); q.push_job(x); model.append(x)
        elif op[0] in ("all", "iter"):
            xs = [job(x) for x in op[1]]
            given = list(xs) if op[0] == "all" else tuple(xs)
            q.push_jobs(given); model += xs
            if op[0] == "all": given[:] = []
        elif op[0] == "stats" and lifo:
            s, a, b = q.get_stats()
            if not a <= s <= b: raise Violation("queue statistics out of order: size %r min %r max %r" % (s, a, b))
        elif op[0] == "print": q.print_stats()
    if c["drain"]:
        while model: pop()
        pop()
    if deep and empty: ctx.nontrivial()

# ---------------------------------------------------------------- enumeration over a queue: order does not matter
TESTS = [Test("single", sequential, strategy=seq_strategy, quick=12000, thorough=200000),
    Test("parallel", parallel, strategy=par_strategy, quick=3000, thorough=60000)]
