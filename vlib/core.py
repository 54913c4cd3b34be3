"""Shared machinery: declare tests, run them sharded under Hypothesis, shrink, replay, evidence.

A check module (checks/cNN.py) defines
    PROPERTY, RULE, TESTS = [Test(...), ...], optional setup(scratch) run once in the parent.
A Test has a strategy producing plain JSON data (so a shrunk failure is saved as JSON and
replayed without Hypothesis) and fn(case, ctx), which raises Violation when the property
is broken.  ctx.nontrivial(key) marks the case as non-trivial.
"""
import sys, os, json, time, signal, hashlib, traceback, resource, random, tempfile, shutil, pickle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CODE = os.path.join(REPO, "Code")

def setup_paths():
    if CODE not in sys.path:
        sys.path.insert(0, CODE)
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if vt not in sys.path:
        sys.path.append(vt)

class Violation(Exception):
    pass

class CaseHang(BaseException):
    pass

class HarnessError(Exception):
    pass

class Rejected(Exception):
    """Case outside the domain of the property (counted, not failed)."""

class Test:
    def __init__(self, name, fn, strategy=None, cases=None, quick=100, thorough=None,
                 examples=(), cpu_limit=60, shards=None, stateful=None, steps=30):
        """strategy: callable () -> hypothesis strategy.  cases: callable (tier, rng) -> list of JSON
        cases (enumerated exhaustively).  stateful: callable(ctx)-> RuleBasedStateMachine class"""
        self.name, self.fn, self.strategy, self.cases = name, fn, strategy, cases
        self.n = dict(quick=quick, thorough=thorough if thorough is not None else quick * 15)
        self.examples, self.cpu_limit, self.shards = examples, cpu_limit, shards

class Ctx:
    def __init__(self, test):
        self.test = test
        self.evals = 0
        self.rejected = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.current = None
        self.scratch = None
        self.slow = (0.0, None)
    def nontrivial(self, key=None):
        if key is None:
            key = self.current
        h = hashlib.blake2b(repr((self.test.name, key)).encode(), digest_size=8).digest()
        new = h not in self.keys
        self.keys.add(h)
        if new and (len(self.samples) < 2 or (len(self.samples) < 5 and len(self.keys) % 37 == 0)):
            self.samples.append({"test": self.test.name, "case": clip(self.current)})
    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

def clip(x, lim=600):
    s = json.dumps(x, default=repr)
    return json.loads(s) if len(s) <= lim else s[:lim] + "..."

def derive_seed(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big") >> 1

_in_repo_prefixes = (REPO + "/",)

def classify_exception(exc):
    """'violation' if raised inside the code under test, else 'harness'."""
    tb = exc.__traceback__
    frames = traceback.extract_tb(tb)
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, HarnessError):
        return "harness"
    if isinstance(exc, RecursionError):
        return "violation" if any(f.filename.startswith(_in_repo_prefixes) for f in frames) else "harness"
    if isinstance(exc, (ImportError, OSError)) and not any(f.filename.startswith(_in_repo_prefixes) for f in frames):
        return "harness"
    # last frame that is in /verif or /repo decides (library frames below belong to their caller)
    for f in reversed(frames):
        if f.filename.startswith(_in_repo_prefixes):
            return "violation"
        if f.filename.startswith(VERIF + "/"):
            # The checks never fail by themselves on conforming output, so an error while
            # interpreting a result means the result had the wrong shape - unless the
            # interface itself is gone (renamed function, changed signature).
            txt = str(exc)
            if isinstance(exc, AttributeError) and (txt.startswith("module ") or txt.startswith("type object ")):
                return "harness"
            if isinstance(exc, NameError) or (isinstance(exc, TypeError) and ("argument" in txt)):
                return "harness"
            return "violation"
    return "harness"

def _on_vtalrm(sig, frame):
    raise CaseHang()

def run_case(test, case, ctx):
    """Run one case; returns None or raises."""
    ctx.current = case
    ctx.evals += 1
    signal.setitimer(signal.ITIMER_VIRTUAL, test.cpu_limit)
    t0 = time.process_time()
    try:
        test.fn(case, ctx)
    except Rejected:
        ctx.rejected += 1
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        dt = time.process_time() - t0
        if dt > ctx.slow[0]: ctx.slow = (dt, case)

def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]

def worker(test, tier, seed, shard, nshards, scratch, outpath, deadline):
    """Runs in a forked child.  Writes a pickle with the outcome."""
    signal.signal(signal.SIGVTALRM, _on_vtalrm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    res = dict(status="ok", case=None, msg="")
    sub = os.path.join(scratch, "%s.%d" % (test.name, shard))
    os.makedirs(sub, exist_ok=True)
    os.chdir(sub)
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 1); os.dup2(devnull, 2)
        sys.stdout = open(os.devnull, "w"); sys.stderr = open(os.devnull, "w")
    ctx = Ctx(test)
    ctx.scratch = sub
    ctx.tier = tier
    truncated = False
    try:
        last = {}
        def guarded(case):
            try:
                run_case(test, case, ctx)
            except CaseHang:
                last["case"], last["msg"] = case, "case did not finish within %d s of CPU time" % test.cpu_limit
                raise
            except MemoryError:
                last["case"], last["msg"] = case, "memory exhausted"
                raise CaseHang()
            except Exception as e:
                kind = classify_exception(e)
                if kind == "violation":
                    last["case"], last["msg"] = case, describe(e)
                    raise Violation(str(e)[:200]) from e
                last["hcase"], last["hmsg"] = case, describe(e)
                raise HarnessError(describe(e)) from e
        try:
            if shard == 0:
                for ex in test.examples:
                    guarded(ex)
            if test.cases is not None:
                allc = test.cases(tier, random.Random(derive_seed(seed, test.name)))
                for i, c in enumerate(allc):
                    if i % nshards == shard:
                        if time.time() > deadline:
                            truncated = True
                            break
                        guarded(c)
            if test.strategy is not None:
                import hypothesis
                from hypothesis import settings, given, HealthCheck, Phase
                import hypothesis.internal.conjecture.engine as eng
                eng.MAX_SHRINKING_SECONDS = 60 if tier == "quick" else 200
                if hasattr(eng.ConjectureRunner, "generate_mutations_from"):
                    # more fresh cases instead of near-duplicates of the previous one
                    eng.ConjectureRunner.generate_mutations_from = lambda self, data: None
                n = max(1, test.n[tier] // nshards)
                strat = test.strategy()
                state = dict(t=False)
                @hypothesis.seed(derive_seed(seed, test.name, shard))
                @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                          derandomize=False, print_blob=False,
                          suppress_health_check=list(HealthCheck),
                          phases=[Phase.generate, Phase.shrink])
                @given(strat)
                def prop(case):
                    if time.time() > deadline and "case" not in last:
                        state["t"] = True
                        return
                    guarded(case)
                prop()
                truncated = truncated or state["t"]
        except (Violation, CaseHang):
            res["status"], res["case"], res["msg"] = "violation", last["case"], last["msg"]
        except BaseException as e:
            if "case" in last:      # e.g. Flaky while shrinking: a real failure was seen
                res["status"], res["case"], res["msg"] = "violation", last["case"], last["msg"]
            else:
                res["status"], res["msg"] = "harness", last.get("hmsg", describe(e))
                res["case"] = last.get("hcase")
    except BaseException as e:
        res["status"], res["msg"] = "harness", describe(e)
    res.update(test=test.name, shard=shard, evals=ctx.evals, rejected=ctx.rejected, keys=ctx.keys,
               labels=ctx.labels, samples=ctx.samples, slow=ctx.slow, truncated=truncated)
    with open(outpath + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(outpath + ".tmp", outpath)
    os._exit(0)
