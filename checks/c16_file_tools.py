import os, io, sys, re, random, contextlib, runpy, subprocess, collections, importlib.util
from pathlib import Path
from hypothesis import strategies as st
import core, ref, gen, recs
from core import Test, Violation, Rejected
core.setup_paths()
import IO, IO_Categorize, IO_Sort, IO_Sample, IO_Count, IO_Convert, IO_Find, Find_Record, Zero_Reflexive, TM_Analyze, Count
import CTL_Filter, CPS_Filter, Backtracking_Filter, Reverse_Engineer_Filter, Halting_Lib, io_pb2

PROPERTY = "C16"
RULE = ("case = lists of records with all kinds of status (undecided, halting with small / large / unknown counts, infinite, quasi-halting ...) spread over input files, and tool options.  Non-trivial = at least 2 records "
        "with different destinations, keys or files")
ASSUMPTIONS = ["records with equal sort keys may come out in any order", "sampling must be uniform up to 6 standard deviations over repeated seeded runs",
               "filter programs write one record per input record, same machine, same order; what they record is checked by C08-C11"]
BUDGET = dict(quick=200, thorough=1500)

def run_main(mod, args):
    old = sys.argv; sys.argv = [mod.__name__ + ".py"] + [str(a) for a in args]
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf): mod.main(*( [sys.argv] if mod is Backtracking_Filter else []))
    finally: sys.argv = old
    return buf.getvalue()
def put(path, rs):
    with IO.Proto.Writer(path) as w:
        for r in rs: w.write_record(r)
def get(path):
    with IO.Proto.Reader(path) as rd: return [r.proto for r in rd]
def key(p): return p.SerializeToString(deterministic=True)
def tagged(case, base=0):
    """distinct records, so that a lost and duplicated one cannot cancel out"""
    out = []
    for i, x in enumerate(case):
        r = recs.build(x); r.proto.elapsed_time_us = base + i + 1; out.append(r)
    return out
def expect(got, want, what):
    g, w = [key(p) for p in got], [key(p) for p in want]
    if g == w: return
    cg, cw = collections.Counter(g), collections.Counter(w)
    lost, extra = cw - cg, cg - cw
    raise Violation("%s: %d records, expected %d; lost %s; extra %s%s" % (what, len(g), len(w), [p.elapsed_time_us for p in want if key(p) in lost][:3], [p.elapsed_time_us for p in got if key(p) in extra][:3], "; order differs" if not lost and not extra else ""))
def multi(got, want, what):
    expect(sorted(got, key=key), sorted(want, key=key), what)
def spread(case, d, base="in"):
    """records of each input file"""
    files, all_ = [], []
    for i, f in enumerate(case["files"]):
        rs = tagged(f, 100000 * i); rs += rs[:case.get("dup", 0)]; p = d / ("%s%d.pb%s" % (base, i, ".gz" if case.get("gz") else "")); put(p, rs); files.append(p); all_.append([r.proto for r in rs])
    return files, all_
def big(b): return Halting_Lib.get_big_int(b)
def num(s): return int(s.replace("_", ""))

def kind(p):
    h, q = p.status.halt_status, p.status.quasihalt_status
    def size(b):
        w = b.WhichOneof("big_int")
        v = None if w is None else b.int if w == "int" else int(b.hex_str, 16)
        return "unk" if v is None else "small" if v < 1000 else "large"
    if not h.is_decided: return "unknown"
    if h.is_halting: return "halt." + size(h.halt_steps)
    if q.is_quasihalting: return "qhalt." + size(q.quasihalt_steps)
    return "infinite"
KINDS = ["halt.small", "halt.large", "halt.unk", "qhalt.small", "qhalt.large", "qhalt.unk", "infinite", "unknown"]

def check_categorize(case, ctx):
    d = recs.fresh(ctx); files, protos = spread(case, d); all_ = [p for f in protos for p in f]
    out = d / "out"; out.mkdir()
    text = run_main(IO_Categorize, files + ["--out-dir", out])
    names = {f.name for f in out.iterdir()}
    for k in KINDS:
        if k + ".pb" not in names: raise Violation("no output file for %s" % k)
        want = [p for p in all_ if kind(p) == k]
        expect(get(out / (k + ".pb")), want, "category %s" % k)
        m = re.search(r"Categorized ([\d_]+) %s records" % k.replace(".", "_"), text)
        if not m or num(m.group(1)) != len(want): raise Violation("reported count of %s: %s, true %d" % (k, m and m.group(1), len(want)))
        if want: ctx.label(k)
    extra = names - {k + ".pb" for k in KINDS}
    if extra: raise Violation("unexpected output %s" % extra)
    m = re.search(r"Categorized ([\d_]+) records total", text)
    if not m or num(m.group(1)) != len(all_): raise Violation("reported total %s, true %d" % (m and m.group(1), len(all_)))
    if len({kind(p) for p in all_}) > 1: ctx.nontrivial()

def score(p):
    v = big(p.status.halt_status.halt_score)
    return v or 0
def check_sort(case, ctx):
    d = recs.fresh(ctx); files, protos = spread(dict(case, files=[case["files"][0]]), d); all_ = protos[0]
    src = files[0]
    if case["cut"] and all_ and not case.get("gz"):
        data = src.read_bytes(); c = 1 + case["cut"] % (4 + all_[-1].ByteSize() - 1)
        src.write_bytes(data[:-c]); all_ = all_[:-1]
    dst = src if case["same"] and not case.get("gz") else d / "out.pb"
    text = run_main(IO_Sort, [src, dst])
    got = get(dst)
    multi(got, all_, "sorted file")
    s = [score(p) for p in got]
    if any(a < b for a, b in zip(s, s[1:])): raise Violation("not in descending order of score: %r" % s)
    m = re.search(r"Read ([\d_]+) records", text)
    if not m or num(m.group(1)) != len(all_): raise Violation("reported %s records read, true %d" % (m and m.group(1), len(all_)))
    if case["cut"] and protos[0] and not case.get("gz") and "ERROR" not in text: raise Violation("truncated input not reported")
    if len(set(s)) > 2: ctx.nontrivial()

def check_sample(case, ctx):
    d = recs.fresh(ctx); files, protos = spread(case, d); all_ = [p for f in protos for p in f]
    n = case["n"]; random.seed(case["seed"])
    text = run_main(IO_Sample, files + ["--out-file", d / "out.pb", "-n", n])
    got = get(d / "out.pb")
    if len(got) != min(n, len(all_)): raise Violation("sample of %d from %d records has %d" % (n, len(all_), len(got)))
    c = collections.Counter(key(p) for p in got) - collections.Counter(key(p) for p in all_)
    if c: raise Violation("the sample holds a record twice or one that is not in the input")
    m = re.search(r"Scanned ([\d_]+) total records / ([\d_]+) records read", text)
    if not m: raise Violation("no count reported: %s" % text)
    if num(m.group(1)) != len(all_): raise Violation("%s records scanned according to the report, %d in the files" % (m.group(1), len(all_)))
    if not len(got) <= num(m.group(2)) <= len(all_): raise Violation("%s records read according to the report" % m.group(2))
    if n < len(all_): ctx.nontrivial()

def check_uniform(case, ctx):
    d = recs.fresh(ctx); tot, n, reps = case["total"], case["n"], 400
    x = dict(tab=[[None, None]], status=dict(kind="unknown"), filter={}, t=0, no_halt=False)
    f1, f2 = tagged([x] * case["split"]), tagged([x] * (tot - case["split"]), case["split"])
    put(d / "a.pb", f1); put(d / "b.pb", f2)
    random.seed(case["seed"]); cnt = collections.Counter()
    for _ in range(reps):
        with contextlib.redirect_stdout(io.StringIO()): IO_Sample.sample([d / "a.pb", d / "b.pb"], d / "o.pb", n)
        for p in get(d / "o.pb"): cnt[p.elapsed_time_us] += 1
    pr = n / tot; sd = (reps * pr * (1 - pr)) ** .5
    for i in range(1, tot + 1):
        if abs(cnt[i] - reps * pr) > 6 * sd + 1: raise Violation("record %d of %d was in %d of %d samples of size %d, expected about %.0f" % (i, tot, cnt[i], reps, n, reps * pr))
    ctx.nontrivial()

def check_count(case, ctx):
    d = recs.fresh(ctx); files, protos = spread(case, d)
    want = [len(p) for p in protos]; cut = set()
    for i, f in enumerate(files):
        c = case["cut"][i % len(case["cut"])]
        if c and want[i] and not case["gz"]:
            data = f.read_bytes(); f.write_bytes(data[:-(1 + c % (4 + protos[i][-1].ByteSize() - 1))]); want[i] -= 1; cut.add(i)
    text = run_main(IO_Count, files + (["-s"] if case["summary"] else []) + ["--print-freq", case["freq"]])
    m = re.search(r"Total # TMs: ([\d_]+)", text)
    if not m or num(m.group(1)) != sum(want): raise Violation("count %s, true %d" % (m and m.group(1), sum(want)))
    if not case["summary"]:
        got = [num(x) for x in re.findall(r"^# TMs .*: ([\d_]+) \(", text, re.M)]
        if text.count("ERROR") != len(cut): raise Violation("%d truncated files, %d errors reported" % (len(cut), text.count("ERROR")))
        if got != want: raise Violation("counts per file %r, true %r" % (got, want))
    if len(files) > 1: ctx.nontrivial()

def check_convert(case, ctx):
    d = recs.fresh(ctx); files, protos = spread(dict(case, files=[case["files"][0]]), d); all_ = protos[0]
    text = run_main(IO_Convert, [files[0], d / "o.pb"])
    expect(get(d / "o.pb"), all_, "copy")
    m = re.search(r"Converted ([\d_]+) records", text)
    if not m or num(m.group(1)) != len(all_): raise Violation("reported %s records converted, true %d" % (m and m.group(1), len(all_)))
    run_main(IO_Convert, [files[0], d / "o.txt"])
    lines = (d / "o.txt").read_text().split("\n")
    if lines[-1] != "" or len(lines) - 1 != len(all_): raise Violation("%d records as %d lines of text" % (len(all_), len(lines) - 1))
    for l, p, x in zip(lines, all_, case["files"][0]):
        w = l.split(" ")
        if w[0] != recs.show(x["tab"]): raise Violation("record of %s converted to %r" % (recs.show(x["tab"]), l))
        h = p.status.halt_status
        if not h.is_halting:
            if len(w) > 1: raise Violation("record not halting converted to %r" % l)
            continue
        if len(w) != 4 or w[1] != "Halt": raise Violation("halting record converted to %r" % l)
        for s, v in ((w[2], big(h.halt_steps)), (w[3], big(h.halt_score))):
            if v is None: ok = s == "N/A"
            elif v < 10**10: ok = s == str(v)
            else:
                m = re.fullmatch(r"~10\^([\d.]+)", s)
                import math
                ok = bool(m) and abs(float(m.group(1)) - math.log10(v)) < 2e-5
            if not ok: raise Violation("value %r shown as %r" % (v, s))
    if len(all_) > 1: ctx.nontrivial()

def check_find(case, ctx):
    d = recs.fresh(ctx); files, protos = spread(case, d)
    tms = [[recs.show(x["tab"]) for x in f] for f in case["files"]]
    flat = [(i, j, t) for i, f in enumerate(tms) for j, t in enumerate(f)]
    q = flat[case["pick"] % len(flat)][2] if flat and case["hit"] else case["other"]
    # Find_Record: one file, any format
    i = case["pick"] % len(files)
    src = files[i]
    if case["as_text"]:
        run_main(IO_Convert, [src, d / "s.txt"]); src = d / "s.txt"
    text = run_main(Find_Record, ["--", q, src])
    where = [j for j, t in enumerate(tms[i]) if t == q]
    if where:
        first = text.split("\n")[0]
        if not first.isdigit() or int(first) not in where: raise Violation("Find_Record %s: %r, true positions %r" % (q, first, where))
        if int(first) != where[0]: raise Violation("Find_Record %s found record %s, the first is %d" % (q, first, where[0]))
        if "ttable: " + q not in text: raise Violation("Find_Record %s shows another machine" % q)
        if not case["as_text"]:
            if "elapsed_time_us: %d\n" % protos[i][where[0]].elapsed_time_us not in text: raise Violation("Find_Record %s shows another record" % q)
    elif text.strip(): raise Violation("Find_Record %s printed %r though it is not in the file" % (q, text[:80]))
    text = run_main(IO_Find, ["--", q] + files)
    hits = [(a, b) for a, b, t in flat if t == q]
    if hits:
        p = protos[hits[0][0]][hits[0][1]]
        if "elapsed_time_us: %d\n" % p.elapsed_time_us not in text or "ttable: " + q not in text: raise Violation("IO_Find %s does not show its first record: %s" % (q, text[:200]))
        ctx.nontrivial()
    elif "not found" not in text: raise Violation("IO_Find %s does not say it is missing: %s" % (q, text[:200]))
    ctx.label("hit" if hits else "miss")

def check_zero(case, ctx):
    d = recs.fresh(ctx); files, protos = spread(dict(case, files=[case["files"][0]]), d)
    text = run_main(Zero_Reflexive, [files[0], d / "z.pb", d / "n.pb"])
    z = [any(row[0] is None or row[0][2] == q for q, row in enumerate(x["tab"])) for x in case["files"][0]]; z += z[:case.get("dup", 0)]
    expect(get(d / "z.pb"), [p for p, b in zip(protos[0], z) if b], "zero-reflexive output")
    expect(get(d / "n.pb"), [p for p, b in zip(protos[0], z) if not b], "other output")
    m = re.search(r"TMs: ([\d_]+) / ([\d_]+)", text)
    if not m or (num(m.group(1)), num(m.group(2))) != (sum(z), len(z)): raise Violation("reported %s, true %d of %d" % (m and m.group(0), sum(z), len(z)))
    if len(set(z)) == 2: ctx.nontrivial()

def check_analyze(case, ctx):
    d = recs.fresh(ctx); files, protos = spread(case, d); all_ = [p for f in protos for p in f]
    text = run_main(TM_Analyze, files + ["--print-freq", 0])
    if not all_:
        if "No Records" not in text: raise Violation("no records: %r" % text[:200])
        return
    def field(name):
        m = re.search(r"^%s: ([\d_]+)" % name, text, re.M)
        return num(m.group(1)) if m else None
    h = [p.status.halt_status for p in all_]
    want = dict(Total=len(all_), Unknown=sum(not x.is_decided for x in h), Halt=sum(x.is_decided and x.is_halting for x in h), Infinite=sum(x.is_decided and not x.is_halting for x in h))
    for k, v in want.items():
        if field(k) != v: raise Violation("statistics say %s: %s, true %d" % (k, field(k), v))
    q = sum(p.status.quasihalt_status.is_quasihalting for p in all_)
    if (field("Quasihalt") or 0) != q: raise Violation("statistics say %s quasi-halting, true %d" % (field("Quasihalt"), q))
    for name, num_ in (("halt_steps", "Steps"), ("halt_score", "Score")):
        vals = [big(getattr(x, name)) or 0 for x in h if x.is_decided and x.is_halting]
        m = re.search(r"^Halt: .*\n.*Steps: Max (.*)\n.*Score: Max (.*)$", text, re.M)
        s = m.group(1 if num_ == "Steps" else 2)
        top = max(vals, default=0)
        if 0 < top < 10**50:
            if "=  %s" % format(top, "_") not in s: raise Violation("largest %s shown as %s, true %d" % (num_, s, top))
    for reason, c in collections.Counter(io_pb2.InfReason.Name(x.inf_reason) for x in h if x.is_decided and not x.is_halting).items():
        m = re.search(r"- %s +: +([\d_]+) " % reason, text)
        if not m or num(m.group(1)) != c: raise Violation("%s counted %s times, true %d" % (reason, m and m.group(1), c))
    for f in io_pb2.FilterResults.DESCRIPTOR.fields:
        c = sum(p.filter.HasField(f.name) for p in all_)
        m = re.search(r"Filters Run:\n(?:  - .*\n)*?  - %s +: +([\d_]+) " % f.name, text)
        if (num(m.group(1)) if m else 0) != c: raise Violation("filter %s counted %s times, true %d" % (f.name, m and m.group(1), c))
    if len(all_) > 1: ctx.nontrivial()

def check_filters(case, ctx):
    """filter programs: one record out per record in, same machine, same order"""
    d = recs.fresh(ctx)
    x = [dict(tab=t, status=dict(kind="unknown"), filter={}, t=0, no_halt=False) for t in case["tabs"]]
    rs = tagged(x); src = d / "in.pb"; put(src, rs)
    if case["text"]: run_main(IO_Convert, [src, d / "in.txt"]); src = d / "in.txt"
    out = d / "out.pb"
    mod, args = {"ctl": (CTL_Filter, ["--type", case["ctl"], "--max-block-size", 2, "--cutoff", 20]), "cps": (CPS_Filter, ["--max-block-size", 2, "--max-steps", 2000, "--max-iters", 30, "--max-configs", 300, "--max-edges", 300]),
                 "back": (Backtracking_Filter, ["--steps", 3, "--max-width", 5]), "rev": (Reverse_Engineer_Filter, [])}[case["tool"]]
    run_main(mod, ["--infile", src, "--outfile", out] + args)
    got = get(out)
    if len(got) != len(rs): raise Violation("%s filter: %d records in, %d out" % (case["tool"], len(rs), len(got)))
    from IO import TM_Record
    for i, (p, t) in enumerate(zip(got, case["tabs"])):
        m = TM_Record.TM_Record(proto=p).tm().ttable_str()
        if m != recs.show(t): raise Violation("%s filter: record %d is %s, the input was %s" % (case["tool"], i, m, recs.show(t)))
        if p.status.halt_status.is_halting: raise Violation("%s filter recorded that %s halts" % (case["tool"], m))
    k = len({p.status.halt_status.is_decided for p in got})
    if k > 1: ctx.nontrivial(); ctx.label(case["tool"])

RM = """#!/bin/bash
# only ever deletes inside the scratch folder of this check
for a in "$@"; do case "$a" in -*) ;; *) r=$(realpath -m -- "$a"); case "$r" in %s/*) ;; *) echo "rm outside scratch: $r" >> %s/escaped; exit 1;; esac;; esac; done
exec /bin/rm "$@"
"""
def check_script(case, ctx):
    """Tools/filter.sh: a chain of filters over unknown.pb; every machine ends up in exactly one category file or is still unknown"""
    d = recs.fresh(ctx); root = d / "data"; root.mkdir(); b = d / "bin"; b.mkdir()
    (b / "rm").write_text(RM % (d.resolve(), d.resolve())); (b / "rm").chmod(0o755)
    (b / "python3").write_text('#!/bin/bash\nexec "%s" "$@"\n' % sys.executable); (b / "python3").chmod(0o755)
    env = dict(os.environ, PATH="%s:%s:%s" % (b, os.path.dirname(sys.executable), os.environ.get("PATH", "/usr/bin:/bin")), PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    x = [dict(tab=t, status=dict(kind="unknown"), filter={}, t=0, no_halt=False) for t in case["tabs"]]
    put(root / "unknown.pb", tagged(x))
    left = collections.Counter(recs.show(t) for t in case["tabs"])
    from IO import TM_Record
    names = lambda f: collections.Counter(TM_Record.TM_Record(proto=p).tm().ttable_str() for p in get(f))
    log = 0
    for i, (tool, sub) in enumerate(case["stages"]):
        cmd = {"rev": ["Reverse_Engineer_Filter.py"], "back": ["Backtracking_Filter.py", "--steps=4", "--max-width=10"], "ctl1": ["CTL_Filter.py", "--type=CTL1", "--max-block-size=1", "--cutoff=20"], "ctl2": ["CTL_Filter.py", "--type=CTL2", "--max-block-size=2", "--cutoff=20"],
               "cps": ["CPS_Filter.py", "--max-block-size=2", "--max-steps=2000"], "enum": ["Enumerate.py", "--max-loops=60", "--lin-steps=40", "--no-ctl", "--block-size=1", "--time=0"]}[tool]
        before = get(root / "unknown.pb")
        p = subprocess.run(["bash", os.path.join(core.REPO, "Tools", "filter.sh"), str(root), sub, sys.executable, os.path.join(core.CODE, cmd[0])] + cmd[1:], cwd=d, env=env, capture_output=True, text=True, timeout=300)
        if (d / "escaped").exists(): raise Violation("filter.sh removes files outside its work folder: %s" % (d / "escaped").read_text())
        if p.returncode: raise Violation("filter.sh %s fails: %s" % (cmd, p.stderr[-800:]))
        work = root / sub
        expect(get(work / "in.pb"), before, "stage %d input" % i)
        out = get(work / "out.pb")
        if collections.Counter(TM_Record.TM_Record(proto=q).tm().ttable_str() for q in out) - left and tool != "enum": raise Violation("stage %d writes machines that were not in its input" % i)
        cats = [q for k in KINDS for q in get(work / (k + ".pb"))]
        multi(cats, out, "stage %d categories" % i)
        expect(get(root / "unknown.pb"), [q for q in out if kind(q) == "unknown"], "stage %d: unknown.pb" % i)
        text = (root / "unknown.txt").read_text().split() if (root / "unknown.txt").exists() else None
        want = [TM_Record.TM_Record(proto=q).tm().ttable_str() for q in get(root / "unknown.pb")]
        if text != want: raise Violation("stage %d: unknown.txt lists %r, unknown.pb holds %r" % (i, text, want))
        if tool != "enum" and names(work / "out.pb") != left: raise Violation("stage %d: machines in %r, out %r" % (i, left, names(work / "out.pb")))
        if tool == "enum":      # may expand a machine that reaches an undefined transition into its children
            for q in before:
                m = TM_Record.TM_Record(proto=q).tm().ttable_str()
                if "---" not in m and "Z" not in m and names(work / "out.pb")[m] != left[m]: raise Violation("stage %d: %s lost" % (i, m))
        left = names(root / "unknown.pb")
        if len((root / "filter_log.txt").read_text().strip().split("\n")) != i + 1: raise Violation("stage %d: log is %r" % (i, (root / "filter_log.txt").read_text()))
    if len(case["tabs"]) > 1 and left != collections.Counter(recs.show(t) for t in case["tabs"]): ctx.nontrivial(); ctx.label("script")

CHAIN = {"rev": ["Reverse_Engineer_Filter.py"], "back": ["Backtracking_Filter.py", "--steps=4", "--max-width=10"], "ctl1": ["CTL_Filter.py", "--type=CTL1", "--max-block-size=1", "--cutoff=20"],
         "ctl2": ["CTL_Filter.py", "--type=CTL2", "--max-block-size=2", "--cutoff=20"], "cps": ["CPS_Filter.py", "--max-block-size=2", "--max-steps=2000"]}
def check_cluster(case, ctx):
    """Tools/sbatch_filter_{setup,array,finish}.sh: one filter stage over unknown.txt, split into array jobs run in any order, then combined"""
    d = recs.fresh(ctx); root = d / "data"; root.mkdir(); b = d / "bin"; b.mkdir()
    (b / "rm").write_text(RM % (d.resolve(), d.resolve())); (b / "rm").chmod(0o755)
    (b / "python3").write_text('#!/bin/bash\nexec "%s" "$@"\n' % sys.executable); (b / "python3").chmod(0o755)
    env = dict(os.environ, PATH="%s:%s:%s" % (b, os.path.dirname(sys.executable), os.environ.get("PATH", "/usr/bin:/bin")), PYTHONDONTWRITEBYTECODE="1", USER=os.path.relpath(d, "/tmp") + "/user")
    env.pop("PYTHONPATH", None)
    os.symlink(core.CODE, d / "Code")
    tms = [recs.show(t) for t in case["tabs"]]
    (root / "unknown.txt").write_text("".join(t + "\n" for t in tms))
    left, n = collections.Counter(tms), case["shards"]
    from IO import TM_Record
    name = lambda q: TM_Record.TM_Record(proto=q).tm().ttable_str()
    def sh(what, *args, **kw):
        p = subprocess.run(["bash", os.path.join(core.REPO, "Tools", "sbatch_filter_%s.sh" % what)] + [str(a) for a in args], cwd=d, env=dict(env, **kw), capture_output=True, text=True, timeout=300)
        if (d / "escaped").exists(): raise Violation("sbatch_filter_%s.sh removes files outside its work folder: %s" % (what, (d / "escaped").read_text()))
        if p.returncode: raise Violation("sbatch_filter_%s.sh %s fails: %s" % (what, args, p.stderr[-800:]))
    for i, (tool, sub) in enumerate(case["stages"]):
        work = root / sub
        sh("setup", "data", sub, n)
        jobs = sorted(range(n), key=lambda j: case["order"][j % len(case["order"])])
        for j in jobs: sh("array", "data/%s/split" % sub, case["offset"], "Code/" + CHAIN[tool][0], *CHAIN[tool][1:], SLURM_ARRAY_TASK_ID=str(j - case["offset"]))
        sh("finish", "data", sub, n)
        got = collections.Counter()
        for k in ("halt.small", "halt.large", "qhalt.small", "qhalt.large", "infinite", "unknown"):
            for q in get(work / (k + ".pb")):
                got[name(q)] += 1
                if kind(q) != k: raise Violation("stage %d: %s is in %s.pb but is %s" % (i, name(q), k, kind(q)))
        rest = collections.Counter(name(q) for j in range(n) for k in ("halt.unk", "qhalt.unk") for f in [work / "split" / ("%08d" % j) / (k + ".pb")] if f.exists() for q in get(f))
        if got + rest != left: raise Violation("stage %d (%s, %d jobs): machines in %r, combined results %r" % (i, tool, n, left, got + rest))
        now = (root / "unknown.txt").read_text().split()
        if now != [name(q) for q in get(work / "unknown.pb")]: raise Violation("stage %d: unknown.txt lists %r, unknown.pb holds others" % (i, now))
        if collections.Counter(now) != left: ctx.label("cluster"); ctx.nontrivial()
        left = collections.Counter(now)

def script(path, args, cwd):
    return subprocess.run([sys.executable, str(path)] + [str(a) for a in args], cwd=cwd, capture_output=True, text=True, timeout=60)
def load_script(path):
    spec = importlib.util.spec_from_file_location(path.stem, path); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m

def check_lines(case, ctx):
    """text tools: shuffling into parts, comparing two lists"""
    d = recs.fresh(ctx); L, R = case["left"], case["right"]
    (d / "l.txt").write_text("\n".join(L) + ("\n" if case["nl"] and L else "")); (d / "r.txt").write_text("\n".join(R) + ("\n" if case["nr"] and R else ""))
    vd = load_script(Path(core.REPO) / "Tools" / "venn_diff.py")
    old = sys.argv; sys.argv = ["venn_diff.py"] + [str(d / x) for x in ("l.txt", "r.txt", "i", "lo", "ro")]
    try: vd.main()
    finally: sys.argv = old
    rd = lambda n: (d / n).read_text().split("\n")[:-1] if (d / n).read_text() else []
    for n, want in (("i", set(L) & set(R)), ("lo", set(L) - set(R)), ("ro", set(R) - set(L))):
        if set(rd(n)) != want: raise Violation("line sets: %s is %r, expected %r" % (n, sorted(rd(n)), sorted(want)))
    if case["parts"]:
        old = sys.argv; sys.argv = ["shuffle_split.py", str(d / "l.txt"), str(case["parts"])]
        try: runpy.run_path(str(Path(core.REPO) / "cpp" / "scripts" / "shuffle_split.py"), run_name="__main__")
        finally: sys.argv = old
        parts = [rd("l.txt.part_%d_of_%d" % (i, case["parts"])) for i in range(case["parts"])]
        if collections.Counter(x for p in parts for x in p) != collections.Counter(L): raise Violation("splitting %r into %d parts gives %r" % (L, case["parts"], parts))
        sizes = [len(p) for p in parts]
        if max(sizes) - min(sizes) > 1: raise Violation("parts of sizes %r" % sizes)
    if len(set(L) & set(R)) and len(L) > 1: ctx.nontrivial()

def run_script(path, args):
    old = sys.argv; sys.argv = [os.path.basename(str(path))] + [str(a) for a in args]; buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf): runpy.run_path(str(path), run_name="__main__")
    finally: sys.argv = old
    return buf.getvalue()

def check_random_sample(case, ctx):
    """a sample of lines of a text file: the asked number of them, in file order, each at most once"""
    d = recs.fresh(ctx); n = case["n"]
    lines = ["1RB1LB_1LA1RZ %d" % (i if case["distinct"] else i // 3) for i in range(n)]
    (d / "l.txt").write_text("\n".join(lines) + ("\n" if case["nl"] else ""))
    random.seed(case["seed"])
    run_script(Path(core.CODE) / "Random_Sample.py", [d / "l.txt", n, case["k"]])
    got = (d / "l.txt.sample").read_text().splitlines()
    if len(got) != case["k"]: raise Violation("a sample of %d of %d lines has %d lines" % (case["k"], n, len(got)))
    it = iter(lines)
    if not all(any(g == x for x in it) for g in got): raise Violation("the sample %r of %d lines repeats or reorders lines" % (got, n))
    if 0 < case["k"] < n: ctx.nontrivial()

def check_read_record(case, ctx):
    """the record shown is the one asked for, with its machine and score"""
    d = recs.fresh(ctx); rs = tagged(case["recs"]); put(d / "in.pb", rs)
    i = case["i"] % len(rs)
    out = run_script(Path(core.CODE) / "Read_Record.py", [d / "in.pb"] + ([i] if i or case["explicit"] else []))
    m = re.findall(r"^ttable: (\S+)$", out, re.M)
    if m != [rs[i].tm().ttable_str()]: raise Violation("record %d is shown as machine %r, it is %s" % (i, m, rs[i].tm().ttable_str()))
    if not re.search(r"^elapsed_time_us: %d$" % rs[i].proto.elapsed_time_us, out, re.M): raise Violation("record %d: another record is shown" % i)
    h = rs[i].proto.status.halt_status
    score = re.findall(r"^Halt Score: (.*)$", out, re.M)
    if bool(score) != bool(h.is_halting): raise Violation("record %d: score lines %r" % (i, score))
    if score and h.halt_score.WhichOneof("big_int") == "int":
        nums = [int(x.replace("_", "").replace(",", "")) for x in re.findall(r"(?<![\d.^e])\d[\d_,]*(?![\d.^])", score[0])]
        if h.halt_score.int not in nums: raise Violation("record %d: score %d is shown as %r" % (i, h.halt_score.int, score[0]))
    if len(rs) > 1: ctx.nontrivial()

def check_split(case, ctx):
    """many lines, many parts"""
    d = recs.fresh(ctx); n, k = case["n"], case["k"]
    L = ["1RB1LB_1LA1RZ %d" % (i // case["dup"]) for i in range(n)]
    (d / "l.txt").write_text("\n".join(L) + ("\n" if case["nl"] and L else ""))
    random.seed(case["seed"])
    run_script(Path(core.REPO) / "cpp" / "scripts" / "shuffle_split.py", [d / "l.txt", k])
    parts = [(d / ("l.txt.part_%d_of_%d" % (i, k))).read_text().splitlines() for i in range(k)]
    if collections.Counter(x for p in parts for x in p) != collections.Counter(L): raise Violation("splitting %d lines into %d parts gives parts of sizes %r, not the same lines" % (n, k, [len(p) for p in parts]))
    sizes = [len(p) for p in parts]
    if max(sizes) - min(sizes) > 1: raise Violation("%d lines: parts of sizes %r" % (n, sizes))
    if k > 1 and n > k: ctx.nontrivial()

def check_many(case, ctx):
    """files of thousands of records, through every tool"""
    times = case["times"]; files = [[x for _ in range(times) for x in f] for f in case["files"]]
    c = dict(files=files, dup=0, gz=case["gz"], cut=0, same=False, seed=case["seed"], n=case["n"])
    big_ = sum(len(f) for f in files)
    for f in (check_categorize, check_sort, check_sample, check_convert, check_zero, check_analyze): f(c, ctx); ctx.evals += 1
    for s in (False, True): check_count(dict(c, cut=[0], summary=s, freq=0), ctx)
    check_find(dict(c, pick=case["seed"], hit=True, as_text=case["gz"], other="0RA---"), ctx)
    if big_ > 1000: ctx.label("over 1000 records"); ctx.nontrivial()
def s_many(): return D(dict(files=st.lists(st.lists(LIGHT, min_size=3, max_size=8), min_size=1, max_size=2), times=st.sampled_from([340, 260, 190, 500]), gz=st.booleans(), seed=st.integers(0, 10**6), n=st.sampled_from([1, 100, 700, 1200])))

RS = st.lists(recs.record(wild=False), max_size=6)
FILES = st.lists(RS, min_size=1, max_size=3)
LIGHT = st.fixed_dictionaries(dict(tab=recs.tables(st.sampled_from([(2, 2), (8, 2)])), status=recs.status(), filter=st.just({}), t=st.just(0), no_halt=st.just(False)))
LFILES = st.lists(st.lists(LIGHT, max_size=12), min_size=1, max_size=3)
D = st.fixed_dictionaries
DUP = st.sampled_from([0, 0, 0, 1, 3])
def s_cat(): return D(dict(files=st.one_of(FILES, LFILES), dup=DUP, gz=st.booleans()))
def s_sort(): return D(dict(files=st.one_of(FILES, LFILES), dup=DUP, gz=st.booleans(), cut=st.sampled_from([0, 0, 1, 7, 33]), same=st.booleans()))
def s_sample(): return D(dict(files=LFILES, n=st.sampled_from([1, 2, 3, 5, 8, 100]), seed=st.integers(0, 10**6), dup=DUP, gz=st.booleans()))
def s_count(): return D(dict(files=LFILES, summary=st.booleans(), freq=st.sampled_from([0, 1, 3, 1000]), gz=st.booleans(), dup=DUP, cut=st.lists(st.sampled_from([0, 0, 0, 1, 2, 5, 30]), min_size=1, max_size=3)))
def s_conv(): return D(dict(files=st.one_of(FILES, LFILES), dup=DUP, gz=st.booleans()))
TINY = st.fixed_dictionaries(dict(tab=recs.tables(st.sampled_from([(1, 2), (8, 2), (2, 2)])), status=recs.status(), filter=st.just({}), t=st.just(0), no_halt=st.just(False)))
def s_find(): return D(dict(files=st.lists(st.lists(TINY, max_size=8), min_size=1, max_size=3), pick=st.integers(0, 100), hit=st.booleans(), as_text=st.booleans(), other=st.sampled_from(["1RB1LB_1LA1RZ", "0RA---", "0RA0RA", "1RB1LB_1LA1RZ_------_------_------_------_------_------"])))
def s_zero(): return D(dict(files=LFILES, dup=DUP, gz=st.booleans()))
def s_script(): return D(dict(tabs=st.lists(recs.tables(st.sampled_from([(2, 2), (2, 3), (3, 2)])), min_size=1, max_size=8), stages=st.lists(st.tuples(st.sampled_from(["rev", "back", "ctl1", "ctl2", "cps", "enum"]), st.sampled_from(["a", "b"])), min_size=1, max_size=3)))
def first_1rb(t): return [[[1, "R", 1]] + t[0][1:]] + t[1:]     # the scripts compare weighted counts, which are defined for machines that start so
def s_cluster(): return D(dict(tabs=st.lists(recs.tables(st.sampled_from([(2, 2), (2, 3), (3, 2)])).map(first_1rb), min_size=1, max_size=9), shards=st.integers(1, 3), offset=st.sampled_from([0, 0, 1, -5]), order=st.lists(st.integers(0, 9), min_size=1, max_size=3),
                          stages=st.lists(st.tuples(st.sampled_from(sorted(CHAIN)), st.sampled_from(["a", "b"])), min_size=1, max_size=2)))
def s_filters(): return D(dict(tabs=st.lists(recs.tables(st.sampled_from([(2, 2), (2, 3), (3, 2)])), max_size=6), tool=st.sampled_from(["ctl", "cps", "back", "rev"]), ctl=st.sampled_from(["CTL1", "CTL2", "CTL3", "CTL4"]), text=st.booleans()))
LINE = st.sampled_from(["1RB", "a", "b", "ab", "c d", "1RB1LB_1LA1RZ", "x"])
def s_lines(): return D(dict(left=st.lists(LINE, max_size=9), right=st.lists(LINE, max_size=6), nl=st.booleans(), nr=st.booleans(), parts=st.integers(0, 4)))
def s_rsample(): return st.integers(0, 30).flatmap(lambda n: D(dict(n=st.just(n), k=st.integers(0, n // 2), distinct=st.booleans(), nl=st.booleans(), seed=st.integers(0, 10**6))))
def s_read(): return D(dict(recs=st.lists(recs.record(wild=False), min_size=1, max_size=4), i=st.integers(0, 3), explicit=st.booleans()))
def s_split(): return D(dict(n=st.integers(0, 150), k=st.integers(1, 110), dup=st.sampled_from([1, 1, 4]), nl=st.booleans(), seed=st.integers(0, 10**6)))
def uniform_cases(tier, rng): return [dict(total=t, n=n, split=s, seed=rng.randrange(10**6)) for t, n, s in [(6, 2, 3), (9, 1, 0), (7, 3, 5), (12, 6, 2)] for _ in range(1 if tier == "quick" else 6)]
TESTS = [
    Test("categorize", check_categorize, strategy=s_cat, quick=1200, thorough=12000),
    Test("sort", check_sort, strategy=s_sort, quick=1000, thorough=10000),
    Test("sample", check_sample, strategy=s_sample, quick=1000, thorough=10000),
    Test("sample_uniform", check_uniform, cases=uniform_cases),
    Test("count", check_count, strategy=s_count, quick=600, thorough=6000),
    Test("convert", check_convert, strategy=s_conv, quick=1000, thorough=10000),
    Test("find", check_find, strategy=s_find, quick=1200, thorough=12000),
    Test("zero_reflexive_split", check_zero, strategy=s_zero, quick=600, thorough=6000),
    Test("statistics", check_analyze, strategy=s_cat, quick=800, thorough=8000),
    Test("filters", check_filters, strategy=s_filters, quick=400, thorough=5000),
    Test("cluster_scripts", check_cluster, strategy=s_cluster, quick=32, thorough=500),
    Test("filter_script", check_script, strategy=s_script, quick=32, thorough=600),
    Test("random_sample", check_random_sample, strategy=s_rsample, quick=300, thorough=5000),
    Test("read_record", check_read_record, strategy=s_read, quick=400, thorough=5000),
    Test("split_lines", check_split, strategy=s_split, quick=700, thorough=8000),
    Test("many", check_many, strategy=s_many, quick=40, thorough=300, cpu_limit=200),
    Test("line_tools", check_lines, strategy=s_lines, quick=1000, thorough=10000),
]
