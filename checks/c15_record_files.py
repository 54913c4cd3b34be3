import os, io, gzip, sys, contextlib, struct
from pathlib import Path
from hypothesis import strategies as st
import core, ref, gen, recs
from core import Test, Violation, Rejected
core.setup_paths()
import IO, IO_Count, io_pb2, TM_Enum

PROPERTY = "C15"
RULE = ("case = list of records with arbitrary status and filter fields, a history of writes / flushes / file concatenations, reading operations and cut points.  Non-trivial = at least 2 records and either a mixed "
        "read/skip history, a cut strictly inside a record, or a flush point followed by more writes")
ASSUMPTIONS = ["appending = concatenating complete files (plain or gzip members); writers always start a new file",
               "for compressed files a cut loses whatever the compressor had not emitted: records read must be an initial part of those written and the loss must be signalled"]
BUDGET = dict(quick=200, thorough=1500)

def write(path, rs):
    with IO.Proto.Writer(path) as w:
        for r in rs: w.write_record(r)
def drain(path):
    """(records, error)"""
    out = []
    try:
        with IO.Proto.Reader(path) as rd:
            for r in rd: out.append(r.proto)
    except Exception as e: return out, e
    return out, None
def compare(got, want, how):
    if len(got) != len(want): raise Violation("%s: %d records, expected %d" % (how, len(got), len(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        if a.SerializeToString(deterministic=True) != b.SerializeToString(deterministic=True): raise Violation("%s: record %d differs: read {%s} written {%s}" % (how, i, str(a)[:300], str(b)[:300]))

def check_history(case, ctx):
    """write histories with flush points and appended files; after a flush everything written so far is in the file"""
    d = recs.fresh(ctx); path = d / ("f.pb.gz" if case["gz"] else "f.pb")
    want = []; k = 0; total = b""
    rs = [recs.build(x) for x in case["recs"]]; blank = {i for i in case["blank"] if i < len(rs)}
    for i in blank: rs[i] = IO.TM_Record.TM_Record(proto=io_pb2.TMRecord())
    for part, seg in enumerate(case["segs"]):
        p = d / ("part%d" % part + "".join(path.suffixes))
        mine = []
        with IO.Proto.Writer(p) as w:
            for op in seg:
                if op == "w":
                    if k < len(rs):
                        w.write_record(rs[k]); mine.append(rs[k].proto); k += 1
                else:
                    w.flush()
                    snap = d / ("snap" + "".join(path.suffixes)); snap.write_bytes(p.read_bytes())
                    got, err = drain(snap)
                    compare(got, mine, "after flush (crash point)")
                    if err is not None and not case["gz"]: raise Violation("file flushed between records gives %r" % err)
                    ctx.evals += 1; ctx.label("flush")
        want += mine; total += p.read_bytes()
    path.write_bytes(total)
    got, err = drain(path)
    if err is not None: raise Violation("complete file of %d records: %r" % (len(want), err))
    compare(got, want, "sequential reading")
    for cls in (IO.Reader,):
        with cls(str(path)) as rd: back = list(rd)
        compare([r.proto for r in back], want, "IO.Reader")
    for i, r in enumerate(back):
        if i in blank: continue
        if r.ttable_str() != recs.show(case["recs"][i]["tab"]): raise Violation("record %d holds %s, written %s" % (i, r.ttable_str(), recs.show(case["recs"][i]["tab"])))
        if bool(r.tm_enum().allow_no_halt) != case["recs"][i]["no_halt"]: raise Violation("record %d forgets whether its machine may have no halt" % i)
    n = len(want)
    # random mixture of skips and reads
    with IO.Proto.Reader(str(path)) as rd:
        pos = 0
        for op in case["ops"]:
            if op == "s":
                r = rd.skip_record()
                if bool(r) != (pos < n): raise Violation("skip_record at record %d of %d returned %r" % (pos, n, r))
                pos = min(n, pos + 1)
            else:
                r = rd.read_record()
                if (r is None) != (pos >= n): raise Violation("read_record at record %d of %d returned %r" % (pos, n, r))
                if r is not None: compare([r.proto], [want[pos]], "record %d after skipping" % pos); pos += 1
        rest = [r.proto for r in rd]
        compare(rest, want[pos:], "iteration from record %d" % pos)
    i = case["pick"] % (n + 3)
    try: r = IO.Proto.load_record(path, i)
    except Exception as e:
        if i < n: raise Violation("load_record(%d) of %d records: %r" % (i, n, e))
    else:
        if i >= n: raise Violation("load_record(%d) of %d records succeeded" % (i, n))
        compare([r.proto], [want[i]], "load_record(%d)" % i)
    if n and case["pick"] % 3 == 0:
        i %= n
        if i in blank: return
        tm = IO.get_tm("%s:%d" % (path, i)).ttable_str()
        if tm != recs.show(case["recs"][i]["tab"]): raise Violation("get_tm(file:%d) = %s, written %s" % (i, tm, recs.show(case["recs"][i]["tab"])))
    if n >= 2: ctx.nontrivial(); ctx.label("gz" if case["gz"] else "plain")

def count_tool(path):
    old = sys.argv; sys.argv = ["IO_Count.py", "-s", str(path)]
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf): IO_Count.main()
    finally: sys.argv = old
    return buf.getvalue()

def check_cut(case, ctx):
    """every byte position of a plain file (or many positions of a compressed one)"""
    d = recs.fresh(ctx); rs = [recs.build(x) for x in case["recs"]]; want = [r.proto for r in rs]
    ext = ".pb.gz" if case["gz"] else ".pb"
    full = d / ("full" + ext); write(full, rs)
    data = full.read_bytes()
    ends = [0]
    for r in want: ends.append(ends[-1] + 4 + r.ByteSize())
    if not case["gz"] and len(data) != ends[-1]: raise Violation("file of %d records has %d bytes, expected %d (4-byte length + message each)" % (len(rs), len(data), ends[-1]))
    cuts = sorted(set([c % (len(data) + 1) for c in case["cuts"]] + ([e + x for e in ends for x in (-1, 0, 1, 3, 4, 5) if 0 <= e + x <= len(data)] if not case["gz"] else [0, len(data), len(data) - 1, len(data) - 8])))
    if len(data) < 260: cuts = range(len(data) + 1)
    cut = d / ("cut" + ext)
    for c in cuts:
        if c < 0: continue
        ctx.evals += 1
        cut.write_bytes(data[:c])
        got, err = drain(cut)
        if case["gz"]:
            compare(got, want[:len(got)], "cut at byte %d of %d" % (c, len(data)))
            if c == len(data) and (err is not None or len(got) != len(want)): raise Violation("complete compressed file: %r, %d of %d records" % (err, len(got), len(want)))
            if 0 < c < len(data) and err is None: raise Violation("compressed file cut at byte %d of %d: %d of %d records and no error" % (c, len(data), len(got), len(want)))
            continue
        m = max(i for i, e in enumerate(ends) if e <= c)
        if len(got) != m: raise Violation("cut at byte %d: %d complete records, %d read (%r)" % (c, m, len(got), err))
        compare(got, want[:m], "cut at byte %d" % c)
        between = c in ends
        if between and err is not None: raise Violation("cut at byte %d, between records: %r" % (c, err))
        if not between and err is None: raise Violation("cut at byte %d, inside record %d, read without an error" % (c, m))
        if not between and not isinstance(err, IO.Proto.IO_Error): raise Violation("cut at byte %d reported as %r" % (c, err))
        # reading by skipping
        n, err2 = 0, None
        try:
            with IO.Proto.Reader(cut) as rd:
                while rd.skip_record(): n += 1
        except Exception as e: err2 = e
        if n != m: raise Violation("cut at byte %d: %d complete records, %d skipped" % (c, m, n))
        if (err2 is None) != between: raise Violation("cut at byte %d (%s): skipping to the end gives %r" % (c, "between records" if between else "inside a record", err2))
        for i in (m - 1, m, m + 1):
            if i < 0: continue
            try: r = IO.Proto.load_record(cut, i)
            except Exception as e:
                if i < m: raise Violation("cut at byte %d: record %d is complete but cannot be loaded: %r" % (c, i, e))
            else:
                if i >= m: raise Violation("cut at byte %d: record %d was loaded though it is not complete" % (c, i))
                compare([r.proto], [want[i]], "load_record after a cut")
        if not between: ctx.nontrivial(("cut", len(want), c - ends[m]))
    c = case["cuts"][0] % (len(data) + 1)
    if not case["gz"]:
        cut.write_bytes(data[:c]); m = max(i for i, e in enumerate(ends) if e <= c)
        out = count_tool(cut)
        if "Total # TMs: %d " % m not in out.replace("_", ""): raise Violation("counting a file with %d complete records: %s" % (m, out))
        if ("ERROR" in out) != (c not in ends): raise Violation("counting a file cut at byte %d: %s" % (c, out))

def check_damage(case, ctx):
    """overwritten bytes: whatever is returned before the damage is right; the damaged file never yields extra records silently"""
    d = recs.fresh(ctx); rs = [recs.build(x) for x in case["recs"]]; want = [r.proto for r in rs]
    p = d / "x.pb"; write(p, rs); data = bytearray(p.read_bytes())
    ends = [0]
    for r in want: ends.append(ends[-1] + 4 + r.ByteSize())
    i = case["at"] % len(want)
    # grow a length prefix beyond the end of the file
    struct.pack_into("<L", data, ends[i], (len(data) - ends[i] - 4) + 1 + case["extra"])
    p.write_bytes(bytes(data))
    got, err = drain(p)
    compare(got[:i], want[:i], "records before the damage")
    if err is None: raise Violation("a record that claims to be longer than the file was read without an error")
    if len(got) != i: raise Violation("%d records read before a record longer than the file at %d" % (len(got), i))
    ctx.nontrivial()

def check_large(case, ctx):
    """records of many megabytes between small ones"""
    d = recs.fresh(ctx); path = d / ("f.pb.gz" if case["gz"] else "f.pb"); rs = []
    for n in case["sizes"]:
        r = recs.build(dict(tab=[[None, None]], status=dict(kind="unknown"), filter={}, t=len(rs), no_halt=False))
        r.proto.status.halt_status.halt_score.hex_str = "0x" + "5" * n; rs.append(r)
    write(path, rs); want = [r.proto for r in rs]
    got, err = drain(path)
    if err is not None: raise Violation("records of %r bytes: %r" % (case["sizes"], err))
    compare(got, want, "sequential reading")
    for i in range(len(rs)):
        try: r = IO.Proto.load_record(path, i)
        except Exception as e: raise Violation("load_record(%d) of records of sizes %r: %r" % (i, case["sizes"], e))
        compare([r.proto], [want[i]], "load_record(%d)" % i)
    if max(case["sizes"]) > 10**5: ctx.nontrivial()
def check_edited(case, ctx):
    """records are independent of each other: changing the machine of one that was read (as the tools do when they fill in or standardise a transition) changes
    neither another record, equal or not, nor what reading the file again gives"""
    d = recs.fresh(ctx); path = d / case["name"]
    tabs = [case["tabs"][i % len(case["tabs"])] for i in case["order"]]; text = ".pb" not in case["name"]
    with IO.Writer(path) as w:
        for t in tabs: w.write_record(IO.TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(recs.machine(t), allow_no_halt=False)))
    def read():
        with IO.Reader(path) as rd: return list(rd)
    def look(rs, want, how):
        if len(rs) != len(want): raise Violation("%s: %d records, expected %d" % (how, len(rs), len(want)))
        for i, (r, t) in enumerate(zip(rs, want)):
            if r.ttable_str() != recs.show(t): raise Violation("%s: record %d holds %s, expected %s" % (how, i, r.ttable_str(), recs.show(t)))
    rs = read(); now = [[[c for c in row] for row in t] for t in tabs]
    if case["early"]: look(rs, now, "first reading")
    for e in case["edits"]:
        i = e["i"] % len(rs); q = e["q"] % len(now[i]); y = e["y"] % len(now[i][0])
        if e["kind"] == "standardise":
            rs[i].proto.status.halt_status.is_decided = True; rs[i].proto.status.halt_status.is_halting = True
            rs[i].proto.status.halt_status.from_state = q; rs[i].proto.status.halt_status.from_symbol = y
            rs[i].standardize_halt_trans(); new = [1, "R", -1]
        elif e["kind"] == "halt":
            rs[i].tm_enum().set_halt_trans(state_in=q, symbol_in=y); rs[i].update_tm(rs[i].tm_enum()); new = [1, "R", -1]
        else:
            n = e["n"] % len(now[i]); v = e["v"] % len(now[i][0])
            rs[i].tm_enum().set_trans(state_in=q, symbol_in=y, symbol_out=v, dir_out=e["d"], state_out=n); rs[i].update_tm(rs[i].tm_enum()); new = [v, "LR"[e["d"]], n]
        now[i] = [[new if (a, b) == (q, y) else c for b, c in enumerate(row)] for a, row in enumerate(now[i])]
        look(rs, now, "after editing record %d" % i)
        look(read(), tabs, "reading the unchanged file again")
        look([IO.guess_module(path).load_record(path, i) if hasattr(IO, "guess_module") else read()[i]], [tabs[i]], "loading record %d of the unchanged file again" % i)
        ctx.evals += 1
    for t in tabs:
        if IO.parse_tm(recs.show(t)).ttable_str() != recs.show(t): raise Violation("%s is parsed as %s" % (recs.show(t), IO.parse_tm(recs.show(t)).ttable_str()))
    out = d / ("out" + case["name"])
    with IO.Writer(out) as w:
        for r in rs: r.clear_proto(); w.write_record(r)
    with IO.Reader(out) as rd: look(list(rd), now, "edited records written and read")
    if len(set(case["order"][:len(tabs)])) < len(tabs): ctx.label("equal machines"); ctx.nontrivial()
@st.composite
def s_edit(draw):
    tab = recs.tables(st.sampled_from([(2, 2), (3, 2), (2, 3), (5, 2), (4, 3), (8, 2), (2, 8)]))
    e = st.fixed_dictionaries(dict(kind=st.sampled_from(["standardise", "halt", "run"]), i=st.integers(0, 5), q=st.integers(0, 7), y=st.integers(0, 7), n=st.integers(0, 7), v=st.integers(0, 7), d=st.integers(0, 1)))
    return dict(tabs=draw(st.lists(tab, min_size=1, max_size=3)), order=draw(st.lists(st.integers(0, 2), min_size=1, max_size=5)), edits=draw(st.lists(e, min_size=1, max_size=4)), early=draw(st.booleans()), name=draw(st.sampled_from(["f.pb", "f.txt", "f.pb.gz", "f.txt.gz"])))

def check_many(case, ctx):
    """files of thousands of records: the machine loaded by its number is the one written there, in every format"""
    d = recs.fresh(ctx); n = case["n"]; path = d / case["name"]
    def tab(i):
        x = i * 40503 % 65536; return [[[x >> (4 * (2 * q + y)) & 1, "LR"[x >> (4 * (2 * q + y) + 1) & 1], x >> (4 * (2 * q + y) + 2) & 3] if (q, y) != (0, 0) or x & 15 != 5 else None for y in (0, 1)] for q in (0, 1)]
    tab4 = lambda i: tab(i) + [[[1, "R", i % 4], None], [None, [0, "L", -1]]]
    with IO.Writer(path) as w:
        for i in range(n):
            r = IO.TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(recs.machine(tab4(i)), allow_no_halt=False)); r.proto.elapsed_time_us = i; w.write_record(r)
    ids = {x % n for x in case["ids"]} | {0, 255, 256, 257, n - 1}
    mod = IO.Proto if ".pb" in case["name"] else IO.StdText
    for i in sorted(ids):
        if i >= n: continue
        want = recs.show(tab4(i))
        r = mod.load_record(path, i)
        if r.ttable_str() != want: raise Violation("load_record(%d) of %d gives %s, written %s" % (i, n, r.ttable_str(), want))
        if ".pb" in case["name"] and r.proto.elapsed_time_us != i: raise Violation("load_record(%d) of %d gives record %d" % (i, n, r.proto.elapsed_time_us))
        for how, m in (("load_tm", IO.load_tm(path, i)), ("get_tm", IO.get_tm("%s:%d" % (path, i)))):
            if m.ttable_str() != want: raise Violation("%s of record %d of %d gives %s, written %s" % (how, i, n, m.ttable_str(), want))
        ctx.evals += 3
    for i in (n, n + 1, n + 300):
        try: r = mod.load_record(path, i)
        except Exception: continue
        raise Violation("load_record(%d) of a file of %d records returns %s" % (i, n, r.ttable_str()))
    with IO.Reader(path) as rd:
        k = 0
        for r in rd:
            if r.ttable_str() != recs.show(tab4(k)): raise Violation("record %d of %d reads as %s, written %s" % (k, n, r.ttable_str(), recs.show(tab4(k))))
            k += 1
    if k != n: raise Violation("%d of %d records read" % (k, n))
    if n > 1000: ctx.nontrivial()
def s_many(): return st.fixed_dictionaries(dict(n=st.one_of(st.integers(1, 700), st.integers(1000, 3500)), name=st.sampled_from(["f.pb", "f.txt", "f.pb.gz", "f.txt.gz"]), ids=st.lists(st.integers(0, 10**6), min_size=3, max_size=8)))
def large_cases(tier, rng):
    L = [[3, 70000, 5], [1, 2**20, 2**16 - 8, 3], [2**24 + 10, 1], [1, 2**24 - 20, 2], [65500 + rng.randrange(60), 65536 + rng.randrange(200), 4], [rng.randrange(10**6) for _ in range(4)], [126, 127, 128, 129, 16380, 16384, 250, 256]]
    if tier != "quick": L += [[2**25 + rng.randrange(9), 7]] + [[rng.randrange(10 ** rng.randrange(1, 7)) for _ in range(6)] for _ in range(60)]
    return [dict(sizes=x, gz=g) for x in L for g in (False, True) if not (g and max(x) > 2**22)]
R = recs.record()
def s_hist(): return st.fixed_dictionaries(dict(recs=st.lists(R, max_size=7), gz=st.booleans(), segs=st.lists(st.lists(st.sampled_from("wwwwf"), max_size=7), min_size=1, max_size=3), ops=st.lists(st.sampled_from("sr"), max_size=9), pick=st.integers(0, 60), blank=st.one_of(st.just([]), st.lists(st.integers(0, 7), max_size=3))))
def s_cut(): return st.fixed_dictionaries(dict(recs=st.lists(R, min_size=1, max_size=4), gz=st.integers(0, 2).map(lambda x: x == 0), cuts=st.lists(st.integers(0, 10**6), min_size=1, max_size=12)))
def s_dam(): return st.fixed_dictionaries(dict(recs=st.lists(R, min_size=1, max_size=4), at=st.integers(0, 9), extra=st.sampled_from([0, 1, 5, 100000])))
TESTS = [
    Test("history", check_history, strategy=s_hist, quick=6000, thorough=15000),
    Test("cut", check_cut, strategy=s_cut, quick=2200, thorough=6000),
    Test("edited", check_edited, strategy=s_edit, quick=2500, thorough=15000),
    Test("many", check_many, strategy=s_many, quick=60, thorough=800),
    Test("large", check_large, cases=large_cases),
    Test("overlong", check_damage, strategy=s_dam, quick=1500, thorough=4000),
]
