import os, sys, io, re, gzip, struct, zipfile, contextlib
from pathlib import Path
from hypothesis import strategies as st
import core, ref, gen
from core import Test, Violation, Rejected
core.setup_paths()
import IO, IO_Convert, TM_Enum, Halting_Lib, io_pb2
from IO import TM_Record
from Macro import Turing_Machine as TMod

PROPERTY = "C14"
RULE = ("case = machine tables (own representation: cells None / (symbol, L|R, next state or -1)), a chain of formats, or a damaged text.  Non-trivial = a table with at least one undefined, one halting and one running "
        "cell, or more than 7 states or symbols, or a file of 2+ machines, or a text that is really malformed")
ASSUMPTIONS = ["text format: up to 25 states and 10 symbols (a halt may be written with any letter beyond the machine's states); packed form up to 7x7; Morphett holds one machine per file and has no way to write undefined cells, so states "
               "and symbols come back in order of first appearance", "any exception counts as rejecting a malformed description"]
BUDGET = dict(quick=200, thorough=1500)
CH = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

# ---- tables: list of rows of None | [sym, "L"/"R", next|-1] -----------------------------------------------------
@st.composite
def tables(draw, sizes):
    ns, ny = draw(sizes)
    p = draw(st.sampled_from(["mixed", "run", "sparse"]))
    def cell():
        k = draw(st.integers(0, 9))
        if (p == "sparse" and k < 6) or (p == "mixed" and k < 1): return None
        n = -1 if (p != "run" and k == 9) else draw(st.integers(0, ns - 1))
        return [draw(st.integers(0, ny - 1)), draw(st.sampled_from("LR")), n]
    return [[cell() for _ in range(ny)] for _ in range(ns)]
SMALL = st.tuples(st.integers(1, 7), st.integers(1, 7))
TEXT = st.one_of(SMALL, st.sampled_from([(8, 2), (2, 8), (7, 8), (8, 7), (9, 3), (3, 9), (2, 10), (1, 10), (24, 2), (25, 2), (25, 3), (12, 4), (4, 10), (1, 1)]))
ANY = st.one_of(TEXT, st.sampled_from([(26, 2), (2, 11), (40, 2), (3, 15), (64, 2)]))

def show(tab, halt="Z"):
    return "_".join("".join("---" if c is None else "%d%s%s" % (c[0], c[1], halt if c[2] < 0 else CH[c[2]]) for c in row) for row in tab)
def machine(tab):
    """machine object through the public constructor"""
    q = [(i, j, c[0], "LR".index(c[1]), c[2]) for i, row in enumerate(tab) for j, c in enumerate(row) if c is not None]
    return TMod.tm_from_quintuples(q, states=list(range(len(tab))), symbols=list(range(len(tab[0]))))
def cells(tm):
    """table read through the machine object's transition interface"""
    out = []
    for q in range(tm.num_states):
        row = []
        for s in range(tm.num_symbols):
            t = tm.get_trans_object(s, q)
            if t.condition == TMod.UNDEFINED: row.append(None)
            elif t.condition == TMod.HALT: row.append([int(t.symbol_out), "LR"[t.dir_out], -1])
            elif t.condition == TMod.RUNNING: row.append([int(t.symbol_out), "LR"[t.dir_out], int(t.state_out)])
            else: raise Violation("transition with condition %r in a machine read back" % t.condition)
            if t.num_base_steps != 1: raise Violation("transition of a plain machine counts %r steps" % t.num_base_steps)
        out.append(row)
    return out
def same(tm, tab, how):
    got = cells(tm)
    if got != tab:
        if len(got) != len(tab) or len(got[0]) != len(tab[0]): raise Violation("%s: %dx%d machine read back as %dx%d" % (how, len(tab), len(tab[0]), len(got), len(got[0])))
        q, s = next((q, s) for q in range(len(tab)) for s in range(len(tab[0])) if got[q][s] != tab[q][s])
        raise Violation("%s: transition (%d,%d) of %r read back as %r" % (how, q, s, tab[q][s], got[q][s]))
def rich(tab):
    c = [x for r in tab for x in r]
    return (None in c and any(x and x[2] < 0 for x in c) and any(x and x[2] >= 0 for x in c)) or len(tab) > 7 or len(tab[0]) > 7
def record(tab, no_halt=False): return TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(machine(tab), allow_no_halt=no_halt))

def check_text(case, ctx):
    tab = case["tab"]; ns = len(tab)
    s = machine(tab).ttable_str()
    if s != show(tab): raise Violation("machine %s prints as %s" % (show(tab), s))
    same(IO.parse_tm(s), tab, "parse of %s" % s)
    if ns < 25:
        h = CH[ns + case["halt"] % (26 - ns)]
        same(IO.parse_tm(show(tab, h)), tab, "parse of %s" % show(tab, h))
        if IO.parse_tm(show(tab, h)).ttable_str() != s: raise Violation("%s prints as %s" % (show(tab, h), IO.parse_tm(show(tab, h)).ttable_str()))
    same(IO.get_tm(s), tab, "get_tm of %s" % s)
    if record(tab).ttable_str() != s: raise Violation("record of %s prints as %s" % (s, record(tab).ttable_str()))
    if rich(tab): ctx.nontrivial(); ctx.label("%dx%d" % (ns, len(tab[0])))

def check_binary(case, ctx):
    tab = case["tab"]; ns, ny = len(tab), len(tab[0])
    m = machine(tab)
    if ns <= 7 and ny <= 7:
        b = TM_Record.pack_tm(m)
        if len(b) != ns * ny: raise Violation("packed form of a %dx%d machine has %d bytes" % (ns, ny, len(b)))
        same(TM_Record.unpack_tm(b), tab, "packed form of %s" % show(tab))
        same(m, tab, "machine after packing")
    l = io_pb2.TMList(); TM_Record.tm_to_list(m, l)
    l2 = io_pb2.TMList(); l2.ParseFromString(l.SerializeToString())
    same(TM_Record.tm_from_list(l2), tab, "list form")
    same(m, tab, "machine after storing it as a list")
    p = io_pb2.TuringMachine()
    if case["old"] is not None: TM_Record.write_tm(machine(case["old"]), p)     # overwriting an earlier machine
    TM_Record.write_tm(m, p)
    p2 = io_pb2.TuringMachine(); p2.ParseFromString(p.SerializeToString())
    same(TM_Record.read_tm(p2), tab, "stored machine")
    # legacy: stored as text
    if ns <= 25 and ny <= 10:
        p3 = io_pb2.TuringMachine(); p3.ttable_str = show(tab)
        same(TM_Record.read_tm(p3), tab, "machine stored as text")
    r = record(tab, case["no_halt"])
    if case["old"] is not None:
        r = record(case["old"]); r.update_tm(TM_Enum.TM_Enum(machine(tab), allow_no_halt=case["no_halt"]))
    pr = io_pb2.TMRecord(); pr.ParseFromString(r.proto.SerializeToString())
    r2 = TM_Record.TM_Record(proto=pr)
    same(r2.tm(), tab, "record")
    if bool(r2.tm_enum().allow_no_halt) != case["no_halt"]: raise Violation("record forgets whether the machine may have no halt")
    if rich(tab): ctx.nontrivial(); ctx.label("%dx%d" % (ns, ny))

def check_trans(case, ctx):
    s, d, q, nr = case["s"], case["d"], case["q"], case["nr"]
    b = TM_Record.pack_trans_ints(s, d, q, nr)
    if not 0 <= b < 256: raise Violation("packed byte %r" % b)
    got = TM_Record.unpack_trans_ints(b)
    if tuple(got) != (s, d, q, nr): raise Violation("transition byte of %r reads as %r" % ((s, d, q, nr), got))
    ctx.nontrivial((s, d, q, nr))
def trans_cases(tier, rng): return [dict(s=s, d=d, q=q, nr=n) for s in range(-1, 7) for d in (0, 1) for q in range(-1, 7) for n in (False, True)]

# ---- files ------------------------------------------------------------------------------------------------------
EXT = dict(text=["a.txt", "a", "a.txt.gz", "b.machines.gz"], proto=["a.pb", "a.pb.gz", "x.y.pb"], morphett=["a.morphett", "a.morphett.gz", "b.txt.morphett"])
def fits_text(tabs): return all(len(t) <= 25 and len(t[0]) <= 10 for t in tabs)
def fits_morphett(tabs): return len(tabs) == 1 and all(all(c is not None for c in r) for r in tabs[0])
def convert(args):
    old = sys.argv
    sys.argv = ["IO_Convert.py"] + args
    try:
        with contextlib.redirect_stdout(io.StringIO()): IO_Convert.main()
    finally: sys.argv = old

def read_all(path):
    with IO.Reader(path) as rd: return list(rd)

def check_files(case, ctx):
    tabs = case["tabs"]; d = Path(ctx.scratch)
    cur = None
    for i, (fmt, name, tool) in enumerate(case["chain"]):
        path = d / ("%d" % i) / name; path.parent.mkdir(exist_ok=True)
        refuse = (fmt == "text" and not fits_text(tabs)) or (fmt == "morphett" and not fits_morphett(tabs))
        def put():
            if cur is None:
                with IO.Writer(path if i % 2 else str(path)) as w:
                    for t in tabs: w.write_record(record(t))
            elif tool == "explicit": convert([str(cur[0]), str(path), "--informat", cur[1], "--outformat", fmt])
            else: convert([str(cur[0]), str(path)])
        if refuse:
            if fmt == "morphett" and len(tabs) == 1: continue      # undefined cells: only up to renaming, see morphett test
            try: put()
            except Exception: ctx.label("refused"); continue
            raise Violation("writing %d machines (first %dx%d) as %s was not refused although the format cannot hold them" % (len(tabs), len(tabs[0]), len(tabs[0][0]), fmt))
        put()
        cur = (path, fmt)
        how = "file %s (%s)" % (name, " > ".join(c[0] for c in case["chain"][:i + 1]))
        if (path.read_bytes()[:2] == b"\x1f\x8b") != (".gz" in path.suffixes): raise Violation("%s: compression does not follow the file name" % how)
        recs = read_all(path)
        if len(recs) != len(tabs): raise Violation("%s: %d machines written, %d read" % (how, len(tabs), len(recs)))
        for r, t in zip(recs, tabs): same(r.tm(), t, how)
        k = case["pick"] % (len(tabs) + 2)
        if k < len(tabs):
            same(IO.load_tm(path, k), tabs[k], how + " record %d" % k)
            same(IO.get_tm("%s:%d" % (path, k)), tabs[k], how + " get_tm :%d" % k)
            if k == 0: same(IO.get_tm(str(path)), tabs[0], how + " get_tm")
        elif fmt != "morphett":
            try: r = IO.load_tm(path, k)
            except Exception: pass
            else: raise Violation("%s: record %d does not exist but was loaded" % (how, k))
        ctx.evals += 1
    if cur and (len(tabs) > 1 or rich(tabs[0])): ctx.nontrivial(); ctx.label("%d steps" % len(case["chain"]))

def check_text_file(case, ctx):
    """hand-written text files: trailing columns, spaces, blank lines, missing last newline"""
    tabs = case["tabs"]; lines = []
    for t, deco in zip(tabs, case["deco"]):
        lines += [""] * deco[0]
        lines.append(" " * deco[1] + show(t) + deco[2])
    data = "\n".join(lines) + case["end"]
    p = Path(ctx.scratch) / case["name"]
    if p.suffix == ".gz": p.write_bytes(gzip.compress(data.encode()))
    else: p.write_text(data)
    recs = read_all(p)
    if len(recs) != len(tabs): raise Violation("text file with %d machines read as %d: %r" % (len(tabs), len(recs), data))
    for r, t in zip(recs, tabs): same(r.tm(), t, "text file")
    with IO.StdText.Reader(io.StringIO(data)) as rd:
        got = []
        for k, c in enumerate(case["ops"]):
            if len(got) >= len(tabs): break
            if c == "skip":
                if not rd.skip_record(): raise Violation("skip_record says the file ended at record %d of %d" % (len(got), len(tabs)))
                got.append(None)
            else:
                r = rd.read_record()
                if r is None: raise Violation("read_record ended at record %d of %d" % (len(got), len(tabs)))
                same(r.tm(), tabs[len(got)], "text file after skipping"); got.append(1)
        if len(got) == len(tabs):
            if rd.skip_record() if case["ops"][0] == "skip" else rd.read_record(): raise Violation("a record after the last one")
    if len(tabs) > 1: ctx.nontrivial()

# ---- malformed ---------------------------------------------------------------------------------------------------
def strict(text):
    """own parser of the standard format; None = malformed"""
    rows = text.strip().split("_")
    n = len(rows)
    if n > 26: return None
    w = len(rows[0])
    tab = []
    for r in rows:
        if len(r) != w or len(r) % 3 or not r: return None
        row = []
        for i in range(0, len(r), 3):
            t = r[i:i + 3]
            if t == "---": row.append(None); continue
            if t[0] not in "0123456789" or t[1] not in "LR" or t[2] not in CH: return None
            if int(t[0]) >= w // 3: return None
            q = CH.index(t[2])
            row.append([int(t[0]), t[1], q if q < n else -1])
        tab.append(row)
    return tab
def check_malformed(case, ctx):
    s = show(case["tab"])
    for kind, at, ch in case["edits"]:
        at %= max(1, len(s))
        if kind == "del": s = s[:at] + s[at + 1:]
        elif kind == "ins": s = s[:at] + ch + s[at:]
        elif kind == "set": s = s[:at] + ch + s[at + 1:]
        elif kind == "cut": s = s[:at]
        elif kind == "dup": s = s[:at] + s[at:at + 3] + s[at:]
        elif kind == "row": s = "_".join(s.split("_")[:-1] + [s.split("_")[-1][:3 * (at % 3)]])
    if s != s.strip() or not s or "" in s.strip().split("_"): return       # empty descriptions: not looked at
    want = strict(s)
    try: tm = IO.parse_tm(s)
    except Exception as e:
        if want is not None: raise Violation("valid machine %r rejected: %r" % (s, e))
        ctx.nontrivial(); ctx.label("rejected"); return
    if want is None: raise Violation("malformed machine %r read as %s" % (s, tm.ttable_str()))
    same(tm, want, "parse of %r" % s); ctx.label("still valid")

# ---- Morphett ----------------------------------------------------------------------------------------------------
def check_morphett(case, ctx):
    """hand-written quintuple files: names, comments, breakpoints, any line order"""
    tab = case["tab"]; ns, ny = len(tab), len(tab[0])
    sname = ["%s%d" % (case["sname"], i) for i in range(ns)]; yname = ["_"] + ["%s%d" % (case["yname"], i) for i in range(1, ny)]
    lines = [(q, s) for q in range(ns) for s in range(ny) if tab[q][s] is not None]
    if not lines or lines[0][0] != 0: raise Rejected()
    lines = [lines[0]] + [x for _, x in sorted((case["keys"][i % len(case["keys"])] * 1000 + i, x) for i, x in enumerate(lines[1:]))] if case["shuffle"] else lines
    so, yo = [], [0]
    for q, s in lines:
        if q not in so: so.append(q)
        if s not in yo: yo.append(s)
    used_s = {c[2] for r in tab for c in r if c and c[2] >= 0}; used_y = {c[0] for r in tab for c in r if c}
    bad = bool(used_s - set(so)) or bool(used_y - set(yo))
    text = "; a comment\n\n"
    for k, (q, s) in enumerate(lines):
        c = tab[q][s]
        text += "%s %s  %s %s %s%s%s\n" % (sname[q], yname[s], yname[c[0]], c[1].lower(), "halt" + case["hs"] if c[2] < 0 else sname[c[2]], " !" if case["bp"] and k == 1 else "", " ; note" if k % 3 == 0 else "")
        if k % 4 == 1: text += "\n"
    damage = case["damage"]
    if damage == "dir": text = text.replace(" %s " % tab[lines[0][0]][lines[0][1]][1].lower(), " %s " % case["baddir"], 1)
    if damage == "short": text += "%s _ 1\n" % sname[0]
    p = Path(ctx.scratch) / "m.morphett"; p.write_text(text)
    try: tm = IO.get_tm(str(p))
    except Exception as e:
        if damage or bad: ctx.label("rejected"); ctx.nontrivial(("bad", damage)); return
        raise Violation("valid quintuples rejected (%r):\n%s" % (e, text))
    if damage or bad: raise Violation("malformed quintuples were read as %s:\n%s" % (tm.ttable_str(), text))
    si = {q: i for i, q in enumerate(so)}; yi = {s: i for i, s in enumerate(yo)}
    want = [[None] * len(yo) for _ in so]
    for q, s in lines:
        c = tab[q][s]; want[si[q]][yi[s]] = [yi[c[0]], c[1], si[c[2]] if c[2] >= 0 else -1]
    same(tm, want, "quintuples")
    # write it out again, twice over
    r = TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(tm, allow_no_halt=False))
    same(r.tm(), want, "record from quintuples")
    pr = io_pb2.TMRecord(); pr.ParseFromString(r.proto.SerializeToString())
    same(TM_Record.TM_Record(proto=pr).tm(), want, "stored record from quintuples")
    full = all(c is not None for row in want for c in row)
    if full:
        p2 = Path(ctx.scratch) / "m2.morphett"
        with IO.Morphett.Writer(p2) as w: w.write_record(r)
        same(IO.get_tm(str(p2)), want, "quintuples written and read")
    if len(so) >= 2 and len(yo) >= 2: ctx.nontrivial(); ctx.label("full" if full else "partial")

# ---- bbchallenge -------------------------------------------------------------------------------------------------
def bbc_bytes(tab):
    b = b""
    for row in tab:
        for c in row:
            if c is None: b += bytes([0, 0, 0])
            else: b += bytes([c[0], 0 if c[1] == "R" else 1, c[2] + 1])
    return b
def bbc_expect(tab): return [[None if c is not None and c[2] < 0 and c[0] == 0 else c for c in row] for row in tab]
def check_bbc(case, ctx):
    tabs = case["tabs"]; n = len(tabs); d = Path(ctx.scratch)
    want = [bbc_expect(t) for t in tabs]
    raw = bytes(case["header"]) + b"".join(bbc_bytes(t) for t in tabs)
    cut = case["cut"]
    if cut: raw = raw[:-cut]; n -= 1
    db = d / "seed.db.zip"
    with zipfile.ZipFile(db, "w") as z: z.writestr("seed.db", raw)
    got = []; err = None
    with IO.BBC.Reader(str(db)) as rd:
        try:
            for r in rd: got.append(r)
        except Exception as e: err = e
    if len(got) != n: raise Violation("%d complete machines in the database, %d read" % (n, len(got)))
    for r, t in zip(got, want): same(r.tm(), t, "bbchallenge database")
    if cut and err is None: raise Violation("database truncated inside a machine was read without an error")
    if not cut and err is not None: raise Violation("reading a complete database failed: %r" % err)
    if n == 0: return
    with IO.BBC.Reader(str(db)) as rd:
        pos = 0
        for op in case["ops"]:
            if op == "get":
                k = (case["k"] + pos) % n; same(rd.get_tm(k).tm(), want[k], "machine %d of the database" % k); pos = k + 1
            elif pos >= n: break
            elif op == "skip":
                if not rd.skip_record(): raise Violation("skip_record at machine %d of %d says there is none" % (pos, n))
                pos += 1
            else: same(rd.read_record().tm(), want[pos], "machine %d after skipping" % pos); pos += 1
        if pos == n and not cut and rd.skip_record(): raise Violation("skip_record after the last machine says there was one")
    same(IO.BBC.load_record(str(db), case["k"] % n).tm(), want[case["k"] % n], "load_record")
    idx = [i % n for i in case["index"]]
    (d / "i.index").write_bytes(b"".join(struct.pack(">L", i) for i in idx)); (d / "i.txt.index").write_text("".join("%d\n" % i for i in idx))
    for cls, f in ((IO.BBC.IndexReader, "i.index"), (IO.BBC.TextIndexReader, "i.txt.index")):
        with cls(str(db), str(d / f)) as rd: recs = list(rd)
        if len(recs) != len(idx): raise Violation("%s: %d of %d machines" % (f, len(recs), len(idx)))
        for r, i in zip(recs, idx): same(r.tm(), want[i], f)
        if not cut and idx:
            o = d / (f + ".txt"); 
            convert([str(d / f), str(o), "--outformat", "text", "--informat", "bbc_index_text" if ".txt" in f else "bbc_index", "--bbc-seed-db", str(db)])
            if o.read_text().split("\n")[:-1] != [show(want[i]) for i in idx]: raise Violation("converting %s to text gives other machines" % f)
    if idx:
        (d / "j.index").write_bytes(b"".join(struct.pack(">L", i) for i in idx)[:-case["icut"]])
        got = []
        try:
            with IO.BBC.IndexReader(str(db), str(d / "j.index")) as rd:
                for r in rd: got.append(r)
        except NameError as e: raise Violation("truncated index: %r" % e)
        except Exception: pass
        else: raise Violation("truncated index was read without an error")
        if len(got) != len(idx) - 1: raise Violation("truncated index: %d machines read, %d complete" % (len(got), len(idx) - 1))
    if not cut:
        convert([str(db), str(d / "o.pb"), "--informat", "bbc_db"])
        rs = read_all(d / "o.pb")
        if len(rs) != n: raise Violation("converted %d of %d machines" % (len(rs), n))
        for r, t in zip(rs, want): same(r.tm(), t, "converted database")
    if n >= 2: ctx.nontrivial(); ctx.label("cut" if cut else "whole")

# ---- old text (write only) ---------------------------------------------------------------------------------------
def check_old(case, ctx):
    d = Path(ctx.scratch); recs = []; lines = []
    for t, (kind, a, b, x) in zip(case["tabs"], case["stat"]):
        r = record(t); s = r.proto.status
        if kind == "halt": Halting_Lib.set_halting(s, a, b, 0, 0); tail = ["Halt", str(b), str(a)]
        elif kind == "inf":
            Halting_Lib.set_not_halting(s, x % 9); tail = ["Infinite"]
            if a % 3 == 0: Halting_Lib.set_not_quasihalting(s); q = ["No_Quasihalt", "N/A"]
            elif a % 3 == 1:
                s.quasihalt_status.is_decided = True; s.quasihalt_status.is_quasihalting = True
                Halting_Lib.set_big_int(s.quasihalt_status.quasihalt_steps, b); s.quasihalt_status.quasihalt_state = 1; q = ["1", str(b)]
            else: q = ["Quasihalt_Not_Computed", "N/A"]
            tail = ["Infinite", None] + q
        else:
            u = r.proto.filter.simulator.result.unknown_info; k = x % 6; tail = ["Unknown"]
            if k == 0: u.over_loops.num_loops = a; tail += ["Max_Steps", str(a)]
            elif k == 1: u.over_tape.compressed_tape_size = a; tail += ["Over_Tape", str(a)]
            elif k == 2: u.over_steps_in_macro.macro_symbol = "x"; tail += ["Macro_Over_Steps"]
            elif k == 3: u.threw_exception = True; tail += [None]
            elif k == 4: u.over_time.elapsed_time_sec = 2.0; tail += ["Time_Out", "2.0"]
            else: tail += ["Not_Run"]
        recs.append(r); lines.append(tail)
    src = d / "in.pb"
    with IO.Proto.Writer(src) as w:
        for r in recs: w.write_record(r)
    out = d / "out.old"
    convert([str(src), str(out)])
    got = out.read_text().split("\n")[:-1]
    if len(got) != len(recs): raise Violation("%d records written as %d lines of old text" % (len(recs), len(got)))
    for g, t, tail in zip(got, case["tabs"], lines):
        head, _, rest = g.partition(" | ")
        if "_".join("".join(r.split()) for r in re.split("  +", head)) != show(t): raise Violation("old text shows machine %s as %s" % (show(t), head))
        w = rest.split()
        if len(w) and w[0] == "None": w = w[1:]
        if tail[0] == "Infinite" and len(w) == 3: w.insert(1, "")      # unspecified reason prints as nothing
        if len(w) != len(tail) or any(b is not None and a != b for a, b in zip(w, tail)): raise Violation("old text of %s says %r, expected %r" % (show(t), rest, tail))
        if tail[0] == "Infinite": ctx.label("inf " + w[1])
    if len(recs) > 1: ctx.nontrivial()

def s_text(): return st.fixed_dictionaries(dict(tab=tables(TEXT), halt=st.integers(0, 25)))
def s_bin(): return st.fixed_dictionaries(dict(tab=tables(ANY), old=st.one_of(st.none(), tables(ANY)), no_halt=st.booleans()))
@st.composite
def s_files_(draw):
    tabs = draw(st.one_of(st.lists(tables(SMALL), min_size=1, max_size=5), st.lists(tables(TEXT), min_size=1, max_size=4), st.lists(tables(ANY), min_size=1, max_size=3), tables(TEXT).map(lambda t: [[[c or [0, "R", -1] for c in r] for r in t]])))
    if draw(st.integers(0, 9)) == 0: tabs = tabs * 40
    fm = st.sampled_from(["text", "text", "proto", "proto", "morphett"])
    chain = []
    for _ in range(draw(st.integers(1, 4))):
        f = draw(fm); chain.append([f, draw(st.sampled_from(EXT[f])), draw(st.sampled_from(["auto", "explicit"]))])
    return dict(tabs=tabs, chain=chain, pick=draw(st.integers(0, 200)))
def s_files(): return s_files_()
@st.composite
def s_tfile_(draw):
    tabs = draw(st.lists(tables(TEXT), min_size=1, max_size=6))
    deco = [[draw(st.sampled_from([0, 0, 0, 1, 2])), draw(st.sampled_from([0, 0, 1])), draw(st.sampled_from(["", "", " ", " Halt 12 3", " # x", "\t5", "  "]))] for _ in tabs]
    return dict(tabs=tabs, deco=deco, end=draw(st.sampled_from(["", "\n", "\n\n", "\n  \n"])), name=draw(st.sampled_from(["a.txt", "a.txt.gz", "list"])), ops=draw(st.lists(st.sampled_from(["skip", "read"]), min_size=1, max_size=8)))
def s_tfile(): return s_tfile_()
def s_bad():
    e = st.tuples(st.sampled_from(["del", "ins", "set", "set", "set", "cut", "dup", "row"]), st.integers(0, 400), st.sampled_from(list("0123456789LRSABCDEFGHXYZabz_-!* .#"))).map(list)
    return st.fixed_dictionaries(dict(tab=tables(st.one_of(st.tuples(st.integers(1, 4), st.integers(1, 4)), TEXT)), edits=st.lists(e, min_size=1, max_size=3)))
def s_morph():
    return st.fixed_dictionaries(dict(tab=tables(st.sampled_from([(2, 2), (3, 2), (2, 3), (5, 4), (30, 2), (3, 12), (1, 2), (4, 4)])), sname=st.sampled_from(["", "q", "A", "s_"]), yname=st.sampled_from(["", "x", "#"]),
        shuffle=st.booleans(), keys=st.lists(st.integers(0, 9), min_size=1, max_size=8), hs=st.sampled_from(["", "-accept", "_x"]), bp=st.booleans(), damage=st.sampled_from([None, None, None, None, "dir", "short"]), baddir=st.sampled_from(["R", "*", "x", "rr", "u", "right"])))
T5 = tables(st.just((5, 2)))
def s_bbc():
    return st.fixed_dictionaries(dict(tabs=st.lists(T5, min_size=1, max_size=6), header=st.binary(min_size=30, max_size=30).map(list), cut=st.sampled_from([0, 0, 0, 1, 15, 29]), ops=st.lists(st.sampled_from(["skip", "read", "get"]), max_size=8),
        k=st.integers(0, 50), index=st.lists(st.integers(0, 50), max_size=5), icut=st.integers(1, 3)))
def s_old():
    e = st.tuples(st.sampled_from(["halt", "inf", "unknown"]), st.integers(0, 10**6), st.integers(0, 10**25), st.integers(0, 100)).map(list)
    return st.integers(1, 6).flatmap(lambda n: st.fixed_dictionaries(dict(tabs=st.lists(tables(TEXT), min_size=n, max_size=n), stat=st.lists(e, min_size=n, max_size=n))))

TESTS = [
    Test("text", check_text, strategy=s_text, quick=18000, thorough=40000),
    Test("binary", check_binary, strategy=s_bin, quick=18000, thorough=40000),
    Test("packed_bytes", check_trans, cases=trans_cases),
    Test("files", check_files, strategy=s_files, quick=3000, thorough=20000),
    Test("text_file", check_text_file, strategy=s_tfile, quick=3000, thorough=15000,
         examples=[dict(tabs=[[[None]], [[None]]], deco=[[0, 0, ""], [1, 0, ""]], end="\n", name="a.txt", ops=["skip", "read"])]),
    Test("malformed", check_malformed, strategy=s_bad, quick=15000, thorough=100000,
         examples=[dict(tab=[[[1, "R", 0], None]], edits=[["set", 2, "!"]]), dict(tab=[[[1, "R", 0], None], [None, None]], edits=[["row", 1, "A"]])]),
    Test("morphett", check_morphett, strategy=s_morph, quick=5000, thorough=30000),
    Test("bbchallenge", check_bbc, strategy=s_bbc, quick=2000, thorough=12000),
    Test("old_text", check_old, strategy=s_old, quick=1800, thorough=10000),
]
