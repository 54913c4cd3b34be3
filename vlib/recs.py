"""Generated machine records: arbitrary status / filter fields by walking the message descriptors."""
import struct
from hypothesis import strategies as st
import core
core.setup_paths()
import io_pb2, TM_Enum
from IO import TM_Record
from Macro import Turing_Machine as TMod
from google.protobuf.descriptor import FieldDescriptor as FD

CH = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
@st.composite
def tables(draw, sizes):
    ns, ny = draw(sizes)
    p = draw(st.sampled_from(["mixed", "run", "sparse"]))
    def cell():
        k = draw(st.integers(0, 9))
        if (p == "sparse" and k < 6) or (p == "mixed" and k < 1): return None
        n = -1 if (p != "run" and k == 9) else draw(st.integers(0, ns - 1))
        return [draw(st.integers(0, ny - 1)), draw(st.sampled_from("LR")), n]
    return [[cell() for _ in range(ny)] for _ in range(ns)]
SMALL = st.sampled_from([(2, 2), (3, 2), (2, 3), (5, 2), (7, 7), (1, 2), (4, 3)])
SIZES = st.one_of(SMALL, SMALL, SMALL, st.sampled_from([(8, 2), (2, 8), (9, 3), (12, 2), (25, 2), (2, 10)]))
def show(tab): return "_".join("".join("---" if c is None else "%d%s%s" % (c[0], c[1], "Z" if c[2] < 0 else CH[c[2]]) for c in row) for row in tab)
def machine(tab):
    q = [(i, j, c[0], "LR".index(c[1]), c[2]) for i, row in enumerate(tab) for j, c in enumerate(row) if c is not None]
    return TMod.tm_from_quintuples(q, states=list(range(len(tab))), symbols=list(range(len(tab[0]))))

U64 = st.one_of(st.integers(0, 10), st.integers(0, 2**64 - 1), st.sampled_from([0, 2**63, 2**64 - 1]))
def _scalar(f):
    if f.type == FD.TYPE_BOOL: return st.booleans()
    if f.type == FD.TYPE_UINT64: return U64
    if f.type in (FD.TYPE_SINT64, FD.TYPE_INT64): return st.one_of(st.integers(-10, 10), st.integers(-2**63, 2**63 - 1))
    if f.type in (FD.TYPE_SINT32, FD.TYPE_INT32): return st.integers(-2**31, 2**31 - 1)
    if f.type == FD.TYPE_FLOAT: return st.floats(width=32, allow_nan=False, allow_infinity=False)
    if f.type == FD.TYPE_STRING: return st.text(max_size=6)
    if f.type == FD.TYPE_BYTES: return st.binary(max_size=6).map(list)
    if f.type == FD.TYPE_ENUM: return st.sampled_from([v.number for v in f.enum_type.values])
    raise ValueError(f.type)
@st.composite
def message(draw, desc, depth=0, p=3):
    """nested dict of a random subset of the fields of a message type (BigInt fields: value under 'int' or 'hex')"""
    out = {}
    if desc.name == "BigInt":
        return draw(st.one_of(st.just({}), st.integers(0, 2000).map(lambda x: {"int": x}), st.sampled_from([0, 999, 1000, 1001, 2**63 - 1]).map(lambda x: {"int": x}), st.integers(2**63, 2**200).map(lambda x: {"hex_str": hex(x)})))
    skip = set()
    for o in desc.oneofs:
        keep = draw(st.integers(-1, len(o.fields) - 1))
        skip |= {f.name for i, f in enumerate(o.fields) if i != keep}
    for f in desc.fields:
        if f.name in skip: continue
        if draw(st.integers(0, p)) and not f.containing_oneof: continue
        if f.type == FD.TYPE_MESSAGE:
            if f.is_repeated if hasattr(f, "is_repeated") else f.label == FD.LABEL_REPEATED: continue
            out[f.name] = draw(message(f.message_type, depth + 1, p))
        else: out[f.name] = draw(_scalar(f))
    return out
def fill(msg, d):
    for k, v in d.items():
        f = msg.DESCRIPTOR.fields_by_name[k]
        if f.type == FD.TYPE_MESSAGE:
            sub = getattr(msg, k); sub.SetInParent(); fill(sub, v)
        elif f.type == FD.TYPE_BYTES: setattr(msg, k, bytes(v))
        else: setattr(msg, k, v)

@st.composite
def status(draw):
    """a status as the tools produce them, with all kinds of verdict"""
    big = st.one_of(st.none(), st.integers(0, 5), st.sampled_from([998, 999, 1000, 1001]), st.integers(0, 3000), st.integers(2**62, 2**70), st.integers(0, 2**300))
    k = draw(st.sampled_from(["unknown", "halt", "inf", "inf", "inf_q", "inf_nq"]))
    return dict(kind=k, steps=draw(big), score=draw(big), fs=draw(st.integers(0, 6)), fy=draw(st.integers(0, 6)), reason=draw(st.integers(0, 8)))
def put_status(s, d):
    import Halting_Lib
    if d["kind"] == "unknown": return
    s.halt_status.is_decided = True
    if d["kind"] == "halt":
        s.halt_status.is_halting = True
        if d["steps"] is not None: Halting_Lib.set_big_int(s.halt_status.halt_steps, d["steps"])
        if d["score"] is not None: Halting_Lib.set_big_int(s.halt_status.halt_score, d["score"])
        s.halt_status.from_state = d["fs"]; s.halt_status.from_symbol = d["fy"]
        s.quasihalt_status.is_decided = True
    else:
        s.halt_status.inf_reason = d["reason"]
        if d["kind"] != "inf": s.quasihalt_status.is_decided = True
        if d["kind"] == "inf_q":
            s.quasihalt_status.is_quasihalting = True; s.quasihalt_status.quasihalt_state = d["fs"]
            if d["steps"] is not None: Halting_Lib.set_big_int(s.quasihalt_status.quasihalt_steps, d["steps"])

@st.composite
def record(draw, sizes=SIZES, wild=True):
    """JSON-able description of a record"""
    d = dict(tab=draw(tables(sizes)), status=draw(status()), filter=draw(message(io_pb2.FilterResults.DESCRIPTOR)), t=draw(st.integers(0, 10**9)), no_halt=draw(st.booleans()))
    if wild and draw(st.integers(0, 3)) == 0: d["raw"] = draw(message(io_pb2.BBStatus.DESCRIPTOR))
    return d
def build(d):
    r = TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(machine(d["tab"]), allow_no_halt=d["no_halt"]))
    if "raw" in d: fill(r.proto.status, d["raw"])
    else: put_status(r.proto.status, d["status"])
    fill(r.proto.filter, d["filter"])
    if d["t"] % 2: r.proto.elapsed_time_us = d["t"]
    if d["t"] % 3 == 0: r.proto.spec_version = d["t"] % 7
    return r

def fresh(ctx):
    """empty directory for one case"""
    import shutil, os
    from pathlib import Path
    d = os.path.join(ctx.scratch, "case")
    shutil.rmtree(d, ignore_errors=True); os.mkdir(d)
    return Path(d)
