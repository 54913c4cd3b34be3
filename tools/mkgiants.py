"""Development aid: collect machines with enormous halting runs from the repository's own machine lists, with their step count and score
modulo M as agreed by several independent option sets.  Writes data/giants.txt: tm <tab> steps mod M or - <tab> score mod M <tab> fastest loops."""
import sys, os, json, signal, glob, multiprocessing as mp
sys.path.insert(0, "/verif/vlib")
import core; core.setup_paths()
import simlib, IO, Exp_Int
from simlib import Turing_Machine
M = 2**10 * 3**6 * 5**4 * 7**2 * 11 * 13 * 17 * 31
OPTS = [dict(n=n, off=0, back=b, prover=True, recursive=True, **x) for n, b in ((1, True), (2, True), (3, True), (2, False)) for x in ({}, {"exp_linear_rules": True, "exp_meta_linear_rules": True})]
def one(tm):
    out = []
    for o in OPTS:
        signal.setitimer(signal.ITIMER_VIRTUAL, 2)
        try:
            sim = simlib.make_sim(tm, o)
            while sim.op_state == Turing_Machine.RUNNING and sim.num_loops < 20000 and sim.tape.compressed_size() < 100: sim.step()
            if sim.op_state in (Turing_Machine.HALT, Turing_Machine.UNDEFINED):
                s = sim.step_num % M if sim.compute_steps else None
                big = not sim.compute_steps or sim.step_num > 20_000_000
                out.append((s, sim.get_nonzeros() % M, sim.num_loops, big))
        except Exception as e: pass
        finally: signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return tm, out
class TO(Exception): pass
def h(*a): raise TO()
def init(): signal.signal(signal.SIGVTALRM, h); sys.stderr = open(os.devnull, "w")
if __name__ == "__main__":
    tms = []
    def add(line):
        line = line.strip()
        if not line: return
        line = line.split(" Halt ")[0].split("|")[0].strip()
        if "  " in line: line = "_".join("".join(r.split()) for r in line.split("  "))
        try: t = IO.parse_tm(line).ttable_str()
        except BaseException: return
        if t and t not in tms: tms.append(t)
    for f, k in (("6x2.txt", 12), ("3x3", 1), ("2x3.txt", 300), ("2x4.txt", 5), ("5x2", 12)):
        for i, l in enumerate(open("/repo/Machines/bb/" + f)):
            if i < 100 or i % k == 0: add(l)
    for f in sorted(glob.glob("/repo/Machines/*")):
        if os.path.isfile(f):
            try: 
                t = IO.get_tm(f).ttable_str()
                if t and t not in tms: tms.append(t)
            except BaseException: pass
    print(len(tms), "candidates")
    rows = []
    with mp.Pool(6, init) as p:
        for tm, out in p.imap_unordered(one, tms):
            if len(out) < 2 or not any(x[3] for x in out): continue
            st = {x[0] for x in out if x[0] is not None}; sc = {x[1] for x in out}
            if len(st) > 1 or len(sc) > 1: print("DISAGREE", tm, out); continue
            nst = sum(1 for x in out if x[0] is not None)
            rows.append("%s\t%s\t%d\t%d" % (tm, st.pop() if st and nst >= 2 else "-", sc.pop(), min(x[2] for x in out)))
    rows.sort()
    open("/verif/data/giants.txt", "w").write("\n".join(rows) + "\n")
    print(len(rows))
