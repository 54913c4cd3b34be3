"""Development aid: machines that apply rules before being proven infinite (inputs for C03; no oracle value in them)."""
import sys, random, os
sys.path.insert(0, "/verif/vlib"); sys.path.insert(0, "/verif")
import core; core.setup_paths()
import gen, simlib
from simlib import Turing_Machine
from multiprocessing import Pool
def rand_tm(r):
    ns, k = r.choice([(3, 2), (4, 2), (5, 2), (5, 2), (6, 2), (2, 3), (3, 3), (2, 4)])
    rows = []
    for s in range(ns):
        rows.append("".join("1RB" if (s, a) == (0, 0) else "%d%s%s" % (r.randrange(k), r.choice("LR"), chr(65 + r.randrange(ns))) for a in range(k)))
    return "_".join(rows)
def work(seed):
    r = random.Random(seed); out = []
    for _ in range(4000):
        t = rand_tm(r)
        o = dict(n=r.choice([1, 1, 2, 3]), off=0, back=r.random() < .4, prover=True, recursive=r.random() < .6, limited_rules=r.random() < .4)
        try:
            s = simlib.make_sim(t, o)
            while s.op_state == Turing_Machine.RUNNING and s.num_loops < 400 and s.tape.compressed_size() < 60: s.step()
        except Exception: continue
        if s.op_state == Turing_Machine.INF_REPEAT and s.num_rule_moves and s.inf_reason is not None:
            out.append((t, s.num_loops))
    return out
if __name__ == "__main__":
    seen = {}
    with Pool(8) as p:
        for l in p.imap_unordered(work, range(int(sys.argv[1]))):
            for t, n in l: seen.setdefault(t, n)
    for t in sorted(seen): print(t, seen[t])
