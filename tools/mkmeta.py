"""Development aid: machines for which meta rules (rules proven with the help of rules) are proven (inputs for C02, C06; no oracle value in them)."""
import sys, random, os
sys.path.insert(0, "/verif/vlib"); sys.path.insert(0, "/verif")
import core; core.setup_paths()
import gen, simlib
from simlib import Turing_Machine
from multiprocessing import Pool
def rand_tm(r):
    ns, k = r.choice([(3, 2), (4, 2), (5, 2), (5, 2), (6, 2), (2, 3), (3, 3), (2, 4)])
    rows = []
    for s in range(ns):
        rows.append("".join("1RB" if (s, a) == (0, 0) else "%d%s%s" % (r.randrange(k), r.choice("LR"), chr(65 + r.randrange(ns))) for a in range(k)))
    return "_".join(rows)
def work(seed):
    r = random.Random(seed); out = []; base = [x[0] for x in gen.corpus("halters.txt") if x[1] > 150] + [x[0] for x in gen.corpus("nonhalters.txt")]
    for k in range(4000):
        t = rand_tm(r)
        if k % 3 == 0:      # neighbours of machines with long runs
            rows = [[row[i:i + 3] for i in range(0, len(row), 3)] for row in r.choice(base).split("_")]
            if len(rows) * len(rows[0]) > 14: continue
            for _ in range(r.choice([0, 1, 1, 2])):
                a, b = r.randrange(len(rows)), r.randrange(len(rows[0])); rows[a][b] = "%d%s%s" % (r.randrange(len(rows[0])), r.choice("LR"), chr(65 + r.randrange(len(rows))))
            t = "_".join("".join(x) for x in rows)
        o = dict(n=r.choice([1, 1, 2, 3]), off=0, back=r.random() < .4, prover=True, recursive=True, limited_rules=r.random() < .5, exp_meta_linear_rules=r.random() < .5)
        try:
            s = simlib.make_sim(t, o); p = s.prover
            while s.op_state == Turing_Machine.RUNNING and s.num_loops < 600 and s.tape.compressed_size() < 60: s.step()
        except Exception: continue
        if p.num_meta_diff_rules + p.num_linear_rules + p.num_exponential_rules + p.num_gen_rules: out.append((t, s.num_loops))
    return out
if __name__ == "__main__":
    seen = {}
    with Pool(4) as p:
        for l in p.imap_unordered(work, range(int(sys.argv[1]))):
            for t, n in l: seen.setdefault(t, n)
    for t in sorted(seen): print(t, seen[t])
