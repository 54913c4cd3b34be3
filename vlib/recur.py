"""True facts about recurrence, from literal runs."""
import ref
from core import Violation
def last_diff(seq, p):
    """largest t with seq[t] != seq[t+p], or -1 (two bytes per step)"""
    a, b = seq[:len(seq) - 2 * p], seq[2 * p:]
    if a == b: return -1
    lo, hi = 0, len(a) // 2           # binary search for shortest equal suffix start
    while lo < hi:
        mid = (lo + hi) // 2
        if a[2 * mid:] == b[2 * mid:]: hi = mid
        else: lo = mid + 1
    return lo - 1

def true_recurrence(tm, H=3000):
    """(start, period, offset) proven by the textbook argument on literal configurations, or None"""
    r = ref.Run(tm)
    seq = r.seq(H)
    if r.halted: return None
    for p in range(1, H // 4):
        if seq[H:2 * (H - p)] == seq[H + 2 * p:]:   # second half periodic
            s = last_diff(seq, p) + 1
            a = ref.Run(tm).to(s); ta, pa, qa = a.tape(), a.pos, a.state
            lo = hi = pa
            for t in range(s, s + p):
                a.to(t + 1); lo, hi = min(lo, a.pos), max(hi, a.pos)
            tb, pb, qb = a.tape(), a.pos, a.state
            off = pb - pa
            if qa != qb: return None
            cells = set(ta) | {x - off for x in tb}
            if off > 0: cells = [x for x in cells if x >= lo]
            elif off < 0: cells = [x for x in cells if x <= hi]
            else: cells = [x for x in cells if lo <= x <= hi]
            if all(ta.get(x, 0) == tb.get(x + off, 0) for x in cells):
                return s, p, off
            return None
    return None

def check_claim(tm, s, p, off, minimal=True):
    """a claimed recurrence from step s with period p and offset off is followed literally"""
    if p < 1 or s < 0: raise Violation("claimed start %d, period %d (%s)" % (s, p, tm))
    H = s + max(30 * p, 3000)
    if H > 4_000_000: H = s + max(4 * p, 20000)
    run = ref.Run(tm)
    seq = run.seq(H)
    if run.halted: raise Violation("%s: reported recurrent (start %d, period %d) but halts at step %d" % (tm, s, p, run.steps))
    if seq[2 * s:2 * (H - p)] != seq[2 * (s + p):]:
        raise Violation("%s: claimed recurrence start %d period %d offset %d: transition sequence does not repeat with that period" % (tm, s, p, off))
    x = ref.Run(tm).to(s).pos; y = ref.Run(tm).to(s + p).pos
    if y - x != off: raise Violation("%s: claimed offset %d, true %d (start %d, period %d)" % (tm, off, y - x, s, p))
    if minimal:
        for d in range(1, p):
            if p % d == 0 and seq[2 * s:2 * (H - d)] == seq[2 * (s + d):]:
                raise Violation("%s: claimed period %d, but it already repeats with period %d (start %d)" % (tm, p, d, s))
