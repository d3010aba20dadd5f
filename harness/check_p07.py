"""P07: independence of the number of processes (spec Distribution; Calculus and WeakForms replayed under MPI)."""
from vlib import Check, Expr, TIER, tlc, subseed
from check_p09 import CLASSES


def main():
    c = Check('P07')
    q = TIER == 'quick'
    s0 = subseed('P07', 'distribution')
    n = 560 if q else 6000
    r = tlc('Distribution', dict(NPROCS={2, 3, 4} if q else {2, 3, 4, 5, 6}, SEEDS=Expr('%d..%d' % (s0, s0 + n - 1))),
            invariants=['Aligned', 'NonEmpty', 'Partition', 'Count', 'Home', 'Emit'], properties=['MoveLocal'], workers=8, heap='8g', timeout=1500)
    c.add_tlc(r, 'distribution')
    if r.violated:
        raise SystemExit('specification violated: ' + r.violated)
    for p in ((2, 3, 4) if q else (2, 3, 4, 5, 6)):
        c.replay('replay_p07', [x for x in r.records if x['cfg']['np'] == p], 'distribution over %d processes' % p, nproc=p)
    s0 = subseed('P07', 'calculus')
    m = 700 if q else 5000
    r = tlc('Calculus', dict(DIMS={2, 3}, MAXB=2, NLO=6, NHI=9, STEPS=6 if q else 8, REGS=2, TERMS=2, SEEDS=Expr('%d..%d' % (s0, s0 + m - 1))),
            invariants=['Emit'], workers=8, heap='8g', timeout=1500)
    c.add_tlc(r, 'calculus')
    split(c, r.records, 'replay_p06', 'calculus', q)
    s0 = subseed('P07', 'weak forms')
    r = tlc('WeakForms', dict(DIMS={2, 3}, MAXB=2, NLO=8, NHI=11, STEPS=5 if q else 6, REGS=2, TERMS=2, CLASSES=CLASSES, SEEDS=Expr('%d..%d' % (s0, s0 + m - 1))),
            invariants=['Emit'], workers=8, heap='8g', timeout=1500)
    c.add_tlc(r, 'weak forms')
    split(c, r.records, 'replay_p09', 'weak forms', q)
    c.assumptions += ['at most %d processes on one machine' % (4 if q else 6), 'solves need the bounded axis complete in spectral space']
    return c.finish()


def split(c, records, mod, label, q):
    """Every record once in the quick check, with one of the numbers of processes it allows."""
    by = {2: [], 3: [], 4: []}
    for i, x in enumerate(records):
        ok = [p for p in x['steps'][0]['procs'] if p > 1]
        for p in (ok[i % len(ok):][:1] if q and ok else ok):
            by[p].append(x)
    for p in sorted(by):
        c.replay(mod, by[p], '%s with %d processes' % (label, p), nproc=p)


if __name__ == '__main__':
    raise SystemExit(main())
