from vlib import *


def gen(c, label, n, dims, steps, regs=3):
    s = subseed('P10', label)
    r = tlc('Products', dict(SEEDS=Expr('%d..%d' % (s, s + n - 1)), DIMS=dims, REGS=regs, STEPS=steps),
            invariants=['PointwiseValues', 'Enough', 'RuleExact', 'Real', 'Emit'], workers=8, heap='8g', timeout=1500)
    c.add_tlc(r, label)
    if r.violated:
        raise SystemExit('specification violated: ' + r.violated)
    return r.records


def main():
    c = Check('P10')
    q = TIER == 'quick'
    recs = gen(c, 'one to three dimensions', 1800 if q else 20000, {1, 2, 3}, 8)
    c.replay('replay_p10', recs, 'one process', timeout=120)
    c.replay('replay_p10', gen(c, 'one dimension', 600 if q else 6000, {1}, 12), 'one dimension', timeout=60)
    for p in (2, 3) if q else (2, 3, 4):
        c.replay('replay_p10', [r for r in recs if p in r['steps'][0]['procs']][:250 if q else 3000], 'distributed', nproc=p, timeout=90)
    return c.finish()


if __name__ == '__main__':
    raise SystemExit(main())
