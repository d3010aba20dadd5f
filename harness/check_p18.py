from vlib import *


def gen(c, label, n, dims, steps=5, regs=2):
    s = subseed('P18', label)
    r = tlc('Resizing', dict(SEEDS=Expr('%d..%d' % (s, s + n - 1)), DIMS=dims, REGS=regs, STEPS=steps, KINDS={'scalar', 'vector'}),
            invariants=['Held', 'UpDown', 'Nested', 'Real', 'Emit'], workers=8, heap='8g', timeout=1500)
    c.add_tlc(r, label)
    if r.violated:
        raise SystemExit('specification violated: ' + r.violated)
    return r.records


def main():
    c = Check('P18')
    q = TIER == 'quick'
    c.replay('replay_p18', gen(c, 'one axis', 600 if q else 6000, {1}), 'one axis', timeout=60)
    c.replay('replay_p18', gen(c, 'several axes', 1800 if q else 30000, {2, 3}, steps=6, regs=3), 'several axes', timeout=60)
    recs = gen(c, 'distributed', 600 if q else 6000, {2, 3})
    for p in (2, 3) if q else (2, 3, 4):
        c.replay('replay_p18', [r for r in recs if p in r['steps'][0]['procs']][:150 if q else None], 'distributed', nproc=p, timeout=60)
    return c.finish()


if __name__ == '__main__':
    raise SystemExit(main())
