from vlib import *


def gen(c, label, n, dims, steps=14, fields=3):
    s = subseed('P13', label)
    r = tlc('FileStore', dict(SEEDS=Expr('%d..%d' % (s, s + n - 1)), DIMS=dims, NFIELDS=fields, STEPS=steps),
            invariants=['Stored', 'Emit'], properties=['Isolated'], workers=8, heap='8g', timeout=1500)
    c.add_tlc(r, label)
    if r.violated:
        raise SystemExit('specification violated: ' + r.violated)
    return r.records


def main():
    c = Check('P13')
    q = TIER == 'quick'
    recs = gen(c, 'histories', 1500 if q else 12000, {2, 3})
    c.replay('replay_p13', recs, 'one process', timeout=60)
    c.replay('replay_p13', gen(c, 'long histories', 200 if q else 2000, {2, 3, 4}, 40, 4), 'long histories', timeout=120)
    for p in (2, 3) if q else (2, 3, 4):
        c.replay('replay_p13', [r for r in recs if p in r['steps'][0]['procs']][:250 if q else 3000], 'distributed', nproc=p, timeout=60)
    return c.finish()


if __name__ == '__main__':
    raise SystemExit(main())
