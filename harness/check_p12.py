from vlib import *

SCHEMES = ['IRK3', 'BackwardEuler', 'RK4', 'ETD', 'ETDRK4', 'IMEXRK3', 'IMEXRK111', 'IMEXRK222', 'IMEXRK443']
ALL = {'fourier', 'vector', 'line', 'bounded', 'mixed', 'mixed3', 'mixedvector'}
INV = ['OrderLinear', 'OrderNonlinear', 'ExactLinear', 'ExactTime', 'Consistent', 'Split', 'Counted', 'Emit']


def gen(c, label, n, kinds, steps=4):
    s = subseed('P12', label)
    r = tlc('TimeStepping', dict(SEEDS=Expr('%d..%d' % (s, s + n - 1)), SCHEMES=set(SCHEMES), KINDS=kinds, STEPS=steps),
            invariants=INV, workers=8, heap='8g', timeout=1500)
    c.add_tlc(r, label)
    if r.violated:
        raise SystemExit('specification violated: ' + r.violated)
    return r.records


def main():
    c = Check('P12')
    q = TIER == 'quick'
    recs = gen(c, 'histories', 500 if q else 5000, ALL)
    c.replay('replay_p12', recs, 'one process', timeout=60)
    if not q:
        c.replay('replay_p12', gen(c, 'long histories', 600, ALL, 10), 'long histories', timeout=120)
    several = [r for r in recs if r['steps'][0]['prob']['kind'] not in ('line', 'bounded', 'mixedvector') and len(r['steps'][0]['prob']['n']) + (r['steps'][0]['prob']['nB'] > 0) > 1]
    for p in (2, 3) if q else (2, 3, 4):
        c.replay('replay_p12', several[p % 3::3][:100 if q else None], 'distributed', nproc=p, timeout=60)
    return c.finish()


if __name__ == '__main__':
    raise SystemExit(main())
