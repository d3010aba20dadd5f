from vlib import *


def main():
    c = Check('P17')
    s = subseed('P17', 'all')
    n = 1800 if TIER == 'quick' else 30000
    r = tlc('SeriesConversion', dict(SEEDS=Expr('%d..%d' % (s, s + n - 1)), NS={1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12}, NBIG={30, 65, 101, 200, 255, 400, 513, 1024}, STEPS=6),
            invariants=['Basis', 'InverseOk', 'Same', 'Adjoint', 'Emit'], workers=8, heap='8g', timeout=1500)
    c.add_tlc(r, 'series conversions')
    if r.violated:
        raise SystemExit('specification violated: ' + r.violated)
    c.replay('replay_p17', r.records, 'series conversions', timeout=120)
    return c.finish()


if __name__ == '__main__':
    raise SystemExit(main())
