"""P09: weak forms, assembled operators and their solvers (spec WeakForms over Fields)."""
from vlib import Check, Expr, TIER, tlc, subseed


CLASSES = {'poisson', 'helm', 'bih', 'adv', 'first', 'var', 'neumann'}


def main():
    c = Check('P09')
    q = TIER == 'quick'
    n = 2500 if q else 24000
    s0 = subseed('P09', 'weak forms')
    r = tlc('WeakForms', dict(DIMS={1, 2, 3}, MAXB=2, NLO=8, NHI=11, STEPS=6 if q else 8, REGS=2, TERMS=2, CLASSES=CLASSES,
                             SEEDS=Expr('%d..%d' % (s0, s0 + n - 1))),
            invariants=['Green', 'RhsFits', 'LinearOk', 'Emit'],
            workers=8, heap='8g', timeout=1500)
    c.add_tlc(r, 'weak forms')
    if r.violated:
        raise SystemExit('specification violated: ' + r.violated)
    c.replay('replay_p09', r.records, 'weak forms')
    if not q:
        r = tlc('WeakForms', dict(DIMS={1, 2}, MAXB=2, NLO=11, NHI=17, STEPS=8, REGS=2, TERMS=2, CLASSES=CLASSES,
                                 SEEDS=Expr('%d..%d' % (s0, s0 + 4000))),
                invariants=['Green', 'RhsFits', 'LinearOk', 'Emit'], workers=8, heap='8g', timeout=1500)
        c.add_tlc(r, 'weak forms, larger spaces')
        if r.violated:
            raise SystemExit('specification violated: ' + r.violated)
        c.replay('replay_p09', r.records, 'weak forms, larger spaces')
    c.assumptions += ['tolerances grow with the condition number of the assembled system', 'the solution of systems with more than 900 unknowns is judged by its residual']
    return c.finish()


if __name__ == '__main__':
    raise SystemExit(main())
