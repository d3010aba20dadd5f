import subprocess
from vlib import *


def shim():
    so = os.path.join(scratch(), 'crashshim.so')
    subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', so, VERIF + '/harness/crashshim.c', '-ldl'], check=True)
    return {'LD_PRELOAD': so}


def gen(c, label, n, dims, steps):
    s = subseed('P14', label)
    r = tlc('CheckpointStore', dict(SEEDS=Expr('%d..%d' % (s, s + n - 1)), DIMS=dims, STEPS=steps, DRAWN=True),
            invariants=['Recoverable', 'Exact', 'Emit'], properties=['Quiet', 'Survives', 'Resumes'], workers=8, heap='6g', timeout=900)
    c.add_tlc(r, label)
    if r.violated:
        raise SystemExit('specification violated: ' + r.violated)
    return r.records


def main():
    c = Check('P14')
    q = TIER == 'quick'
    r = tlc('CheckpointStore', dict(SEEDS=Expr('1..3'), DIMS={2}, STEPS=6 if q else 8, DRAWN=False),
            invariants=['Recoverable', 'Exact'], properties=['Quiet', 'Survives', 'Resumes'], workers=8, heap='12g', timeout=1500)
    c.add_tlc(r, 'all histories of crashes, restarts and new runs')
    if r.violated:
        raise SystemExit('specification violated: ' + r.violated)
    env = shim()
    recs = gen(c, 'histories', 90 if q else 1500, {2, 3}, 30)
    c.replay('replay_p14', recs, 'one process, with crashes', timeout=120, env=env)
    for p in (2, 3):
        c.replay('replay_p14', [r for r in recs if p in r['steps'][0]['procs']][:40 if q else 400], 'distributed', nproc=p, timeout=90)
    return c.finish()


if __name__ == '__main__':
    raise SystemExit(main())
