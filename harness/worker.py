"""worker.py MODULE IN OUT TIMEOUT ARGS: replay records on the library (run by vlib.replay)."""
import faulthandler
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
faulthandler.enable()


class Timeout(BaseException):
    pass


def main():
    modname, fin, fout, timeout, args = sys.argv[1:6]
    timeout = int(float(timeout))
    root = os.environ['VERIF_REPO_PATH']
    import shenfun
    assert os.path.dirname(os.path.dirname(os.path.abspath(shenfun.__file__))) == root, shenfun.__file__
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    mod = importlib.import_module(modname)
    if hasattr(mod, 'setup'):
        mod.setup(json.loads(args))
    out = open(fout, 'a') if comm.rank == 0 else None

    def emit(o):
        if out:
            out.write(json.dumps(o, default=str) + '\n')
            out.flush()

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    deadline = float(os.environ.get('VERIF_DEADLINE') or 'inf')
    extra = dict(skipped=0, timeouts=0)
    for line in open(fin):
        i, rec = json.loads(line)
        late = time.time() > deadline
        if comm.size > 1:
            late = comm.bcast(late, root=0)
        if late:
            extra['skipped'] += 1
            emit(dict(skip=i))
            continue
        emit(dict(start=i))
        fails, fatal = [], False
        signal.alarm(timeout)
        try:
            fails = mod.run(rec) or []
        except Timeout:
            extra['timeouts'] += 1
            fails = list(getattr(mod, 'PARTIAL', []))
            if getattr(mod, 'TIMEOUT_IS_FAILURE', True):
                fails += [dict(key='timeout', what='no result within %d s: %s' % (timeout, ' < '.join('%s:%s:%d' % (os.path.basename(f.filename), f.name, f.lineno) for f in reversed(traceback.extract_tb(sys.exc_info()[2])) if '/shenfun/' in f.filename or '/harness/' in f.filename)))]
            fatal = comm.size > 1
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if '/shenfun/' in f.filename]
            fr = (where or tb)[-1]
            what = '%s: %s' % (type(e).__name__, str(e)[:200])
            loc = '%s:%s' % (os.path.basename(fr.filename), fr.name)
            label = getattr(mod, 'LABEL', {}).get('at', '')
            fails = [dict(key='raised:' + type(e).__name__ + ':' + loc, what='%s raised in %s %s\n%s' % (what, loc, label, ''.join(traceback.format_tb(e.__traceback__)[-3:])))]
            fatal = comm.size > 1
            if not where and not getattr(mod, 'EXC_IS_FAILURE', True):
                raise
        signal.alarm(0)
        if fatal:
            # other ranks may be waiting in a collective call: record and give up this job
            if comm.rank != 0:
                with open(fout, 'a') as f:
                    f.write(json.dumps(dict(i=i, fails=fails), default=str) + '\n')
            else:
                emit(dict(i=i, fails=fails))
            comm.Abort(17)
        if comm.size > 1:
            allf = comm.gather(fails, root=0)
            fails = [dict(f, what='rank %d of %d: %s' % (r, comm.size, f['what'])) for r, fs in enumerate(allf or []) for f in fs]
        emit(dict(i=i, fails=fails))
    emit(dict(stats={k: v for k, v in extra.items() if v}))
    if hasattr(mod, 'stats'):
        emit(dict(stats=mod.stats()))
    if out:
        out.close()
    sys.stdout.flush()
    if comm.size == 1:
        os._exit(0)


if __name__ == '__main__':
    main()
