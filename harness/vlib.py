"""Machinery shared by all checks: running TLC, replaying behaviours on /repo, reporting.

Runs on the system python3; the code under test is only imported by harness/worker.py,
which runs under /opt/venv/bin/python.
"""
import atexit
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
JARS = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = min(8, os.cpu_count() or 1)

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='shenverif-')
        atexit.register(shutil.rmtree, _scratch, True)
        for sig in (signal.SIGTERM, signal.SIGINT):
            signal.signal(sig, lambda *a: sys.exit(3))
    return _scratch


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- TLC

def java_classes():
    """Compile the Rat overrides (about one second), unless this copy already has them."""
    srcs = sorted(glob.glob(VERIF + '/java/shenspec/*.java'))
    h = hashlib.sha256(b''.join(open(s, 'rb').read() for s in srcs)).hexdigest()
    for d in (VERIF + '/build/java', scratch() + '/java'):
        stamp = d + '/stamp'
        if os.path.exists(stamp) and open(stamp).read() == h:
            return d
    d = VERIF + '/build/java'
    try:
        os.makedirs(d, exist_ok=True)
        open(d + '/w', 'w').close()
        os.remove(d + '/w')
    except OSError:
        d = scratch() + '/java'
        os.makedirs(d, exist_ok=True)
    subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', d] + srcs, check=True)
    with open(d + '/stamp', 'w') as f:
        f.write(h)
    return d


def tla_value(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla_value(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla_value(x) for x in sorted(v)) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla_value(x)) for k, x in v.items()) + ']'
    raise TypeError(v)


class TLCError(Exception):
    pass


class TLCResult:
    def __init__(self):
        self.records = []
        self.generated = 0
        self.distinct = 0
        self.ok = False
        self.violated = None
        self.out = ''
        self.wall = 0
        self.traces = 0


def tlc(module, constants=None, init='Init', next_='Next', spec=None, invariants=(), properties=(),
        constraints=(), postcondition=None, view=None, simulate=None, depth=None, seed=None,
        workers=1, timeout=600, heap='2g', symmetry=None, files=None, name=None, alias=None,
        may_time_out=False, dfs=False, coverage=False):
    """Run TLC on spec/<module>.tla.  Returns a TLCResult; records are the JSON strings
    printed by the specification (PrintT(ToJson(..)))."""
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    constants = dict(constants or {})
    # constants that are not plain cfg values are defined in a wrapper module
    wrap = 'MC' + (name or module)
    lines = ['---- MODULE %s ----' % wrap, 'EXTENDS %s' % module]
    cfg = []
    for k, v in constants.items():
        lines.append('const_%s == %s' % (k, v.expr if isinstance(v, Expr) else tla_value(v)))
        cfg.append('CONSTANT %s <- const_%s' % (k, k))
    lines.append('====')
    with open(os.path.join(d, wrap + '.tla'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    if spec:
        cfg.append('SPECIFICATION %s' % spec)
    else:
        cfg += ['INIT %s' % init, 'NEXT %s' % next_]
    for i in invariants:
        cfg.append('INVARIANT %s' % i)
    for i in properties:
        cfg.append('PROPERTY %s' % i)
    for i in constraints:
        cfg.append('CONSTRAINT %s' % i)
    if view:
        cfg.append('VIEW %s' % view)
    if postcondition:
        cfg.append('POSTCONDITION %s' % postcondition)
    if alias:
        cfg.append('ALIAS %s' % alias)
    cfg.append('CHECK_DEADLOCK FALSE')
    with open(os.path.join(d, wrap + '.cfg'), 'w') as f:
        f.write('\n'.join(cfg) + '\n')
    for n, txt in (files or {}).items():
        with open(os.path.join(d, n), 'w') as f:
            f.write(txt)
    cp = JARS + ':' + java_classes()
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=4',
           '-Djava.io.tmpdir=' + d,
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:shenspec.RatOverrides',
           '-DTLA-Library=' + VERIF + '/spec', '-cp', cp, 'tlc2.TLC',
           '-config', wrap + '.cfg', '-metadir', d + '/states', '-workers', str(workers), '-noGenerateSpecTE']
    if simulate:
        cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 20), '-seed', str(SEED if seed is None else seed)]
    if coverage:
        cmd += ['-coverage', '1']
    cmd += [wrap + '.tla']
    res = TLCResult()
    outp = os.path.join(d, 'out.txt')
    with open(outp, 'w') as f:
        p = subprocess.Popen(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -1
            if not may_time_out:
                raise TLCError('TLC timed out on %s\n' % module + open(outp).read()[-2000:])
    other = []
    with open(outp) as f:
        for line in f:
            if line.startswith('"{') or line.startswith('"['):
                try:
                    res.records.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            other.append(line)
    res.out = ''.join(other)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states', res.out)
    if m:
        res.generated, res.distinct = map(int, m[-1])
    m = re.findall(r'The number of states generated: (\d+)', res.out)
    if m:
        res.generated = int(m[-1])
    m = re.findall(r'Generated (\d+) traces', res.out) or re.findall(r'(\d+) traces generated', res.out)
    if m:
        res.traces = int(m[-1])
    m = re.search(r'Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|[Pp]ost.?condition.*(?:violated|false)', res.out)
    res.violated = m.group(0) if m else None
    res.ok = rc == 0
    res.wall = time.time() - t0
    if rc != 0 and not res.violated and not (rc == -1 and may_time_out):
        raise TLCError('TLC failed on %s (rc %s)\n%s' % (module, rc, '\n'.join(l for l in res.out.splitlines() if not l.startswith('\tat '))[-1500:]))
    shutil.rmtree(d, True)
    return res


class Expr:
    """A TLA+ expression given verbatim as the value of a constant."""
    def __init__(self, expr):
        self.expr = expr


def parallel(jobs, n=NCPU):
    """Run thunks in n threads (each one mostly waits for a subprocess); results in order."""
    with ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


# ---------------------------------------------------------------- code under test

_repo_path = None


def repo_path():
    """Directory to put on PYTHONPATH: /repo, or a rebuilt scratch copy of it when the compiled
    extensions there do not correspond to the Cython sources of the working tree."""
    global _repo_path
    if _repo_path:
        return _repo_path
    try:
        stamps = json.load(open(REPO + '/build/stamps.json'))
    except (OSError, ValueError):
        stamps = {}
    dirs = ('shenfun/optimization/cython', 'shenfun/legendre/fastgl')
    shared = ['setup.py']
    for d in dirs:
        for pat in ('/*.pxd', '/*.pxi', '/*.h'):
            shared += [os.path.relpath(f, REPO) for f in glob.glob(REPO + '/' + d + pat)]
        for f in glob.glob(REPO + '/' + d + '/*.c') + glob.glob(REPO + '/' + d + '/*.cpp'):
            if b'Generated by Cython' not in open(f, 'rb').readline():
                shared.append(os.path.relpath(f, REPO))
    common = b''.join(n.encode() + open(os.path.join(REPO, n), 'rb').read()
                      for n in sorted(shared) if os.path.exists(os.path.join(REPO, n)))
    stale = []
    for d in dirs:
        for p in sorted(glob.glob(REPO + '/' + d + '/*.pyx')):
            rel = os.path.relpath(p, REPO)
            h = hashlib.sha256(common + open(p, 'rb').read()).hexdigest()
            if stamps.get(rel) != h or not glob.glob(p[:-4] + '.cpython-*.so'):
                stale.append(rel)
    if not stale:
        _repo_path = REPO
        return _repo_path
    log('rebuilding stale extensions in a scratch copy:', ' '.join(stale))
    dst = scratch() + '/repo'
    os.makedirs(dst)
    for n in ('setup.py', 'README.rst', 'pyproject.toml', 'MANIFEST.in'):
        if os.path.exists(os.path.join(REPO, n)):
            shutil.copy(os.path.join(REPO, n), dst)
    shutil.copytree(REPO + '/shenfun', dst + '/shenfun', ignore=shutil.ignore_patterns('__pycache__'))
    for rel in stale:
        stem = os.path.join(dst, rel[:-4])
        for f in glob.glob(stem + '.cpython-*.so') + [stem + '.c', stem + '.cpp']:
            if os.path.exists(f):
                os.remove(f)
    # what is not stale must not be rebuilt: make its products newer than its sources
    now = time.time()
    for d in dirs:
        for p in glob.glob(dst + '/' + d + '/*.pyx'):
            for f in [p[:-4] + '.c', p[:-4] + '.cpp'] + glob.glob(p[:-4] + '.cpython-*.so'):
                if os.path.exists(f):
                    os.utime(f, (now + (10 if f.endswith('.so') else 5),) * 2)
    env = child_env(dst)
    env['CFLAGS'] = '-w'
    r = subprocess.run([VENV, 'setup.py', 'build_ext', '--inplace', '-j', '8'], cwd=dst, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError('build failed\n' + r.stdout[-3000:])
    _repo_path = dst
    return dst


def child_env(path=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(('OMPI_', 'PMIX_')):
            del env[k]
    path = path or repo_path()
    env.update(PYTHONPATH=path + ':' + VERIF + '/harness', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', NUMBA_NUM_THREADS='1', HOME='/root',
               NUMBA_CACHE_DIR=numba_cache(), VERIF_REPO_PATH=path,
               OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_rmaps_base_oversubscribe='1',
               OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_mpi_yield_when_idle='1')
    return env


_nc = None


def numba_cache():
    global _nc
    if _nc is None:
        _nc = scratch() + '/numba'
        os.makedirs(_nc, exist_ok=True)
    return _nc


class Failure(dict):
    """One disagreement between the specification and the implementation."""


def replay(module, records, nproc=1, workers=None, timeout=60, env=None, chunk=None, args=None, deadline=None):
    """Replay records (dicts) on the implementation with harness/<module>.py:run(rec).

    nproc > 1 runs each worker under mpirun.  Returns (failures, stats).  A record whose
    worker dies or hangs is a failure of that record; the rest is taken up by a new worker."""
    if not records:
        return [], dict(replayed=0)
    if workers is None:
        workers = max(1, NCPU // nproc)
    workers = min(workers, len(records))
    todo = [[] for _ in range(workers)]
    for i, r in enumerate(records):
        todo[i % workers].append((i, r))
    results = parallel([lambda w=w: _worker(module, w, nproc, timeout, dict(env or {}, **({'VERIF_DEADLINE': str(deadline)} if deadline else {})), args) for w in todo], workers)
    fails, stats = [], {}
    for f, s in results:
        fails += f
        for k, v in s.items():
            stats[k] = stats.get(k, 0) + v
    return fails, stats


def _worker(module, todo, nproc, timeout, env, args):
    d = tempfile.mkdtemp(prefix='w-', dir=scratch())
    fails, stats = [], {'replayed': 0}
    todo = list(todo)
    restarts = 0
    while todo:
        with open(d + '/in.jsonl', 'w') as f:
            for i, r in todo:
                f.write(json.dumps([i, r]) + '\n')
        open(d + '/out.jsonl', 'w').close()
        cmd = [VENV, '-u', VERIF + '/harness/worker.py', module, d + '/in.jsonl', d + '/out.jsonl', str(timeout), json.dumps(args)]
        if nproc > 1:
            cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-q', '-n', str(nproc)] + cmd
        e = child_env()
        e['TMPDIR'] = d
        e.update(env or {})
        os.makedirs(d + '/cwd', exist_ok=True)
        t0 = time.time()
        with open(d + '/log', 'w') as lf:
            p = subprocess.Popen(cmd, cwd=d + '/cwd', env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            last, lastsize = time.time(), 0
            hang = False
            while True:
                try:
                    p.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    size = os.path.getsize(d + '/out.jsonl')
                    if size != lastsize:
                        last, lastsize = time.time(), size
                    if time.time() - last > timeout + 60:
                        hang = True
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        done, started = set(), None
        for line in open(d + '/out.jsonl'):
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if 'start' in o:
                started = o['start']
            elif 'skip' in o:
                done.add(o['skip'])
            elif 'stats' in o:
                for k, v in o['stats'].items():
                    stats[k] = stats.get(k, 0) + v
            else:
                done.add(o['i'])
                stats['replayed'] += 1
                for x in o['fails']:
                    fails.append(Failure(x, index=o['i']))
        left = [(i, r) for i, r in todo if i not in done]
        if not left:
            break
        tail = open(d + '/log').read()[-1500:]
        if started is None or started in done:
            if started is None and restarts == 0 and not done:
                restarts += 1   # the worker never came up: try once more, then give in
                if os.environ.get('VERIF_DEBUG'):
                    log(tail)
                continue
            if started is None:
                # the code under test cannot even be imported, or the machinery is broken
                if re.search(r'shenfun/', tail) and 'Error' in tail:
                    fails.append(Failure(index=left[0][0], key='import', what='the library cannot be imported: ' + tail[-600:]))
                    return fails, stats
                raise RuntimeError('worker failed to start\n' + tail)
            started = left[0][0]
        fails.append(Failure(index=started, key='died', what=('hang' if hang else 'worker died (rc %s)' % p.returncode) + ': ' + tail[-500:]))
        stats['replayed'] += 1
        todo = [(i, r) for i, r in left if i != started]
        restarts += 1
        if restarts > 25:
            break
    shutil.rmtree(d, True)
    return fails, stats


# ---------------------------------------------------------------- reporting

class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.cov = {}
        self.samples = []
        self.viol = []
        self.assumptions = []
        self.known = [k for k in load_known() if k['property'] == pid]
        self.seen_known = {}
        scratch()

    def add_tlc(self, res, label=None):
        self.states += res.distinct or res.generated
        self.transitions += max(res.generated - (res.traces or 0), 0)
        if label:
            self.cov.setdefault('tlc_runs', []).append(
                dict(label=label, generated=res.generated, distinct=res.distinct, records=len(res.records), wall_s=round(res.wall, 1)))

    def sample(self, rec, n=3):
        if len(self.samples) < n:
            s = json.dumps(rec)
            self.samples.append(rec if len(s) < 3000 else s[:3000] + '...')

    def replay(self, module, records, label=None, **kw):
        t0 = time.time()
        for r in records[:1]:
            self.sample(r)
        # what has not been replayed when the time of the check runs out is skipped (and counted as such)
        kw.setdefault('deadline', self.t0 + (600 if TIER == 'quick' else 5400))
        fails, stats = replay(module, records, **kw)
        self.validated += stats.get('replayed', 0)
        self.cov.setdefault('replays', []).append(dict(label=label or module, nproc=kw.get('nproc', 1), wall_s=round(time.time() - t0, 1), **stats))
        for f in fails:
            rec = records[f['index']] if f.get('index') is not None else None
            self.violation(f.get('key', '?'), f.get('what', ''), dict(harness=module, kw={k: v for k, v in kw.items() if k in ('nproc', 'env', 'args')}, record=rec, failure=f))
        return fails

    def violation(self, key, what, replay_obj):
        for k in self.known:
            if k.get('status') == 'known' and re.fullmatch(k['key'], key) and re.search(k.get('match', ''), what):
                self.seen_known.setdefault(k['id'], (k, 0))
                self.seen_known[k['id']] = (k, self.seen_known[k['id']][1] + 1)
                return
        self.viol.append((key, what, replay_obj))

    def finish(self):
        os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
        for old in glob.glob(VERIF + '/evidence/replay/%s-*.json' % self.pid):
            os.remove(old)
        for k in self.known:
            if k.get('status') == 'known':
                n = self.seen_known.get(k['id'], (None, 0))[1]
                log('KNOWN-FINDING: property=%s %s (%s; seen %d times in this run)' % (self.pid, k['what'], k['id'], n))
        bykey = {}
        for v in self.viol:
            bykey.setdefault(v[0], []).append(v)
        n = 0
        for key, vs in sorted(bykey.items()):
            n += 1
            path = 'evidence/replay/%s-%d.json' % (self.pid, n)
            with open(os.path.join(VERIF, path), 'w') as f:
                json.dump(dict(property=self.pid, key=key, count=len(vs), what=vs[0][1], replay=vs[0][2]), f, indent=1, default=str)
            log('  %s: %s [%d cases]' % (key, str(vs[0][1])[:600], len(vs)))
            log('VIOLATION property=%s replay=%s' % (self.pid, path))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated, samples=self.samples, **self.cov)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        with open(VERIF + '/evidence/%s.json' % self.pid, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        log('%s %s: %d states, %d transitions, %d behaviours replayed, %d violations, %.1f s' % (
            self.pid, TIER, self.states, self.transitions, self.validated, len(self.viol), time.time() - self.t0))
        return 1 if self.viol else 0


def load_known():
    p = VERIF + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else []


def subseed(*parts):
    return int(hashlib.sha256(repr((SEED,) + parts).encode()).hexdigest()[:7], 16)
