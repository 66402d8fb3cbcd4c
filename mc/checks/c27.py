"""Worker scheduling: every assignment of trials to forked workers and every completion order on the real analysis; real pool as cross-check."""
import contextlib, io, itertools, math, os
import numpy as np
from .. import ref, pool
from .c25 import write_region, load, box
TECHNIQUE = 'stateless model checking of the real scheduler client: process pool replaced by a controlled one (each worker a real fork), exhaustive enumeration of task-to-worker assignments x completion orders x failing task; conformance of the controlled pool against the real ProcessPoolExecutor'
RULE = ('all partitions of 4 (thorough 5) trials over up to 3 (4) workers x all interleavings of their completions x 2 measures, two diameter bins; every single failing trial in every partition; '
        'machine sizes 1..64 cores; state=(measure, assignment, completion order, failing trial)')
LIMIT = 400
CR = [(1., .3, .3), (1.1, 2.6, .9), (1.2, 1.1, 2.7), (1.3, 3.3, 2.9), (1.25, 2.2, 2.), (3., .9, 1.2), (3.1, 3.2, 1.9), (3.2, 1.8, 3.4), (3.3, 2.9, .4)]

def scenarios(tier):
    q = tier == 'quick'
    n, k = (4, 3) if q else (5, 4)
    out = []
    for m in ('m2cnd', 'sdaa'):
        for a in pool.partitions(n, k): out.append(dict(kind='schedule', m=m, assign=list(a)))
        for a in pool.partitions(3, 3):
            for j in range(3): out.append(dict(kind='fail', m=m, assign=list(a), j=j))
    out += [dict(kind='machine', cores=c, m=m) for c in (1, 2, 3, 8, 64, None) for m in ('m2cnd', 'sdaa')]
    out += [dict(kind='real', m=m, workers=w, trials=t) for m in ('m2cnd', 'sdaa') for w in (1, 2, 3, 5) for t in ((5,) if q else (1, 5, 20))]
    return out

def source(name='c27'):
    f = f'{name}-{os.getpid()}.scc'
    ln = []
    shell = box(0, 0, 4, 4)
    v = 1
    for x, y in shell + shell[:1]: ln.append(f'{v}\t1\text\t{x}\t{y}'); v += 1
    cr = '\n'.join(f'{d}\t1\t{x}\t{y}' for d, x, y in CR)
    ref.write(f, 'a_axis_radius = 1737.4 <km>\nTotal_area = 14708.4 <km^2>\nunit_boundary = {vertex, sub_area, tag, lon, lat\n' + '\n'.join(ln) + '\n}\ncrater = {diam, fraction, lon, lat\n' + cr + '\n}\n')
    return f

def fresh():
    for f in os.listdir('.'):
        if f.endswith('_ra.txt'): os.remove(f)
    return load(source())

class Quiet:
    """messages of the analysis"""
    def put(self, x): pass

def analyse(R, trials, m, sch, workers, inline=False):
    ra = fresh()
    ra.max_threads = workers
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), pool.controlled([sch], inline) as P:
        ra.run_montecarlo(trials, m)
        log = list(P.log)
    R.step()
    if not log:
        from ..core import HarnessError
        raise HarnessError('no process pool used')
    return {b: [float(x) for x in v] for b, v in ra.montecarlo[m]['trials'].items()}

_base = {}
def base(R, m, n):
    if (m, n) not in _base: _base[m, n] = analyse(R, n, m, pool.Schedule([0] * n), 1)
    return _base[m, n]

def distinct(R, t, what):
    for b, v in t.items():
        R.expect(len(set(v)) == len(v), 'trials-repeat', lambda: f'bin {b}: {v}; {what()}')

def run(s, R):
    m = s['m']
    if s['kind'] == 'schedule':
        a = s['assign']; n = len(a)
        want = base(R, m, n)
        for o in pool.completions(a):
            sch = pool.Schedule(a, o)
            got = analyse(R, n, m, sch, max(a) + 1)
            what = lambda: f'{m}: {sch}'
            R.expect(set(got) == {'0', '1.5'}, 'bins', lambda: f'{list(got)}; {what()}')
            for b, v in got.items(): R.expect(len(v) == n, 'one-result-per-trial', lambda: f'bin {b}: {v}; {what()}')
            distinct(R, got, what)
            R.expect(got == want, 'depends-on-schedule', lambda: f'{got} with one worker {want}; {what()}')
            R.trace(); R.state((m, tuple(a), o)); R.outcome(tuple(sorted((k, tuple(v)) for k, v in got.items())))
    elif s['kind'] == 'fail':
        a, j = s['assign'], s['j']
        sch = pool.Schedule(a, fail={j: RuntimeError('injected failure of a trial')})
        try: got = analyse(R, 3, m, sch, max(a) + 1)
        except (Exception, SystemExit) as e: got = e
        R.expect(isinstance(got, BaseException), 'failing-trial-dropped', lambda: f'{m} {sch}: result {got}')
        R.trace(); R.state(('fail', m, tuple(a), j))
    elif s['kind'] == 'machine':
        orig = os.cpu_count
        os.cpu_count = lambda: s['cores']
        try:
            ra = fresh()
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), pool.controlled([pool.Schedule([0])]) as P:
                ra.run_montecarlo(3, m)
                R.expect(all(p.limit is None or p.limit >= 1 for p in P.log), 'no-workers', str(s))
        finally: os.cpu_count = orig
        R.step(); R.trace(); R.state(('machine', s['cores'], m))
        got = {b: [float(x) for x in v] for b, v in ra.montecarlo[m]['trials'].items()}
        R.expect(got == base(R, m, 3), 'depends-on-machine', lambda: f'{got} {base(R, m, 3)} {s}')
    else:
        ra = fresh()
        ra.max_threads = s['workers']
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): ra.run_montecarlo(s['trials'], m)
        got = {b: [float(x) for x in v] for b, v in ra.montecarlo[m]['trials'].items()}
        want = base(R, m, s['trials'])
        R.expect(got == want, 'depends-on-schedule', lambda: f'real pool {got} controlled pool {want} {s}')
        distinct(R, got, lambda: str(s))
        R.step(); R.trace(); R.count('real_pool_conformance')
        R.state(('real', m, s['workers'], s['trials']))
