"""
Explicit-state / stateless model-checking framework used by every check.

A check module supplies   scenarios(tier) -> list of JSON-able scenarios (simplest first)
and                       run(scn, R)     -> drives the real code, reports to the Recorder R.

Recorder counts are measured:  R.state(x) (distinct canonical states), R.step() (transitions
executed on the implementation), R.trace() (complete traces compared with the oracle).
explore() is a depth-first enumerator of all choice sequences of a controlled execution.
"""
import hashlib, json, os, pickle, signal, sys, time, traceback, multiprocessing as mp

REPO = os.path.realpath(os.environ.get('MC_REPO', '/repo'))
SCRATCH = os.environ.get('MC_SCRATCH', '/tmp')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(kind + ': ' + msg)
        self.kind, self.msg = kind, msg


class HarnessError(Exception):
    pass


class ScenarioTimeout(BaseException):
    pass


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Recorder:
    def __init__(self):
        self.states, self.outcomes = set(), set()
        self.transitions = self.traces = 0
        self.samples, self.viol, self.harness = [], [], []
        self.extra = {}
        self.idx, self.scn = -1, None

    def state(self, x):
        """register a canonical state; True if new"""
        h = digest(x)
        if h in self.states: return False
        self.states.add(h)
        return True

    def outcome(self, x): self.outcomes.add(digest(x))

    def step(self, n=1): self.transitions += n

    def trace(self, n=1): self.traces += n

    def count(self, k, n=1): self.extra[k] = self.extra.get(k, 0) + n

    def sample(self, x):
        if len(self.samples) < 3: self.samples.append(x)

    def fail(self, kind, msg, sub=None):
        """record a violation; sub: a smaller scenario that shows it"""
        self.viol.append(dict(idx=self.idx, scenario=self.scn, sub=sub, kind=kind, msg=str(msg)[:2000]))

    def expect(self, cond, kind, msg=''):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def dump(self):
        return dict(states=self.states, outcomes=self.outcomes, transitions=self.transitions, traces=self.traces,
                    samples=self.samples, viol=self.viol, harness=self.harness, extra=self.extra)


def in_impl(tb):
    return any(os.path.realpath(f.filename).startswith(REPO + os.sep) for f in traceback.extract_tb(tb))


def guarded(run, scn, R, idx, limit):
    R.idx, R.scn = idx, scn

    def onalarm(*a): raise ScenarioTimeout()

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        run(scn, R)
    except Violation as v:
        R.fail(v.kind, v.msg)
    except ScenarioTimeout:
        R.fail('no-termination', f'no answer within {limit} s')
    except HarnessError as e:
        R.harness.append(f'{idx}: {e}')
    except SystemExit as e:
        R.fail('unexpected-exit', repr(e.code) + ' ' + traceback.format_exc(limit=-3))
    except MemoryError:
        R.harness.append(f'{idx}: out of memory')
    except Exception as e:
        tb = sys.exc_info()[2]
        if in_impl(tb):
            R.fail('unexpected-exception', traceback.format_exc(limit=-4))
        else:
            s = str(e)
            if isinstance(e, (AttributeError, ImportError, NameError, OSError)) or (isinstance(e, TypeError) and 'argument' in s):
                R.harness.append(f'{idx}: {traceback.format_exc(limit=-4)}')
            else:
                R.fail('uninterpretable-result', traceback.format_exc(limit=-4))
    finally:
        signal.alarm(0)


def _worker(run, scns, counter, chunk, limit, path, deadline, setup):
    try:
        devnull = open(os.devnull, 'w')
        real = sys.stdout
        sys.stdout = devnull
        if not os.environ.get('MC_DEBUG'):
            sys.stderr = devnull
            os.dup2(devnull.fileno(), 2)
        wd = os.path.join(SCRATCH, f'w{os.getpid()}')
        os.makedirs(wd, exist_ok=True)
        os.chdir(wd)
        R = Recorder()
        if setup: setup(R)
        capped = False
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += chunk
            if i >= len(scns): break
            for j in range(i, min(i + chunk, len(scns))):
                if time.time() > deadline:
                    capped = True
                    break
                guarded(run, scns[j], R, j, limit)
                R.count('scenarios_run')
            if capped or len(R.viol) > 200: break
        if capped: R.extra['capped'] = 1
        with open(path, 'wb') as f: pickle.dump(R.dump(), f)
    except BaseException:
        with open(path + '.err', 'w') as f: f.write(traceback.format_exc())
    finally:
        os._exit(0)


def run_scenarios(run, scns, limit=120, budget=600, workers=None, setup=None):
    workers = workers or int(os.environ.get('MC_WORKERS') or 0) or min(8, os.cpu_count() or 1)
    workers = max(1, min(workers, len(scns)))
    chunk = max(1, min(200, len(scns) // (workers * 25)))
    ctx = mp.get_context('fork')
    counter = ctx.Value('l', 0)
    deadline = time.time() + budget
    procs, paths = [], []
    for w in range(workers):
        path = os.path.join(SCRATCH, f'res{w}.pkl')
        p = ctx.Process(target=_worker, args=(run, scns, counter, chunk, limit, path, deadline, setup))
        p.start()
        procs.append(p); paths.append(path)
    for p in procs: p.join()
    tot = Recorder()
    for path in paths:
        if not os.path.exists(path):
            tot.harness.append('worker died: ' + (open(path + '.err').read() if os.path.exists(path + '.err') else path))
            continue
        with open(path, 'rb') as f: d = pickle.load(f)
        tot.states |= d['states']; tot.outcomes |= d['outcomes']
        tot.transitions += d['transitions']; tot.traces += d['traces']
        tot.samples += d['samples']; tot.viol += d['viol']; tot.harness += d['harness']
        for k, v in d['extra'].items(): tot.extra[k] = tot.extra.get(k, 0) + v
    tot.viol.sort(key=lambda v: v['idx'])
    return tot


class Chooser:
    """one controlled execution: replays a prefix of choices, then takes choice 0"""

    def __init__(self, prefix):
        self.prefix, self.choices, self.sizes, self.labels = list(prefix), [], [], []

    def choose(self, n, label=None):
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n: raise HarnessError(f'divergence while replaying {self.prefix} at {i} ({label})')
        self.choices.append(c); self.sizes.append(n); self.labels.append(label)
        return c

    def pick(self, seq, label=None): return seq[self.choose(len(seq), label)]


def explore(body, max_dev=None, max_runs=None):
    """Enumerate every choice sequence of body(chooser) (deviation bound max_dev = number of non-zero choices).
    body may return 'stop' to end. Returns (runs, complete)."""
    stack, runs = [[]], 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        body(ch)
        runs += 1
        if len(ch.choices) < len(prefix): raise HarnessError('execution shorter than replayed prefix')
        dev = sum(1 for c in prefix if c)
        if max_dev is None or dev < max_dev:
            for i in range(len(ch.choices) - 1, len(prefix) - 1, -1):
                for alt in range(ch.sizes[i] - 1, 0, -1):
                    stack.append(ch.choices[:i] + [alt])
        if max_runs and runs >= max_runs and stack: return runs, False
    return runs, True


def bfs(ops, step, canon, depth, R, root=()):
    """Explicit-state search over operation histories. step(history)->(state object, observations) must replay the
    whole history on a fresh real object; canon(state)->hashable. Histories with a seen canonical state are not extended."""
    from collections import deque
    seen = set()
    q = deque([tuple(root)])
    while q:
        h = q.popleft()
        for op in ops:
            h2 = h + (op,)
            st = step(h2)
            R.step()
            k = canon(st)
            if k in seen: continue
            seen.add(k)
            R.state(k)
            if len(h2) < depth: q.append(h2)
    return len(seen)


def close(a, b, rtol=1e-9, atol=0.):
    import numpy as np
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))
