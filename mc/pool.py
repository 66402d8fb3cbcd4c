"""A process pool under a controlled schedule.

Each worker is a real fork of the calling process (as ProcessPoolExecutor makes on Linux) and runs the tasks the schedule
gives it, in submission order; results come back through pickles. Workers share no memory, so an execution is determined by
the assignment of tasks to workers plus the order in which completions are delivered: exactly what a Schedule fixes.
"""
import concurrent.futures as cf, contextlib, itertools, os, pickle, signal, sys

class Schedule:
    """assign[i] = worker of task i; order = completion order of the tasks; fail = {task: exception}"""
    def __init__(self, assign, order=None, fail=None):
        self.assign, self.order, self.fail = list(assign), list(order) if order else None, fail or {}
    def __repr__(self): return f'workers {self.assign} completion {self.order} failing {sorted(self.fail)}'

def partitions(n, k):
    """assignments of n tasks to at most k interchangeable workers"""
    def go(p, m):
        if len(p) == n: yield tuple(p); return
        for w in range(min(m + 1, k)): yield from go(p + [w], max(m, w + 1))
    return go([], 0)

def completions(assign):
    """all interleavings of the workers' completions"""
    n = len(assign)
    def go(done, p):
        if len(p) == n: yield tuple(p); return
        for w in sorted(set(assign)):
            nxt = next((i for i in range(n) if assign[i] == w and i not in done), None)
            if nxt is not None: yield from go(done | {nxt}, p + [nxt])
    return go(frozenset(), [])

class Future(cf.Future):
    pool = None
    def result(self, timeout=None):
        self.pool.flush()
        return super().result(0)
    def exception(self, timeout=None):
        self.pool.flush()
        return super().exception(0)

class Pool:
    """stands in for ProcessPoolExecutor"""
    plan = []              # schedules, one per pool created (the last one repeats)
    made = 0
    log = []
    inline = False         # run tasks in this process (single-worker schedules only)
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), max_tasks_per_child=None):
        if max_workers is not None and max_workers <= 0: raise ValueError('max_workers must be greater than 0')
        self.sch = Pool.plan[min(Pool.made, len(Pool.plan) - 1)]
        Pool.made += 1
        self.init = (initializer, initargs)
        self.tasks, self.done = [], 0
        self.limit = max_workers
        self.used = set()
        Pool.log.append(self)
    def __enter__(self): return self
    def __exit__(self, *a): self.shutdown(); return False
    def shutdown(self, wait=True, cancel_futures=False): self.flush()
    def submit(self, fn, *a, **k):
        f = Future(); f.pool = self
        self.tasks.append((f, fn, a, k))
        return f
    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in fs)
    def flush(self):
        new = range(self.done, len(self.tasks))
        if not new: return
        self.done = len(self.tasks)
        who = {i: self.sch.assign[i % len(self.sch.assign)] for i in new}
        if self.limit: who = {i: w % self.limit for i, w in who.items()}
        res = {}
        for w in sorted(set(who.values())):
            mine = [i for i in new if who[i] == w]
            self.used.add(w)
            res.update(self.inline_worker(mine) if Pool.inline else self.worker(mine))
        order = [i for i in (self.sch.order or []) if i in res]
        for i in order + [i for i in new if i not in order]:
            f = self.tasks[i][0]
            if f.done(): continue
            ok, v = res[i]
            f.set_running_or_notify_cancel()
            if ok: f.set_result(v)
            else: f.set_exception(v)
    def one(self, i):
        f, fn, a, k = self.tasks[i]
        if i in self.sch.fail: return False, self.sch.fail[i]
        try: return True, fn(*a, **k)
        except Exception as e: return False, e
    def inline_worker(self, mine):
        return {i: self.one(i) for i in mine}
    def worker(self, mine):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                signal.alarm(0)
                if self.init[0]: self.init[0](*self.init[1])
                out = {}
                for i in mine:
                    x = self.one(i)
                    try: pickle.dumps(x)
                    except Exception as e: x = (False, e)
                    out[i] = x
                with os.fdopen(w, 'wb') as f: pickle.dump(out, f)
                code = 0
            finally: os._exit(code)
        os.close(w)
        try:
            with os.fdopen(r, 'rb') as f: data = f.read()
            os.waitpid(pid, 0)
        except BaseException:
            with contextlib.suppress(OSError): os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
            raise
        return pickle.loads(data) if data else {i: (False, RuntimeError('worker died')) for i in mine}

def as_completed(fs, timeout=None):
    fs = list(fs)
    p = fs[0].pool if fs else None
    if p: p.flush()
    pos = {id(p.tasks[i][0]): n for n, i in enumerate((p.sch.order or []) + [i for i in range(len(p.tasks)) if i not in (p.sch.order or [])])} if p else {}
    return iter(sorted(fs, key=lambda f: pos.get(id(f), 0)))

def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = list(fs)
    for f in fs: f.pool.flush()
    return cf._base.DoneAndNotDoneFutures(set(fs), set())

class Value:
    def __init__(self, v): self.value = v
    def get(self): return self.value
    def set(self, v): self.value = v
class Lock:
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def acquire(self, *a): return True
    def release(self): pass
class Manager:
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def start(self, *a): pass
    def shutdown(self): pass
    def Value(self, t, v, *a): return Value(v)
    def list(self, *a): return list(*a)
    def dict(self, *a): return dict(*a)
    def Lock(self): return Lock()
    def RLock(self): return Lock()

@contextlib.contextmanager
def controlled(plan, inline=False):
    """every pool made inside follows the plan"""
    import multiprocessing as mp
    RA = sys.modules['craterstats.Randomnessanalysis']
    names = {'ProcessPoolExecutor': Pool, 'as_completed': as_completed, 'wait': wait, 'Manager': Manager}
    saved = [(m, k, getattr(m, k)) for m in (RA, cf, cf.process, mp) for k in names if hasattr(m, k)]
    Pool.plan, Pool.made, Pool.log, Pool.inline = list(plan), 0, [], inline
    try:
        for m, k, _ in saved: setattr(m, k, names[k])
        yield Pool
    finally:
        for m, k, v in saved: setattr(m, k, v)
