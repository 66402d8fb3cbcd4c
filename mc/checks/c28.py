"""Interrupted analyses: an interruption or a kill at every executed line and within every file write of an analysis, from several prior histories, then leftovers and retry."""
import builtins, contextlib, io, os, shutil, signal, sys, types
import numpy as np
from .. import ref, pool, cli
from .c27 import source, CR
TECHNIQUE = 'exhaustive crash-point enumeration on the real analysis: interruption (exception) and kill (process exit) at every executed line of its control flow, in every trial, and at every line and half-line of every file write; recovery runs compared with the uninterrupted run'
RULE = ('crash points = every line event of the package outside the inner trial computation + every evaluation + every prefix (line ends and mid-lines) of every file written, for histories {nothing saved, one measure saved, both saved with fewer trials, the second one saved with fewer} '
        'x {interrupt, kill, failure of an evaluation} x {retry in a new process, retry in the same process}; points leading to the same state by construction explored once: a kill is determined by the files on disk, an interruption by those, the stack of lines and the loop pass (quick: first and last pass); state=(history, mode, point, files left)')
LIMIT = 600
HOT = {'kth_nearest_neighbour_pp', 'get_kth', 'sprinkle_discs_pp', 'random_points_pp', 'sdaa', 'cells_within', 'read_textstructure', 'read_textfile', 'readSCCfile', 'apply_binning', 'generate_bins', 'get_parser', 'to_planar',
       'find_enclosing_polygon', 'polygon_to_pts', 'llr2xyz', 'decode_abbreviation', 'quote_tolerant_split', 'get_bin_craters', '<listcomp>', '<genexpr>', '<lambda>', '<dictcomp>'}
HIST = {'new': [], 'one': [('m2cnd', 3)], 'fewer': [('m2cnd', 2), ('sdaa', 2)], 'one-fewer': [('sdaa', 2)]}
T = 3

class Crash(KeyboardInterrupt): pass
class Failure(MemoryError): pass

def scenarios(tier):
    out = []
    for h in HIST:
        out.append(dict(h=h, mode='error', what='call', part=0, parts=1, all=tier == 'thorough'))
        for mode in ('kill', 'interrupt'):
            for what in ('line', 'write', 'call'):
                n = (16 if mode == 'interrupt' else 2) if what == 'line' else 8 if what == 'write' else 4
                out += [dict(h=h, mode=mode, what=what, part=p, parts=n, all=tier == 'thorough') for p in range(n)]
    return out

def parse(path):
    """(n_sigma {measure: {bin: text}}, trials {measure: (n, {bin: [values]})}) of a results file"""
    ns, tr = {}, {}
    cur, head, tab = None, None, None
    for l in open(path, encoding='utf-8-sig'):
        l = l.strip()
        if not l or l[0] == '#': continue
        if tab is not None:
            if l == '}':
                if tab == 'n_sigma':
                    for i, m in enumerate(head[1:]): ns[m] = {r[0]: r[i + 1] for r in rows}
                else:
                    if [r[0] for r in rows] != [str(i) for i in range(len(rows))]: return None
                    tr[cur] = (n, {b: [float(r[i + 1]) for r in rows] for i, b in enumerate(head[1:])})
                tab = None
            else:
                r = l.split()
                if len(r) != len(head): return None
                rows.append(r)
        elif '{' in l:
            k, v = [x.strip() for x in l.split('=')]
            v = v.lstrip('{').strip()
            if v: tab, head, rows = k, [x.strip() for x in v.split(',') if x.strip()], []
            else: cur = k
        elif l == '}': cur = None
        elif l.startswith('n_trials'): n = int(l.split('=')[1])
    if tab is not None or cur is not None: return None
    return ns, tr

def command(measures, t): return ['-ra', SRC, '-trials', str(t), '-measure', ','.join(measures)]

@contextlib.contextmanager
def quick_plots():
    """figures are not drawn here"""
    import craterstats as cst
    names = [n for n in ('plot_montecarlo_split', 'plot_n_sigma') if hasattr(cst.Randomnessanalysis, n)]
    saved = {n: getattr(cst.Randomnessanalysis, n) for n in names}
    sv = None
    import matplotlib.figure as mf
    sv, mf.Figure.savefig = mf.Figure.savefig, lambda self, f, *a, **k: None
    try:
        for n in names: setattr(cst.Randomnessanalysis, n, lambda self, cps, *a, **k: setattr(cps, 'fig', types.SimpleNamespace(savefig=lambda *a, **k: None)))
        yield
    finally:
        for n, v in saved.items(): setattr(cst.Randomnessanalysis, n, v)
        mf.Figure.savefig = sv

SRC = 'c28.scc'
def start(h):
    wd = cli.fresh_dir('c28')
    for f in os.listdir(wd): os.remove(f'{wd}/{f}')
    f = source('c28')
    shutil.move(f, f'{wd}/{SRC}')
    for m, t in HIST[h]: ok(cli_run(command([m], t), wd), f'history {m} {t}')
    return wd

def cli_run(argv, wd):
    with quick_plots(), pool.controlled([pool.Schedule([0])], inline=True): return cli.run(argv, wd)

def ok(r, what):
    if not r.ok:
        from ..core import HarnessError
        raise HarnessError(f'{what}: {r.why()}')

class Write:
    """a file being written; stops at a given prefix of the k-th one"""
    def __init__(self, f, inj, k): self.__dict__.update(f=f, inj=inj, k=k)
    def write(self, s):
        cut = self.inj.cut(self.k, s)
        if cut is None: return self.f.write(s)
        self.f.write(s[:cut]); self.f.flush()
        self.inj.crash()
    def writelines(self, it): self.write(''.join(it))
    def __getattr__(self, n): return getattr(self.f, n)
    def __setattr__(self, n, v): setattr(self.f, n, v)
    def __enter__(self): self.f.__enter__(); return self
    def __exit__(self, *a): return self.f.__exit__(*a)
    def __iter__(self): return iter(self.f)

class Injector:
    """counts crash points; crashes at the one given (None: records the class of each)"""
    def __init__(self, what, point, mode, wd):
        self.what, self.point, self.mode, self.wd, self.n, self.where = what, point, mode, wd, 0, None
        self.classes, self.evals = [], 0
    def crash(self, where=None):
        self.where = where
        self.what = None
        if self.mode == 'kill': os._exit(77)
        raise (Failure if self.mode == 'error' else Crash)('injected')
    def tick(self, where, frame=None):
        i = self.n; self.n += 1
        if self.point is None:
            st = []
            while frame is not None and self.mode == 'interrupt':
                if '/craterstats/' in frame.f_code.co_filename: st.append((frame.f_code.co_filename, frame.f_lineno))
                frame = frame.f_back
            self.classes.append((tuple(st), disk(self.wd), where if self.what == 'call' else None))
        elif i == self.point: self.crash(where)
    def cut(self, k, s):
        """prefix of s to write before the crash, None: everything. Points: before, every line end, every mid-line"""
        if self.what != 'write': return None
        lines = s.splitlines(True)
        pos = [0]
        for l in lines: pos += [pos[-1] + len(l) // 2, pos[-1] + len(l)] if len(l) > 1 else [pos[-1] + len(l)]
        if self.point is None: self.classes += [(k, self.n + i) for i in range(len(pos))]
        elif self.n <= self.point < self.n + len(pos): return pos[self.point - self.n]
        self.n += len(pos)
        return None
    def trace(self, frame, event, arg):
        c = frame.f_code
        if self.what != 'line': return None
        if '/craterstats/' not in c.co_filename or c.co_name in HOT: return None
        if os.path.basename(c.co_filename) in SKIP or '/gm/string/' in c.co_filename: return None
        return self.local
    def local(self, frame, event, arg):
        if event == 'line' and self.what == 'line': self.tick(f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}', frame)
        return self.local

def disk(wd):
    """what is on disk"""
    return tuple(sorted((e.name, e.stat().st_size, e.stat().st_mtime_ns, e.inode()) for e in os.scandir(wd)))

_points = {}
def points(h, mode, what, every):
    """crash points to explore: one per class; of the passes through the same interruption point, the first and the last (every: all)"""
    k = (h, mode, what, every)
    if k not in _points:
        wd = start(h)
        inj = Injector(what, None, mode, wd)
        with injected(inj): ok(cli_run(command(('m2cnd', 'sdaa'), T), wd), 'counting crash points')
        if every and mode == 'interrupt' or what != 'line': _points[k] = list(range(len(inj.classes)))
        else:
            first, last = {}, {}
            for i, c in enumerate(inj.classes):
                first.setdefault(c, i); last[c] = i
            _points[k] = sorted(set(first.values()) | (set(last.values()) if mode == 'interrupt' else set()))
        _points[k] = (_points[k], len(inj.classes))
    return _points[k]

SKIP = {'read_textstructure.py', 'read_textfile.py', 'quote_tolerant_split.py', 'miscellaneous.py', 'constants.py', 'Productionfn.py', 'Chronologyfn.py', 'Craterplotset.py', 'Craterplot.py', 'Epochs.py', 'filename.py', 'ticks.py', 'range.py', 'Cratercount.py', 'diameter_range.py'}

@contextlib.contextmanager
def injected(inj):
    RA = sys.modules['craterstats.Randomnessanalysis']
    oo, oi, ev = builtins.open, io.open, RA.evaluate_randomness
    nw = [0]
    def op(f, mode='r', *a, **k):
        h = oo(f, mode, *a, **k)
        if any(c in mode for c in 'wxa') and 'b' not in mode and inj.what == 'write':
            nw[0] += 1
            return Write(h, inj, nw[0])
        return h
    def evaluate(*a, **k):
        if inj.what == 'call': inj.tick('evaluation')
        return ev(*a, **k)
    builtins.open = io.open = op
    RA.evaluate_randomness = evaluate
    if inj.what == 'line': sys.settrace(inj.trace)
    try: yield
    finally:
        sys.settrace(None)
        builtins.open, io.open = oo, oi
        RA.evaluate_randomness = ev

def attempt(inj, wd):
    """True if the injected crash happened"""
    argv = command(('m2cnd', 'sdaa'), T)
    if inj.mode == 'kill':
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.alarm(0)
                with injected(inj): r = cli_run(argv, wd)
                code = 0 if r.ok else 2
            finally: os._exit(code)
        _, st = os.waitpid(pid, 0)
        return os.waitstatus_to_exitcode(st) == 77
    try:
        with injected(inj): cli_run(argv, wd)
    except Crash: pass
    return inj.what is None

_want = {}
def want(h):
    if h not in _want:
        wd = start(h)
        ok(cli_run(command(('m2cnd', 'sdaa'), T), wd), 'uninterrupted')
        f = [x for x in os.listdir(wd) if x.endswith('_ra.txt')]
        _want[h] = parse(f'{wd}/{f[0]}')
    return _want[h]

def same(a, b): return a is not None and b is not None and a[0] == b[0] and a[1] == b[1]

def run(s, R):
    import craterstats as cst
    goal = want(s['h'])
    R.expect(goal is not None and set(goal[1]) == {'m2cnd', 'sdaa'}, 'uninterrupted-run', str(goal))
    todo, total = points(s['h'], s['mode'], s['what'], s['all'])
    fin = 'c28_ra.txt'
    base = start(s['h'])
    save = base + '-start'
    shutil.rmtree(save, ignore_errors=True); shutil.copytree(base, save)
    before = parse(f'{save}/{fin}') if os.path.exists(f'{save}/{fin}') else None
    if not s['part']: R.count('crash_points_total', total); R.count('crash_points_explored', len(todo))
    for p in todo[s['part']::s['parts']]:
        wd = cli.fresh_dir('c28')
        for f in os.listdir(save): shutil.copy(f'{save}/{f}', f'{wd}/{f}')
        inj = Injector(s['what'], p, s['mode'], wd)
        if not attempt(inj, wd): 
            R.count('points_not_reached'); continue
        R.step()
        desc = lambda: f'{s["mode"]} at {s["what"]} {p} ({inj.where}) of an analysis of {T} trials, history {HIST[s["h"]]}'
        R.state((s['h'], s['mode'], s['what'], p, tuple(sorted((f, hash(b)) for f, b in cli.tree(wd).items()))))
        # what is left over
        left = parse(f'{wd}/{fin}') if os.path.exists(f'{wd}/{fin}') else None
        if before:
            R.expect(left is not None, 'saved-results-lost', desc)
            for m, v in before[1].items():
                R.expect(left[1].get(m) in (v, goal[1][m]), 'saved-results-lost', lambda: f'{m}: {left[1].get(m)} was {v}; {desc()}')
        old = os.getcwd(); os.chdir(wd)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                try: cc = cst.Cratercount(SRC)
                except (SystemExit, Exception) as e: cc = e
            R.expect(not isinstance(cc, BaseException) and len(cc.diam) == len(CR), 'source-unreadable', lambda: f'{cc!r}; {desc()}')
            if cc.n_sigma:
                bins = cc.n_sigma['bin']
                R.expect(all(len(v) == len(bins) and all(x == '-' or np.isfinite(float(x)) for x in v) for k, v in cc.n_sigma.items() if k != 'bin'), 'leftover-not-usable', lambda: f'{cc.n_sigma}; {desc()}')
        finally: os.chdir(old)
        if s['what'] != 'line' and not p % 5 and s['part'] % 2 == 0:
            r = cli.run(['-p', f'source={SRC}', '-o', 'plot'], wd)
            R.expect(r.ok, 'plot-fails', lambda: f'{r.why()}; {desc()}')
        # retry
        r = cli_run(command(('m2cnd', 'sdaa'), T), wd); R.step()
        R.expect(r.ok, 'retry-fails', lambda: f'{r.why()}; {desc()}')
        got = parse(f'{wd}/{fin}')
        R.expect(same(got, goal), 'retry-differs', lambda: f'{got} expected {goal}; {desc()}')
        R.trace()
        if s['mode'] != 'kill' and s['what'] != 'write': same_process(R, s, p, save, goal, desc)
    R.outcome((s['h'], s['what']))

def same_process(R, s, p, save, goal, desc):
    """the same analysis object is used again after the interruption"""
    import craterstats as cst
    wd = cli.fresh_dir('c28')
    for f in os.listdir(save): shutil.copy(f'{save}/{f}', f'{wd}/{f}')
    old = os.getcwd(); os.chdir(wd)
    inj = Injector(s['what'], p, s['mode'], wd)
    def go(ra):
        for m in ('m2cnd', 'sdaa'):
            ra.run_montecarlo(T, m)
            ra.calculate_stats()
            ra.write()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), pool.controlled([pool.Schedule([0])], inline=True):
            ra = cst.Randomnessanalysis(SRC)
            try:
                with injected(inj): go(ra)
            except (Crash, Failure): pass
            go(ra)
        got = parse('c28_ra.txt')
        R.step(2); R.trace()
        R.expect(same(got, goal), 'retry-differs', lambda: f'same process: {got} expected {goal}; {s["mode"]} at {s["what"]} {p} ({inj.where}), history {HIST[s["h"]]}')
        R.state((s['h'], 'same-process', s['what'], p))
    finally: os.chdir(old)
