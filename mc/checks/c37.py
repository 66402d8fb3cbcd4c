"""Files cut short, torn or damaged at every place, and a failing read or write at every point of every command: refused, or the full result."""
import builtins, errno, gc, io, itertools, os, shutil
from .. import core, ref, cli
from .c16 import WKT, write_shp
from .c29 import write_source, results_file, go, SRC, bins, actual
TECHNIQUE = 'exhaustive fault-point enumeration on the real code: every prefix (byte by byte) of every kind of input file, every damaged cell, and a fault at every open, read, write, close and rename of every command'
RULE = ('inputs = .scc (as written by hand, by the program, by OpenCraterTool), .diam (plain, merged, buffered), shapefile pairs (.shp, .prj, .dbf of both; a cut index file .shx belongs to the library), results files: every prefix; every required key and column missing; every cell of every row unreadable; rows without their last cell; '
        'faults = {refused open, failing read, full disk while writing, full disk on closing, refused rename} at the n-th file operation, all n, of 15 commands; oracle = failure status, or result equal to that of the intact run')
LIMIT = 600
S = '%sample%/'
TEXT = ['a.scc', 'w.scc', 'o.scc', 'd.diam', 'm.diam', 'u.diam', 't.stat', 's.stat']
SHAPE = ['q_CRATER.shp', 'q_AREA.shp', 'q_CRATER.prj', 'q_AREA.prj', 'q_CRATER.dbf', 'q_AREA.dbf', 'p_CRATER.shp', 'p_AREA.shp', 'p_CRATER.prj']
CMDS = [['-o', 'x', '-p', 'source=a.scc', '-p', 'type=poisson,range=[.1,3]', '-p', 'source=d.diam', '-f', 'csv', 'png', 'svg'],
        ['-o', 'x', '-p', 'source=q_CRATER.shp', '-p', 'type=c-fit,range=[.5,4]', '-p', 'source=t.stat', '-f', 'png', 'csv'],
        ['-pr', 'seq', '-st', '-p', 'source=d.diam,range=[.5,4]', '-p', 'source=a.scc,range=[.1,3]', '-f', 'csv', 'png'],
        ['-pr', 'uncer', '-ns', '3', '-cs', 'ni2001', '-o', 'x', '-f', 'png', 'svg'], ['-pr', 'chron'],
        ['-i', 'cmd.cs'], ['-inc', 'set.txt', '-o', 'x', '-p', 'source=d.diam'],
        ['--convert', 'stat', 'd.diam', '-o', 'x'], ['--convert', 'stat', 'q_CRATER.shp', '-o', 'x'], ['--convert', 'scc', 'q_CRATER.shp', '-o', 'x'], ['--convert', 'shp', 'a.scc', '-o', 'x'], ['--convert', 'png', 'a.scc', '-o', 'x'],
        ['-m', 'd.diam', 'a.scc', 'q_CRATER.shp', '-o', 'x'], ['-ra', 'a.scc', '-trials', '2', '-measure', 'm2cnd'], ['-ra', 'b.scc', '-trials', '2', '-measure', 'sdaa', '-f', 'png']]
MODES = ['open', 'read', 'write', 'close', 'rename']

def scenarios(tier):
    deep = tier == 'thorough'
    out = [dict(k='prefix', f=f, part=p, parts=4, step=1) for f in TEXT[:6] for p in range(4)]
    out += [dict(k='prefix', f=f, part=p, parts=8, step=1 if deep or not f.endswith('.shp') or f[0] == 'q' else 8) for f in SHAPE for p in range(8)]
    out += [dict(k='cells', f=f) for f in TEXT]
    out += [dict(k='keys')]
    out += [dict(k='results', f='a_ra.txt', part=p, parts=16) for p in range(16)]
    out += [dict(k='fault', c=c, mode=m, old=o) for c in range(len(CMDS)) for m in MODES for o in (0, 1)]
    return out

def fixture(name='c37'):
    d = cli.fresh_dir(name)
    for k, v in FILES.items():
        with open(f'{d}/{k}', 'wb') as f: f.write(v)
    return d

FILES = {}
def setup(R):
    import craterstats
    d = cli.fresh_dir('mk')
    src = next(s for s in SRC if bins(s, 'sdaa') and bins(s, 'm2cnd'))
    for n in 'ab': write_source(d, src, n)
    results_file(f'{d}/a_ra.txt', {'m2cnd': (1, {b: [float(f'{actual(src, "m2cnd", b):.7g}')] for b in bins(src, 'm2cnd')})})
    rows = [dict(diameter=repr(round(.5 * 1.17 ** i, 4)), fraction=str((1, .5)[i % 2])) for i in range(14)]
    ref.write(d + '/d.diam', ref.diam_text('1200', rows, perimeter='140'))
    ref.write(d + '/u.diam', 'area = 1\ncrater = {diameter, reference_area\n' + ''.join(f'{r["diameter"]} {100 + i}\n' for i, r in enumerate(rows)) + '}\n')
    ref.write(d + '/o.scc', '# OpenCraterTool\na-axis radius = 1737.4 <km>\nTotal_area = 1.47E+04 <km^2>\nTotal_perimeter = 484.9 <km>\nArea_name 1 = NULL\nunit_boundary = {vertex, sub_area, tag, lon, lat\n'
              + ''.join(f'{i + 1} 1 ext {x} {y}\n' for i, (x, y) in enumerate([(0, 0), (4, 0), (4, 4), (0, 4), (0, 0)])) + '}\n#\ncrater = {diam, fraction, lon, lat, topo_scale_factor\n' + ''.join(f'{1.1 * 1.3 ** i:.4f} 1 {1 + .3 * i} {1.2 + .2 * i} 1\n' for i in range(6)) + '}\n')
    sh = [(0, 0), (0, 5), (6, 5), (6, 0)]
    ci = [(3, 3, .002, 1), (4, 1, .004, 1), (.5, .5, .01, 1)]
    write_shp(d, 'q', [[(sh, [])], [([(10, 0), (10, 1), (11, 1), (11, 0)], [])]], ci, (WKT.format(1737400), lambda r: r))
    write_shp(d, 'p', [[(sh, [[(1, 1), (2, 1), (2, 2), (1, 2)]])]], ci, (WKT.format(1737400), lambda r: r))
    ref.write(d + '/cmd.cs', '-pr R-plot -ef trask\n-p source=a.scc,psym=o\n-p type=poisson,range=[.1,3]\n-f png csv\n')
    ref.write(d + '/set.txt', '-pr cumulative -isochrons 1,.1\n')
    for a in (['--convert', 'scc', 'q_CRATER.shp', '-o', 'w'], ['--convert', 'stat', 'd.diam', '-o', 't'], ['-m', 'd.diam', 'a.scc', '-o', 'm']):
        r = cli.run(a, d)
        if not r.ok: R.harness.append(f'fixture {a}: {r.why()}')
    n = range(9)
    ref.write(d + '/s.stat', ''.join(f'{1.2 ** i:<9.4g} {9 - i} 1e-3 1e-3 {sum(range(1, 10 - i))} {sum(range(1, 10 - i)) / 900:.6E} 1e-3\n' for i in n))
    for k in os.listdir(d): FILES[k] = open(f'{d}/{k}', 'rb').read()

def summary(f, d):
    """what a source means, or the refusal; twice: as a count, as a map"""
    import contextlib
    import numpy as np
    import craterstats as cst
    out = []
    old = os.getcwd()
    os.chdir(d)
    try:
        for make in (cst.Cratercount, cst.Spatialcount) if f.endswith(('.scc', '.shp')) else (cst.Cratercount,):
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): c = make(f)
                num = lambda x: None if x is None else [float(y) for y in np.ravel(x)]
                b = getattr(c, 'binned', None) or {}
                out.append(['ok'] + [num(getattr(c, k, None)) for k in ('diam', 'fraction', 'area', 'perimeter', 'lon', 'lat')] + [sorted((k, tuple(num(v))) for k, v in b.items())])
            except SystemExit as e: out.append(['refused', str(e.code) if e.code else ''])
            except core.ScenarioTimeout: raise
            except Exception as e: out.append(['refused', f'{type(e).__name__} {e}'] if make is cst.Spatialcount else ['exception', repr(e)])
    finally: os.chdir(old)
    return out

def source_of(f): return f if f.endswith(('.scc', '.diam', '.stat')) else f[0] + '_CRATER.shp'

def close_leftovers():
    """readers which failed half way keep their files open"""
    import shapefile
    gc.collect()
    for o in gc.get_objects():
        if type(o) is shapefile.Reader:
            try: o.close()
            except Exception: pass

def judge(R, f, what, d, full):
    """refused with the name of the file, or the same"""
    got = summary(source_of(f), d)
    R.step(); R.trace(); R.state(what)
    if R.transitions % 60 == 0: close_leftovers()
    for g, w in zip(got, full):
        R.expect(g == w or g[0] == 'refused', 'misread', lambda: f'{what}: {g} instead of {w}')
        R.expect(g is not got[0] or g == w or source_of(f) in g[1], 'not-said', lambda: f'{what}: {g}')
    R.outcome((f, got[0][0]))
    return got

def run(s, R):
    if s['k'] == 'fault': return fault(s, R)
    if s['k'] == 'results': return results_files(s, R)
    d = fixture()
    if s['k'] == 'keys': return keys(R, d)
    f = s['f']
    full = summary(source_of(f), d)
    R.expect(all(x[0] == 'ok' for x in full), 'refused', lambda: f'{f} intact: {full}')
    b = FILES[f]
    put = lambda x: open(f'{d}/{f}', 'wb').write(x)
    if s['k'] == 'prefix':
        cuts = [k for k in range(0, len(b), s['step'])]
        n = 0
        for k in cuts[s['part']::s['parts']]:
            put(b[:k])
            n += judge(R, f, f'{f} cut after {k} of {len(b)} bytes', d, full)[0][0] == 'refused'
        if f.endswith(('.scc', '.diam', '.shp', '.prj')): R.expect(n > 0, 'never-refused', f)
    else:
        L = b.decode().split('\n')
        inside = f.endswith('.stat')
        head = None
        for i, l in enumerate(L):
            if '{' in l: head, inside = l, True; continue
            if l.strip() == '}': inside = False
            if not inside or not l.strip() or l.lstrip().startswith('#'): continue
            c = l.split()
            for j in range(len(c)):
                for junk in ('x', '1.2.3', '--', '"one"'):
                    put('\n'.join(L[:i] + ['\t'.join(c[:j] + [junk] + c[j + 1:])] + L[i + 1:]).encode())
                    judge(R, f, f'{f} line {i} column {j}: {junk}', d, full)
            put('\n'.join(L[:i] + ['\t'.join(c[:-1])] + L[i + 1:]).encode())
            judge(R, f, f'{f} line {i} without its last cell', d, full)

REQUIRED = {'a.scc': ['Total_area', 'crater =', '{diam,'], 'w.scc': ['Total_area', 'crater =', '{diam,'], 'd.diam': ['area', 'crater', 'diameter'], 'm.diam': ['area', 'crater', '{diameter'], 'u.diam': ['crater', 'diameter']}
SPATIAL = {'a.scc': ['a_axis_radius', 'unit_boundary', 'sub_area', ' lon, lat\n1'], 'w.scc': ['unit_boundary', 'sub_area']}
def keys(R, d):
    for f in REQUIRED:
        full = summary(f, d)
        t = FILES[f].decode()
        for k in REQUIRED[f] + SPATIAL.get(f, []):
            if k not in t: raise core.HarnessError(f'{k} not in {f}')
            for new in (k[:1] + 'q' + k[1:], k[:-1] + ('Z' if k[-1] not in '=,' else 'Z' + k[-1])):
                open(f'{d}/{f}', 'w').write(t.replace(k, new))
                got = judge(R, f, f'{f} with {new} instead of {k}', d, full)
                R.expect(k in SPATIAL.get(f, []) or got[0][0] == 'refused', 'accepted', lambda: f'{f} with {new} instead of {k}: {got}')
        open(f'{d}/{f}', 'w').write(t)
    for a, b in (('q', 'p'),):
        for ext in ('prj', 'shp'):
            for w in ('CRATER', 'AREA'):
                os.remove(f'{d}/{a}_{w}.{ext}')
                got = summary(f'{a}_CRATER.shp', d)
                R.step()
                R.expect(all(g[0] == 'refused' for g in got), 'accepted', lambda: f'{a}_{w}.{ext} missing: {got}')
                open(f'{d}/{a}_{w}.{ext}', 'wb').write(FILES[f'{a}_{w}.{ext}'])
    open(f'{d}/q_AREA.prj', 'wb').write(FILES['q_AREA.prj'].replace(b'1737400', b'3389500'))
    got = summary('q_CRATER.shp', d)
    R.expect(all(g[0] == 'refused' for g in got), 'accepted', lambda: f'radii differ: {got}')

def results_files(s, R):
    """a results file cut short is not taken for whole"""
    f = s['f']
    argv = ['-ra', 'a.scc', '-trials', '1', '-measure', 'm2cnd']
    d = fixture()
    r = go(argv, d)
    R.expect(r.ok, 'refused', lambda: f'{argv}: {r.why()}')
    want = body(cli.tree(d)[f])
    b = FILES[f]
    for k in range(s['part'], len(b), s['parts']):
        d = fixture()
        open(f'{d}/{f}', 'wb').write(b[:k])
        r = go(argv, d)
        R.step(); R.trace(); R.state((f, k))
        got = body(cli.tree(d)[f])
        if r.ok: R.expect(well_formed(got), 'misread', lambda: f'{f} cut after {k}: {got!r}')
        else: R.expect(cli.tree(d)[f] == b[:k], 'overwritten', lambda: f'{f} cut after {k}: {r.why()}')

def body(b): return [l for l in b.decode('utf-8-sig').split('\n') if l.strip() and not l.startswith('#')]
def well_formed(L):
    """one complete trial for every bin"""
    from .c28 import parse
    p = os.path.join(core.SCRATCH, f'wf{os.getpid()}')
    with open(p, 'w') as f: f.write('\n'.join(L))
    g = parse(p)
    return g is not None and all(n == 1 and all(len(v) == 1 for v in t.values()) for n, t in g[1].values())

class Torn:
    """a file on a failing device"""
    def __init__(self, f, mode): self.__dict__.update(f=f, mode=mode)
    def __getattr__(self, n):
        if self.mode == 'read' and n in ('read', 'readline', 'readlines', 'readinto', '__iter__'): raise OSError(errno.EIO, 'Input/output error', self.f.name)
        return getattr(self.f, n)
    def __iter__(self):
        if self.mode == 'read': raise OSError(errno.EIO, 'Input/output error', self.f.name)
        return iter(self.f)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def write(self, x):
        if self.mode == 'write':
            self.f.write(x[:len(x) // 2])
            raise OSError(errno.ENOSPC, 'No space left on device', self.f.name)
        return self.f.write(x)
    def writelines(self, L):
        for x in L: self.write(x)
    def close(self):
        if self.f.closed: return
        self.f.close()
        if self.mode == 'close': raise OSError(errno.ENOSPC, 'No space left on device', self.f.name)

class Device:
    """counts file operations below d; the n-th one of the mode fails"""
    def __init__(self, d, mode, at): self.d, self.mode, self.at, self.n, self.hit = os.path.realpath(d), mode, at, 0, None
    def __enter__(self):
        self.saved = builtins.open, io.open, os.replace, os.rename
        op = self.saved[0]
        def here(p):
            try: return os.path.realpath(os.fspath(p)).startswith(self.d + os.sep)
            except TypeError: return False
        def due(p):
            self.n += 1
            if self.n - 1 == self.at:
                self.hit = os.path.basename(os.fspath(p)) or 'x'
                return True
        def opn(p, mode='r', *a, **k):
            if not here(p): return op(p, mode, *a, **k)
            w = any(c in mode for c in 'wax+')
            if self.mode == 'open' and due(p): raise PermissionError(errno.EACCES, 'Permission denied', p)
            if self.mode == 'read' and not w or self.mode in ('write', 'close') and w and not (self.mode == 'close' and os.fspath(p).endswith(('.shp', '.shx', '.dbf'))):      # the shapefile library ignores failures on closing
                if due(p): return Torn(op(p, mode, *a, **k), self.mode)
            return op(p, mode, *a, **k)
        def move(orig):
            def f(a, b, **k):
                if self.mode == 'rename' and here(b) and due(b): raise PermissionError(errno.EACCES, 'Permission denied', b)
                return orig(a, b, **k)
            return f
        builtins.open = io.open = opn
        os.replace, os.rename = move(os.replace), move(os.rename)
        return self
    def __exit__(self, *a):
        builtins.open, io.open, os.replace, os.rename = self.saved
        return False

def execute(s, at):
    d = fixture()
    if s['old']:
        for n in ('x', 'a_d', 'a', 'b', 'cmd', 'MoonNeukum1983_chronology', 'x_map'):
            for e in ('cs', 'csv', 'png', 'svg', 'stat', 'scc', 'diam', '_CRATER.shp'.lstrip('.')):
                p = f'{d}/{n}.{e}' if e[0] != '_' else f'{d}/{n}{e}'
                if not os.path.exists(p): ref.write(p, 'earlier result')
    before = cli.tree(d)
    with Device(d, s['mode'], at) as D: r = go(CMDS[s['c']], d, figures=True)
    after = cli.tree(d)
    r.saved, r.cps = [], None
    if r.exc is not None: r.exc = RuntimeError(f'{type(r.exc).__name__}: {r.exc}')
    gc.collect()           # half-written shapefiles are finished when their writer is collected: now, not within the next command
    return r, D, before, after

def same(a, b):
    """but for the time of writing"""
    strip = lambda k, v: v[:1] + v[4:] if k.endswith('.dbf') else b'\n'.join(l for l in v.split(b'\n') if not l.startswith(b'#'))
    return a.keys() == b.keys() and all(strip(k, a[k]) == strip(k, b[k]) for k in a)

def fault(s, R):
    r, D, before, want = execute(s, -1)
    R.expect(r.ok, 'run-failed', lambda: f'{CMDS[s["c"]]}: {r.why()}')
    fresh = {k for k in want if want[k] != before.get(k)}
    for at in range(D.n):
        r, D1, before, after = execute(s, at)
        what = lambda: f'{CMDS[s["c"]]}: {s["mode"]} {at} ({D1.hit}) fails: {r.out[-200:]} {r.why()[-500:]}'
        R.step(); R.trace(); R.state((s['c'], s['mode'], s['old'], at))
        if not D1.hit: R.count('not_reached')          # something done once per process
        if r.ok: R.expect(same(after, want), 'failure-unnoticed', lambda: f'{what()} {[k for k in sorted(set(after) | set(want)) if after.get(k) != want.get(k)]}')
        else: R.expect(r.exc is not None or r.exit not in (0, None, ''), 'no-failure-status', what)
        other = [k for k in before if k not in fresh and after.get(k) != before[k]]
        R.expect(not other, 'files-touched', lambda: f'{other}: {what()}')
        for k in after:
            if k.endswith('_ra.txt') and k in before: R.expect(body(after[k]) in (body(before[k]), body(want[k])), 'results-lost', lambda: f'{k}: {body(after[k])}: {what()}')
        R.outcome((s['c'], s['mode'], r.ok, type(r.exc).__name__))
