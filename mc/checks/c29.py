"""Saved randomness results: every small results file x every short history of analyses, plots of them, and the command's output files."""
import contextlib, io, itertools, math, os, re, shutil, sys, types
import numpy as np
from .. import ref, pool, cli
from .c25 import box
from .c26 import cell_areas, ring_area, vec, ang
from .c28 import parse
TECHNIQUE = 'model checking: exhaustive enumeration of saved results files (bins present per measure x trials x values) and of all command histories up to a depth on the real analysis, against a model of the saved state; brute-force measures as oracle'
RULE = ('results files = {m2cnd, sdaa} present or not x every subset of bins x 0..3 saved trials with values from 1e-12 to 1e10, x source formats and folders; histories = all sequences up to 3 analyses over {m2cnd, sdaa, both} x {2, 4} trials from each saved state; '
        'plots = all presence patterns and values of up to 3 bins x 4 presentations; output = format sets x measures x selections; state=(files, history)')
LIMIT = 300
RAD = 1737.4
POS = [(.3, .3), (2.6, .9), (1.1, 2.7), (3.3, 2.9), (2.2, 2.), (.9, 1.2), (3.2, 1.9), (1.8, 3.4), (2.9, .4), (.6, 3.3), (1.5, 1.6), (3.6, 3.5), (2.1, 2.9)]
def craters(spec):
    out, i = [], 0
    for b, n in spec:
        for j in range(n):
            out.append((round(2 ** b * (1.02 + .03 * j), 6), *POS[i])); i += 1
    return out
# bin exponent, craters
SRC = {'mixed': [(-2.5, 3), (0, 5), (1.5, 4)], 'two': [(0, 4), (.5, 5)], 'three': [(1, 3)], 'few': [(0, 2), (2, 1)], 'gap': [(-1, 4), (3, 3), (3.5, 1)]}
MIN = {'m2cnd': 3, 'sdaa': 4}
VAL = [1e-12, 3.1234567e-5, .5, 123456.7, 9.999999e9, 0., 61.92735, 2.]
def bkey(b): return f'{b:.3g}'
def bins(src, m): return [bkey(b) for b, n in SRC[src] if n >= MIN[m]]

def scenarios(tier):
    q = tier == 'quick'
    out = []
    for src in SRC:
        for m in ('m2cnd', 'sdaa'):
            for n in (2, 3) if q else (2, 3, 4):
                B = bins(src, m)
                for k in range(len(B) + 1):
                    for sub in itertools.combinations(B, k): out.append(dict(kind='table', src=src, m=m, n=n, bins=list(sub)))
    for src in ('mixed', 'two', 'three'):
        for start in (None, {'m2cnd': 3}, {'sdaa': 3}, {'m2cnd': 3, 'sdaa': 3}, {'m2cnd': 1, 'sdaa': 5}):
            cmds = [(m, t) for m in (('m2cnd',), ('sdaa',), ('m2cnd', 'sdaa')) for t in ((2, 4) if q else (2, 3, 4))]
            for c in cmds: out.append(dict(kind='history', src=src, start=start, first=c, depth=(3 if src == 'mixed' else 2) if q else 3, cmds=cmds))
    for where in ('cwd', 'folder'):
        for fmt in ('scc', 'shp'):
            for src in ('mixed', 'three'): out.append(dict(kind='place', where=where, fmt=fmt, src=src))
    for pr in ('cumulative', 'differential', 'R-plot', 'Hartmann'):
        for k in (1, 2, 3):
            for i in range(4): out.append(dict(kind='plot', pr=pr, k=k, part=i, parts=4))
    for f in (['png'], ['pdf', 'svg'], ['png', 'tif', 'pdf', 'svg'], ['csv', 'png'], ['svg', 'csv', 'pdf']):
        for src in ('mixed', 'three', 'few'):
            for ms in (('m2cnd',), ('sdaa',), ('m2cnd', 'sdaa'), None): out.append(dict(kind='files', f=f, src=src, ms=ms))
    for src in ('mixed', 'two', 'gap', 'three'):
        for sel in (None, '0', '1', '2', '1,2', '0,2', '3,1', '0,1,2,3', '7', '2,9'): out.append(dict(kind='figure', src=src, sel=sel))
    return out

@contextlib.contextmanager
def no_figures(made):
    """figures are not drawn; the files saved are recorded"""
    import craterstats as cst
    RA = cst.Randomnessanalysis
    names = [n for n in ('plot_montecarlo_split', 'plot_n_sigma') if hasattr(RA, n)]
    saved = {n: getattr(RA, n) for n in names}
    def stub(self, cps, *a, **k): cps.fig = types.SimpleNamespace(savefig=lambda f, *a, **k: made.append(os.path.basename(f)))
    try:
        for n in names: setattr(RA, n, stub)
        yield
    finally:
        for n, v in saved.items(): setattr(RA, n, v)

def go(argv, wd, figures=False):
    made = []
    with contextlib.nullcontext() if figures else no_figures(made), pool.controlled([pool.Schedule([0])], inline=True) as P:
        r = cli.run(argv, wd)
        r.pools = len(P.log)
    r.made = made
    return r

def write_source(wd, src, name='s'):
    ln = [f'{i + 1}\t1\text\t{x}\t{y}' for i, (x, y) in enumerate(SHELL + SHELL[:1])]
    cr = '\n'.join(f'{d}\t1\t{x}\t{y}' for d, x, y in craters(SRC[src]))
    ref.write(f'{wd}/{name}.scc', f'a_axis_radius = {RAD} <km>\nTotal_area = 14708.4 <km^2>\nunit_boundary = {{vertex, sub_area, tag, lon, lat\n' + '\n'.join(ln) + '\n}\ncrater = {diam, fraction, lon, lat\n' + cr + '\n}\n')
SHELL = box(0, 0, 4, 4)

def results_file(p, saved, ns=None):
    """saved: {measure: (n, {bin: [values]})}"""
    B = sorted({b for n, t in saved.values() for b in t}, key=float)
    s = ['# Randomness analysis', 'version = 3.6.10', 'source = "s.scc"', '#', 'n_sigma = {bin' + ''.join(', ' + m for m in saved)]
    for b in B: s.append(f'{b:<12}' + ''.join(f'\t{ns[m][b] if ns and ns[m].get(b) is not None else 0 if b in saved[m][1] and not ns else "-":>9}' for m in saved))
    s.append('}')
    for m, (n, t) in saved.items():
        s += ['#', m + ' = {', f'n_trials = {n}', 'trials  = {index, ' + ', '.join(t)] + ['\t'.join([f'{i:<12}'] + [f'{v[i]:<12.7g}' for v in t.values()]) for i in range(n)] + ['}', '}']
    ref.write(p, '\n'.join(s))

def values(m, b, n, k=0):
    i = (hash_(m + b) + k) % len(VAL)
    return [VAL[(i + 3 * j) % len(VAL)] for j in range(n)]
def hash_(s): return sum(ord(c) * (i + 1) for i, c in enumerate(s))

_m0 = {}
def actual(src, m, b):
    """brute force"""
    if (src, m, b) not in _m0:
        i = [j for j, (d, x, y) in enumerate(craters(SRC[src])) if bkey(math.floor(2 * math.log2(d) + 1e-9) / 2) == b]
        V = [vec(craters(SRC[src])[j][1:]) for j in i]
        if m == 'm2cnd':
            _m0[src, m, b] = sum(sorted(ang(a, c) for c in V)[2] for a in V) / len(V) * RAD
        else: _m0[src, m, b] = float(np.std(cell_areas(V, [[vec(p) for p in SHELL]], [])))
    return _m0[src, m, b]

_fresh = {}
def fresh(R, src, m, n):
    """results of an analysis with nothing saved"""
    if (src, m, n) not in _fresh:
        wd = cli.fresh_dir('c29f')
        write_source(wd, src)
        r = go(['-ra', 's.scc', '-trials', str(n), '-measure', m], wd)
        R.expect(r.ok, 'analysis-fails', lambda: f'{src} {m} {n}: {r.why()}')
        p = parse(f'{wd}/s_ra.txt')
        R.expect(p is not None and set(p[1]) == {m} and p[1][m][0] == n, 'fresh-results', lambda: f'{src} {m} {n}: {p}')
        t = p[1][m][1]
        if bins(src, m): R.expect(list(t) == bins(src, m) and all(len(v) == n for v in t.values()), 'fresh-results', lambda: f'{src} {m} {n}: {t} expected bins {bins(src, m)}')
        _fresh[src, m, n] = {b: v for b, v in t.items() if b}
    return _fresh[src, m, n]

def judge(R, path, src, model, what):
    """results file against the model {measure: (n, {bin: values})}"""
    R.expect(os.path.exists(path), 'no-results-file', what)
    p = parse(path)
    R.expect(p is not None, 'results-file-form', lambda: f'{open(path).read()}; {what()}')
    ns, tr = p
    R.expect(set(tr) == set(model), 'measures-saved', lambda: f'{sorted(tr)} expected {sorted(model)}; {what()}')
    for m, (n, t) in model.items():
        got = {b: v for b, v in tr[m][1].items() if b}
        R.expect(tr[m][0] == n, 'trials-saved', lambda: f'{m}: {tr[m][0]} expected {n}; {what()}')
        R.expect(set(got) == set(t), 'bins-saved', lambda: f'{m}: {list(got)} expected {list(t)}; {what()}')
        for b in t:
            R.expect(len(got[b]) == n and all(abs(x - y) <= 5.1e-7 * abs(y) for x, y in zip(got[b], t[b])), 'values-saved', lambda: f'{m} bin {b}: {got[b]} expected {t[b]}; {what()}')
    B = sorted({b for n, t in model.values() for b in t}, key=float)
    for m, (n, t) in model.items():
        R.expect(list(ns.get(m, {})) == B, 'bins-listed', lambda: f'{m}: {ns} expected bins {B}; {what()}')
        for b in B:
            s = ns[m][b]
            if b not in t: R.expect(s == '-', 'absent-bin', lambda: f'{m} bin {b}: {s}; {what()}'); continue
            sd = float(np.std(t[b]))
            if sd == 0: continue
            w = (actual(src, m, b) - float(np.mean(t[b]))) / sd
            try: g = float(s)
            except ValueError: g = math.nan
            R.expect(abs(g - w) <= 6e-4 * abs(w) + 1e-5 + 2e-6 * (abs(actual(src, m, b)) + max(map(abs, t[b]))) / sd, 'deviation', lambda: f'{m} bin {b}: {s} expected {w}; {what()}')

def step_model(R, model, src, ms, t):
    out = dict(model)
    for m in ms:
        if m not in out or out[m][0] < t: out[m] = (t, fresh(R, src, m, t))
    return out

def run(s, R): globals()[s['kind']](s, R)

def table(s, R):
    wd = cli.fresh_dir('c29')
    write_source(wd, s['src'])
    saved = {s['m']: (s['n'], {b: values(s['m'], b, s['n']) for b in s['bins']})}
    results_file(f'{wd}/s_ra.txt', saved)
    other = 'sdaa' if s['m'] == 'm2cnd' else 'm2cnd'
    text = open(f'{wd}/s_ra.txt').read()
    for ms, t in itertools.product(((s['m'],), (other,), ('m2cnd', 'sdaa')), (2, s['n'], s['n'] + 1)):
        ref.write(f'{wd}/s_ra.txt', text)
        what = lambda: f'-ra -trials {t} -measure {",".join(ms)} with {saved} saved for {SRC[s["src"]]}'
        model = step_model(R, saved, s['src'], ms, t)
        r = go(['-ra', 's.scc', '-trials', str(t), '-measure', ','.join(ms)], wd)
        R.expect(r.ok, 'analysis-fails', lambda: f'{r.why()}; {what()}')
        judge(R, f'{wd}/s_ra.txt', s['src'], model, what)
        R.step(); R.trace(); R.state((s['src'], s['m'], s['n'], tuple(s['bins']), ms, t))
    R.outcome((s['src'], len(s['bins'])))

def history(s, R):
    start = {m: (n, {b: values(m, b, n, 1) for b in bins(s['src'], m)}) for m, n in (s['start'] or {}).items()}
    R.outcome((s['src'], str(s['start'])))
    wd0 = cli.fresh_dir('c29h')
    write_source(wd0, s['src'])
    if start: results_file(f'{wd0}/s_ra.txt', start)
    def explore(model, text, seq):
        for ms, t in (s['cmds'] if seq else [s['first']]):
            wd = cli.fresh_dir('c29')
            shutil.copy(f'{wd0}/s.scc', wd)
            if text is not None: ref.write(f'{wd}/s_ra.txt', text)
            h = seq + [(tuple(ms), t)]
            what = lambda: f'history {h} of {SRC[s["src"]]} from {s["start"]}'
            nxt = step_model(R, model, s['src'], ms, t)
            wd = wd_again(wd, s, text)
            r = go(['-ra', 's.scc', '-trials', str(t), '-measure', ','.join(ms)], wd)
            R.expect(r.ok, 'analysis-fails', lambda: f'{r.why()}; {what()}')
            judge(R, f'{wd}/s_ra.txt', s['src'], nxt, what)
            R.step(); R.state((s['src'], str(s['start']), tuple(h)))
            if len(h) < s['depth']: explore(nxt, open(f'{wd}/s_ra.txt').read(), h)
            else: R.trace()
    explore(start, open(f'{wd0}/s_ra.txt').read() if start else None, [])

def wd_again(wd, s, text):
    """the model may have used the folder"""
    wd = cli.fresh_dir('c29')
    write_source(wd, s['src'])
    if text is not None: ref.write(f'{wd}/s_ra.txt', text)
    return wd

def place(s, R):
    wd = cli.fresh_dir('c29')
    os.makedirs(f'{wd}/data', exist_ok=True)
    d = f'{wd}/data' if s['where'] == 'folder' else wd
    write_source(d, s['src'])
    pre = 'data/' if s['where'] == 'folder' else ''
    arg = pre + 's.scc'
    if s['fmt'] == 'shp':
        r = cli.run(['--convert', 's.scc', 'shp'], d) if False else cli.run(['--convert', 'shp', 's.scc'], d)
        if not os.path.exists(f'{d}/s_CRATER.shp'): r = cli.run(['--convert', 's.scc', 'shp'], d)
        R.expect(os.path.exists(f'{d}/s_CRATER.shp'), 'convert', lambda: f'{r.why()} {os.listdir(d)}')
        os.remove(f'{d}/s.scc')
        arg = pre + 's_CRATER.shp'
    what = lambda: str(s)
    saved = {m: (2, {b: [5., 9.] for b in bins(s['src'], m)}) for m in ('m2cnd', 'sdaa')}
    # reused and shown from where the source is
    results_file(f'{d}/s_ra.txt', saved)
    r = go(['-ra', arg, '-trials', '2'], wd)
    R.expect(r.ok, 'analysis-fails', lambda: f'{r.why()}; {what()}')
    R.expect(r.pools == 0, 'saved-results-not-reused', lambda: f'{r.pools} analyses run again; {what()}')
    judge(R, f'{wd}/s_ra.txt', s['src'], saved, what)
    os.remove(f'{wd}/s_ra.txt') if s['where'] == 'folder' else None
    r = cli.run(['-p', f'source={arg}', '-o', 'plot'], wd)
    R.expect(r.ok, 'plot-fails', lambda: f'{r.why()}; {what()}')
    p = parse(f'{d}/s_ra.txt')[0]
    drawn(R, r, {m: [(b, v) for b, v in p[m].items()] for m in p}, what)
    R.step(3); R.trace(); R.state(str(s)); R.outcome(('place', s['where'], s['fmt']))

def scaled(v): return math.copysign(abs(v) ** .6, v)
def drawn(R, r, table, what, no=False):
    """deviations drawn in the figure"""
    fig = r.saved[-1][1]
    lines = []
    for ax in fig.axes:
        for l in ax.get_lines():
            x, y = np.array(l.get_xdata(), dtype=float).ravel(), np.array(l.get_ydata(), dtype=float).ravel()
            if len(x) == len(y): lines.append([(a, b) for a, b in zip(x, y) if np.isfinite(a) and np.isfinite(b)])
    for m, t in table.items():
        w = [((float(b) + .25) * math.log10(2), scaled(float(v)) * (-1 if m == 'sdaa' else 1)) for b, v in t if v != '-']
        if not w: continue
        hit = any(len(l) == len(w) and all(abs(a - c) < 1e-6 and abs(b - d) < 1e-6 for (a, b), (c, d) in zip(sorted(l), sorted(w))) for l in lines)
        R.expect(hit != no, 'deviations-drawn', lambda: f'{m}: {w} {"drawn" if no else "not drawn"}; {what()}; {[l for l in lines if len(l) == len(w)]}')

def plot(s, R):
    """every presence pattern of two measures over k bins; values rotate over the alphabet"""
    V = ['-4.2', '0.5', '-1', '3.1', '0', '1.234e-05', '12.5']
    B = ['-2.5', '0', '1.5'][:s['k']] if s['k'] < 3 else ['-2.5', '0', '1.5']
    pats = [p for p in itertools.product((0, 1, 2, 3), repeat=s['k']) if all(p)]
    for i, p in enumerate(pats):
        if i % s['parts'] != s['part']: continue
        tab = {m: {b: (V[(i + 2 * j + (m == 'sdaa')) % len(V)] if p[j] & (1 + (m == 'sdaa')) else None) for j, b in enumerate(B)} for m in ('m2cnd', 'sdaa')}
        tab = {m: t for m, t in tab.items() if any(v is not None for v in t.values()) or i % 2}
        wd = cli.fresh_dir('c29')
        write_source(wd, 'mixed')
        results_file(f'{wd}/s_ra.txt', {m: (2, {b: [1., 2.] for b, v in t.items() if v is not None}) for m, t in tab.items()}, tab)
        what = lambda: f'{s["pr"]}: {tab}'
        t = {m: [(b, v or '-') for b, v in x.items()] for m, x in tab.items()}
        r = cli.run(['-pr', s['pr'], '-p', 'source=s.scc', '-o', 'plot'], wd)
        R.expect(r.ok, 'plot-fails', lambda: f'{r.why()}; {what()}')
        drawn(R, r, t, what)
        if i % 4 == s['part'] and s['k'] == 2:
            r = cli.run(['-pr', s['pr'], '-ra_show', '0', '-p', 'source=s.scc', '-o', 'plot'], wd)
            R.expect(r.ok, 'plot-fails', lambda: f'ra_show 0 {r.why()}; {what()}')
            drawn(R, r, t, what, no=True)
        R.step(); R.trace(); R.state((s['pr'], s['k'], p)); R.outcome((s['pr'], s['k']))

def files(s, R):
    wd = cli.fresh_dir('c29')
    write_source(wd, s['src'])
    fmts = [f for f in s['f'] if f != 'csv']
    for name in (None, 'res'):
        for f in os.listdir(wd):
            if f != 's.scc': os.remove(f'{wd}/{f}')
        what = lambda: f'{s} -o {name}'
        ms = s['ms'] or ('m2cnd', 'sdaa')
        r = go(['-ra', 's.scc', '-trials', '2', '-f', *s['f']] + (['-measure', ','.join(s['ms'])] if s['ms'] else []) + (['-o', name] if name else []), wd)
        R.expect(r.ok, 'analysis-fails', lambda: f'{r.why()}; {what()}')
        stem = name or 's'
        res = sorted(f for f in os.listdir(wd) if f.endswith('.txt'))
        R.expect(res == [f'{stem}_ra.txt'], 'results-files', lambda: f'{res}; {what()}')
        want = sum(len(bins(s['src'], m)) for m in ms)
        R.expect(r.pools == want, 'analyses-run', lambda: f'{r.pools} expected {want}; {what()}')
        judge(R, f'{wd}/{stem}_ra.txt', s['src'], {m: (2, fresh_copy(R, s['src'], m)) for m in ms}, what)
        pics = sorted(f'{stem}_ra-{m}.{f}' for m in ms for f in fmts if bins(s['src'], m))
        R.expect(sorted(r.made) == pics, 'figures', lambda: f'{sorted(r.made)} expected {pics}; {what()}')
        R.step(); R.trace(); R.state((str(s), name))
    R.outcome((tuple(s['f']), s['ms']))

def fresh_copy(R, src, m): return fresh(R, src, m, 2)

def figure(s, R):
    """the real figures: selected bins, their counts, measured values and percentiles, the deviations"""
    import matplotlib.text
    wd = cli.fresh_dir('c29')
    write_source(wd, s['src'])
    saved = {m: (7, {b: [actual(s['src'], m, b) * f for f in (.5, .7, .9, 1.1, 1.2, 1.3, .95)][:7] for b in bins(s['src'], m)}) for m in ('m2cnd', 'sdaa')}
    for k, (m, (n, t)) in enumerate(saved.items()):                    # different position of the actual value in each bin
        for j, b in enumerate(t): t[b] = [float(f'{actual(s["src"], m, b) * f:.7g}') for f in np.linspace(.93 - .1 * j, 1.63 - .13 * j - .05 * k, 7)]
    results_file(f'{wd}/s_ra.txt', saved)
    r = go(['-ra', 's.scc', '-trials', '5'] + (['-select', s['sel']] if s['sel'] else []), wd, figures=True)
    what = lambda: f'-select {s["sel"]} of {SRC[s["src"]]}'
    sel = None if s['sel'] is None else sorted(int(x) for x in s['sel'].split(','))
    empty = sel is not None and sel != [0] and not any(1 <= i <= len(bins(s['src'], 'm2cnd')) for i in sel)
    if empty: return                                                    # nothing selected: not specified
    R.expect(r.ok, 'analysis-fails', lambda: f'{r.why()}; {what()}')
    judge(R, f'{wd}/s_ra.txt', s['src'], saved, what)
    for m in ('m2cnd', 'sdaa'):
        B = bins(s['src'], m)
        if not B: continue
        only = sel == [0]
        pick = [] if only else B if sel is None else [B[i - 1] for i in sel if 1 <= i <= len(B)]
        if not pick and not only: continue
        name = f's_ra-{m}' + ('-n_sigma' if only else '') + '.png'
        figs = [f for p, f in r.saved if os.path.basename(p) == name]
        R.expect(len(figs) == 1, 'figures', lambda: f'{[p for p, f in r.saved]} expected {name}; {what()}')
        fig = figs[0]
        texts = [t.get_text() for t in fig.findobj(matplotlib.text.Text)]
        count = dict((bkey(b), n) for b, n in SRC[s['src']])
        got = sorted(int(x) for t in texts for x in re.findall(r'\bn = (\d+)', t))
        R.expect(got == sorted(count[b] for b in pick), 'bins-shown', lambda: f'{m}: n = {got} expected {[count[b] for b in pick]}; {what()}')
        for b in pick:
            v = saved[m][1][b]
            a = actual(s['src'], m, b)
            pc = 100 * sum(x < a for x in v) / len(v)
            hit = [t for t in texts if t.endswith('%') and '\n' in t and abs(float(t.split('\n')[0]) / a - 1) < 6e-3]
            R.expect(len(hit) >= 1 and any(abs(float(t.split('\n')[1].rstrip('%')) - pc) < 1 for t in hit), 'percentile-shown', lambda: f'{m} bin {b}: {hit} expected {a:.3g} and {pc:.3g}%; {[t for t in texts if t.endswith("%")]}; {what()}')
        if sel is None or 0 in sel:
            class F: saved = [(name, fig)]
            ns = {b: (actual(s['src'], m, b) - np.mean(v)) / np.std(v) for b, v in saved[m][1].items()}
            shown(R, fig, m, ns, what)
            R.expect(any(t.replace('\n', ' ') == f'{m} 7 trials' for t in texts), 'trials-shown', lambda: f'{m}: {[t for t in texts if "trials" in t]}; {what()}')
    R.step(); R.trace(); R.state(str(s)); R.outcome((s['src'], s['sel']))

def shown(R, fig, m, ns, what):
    w = sorted(((float(b) + .25) * math.log10(2), scaled(v) * (-1 if m == 'sdaa' else 1)) for b, v in ns.items())
    best = []
    for ax in fig.axes:
        for l in ax.get_lines():
            x, y = np.array(l.get_xdata(), dtype=float).ravel(), np.array(l.get_ydata(), dtype=float).ravel()
            g = sorted(zip(x, y))
            if len(g) == len(w):
                best.append(g)
                if all(abs(a - c) < 1e-3 and abs(b - d) < 1e-3 for (a, b), (c, d) in zip(g, w)): return
    R.expect(False, 'deviations-drawn', lambda: f'{m}: {w} not drawn; lines {best}; {what()}')
