"""Automatic axes over all short overplot lists; tick generators over range grids."""
import itertools, math, os
import numpy as np
from .. import cli, core
TECHNIQUE = 'model checking: exhaustive enumeration of overplot lists (all lists and orders up to a depth) through the real command line, axis ranges compared with the points drawn; exhaustive tick-range grids'
RULE = ('overplot alphabet of 15 (synthetic counts of 11 m to 2000 km, areas 1e-9 to 1e9 km2, single craters on decade boundaries, empty ranges, fits, binnings, hidden); all ordered lists of length <= 2 (thorough 3) '
        'in cumulative, differential, R-plot, with and without explicit -xrange/-yrange; time axes over -xrange x -d_min x presentation; gm.ticks over a mantissa x exponent grid of limits x 2..20 ticks; state = (presentation, list)')
LIMIT = 300

FILES = {'tiny': (1e-9, [.011, .012, .02, .04]), 'huge': (1e9, [700, 900, 1500, 2000]), 'one': (1., [1.]), 'ten': (1., [10.] * 10), 'wide': (1e4, [10 ** (x / 2) for x in range(-6, 6)]),
         'dense': (1e-3, [.02 + .002 * i for i in range(60)]), 'edge': (100., [.1, 1., 10., .1, .1, 1.]), 'many': (1e7, [1. + .01 * i for i in range(1500)])}
OPS = ['source=tiny.diam,type=data', 'source=huge.diam,type=data', 'source=one.diam,type=data', 'source=ten.diam,type=data,binning=x2', 'source=wide.diam,type=data,binning=root-2', 'source=dense.diam,type=data',
       'source=edge.diam,type=data,binning=10/decade', 'source=many.diam,type=data,binning=20/decade', 'source=wide.diam,type=data,binning=none', 'source=wide.diam,type=data,range=[50,60]',
       'source=wide.diam,type=data,hide=1', '%sample%/Pickering.scc|type=c-fit,range=[.2,.7],resurf=1', '%sample%/Pickering.scc|type=poisson,range=[.2,.7]', '%sample%/Pickering.scc|type=data,range=[.1,3]',
       'source=many.diam,type=d-fit,range=[2,8]']
OPS = [o if '|' not in o else 'source=' + o.replace('|', ',') for o in OPS]
OPS = [','.join([o] + [f'{k}={v}' for k, v in (('binning', 'pseudo-log'), ('range', '[0,inf]'), ('hide', '0'), ('resurf', '0')) if k + '=' not in o and not (k == 'range')]) for o in OPS]
PR = ['cum', 'diff', 'rpl']
XR = [(-2., 1.), (.5, 1.75), (-4.25, 4)]

def scenarios(tier):
    n = len(OPS)
    out = [dict(k='axes', pr=p, l=[i]) for p in PR for i in range(n)]
    out += [dict(k='axes', pr=p, l=[i, j]) for p in PR for i in range(n) for j in range(n)]
    # all orders of each triple, quick: a covering subset of the triples
    tri = [t for t in itertools.combinations(range(n), 3)]
    out += [dict(k='perm', pr=p, l=list(t)) for p in PR for q, t in enumerate(tri) if tier == 'thorough' or (q + PR.index(p)) % 5 == 0]
    out += [dict(k='fixed', pr=p, l=[i], x=x, y=y) for p in PR + ['hart'] for i in (0, 1, 4, 9, 12) for x in [None] + list(range(3)) for y in (None, [-3., 2.], [-7.5, 1.25])]
    out += [dict(k='time', pr=pr, x=[a, b]) for pr in ('seq', 'uncer') for a in (4.5, 4.2, 4., 3.9, 3.6, 3.4, 3., 2.) for b in (0., 1e-4, .003, .01, .5, .9, 1., 1.5, 2., 2.5, 2.9, 3.05, 3.3, 3.4, 3.75) if b < a]
    mant = (1., 1.05, 1.2, 2., 2.5, 3.3, 4.5, 5., 7.7, 9.99)
    step = 1 if tier == 'thorough' else 2
    out += [dict(k='ticks', e=e, nt=nt) for e in range(-8, 7, step) for nt in (None, 0, 1, 2, 3, 4, 5, 6, 8, 10, 20)]
    return out

def write_files(d):
    for k, (a, ds) in FILES.items():
        with open(os.path.join(d, k + '.diam'), 'w') as f: f.write(f'area = {a!r}\ncrater = {{diameter\n' + '\n'.join(f'{x!r}' for x in ds) + '\n}\n')

PTS = {}
def points(pr, i):
    """the points really drawn for overplot i alone"""
    if (pr, i) not in PTS:
        r = cli.run(['-pr', pr, '-o', 'x', '-p', OPS[i]], wd())
        if not r.ok: raise core.Violation('run-failed', f'{pr} {OPS[i]}: {r.why()}')
        P = []
        if r.cps.fig is not None:
            for ln in r.cps.ax.lines:
                if ln.get_marker() in (None, '', 'None'): continue
                P += [(x, math.log10(y)) for x, y in zip(np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)) if math.isfinite(x) and y > 0]
        PTS[pr, i] = P
    return PTS[pr, i]

WD = None
def wd():
    global WD
    if WD is None or not os.path.isdir(WD):
        WD = cli.fresh_dir('c24')
        write_files(WD)
    return WD

def ranges(pr, l, extra=()):
    r = cli.run(['-pr', pr, '-o', 'x', *extra] + [x for i in l for x in ('-p', OPS[i])], wd(), noout=True)
    if not r.ok: raise core.Violation('run-failed', f'{pr} {[OPS[i] for i in l]}: {r.why()}')
    return [float(x) for x in r.cps.xrange], [float(x) for x in r.cps.yrange], r

def run(s, R): globals()['do_' + s['k']](s, R)

def judge(R, pr, l, x, y, what):
    P = [p for i in l for p in points(pr, i)]
    for v in x + y: R.expect(math.isfinite(v) and v == round(v), 'whole-decades', lambda: f'{what}: {x} {y}')
    R.expect(x[1] > x[0] and y[1] > y[0], 'order', lambda: f'{what}: {x} {y}')
    R.expect(abs((y[1] - y[0]) - (2 if pr == 'diff' else 1) * (x[1] - x[0])) < 1e-9, 'aspect', lambda: f'{what}: {x} {y}')
    if P:
        xs, ys = [p[0] for p in P], [p[1] for p in P]
        my = .6 if pr == 'diff' else .3
        t = 1e-6
        R.expect(x[0] + .3 <= min(xs) + t and max(xs) <= x[1] - .8 + t, 'margin-x', lambda: f'{what}: {x} for points {min(xs)}..{max(xs)}')
        R.expect(y[0] + my <= min(ys) + t and max(ys) <= y[1] - my + t, 'margin-y', lambda: f'{what}: {y} for points {min(ys)}..{max(ys)}')

def do_axes(s, R):
    x, y, r = ranges(s['pr'], s['l'])
    R.step(); R.trace(); R.state((s['pr'], tuple(s['l']))); R.outcome((x, y))
    judge(R, s['pr'], s['l'], x, y, f'{s["pr"]} {[OPS[i] for i in s["l"]]}')

def do_perm(s, R):
    first = None
    for l in itertools.permutations(s['l']):
        x, y, r = ranges(s['pr'], l)
        R.step(); R.trace(); R.state((s['pr'], l))
        judge(R, s['pr'], l, x, y, f'{s["pr"]} {[OPS[i] for i in l]}')
        if first is None: first = x, y
        R.expect((x, y) == first, 'order-dependent', lambda: f'{s["pr"]} {[OPS[i] for i in l]}: {x} {y} <> {first}')
    R.outcome(first)

def do_fixed(s, R):
    ex = (['-xrange', *map(str, XR[s['x']])] if s['x'] is not None else []) + (['-yrange', *map(str, s['y'])] if s['y'] else [])
    x, y, r = ranges(s['pr'], s['l'], ex)
    R.step(); R.trace(); R.state(repr(s)); R.outcome((x, y))
    what = f'{s["pr"]} {ex} {[OPS[i] for i in s["l"]]}'
    if s['pr'] == 'hart':      # the documented template axes
        x0, y0, _ = ranges('hart', [2])
        R.expect((x, y) == (x0, y0), 'template', lambda: f'{what}: {x} {y} <> {x0} {y0}')
        return
    ax, ay, _ = ranges(s['pr'], s['l'])
    R.expect(x == (list(XR[s['x']]) if s['x'] is not None else ax), 'explicit-x', lambda: f'{what}: {x}')
    R.expect(y == (list(s['y']) if s['y'] else ay), 'explicit-y', lambda: f'{what}: {y}')
    if s['l'] == [4]:          # the drawn axes are those
        r = cli.run(['-pr', s['pr'], '-o', 'x', *ex, '-p', OPS[4]], wd())
        lim = list(r.cps.ax.get_xlim()), [math.log10(v) for v in r.cps.ax.get_ylim()]
        R.expect(core.close(lim[0], x) and core.close(lim[1], y), 'drawn-axes', lambda: f'{what}: {lim} <> {x} {y}')

def do_time(s, R):
    a, b = s['x']
    args = ['-pr', s['pr'], '-xrange', str(a), str(b), '-o', 'x'] + (['-ns', '2', '-d_min', '.5'] if s['pr'] == 'uncer' else ['-p', 'source=%sample%/Pickering.scc,type=poisson,range=[.2,.7]'])
    r = cli.run(args, wd(), noout=True)
    R.step(); R.trace(); R.state(repr(s))
    R.expect(r.ok, 'run-failed', lambda: f'{args}: {r.why()}')
    cps = r.cps
    cps.create_time_axis_plotspace()
    for ax in cps.ax2:
        if not ax.axison: continue
        lo, hi = sorted(ax.get_xlim())
        tv, lb = list(ax.get_xticks()), [t.get_text() for t in ax.get_xticklabels()]
        seen = [(t, x) for t, x in zip(tv, lb) if lo - 1e-12 <= t <= hi + 1e-12 and x]
        if ax is cps.ax2[0] and a >= 3.5: R.expect(len(seen) >= 1, 'no-tick', lambda: f'{args}: {tv} {lb}')
        for t, x in seen:
            p = x.split()
            v = float(p[0]) * {'Ga': 1, 'Ma': 1e-3, 'ka': 1e-6, 'a': 1e-9}[p[1] if len(p) > 1 else 'Ga']
            R.expect(abs(v - t) <= 1e-6 * max(abs(t), 1e-9), 'tick-label', lambda: f'{args}: tick at {t} labelled {x!r}')
        if a >= 3: R.expect(len({x.split()[0] for _, x in seen}) == len(seen) or ax is cps.ax2[1], 'tick-label', lambda: f'{args}: {seen}')

def do_ticks(s, R):
    import craterstats.gm as gm
    mant = (0., 1., 1.05, 1.2, 2., 2.5, 3.3, 4.5, 5., 7.7, 9.99)
    k = 10. ** s['e']
    lims = [(a * k, b * k) for a in mant for b in mant if b > a] + [(-a * k, b * k) for a in mant for b in mant if a + b > 0]
    lims += [(a * k, a * k * (1 + w)) for a in mant[1:] for w in (.001, .01, .1)]
    nt = s['nt']
    for a, b in lims:
        if a < 0 < b and nt in (1, 2): continue      # two multiples cannot straddle zero
        for mk, mm in ((list, None), (np.array, None), (lambda q: [q[1], (q[0] + q[1]) / 2, q[0]], None), (list, 12)):
            if mm and nt != 6: continue      # the only use of it
            t = gm.ticks(mk([a, b]), nt, mm) if mm else gm.ticks(mk([a, b]), nt)
            if mm: t, minor = t
            R.step(); R.trace()
            what = lambda: f'ticks([{a!r},{b!r}],{nt},{mm}) = {list(t)}'
            n = len(t)
            R.expect(2 <= n <= max(nt or 5, 2), 'number', what)
            st = (t[-1] - t[0]) / (n - 1)
            R.expect(st > 0 and np.allclose(np.diff(t), st, rtol=1e-6, atol=1e-9 * abs(t[-1])), 'spacing', what)
            m = st / 10. ** math.floor(math.log10(st) + 1e-9)
            R.expect(min(abs(m - q) for q in (1, 2, 5)) < 1e-6, 'nice', lambda: what() + f' step {st}')
            R.expect(all(abs(x / st - round(x / st)) < 1e-6 for x in t), 'multiples', what)
            R.expect(t[0] <= a + 1e-9 * st and t[-1] >= b - 1e-9 * st, 'covers', what)
            if mm: R.expect(minor in ((1, 2, 4, 10) if round(m) == 2 else (1, 2, 5, 10)), 'minor', lambda: what() + f' minor {minor}')
            R.state((a, b, nt, mm)); R.outcome((n, round(m)))
