"""Isochrons, equilibrium truncation and epochs: every chronology system x equilibrium function x presentation, as really drawn."""
import itertools, math, os
import numpy as np
from .. import cli, core, ref
TECHNIQUE = 'model checking: exhaustive product of systems x equilibrium functions x epoch systems x presentations x ages through the real command line, every drawn line and region compared with reference functions'
RULE = ('20 chronology systems x {no, two built-in} equilibrium functions x 4 count presentations x 9 ages (isochrons listed, and fitted ones); user-defined production functions (polynomial with and without range, tabular) x equilibrium '
        'functions (default range, tabular) x ages; epoch systems (3 built-in, user-defined by time and by density) x systems x count, chronology, rate and sequence presentations; '
        'all strings of isochron suffixes up to length 3; state = (system, equilibrium, presentation, epochs/ages)')
LIMIT = 300
PR = {'cum': 'C', 'diff': 'F', 'rpl': 'R', 'hart': 'H'}
LONG = {'cum': 'cumulative', 'diff': 'differential', 'rpl': 'R-plot', 'hart': 'Hartmann'}
AGES = ['.001', '.01', '.1', '1', '3', '3.7', '4', '4.5', '1e-6']
FULL = ['.0001', '.0123', '.05', '.3', '.65', '2', '2.5', '3.3', '3.55', '3.85', '3.9', '4.1', '4.2', '4.35', '1e-5', '5']
USER = '''production={
 name="u wide"
 coefficients=[-2.5,-3.1,0.2]
}
production={
 name="u steep"
 coefficients=[-2.5,-3.6]
 range=[.0002,.5]
}
production={
 name="u tab"
 type="tabular incremental root-2"
 index_1km=6
 H=[40,18,10,6,3.5,1.9,1,.45,.2,.06,.02]
}
equilibrium={
 name="e default"
 coefficients=[-1.1,-1.83]
}
equilibrium={
 name="e narrow"
 coefficients=[-1.4,-1.7]
 range=[.1,10]
}
equilibrium={
 name="e tab"
 type="tabular incremental root-2"
 index_1km=6
 H=[20,10,6,3.2,1.7,1,.5,.26,.13,.06,.03]
}
equilibrium={
 name="null"
 coefficients=[0]
}
'''
UDEF = {'u wide': dict(coefficients=[-2.5, -3.1, .2]), 'u steep': dict(coefficients=[-2.5, -3.6], range=[.0002, .5]), 'u tab': dict(H=[40, 18, 10, 6, 3.5, 1.9, 1, .45, .2, .06, .02], index_1km=6)}
EDEF = {'e default': dict(coefficients=[-1.1, -1.83]), 'e narrow': dict(coefficients=[-1.4, -1.7], range=[.1, 10]), 'e tab': dict(H=[20, 10, 6, 3.2, 1.7, 1, .5, .26, .13, .06, .03], index_1km=6)}
EPOCHS = '''epochs={
 name="u density"
 epoch=["Young","Middle one","Old-ish","Oldest"]
 formatting=[60,0b,1b,2,0]
 ref_diameter=[1,.5,16]
 density=[300,20000,250]
 reference="x"
}
epochs={
 name="u time"
 epoch=["Young","Middle one","Old"]
 formatting=[45,2,0b,1]
 time=[0.,.25,3.5]
 reference="x"
}
epochs={
 name="null"
}
'''

def scenarios(tier):
    S = [s['name'] for s in ref.systems()]
    E = [None] + [e['name'] for e in ref.ef_defs()]
    ages = [AGES] if tier == 'quick' else [AGES, FULL]
    out = [dict(k='iso', cs=s, ef=e, pr=p, ages=a) for a in ages for e in E for p in PR for s in S]
    out += [dict(k='user', pf=u, ef=e, pr=p) for u in UDEF for e in [None, *EDEF, *E[1:]] for p in PR]
    out += [dict(k='fit', cs=s, ef=e, pr=p, type=t) for s in S for e in (E if tier == 'thorough' else E[:2]) for p in PR for t in (('c-fit', 'd-fit', 'poisson') if tier == 'thorough' else ('c-fit', 'poisson'))]
    ep = [e['name'] for e in ref.functions()['epochs']]
    out += [dict(k='epoch', cs=s, ep=e, pr=p, ef=f) for s in S for e in ep for p in [*PR, 'chron', 'rate', 'seq'] for f in (E[:2] if p in PR else E[:1]) if tier == 'thorough' or f is None or p in ('cum', 'hart')]
    out += [dict(k='uepoch', cs=s, ep=e) for s in S for e in ('u density', 'u time')]
    out += [dict(k='suffix', t=t) for t in ('1', '3.7', '.05', '1e-3', '4', '0.012345', '3.456789')]
    return out

_sys = None
def system(n):
    s = next(e for e in ref.systems() if e['name'] == n)
    return ref.rpf(s['pf']), ref.rcf(s['cf'])

WD = None
def wd():
    global WD
    if WD is None or not os.path.isdir(WD):
        WD = cli.fresh_dir('c31')
        ref.write(os.path.join(WD, 'a.diam'), ref.diam_text(1e4, [dict(diameter=d) for d in (.3, .31, .5, .52, .55, .8, 1., 1.4, 2.5, 3., 9.)], ('diameter',)))
    return WD

def command(s, *extra):
    return ['-cs', s['cs'], *(['-ef', s['ef']] if s.get('ef') else []), '-pr', s['pr'], *extra, '-o', 'x']

def lines(ax):
    out = []
    for l in ax.lines:
        if l.get_marker() not in (None, '', 'None'): continue
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        out.append((l, x, y))
    return out

def inside(q, x): return x.min() > math.log10(q.range[0]) - .1 and x.max() < math.log10(q.range[1]) + .1

def on(q, P, a0, x, y):
    """all finite points of a line lie on the isochron"""
    f = getattr(q, P)
    ok = np.isfinite(x) & np.isfinite(y)
    return ok.sum() > 0 and inside(q, x[ok]) and all(core.close(b, f(10 ** a, a0), 1e-4) for a, b in zip(x[ok], y[ok]))

def judge(R, q, ef, P, a0, x, y, what):
    """one isochron as drawn: on the function, over its whole range or exactly where it is below the limit"""
    lo, hi = (math.log10(v) for v in q.range)
    f = getattr(q, P)
    R.expect(len(x) == len(y), 'shape', what)
    ok = np.isfinite(x) & np.isfinite(y)
    for a, b in zip(x[ok], y[ok]):
        R.expect(lo - 1e-4 <= a <= hi + 1e-4, 'outside-range', lambda: f'{what()}: point at {10 ** a} km, range {q.range}')
        R.expect(core.close(b, f(10 ** a, a0), 1e-4), 'off-function', lambda: f'{what()}: {b} at {10 ** a} km, expected {f(10 ** a, a0)}')
    limit = (lambda d: math.inf) if ef is None else (lambda d: .8 * min(getattr(ef, P)(d), getattr(ef, P)(max(d, ef.range[0]))) if d <= ef.range[1] else -math.inf)
    limit2 = limit if ef is None else (lambda d: .8 * getattr(ef, P)(d) if ef.range[0] <= d <= ef.range[1] else math.inf)     # beyond the range of the equilibrium function: not judged
    G = np.linspace(lo, hi, 600)
    Y = [f(10 ** g, a0) for g in G]
    L, L2 = [limit(10 ** g) for g in G], [limit2(10 ** g) for g in G]
    xs = np.sort(x[ok])
    for g, yy, l in zip(G, Y, L):
        if yy < l * (1 - 1e-3):
            j = np.searchsorted(xs, g)
            near = min([abs(xs[i] - g) for i in (j - 1, j) if 0 <= i < len(xs)], default=math.inf)
            R.expect(near < .03, 'missing', lambda: f'{what()}: nothing drawn near {10 ** g} km where the isochron is {yy}, limit {l}')
    for a, b in zip(x[ok], y[ok]):
        R.expect(b < limit2(10 ** a) * (1 + 1e-3), 'above-equilibrium', lambda: f'{what()}: {b} at {10 ** a} km, limit {limit2(10 ** a)}')
    # no stroke across a section above equilibrium
    for a, b in zip(x, x[1:]):
        if not (math.isfinite(a) and math.isfinite(b)): continue
        i, j = np.searchsorted(G, [min(a, b), max(a, b)])
        R.expect(not any(Y[n] > L2[n] * 1.001 for n in range(i + 1, j - 1)), 'across-equilibrium', lambda: f'{what()}: drawn from {10 ** a} to {10 ** b} km')
    return int(ok.sum())

def anything(q, ef, P, a0):
    """is any of the isochron below the limit (clearly)? None: too close to say"""
    if ef is None: return True
    lo, hi = max(q.range[0], ef.range[0]), min(q.range[1], ef.range[1])
    D = np.logspace(math.log10(lo), math.log10(hi), 200)
    n, m = (sum(getattr(q, P)(d, a0) < k * getattr(ef, P)(d) for d in D) for k in (.79, .81))
    if n > 3: return True
    return None if m or (lo, hi) != tuple(q.range) else False

def run(s, R): globals()['do_' + s['k']](s, R)

def rounded(v, n=4): return float(f'{v:.{n}g}')

def do_iso(s, R):
    q, c = system(s['cs'])
    P = PR[s['pr']]
    ef = ref.RefPF(next(e for e in ref.ef_defs() if e['name'] == s['ef'])) if s['ef'] else None
    args = command(s, '-isochrons', ','.join(s['ages']), '-p', 'source=a.diam,type=data')
    r = cli.run(args, wd())
    R.step(len(s['ages'])); R.trace(); R.state(repr(s))
    R.expect(r.ok and r.saved, 'run-failed', lambda: f'{args}: {r.why()}')
    L = lines(r.cps.ax)
    texts = {t.get_text(): t for t in r.cps.ax.texts}
    n = 0
    for t in s['ages']:
        a0 = math.log10(c.N(float(t)))
        what = lambda: f'{s["cs"]}, {s["ef"]}, {s["pr"]}, {t} Ga'
        mine = [(x, y) for l, x, y in L if len(x) and on(q, P, a0, x, y)]
        want = anything(q, ef, P, a0)
        R.expect(len(mine) <= 1 and (want is None or len(mine) == want), 'not-drawn' if want else 'drawn', lambda: f'{what()}: {len(mine)} lines')
        if mine:
            n += 1
            R.outcome((t, judge(R, q, ef, P, a0, *mine[0], what)))
        name = age_text(float(t))
        if name in texts:
            x, y = texts[name].get_position()
            R.expect(bool(mine), 'label-without-isochron', what)
            e = getattr(q, P)(10 ** x, a0)
            R.expect(e <= 0 or abs(math.log10(y / e)) < .2 and math.log10(q.range[0]) - .2 <= x <= math.log10(q.range[1]) + .2, 'label-elsewhere', lambda: f'{what()}: label at {10 ** x} km, {y}; isochron {e} there')
        elif mine and not s['ef']:
            raise core.Violation('label-missing', f'{what()}: {list(texts)}')
    other = [l for l, x, y in L if len(x)]
    R.expect(len(other) == n + bool(s['ef']), 'lines', lambda: f'{s}: {len(other)} lines for {n} isochrons')
    if s['ef']:
        e = [(x, y) for l, x, y in L if len(x) and on(ef, P, ef.a0, x, y)]
        R.expect(len(e) == 1, 'equilibrium-not-drawn', repr(s))
        judge(R, ef, None, P, ef.a0, *e[0], lambda: f'{s["ef"]}, {s["pr"]}')

def age_text(t):
    for f, u in ((1, 'Ga'), (1e-3, 'Ma'), (1e-6, 'ka'), (1e-9, 'a')):
        if t >= f or u == 'a': return f'{t / f:g} {u}'

def do_user(s, R):
    import craterstats as cst
    q = ref.RefPF(dict(name=s['pf'], **UDEF[s['pf']]))
    f = cst.Productionfn(USER, s['pf'])
    P = PR[s['pr']]
    ef = e = None
    if s['ef'] in EDEF: ef, e = cst.Productionfn(USER, s['ef'], equilibrium=True), ref.RefPF(dict(name=s['ef'], **EDEF[s['ef']]))
    elif s['ef']: ef, e = cst.Productionfn(ref.functions(), s['ef'], equilibrium=True), ref.RefPF(next(d for d in ref.ef_defs() if d['name'] == s['ef']))
    for g, h in ((f, q), (ef, e)):        # the curve of the function itself
        if g is None: continue
        i = g.getplotdata(LONG[s['pr']])
        judge(R, h, None, P, h.a0, np.log10(np.asarray(i['d'], float)), np.asarray(i['y'], float), lambda: f'curve of {g}, {s["pr"]}')
    for a0 in (-6., -4., -3., -2.5, -2., -1.2, 0.):
        i = f.getisochron(LONG[s['pr']], a0, ef)
        R.step(); R.state((repr(s), a0))
        x, y = np.log10(np.asarray(i['d'], float)), np.asarray(i['y'], float)
        what = lambda: f'{s["pf"]}, {s["ef"]}, {s["pr"]}, a0={a0}'
        want = anything(q, e, P, a0)
        R.expect(want is None or bool(len(x)) == want, 'empty', what)
        R.outcome((a0, judge(R, q, e, P, a0, x, y, what)))
    R.trace()

def do_fit(s, R):
    q, c = system(s['cs'])
    P = PR[s['pr']]
    ef = ref.RefPF(next(e for e in ref.ef_defs() if e['name'] == s['ef'])) if s['ef'] else None
    args = command(s, '-p', f'source=a.diam,type={s["type"]},range=[.4,4],isochron=1')
    r = cli.run(args, wd())
    R.step(); R.trace(); R.state(repr(s))
    R.expect(r.ok and r.saved, 'run-failed', lambda: f'{args}: {r.why()}')
    if s['pr'] != 'cum' and r.cps.craterplot[0].binning == 'none': return
    a0 = float(r.cps.craterplot[0].a0[0])
    what = lambda: f'{s["cs"]}, {s["ef"]}, {s["pr"]}, {s["type"]} isochron'
    mine = [(x, y) for l, x, y in lines(r.cps.ax) if len(x) and on(q, P, a0, x, y)]
    # the fit over its range and the isochron over the whole range
    part = [m for m in mine if m[0].min() > math.log10(.3) and m[0].max() < math.log10(5)]
    whole = [m for m in mine if not (m[0].min() > math.log10(.3) and m[0].max() < math.log10(5))]
    R.expect(len(part) >= 1, 'fit-not-drawn', what)
    want = anything(q, ef, P, a0)
    if want is not None and not (ef and not whole and len(part) == 2): R.expect(len(whole) == want, 'not-drawn', lambda: f'{what()}: {len(whole)}')
    if whole: R.outcome(judge(R, q, ef, P, a0, *whole[0], what))

def expected_times(d, q, c):
    if 'time' in d: return [float(t) for t in d['time']]
    out = [0.]
    for x, n in zip(d['ref_diameter'], d['density']):
        a0 = math.log10(float(n) / 1e6) - math.log10(q.C(float(x), 0.))
        out.append(c.t(10 ** a0))
    return out

def check_times(R, d, q, c, times, what):
    w = expected_times(d, q, c)
    times = [float(t) for t in times]
    R.expect(len(times) == len(w), 'epoch-count', lambda: f'{what()}: {times} expected {w}')
    R.expect(all(core.close(a, b, 1e-3) or abs(a - b) < 1e-9 for a, b in zip(times, w)), 'epoch-time', lambda: f'{what()}: {times} expected {w}')
    R.expect(all(a < b for a, b in zip(times, times[1:])), 'epoch-order', lambda: f'{what()}: {times}')
    return w

def grey_of(cps, i): return [float(v) for v in __import__('matplotlib.colors', fromlist=['x']).to_rgb(cps.grey[3 - i])]

def formatting(d):
    f = [str(e) for e in d['formatting'][1:]]
    return [int(e[0]) for e in f], ['b' in e for e in f]

def epoch_def(n): return next(e for e in ref.functions()['epochs'] if e['name'] == n)

def do_epoch(s, R):
    q, c = system(s['cs'])
    d = epoch_def(s['ep'])
    plot = [] if s['pr'] in ('chron', 'rate') else ['-p', 'source=a.diam,type=poisson,range=[.4,4]']
    args = command(s, '-ep', s['ep'], *plot)
    r = cli.run(args, wd())
    R.step(); R.trace(); R.state(repr(s))
    R.expect(r.ok and r.saved, 'run-failed', lambda: f'{args}: {r.why()}')
    judge_epoch(R, s, d, q, c, r.cps, lambda: f'{s["cs"]}, {s["ep"]}, {s["ef"]}, {s["pr"]}')

def judge_epoch(R, s, d, q, c, cps, what):
    T = check_times(R, d, q, c, cps.ep.time, what)
    colour, bound = formatting(d)
    rgb = lambda p: [float(v) for v in p.get_facecolor()[:3]] if not hasattr(p, 'get_paths') else [float(v) for v in p.get_facecolor()[0][:3]]
    if s['pr'] in PR:
        P = PR[s['pr']]
        ef = ref.RefPF(next(e for e in ref.ef_defs() if e['name'] == s['ef'])) if s.get('ef') else None
        a0 = [math.log10(c.N(t)) for t in T[1:]]
        patches = [p for p in cps.ax.patches if type(p).__name__ == 'Polygon']
        if ef is None: R.expect(len(patches) == len(T) - 2, 'epoch-regions', lambda: f'{what()}: {len(patches)}')
        if len(patches) == len(T) - 2:
            for i, p in enumerate(patches):
                v = np.asarray(p.get_xy(), float)
                v = v[np.isfinite(v).all(axis=1)]
                lo, hi = a0[i], a0[i + 1]
                f = getattr(q, P)
                a = [core.close(y, f(10 ** x, lo), 2e-3) for x, y in v]
                b = [core.close(y, f(10 ** x, hi), 2e-3) for x, y in v]
                R.expect(all(m or n for m, n in zip(a, b)), 'epoch-region', lambda: f'{what()}: region between {T[i + 1]} and {T[i + 2]} Ga has vertices off both isochrons')
                if ef is None:
                    for k, m in (('younger', a), ('older', b)):
                        xs = [x for (x, _), o in zip(v, m) if o]
                        R.expect(xs and core.close(10 ** min(xs), q.range[0], 1e-3) and core.close(10 ** max(xs), q.range[1], 1e-3) and max(np.diff(sorted(xs))) < .06, 'epoch-region', lambda: f'{what()}: {k} side of the region from {T[i + 1]} Ga')
                R.expect(core.close(rgb(p), grey_of(cps, colour[i + 1]), 1e-6) if len(v) else True, 'epoch-shade', lambda: f'{what()}: region {i}: {rgb(p)} expected {grey_of(cps, colour[i + 1])}')
        L = lines(cps.ax)
        for i, (t, a) in enumerate(zip(T[1:-1], a0)):
            n = sum(1 for l, x, y in L if len(x) and on2(q, P, a, x, y))
            want = anything(q, ef, P, a)
            if want is None: continue
            R.expect((n >= 1) == (bound[i] and want), 'epoch-boundary', lambda: f'{what()}: {n} lines for boundary at {t} Ga, formatted {d["formatting"]}')
    elif s['pr'] in ('chron', 'rate'):
        f = c.phi if s['pr'] == 'rate' else c.N
        vert = [(x[0], max(y)) for l, x, y in lines(cps.ax) if len(x) == 2 and x[0] == x[1]]
        R.expect(len(vert) == len(T) - 1, 'epoch-boundary', lambda: f'{what()}: {vert}')
        for (x, y), t in zip(sorted(vert), T[1:]):
            R.expect(abs(x - t) < 2e-3 * max(t, 1e-3), 'epoch-boundary', lambda: f'{what()}: line at {x}, expected {t}')
            if t > .02: R.expect(abs(math.log10(y / f(t))) < .05, 'epoch-boundary-height', lambda: f'{what()}: at {t}: {y}, curve {f(t)}')
        curve = max((l for l in lines(cps.ax)), key=lambda l: len(l[1]))
        for x, y in zip(curve[1][1:], curve[2][1:]): R.expect(core.close(y, f(x), 1e-6), 'curve', lambda: f'{what()}: {y} at {x} Ga, expected {f(x)}')
        R.expect(curve[1][0] <= 1e-6 and abs(curve[1][-1] - 5) < 1e-6, 'curve-extent', what)
        names = [t.get_text().strip() for t in cps.ax.texts]
        for e in d['epoch']: R.expect(e in names, 'epoch-name', lambda: f'{what()}: {e} not in {names}')
        regions(R, cps.ax, cps, T, colour, what, rgb)
        pos = {t.get_text().strip(): t.get_position()[0] for t in cps.ax.texts}
        edges = T + [max(cps.xrange)]
        for e, a, b in zip(d['epoch'], edges, edges[1:]):
            R.expect(a - .1 <= pos[e] <= b + .1, 'epoch-name-position', lambda: f'{what()}: {e} at {pos[e]}, epoch {a} to {b}')
    else:
        ax = cps.ax2[0]
        vert = sorted(x[0] for l, x, y in lines(ax) if len(x) == 2 and x[0] == x[1] and abs(max(y) - min(y)) > .9)
        R.expect(len(vert) == len(T) - 1 and all(abs(x - t) < 2e-3 * max(t, 1e-3) for x, t in zip(vert, T[1:])), 'epoch-boundary', lambda: f'{what()}: {vert} expected {T[1:]}')
        regions(R, ax, cps, T, colour, what, rgb)

def on2(q, P, a0, x, y):
    """boundary isochron (times of density-defined epochs are known to 1e-3)"""
    f = getattr(q, P)
    ok = np.isfinite(x) & np.isfinite(y)
    return ok.sum() > 0 and inside(q, x[ok]) and all(core.close(b, f(10 ** a, a0), 2e-3) for a, b in zip(x[ok], y[ok]))

def regions(R, ax, cps, T, colour, what, rgb):
    reg = []
    for c in ax.collections:
        p = c.get_paths()
        if not p: continue
        xs = np.concatenate([e.vertices[:, 0] for e in p])
        reg.append((float(xs.min()), float(xs.max()), rgb(c)))
    for i, (a, b) in enumerate(zip(T[1:], T[2:])):
        m = [g for g in reg if abs(g[0] - a) < 2e-3 * max(a, 1e-3) and abs(g[1] - b) < 2e-3 * b]
        R.expect(len(m) >= 1, 'epoch-region', lambda: f'{what()}: none from {a} to {b}: {reg}')
        R.expect(any(core.close(g[2], grey_of(cps, colour[i + 1]), 1e-6) for g in m), 'epoch-shade', lambda: f'{what()}: {m} expected {grey_of(cps, colour[i + 1])}')

def do_uepoch(s, R):
    import craterstats as cst
    import craterstats.gm as gm
    q, c = system(s['cs'])
    sy = next(e for e in ref.systems() if e['name'] == s['cs'])
    d = dict(next(e for e in gm.read_textstructure(EPOCHS, from_string=True)['epochs'] if e['name'] == s['ep']))
    for src in (EPOCHS, ref.write(os.path.join(wd(), 'ep.txt'), EPOCHS), gm.read_textstructure(EPOCHS, from_string=True)):
        e = cst.Epochs(src, s['ep'], ref.pf(sy['pf']), ref.cf(sy['cf']))
        R.step(); R.trace(); R.state((repr(s), type(src).__name__, len(src)))
        T = expected_times(d, q, c)
        what = lambda: f'{s["cs"]}, {s["ep"]}'
        got = [float(t) for t in e.time]
        R.outcome(tuple(rounded(t) for t in got))
        R.expect(len(got) == len(T) and all(core.close(a, b, 1e-3) or abs(a - b) < 1e-9 for a, b in zip(got, T)), 'epoch-time', lambda: f'{what()}: {got} expected {T}')
        R.expect(str(e) == s['ep'], 'epoch-name', what)

def do_suffix(s, R):
    q, c = system('Moon, Neukum (1983)')
    a0 = math.log10(c.N(float(s['t'])))
    name = age_text(float(s['t']))
    size = {}
    for n in range(4):
        for w in itertools.permutations('ashn', n):
            w = ''.join(w)
            args = ['-cs', 'Moon, Neukum (1983)', '-pr', 'cum', '-isochrons', f'.0001h,{s["t"]}{w},2.2h', '-o', 'x', '-p', 'source=a.diam,type=data']
            r = cli.run(args, wd())
            R.step(); R.trace(); R.state((s['t'], w))
            R.expect(r.ok, 'run-failed', lambda: f'{args}: {r.why()}')
            mine = [1 for l, x, y in lines(r.cps.ax) if len(x) and on(q, 'C', a0, x, y)]
            R.expect(len(mine) == 1, 'not-drawn', lambda: f'{s["t"]}{w}: {len(mine)}')
            tx = [t for t in r.cps.ax.texts if t.get_text() == name]
            R.expect(len(tx) == (0 if set(w) & set('hn') else 1), 'label', lambda: f'{s["t"]}{w}: {[t.get_text() for t in r.cps.ax.texts]}')
            if tx:
                R.expect((tx[0].get_va() == 'bottom') == ('a' in w), 'label-side', lambda: f'{s["t"]}{w}: {tx[0].get_va()}')
                size['s' in w] = tx[0].get_size()
            R.outcome((w, len(tx)))
            for t in ('0.1 Ma', '100 ka', '2.2 Ga'): R.expect(t not in [x.get_text() for x in r.cps.ax.texts], 'label', lambda: f'{args}: hidden label {t} shown')
    R.expect(size[True] < size[False], 'label-size', lambda: f'{s["t"]}: {size}')
