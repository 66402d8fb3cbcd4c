"""Uncertainty plots: every outcome pattern of the random counts is imposed on the real run; all three panels compared with the analytic posterior."""
import itertools, math, os, re
import numpy as np
from scipy.special import gammainc, gammaincinv
from .. import cli, core, ref
TECHNIQUE = 'model checking: the random counts are an adversarial choice; every imposed count pattern x system x axes x sizes is run through the real command line and every cell of the three drawn panels is compared with the analytic posterior'
RULE = ('imposed counts: constants 0..7 and larger, the expected number, and digit patterns that identify every cell; x 20 chronology systems x time axes (log, split, linear) x area ranges x panel shapes x sample numbers x smallest diameters x equilibrium functions; '
        'state = (configuration, pattern)')
LIMIT = 400
X = [None, (4.5, 0), (4.2, 1e-3), (4.2, 2), (3.9, .5), (3, .01), (4.5, 3.2)]
Y = [None, (-2, 2), (3, 6.4), (0, 9), (7.8, 9)]
PAT = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 25, 'lam', 'd0', 'd1', 'd2']

def scenarios(tier):
    deep = tier == 'thorough'
    S = [s['name'] for s in ref.systems()]
    E = [e['name'] for e in ref.ef_defs()]
    base = dict(cs=S[0], x=None, y=None, pd='7.5x7.5', ns=8, d='.5', ef=None)
    out = [dict(base, p=p) for p in PAT]
    out += [dict(base, x=x, p=p, pd=pd) for x in range(1, len(X)) for p in ((1, 'lam', 'd0', 'd1') if not deep else PAT) for pd in (('7.5x7.5', '6x9', '9x6', '2') if deep or p == 'd0' else ('7.5x7.5',))]
    out += [dict(base, y=y, p=p, x=x) for y in range(1, len(Y)) for p in (0, 1, 3, 'lam', 'd0', 'd1') for x in ((None, 3) if not deep else (None, 1, 2, 3, 4, 5, 6))]
    out += [dict(base, cs=s, p=p, d=d, ef=e, x=x) for s in S for p in ((1, 'lam') if not deep else (0, 1, 4, 'lam', 'd0')) for d in (('.5',) if not deep else ('.5', '.02', '3')) for e in (None, E[0]) for x in ((None, 3) if e else (None,))]
    out += [dict(base, ef=e, d=d, x=x, p='lam', y=y) for e in E for d in ('.03', '.15', '.7', '.08') for x in (range(len(X)) if deep else (0, 1, 3)) for y in ((None, 2) if deep else (None,))]
    out += [dict(base, ns=n, p=p, pd=pd) for n in ((2, 3, 5, 13) if not deep else (2, 3, 5, 7, 13, 21)) for p in ('lam', 'd0', 'd1', 'd2') for pd in ('7.5x7.5', '6x9', '9x6')]
    return out

WD = None
def wd():
    global WD
    if WD is None or not os.path.isdir(WD): WD = cli.fresh_dir('c33')
    return WD

class Counts:
    """stands in for the random numbers: the count for an expectation is looked up in the imposed pattern"""
    def __init__(self, lam, k): self.o, self.k, self.seen = np.log(lam), k, []
    def __call__(self, lam=1., size=None):
        self.seen.append(float(lam))
        return int(self.k[int(np.argmin(np.abs(self.o - math.log(max(float(lam), 1e-300)))))])

def grid(s):
    """ages and areas of the samples, and the time axis"""
    a, b = X[s['x']] if s['x'] else (4.2, 1e-5)
    tmax = min(max(a, b, 3.), 4.5)
    tmin = min(max(min(a, b), 0.), tmax - .1)
    pd = [float(e) for e in s['pd'].split('x')]
    asp = 1. if len(pd) == 1 else pd[1] / pd[0]
    nx, ny = (s['ns'], int(s['ns'] * asp)) if asp > 1 else (int(s['ns'] / asp), s['ns'])
    if 0 < tmin < 1:
        tmin = 10. ** math.floor(math.log10(tmin))
        tc = 3.
        lin = (tmax - 3.) / .7
        frac = lin / (lin + math.log10(3.) - math.log10(tmin))
    else: tc, frac = tmin, 1.
    nl = round(nx * frac)
    ng = nx - nl
    ages = list(np.logspace(math.log10(tmin), math.log10(tc), ng)) if ng else []
    ages += list(np.linspace(tc, tmax, nl + 1)[1:])
    y = Y[s['y']] if s['y'] else (-2, 8)
    areas = np.logspace(y[0], y[1], ny)
    def at(x):      # time at horizontal position
        return tmax - x / frac * (tmax - tc) if x <= frac else 10 ** (math.log10(tc) - (x - frac) / (1 - frac) * (math.log10(tc) - math.log10(tmin)))
    return ages, areas, at, y

def pattern(p, lam):
    n = len(lam)
    if p == 'lam': return [int(round(min(l, 1e6))) for l in lam]
    if isinstance(p, str): return [(i // 8 ** int(p[1])) % 8 for i in range(n)]
    return [p] * n

def run(s, R):
    y = next(e for e in ref.systems() if e['name'] == s['cs'])
    q, c = ref.rpf(y['pf']), ref.rcf(y['cf'])
    d = float(s['d'])
    ages, areas, at, yr = grid(s)
    nx, ny = len(ages), len(areas)
    per = lambda t: max(q.C(d, math.log10(c.N(t))) - q.C(1000., math.log10(c.N(t))), 0)
    L = [[per(t) * a for a in areas] for t in ages]
    flat = [l for r in L for l in r]
    K = pattern(s['p'], flat)
    stub = Counts(flat, K)
    args = ['-pr', 'uncertainty', '-cs', s['cs'], '-ns', str(s['ns']), '-d_min', s['d'], '-pd', s['pd'], '-f', 'png', '-o', 'x']
    if s['x']: args += ['-xrange', *map(str, X[s['x']])]
    if s['y']: args += ['-yrange', *map(str, Y[s['y']])]
    if s['ef']: args += ['-ef', s['ef']]
    old, oldrng = np.random.poisson, np.random.default_rng
    class G:
        poisson = staticmethod(stub)
    np.random.poisson, np.random.default_rng = stub, lambda *a, **k: G()
    try: r = cli.run(args, wd())
    finally: np.random.poisson, np.random.default_rng = old, oldrng
    R.step(len(flat)); R.trace(); R.state(repr(s))
    R.expect(r.ok, 'run-failed', lambda: f'{args}: {r.why()}')
    fig = {os.path.splitext(os.path.basename(f))[0].split('_')[-1]: g for f, g in r.saved}
    R.expect(set(fig) == {'k', 'err', 'age'}, 'panels', lambda: f'{args}: {[f for f, _ in r.saved]}')
    want = sorted(l for l in flat if l < 1e5)
    got = sorted(stub.seen)
    R.expect(len(got) == len(want) and all(abs(a / b - 1) < 1e-5 for a, b in zip(got, want)), 'expected-number', lambda: f'{args}: drawn for {got[:3]}..{got[-3:]}, expected {want[:3]}..{want[-3:]}')
    k = [[(int(L[i][j]) if L[i][j] >= 1e5 else K[i * ny + j]) for j in range(ny)] for i in range(nx)]
    img = {n: image(R, f, n, (ny, nx), args) for n, f in fig.items()}
    unit = [[L[i][j] / c.N(ages[i]) for j in range(ny)] for i in range(nx)]      # expectation per unit N
    for i in range(nx):
        for j in range(ny):
            col, n, T = nx - 1 - i, k[i][j], ages[i]
            what = lambda: f'{args}: {n} craters imposed (pattern {s["p"]}), area {areas[j]:.4g}, age {T:.4g} Ga, expected number {L[i][j]:.4g}'
            v = float(img['k'][0][j, col])
            R.expect(v == min(n, 8) or v >= 7 and n >= 7, 'count-shown', lambda: f'{what()}: shown {v}')
            t = [median(c, n, unit[i][j], p) for p in (.15865525, .5, .84134475)]
            if t is None or None in t: continue
            e = (math.sqrt(t[2] / t[0]) - 1) * 100
            g = float(img['err'][0][j, col])
            R.expect(abs(g - e) <= .02 * e + .5 + (1.7 if n > 1000 else 0), 'uncertainty', lambda: f'{what()}: shown {g} %, expected {e}')
            x = math.log10(t[1] / T)
            g = img['age'][0][j, col]
            if abs(abs(x) - math.log10(5)) < .01: continue
            if abs(x) > math.log10(5): R.expect(not np.isfinite(g), 'ratio-shown', lambda: f'{what()}: shown {10 ** g}, expected outside the scale ({10 ** x})')
            else: R.expect(np.isfinite(g) and abs(float(g) - x) < (.006 if n < 1000 else .012), 'ratio', lambda: f'{what()}: shown {10 ** float(g)}, expected {10 ** x}')
    R.outcome(tuple(np.round(np.ravel(img['k'][0]), 3)))
    # colours and scales
    f, im = fig['k'], img['k'][1]
    lab = ticks(f, im)
    for v, t in lab:
        n = int(t.rstrip('+'))
        if not any(n == min(x, 7) for r_ in k for x in r_): continue
        R.expect(np.allclose(im.cmap(im.norm(n)), im.cmap(im.norm(v))), 'count-colour', lambda: f'{args} pattern {s["p"]}: a cell with {n} craters has not the colour labelled {t!r}')
    for v, t in ticks(fig['age'], img['age'][1]):
        R.expect(abs(math.log10(float(t)) - v) < .012, 'ratio-scale', lambda: f'{args}: {t!r} at {10 ** v}')
    for n, f in fig.items():
        lb = [a.get_ylabel() for a in f.axes if '$d >' in a.get_ylabel()]
        m = re.search(r'\(\$d > ([\d.e+-]+)\$ (k?m)\)', lb[0]) if lb else None
        R.expect(m and abs(float(m[1]) * (1 if m[2] == 'km' else 1e-3) / d - 1) < 5e-3, 'diameter-shown', lambda: f'{args}: {lb}')
    # axes
    cps = r.cps
    for n, f in fig.items():
        ya = [a for a in f.axes if a.get_ylabel() == 'Area, km$^2$']
        R.expect(len(ya) == 1 and core.close([math.log10(v) for v in ya[0].get_ylim()], list(map(float, yr)), 1e-9), 'area-axis', lambda: f'{args}: {[a.get_ylim() for a in ya]}')
        host = next(a for a in f.axes if a.images)
        b = host.get_position()
        R.expect(abs(ya[0].get_position().y0 - b.y0) < 1e-6 and abs(ya[0].get_position().y1 - b.y1) < 1e-6, 'area-axis', lambda: f'{args}: {b} {ya[0].get_position()}')
        for a in f.axes:       # every labelled time stands where the cells of that age are
            if not a.axison or a is host or not a.xaxis.get_visible() or a in [z for z in f.axes if '$d >' in z.get_ylabel()]: continue
            p = a.get_position()
            if p.width < 1e-6: continue
            lo, hi = sorted(a.get_xlim())
            for t in a.get_xticks():
                if not (lo - 1e-12 <= t <= hi + 1e-12) or not t > 0 or a.get_xlabel(): continue
                u = a.transData.transform((t, a.get_ylim()[0]))[0]
                x = host.transAxes.inverted().transform((u, 0))[0]
                if not -1e-9 <= x <= 1 + 1e-9 or a.get_xlim() == (0, 1): continue
                w = at(min(max(x, 0), 1))
                R.expect(abs(w - t) < 1e-6 * max(t, 1e-9) + 1e-9 or abs(math.log10(max(w, 1e-12) / t)) < 1e-3, 'time-axis', lambda: f'{args}: {t} Ga at {x}, cells there are of age {w}')
    # regions that cannot occur
    area_max = {'moon': 3.79e7, 'mars': 1.44e8, 'mercury': 7.48e7}.get(y.get('body', '').strip().lower(), math.inf)
    teq = math.inf
    if s['ef']:
        e = ref.RefPF(next(x for x in ref.ef_defs() if x['name'] == s['ef']))
        n1 = e.C(d) * q.C(1., 0.) / q.C(d, 0.)
        teq = c.t(n1)
        if teq >= 4.999: teq = math.inf
    for n, f in fig.items():
        host = next(a for a in f.axes if a.images)
        P = [p for p in host.patches if type(p).__name__ == 'Polygon']
        for x in np.linspace(.012, .988, 21):
            for z in np.linspace(.012, .988, 21):
                la = yr[0] + z * (yr[1] - yr[0])
                t = at(x)
                if abs(la - math.log10(area_max)) < .02 if area_max < math.inf else False: continue
                if teq < math.inf and (abs(t - teq) < .01 * teq or abs(t - teq) < 5e-3): continue
                w = la > math.log10(area_max) if area_max < math.inf else False
                w = w or t > teq
                g = any(p.get_path().contains_point((x, z)) if p.get_transform() is host.transData else p.get_path().contains_point((x, z)) for p in P)
                R.expect(bool(w) == bool(g), 'excluded-region', lambda: f'{args}: area {10 ** la:.4g} km2 at {t:.4g} Ga: shaded {bool(g)}, globe {area_max}, saturation from {teq} Ga')

def image(R, f, n, shape, args):
    host = [a for a in f.axes if a.images and tuple(a.images[0].get_extent()) == (0, 1, 0, 1)]
    R.expect(len(host) == 1 and len(host[0].images) == 1, 'image', lambda: f'{args}: {n}')
    im = host[0].images[0]
    v = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
    R.expect(v.shape == shape, 'image-shape', lambda: f'{args}: {n} {v.shape} expected {shape}')
    R.expect(im.origin == 'lower' and host[0].get_xlim() == (0, 1) and host[0].get_ylim() == (0, 1), 'image-orientation', lambda: f'{args}: {n}')
    return v, im

def ticks(f, im):
    ax = im.colorbar.ax
    lo, hi = sorted(ax.get_ylim())
    return [(v, t.get_text()) for v, t in zip(ax.get_yticks(), ax.get_yticklabels()) if lo <= v <= hi and t.get_text()]

def median(c, k, unit, p):
    G = gammainc(k + 1, unit * c.N(5.))
    if G < 1e-13: return None
    n = gammaincinv(k + 1, p * G) / unit
    if not n > 0: return None
    return c.t(n)
