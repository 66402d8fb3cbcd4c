"""What a figure shows: every sequence of overplots x presentation x legend setting, as really drawn, compared item by item with reference values."""
import itertools, math, os, re
import numpy as np
from .. import cli, core, ref
from . import c23
TECHNIQUE = 'model checking: exhaustive product of overplot sequences x presentations x legend and axis settings through the real command line; every drawn marker, error bar, curve, text, legend entry, row and tick compared with reference values'
RULE = ('14 overplot kinds (every type, hidden, with and without symbol, error bars, isochron, age text, correction, no craters, misleading name), all sequences up to the stated length x 4 count presentations x legend settings; all sequences of 9 kinds up to '
        'the stated length x {log-linear, linear} x legend for sequence plots; styles x presentations x axis ranges x print sizes; bin labels for every binning; chronology and rate curves for every system x reference diameter; state = (presentation, overplots, settings)')
LIMIT = 300
LONG = {'cum': 'cumulative', 'diff': 'differential', 'rpl': 'R-plot', 'hart': 'Hartmann'}
DA = [.3, .31, .5, .52, .55, .8, .82, .95, 1.05, 1.45, 2.6, 3.1, 9.2]
DB = [.26, .27, .33, .41, .62, .64, .66, 1.15, 1.9, 2.3, 4.4]
FB = [1, 1, .5, 1, 1, .25, 1, 1, .9, 1, 1]
AREA = {'a': 1e4, 'b': 2500.}
PERIM = {'a': None, 'b': 210.}
OPS = [dict(source='a.diam', type='data', colour=0, psym=0, binning='pseudo-log'),
       dict(source='b.diam', type='data', colour=3, psym=4, binning='root-2', error_bars=0, name='Foo unit'),
       dict(source='a.diam', type='c-fit', range='[.4,4]', colour=1, psym=1, binning='pseudo-log'),
       dict(source='b.diam', type='d-fit', range='[.25,2.1]', colour=2, psym=2, binning='10/decade', age_left=1, offset_age='[6,-4]'),
       dict(source='a.diam', type='poisson', range='[.45,3.3]', colour=4, psym=9, binning='pseudo-log', isochron=1),
       dict(source='b.diam', type='b-poisson', range='[.29,2.05]', colour=5, psym=5, binning='x2', age_left=1),
       dict(source='a.diam', type='c-fit', range='[.4,2]', colour=7, psym=10, binning='pseudo-log', resurf=1, error_bars=0),
       dict(source='a.diam', type='c-fit', range='[.7,4]', colour=8, psym=11, binning='root-2', resurf=1, resurf_showall=1),
       dict(source='b.diam', type='poisson', range='[.3,2]', colour=9, psym=7, binning='pseudo-log', hide=1),
       dict(source='b.diam', type='poisson', colour=10, psym=8, binning='20/decade', show_age=0, error_bars=0),
       dict(source='a.diam', type='data', colour=11, psym=3, binning='none', range='[.2,5]'),
       dict(source='a.diam', type='poisson', range='[4.1,8.1]', colour=12, psym=12, binning='pseudo-log', offset_age='[-3,7]'),
       dict(source='b.diam', type='data', colour=13, psym=13, binning='4th root-2', name='fit'),
       dict(source='a.diam', type='data', colour=14, psym=14, binning='pseudo-log', hide=1)]
FIT = ('c-fit', 'd-fit', 'poisson', 'b-poisson')
LEG = ['fnacr', 'n', '0', 'c', 'N', 'r', 'cN', 'ap', 'fnapcrN', 'p', 'a']
SEQ = [2, 3, 4, 5, 8, 11, 0, 13, 9]

def scenarios(tier):
    deep = tier == 'thorough'
    out = [dict(k='fig', pr=p, l=[i], leg=g, x=x) for i in range(len(OPS)) for p in LONG for g in LEG for x in ((0, 1) if g == 'fnacr' or deep else (0,))]
    for n in (2, 3) if deep else (2,):
        for l in itertools.product(range(len(OPS)), repeat=n):
            for p in LONG:
                for g in (('fnacr', 'n', 'cN', 'ap') if n == 2 and deep else ('fnacr', 'n') if n == 2 or len(set(l)) == 3 and not set(l) & {10, 13, 6, 9} else ()):
                    out.append(dict(k='fig', pr=p, l=list(l), leg=g, x=0))
    if not deep: out += [dict(k='fig', pr=p, l=list(l), leg=g, x=0) for l in ((0, 2, 1), (2, 0, 3), (4, 1, 5), (12, 2, 4, 3), (1, 2, 3, 4, 5), (0, 8, 2, 1), (3, 13, 0)) for p in LONG for g in LEG]
    for n in (1, 2, 3) if deep else (1, 2):
        for l in itertools.product(SEQ, repeat=n):
            for x in (0, 1):
                for g in (('A', 'Aa', 'cr', 'AN', '0') if n < 2 or deep and n < 3 else ('A', 'c') if deep else ('A',)):
                    out.append(dict(k='seq', l=list(l), x=x, leg=g))
    for p in [*LONG]:
        for st in ('natural', 'root-2'):
            for x in AXES if deep else AXES[:4]:
                for pd in PD: out.append(dict(k='axes', pr=p, st=st, x=x, pd=pd))
    for p in ('chron', 'rate', 'seq'):
        for pd in PD: out.append(dict(k='axes', pr=p, st=None, x=None, pd=pd))
    out += [dict(k='bins', pr=p, b=b, st=st) for p in LONG for b in ref.BINNINGS for st in ('natural', 'root-2')]
    out += [dict(k='curve', cs=s['name'], pr=p, ref=d) for s in ref.systems() for p in ('chron', 'rate') for d in ('1', '.5', '.01', '10', '16')]
    out += [dict(k='legend', cs=s['name'], ef=e, ep=ep, pr=p) for s in ref.systems() for e in (None, *[e['name'] for e in ref.ef_defs()][:1]) for ep in (None, ref.functions()['epochs'][0]['name']) for p in ('cum', 'hart', 'seq', 'chron')]
    return out

AXES = [None, ((-3, 2), (-5, 2)), ((-1, 1), (-6, -1)), ((-2.4, .7), (-3.2, 1.1)), ((-3, 3), (-4, 2)), ((0, 2), (-8, 0)), ((-1.5, -.4), (0, 1))]
PD = ['7.5x7.5', '2', '10x5', '6x12', '1.3']

WD = None
def wd():
    global WD
    if WD is None or not os.path.isdir(WD):
        WD = cli.fresh_dir('c32')
        ref.write(os.path.join(WD, 'a.diam'), ref.diam_text(1e4, [dict(diameter=d) for d in DA], ('diameter',)))
        ref.write(os.path.join(WD, 'b.diam'), ref.diam_text(2500., [dict(diameter=d, fraction=f) for d, f in zip(DB, FB)], perimeter=210))
    return WD

def run(s, R): globals()['do_' + s['k']](s, R)

def plottext(o):
    import craterstats as cst
    o = dict(dict(error_bars=1, isochron=0), **o)
    return ','.join(f'{k}={cst.PALETTE[v][2] if k == "colour" else cst.MARKERS[v][0] if k == "psym" else v}' for k, v in o.items())

def plotargs(l):
    out = []
    for i in l: out += ['-p', plottext(OPS[i])]
    return out

def rgb(c):
    from matplotlib.colors import to_rgb
    return tuple(round(float(v), 6) for v in to_rgb(c))

def data_of(o): return (DA, [1.] * len(DA)) if o['source'] == 'a.diam' else (DB, FB)

def rows(o, pr, cp, q):
    """expected points: x, y, err, n, weight"""
    d, f = data_of(o)
    a = AREA[o['source'][0]]
    shift = 0.
    if o['type'] == 'c-fit' and o.get('resurf'):       # the correction itself: C09
        import craterstats as cst
        cc = cst.Cratercount(os.path.join(wd(), o['source']))
        p = cc.getplotdata(LONG[pr], o['binning'], range=list(cp.range), resurfacing=1, showall=o.get('resurf_showall', 0), pf=cp_pf)
        return [(float(x), float(y), float(e), None, None) for x, y, e in zip(p['d'], p['y'], p['err'])]
    return ref.RefBins(o['binning'], d, f).present(LONG[pr], a, q, list(cp.range), bool(o.get('resurf_showall')))

def drawn(o, pr): return not o.get('hide') and not (pr != 'cum' and o['binning'] == 'none')

def near(a, b, rel): return abs(a - b) <= rel * max(abs(a), abs(b))

def same_points(x, y, pts, rel=1e-5):
    if len(x) != len(pts): return False
    got = sorted((10 ** float(a), float(b)) for a, b in zip(x, y))
    want = sorted((p[0], p[1]) for p in pts)
    return all(near(a, c, rel) and near(b, d, rel) for (a, b), (c, d) in zip(got, want))

def number(t):
    v = re.sub(r'km(\^\{-?\d\})?', '', t.replace('$', '').replace(' ', ''))
    m = re.fullmatch(r'([\d.]+)(?:\\cdot10\^\{(-?\d+)\})?', v)
    return float(m[1]) * 10. ** int(m[2] or 0) if m else math.nan

def entries(o, leg, cp, ref_d):
    """checks for the parts expected in the legend entry, in order: (name, predicate)"""
    a, pm = AREA[o['source'][0]], PERIM[o['source'][0]]
    out = []
    if o['type'] == 'data':
        if 'n' in leg: out.append(('name', lambda t: t == o.get('name', o['source'][0])))
        if 'a' in leg: out.append(('area', lambda t: near(number(t), a, 5.1e-3) and 'km' in t))
        if 'p' in leg and pm: out.append(('perimeter', lambda t: near(number(t), pm, 5.1e-3) and t.endswith(' km')))
    else:
        d, f = data_of(o)
        lo, hi = shown_range(o, cp)
        w = sum(g for e, g in zip(d, f) if lo <= e < hi)
        n = sum(1 for e in d if lo <= e < hi)
        def count(t):
            m = re.fullmatch(r'([\d.]+)(?: \(of (\d+)\))? craters( \(buffered\))?', t)
            if not m or bool(m[3]) != (o['type'] == 'b-poisson'): return False
            if o['type'] in ('poisson', 'b-poisson'): return not m[2] and float(m[1]) == n      # whole craters: C10
            if m[2]: return {round(float(m[1]), 1), float(m[2])} <= {round(w + s, 1) for s in (-.05, 0, .05)} | {float(n)}
            return abs(float(m[1]) - w) < 1e-3 and abs(n - w) < 1e-3
        if 'c' in leg: out.append(('count', count))
        if 'r' in leg: out.append(('range', lambda t: rangetext(t, lo, hi)))
        if 'N' in leg:
            def dens(t):
                m = re.match(r'N\(([\d.]+)\)=', t)
                try: c23.check_sci(c23.Quiet(), t[m.end():], 0, cp.n_d[0], cp.n_d[2], cp.n_d[1], 3, 0, 'km-2', '')
                except c23.Bad: return False
                return float(m[1]) == ref_d
            out.append(('density', dens))
    return out

def shown_range(o, cp):
    """limits the overplot uses: as given for Poisson, whole bins otherwise"""
    r = list(cp.range)
    d, _ = data_of(o)
    b = ref.RefBins(o['binning'], d).rows
    if r[0] == 0: r[0] = 0. if o['type'] in ('poisson', 'b-poisson') else b[0][0]
    if math.isinf(r[1]): r[1] = math.inf if o['type'] in ('poisson', 'b-poisson') else b[-1][1]
    return r

def rangetext(t, lo, hi):
    if math.isinf(hi): return t == 'unconstrained' or rangetext_ok(t)
    try: c23.check_range(c23.Quiet(), t, lo, hi, 2, '')
    except c23.Bad: return rangetext_near(t, lo, hi)
    return True

def rangetext_near(t, lo, hi):
    """bin boundaries a rounding error away from the limits given"""
    for k in (-1e-9, 1e-9):
        try:
            c23.check_range(c23.Quiet(), t, lo * (1 + k), hi * (1 + k), 2, '')
            return True
        except c23.Bad: pass
    return False

def rangetext_ok(t): return False

cp_pf = None
def do_fig(s, R):
    global cp_pf
    extra = []
    if s['x'] == 1: extra = ['-invert', '1', '-ref_diameter', '.5', '-mu', '0', '-sf', '2', '-pt_size', '7', '-pd', '2', '-text_halo', '0']
    leg = s['leg']
    args = ['-pr', s['pr'], '-legend', leg, *extra, *plotargs(s['l']), '-o', 'x']
    r = cli.run(args, wd())
    R.step(len(s['l'])); R.trace(); R.state(repr(s))
    R.expect(r.ok and r.saved, 'run-failed', lambda: f'{args}: {r.why()}')
    cps = r.cps
    what = f'{s["pr"]}, legend {leg}, {extra} {[OPS[i] for i in s["l"]]}'
    inv, ref_d, mu, sf = (1, .5, 0, 2) if s['x'] == 1 else (0, 1., 1, 3)
    import craterstats as cst
    q = ref.rpf('Moon, Neukum (1983)')
    cp_pf = ref.pf('Moon, Neukum (1983)')
    R.expect(len(cps.craterplot) == len(s['l']), 'overplots', what)
    if 'a' in leg and any(OPS[i]['type'] == 'b-poisson' for i in s['l']): leg += 'p'
    vis = [(OPS[i], cp) for i, cp in zip(s['l'], cps.craterplot) if drawn(OPS[i], s['pr'])]
    col = lambda o: rgb(cst.PALETTE[o['colour']][inv])
    ax = cps.ax
    # points
    marks = []
    for l in ax.lines:
        if l.get_marker() in (None, '', 'None'): continue
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        if len(x): marks.append((rgb(l.get_color()), l.get_marker(), l.get_fillstyle(), x, y, l.get_linestyle()))
    want = []
    for o, cp in vis:
        pts = rows(o, s['pr'], cp, q)
        if pts: want.append((o, cp, pts))
    left = list(range(len(marks)))
    for o, cp, pts in want:
        m = cst.MARKERS[o['psym']][2]
        hit = [j for j in left if marks[j][0] == col(o) and marks[j][1] is m['marker'] or marks[j][0] == col(o) and isinstance(m['marker'], str) and marks[j][1] == m['marker']]
        hit = [j for j in hit if marks[j][2] == m.get('fillstyle', 'full')]
        R.expect(bool(hit), 'no-markers', lambda: f'{what}: {o} in {[(k[0], k[1]) for k in marks]}')
        hit2 = [j for j in hit if same_points(marks[j][3], marks[j][4], pts)]
        R.expect(bool(hit2), 'points', lambda: f'{what}: {o}: drawn {sorted(zip((10 ** marks[hit[0]][3]).tolist(), marks[hit[0]][4].tolist()))} expected {[p[:2] for p in pts]}')
        R.expect(marks[hit2[0]][5] in ('None', '', ' '), 'joined-points', what)
        left.remove(hit2[0])
    R.expect(not left, 'extra-markers', lambda: f'{what}: {[marks[j] for j in left]}')
    # error bars
    segs = []
    from matplotlib.collections import LineCollection
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for g in c.get_segments():
                g = np.asarray(g, float)
                if len(g) == 2 and abs(g[0, 0] - g[1, 0]) < 1e-12: segs.append((10 ** g[0, 0], min(g[:, 1]), max(g[:, 1])))
    wseg = [(p[0], p[1] - p[2], p[1] + p[2]) for o, cp, pts in want if o.get('error_bars', 1) for p in pts]
    segs.sort(); wseg.sort()
    R.expect(len(segs) == len(wseg), 'error-bars', lambda: f'{what}: {len(segs)} drawn, {len(wseg)} expected')
    def key(v): return tuple(float(f'{e:.4g}') for e in v)
    def match(a, b): return near(a[0], b[0], 1e-5) and near(a[2], b[2], 1e-5) and abs(a[1] - b[1]) <= 1e-5 * b[2]
    rest = list(segs)
    for w in wseg:
        j = next((j for j, g in enumerate(rest) if match(g, w)), None)
        R.expect(j is not None, 'error-bars', lambda: f'{what}: {w} not in {rest}')
        rest.pop(j)
    # curves
    curves = [(rgb(l.get_color()), np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines if l.get_marker() in (None, '', 'None')]
    fits = [(o, cp) for o, cp in vis if o['type'] in FIT]
    f = getattr(q, {'cum': 'C', 'diff': 'F', 'rpl': 'R', 'hart': 'H'}[s['pr']])
    mine = {}
    used = set()
    for n, (o, cp) in enumerate(fits):
        lo, hi = max(float(cp.range[0]), q.range[0]), min(float(cp.range[1]), q.range[1])
        for j, (c, x, y) in enumerate(curves):
            if c != col(o) or not len(x) or j in used: continue
            if all(near(b, f(10 ** a, float(cp.a0[0])), 1e-4) for a, b in zip(x, y)) and 10 ** x.min() <= lo * 1.0001 and 10 ** x.max() >= hi * .9999 and 10 ** x.min() >= lo * .97 and 10 ** x.max() <= hi * 1.03:
                mine[n] = (x, y); used.add(j); break
        if math.isfinite(float(cp.a0[0])): R.expect(n in mine, 'fit-curve', lambda: f'{what}: {o}: no curve for a0={cp.a0[0]} over {lo}-{hi}; curves {[(c, x.min() if len(x) else None, x.max() if len(x) else None) for c, x, y in curves]}')
    iso = sum(1 for o, cp in fits if o.get('isochron'))
    R.expect(len([1 for c, x, y in curves if len(x) and np.isfinite(y).any()]) <= len(fits) + iso, 'extra-curves', lambda: f'{what}: {len(curves)}')
    # ages beside their curves
    texts = [t for t in ax.texts if c23.is_age(t.get_text())]
    shown = [(n, o, cp) for n, (o, cp) in enumerate(fits) if o.get('show_age', 1)]
    R.expect(len(texts) == len(shown), 'age-texts', lambda: f'{what}: {[t.get_text() for t in texts]}')
    free = list(texts)
    for n, o, cp in shown:
        x, y = mine[n]
        i = int(np.argmin(x))
        ox, oy = (float(v) for v in o.get('offset_age', '[0,0]').strip('[]').split(','))
        dec = max(abs(cps.xrange[1] - cps.xrange[0]), 1)
        ax0 = cps.data_to_axis((x[i], y[i]))
        sg = -1 if o.get('age_left') else 1
        exp = ax0[0] + sg * .02 + ox / 20 / dec, ax0[1] + oy / 20 / dec
        def fits_text(t):
            p = t.get_transform().transform(t.get_position())
            p = ax.transAxes.inverted().transform(p)
            return rgb(t.get_color()) == col(o) and abs(p[0] - exp[0]) < .015 and abs(p[1] - exp[1]) < .035 and t.get_horizontalalignment() == ('right' if o.get('age_left') else 'left')
        c = [t for t in free if fits_text(t)]
        R.expect(bool(c), 'age-position', lambda: f'{what}: {o}: expected {exp} in {[(t.get_text(), t.get_color(), t.get_position(), t.get_horizontalalignment()) for t in free]}')
        e = float(cp.t[0]), float(cp.t[2] - cp.t[0]), float(cp.t[0] - cp.t[1])
        ok = []
        for t in c:
            try: c23.check_age(c23.Quiet(), t.get_text(), *e, sf, '', mu=mu)
            except c23.Bad as b: ok.append(str(b)); continue
            free.remove(t); break
        else: R.expect(False, 'age-text', lambda: f'{what}: {o}: {cp.t} shown {[t.get_text() for t in c]} {ok}')
    # timing pdfs
    minis = [a for a in cps.fig.axes if a is not ax and a.lines and len(a.lines[0].get_xdata()) > 100]
    pois = [(n, o, cp) for n, o, cp in shown if o['type'] in ('poisson', 'b-poisson')]
    R.expect(len(minis) == len(pois), 'timing-plots', lambda: f'{what}: {len(minis)} for {len(pois)}')
    rest = list(minis)
    for n, o, cp in pois:
        hit = next((a for a in rest if rgb(a.lines[0].get_color()) == col(o) and same_pdf(a.lines[0], cp)), None)
        R.expect(hit is not None, 'timing-curve', lambda: f'{what}: {o}')
        rest.remove(hit)
        judge_pdf(R, hit, cp, lambda: f'{what}: {o}')
        # beside the age text
        p = hit.get_position()
        x, y = mine[n]
        t = cps.axis_to_fig(cps.data_to_axis((x[int(np.argmin(x))], y[int(np.argmin(x))])))
        ox, oy = (float(v) for v in o.get('offset_age', '[0,0]').strip('[]').split(','))
        sh = cps.axis_to_fig((ox / 20 / dec, oy / 20 / dec)) - cps.axis_to_fig((0, 0))
        t = t + sh
        lim = hit.get_xlim()
        ts = np.asarray(hit.lines[0].get_xdata(), float)
        pk = ts[int(np.argmax(hit.lines[0].get_ydata()))]
        pkx = p.x0 + (pk - lim[0]) / (lim[1] - lim[0]) * p.width
        R.expect(pkx < t[0] if o.get('age_left') else pkx > t[0], 'timing-side', lambda: f'{what}: {o}: peak at {pkx}, age at {t[0]}')
        R.expect(p.y0 - .1 < t[1] < p.y1 + .1, 'timing-height', lambda: f'{what}: {o}: {p} {t}')
    # legend
    judge_legend(R, cps, vis, leg, ref_d, col, what)
    R.outcome((len(marks), len(curves), tuple(t.get_text() for t in texts)))

def judge_legend(R, cps, vis, leg, ref_d, col, what):
    L = cps.ax.get_legend()
    got = [t.get_text() for t in L.get_texts()] if L else []
    handles = list(L.legend_handles) if L else []
    want = [(o, cp, entries(o, leg, cp, ref_d)) for o, cp in vis]
    want = [w for w in want if w[2]]
    R.expect(len(got) == len(want), 'legend-entries', lambda: f'{what}: {got} for {[(o["source"], o["type"]) for o, _, _ in want]}')
    for (o, cp, parts), t, h in zip(want, got, handles):
        p = t.split(', ')
        R.expect(len(p) == len(parts), 'legend-parts', lambda: f'{what}: {t!r} for {o}: expected {[k for k, _ in parts]}')
        for (k, ok), e in zip(parts, p):
            R.expect(ok(e), 'legend-' + k, lambda: f'{what}: {e!r} in {t!r} for {o}')
        R.expect(rgb(h.get_color()) == col(o), 'legend-colour', lambda: f'{what}: {t!r} {h.get_color()} for {o}')
        if o['type'] == 'data':
            import craterstats as cst
            m = cst.MARKERS[o['psym']][2]['marker']
            R.expect(h.get_marker() is m or h.get_marker() == m if isinstance(m, str) else h.get_marker() is m, 'legend-symbol', lambda: f'{what}: {t!r} {h.get_marker()} for {o}')

def same_pdf(line, cp):
    x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
    p = np.interp(x, cp.pdf.ts, cp.pdf.pdf)
    return y.max() > 0 and np.allclose(y / y.max(), p / p.max(), atol=1e-6)

def polys(ax):
    from matplotlib.collections import PolyCollection
    out = []
    for c in ax.collections:
        if isinstance(c, PolyCollection):
            for p in c.get_paths():
                if len(p.vertices): out.append((c, np.asarray(p.vertices, float)))
    return out

def step_at(ts, t):
    i = int(np.clip(np.searchsorted(ts, t), 2, len(ts) - 3))
    return ts[i + 2] - ts[i - 2]

def quantiles(cp, ps):
    return [float(cp.pdf.t(p)) for p in ps]

def judge_pdf(R, ax, cp, what):
    ts = np.asarray(cp.pdf.ts, float)
    q16, q50, q84 = quantiles(cp, (.1587, .5, .8413))
    ext = [(v[:, 0].min(), v[:, 0].max(), c.get_alpha()) for c, v in polys(ax)]
    R.expect(any(abs(a - q16) <= 2 * step_at(ts, q16) and abs(b - q84) <= 2 * step_at(ts, q84) for a, b, _ in ext), 'timing-interval', lambda: f'{what()}: shaded {ext}, interval {q16} to {q84}')
    R.expect(any(abs(a - q50) <= 2 * step_at(ts, q50) and abs(b - q50) <= 2 * step_at(ts, q50) for a, b, _ in ext), 'timing-median', lambda: f'{what()}: {ext}, median {q50}')
    lo, hi = ax.get_xlim()
    R.expect(lo <= q16 and hi >= q84, 'timing-extent', lambda: f'{what()}: {lo} {hi}')
    tv, lb = list(ax.get_xticks()), [t.get_text().strip() for t in ax.get_xticklabels()]
    u = lb[-1].split()[-1]
    k = {'Ga': 1, 'Ma': 1e-3, 'ka': 1e-6, 'a': 1e-9}.get(u)
    R.expect(k is not None and len(tv) == len(lb) >= 2, 'timing-ticks', lambda: f'{what()}: {tv} {lb}')
    for t, l in zip(tv, lb):
        R.expect(abs(float(l.split()[0]) * k - t) <= 2e-5 * max(abs(x) for x in tv), 'timing-ticks', lambda: f'{what()}: tick at {t} labelled {l} {u}')

def do_seq(s, R):
    rng = (['-xrange', '4.2', '.001'] if s['x'] == 0 else ['-xrange', '4.5', '0'])
    args = ['-pr', 'seq', '-legend', s['leg'], *rng, *plotargs(s['l']), '-o', 'x']
    r = cli.run(args, wd())
    R.step(len(s['l'])); R.trace(); R.state(repr(s))
    ops = [OPS[i] for i in s['l']]
    what = f'sequence {rng} legend {s["leg"]} {ops}'
    R.expect(r.ok and r.saved, 'run-failed', lambda: f'{args}: {r.why()}')
    cps = r.cps
    import craterstats as cst
    vis = [(o, cp) for o, cp in zip(ops, cps.craterplot) if o['type'] in FIT and not o.get('hide')]
    col = lambda o: rgb(cst.PALETTE[o['colour']][0])
    # rows from top to bottom in plot order
    names = sorted(((t.get_position()[1], t.get_text()) for t in cps.ax.texts if t.get_position()[0] < 0), reverse=True)
    R.expect(len(names) == len(vis), 'rows', lambda: f'{what}: {names}')
    for (y, t), (o, cp) in zip(names, vis): R.expect(t == o.get('name', o['source'][0]), 'row-name', lambda: f'{what}: {names}')
    ys = [y for y, _ in names]
    R.expect(all(0 < y < 1 for y in ys) and len(set(ys)) == len(ys), 'rows', lambda: f'{what}: {names}')
    right = {t.get_position()[1]: t.get_text() for t in cps.ax.texts if t.get_position()[0] > 1}
    leg = s['leg']
    for y, (o, cp) in zip(ys, vis):
        parts = []
        if 'A' in leg:
            e = float(cp.t[0]), float(cp.t[2] - cp.t[0]), float(cp.t[0] - cp.t[1])
            def age(t, e=e):
                try: c23.check_age(c23.Quiet(), t, *e, 3, '', mu=1)
                except c23.Bad: return False
                return True
            parts.append(('age', age))
        if 'a' in leg: parts.append(('area', lambda t, a=AREA[o['source'][0]]: near(number(t), a, 5.1e-3)))
        parts += [p for p in entries(o, leg, cp, 1.) if p[0] in ('count', 'range', 'density')]
        got = right.get(y)
        R.expect((got is None) == (not parts), 'row-label', lambda: f'{what}: {right} at {y}')
        if parts:
            g = got.split('\n')
            R.expect(len(g) == len(parts), 'row-label', lambda: f'{what}: {g} expected {[k for k, _ in parts]}')
            for (k, ok), e in zip(parts, g): R.expect(ok(e), 'row-' + k, lambda: f'{what}: {e!r} for {o}: {cp.t} {cp.n}')
    R.expect(len(right) == len([1 for y in ys if y in right]), 'row-label', lambda: f'{what}: {right} rows {ys}')
    half = .5 * min([abs(a - b) for a, b in zip(ys, ys[1:])] + [ys[-1] * 1, 1 - ys[0]]) if ys else 0
    from matplotlib.colors import to_rgba
    axes = [a for a in cps.ax2 if a.axison]
    R.expect(len(axes) == (2 if s['x'] == 0 else 1), 'time-axes', what)
    for a in axes:
        P = polys(a)
        for c, v in P:
            mid = (v[:, 1].min() + v[:, 1].max()) / 2
            R.expect(any(abs(mid - y) < 1e-6 for y in ys), 'stray-shape', lambda: f'{what}: at {mid}, rows {ys}')
            R.expect(v[:, 1].max() - mid <= half * 1.0001, 'overlapping-rows', lambda: f'{what}: {v[:, 1].max() - mid} half row {half}')
        for y, (o, cp) in zip(ys, vis):
            V = [(c, v) for c, v in P if abs((v[:, 1].min() + v[:, 1].max()) / 2 - y) < 1e-6]
            ext = [(v[:, 0].min(), v[:, 0].max()) for c, v in V]
            R.expect(V and all(rgb(c.get_edgecolor()[0][:3]) == col(o) for c, v in V if len(c.get_edgecolor())), 'row-colour', lambda: f'{what}: {o}: {[c.get_edgecolor() for c, v in V]} expected {col(o)}')
            if o['type'] in ('poisson', 'b-poisson'):
                ts = np.asarray(cp.pdf.ts, float)
                q = quantiles(cp, (.0001, .16, .5, .84, .9999))
                for a_, b_, k in ((q[0], q[4], 'extent'), (q[1], q[3], 'interval'), (q[2], q[2], 'median')):
                    R.expect(any(abs(e[0] - a_) <= 2 * step_at(ts, a_) and abs(e[1] - b_) <= 2 * step_at(ts, b_) for e in ext), 'row-' + k, lambda: f'{what}: {o}: {ext} expected {a_} to {b_}')
                big = max(V, key=lambda cv: cv[1][:, 0].max() - cv[1][:, 0].min())[1]
                top = big[big[:, 1] > y]
                p = np.interp(top[:, 0], ts, cp.pdf.pdf) / cp.pdf.pdf.max()
                hgt = (top[:, 1] - y) / (top[:, 1] - y).max()
                inner = (top[:, 0] > q[0]) & (top[:, 0] < q[4])
                R.expect(np.allclose(hgt[inner], p[inner] / p.max(), atol=2e-2), 'row-shape', lambda: f'{what}: {o}')
            else:
                lo, hi = sorted((float(cp.t[1]), float(cp.t[2])))
                R.expect(any(near(e[0], lo, 1e-6) and near(e[1], hi, 1e-6) for e in ext), 'row-interval', lambda: f'{what}: {o}: {ext} expected {cp.t}')
                bars = [l for l in a.lines if len(l.get_xdata()) == 2 and abs(np.mean(l.get_ydata()) - y) < 1e-6]
                R.expect(any(near(float(l.get_xdata()[0]), float(cp.t[0]), 1e-6) and near(float(l.get_xdata()[1]), float(cp.t[0]), 1e-6) and rgb(l.get_color()) == col(o) for l in bars), 'row-age', lambda: f'{what}: {o}: {[l.get_xdata() for l in bars]} expected {cp.t[0]}')
        n = sum(len(l.get_xdata()) == 2 for l in a.lines)
        R.expect(n == sum(o['type'] in ('c-fit', 'd-fit') for o, _ in vis), 'stray-line', lambda: f'{what}: {n}')
    R.outcome(tuple(names))

def decode(t):
    """diameter in km stated by a tick label"""
    m = re.fullmatch(r'\s*([\d.e+-]+)\$\\,\$(k?m)', t)
    return float(m[1]) * (1 if m[2] == 'km' else 1e-3) if m else None

def do_axes(s, R):
    args = ['-pr', s['pr'], '-pd', s['pd'], *(['-style', s['st']] if s['st'] else [])]
    if s['x']: args += ['-xrange', *map(str, s['x'][0]), '-yrange', *map(str, s['x'][1])]
    if s['pr'] not in ('chron', 'rate'): args += plotargs([2] if s['pr'] == 'seq' else [0])
    args += ['-title', 'Line one|Second: 2 %', '-ref_diameter', '.5', '-o', 'x']
    r = cli.run(args, wd())
    R.step(); R.trace(); R.state(repr(s))
    what = f'{args}'
    R.expect(r.ok and r.saved, 'run-failed', lambda: f'{args}: {r.why()}')
    cps = r.cps
    ax = cps.ax
    R.expect(ax.get_title() == 'Line one\nSecond: 2 %', 'title', lambda: f'{what}: {ax.get_title()!r}')
    fw, fh = (v * 2.54 for v in cps.fig.get_size_inches())
    p = ax.get_position()
    w, h = p.width * fw, p.height * fh
    R.expect(p.x0 >= 0 and p.y0 >= 0 and p.x1 <= 1 and p.y1 <= 1, 'outside-figure', lambda: f'{what}: {p}')
    pd = [float(e) for e in s['pd'].split('x')]
    if s['pr'] in LONG:
        dx, dy = max(abs(cps.xrange[1] - cps.xrange[0]), 1), max(abs(cps.yrange[1] - cps.yrange[0]), 1)
        R.expect(core.close(list(ax.get_xlim()), [float(v) for v in cps.xrange], 1e-9) and core.close([math.log10(v) for v in ax.get_ylim()], [float(v) for v in cps.yrange], 1e-6), 'axis-range', lambda: f'{what}: {ax.get_xlim()} {ax.get_ylim()} {cps.xrange} {cps.yrange}')
        if len(pd) == 1: R.expect(near(w / dx, max(pd[0], 1), 1e-6), 'print-scale', lambda: f'{what}: {w} cm for {dx} decades')
        elif s['pr'] == 'hart': R.expect(near(w, pd[0], 1e-6), 'print-size', lambda: f'{what}: {w}')
        else:
            R.expect((w <= pd[0] * 1.000001 and h <= pd[1] * 1.000001) or near(w / dx, 1, 1e-6) or near(h / dy, 1, 1e-6), 'print-size', lambda: f'{what}: {w} x {h} cm')
        asp = {'cum': 1, 'rpl': 1, 'diff': 2}.get(s['pr'])
        if asp: R.expect(near(w / dx, asp * h / dy, 1e-6), 'print-scale', lambda: f'{what}: {w / dx} cm/decade across, {h / dy} up')
    elif len(pd) == 2 and s['pr'] == 'seq':
        R.expect(near(w, pd[0], 1e-6) and near(h, pd[1], 1e-6), 'print-size', lambda: f'{what}: {w} x {h}')
    yt, xt = ax.get_ylabel(), ax.get_xlabel()
    name = {'cum': ('Cumulative', 'km$^{-2}$'), 'diff': ('Differential', 'km$^{-3}$'), 'rpl': ('Relative', 'R'), 'hart': ('-bin (equivalent)', 'km$^{-2}$'), 'chron': ('N(>0.5 km)', 'km$^{-2}$'), 'rate': ('N(>0.5 km)', 'Ga$^{-1}$')}.get(s['pr'])
    if name:
        R.expect(all(e in yt for e in name), 'axis-title', lambda: f'{what}: {yt!r}')
        R.expect(xt == ('Diameter' if s['pr'] in LONG else 'Age, Ga'), 'axis-title', lambda: f'{what}: {xt!r}')
    if s['pr'] in LONG:
        tv, lb = list(ax.get_xticks()), [t.get_text() for t in ax.get_xticklabels()]
        lo, hi = ax.get_xlim()
        inside = [(t, l) for t, l in zip(tv, lb) if lo - 1e-9 <= t <= hi + 1e-9]
        if s['st'] == 'natural' and s['pr'] != 'hart':
            want = [e for e in range(math.ceil(lo - 1e-9), math.floor(hi + 1e-9) + 1)]
            R.expect(len(inside) == len(want) and all(abs(t - e) < 1e-9 for (t, l), e in zip(inside, want)), 'ticks', lambda: f'{what}: {inside}')
            for t, l in inside:
                d = decode(l)
                R.expect(d is not None and near(d, 10 ** t, 1e-6), 'tick-label', lambda: f'{what}: {10 ** t} km labelled {l!r}')
            # the minor ticks stand at multiples of powers of ten
            minor = [a for a in cps.fig.axes if a is not ax and a.get_xscale() == 'log']
            R.expect(len(minor) == 1, 'minor-ticks', what)
            R.expect(core.close([math.log10(v) for v in minor[0].get_xlim()], [lo, hi], 1e-9) and core.close(list(minor[0].get_position().bounds), list(p.bounds), 1e-9), 'minor-ticks', lambda: f'{what}: {minor[0].get_xlim()} {minor[0].get_position()} {p}')
        else:
            first = True
            R.expect(len(inside) >= 1, 'ticks', lambda: f'{what}: {tv}')
            for t, l in inside:
                m = re.fullmatch(r' *(\d+)(k?m)?', l)
                R.expect(m is not None, 'tick-label', lambda: f'{what}: {l!r}')
                d = 10 ** t
                R.expect(abs(int(m[1]) - (d * 1000 if t < -1e-9 else d)) <= .5 + 1e-9, 'tick-label', lambda: f'{what}: {d} km labelled {l!r}')
                R.expect(abs(t / math.log10(2) - round(t / math.log10(2))) < 1e-9, 'ticks', lambda: f'{what}: {t}')
    if s['pr'] in ('chron', 'rate'):
        ticks = [t for t in ax.get_xticks() if min(ax.get_xlim()) <= t <= max(ax.get_xlim())]
        R.expect(all(abs(t - round(t)) < 1e-9 for t in ticks) and len(ticks) >= 4, 'ticks', lambda: f'{what}: {ticks}')
    R.outcome((round(w, 6), round(h, 6)))

def do_bins(s, R):
    o = dict(OPS[0], binning=s['b'])
    args = ['-pr', s['pr'], '-b', '-style', s['st'], '-p', plottext(o), '-o', 'x']
    r = cli.run(args, wd())
    R.step(); R.trace(); R.state(repr(s))
    R.expect(r.ok and r.saved, 'run-failed', lambda: f'{args}: {r.why()}')
    cps = r.cps
    lo, hi = (10 ** float(v) for v in cps.xrange)
    want = [e for e in ref.edges_between(s['b'], lo, hi) if lo * (1 + 1e-9) < e < hi * (1 - 1e-9)]
    got = {}
    for t in cps.ax.texts:
        m = re.fullmatch(r' ?(\d\.\d*)', t.get_text())
        if m and t.get_rotation() == 90: got.setdefault(round(t.get_position()[0], 9), []).append(float(m[1]))
    xs = sorted(got)
    R.expect(len(xs) == len(want) and all(abs(10 ** a / b - 1) < 1e-6 for a, b in zip(xs, want)), 'bin-labels', lambda: f'{args}: labels at {[10 ** x for x in xs]} expected {want}')
    for x, d in zip(xs, want):
        m = d / 10 ** math.floor(math.log10(d) + 1e-12)
        R.expect(all(abs(v - m) <= .0501 or abs(v * 10 - m) < .51 for v in got[x]), 'bin-label', lambda: f'{args}: {got[x]} at {d}')
    # coloured bands: two of every three bins, each exactly one bin wide
    bands = [(10 ** v[:, 0].min(), 10 ** v[:, 0].max()) for c, v in polys(cps.ax)]
    E = ref.edges_between(s['b'], lo / 4, hi * 4)
    for a, b in bands:
        R.expect(any(near(a, x, 1e-6) and near(b, y, 1e-6) for x, y in zip(E, E[1:])), 'bin-band', lambda: f'{args}: {a} to {b}')
    full = [(x, y) for x, y in zip(E, E[1:]) if lo <= x and y <= hi]
    R.expect(abs(len(bands) - len(full) * 2 / 3) <= 2, 'bin-bands', lambda: f'{args}: {len(bands)} of {len(full)}')
    R.outcome(len(xs))

def do_curve(s, R):
    d = next(e for e in ref.systems() if e['name'] == s['cs'])
    q, c = ref.rpf(d['pf']), ref.rcf(d['cf'])
    args = ['-cs', s['cs'], '-pr', s['pr'], '-ref_diameter', s['ref'], '-o', 'x']
    r = cli.run(args, wd())
    R.step(); R.trace(); R.state(repr(s))
    R.expect(r.ok and r.saved, 'run-failed', lambda: f'{args}: {r.why()}')
    f = c.phi if s['pr'] == 'rate' else c.N
    want = {float(s['ref']), 1.}
    L = cps_legend(r.cps.ax)
    seen = set()
    for l in r.cps.ax.lines:
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        if len(x) < 20: continue
        ok = [e for e in want if all(near(b, f(a) * q.C(e) / q.C(1.), 1e-5) or a <= 0 for a, b in zip(x, y))]
        R.expect(bool(ok), 'curve', lambda: f'{args}: no reference diameter gives {list(zip(x[:3], y[:3]))}')
        lab = l.get_label()
        if not lab.startswith('_'): R.expect(lab == f'N(>{ok[0]:g} km)', 'curve-label', lambda: f'{args}: {lab!r} for {ok}')
        seen.add(ok[0])
    R.expect(seen == want, 'curves', lambda: f'{args}: {seen}')
    R.expect(sorted(L) == (sorted(f'N(>{e:g} km)' for e in want) if len(want) > 1 else []), 'curve-legend', lambda: f'{args}: {L}')
    R.outcome(tuple(sorted(L)))

def cps_legend(ax): return [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []

def do_legend(s, R):
    d = next(e for e in ref.systems() if e['name'] == s['cs'])
    args = ['-cs', s['cs'], '-pr', s['pr'], *(['-ef', s['ef']] if s['ef'] else []), *(['-ep', s['ep']] if s['ep'] else [])]
    for leg in ('f', '0'):
        a = args + ['-legend', leg, *(plotargs([2]) if s['pr'] != 'chron' else []), '-o', 'x']
        r = cli.run(a, wd())
        R.step(); R.state((repr(s), leg))
        R.expect(r.ok and r.saved, 'run-failed', lambda: f'{a}: {r.why()}')
        tx = '\n'.join(t.get_text() for t in r.cps.ax.texts)
        L = [l for l in tx.split('\n') if re.match('(CF|PF|EF|Epochs): ', l)]
        want = []
        if leg == 'f':
            if s['ep']: want.append('Epochs: ' + s['ep'])
            if s['ef'] and s['pr'] != 'seq': want.append('EF: ' + s['ef'])
            want += ['PF: ' + d['pf'], 'CF: ' + d['cf']]
        opt = {'PF: ' + d['pf'], 'EF: ' + str(s['ef'])} if s['pr'] == 'chron' else set()       # not needed to read a chronology plot
        R.expect(set(L) <= set(want) and set(want) - opt <= set(L), 'function-legend', lambda: f'{a}: {L} expected {want}')
    R.trace()
