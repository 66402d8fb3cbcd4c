"""Resurfacing correction: all small counts x ranges x areas x production functions."""
import itertools, math
import numpy as np
from .. import ref
TECHNIQUE = 'model checking: exhaustive enumeration of small binned counts x fit ranges x areas; fixed-point condition of the correction checked by a reference fit'
RULE = ('all vectors of crater numbers {0,1,4} over 5 consecutive bins x all fit ranges over those bins x areas {1e-3,1,1e6} x polynomial and tabular '
        'production functions x binnings; state=(binning,function,numbers,range,area)')
LIMIT = 400
PFS = ('Moon, Neukum (1983)', 'Mars, Hartmann & Daubar (2016)')

def scenarios(tier):
    out = []
    for pf in PFS:
        for b in ('pseudo-log', 'x2') if tier == 'quick' else ref.BINNINGS:
            for v in itertools.product((0, 1, 4), repeat=5):
                if sum(1 for x in v if x) >= 2: out.append(dict(pf=pf, b=b, v=list(v), tier=tier))
            for base in (.05, 1., 8.): out.append(dict(pf=pf, b=b, iso=base, tier=tier))
    return out

def lsq(q, ds, ys):
    w = [y for y in ys]
    return sum(math.log10(y / q.C(d, 0.)) * g for d, y, g in zip(ds, ys, w)) / sum(w)

def run(s, R):
    f, q = ref.pf(s['pf']), ref.rpf(s['pf'])
    b = s['b']
    if 'iso' in s: return iso(s, f, q, R)
    k = ref.index(b, .3)
    B = [(ref.edge(b, k + i), ref.edge(b, k + i + 1)) for i in range(5)]
    ds = [lo * (hi / lo) ** ((j + 1) / (n + 1)) for (lo, hi), n in zip(B, s['v']) for j in range(n)]
    occ = [i for i in range(5) if s['v'][i]]
    prev = {}
    for area in (1., 1e-3, 1e6):
        for i0, i1 in itertools.combinations(range(6), 2):
            if i1 - i0 < 2 and s['tier'] == 'quick': continue
            rng = [B[i0][0] if i0 < 5 else B[4][1], B[i1 - 1][1]]
            sel = [i for i in occ if i0 <= i < i1]
            if not sel: continue
            cc = ref.make_cc(ds, area=area)
            raw = cc.getplotdata('cumulative', b, range=list(rng))
            rawall = cc.getplotdata('cumulative', b, range=list(rng), showall=1)
            cor = cc.getplotdata('cumulative', b, range=list(rng), resurfacing=1, pf=f)
            corall = cc.getplotdata('cumulative', b, range=list(rng), resurfacing=1, showall=1, pf=f)
            again = cc.getplotdata('cumulative', b, range=list(rng))
            R.step(5); R.trace(); R.state((b, s['pf'], tuple(s['v']), i0, i1, area))
            what = lambda: f"pf={s['pf']} binning={b} numbers per bin={s['v']} from {B[0][0]:g} km, range={rng} area={area}: raw {raw['y']} corrected {cor['y']}"
            R.expect(ref.same(ref.norm(again), ref.norm(raw)), 'not-restored', what)
            rows = ref.RefBins(b, ds).rows
            byd = {r[0]: r for r in rows}
            R.expect(len(raw['d']) == len(sel) == len(cor['d']) and len(corall['d']) == len([i for i in occ if i < i1]), 'bins-shown', what)
            adj = float(cor['y'][-1] - raw['y'][-1])
            for c, r in ((cor, raw), (corall, rawall)):
                R.expect(np.allclose(c['y'], r['y'] + adj, rtol=1e-9) and np.allclose(c['d'], r['d'], rtol=1e-12), 'not-constant', what)
                cum = [sum(x[3] for x in rows if x[0] >= d * (1 - 1e-9)) for d in c['d']]
                R.expect(np.allclose(c['err'], c['y'] / np.sqrt(cum), rtol=1e-9), 'error', what)
            R.expect(float(cor['n']) == float(raw['n']) and int(corall['n_event']) == sum(s['v'][:i1]), 'number', what)
            if len(sel) == 1:
                R.expect(adj == 0, 'single-point', what); continue
            ys = [float(y) for y in cor['y']]
            R.expect(min(ys) > 0, 'not-positive', what)
            pred = q.C(float(cor['d'][-1]), lsq(q, [float(d) for d in cor['d']], ys)) - float(raw['y'][-1])
            R.expect(abs(pred - adj) <= 2e-3 * abs(float(raw['y'][-1])), 'not-self-consistent', lambda: f'constant {adj}, prediction of the isochron fitted to the corrected points {pred}; ' + what())
            kk = (i0, i1)
            if area == 1.: prev[kk] = adj
            else: R.expect(abs(adj * area - prev[kk]) <= 2e-3 * float(raw['y'][-1]) * area, 'area-scaling', lambda: f'{adj * area} vs {prev[kk]}; ' + what())
            R.outcome(round(prev[kk], 6))

def iso(s, f, q, R):
    """weights chosen so the cumulative data lie exactly on an isochron"""
    b = s['b']
    k = ref.index(b, s['iso'])
    n = 7
    E = [ref.edge(b, k + i) for i in range(n + 1)]
    for a0 in (-4., -1., 2.):
        for area in (1., 1e4):
            ds = [math.sqrt(E[i] * E[i + 1]) for i in range(n)]
            C = [q.C(e, a0) * area for e in E[:n]] + [0.]
            fr = [C[i] - C[i + 1] for i in range(n)]
            cc = ref.make_cc(ds, fr, area=area)
            for i0 in range(n - 1):
                for i1 in range(i0 + 2, n + 1):
                    rng = [E[i0], E[i1]]
                    raw = cc.getplotdata('cumulative', b, range=list(rng)); cor = cc.getplotdata('cumulative', b, range=list(rng), resurfacing=1, pf=f)
                    R.step(2); R.trace(); R.state(('iso', b, s['pf'], s['iso'], a0, area, i0, i1))
                    R.expect(np.allclose(cor['y'], raw['y'], rtol=1e-4), 'correction-of-isochron', lambda: f"{s} a0={a0} {rng}: raw {raw['y']} corrected {cor['y']}")
