"""The edges used are consecutive members of the style's fixed grid; counts per grid bin do not depend on other craters."""
import itertools, math
import numpy as np
from .. import ref
from .c01 import alphabet
RULE = ('all crater multisets of size <=3 over an alphabet of bin middles and near-edge values spread over up to 8 decades, all orders, all styles and '
        'offsets; edges compared with the independent grid, counts per grid bin with independent arithmetic; state = (style, offset, multiset)')
LIMIT = 300
OFFS = [0., .5, .25]

def alpha(b, off, tier):
    lo, hi = (1e-3, 1.2e2) if tier == 'quick' else (1e-4, 1.2e3)
    e = ref.edges_between(b, lo, hi, off)
    n = 20 if tier == 'quick' else 70
    step = max(1, len(e) // n)
    a = []
    for i in range(0, len(e) - 1, step):
        a += [math.sqrt(e[i] * e[i + 1]), [e[i] * (1 + 1e-9), e[i + 1] * (1 - 1e-9)][(i // step) % 2]]
    return sorted(a)

def scenarios(tier):
    out = []
    for b in ref.BINNINGS:
        for off in (OFFS if b != 'pseudo-log' else [0.]):
            out += [dict(kind='sets', b=b, off=off, i=i, tier=tier) for i in range(len(alpha(b, off, tier)))]
            out.append(dict(kind='range', b=b, off=off, tier=tier))
    return out

def grid_of(R, b, off, edges, what):
    ks = []
    for x in edges:
        k, dev = ref.nearest_edge(b, float(x), off)
        R.expect(dev < 1e-11, 'edge-off-grid', lambda: f'{x!r} deviates {dev:.3g} from the grid; ' + what())
        ks.append(k)
    R.expect(all(q - p == 1 for p, q in zip(ks, ks[1:])), 'edges-not-consecutive', lambda: f'{ks}; ' + what())
    return ks

def check(b, off, ds, R):
    cc = ref.make_cc(ds)
    cc.apply_binning(b, offset=off)
    R.step(); R.trace(); R.state((b, off, tuple(sorted(ds))))
    B = cc.binned
    edges = list(B['d_min']) + [B['d_max'][-1]]
    what = lambda: f'binning={b} offset={off} diameters={ds} edges={[float(e) for e in edges][:40]} n={list(B["n"])[:40]}'
    ks = grid_of(R, b, off, edges, what)
    R.expect(edges[0] <= min(ds) and edges[-1] > max(ds), 'not-covering', what)
    exp = {}
    for d in ds:
        k = ref.index(b, d, off); exp[k] = exp.get(k, 0) + 1
    got = {k: int(n) for k, n in zip(ks, B['n_event']) if n}
    R.expect(got == exp, 'count-in-grid-bin', lambda: f'expected {exp} got {got}; ' + what())
    R.outcome(tuple(sorted(exp.values())) + (len(edges),))

def run(s, R):
    b, off = s['b'], s['off']
    a = alpha(b, off, s['tier'])
    if s['kind'] == 'range':
        # boundaries displayed for a diameter range
        for i in range(len(a)):
            for j in range(i, len(a)):
                cc = ref.make_cc([1.])
                for expand in (True, False):
                    if not expand and j - i < 3: continue
                    e = cc.generate_bins(b, np.array([a[i], a[j]]), offset=off, expand=expand)
                    R.step(); R.trace()
                    what = lambda: f'generate_bins({b},{[a[i], a[j]]},offset={off},expand={expand}) = {[float(x) for x in e]}'
                    grid_of(R, b, off, e, what)
                    if expand: R.expect(e[0] <= a[i] and e[-1] > a[j], 'not-covering', what)
        return
    i = s['i']
    for j in range(i, len(a)):
        check(b, off, [a[i], a[j]], R)
        if j != i: check(b, off, [a[j], a[i]], R)
        for k in range(j, len(a), 1 if s['tier'] == 'thorough' else 3):
            p = [(i, j, k), (k, i, j), (j, k, i), (i, k, j), (k, j, i), (j, i, k)][(j + k) % 6]
            check(b, off, [a[q] for q in p], R)
