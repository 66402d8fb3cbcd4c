"""Every multiset of craters over a boundary-value alphabet, every binning: conservation and membership."""
import itertools, math
import numpy as np
from .. import ref
RULE = ('all multisets (size<=2 over the full alphabet of every grid edge, its neighbours at 1 rounding step and at 1e-9, and bin middles; '
        'size 3 over a reduced alphabet; all fraction vectors over {1,.5,.125}) built by add-crater transitions on the real count; '
        'state = (binning, offset, sorted diameters, fractions)')
LIMIT = 300

def alphabet(b, lo, hi, off=0., step=1, full=True):
    a = []
    e = ref.edges_between(b, lo, hi, off)
    for i, x in enumerate(e[:-1]):
        if i % step: continue
        a += [x, float(np.nextafter(x, 0)), float(np.nextafter(x, 1e9))]
        if full: a += [x * (1 - 1e-9), x * (1 + 1e-9), math.sqrt(x * e[i + 1])]
    return sorted(set(a))

def scenarios(tier):
    out = []
    dec = (1e-3, 1.01e1) if tier == 'quick' else (1e-4, 1.01e3)
    for b in ref.BINNINGS + ['none']:
        for off in ([0., .5] if b not in ('pseudo-log', 'none') else [0.]):
            g = b if b != 'none' else 'x2'
            n = len(alphabet(g, *dec, off))
            out.append(dict(kind='one', b=b, off=off, dec=(1e-5, 1.01e4)))
            out += [dict(kind='pair', b=b, off=off, dec=dec, i=i) for i in range(0, n, 1 if tier == 'thorough' else 2)]
            m = len(red(g, off, tier))
            out += [dict(kind='triple', b=b, off=off, i=i, tier=tier) for i in range(m)]
    out += [dict(kind='decimal', b=b, e=e) for b in ref.BINNINGS for e in range(-4, 3)]
    return out

def red(b, off, tier):
    step = {'20/decade': 9, '10/decade': 5, 'x2': 2, 'root-2': 3, '4th root-2': 7, 'pseudo-log': 5}[b]
    return alphabet(b, .05, 30 if tier == 'quick' else 300, off, step, full=False)

def check(b, off, ds, fr, R):
    cc = ref.make_cc(ds, fr)
    cc.apply_binning(b, offset=off)
    B = cc.binned
    R.step(); R.trace(); R.state((b, off, tuple(sorted(zip(ds, fr)))))
    lo, hi, n, ne = (np.asarray(B[k], float) for k in ('d_min', 'd_max', 'n', 'n_event'))
    what = lambda: f'binning={b} offset={off} diameters={[repr(float(x)) for x in ds]} fractions={list(fr)} edges={lo.tolist()[:40]} n={n.tolist()[:40]} n_event={ne.tolist()[:40]}'
    if b == 'none':
        order = sorted(zip(ds, fr))
        R.expect(lo.tolist() == [x for x, _ in order], 'none-order', what)
        R.expect(sorted(zip(lo.tolist(), n.tolist())) == order, 'none-weights', what)
        R.expect(ne.tolist() == [1] * len(ds), 'none-count', what)
    else:
        R.expect(len(lo) == len(hi) == len(n) == len(ne), 'shape', what)
        R.expect(bool(np.all(lo < hi)) and lo[1:].tolist() == hi[:-1].tolist(), 'not-contiguous', what)
        R.expect(np.allclose(B['bin_width'], hi - lo, rtol=1e-12) and bool(np.all((lo < B['d_mean']) & (B['d_mean'] < hi))), 'bin-geometry', what)
        cnt, wt = [0] * len(lo), [0.] * len(lo)
        for d, f in zip(ds, fr):
            j = [i for i in range(len(lo)) if lo[i] <= d < hi[i]]
            R.expect(len(j) == 1, 'crater-lost', lambda: f'{d!r} is in {len(j)} bins; ' + what())
            cnt[j[0]] += 1; wt[j[0]] += f
        R.expect(ne.tolist() == cnt, 'wrong-bin', lambda: f'expected {cnt}; ' + what())
        R.expect(np.allclose(n, wt, rtol=1e-12, atol=1e-12), 'wrong-weight', lambda: f'expected {wt}; ' + what())
        R.outcome(tuple(cnt))
    # cumulative number: total from that bin upwards
    for v, cv in ((n, B['ncum']), (ne, B['ncum_event'])):
        w = [float(sum(v[i:])) for i in range(len(v))]
        R.expect(np.allclose(np.asarray(cv, float), w, rtol=1e-12, atol=1e-12), 'cumulative', lambda: f'expected {w} got {list(cv)}; ' + what())

def run(s, R):
    b = s['b']; off = s.get('off', 0.)
    if s['kind'] == 'decimal':
        for m in range(10, 1000):
            d = float(f"{m}e{s['e'] - 2}")
            check(b, 0., [d], [1.], R)
        return
    g = b if b != 'none' else 'x2'
    if s['kind'] == 'one':
        for d in alphabet(g, *s['dec'], off):
            for f in (1., .5, .125): check(b, off, [d], [f], R)
        return
    if s['kind'] == 'pair':
        a = alphabet(g, *s['dec'], off)
        for j, d in enumerate(a[s['i']:]):
            check(b, off, [d, a[s['i']]] if j % 2 else [a[s['i']], d], [1., .5] if j % 3 else [1., 1.], R)
        return
    a = red(g, off, s['tier'])
    for j in range(s['i'], len(a)):
        for k in range(j, len(a)):
            check(b, off, [a[j], a[k], a[s['i']]], [(1., .5, .25), (1., 1., 1.), (.25, 1., 1.)][(j + k) % 3], R)
