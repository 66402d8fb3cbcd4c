"""Every small count x binning x presentation x range x production function against a plain-Python model of the definitions."""
import itertools, math
import numpy as np
from .. import ref
RULE = ('all crater multisets of size <=3 over 7 diameters (shared, adjacent and distant bins), all fraction patterns, 7 binnings, 5 presentations, '
        'ranges (none, open, inner, single-sided), production functions (none, polynomial, tabular) and areas; state = (multiset, weights, binning, presentation, range, pf)')
LIMIT = 300
PRES = ['cumulative', 'incremental', 'differential', 'R-plot', 'Hartmann']
D = [.0123, .218, .223, 1.02, 1.06, 1.8, 96.]

def pfs(tier):
    n = [e['name'] for e in ref.pf_defs()]
    h = [e['name'] for e in ref.pf_defs() if 'H' in e]
    return [None] + ([n[0], h[0]] if tier == 'quick' else n)

def scenarios(tier):
    sets = [c for k in (1, 2, 3) for c in itertools.combinations_with_replacement(range(len(D)), k)]
    if tier == 'thorough': sets += list(itertools.combinations_with_replacement(range(len(D)), 4))
    return [dict(set=c, b=b, tier=tier) for c in sets for b in ref.BINNINGS + ['none']]

def run(s, R):
    ds = [D[i] for i in s['set']]
    b, tier = s['b'], s['tier']
    for wi, fr in enumerate([[1.] * len(ds), [1., .5, .25, .75][:len(ds)]]):
        rb = ref.RefBins(b, ds, fr)
        e = [r[0] for r in rb.rows]
        rngs = [None, [0., math.inf], [.02, 50.], [rb.rows[0][0] * .999, rb.rows[-1][1] * 1.001]]
        if b != 'none': rngs += [[rb.rows[0][0], rb.rows[0][1]], [rb.rows[-1][0], rb.rows[-1][1]]]
        for area in (1., 3.7e5):
            for pres in PRES:
                if b == 'none' and pres != 'cumulative': continue
                for pn in (pfs(tier) if pres == 'differential' else [None]):
                    cc = ref.make_cc(ds, fr, area)
                    for rng in rngs:
                        kw = {} if rng is None else dict(range=list(rng))
                        r0 = None if rng is None else list(rng)
                        p = cc.getplotdata(pres, b, pf=None if pn is None else ref.pf(pn), **kw)
                        R.step(); R.trace(); R.state((s['set'], wi, b, pres, r0, pn, area))
                        if b == 'none' and rng is not None and rng[1] < math.inf: pass
                        exp = rb.present(pres, area, None if pn is None else ref.rpf(pn), rng)
                        what = lambda: (f'{pres} {b} diameters={ds} fractions={fr} area={area} range={rng} pf={pn}: d={list(p["d"])} y={list(p["y"])} err={list(p["err"])} '
                                        f'n={p["n"]} n_event={p["n_event"]} expected {exp}')
                        R.expect(len(p['d']) == len(p['y']) == len(p['err']) == len(exp), 'points', what)
                        for k, col in ((0, 'd'), (1, 'y'), (2, 'err')):
                            R.expect(np.allclose(p[col], [x[k] for x in exp], rtol=1e-9, atol=0), col, what)
                        R.expect(abs(p['n'] - sum(x[4] for x in exp)) < 1e-9, 'n', what)
                        R.expect(p['n_event'] == sum(x[3] for x in exp), 'n_event', what)
                        R.expect(p['presentation'] == pres, 'label', what)
                        R.outcome(tuple(round(x[1], 12) for x in exp))
                        if exp and b != 'none':
                            bl, bh = p['bin_range']
                            occ = [r for r in rb.rows if rng is None or rng[0] < r[2] < rng[1]]
                            if rng is None:
                                ok = math.isclose(bl, rb.rows[0][0], rel_tol=1e-9) and math.isclose(bh, rb.rows[-1][1], rel_tol=1e-9)
                            else:
                                ok = bl <= occ[0][0] * (1 + 1e-9) and bh >= occ[-1][1] * (1 - 1e-9)
                                if rng[0] > 0: ok &= bl <= rng[0] * (1.003) and bl > rng[0] * .45
                                if rng[1] < math.inf: ok &= bh >= rng[1] / 1.003 and bh < rng[1] * 2.2
                            R.expect(ok, 'bin-range', lambda: f'bin range {p["bin_range"]} ' + what())
    R.sample(s)
