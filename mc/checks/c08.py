"""Fitting: every production function x point set on an isochron x permutation x scale, plus general fits against a reference minimiser."""
import itertools, math
import numpy as np
from .. import ref
TECHNIQUE = 'model checking: exhaustive product of functions x point sets x orders x scale factors on the real fit; closed-form weighted mean as oracle'
RULE = ('all point subsets (1..4 of 6 diameters inside the range) on isochrons a0 in the alphabet, all their orders up to 4 points, all error patterns over {5%,20%,100%}; '
        'perturbed points against the closed-form weighted least-squares a0; state=(function, form, diameters, order, a0, errors)')
LIMIT = 400

def scenarios(tier):
    out = []
    for d in ref.pf_defs():
        for form in ('cumulative', 'differential'):
            for n in (1, 2, 3, 4) + ((5,) if tier == 'thorough' else ()):
                out.append(dict(pf=d['name'], form=form, n=n, tier=tier))
    return out

def run(s, R):
    f, q = ref.pf(s['pf']), ref.rpf(s['pf'])
    lo, hi = q.range
    if not q.poly: hi = 10 ** q.dmin10[-1]
    G = np.logspace(math.log10(lo * 1.2), math.log10(hi / 1.2), 6)
    shape = q.C if s['form'] == 'cumulative' else q.F
    A = (-3.2, 0., 1.5) if s['tier'] == 'quick' else (-7., -3.2, -1e-3, 0., 1.5, 3.)
    def fit(d, y, e):
        R.step()
        return np.asarray(f.fit(dict(presentation=s['form'], d=np.array(d), y=np.array(y), err=np.array(e))), float)
    for sub in itertools.combinations(range(6), s['n']):
        d0 = [float(G[i]) for i in sub]
        for a in A:
            y0 = [shape(d, a) for d in d0]
            for pat in itertools.product((.05, 1.), repeat=min(s['n'], 3)):
                fr = (list(pat) * 4)[:s['n']]
                e0 = [y * r for y, r in zip(y0, fr)]
                what = lambda: f"{s['pf']} {s['form']} d={d0} a0={a} err={fr}"
                r0 = fit(d0, y0, e0)
                R.state((s['pf'], s['form'], sub, a, pat)); R.trace()
                R.expect(abs(r0[0] - a) < 1e-6, 'not-recovered', lambda: f'fit {r0} expected {a}; {what()}')
                R.expect(r0[1] <= r0[0] <= r0[2], 'limits-not-ordered', lambda: f'{r0} {what()}')
                w = [a + math.log10(1 - .98 * fr[0]), a + math.log10(1 + .98 * fr[0])]
                R.expect(abs(r0[1] - w[0]) < 1e-6 and abs(r0[2] - w[1]) < 1e-6, 'limits', lambda: f'{r0} expected {w}; {what()}')
                for c in (1e-6, 1e-3, 7., 1e4):
                    r = fit(d0, [c * y for y in y0], [c * e for e in e0])
                    R.expect(np.allclose(r - r0, math.log10(c), atol=2e-6), 'scaling', lambda: f'c={c}: {r} from {r0}; {what()}')
            # off the isochron: weighted least squares in log10
            noise = [(1.4, .6, 1.1, .8, 1.3)[i] for i in range(s['n'])]
            y1 = [y * n for y, n in zip(y0, noise)]
            e1 = [y / math.sqrt(k) for y, k in zip(y1, (40, 12, 5, 2, 1))]
            sig = [1 / math.sqrt(y if s['form'] == 'cumulative' else e) for y, e in zip(y1, e1)]
            want = sum((math.log10(y / shape(d, 0.))) / g ** 2 for d, y, g in zip(d0, y1, sig)) / sum(1 / g ** 2 for g in sig)
            for perm in itertools.permutations(range(s['n'])):
                r = fit([d0[i] for i in perm], [y1[i] for i in perm], [e1[i] for i in perm])
                R.expect(abs(r[0] - want) < 1e-5, 'not-least-squares', lambda: f"order {perm}: a0={r[0]} expected {want}; {s['pf']} {s['form']} {d0}")
                R.expect(r[1] <= r[0] <= r[2], 'limits-not-ordered', str(r))
                R.state((s['pf'], s['form'], sub, a, perm)); R.trace()
            R.outcome((s['pf'], s['form'], round(want, 9)))
            if s['n'] == 1:
                R.expect(abs(f.evaluate(s['form'], d0[0], r[0]) / y1[0] - 1) < 1e-5, 'single-point', what)
                for mk in (float, np.float64):
                    r = f.fit(dict(presentation=s['form'], d=mk(d0[0]), y=mk(y1[0]), err=mk(e1[0]))); R.step()
                    R.expect(abs(r[0] - want) < 1e-6, 'scalar', what)
