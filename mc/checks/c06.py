"""Production / equilibrium functions: every function x diameter lattice x a0 alphabet against the definitions."""
import math
import numpy as np
from .. import ref
TECHNIQUE = 'model checking: exhaustive product of functions x diameter lattice x a0 alphabet on the real functions, reference evaluator as oracle'
RULE = ('all production and equilibrium functions of the supplied list plus user-defined polynomial/tabular/cumulative ones (dict, file and text sources); '
        'diameter lattice of n points per decade plus every table node and its neighbours; a0 in {default, 0.0, -0.0, ints, fractions, extremes}; state=(function,d,a0)')
LIMIT = 400
USER = '''production={
 name="u poly"
 coefficients=[-2.5,-3.1,0.2,-.05]
 range=[.01,50]
}
production={
 name="u zero"
 coefficients=[0,-2]
}
production={
 name="u tab"
 type="tabular incremental root-2"
 index_1km=4
 H=[10,6,3.5,1.9,1,.45,.2,.06,.02]
 yrange=[-8,5]
}
equilibrium={
 name="u eq"
 coefficients=[-1.1,-1.83]
}
equilibrium={
 name="u eq0"
 coefficients=[0,-1.83]
}
'''
A0 = [None, 0., -0., 0, -1, -2.5, 1.25, -7.3, 2.]

def scenarios(tier):
    out = []
    for kind, L in (('production', ref.pf_defs()), ('equilibrium', ref.ef_defs())):
        for d in L: out.append(dict(src='list', kind=kind, name=d['name'], tier=tier))
    for src in ('text', 'file', 'dict'):
        for kind, n in (('production', 'u poly'), ('production', 'u zero'), ('production', 'u tab'), ('equilibrium', 'u eq'), ('equilibrium', 'u eq0')):
            out.append(dict(src=src, kind=kind, name=n, tier=tier))
    return out

def get(s):
    import craterstats as cst
    import craterstats.gm as gm
    eq = s['kind'] == 'equilibrium'
    if s['src'] == 'list':
        return cst.Productionfn(ref.functions(), s['name'], equilibrium=eq), ref.RefPF(next(e for e in ref.functions()[s['kind']] if e['name'] == s['name']))
    defs = {'u poly': dict(coefficients=[-2.5, -3.1, .2, -.05], range=[.01, 50]), 'u zero': dict(coefficients=[0, -2]),
            'u tab': dict(H=[10, 6, 3.5, 1.9, 1, .45, .2, .06, .02], index_1km=4), 'u eq': dict(coefficients=[-1.1, -1.83]), 'u eq0': dict(coefficients=[0, -1.83])}
    if s['src'] == 'text': src = USER
    elif s['src'] == 'file': src = ref.write('user.txt', USER)
    else: src = gm.read_textstructure(USER, from_string=True)
    return cst.Productionfn(src, s['name'], equilibrium=eq), ref.RefPF(dict(name=s['name'], **defs[s['name']]))

def run(s, R):
    f, q = get(s)
    R.expect(str(f) == s['name'], 'name', str(f))
    R.expect(ref.same(ref.norm(f.range), list(q.range), 1e-6), 'range', lambda: f"{s['name']}: {f.range} expected {q.range}")
    lo, hi = q.range
    per = 40 if s['tier'] == 'quick' else 400
    n = int(math.log10(hi / lo) * per) + 2
    D = np.logspace(math.log10(lo * (1 + 1e-9)), math.log10(hi * (1 - 1e-9)), n)
    if not q.poly:
        nodes = [10 ** x * (1 + e) for x in q.dmean10 + q.dmin10 for e in (-1e-4, 0, 1e-4)]
        D = np.array(sorted(set(D.tolist() + [x for x in nodes if lo < x < hi])))
    top = hi if q.poly else 10 ** q.dmin10[-1]     # last half bin of a table: constant
    for a0 in A0:
        aa = q.a0 if a0 is None else float(a0)
        got = {p: np.asarray(f.evaluate(p, D, a0), float) for p in ('cumulative', 'differential', 'R-plot', 'Hartmann')}
        R.step(4)
        C, F, RR, H = (got[p] for p in ('cumulative', 'differential', 'R-plot', 'Hartmann'))
        what = lambda: f"{s['name']} a0={a0!r}"
        up = D[:-1][np.where((np.diff(C) > 0) | (np.diff(C) >= 0) & (D[1:] <= top))]
        R.expect(bool(np.all(C > 0)), 'cumulative-not-positive', what)
        if len(up) and a0 is None:
            X = np.logspace(math.log10(max(lo, up.min() / 1.2)), math.log10(min(top, up.max() * 1.2)), 5000)
            x = X[:-1][np.diff(np.asarray(f.evaluate('cumulative', X, a0), float)) >= 0]
            R.fail('cumulative-not-decreasing', f'{what()} rises in {x.min()}..{x.max()} km', f"{s['src']} {s['name']} {x.min():.3g}-{x.max():.3g}")
        want = {p: np.array([g(d, aa) for d in D]) for p, g in (('cumulative', q.C), ('differential', q.F), ('R-plot', q.R), ('Hartmann', q.H))}
        for p in got:
            # tabular forms are interpolated in log space: equal at every point of the lattice to the reference
            tol = 1e-9 if q.poly or p != 'R-plot' else 1e-9
            ok = np.allclose(got[p], want[p], rtol=tol, atol=0)
            i = int(np.argmax(np.abs(got[p] / want[p] - 1)))
            R.expect(ok, 'form-' + p, lambda: f'{what()} {p}({D[i]!r})={got[p][i]!r} expected {want[p][i]!r}')
        if q.poly:   # independent of the reference: derivative by central differences
            h = 1e-5
            num = -(f.evaluate('cumulative', D * (1 + h), a0) - f.evaluate('cumulative', D * (1 - h), a0)) / (2 * h * D)
            R.expect(np.allclose(F, num, rtol=1e-5), 'not-derivative', what)
            R.expect(np.allclose(H, F * D * (2 ** .25 - 2 ** -.25), rtol=1e-9), 'hartmann-form', what)
        else:
            m = np.array([10 ** x for x in q.dmean10[:-1]])
            m = m[(m > lo) & (m < hi)]
            Cm, Fm, Hm = (f.evaluate(p, m, a0) for p in ('cumulative', 'differential', 'Hartmann'))
            r = 2 ** .25
            lo_, hi_ = f.evaluate('cumulative', m / r * (1 + 1e-12), a0), f.evaluate('cumulative', m * r * (1 - 1e-12), a0)
            R.expect(np.allclose(Hm, lo_ - hi_, rtol=1e-6), 'hartmann-not-bin-number', what)
            k = np.log(hi_ / lo_) / np.log(r * r)
            R.expect(np.allclose(Fm, -k * Cm / m, rtol=1e-6), 'not-derivative', what)
        R.expect(np.allclose(RR, F * D ** 3, rtol=1e-6 if not q.poly else 1e-9), 'R-not-F.D3', what)
        base = {p: np.asarray(f.evaluate(p, D, -3.), float) for p in got}
        for p in got:
            R.expect(np.allclose(got[p], base[p] * 10 ** (aa + 3.), rtol=1e-9, atol=0), 'a0-shift', lambda: f'{what()} {p}')
        for p, g in (('cumulative', f.C10), ('differential', f.F10)):
            v = got[p] > 0
            R.expect(np.allclose(g(np.log10(D[v]), aa), np.log10(got[p][v]), rtol=1e-9, atol=1e-9), 'log-form', lambda: f'{what()} {p}')
        for d, y in zip(D[::7], C[::7]):   # one at a time = all at once
            R.step()
            R.expect(abs(float(f.evaluate('cumulative', float(d), a0)) / y - 1) < 1e-12, 'scalar', what)
        g = f.getplotdata('R-plot', None if (a0 is None and q.poly) else aa, range=[lo * 1.0001, min(hi, lo * 100)])
        R.expect(np.allclose(g['y'], [q.R(d, aa) for d in g['d']], rtol=1e-9) and abs(g['d'][0] / (lo * 1.0001) - 1) < 1e-9 and abs(g['d'][-1] / min(hi, lo * 100) - 1) < 1e-5, 'plotdata', what)
        for d in D: R.state((s['src'], s['name'], float(d), repr(a0)))
        R.trace(len(D) * 4)
        R.outcome((s['name'], float(C[0]), float(F[-1])))
    # values outside the valid range are not extrapolated when plotted
    g = f.getplotdata('cumulative', -2., range=[lo / 100, hi * 100])
    R.expect(abs(g['d'][0] / lo - 1) < 1e-5 and abs(g['d'][-1] / hi - 1) < 1e-5, 'clip', lambda: f"{s['name']} {g['d'][[0, -1]]}")

def key(v): return v['kind'] + ' ' + str(v['sub'])
