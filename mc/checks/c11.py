"""Buffered Poisson: all systems x ranges x areas x perimeters against direct quadrature; command-level requirement of a perimeter."""
import math, os
import numpy as np
from .. import ref
from .c10 import posterior, percentiles
TECHNIQUE = 'model checking: exhaustive product of systems x diameter ranges x areas x perimeters x crater numbers; direct quadrature and analytic posterior as oracle'
RULE = ('every usable chronology system x 8 diameter ranges (narrow to the whole valid range, and unconstrained) x areas over 8 decades x perimeters (0, negligible, '
        'circle, 10 circles, 1000 circles) x crater numbers; files with and without perimeter in each format; state=(system,range,area,perimeter,k)')
LIMIT = 400
ABS = [(.3, .35), (.3, .6), (.3, 3.), (.05, 5.), (.02, 20.), (1., 100.), (0., math.inf), (0., .5), (2., math.inf)]

def scenarios(tier):
    out = [dict(kind='lam', sys=e['name'], r=i, tier=tier) for e in ref.systems() for i in range(len(ABS))]
    out += [dict(kind='file', i=i) for i in range(6)]
    return out

class CPS: pass
_q = {}
def quad(name, d0, d1):
    k = (name, d0, d1)
    if k not in _q:
        fr = ref.rpf(name)
        n = 4001
        x = np.linspace(math.log(d0), math.log(d1), n)
        d = np.exp(x)
        F = np.array([fr.F(v, 0.) for v in d]) * d
        w = np.ones(n); w[1:-1:2] = 4; w[2:-1:2] = 2
        w *= (x[1] - x[0]) / 3
        _q[k] = [float(np.sum(w * F * g)) for g in (1., d / 2, math.pi * d ** 2 / 4)]
    return _q[k]

def run(s, R):
    import craterstats as cst
    if s['kind'] == 'file': return files(s, R)
    y = next(e for e in ref.systems() if e['name'] == s['sys'])
    f, c, fr, cr = ref.pf(y['pf']), ref.cf(y['cf']), ref.rpf(y['pf']), ref.rcf(y['cf'])
    cps = CPS(); cps.pf, cps.cf, cps.ref_diameter = f, c, 1.
    r0, r1 = ABS[s['r']]
    d0, d1 = max(r0, float(f.range[0])), min(r1, float(f.range[1]))
    if d1 <= d0 * 1.01: return
    I = quad(y['pf'], d0, d1)
    a1 = cr.N(1.)
    mid = min(d0 * 1.05, math.sqrt(d0 * d1))
    for A in [10. ** e for e in range(-3, 7, 1 if s['tier'] == 'thorough' else 3)]:
        circ = 2 * math.sqrt(math.pi * A)
        res = {}
        for p in (0., 1e-9, 1., 10., 1000.):
            P = p * circ
            for k in (0, 1, 4, 25):
                cc = ref.make_cc([mid] * k + [d1 * 1.5], area=A, perimeter=P)
                out = {}
                for typ in ('poisson', 'b-poisson'):
                    cp = cst.Craterplot(cratercount=cc, type=typ, snap=0, range=[repr(r0), repr(r1)], name='x', source='x')
                    cp.calculate_age(cps); R.step()
                    out[typ] = cp
                what = lambda: f"{s['sys']} range={d0:g}-{d1:g} area={A:g} perimeter={P:g} k={k}"
                R.state((s['sys'], s['r'], A, p, k)); R.trace()
                cp = out['b-poisson']
                R.expect(int(cp.n) == k, 'crater-number', lambda: f'{cp.n}; {what()}')
                exp = (A * I[0] + P * I[1] + I[2]) * a1
                got = float(10 ** np.interp(math.log10(a1), np.log10(np.maximum(c.N1(cp.pdf.ts[cp.pdf.dt > 0]), 1e-300)), np.log10(cp.pdf.lam[cp.pdf.dt > 0])))
                R.expect(abs(got / exp - 1) < 5e-3, 'expectation', lambda: f'expectation for 1 Ga {got} instead of {exp}; {what()}')
                for t, q in zip((cp.t[1], cp.t[0], cp.t[2]), percentiles()):
                    n = posterior(k, exp, cr, q)
                    if n is None: continue
                    w = cr.t(n)
                    R.expect(abs(math.log10(max(cr.N(t), 1e-300) / n)) < .007 or abs(t - w) < 3e-3 * max(w, 1e-4), 'age', lambda: f'p={q:.2f} t={t} expected {w}; {what()}')
                tol = 1e-6 if fr.poly else .05     # tabular functions: cumulative and differential tables agree to interpolation accuracy
                tb, tp = float(cp.t[0]), float(out['poisson'].t[0])
                R.expect(tb <= tp * (1 + max(tol, 5e-3)), 'older-than-unbuffered', lambda: f'{tb} > {tp}; {what()}')
                if (P * I[1] + I[2]) < 1e-4 * A * I[0]:
                    R.expect(abs(tb - tp) <= (8e-3 if fr.poly else .05) * tp, 'no-limit', lambda: f'{tb} vs {tp}; {what()}')
                R.outcome((round(tb, 6), round(tp, 6)))
                key = k
                if key in res: R.expect(tb <= res[key] * (1 + 1e-9), 'age-grows-with-perimeter', what)
                res[key] = tb

def files(s, R):
    """the perimeter comes from the file, and is required"""
    import craterstats as cst
    rows = [dict(diameter=d, fraction=1) for d in (.4, .5, .9)]
    y = ref.systems()[0]
    cps = CPS(); cps.pf, cps.cf, cps.ref_diameter = ref.pf(y['pf']), ref.cf(y['cf']), 1.
    scc = lambda per: 'Area_name = "A"\nTotal_area = 12.5 <km^2>\n' + (f'Perimeter = {per} <km>\n' if per else '') + 'crater = {diam, fraction, lon, lat\n' + \
        '\n'.join(f"{r['diameter']} 1 0 0" for r in rows) + '\n}\n'
    cases = [('a.diam', ref.diam_text(12.5, rows), None), ('b.scc', scc(None), None), ('c.scc', scc(14.2), 14.2), ('d.scc', scc(14.2).replace('Perimeter', 'Total_perimeter'), 14.2)]
    if s['i'] >= len(cases):
        src, per = (ref.sample('c1.scc'), None) if s['i'] == 4 else (ref.sample('ECHUS_CHAP_AR1_A.stat'), None)
        cc = cst.Cratercount(src); per = cc.perimeter
        R.expect((per is not None) == (s['i'] == 4), 'perimeter', src)
    else:
        fn, txt, per = cases[s['i']]
        cc = cst.Cratercount(ref.write(fn, txt))
        R.expect(cc.perimeter == per, 'perimeter', f'{fn}: {cc.perimeter}')
    R.step(); R.trace(); R.state(s['i'])
    cp = cst.Craterplot(cratercount=cc, type='b-poisson', snap=0, range=['.3', '2'], name='x', source='x')
    try:
        cp.calculate_age(cps); ok = True
    except SystemExit as e:
        ok = False
        R.expect('perimeter' in str(e.code), 'message', str(e.code))
    R.expect(ok == (per is not None), 'perimeter-required', f'{s} per={per}')
