"""Poisson ages: crater selection by every range over boundary alphabets; density and percentiles against the analytic posterior."""
import itertools, math
import numpy as np
from scipy.special import gammainc, gammaincinv, gammaln
from .. import ref
TECHNIQUE = 'model checking: exhaustive product of chronology systems x crater numbers x areas x ranges; analytic truncated-gamma posterior as oracle'
RULE = ('pdf scenarios: every usable chronology system x crater number x area decade x diameter range; selection scenarios: all crater multisets (size <= 3) over '
        'the limits, their neighbours and middles x all binnings x all limit pairs; state=(system,k,area,range) or (binning,craters,range)')
LIMIT = 400

def scenarios(tier):
    ks = [0, 1, 2, 3, 5, 10, 30, 100, 1000, 20000] + ([4, 7, 20, 50, 300, 5000, 10 ** 6] if tier == 'thorough' else [])
    out = [dict(kind='pdf', sys=e['name'], k=k) for e in ref.systems() for k in ks]
    out += [dict(kind='select', b=b, i=i) for b in ref.BINNINGS + ['none'] for i in range(len(ALPHA))]
    out += [dict(kind='extreme', sys=e['name']) for e in ref.systems()]
    out += [dict(kind='prebinned')]
    return out

LIMS = [.5, 1., 1.1, 2.]
ALPHA = sorted({float(x) for l in LIMS for x in (l, np.nextafter(l, 0), np.nextafter(l, 9), l * 1.04)} | {.3, .7, 1.5, 5.})

class CPS: pass

def percentiles(): return [.5 * math.erfc(1 / math.sqrt(2)), .5, 1 - .5 * math.erfc(1 / math.sqrt(2))]

def posterior(k, lam1, cfr, p):
    """t of percentile p of the posterior for uniform prior in N up to N(5 Ga); lam1 = expectation for 1 Ga"""
    unit = lam1 / cfr.N(1.)
    G = gammainc(k + 1, unit * cfr.N(5.))
    if G < 1e-200: return None
    return gammaincinv(k + 1, p * G) / unit      # N

def judge(R, cf_, cfr, k, lam1, pdf, what):
    ts, P, dt = pdf.ts, np.asarray(pdf.pdf, float), pdf.dt
    R.expect(bool(np.all(np.isfinite(P)) and np.all(P >= 0)), 'density', what)
    tot = float(np.sum(P * dt))
    R.expect(abs(tot - 1) < 1e-6 and abs(pdf.cdf[-1] - 1) < 1e-6 and bool(np.all(np.diff(pdf.cdf) >= 0)), 'not-normalised', lambda: f'{tot} {pdf.cdf[-1]}; {what()}')
    m = [float(x) for x in pdf.median1sigma()]
    R.expect(m[1] <= m[0] <= m[2] and all(math.isfinite(x) and 0 <= x <= 5 for x in m), 'percentile-order', lambda: f'{m}; {what()}')
    pp = percentiles()
    for t, p in zip((m[1], m[0], m[2]), pp):
        n = posterior(k, lam1, cfr, p)
        if n is None:
            R.expect(t > 4.9, 'percentile', lambda: f'{t} expected 5; {what()}'); continue
        w = cfr.t(n)
        ok = abs(math.log10(max(cfr.N(t), 1e-300) / n)) < .005 or abs(t - w) < 3e-3 * max(w, 1e-4)
        R.expect(ok, 'percentile', lambda: f'p={p:.3f}: t={t!r} analytic {w!r}; {what()}')
    q = [float(x) for x in pdf.t([.001, .0228, .1587, .5, .8413, .9772, .999])]
    R.expect(all(a <= b for a, b in zip(q, q[1:])), 'percentile-order', lambda: f'{q} {what()}')
    if 0 < k <= 1000:      # shape of the density in the central region
        unit = lam1 / cfr.N(1.)
        G = gammainc(k + 1, unit * cfr.N(5.))
        if G > 1e-6:
            for t in np.linspace(m[1], m[2], 7)[1:-1]:
                if t >= 4.98: continue
                l = unit * cfr.N(t)
                w = math.exp(k * math.log(l) - l - gammaln(k + 1)) * unit * cfr.phi(t) / G
                g = float(pdf.relative_probability(t))
                R.expect(abs(g / w - 1) < .02, 'density-shape', lambda: f'p({t})={g} analytic {w}; {what()}')
    return m

def run(s, R):
    import craterstats as cst
    if s['kind'] == 'select': return select(s, R)
    if s['kind'] == 'prebinned': return prebinned(s, R)
    y = next(e for e in ref.systems() if e['name'] == s['sys'])
    f, c, fr, cr = ref.pf(y['pf']), ref.cf(y['cf']), ref.rpf(y['pf']), ref.rcf(y['cf'])
    lo, hi = fr.range
    rngs = [(lo * (hi / lo) ** a, lo * (hi / lo) ** b) for a, b in ((.1, .6), (.4, .5), (.5, .95))]
    a1 = math.log10(cr.N(1.))
    if s['kind'] == 'extreme':
        for d0, d1 in rngs:
            e1 = fr.C(d0, a1) - fr.C(d1, a1)
            for k, dens in ((2000, .01), (10 ** 6, 1e-4), (10 ** 7, 300.), (3 * 10 ** 7, 1.), (50, 1e-7), (5, 1e-9), (0, 1e8)):
                cc = ref.make_cc([d0] * 3, area=dens / e1)
                pdf = cst.Craterpdf(f, c, cc, [d0, d1], k=k); R.step(); R.trace()
                R.state((s['sys'], k, dens, d0))
                what = lambda: f"{s['sys']} k={k} range={d0:g}-{d1:g} expectation for 1 Ga={dens}"
                judge(R, c, cr, k, dens, pdf, what)
        return
    k = s['k']
    for d0, d1 in rngs:
        e1 = fr.C(d0, a1) - fr.C(d1, a1)
        last = None
        for x in (-4, -3, -2, -1, 0, 1, 2, 3, 4):
            area = max(k, 1) * 10. ** x / e1          # expectation for 1 Ga = k*10^x
            if max(k, 1) * 10. ** x * cr.N(5.) / cr.N(1.) < k / 4 : continue
            cc = ref.make_cc([d0 * (d1 / d0) ** .5] * k + [d1 * 1.01, d0 * .99] if k <= 100 else [d0], area=area)
            pdf = cst.Craterpdf(f, c, cc, [d0, d1], k=None if k <= 100 else k); R.step(); R.trace()
            what = lambda: f"{s['sys']} k={k} range={d0:g}-{d1:g} area={area:g}"
            R.expect(int(pdf.k) == k, 'crater-number', lambda: f'{pdf.k}; {what()}')
            R.state((s['sys'], k, x, d0))
            m = judge(R, c, cr, k, max(k, 1) * 10. ** x, pdf, what)
            R.outcome(tuple(float(f'{v:.6g}') for v in m))
            R.expect(last is None or m[0] <= last + 1e-9, 'age-grows-with-area', lambda: f'{m[0]} after {last}; {what()}')
            last = m[0]
    # more craters never a younger age
    d0, d1 = rngs[0]
    e1 = fr.C(d0, a1) - fr.C(d1, a1)
    last = -1
    for kk in sorted({max(k - 1, 0), k, k + 1, k + 2}):
        pdf = cst.Craterpdf(f, c, ref.make_cc([d0], area=max(k, 1) / e1), [d0, d1], k=kk); R.step()
        t = float(pdf.t(.5))
        R.expect(t >= last - 1e-12, 'age-falls-with-number', lambda: f"{s['sys']} k={kk}: {t} < {last}")
        last = t

def select(s, R):
    import craterstats as cst
    sysn = ref.systems()[0]
    cps = CPS(); cps.pf, cps.cf, cps.ref_diameter = ref.pf(sysn['pf']), ref.cf(sysn['cf']), 1.
    for j in range(s['i'], len(ALPHA)):
        for k in range(j, len(ALPHA), 3):
            ds = [ALPHA[s['i']], ALPHA[j], ALPHA[k]]
            cc = ref.make_cc(ds, [1., .5, 1.], area=100.)
            for l0, l1 in itertools.combinations(LIMS, 2):
                cp = cst.Craterplot(cratercount=cc, type='poisson', binning=s['b'], snap=0, range=[repr(l0), repr(l1)], name='x', source='x')
                cp.calculate_age(cps); R.step(); R.trace()
                want = sum(1 for d in ds if l0 <= d < l1)
                R.state((s['b'], tuple(ds), l0, l1))
                R.expect(int(cp.n) == want and int(cp.pdf.k) == want, 'craters-used', lambda: f"binning={s['b']} craters={ds} range=[{l0},{l1}): used {cp.n} expected {want}")
                m = [float(x) for x in cp.pdf.median1sigma()]
                R.expect(ref.same([float(x) for x in cp.t], m, 1e-12), 'age', str(cp.t))
                R.expect(all(abs(10 ** a / cps.cf.N1(t) - 1) < 1e-9 for a, t in zip(cp.a0, cp.t)), 'a0', str(cp.a0))
                nd = np.ravel(cp.n_d).astype(float)      # best value, or best, low and high values
                R.expect(all(abs(x / cps.pf.evaluate('cumulative', 1., a) - 1) < 1e-9 for x, a in zip(nd, cp.a0)) and len(nd) > 0, 'N(d)', str(cp.n_d))

def prebinned(s, R):
    import craterstats as cst
    sysn = ref.systems()[0]
    f, c = ref.pf(sysn['pf']), ref.cf(sysn['cf'])
    for v in itertools.product((0, 1, 3), repeat=4):
        if sum(1 for x in v if x) < 2: continue
        E = [ref.edge('pseudo-log', ref.index('pseudo-log', 1.01) + i) for i in range(5)]
        ds = [E[i] * 1.02 for i in range(4) for _ in range(v[i])]
        cc0 = ref.make_cc(ds, area=50.)
        cc0.WriteStatFile('p.stat')
        cc = cst.Cratercount('p.stat')
        occ = [i for i in range(4) if v[i]]
        for i0, i1 in itertools.combinations(range(5), 2):
            pdf = cst.Craterpdf(f, c, cc, [E[i0] * (1 - 1e-9), E[i1] * (1 + 1e-9)]); R.step(); R.trace()
            # bins wholly inside the range (a bin of the file extends to the next one listed)
            want = sum(v[i] for n, i in enumerate(occ) if i >= i0 and (E[occ[n + 1]] if n + 1 < len(occ) else cc.binned['d_max'][-1]) <= E[i1] * (1 + 1e-9))
            R.expect(int(pdf.k) == want, 'craters-used', lambda: f'stat bins {v} range {E[i0]}-{E[i1]}: {pdf.k} expected {want}')
            R.state(('stat', v, i0, i1))
            # limits exactly as written in the file
            if float(f'{E[i0]:.5g}') in [float(x) for x in cc.binned['d_min']]:
                pdf = cst.Craterpdf(f, c, cc, [float(f'{E[i0]:.5g}'), E[i1] * (1 + 1e-9)]); R.step(); R.trace()
                R.expect(int(pdf.k) == want, 'craters-used', lambda: f'stat bins {v} range exactly from {E[i0]:.5g} to {E[i1]}: {pdf.k} expected {want}')
