"""Sequence probabilities: all pairs of posteriors against the exact double integral; the -st table for all short overplot lists."""
import itertools, math, os
import numpy as np
from scipy.special import gammainc, gammaln
from .. import ref, cli
TECHNIQUE = 'model checking: exhaustive pairs of posteriors and exhaustive overplot lists (length <= 3) through the command line; double integral as oracle'
RULE = ('pairs: every (k, density ratio) pair over the alphabet for every chronology system; tables: all overplot sequences of length <= 3 over {poisson, b-poisson, '
        'hidden poisson, d-fit, data, second source}; state=(system,kA,kB,ratio) or overplot list')
LIMIT = 400

def scenarios(tier):
    S = ref.systems() if tier == 'thorough' else ref.systems()[::3]
    K = (0, 1, 3, 20, 300) if tier == 'quick' else (0, 1, 2, 3, 8, 20, 100, 300, 2000)
    out = [dict(kind='pair', sys=e['name'], a=a, b=b) for e in S for a in K for b in K]
    ops = 'PBHFDQ'
    L = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    out += [dict(kind='table', ops=''.join(p)) for n in L for p in itertools.product(ops, repeat=n)]
    return out

def exact(ka, la, kb, lb, cr):
    """P(N_A > N_B) for independent truncated gamma posteriors; la, lb: expectation per unit N"""
    n5 = cr.N(5.)
    u = np.linspace(math.log(max(1e-9 / max(la, lb), 1e-300)), math.log(n5), 60001)
    n = np.exp(u)
    f = np.exp((ka + 1) * np.log(la * n) - la * n - gammaln(ka + 1))
    F = gammainc(kb + 1, lb * n) / gammainc(kb + 1, lb * n5)
    w = np.sum(f)
    return float(np.sum(f * F) / w)

def run(s, R):
    import craterstats as cst
    if s['kind'] == 'table': return table(s, R)
    y = next(e for e in ref.systems() if e['name'] == s['sys'])
    f, c, cr = ref.pf(y['pf']), ref.cf(y['cf']), ref.rcf(y['cf'])
    a1 = math.log10(cr.N(1.))
    d0, d1 = float(f.range[0]) * 2, float(f.range[0]) * 8
    e1 = float(f.evaluate('cumulative', d0, a1) - f.evaluate('cumulative', d1, a1))
    for t0 in (.1, 1., 3.5, 4.6):
        for ratio in (.1, .5, .9, 1., 1.2, 4.):
            dens = cr.N(t0) / cr.N(1.)
            A = max(s['a'], .7) / dens            # expectation for 1 Ga, so that median is near t0
            B = max(s['b'], .7) / dens / ratio
            pa = cst.Craterpdf(f, c, ref.make_cc([d0], area=A / e1), [d0, d1], k=s['a'])
            pb = cst.Craterpdf(f, c, ref.make_cc([d0], area=B / e1), [d0, d1], k=s['b'])
            P, Q = float(pa.calculate_sequence_probability(pb)), float(pb.calculate_sequence_probability(pa))
            R.step(2); R.trace(); R.state((s['sys'], s['a'], s['b'], t0, ratio))
            what = lambda: f"{s['sys']} kA={s['a']} kB={s['b']} t0={t0} ratio={ratio}: P(A older)={P} P(B older)={Q}"
            R.expect(-1e-9 <= P <= 1 + 1e-6 and -1e-9 <= Q <= 1 + 1e-6, 'not-a-probability', what)
            R.expect(abs(P + Q - 1) < 1e-4, 'not-complementary', what)
            if s['a'] == s['b'] and ratio == 1.: R.expect(abs(P - .5) < 1e-4, 'identical-not-half', what)
            w = exact(s['a'], A / cr.N(1.), s['b'], B / cr.N(1.), cr)
            R.expect(abs(P - w) < 5e-3, 'double-integral', lambda: f'exact {w}; {what()}')
            R.outcome(round(w, 6))

def table(s, R):
    wd = cli.fresh_dir('c12')
    src = {'P': ref.sample('c1.scc'), 'Q': ref.sample('c2.scc'), 'B': ref.sample('c3.scc'), 'H': ref.sample('c4.scc'), 'F': ref.sample('c5.scc'), 'D': ref.sample('c1.scc')}
    args = ['-cs', 'neukum83', '-pr', 'seq', '-f', 'csv', '-o', 'x', '-st']
    vis = []
    nm = lambda i, o: f'n{i}{o}' + (', east' if o == 'Q' else '')      # a name with a separator
    for i, o in enumerate(s['ops']):
        typ = {'P': 'poisson', 'Q': 'poisson', 'B': 'b-poisson', 'H': 'poisson', 'F': 'd-fit', 'D': 'data'}[o]
        args += ['-p', f"src={src[o]},type={typ},name={nm(i, o)},hide={int(o == 'H')},range=[{.05 + .01 * i:g},1]"]
        if o in 'PQB': vis.append(i)
    r = cli.run(args, wd)
    R.step(); R.trace(); R.state(s['ops'])
    R.expect(r.ok, 'run-failed', r.why)
    f = wd + '/x_sequence.csv'
    if len(vis) < 2:
        return
    R.expect(os.path.exists(f), 'no-table', lambda: f"{s['ops']}: {sorted(os.listdir(wd))}")
    rows = cli.read_csv(f)
    names = [nm(i, s['ops'][i]) for i in vis]
    h = next((j for j, x in enumerate(rows) if x[1:] == names), None)
    R.expect(h is not None, 'columns', lambda: str(rows[:3]))
    T = {}
    for x in rows[h + 1:h + 1 + len(names)]: T[x[0]] = x[1:]
    R.expect(list(T) == names, 'rows', lambda: str(rows))
    pdf = {nm(i, s['ops'][i]): r.cps.craterplot[i].pdf for i in vis}
    for i, a in enumerate(names):          # column: x, row: y, entry P(t(x)>t(y))
        for j, b in enumerate(names):
            if i == j: continue
            w = float(pdf[b].calculate_sequence_probability(pdf[a]))
            g = float(T[a][j])
            R.expect(abs(g - w) <= .051 * min(w, 1) + 1e-9 or abs(g - w) < 5e-3 * 1.01 and w > .1, 'table-value', lambda: f'P({b} older than {a}) printed {g}, calculated {w}')
    # the rows below: medians, their mean, and the probability of a configuration more distant than this one
    P = [r.cps.craterplot[i].pdf for i in vis]
    tm = [float(q.t(.5)) for q in P]
    mean = sum(tm) / len(tm)
    row = {x[0]: x[1:] for x in rows if x}
    g = [float(v) for v in row.get('t_median:', [])]
    R.expect(len(g) == len(tm) and all(abs(a / b - 1) < 5.1e-3 for a, b in zip(g, tm)), 'medians', lambda: f'{g}, calculated {tm}')
    g = [float(v) for v in row.get('mean(t_median):', [])]
    R.expect(len(g) == 1 and abs(g[0] / mean - 1) < 5.1e-4, 'mean', lambda: f'{g}, calculated {mean} from {tm}')
    g = float(next(rows[j + 1] for j, x in enumerate(rows) if x and x[0].startswith('Probability of more distant'))[1])
    w = distant(P, tm, mean, ref.rcf(ref.systems()[0]['cf']))
    R.expect(abs(g - w) < .02 * w + 2e-3, 'distance-probability', lambda: f"{s['ops']}: printed {g}, expected {w} (medians {tm})")
    R.outcome(repr(T))

def distant(P, tm, mean, c):
    """every surface taken to have formed at the mean time: probability that their common time lies where the joint density is below that of the medians found"""
    t = np.concatenate([np.geomspace(1e-9, 5., 40001), np.linspace(1e-4, 5., 60001)]); t.sort()
    a, b, _, l = c.p
    N = a * np.expm1(b * t) + l * t
    J, at = np.zeros(len(t)), 0.
    for p, ti in zip(P, tm):
        j = len(p.ts) // 2
        A = float(p.lam[j]) / c.N(float(p.ts[j])) * c.N(ti) / c.N(mean)
        def ld(x, n): return p.k * np.log(A * n) - A * n + np.log(a * b * np.exp(b * x) + l)
        v = ld(t, N)
        m = v.max()
        norm = np.log(np.trapezoid(np.exp(v - m), t)) + m
        J += v - norm
        at += float(ld(np.array([ti]), np.array([c.N(ti)]))[0]) - norm
    m = J.max()
    q = np.exp(J - m)
    return float(np.trapezoid(np.where(J < at, q, 0), t) / np.trapezoid(q, t))
