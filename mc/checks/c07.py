"""Chronology functions: every function x time lattice x density lattice against the definition."""
import math
import numpy as np
from .. import ref
TECHNIQUE = 'model checking: exhaustive product of chronology functions x time/density lattice on the real functions, reference evaluator as oracle'
RULE = ('every chronology function and chronology system of the supplied list, plus user-defined ones from dict, file and text; time lattice: every table node, '
        'its neighbours, cell quarter points, decades down to 1 year, beyond both ends; densities = N(t) and out-of-table values; state=(function,t)')
LIMIT = 400
USER = '''chronology={
 name="u cf"
 coefficients=[2e-13,6.5,0,1e-3]
}
chronology={
 name="u flat"
 coefficients=[0,6.93,0,2e-4]
}
'''
UD = {'u cf': dict(coefficients=[2e-13, 6.5, 0, 1e-3]), 'u flat': dict(coefficients=[0, 6.93, 0, 2e-4])}

def scenarios(tier):
    F = ref.functions()
    out = [dict(src='list', name=e['name'], tier=tier) for e in F['chronology']]
    out += [dict(src=s, name=n, tier=tier) for s in ('text', 'file', 'dict') for n in UD]
    out += [dict(src='system', name=e['name'], tier=tier) for e in F['chronology_system']]
    return out

def get(s):
    import craterstats as cst
    import craterstats.gm as gm
    F = ref.functions()
    if s['src'] in ('list', 'system'):
        n = s['name']
        if s['src'] == 'system':
            e = next(e for e in F['chronology_system'] if e['name'] == n)
            cst.Productionfn(F, e['pf'])
            n = e['cf']
        return cst.Chronologyfn(F, n), RefC(next(e for e in F['chronology'] if e['name'] == n))
    src = USER if s['src'] == 'text' else ref.write('ucf.txt', USER) if s['src'] == 'file' else gm.read_textstructure(USER, from_string=True)
    return cst.Chronologyfn(src, s['name']), RefC(UD[s['name']])

def RefC(d):
    return ref.RefCF(d)

def run(s, R):
    try: f, q = get(s)
    except Exception as e:
        R.fail('unusable', f"{s['name']}: {type(e).__name__} {e}", s['name'])
        return
    if s['src'] == 'system':
        R.state(('system', s['name'])); R.step(); R.trace()
        return
    n = 1000 if s['tier'] == 'quick' else 5000
    nodes = np.linspace(0, 5, 1000)
    T = sorted(set(nodes.tolist() + (nodes[:-1] + .00125).tolist() + (nodes[:-1] + .0037).tolist() + np.nextafter(nodes[1:], 9).clip(0, 5).tolist()
                   + np.linspace(0, 5, n).tolist() + [m * 10. ** e for e in range(-9, 1) for m in (1, 2, 5) if m * 10. ** e <= 5]))
    T = np.array(T)
    N, P, A = np.asarray(f.N1(T), float), np.asarray(f.phi(T), float), np.asarray(f.a0(T[1:]), float)
    R.step(3)
    nm = s['name']
    R.expect(N[0] == 0 and f.N1(0.) == 0, 'not-zero-at-0', nm)
    big = np.diff(T) > 1e-10
    R.expect(bool(np.all(np.diff(N)[big] > 0)), 'not-increasing', nm)
    want = np.array([q.N(t) for t in T])
    i = int(np.argmax(np.abs(N - want) / np.maximum(want, 1e-300)))
    R.expect(np.allclose(N, want, rtol=1e-6, atol=1e-22), 'N1', lambda: f'{nm} N({T[i]})={N[i]} expected {want[i]}')
    R.expect(np.allclose(P, [q.phi(t) for t in T], rtol=1e-9), 'rate', nm)
    h = 1e-5
    TT = T[(T > .01) & (T < 4.99)]
    R.expect(np.allclose(f.phi(TT), (f.N1(TT + h) - f.N1(TT - h)) / (2 * h), rtol=1e-5), 'rate-not-derivative', nm)
    R.expect(np.allclose(A, np.log10(N[1:]), rtol=1e-12, atol=1e-12), 'a0', nm)
    tol = np.maximum(1e-12, np.minimum(.0051, 1e-4 + 0 * T))
    t1 = np.asarray(f.t(n1=N), float)
    t2 = np.asarray(f.t(a0=A), float)
    R.step(2)
    for t, g in ((T, t1), (T[1:], t2)):
        e = np.abs(g - t)
        j = int(np.argmax(e))
        R.expect(bool(np.all(e <= 1e-4)), 'round-trip', lambda: f'{nm}: t={t[j]!r} -> {g[j]!r}')
        small = (t > 0) & (t < .5)
        R.expect(bool(np.all(e[small] <= 1e-3 * t[small])), 'round-trip-relative', lambda: f'{nm} {t[small][e[small] > 1e-3 * t[small]][:3]}')
        R.expect(bool(np.all(np.diff(g) >= -1e-15)), 'not-monotonic', nm)
    nd = np.asarray(f.t(n1=np.array([q.N(t) for t in nodes])), float)
    R.expect(np.allclose(nd, nodes, atol=1e-9), 'table-node', nm)
    x = np.linspace(-25, 5, 3001)
    g = np.asarray(f.t(a0=x), float)
    R.expect(bool(np.all(np.diff(g) >= 0)) and g.min() >= 0 and g.max() <= 5, 'not-monotonic', nm)
    for kw, w in ((dict(n1=0.), 0), (dict(n1=-1.), 0), (dict(n1=q.N(5.) * 1.0001), 5), (dict(n1=1e9), 5), (dict(a0=99.), 5), (dict(a0=-400.), 0), (dict(a0=math.log10(q.N(5.)) + 1e-3), 5)):
        r = float(f.t(**kw)); R.step()
        R.expect(abs(r - w) < 1e-9, 'clamp', lambda: f'{nm} t({kw})={r} expected {w}')
    for a in (-3., -2., 0., 0.0):   # a0=0 is a value too
        r = float(f.t(a0=a)); w = q.t(10 ** a)
        R.expect(abs(r - w) < 1e-4, 'a0-value', lambda: f'{nm} t(a0={a})={r} expected {w}')
    for t, v in zip(T[::37], t1[::37]): R.expect(abs(float(f.t(n1=float(f.N1(float(t))))) - v) < 1e-12, 'scalar', nm); R.step(2)
    for phi in (False, True):
        for lin in (False, True):
            t, y = f.getplotdata(phi=phi, linear=lin)
            R.expect(np.allclose(y, [(q.phi if phi else q.N)(a) for a in t], rtol=1e-5, atol=1e-20) and abs(t[-1] - 5) < 1e-9 and bool(np.all(np.diff(t) > 0)), 'plotdata', nm)
    for t in T: R.state((s['src'], nm, float(t)))
    R.trace(len(T)); R.outcome((nm, float(N[-1])))

def key(v): return v['kind'] + ' ' + str(v['scenario']['src']) + ' ' + str(v['sub'])
