"""Boring reference models, written from the documentation, not from the code."""
import math, bisect
BINNINGS = ['pseudo-log', '20/decade', '10/decade', 'x2', 'root-2', '4th root-2']
MANT = [1., 1.1, 1.2, 1.3, 1.4, 1.5, 1.7, 2., 2.5, 3., 3.5, 4., 4.5, 5., 6., 7., 8., 9.]

def edge(b, k, offset=0.):
    """k-th grid boundary of a style"""
    if b == 'pseudo-log':
        e, m = divmod(k, len(MANT))
        return MANT[m] * 10. ** e
    k = k - offset
    return {'x2': lambda: 2. ** k, 'root-2': lambda: 2. ** (k / 2), '4th root-2': lambda: 2. ** (k / 4),
            '10/decade': lambda: 10. ** (k / 10), '20/decade': lambda: 10. ** (k / 20)}[b]()

_cache = {}
def index(b, d, offset=0.):
    """index of the grid bin containing d, and relative distance to the nearest edge"""
    if b == 'pseudo-log':
        k = math.floor(math.log10(d)) * len(MANT)
        while edge(b, k) > d: k -= 1
        while edge(b, k + 1) <= d: k += 1
    else:
        f = {'x2': 1 / math.log10(2), 'root-2': 2 / math.log10(2), '4th root-2': 4 / math.log10(2), '10/decade': 10., '20/decade': 20.}[b]
        k = math.floor(math.log10(d) * f + offset)
        while edge(b, k, offset) > d: k -= 1
        while edge(b, k + 1, offset) <= d: k += 1
    return k

def nearest_edge(b, x, offset=0.):
    """index of the grid edge nearest to x and its relative deviation"""
    k = index(b, x, offset)
    best = min((k, k + 1), key=lambda j: abs(edge(b, j, offset) / x - 1))
    return best, abs(edge(b, best, offset) / x - 1)

def edges_between(b, lo, hi, offset=0.):
    k = index(b, lo * (1 + 1e-9), offset)
    if edge(b, k, offset) < lo * (1 - 1e-9): k += 1
    out = []
    while edge(b, k, offset) <= hi * (1 + 1e-9):
        out.append(edge(b, k, offset)); k += 1
    return out

def make_cc(d, frac=None, area=1., perimeter=None, name='x'):
    import craterstats as cst
    cc = cst.Cratercount()
    cc.diam = list(d)
    cc.fraction = list(frac) if frac is not None else [1.] * len(d)
    cc.area, cc.perimeter, cc.prebinned = area, perimeter, 0
    cc.filename, cc.name, cc.n_sigma, cc.n_trials = name + '.diam', name, None, None
    return cc

# ---------------------------------------------------------------- functions
_fl = None
def functions():
    global _fl
    if _fl is None:
        import craterstats as cst
        _fl = cst.Functionslist().functions
    return _fl

class RefPF:
    """production function evaluated directly from its definition dict"""
    def __init__(self, df):
        self.name = df['name']
        self.poly = 'H' not in df
        if self.poly:
            self.a = [float(e) for e in df['coefficients']]
            r = df.get('range', ['1e-4', '2e3'])
            self.range = (float(r[0]), float(r[1]))
            self.a0 = self.a[0]
        else:
            h = [float(e) for e in df['H']]
            i1 = int(df['index_1km'])
            c, s = [], 0.
            for e in reversed(h):
                s += e; c.append(s)
            c.reverse()
            self.c10 = [math.log10(e / c[i1]) for e in c]      # normalised so that C(1 km)=1
            self.dmin10 = [math.log10(2.) * (i - i1) / 2 for i in range(len(h))]
            self.dmean10 = [x + math.log10(2.) / 4 for x in self.dmin10]
            self.range = (10 ** self.dmean10[0], 10 ** self.dmean10[-1])
            self.a0 = 0.

    @staticmethod
    def interp(x, xs, ys):
        if x <= xs[0]: return ys[0]
        if x >= xs[-1]: return ys[-1]
        i = bisect.bisect_right(xs, x) - 1
        return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])

    def C(self, d, a0=None):
        a0 = self.a0 if a0 is None else a0
        x = math.log10(d)
        if self.poly:
            p = 0.
            for c in reversed([a0] + self.a[1:]): p = p * x + c
            return 10 ** p
        return 10 ** (self.interp(x, self.dmin10, self.c10) + a0)

    def F(self, d, a0=None):
        a0 = self.a0 if a0 is None else a0
        x = math.log10(d)
        if self.poly:
            dp = 0.
            for i in range(len(self.a) - 1, 0, -1): dp = dp * x + i * self.a[i]
            return -self.C(d, a0) * dp / d
        n = len(self.c10)
        c = [10 ** e for e in self.c10]
        h = [c[i] - (c[i + 1] if i + 1 < n else 0.) for i in range(n)]
        b = math.sqrt(2)
        w0 = 2 ** .25 - 2 ** -.25
        k = [(self.c10[i] - self.c10[i + 1]) / math.log10(b) for i in range(n - 1)]
        k.append(k[-1])
        f10 = [math.log10(h[i] / 10 ** self.dmean10[i] / w0 / bias(b, k[i])) for i in range(n)]
        return 10 ** (self.interp(x, self.dmean10, f10) + a0)

    def R(self, d, a0=None): return self.F(d, a0) * d ** 3

    def H(self, d, a0=None):
        a0 = self.a0 if a0 is None else a0
        if self.poly: return self.F(d, a0) * d * (2 ** .25 - 2 ** -.25)
        n = len(self.c10)
        c = [10 ** e for e in self.c10]
        h = [c[i] - (c[i + 1] if i + 1 < n else 0.) for i in range(n)]
        return 10 ** (self.interp(math.log10(d), self.dmean10, [math.log10(e) for e in h]) + a0)

def bias(beta, k):
    if abs(k) < 1e-5: return 1.
    return (beta ** (k / 2) - beta ** (-k / 2)) / ((math.sqrt(beta) - 1 / math.sqrt(beta)) * k)

class RefCF:
    def __init__(self, df):
        self.p = [float(e) for e in df['coefficients']]
    def N(self, t): return self.p[0] * math.expm1(self.p[1] * t) + self.p[3] * t
    def phi(self, t): return self.p[0] * self.p[1] * math.exp(self.p[1] * t) + self.p[3]
    def t(self, n):
        lo, hi = 0., 5.
        if n <= 0: return 0.
        if n >= self.N(5.): return 5.
        for _ in range(200):
            m = (lo + hi) / 2
            if self.N(m) < n: lo = m
            else: hi = m
        return lo

def pf_defs(): return [e for e in functions()['production']]
def cf_defs(): return [e for e in functions()['chronology'] if 'coefficients' in e]
def ef_defs(): return [e for e in functions()['equilibrium']]
def systems():
    ok = {e['name'] for e in cf_defs()}
    return [e for e in functions()['chronology_system'] if e['cf'] in ok]

_pf, _cf = {}, {}
def pf(name):
    import craterstats as cst
    if name not in _pf: _pf[name] = cst.Productionfn(functions(), name)
    return _pf[name]
def cf(name):
    import craterstats as cst
    if name not in _cf: _cf[name] = cst.Chronologyfn(functions(), name)
    return _cf[name]
def rpf(name): return RefPF(next(e for e in pf_defs() if e['name'] == name))
def rcf(name): return RefCF(next(e for e in cf_defs() if e['name'] == name))

# ---------------------------------------------------------------- binned counts
class RefBins:
    """occupied bins of a crater list: list of (lo, hi, mean, n, weight, cum_n, cum_weight) ascending"""
    def __init__(self, b, ds, fr=None):
        fr = fr or [1.] * len(ds)
        t = {}
        if b == 'none':
            rows = [(d, d, d, 1, f) for d, f in sorted(zip(ds, fr))]
        else:
            for d, f in zip(ds, fr):
                k = index(b, d)
                n, w = t.get(k, (0, 0.))
                t[k] = (n + 1, w + f)
            rows = [(edge(b, k), edge(b, k + 1), math.sqrt(edge(b, k) * edge(b, k + 1)), *t[k]) for k in sorted(t)]
        self.rows = []
        for i, r in enumerate(rows):
            self.rows.append(r + (sum(q[3] for q in rows[i:]), sum(q[4] for q in rows[i:])))

    def present(self, pres, area, rpf=None, rng=None, showall=False, shift=0.):
        out = []
        for lo, hi, m, n, w, cn, cw in self.rows:
            if rng is not None and not ((0 if showall else rng[0]) < m < rng[1]): continue
            if pres == 'cumulative':
                y = cw / area + shift; out.append((lo, y, y / math.sqrt(cn), n, w))
            elif pres == 'incremental':
                y = w / area; out.append((m, y, y / math.sqrt(n), n, w))
            else:
                y = w / (hi - lo) / area
                if pres == 'Hartmann': y *= m * (math.sqrt(2) - 1)
                if pres == 'R-plot': y *= m ** 3
                err = y / math.sqrt(n)
                if pres == 'differential':
                    beta = hi / lo
                    k = -3. if rpf is None else math.log10(rpf.C(m * math.sqrt(beta)) / rpf.C(m / math.sqrt(beta))) / math.log10(beta)
                    y /= bias(beta, k)
                out.append((m, y, err, n, w))
        return out

# ---------------------------------------------------------------- files
def sample(name):
    import craterstats as cst
    return cst.PATH + 'sample/' + name

def write(path, text):
    with open(path, 'w', encoding='utf-8') as f: f.write(text)
    return path

def diam_text(area, rows, cols=('diameter', 'fraction'), perimeter=None, extra=''):
    """rows: list of dicts"""
    s = extra + f'area = {area}\n' + (f'perimeter = {perimeter}\n' if perimeter is not None else '')
    s += 'crater = {' + ', '.join(cols) + '\n'
    return s + '\n'.join('\t'.join(str(r[c]) for c in cols) for r in rows) + '\n}\n'

def norm(x):
    """JSON-able, comparable rendering of results (floats rounded to 12 significant digits)"""
    import numpy as np
    if isinstance(x, dict): return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [norm(v) for v in x]
    if isinstance(x, np.ndarray): return norm(x.tolist())
    if isinstance(x, (bool, np.bool_)): return int(x)
    if isinstance(x, (int, np.integer)): return float(x)
    if isinstance(x, (float, np.floating)): return float(f'{float(x):.12g}')
    return x

def same(a, b, rtol=1e-9):
    import numpy as np
    if isinstance(a, dict): return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], rtol) for k in a)
    if isinstance(a, (list, tuple)): return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(p, q, rtol) for p, q in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= rtol * max(abs(a), abs(b)) or abs(a - b) < 1e-300
    return a == b
