"""Random configurations: every short sequence of random points (with all rejections and erasures) for several cell sizes and regions, against a replay of the definition."""
import contextlib, io, itertools, math, os
import numpy as np
from .. import ref
from .c26 import mod, vec, ang, BOX, HOLE, LSH, B1, B2
TECHNIQUE = 'model checking: controlled random generator; exhaustive enumeration of its outputs (all sequences over a point alphabet) on the real generator of configurations; brute-force replay as oracle'
RULE = ('all sequences of length 5 over 8 points (inside, outside, at 0.3/0.49/0.51/0.7/1.2 diameters from each other across search-cell corners) x n in 1..4 x cell sizes x locations, '
        'sequences also straddling the refill of the point supply; drawing range: a grid of generator outputs per region shape and location (incl. wide, antimeridian and polar); state=(location, cells, n, accepted set after each draw)')
LIMIT = 300
RAD = 1737.4
LOC = {'corner': (0., 41.8103149), 'equator': (45., 0.), 'anti': (180., -20.), 'high': (30., 74.), 'south': (-90., -41.8103149)}
# offsets in units of the diameter, (east, north); the origin is a corner of search cells
A8 = [(0., 0.), (.3, .02), (-.4, -.29), (.49, -.02), (-.2, .68), (.05, -1.2), (9., 0.), (.52, .5)]
FILL = [(-1.7 + 1.13 * i, 2.3 + 1.01 * j) for i in range(3) for j in range(3)]      # well separated points inside
H = 4.5            # half side of the region in diameters: (9, 0) lies outside

def scenarios(tier):
    out = []
    q = tier == 'quick'
    for loc in LOC:
        for trials in (10, 100, 1000) if q else (10, 30, 100, 300, 1000, 3000):
            for n in (1, 2, 3, 4):
                for first in range(8): out.append(dict(kind='seq', loc=loc, trials=trials, n=n, first=first, len=(4 if q else 5), d=1.))
    for n in (3, 4): out += [dict(kind='seq', loc=l, trials=100, n=n, first=f, len=4, d=.004) for l in ('corner', 'anti') for f in (0, 4)]
    out += [dict(kind='range', region=r) for r in REGIONS]
    out += [dict(kind='real', loc=l, shape=sh, trials=t, seed=sd) for l in LOC for sh in ('box', 'hole', 'L', 'two') for t in (10, 300) for sd in ((1, 2) if q else range(8))]
    return out

def box(x0, y0, x1, y1): return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
def cap(lat, n=8, ph=0.): return [((i * 360 / n + ph + 180) % 360 - 180, lat) for i in range(n)]
REGIONS = {'square': [box(10, 10, 14, 13)], 'wide-north': [box(0, 60, 30, 70)], 'wide-south': [box(-40, -75, 0, -62)], 'anti': [box(170, -5, -170, 5)],
           'two-sides-of-anti': [box(165, 0, 175, 8), box(-175, 2, -165, 9)], 'across-and-beside-anti': [box(170, 0, -178, 8), box(-172, 2, -160, 9)],
           'npole': [cap(78)], 'npole-odd': [cap(70, 5, 11)], 'spole': [cap(-80, 6, 30)[::-1]], 'equator-wide': [box(-50, -20, 50, 20)], 'triangle': [[(0, 50), (20, 52), (9, 66)]]}

def write_region(name, shells, holes=(), at=None, diam=1.):
    ln, v, sub = [], 1, 0
    for r, t in [(r, 'ext') for r in shells] + [(h, 'int') for h in holes]:
        sub += 1
        for x, y in r + r[:1]: ln.append(f'{v}\t{sub}\t{t}\t{x!r}\t{y!r}'); v += 1
    x, y = at or shells[0][0]
    ref.write(name, f'a_axis_radius = {RAD} <km>\nunit_boundary = {{vertex, sub_area, tag, lon, lat\n' + '\n'.join(ln) + f'\n}}\ncrater = {{diam, fraction, lon, lat\n{diam!r}\t1\t{x!r}\t{y!r}\n}}\n')

def load(name):
    import craterstats as cst
    with contextlib.redirect_stdout(io.StringIO()): return cst.Randomnessanalysis(name)

def norm(x): return (x + 180) % 360 - 180
def place(loc, p, unit):
    """unit: degrees of one offset"""
    ox, oy = LOC[loc]
    return (norm(ox + p[0] * unit / math.cos(math.radians(oy))), oy + p[1] * unit)

_ra = {}
def analysis(loc, d):
    if (loc, d) not in _ra:
        u = math.degrees(d / RAD)
        f = f'c25-{os.getpid()}.scc'
        write_region(f, [[place(loc, (H * x, H * y), u) for x, y in BOX]], at=LOC[loc])
        _ra[loc, d] = load(f)
    return _ra[loc, d]

class Feed:
    """stands in for the supply of random points"""
    def __init__(self, pts, fill): self.it = itertools.chain(pts, itertools.cycle(fill)); self.calls = []
    def __call__(self, pp, n):
        self.calls.append(int(n))
        if sum(self.calls) > 5000: raise StopIteration
        return iter([next(self.it) for _ in range(int(n))])

def judge(R, ra, pts, ids, hpd, n, d, inside, what):
    import spherely as sph, astropy.units as u
    ll = [(sph.get_x(p), sph.get_y(p)) for p in pts]
    R.expect(len(pts) == n == len(ids), 'number-of-points', lambda: f'{len(pts)} points, {len(ids)} cells for {n}; {what()}')
    for p in ll: R.expect(inside(p), 'outside-region', lambda: f'{p}; {what()}')
    V = [vec(p) for p in ll]
    for a, b in itertools.combinations(range(n), 2):
        R.expect(ang(V[a], V[b]) * RAD > d / 2 * (1 - 1e-9), 'too-close', lambda: f'{ll[a]} {ll[b]}: {ang(V[a], V[b]) * RAD} km; {what()}')
    cells = {}
    for p, (x, y) in zip(pts, ll): cells.setdefault(int(ra.hp.lonlat_to_healpix(x * u.deg, y * u.deg)), []).append((x, y))
    for i, (x, y) in zip(ids, ll): R.expect(int(i) == int(ra.hp.lonlat_to_healpix(x * u.deg, y * u.deg)), 'wrong-cell', lambda: f'{x},{y} in {i}; {what()}')
    got = {int(k): sorted((sph.get_x(p), sph.get_y(p)) for p in v) for k, v in hpd.items() if len(v)}
    R.expect(got == {k: sorted(v) for k, v in cells.items()}, 'index', lambda: f'{got} expected {cells}; {what()}')
    return ll

def run(s, R):
    if s['kind'] == 'range': return drawing_range(s, R)
    if s['kind'] == 'real': return real(s, R)
    RA = mod()
    d = s['d']
    ra = analysis(s['loc'], d)
    u = math.degrees(d / RAD)
    ra.establish_hpx(s['trials'])
    pp = ra.self_pp(s['trials'], 'm2cnd')
    A = [place(s['loc'], p, u) for p in A8]
    F = [place(s['loc'], p, u) for p in FILL]
    VA, VF = [vec(p) for p in A], [vec(p) for p in F]
    out = A[6]
    is_in = lambda p: abs(norm(p[0] - LOC[s['loc']][0])) * math.cos(math.radians(LOC[s['loc']][1])) < H * u and abs(p[1] - LOC[s['loc']][1]) < (H + .01) * u
    def replay(stream, n):
        """definition: points arriving in order, those outside ignored, each erasing earlier ones closer than d/2, until n"""
        keep = []
        for p in stream:
            if p == out: continue
            v = vec(p)
            keep = [q for q in keep if ang(v, vec(q)) * RAD > d / 2] + [p]
            if len(keep) == n: return keep
    z = None
    for tail in itertools.product(range(8), repeat=s['len'] - 1):
        seq = [A[i] for i in (s['first'],) + tail]
        for lead in ((0,) if z is None or tail[0] or tail[1] % 3 else (0, z - 2, z - 1)):
            pts = [out] * lead + seq
            feed = Feed(pts, F)
            real_feed, RA.random_points_pp = getattr(RA, 'random_points_pp', None), feed
            try: r = RA.sprinkle_discs_pp(pp, s['n'], d)
            finally: RA.random_points_pp = real_feed
            R.step()
            what = lambda: f'points drawn {pts[-8:]} after {max(0, len(pts) - 8)} outside, n={s["n"]} nside={ra.hp.nside} {s}'
            if not feed.calls: raise_unused()
            if z is None: z = feed.calls[0]
            ll = judge(R, ra, *r, s['n'], d, is_in, what)
            want = replay(itertools.chain(pts, itertools.cycle(F)), s['n'])
            near = lambda p, q: ang(vec(p), vec(q)) < 1e-9 * d / RAD + 1e-12
            R.expect(all(any(near(p, q) for q in want) for p in ll), 'survivors', lambda: f'{ll} expected {want}; {what()}')
            R.trace()
            R.state((s['loc'], s['d'], s['trials'], s['n'], lead, tuple(sorted(want))))
    R.outcome(s['first'])

def raise_unused():
    from ..core import HarnessError
    raise HarnessError('random_points_pp not used')

def geodesic_samples(shells):
    """points along the edges"""
    for r in shells:
        V = [vec(p) for p in r]
        for a, b in zip(V, V[1:] + V[:1]):
            for t in np.linspace(0, 1, 41):
                v = (1 - t) * a + t * b; v /= np.linalg.norm(v)
                yield math.degrees(math.atan2(v[1], v[0])), math.degrees(math.asin(v[2]))

def drawing_range(s, R):
    """outputs of the uniform generator map onto the sphere by area, over a range which encloses the region"""
    RA = mod()
    f = f'c25r-{os.getpid()}.scc'
    shells = REGIONS[s['region']]
    write_region(f, shells)
    ra = load(f)
    ra.establish_hpx(100)
    pp = ra.self_pp(100, 'm2cnd')
    U = np.linspace(0, 1, 9)
    seen = []
    orig = np.random.uniform
    axis = [None, None]
    def fake(lo=0., hi=1., size=None):
        lo, hi = float(lo), float(hi)
        seen.append((lo, hi))
        i = len(seen) - 1
        return lo + (hi - lo) * axis[i % 2][:int(np.prod(size))] if size is not None else lo + (hi - lo) * axis[i % 2][0]
    grid = [(a, b) for a in U for b in U]
    axis[0], axis[1] = np.array([g[0] for g in grid]), np.array([g[1] for g in grid])
    np.random.uniform = fake
    try: P = [(float(x), float(y)) for x, y in RA.random_points_pp(pp, len(grid))]
    finally: np.random.uniform = orig
    R.step(); R.state(s['region']); R.trace()
    if len(seen) != 2: raise_unused()
    sl = {g: (math.sin(math.radians(y)), x) for g, (x, y) in zip(grid, P)}
    lo, hi = sl[0., 0.], sl[1., 1.]
    dl = hi[1] - lo[1]
    for (a, b), (z, x) in sl.items():      # one generator output moves sin(lat) in proportion, the other the longitude
        ok = any(abs(z - (lo[0] + (hi[0] - lo[0]) * p)) < 1e-9 and abs(x - (lo[1] + dl * q)) < 1e-7 for p, q in ((a, b), (b, a)))
        R.expect(ok, 'not-uniform-by-area', lambda: f'outputs {a},{b} give lon {x}, sin(lat) {z} in range {lo} {hi}; {s}')
    R.expect(0 < dl <= 360 + 1e-9, 'longitude-range', f'{lo} {hi} {s}')
    pole = {'n': 90., 's': -90.}.get(s['region'][0]) if 'pole' in s['region'] else None
    pts = list(geodesic_samples(shells)) + ([(l, pole) for l in range(-180, 180, 10)] if pole else [])
    for x, y in pts:
        k = (x - lo[1]) % 360
        e = 1e-6 / max(1e-9, math.cos(math.radians(y)))
        okx = k <= dl + e or k >= 360 - e
        R.expect(okx and lo[0] - 1e-9 <= math.sin(math.radians(y)) <= hi[0] + 1e-9, 'part-of-the-region-never-drawn',
                 lambda: f'{x},{y} outside longitude {lo[1]}..{hi[1]} latitude {math.degrees(math.asin(lo[0]))}..{math.degrees(math.asin(min(1, hi[0])))}; {s}')
        R.state((s['region'], round(x, 3), round(y, 3)))
    # a real configuration can be drawn
    np.random.seed(3)
    d = math.sqrt(ra.area) / 40
    r = RA.sprinkle_discs_pp(pp, 12, d)
    judge(R, ra, *r, 12, d, lambda p: True, lambda: f'{s} seed 3')

def real(s, R):
    """real generator, every region shape"""
    RA = mod()
    half = 5.
    ox, oy = LOC[s['loc']]
    T = lambda r: [place(s['loc'], p, half) for p in r]
    shells, holes = {'box': ([BOX], []), 'hole': ([BOX], [HOLE]), 'L': ([LSH], []), 'two': ([B1, B2], [])}[s['shape']]
    f = f'c25s-{os.getpid()}.scc'
    write_region(f, [T(r) for r in shells], [T(h) for h in holes])
    ra = load(f)
    ra.establish_hpx(s['trials'])
    pp = ra.self_pp(s['trials'], 'm2cnd')
    rings = [T(r) for r in shells + holes]
    def inside(p):
        """crossings of the meridian towards the pole beyond the region: even-odd over all rings (edges are short)"""
        v, w, c = vec(p), vec((ox + 77., oy - 50.)), 0
        n = np.cross(v, w)
        for r in rings:
            V = [vec(q) for q in r]
            for a, b in zip(V, V[1:] + V[:1]):
                if np.dot(n, a) * np.dot(n, b) < 0:
                    m = np.cross(a, b)
                    if np.dot(m, v) * np.dot(m, w) < 0: c += 1
        return c % 2 == 1
    for n in (3, 5, 12, 40, 150):
        for d in (.5, 5., 20.):
            if n * d * d > .2 * ra.area: continue
            np.random.seed(s['seed'])
            r = RA.sprinkle_discs_pp(pp, n, d); R.step(); R.trace()
            judge(R, ra, *r, n, d, inside, lambda: f'{s} n={n} d={d}')
            R.state((s['loc'], s['shape'], s['trials'], s['seed'], n, d))
