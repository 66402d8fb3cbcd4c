"""Randomness measures: every small configuration of points x search-cell size x order against brute-force distances and half-space clipped regions."""
import contextlib, io, itertools, math, os, sys
import numpy as np
from .. import ref
TECHNIQUE = 'model checking: exhaustive enumeration of point configurations (all subsets of a point grid, sizes 3-6) x cell resolutions x orders x region shapes and locations on the real measures; brute-force distances and half-space clipping as oracle'
RULE = ('configurations = all subsets of size 3..5 (thorough 6) of 9 grid points (one outside the region) in 4 region shapes (box, L, box with hole, two boxes) at 5 locations (HEALPix corner, equator cell edge, antimeridian, high latitude, south) '
        'at 3 region sizes, for 4 search-cell resolutions; orders: as given, reversed, rotated (all permutations for 4 points); state=(location, size, shape, subset, resolution)')
LIMIT = 300
RAD = 1737.4
LOC = {'corner': (0., 41.8103149), 'equator': (45., 0.), 'anti': (180., -20.), 'high': (30., 74.), 'south': (-90., -41.8103149)}
SIZE = {'big': 8., 'mid': .3, 'small': .004}      # degrees
# ring lists in units of half the side: convex pieces to add / subtract, and the shells with holes to write
BOX = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
HOLE = [(-.5, -.2), (.3, -.2), (.3, .6), (-.5, .6)]
LSH = [(-1, -1), (1, -1), (1, .1), (.1, .1), (.1, 1), (-1, 1)]
B1, B2 = [(-1, -1), (-.15, -1), (-.15, 1), (-1, 1)], [(.05, -.9), (1, -.9), (1, 1), (.05, 1)]
SHAPE = {'box': ([BOX], [], [(BOX, [])]),
         'hole': ([BOX], [HOLE], [(BOX, [HOLE])]),
         'L': ([[LSH[0], LSH[1], LSH[2], LSH[3]], [LSH[0], LSH[3], LSH[4], LSH[5]]], [], [(LSH, [])]),
         'two': ([B1, B2], [], [(B1, []), (B2, [])])}
PTS = [(-.72, -.61), (-.05, -.77), (.81, -.66), (-.66, .07), (.21, -.09), (.69, .02), (-.83, .79), (-.21, .71), (1.07, .33)]
EDGE = [(.0, .0), (-.004, .003), (.31, .001), (-.004, -.52), (.5, .5), (-.6, .2)]      # points on the corner of the cells

def mod():
    import craterstats
    return sys.modules['craterstats.Randomnessanalysis']

def place(loc, size, p):
    ox, oy = LOC[loc]
    h = SIZE[size]
    x = ox + p[0] * h / math.cos(math.radians(oy))
    return ((x + 180) % 360 - 180, oy + p[1] * h)

def scenarios(tier):
    """nearest neighbours depend on the search cells, areas on the region"""
    out = []
    q = tier == 'quick'
    for loc in LOC:
        for size in SIZE:
            for trials in (10, 40, 300, 1500) if q else (10, 20, 40, 100, 300, 1500, 4000):
                out.append(dict(kind='grid', m='m2cnd', loc=loc, size=size, shape='box', trials=trials, k=[3, 4] if q else [3, 4, 5, 6]))
                if q: out.append(dict(kind='grid', m='m2cnd', loc=loc, size=size, shape='box', trials=trials, k=[5]))
            for sh in SHAPE: out.append(dict(kind='grid', m='sdaa', loc=loc, size=size, shape=sh, trials=40, k=[4, 5] if q else [4, 5, 6]))
            for trials in (40, 300):
                for m in ('m2cnd', 'sdaa'): out.append(dict(kind='edge', m=m, loc=loc, size=size, shape='box', trials=trials, k=[3, 4, 5]))
    return out

def vec(p):
    lo, la = math.radians(p[0]), math.radians(p[1])
    return np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
def ang(a, b): return math.atan2(np.linalg.norm(np.cross(a, b)), np.dot(a, b))
def ring_area(V):
    """signed-free area of a convex spherical polygon, accurate for small ones"""
    if len(V) < 3: return 0.
    s = 0.
    a = V[0]
    for b, c in zip(V[1:], V[2:]):
        t = np.dot(a, np.cross(b - a, c - a))
        s += 2 * math.atan2(t, 1 + np.dot(a, b) + np.dot(b, c) + np.dot(c, a))
    return abs(s)
def clip(V, n):
    """part of a convex spherical polygon in the half-space n.x >= 0"""
    out = []
    d = [float(np.dot(n, v)) for v in V]
    for i, v in enumerate(V):
        w, e = V[(i + 1) % len(V)], d[(i + 1) % len(V)]
        if d[i] >= 0: out.append(v)
        if (d[i] >= 0) != (e >= 0):
            x = v * (e / (e - d[i])) + w * (d[i] / (d[i] - e))
            out.append(x / np.linalg.norm(x))
    return out
def cell_areas(P, plus, minus):
    out = []
    for i, p in enumerate(P):
        a = 0.
        for rings, g in ((plus, 1), (minus, -1)):
            for V in rings:
                for j, q in enumerate(P):
                    if j != i: V = clip(V, p - q)
                    if len(V) < 3: break
                a += g * ring_area(V)
        out.append(a * RAD * RAD)
    return out

_ra = {}
def analysis(s):
    k = (s['loc'], s['size'], s['shape'])
    if k not in _ra:
        import craterstats as cst
        ln, v = [], 1
        sub = 0
        for sh, hs in SHAPE[s['shape']][2]:
            for r, t in [(sh, 'ext')] + [(h, 'int') for h in hs]:
                sub += 1
                for x, y in [place(s['loc'], s['size'], p) for p in r + r[:1]]: ln.append(f'{v}\t{sub}\t{t}\t{x!r}\t{y!r}'); v += 1
        x, y = place(s['loc'], s['size'], (0, 0))
        ref.write(f'c26-{os.getpid()}.scc', f'a_axis_radius = {RAD} <km>\nunit_boundary = {{vertex, sub_area, tag, lon, lat\n' + '\n'.join(ln) + f'\n}}\ncrater = {{diam, fraction, lon, lat\n1\t1\t{x!r}\t{y!r}\n}}\n')
        with contextlib.redirect_stdout(io.StringIO()): _ra[k] = cst.Randomnessanalysis(f'c26-{os.getpid()}.scc')
    return _ra[k]

def run(s, R):
    import spherely as sph, astropy.units as u
    RA = mod()
    ra = analysis(s)
    ra.establish_hpx(s['trials'])
    pp = {m: ra.self_pp(s['trials'], m) for m in ('m2cnd', 'sdaa')}
    T = lambda r: [vec(place(s['loc'], s['size'], p)) for p in r]
    plus, minus, _ = SHAPE[s['shape']]
    plus, minus = [T(r) for r in plus], [T(r) for r in minus]
    total = (sum(map(ring_area, plus)) - sum(map(ring_area, minus))) * RAD * RAD
    R.expect(abs(ra.area / total - 1) < 1e-7, 'area', lambda: f'{ra.area} {total} {s}')
    ll = [place(s['loc'], s['size'], p) for p in (PTS if s['kind'] == 'grid' else EDGE)]
    points = [sph.create_point(longitude=x, latitude=y) for x, y in ll]
    V = [vec(p) for p in ll]
    ids = [ra.hp.lonlat_to_healpix(x * u.deg, y * u.deg) for x, y in ll]
    D = [[ang(a, b) * RAD for b in V] for a in V]
    def evaluate(order, m):
        p, h, d = [points[i] for i in order], [ids[i] for i in order], {}
        for pt, h0 in zip(p, h): d.setdefault(h0, []).append(pt)
        R.step()
        return RA.evaluate_randomness(pp[m], tuple(p), tuple(h), d)
    for k in s['k']:
        for c in itertools.combinations(range(len(ll)), k):
            R.state((s['m'], s['loc'], s['size'], s['shape'], s['trials'], s['kind'], c))
            R.trace()
            what = lambda: f'points {[ll[i] for i in c]} nside {ra.hp.nside} {s}'
            alt = [c[::-1]] + ([c[1:] + c[:1]] if k != 4 or c[0] + c[1] > 1 else list(itertools.permutations(c))[1:])
            if s['m'] == 'm2cnd':
                want = sum(sorted(D[i][j] for j in c if j != i)[1] for i in c) / k
                got, nb = evaluate(c, 'm2cnd')
                R.expect(abs(got / want - 1) < 1e-7, 'nearest-neighbour', lambda: f'{got} expected {want}; {what()}')
                for i, q in zip(c, nb):
                    e = ang(V[i], vec((sph.get_x(q), sph.get_y(q)))) * RAD
                    w = sorted(D[i][j] for j in c if j != i)[1]
                    R.expect(abs(e / w - 1) < 1e-7, 'neighbour', lambda: f'neighbour of {ll[i]} at {e} expected {w}; {what()}')
                R.outcome(round(got, 9))
                for o in alt: R.expect(abs(evaluate(o, 'm2cnd')[0] / got - 1) < 1e-9, 'depends-on-order', lambda: f'm2cnd {o} {what()}')
            elif k >= 4:
                areas = cell_areas([V[i] for i in c], plus, minus)
                want = float(np.std(areas))
                got, polys = evaluate(c, 'sdaa')
                tol = (1e-4 if s['size'] == 'small' else 1e-6) * total     # regions of 200 m are ill-conditioned on the sphere
                R.expect(abs(got - want) < tol, 'area-measure', lambda: f'{got} expected {want}; {what()}')
                a = [float(sph.area(p, radius=RAD)) for p in polys]
                R.expect(abs(sum(a) - total) < tol, 'regions-do-not-add-up', lambda: f'{a} {total} {what()}')
                for x, y in zip(a, areas): R.expect(abs(x - y) < tol, 'region', lambda: f'{a} expected {areas} {what()}')
                R.outcome(round(got / total, 9))
                for o in alt[:4]: R.expect(abs(evaluate(o, 'sdaa')[0] - got) < tol, 'depends-on-order', lambda: f'sdaa {o} {what()}')
