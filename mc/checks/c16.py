"""Spatial counts: every small region topology with craters on every edge, through every conversion chain, against spherical geometry."""
import contextlib, io, itertools, math, os
import numpy as np
from .. import ref, cli
TECHNIQUE = 'model checking: exhaustive enumeration of region topologies x locations x crater placements x conversion histories (length <= 4) on the real converters; independent spherical geometry as oracle'
RULE = ('regions = {square, hole, two holes, two parts in two records / in one record, hole in each, island in hole, island with hole} x locations (equator, mid latitude, antimeridian, high latitude, south); '
        'craters at 8 signed distances from every edge midpoint and two sizes; chains shp>scc>shp>scc; hand-written .scc with rings in every order; state=(topology, location, radius, file step)')
LIMIT = 300
WKT = 'GEOGCS["Spherical_GCS", DATUM["Sphere", SPHEROID["Sphere", {:.0f}, 0]], PRIMEM["Greenwich", 0], UNIT["Degree", 0.0174532925199433]]'

def sq(x0, y0, x1, y1): return [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]
A, B = sq(0, 0, 6, 5), sq(9, 1, 13, 5)
H1, H2, HB = sq(1, 1, 2.5, 2.5), sq(3.5, 3, 5, 4.2), sq(10.5, 2.5, 12, 4)
BIG, ISL, IH = sq(1, .8, 5, 4.2), sq(2, 1.6, 4, 3.4), sq(2.6, 2.2, 3.3, 2.9)
# records -> parts -> (shell, [holes])
TOPO = {'square': [[(A, [])]], 'hole': [[(A, [H1])]], 'two-holes': [[(A, [H1, H2])]], 'two-records': [[(A, [])], [(B, [])]], 'two-in-one': [[(A, []), (B, [])]],
        'holes-in-each': [[(A, [H2])], [(B, [HB])]], 'holes-in-each-one': [[(A, [H1, H2]), (B, [HB])]], 'island': [[(A, [BIG])], [(ISL, [])]], 'island-first': [[(ISL, [])], [(A, [BIG])]],
        'island-in-one': [[(A, [BIG]), (ISL, [])]], 'island-hole': [[(A, [BIG])], [(ISL, [IH])]], 'triangle': [[([(0, 0), (1, 5), (6, 2)], [])]],
        'concave': [[([(0, 0), (0, 5), (6, 5), (6, 3), (2, 3), (2, 0)], [])]]}
LOC = {'equator': (0, 0), 'north': (20, 47), 'anti': (176, -3), 'high': (-60, 76), 'south': (-179, -58)}
POLE = {'npole': 90, 'spole': -90}       # the pole at local (2.9, 2.7)
DEPTHS = (-1.6, -.994, -.85, -.4, 0., .35, .8, 1.6)

def scenarios(tier):
    radii = (1737.4, 3396.19) if tier == 'quick' else (1737.4, 3396.19, 2439.4, 470., 6371.)
    out = [dict(kind='chain', topo=t, loc=l, R=r, n=4 if tier == 'quick' else 7, d=d) for t in TOPO for l in LOC for r in radii for d in ((.001,) if tier == 'quick' else (.0003, .001, .002)) if not (d > .001 and l == 'high')]
    out += [dict(kind='chain', topo='two-holes', loc='high', R=6371., n=6, d=.002)]
    out += [dict(kind='chain', topo=t, loc=l, R=r, n=4, d=.001, proj='stere') for t in TOPO for l in POLE for r in radii[:2]]
    out += [dict(kind='chain', topo=t, loc=l, R=1737.4, n=2 if tier == 'quick' else 4, d=.001, proj=p) for t in TOPO for l in LOC for p in ('sinu', 'eqc')]
    for t in TOPO:
        rings = sum(1 + len(h) for rec in TOPO[t] for _, h in rec)
        for p in itertools.permutations(range(rings)): out.append(dict(kind='order', topo=t, p=list(p)))
    out += [dict(kind='transform')]
    return out

# ---- geometry on the unit sphere
def vec(p):
    lo, la = math.radians(p[0]), math.radians(p[1])
    return np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
def lonlat(v):
    v = v / np.linalg.norm(v)
    return math.degrees(math.atan2(v[1], v[0])), math.degrees(math.asin(v[2]))
def ring_area(r):
    V = [vec(p) for p in r]
    c = sum(V); c /= np.linalg.norm(c)
    s = 0.
    for a, b in zip(V, V[1:] + V[:1]):
        s += 2 * math.atan2(np.dot(c, np.cross(a, b)), 1 + np.dot(a, b) + np.dot(b, c) + np.dot(c, a))
    return abs(s)
def ang(a, b): return math.atan2(np.linalg.norm(np.cross(a, b)), np.dot(a, b))
def ring_len(r):
    V = [vec(p) for p in r]
    return sum(ang(a, b) for a, b in zip(V, V[1:] + V[:1]))
def shoelace(r):
    V = [vec(p) for p in r]
    c = sum(V)
    return sum(float(np.dot(c, np.cross(a, b))) for a, b in zip(V, V[1:] + V[:1]))
def rim(c, a, n=100):
    """vertices on the small circle of angular radius a"""
    v = vec(c)
    e = np.cross([0, 0, 1.], v); e /= np.linalg.norm(e); f = np.cross(v, e)
    p = [lonlat(math.cos(a) * v + math.sin(a) * (math.cos(t) * e + math.sin(t) * f)) for t in np.linspace(0, -2 * math.pi, n + 1)[:-1]]
    return p + p[:1]

def turn(lat, p):
    """local coordinates, as around (0,0), to the region of a pole"""
    v = vec((p[0] - 2.9, p[1] - 2.7))
    g = math.radians(lat)
    v = np.array([math.cos(g) * v[0] - math.sin(g) * v[2], v[1], math.sin(g) * v[0] + math.cos(g) * v[2]])
    return lonlat(v)

def region(s):
    loc = s.get('loc', 'equator')
    if loc in POLE: mv = lambda r: [turn(POLE[loc], p) for p in r]
    else:
        ox, oy = LOC[loc]
        sc = 1 / math.cos(math.radians(oy))
        mv = lambda r: [(ox + x * sc, oy + y) for x, y in r]
    return [[(mv(sh), [mv(h) for h in hs]) for sh, hs in rec] for rec in TOPO[s['topo']]]

def projection(s):
    """(WKT, function lon/lat -> map coordinates) of the input shapefiles"""
    import pyproj
    m = s['R'] * 1e3
    if 'proj' not in s: return WKT.format(m), lambda r: r
    lat = POLE.get(s['loc'])
    lon = 0 if lat else LOC[s['loc']][0]
    crs = pyproj.CRS({'stere': f'+proj=stere +lat_0={lat} +lon_0=30 +k=1 +x_0=0 +y_0=0 +R={m:.0f} +units=m +no_defs', 'sinu': f'+proj=sinu +lon_0={lon} +R={m:.0f} +units=m +no_defs',
                      'eqc': f'+proj=eqc +lat_ts=30 +lon_0={lon} +R={m:.0f} +units=m +no_defs'}[s['proj']])
    t = pyproj.Transformer.from_crs(crs.geodetic_crs, crs, always_xy=True)
    return crs.to_wkt('WKT1_ESRI'), lambda r: [t.transform(*p) for p in r]

def truth(reg, R):
    rings = [(sh, 1) for rec in reg for sh, hs in rec] + [(h, -1) for rec in reg for sh, hs in rec for h in hs]
    return sum(g * ring_area(r) for r, g in rings) * R * R, sum(ring_len(r) for r, _ in rings) * R

def craters(s, reg, adeg):
    """(lon, lat, angular radius, expected linear fraction); one row per signed distance inwards from each edge midpoint"""
    rings = [(sh, hs, 1) for rec in reg for sh, hs in rec] + [(h, [], -1) for rec in reg for sh, hs in rec for h in hs]
    out = []
    for r, _, sgn in rings:
        V = [vec(p) for p in r]
        for i, (a, b) in enumerate(zip(V, V[1:] + V[:1])):
            m = a + b; m /= np.linalg.norm(m)
            n = np.cross(a, b); n /= np.linalg.norm(n)     # pole of the edge
            mid = lonlat(m)
            side = (1 if shoelace(r) > 0 else -1) * sgn           # a x b points to the left of the edge
            for j, u in enumerate(DEPTHS):
                ar = math.radians(adeg) * (1 if (i + j) % 2 else 1.7)
                d = u * ar * side
                c = lonlat(math.cos(d) * m + math.sin(d) * n)
                out.append((c[0], c[1], ar, min(1., max(0., (1 + u) / 2))))
    return out

def quiet(): return contextlib.redirect_stdout(io.StringIO())

def write_shp(wd, name, reg, cr, proj):
    import shapefile
    cw = lambda r: r[::-1] if sum((x1 - x0) * (y1 + y0) for (x0, y0), (x1, y1) in zip(r, r[1:] + r[:1])) < 0 else r
    wkt, P = proj
    close = lambda r: list(r) + [r[0]]
    a = shapefile.Writer(f'{wd}/{name}_AREA'); a.field('n', 'C')
    for rec in reg:
        a.poly([x for sh, hs in rec for x in [close(cw(P(sh)))] + [close(cw(P(h))[::-1]) for h in hs]]); a.record('x')
    a.close()
    c = shapefile.Writer(f'{wd}/{name}_CRATER'); c.field('n', 'C')
    for lon, lat, ar, _ in cr: c.poly([P(rim((lon, lat), ar))]); c.record('x')
    c.close()
    for f in ('_AREA', '_CRATER'): ref.write(f'{wd}/{name}{f}.prj', wkt)

def judge(R, sc, want, area, per, step, what, frac_tol, diam_tol):
    R.trace()
    R.expect(abs(sc.area / area - 1) < 1e-9, 'area', lambda: f'{sc.area} expected {area}; {what()}')
    R.expect(abs(sc.perimeter / per - 1) < 1e-9, 'perimeter', lambda: f'{sc.perimeter} expected {per}; {what()}')
    P = np.array([vec((x, y)) for x, y in zip(sc.lon, sc.lat)])
    R.expect(len(P) == len(want) and len(sc.diam) == len(want) == len(sc.fraction), 'crater-number', lambda: f'{len(P)} craters expected {len(want)}; {what()}')
    rad = sc.planetary_radius
    used = set()
    for lon, lat, ar, f in want:
        dist = np.linalg.norm(P - vec((lon, lat)), axis=1)
        k = int(np.argmin(dist))
        R.expect(dist[k] < .002 * ar and k not in used, 'position', lambda: f'crater at {lon},{lat} (radius {ar}) nearest found at {dist[k] / ar} radii; {what()}')
        used.add(k)
        d = 2 * ar * rad
        R.expect(abs(sc.diam[k] / d - 1) < diam_tol, 'diameter', lambda: f'{sc.diam[k]} expected {d}; {what()}')
        g = float(sc.fraction[k])
        R.expect(g == 1. if f == 1. else 0 < g and abs(g - f) < frac_tol, 'fraction', lambda: f'crater at {lon},{lat}: {g} expected {f}; {what()}')

def run(s, R):
    import craterstats as cst
    if s['kind'] == 'order': return order(s, R)
    if s['kind'] == 'transform': return transform(R)
    wd = cli.fresh_dir('c16')
    reg = region(s)
    area, per = truth(reg, s['R'])
    cr = craters(s, reg, math.degrees(s['d']))
    write_shp(wd, 't0', reg, cr, projection(s))
    want = [c for c in cr if c[3] > 0]
    cur = 't0_CRATER.shp'
    old = os.getcwd(); os.chdir(wd)
    try:
        for n in range(s['n']):
            with quiet(): sc = cst.Spatialcount(cur)
            R.state((s['topo'], s['loc'], s['R'], s['d'], s.get('proj'), n))
            judge(R, sc, want, area, per, n, lambda: f'{s} step {n} {cur}', .012, 5e-4 * (1 + n // 2))
            with quiet(): cc = cst.Cratercount(cur)
            tol = 1e-9 if cur.endswith('.shp') else 1e-5
            R.expect(abs(cc.area / area - 1) < tol and cc.perimeter is not None and abs(cc.perimeter / per - 1) < tol, 'count-area', lambda: f'{cc.area} {cc.perimeter} expected {area} {per} {s} {cur}')
            R.expect(len(cc.diam) == len(want) and abs(sum(cc.fraction) - sum(c[3] for c in want)) < .012 * len(want), 'count-craters', lambda: f'{len(cc.diam)} {sum(cc.fraction)} {s} {cur}')
            if cur.endswith('.scc'):
                a, b = sorted(zip(map(float, cc.diam), map(float, cc.fraction))), sorted(zip(map(float, sc.diam), map(float, sc.fraction)))
                R.expect(a == b, 'count-and-spatial-count-differ', lambda: f'{[x for x in zip(a, b) if x[0] != x[1]][:3]} {s}')
            R.outcome((len(cc.diam), round(cc.area, 3)))
            nxt = f't{n + 1}'
            if cur.endswith('.shp'): r = cli.run(['--convert', 'scc', cur, '-o', nxt], wd); new = nxt + '.scc'
            else: r = cli.run(['--convert', 'shp', cur, '-o', nxt], wd); new = nxt + '_CRATER.shp'
            R.step()
            if not os.path.exists(new):     # written under another name: property C20
                alt = [f for f in (cur.replace('_CRATER.shp', '.scc'), os.path.splitext(cur)[0] + '_CRATER.shp') if os.path.exists(f) and f != cur]
                R.expect(bool(alt), 'conversion-failed', lambda: f'{s} {cur}: {r.why()} {sorted(os.listdir(wd))}')
                new = alt[0]
            R.expect(r.ok, 'conversion-failed', lambda: f'{s} {cur}: {r.why()}')
            cur = new
    finally: os.chdir(old)

def order(s, R):
    """hand-written .scc with the rings in any order"""
    import craterstats as cst
    reg = region(dict(topo=s['topo']))
    rad = 1737.4
    area, per = truth(reg, rad)
    rings = [(r, t) for rec in reg for sh, hs in rec for r, t in [(sh, 'ext')] + [(h, 'int') for h in hs]]
    lines, k = [], 1
    for i, j in enumerate(s['p'], 1):
        r, t = rings[j]
        for x, y in r + r[:1]: lines.append(f'{k}\t{i}\t{t}\t{x!r}\t{y!r}'); k += 1
    ref.write('o.scc', f'a_axis_radius = {rad} <km>\nTotal_area = {area:.9g} <km^2>\nunit_boundary = {{vertex, sub_area, tag, lon, lat\n' + '\n'.join(lines) + '\n}\ncrater = {diam, fraction, lon, lat\n1.5 .5 0.2 0.2\n1 1 .5 .5\n}\n')
    with quiet(): sc = cst.Spatialcount('o.scc')
    R.step(); R.state(('order', s['topo'], tuple(s['p'])))
    judge(R, sc, [(.2, .2, .75 / rad, .5), (.5, .5, .5 / rad, 1.)], area, per, 0, lambda: str(s), 1e-9, 1e-9)

def transform(R):
    """area fraction of a disc cut by a chord -> penetrated fraction of the diameter"""
    import craterstats as cst
    t = cst.fractional_crater_transform()
    last = -1
    for i in range(2001):
        x = i / 2000
        h = 1 - 2 * x
        af = (math.acos(h) - h * math.sqrt(max(0, 1 - h * h))) / math.pi
        g = float(t.af2lf(af)); R.step(); R.state(('af', i))
        R.expect(abs(g - x) < .004 and g >= last and 0 <= g <= 1, 'fraction-transform', lambda: f'area fraction {af}: {g} expected {x}')
        last = g
    R.expect(float(t.af2lf(0)) == 0 and float(t.af2lf(1)) == 1, 'fraction-transform-ends')
    R.trace()
