"""Maps and randomness panels: every region topology x location x source form drawn by the real command line; all drawn outlines, craters, grid lines, neighbours, cells and histograms compared with spherical geometry."""
import itertools, math, os, re
import numpy as np
from .. import cli, core, ref
from .c16 import TOPO, LOC, POLE, WKT, region, projection, craters, write_shp, vec, ang, lonlat, ring_area
from .c29 import go, results_file
TECHNIQUE = 'model checking: exhaustive enumeration of region topologies x locations (incl. antimeridian and poles) x body sizes x source forms x crater sets; every drawn artist of the real figure is compared with independent spherical geometry'
RULE = ('maps: 13 topologies x 7 locations x radii x {scc, shp, projected shp} x sizes x titles x formats; randomness panels: saved results of every bin subset x regions x selections x inverted colours; state = (source, options)')
LIMIT = 300
EXTRA = {'hemi': [[([(-60, -50), (-60, 50), (60, 50), (60, -50)], [])]], 'tiny': [[([(0, 0), (0, 2e-4), (3e-4, 2e-4), (3e-4, 0)], [])]]}

def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for t in TOPO:
        for l in [*LOC, *POLE]:
            for src in ('scc', 'shp') + (('stere' if l in POLE else 'sinu'),):
                for r in ((1737.4,) if not deep and (src != 'scc' or t not in ('square', 'two-records')) else (1737.4, 3396.19, .3, 6371.)):
                    out.append(dict(kind='map', topo=t, loc=l, R=r, src=src))
    for t in ('square', 'holes-in-each', 'island', 'two-in-one'):
        for l in ('equator', 'anti', 'npole'):
            for pd in ('7.5x7.5', '4x9', '12x5', '2', '1.5'):
                for title in (None, 'a b', 'x|y|z'):
                    for inv in (0, 1): out.append(dict(kind='map', topo=t, loc=l, R=1737.4, src='scc', pd=pd, title=title, inv=inv, fmt=('png', 'svg', 'pdf')[len(out) % 3]))
    for t in EXTRA:
        for l in LOC: out.append(dict(kind='map', topo=t, loc=l, R=1737.4, src='scc'))
    for n in (0, 1, 2): out += [dict(kind='map', topo=t, loc=l, R=1737.4, src='scc', few=n) for t in ('square', 'island', 'two-records') for l in LOC]
    for t in TOPO:
        for l in [*LOC, *POLE]:
            for sel in ((None, '2') if not deep else (None, '1', '2', '3', '1,3', '0,2')):
                if l in ('equator', 'anti', 'npole') or sel is None or deep: out.append(dict(kind='ra', topo=t, loc=l, sel=sel, inv=int(l == 'south')))
    return out

WD = None
def wd():
    global WD
    if WD is None or not os.path.isdir(WD): WD = cli.fresh_dir('c34')
    return WD

def geometry(s):
    if s['topo'] in EXTRA:
        ox, oy = LOC[s['loc']]
        n = 16 if s['topo'] == 'hemi' else 1       # vertices along the edges
        reg = [[([(ox + a[0] + (b[0] - a[0]) * k / n, max(-85, min(85, oy / (2 if s['topo'] == 'hemi' else 1) + a[1] + (b[1] - a[1]) * k / n))) for a, b in zip(sh, sh[1:] + sh[:1]) for k in range(n)], []) for sh, _ in rec] for rec in EXTRA[s['topo']]]
    else: reg = region(s)
    return [[([lonlat(vec(p)) for p in sh], [[lonlat(vec(p)) for p in h] for h in hs]) for sh, hs in rec] for rec in reg]

def rings_of(reg): return [r for rec in reg for sh, hs in rec for r in [sh] + hs]

def centroid(reg):
    """area vector of the shells less that of the holes (about a point of the region: exact for small ones too)"""
    c = 0
    for rec in reg:
        for sh, hs in rec:
            for k, r in enumerate([sh] + hs):
                V = [np.array(vec(p)) for p in r]
                o = V[0]
                w = 0
                for a, b in zip(V, V[1:] + V[:1]):
                    n = np.cross(a, b - a)        # a x b without cancellation
                    l = np.linalg.norm(n)
                    if l > 0: w = w + math.atan2(l, float(np.dot(a, b))) / 2 * n / l
                c = c + w * (1 if (np.dot(w, sum(V)) > 0) == (k == 0) else -1)
    return c / np.linalg.norm(c)

class Map:
    """orthographic projection about a point, north up"""
    def __init__(self, c, R):
        self.c, self.R = c, R
        lo, la = map(math.radians, lonlat(c))
        self.e = np.array([-math.sin(lo), math.cos(lo), 0.])
        self.n = np.cross(c, self.e)
    def xy(self, p):
        v = vec(p)
        return self.R * float(np.dot(v, self.e)), self.R * float(np.dot(v, self.n))
    def back(self, x, y):
        x, y = x / self.R, y / self.R
        z = math.sqrt(max(0., 1 - x * x - y * y))
        return x * self.e + y * self.n + z * self.c

def inside(reg, Q):
    """of unit vectors Q: within the shells, outside the holes (winding of the ring's directions about the point, on the sphere)"""
    Q = np.atleast_2d(Q)
    e = np.where(abs(Q[:, 2:]) < .9, np.cross([0., 0., 1.], Q), np.cross([1., 0., 0.], Q))
    e /= np.linalg.norm(e, axis=1)[:, None]
    n = np.cross(Q, e)
    t = np.zeros(len(Q))
    for rec in reg:
        for sh, hs in rec:
            for r in [sh] + hs:
                V = np.array([vec(q) for q in r])
                a = np.arctan2(n @ V.T, e @ V.T)
                d = np.roll(a, -1, 1) - a
                t += abs(np.round(((d + np.pi) % (2 * np.pi) - np.pi).sum(1) / (2 * np.pi))) * (1 if r is sh else -1)
    return t > 0

def split(path):
    """closed rings of a compound path, without the repeated first vertex"""
    out = []
    codes = path.codes if path.codes is not None else [1] + [2] * (len(path.vertices) - 1)
    for v, c in zip(path.vertices, codes):
        if c == 1: out.append([])
        if c == 79: continue
        out[-1].append(tuple(map(float, v)))
    return [r[:-1] if len(r) > 1 and r[0] == r[-1] else r for r in out if len(r) > 1]

def winding(rings, P):
    """winding numbers of the points as rendered (non-zero rule), and the distances to the nearest edge"""
    P = np.atleast_2d(np.array(P, float))
    t, best = np.zeros(len(P)), np.full(len(P), math.inf)
    for r in rings:
        a = np.array(r); b = np.roll(a, -1, 0)
        g = np.arctan2(a[:, 1] - P[:, 1:], a[:, 0] - P[:, :1])
        d = np.roll(g, -1, 1) - g
        t += np.round(((d + np.pi) % (2 * np.pi) - np.pi).sum(1) / (2 * np.pi))
        ab = b - a
        L = np.maximum((ab ** 2).sum(1), 1e-300)
        u = np.clip(((P[:, None] - a) * ab).sum(2) / L, 0, 1)
        best = np.minimum(best, np.sqrt((((a + ab * u[:, :, None]) - P[:, None]) ** 2).sum(2)).min(1))
    return t, best

def same_ring(a, b, tol):
    """equal as cyclic sequences in either direction"""
    if len(a) != len(b): return False
    a = np.array(a)
    for c in (np.array(b), np.array(b[::-1])):
        k = int(np.argmin(((c - a[0]) ** 2).sum(1)))
        if np.abs(np.roll(c, -k, 0) - a).max() < tol: return True
    return False

def fill(ax): return [c for c in ax.collections if len(c.get_facecolor()) and c.get_facecolor()[0][3] > 0]
def empty(ax): return [c for c in ax.collections if not (len(c.get_facecolor()) and c.get_facecolor()[0][3] > 0)]

def judge_region(R, ax, reg, mp, what, size):
    drawn = [r for c in fill(ax) for p in c.get_paths() for r in split(p)]
    want = [[mp.xy(p) for p in r] for r in rings_of(reg)]
    R.expect(len(drawn) == len(want), 'rings', lambda: f'{len(drawn)} outlines drawn, the region has {len(want)}; {what()}')
    for w in want:
        R.expect(any(same_ring(g, w, 2e-6 * size + 1e-9 * mp.R) for g in drawn), 'outline', lambda: f'ring {w} not among {drawn}; {what()}')
    # filled where it is counted
    X = np.array([v for r in want for v in r])
    lo, hi = X.min(0), X.max(0)
    groups = [[split(p) for p in c.get_paths()] for c in fill(ax)]
    P = np.array([lo + (hi - lo) * np.array([(i + .37) / 13, (j + .41) / 13]) for i in range(13) for j in range(13)])
    W = [winding(g, P) for c in groups for g in c]
    far = np.min([d for _, d in W], axis=0) >= .02 * size
    got = np.any([t != 0 for t, _ in W], axis=0)
    exp = inside(reg, [mp.back(*p) for p in P])
    for p, f, g, w in zip(P, far, got, exp): R.expect(not f or g == w, 'fill', lambda: f'point {tuple(p)}: filled {g}, counted area {w}; {what()}')
    return drawn

def closed_lines(ax):
    """crater rims; grid lines are drawn in the grid's grey"""
    out = []
    grid = {l.get_color() for l in ax.lines} & {t.get_color() for t in ax.texts if t.get_text().strip().endswith('°')}
    for l in ax.lines:
        if l.get_color() in grid: continue
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        if len(x) > 8 and abs(x[0] - x[-1]) + abs(y[0] - y[-1]) < 1e-9 * (1 + abs(x).max()): out.append((x, y, l))
    return out

def judge_craters(R, ax, cr, mp, what):
    """cr: (lon, lat, angular radius)"""
    L = closed_lines(ax)
    R.expect(len(L) == len(cr), 'crater-number', lambda: f'{len(L)} craters drawn, {len(cr)} counted; {what()}')
    rims = [np.array([mp.back(a, b) for a, b in zip(x[:-1], y[:-1])]) for x, y, _ in L]
    used = set()
    for lon, lat, ar in cr:
        v = np.array(vec((lon, lat)))
        # chord to every rim vertex, as an angle
        best, k = min(((float(np.abs(2 * np.arcsin(np.minimum(1, np.linalg.norm(r - v, axis=1) / 2)) / ar - 1).max()), i) for i, r in enumerate(rims) if i not in used), default=(9, None))
        R.expect(best < 4e-3, 'crater-place', lambda: f'crater at {lon:.6g},{lat:.6g}, radius {math.degrees(ar):.4g} deg: no such circle (nearest differs by {best:.3g} radii); {what()}')
        used.add(k)
        e = np.cross([0., 0., 1.], v) if abs(v[2]) < .9 else np.cross([1., 0., 0.], v)
        t = np.sort(np.arctan2(rims[k] @ np.cross(v, e), rims[k] @ e))
        R.expect(max(np.diff(np.append(t, t[0] + 2 * math.pi))) < .45, 'crater-shape', lambda: f'crater at {lon},{lat}: rim with a gap; {what()}')

def judge_frame(R, ax, drawn, what, margin):
    X = np.array([v for r in drawn for v in r] + [p for x, y, _ in closed_lines(ax) for p in zip(x, y)])
    lo, hi = X.min(0), X.max(0)
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    m = (hi - lo) * margin
    R.expect(core.close([x0, x1, y0, y1], [lo[0] - m[0], hi[0] + m[0], lo[1] - m[1], hi[1] + m[1]], 1e-6), 'frame', lambda: f'axes {x0, x1, y0, y1} contents {lo} {hi}; {what()}')
    R.expect(ax.get_aspect() in ('equal', 1, 1.) and x0 < x1 and y0 < y1, 'scale', lambda: f'{ax.get_aspect()} {x0, x1, y0, y1}; {what()}')

def judge_grid(R, ax, mp, what, size):
    rims = {id(l) for _, _, l in closed_lines(ax)}
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    lines = []
    for l in ax.lines:
        if id(l) in rims: continue
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        R.expect(np.isfinite(x).all() and np.isfinite(y).all() and (np.hypot(x, y) <= mp.R * (1 + 1e-9)).all(), 'grid-off-globe', lambda: f'{x} {y}; {what()}')
        ok = np.hypot(x, y) < mp.R * (1 - 1e-6)
        X = np.concatenate([np.linspace(a, b, 60) for a, b in zip(x, x[1:])]); Y = np.concatenate([np.linspace(a, b, 60) for a, b in zip(y, y[1:])])
        seen = bool(((X >= x0) & (X <= x1) & (Y >= y0) & (Y <= y1)).any())
        lines.append(([lonlat(mp.back(a, b)) for a, b in zip(x[ok], y[ok])], seen))
    labels = [t for t in ax.texts if t.get_text().strip().endswith('°')]
    R.expect(len(labels) == len(lines), 'grid-labels', lambda: f'{len(lines)} grid lines, labels {[t.get_text() for t in labels]}; {what()}')
    kinds = set()
    tol = 1e-6 + 2e-4 * size / mp.R
    for t in labels:
        v = float(t.get_text().strip().rstrip('°'))
        k = 0 if t.get_ha() == 'left' else 1        # meridians are labelled to the right of their lower end
        kinds.add(k)
        hit = [seen for l, seen in lines if l and all(abs((p[k] - v + 180) % 360 - 180 if k == 0 else p[k] - v) < tol or k == 0 and abs(p[1]) > 89.9 for p in l)]
        R.expect(hit and -180 <= v <= 180, 'grid-line', lambda: f'label {t.get_text()!r} ({"longitude" if k == 0 else "latitude"}) has no line; {what()}')
        R.expect(any(hit), 'grid-visible', lambda: f'the line labelled {t.get_text()!r} ({"longitude" if k == 0 else "latitude"}) does not cross the frame {x0, x1, y0, y1}; {what()}')
        px, py = t.get_position()
        R.expect(x0 <= px <= x1 and y0 - .05 * (y1 - y0) <= py <= y1, 'label-place', lambda: f'{t.get_text()!r} at {px, py}; {what()}')
    R.expect(kinds == {0, 1}, 'grid', lambda: f'labels {[t.get_text() for t in labels]}; {what()}')

def write_scc(wd_, name, reg, rad, cr):
    lines, k, i = [], 1, 1
    for rec in reg:
        for sh, hs in rec:
            for r, t in [(sh, 'ext')] + [(h, 'int') for h in hs]:
                for x, y in r + r[:1]: lines.append(f'{k}\t{i}\t{t}\t{x!r}\t{y!r}'); k += 1
                i += 1
    ref.write(f'{wd_}/{name}.scc', f'a_axis_radius = {rad!r} <km>\nTotal_area = 100 <km^2>\nunit_boundary = {{vertex, sub_area, tag, lon, lat\n' + '\n'.join(lines) + '\n}\ncrater = {diam, fraction, lon, lat\n'
              + ''.join(f'{2 * a * rad!r} 1 {lon!r} {lat!r}\n' for lon, lat, a in cr) + '}\n')

def run(s, R):
    if s['kind'] == 'ra': return panels(s, R)
    d = wd()
    for f in os.listdir(d): os.remove(f'{d}/{f}')
    reg = geometry(s)
    c = centroid(reg)
    mp = Map(c, s['R'])
    size = max(np.ptp(np.array([mp.xy(p) for r in rings_of(reg) for p in r]), axis=0))
    a = {'hemi': 2., 'tiny': 1e-5}.get(s['topo'], .05)
    cr = [(lon, lat, ar) for lon, lat, ar, f in craters(s, reg, a) if f > 0]
    if 'few' in s: cr = cr[:s['few']]
    if s['topo'] == 'hemi': cr = cr[::29]
    if s['src'] == 'scc': write_scc(d, 'm', reg, s['R'], cr); src = 'm.scc'
    else:
        write_shp(d, 'm', reg, [x + (1,) for x in cr], projection(dict(s, proj=s['src'])) if s['src'] != 'shp' else (WKT.format(s['R'] * 1e3), lambda r: r)); src = 'm_CRATER.shp'
    fmt = s.get('fmt', 'png')
    args = ['--convert', fmt, src]
    if s.get('pd'): args += ['-pd', s['pd']]
    if s.get('title'): args += ['-title', s['title']]
    if s.get('inv'): args += ['-invert', '1']
    r = cli.run(args, d)
    what = lambda: f'{args} of {s}'
    R.step(); R.trace(); R.state(repr(s))
    R.expect(r.ok and len(r.saved) == 1, 'run-failed', lambda: f'{what()}: {r.why()}')
    fig = r.saved[0][1]
    ax = [x for x in fig.axes if x.collections]
    R.expect(len(ax) == 1, 'axes', what)
    ax = ax[0]
    drawn = judge_region(R, ax, reg, mp, what, size)
    judge_craters(R, ax, cr, mp, what)
    judge_frame(R, ax, drawn, what, .1)
    judge_grid(R, ax, mp, what, size)
    R.expect(ax.get_title() == (s.get('title') or '').replace('|', '\n'), 'title', lambda: f'{ax.get_title()!r}; {what()}')
    R.outcome((len(drawn), len(cr), tuple(t.get_text() for t in ax.texts)))

# ---- randomness panels
BINS = [(-4, 4), (-2.5, 3), (-1., 6)]

def panels(s, R):
    import craterstats          # (the pool control patches loaded modules)
    d = wd()
    for f in os.listdir(d): os.remove(f'{d}/{f}')
    rad = 1737.4
    reg = geometry(s)
    mp = Map(centroid(reg), rad)
    X = np.array([mp.xy(p) for r in rings_of(reg) for p in r])
    lo, hi = X.min(0), X.max(0)
    size = float((hi - lo).max())
    flat = [[mp.xy(v) for v in x] for x in rings_of(reg)]
    pts = []
    for k in range(400):            # a fixed low-discrepancy sequence, those inside the region
        p = lo + (hi - lo) * np.array([(k * .754877666 + .5) % 1, (k * .569840291 + .5) % 1])
        q = lonlat(mp.back(*p))
        if inside(reg, vec(q))[0] and winding(flat, p)[1][0] > .01 * size: pts.append(q)
        if len(pts) == sum(n for _, n in BINS): break
    rows, i = [], 0
    for b, n in BINS:
        for j in range(n): rows.append((b, 2 ** b * (1.02 + .03 * j), *pts[i])); i += 1
    rows = rows[::2] + rows[1::2]
    write_scc(d, 's', reg, rad, [(x, y, dm / 2 / rad) for _, dm, x, y in rows])
    key = lambda b: f'{b:.3g}'
    member = {key(b): [r for r in rows if r[0] == b] for b, _ in BINS}
    near = {}
    for b, rs in member.items():
        V = [vec(r[2:]) for r in rs]
        near[b] = [sorted(range(len(V)), key=lambda j: ang(v, V[j]))[2] for v in V]
    N = 9
    saved = {}
    base = {'m2cnd': {b: sum(ang(vec(rs[i][2:]), vec(rs[near[b][i]][2:])) for i in range(len(rs))) / len(rs) * rad for b, rs in member.items()}, 'sdaa': {b: 30. * (k + 1) for k, b in enumerate(member) if len(member[b]) >= 4}}
    for m in base: saved[m] = (N, {b: [float(f'{a * (.6 + .11 * ((j * 4) % N) + .02 * k):.7g}') for j in range(N)] for k, (b, a) in enumerate(base[m].items())})
    results_file(f'{d}/s_ra.txt', saved)
    args = ['-ra', 's.scc', '-trials', str(N), '-f', 'png'] + (['-select', s['sel']] if s['sel'] else []) + (['-invert', '1'] if s['inv'] else [])
    r = go(args, d, figures=True)
    what = lambda: f'{args} of {s}'
    R.step(); R.trace(); R.state(repr(s))
    R.expect(r.ok, 'run-failed', lambda: f'{what()}: {r.why()}')
    sel = None if s['sel'] is None else [int(x) for x in s['sel'].split(',')]
    for m in saved:
        B = list(saved[m][1])
        pick = B if sel is None else [B[i - 1] for i in sorted(sel) if 1 <= i <= len(B)]
        figs = [f for p, f in r.saved if os.path.basename(p) == f's_ra-{m}.png']
        if not pick: continue
        R.expect(len(figs) == 1, 'figures', lambda: f'{[p for p, _ in r.saved]}; {what()}')
        fig = figs[0]
        head = [(x, int(t.get_text().rsplit('n = ', 1)[1])) for x in fig.axes for t in x.texts if 'n = ' in t.get_text()]
        R.expect(len(head) == len(pick), 'panels', lambda: f'{m}: {len(head)} panels for {pick}; {what()}')
        boxes = [x.get_position() for x, _ in head]
        for a, b in itertools.combinations(boxes, 2): R.expect(a.x1 <= b.x0 + 1e-6 or b.x1 <= a.x0 + 1e-6 or a.y1 <= b.y0 + 1e-6 or b.y1 <= a.y0 + 1e-6, 'panels-overlap', lambda: f'{m}: {a} {b}; {what()}')
        seen = []
        for (pa, n), bx in zip(head, boxes):
            sub = [x for x in fig.axes if x is not pa and bx.x0 - 1e-9 <= (x.get_position(True).x0 + x.get_position(True).x1) / 2 <= bx.x1 + 1e-9 and bx.y0 - 1e-9 <= (x.get_position(True).y0 + x.get_position(True).y1) / 2 <= bx.y1 + 1e-9
                   and (x.patches or fill(x))]
            maps, hist = [x for x in sub if not x.patches], [x for x in sub if x.patches]
            R.expect(len(maps) == 1 and len(hist) == 1, 'panel-parts', lambda: f'{m}: {len(maps)} maps, {len(hist)} histograms; {what()}')
            cand = [b for b in pick if len(member[b]) == n]
            R.expect(len(cand) == 1, 'bin-count', lambda: f'{m}: n = {n}; {what()}')
            b = cand[0]
            seen.append(b)
            w = lambda: f'{m} bin {b} of {what()}'
            judge_panel(R, maps[0], reg, mp, member[b], near[b], m, size, w)
            judge_histogram(R, hist[0], m, saved[m][1][b], base[m][b] if m == 'm2cnd' else None, w)
        R.expect(seen == pick, 'panel-order', lambda: f'{m}: {seen} expected {pick}; {what()}')
    R.outcome((s['topo'], s['sel']))

def judge_panel(R, ax, reg, mp, rs, near, m, size, what):
    drawn = judge_region(R, ax, reg, mp, what, size)
    judge_craters(R, ax, [(x, y, dm / 2 / mp.R) for _, dm, x, y in rs], mp, what)
    seg = [tuple(zip(map(float, l.get_xdata()), map(float, l.get_ydata()))) for l in ax.lines if len(l.get_xdata()) == 2]
    if m == 'm2cnd':
        want = [(mp.xy(r[2:]), mp.xy(rs[k][2:])) for r, k in zip(rs, near)]
        R.expect(len(seg) == len(want), 'neighbours', lambda: f'{len(seg)} lines for {len(want)} craters; {what()}')
        for w in want: R.expect(any(core.close(np.ravel(g).tolist(), np.ravel(w).tolist(), 1e-6, 1e-6 * size) for g in seg), 'neighbours', lambda: f'line {w} to the second nearest crater not drawn; drawn {seg}; {what()}')
        return
    R.expect(not seg, 'neighbours', what)
    cells = [[split(p) for p in c.get_paths()] for c in empty(ax)]
    cells = [[r for g in c for r in g] for c in cells]
    V = [vec(r[2:]) for r in rs]
    own = {}
    X = np.array([v for r in drawn for v in r])
    lo, hi = X.min(0), X.max(0)
    P = np.array([lo + (hi - lo) * np.array([(i + .5) / 17, (j + .5) / 17]) for i in range(17) for j in range(17)])
    P = P[winding(drawn, P)[1] >= .02 * size]
    Q = np.array([mp.back(*p) for p in P])
    P, Q = P[inside(reg, Q)], Q[inside(reg, Q)]
    W = [winding(c, P)[0] if c else np.zeros(len(P)) for c in cells]
    size_of = [abs(sum(x0 * y1 - x1 * y0 for g in c for (x0, y0), (x1, y1) in zip(g, g[1:] + g[:1]))) for c in cells]
    for i, (p, q) in enumerate(zip(P, Q)):
        dd = sorted((ang(q, v), k) for k, v in enumerate(V))
        if dd[1][0] - dd[0][0] < .02 * size / mp.R: continue
        hit = [k for k in range(len(cells)) if W[k][i]]
        R.expect(len(hit) >= 1, 'cell-missing', lambda: f'point {tuple(p)} in no cell; {what()}')
        # the exteriors of disjoint parts are separate outlines; a point has one owner in its smallest outline
        own.setdefault(min(hit, key=lambda k: size_of[k]), set()).add(dd[0][1])
    for k, o in own.items(): R.expect(len(o) == 1, 'cell', lambda: f'one cell covers points nearest to craters {o}; {what()}')

def judge_histogram(R, ax, m, v, m0, what):
    bars = [(float(p.get_x()), float(p.get_x() + p.get_width()), float(p.get_height())) for p in ax.patches]
    R.expect(abs(sum(h for _, _, h in bars) - len(v)) < 1e-9, 'histogram-total', lambda: f'{bars} for {len(v)} trials; {what()}')
    for a, b, h in bars:
        e = 1e-6 * (bars[-1][1] - bars[0][0])
        lo, hi = sum(a + e < x < b - e for x in v), sum(a - e <= x <= b + e for x in v)
        R.expect(lo <= h <= hi, 'histogram-bar', lambda: f'{a}..{b}: {h} trials of {sorted(v)}; {what()}')
    mn, sd = float(np.mean(v)), float(np.std(v))
    vert = [float(l.get_xdata()[0]) for l in ax.lines if len(l.get_xdata()) == 2 and l.get_xdata()[0] == l.get_xdata()[1]]
    R.expect(len(vert) == 2 and any(abs(x / mn - 1) < 1e-6 for x in vert), 'histogram-mean', lambda: f'{vert} mean {mn}; {what()}')
    if m0 is not None: R.expect(any(abs(x / m0 - 1) < 1e-5 for x in vert), 'histogram-actual', lambda: f'{vert} actual {m0}; {what()}')
    band = [np.array(p.vertices)[:, 0] for c in ax.collections for p in c.get_paths()]
    R.expect(len(band) == 1 and abs(band[0].min() - (mn - sd)) < 1e-6 * mn and abs(band[0].max() - (mn + sd)) < 1e-6 * mn, 'histogram-band', lambda: f'{[(b.min(), b.max()) for b in band]} expected {mn - sd, mn + sd}; {what()}')
    x0, x1 = ax.get_xlim()
    R.expect(x0 <= min(min(v), *vert) and x1 >= max(max(v), *vert), 'histogram-frame', lambda: f'{x0, x1}; {what()}')
    lo, hi = ax.get_ylim()
    R.expect(lo == 0 and hi >= max(h for _, _, h in bars), 'histogram-frame', lambda: f'{lo, hi}; {what()}')
    for t, x in zip(ax.get_xticklabels(), ax.get_xticks()):
        g = re.search(r'[-+.\de]+', t.get_text())
        if t.get_text(): R.expect(g and abs(float(g[0]) - x) <= 1e-5 * max(abs(x), x1 - x0), 'histogram-ticks', lambda: f'{t.get_text()!r} at {x}; {what()}')
