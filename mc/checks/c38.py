"""Styling options: every pair of option values x kind of plot against the plain plot, and the really rendered pages in every format."""
import collections, io, itertools, math, os, re
import numpy as np
from .. import cli, ref
TECHNIQUE = 'model checking: exhaustive product of pairs of styling option values x kinds of plot through the real command line, each drawing compared element by element with the plain one; exhaustive product of background and framing options x formats on the really rendered pages'
RULE = ('pairs = every pair of values of 14 styling options x 8 kinds of plot (all presentations, several overplots); pages = transparent x invert x tight x kind of plot x {png, tif, pdf, svg}, maps and randomness panels included; state = (kind, options)')
LIMIT = 400
OPTS = {'invert': [['-invert'], ['-invert', '0']], 'transparent': [['-transparent']], 'tight': [['-tight', '1']], 'halo': [['-text_halo', '0'], ['-text_halo', '1']], 'pt': [['-pt_size', '4.5'], ['-pt_size', '18']],
        'pd': [['-pd', '2'], ['-pd', '10x6'], ['-pd', '5x9']], 'title': [['-title', 'Plain'], ['-title', 'One|two', 'é|', '3']], 'legend': [['-legend', '0'], ['-legend', 'nA'], ['-legend', 'fcrN']], 'mu': [['-mu', '0'], ['-mu']],
        'style': [['-style', 'root-2']], 'xrange': [['-xrange', '-2', '2']], 'yrange': [['-yrange', '-5', '0']], 'sf': [['-sf', '2']], 'iso': [['-isochrons', '.5,2s,3.7a']], 'bins': [['-b']], 'rashow': [['-ra_show', '0']]}
P1 = ['-p', 'source=a.diam,colour=teal1', '-p', 'type=poisson,range=[.4,4],colour=red,isochron=1', '-p', 'source=b.diam,type=c-fit,range=[.3,2],colour=blue,psym=fo,name=B unit', '-p', 'type=b-poisson,colour=#a1b2c3,range=[.3,3]']
KINDS = {'diff': ['-pr', 'diff', '-ef', 'trask', *P1], 'cum': ['-pr', 'cum', '-ep', 'mars, m', *P1], 'rplot': ['-pr', 'R-p', *P1], 'hart': ['-pr', 'hart', '-cs', 'mars, hart', *P1],
         'seq': ['-pr', 'seq', '-ep', 'moon', *P1, '-p', 'source=a.diam,type=d-fit,range=[.5,3],colour=green'], 'chron': ['-pr', 'chron', '-ref_diameter', '10', '-ep', 'moon'], 'rate': ['-pr', 'rate'], 'unc': ['-pr', 'uncert', '-ns', '4', '-ef', 'trask']}
COUNT = ('diff', 'cum', 'rplot', 'hart')
DA = [.3, .31, .5, .52, .55, .8, .82, .95, 1.05, 1.45, 2.6, 3.1, 9.2]
DB = [.26, .27, .33, .41, .62, .64, .66, 1.15, 1.9, 2.3, 4.4]

def applies(k, o):
    if o in ('iso', 'bins', 'style', 'rashow'): return k in COUNT
    if o in ('legend', 'mu', 'sf'): return k in COUNT + ('seq',)
    if o in ('xrange', 'yrange'): return k in COUNT[:3]
    return True
def scenarios(tier):
    deep = tier == 'thorough'
    vals = [(o, i) for o in OPTS for i in range(len(OPTS[o]))]
    out = [dict(k='pair', kind=k, o=[v]) for k in KINDS for v in vals if applies(k, v[0])]
    for k in KINDS if deep else ('diff', 'seq', 'cum', 'chron'):
        for a, b in itertools.combinations(vals, 2):
            if a[0] != b[0] and applies(k, a[0]) and applies(k, b[0]): out.append(dict(k='pair', kind=k, o=[a, b]))
    for k in (*KINDS, 'map', 'ra') if deep else ('diff', 'seq', 'unc', 'map', 'chron'):
        for inv in (0, 1): out.append(dict(k='page', kind=k, inv=inv))
    out.sort(key=lambda s: s['k'] != 'page')
    return out

WD = None
def wd():
    global WD
    if WD is None or not os.path.isdir(WD):
        WD = cli.fresh_dir('c38')
        ref.write(os.path.join(WD, 'a.diam'), ref.diam_text(1e4, [dict(diameter=d) for d in DA], ('diameter',)))
        ref.write(os.path.join(WD, 'b.diam'), ref.diam_text(2500., [dict(diameter=d) for d in DB], ('diameter',), perimeter=210))
        b = '\n'.join(f'{i + 1}\t1\text\t{x}\t{y}' for i, (x, y) in enumerate([(0, 0), (4, 0), (4, 4), (0, 4), (0, 0)]))
        c = '\n'.join(f'{d}\t1\t{x}\t{y}' for d, x, y in [(1.05, .5, .5), (1.1, 2, 3), (1.2, 3, 1), (1.3, 1, 2), (9, 2.2, 1.8)])
        ref.write(os.path.join(WD, 's.scc'), f'a_axis_radius = 1737.4 <km>\nTotal_area = 14708.4 <km^2>\nunit_boundary = {{vertex, sub_area, tag, lon, lat\n{b}\n}}\ncrater = {{diam, fraction, lon, lat\n{c}\n}}\n')
    return WD

def rgb(c):
    from matplotlib.colors import to_rgba
    return tuple(round(float(v), 4) for v in to_rgba(c))[:3]

def colour_map():
    """plain colour -> possible colours on black"""
    import craterstats as cst
    m = collections.defaultdict(set)
    for a, b, n in cst.PALETTE: m[rgb(a)].add(rgb(b))
    for a, b in zip(*cst.GREYS): m[rgb(a)].add(rgb(b))
    m[rgb('black')].add(rgb('white')); m[rgb('white')].add(rgb('black'))
    return m

def num(v): return tuple(f'{float(x):.7g}' for x in np.ravel(np.asarray(v, dtype=float)))

def halos(t):
    return [rgb(g['foreground']) if (g := getattr(e, '_gc', {})).get('foreground') else None for e in t.get_path_effects()]

def scene(fig):
    """what is drawn: series in data coordinates with their colours, and texts"""
    import matplotlib.text as mt, matplotlib.collections as mc
    els, txt = [], []
    for ax in fig.axes:
        for l in ax.get_lines():
            if not l.get_visible(): continue
            x, y = l.get_xdata(), l.get_ydata()
            if np.size(x) == 0: continue
            els.append((('line', num(x), num(y), str(l.get_marker()) if l.get_marker() not in (None, '', 'None') else ''), rgb(l.get_color())))
        for c in ax.collections:
            if not c.get_visible(): continue
            col = c.get_edgecolor() if isinstance(c, mc.LineCollection) or len(c.get_facecolor()) == 0 else c.get_facecolor()
            for p in c.get_paths(): els.append((('area', num(p.vertices)), rgb(col[0]) if len(col) else None))
    leg = [l for ax in fig.axes if (l := ax.get_legend()) is not None]
    for t in fig.findobj(mt.Text):
        if t.get_text() and t.get_visible(): txt.append((t.get_text(), t.get_fontsize(), rgb(t.get_color()), bool(t.get_path_effects())))
    hc = [c for t in fig.findobj(mt.Text) if t.get_text() and t.get_visible() for c in halos(t) if c]
    return dict(els=els, txt=txt, leg=[t.get_text() for l in leg for t in l.get_texts()], halo=[bool(t.get_path_effects()) for l in leg for t in l.get_texts()], hc=hc,
                page=tuple(fig.get_size_inches()), face=rgb(fig.get_facecolor()))

_plain = {}
def go(R, kind, extra):
    d = wd()
    for f in os.listdir(d):
        if f.startswith('x'): os.remove(os.path.join(d, f))
    r = cli.run([*KINDS[kind], '-o', 'x', '-f', *(['png'] if kind in ('unc', 'chron', 'rate') else ['png', 'csv']), *extra], d)
    R.expect(r.ok, 'run-fails', lambda: f'{KINDS[kind]} {extra}: {r.why()}')
    figs = [f for p, f in r.saved if p.endswith('.png')]
    R.expect(len(figs) == (3 if kind == 'unc' else 1), 'figures', lambda: f'{[p for p, f in r.saved]}; {kind} {extra}')
    csv = open(os.path.join(d, 'x.csv'), encoding='utf-8').read() if os.path.exists(os.path.join(d, 'x.csv')) else None
    s = scene(figs[0])
    s['csv'] = csv
    return s

def run(s, R): globals()[s['k']](s, R)

def free(kind, names):
    """which parts may legitimately differ"""
    return set(names)

def pair(s, R):
    kind = s['kind']
    if kind not in _plain: _plain[kind] = go(R, kind, [])
    p = _plain[kind]
    names = {o: OPTS[o][i] for o, i in s['o']}
    extra = [a for v in names.values() for a in v]
    q = go(R, kind, extra)
    what = lambda: f'{KINDS[kind]} {extra}'
    inv = names.get('invert') == ['-invert']
    cm = colour_map()
    # table
    strip = lambda t: t if t is None else t.replace('<mi>&#956;</mi>', '').replace('𝜇', '')
    R.expect(strip(p['csv']) == strip(q['csv']), 'table-changed', lambda: f'{what()}:\n{q["csv"]}\ninstead of\n{p["csv"]}')
    if p['csv'] is not None:
        off = names.get('mu') == ['-mu', '0']
        R.expect(('𝜇' in q['csv']) != off and ('&#956;' in q['csv']) != off, 'mu', lambda: f'{what()}: {q["csv"]}')
    # what is drawn, where
    a, b = collections.Counter(e for e, c in p['els']), collections.Counter(e for e, c in q['els'])
    if kind == 'unc' and 'pd' in names: pass                    # other samples
    else:
        more = bool({'iso', 'bins'} & set(names))
        miss = a - b
        R.expect(not miss, 'element-missing', lambda: f'{what()}: {[str(k)[:300] for k in list(miss)[:2]]}')
        R.expect(more or not b - a, 'element-added', lambda: f'{what()}: {[str(k)[:300] for k in list(b - a)[:2]]}')
        cols = collections.defaultdict(list)
        for e, c in q['els']: cols[e].append(c)
        for e, c in p['els']:
            ok = ({c} if not inv else cm.get(c, {c}) | ({c} if c not in cm else set())) if c is not None else {None}
            R.expect(any(x in ok for x in cols[e]) or inv and c not in cm, 'element-colour', lambda: f'{what()}: {str(e)[:200]} {cols[e]} expected {ok}')
    # texts
    pt = float(names['pt'][1]) / 9 if 'pt' in names else 1.
    A, B = collections.defaultdict(list), collections.defaultdict(list)
    for t, z, c, h in p['txt']: A[t].append((z, c, h))
    for t, z, c, h in q['txt']: B[t].append((z, c, h))
    if not set(names) & {'style', 'xrange', 'yrange', 'pd', 'legend', 'sf', 'mu', 'iso', 'bins'}:
        title = '\n'.join(' '.join(names['title'][1:]).split('|')) if 'title' in names else None
        na, nb = {t: len(v) for t, v in A.items()}, {t: len(v) for t, v in B.items()}
        if title: na[title] = na.get(title, 0) + 1
        R.expect(na == nb, 'texts', lambda: f'{what()}: {set(na.items()) ^ set(nb.items())}')
    elif 'title' in names:
        R.expect(len(B.get('\n'.join(' '.join(names['title'][1:]).split('|')), [])) == 1, 'title', lambda: f'{what()}: {list(B)}')
    if not set(names) & {'pd', 'xrange', 'yrange', 'style', 'legend', 'bins', 'iso', 'sf', 'mu'}:
        for t, v in A.items():
            for z, c, h in v:
                same = [x for x in B[t] if abs(x[0] - z * pt) < 1e-6 * z]
                R.expect(same, 'text-size', lambda: f'{what()}: {t!r} {B[t]} expected {z * pt}')
                ok = {c} if not inv else cm.get(c, {c})
                R.expect(any(x[1] in ok for x in same), 'text-colour', lambda: f'{what()}: {t!r} {same} expected {ok}')
    # legend
    if names.get('legend') == ['-legend', '0']: R.expect(not q['leg'], 'legend-suppressed', lambda: f'{what()}: {q["leg"]}')
    elif kind in COUNT and 'legend' not in names: R.expect(len(q['leg']) == len(p['leg']), 'legend-entries', lambda: f'{what()}: {q["leg"]} plain {p["leg"]}')
    on = names['halo'] == ['-text_halo', '1'] if 'halo' in names else kind in COUNT
    hl = q['halo'] + [h for t, z, c, h in q['txt'] if 'CF: ' in t]
    R.expect(all(h == on for h in hl), 'halo', lambda: f'{what()}: {hl} expected {on}')
    R.expect(all(c == (rgb('black') if inv else rgb('white')) for c in q['hc']), 'halo-colour', lambda: f'{what()}: {q["hc"]}')
    # page
    R.expect(q['face'] == (rgb('black') if inv else rgb('white')), 'background', lambda: f'{what()}: {q["face"]}')
    if 'pd' not in names and 'pt' not in names and not set(names) & {'xrange', 'yrange'}:
        R.expect(np.allclose(q['page'], p['page']), 'page-size', lambda: f'{what()}: {q["page"]} plain {p["page"]}')
    R.step(); R.trace(); R.state((kind, tuple(map(tuple, s['o'])))); R.outcome((kind, tuple(sorted(names))))

def size_inches(path):
    """of a saved page"""
    from PIL import Image
    f = path.rsplit('.', 1)[1]
    if f in ('png', 'tif'):
        with Image.open(path) as i: return tuple(x / 500 for x in i.size)
    t = open(path, 'rb').read()
    if f == 'pdf':
        m = re.search(rb'/MediaBox\s*\[\s*([\d.]+)\s+([\d.]+)\s+([\d.]+)\s+([\d.]+)', t)
        v = [float(x) for x in m.groups()]
        return (v[2] - v[0]) / 72, (v[3] - v[1]) / 72
    m = re.search(rb'<svg[^>]*?>', t, re.S).group()
    return tuple(float(re.search(a + rb'="([\d.]+)pt"', m).group(1)) / 72 for a in (rb'width', rb'height'))

MAGIC = {'png': b'\x89PNG', 'tif': (b'II*\0', b'MM\0*'), 'pdf': b'%PDF', 'svg': b'<?xml'}
def page(s, R):
    from PIL import Image
    d = wd()
    bg = np.array([0, 0, 0] if s['inv'] else [255, 255, 255], dtype=float)
    got = {}
    for tr, ti in itertools.product((0, 1), (0, 1)):
        extra = (['-invert'] if s['inv'] else []) + (['-transparent'] if tr else []) + (['-tight'] if ti else [])
        what = lambda: f'{s["kind"]} {extra}'
        for f in os.listdir(d):
            if f.startswith('x') or '_ra' in f: os.remove(os.path.join(d, f))
        fm = ['png', 'tif', 'pdf', 'svg']
        if s['kind'] == 'map':
            for f in ('png', 'svg', 'pdf'):
                r = cli.run(['--convert', f, 's.scc', '-o', 'x', *extra], d, real=True)
                R.expect(r.ok, 'run-fails', lambda: f'{what()}: {r.why()}')
            fm.remove('tif')
        else:
            src = ['-ra', 's.scc', '-trials', '4', '-measure', 'm2cnd', '-select', '0'] if s['kind'] == 'ra' else KINDS[s['kind']]
            r = cli.run([*src, '-o', 'x', '-f', *fm, *extra], d, real=True)
            R.expect(r.ok, 'run-fails', lambda: f'{what()}: {r.why()}')
        stems = sorted({f.rsplit('.', 1)[0] for f in os.listdir(d) if f.startswith('x') and f.endswith('.png')})
        R.expect(len(stems) == (3 if s['kind'] == 'unc' else 1), 'pages', lambda: f'{what()}: {os.listdir(d)}')
        for stem in stems:
            sz = {}
            for f in fm:
                p = os.path.join(d, f'{stem}.{f}')
                R.expect(os.path.exists(p) and open(p, 'rb').read(8).startswith(MAGIC[f]), 'file-format', lambda: f'{what()}: {stem}.{f}')
                sz[f] = size_inches(p)
                R.step()
            tol = .06 if ti else .004
            R.expect(all(abs(a - b) < tol for v in sz.values() for a, b in zip(v, sz['png'])), 'page-size-differs', lambda: f'{what()}: {sz}')
            im = Image.open(os.path.join(d, stem + '.png')).convert('RGBA')
            A = np.asarray(im, dtype=float)
            if 'tif' in fm:
                B = np.asarray(Image.open(os.path.join(d, stem + '.tif')).convert('RGBA'), dtype=float)
                R.expect(A.shape == B.shape and np.abs(A - B)[(A[..., 3] > 0) | (B[..., 3] > 0)].max(initial=0) <= 2, 'png-tif-differ', what)
            edge = np.concatenate([A[0], A[-1], A[:, 0], A[:, -1]])
            if tr: R.expect((edge[:, 3] == 0).mean() > .9, 'background-opaque', lambda: f'{what()}: {edge[0]}')
            else: R.expect((A[..., 3] == 255).all() and (np.abs(edge[:, :3] - bg).max(1) < 1).mean() > .9, 'background', lambda: f'{what()}: {edge[0]} expected {bg}')
            flat = A[..., :3] * A[..., 3:] / 255 + bg * (1 - A[..., 3:] / 255)
            ink = np.argwhere(np.abs(flat - bg).max(2) > 60)
            R.expect(len(ink) > 100, 'empty-page', what)
            got[stem, tr, ti] = (flat, ink.min(0), ink.max(0))
            if ti: R.expect(ink.min() >= 1 and (np.array(flat.shape[:2]) - 1 - ink.max(0)).min() >= 1, 'tight-cuts', lambda: f'{what()}: ink {ink.min(0)} {ink.max(0)} page {flat.shape}')
            R.state((s['kind'], s['inv'], tr, ti, stem))
    for stem in {k[0] for k in got}:
        if s['kind'] == 'unc' or s['kind'] == 'ra': continue                        # drawn at random
        for ti in (0, 1):
            a, b = got[stem, 0, ti][0], got[stem, 1, ti][0]
            R.expect(a.shape == b.shape and (np.abs(a - b).max(2) > 40).mean() < 2e-4, 'transparent-changes-drawing', lambda: f'{s} tight={ti}: {a.shape} {b.shape} {(np.abs(a - b).max(2) > 40).mean() if a.shape == b.shape else ""}')
        for tr in (0, 1):
            (f0, a0, b0), (f1, a1, b1) = got[stem, tr, 0], got[stem, tr, 1]
            e0, e1 = b0 - a0, b1 - a1
            inside = (a0 > 1).all() and (np.array(f0.shape[:2]) - 2 > b0).all()
            R.expect((e1 >= e0 - 3).all() and (not inside or (np.abs(e0 - e1) <= 3).all()), 'tight-loses-ink', lambda: f'{s} transparent={tr}: ink {e1} plain {e0}')
    R.trace(); R.outcome((s['kind'], s['inv']))
