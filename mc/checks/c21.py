"""Summary table: all short overplot lists through the command line; each row against values computed for that overplot alone."""
import itertools, os
from .. import ref, cli
TECHNIQUE = 'model checking: exhaustive enumeration of overplot lists (length <= 3) through the real command line, every row compared with values derived for that overplot alone'
RULE = ('alphabet of 22 overplots (type x binning x resurfacing x range x source x hidden x awkward names); all lists of length <= 2 in 3 presentations/settings, all lists of length 3 over a reduced alphabet '
        '(thorough: all); table with and without the figure; state = (settings, list); oracle = posterior or fit computed directly from the source for the stated range')
LIMIT = 600

PL = [('a.diam', 'poisson', dict(range='[1.2,9]')), ('a.diam', 'd-fit', dict(range='[1.2,9]')), ('a.diam', 'c-fit', dict(range='[1.2,9]')), ('a.diam', 'c-fit', dict(range='[2,9]', resurf='1')), ('b c.diam', 'poisson', {}),
      ('b c.diam', 'd-fit', {}), ('b c.diam', 'c-fit', dict(binning='x2')), ('b c.diam', 'poisson', dict(range='[6,12]', binning='root-2', name='A, B')), ('s.scc', 'b-poisson', dict(range='[.25,1]', name='say "x"')),
      ('s.scc', 'poisson', dict(snap='0', range='[.21,.9]', name='0')), ('a.diam', 'data', {}), ('a.diam', 'poisson', dict(hide='1', range='[2,4]')), ('s.scc', 'd-fit', dict(hide='1')), ('a.diam', 'd-fit', dict(range='[b3,b-3]', binning='10/decade')),
      ('a.diam', 'c-fit', dict(resurf='1', resurf_showall='1', range='[1.5,6]', name='é;σ')), ('t.stat', 'd-fit', dict(binning='pseudo-log')), ('t.stat', 'c-fit', dict(range='[2,9]')), ('s.scc', 'data', {}),
      ('a.diam', 'poisson', dict(binning='none', range='[1.2,9]')), ('a.diam', 'poisson', dict(range='[100,200]')), ('x, y.diam', 'poisson', dict(range='[2,8]')), ('t.stat', 'poisson', dict(range='[2,6]', name='"quoted"'))]
SETTINGS = [['-pr', 'diff'], ['-pr', 'cum', '-ref_diameter', '4', '-cs', 'hd16'], ['-pr', 'seq', '-mu', '0', '-ref_diameter', '.5'], ['-pr', 'hart', '-cs', 'n2001mars'], ['-pr', 'rplot', '-cs', 'ida', '-ref_diameter', '1.0']]

def scenarios(tier):
    n = len(PL)
    out = [dict(set=k, lists=[[i]] + [[i, j] for j in range(n)]) for k in range(3 if tier == 'quick' else 5) for i in range(n)]
    red = [0, 1, 3, 5, 7, 8, 10, 11] if tier == 'quick' else list(range(n))
    out += [dict(set=0, lists=[[i, j, k] for k in red]) for i in red for j in red]
    out += [dict(set=k, fig=1, lists=[[i, j] for j in (1, 4, 8, 10)]) for k in (0, 1, 2) for i in range(0, n, 1 if tier == 'thorough' else 3)]
    return out

def setup(R):
    import craterstats as cst
    rows = [dict(diameter=repr(round(.9 * 1.17 ** i, 4)), fraction='1' if i % 3 else '.5') for i in range(14) for _ in range(9 - i // 2)]
    ref.write('a.diam', ref.diam_text('1200', rows))
    ref.write('b c.diam', ref.diam_text('300000', rows[60:]))
    ref.write('x, y.diam', ref.diam_text('77.7', rows[20:]))
    ref.write('s.scc', 'Total_area = 30.25 <km^2>\nTotal_perimeter = 23.125 <km>\nunit_boundary = {vertex, sub_area, tag, lon, lat\n1 1 ext 0 0\n2 1 ext 0 1\n3 1 ext 1 1\n4 1 ext 0 0\n}\n'
              'crater = {diam, fraction, lon, lat, tag\n' + ''.join(f'{.2 * 1.1 ** i:.4f} 1 0 .1 standard\n' for i in range(20)) + '}\n')
    cc = cst.Cratercount('a.diam'); cc.apply_binning('pseudo-log')
    cc.WriteStatFile('t.stat')

_cache = {}
def expected(k, i):
    """row of overplot i alone under setting k"""
    if (k, i) in _cache: return _cache[k, i]
    import craterstats as cst
    import craterstats.gm as gm
    import numpy as np
    src, typ, o = PL[i]
    st = SETTINGS[k]
    name = dict(zip(st[::2], st[1::2]))
    sysname = {'hd16': 'Mars, Hartmann & Daubar (2016)', 'n2001mars': None, 'ida': 'Ida, Schmedemann et al (2014)', None: 'Moon, Neukum (1983)'}[name.get('-cs')]
    y = next(e for e in ref.systems() if e['name'] == sysname) if sysname else next(e for e in ref.functions()['chronology_system'] if e['name'] == 'Mars, Neukum-Ivanov (2001)')
    pf, cf = ref.pf(y['pf']), ref.cf(y['cf'])
    rd = float(name.get('-ref_diameter', 1))
    cc = cst.Cratercount(src)
    binning = o.get('binning', 'pseudo-log')
    resurf = int(o.get('resurf', 0))
    rng = cc.decode_range(o.get('range', '[0,inf]').strip('[]').split(','), binning, int(o.get('snap', 1)))
    if typ in ('poisson', 'b-poisson'):
        pdf = cst.Craterpdf(pf, cf, cc, np.clip(rng, pf.range[0], pf.range[1]), bcc=typ == 'b-poisson')
        t = pdf.median1sigma(); a0 = [float(np.log10(cf.N1(x))) for x in t]
        n = n_event = pdf.k
        shown = rng
    else:
        p = cc.getplotdata('cumulative' if typ == 'c-fit' else 'differential', binning, range=rng, resurfacing=1 if resurf and typ == 'c-fit' else 0, pf=pf)
        a0 = [float(x) for x in pf.fit(p)]
        t = [float(cf.t(a0=x)) for x in a0]
        n, n_event = p['n'], p['n_event']
        shown = rng if resurf == 1 else p['bin_range']
    nd = [float(pf.evaluate('cumulative', rd, x)) for x in a0]
    from craterstats import str_age
    mu = int(name.get('-mu', 1))
    nm = o.get('name') or os.path.splitext(src)[0]
    row = [nm, cc.area, binning, shown[0], shown[1], typ, resurf, n, n_event, None] + list(t) + a0 + nd
    text = [os.path.basename(src), ' ', gm.diameter_range(shown)] + [f(m) for m in (True, False) for f in (lambda m: str_age(t[0], t[2] - t[0], t[0] - t[1], mu=mu, MathML=m), lambda m: gm.scientific_notation(nd[0], nd[2], nd[1], unit='km-2', MathML=m))]
    _cache[k, i] = row, text, t[0], rd
    return _cache[k, i]

def close(got, want, digits):
    """got: printed text; want: value; equal to the printed precision"""
    try: g = float(got)
    except ValueError: return False
    w = float(want)
    if w != w: return g != g
    if g == w: return True
    from math import log10, floor
    if w == 0: return abs(g) < 1e-12
    return abs(g - w) <= .51 * 10. ** (floor(log10(abs(w))) - digits + 1) * (1 + 1e-9)

def run(s, R):
    for L in s['lists']:
        args = SETTINGS[s['set']] + ['-o', 'out', '-f', 'csv'] + (['svg'] if s.get('fig') else [])
        if s.get('fig'): L = [i for i in L if i != 19]
        for i in L:
            src, typ, o = PL[i]
            d = dict(source=src, type=typ, binning='pseudo-log', snap='1')
            d.update(o)
            args = args + ['-p', ','.join(f'{k}={v}' for k, v in d.items())]
        if os.path.exists('out.csv'): os.remove('out.csv')
        r = cli.run(args)
        R.step(); R.trace(); R.state((s['set'], s.get('fig'), tuple(L)))
        what = lambda: f'{args}: {r.why()}'
        R.expect(r.ok, 'run-failed', what)
        ages = [i for i in L if PL[i][1] != 'data']
        if not ages:
            R.expect(not os.path.exists('out.csv'), 'table-without-age', what)
            continue
        R.expect(os.path.exists('out.csv'), 'no-table', what)
        T = cli.read_csv('out.csv')
        h = next((j for j, x in enumerate(T) if x and x[0] == 'Name'), None)
        R.expect(h is not None and len(T) - h - 1 == len(ages), 'number-of-rows', lambda: f'{len(T)} lines; {what()}')
        head, rows = T[h], T[h + 1:]
        E = [expected(s['set'], i) for i in ages]
        rd = E[0][3]
        lbl = f'N({rd:0g})'
        want_head = ['Name', 'Area', 'Binning', 'd_min', 'd_max', 'Method', 'Resurf', 'N', 'N_event', 'Sort_order', 'Age', 'Age-', 'Age+', 'a0', 'a0-', 'a0+', lbl, lbl + '-', lbl + '+', 'Source', ' ', 'Range', 'Age', lbl, 'Age', lbl]
        R.expect(head == want_head, 'header', lambda: str(head))
        rank = []
        for row, (w, text, t, _), i in zip(rows, E, ages):
            show = lambda: f'row {row}\nexpected {w + text}\noverplot {PL[i]} in {[PL[j] for j in L]} settings {SETTINGS[s["set"]]}'
            R.expect(len(row) in (len(head), len(head) + 1) and (len(row) == len(head) or row[-1].strip() == ''), 'columns', show)
            c = dict(enumerate(row))
            R.expect(c[0].strip('"') == w[0].strip('"'), 'name', show)
            R.expect(c[2] == w[2] and c[5] == w[5] and c[6] == str(w[6]), 'method', show)
            for j, dig in [(1, 5), (3, 2), (4, 2), (10, 3), (11, 3), (12, 3), (13, 4), (14, 4), (15, 4), (16, 3), (17, 3), (18, 3)]:
                R.expect(close(c[j], w[j], dig), 'value', lambda: f'column {head[j]}; {show()}')
            for j in (7, 8): R.expect(abs(float(c[j]) - float(w[j])) < 1e-6 * max(1, float(w[j])), 'count', show)
            R.expect(os.path.basename(c[19]) == text[0], 'source', show)
            R.expect(row[21:26] == text[2:7], 'formatted', show)
            rank.append(int(c[9]))
        R.expect(sorted(rank) == list(range(len(rank))), 'rank', lambda: f'{rank} {what()}')
        o = sorted(range(len(rank)), key=lambda j: rank[j])
        R.expect(all(not E[a][2] < E[b][2] * (1 - 1e-12) for a, b in zip(o, o[1:])), 'rank-order', lambda: f'{rank} for ages {[e[2] for e in E]}; {what()}')
        R.outcome((tuple(rank), tuple(rows[0][10:13])))
