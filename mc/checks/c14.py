"""The same crater list through every file format and layout; .stat export / re-import / re-export over all small binned counts."""
import itertools, math, os
import numpy as np
from .. import ref
TECHNIQUE = 'model checking: exhaustive enumeration of crater lists x row orders x column orders x number formats x file formats through the real readers and writers'
RULE = ('lists = all multisets (size <= 3) over 4 diameters x 3 weights, every row order; column orders = all permutations; areas and perimeters in every printed form for every decade; '
        '.stat: every occupancy vector {0,1,2,5}^4 x offset x diameter decade x area decade; state=(file text) or (vector, base, area)')
LIMIT = 300

ALPHA = [(d, f) for d in (.5, 1., 1.04, 30.) for f in (1., .5, .0625)]
FORMS = ['{:.10f}', '{:.6e}', '{:.6E}', '{!r}', '{:.12g}', '{:g}']

def scenarios(tier):
    n = 3
    out = []
    for k in range(1, n + 1):
        for c in itertools.combinations_with_replacement(range(len(ALPHA)), k): out.append(dict(kind='list', c=list(c)))
    for e in range(-6, 9): out.append(dict(kind='magnitude', e=e))
    out.append(dict(kind='columns'))
    for base in ((1.01, .0501, .00171, 90.1) if tier == 'quick' else (1.01, .0501, .00171, 90.1, 1.31, 8.01, .0001201, 601., .701)):
        for ae in range(-6, 9, 2 if tier == 'quick' else 1):
            for fr in (0, 1): out.append(dict(kind='stat', base=base, ae=ae, fr=fr))
    return out

def put(name, text, bom=False):
    with open(name, 'w', encoding='utf-8-sig' if bom else 'utf-8') as f: f.write(text)
    return name

def diam_file(rows, area, per=None, cols=('diameter', 'fraction'), com=False):
    com = '# list ; with = {odd} comments\n\n' if com else ''
    return put('a.diam', ref.diam_text(area, rows, cols, per, com), bool(com))

def scc_file(rows, area, per=None, cols=('diam', 'fraction', 'lon', 'lat'), com=False, perkey='Total_perimeter'):
    s = '# Spatial crater count\n' if com else ''
    s += f'a-axis radius = 1737.4 <km>\n' + f'Total_area = {area}\n'
    if per is not None: s += f'{perkey} = {per}\n'
    s += 'unit_boundary = {vertex, sub_area, tag, lon, lat\n1 1 ext 0 0\n2 1 ext 0 1\n3 1 ext 1 1\n4 1 ext 0 0\n}\n'
    if com: s += '#\n# crater_diameters:\n'
    s += 'crater = {' + ', '.join(cols) + '\n'
    for i, r in enumerate(rows):
        s += '\t'.join(str(r[c]) for c in cols) + '\n'
        if com and i == 0: s += '# more\n'
    return put('a.scc', s + '}\n')

def rows_of(cr):
    return [dict(diameter=repr(d), diam=repr(d), fraction=repr(f), lon=f'{.1 * i:g}', lat='0.5', topo_scale_factor='1') for i, (d, f) in enumerate(cr)]

class CPS: pass

def results(cc, R):
    """plot values and ages of a count"""
    import craterstats as cst
    y = ref.systems()[0]
    cps = CPS(); cps.pf, cps.cf, cps.ref_diameter = ref.pf(y['pf']), ref.cf(y['cf']), 1.
    cps.presentation, cps.sz_ratio = 'cumulative', 1.
    out = []
    cp = cst.Craterplot(cratercount=cc, type='poisson', range=['.4', '40'], binning='pseudo-log', name='x', source='x')
    cp.calculate_age(cps); out += [float(cp.n), float(cp.n_event)] + [float(x) for x in cp.t]
    if cc.perimeter is not None:
        cp = cst.Craterplot(cratercount=cc, type='b-poisson', range=['.4', '40'], binning='pseudo-log', name='x', source='x')
        cp.calculate_age(cps); out += [float(x) for x in cp.t]
    cc.apply_binning('root-2')
    out += [float(x) for k in ('d_min', 'n', 'n_event', 'ncum') for x in cc.binned[k]]
    R.step(3)
    return out

def same_count(R, cc, cr, area, per, what):
    R.step(); R.trace()
    got = sorted(zip((float(x) for x in cc.diam), (float(x) for x in cc.fraction)))
    R.expect(got == sorted(cr), 'craters', lambda: f'{got} expected {sorted(cr)}; {what()}')
    R.expect(abs(cc.area - area) <= 1e-12 * area, 'area', lambda: f'{cc.area!r} expected {area!r}; {what()}')
    if per is False: return
    if per is None: R.expect(cc.perimeter is None, 'perimeter', lambda: f'{cc.perimeter!r} from none; {what()}')
    else: R.expect(cc.perimeter is not None and abs(cc.perimeter - per) <= 1e-12 * per, 'perimeter', lambda: f'{cc.perimeter!r} expected {per!r}; {what()}')

def run(s, R):
    import craterstats as cst
    if s['kind'] == 'stat': return stat(s, R)
    if s['kind'] == 'list':
        cr = [ALPHA[i] for i in s['c']]
        base = None
        for p in sorted(set(itertools.permutations(cr))):
            for com in (False, True):
                for per in (None, 44.25):
                    r = rows_of(p)
                    files = [(diam_file(r, '12.5', per, com=com), p, per),
                             (scc_file(r, '12.5 <km^2>', per if per is None else '44.25 <km>', com=com), p, per)]
                    for f, want, pp in files:
                        cc = cst.Cratercount(f)
                        R.state(open(f).read())
                        same_count(R, cc, list(want), 12.5, pp, lambda: open(f).read())
                        if per and (com or p == tuple(cr)):
                            q = results(cc, R)
                            if base is None: base = q
                            R.expect(ref.same(q, base, 1e-9), 'different-results', lambda: f'{f}: {q} other layout or format {base}')
                    if set(f for _, f in p) == {1.}:
                        for f in (diam_file(r, '12.5', per, ('diameter',), com), scc_file(r, '12.5 <km^2>', per if per is None else '44.25 <km>', ('lat', 'diam', 'lon'), com)):
                            same_count(R, cst.Cratercount(f), list(p), 12.5, per, lambda: open(f).read())
        R.outcome(repr(base))
    elif s['kind'] == 'columns':
        cr = [ALPHA[1], ALPHA[5], ALPHA[9]]
        r = rows_of(cr)
        for cols in itertools.permutations(('diam', 'fraction', 'lon', 'lat', 'topo_scale_factor')):
            f = scc_file(r, '12.5', '3 <km>', cols); R.state(cols)
            same_count(R, cst.Cratercount(f), cr, 12.5, 3., lambda: open(f).read())
        for n in (2, 3, 4):
            for cols in itertools.permutations(('diameter', 'fraction', 'lon', 'lat'), n):
                if 'diameter' not in cols: continue
                f = diam_file(r, '12.5', None, cols); R.state(cols)
                same_count(R, cst.Cratercount(f), cr if 'fraction' in cols else [(d, 1.) for d, _ in cr], 12.5, None, lambda: open(f).read())
    else:
        for m in (1., 2.5, 9.999996, 1.234567):
            v = m * 10. ** s['e']
            for form in FORMS:
                t = form.format(v)
                w = float(t)
                if w == 0: continue
                for unit in ('', ' <km^2>', ' <km2>', ' km^2'):
                    for com in (False, True):
                        cr = [(w, 1.), (w * 2, .5)]
                        r = rows_of(cr)
                        for key in ('Total_perimeter', 'Perimeter'):
                            f = scc_file(r, t + unit, t + (' <km>' if unit else ''), com=com, perkey=key)
                            R.state((t, unit, com, key))
                            same_count(R, cst.Cratercount(f), cr, w, w, lambda: open(f).read())
                    if not unit:
                        f = diam_file(r, t, t)
                        same_count(R, cst.Cratercount(f), cr, w, w, lambda: open(f).read())

def stat(s, R):
    import craterstats as cst
    k0 = ref.index('pseudo-log', s['base'])
    E = [ref.edge('pseudo-log', k0 + i) for i in range(5)]
    area = 1.2345678 * 10. ** s['ae']
    for v in itertools.product((0, 1, 2, 5), repeat=4):
        if not any(v): continue
        ds, fr = [], []
        for i, n in enumerate(v):
            for j in range(n): ds.append(E[i] * (E[i + 1] / E[i]) ** ((j + 1) / (n + 1))); fr.append(1. if not s['fr'] or (i + j) % 2 else .375)
        cc = ref.make_cc(ds, fr, area=area)
        if os.path.exists('x.stat'): os.remove('x.stat')
        cc.WriteStatFile('x.stat')
        c2 = cst.Cratercount('x.stat')
        c2.WriteStatFile('y.stat')
        c3 = cst.Cratercount('y.stat')
        R.step(4); R.trace(); R.state((v, s['base'], s['ae'], s['fr']))
        occ = [i for i in range(4) if v[i]]
        what = lambda: f'bins {v} from {E[0]:g} area {area:g} weights {fr}\n' + open('x.stat').read() + open('y.stat').read()
        for c in (c2, c3):
            lo = [float(x) for x in c.binned['d_min']]
            R.expect(len(lo) == len(occ) and all(abs(x / E[i] - 1) < 1e-4 for x, i in zip(lo, occ)), 'bins', lambda: f'{lo}; {what()}')
            R.expect([int(round(float(x))) for x in c.binned['n_event']] == [v[i] for i in occ], 'crater-number', lambda: f"{c.binned['n_event']}; {what()}")
            w = [sum(f for d, f in zip(ds, fr) if E[i] <= d < E[i + 1]) for i in occ]
            R.expect(all(abs(float(x) - y) <= 1e-4 * y for x, y in zip(c.binned['n'], w)), 'weight', lambda: f"{c.binned['n']} expected {w}; {what()}")
            cw = [sum(w[j:]) for j in range(len(w))]
            R.expect(all(abs(float(x) - y) <= 1e-4 * y for x, y in zip(c.binned['ncum'], cw)), 'cumulative', lambda: f"{c.binned['ncum']} expected {cw}; {what()}")
            R.expect(abs(c.area / area - 1) < 1.2e-3, 'area', lambda: f'{c.area} {what()}')
            for i, (a, b) in enumerate(zip(occ, occ[1:])):
                if b == a + 1: R.expect(abs(c.binned['d_max'][i] / E[b] - 1) < 1e-4, 'bin-width', what)
        def table(f, cols): return [[ln.split()[c] for c in cols] for ln in open(f) if ln.strip() and not ln.startswith('#')]
        cols = (0, 1, 4, 5, 10)
        a, b = table('x.stat', cols), table('y.stat', cols)
        if s['fr'] == 0:
            R.expect([r[:3] + r[4:] for r in a] == [r[:3] + r[4:] for r in b], 're-export', what)
            R.expect(all(abs(float(p[3]) / float(q[3]) - 1) < 2.1e-3 for p, q in zip(a, b)), 're-export-density', what)
        os.replace('y.stat', 'z.stat')
        c3.WriteStatFile('y.stat')
        if s['fr'] == 0: R.expect(table('y.stat', range(11)) == table('z.stat', range(11)), 're-export-again', lambda: open('z.stat').read() + open('y.stat').read())
        R.outcome(tuple(map(tuple, b)))
