"""Output files: every combination of output name, formats, presentation and overplots; directory tree before and after."""
import itertools, os
from .. import ref, cli
TECHNIQUE = 'model checking: exhaustive enumeration of configurations (output name x formats x presentation x overplots; conversions; merges; table option; command-file input) of the real command line, complete directory trees compared before/after'
RULE = ('14 output-name forms x format sets (all subsets of size <= 2, all five, default) x 8 presentations x overplot lists; conversions: 4 source kinds x 6 formats x output forms; every run starts from a tree with '
        'decoy files; state = configuration; oracle = the set of names the request implies')
LIMIT = 600

OUTS = [None, 'res', 'res.svg', 'res.csv', 'res.png', 'sub/res', 'sub/res.pdf', 'dir', 'dir/', './res', '../top', 'ABS/res', 'ABS/dir', 'my res', 'dir.d', 'x-1_b', 'sub/../res', 'res.tif', '.', '../run/dir', 'mare.north', 'v1.2 final', 'sub/map.overview', 'dir.d/ab', 'dir.d/x.pdf']
FMT = [None] + [list(c) for n in (1, 2, 5) for c in itertools.combinations(['png', 'tif', 'pdf', 'svg', 'csv'], n)]
PLOTS = [[], ['source=a.diam'], ['source=a.diam', 'type=poisson,range=[1,8]'], ['source=sub/d.diam,type=d-fit'], ['source=a.diam,type=c-fit', 'source=b c.diam'], ['source=e_CRATER.shp,type=poisson'],
         ['source=b c.diam', 'source=a.diam,type=poisson', 'source=a.diam'], ['source=a.diam,type=poisson,hide=1'], ['source=s.scc,type=b-poisson'], ['source=ABS/sub/d.diam'],
         ['source=a.diam,type=poisson', 'source=b c.diam,type=poisson'],
         ['source=a.diam,type=poisson', 'source=s.scc', 'source=sub/d.diam', 'source=%sample%/c1.scc', 'source=b c.diam', 'source=shapes/g.scc']]
STEMS = [[], ['a'], ['a'], ['d'], ['a', 'b c'], ['e'], ['a', 'b c'], ['a'], ['s'], ['d'], ['a', 'b c'], ['a', 'b c', 'c1', 'd', 'g', 's']]
AGE = [0, 0, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1]
PR = ['cumulative', 'differential', 'R-plot', 'Hartmann', 'sequence', 'chronology', 'rate']
CONV = [('stat', 'a.diam'), ('stat', 's.scc'), ('stat', 'e_CRATER.shp'), ('stat', 'sub/d.diam'), ('shp', 's.scc'), ('scc', 'e_CRATER.shp'), ('scc', 'shapes/CRATER_f.shp'), ('png', 's.scc'), ('svg', 's.scc'), ('pdf', 'e_CRATER.shp'),
        ('png', 'shapes/CRATER_f.shp'), ('.stat', 'a.diam'), ('shp', 'shapes/g.scc')]

def scenarios(tier):
    out = []
    for o in range(len(OUTS)):
        for f in range(len(FMT)):
            for k in ((2,) if tier == 'quick' else range(len(PLOTS))): out.append(dict(o=o, f=f, k=k, pr='differential'))
    for o in range(len(OUTS)):
        for k in range(len(PLOTS)):
            for f in (None, 'csv svg'): out.append(dict(o=o, f=FMT.index(f.split()[::-1] if f else None) if f is not None else 0, k=k, pr='cumulative'))
    for pr in PR:
        for k in range(len(PLOTS)):
            if pr in PR[5:] and k: continue
            for o in (0, 1, 2, 7): 
                for f in (0, 3, 9): out.append(dict(o=o, f=f, k=k, pr=pr))
    for o in (0, 1, 2, 7, 5, 11):
        for f in range(len(FMT)):
            if tier == 'thorough' or f % 3 == 0 or f > 10: out.append(dict(o=o, f=f, k=0, pr='uncertainty'))
    for k in range(len(PLOTS)):
        for pr in ('differential', 'sequence'):
            for o in (0, 1, 7): out.append(dict(o=o, f=5, k=k, pr=pr, st=1))
    for o in (0, 1, 5, 7, 12):
        for k in (2, 5, 6):
            for mode in ('in', 'inarg'): out.append(dict(o=o, f=0, k=k, pr='differential', inp=mode))
    for c in range(len(CONV)):
        for o in range(len(OUTS)): out.append(dict(conv=c, o=o))
    for o in (0, 1, 3, 5, 7, 8, 9, 10, 11, 12, 18): out.append(dict(merge=1, o=o))
    return out

def fixture(top):
    d = top + '/run'
    for x in ('sub', 'dir', 'dir.d', 'shapes'): os.makedirs(f'{d}/{x}')
    rows = [dict(diameter=repr(round(.9 * 1.17 ** i, 4)), fraction='1') for i in range(14) for _ in range(5)]
    ref.write(d + '/a.diam', ref.diam_text('1200', rows))
    ref.write(d + '/b c.diam', ref.diam_text('3000', rows[10:]))
    ref.write(d + '/sub/d.diam', ref.diam_text('10', rows[5:40]))
    scc = ('Total_area = 30.25 <km^2>\nTotal_perimeter = 23.125 <km>\na_axis_radius = 1737.4 <km>\nunit_boundary = {vertex, sub_area, tag, lon, lat\n1 1 ext 0 0\n2 1 ext 0 1\n3 1 ext 1 1\n4 1 ext 0 0\n}\n'
           'crater = {diam, fraction, lon, lat, tag\n' + ''.join(f'{.2 * 1.1 ** i:.4f} 1 {.2 + .02 * i} .3 standard\n' for i in range(6)) + '}\n')
    ref.write(d + '/s.scc', scc); ref.write(d + '/shapes/g.scc', scc)
    for k, v in SHP['e'].items(): open(f'{d}/{k}', 'wb').write(v)
    for k, v in SHP['f'].items(): open(f'{d}/shapes/{k}', 'wb').write(v)
    for x in ('decoy.csv', 'out.cs', 'sub/res.txt', 'dir/keep.png', 'resx.svg', 'res.old'): ref.write(f'{d}/{x}', 'keep')
    return d

SHP = {}
def setup(R):
    """a shapefile pair, made once from a .scc by the reference naming"""
    import craterstats as cst
    os.makedirs('mk', exist_ok=True)
    ref.write('mk/q.scc', 'Total_area = 30.25 <km^2>\nTotal_perimeter = 23.125 <km>\na_axis_radius = 1737.4 <km>\nunit_boundary = {vertex, sub_area, tag, lon, lat\n1 1 ext 0 0\n2 1 ext 0 1\n3 1 ext 1 1\n4 1 ext 0 0\n}\n'
              'crater = {diam, fraction, lon, lat, tag\n' + ''.join(f'{.2 * 1.1 ** i:.4f} 1 {.2 + .02 * i} .7 standard\n' for i in range(6)) + '}\n')
    cst.Spatialcount('mk/q.scc').writeSHPfiles('mk/q.shp')
    SHP['e'], SHP['f'] = {}, {}
    for k in os.listdir('mk'):
        b = open('mk/' + k, 'rb').read()
        if k.startswith('q_'):
            SHP['e']['e' + k[1:]] = b
            n, ext = k[2:].split('.')
            SHP['f'][f'{n}_f.{ext}'] = b

PAIR = [f'_{a}.{e}' for a in ('CRATER', 'AREA') for e in ('shp', 'shx', 'dbf', 'prj', 'qml')]

def requested(o, d, stem):
    """(base name relative to the top, extension in the name)"""
    if o is None: return 'run/' + stem, None
    p = os.path.join(d, o.replace('ABS', d))
    if os.path.isdir(p): return os.path.relpath(os.path.join(p, stem), os.path.dirname(d)), None
    b, ext = os.path.splitext(p)
    if len(ext) > 5: b, ext = p, ''        # not a format
    return os.path.relpath(b, os.path.dirname(d)), ext[1:] or None

def run(s, R):
    top = cli.fresh_dir('c20')
    os.makedirs(top + '/run')
    d = fixture(top)
    o = OUTS[s['o']]
    oarg = [] if o is None else ['-o', o.replace('ABS', d)]
    before = cli.tree(top)
    R.state(tuple(s.items()))
    if 'conv' in s:
        fmt, src = CONV[s['conv']]
        stem = os.path.splitext(os.path.basename(src))[0].replace('_CRATER', '').replace('CRATER_', '')
        r = cli.run(['--convert', fmt, src] + oarg, d)
        b, _ = requested(o, d, stem)
        f = fmt.lstrip('.')
        exp = {b + x for x in PAIR} if f == 'shp' else {b + '.' + f} if f in ('stat', 'scc') else {b + '_map.' + f, b + '_map.cs'}
        what = lambda: f"--convert {fmt} {src} {oarg}: {r.why()}"
        opt = set()
    elif 'merge' in s:
        r = cli.run(['-m', 'a.diam', 'sub/d.diam'] + oarg, d)
        b, ext = requested(o, d, 'a_d')
        what = lambda: f'merge {oarg}: {r.why()}'
        exp, opt = {b + '.diam'}, set()
    else:
        pl = PLOTS[s['k']]
        args = ['-pr', s['pr']] + (['-f'] + FMT[s['f']] if FMT[s['f']] else []) + oarg
        for p in pl: args += ['-p', p.replace('ABS', d)]
        if s['pr'] == 'uncertainty': args += ['-ns', '3', '-d_min', '.5']
        if s.get('st'): args += ['-st']
        what = lambda: f'{args} {s.get("inp", "")}: {r.why()}'
        stem = '_'.join(STEMS[s['k']]) or 'out'
        if s['pr'] in ('chronology', 'rate'): stem = 'MoonNeukum1983_' + s['pr']
        if s['pr'] == 'uncertainty': stem = 'MoonNeukum1983_0.5_uncertainty'
        if 'inp' in s:
            import shlex
            ref.write(d + '/sub/cmd 1.cs', ' '.join(shlex.quote(a if not a.startswith('source=') else a.replace('source=', 'source=../') if not a.startswith('source=/') else a) for a in (args if s['inp'] == 'in' else [a for a in args if a not in oarg])))
            before = cli.tree(top)
            r = cli.run(['-i', 'sub/cmd 1.cs'] + (oarg if s['inp'] == 'inarg' else []), d)
            # paths inside and after the file are relative to it
            b, ext = requested(o, d + '/sub', 'cmd 1') if o else ('run/sub/cmd 1', None)
            if o == 'dir': b, ext = 'run/sub/dir', None
            b = os.path.relpath(os.path.join(d, 'sub', o.replace('ABS', d)) if o else d + '/sub/cmd 1', top) if o != 'ABS/dir' else 'run/dir/cmd 1'
            if o == 'sub/res': return       # no such directory there
        else:
            r = cli.run(args, d)
            b, ext = requested(o, d, stem)
        fm = set(FMT[s['f']]) if FMT[s['f']] else {'png', 'csv'}
        opt = set()
        if ext:
            if FMT[s['f']]: opt.add(ext) if ext not in fm else None
            else:
                opt |= fm - {ext}; fm = {ext}       # default formats may accompany
        seq = s['pr'] == 'sequence'
        if not (AGE[s['k']] or seq and s['k']): fm.discard('csv'); opt.discard('csv')
        panels = ['_k', '_err', '_age'] if s['pr'] == 'uncertainty' else ['']
        if s['pr'] == 'uncertainty': fm.discard('csv'); opt.discard('csv')
        exp = {f'{b}{p}.{f}' for f in fm for p in panels}
        opt = {f'{b}{p}.{f}' for f in opt for p in panels}
        if 'inp' not in s: exp.add(b + '.cs')
        if s.get('st') and (s['k'] in (6, 10, 11) or seq and s['k'] == 2): exp.add(b + '_sequence.csv')
    R.step(); R.trace()
    R.expect(r.ok, 'run-failed', what)
    after = cli.tree(top)
    got = {k for k in after if before.get(k) != after[k]}
    lost = set(before) - set(after)
    R.expect(not lost, 'file-removed', lambda: f'{lost} {what()}')
    R.expect(exp <= got, 'file-missing', lambda: f'missing {sorted(exp - got)} written {sorted(got)}; {what()}')
    R.expect(got <= exp | opt, 'unexpected-file', lambda: f'unexpected {sorted(got - exp - opt)} expected {sorted(exp)}; {what()}')
    R.expect(all(after[k] for k in got), 'empty-file', lambda: str([k for k in got if not after[k]]))
    R.outcome(tuple(sorted(got)))
