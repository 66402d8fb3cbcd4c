"""Commands that cannot be carried out: every unusable value in every place of every kind of command, and every conversion pair; directory trees compared before and after."""
import itertools, os, shutil
from .. import ref, cli
from .c16 import WKT, write_shp
from .c29 import write_source, results_file, go, SRC, bins, actual
TECHNIQUE = 'model checking: exhaustive enumeration of unusable values x position x base command x formats, and of conversion pairs x output forms, through the real command line with complete directory trees before/after'
RULE = ('base commands = plots of 1-3 overplots in 6 presentations, uncertainty, randomness analysis, merge; unusable pieces = overplot settings in each overplot, figure options at front and back, missing and unusable sources in each position, impossible combinations; '
        'conversions = 12 formats x 8 kinds of source x output forms; state = (command); every command runs in a tree holding earlier results of the same names')
LIMIT = 600
S = '%sample%/'
PLOT = [['source=a.scc,name=A', 'type=poisson,range=[.2,3]', 'source=d.diam,psym=o'], ['source=d.diam,type=d-fit,range=[.5,4],colour=red'], ['source=q_CRATER.shp', 'source=t.stat,type=c-fit,range=[.5,4]', 'source=a.scc,type=poisson,range=[.2,3]']]
PRES = ['cumulative', 'differential', 'R-plot', 'Hartmann', 'sequence']
# an unusable setting of an overplot, and what the message has to mention
PIECE = [('type=zz', 'zz'), ('binning=zz', 'zz'), ('colour=zz', 'zz'), ('colour=#12', '#12'), ('colour=#12345g', '#12345g'), ('colour=#1234567', '#1234567'), ('colour=#12345678', '#12345678'), ('colour=#', '#'), ('colour=x#123456', 'x#123456'), ('psym=zz', 'zz'), ('foo=1', 'foo'), ('error_bars=x', 'x'), ('hide=x', 'x'), ('isochron=x', 'x'), ('snap=x', 'x'), ('age_left=x', 'x'),
         ('show_age=x', 'x'), ('resurf=x', 'x'), ('range=[x,y]', 'x'), ('range=[.1,y]', 'y'), ('offset_age=[a,b]', 'a'), ('offset_age=[1,b]', 'b'), ('source=none.scc', 'none.scc'), ('source=none.diam', 'none.diam'), ('source=none.stat', 'none.stat'),
         ('source=none_CRATER.shp', 'none_CRATER.shp'), ('source=note.txt', 'note.txt'), ('source=dir.scc', 'dir.scc'), ('source=dir.diam', 'dir.diam'), ('source=empty.diam', 'empty.diam'), ('source=empty.scc', 'empty.scc'), ('source=empty.stat', 'empty.stat'),
         ('source=note.scc', 'note.scc'), ('source=note.diam', 'note.diam'), ('source=note.stat', 'note.stat'), ('source=note_CRATER.shp', 'note_CRATER.shp'), ('source=lone_CRATER.shp', 'lone_CRATER.shp'), ('source=n.binned', 'n.binned'),
         ('source=d.diam,type=b-poisson,range=[.5,4]', 'perimeter')]
FRONT = [(['-cs', 'zz'], 'zz'), (['-cs', '99'], '99'), (['-ep', 'zz'], 'zz'), (['-ep', '99'], '99'), (['-ef', 'zz'], 'zz'), (['-ef', '99'], '99'), (['-pr', 'zz'], 'zz'), (['-f', 'zz'], 'zz'), (['-f', 'png', 'jpg'], 'jpg'), (['-xrange', 'a', '1'], 'a'), (['-yrange', '-1', 'b'], 'b'),
         (['-xrange', '1'], 'xrange'), (['-isochrons'], 'isochrons'), (['-ref_diameter', 'x'], 'x'), (['-pt_size', 'x'], 'x'), (['-sf', 'x'], 'x'), (['-unknown'], 'unknown'), (['-i', 'absent.cs'], 'absent.cs'), (['-inc', 'none.txt'], 'none.txt'), (['-i', 'wrong.cs'], None), (['-inc', 'wrong.cs'], None)]
OTHER = [(['-ra', 'a.scc', '-trials', '2', '-measure', 'zz'], 'zz'), (['-ra', 'a.scc', '-trials', '2', '-measure', 'sdaa,zz'], 'zz'), (['-ra', 'a.scc', '-trials', 'x'], 'x'), (['-ra', 'none.scc', '-trials', '2'], 'none.scc'), (['-ra', 'd.diam', '-trials', '2'], None), (['-ra', 'note.scc', '-trials', '2'], None),
         (['-ra', 'lone_CRATER.shp', '-trials', '2'], None), (['-ra'], 'ra'), (['-ra', 'dir.scc'], None),
         (['-m', 'a.scc', '-o', 'm'], None), (['-m', 'a.scc', 'none.scc', '-o', 'm'], 'none.scc'), (['-m', 'none.diam', 'd.diam', '-o', 'm'], 'none.diam'), (['-m', 'a.scc', 'd.diam', 't.stat', '-o', 'm'], 't.stat'), (['-m', 't.stat', 'd.diam', '-o', 'm'], 't.stat'), (['-m', 'note.txt', 'd.diam', '-o', 'm'], 'note.txt'),
         (['-m', 'd.diam', 'note.diam', '-o', 'm'], 'note.diam'), (['-m', 'd.diam', 'empty.scc', '-o', 'm'], 'empty.scc'), (['-m'], 'm'),
         (['-p', 'type=data'], None), (['-p', 'type=poisson,range=[.2,3]', '-p', 'source=a.scc'], None), (['-p', 'colour=red'], None), (['-p', 'source=a.scc,type=d-fit,range=[.5,.52]', '-o', 'x'], 'empty'), (['-p', 'source=d.diam', '-p', 'source=a.scc,type=d-fit,range=[.5,.52]', '-o', 'x', '-f', 'csv'], 'empty'), (['stray'], 'stray'), (['--convert', 'stat'], 'convert'), (['--convert', 'stat', 'a.scc', 'd.diam'], 'd.diam')]
FMTS = ['stat', 'scc', 'shp', 'png', 'svg', 'pdf', '.stat', '.scc', '.shp', '.png', 'diam', 'csv', 'tif', 'cs']
KIND = ['a.scc', 'q_CRATER.shp', 'd.diam', 't.stat', 'n.binned', 'none.scc', 'none_CRATER.shp', 'none.diam', 'none.stat', 'lone_CRATER.shp', 'note.scc', 'note_CRATER.shp', 'note.diam', 'note.txt', 'empty.scc', 'empty.diam', 'dir.scc', 'sub/b.scc', 'sub/c.diam', 'nosuffix']
COUT = [None, 'x', 'x.out', 'sub', 'sub/x']
CAN = {'scc': ('stat', 'shp', 'png', 'svg', 'pdf'), 'shp': ('stat', 'scc', 'png', 'svg', 'pdf'), 'diam': ('stat',)}     # docs/manual.md

def scenarios(tier):
    deep = tier == 'thorough'
    out = [dict(k='base')]
    for b, pr in itertools.product(range(len(PLOT)), range(len(PRES))):
        if pr and not deep and b != 0: continue
        for i in range(len(PIECE)):
            for pos in range(len(PLOT[b])):
                for only in (0, 1) if deep or not pr else (0,): out.append(dict(k='piece', b=b, pr=pr, i=i, pos=pos, out='x' if (i + pos) % 2 else None, only=only))
    for b in range(len(PLOT)):
        for i in range(len(FRONT)):
            for back in (0, 1): out.append(dict(k='option', b=b, i=i, back=back))
    for i in range(len(FRONT)): out.append(dict(k='option', b=-1, i=i, back=1))
    for i in range(len(OTHER)): out.append(dict(k='other', i=i))
    for f, s in itertools.product(FMTS, KIND):
        for o in COUT if deep or s in KIND[:4] else COUT[:1] + COUT[3:4]: out.append(dict(k='conv', f=f, s=s, o=o))
    return out

def fixture():
    d = cli.fresh_dir('c36')
    for x in ('sub', 'dir.scc', 'dir.diam'): os.makedirs(f'{d}/{x}')
    src = next(s for s in SRC if bins(s, 'sdaa') and bins(s, 'm2cnd'))
    write_source(d, src, 'a'); write_source(d + '/sub', src, 'b')
    results_file(f'{d}/a_ra.txt', {'m2cnd': (1, {b: [float(f'{actual(src, "m2cnd", b):.7g}')] for b in bins(src, 'm2cnd')})})
    rows = [dict(diameter=repr(round(.5 * 1.17 ** i, 4)), fraction='1') for i in range(14) for _ in range(3)]
    for n in ('d', 'sub/c'): ref.write(f'{d}/{n}.diam', ref.diam_text('1200', rows))
    ref.write(d + '/t.stat', STAT); ref.write(d + '/nosuffix', STAT)
    ref.write(d + '/n.binned', 'area=100\ntable={diameter, frequency\n1 5\n1.4 4\n2 2\n}\n')
    ref.write(d + '/wrong.cs', '-pr differential -unknown\n')
    for n in ('note.txt', 'note.scc', 'note.diam', 'note.stat', 'note_CRATER.shp', 'note_AREA.shp', 'note_CRATER.prj', 'note_AREA.prj'): ref.write(f'{d}/{n}', 'Dear reader,\n\nthese are not craters = 5\n')
    for n in ('empty.scc', 'empty.diam', 'empty.stat'): ref.write(f'{d}/{n}', '')
    for k, v in SHP.items():
        open(f'{d}/{k}', 'wb').write(v)
        if 'CRATER' in k: open(f'{d}/lone{k[1:]}', 'wb').write(v)
    for n in OLD: ref.write(f'{d}/{n}', 'earlier result')
    return d

OLD = [f'{n}.{e}' for n in ('x', 'out', 'a_d', 'd', 'm', 'zz', 'a_q_t', 'none', 'a_map', 'sub/x', 'sub/a', 'lone') for e in ('cs', 'csv', 'png', 'pdf', 'svg', 'stat')] + ['x_sequence.csv', 'm.diam', 'x.out', 'MoonNeukum1983_0.15_uncertainty.cs']
STAT = ''.join(f'{1.2 ** i:<9.4g} {9 - i} 1e-3 1e-3 {sum(range(1, 10 - i))} {sum(range(1, 10 - i)) / 900:.6E} 1e-3\n' for i in range(9))
SHP = {}

def setup(R):
    import craterstats
    os.makedirs('mk', exist_ok=True)
    sh = [(0, 0), (0, 5), (6, 5), (6, 0)]
    write_shp('mk', 'q', [[(sh, [])]], [(3, 3, .002, 1), (4, 1, .004, 1), (.5, .5, .01, 1)], (WKT.format(1737400), lambda r: r))
    for k in os.listdir('mk'): SHP[k] = open('mk/' + k, 'rb').read()

def command(b, pr, plots=None, front=(), back=(), out='x', fmt=('csv', 'png')):
    a = list(front)
    if b >= 0:
        if pr is not None: a += ['-pr', PRES[pr]]
        if out: a += ['-o', out]
        for p in plots or PLOT[b]: a += ['-p', p]
        a += ['-f', *fmt]
    else: a += ['-pr', 'uncertainty', '-ns', '3', '-cs', 'ni2001', '-o', 'x']
    return a + list(back)

def refused(R, argv, mention, d=None):
    d = d or fixture()
    before = cli.tree(d)
    dirs = sorted(os.listdir(d))
    r = go(argv, d, figures=True)
    after = cli.tree(d)
    R.step(); R.trace(); R.state(tuple(argv))
    what = lambda: f'{argv}: {r.out[-200:]} {r.why()[-700:]}'
    R.expect(not r.ok, 'accepted', what)
    R.expect(r.exc is not None or r.exit not in (0, None, ''), 'no-failure-status', what)
    ch = [k for k in sorted(set(after) | set(before)) if after.get(k) != before.get(k)]
    R.expect(not ch and sorted(os.listdir(d)) == dirs, 'files-touched', lambda: f'{ch}: {what()}')
    said = f'{r.exit} {r.exc} {r.err}'
    R.expect(mention is None or mention in said, 'not-said', what)
    R.outcome((said[:60]))

def run(s, R):
    k = s['k']
    if k == 'base':
        for b, pr in itertools.product(range(len(PLOT)), range(len(PRES))):
            for o in ('x', None):
                d = fixture()
                r = go(command(b, pr, out=o), d, figures=True)
                R.step()
                R.expect(r.ok, 'refused', lambda: f'{command(b, pr)}: {r.why()}')
        d = fixture()
        r = go(command(-1, None), d, figures=True)
        R.expect(r.ok, 'refused', lambda: f'{command(-1, None)}: {r.why()}')
    elif k == 'piece':
        p, m = PIECE[s['i']]
        P = list(PLOT[s['b']])
        if s['pos'] == 0 and 'source' in p: P[0] = p if ',type' in p else p + ',' + P[0].split(',', 1)[1] if ',' in P[0] else p
        elif 'source' in p: P[s['pos']] = p
        else: P[s['pos']] += ',' + p
        refused(R, command(s['b'], s['pr'], P, out=s['out'], fmt=('csv',) if s.get('only') else ('csv', 'png')), m)
    elif k == 'option':
        o, m = FRONT[s['i']]
        refused(R, command(s['b'], None, **{'back' if s['back'] else 'front': o}), m)
    elif k == 'other': refused(R, *OTHER[s['i']])
    else: conversion(R, s)

def conversion(R, s):
    d = fixture()
    f, src = s['f'].lstrip('.'), s['s']
    kind = src.rsplit('.', 1)[1] if '.' in src else ''
    argv = ['--convert', s['f'], src] + (['-o', s['o']] if s['o'] else [])
    usable = src in ('a.scc', 'q_CRATER.shp', 'd.diam', 'sub/b.scc', 'sub/c.diam')
    if f in CAN.get(kind, ()) and not usable: return refused(R, argv, None, d)
    before = cli.tree(d)
    r = go(argv, d, figures=True)
    after = cli.tree(d)
    R.step(); R.trace(); R.state(tuple(argv))
    what = lambda: f'{argv}: {r.out[-200:]} {r.why()[-700:]}'
    ch = [k for k in sorted(set(after) | set(before)) if after.get(k) != before.get(k)]
    if f in CAN.get(kind, ()):
        R.expect(r.ok, 'conversion-fails', what)
        R.expect(any(c.endswith('.' + f) for c in ch), 'nothing-written', lambda: f'{ch} {what()}')
        R.expect('written' in r.out, 'not-said', what)
    else:
        R.expect(not ch, 'files-touched', lambda: f'{ch} {what()}')
        R.expect('written' not in r.out, 'claims-success', what)
        R.expect(not r.ok or 'not supported' in r.out, 'not-said', what)
    R.outcome((f, kind, r.ok, len(ch)))
