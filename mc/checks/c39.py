"""The same settings in every order, under every name, in included and input files nested in every way: one meaning."""
import itertools, os
from .. import cli, ref
from . import c17, c38
TECHNIQUE = 'model checking: exhaustive enumeration of all orders of a command, of all ways to move contiguous parts of it into (nested) settings files and command files, of all option spellings and of all orders of overplot keys, each run through the real command line and compared with the plain command'
RULE = ('orders = all interleavings of the figure options with the overplots (whose own order is kept); files = all contiguous ranges and nested or disjoint pairs of ranges of a command that repeats options x {-inc, -i} x places of the files x layouts; '
        'names = every option by its short and long name, detached and with =; keys = all permutations of the keys of an overplot; state = (command, arrangement)')
LIMIT = 600

PL = [['-p', 'source=a.diam,colour=teal1'], ['-p', 'type=poisson,range=[.4,4],isochron=1'], ['-p', 'source=b.diam,type=c-fit,range=[.3,2],name=B unit']]
MIX = [
    [['-title', 'One', 'two|three'], ['-pr', 'cum'], ['-xrange', '-2', '2'], ['-ef', 'trask']],
    [['-legend', 'fnA'], ['-mu', '0'], ['-isochrons', '1,3.7a'], ['-f', 'png', 'csv']],
    [['-pr', 'seq'], ['-ep', 'moon'], ['-xrange', '4', '1'], ['-st']],
    [['-cs', 'mars, hart'], ['-sf', '2'], ['-invert'], ['-pd', '8x6']],
    [['-pr', 'hart'], ['-cs', 'hartmanndaubar2016'], ['-b'], ['-o', 'res']],
    [['-style', 'root-2'], ['-transparent'], ['-yrange', '-5', '0'], ['-o', 'res.csv']],
    [['-pr', 'R-p'], ['-ref_diameter', '10'], ['-tight', '1'], ['-pt_size', '7']],
    [['-text_halo', '0'], ['-ep', 'mars, m'], ['-cs', 'neukumivanov'], ['-legend', '0']],
]
# commands whose options are repeated, so that the position of a part matters: the last one counts
SEQ = [[['-title', 'First'], ['-p', 'source=a.diam'], ['-pr', 'cum'], ['-title', 'Second | line'], PL[1], ['-pr', 'diff']],
       [['-p', 'source=b.diam,name=one two'], ['-sf', '2'], ['-p', 'source=a.diam,type=d-fit,range=[.4,4]'], ['-sf', '3'], ['-legend', 'nA'], ['-xrange', '-1', '1']],
       [['-cs', 'mars, hart'], ['-invert'], PL[0], ['-invert', '0'], ['-cs', 'neukumivanov'], ['-p', 'type=poisson,name=x', 'y,range=[.4,4]']]]
LAYOUT = ('lines', 'one', 'args', 'comments', 'bom', 'crlf', 'nonl', 'quoted', 'blank')
PLACE = ('', 'sub/', 'ABS/', '../')
NAMES = [('-b', '--bins', []), ('-o', '--out', ['res']), ('-f', '--format', ['csv']), ('-f', '--format', ['png', 'csv']), ('-cs', '--chronology_system', ['hartmanndaubar2016']), ('-ef', '--equilibrium', ['trask']),
         ('-ep', '--epochs', ['moon']), ('-pr', '--presentation', ['cum']), ('-pr', '--presentation', ['seq']), ('-pd', '--print_dimensions', ['2']), ('-sf', '--sig_figs', ['2']), ('-st', '--sequence_table', [])]
KEYS = [['source=a.diam', 'type=poisson', 'range=[.4,4]', 'colour=red', 'name=A b, c'], ['source=b.diam', 'binning=root-2', 'psym=fo', 'error_bars=0', 'hide=0'],
        ['source=a.diam', 'type=c-fit', 'range=[.4,4]', 'resurf=1', 'resurf_showall=1'], ['source=a.diam', 'type=d-fit', 'isochron=1', 'offset_age=[2,-3]', 'age_left=1'], ['source=b.diam', 'type=poisson', 'snap=0', 'range=[.35,3.3]', 'show_age=0']]

def orders(opts, plots):
    """all interleavings"""
    n = len(opts) + len(plots)
    for pos in itertools.combinations(range(n), len(plots)):
        for p in itertools.permutations(range(len(opts))):
            o, q = iter(p), iter(range(len(plots)))
            yield [('p', next(q)) if i in pos else ('o', next(o)) for i in range(n)]

def chunks(L, n):
    for i in range(0, len(L), n): yield i, min(i + n, len(L))

def structures(n):
    """ranges of a command put into files: [(i, j)] one, nested pairs [(i, j), (k, l)], disjoint pairs"""
    R = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
    out = [[r] for r in R]
    for a in R:
        for b in R:
            if a[0] <= b[0] and b[1] <= a[1] and a != b: out.append([a, b])
            elif a[1] <= b[0]: out.append([a, b])
    return out

def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for m in range(len(MIX)):
        p = 3 if deep else 1 + m % 2
        N = len(list(orders(MIX[m], PL[:p])))
        for a, b in chunks(range(N), 30): out.append(dict(k='order', m=m, p=p, a=a, b=b))
    for c in range(len(SEQ)):
        S = structures(len(SEQ[c]))
        for a, b in chunks(S, 12):
            for place in (PLACE if deep else PLACE[:2]): out.append(dict(k='files', c=c, a=a, b=b, place=place, lay='lines'))
        for lay in LAYOUT[1:]:
            for place in (PLACE if deep else ('',)): out.append(dict(k='files', c=c, a=0, b=21 if not deep else len(S), place=place, lay=lay, every=1 if deep else 3))
    out.append(dict(k='names'))
    for i in range(len(KEYS)):
        for f in range(len(KEYS[i])): out.append(dict(k='keys', i=i, first=f))
    out.append(dict(k='cmdname'))
    return out

WD = None
def wd():
    global WD
    if WD is None or not os.path.isdir(WD):
        top = cli.fresh_dir('c39')
        WD = os.path.join(top, 'run')
        os.makedirs(WD + '/sub')
        ref.write(os.path.join(WD, 'a.diam'), ref.diam_text(1e4, [dict(diameter=d) for d in c38.DA], ('diameter',)))
        ref.write(os.path.join(WD, 'b.diam'), ref.diam_text(2500., [dict(diameter=d) for d in c38.DB], ('diameter',), perimeter=210))
        # a count of the same name beside the settings files: sources belong to the command, not to the settings file
        for x in ('a', 'b'): ref.write(os.path.join(WD, 'sub', x + '.diam'), ref.diam_text(77., [dict(diameter=d) for d in (.5, 1.5, 2.5)], ('diameter',)))
    return WD

KEEP = ('a.diam', 'b.diam', 'sub/a.diam', 'sub/b.diam')
def clean(d):
    for root in (d, d + '/sub', os.path.dirname(d)):
        for f in os.listdir(root):
            p = os.path.join(root, f)
            if os.path.isfile(p) and os.path.relpath(p, d) not in KEEP: os.remove(p)

def result(R, argv, what, cwd=None):
    """everything the command gives: settings, drawing, tables, names of the files"""
    d = wd()
    before = cli.tree(os.path.dirname(d))
    r = cli.run(argv, cwd or d); R.step(); R.trace()
    R.expect(r.ok, 'command-fails', lambda: f'{what()}: {r.why()}')
    got = c17.products(os.path.dirname(d), before)
    cs = [k for k in got if k.endswith('.cs')]
    out = {k: v for k, v in got.items() if k not in cs}
    figs = [(os.path.basename(p), (s := c38.scene(f)) and (sorted(map(repr, s['els'])), sorted(map(repr, s['txt'])), s['leg'], s['page'], s['face'])) for p, f in r.saved]
    return dict(settings=c17.settings(r.cps), figures=figs, files=out), cs

def differ(a, b):
    for k in a:
        if a[k] != b[k]:
            if k == 'figures' and len(a[k]) == len(b[k]):
                for (n, x), (m, y) in zip(a[k], b[k]):
                    for u, v in zip(x, y):
                        if u != v: return f'figure {n} {m}: {[e for e in u if e not in v][:3] if isinstance(u, list) else u} / {[e for e in v if e not in u][:3] if isinstance(v, list) else v}'
                return f'{[n for n, x in a[k]]} {[n for n, x in b[k]]}'
            if isinstance(a[k], dict): return f'{k}: ' + str([(q, a[k].get(q), b[k].get(q)) for q in {**a[k], **b[k]} if a[k].get(q) != b[k].get(q)])
            return f'{k}: {a[k]} / {b[k]}'
    return ''

_ref = {}
def plain(R, argv):
    key = tuple(argv)
    if key not in _ref:
        clean(wd())
        _ref[key] = result(R, argv, lambda: f'{argv}')
    return _ref[key]

def same(R, argv, expected, what, cwd=None, csname=True):
    got, cs = result(R, argv, what, cwd)
    w, wcs = expected
    R.expect(got == w, 'meaning-differs', lambda: f'{what()}: {differ(got, w)}'[:1500])
    if csname: R.expect(cs == wcs, 'command-file', lambda: f'{what()}: {cs} expected {wcs}')

def run(s, R): globals()[s['k']](s, R)

def csvtoo(opts): return [] if any(o[0] in ('-f', '--format') for o in opts) else ['-f', 'csv', 'png']

def order(s, R):
    opts, plots = MIX[s['m']], PL[:s['p']]
    L = list(orders(opts, plots))
    ex = csvtoo(opts)
    ref0 = plain(R, [a for u in [*opts, *plots] for a in u] + ex)
    for n in range(s['a'], s['b']):
        argv = ex + [a for t, i in L[n] for a in (opts if t == 'o' else plots)[i]]
        clean(wd())
        same(R, argv, ref0, lambda: f'{argv}')
        R.state((s['m'], s['p'], n))
    R.outcome(('order', s['m']))

def text(units, lay):
    import shlex
    q = lambda a: shlex.quote(a)
    lines = [' '.join(map(q, u)) for u in units]
    if lay == 'one': t = ' '.join(lines) + '\n'
    elif lay == 'args': t = '\n'.join(q(a) for u in units for a in u) + '\n'
    elif lay == 'comments': t = '# settings, it\'s -title x\n' + ''.join(l + '\n  # -p source=none\n' for l in lines)
    elif lay == 'bom': t = '\ufeff' + '\n'.join(lines) + '\n'
    elif lay == 'crlf': t = '\r\n'.join(lines) + '\r\n'
    elif lay == 'nonl': t = '\n'.join(lines)
    elif lay == 'quoted': t = '\n'.join(' '.join('"' + a.replace('"', '\\"') + '"' for a in u) for u in units) + '\n'
    elif lay == 'blank': t = '\n\n' + '\n \n\t\n'.join('  ' + l for l in lines) + '\n\n'
    else: t = '\n'.join(lines) + '\n'
    return t

def write(path, t):
    with open(path, 'w', encoding='utf-8', newline='') as f: f.write(t)

def files(s, R):
    d = wd()
    U = SEQ[s['c']]
    ex = ['-f', 'csv', 'png']
    ref0 = plain(R, [a for u in U for a in u] + ex + ['-o', 'res'])
    S = structures(len(U))[s['a']:s['b']]
    place = s['place'].replace('ABS', d + '/sub')
    for st in S[::s.get('every', 1)]:
        nested = len(st) == 2 and st[1][1] <= st[0][1]
        for outer in ('-inc', '-i'):
            if outer == '-i' and s['place'] != '': continue       # a command file is at home with its sources
            clean(d)
            put = lambda name, units: write(os.path.join(d, place, name) if name != 'o.cs' else os.path.join(d, name), text(units, s['lay']))
            (i, j) = st[0]
            inc = ['-inc', place + 'n.txt']
            if nested:
                k, l = st[1]
                put('n.txt', U[k:l])
                body = [*U[i:k], inc, *U[l:j]]
            else: body = U[i:j]
            o = [outer, place + 'm.txt' if outer == '-inc' else 'o.cs']
            put('m.txt' if outer == '-inc' else 'o.cs', body)
            rest = U[j:]
            if len(st) == 2 and not nested:
                k, l = st[1]
                put('n.txt', U[k:l])
                rest = [*U[j:k], inc, *U[l:]]
            argv = [a for u in [*U[:i], o, *rest] for a in u] + ex + ['-o', 'res']
            same(R, argv, ref0, lambda: f'{argv} with {[(f, open(os.path.join(d, place, f)).read()) for f in ("m.txt", "n.txt") if os.path.exists(os.path.join(d, place, f))]}{open(d + "/o.cs").read() if outer == "-i" else ""}', csname=outer != '-i')
            R.state((s['c'], str(st), outer, s['place'], s['lay']))
    R.outcome(('files', s['c'], s['place'], s['lay']))

def names(s, R):
    for a, b, v in NAMES:
        base = [*PL[0], *PL[1]] + ([] if a == '-f' else ['-f', 'csv', 'png'])
        ref0 = plain(R, base + [a, *v])
        forms = [[a, *v], [b, *v]] + ([[f'{b}={v[0]}'], [f'{a}={v[0]}']] if len(v) == 1 else [])
        for f in forms:
            for argv in (base + f, f + base):
                clean(wd())
                same(R, argv, ref0, lambda: f'{argv}')
                R.state((a, str(f), argv[0]))
    # all at once
    on = dict(zip([n[0] for n in NAMES], NAMES))
    pick = [on[k] for k in ('-b', '-o', '-f', '-cs', '-ef', '-ep', '-pr', '-pd', '-sf', '-st')]
    lp = [a.replace('-p', '--plot', 1) if a == '-p' else a for a in PL[0] + PL[1]]
    ref0 = plain(R, [x for a, b, v in pick for x in (a, *v)] + PL[0] + PL[1])
    clean(wd())
    same(R, [x for a, b, v in pick for x in (b, *v)] + lp, ref0, lambda: 'all long names')
    # uncertainty
    for a, b, v in (('-d_min', '--min_diameter', ['.5']), ('-ns', '--n_samples', ['5'])):
        r = [cli.run(['-pr', 'uncertainty', '-d_min', '.3', '-ns', '4', x, *v, '-f', 'png', '-o', 'res'], wd()) for x in (a, b)]
        R.expect(all(x.ok for x in r), 'command-fails', lambda: f'{a}: {r[0].why()} {r[1].why()}')
        R.expect(c17.settings(r[0].cps) == c17.settings(r[1].cps), 'meaning-differs', lambda: f'{a} {b}')
        R.step(2)
    R.outcome('names')

def keys(s, R):
    K = KEYS[s['i']]
    ref0 = plain(R, ['-p', ','.join(K), *PL[2], '-f', 'csv', 'png'])
    for n, p in enumerate(itertools.permutations(range(len(K)))):
        if p[0] != s['first']: continue
        for form in (0, 1) if n % 4 == 0 else (n % 2,):
            q = [K[i] for i in p]
            argv = ['-f', 'csv', 'png', '-p', *(','.join(q).split(' ') if form else [','.join(q)]), *PL[2]]
            clean(wd())
            same(R, argv, ref0, lambda: f'{argv}')
            R.state((s['i'], n, form))
    R.outcome(('keys', s['i']))

def cmdname(s, R):
    """the products of a command file carry its name and go beside it, whatever settings files are included where"""
    d = wd()
    top = os.path.dirname(d)
    for sub, cwd, place, where in itertools.product(('', 'sub/'), (d, top), ('', 'sub/', '../', 'ABS/'), ('before', 'after', 'inside', 'none')):
        clean(d)
        home = os.path.join(d, sub)
        path = os.path.relpath(os.path.join(home, 'plan.cs'), cwd)
        # -inc after -i (and inside it) is read in the directory of the command file, before it in the starting directory
        base = cwd if where == 'before' else home
        pl = place.replace('ABS', d + '/sub')
        t = os.path.normpath(os.path.join(base, pl))
        if not os.path.isdir(t): continue
        inc = ['-inc', pl + 'set.txt']
        write(os.path.join(t, 'set.txt'), '-title From settings\n-sf 2\n')
        write(os.path.join(home, 'plan.cs'), '-f png csv\n-p source=a.diam,type=poisson,range=[.1,10]\n' + (' '.join(inc) + '\n' if where == 'inside' else ''))
        argv = [*(inc if where == 'before' else []), '-i', path, *(inc if where == 'after' else [])]
        before = cli.tree(top)
        r = cli.run(argv, cwd); R.step(); R.trace()
        what = lambda: f'{argv} in {os.path.relpath(cwd, top)}, settings {where} in {place!r}'
        R.expect(r.ok, 'command-fails', lambda: f'{what()}: {r.why()}')
        made = sorted(k for k, v in cli.tree(top).items() if before.get(k) != v)
        want = sorted(os.path.relpath(os.path.join(home, 'plan.' + e), top) for e in ('png', 'csv'))
        R.expect(made == want, 'products-of-command-file', lambda: f'{what()}: {made} expected {want}')
        t = c17.settings(r.cps)
        R.expect(len(t['plots'][0]['craters']) == (len(c38.DA) if sub == '' else 3), 'source-of-command-file', lambda: f'{what()}: {t["plots"][0]["craters"]}')
        R.expect(where == 'none' or t['title'] == 'From settings', 'settings-file-ignored', lambda: f'{what()}: {t["title"]}')
        R.state((sub, cwd == d, place, where))
    R.outcome('cmdname')
