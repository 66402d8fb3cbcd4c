"""Command files: run a command, then run the file it wrote, from every kind of working directory; both runs must agree in everything."""
import itertools, json, os, shutil
from .. import ref, cli
TECHNIQUE = 'model checking: exhaustive enumeration of argument vectors (all option values, all pairs of options, all overplot lists <= 2 entries) as run/replay histories of the real command line'
RULE = ('history = run the command in its data directory, remove its products, then replay the written .cs from {same directory, parent, sibling, child by relative path, elsewhere by absolute path}, with and '
        'without hand edits (comments, blank lines) and later overriding options; state = argument vector; oracle = the first run')
LIMIT = 300

TEXT = ["it's", 'say "hi"', 'two  words', '-5 km', '-12', '-', '#1', '# c', '$HOME `ls`', 'a\\b', 'ü√2 σ', '', 'a|b', '%sample%/', 'x;y', '*', '~x', '-z q', '- a', "'", '"', "\\'", '-a #b "c"', 'x = y', "-'", '-"x', '(a) & b', ' lead', 'trail ', '-1e3', '-.5', '--', '-3-4', '!a', 'a\tb', '{1}', '#']
NAMES = ["n1", "it's", 'a b', '#2', '"q"', 'x;y', '-m', '$a', 'σ (2)', "o'x\"y", 'a, b', '-2 km', '\\n']
OPTS = [['-cs', 'Moon, Neukum et al. (2001)'], ['-cs', 'hd16'], ['-ef', 'trask'], ['-ep', 'wilh'], ['-pr', 'cum'], ['-pr', 'R-plot'], ['-pr', 'diff'], ['-pr', 'Hart'], ['-pr', 'seq'], ['-xrange', '-3', '2'],
        ['-xrange', '-2.5', '-1'], ['-yrange', '-5', '1'], ['-yrange', '-4.25', '.5'], ['-isochrons', '1,3.7a,4h'], ['-legend', '0'], ['-legend', 'nA'], ['-style', 'root-2'], ['-mu'], ['-mu', '0'], ['-invert'], ['-invert', '1'],
        ['-text_halo', '0'], ['-transparent'], ['-tight', '1'], ['-pd', '8x6'], ['--print_dimensions', '2'], ['-pt_size', '7.5'], ['-ref_diameter', '10'], ['-sf', '2'], ['-st'], ['-b'], ['-d_min', '.5'],
        ['-f', 'csv'], ['-f', 'svg', 'csv'], ['--format', 'pdf'], ['-o', 'res'], ['-o', 'my', 'plot'], ['-o', 'my plot'], ['-o', 'out2.svg'], ['-o', 'res-1_b'], ['--out=res3'], ['-title', 'one', 'two  three'], ['--font', 'Noto', 'Sans'], ['-ra_show', '0'], ['-ra_offset', '-3'],
        ['-title=x y'], ['--chronology_system=neuk (1983)'], ['--print_dimensions=8x6'], ['-trials', '5']]
PLOTS = [['source=a.diam'], ['source=b c.diam,type=pois,range=[.9,20]'], ['source=b', 'c.diam,type=d-fit,range=[.9,', '20],resurf=0'], ['src=a.diam,type=c-fit,range=[1,10],resurf=1,colour=#a0B0c0'],
         ['source=sub/d.diam,psym=o,hide=1,offset_age=[-1,2]'], ['source=a.diam,type=poisson,range=[b2,b-2],snap=0,col=red'], ['type=b-pois,source=e.scc,name=- buf,range=[.2,2]'], ['source=%sample%/c1.scc,iso=1,error_bars=0,binning=root-2'],
         ['source="b c.diam",type=data'], ['type=poiss,range=[1,4]'], ['source=./a.diam,age_left=1,show_age=0'], ['source=sub/../a.diam'], ['source=ABS/b c.diam,type=c-fit,range=[1,10]'], ['source=b c.diam,name=A,B']]
REPLAYS = ['same', 'parent', 'sibling', 'child', 'abs', 'dot']

def scenarios(tier):
    out = []
    for i in range(len(TEXT)):
        for opt in ('-title',):
            for p in (0, 1): out.append(dict(args=[[opt, TEXT[i]]], plots=[p]))
            out.append(dict(args=[[opt, 'x', TEXT[i], 'y']], plots=[1]))
    for n in NAMES:
        for p in (0, 1, 5): out.append(dict(args=[], plots=[p], name=n))
    for a in OPTS:
        for p in ([0], [1, 2], [3], [5, 0], [6]): out.append(dict(args=[a], plots=p))
    for p in itertools.product(range(len(PLOTS)), repeat=2): out.append(dict(args=[], plots=list(p)))
    for a, b in itertools.permutations(OPTS, 2): out.append(dict(args=[a, b], plots=[1, 9] if len(str(a)) % 2 else [0, 5], few=1))
    for p in ([], ): 
        for a in (['-pr', 'chron'], ['-pr', 'rate'], ['-pr', 'seq']):
            for b in OPTS + [[]]: out.append(dict(args=[a, b], plots=[], few=1))
    ov = [['-title', 'NEW'], ['-pr', 'cum'], ['-cs', 'hd16'], ['-mu', '0'], ['-o', 'other'], ['-f', 'csv'], ['-legend', 'c'], ['-xrange', '-2', '1'], ['-sf', '2'], ['-isochrons', '1']]
    for o in ov:
        for a in OPTS: out.append(dict(args=[a], plots=[1, 2], over=o))
        for o2 in ov: out.append(dict(args=[o], plots=[5], over=o2))
    if tier == 'thorough':
        for p in itertools.product(range(len(PLOTS)), repeat=3): out.append(dict(args=[], plots=list(p), few=1))
        for a, b in itertools.combinations(OPTS, 2):
            for t in TEXT: out.append(dict(args=[a, ['-title', t], b], plots=[1, 2], few=1))
    for i, t in enumerate(TEXT):
        for n in NAMES: out.append(dict(args=[['-title', t]], plots=[1, 5], name=n, few=1))
    return out

def fixture(d):
    os.makedirs(d + '/sub')
    rows = [dict(diameter=repr(round(.9 * 1.17 ** i, 4)), fraction='1') for i in range(14) for _ in range(14 - i)]
    ref.write(d + '/a.diam', ref.diam_text('1200', rows))
    ref.write(d + '/b c.diam', ref.diam_text('3000', rows[10:]))
    ref.write(d + '/sub/d.diam', ref.diam_text('10', rows[5:40]))
    ref.write(d + '/e.scc', 'Total_area = 30.25 <km^2>\nTotal_perimeter = 23.125 <km>\nunit_boundary = {vertex, sub_area, tag, lon, lat\n1 1 ext 0 0\n2 1 ext 0 1\n3 1 ext 1 1\n4 1 ext 0 0\n}\n'
              'crater = {diam, fraction, lon, lat, tag\n' + ''.join(f'{.2 * 1.1 ** i:.4f} 1 0 .1 standard\n' for i in range(20)) + '}\n')

def plain(x):
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)): return sorted(map(str, x))
    if isinstance(x, dict): return {str(k): plain(v) for k, v in x.items()}
    if hasattr(x, 'tolist'): return plain(x.tolist())
    if isinstance(x, float): return float(f'{x:.12g}')
    return x

def pure(x):
    if isinstance(x, (list, tuple, set)): return all(pure(v) for v in x)
    if isinstance(x, dict): return all(pure(v) for v in x.values())
    return isinstance(x, (str, int, float, bool, type(None))) or hasattr(x, 'tolist')

def settings(cps):
    if cps is None: return None
    s = {}
    for k, v in vars(cps).items():
        if k in ('craterplot', 'marker_def', 'palette', 'position', 'fig') or not pure(v): continue
        s[k] = plain(v) if k != 'out' else os.path.basename(str(v))
    s['pf'], s['cf'] = cps.pf.name, cps.cf.name
    s['ef'] = getattr(cps.ef, 'name', None); s['ep'] = getattr(cps.ep, 'name', None)
    s['plots'] = []
    for cp in cps.craterplot:
        d = {}
        for k, v in vars(cp).items():
            if k == 'source': v = os.path.basename(v)
            if pure(v): d[k] = plain(v)
        d['craters'] = plain(cp.cratercount.diam); d['area'] = cp.cratercount.area
        s['plots'].append(d)
    return s

def products(d, before):
    """files written: {name: content}; in tables the source column loses its directory"""
    out = {}
    for k, v in cli.tree(d).items():
        if before.get(k) == v: continue
        if k.endswith('.csv') and not k.endswith('_sequence.csv'):
            rows = cli.read_csv(os.path.join(d, k))
            if len(rows) > 2:
                h = rows[2].index('Source') if 'Source' in rows[2] else None
                for r in rows[3:]:
                    for i, c in enumerate(r): 
                        if '.diam' in c or '.scc' in c: r[i] = os.path.basename(c)
            v = rows
        out[k] = v
    return out

def run(s, R):
    top = cli.fresh_dir('c17')
    d = top + '/run'
    os.makedirs(top + '/sib'); os.makedirs(top + '/run/kid')
    fixture(d)
    args = [x for a in s['args'] for x in a]
    if '-f' not in args and '--format' not in args: args += ['-f', 'csv']
    for j, p in enumerate(s['plots']):
        q = [x.replace('ABS', d) for x in PLOTS[p]]
        if 'name' in s and j == 0: q = q[:-1] + [q[-1] + ',name=' + s['name']]
        args += ['-p'] + q
    before = cli.tree(top)
    r0 = cli.run(args, d); R.step()
    if not r0.ok:
        R.count('rejected commands'); R.state(('rejected', tuple(args)))
        # the argument parser takes a title that begins with '-' for an option; a buffered count (the type is carried over) needs a perimeter; the first overplot needs a source; nothing else here is refused
        R.expect(r0.exc is None and (6 in s['plots'] and 'requires polygon perimeter' in str(r0.exit) or s['plots'][0] == 9 and r0.exit == 'Source not specified') or r0.exc is None and any(a[0] == '-title' and any(x[:1] == '-' for x in a[1:]) for a in s['args']), 'run-failed', lambda: f'{args} {r0.why()}')
        return
    want = products(top, before)
    R.state(tuple(args))
    css = [k for k in want if k.endswith('.cs')]
    R.expect(len(css) == 1 and os.path.dirname(css[0]) == 'run', 'no-command-file', lambda: f'{args} wrote {sorted(want)}')
    if 'over' in s: return override(s, R, top, d, args, before, css[0], want)
    S0 = settings(r0.cps)
    cs = css[0]; csb = want.pop(cs)
    f = os.path.basename(cs)
    modes = REPLAYS if not s.get('few') else [REPLAYS[i] for i in (len(args) % 4, 4)]
    for m in modes:
        for k in want: os.remove(os.path.join(top, k))
        cwd, path = dict(same=(d, f), parent=(top, 'run/' + f), sibling=(top + '/sib', '../run/' + f), child=(d + '/kid', '../' + f), abs=(top + '/sib', d + '/' + f), dot=(d, './' + f))[m]
        if m == 'dot':      # hand-edited with comments and blank lines
            L = csb.decode().split('\n')
            ref.write(os.path.join(d, f), '# plot\n\n' + '\n\n   # c "x\n'.join(L) + '\n')
        r1 = cli.run(['-i', path], cwd); R.step(); R.trace()
        what = lambda: f'command {args}\nfile:\n{csb.decode()}\nreplayed ({m}): {r1.why()}'
        R.expect(r1.ok, 'replay-failed', what)
        if m == 'dot':
            cs1 = open(os.path.join(d, f), 'rb').read()
            R.expect(cs1.startswith(b'# plot'), 'command-file-rewritten', what)
            ref.write(os.path.join(d, f), csb.decode())
        S1 = settings(r1.cps)
        if S1 != S0:
            diff = [(k, S0[k], S1.get(k)) for k in S0 if S0[k] != S1.get(k)]
            R.expect(False, 'settings-differ', lambda: f'{diff}'[:700] + '\n' + what())
        got = products(top, before)
        c2 = got.pop(cs, None)
        R.expect(c2 == csb, 'command-file-rewritten', what)
        R.expect(got == want, 'products-differ', lambda: f'first {sorted(want)} replay {sorted(got)} differing {[(k, want[k], got.get(k)) for k in want if want[k] != got.get(k)]}'[:900] + '\n' + what())
    R.outcome(repr(S0))

def override(s, R, top, d, args, before, cs, want):
    """-i file, then options: equals the command with those options appended"""
    f = os.path.basename(cs)
    csb = want[cs]
    o = s['over']
    for k in want:
        if k != cs: os.remove(os.path.join(top, k))
    r1 = cli.run(['-i', f] + o, d); R.step(); R.trace()
    what = lambda: f'command {args} then -i {f} {o}: {r1.why()}'
    R.expect(r1.ok, 'override-failed', what)
    got = products(top, before)
    R.expect(got.pop(cs, None) == csb, 'command-file-rewritten', what)
    S1 = settings(r1.cps)
    for k in list(got): os.remove(os.path.join(top, k))
    os.remove(os.path.join(top, cs))
    if '-o' not in args + o and not any(x.startswith('--out') for x in args): o = o + ['-o', os.path.splitext(f)[0]]
    r2 = cli.run(args + o, d); R.step()
    R.expect(r2.ok, 'run-failed', lambda: f'{args + o} {r2.why()}')
    S2 = settings(r2.cps)
    R.expect(S1 == S2, 'override-settings', lambda: f'{[(k, S2[k], S1.get(k)) for k in S2 if S2[k] != S1.get(k)]} {what()}'[:1500])
    exp = {k: v for k, v in products(top, before).items() if not k.endswith('.cs')}
    R.expect(got == exp, 'override-products', lambda: f'{sorted(got)} expected {sorted(exp)}; {what()}')
