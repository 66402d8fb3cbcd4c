"""Merging: every merge tree over a set of count files, through the command line, against multiset union."""
import itertools, math, os
import numpy as np
from .. import ref, cli
TECHNIQUE = 'model checking: exhaustive enumeration of merge trees (all multisets of <= 4 sources, all orders and groupings) executed through the command line; multiset union as reference model'
RULE = ('sources = {.diam, .diam with perimeter, .diam with fractions, .scc, .scc without perimeter, single crater, shapefile pair, name with space}; all merges of <= 3 sources in every order, '
        'and all binary trees over 3-4 sources with intermediate files; state = multiset of (crater, fraction), area, perimeter')
LIMIT = 200
SRC = ['a.diam', 'b.diam', 'c.diam', 'd.scc', 'e.scc', 'f g.diam', 'h_CRATER.shp', 'sub/k.diam']

def scenarios(tier):
    out = []
    n = len(SRC)
    for k in (2, 3):
        for p in itertools.product(range(n), repeat=k): out.append(dict(t=list(p)))
    def trees(xs):
        if len(xs) == 1: yield xs[0]; return
        for i in range(1, len(xs)):
            for a in trees(xs[:i]):
                for b in trees(xs[i:]): yield [a, b]
    for c in itertools.combinations(range(n), 3):
        for p in itertools.permutations(c):
            for t in trees(p): out.append(dict(t=t))
    for c in itertools.combinations(range(n), 4):
        for p in (itertools.permutations(c) if tier == 'thorough' else [c, c[::-1], (c[1], c[3], c[0], c[2])]):
            out.append(dict(t=list(p)))
            for t in trees(p): out.append(dict(t=t))
    out += [dict(name=list(p)) for p in itertools.product(range(n), repeat=2)]
    out += [dict(bad=b) for b in (['s.stat', 'a.diam'], ['a.diam', 's.stat'], ['a.diam', 'b.diam', 's.stat'], ['a.diam'], ['a.diam', 'missing.diam'])]
    return out

def setup(R):
    import craterstats as cst
    wd = cli.fresh_dir('c15')
    os.makedirs(wd + '/sub')
    def w(n, t): ref.write(wd + '/' + n, t)
    rows = lambda ds, fr: [dict(diameter=repr(d), fraction=repr(f)) for d, f in zip(ds, fr)]
    w('a.diam', ref.diam_text('12.5', rows([1., 2.5, 1.], [1, 1, 1]), ('diameter',)))
    w('b.diam', ref.diam_text('0.125', rows([3.25, .0625], [1., .5]), perimeter='7.5'))
    w('c.diam', ref.diam_text('1.5e6', rows([40., 1.], [.25, 1.])))
    scc = lambda per: ('Total_area = 30.25 <km^2>\n' + per + 'unit_boundary = {vertex, sub_area, tag, lon, lat\n1 1 ext 0 0\n2 1 ext 0 1\n3 1 ext 1 1\n4 1 ext 0 0\n}\n'
                       'crater = {diam, fraction, lon, lat, tag\n1.5 1 0 .1 standard\n0.75 .5 0.5 .5 standard\n1.5 1 .1 .1 standard\n}\n')
    w('d.scc', scc('Total_perimeter = 23.125 <km>\n'))
    w('e.scc', scc('').replace('1.5 1 0', '.015 .125 0'))
    w('f g.diam', ref.diam_text('3', rows([.5], [1.]), perimeter='1'))
    w('sub/k.diam', ref.diam_text('2', rows([.25, 1e3], [1., 1.])))
    full = open(ref.sample('c1.scc')).read()
    w('h.scc', full)
    r = cli.run(['--convert', 'shp', 'h.scc', '-o', 'h'], wd)
    if not r.ok or not os.path.exists(wd + '/h_CRATER.shp'): R.harness.append('shapefile fixture: ' + r.why())
    os.remove(wd + '/h.scc')
    global M, W, BEFORE
    W = wd
    M = {}
    for i, f in enumerate(SRC):
        os.chdir(wd)
        import contextlib, io
        with contextlib.redirect_stdout(io.StringIO()): c = cst.Cratercount(f)
        M[i] = (sorted((float(d), float(x)) for d, x in zip(c.diam, c.fraction)), float(c.area), None if c.perimeter is None else float(c.perimeter))
    os.chdir(os.path.dirname(wd))
    # the fixtures themselves are known independently
    want = {0: ([(1., 1.), (1., 1.), (2.5, 1.)], 12.5, None), 1: ([(.0625, .5), (3.25, 1.)], .125, 7.5), 2: ([(1., 1.), (40., .25)], 1.5e6, None),
            3: ([(.75, .5), (1.5, 1.), (1.5, 1.)], 30.25, 23.125), 4: ([(.015, .125), (.75, .5), (1.5, 1.)], 30.25, None), 5: ([(.5, 1.)], 3., 1.), 7: ([(.25, 1.), (1e3, 1.)], 2., None)}
    global FIX
    FIX = [(SRC[i], M[i], want[i]) for i in want if not ref.same(list(map(list, M[i][0])), list(map(list, want[i][0])), 1e-9) or not ref.same(M[i][1:], want[i][1:], 1e-9)]
    BEFORE = cli.tree(wd)

def leaves(t): return [t] if isinstance(t, int) else [x for y in t for x in leaves(y)]

def run(s, R):
    import craterstats as cst
    R.expect(not FIX, 'loading', lambda: str(FIX))
    made = []
    def merge(files, out):
        args = ['-m'] + [f'"{f}"' if ' ' in f else f for f in files] + (['-o', out] if out else [])
        r = cli.run(args, W); R.step()
        if out: made.append(out + '.diam')
        R.expect(r.ok, 'merge-failed', lambda: f'{args} {r.why()}')
    if 'bad' in s:
        import shutil
        shutil.copy(ref.sample('sample.stat'), W + '/s.stat')
        before = cli.tree(W)
        r = cli.run(['-m'] + s['bad'] + ['-o', 'out'], W); R.step(); R.trace()
        after = cli.tree(W)
        os.remove(W + '/s.stat')
        R.expect(r.exc is None and r.exit not in (None, 0) and after == before, 'invalid-merge-accepted', lambda: f"{s} {r.why()} {sorted(set(after) - set(before))}")
        return
    try:
        if 'name' in s:
            fs = [SRC[i] for i in s['name']]
            before = set(cli.tree(W))
            merge(fs, None)
            new = sorted(set(cli.tree(W)) - before)
            made += new
            want = '_'.join(sorted(os.path.splitext(os.path.basename(f))[0] for f in fs)) + '.diam'
            R.expect(new == [want], 'default-name', lambda: f'{fs}: wrote {new} expected {want}')
            result, lv = want, s['name']
        else:
            cnt = [0]
            def build(t):
                if isinstance(t, int): return SRC[t]
                fs = [build(x) for x in t]
                cnt[0] += 1
                o = f'm{cnt[0]}'
                merge(fs, o)
                return o + '.diam'
            result, lv = build(s['t']), leaves(s['t'])
        old = os.getcwd(); os.chdir(W)
        try: c = cst.Cratercount(result)
        finally: os.chdir(old)
        got = sorted((float(d), float(f)) for d, f in zip(c.diam, c.fraction))
        want = sorted(x for i in lv for x in M[i][0])
        what = lambda: f'merge {s}: {[SRC[i] for i in lv]}'
        R.trace()
        R.expect(len(got) == len(want), 'number', lambda: f'{len(got)} craters, inputs have {len(want)}; {what()}')
        R.expect(all(abs(a[0] / b[0] - 1) < 6e-6 and abs(a[1] - b[1]) <= 6e-6 * b[1] for a, b in zip(got, want)), 'craters', lambda: f'{[(a, b) for a, b in zip(got, want) if a != b][:4]} {what()}')
        area = sum(M[i][1] for i in lv)
        R.expect(abs(c.area / area - 1) < 1e-12, 'area', lambda: f'{c.area} expected {area}; {what()}')
        per = None if any(M[i][2] is None for i in lv) else sum(M[i][2] for i in lv)
        R.expect(c.perimeter is None if per is None else c.perimeter is not None and abs(c.perimeter / per - 1) < 1e-12, 'perimeter', lambda: f'{c.perimeter} expected {per}; {what()}')
        R.state((tuple(sorted(lv)), repr(s))); R.outcome((tuple(want), area, per))
        now = cli.tree(W)
        R.expect(all(now.get(k) == v for k, v in BEFORE.items()), 'input-modified', what)
        R.expect(set(now) == set(BEFORE) | set(made), 'extra-files', lambda: f'{sorted(set(now) - set(BEFORE))} {what()}')
    finally:
        for f in made:
            p = os.path.join(W, f)
            if os.path.exists(p): os.remove(p)
