"""Query histories on one shared crater count: explicit-state closure over the object state, plus every history of bounded length."""
import contextlib, io, itertools, os
import numpy as np
from .. import ref
TECHNIQUE = 'model checking: explicit-state search of all request histories on the real count object; oracle = same request on a fresh object'
RULE = ('state = full canonical content of the shared count object; transitions = requests; closure of reachable states is computed, and in '
        'addition every request sequence of the given length is executed without state merging; each answer compared with a fresh object')
LIMIT = 400
FULL = ['cumulative', 'differential', 'R-plot', 'Hartmann']
COUNTS = ['diam', 'frac', 'buffered', 'stat', 'scc', 'single', 'wide', 'shp']

def make_files(wd):
    os.makedirs(wd, exist_ok=True)
    ds = [.11, .12, .15, .15, .2, .31, .33, .5, .72, .9, 1.1, 1.1, 1.4, 2.3, 3.7]
    fr = [1, .5, 1, .25, 1, 1, .75, 1, 1, .5, 1, 1, 1, .5, 1]
    R = [dict(diameter=d, fraction=f, reference_area=100 * (1 + d)) for d, f in zip(ds, fr)]
    f = {}
    f['diam'] = ref.write(f'{wd}/diam.diam', ref.diam_text(123., R, ('diameter',)))
    f['frac'] = ref.write(f'{wd}/frac.diam', ref.diam_text(123., R))
    f['buffered'] = ref.write(f'{wd}/buffered.diam', ref.diam_text(123., R, ('diameter', 'reference_area')))
    f['single'] = ref.write(f'{wd}/single.diam', ref.diam_text(7., R[8:9], ('diameter',)))
    f['wide'] = ref.write(f'{wd}/wide.diam', ref.diam_text(5e4, [dict(diameter=x) for x in (.003, .01, .01, .5, 12., 90.)], ('diameter',)))
    f['scc'] = ref.sample('Pickering.scc')
    # shapefile pair: diameters in no order, some craters cut by the boundary
    from . import c16
    adeg = lambda d: d / 2 / (1737.4 * np.pi / 180)
    cr = [(x, y, np.radians(adeg(d)), 1.) for d, x, y in ((.9, .3, .3), (.15, .6, .5), (3.7, .5, .5), (.31, 0., .4), (.12, .2, .8), (1.4, 1., .5), (.5, .7, 1.), (.15, .4, .2), (2.3, .8, .8))]
    c16.write_shp(wd, 's', [[(c16.sq(0, 0, 1, 1), [])]], cr, (c16.WKT.format(1737.4e3), lambda r: r))
    f['shp'] = f'{wd}/s_CRATER.shp'
    f['stat'] = ref.sample('ECHUS_CHAP_AR1_A.stat')
    return f

def ops(tier, small):
    b = ['pseudo-log', 'root-2', '20/decade', 'none'] if tier == 'quick' else ['pseudo-log', '20/decade', '10/decade', 'x2', 'root-2', '4th root-2', 'none']
    o = []
    rng = [None, [0., np.inf], [.14, 1.5]]
    if small:
        o += [('plot', 'cumulative', 'pseudo-log', None, 0), ('plot', 'differential', 'root-2', [.14, 1.5], 0), ('plot', 'cumulative', 'root-2', [.14, 1.5], 1),
              ('decode', ['0.16', '1.05'], 'pseudo-log', 1), ('decode', ['b2', 'b-2'], '10/decade', 1), ('age', 'c-fit', 'pseudo-log', 1),
              ('age', 'poisson', 'root-2', 0), ('age', 'd-fit', 'none', 0), ('export', 'pseudo-log'), ('export', 'x2'), ('merge',), ('plot', 'R-plot', 'none', [.14, 1.5], 0)]
        return o
    for bb in b:
        for p in FULL:
            for r in rng:
                if bb == 'none' and (p != 'cumulative' or r is None): continue
                o.append(('plot', p, bb, r, 0))
        if bb != 'none': o += [('plot', 'cumulative', bb, [.14, 1.5], 1), ('plot', 'incremental', bb, None, 0)]
        o += [('decode', ['0', 'inf'], bb, 1), ('decode', ['0.16', '1.05'], bb, 1), ('decode', ['0.16', '1.05'], bb, 0), ('decode', ['b2', 'b-2'], bb, 1)]
        o += [('age', 'c-fit', bb, 0), ('age', 'poisson', bb, 0), ('export', bb)]
        if bb != 'none': o += [('age', 'd-fit', bb, 0), ('age', 'c-fit', bb, 1)]
    return o + [('merge',)]

def scenarios(tier):
    out = [dict(kind='closure', c=c, tier=tier) for c in COUNTS]
    n = len(ops(tier, True))
    out += [dict(kind='seq', c=c, tier=tier, i=i, L=3 if tier == 'quick' else 4) for c in COUNTS for i in range(n)]
    return out

class CPS: pass
MUTATED = 'the range given was changed'

_c = {}
def env():
    if not _c:
        _c['files'] = make_files(os.path.join(os.getcwd(), 'c04'))
        cps = CPS()
        cps.pf, cps.cf, cps.ref_diameter = ref.pf('Moon, Neukum (1983)'), ref.cf('Moon, Neukum (1983)'), 1.
        _c['cps'] = cps
    return _c

def perform(cc, op, c):
    """one request; returns its observable answer"""
    import craterstats as cst
    E = env()
    k = op[0]
    try:
        if k == 'plot':
            r = None if op[3] is None else list(op[3])
            p = cc.getplotdata(op[1], op[2], range=r, resurfacing=op[4], pf=E['cps'].pf)
            if r is not None and r != list(op[3]): return MUTATED + f': {op[3]} became {r}'
            return ref.norm([{q: p[q] for q in p}, r])
        if k == 'decode':
            arg = list(op[1])
            a = list(cc.decode_range(arg, op[2], op[3]))
            if arg != list(op[1]): return MUTATED + f': {op[1]} became {arg}'
            return ref.norm([a, arg])
        if k == 'age':
            arg = ['0.16', '1.05'] if c != 'wide' else ['.002', '20']
            cp = cst.Craterplot(cratercount=cc, type=op[1], binning=op[2], resurf=op[3], range=arg)
            arg0, r0 = list(arg), list(cp.range)
            cp.calculate_age(E['cps'])
            if arg != arg0 or list(cp.range) != r0: return MUTATED + f': {arg0} {r0} became {arg} {cp.range}'
            return ref.norm([list(cp.t), list(cp.a0), cp.n, cp.n_event, cp.n_d, list(cp.range), arg])
        if k == 'export':
            cc.WriteStatFile('x.stat', op[1])
            return open('x.stat').read()
        if k == 'merge':
            f = E['files'][c]
            a = CPS(); a.merge, a.out = f'"{f}" "{E["files"]["diam"]}"', 'merged'
            orig = cst.Cratercount
            try:   # the merge is given this very object for its file
                cst.Cratercount = lambda fn, *x: cc if fn.strip('"') == f else orig(fn, *x)
                with contextlib.redirect_stdout(io.StringIO()): cst.merge_cratercounts(a)
            finally: cst.Cratercount = orig
            return open('merged.diam').read()
    except SystemExit as e: return 'exit: ' + str(e.code)
    except Exception as e: return 'exception: ' + type(e).__name__

def base(cc):
    return ref.norm([list(cc.diam) if cc.diam is not None else None, list(cc.fraction) if hasattr(cc, 'fraction') else None, cc.area, cc.perimeter,
                     {k: v for k, v in cc.binned.items()} if cc.prebinned else None])

def canon(cc):
    return repr(sorted((k, ref.norm(v) if not callable(v) else '') for k, v in vars(cc).items()))

_f = {}
def fresh(c, op):
    import craterstats as cst
    k = (c, repr(op))
    if k not in _f: _f[k] = perform(cst.Cratercount(env()['files'][c]), op, c)
    return _f[k]

def apply(cc, c, op, hist, R):
    got = perform(cc, op, c)
    R.step(); R.trace()
    R.expect(not str(got).startswith(MUTATED), 'argument-changed', lambda: f'count={c} history={hist} request={op}: {got}')
    want = fresh(c, op)
    R.outcome((c, repr(want)[:400]))
    R.expect(ref.same(got, want), 'history-dependent-answer', lambda: f'count={c} history={hist} request={op} shared={str(got)[:700]} fresh={str(want)[:700]}')

def run(s, R):
    import copy
    import craterstats as cst
    c = s['c']
    files = env()['files']
    b0 = base(cst.Cratercount(files[c]))
    if s['kind'] == 'closure':
        O = ops(s['tier'], False)
        root = cst.Cratercount(files[c])
        seen = {canon(root): ()}
        front = [(root, ())]
        while front:
            cc0, h = front.pop(0)
            for op in O:
                cc = copy.deepcopy(cc0)
                apply(cc, c, op, h, R)
                R.expect(ref.same(base(cc), b0), 'stored-data-changed', lambda: f'{c} {h} {op}: {base(cc)} was {b0}')
                k = canon(cc)
                R.state((c, k))
                if k not in seen:
                    seen[k] = h + (op,)
                    if len(seen) > 150:
                        R.count('closures_capped')
                        return
                    front.append((cc, h + (op,)))
        R.count('closures_completed')
        return
    O = ops(s['tier'], True)
    for rest in itertools.product(range(len(O)), repeat=s['L'] - 1):
        cc = cst.Cratercount(files[c]) if c not in ('scc', 'stat') else copy.deepcopy(_proto(c))
        hist = []
        for i in (s['i'],) + rest:
            apply(cc, c, O[i], hist, R)
            hist.append(O[i])
        R.expect(ref.same(base(cc), b0), 'stored-data-changed', lambda: f'{c} {hist}')
        R.state((c, s['i'], rest))

_p = {}
def _proto(c):
    import craterstats as cst
    if c not in _p: _p[c] = cst.Cratercount(env()['files'][c])
    return _p[c]
