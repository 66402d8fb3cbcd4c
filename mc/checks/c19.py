"""Overplot sequences: each overplot's settings against a reference interpreter of defaults, carry-over and explicit values."""
import itertools, os, re
from .. import ref, cli
TECHNIQUE = 'model checking: exhaustive enumeration of overplot sequences (length <= 3) over a specification alphabet, run back to back through the real command line, against a reference interpreter'
RULE = ('specification alphabet = {nothing} + 16 keys x 2 values (+ source change); all sequences of length <= 2 in two presentations, all key pairs followed by bare overplots, all but-one-key specifications, '
        'length 3 over key classes (thorough: full); commands run in one process so that leaks between commands show; state = sequence')
LIMIT = 600

VAL = dict(source=['b.diam', 'a.diam'], name=['q1', 'other name'], range=['[1.5,6]', '[.95,b-2]'], snap=['0', '1'], type=['d-fit', 'poisson'], error_bars=['0', '1'], hide=['1', '0'], colour=['red', '#12Ab9f'], psym=['fo', 'x'],
           binning=['x2', '10/decade'], age_left=['1', '0'], show_age=['0', '1'], resurf=['1', '0'], resurf_showall=['1', '0'], isochron=['1', '0'], offset_age=['[2,-3]', '[-.5,1e1]'])
CARRY = ('source', 'psym', 'snap', 'isochron', 'error_bars', 'colour', 'binning')
DEF = dict(source=None, name=None, range='[0,inf]', snap='1', type='data', error_bars='1', hide='0', colour='black', psym='o', binning='pseudo-log', age_left='0', show_age='1', resurf='0', resurf_showall='0', isochron='0', offset_age='[0,0]')
KEYS = list(VAL)

def singles(): return [{}] + [{k: v} for k in KEYS for v in VAL[k]]

def scenarios(tier):
    A = singles()
    out = []
    for pr in ('diff', 'seq'):
        for i, a in enumerate(A): out.append(dict(pr=pr, seqs=[[a]] + [[a, b] for b in A]))
    combos = [{k: VAL[k][i], l: VAL[l][j]} for k, l in itertools.combinations(KEYS, 2) for i in (0, 1) for j in (0, 1)]
    for i in range(0, len(combos), 12): out.append(dict(pr='diff', seqs=[[c, {}] for c in combos[i:i + 12]] + [[c, {}, {'source': 'b.diam'}, {}] for c in combos[i:i + 12]]))
    full = {k: VAL[k][0] for k in KEYS}; full1 = {k: VAL[k][1] for k in KEYS}
    for f in (full, full1):
        but = [{k: v for k, v in f.items() if k != l} for l in KEYS] + [f]
        for a in but: out.append(dict(pr='cum' if f is full else 'seq', seqs=[[a, b] for b in but + A] + [[a, b, {}] for b in but]))
    if tier == 'thorough':
        for a in A[::2]:
            for b in A: out.append(dict(pr='diff', seqs=[[a, b, c] for c in A]))
        for bits in range(0, 1 << 16, 64): out.append(dict(pr='rplot', seqs=[[{k: VAL[k][(b >> 3) & 1] for j, k in enumerate(KEYS) if (b >> j) & 1}, {}] for b in range(bits, bits + 64)]))
    else:
        T = [{}] + [{k: VAL[k][0]} for k in KEYS]
        for a in T:
            for b in T: out.append(dict(pr='diff', seqs=[[a, b, c] for c in ({}, {'source': 'b.diam'}, {'type': 'c-fit'}, {'colour': 'green', 'hide': '1'})]))
    return out

def setup(R):
    rows = [dict(diameter=repr(round(.9 * 1.17 ** i, 4)), fraction='1') for i in range(14) for _ in range(5)]
    ref.write('a.diam', ref.diam_text('1200', rows))
    ref.write('b.diam', ref.diam_text('3000', rows[10:]))

def interpret(seq, pr):
    import craterstats as cst
    out = []
    for d in seq:
        e = dict(DEF)
        e['type'] = {'poisson'} if pr == 'seq' else {'data'}
        if out:
            p = out[-1]
            for k in CARRY: e[k] = p[k]
            src = d.get('source')
            # type carries over for the same source; after a change the previous type or the default
            e['type'] = p['type'] if src in (None, p['source']) else p['type'] | e['type']
        for k, v in d.items(): e[k] = {v} if k == 'type' else v
        out.append(e)
    return out

def setup_cc(name, cache={}):
    import craterstats as cst
    if name not in cache: cache[name] = cst.Cratercount(name)
    return cache[name]

def attributes(e):
    import craterstats as cst
    a = {k: int(e[k]) for k in ('snap', 'error_bars', 'hide', 'age_left', 'show_age', 'resurf', 'resurf_showall', 'isochron')}
    a['source'], a['binning'] = e['source'], e['binning']
    a['name'] = e['name'] or os.path.splitext(e['source'])[0]
    a['colour'] = e['colour'] if e['colour'][0] == '#' else next(c[0] for c in cst.PALETTE if c[2].lower() == e['colour'])
    a['psym'] = [m[0] for m in cst.MARKERS].index(e['psym'])
    a['offset_age'] = [float(x) for x in e['offset_age'].strip('[]').split(',')]
    cc = setup_cc(e['source'])
    a['range'] = [float(f'{x:.10g}') for x in cc.decode_range(e['range'].strip('[]').split(','), e['binning'], a['snap'])]
    a['diam'] = [float(x) for x in cc.diam]
    a['area'] = cc.area
    return a

def run(s, R):
    for seq in s['seqs']:
        args = ['-pr', s['pr'], '-f', 'csv', '-o', 'x']
        for d in seq: args += ['-p'] + ([','.join(f'{k}={v}' for k, v in d.items())] if d else ['age_left=0'])
        R.step(); R.state((s['pr'], tuple(args)))
        r = cli.run(args, noout=True)
        what = lambda: f'{args}: {r.why()}'
        if 'source' not in seq[0]:
            R.expect(r.exc is None and isinstance(r.exit, str) and 'ource' in r.exit, 'source-missing-accepted', what)
            # the same sequence with a source
            seq = [dict(seq[0], source='a.diam')] + seq[1:]
            args[args.index('-p') + 1] += ',source=a.diam'
            r = cli.run(args, noout=True)
            R.step()
        R.expect(r.ok, 'run-failed', what)
        E = interpret(seq, s['pr'])
        R.expect(len(r.cps.craterplot) == len(E), 'number-of-overplots', what)
        for i, (cp, e) in enumerate(zip(r.cps.craterplot, E)):
            w = attributes(e)
            g = {k: getattr(cp, k, None) for k in w if k not in ('diam', 'area')}
            g['range'] = [float(f'{float(x):.10g}') for x in g['range']]
            g['diam'] = [float(x) for x in cp.cratercount.diam]; g['area'] = cp.cratercount.area
            R.expect(g == w, 'setting', lambda: f'overplot {i} of {args}: {[(k, g[k], "expected", w[k]) for k in w if g[k] != w[k]]}'[:900])
            R.expect(cp.type in e['type'], 'type', lambda: f'overplot {i} of {args}: type {cp.type} expected {e["type"]}')
            R.trace()
        R.outcome(repr([(cp.type, cp.psym, cp.binning, cp.colour, cp.range) for cp in r.cps.craterplot]))
