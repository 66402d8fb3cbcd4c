"""Diameter ranges: every pair of limit tokens on every small count, against the documented snapping semantics."""
import itertools, math, os
import numpy as np
from .. import ref
TECHNIQUE = 'model checking: exhaustive enumeration of (count, binning, snap, limit pair) histories against a reference model of bin snapping'
RULE = ('counts = all subsets (1..4 bins) of a 5-bin window with 1-2 craters each; limits = all ordered pairs from {grid edges inside the data span, '
        'edges at 1 rounding step, quarter points of bins, decimal prints, 0, inf, b1,b2,b9,b-1,b-2,b-9}; state=(count, binning, snap, limits)')
LIMIT = 400

def scenarios(tier):
    out = []
    subsets = [s for n in (1, 2, 3, 4) for s in itertools.combinations(range(5), n)]
    for b in ref.BINNINGS + ['none']:
        for base in ((1., .04) if tier == 'quick' else (1., .04, .5, 20., .0013)):
            for sub in subsets:
                for mode in ('diam', 'stat'):
                    if mode == 'stat' and (b != 'pseudo-log' or len(sub) < 2): continue
                    out.append(dict(b=b, base=base, sub=list(sub), mode=mode))
    return out

class CPS: pass

def bins_of(b, base):
    g = b if b != 'none' else 'root-2'
    k = ref.index(g, base * 1.001)
    return [(ref.edge(g, k + i), ref.edge(g, k + i + 1)) for i in range(5)]

def count(s, R):
    import craterstats as cst
    B = bins_of(s['b'], s['base'])
    ds, fr = [], []
    for j, i in enumerate(s['sub']):
        lo, hi = B[i]
        ds.append(lo * (hi / lo) ** .3); fr.append((1., .5)[j % 2])
        if j % 2 == 0: ds.append(lo * (hi / lo) ** .8); fr.append(1.)
    cc = ref.make_cc(ds, fr, area=10.)
    if s['mode'] == 'stat':
        cc.WriteStatFile('c05.stat', s['b'])
        cc = cst.Cratercount('c05.stat')
    return cc, ds, fr

def run(s, R):
    import craterstats as cst
    b = s['b']
    cc, ds, fr = count(s, R)
    if s['mode'] == 'stat':
        rows = [(float(lo), float(hi), math.sqrt(lo * hi), int(round(float(ne))), float(n)) for lo, hi, ne, n in
                zip(cc.binned['d_min'], cc.binned['d_max'], cc.binned['n_event'], cc.binned['n'])]
        want_lo = sorted({next(x for x in bins_of(b, s['base']) if x[0] <= d < x[1])[0] for d in ds})
        R.expect(len(want_lo) == len(rows) and ref.same([float(f'{x:.5g}') for x in want_lo], [r[0] for r in rows], 1e-6), 'stat-bins', lambda: f'{want_lo} {rows}')
        edges = [r[0] for r in rows] + [rows[-1][1]]
    else:
        rows = [r[:5] for r in ref.RefBins(b, ds, fr).rows]
        if b != 'none':
            k0, k1 = ref.index(b, min(ds)), ref.index(b, max(ds))
            edges = [ref.edge(b, k) for k in range(k0, k1 + 2)]
        else: edges = None
    span = (rows[0][0], rows[-1][1])
    toks = ['0', 'inf', 'b1', 'b2', 'b9', 'b-1', 'b-2', 'b-9']
    E = edges or [x[0] for x in bins_of(b, s['base'])] + [bins_of(b, s['base'])[-1][1]]
    for i, e in enumerate(E):
        toks += [repr(float(e)), repr(float(np.nextafter(e, 0))), repr(float(np.nextafter(e, 1e9))), f'{e:.3g}', f'{e:.12g}']
        if i + 1 < len(E): toks += [repr(e * (E[i + 1] / e) ** q) for q in (.25, .6)]
    toks = list(dict.fromkeys(toks))
    if b == 'none':  # limits between craters only: which side a limit equal to a diameter falls is not specified
        toks = [t for t in toks if t[0] == 'b' or all(abs(float(t) / d - 1) > 1e-9 for d in ds)]
    for t0 in toks:
        for t1 in toks:
            for snap in (0, 1):
                check(s, cc, ds, fr, rows, edges, span, t0, t1, snap, R)

def val(t, rows):
    if t[0] != 'b': return float(t)
    v = int(t[1:]); m = len(rows)
    i = min(v, m) - 1 if v > 0 else max(v, -m)
    return rows[i][2]

def check(s, cc, ds, fr, rows, edges, span, t0, t1, snap, R):
    import craterstats as cst
    b = s['b']
    if b == 'none' and (t0[0] == 'b' or t1[0] == 'b'): return     # (bins are single craters: strict bounds leave the selection unspecified)
    r0, r1 = val(t0, rows), val(t1, rows)
    if r1 < r0 or r0 == math.inf or r1 == 0: return      # not a range
    if r1 <= span[0] * (1 + 1e-5) or r0 >= span[1] * (1 - 1e-5): return     # no data in it
    if edges:
        lim = []
        for side, (t, r) in enumerate(((t0, r0), (t1, r1))):
            if r in (0, math.inf): lim.append(r); continue
            if not (span[0] * (1 - 1e-8) <= r <= span[1] * (1 + 1e-8)): return     # outside the data span: unspecified
            sn = snap or t[0] == 'b'
            if not sn: lim.append(r); continue
            j = min(range(len(edges)), key=lambda i: abs(edges[i] / r - 1))
            gap = abs(edges[j] / r - 1)
            if gap < 1e-8: lim.append(edges[j]); continue
            if gap < 1e-5: return
            i = max(i for i in range(len(edges)) if edges[i] <= r)
            lim.append(edges[i] if side == 0 else edges[i + 1])
    else:
        lim = [r0, r1]
    arg = [t0, t1]
    R.state((b, s['base'], tuple(s['sub']), s['mode'], t0, t1, snap))
    cp = cst.Craterplot(cratercount=cc, range=arg, binning=b, snap=snap, name='x', source='x')
    R.step()
    got = [float(x) for x in cp.range]
    what = lambda: f"binning={b} {s['mode']} diameters={ds} range=[{t0},{t1}] snap={snap}: decoded {got}, expected {lim}"
    R.expect(all(g == l or abs(g / l - 1) < 1e-7 for g, l in zip(got, lim)), 'snap', what)
    R.expect(arg == [t0, t1], 'argument-changed', what)
    sel = [r for r in rows if lim[0] < r[2] < lim[1]]
    near = any(abs(x / r[2] - 1) < 1e-9 for r in rows for x in lim if 0 < x < math.inf)
    if near or b == 'none' and any(abs(x / r[2] - 1) < 1e-9 for r in rows for x in lim if x): return
    R.outcome(tuple(r[0] for r in sel))
    for pres in ('differential', 'cumulative'):
        if pres == 'differential' and b == 'none': continue
        p = cc.getplotdata(pres, b, range=cp.range)
        R.step()
        wd = [r[2] if pres == 'differential' else r[0] for r in sel]
        R.expect(ref.same(ref.norm(p['d']), wd, 1e-9), 'selection', lambda: f"{pres}: bins {ref.norm(p['d'])} expected {wd}; " + what())
        R.expect(abs(float(p['n']) - sum(r[4] for r in sel)) < 1e-9 and int(p['n_event']) == sum(r[3] for r in sel), 'reported-number',
                 lambda: f"n={p['n']} n_event={p['n_event']} expected {sum(r[4] for r in sel)}, {sum(r[3] for r in sel)}; " + what())
        if edges and snap and s['mode'] == 'diam' and sel:
            lim2 = [span[0] if lim[0] == 0 else lim[0], span[1] if lim[1] == math.inf else lim[1]]      # unconstrained: the extent of the data
            br = [float(x) for x in p['bin_range']]
            R.expect(all(abs(x / y - 1) < 1e-7 for x, y in zip(br, lim2)), 'shown-range', lambda: f'bin_range={br} expected {lim2}; ' + what())
    R.trace()
