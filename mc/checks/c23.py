"""Printed numbers: every number string against exact rational rounding."""
import math, re
from fractions import Fraction as F
from .. import cli
TECHNIQUE = 'model checking: exhaustive enumeration of number strings over mantissa x exponent x figures x error x unit x layout, plus every number shown in the figures of enumerated commands, against exact rational rounding'
RULE = ('sigfigs: every 3-digit (thorough 4-digit) mantissa plus its ties and the doubles next to them, 25 exponents, 1-6 figures, both signs, int/float/numpy; scientific notation: 3-digit mantissas x 21 exponents x 4 '
        'figures x 6 error pairs x force x MathML x unit; ages: 2-digit mantissas x 11 decades x 7 error pairs x figures x unit x simple/mu/MathML; diameter ranges: all ordered pairs of a 2-digit grid over 7 decades; '
        'percentiles near 0, 50 and 100; Hartmann labels for every window; CLI: presentation x -sf x -ref_diameter x mu, all texts of the figure; state = (kind, value, options)')
LIMIT = 300
UNITS = {'Ga': F(1), 'Ma': F(1, 1000), 'ka': F(1, 10**6), 'a': F(1, 10**9)}

def scenarios(tier):
    step = 1 if tier == 'thorough' else 10
    out = [dict(k='drange', e=e, sf=sf) for e in range(-4, 4) for sf in (1, 2, 3)] + [dict(k='pct', sf=sf) for sf in (1, 2, 3, 4)] + [dict(k='hart')]
    out += [dict(k='age', e=e, sf=sf) for e in range(-10, 1) for sf in (1, 2, 3, 4)]
    out += [dict(k='sig', e=e, sf=sf, step=step) for e in range(-12, 13) for sf in range(1, 7)]
    out += [dict(k='sci', e=e, sf=sf) for e in range(-10, 11) for sf in (1, 2, 3, 4)]
    for pr in ('cum', 'diff', 'rpl', 'hart'):
        for sf in (None, 2, 3):
            for m in (0, 1): out.append(dict(k='plot', pr=pr, sf=sf, mu=m, inv=0, ref=1 if sf else 10))
    out += [dict(k='plot', pr='seq', sf=sf, mu=m, inv=0, ref=r) for sf in (None, 2, 3) for m in (0, 1) for r in (1, .25)]
    out += [dict(k='chron', pr=pr, ref=r) for pr in ('chron', 'rate') for r in (.01, .1, .25, .5, .99, 1, 1.5, 2.5, 9.6, 10, 16, 100, 123.5)]
    out += [dict(k='iso', pr=pr, t=t) for pr in ('cum', 'diff', 'rpl', 'hart') for t in ((4, 3.5, 1), (3.75, 2.125, .999), (.5, .1, .075), (1e-2, 1e-3, 2.5e-4), (3e-5, 1e-6, 1e-7))]
    return out

def decode(txt):
    """plain decimal string -> (value, figures shown)"""
    assert re.fullmatch(r'-?\d+(\.\d+)?', txt), f'not a plain decimal: {txt!r}'
    digs = txt.lstrip('-').replace('.', '').lstrip('0')
    return F(txt), digs

def rounded(R, txt, v, sf, what, slack=F(0)):
    """txt is v correctly rounded to sf figures and shows sf of them; slack: absolute error allowed to arithmetic before printing"""
    try: x, digs = decode(txt)
    except AssertionError as e: R.expect(False, 'not-a-number', f'{what}: {e}')
    v = F(v)
    if v == 0:
        R.expect(x == 0, 'wrong-value', lambda: f'{what}: {txt} for {float(v)}')
        return
    e = len(str(abs(v.numerator) // v.denominator)) - 1 if abs(v) >= 1 else None
    if e is None:
        e = -1
        while abs(v) < F(1, 10 ** -e): e -= 1
    unit = F(10) ** (e - sf + 1)
    R.expect(abs(x - v) <= unit / 2 + slack, 'not-rounded', lambda: f'{what}: {txt} for {float(v)!r} to {sf} figures')
    if '.' in txt: ok = len(digs) in (sf, sf + 1) if abs(x) >= F(10) ** (e + 1) else len(digs) == sf
    else: ok = len(digs) >= sf and not digs[sf + 1:].strip('0')
    if abs(F(v)) > slack * 2: R.expect(ok, 'figures-shown', lambda: f'{what}: {txt} for {float(v)!r} to {sf} figures')

ERRS = ((None, None), (.25, .125), (.5, .25), (.0625, .03125), (.001, .9), (3., .75))

def run(s, R):
    globals()['do_' + s['k']](s, R)

def near(m, e, sf):
    """doubles around decimal m x 10^e: the nearest and, where it is a tie at sf figures, its neighbours"""
    v = float(f'{m}e{e}')
    out = [v]
    t = str(m)
    if len(t) > sf and t[sf] == '5' and not t[sf + 1:].strip('0'): out += [math.nextafter(v, 0), math.nextafter(v, math.inf)]
    return out

def do_sig(s, R):
    import numpy as np
    import craterstats.gm as gm
    e, sf = s['e'], s['sf']
    ms = list(range(1000, 10000, s['step'])) + [10 ** 3 + 5 * 10 ** k for k in range(3)] + [9995, 9950, 9500, 9999, 1005, 1045, 9994]
    for m in ms:
        for v in near(m, e - 3, sf):
            for w in (v, -v):
                t = gm.sigfigs(w, sf)
                R.step(); R.trace()
                R.state((w, sf))
                rounded(R, t, w, sf, f'sigfigs({w!r}, {sf})')
    v = [float(f'{m}e{e}') for m in (1, 3.14159, 9.5, 2.5, 7)]
    a = [gm.sigfigs(x, sf) for x in v]
    for seq in (v, tuple(v), np.array(v)): R.expect(gm.sigfigs(seq, sf) == a, 'sequence', lambda: f'{seq}')
    for f in (np.float64,): R.expect([gm.sigfigs(f(x), sf) for x in v] == a, 'type', '')
    if 0 <= e <= 9:
        for m in (1, 7, 12, 99, 150, 2500, 999):
            for t in (int, np.int64): rounded(R, gm.sigfigs(t(m * 10 ** e), sf), m * 10 ** e, sf, f'sigfigs({t.__name__} {m * 10 ** e}, {sf})')
    rounded(R, gm.sigfigs(0., sf), 0, sf, 'zero')
    rounded(R, gm.sigfigs(0, sf), 0, sf, 'zero')

TAGS = {'': '', 'km-2': (r'$ km$^{-2}', '<msup><mtext>&#8239;km</mtext><mtext>-2</mtext></msup>')}

def split_ml(t):
    m = re.fullmatch(r'<math xmlns="http://www.w3.org/1998/Math/MathML">(.*?)(?:<mo>&#183;</mo><msup><mtext>10</mtext><mtext>(-?\d+)</mtext></msup>)?((?:<msup><mtext>&#8239;km</mtext><mtext>-?2</mtext></msup>|<mtext>&#8239;(?:Ga|Ma|ka|a)</mtext>)?)</math>', t)
    if not m: return None
    b = m[1]
    mu = b.startswith('<mi>&#956;</mi>')
    b = b.removeprefix('<mi>&#956;</mi>')
    n = re.fullmatch(r'<msubsup><mtext>(.*?)</mtext><mtext>&#x2212;(.*?)</mtext><mtext>\+(.*?)</mtext></msubsup>', b)
    return (n[1], n[3], n[2], int(m[2] or 0), m[3], mu) if n else (re.sub('</?mtext>', '', b), None, None, int(m[2] or 0), m[3], mu)

def split_tex(t):
    m = re.fullmatch(r'\$(𝜇?)(-?[\d.]+)(?:\^\{\+(-?[\d.]+)\}_\{-(-?[\d.]+)\})?(?:\\cdot10\^\{(-?\d+)\})?((?:\$ km\$\^\{-?2\})?)\$(.*)', t)
    return (m[2], m[3], m[4], int(m[5] or 0), m[6] + m[7], bool(m[1])) if m else None

def check_sci(R, t, ml, v, e1, e2, sf, force, unit, what):
    p = split_ml(t) if ml else split_tex(t)
    R.expect(p is not None, 'layout', lambda: f'{what}: {t}')
    st, a, b, ex, u, mu = p
    v = F(v)
    R.expect(not mu and ((unit or '').replace('km', '') in u) == True and bool(u) == bool(unit), 'unit', lambda: f'{what}: {t}')
    sc = F(10) ** ex
    rounded(R, st, v / sc, sf, f'{what} gives {t}')
    if ex: R.expect(1 <= abs(F(st)) < 10 or abs(F(st)) == 10, 'mantissa', lambda: f'{what}: {t}')
    plain = F(100001, 10**7) < abs(v) < 9999 and not force
    R.expect(not (plain and ex), 'notation', lambda: f'{what}: {t}')
    if not plain and not F(9, 1000) < abs(v) < 10100: R.expect(ex != 0, 'notation', lambda: f'{what}: {t}')
    if force and not 1 <= abs(v) < 10 and v: R.expect(ex != 0 or 1 <= abs(F(st)) <= 10, 'notation', lambda: f'{what}: {t}')
    R.expect((a is None) == (e1 is None), 'errors-shown', lambda: f'{what}: {t}')
    if e1 is not None:
        sl = abs(v) / sc * F(1, 10 ** 13)
        rounded(R, a, (F(e1) - v) / sc, max(sf - 1, 1), f'{what} upper gives {t}', slack=sl)
        rounded(R, b, (v - F(e2)) / sc, max(sf - 1, 1), f'{what} lower gives {t}', slack=sl)

def do_sci(s, R):
    import craterstats.gm as gm
    sf = s['sf']
    for m in list(range(100, 1000, 7)) + [999, 995, 994, 950, 105]:
        v = float(f"{m}e{s['e'] - 2}")
        for i, (up, lo) in enumerate(ERRS):
            if sf == 1 and i: break
            for force in (0, 1):
                for ml in (0, 1):
                    for unit in (None, 'km-2', 'km2'):
                        if i > 1 and (unit == 'km2') != (m % 2): continue
                        e1, e2 = (None, 0) if up is None else (v * (1 + up), v * (1 - lo))
                        t = gm.scientific_notation(v, e1, e2, sf=sf, force=bool(force), MathML=bool(ml), unit=unit)
                        R.step(); R.trace(); R.state((v, i, force, ml, unit, sf))
                        check_sci(R, t, ml, v, e1, e2, sf, force, unit, f'scientific_notation({v!r},{e1!r},{e2!r},sf={sf},force={force},MathML={ml},unit={unit})')
        t = gm.scientific_notation(-v, sf=sf)
        check_sci(R, t, 0, -v, None, None, sf, 0, None, f'scientific_notation({-v!r},sf={sf})')
    for force in (0, 1): rounded(R, split_tex(gm.scientific_notation(0., sf=sf, force=bool(force)))[0], 0, sf, 'zero')

def unit_of(age):
    for u, f in UNITS.items():
        if F(age) >= f or u == 'a': return u

def check_age(R, t, age, e1, e2, sf, what, unit=None, simple=False, no_error=False, mu=False, ml=False):
    """t shows age (Ga)"""
    if simple:
        m = re.fullmatch(r'([\d.e+-]+?)(\^\{.*)? (Ga|Ma|ka|a)', t)
        R.expect(m is not None, 'layout', lambda: f'{what}: {t}')
        st, a, b, u = m[1], None, None, m[3]
        errs = bool(m[2])
    else:
        p = split_ml(t) if ml else split_tex(t)
        R.expect(p is not None, 'layout', lambda: f'{what}: {t}')
        st, a, b, ex, u, m_ = p
        R.expect(ex == 0 and m_ == bool(mu), 'layout', lambda: f'{what}: {t}')
        u = re.sub('</?mtext>|&#8239;', '', u).strip()
        errs = a is not None
    want = unit or unit_of(age)
    # at a unit boundary the division may round either way
    R.expect(u == want or (unit is None and u in UNITS and abs(F(age) / UNITS[u] - 1) < F(1, 10**12)), 'unit', lambda: f'{what}: {t}, expected {want}')
    v = F(age) / UNITS[u]
    sl = abs(v) / 10 ** 14
    if simple:
        x = F(st)
        R.expect(abs(x - v) <= abs(v) * F(5, 10 ** 6), 'not-rounded', lambda: f'{what}: {t}')
    else: rounded(R, st, v, sf, f'{what} gives {t}', slack=sl)
    if not simple:
        R.expect(errs == (e1 > 0 and not no_error), 'errors-shown', lambda: f'{what}: {t}')
        if errs:
            esl = sl + abs(F(e1)) / UNITS[u] / 10 ** 13
            rounded(R, a, F(e1) / UNITS[u], max(sf - 1, 1), f'{what} upper gives {t}', slack=esl)
            rounded(R, b, F(e2) / UNITS[u], max(sf - 1, 1), f'{what} lower gives {t}', slack=sl + abs(F(e2)) / UNITS[u] / 10 ** 13)

def do_age(s, R):
    import craterstats as cst
    sf = s['sf']
    for m in list(range(10, 100)) + [995, 9995, 9999, 999999, 1005]:
        v = float(f'{m}e{s["e"] - len(str(m)) + 1}')
        for up, lo in ((0, 0), (.1, .2), (.25, .125), (.03, .07), (1.5, .9), (.0041, .0043), (.5, .995)):
            for unit in (None, 'Ga', 'Ma', 'ka', 'a'):
                for simple, ne, mu, ml in ((0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 1, 1)):
                    if (simple or sf == 1) and up: continue
                    if unit and (mu or ne): continue
                    e1, e2 = v * up, v * lo
                    t = cst.str_age(v, e1, e2, sf=sf, unit=unit, simple=bool(simple), no_error=bool(ne), mu=bool(mu), MathML=bool(ml))
                    R.step(); R.trace(); R.state((v, up, unit, simple, ne, mu, ml, sf))
                    check_age(R, t, v, e1, e2, sf, f'str_age({v!r},{e1!r},{e2!r},{sf},{unit},{simple},{ne},{mu},{ml})', unit, simple, ne, mu, ml)

def check_range(R, t, d0, d1, sf, what):
    m = re.fullmatch('([\\d.]+)\u2013([\\d.]+) (k?m)', t)
    R.expect(m is not None, 'layout', lambda: f'{what}: {t}')
    R.expect(m[3] == ('km' if d1 >= 1 else 'm'), 'unit', lambda: f'{what}: {t}')
    k = 1 if d1 >= 1 else 1000
    for x, d in ((m[1], d0), (m[2], d1)): rounded(R, x, F(d) * k, sf, f'{what} gives {t}', slack=F(d) * k / 10 ** 14)

def do_drange(s, R):
    import numpy as np
    import craterstats.gm as gm
    g = [float(f'{m}e{e}') for e in range(-4, 4) for m in (1, 1.05, 1.4142135623730951, 2.5, 3.14159, 4.999, 9.5, 9.96, 9.994)]
    g += [.999, 1., 1.0000001, .99999999]
    for a in [x for x in g if 10. ** s['e'] <= x < 10. ** (s['e'] + 1)]:
        for b in g:
            if b < a: continue
            for mk in (list, tuple, np.array):
                t = gm.diameter_range(mk([a, b]), s['sf'])
                R.step(); R.trace(); R.state((a, b, s['sf']))
                check_range(R, t, a, b, s['sf'], f'diameter_range([{a!r},{b!r}],{s["sf"]})')

def do_pct(s, R):
    import craterstats.gm as gm
    sf = s['sf']
    small = [float(f'{m}e{e}') for e in range(-9, 2) for m in [x / 10 for x in range(10, 100, 3)] + [9.95, 9.995, 1.005, 4.321, 5]]
    for q in [x for x in small if x < 50] + [49.5, 49.95, 49.999, 0.]:
        for p in (q, 100 - q):
            t = gm.percentile_sigfigs(p, sf)
            R.step(); R.trace(); R.state((p, sf))
            try: x = F(t)
            except ValueError: R.expect(False, 'not-a-number', f'{p!r} {t}')
            v = F(p)
            w = v if p < 50 else 100 - v
            y = x if p < 50 else 100 - x
            if w == 0:
                R.expect(y == 0, 'wrong-value', lambda: f'{p!r}: {t}')
                continue
            e = math.floor(math.log10(float(w)))
            if w >= F(10) ** (e + 1): e += 1
            if w < F(10) ** e: e -= 1
            R.expect(abs(y - w) <= F(10) ** (e - sf + 1) / 2 + F(1, 10 ** 13), 'not-rounded', lambda: f'percentile_sigfigs({p!r}, {sf}) = {t}')

def do_hart(s, R):
    import craterstats as cst
    L2 = math.log10(2)
    for lo in [x / 20 for x in range(-62, 50)]:
        for hi in [lo + w / 4 for w in range(4, 26)]:
            if math.floor(min(hi, 10 * L2) / L2) - math.ceil(max(lo, -10 * L2) / L2) < 1: continue
            tv, tn, minor, mv = cst.Hartmann_bins([lo, hi])
            R.step(); R.trace(); R.state((lo, hi))
            R.expect(len(tv) == len(tn) and len(tv) >= 2 and all(lo <= v <= hi for v in tv), 'ticks', lambda: f'{lo} {hi} {tv}')
            exp = [e * L2 for e in range(-10, 11) if lo <= e * L2 <= hi]
            R.expect(len(exp) == len(tv) and all(abs(a - b) < 1e-9 for a, b in zip(exp, tv)), 'ticks', lambda: f'{lo} {hi} {tv}')
            for i, (v, t) in enumerate(zip(tv, tn)):
                m = re.fullmatch(r' *(\d+)(k?m)?', t)
                R.expect(m is not None, 'layout', lambda: f'{t!r}')
                d = 10 ** v
                R.expect(m[2] == ('km' if abs(d - 1) < 1e-9 else 'm' if i == 0 and v < -1e-9 else None), 'unit', lambda: f'{lo} {hi}: {tn}')
                x = d * 1000 if v < -1e-9 else d
                R.expect(abs(int(m[1]) - x) <= .5 + 1e-9, 'not-rounded', lambda: f'{t!r} for {d} km')
            R.expect(abs(minor - L2 / 2) < 1e-9, 'minor', lambda: f'{minor}')
            em = [(e + .5) * L2 for e in range(math.ceil(tv[0] / L2 - .1) - 1, round(tv[-1] / L2) + 1) if lo <= (e + .5) * L2 <= hi]
            R.expect(len(em) == len(mv) and all(abs(a - b) < 1e-9 for a, b in zip(em, mv)), 'minor', lambda: f'{lo} {hi} {mv}')

def texts(fig):
    import matplotlib.text as mt
    return [t.get_text() for t in fig.findobj(mt.Text) if t.get_text() and t.get_visible()]

def is_age(t): return re.fullmatch(r'\$.*\$ (Ga|Ma|ka|a)', t)

def do_plot(s, R):
    S = '%sample%/'
    args = ['-pr', s['pr'], '-mu', str(s['mu']), '-ref_diameter', str(s['ref']), '-legend', 'naApcrN', '-o', 'x']
    if s['sf']: args += ['-sf', str(s['sf'])]
    if s['pr'] == 'seq': args += ['-p', f'source={S}c1.scc,type=poisson,range=[.02,.2],name=A', '-p', f'source={S}c2.scc,range=[.03,.2],name=B', '-p', f'source={S}e1.diam,range=[.24,1.5],name=C']
    else:
        args += ['-p', f'source={S}Pickering.scc', '-p', 'type=poisson,range=[.2,.7]', '-p', 'type=c-fit,range=[.1,1],resurf=1', '-p', f'source={S}c1.scc,type=b-poisson,range=[.02,.2],age_left=1', '-p', f'source={S}c2.scc,type=d-fit,range=[.02,.1],resurf=0']
    r = cli.run(args, cli.fresh_dir('c23'))
    R.trace(); R.step(); R.state(repr(s))
    R.expect(r.ok, 'run-failed', lambda: f'{args}: {r.why()}')
    cps = r.cps
    tx = texts(cps.fig)
    sf = s['sf'] or 3
    ages = [cp for cp in cps.craterplot if cp.type != 'data']
    leg = [t.get_text() for l in cps.fig.axes for t in (l.get_legend().get_texts() if l.get_legend() else [])]
    if s['pr'] == 'seq': leg = [', '.join(t.split('\n')) for t in tx if 'craters' in t]
    seen = [t for t in tx if is_age(t)] + ([t.split(', ')[0] for t in leg] if s['pr'] == 'seq' else [])
    for cp in ages:
        ok = []
        for t in seen:
            q = Quiet()
            try: check_age(q, t, cp.t[0], cp.t[2] - cp.t[0], cp.t[0] - cp.t[1], sf, '', mu=s['mu'])
            except Bad as e: ok.append(str(e)); continue
            break
        else: R.expect(False, 'age-text', f'{args}: no text shows {cp.t} to {sf} figures: {seen} {ok}')
    fits = [l for l in leg if 'craters' in l]
    R.expect(len(fits) == len(ages), 'legend-rows', lambda: f'{leg}')
    for l in fits:
        parts = l.split(', ')
        N = [p for p in parts if p.startswith('N(')]
        R.expect(len(N) == 1 and float(N[0][2:N[0].index(')')]) == s['ref'], 'reference-diameter', lambda: f'{l}')
        rng = [p for p in parts if '\u2013' in p]
        R.expect(len(rng) == 1, 'range-shown', lambda: f'{l}')
        good = False
        why = []
        for cp in ages:
            q = Quiet()
            try:
                check_sci(q, N[0][N[0].index('=') + 1:], 0, cp.n_d[0], cp.n_d[2], cp.n_d[1], 3, 0, 'km-2', '')
                good = True
                c = next(p for p in parts if 'craters' in p)
                m = re.match(r'([\d.]+)(?: \(of ([\d.]+)\))?', c)
                shown = [float(m[1])] + ([float(m[2])] if m[2] else [])
                R.expect(any(abs(shown[0] - v) <= .0501 for v in (cp.n, cp.n_event)), 'count-shown', lambda: f'{l}: {cp.n} {cp.n_event}')
            except Bad as e: why.append(str(e))
        R.expect(good, 'density-text', lambda: f'{args}: {l}: {why}')
    for l in leg:
        if 'km$^{2}' not in l: continue
        q = []
        for cp in cps.craterplot:
            try: check_sci(Quiet(), next(p for p in l.split(', ') if 'km$^{2}' in p), 0, cp.cratercount.area, None, None, 3, 0, 'km2', ''); break
            except Bad as e: q.append(str(e))
        else: R.expect(False, 'area-text', f'{l}: {q}')
    R.outcome(repr(sorted(seen)))

class Bad(Exception): pass
class Quiet:
    def expect(self, c, k, m=''):
        if not c: raise Bad(f'{k}: {m() if callable(m) else m}')

def do_chron(s, R):
    args = ['-pr', s['pr'], '-ref_diameter', str(s['ref']), '-o', 'x']
    r = cli.run(args, cli.fresh_dir('c23'))
    R.trace(); R.step(); R.state(repr(s))
    R.expect(r.ok, 'run-failed', lambda: f'{args}: {r.why()}')
    tx = texts(r.cps.fig)
    n = 0
    for t in tx:
        for m in re.finditer(r'N\(>([^ )]*) km\)', t):
            if t == 'N(>1 km)' and s['ref'] != 1: continue      # the N(1) line shown for comparison
            n += 1
            R.expect(float(m[1]) == s['ref'], 'reference-diameter', lambda: f'{args}: {t!r}')
    R.expect(n >= 1, 'reference-diameter', lambda: f'{args}: not shown: {tx}')

def do_iso(s, R):
    args = ['-pr', s['pr'], '-isochrons', ','.join(f'{t:g}' for t in s['t']), '-xrange', '-3', '3', '-yrange', '-9', '9', '-o', 'x', '-p', 'source=%sample%/Pickering.scc']
    if s['pr'] == 'hart': args[4:10] = []
    r = cli.run(args, cli.fresh_dir('c23'))
    R.trace(); R.step(); R.state(repr(s))
    R.expect(r.ok, 'run-failed', lambda: f'{args}: {r.why()}')
    lab = [t for t in texts(r.cps.fig) if re.fullmatch(r'[\d.e+-]+ (Ga|Ma|ka|a)', t)]
    for l in lab:
        x = F(l.split()[0]) * UNITS[l.split()[1]]
        q = [t for t in s['t'] if abs(x - F(t)) <= F(t) * F(5, 10 ** 6)]
        R.expect(bool(q), 'isochron-label', lambda: f'{args}: {l}')
        R.expect(unit_of(q[0]) == l.split()[1] or 1 <= float(l.split()[0]) < 1000, 'unit', lambda: f'{args}: {l}')
    if s['pr'] != 'hart' : R.count('isochron_labels', len(lab))
