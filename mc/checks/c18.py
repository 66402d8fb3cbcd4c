"""Abbreviations: every short string over the vocabulary's alphabet, against the subsequence definition, directly and through the command line."""
import itertools, re
from .. import ref, cli
TECHNIQUE = 'model checking: exhaustive enumeration of abbreviation strings over the vocabularies (all strings up to length 3, all spans and all short subsequences of every entry), both decoding modes, and through the real command line'
RULE = ('strings: all of length <= 2 (quick) / 3 (thorough) over the alphabet of letters, digits and punctuation (incl. pattern metacharacters) x 10 vocabularies x {ambiguity allowed, not}; all prefixes, spans and '
        'subsequences (<= 4 letters) of every entry, in 3 letter cases; command line: every full name and every 1-2 letter abbreviation of every option; oracle: in-order occurrence of the letters, shortest then first')
LIMIT = 300
ALPHA = 'abcdefghijklmnopqrstuvwxyz0123456789-/_, .()&\'*+?[]^$\\|{}#'
UNUSABLE = "Vesta, Marchi & O'Brien (2014)"     # finding of C07

def vocab():
    import craterstats as cst
    f = ref.functions()
    return dict(presentation=list(cst.PRESENTATIONS), type=list(cst.OPLOT_TYPES), key=list(cst.CRATERPLOT_KEYS), binning=list(cst.Cratercount.BINNINGS), colour=[e[2] for e in cst.PALETTE],
                psym=[e[1] for e in cst.MARKERS], cs=[e['name'] for e in f['chronology_system']], ef=[e['name'] for e in f['equilibrium']], ep=[e['name'] for e in f['epochs']], body=list(cst.PLANETS))

def isin(v, name):
    it = iter(name.lower())
    return all(c in it for c in v.lower())

def want(s, v):
    """(indices that match in order of preference)"""
    return sorted([i for i, e in enumerate(s) if isin(v, e)], key=lambda i: (len(s[i]), i))

def scenarios(tier):
    V = vocab()
    out = []
    for k in V:
        out.append(dict(kind='names', voc=k))
        if tier == 'thorough': out += [dict(kind='strings', voc=k, n=3, first=a) for a in ALPHA]
        else: out.append(dict(kind='strings', voc=k, n=2))
        for j in range(len(V[k])): out.append(dict(kind='parts', voc=k, entry=j))
    for k in ('cs', 'ef', 'ep', 'presentation'):
        for j in range(len(V[k])): out.append(dict(kind='cli', voc=k, v=V[k][j]))
        for n in (1, 2):
            for p in itertools.product('abcdefghijklmnoprstuvwxyz0123-(.', repeat=n):
                if n == 1 or tier == 'thorough' or k in ('presentation', 'ef') or (p[0] in 'mnvchiglp0('): out.append(dict(kind='cli', voc=k, v=''.join(p)))
    for k in ('type', 'binning', 'colour', 'psym'):
        for i in range(0, len(ALPHA)): out.append(dict(kind='plots', voc=k, first=ALPHA[i]))
        out.append(dict(kind='plotnames', voc=k))
    for a in 'abcdefghijklmnopqrstuvwxyz_0': out.append(dict(kind='keys', first=a))
    out.append(dict(kind='keynames'))
    out += [dict(kind='hex', vs=[''.join(p) for p in itertools.product('0fG', repeat=n)][:40] + ['a1B2c3d4e5'[:n]]) for n in range(1, 9)]
    return out

def decode(s, v, **k):
    import craterstats.cli as c
    try: return c.decode_abbreviation(s, v, **k)
    except SystemExit as e: return ('exit', str(e.code))

def compare(R, s, v):
    w = want(s, v)
    what = lambda g: f'{v!r} in {s[:6]}... -> {g!r}; matching entries {[s[i] for i in w][:5]}'
    for one in (False, True):
        g = decode(s, v, allow_ambiguous=True, one_based=one)
        if w: R.expect(g == w[0], 'wrong-entry', lambda: what(g))
        else: R.expect(isinstance(g, tuple) and v in g[1], 'no-message', lambda: what(g))
        g = decode(s, v, one_based=one)
        if len(w) == 1: R.expect(g == w[0], 'wrong-entry', lambda: what(g))
        else: R.expect(isinstance(g, tuple) and v in g[1], 'ambiguity-accepted' if w else 'no-message', lambda: what(g))
    R.trace(); R.step(4)
    R.outcome((tuple(w[:2]), len(w) > 1))

def run(s, R):
    V = vocab()
    k = s['kind']
    if k in ('names', 'strings', 'parts'):
        L = V[s['voc']]
        if k == 'names':
            for i, e in enumerate(L):
                for v in (e, e.upper(), e.lower()):
                    R.state((s['voc'], v))
                    g = decode(L, v, allow_ambiguous=True)
                    R.expect(g == i, 'full-name', lambda: f'{v!r} selects {g!r}')
                    compare(R, L, v)
        elif k == 'strings':
            for n in ((1, 2) if s['n'] == 2 else (3,)):
                for p in itertools.product(ALPHA, repeat=n - (1 if 'first' in s else 0)):
                    v = s.get('first', '') + ''.join(p)
                    R.state((s['voc'], v)); compare(R, L, v)
        else:
            e = L[s['entry']]
            vs = {e[a:b] for a in range(len(e)) for b in range(a + 1, len(e) + 1)}
            vs |= {''.join(c) for n in (1, 2, 3, 4) for c in itertools.combinations(e[:22], n)} if len(e) <= 22 else {''.join(c) for n in (1, 2, 3) for c in itertools.combinations(e[::2], n)}
            for v in sorted(vs):
                for u in {v, v.upper(), v.swapcase()}:
                    R.state((s['voc'], u)); compare(R, L, u)
        return
    wd = cli.fresh_dir('c18')
    src = ref.sample('c1.scc')
    base = ['-f', 'csv', '-o', 'x']
    if k == 'cli':
        L, v = V[s['voc']], s['v']
        opt = dict(cs='-cs', ef='-ef', ep='-ep', presentation='-pr')[s['voc']]
        w = want(L, v)
        if s['voc'] == 'presentation' and w and L[w[0]] in ('map', 'sdaa', 'm2cnd', 'uncertainty') and len(w) == 1: return     # panels drawn by other commands
        if v[0] == '-': return      # an option to the argument parser
        r = cli.run(base + [opt, v], wd)
        R.step(); R.trace(); R.state((s['voc'], v))
        what = lambda: f'{opt} {v!r}: {r.why()}'
        if not w or (s['voc'] == 'presentation' and len(w) > 1):
            R.expect(r.exc is None and isinstance(r.exit, str) and v in r.exit, 'no-message', what)
            return
        if L[w[0]] == UNUSABLE: return
        R.expect(r.ok, 'run-failed', what)
        c = r.cps
        if s['voc'] == 'presentation': g = c.presentation
        elif s['voc'] == 'cs': g = c.chronology_system
        elif s['voc'] == 'ef': g = c.ef.name
        else: g = c.ep.name
        R.expect(g == L[w[0]], 'wrong-entry', lambda: f'selected {g!r} expected {L[w[0]]!r}; {what()}')
        if s['voc'] == 'cs':
            e = next(e for e in ref.functions()['chronology_system'] if e['name'] == g)
            R.expect((c.cf.name, c.pf.name) == (e['cf'], e['pf']), 'wrong-functions', lambda: f'{c.cf.name} {c.pf.name}; {what()}')
        return
    if k == 'hex':
        for v in s['vs']:
            r = cli.run(base + ['-p', f'source={src},colour=#{v}'], wd)
            R.step(); R.trace(); R.state(('hex', v))
            what = lambda: f'colour #{v}: {r.why()}'
            if re.fullmatch('[0-9a-fA-F]{6}', v):
                R.expect(r.ok and r.cps.craterplot[0].colour.lower() == '#' + v.lower(), 'hex-colour', what)
            else: R.expect(r.exc is None and isinstance(r.exit, str) and v in r.exit, 'no-message', what)
        return
    if k in ('keys', 'keynames'):
        L = V['key']
        val = dict(source=src, name='q', range='[.1,.2]', snap='0', type='c-fit', error_bars='0', hide='1', colour='red', psym='x', binning='x2', age_left='1', show_age='0', resurf='1', resurf_showall='1', isochron='1',
                   offset_age='[1,2]')
        attr = dict(name='q', snap=0, type='c-fit', error_bars=0, hide=1, psym=5, binning='x2', age_left=1, show_age=0, resurf=1, resurf_showall=1, isochron=1, offset_age=[1., 2.], colour='#a00000')
        vs = [s['first']] + [s['first'] + b for b in 'abcdefghijklmnopqrstuvwxyz_'] if k == 'keys' else L + [e.upper() for e in L] + [e[:4] for e in L]
        for v in vs:
            w = want(L, v)
            R.step(); R.trace(); R.state(('key', v))
            r = cli.run(base + ['-p', f"source={src}" + (',' + v + '=' + val[L[w[0]]] if w else f',{v}=1')], wd)
            what = lambda: f'key {v!r}: {r.why()}'
            if not w:
                R.expect(r.exc is None and isinstance(r.exit, str) and v in r.exit, 'no-message', what)
                continue
            R.expect(r.ok, 'run-failed', what)
            cp = r.cps.craterplot[0]
            got = {a: getattr(cp, a) for a in attr}
            exp = dict(name='c1', snap=1, type='data', error_bars=1, hide=0, psym=1, binning='pseudo-log', age_left=0, show_age=1, resurf=0, resurf_showall=0, isochron=0, offset_age=[0., 0.], colour='#000000')
            if L[w[0]] in attr: exp[L[w[0]]] = attr[L[w[0]]]
            R.expect(got == exp, 'wrong-key', lambda: f'{v!r} (for {L[w[0]]}): {[(a, got[a], exp[a]) for a in exp if got[a] != exp[a]]}')
        return
    L = V[s['voc']]
    import craterstats as cst
    std = [e[0] for e in cst.MARKERS]
    vs = [s['first'] + b for b in [''] + list(ALPHA)] if k == 'plots' else L + [e.upper() for e in L] + (std if s['voc'] == 'psym' else [])
    vs = [v for v in vs if '=' not in v and not (s['voc'] == 'colour' and v[0] == '#')]
    exp = {}
    for v in vs:
        if s['voc'] == 'psym' and v in std: exp[v] = std.index(v)
        else:
            w = want(L, v)
            exp[v] = w[0] if w else None
    def attr(cp):
        if s['voc'] == 'psym': return cp.psym
        if s['voc'] == 'colour': return [e[0] for e in cst.PALETTE].index(cp.colour)
        if s['voc'] == 'binning': return L.index(cp.binning)
        return list(cst.OPLOT_TYPES_SHORT).index(cp.type)
    good = [v for v in vs if exp[v] is not None and not v.endswith(',')]
    for i in range(0, len(good), 20):
        a = list(base)
        for v in good[i:i + 20]: a += ['-p', f"source={src},{s['voc']}={v}"]
        r = cli.run(a, wd)
        R.expect(r.ok, 'run-failed', lambda: f'{good[i:i + 20]}: {r.why()}')
        for v, cp in zip(good[i:i + 20], r.cps.craterplot):
            R.step(); R.trace(); R.state((s['voc'], v))
            R.expect(attr(cp) == exp[v], 'wrong-entry', lambda: f"{s['voc']}={v!r} selected {attr(cp)} expected {exp[v]} {L[exp[v]]!r}")
    for v in vs:
        if exp[v] is None and not v.endswith(','):
            r = cli.run(base + ['-p', f"source={src},{s['voc']}={v}"], wd)
            R.step(); R.trace(); R.state((s['voc'], v))
            R.expect(r.exc is None and isinstance(r.exit, str) and v in r.exit, 'no-message', lambda: f"{s['voc']}={v!r}: {r.why()}")
