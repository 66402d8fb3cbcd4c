"""User-defined functions: every small user file x layout, every configuration state, every short history of setting and using them."""
import itertools, math, os, re, sys
import numpy as np
from .. import ref, cli
TECHNIQUE = 'model checking: exhaustive enumeration of user function files over a definition grammar, of configuration states, and of command histories up to a depth on the real command line against a model of the remembered file'
RULE = ('files = all subsets of 6 definition kinds (own system with functions, system on built-in functions, mixed system, table function, equilibrium function, epochs) x 10 layouts x forward/backward order; '
        'states = every environment {conda, conda without etc, frozen, none} x configuration content x target; histories = all sequences up to 3 (thorough 4) of {set A, set B, set relative path, set missing, set folder, set undecodable, remove A, list here, list elsewhere, use A system}; state=(file) / (history, remembered file)')
LIMIT = 300
A = dict(pf=dict(name='User PF, A (2024)', coefficients=['-3.1', '-3.3', '.21', '0.05'], range=['.02', '80']),
         cf=dict(name='User CF, A (2024)', coefficients=['3.3e-14', '6.7', '0', '5.1E-4'], reference='Someone; 2024 # not a comment'))
B = dict(pf=dict(name='User PF B', coefficients=['-2', '-2.7', '-.1']), cf=dict(name='User CF B', coefficients=['1e-15', '7', '0', '1e-3']))
TAB = dict(name='User table', type='tabular incremental root-2', H=['9e-2', '4e-2', '1.5e-2', '6e-3', '2e-3', '7e-4', '1e-4'], index_1km='3')
ITEMS = {'own': [('chronology_system', dict(body='Moon', name='Moon, User A (2024)', cf=A['cf']['name'], pf=A['pf']['name'])), ('production', A['pf']), ('chronology', A['cf'])],
         'builtin': [('chronology_system', dict(body='Mars', name='Mars, reuse of built-in', cf='Moon, Neukum (1983)', pf='Mars, Ivanov (2001)'))],
         'mixed': [('chronology', B['cf']), ('chronology_system', dict(body='Ceres', name='Ceres, Größe [mixed] (x+y)', cf=B['cf']['name'], pf='Moon, Neukum (1983)')), ('production', B['pf'])],
         'table': [('production', TAB), ('chronology_system', dict(body='Moon', name='Zz table', cf='Moon, Neukum (1983)', pf='User table'))],
         'equil': [('equilibrium', dict(name='User equilibrium', type='polynomial', coefficients=['-1.2', '-1.9'], range=['.001', '1000.'], reference='r'))],
         'epoch': [('epochs', dict(name='User epochs', epoch=['Young', 'Middle', 'Old'], time=['0.', '1.5', '3.9'], formatting=['60', '0b', '1', '2b'], reference='r'))]}
LAYOUT = ['plain', 'tight', 'tabs', 'crlf', 'bom', 'comments', 'double', 'noeol', 'blank', 'star']

def render(defs, layout):
    q = '"' if layout == 'double' else "'"
    out = ['# user file', ''] if layout in ('comments', 'plain') else []
    for k, d in defs:
        if layout == 'comments': out += [f'# {k} = {{', '   # name="x"', '#}']
        out.append(f'{k}={{' if layout != 'tabs' else f'{k}\t=\t{{')
        for n, v in d.items():
            if isinstance(v, list):
                t = ', '.join(v) if k != 'epochs' or n != 'epoch' else ','.join(q + e + q for e in v)
                t = ('*' if layout == 'star' else '') + '[' + t + ']'
            elif n in ('index_1km',): t = v
            else: t = q + v + q
            ind = {'tight': '', 'tabs': '\t', 'plain': '  '}.get(layout, '   ')
            out.append(f'{ind}{n}{" = " if layout in ("tabs", "blank") else "="}{t}' + ('     ; note "quoted' if layout == 'comments' and n == 'never' else '   ; a note' if layout == 'comments' and not isinstance(v, str) else ''))
            if layout == 'blank': out.append('')
        out.append('}')
        out += [''] * (3 if layout == 'blank' else 0 if layout == 'tight' else 1)
    s = '\n'.join(out)
    if layout == 'noeol': s = s.rstrip('\n')
    else: s += '\n'
    if layout == 'crlf': s = s.replace('\n', '\r\n')
    return ('\ufeff' if layout == 'bom' else '') + s

def put(p, s, enc='utf-8'):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'wb').write(s if isinstance(s, bytes) else s.encode(enc))
    return p

def scenarios(tier):
    out = []
    q = tier == 'quick'
    names = list(ITEMS)
    for k in range(0, len(names) + 1):
        for c in itertools.combinations(names, k):
            for l in LAYOUT if not q or k <= 1 else LAYOUT[(sum(map(len, c)) % 2)::2]: out.append(dict(kind='file', items=list(c), layout=l))
    for env in ('conda', 'conda-bare', 'frozen', 'none'):
        for cfg in ('absent', 'normal', 'blank', 'comment', 'nothing', 'spaces', 'twolines'):
            for target in ('good', 'missing', 'folder', 'latin', 'empty', 'onlycomments', 'garbage', 'unclosed'):
                if cfg in ('absent', 'blank', 'comment', 'nothing', 'spaces') and target != 'good': continue
                out.append(dict(kind='state', env=env, cfg=cfg, target=target))
    for env in ('conda', 'conda-bare', 'frozen', 'none'):
        for first in OPS: out.append(dict(kind='history', env=env, first=first, depth=3 if q else 4))
    out.append(dict(kind='builtin'))
    for k in ('all', *DUP): out.append(dict(kind='dup', what=k))
    return out

class Env:
    """a private environment; the configuration lives in a scratch folder"""
    def __init__(self, kind, wd):
        self.kind, self.wd = kind, wd
        self.cfg = {'conda': f'{wd}/env/etc/config_functions_user.txt', 'conda-bare': f'{wd}/env/etc/config_functions_user.txt',
                    'frozen': f'{wd}/app/_internal/craterstats/config_functions_user.txt', 'none': None}[kind]
        if kind == 'conda': os.makedirs(f'{wd}/env/etc', exist_ok=True)
        if kind == 'conda-bare': os.makedirs(f'{wd}/env', exist_ok=True)
        if kind == 'frozen': os.makedirs(f'{wd}/app/_internal/craterstats', exist_ok=True)
    def __enter__(self):
        self.old = (os.environ.get('CONDA_PREFIX'), sys.executable, getattr(sys, 'frozen', None))
        os.environ.pop('CONDA_PREFIX', None)
        if self.kind.startswith('conda'): os.environ['CONDA_PREFIX'] = f'{self.wd}/env'
        if self.kind == 'frozen': sys.frozen, sys.executable = True, f'{self.wd}/app/craterstats'
    def __exit__(self, *a):
        os.environ.pop('CONDA_PREFIX', None)
        if self.old[0] is not None: os.environ['CONDA_PREFIX'] = self.old[0]
        sys.executable = self.old[1]
        if self.old[2] is None and hasattr(sys, 'frozen'): del sys.frozen
        return False

def strip(s): return re.sub(r'\x1b\[[0-9;]*m', '', s)
def listing(out):
    """{heading: [names]}"""
    d, cur = {}, None
    for l in strip(out).split('\n'):
        h = next((h for h in ('Chronology systems', 'Equilibrium functions', 'Epoch systems') if l.strip().rstrip(':') == h), None)
        if h: cur = d.setdefault(h, [])
        elif l.strip() and cur is not None: cur.append(l.strip())
    return d
KEYS = {'Chronology systems': 'chronology_system', 'Equilibrium functions': 'equilibrium', 'Epoch systems': 'epochs'}

_base = None
def base():
    """built-in list: an environment without user file"""
    global _base
    if _base is None:
        wd = cli.fresh_dir('c30base')
        with Env('none', wd): r = cli.run(['-lcs'], wd)
        assert r.ok, r.why()
        import craterstats as cst
        with Env('none', wd): f = cst.Functionslist().functions
        _base = (listing(r.out), f)
    return _base

def listed(R, r, defs, what):
    R.expect(r.ok, 'start-fails', lambda: f'{r.why()}; {what()}')
    got, want = listing(r.out), base()[0]
    for h, k in KEYS.items():
        w = want[h] + [d['name'] for kk, d in defs if kk == k]
        R.expect(got.get(h) == w, 'list', lambda: f'{h}: ends {got.get(h, [])[-4:]} expected {w[-4:]}, {len(got.get(h, []))} of {len(w)}; {what()}')

def same(x, w):
    if isinstance(w, list): return isinstance(x, (list, tuple)) and len(x) == len(w) and all(same(a, b) for a, b in zip(x, w))
    try: return float(x) == float(w)
    except (TypeError, ValueError): return x == w

def parsed(R, defs, what):
    """the function definitions: built-in ones unchanged, then the user's"""
    import craterstats as cst
    f = cst.Functionslist().functions
    b = base()[1]
    R.expect(set(f) == set(b), 'kinds', lambda: f'{sorted(f)}; {what()}')
    for k in b:
        n = len(b[k])
        R.expect(f[k][:n] == b[k], 'built-in-disturbed', lambda: f'{k}: {[e for e, w in zip(f[k], b[k]) if e != w][:1]}; {what()}')
        w = [d for kk, d in defs if kk == k]
        got = f[k][n:]
        R.expect(len(got) == len(w) and all(set(g) == set(d) and all(same(g[x], d[x]) for x in d) for g, d in zip(got, w)), 'user-definition', lambda: f'{k}: {got} expected {w}; {what()}')

def usable(R, defs, wd, what):
    """each user-defined system evaluates as defined"""
    F = base()[1]
    pfs = {e['name']: e for e in F['production']} | {d['name']: d for k, d in defs if k == 'production'}
    cfs = {e['name']: e for e in F['chronology']} | {d['name']: d for k, d in defs if k == 'chronology'}
    for k, d in defs:
        if k == 'chronology_system':
            r = cli.run(['-cs', d['name']], wd, noout=True)
            R.expect(r.ok and r.cps is not None, 'unusable', lambda: f'-cs {d["name"]}: {r.why()}; {what()}')
            p, c = ref.RefPF(pfs[d['pf']]), ref.RefCF(cfs[d['cf']])
            R.expect(r.cps.chronology_system == d['name'], 'unusable', lambda: f'-cs {d["name"]}: {r.cps.chronology_system}; {what()}')
            for x in (.05, 1., 7.):
                g = float(np.ravel(r.cps.pf.evaluate('cumulative', np.array([x]), -2.5))[0])
                R.expect(abs(g / p.C(x, -2.5) - 1) < 1e-6, 'wrong-function', lambda: f'{d["name"]} N({x}) {g} expected {p.C(x, -2.5)}; {what()}')
            for t in (.5, 3.7):
                g = float(r.cps.cf.N1(t))
                R.expect(abs(g / c.N(t) - 1) < 1e-9, 'wrong-function', lambda: f'{d["name"]} N1({t}) {g} expected {c.N(t)}; {what()}')
        elif k == 'equilibrium':
            r = cli.run(['-ef', d['name']], wd, noout=True)
            R.expect(r.ok and r.cps is not None and r.cps.ef is not None and abs(float(np.ravel(r.cps.ef.evaluate('cumulative', np.array([2.])))[0]) / 10 ** (-1.2 - 1.9 * math.log10(2)) - 1) < 1e-6, 'unusable', lambda: f'-ef {d["name"]}: {r.why()}; {what()}')
        elif k == 'epochs':
            r = cli.run(['-ep', d['name']], wd, noout=True)
            R.expect(r.ok and r.cps is not None and list(r.cps.ep.time) == [0., 1.5, 3.9] and list(r.cps.ep.epoch) == d['epoch'], 'unusable', lambda: f'-ep {d["name"]}: {r.why()}; {what()}')
        R.step()

def run(s, R): globals()['do_' + s['kind']](s, R)

def do_file(s, R):
    for order in (1, -1):
        defs = [d for i in s['items'] for d in ITEMS[i]][::order]
        wd = cli.fresh_dir('c30')
        text = render(defs, s['layout'])
        f = put(f'{wd}/my functions.txt', text)
        what = lambda: f'user file {text!r}'
        env = Env('conda', wd)
        with env:
            r = cli.run(['--functions_user', f], wd)
            R.expect(r.ok, 'set-fails', lambda: f'{r.why()}; {what()}')
            r = cli.run(['-lcs'], wd)
            listed(R, r, defs, what)
            R.expect('gnoring' not in r.out, 'file-ignored', lambda: f'{r.out[:200]}; {what()}')
            parsed(R, defs, what)
            if len(s['items']) <= 2 or s['layout'] in ('plain', 'noeol'): usable(R, defs, wd, what)
        R.step(3); R.trace(); R.state((tuple(s['items']), s['layout'], order))
    R.outcome((len(s['items']), s['layout']))

GOOD = [d for i in ('own', 'equil') for d in ITEMS[i]]
def target(wd, t):
    p = f'{wd}/u/{t}.txt'
    if t == 'good': put(p, render(GOOD, 'plain'))
    elif t == 'folder': os.makedirs(p, exist_ok=True)
    elif t == 'latin': put(p, b'# Gr\xf6\xdfe\n' + render(GOOD, 'tight').encode())
    elif t == 'empty': put(p, '')
    elif t == 'onlycomments': put(p, '# nothing\n\n# here\n')
    elif t == 'garbage': put(p, 'hello world\n\x00\x01 }{ ][ """\n')
    elif t == 'unclosed': put(p, 'production={\n  name="x"\n')
    return p

def do_state(s, R):
    wd = cli.fresh_dir('c30')
    env = Env(s['env'], wd)
    what = lambda: str(s)
    f = target(wd, s['target'])
    if env.cfg and s['cfg'] != 'absent':
        put(env.cfg, {'normal': f'#path to functions_user.txt\n{f}', 'blank': '', 'comment': '#path to functions_user.txt\n', 'nothing': '#path\n\n', 'spaces': '   \n \n', 'twolines': f'#path\n\n{f}\n'}[s['cfg']])
    active = env.cfg is not None and s['cfg'] in ('normal', 'twolines')
    with env:
        r = cli.run(['-lcs'], wd)
        if s['target'] in ('garbage', 'unclosed') and active: pass                       # not valid: only that it can be changed
        else:
            listed(R, r, GOOD if active and s['target'] == 'good' else [], what)
            if active and s['target'] in ('missing', 'folder', 'latin'): R.expect(f in r.out + r.err, 'not-reported', lambda: f'{(r.out + r.err)[:200]}; {what()}')
            r = cli.run(['-cs', 'Moon, Neukum (1983)', '-o', 'x'], wd)
            R.expect(r.ok and r.cps.chronology_system == 'Moon, Neukum (1983)', 'built-in-unusable', lambda: f'{r.why()}; {what()}')
        if env.cfg:
            g = target(wd, 'good')
            r = cli.run(['--functions_user', g], wd)
            R.expect(r.ok, 'cannot-be-changed', lambda: f'{r.why()}; {what()}')
            listed(R, cli.run(['-lcs'], wd), GOOD, what)
    R.step(4); R.trace(); R.state(str(s)); R.outcome((s['env'], s['cfg'], s['target']))

OPS = ['A', 'B', 'rel', 'missing', 'folder', 'latin', 'remove', 'list', 'list-elsewhere', 'use']
def do_history(s, R):
    """model: the remembered file; its content when listed"""
    defsA, defsB = GOOD, [d for i in ('mixed', 'epoch') for d in ITEMS[i]]
    def play(seq):
        wd = cli.fresh_dir('c30')
        os.makedirs(f'{wd}/u'); os.makedirs(f'{wd}/elsewhere/u')
        put(f'{wd}/u/a.txt', render(defsA, 'plain')); put(f'{wd}/u/b.txt', render(defsB, 'noeol'))
        target(wd, 'folder'); target(wd, 'latin')
        env = Env(s['env'], wd)
        paths = {'A': f'{wd}/u/a.txt', 'B': f'{wd}/u/b.txt', 'rel': 'u/b.txt', 'missing': f'{wd}/u/none.txt', 'folder': f'{wd}/u/folder.txt', 'latin': f'{wd}/u/latin.txt'}
        cur = None
        what = lambda: f'{s["env"]}: {seq}'
        with env:
            for op in seq:
                R.step()
                if op in paths:
                    r = cli.run(['--functions_user', paths[op]], wd)
                    if env.cfg:
                        R.expect(r.ok, 'set-fails', lambda: f'{r.why()}; {what()}')
                        cur = 'B' if op == 'rel' else op
                    else: R.expect(r.exc is None and not r.ok and str(r.exit).strip() not in ('', '1', '0'), 'set-without-environment', lambda: f'{r.why()}; {what()}')
                elif op == 'remove':
                    if os.path.exists(paths['A']): os.remove(paths['A'])
                    else: put(paths['A'], render(defsA, 'plain'))
                d = defsB if cur == 'B' else defsA if cur == 'A' and os.path.exists(paths['A']) else []
                bad = cur in ('missing', 'folder', 'latin') or cur == 'A' and not d
                if op in ('list', 'list-elsewhere') or op == seq[-1] and op != 'use':
                    r = cli.run(['-lcs'], f'{wd}/elsewhere' if op == 'list-elsewhere' or len(seq) % 2 else wd)
                    listed(R, r, d, what)
                    R.expect(bad == (paths.get(cur, 'none') in r.out + r.err), 'not-reported' if bad else 'reported', lambda: f'{(r.out + r.err)[:200]}; {what()}')
                elif op == 'use':
                    r = cli.run(['-cs', 'Moon, User A (2024)'], f'{wd}/elsewhere', noout=True)
                    if d is defsA: R.expect(r.ok and r.cps.chronology_system == 'Moon, User A (2024)', 'unusable', lambda: f'{r.why()}; {what()}')
                    else: R.expect(r.exc is None and not r.ok, 'undefined-system-accepted', lambda: f'{r.cps and r.cps.chronology_system}; {what()}')
        R.trace(); R.state((s['env'], tuple(seq), cur)); R.outcome((s['env'], cur))
    def explore(seq):
        play(seq)
        if len(seq) < s['depth'] - (1 if s['env'] in ('frozen', 'conda-bare', 'none') else 0):
            for o in OPS: explore(seq + [o])
    explore([s['first']])

DUP = {'chronology_system': dict(body='Mars', cf='Moon, Neukum (1983)', pf='Mars, Ivanov (2001)'), 'production': dict(coefficients=['-2', '-2.7', '-.1']), 'chronology': dict(coefficients=['1e-15', '7', '0', '1e-3']),
       'equilibrium': dict(type='polynomial', coefficients=['-2', '-1.1'], range=['.001', '1000.']), 'epochs': dict(epoch=['Young', 'Old'], time=['0.', '1.7'], formatting=['60', '0b'])}
def do_dup(s, R):
    """user definitions under the names of built-in ones: the built-in ones keep their meaning"""
    wd = cli.fresh_dir('c30')
    B = base()[1]
    defs = [(k, dict(name=n, **d)) for k, d in DUP.items() if s['what'] in ('all', k) for n in dict.fromkeys(e['name'] for e in B[k])]
    f = put(f'{wd}/u.txt', render(defs, 'plain'))
    def look():
        out = []
        for o, k in (('-cs', 'chronology_system'), ('-ef', 'equilibrium'), ('-ep', 'epochs')):
            for n in dict.fromkeys(e['name'] for e in B[k]):
                r = cli.run([o, n], wd, noout=True)
                c = r.cps
                fn = [] if not r.ok else [c.pf, c.cf] if o == '-cs' else [c.ef] if o == '-ef' else []
                out.append((o, n, r.ok, r.exit, c and c.chronology_system, [[float(x) for x in np.ravel(g.evaluate('cumulative', np.array([.1, 1., 5.]), -2.) if hasattr(g, 'evaluate') else [g.N1(t) for t in (.1, 1., 3.8)] if 'coefficients' in g.definition else [])] for g in fn],
                            [list(map(str, c.ep.epoch)), [float(t) for t in c.ep.time]] if r.ok and o == '-ep' else None))
                R.step()
        return out
    with Env('none', wd): a = look()
    with Env('conda', wd):
        r = cli.run(['--functions_user', f], wd)
        R.expect(r.ok, 'set-fails', lambda: r.why())
        b = look()
    for x, y in zip(a, b):
        R.expect(x == y, 'built-in-disturbed', lambda: f'{x} with user file {y}')
        R.state(('dup', s['what'], x[0], x[1])); R.trace()
    R.outcome(('dup', s['what']))

def do_builtin(s, R):
    """built-in systems evaluate alike with every user file"""
    wd = cli.fresh_dir('c30')
    f = put(f'{wd}/u.txt', render([d for i in ITEMS.values() for d in i], 'plain'))
    names = base()[0]['Chronology systems']
    def look():
        out = []
        for n in names:
            r = cli.run(['-cs', n], wd, noout=True)
            out.append((n, r.ok, r.cps.chronology_system if r.ok else r.exit, [float(x) for x in np.ravel(r.cps.pf.evaluate('cumulative', np.array([.1, 1., 5.]), -2.))] if r.ok else None, [float(r.cps.cf.N1(t)) for t in (.1, 1., 3.8)] if r.ok and 'coefficients' in r.cps.cf.definition else None))
            R.step()
        return out
    with Env('none', wd): a = look()
    with Env('conda', wd):
        r = cli.run(['--functions_user', f], wd)
        b = look()
    for x, y in zip(a, b):
        R.expect(x == y, 'built-in-disturbed', lambda: f'{x} with user file {y}')
        R.state(('builtin', x[0])); R.trace()
    R.outcome('builtin')
