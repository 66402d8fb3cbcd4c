"""The same commands in every environment of a finite set: hash seeds, interpreter modes, encodings, time zones, working directories, clutter; all outputs compared with one reference environment."""
import json, os, re, subprocess, sys
from .. import core, ref
from .c16 import WKT, write_shp
from .c29 import write_source, results_file, SRC, bins, actual
TECHNIQUE = 'model checking: exhaustive enumeration of environments x commands; each command runs in a process of its own in the environment; text, files and rendered pixels compared with the reference environment'
RULE = ('environments = hash seeds x interpreter modes (-O, -OO, dev) x encodings and locales x time zone x home x umask x backends x threads x working directories (spaces, non-ASCII, deep, symbolic link, cluttered with settings and same-named files); '
        'commands = every presentation, tables, conversions both ways, merging, listings, randomness analysis, overlays, saved command files, rejected commands; state = (environment, command)')
LIMIT = 600
S = '%sample%/'
CMDS = [['-p', f'source={S}Pickering.scc', '-p', 'type=poisson,range=[.2,.7],offset_age=[2,-2]', '-f', 'csv', 'png'],
        ['-invert', '-ef', 'trask', '-ep', 'mars', '-cs', 'ni2001', '-p', f'source={S}c1.scc,psym=fo,colour=red', '-p', f'source={S}c2.scc,type=d-fit,range=[.02,.2],isochron=1', '-f', 'csv', 'png', 'svg', 'tif', 'pdf'],
        ['-pr', 'cum', '-isochrons', '1,3.7a,.1s', '-ef', 'trask', '-title', 'one|two', '-p', f'source={S}Pickering.scc,psym=^', '-p', 'type=c-fit,range=[.2,.7],resurf=1,psym=fsq'],
        ['-pr', 'hart', '-cs', 'hd16', '-ef', 'hart', '-isochrons', '4s,1,.1', '-p', f'source={S}Pickering.scc,binning=root-2'],
        ['-pr', 'chron', '-ep', 'wilh', '-ref_diameter', '10'], ['-pr', 'rate', '-invert', '-o', 'r.svg'],
        ['-pr', 'seq', '-ep', 'wilh', '-st', '-p', f'source={S}e1.diam,range=[.24,1.5],name=E1', '-p', f'source={S}w1.diam,range=[.21,1.2],colour=red', '-p', f'source={S}c1.scc,range=[.03,.2]', '-f', 'csv', 'png'],
        ['-pr', 'uncer', '-ns', '3', '-d_min', '.5', '-ef', 'trask'],
        ['-p', 'source=b.scc', '-p', 'type=poisson,range=[.1,2]', '-p', 'source=a.scc', '-f', 'csv', 'png'],
        ['-ra', 'b.scc', '-trials', '3', '-f', 'png', 'csv'], ['-ra', 'a.scc', '-trials', '4', '-measure', 'm2cnd,sdaa', '-select', '0,1'],
        ['-ra', 'a.scc', '-trials', '2', '-measure', 'sdaa', '-o', 'other'],
        ['--convert', 'shp', 'b.scc'], ['--convert', 'scc', 'q_CRATER.shp'], ['--convert', 'stat', 'q_CRATER.shp'], ['--convert', 'png', 'q_CRATER.shp'],
        ['-i', 'cmd.cs'], ['-inc', 'set.txt', '-p', f'source={S}c1.scc'],
        ['-m', 'a.scc', 'b.scc', '-o', 'm.diam'], ['-m', 'a.scc', 'b.scc', '-o', 'm.stat'],
        ['-lcs'], ['-lpc'], ['-v'], ['-b', '-p', f'source={S}c1.scc,binning=10/decade'],
        ['-p', f'source={S}c1.scc,psym=zz'], ['-cs', 'moon', '-p', f'source={S}c1.scc'], ['-p', 'source=nofile.scc'], ['-p', f'source={S}c1.scc', '-ep', 'nothing'],
        ['-p', f'source={S}c1.scc', '-p', f'source={S}c2.scc', '-p', f'source={S}c3.scc', '-p', f'source={S}c4.scc,type=poisson,range=[.03,.2]', '-f', 'csv'],
        ['-p', 'source=é ü.scc,name=Ünïcode °', '-p', 'type=poisson,range=[.1,2]', '-title', 'Größe', '-f', 'csv', 'png']]
ENVS = {'again': {}, **{f'hash{i}': {'PYTHONHASHSEED': str(i)} for i in range(1, 17)}, 'random-hash': {'PYTHONHASHSEED': 'random'}, 'O': {'flags': ['-O']}, 'OO': {'flags': ['-OO']}, 'dev': {'flags': ['-X', 'dev']},
        'posix': {'LC_ALL': 'POSIX'}, 'ascii-files': {'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0', 'PYTHONIOENCODING': 'utf-8'}, 'cp1252': {'PYTHONIOENCODING': 'cp1252'}, 'utf8': {'LC_ALL': 'C.UTF-8', 'PYTHONUTF8': '1'},
        'east': {'TZ': 'XYZ-9'}, 'west': {'TZ': 'XYZ+10'}, 'nohome': {'HOME': '/nonexistent', 'MPLCONFIGDIR': None}, 'umask': {'umask': 0o077}, 'backend': {'MPLBACKEND': 'pdf'}, 'svg': {'MPLBACKEND': 'svg'}, 'narrow': {'COLUMNS': '20', 'LINES': '5', 'TERM': 'dumb'},
        'threads': {'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}, 'spaces': {'dir': 'a b/c  d'}, 'unicode': {'dir': 'größe/é'}, 'deep': {'dir': '/'.join('x' * 30 for _ in range(6))}, 'link': {'link': True}, 'dots': {'dir': 'a.b/c_CRATER.scc/png'},
        'clutter': {'clutter': True}, 'readonly-style': {'MPLRC': 1}}

def groups(n): return [list(range(i, len(CMDS), n)) for i in range(n)]

def scenarios(tier):
    deep = tier == 'thorough'
    E = [e for e in ENVS if deep or not e.startswith('hash') or int(e[4:]) <= 4]
    out = [dict(env=e, cmds=g) for e in E for g in groups(4)]
    if deep:       # pairs of circumstances
        P = ['hash5', 'ascii-files', 'OO', 'west', 'clutter', 'unicode', 'svg', 'umask']
        out += [dict(env=f'{a}+{b}', cmds=g) for i, a in enumerate(P) for b in P[i + 1:] if {a, b} != {'ascii-files', 'unicode'} for g in groups(4)]
    return out

def fixture(d):
    write_source(d, 'two', 'a')
    src = next(s for s in SRC if bins(s, 'sdaa') and bins(s, 'm2cnd'))
    for n in ('b', 'é ü'): write_source(d, src, n)
    saved = {m: (n, {b: [float(f'{actual(src, m, b) * (.8 + .05 * j):.7g}') for j in range(n)] for b in bins(src, m)}) for m, n in (('m2cnd', 5), ('sdaa', 7))}
    results_file(f'{d}/b_ra.txt', saved)
    sh = [(0, 0), (0, 5), (6, 5), (6, 0)]
    write_shp(d, 'q', [[(sh, [[(1, 1), (2, 1), (2, 2), (1, 2)]])]], [(3, 3, .002, 1), (4, 1, .004, 1), (.5, .5, .01, 1)], (WKT.format(1737400), lambda r: r))
    ref.write(f'{d}/cmd.cs', f'-pr R-plot -ef trask -title "a b"\n# comment °\n-p source={S}c1.scc,psym=o\n-p type=poisson,range=[.03,.2]\n-f png csv\n')
    ref.write(f'{d}/set.txt', '-pr cumulative -isochrons 1,.1\n')

CLUTTER = 'lines.linewidth: 5\naxes.facecolor: red\nfont.size: 30\nsavefig.dpi: 30\nfigure.figsize: 1,1\ntext.color: red\npath.simplify: False\naxes.formatter.use_locale: True\nimage.cmap: jet\nlines.markersize: 30\n'

def execute(env, cmds, d):
    """results of the commands {index: result}"""
    spec = {}
    for e in env.split('+'): spec.update(ENVS[e])
    root = os.path.join(d, 'root'); os.makedirs(root)
    base = os.path.join(root, spec.get('dir', 'w'))
    if spec.get('link'):
        os.makedirs(os.path.join(root, 'target'))
        os.symlink(os.path.join(root, 'target'), base)
    os.makedirs(base, exist_ok=True)
    os.makedirs(os.path.join(d, 'home'))
    jobs = []
    for i in cmds:
        w = os.path.join(base, f'c{i}'); os.makedirs(w)
        if spec.get('clutter'):
            for n in ('matplotlibrc', 'functions.txt', 'config_functions.txt', 'out', 'default', 'c1.scc', 'Pickering.scc', 'ni2001', 'poisson', 'red', '1', 'psym', 'root-2'): ref.write(f'{w}/{n}', CLUTTER)
            for n in ('config', 'sample', 'demo', 'craterstats', 'm2cnd'): os.makedirs(f'{w}/{n}'); ref.write(f'{w}/{n}/functions.txt', CLUTTER)
        fixture(w)
        jobs.append(dict(args=CMDS[i], cwd=w, log=os.path.join(d, f'log{i}'), before=sorted(os.path.join(r, f)[len(w) + 1:] for r, _, fs in os.walk(w) for f in fs)))
    if spec.get('clutter'): ref.write(os.path.join(base, 'matplotlibrc'), CLUTTER)
    with open(os.path.join(d, 'spec.json'), 'w', encoding='utf-8') as f: json.dump(dict(jobs=jobs), f)
    e = {k: os.environ[k] for k in ('PATH', 'VIRTUAL_ENV') if k in os.environ}
    e.update(HOME=os.path.join(d, 'home'), PYTHONHASHSEED='0', PYTHONPATH=os.pathsep.join([os.path.join(core.REPO, 'src'), core.VERIF]), PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='2',
             MPLCONFIGDIR=os.environ.get('MPLCONFIGDIR') or os.path.join(core.SCRATCH, 'mpl35'), MPLBACKEND='agg')
    if spec.get('MPLRC'):
        ref.write(os.path.join(d, 'home', 'style.txt'), CLUTTER)
        e['MATPLOTLIBRC'] = os.path.join(d, 'home', 'style.txt')
    for k, v in spec.items():
        if k.isupper() and k != 'MPLRC':
            if v is None: e.pop(k, None)
            else: e[k] = v
    um = spec.get('umask')
    p = subprocess.run([sys.executable, *spec.get('flags', []), '-m', 'mc.envdrive', os.path.join(d, 'spec.json')], cwd=base, env=e, stdin=subprocess.DEVNULL, capture_output=True, umask=um if um is not None else -1, timeout=LIMIT - 20)
    out = {}
    for i, j in zip(cmds, jobs):
        g = dict(cmd=i)
        if os.path.exists(j['log'] + '.json'): g.update(json.load(open(j['log'] + '.json', encoding='utf-8')))
        else: g.update(why='died: ' + (p.stderr or b'')[-300:].decode('utf-8', 'replace'), pics=[])
        enc = 'cp1252' if 'cp1252' in env else 'utf-8'
        t = open(j['log'] + '.out', 'rb').read().decode(enc, 'replace') if os.path.exists(j['log'] + '.out') else ''
        g['out'] = [clean(l, j['cwd'], base) for l in t.split('\n') if 'Elapsed' not in l]
        g['files'] = {}
        for r, _, fs in os.walk(j['cwd']):
            for f in fs:
                q = os.path.join(r, f)[len(j['cwd']) + 1:]
                if q in j['before'] and not q.endswith('_ra.txt'): continue
                b = open(os.path.join(r, f), 'rb').read()
                if f.endswith('.dbf'): b = b[:1] + b[4:]                      # date of writing
                g['files'][q] = b.hex() if f.endswith(('.dbf', '.shp', '.shx')) else clean(b.decode('utf-8', 'replace'), j['cwd'], base)
        out[i] = g
    return out

def clean(t, *dirs):
    """where and when it ran"""
    for x in dirs: t = t.replace(x, '<dir>').replace(os.path.realpath(x), '<dir>')
    return re.sub(r'\d{4}-\d\d-\d\d \d\d:\d\d', '<time>', re.sub('\x1b\\[[0-9;]*m', '', t))

BASE = {}
def workdir():
    import shutil, tempfile
    d = os.path.join(core.SCRATCH, 'c35'); os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(dir=d)

def prepare():
    import shutil
    from concurrent.futures import ThreadPoolExecutor
    def do(g):
        d = workdir()
        r = execute('again', g, d)
        shutil.rmtree(d)
        return r
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(do, groups(8)): BASE.update(r)

REFUSED, ACCENTS = (24, 25, 26, 27), 29

def run(s, R):
    import shutil
    d = workdir()
    try: got = execute(s['env'], s['cmds'], d)
    finally: shutil.rmtree(d)
    for i in s['cmds']:
        if i == ACCENTS and 'ascii-files' in s['env']: continue          # the name of the file cannot be given there
        g, b = got[i], BASE[i]
        what = f'{CMDS[i]} in environment {s["env"]}'
        R.step(); R.trace(); R.state((s['env'], i))
        if i not in REFUSED: R.expect(b['why'] == 'ok', 'run-failed', lambda: f'{CMDS[i]}: {b["why"]} {b["out"][-3:]}')
        R.expect(g['why'] == b['why'], 'end-differs', lambda: f'{what}: {g["why"]} instead of {b["why"]}')
        R.expect(g['out'] == b['out'], 'text-differs', lambda: f'{what}: {[(x, y) for x, y in zip(g["out"], b["out"]) if x != y][:3]} {len(g["out"])} {len(b["out"])} lines')
        R.expect(sorted(g['files']) == sorted(b['files']), 'files-differ', lambda: f'{what}: {sorted(g["files"])} instead of {sorted(b["files"])}')
        for f in g['files']: R.expect(g['files'][f] == b['files'][f], 'content-differs', lambda: f'{what}: {f}: {first_difference(g["files"][f], b["files"][f])}')
        R.expect(sorted(map(repr, g['pics'])) == sorted(map(repr, b['pics'])), 'figure-differs', lambda: f'{what}: {[x[0] for x, y in zip(sorted(g["pics"]), sorted(b["pics"])) if x != y]}')
        R.outcome((i, b['why'], repr(b['pics']), tuple(sorted(b['files']))))

def first_difference(a, b):
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'{a[max(0, k - 60):k + 60]!r} instead of {b[max(0, k - 60):k + 60]!r}'
