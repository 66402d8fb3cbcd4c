"""Command histories in one process, and redraw histories of one plot set; pixels and tables against the command alone in a fresh process."""
import hashlib, itertools, os, pickle, re
from .. import ref, cli, core
TECHNIQUE = 'model checking: exhaustive enumeration of command histories in one process and of draw/table/axis-range histories of one plot set; rendered pixels and tables compared with a fresh process'
RULE = ('command alphabet of 18 (every presentation, inversion, fonts, binning, map, conversion, listing, merging, rejected command, randomness overlay, uncertainty, formats by extension and by default); all histories of length 2 (thorough: 3), each '
        'command compared with its run alone in a process forked before any command; redraw histories: all sequences of length <= 2 (3) over {draw, table, sequence table, autoscale, ages}; state = history')
LIMIT = 900

S = '%sample%/'
CMDS = [['-p', f'source={S}Pickering.scc', '-p', 'type=poisson,range=[.2,.7],offset_age=[2,-2]'],
        ['-invert', '-ef', 'trask', '-ep', 'mars', '-cs', 'ni2001', '-p', f'source={S}c1.scc,psym=fo,colour=red', '-p', f'source={S}c2.scc,type=d-fit,range=[.02,.2],isochron=1'],
        ['-pr', 'cum', '-isochrons', '1,3.7a,.1s', '-ef', 'trask', '-title', 'one|two', '-p', f'source={S}Pickering.scc,psym=^', '-p', 'type=c-fit,range=[.2,.7],resurf=1,psym=fsq', '-xrange', '-2', '2'],
        ['-pr', 'hart', '-cs', 'hd16', '-ef', 'hart', '-isochrons', '4s,1,.1', '-p', f'source={S}Pickering.scc,binning=root-2'],
        ['-pr', 'chron', '-ep', 'wilh', '-ref_diameter', '10'],
        ['-pr', 'rate', '-invert'],
        ['-pr', 'seq', '-ep', 'wilh', '-st', '-p', f'source={S}e1.diam,range=[.24,1.5],name=E1', '-p', f'source={S}w1.diam,range=[.21,1.2],colour=red'],
        ['-pr', 'rplot', '--font', 'Noto Sans', '-pt_size', '12', '-style', 'root-2', '-pd', '2', '-p', f'source={S}c3.scc,binning=x2,error_bars=0', '-p', 'type=poisson,age_left=1'],
        ['-pr', 'uncer', '-ns', '4', '-d_min', '.5', '-ef', 'trask'],
        ['--convert', 'png', f'{S}Pickering.scc', '-pd', '4'],
        ['-p', f'source={S}c1.scc,range=[q,r]'],
        ['-lcs'],
        ['-ef', 'trask', '-p', f'source="{S}CE-6 8-km vicinity.scc"', '-p', 'type=poisson,range=[.12,.2]'],
        ['-b', '-text_halo', '0', '-legend', 'nNcr', '-sf', '2', '-mu', '0', '-p', f'source={S}c1.scc,binning=10/decade', '-p', 'type=b-poisson,range=[.03,.2],hide=0'],
        ['-m', f'{S}c1.scc', f'{S}c2.scc'],
        ['-tight', '-transparent', '-yrange', '-6', '2', '-p', f'source={S}c4.scc,psym=f*4,colour=#123456', '-p', f'source={S}c1.scc,type=c-fit,hide=1', '-p', 'hide=0,range=[.02,.1]'],
        ['-pr', 'chron', '-o', 'x.svg'],
        ['-pr', 'diff', '-p', f'source={S}c1.scc', '-p', 'type=poisson', '-o', 'x']]
OWN_OUTPUT = (16, 17)                      # formats by extension and by default
DRAWN = [i for i, c in enumerate(CMDS) if i not in (9, 10, 11, 14) + OWN_OUTPUT]
OPS = ['draw', 'table', 'seqtable', 'autoscale', 'age']

def scenarios(tier):
    n = len(CMDS)
    out = [dict(kind='redraw', cmd=i, ops=list(o)) for k in ((1, 2) if tier == 'quick' else (1, 2, 3)) for i in DRAWN if i != 8 for o in itertools.product(OPS, repeat=k)]
    if tier == 'quick': out += [dict(kind='hist', cmds=[i, j]) for i in range(n) for j in range(n)]
    else: out += [dict(kind='hist', cmds=[i, j, k]) for i in range(n) for j in range(n) for k in range(n)]
    return out

def pixels(fig):
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    fig.set_dpi(50)
    c = FigureCanvasAgg(fig)
    c.draw()
    b = bytes(c.buffer_rgba())
    return c.get_width_height(), hashlib.blake2b(b, digest_size=12).hexdigest()

def one(i, tag):
    """run command i; everything observable"""
    import numpy as np
    import matplotlib.figure as mfig
    import craterstats as cst
    wd = cli.fresh_dir('c22' + tag)
    np.random.seed(5)
    pics = []
    orig = mfig.Figure.savefig
    args = [a.replace('%sample%/', cst.PATH + 'sample/') if CMDS[i][0] == '-m' else a for a in CMDS[i]]
    if i not in (11,) + OWN_OUTPUT: args = args + ['-o', 'x.diam' if i == 14 else 'x']
    if i not in (9, 11, 14) + OWN_OUTPUT: args += ['-f', 'csv', 'png']
    # figures are rendered at the moment they would be saved
    def render(rec):
        class L(list):
            def append(self, x): list.append(self, x); pics.append((os.path.basename(x[0]), pixels(x[1])))
        return L()
    r = run_with(args, wd, render(None))
    t = cli.tree(wd)
    return dict(why=r.why(), ok=r.ok, exit=str(r.exit), exc=repr(r.exc), out='' if i == 8 else re.sub('\x1b\\[[0-9;]*m', '', '\n'.join(l for l in r.out.split('\n') if 'Elapsed' not in l)), files=t, pics=pics), r

def run_with(args, wd, saved):
    orig = cli.Result.__init__
    def init(self):
        orig(self)
        self.saved = saved
    cli.Result.__init__ = init
    try: return cli.run(args, wd)
    finally: cli.Result.__init__ = orig

BASE = {}
def alone(i):
    """result of command i in a process in which nothing else has run"""
    if i not in BASE: raise core.HarnessError('no baseline')
    return BASE[i]

def prepare():
    # one child per command, forked from the main process, in which no command ever runs
    pids = []
    for i in range(len(CMDS)):
        pid = os.fork()
        if pid == 0:
            try:
                wd = os.path.join(core.SCRATCH, f'base{i}')
                os.makedirs(wd)
                os.chdir(wd)
                os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
                b, _ = one(i, 'b')
                with open(wd + '.pkl', 'wb') as f: pickle.dump(b, f)
            finally: os._exit(0)
        pids.append(pid)
        if len(pids) >= 8: os.waitpid(pids.pop(0), 0)
    for p in pids: os.waitpid(p, 0)
    for i in range(len(CMDS)):
        with open(os.path.join(core.SCRATCH, f'base{i}.pkl'), 'rb') as f: BASE[i] = pickle.load(f)

def diff(a, b):
    out = [f'{k}: {str(a[k])[:200]} <> {str(b[k])[:200]}' for k in ('exit', 'exc', 'out', 'pics') if a[k] != b[k]]
    for f in set(a['files']) | set(b['files']):
        if a['files'].get(f) != b['files'].get(f): out.append(f'file {f}: {a["files"].get(f, b"")[-300:]!r} <> {b["files"].get(f, b"")[-300:]!r}')
    return ' | '.join(out)[:1500]

def run(s, R):
    if s['kind'] == 'hist':
        for n, i in enumerate(s['cmds']):
            b = alone(i)
            g, _ = one(i, 'h')
            R.step(); R.trace()
            if i != 10: R.expect(b['ok'], 'run-failed', lambda: f'{CMDS[i]}: {b["why"]}')
            R.expect(g == b or not diff(g, b), 'depends-on-history', lambda: f'{CMDS[i]} after {[CMDS[j] for j in s["cmds"][:n]]}: {diff(g, b)}')
        R.state(tuple(s['cmds']))
        R.outcome(repr(g['pics']) + repr(g['files'].get('x.csv')))
        return
    i = s['cmd']
    b, r = one(i, 'r')
    R.expect(b['ok'], 'run-failed', lambda: f'{CMDS[i]}: {b["why"]}')
    cps = r.cps
    R.state((i, tuple(s['ops'])))
    p0 = dict(b['pics'])
    xr = [a in CMDS[i] or 'hart' in CMDS[i] for a in ('-xrange', '-yrange')]   # the Hartmann axes are set by the production function
    tab = b['files'].get('x.csv')
    T = None
    for o in s['ops'] + ['draw']:
        R.step()
        if o == 'draw':
            cps.draw()
            g = pixels(cps.fig)
            R.trace()
            R.expect([g] == list(p0.values()), 'redraw-differs', lambda: f'{CMDS[i]} then {s["ops"]}: redrawn figure differs')
        elif o == 'table':
            t = cps.create_summary_table()
            if tab is not None and t: R.expect(t.strip() == tab.decode('utf-8-sig').strip(), 'table-differs', lambda: f'{CMDS[i]} then {s["ops"]}:\n{t}\n{tab.decode()}')
        elif o == 'seqtable': cps.create_sequence_table('q.csv')
        elif o == 'age':
            for cp in cps.craterplot:
                if cp.type != 'data': cp.calculate_age(cps)
        elif cps.craterplot and cps.presentation != 'sequence':
            k = [float(x) for x in cps.xrange], [float(x) for x in cps.yrange]
            cps.autoscale(k[0] if xr[0] else None, k[1] if xr[1] else None)
            R.expect(([float(x) for x in cps.xrange], [float(x) for x in cps.yrange]) == k, 'ranges-differ', lambda: f'{k} became {cps.xrange} {cps.yrange}')
    R.outcome(repr(p0))
