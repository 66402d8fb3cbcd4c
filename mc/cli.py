"""driving the real command line in process"""
import contextlib, io, os, sys, traceback, csv
from . import core, ref

class Result:
    def __init__(self): self.out, self.err, self.exit, self.exc, self.tb, self.cps, self.saved = '', '', None, None, None, None, []
    @property
    def ok(self): return self.exc is None and self.exit in (None, 0)
    def why(self): return f'exit={self.exit!r} exception={self.exc!r} {self.tb or ""} stderr={self.err[-300:]}'

@contextlib.contextmanager
def stub_savefig(record, real=False):
    """figures are drawn, but instead of rendering pixels a small file of the requested name is written and the call recorded"""
    import matplotlib.figure as mfig
    orig = mfig.Figure.savefig
    def savefig(self, fname, *a, **k):
        record.append((str(fname), self))
        if real: return orig(self, fname, *a, **k)
        with open(fname, 'w') as f: f.write('figure')
    mfig.Figure.savefig = savefig
    try: yield
    finally: mfig.Figure.savefig = orig

def run(argv, cwd=None, real=False, noout=False):
    """one command in this process; global cwd is restored; noout: stop before anything is drawn or written"""
    import craterstats as cst
    import craterstats.cli as cli
    r = Result()
    old = os.getcwd()
    orig_set = cst.Craterplotset
    made = []
    class Spy(orig_set):
        def __init__(self, *a, **k):
            made.append(self)
            super().__init__(*a, **k)
    o, e = io.StringIO(), io.StringIO()
    wof = getattr(cli, 'write_output_files', None)
    try:
        if noout and wof: cli.write_output_files = lambda *a, **k: None
        if cwd: os.chdir(cwd)
        cst.Craterplotset = Spy
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e), stub_savefig(r.saved, real):
            cli.main(list(argv))
    except SystemExit as x: r.exit = x.code if x.code is not None else 0
    except core.ScenarioTimeout: raise
    except Exception as x: r.exc, r.tb = x, traceback.format_exc(limit=-3)
    finally:
        cst.Craterplotset = orig_set
        if wof: cli.write_output_files = wof
        os.chdir(old)
    r.out, r.err = o.getvalue(), e.getvalue()
    r.cps = made[-1] if made else None
    return r

def tree(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out

def fresh_dir(name):
    import shutil
    p = os.path.join(os.getcwd(), name)
    if os.path.realpath(p).startswith(os.path.realpath(core.SCRATCH) + os.sep) and os.path.exists(p): shutil.rmtree(p)
    os.makedirs(p, exist_ok=True)
    return p

def read_csv(path):
    with open(path, encoding='utf-8-sig', newline='') as f: return list(csv.reader(f))
