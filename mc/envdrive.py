"""runs commands, each in a process of its own, and reports all they leave behind; started by c35 in the environment under study"""
import hashlib, json, os, re, sys, time, traceback

def pixels(fig):
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    fig.set_dpi(50)
    c = FigureCanvasAgg(fig)
    c.draw()
    return [*c.get_width_height(), hashlib.blake2b(bytes(c.buffer_rgba()), digest_size=12).hexdigest()]

def child(job, log):
    os.dup2(os.open(log + '.out', os.O_WRONLY | os.O_CREAT, 0o600), 1)
    os.dup2(os.open(log + '.err', os.O_WRONLY | os.O_CREAT, 0o600), 2)
    import matplotlib.figure as mfig
    import numpy as np
    from craterstats import cli
    np.random.seed(5)
    pics = []
    def savefig(self, fname, *a, **k):
        pics.append([os.path.basename(str(fname)), pixels(self), {x: str(y) for x, y in k.items() if x in ('dpi', 'transparent', 'bbox_inches')}])
        with open(fname, 'w') as f: f.write('figure')
    mfig.Figure.savefig = savefig
    why = 'ok'
    try: cli.main(job)
    except SystemExit as x: why = f'exit {x.code}' if x.code not in (None, 0) else 'ok'
    except BaseException as x:
        why = f'{type(x).__name__}: {x}'
        traceback.print_exc()
    try: sys.stdout.flush()
    except Exception as x: why += f' flush {x!r}'
    with open(log + '.json', 'w', encoding='utf-8') as f: json.dump(dict(why=why, pics=pics), f)

def main():
    spec = json.load(open(sys.argv[1], encoding='utf-8'))
    import craterstats
    for job in spec['jobs']:
        pid = os.fork()
        if pid == 0:
            try:
                os.chdir(job['cwd'])
                child(job['args'], job['log'])
            finally: os._exit(0)
        t0 = time.time()
        while os.waitpid(pid, os.WNOHANG) == (0, 0):
            if time.time() - t0 > 200: os.kill(pid, 9)
            time.sleep(.01)

if __name__ == '__main__': main()
