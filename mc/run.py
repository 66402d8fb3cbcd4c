import importlib, json, os, sys, time
from . import core

def load_findings():
    """KNOWN_FINDINGS.txt: 'known: property=<id> key=<key> :: <what fails>' | 'fixed: property=<id> <commit> <what failed>'"""
    out = []
    p = os.path.join(core.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for ln in open(p, encoding='utf-8'):
            if ln.startswith('known: '):
                head, _, what = ln[7:].rstrip('\n').partition(' :: ')
                prop, _, key = head.partition(' ')
                out.append(dict(property=prop.split('=', 1)[1], key=key.split('=', 1)[1], what=what))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    mod = importlib.import_module(f'mc.checks.{pid.lower()}')
    import craterstats
    src = os.path.realpath(craterstats.__file__)
    if not src.startswith(core.REPO + os.sep):
        print('harness: craterstats not imported from', core.REPO, src); sys.exit(2)
    if hasattr(mod, 'prepare'): mod.prepare()
    scns = list(mod.scenarios(tier))
    if '--replay' in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        R = core.Recorder()
        if hasattr(mod, 'setup'): mod.setup(R)
        os.makedirs(core.SCRATCH + '/replay', exist_ok=True); os.chdir(core.SCRATCH + '/replay')
        core.guarded(mod.run, r['scenario'], R, r.get('idx', 0), 600)
        for v in R.viol: print(json.dumps(v, indent=1, default=str))
        for h in R.harness: print('HARNESS', h)
        sys.exit(1 if R.viol else 0)
    budget = getattr(mod, 'BUDGET', {}).get(tier, 500 if tier == 'quick' else 3000)
    tot = core.run_scenarios(mod.run, scns, limit=getattr(mod, 'LIMIT', 120), budget=budget,
                             workers=getattr(mod, 'WORKERS', None), setup=getattr(mod, 'setup', None))
    if hasattr(mod, 'finish'): mod.finish(tot, tier)
    known = [k for k in load_findings() if k['property'] == pid]
    seen_known, new = set(), []
    for v in tot.viol:
        key = mod.key(v) if hasattr(mod, 'key') else core.digest((v['kind'], v['scenario'])).hex()
        v['key'] = key
        m = next((k for k in known if k['key'] == key), None)
        if m: seen_known.add(m['key'])
        else: new.append(v)
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = dict(rule=mod.RULE, samples=tot.samples[:4] or [json.loads(json.dumps(s, default=str)) for s in scns[:2]],
               scenarios=len(scns), bounds=mod.bounds(tier) if hasattr(mod, 'bounds') else getattr(mod, 'BOUNDS', ''),
               distinct_outcomes=len(tot.outcomes), capped=bool(tot.extra.pop('capped', 0)),
               scenarios_completed=tot.extra.pop('scenarios_run', 0))
    if level == 'model_checking':
        cov.update(states=len(tot.states), transitions=tot.transitions, traces_validated_against_impl=tot.traces,
                   binding='the transitions are calls of the real code in /repo; every trace is compared with a reference model')
    else:
        cov.update(evaluations=tot.traces, distinct_nontrivial=len(tot.states))
    cov.update(tot.extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(new), known_findings=sorted(seen_known), harness_errors=tot.harness[:5])
    os.makedirs(core.VERIF + '/evidence', exist_ok=True)
    with open(f'{core.VERIF}/evidence/{pid}.json', 'w') as f: json.dump(ev, f, indent=1, default=str)
    for k in known:
        if k['key'] in seen_known: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} [{tier}] scenarios={cov['scenarios_completed']}/{len(scns)} states={len(tot.states)} transitions={tot.transitions} "
          f"traces={tot.traces} outcomes={len(tot.outcomes)} violations={len(new)} wall={ev['wall_s']}s" + (' CAPPED' if cov['capped'] else ''))
    if new:
        os.makedirs(core.VERIF + '/out', exist_ok=True)
        shown = set()
        for v in new:
            if v['kind'] in shown or len(shown) >= 5: continue
            shown.add(v['kind'])
            path = f"{core.VERIF}/out/{pid}-{len(shown)}.json"
            with open(path, 'w') as f: json.dump(v, f, indent=1, default=str)
            print(f"  {v['kind']}: {v['msg'][:1500]}\n  scenario: {json.dumps(v['scenario'], default=str)[:600]}\n  key: {v['key']}")
            print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if tot.harness:
        print('HARNESS ERROR (no verdict for these scenarios):')
        for h in tot.harness[:5]: print(h)
        sys.exit(2)
    sys.exit(0)

if __name__ == '__main__':
    main()
