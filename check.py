#!/opt/venv/bin/python
"""Decide one property:  check.py --property C05   (VERIF_TIER, VERIF_SEED in the environment)
Replay a recorded violation:  check.py --replay out/replays/<file>.json

Deciding step: every obligation that pyvc generates from the current source of /repo for the contracts
of the property has to be discharged (pyvc/obl/*.py).  Functions outside its reach are covered by the
executable form of their contract, evaluated on the real code (rt/*.py); this part is bounded and is
labelled so.  Refuted obligations are replayed on the real code through the same executable contracts.
"""
import os
import sys
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ[v] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':          # verdicts must not depend on the order of sets
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import json
import time
import argparse
import tempfile
import glob
import importlib
import traceback
import subprocess
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing as mp

os.environ.setdefault('MPLCONFIGDIR', os.path.join(tempfile.gettempdir(), 'verif_mpl'))
OUT = os.path.join(HERE, 'out')


def load_contracts():
    for f in sorted(glob.glob(os.path.join(HERE, 'rt', 'c*.py'))):
        importlib.import_module('rt.' + os.path.basename(f)[:-3])
    from vlib import rt
    return rt


def init_worker():
    import warnings
    warnings.simplefilter('ignore')


def run_range(prop, name, lo, hi, seed, budget):
    """evaluate one contract on cases lo..hi-1"""
    from vlib import rt
    t0 = time.time()
    r = dict(name=name, cases=0, skipped=0, evals=0, fails=[], sample=None, stopped=False)
    for i in range(lo, hi):
        st, msg, log, ev = rt.run_case(prop, name, i, seed)
        r['evals'] += ev
        if st == 'skip':
            r['skipped'] += 1
        else:
            r['cases'] += 1
            if r['sample'] is None and log:
                r['sample'] = f'{name}[{i}]: ' + '; '.join(log)[:500]
        if st in ('fail', 'error'):
            r['fails'].append(dict(index=i, message=msg, log=log, status=st))
            break
        if time.time() - t0 > budget:
            r['stopped'] = True
            break
    r['wall'] = time.time() - t0
    return r


def runtime_part(prop, tier, seed, scale=1.0, deadline=None):
    rt = load_contracts()
    tasks = []
    for name, c in rt.REGISTRY.get(prop, {}).items():
        n = max(1, int((c['cases'] if tier == 'quick' else c['thorough']) * scale))
        parts = min(n, 6 if tier == 'quick' else 24)
        step = -(-n // parts)
        b = c['budget'] * (1.2 if tier == 'quick' else 8)
        for lo in range(0, n, step):
            tasks.append((name, lo, min(n, lo + step), b))
    res = {}
    if not tasks:
        return res
    ctx = mp.get_context('fork')
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 4), mp_context=ctx, initializer=init_worker) as ex:
        fut = {ex.submit(run_range, prop, n, lo, hi, seed, b): n for n, lo, hi, b in tasks}
        for f in as_completed(fut):
            n = fut[f]
            try:
                r = f.result()
            except Exception as e:
                r = dict(name=n, cases=0, skipped=0, evals=0, sample=None, wall=0, stopped=True, fails=[],
                         crash=f'{type(e).__name__}: {e}')
            a = res.setdefault(n, dict(name=n, cases=0, skipped=0, evals=0, fails=[], sample=None, wall=0.,
                                       fns=rt.REGISTRY[prop][n]['fns'], crash=None))
            for k in ('cases', 'skipped', 'evals', 'wall'):
                a[k] += r[k]
            a['fails'] += r['fails']
            a['crash'] = a['crash'] or r.get('crash')
            a['sample'] = a['sample'] or r['sample']
    for a in res.values():
        a['fails'].sort(key=lambda f: f['index'])
    return res


def deductive_part(prop, tier, seed):
    """obligations of the property, discharged in worker processes; -> list of records"""
    try:
        from pyvc import run as vc
    except ImportError:
        return []
    return vc.discharge(prop, tier, seed)


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                d = dict(kv.split('=', 1) for kv in line[7:].split(' ', 2)[:2])
                d['what'] = line[7:].split(' ', 2)[2]
                out.append(d)
    return out


def write_replay(prop, tag, data):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{prop}-{tag}.json')
    with open(p, 'w') as f:
        json.dump(data, f, indent=1, default=str)
    return p


def replay(path):
    d = json.load(open(path))
    if d.get('kind') == 'runtime':
        rt = load_contracts()
        st, msg, log, ev = rt.run_case(d['property'], d['contract'], d['index'], d['seed'])
        print(f'{d["property"]} contract {d["contract"]} case {d["index"]} seed {d["seed"]}: {st}')
        print('\n'.join(log))
        print(msg)
        return 1 if st in ('fail', 'error') else 0
    from pyvc import run as vc
    return vc.replay(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--replay')
    ap.add_argument('--no-runtime', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop = a.property
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    obl = deductive_part(prop, tier, seed)
    again = [o['name'].split('/', 1)[1] for o in obl if o['status'] != 'proved' and o['wall'] < 60]
    if again:                                          # nothing is reported on one try
        from pyvc import run as vc
        second = {o['name']: o for o in vc.discharge(prop, tier, seed, only=again, jobs=4, budget=120)}
        obl = [second[o['name']] if second.get(o['name'], {}).get('status') == 'proved' else o for o in obl]
    proved = [o for o in obl if o['status'] == 'proved']
    refuted = [o for o in obl if o['status'] == 'refuted']
    open_ = [o for o in obl if o['status'] not in ('proved', 'refuted')]
    # an obligation that is no longer discharged: search harder for a failing input on the real code
    scale = 1.0 if not (refuted or open_) else 3.0
    rtr = {} if a.no_runtime else runtime_part(prop, tier, seed, scale)
    t_rt = time.time()
    known = [k for k in known_findings() if k.get('property') == prop]
    violations, quiet = [], []
    for r in rtr.values():
        for f in r['fails']:
            k = [k for k in known if k.get('contract') == r['name'] and k['what'] in f['message']]
            if k:
                quiet.append(k[0])
                continue
            p = write_replay(prop, f'{r["name"]}-{f["index"]}', dict(
                kind='runtime', property=prop, contract=r['name'], functions=r['fns'], index=f['index'], seed=seed,
                message=f['message'], inputs=f['log'],
                failed_obligations=[dict(name=o['name'], status=o['status'], detail=o.get('detail', '')) for o in refuted + open_],
                replay=f'cd {HERE} && ./check.py --replay <this file>'))
            violations.append((p, '', f'{r["name"]}[{f["index"]}]: {f["message"]}'))
            break
    crashed = [r for r in rtr.values() if r['crash'] and not r['fails']]
    if not violations:
        for o in refuted + [o for o in open_ if o.get('failed')]:
            p = write_replay(prop, 'obligation-' + o['name'].replace('/', '_').replace(' ', '_')[:80], dict(
                kind='obligation', property=prop, obligation=o, seed=seed))
            violations.append((p, ' no-failing-input-found', f'obligation {o["name"]} {"refuted" if o["status"] == "refuted" else "failed"}: {o.get("detail", "")[:400]}'))
    for k in {q['what']: q for q in quiet}.values():
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    n_evals = sum(r['evals'] for r in rtr.values())
    n_cases = sum(r['cases'] for r in rtr.values())
    samples = [r['sample'] for r in rtr.values() if r['sample']][:4]
    backends = {}
    for o in proved:
        for b in o.get('backends', [o.get('backend', '?')]):
            backends[b] = backends.get(b, 0) + 1
    man = [c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks'] if c['property'] == prop]
    level = man[0]['level'] if man else 'exploration'
    fns = sorted({f for o in obl for f in o.get('functions', [])})
    assumptions = sorted({x for o in obl for x in o.get('assumptions', [])})
    cov = dict(
        evaluations=n_evals + sum(o.get('checks', 1) for o in obl), distinct_nontrivial=n_cases + len(proved),
        rule='obligation = one verification condition group generated from the current source for a contract clause; '
             'runtime case = arguments drawn by (property, contract, index, VERIF_SEED) that satisfy the precondition '
             '(others are counted as skipped), each with several postcondition evaluations on the real code',
        samples=[f'obligation {o["name"]}: {o["status"]} by {"+".join(o.get("backends", []))} in {o.get("wall", 0):.2f} s'
                 for o in obl[:6]] + samples,
        obligations=len(obl), discharged=len(proved), obligations_open=[o['name'] + ': ' + o.get('detail', '')[:200] for o in open_],
        obligations_refuted=[o['name'] for o in refuted],
        verification_conditions=sum(o.get('checks', 1) for o in proved),
        unbounded=sum(1 for o in proved if o.get('bound') is None),
        bounded_obligations=[f'{o["name"]} (bound: {o["bound"]})' for o in proved if o.get('bound')],
        backends=backends, solver_seconds=round(sum(o.get('wall', 0) for o in obl), 2),
        functions_under_contract=fns,
        checker_cmd=f'./check.py --property {prop}',
        trusted_base=['pyvc/ (verification condition generator, term normaliser)', 'z3 4.x (Python binding)', 'CPython 3.12',
                      *assumptions],
        bounded_runtime_contracts={r['name']: dict(cases=r['cases'], skipped=r['skipped'], evaluations=r['evals'],
                                                   functions=r['fns'], seconds=round(r['wall'], 2)) for r in rtr.values()},
        degraded=bool(open_),
        explanation='discharged obligations hold for all inputs satisfying the precondition (within the bound where one is '
                    'named); the runtime contracts are a bounded check of the same contracts on the real code')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    evd = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop}: {len(proved)}/{len(obl)} obligations discharged ({len(refuted)} refuted, {len(open_)} open), '
          f'{n_cases} runtime cases, {n_evals} evaluations, {time.time() - t0:.1f} s')
    for o in open_:
        print(f'  open: {o["name"]}: {o.get("detail", "")[:300]}')
    for p, suffix, msg in violations:
        print('  ' + msg[:600])
    if violations:
        for p, suffix, msg in violations:
            print(f'VIOLATION property={prop} replay={p}{suffix}')
        return 1
    if crashed:
        for r in crashed:
            print(f'error: contract {r["name"]} worker ended: {r["crash"]}')
        return 3
    if not obl and not rtr:
        print('error: nothing was checked')
        return 3
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
