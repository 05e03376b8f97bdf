"""Discharge the obligations of a property, each in its own worker process with a time limit."""
import glob
import importlib
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def load(prop=None):
    for f in sorted(glob.glob(os.path.join(HERE, 'obl', '*.py'))):
        b = os.path.basename(f)[:-3]
        if b != '__init__':
            importlib.import_module('pyvc.obl.' + b)
    from . import vc
    return vc.REG


def _work(o, q):
    sys.setrecursionlimit(20000)
    from . import vc
    try:
        q.put(vc.run_obligation(o))
    except BaseException as e:
        q.put(dict(name=o['name'], status='open', detail=f'{type(e).__name__}: {e}', bound=o['bound'], checks=0, backends=[],
                   wall=0., functions=[], assumptions=[]))


def discharge(prop, tier='quick', seed=1, only=None, jobs=8, budget=480):
    t_all = time.time()
    reg = load()
    todo = [o for n, o in reg.get(prop, {}).items() if only is None or n in only]
    ctx = mp.get_context('fork')
    out, running = [], []
    queue = list(todo)
    while queue or running:
        while queue and len(running) < jobs:
            o = queue.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_work, args=(o, q), daemon=True)
            p.start()
            running.append((o, p, q, time.time()))
        time.sleep(0.005)
        for item in list(running):
            o, p, q, t = item
            r = None
            if not q.empty():
                r = q.get()
            elif not p.is_alive():
                time.sleep(0.02)
                r = q.get() if not q.empty() else dict(name=o['name'], status='open', detail='worker ended')
            elif time.time() - t > o['timeout'] * 3 + 20 or time.time() - t_all > budget:
                r = dict(name=o['name'], status='open', detail='time limit')
            if r is not None:
                if p.is_alive():
                    p.terminate()
                for k, d in (('bound', o['bound']), ('checks', 0), ('backends', []), ('wall', time.time() - t), ('functions', []),
                             ('assumptions', [])):
                    r.setdefault(k, d)
                out.append(r)
                running.remove(item)
    order = {o['name']: i for i, o in enumerate(todo)}
    out.sort(key=lambda r: order[r['name']])
    return out


def replay(d):
    o = d['obligation']
    prop, name = o['name'].split('/', 1)
    r = discharge(prop, only=[name])
    for x in r:
        print(f"{x['name']}: {x['status']} {x.get('detail', '')}")
    return 0 if all(x['status'] == 'proved' for x in r) else 1
