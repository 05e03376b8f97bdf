"""run obligations: tools/obl.py C01 [name ...]"""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.environ.get('VERIF_REPO', '/repo')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ.setdefault('MPLBACKEND', 'Agg')
from pyvc import run
if len(sys.argv) > 2 and sys.argv[2] == '-d':
    sys.setrecursionlimit(20000)
    reg = run.load()
    from pyvc import vc, core
    import traceback
    o = reg[sys.argv[1]][sys.argv[3]]
    C = core
    ex = C.Explorer()
    n = 0
    while True:
        ctx = C.new_ctx(); ctx.explorers.append(ex); ex.start()
        v = vc.V(dict(vcs=[], count=0))
        try:
            o['fn'](v)
        except C.Infeasible:
            pass
        except BaseException:
            traceback.print_exc()
            print('facts:', [(f if not isinstance(f, int) else str(vc.T.atom(f)), b) for f, b in ctx.facts])
            break
        n += 1
        if not ex.advance():
            print('paths', n); break
else:
    for prop in sys.argv[1].split(','):
        for r in run.discharge(prop, only=sys.argv[2:] or None):
            print(f"{r['name']:44s} {r['status']:8s} {r['checks']:4d} VCs {r['wall']:6.2f}s bound={r['bound']} {'+'.join(r['backends'])} {r.get('detail','')[:600]}")
            for a in r['assumptions']: print('      assumes', a)
