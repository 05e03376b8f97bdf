import sys, os, importlib, glob
os.environ['OMP_NUM_THREADS']='1'; os.environ['OPENBLAS_NUM_THREADS']='1'
sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo')
from vlib import rt
for f in sorted(glob.glob('/verif/rt/c*.py')): importlib.import_module('rt.'+os.path.basename(f)[:-3])
sel=sys.argv[1:]
seed=int(os.environ.get('S','1')); sc=float(os.environ.get('SC','1'))
for p in sorted(rt.REGISTRY):
    if sel and p not in sel: continue
    for n in rt.REGISTRY[p]:
        r=rt.run_contract(p,n,seed,'quick',sc)
        print(p,n,'cases',r['cases'],'skip',r['skipped'],'evals',r['evals'],'%.1fs'%r['wall'])
        for f in r['fails']: print('   FAIL',f['index'],f['message'][:700],'|',f['log'][:6])
        for f in r['errors']: print('   ERR',f['index'],f['message'][:700])
