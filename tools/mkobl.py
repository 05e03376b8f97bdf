"""OBLIGATIONS.md: every obligation with its contract, bound and assumptions, from the registry"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get('VERIF_REPO', '/repo')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from pyvc import run
out = ['# Obligations per property (generated by tools/mkobl.py)', '']
reg = run.load()
n = 0
for p in sorted(reg):
    out += [f'## {p}', '']
    for name, o in reg[p].items():
        n += 1
        s = f"- **{name.split('/')[-1]}**"
        if o['bound']:
            s += f" *(bounded: {o['bound']})*"
        if o['doc']:
            s += ': ' + ' '.join(o['doc'].split())
        out.append(s)
    asm = sorted({' '.join(a.split()) for o in reg[p].values() for a in o['assumptions']})
    if asm:
        out += ['', 'Assumed: ' + '; '.join(asm) + '.']
    out.append('')
out.insert(1, f'\n{n} obligations; every one is generated from the current text of /repo/spaudiopy on each run.')
open(os.path.join(HERE, 'OBLIGATIONS.md'), 'w').write('\n'.join(out))
