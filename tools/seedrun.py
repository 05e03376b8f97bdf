#!/usr/bin/env python3
"""development helper: run a property's check against seeded changes, each in a scratch copy of /repo
usage: seedrun.py [ids...] [--prop Cxx (other property's check)]"""
import os
import sys
import json
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(sid, prop=None):
    d = tempfile.mkdtemp(prefix='seedrun_')
    try:
        subprocess.run(f'cp -a /repo {d}/r && cd {d}/r && git apply {V}/seeded/{sid}/patch.diff', shell=True, check=True)
        p = prop or json.load(open(f'{V}/seeded/{sid}/meta.json'))['property']
        r = subprocess.run([f'{V}/check.py', '--property', p], env=dict(os.environ, VERIF_REPO=f'{d}/r', PYTHONPATH=f'{d}/r', VERIF_EVIDENCE=d),
                           capture_output=True, text=True, cwd=V)
        lines = r.stdout.strip().split('\n')
        vio = [l for l in lines if l.startswith('VIOLATION')]
        print(f'{sid} {p} exit {r.returncode} {"CAUGHT" if vio and r.returncode == 1 else "MISSED"} '
              f'{"(no input)" if any("no-failing" in l for l in vio) else ""} | ' + ' | '.join(l[:150] for l in lines if not l.startswith('VIOL')), flush=True)
    finally:
        subprocess.run(['rm', '-rf', d])


ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(f'{V}/seeded'))
with ThreadPoolExecutor(3) as ex:
    list(ex.map(run, ids))
