"""MANIFEST.json from properties.jsonl and the per-property table LEVELS"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try:
    from levels import LEVELS
except ImportError:
    LEVELS = {}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    lv, tech, note = LEVELS.get(i, ('exploration', 'executable contracts evaluated on the real code (bounded)',
                                    'bounded: contracts evaluated on generated arguments'))
    checks.append(dict(property=i, quick_cmd=f'./check.py --property {i}',
                       thorough_cmd=f'VERIF_TIER=thorough ./check.py --property {i}',
                       evidence_file=f'evidence/{i}.json', technique=tech, level=lv, level_note=note))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=[]),
          open(H + '/MANIFEST.json', 'w'), indent=1)
