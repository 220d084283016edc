#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + a section per property (from properties.jsonl and the harness modules) + tools/design_tail.md"""
import importlib, json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from tools.design_notes import NOTES, COST
o = [(ROOT / 'tools/design_head.md').read_text(), '## Properties\n']
for l in (ROOT / 'properties.jsonl').read_text().splitlines():
    p = json.loads(l)
    pid = p['id']
    o.append(f"### {pid} {p['title']}\n")
    o.append(NOTES[pid] + '\n')
    if pid == 'C26':
        continue
    m = importlib.import_module('harness.' + pid.lower())
    o.append('* Harnesses: ' + ', '.join(f'`{h}`' for h in m.HARNESS) + '.')
    o.append('* Bounds: ' + m.BOUNDS + '.')
    if getattr(m, 'OUTSIDE', None):
        o.append('* Outside: ' + m.OUTSIDE + '.')
    if getattr(m, 'STUBS', None):
        o.append('* Stubs: ' + m.STUBS + '.')
    for a in getattr(m, 'ASSUMPTIONS', []):
        o.append('* Assumes: ' + a + '.')
    o.append(f'* Cost (8 cores): {COST[pid]}.\n')
o.append((ROOT / 'tools/design_tail.md').read_text())
(ROOT / 'DESIGN.md').write_text('\n'.join(o))
