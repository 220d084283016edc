#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness modules' own statements of bounds and assumptions."""
import importlib, json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
props = [json.loads(l) for l in (ROOT / 'properties.jsonl').read_text().splitlines()]
NA = {
    'C26': 'A limit statement about random sampling: whether numpy\'s bit generators produce samples that converge to a '
           'distribution and are statistically independent is not an assertion over values that an SMT solver can decide '
           '(the generators are compiled code, and the claim is about frequencies, not about single executions). C17 decides the '
           'part that is gerabaldi\'s: every draw is requested from the right distribution with the current parameters.',
}
checks = []
for p in props:
    pid = p['id']
    if pid in NA:
        continue
    m = importlib.import_module('harness.' + pid.lower())
    note = ('Bounded exhaustive: every execution path of the real code within the bounds is executed symbolically and each '
            'assertion is discharged by SMT for all values. Bounds: ' + m.BOUNDS + '.')
    if getattr(m, 'OUTSIDE', None):
        note += ' Outside: ' + m.OUTSIDE + '.'
    if getattr(m, 'STUBS', None):
        note += ' Stubs: ' + m.STUBS + '.'
    note += (' Numbers are reals in the encoding (float rounding is left to the concrete replays, with a tolerance); trusted: z3/cvc5, CPython, '
             'the numpy/pandas model in sx/npx.py, cross-checked by replaying witnesses of the paths on the real packages.')
    checks.append({
        'property': pid,
        'quick_cmd': f'/opt/venv/bin/python run.py {pid} --tier quick',
        'thorough_cmd': f'/opt/venv/bin/python run.py {pid} --tier thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': 'symbolic execution of the real Python source, SMT (z3, cvc5) decides every path assertion, counterexamples replayed',
        'level': 'model_checking',
        'level_note': note,
    })
man = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python run.py --selftest',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': 'No hooks in /repo: the encoding is regenerated from /repo\'s source on every run by sx/load.py. See DESIGN.md.',
}
(ROOT / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')
print(len(checks), 'checks')
