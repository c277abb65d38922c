"""Writes /verif/MANIFEST.json from the rules present and the reasons below."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]

NA = {
    'C31': 'Phase continuity and pitch of a waveform are numerical facts over long runtime histories; no construct of the source decides them.',
    'C32': 'Power and level of mixed or panned signals are numerical facts about runtime gains and samples.',
    'C33': 'Even spreading of pulses is an arithmetic fact about the result for each pair of numbers, not visible in the shape of the code.',
    'C34': 'When a curve reaches its level is numerical (exponential coefficients, rounding to samples).',
    'C35': 'Whether the numbers found are prime and complete is arithmetic over runtime values.',
    'C36': 'Round trips of pitch names and frequencies are equalities of runtime values.',
    'C37': 'The layout of a picture of notes depends on arithmetic over durations at run time.',
    'C38': 'Timing of a cycle depends on the machine and the network, not on the source alone.',
}

checks, na = [], []
for p in props:
    pid = p['id']
    path = os.path.join(V, 'klint', 'rules', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': pid, 'reason': NA.get(pid, 'No check built yet.')})
        continue
    m = importlib.import_module('klint.rules.' + pid.lower())
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 check.py %s' % pid,
        'thorough_cmd': 'python3 check.py %s --thorough' % pid,
        'technique': getattr(m, 'TECHNIQUE', 'path sensitive dataflow (custom static analyser)'),
        'level': 'other',
        'level_note': m.EXPLAIN + (' Assumes: ' + '; '.join(m.ASSUME) + '.' if getattr(m, 'ASSUME', None) else ''),
    })
out = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks: the sources in /repo are read, never run. known_findings.txt lists the genuine defects.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
