"""Writes /verif/DESIGN.md: the introduction below, one section per property (from the rule modules, the evidence of the last run and tools/caught.json)."""
import importlib, json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
na = {x['property']: x['reason'] for x in man['not_applicable']}
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
known = [l.rstrip('\n') for l in open(os.path.join(V, 'known_findings.txt')) if l.strip() and not l.startswith('#')]
out = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties', '']

for p in props:
    pid = p['id']
    out += ['### %s %s' % (pid, p['title']), '']
    if pid in na:
        out += ['Not applicable: %s' % na[pid], '']
        continue
    m = importlib.import_module('klint.rules.' + pid.lower())
    ev = os.path.join(V, 'evidence', pid + '.json')
    ev = json.load(open(ev)) if os.path.exists(ev) else None
    out += ['*Specified*: %s' % p['statement'], '', '*Decided by*: %s' % m.EXPLAIN, '', '*Why tests cannot*: %s' % p['why_tests_cant'], '']
    if ev:
        out += ['*Rules*:'] + ['- `%s`: %s' % kv for kv in ev['coverage']['rules'].items()] + ['']
        und = ev['coverage']['undecided']
        out += ['*Last run*: %d obligations, %d discharged, %d undecided; %d functions entered, about %s.' % (
            ev['coverage']['obligations'], ev['coverage']['discharged'], len(und) if isinstance(und, list) else und, ev['coverage']['functions_analysed'],
            'a second' if ev['wall_s'] < 2 else '%d s' % round(ev['wall_s'])), '']
        if und:
            out += ['*Left undecided* (quiet): ' + '; '.join('%s %s' % (u.get('construct', ''), u.get('detail', '')) if isinstance(u, dict) else str(u) for u in und), '']
    if getattr(m, 'ASSUME', None):
        out += ['*Assumes*: ' + '; '.join(m.ASSUME) + '.', '']
    s = [(k, v) for k, v in caught.items() if v['property'] == pid]
    if s:
        out += ['*Planted changes*: ' + ', '.join('`%s` (%s)' % (k, 'caught, rule %s' % v['rule'] if v['caught'] else 'missed') for k, v in s) + '.', '']
    fixed = [l for l in known if l.startswith('fixed: property=%s ' % pid)]
    rest = [l for l in known if l.startswith(pid + ' |')]
    if fixed:
        out += ['*Repaired in /repo*:'] + ['- ' + l.split(' ', 2)[2] for l in fixed] + ['']
    if rest:
        out += ['*Known findings*:'] + ['- ' + l.split(' | ', 1)[1] for l in rest] + ['']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')
print(len(out), 'lines')
