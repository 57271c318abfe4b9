"""DESIGN.md = design_head.md + a section per property (from properties.jsonl and the checks) + design_tail.md + the catch table (catch.json, written by tools/plant.py)"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from design_notes import HEAD, NOTES, TAIL
out = [HEAD.strip(), '\n## Properties\n']
for l in open('properties.jsonl'):
    d = json.loads(l)
    m = importlib.import_module('kpmon.checks.' + d['id'].lower())
    out.append('### %s %s\n' % (d['id'], d['title']))
    out.append(NOTES[d['id']].strip() + '\n')
    out.append('*Evaluation and distinctness:* ' + m.RULE + '\n')
    if m.ASSUME:
        out.append('*Assumptions:* ' + '; '.join(m.ASSUME) + '.\n')
    out.append('*Bounds and cost:* %d random cases quick (5-30 s on 8 cores), %d thorough; the run fails as incomplete (exit 2) if one of these was not observed: %s.\n' % (m.QUICK, m.THOROUGH, ', '.join(m.MUST_OBSERVE) or '-'))
out.append(TAIL.strip() + '\n')
if os.path.exists('catch.json'):
    out.append('## Planted bugs and which checks catch them\n')
    out.append('Measured by tools/plant.py: each was planted in a scratch clone, the 115 tests passed, and the checks ran with the quick tier.\n')
    out.append('| bug | what it breaks | caught by | not caught by |\n|---|---|---|---|')
    for b in json.load(open('catch.json')):
        out.append('| %s | %s (needs: %s) | %s | %s |' % (b['id'], b['what'].replace('|', '/'), b['needs'].replace('|', '/'), ', '.join(b['caught']) or '-', ', '.join(b['missed']) or '-'))
    out.append('')
open('DESIGN.md', 'w').write('\n'.join(out))
