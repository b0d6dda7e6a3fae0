#!/usr/bin/env python3
"""Writes DESIGN.md: head, the table of properties (texts of tools/design/props.json, bounds of jobs.py, costs of the last
quick runs), the table of planted bugs (meta.json, tools/design/caught.json) and tail."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + '/tools/design/'
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import jobs
texts = json.load(open(D + 'props.json'))
cost = json.load(open(D + 'cost.json'))
for i in jobs.PROPS:
    try:
        e = json.load(open('%s/evidence/%s.json' % (V, i)))
        if e['tier'] == 'quick' and not e['coverage'].get('problems'):
            c = e['coverage']
            cost[i] = [round(e['wall_s'] - c.get('build_s', 0)), len(c['jobs']) if isinstance(c['jobs'], list) else c['jobs'], c['states'], c['solver']['queries'], round(c['solver']['seconds'])]
    except (OSError, KeyError):
        pass
json.dump(cost, open(D + 'cost.json', 'w'), indent=0, sort_keys=True)
out = open(D + 'head.md').read()
out += '## 4 Properties\n\nAll are decided by the engine above; none is declared not applicable. "Quick" covers the listed bounds where no thorough ones are given in parentheses. '
out += 'Cost: wall time of the quick check on 8 cores (without building), jobs, paths, solver queries, solver seconds summed over processes.\n\n'
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    s = jobs.PROPS[i]
    out += '### %s %s\n\n' % (i, p['title'])
    out += '* How: %s\n* Beyond tests: %s\n' % tuple(texts[i])
    out += '* Bounds: %s.\n' % '; '.join(s['bounds'])
    out += '* Outside: %s.\n' % '; '.join('threads (section 2)' if x is jobs.THREADS[0] else x for x in s['outside'])
    h = sorted({e[0].lstrip('!') for e in list(s['quick']) + list(s['thorough'])})
    out += '* Harnesses: %s.' % ', '.join(h)
    if i in cost:
        out += ' Cost: %d s, %d jobs, %d paths, %d queries, %d s in the solver.' % tuple(cost[i])
    out += '\n\n'
out += open(D + 'mid.md').read()
caught = json.load(open(D + 'caught.json'))
out += '| bug | property | what it needs | caught by |\n|---|---|---|---|\n'
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    out += '| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), caught.get(d, '?'))
out += '\n' + open(D + 'tail.md').read()
open(V + '/DESIGN.md', 'w').write(out)
