"""Regenerate DESIGN.md"""
import json, os, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, 'lib'))
import config
out = [open(HERE + '/design_head.md').read().rstrip()]
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
cost = json.load(open(HERE + '/costs.json')) if os.path.exists(HERE + '/costs.json') else {}
for p in props:
    c = config.PROPS.get(p['id'])
    out.append('\n### %s %s\n' % (p['id'], p['title']))
    out.append('*Specified*: ' + p['statement'])
    if not c:
        out.append('*Not claimed.*'); continue
    out.append('*Workload and evidence*: ' + c['rule'] + '.')
    out.append('*Oracle*: ' + c['technique'].replace('runtime monitoring: ', '') + '.')
    out.append('*Bounds*: ' + '; '.join([c['note']] + [a for a in c['assumptions'] if a != config.GEN]) + '.')
    gs = c['groups']('quick'); gt = c['groups']('thorough')
    out.append('*Cost*: quick %d cases%s; thorough %d cases%s.' % (sum(g.count for g in gs),
        ' (%s s on 8 cores)' % cost[p['id']] if p['id'] in cost else '', sum(g.count for g in gt),
        ' (with %d in the sanitized build)' % sum(g.count for g in gt if g.variant == 'san') if any(g.variant == 'san' for g in gt) else ''))
    out.append('*Beyond the tests*: ' + p['why_tests_cant'])
out.append('\n## Defects found and repaired\n')
out.append('Each was reported by a check on the real code, and repaired by a small commit in /repo (existing tests pass unedited).\n')
k = json.load(open(V + '/known_findings.json'))
for f in k['fixed']:
    a, b, c, d = f.split(' ', 3)
    out.append('* `%s` %s: %s' % (c, b.split('=')[1], d))
out.append('\n## Known findings (not repaired)\n')
for f in k['findings']:
    out.append('* %s: %s (key `%s`)' % (f['property'], f['what'], f['key']))
out.append('')
out.append(open(HERE + '/design_tail.md').read().rstrip())
out.append('\n## Planted bugs and the checks that catch them\n')
caught = json.load(open(HERE + '/caught.json')) if os.path.exists(HERE + '/caught.json') else {}
out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*')):
    if not os.path.exists(d + '/meta.json'): continue
    m = json.load(open(d + '/meta.json')); i = os.path.basename(d)
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), caught.get(i, '')))
extra = HERE + '/design_mut.md'
if os.path.exists(extra): out.append('\n' + open(extra).read().rstrip())
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
