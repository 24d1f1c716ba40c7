#!/usr/bin/env python3
# Writes DESIGN.md from tools/design and the comments of the harnesses.
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(root, 'tools', 'design')
rd = lambda p: open(p, encoding='utf-8').read()
bounds = {}
for f in sorted(glob.glob(root + '/harness/*/*.go')):
    for m in re.finditer(r'((?:^//.*\n)+)func (C\d\d)_(\w+)\(', rd(f), re.M):
        text = ' '.join(l[2:].strip() for l in m[1].strip().split('\n'))
        bounds.setdefault(m[2], []).append((os.path.basename(os.path.dirname(f)), m[3], text))
how = {}
for l in rd(d + '/props.md').strip().split('\n'):
    i, o, w = [x.strip() for x in l.split(' | ')]
    how[i] = (o, w)
manifest = {c['property'] for c in json.load(open(root + '/MANIFEST.json'))['checks']}
out = [rd(d + '/head.md'), '## 3 The properties\n']
cost = json.load(open(d + '/cost.json')) if os.path.exists(d + '/cost.json') else {}
for l in sorted(rd(root + '/properties.jsonl').strip().split('\n'), key=lambda l: json.loads(l)['id']):
    p = json.loads(l)
    i = p['id']
    o, w = how[i]
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n*Specified and compared:* {o} *Beyond the tests:* {w}" + (f" *Cost (quick):* {cost[i]}." if i in cost else '') + "\n")
    for h, n, t in bounds.get(i, []):
        out.append(f"* `{h}.{i}_{n}`: {t}")
    out.append('')
assert set(how) == manifest, set(how) ^ manifest
fixed, findings = [], []
for l in rd(root + '/known-findings.txt').split('\n'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m: fixed.append(f'* {m[1]} `{m[2]}` {m[3]}')
    m = re.match(r'finding: property=(\w+) id=(\S+) (.*)', l)
    if m: findings.append(f'* {m[1]} `{m[2]}`: {m[3]}')
caught = json.load(open(d + '/caught.json')) if os.path.exists(d + '/caught.json') else {}
seeds = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    seeds.append(f"* `{i}` ({m['property']}): {m['what_it_breaks']}; needs {m['needs']}. Reported by {caught.get(i, '(not recorded)')}.")
t = rd(d + '/tail.md').replace('@FIXED@', '\n'.join(fixed)).replace('@FINDINGS@', '\n'.join(findings)).replace('@SEEDS@', '\n'.join(seeds))
out.append(t)
open(root + '/DESIGN.md', 'w', encoding='utf-8').write('\n'.join(out))
