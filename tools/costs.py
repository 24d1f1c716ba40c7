#!/usr/bin/env python3
# Writes tools/design/cost.json from the evidence of the last (quick) runs.
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(root + '/evidence/C*.json')):
    e = json.load(open(f))
    c = e['coverage']
    n = sum(h['paths'] for h in c['harnesses'])
    wall = e.get('wall_s') or c.get('wall_s') or 0
    out[os.path.basename(f)[:-5]] = f"{n} paths, {c['assertions_decided']} assertions decided, {sum(h['solver_queries'] for h in c['harnesses'])} solver queries, about {wall:.0f} s on 8 cores"
json.dump(out, open(root + '/tools/design/cost.json', 'w'), indent=1, sort_keys=True)
