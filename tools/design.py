"""Makes DESIGN.md from tools/DESIGN.in.md, the scenarios and tools/seeds.json: run after tools/meta.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from scenarios import PROPS
P = [json.loads(l) for l in open(H + '/properties.jsonl')]; M = json.load(open(H + '/MANIFEST.json')); na = {x['property']: x['reason'] for x in M['not_applicable']}
ORACLE = json.load(open(H + '/tools/oracle.json')); S = json.load(open(H + '/tools/seeds.json'))
out = []
for q in P:
    i = q['id']
    if i in na: continue
    out.append(f"### {i} {q['title']}\nOracle: {ORACLE.get(i, '')}\n"); out += [f"* `{s['name']}` ({s['harness']}): {s['bounds']}." for s in PROPS[i]['scenarios']]; out.append('')
seeds = ['| change | property | needs | caught by |', '|--|--|--|--|']
for n in sorted(os.listdir(H + '/seeded')):
    d = json.load(open(f'{H}/seeded/{n}/meta.json')); seeds.append(f"| {n} | {d['property']} | {d['needs']} | {S.get(n, '?')} |")
nal = [f"* **{q['id']} {q['title']}**: {na[q['id']]}." for q in P if q['id'] in na]
t = open(H + '/tools/DESIGN.in.md').read().replace('@TABLE@', '\n'.join(out)).replace('@SEEDS@', '\n'.join(seeds)).replace('@NA@', '\n'.join(nal)).replace('@N@', str(len(out)))
open(H + '/DESIGN.md', 'w').write(t)
