#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.in.md, MANIFEST.json, properties.jsonl, tools/muts, seeded and tools/design_notes.json."""
import json, glob, os, runpy, collections
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man=json.load(open(root+'/MANIFEST.json')); props={}
for l in open(root+'/properties.jsonl'):
    p=json.loads(l); props[p['id']]=p
notes=json.load(open(root+'/tools/design_notes.json'))
bugs=collections.Counter(); quiet=collections.Counter(); mf=collections.defaultdict(set)
for f in sorted(glob.glob(root+'/tools/muts/*.py')):
    for m in runpy.run_path(f)['MUTS']:
        ps=m[1].split() if isinstance(m[1],str) else m[1]
        for p in ps:
            (bugs if m[2] else quiet)[p]+=1; mf[p].add(os.path.basename(f))
seeds=collections.defaultdict(list)
MISSED=json.load(open(root+'/tools/missed.json')) # last run of catch.sh
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    seeds[json.load(open(f))['property']].append(os.path.basename(os.path.dirname(f)))
ev={}
for f in glob.glob(root+'/evidence/C*.json'):
    e=json.load(open(f)); ev[e['property']]=e
tab=["| property | technique | bugs / quiet | seeded (caught by this check unless marked) |","|---|---|---|---|"]; out=[]
for c in man['checks']:
    i=c['property']; n=notes.get(i,{})
    tab.append("| %s %s | %s | %d / %d | %s |"%(i,props[i]['title'],n.get('tech',''),bugs[i],quiet[i],', '.join(x+(' (missed)' if x in MISSED else '') for x in seeds[i]) or '–'))
    t="### %s %s\n\n%s\n"%(i,props[i]['title'],c['level_note'])
    if n.get('beyond'): t+="\n*Beyond tests:* "+n['beyond']+"\n"
    if n.get('bounds'): t+="\n*Bounds:* "+n['bounds']+"\n"
    if n.get('cost'): t+="\n*Cost:* "+n['cost']+"\n"
    out.append(t)
out.append("### Not applicable\n\n"+'\n'.join("* %s %s: %s"%(x['property'],props[x['property']]['title'],x['reason']) for x in man['not_applicable']))
s=open(root+'/tools/design.in.md').read().replace('@@TABLE@@','\n'.join(tab)).replace('@@PROPS@@','\n'.join(out))
open(root+'/DESIGN.md','w').write(s)
