#!/usr/bin/env python3
"""Rewrite the generated parts of DESIGN.md (tables) from properties, known findings and seeded bugs."""
import json,os,re,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
man={c['property']:c for c in json.load(open(R+'/MANIFEST.json'))['checks']} if 'checks' in json.load(open(R+'/MANIFEST.json')) else {}
note=json.load(open(R+'/tools/design_notes.json'))
t=[]
for p in sorted(props,key=lambda p:p['id']):
    i=p['id']; n=note.get(i,{})
    t.append(f"### {i} {p['title']}\n\n* Oracle: {n.get('oracle','see technique in MANIFEST.json')}\n* Workload and bounds: {p['quantifier']['text']}\n* Cost: {n.get('cost','a few seconds')} (quick)\n")
kf=[]
for l in open(R+'/known_findings.txt'):
    m=re.match(r'KNOWN-FINDING: property=(\S+) (\S+) \| (.*)',l)
    if m: kf.append(f"* {m[1]} `{m[2]}`: {m[3]}")
nfix=sum(l.startswith('fixed:') for l in open(R+'/known_findings.txt'))
kf.append(f"\n{nfix} repaired defects are in the same file.")
sd=["| bug | property | needs | caught by |","|---|---|---|---|"]
for d in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(f'{R}/seeded/{d}/meta.json'))
    sd.append(f"| {d} | {m['property']} | {m['needs']} | {m.get('caught_by') or note.get('seeded',{}).get(d) or m['property']} |")
f=R+'/DESIGN.md'; s=open(f).read()
def sub(tag,body):
    global s
    b,e=f'<!-- {tag} -->',f'<!-- /{tag} -->'
    if '@@'+tag+'@@' in s: s=s.replace('@@'+tag+'@@',b+'\n'+body+'\n'+e)
    else: s=s[:s.index(b)]+b+'\n'+body+'\n'+s[s.index(e):]
sub('TABLE','\n'.join(t)); sub('FINDINGS','\n'.join(kf)); sub('SEEDED','\n'.join(sd))
open(f,'w').write(s)
