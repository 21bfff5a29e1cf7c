#!/usr/bin/env python3
# Prints the tables of DESIGN.md that follow from the sources: harnesses, bounds, planted bugs.
import json,re,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
bugs={}
for m in sorted(glob.glob(root+'/seeded/*/meta.json')):
    d=json.load(open(m)); bugs.setdefault(d['property'],[]).append(os.path.basename(os.path.dirname(m)))
for p in props:
    f=root+'/harness/%s.go'%p['id'].lower()
    print('### %s %s\n'%(p['id'],p['title']))
    if not os.path.exists(f): print('no check\n'); continue
    s=open(f).read()
    for m in re.finditer(r'^// (C\d\d_\w+)(.*?): (.*)$',s,re.M):
        a=m.start(); e=s.find('\n// C',a+5); part=s[a:e if e>0 else len(s)]
        b=['%s %s/%s'%x for x in re.findall(r'sym\.Bound\("([^"]*)", (\d+), (\d+)\)',part)]
        print('* `%s`%s: %s%s'%(m.group(1),m.group(2),m.group(3),' ('+'; '.join(dict.fromkeys(b))+')' if b else ''))
    if p['id'] in bugs: print('* planted bugs, all reported: '+', '.join(bugs[p['id']]))
    print()
