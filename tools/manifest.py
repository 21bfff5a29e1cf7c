#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the harness files that exist.
import json,os,glob,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
have=set()
for f in glob.glob(root+'/harness/c*.go'):
    for m in re.finditer(r'^func (C\d\d)_\w+\(\)',open(f).read(),re.M): have.add(m.group(1))
notes=json.load(open(root+'/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have and i not in notes.get('skip',{}):
        checks.append({"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"VERIF_TIER=thorough ./check {i}","evidence_file":f"evidence/{i}.json",
          "technique":"symbolic execution of the Go SSA of the real code, assertions decided by SMT (z3, bit-vectors) over all inputs"+notes['tech'].get(i,''),
          "level":"model_checking","level_note":notes['common']+" "+notes['note'].get(i,'')})
    else:
        na.append({"property":i,"reason":notes.get('skip',{}).get(i,"no check built yet")})
json.dump({"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,
 "notes":"Engine in gosym/ (Go, x/tools/go/ssa vendored), harnesses in harness/. /repo carries no hooks."},open(root+'/MANIFEST.json','w'),indent=1)
