import json,re,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
src=open('/verif/harness/src/p/mod.rs').read()
built=set(re.findall(r'"(C\d\d)" =>',src))
T=json.load(open('/verif/tools/checks.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in built:
        c=T[i]
        checks.append(dict(property=i,quick_cmd=f"./check {i} --tier quick",thorough_cmd=f"./check {i} --tier thorough",
          evidence_file=f"evidence/{i}.json",technique=c['technique'],level=c['level'],level_note=c['note']))
    else:
        na.append(dict(property=i,reason=T.get(i,{}).get('na',"not built yet")))
m=dict(version=1,setup_cmd="./check setup",checks=checks,not_applicable=na,
  hooks=dict(guard="none",enable="no hooks: the checks drive the public API of the unmodified crate",source_commits=[]),
  notes="Every check compiles the harness in /verif/harness against /repo's working tree and enumerates bounded spaces of inputs, reader answers, faults or operation histories on the real library. See DESIGN.md.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(checks),'checks',len(na),'n/a')
