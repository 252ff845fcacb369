import json,os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
notes=json.load(open(V+'/tools/levels.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in notes['checks']:
        n=notes['checks'][i]
        checks.append({"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":n[0],"level":"exploration","level_note":n[1]})
    else:
        na.append({"property":i,"reason":notes['na'].get(i,"check not built yet (work in progress)")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),'checks',len(na),'not claimed')
