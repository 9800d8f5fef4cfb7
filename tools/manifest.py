import json,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={}
exec(open('/verif/tools/notes.py').read())
m={'version':1,'setup_cmd':'python3 check.py --setup','checks':[],'not_applicable':[]}
for p in props:
    i=p['id']
    if i in NA: m['not_applicable'].append({'property':i,'reason':NA[i]}); continue
    m['checks'].append({'property':i,'quick_cmd':'python3 check.py '+i,'thorough_cmd':'VERIF_TIER=thorough python3 check.py '+i,
      'technique':TECH.get(i,TECH['*']),'level':'model_checking','level_note':NOTE[i]})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
