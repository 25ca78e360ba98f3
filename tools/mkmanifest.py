# writes MANIFEST.json; keeps it in step with properties.jsonl
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLOW="path-sensitive typestate dataflow over SSA (property simulation with value numbering, inlining and joins; no solver)"
CHECKS={
 # id: (technique, note)
}
NA={}
exec(open(os.path.join(V,'tools','claims.py')).read())
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
ids=[p['id'] for p in props]
m={'version':1,'setup_cmd':'./check.sh','checks':[],'not_applicable':[]}
for i in ids:
    if i in CHECKS:
        t,n=CHECKS[i]
        m['checks'].append({'property':i,'quick_cmd':'./check.sh '+i,'thorough_cmd':'./check.sh '+i,'technique':t,'level':'other','level_note':n})
    else:
        m['not_applicable'].append({'property':i,'reason':NA.get(i,'no static check built for it yet')})
assert not [i for i in list(CHECKS)+list(NA) if i not in ids]
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(m['checks']),'claimed',len(m['not_applicable']),'not applicable')
