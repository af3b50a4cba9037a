import json,sys
p='/verif/checks.json'
L=json.load(open(p))
new=json.load(sys.stdin)
if isinstance(new,dict): new=[new]
for n in new:
    L=[x for x in L if x['id']!=n['id']]+[n]
L.sort(key=lambda c:c['id'])
open(p,'w').write('[\n'+',\n'.join(' '+json.dumps(c) for c in L)+'\n]\n')
