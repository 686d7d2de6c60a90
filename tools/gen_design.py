import json
V='/verif'
k=json.load(open(V+'/known-findings.json'))['fixed']
rows='\n'.join('- '+e[len('fixed: '):] if isinstance(e,str) else '- %s'%e for e in k)
t=open('/verif/tools/DESIGN.src.md').read().replace('@FIXED@',rows).replace('@NFIX@',str(len(k)))
import os
seeds=sorted(os.listdir(V+'/seeded'))
tab=[]
for s in seeds:
    m=json.load(open(V+'/seeded/%s/meta.json'%s))
    tab.append('| %s | %s | %s | %s | %s |'%(s,m['property'],m['needs'],m['what_it_breaks'],m['property']))
t=t.replace('@SEEDS@','\n'.join(tab))
open(V+'/DESIGN.md','w').write(t)
