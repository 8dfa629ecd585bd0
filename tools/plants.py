# rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json and tools/plants.tsv (id <tab> result of the quick check)
import json,glob,os,re
res=dict(l.rstrip('\n').split('\t') for l in open('/verif/tools/plants.tsv') if '\t' in l)
rows=['| planted bug | property | what it breaks | needs | quick check |','|---|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    rows.append('| %s | %s | %s | %s | %s |'%(i,m['property'],m['what_it_breaks'],m['needs'],res.get(i,'not tried')))
t=open('/verif/DESIGN.md').read()
b='<!-- plants -->\n'+'\n'.join(rows)+'\n<!-- /plants -->'
t=t.replace('PLANTTABLE',b) if 'PLANTTABLE' in t else re.sub(r'<!-- plants -->.*<!-- /plants -->',lambda m:b,t,flags=re.S)
open('/verif/DESIGN.md','w').write(t)
