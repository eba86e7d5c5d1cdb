import json,sys,os,importlib
sys.path.insert(0,'/verif')
D=open('/verif/DESIGN.md').read()
out=[]; C=json.load(open('/verif/tools/caught.json'))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); m=importlib.import_module('checks.'+d['id'].lower())
    subs=', '.join('%s (%d/%d cases)'%(s.name,s.quick,s.thorough) for s in m.SUBS)
    out.append('### %s %s\n\n%s\n\nSub-checks (quick/thorough): %s.\n'%(d['id'],d['title'],m.RULE,subs))
    if getattr(m,'ASSUMPTIONS',None): out.append('Assumes: '+'; '.join(m.ASSUMPTIONS)+'.\n')
a,b=D.split('## 2. Properties: generator, oracle, bounds\n')
b=b[b.index('## 3.'):]
D=a+'## 2. Properties: generator, oracle, bounds\n\n'+'\n'.join(out)+'\n'+b
i=D.index('## 5.'); head=D[:i]
t=D[i:]
pre=t.split('\n| change')[0].replace('SEEDTABLE','').rstrip()
post=''
if '\n## 6.' in t: post=t[t.index('\n## 6.'):]
    
pre=pre.split('\n## 6.')[0]
rows=['| change | property | caught by | needs |','|---|---|---|---|']
for n in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%n))
    rows.append('| %s | %s | %s | %s |'%(n,m['property'],C.get(n,'-'),m['needs'].replace('|','/')))
open('/verif/DESIGN.md','w').write(head+pre+'\n\n'+'\n'.join(rows)+'\n'+post)
