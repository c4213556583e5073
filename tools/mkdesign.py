import json,glob,subprocess
head=open('/verif/tools/doc/head.md').read()
tail=open('/verif/tools/doc/tail.md').read()
rows=['| id | property / caught by | needs | breaks |','|---|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append('| %s | %s | %s | %s |'%(f.split('/')[-2],m['property'],m['needs'],m['what_it_breaks']))
open('/verif/DESIGN.md','w').write(head+tail.replace('CATCHTABLE','\n'.join(rows)))
