import json,glob,os
h=open('/verif/tools/design_head.md').read()
first=dict(l.strip().split('\t') for l in open('/verif/tools/first_missed.tsv') if l.strip())
t="\n## 6. Planted changes\n\nEach is in `seeded/<id>/`, applies to `/repo`'s HEAD, passes the stable tests, and has a demonstration. All were\nwritten from the property text and the code without looking at what the checks generate. \"First missed\" names what was\nstrengthened afterwards.\n\n| change | property | what it breaks | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob('/verif/seeded/*/')):
    i=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    c='check of '+m['property']
    k=i
    if k in first: c+='; first missed: '+first[k]
    t+="| %s | %s | %s | %s |\n"%(i,m['property'],m['what_it_breaks'].replace('|','\\|').replace('\n',' '),c)
open('/verif/DESIGN.md','w').write(h+t)
