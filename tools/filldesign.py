import json,os
miss={'spacing-multilane-entry-py':'C05','cyclic-routing-last-node-py':'C08','route-log-at-logging-steps-py':'C10','route-memory-active-when-closed-cpp':'C09','route-update-shorter-than-step-cpp':'C13','edie-extrapolates-unfinished-py':'C21'}
rows=['| planted bug | caught by | what it breaks |','|---|---|---|']
for n in sorted(os.listdir('/verif/seeded'),key=lambda n:json.load(open(f'/verif/seeded/{n}/meta.json'))['property']+n):
    m=json.load(open(f'/verif/seeded/{n}/meta.json'))
    rows.append(f"| {n} | {m['property']}{' (missed at first)' if n in miss else ''} | {m['what_it_breaks']} |")
s=open('/verif/DESIGN.md').read()
a,b='<!-- seeds -->','<!-- /seeds -->'
t=a+'\n'+'\n'.join(rows)+'\n\n'+'''Those missed (or only weakly caught) at first led to: multi-lane entry scenes and the leader-in-lane distance (C05), cyclic tours with the
last node repeated (C08), the route log compared at every step whatever the logging interval (C10), destinations without a permitted link at first (C09),
update intervals shorter than a step (C13), vehicles that stay inside a link at the horizon (C21).
'''+b
if a in s: s=s[:s.index(a)]+t+s[s.index(b)+len(b):]
else: s=s.replace('@@SEEDS@@',t)
open('/verif/DESIGN.md','w').write(s)
