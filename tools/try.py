"""try.py module:func ... : run groups against a lib (VERIF_LIB or /repo/src/lib) and show failures"""
import os, sys, time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode=True
os.environ.setdefault('VERIF_LIB','/repo/src/lib')
from vcg.harness import run_groups
t=time.time()
for g in run_groups([(s,None) for s in sys.argv[1:]]):
    bad=[o for o in g['obls'] if not o['ok']]
    print(g['spec'],len(g['obls']),'obligations',len(bad),'failed gen',g.get('gen_s'),'s solver',round(sum(o.get('t',0) for o in g['obls']),1)); 
    if g['error']: print(g['error'])
    seen=set()
    for o in bad:
        if o['name'] in seen: continue
        seen.add(o['name'])
        if len(seen)<25: print('  FAIL',o['name'],o['backend'],(o.get('detail')or'')[-1000:].replace('\n',' '),'GOAL',(o.get('goal')or'')[:300])
print(round(time.time()-t,1),'s')
