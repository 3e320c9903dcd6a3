"""dump.py CONTRACT SUBSTR [loc]: write the matching obligations as SMT-LIB to /tmp/w/d_<n>.smt2 (development aid)"""
import sys; sys.path.insert(0,'/verif')
import os
from engine import run, smt
from contracts import all_contracts
by=all_contracts(); env=run.Env(1,0)
con=by[sys.argv[1]]
ex,pre=run.gen(con,env,by)
n=0
os.makedirs('/tmp/w',exist_ok=True)
for o in ex.obls:
    if o.goal is None or sys.argv[2] not in o.name or (len(sys.argv)>3 and sys.argv[3] not in o.loc): continue
    asr=smt.instantiate(o, con.lemmas, rounds=con.opts.get('rounds',4), cap=con.opts.get('cap',1500))
    open('/tmp/w/d_%d.smt2'%n,'w').write(smt.to_smt2(asr)); print(n,o.name,o.loc,o.path,len(asr)); n+=1
