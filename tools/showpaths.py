import sys; sys.path.insert(0,'/verif')
from lib.check import *
from lib.q import *
import argparse
a=argparse.ArgumentParser(); a.add_argument('q'); a.add_argument('-i',action='append',default=[]); a.add_argument('-r',action='store_true'); a.add_argument('-R',action='store_true'); a.add_argument('-n',type=int,default=20); a.add_argument('-c',action='store_true'); a.add_argument('-k',default='')
a=a.parse_args()
c=Check("X")
ps=c.paths(a.q,inline=a.i,may_raise=any_call_raises if a.r else None,reads=a.R,max_paths=60000)
print(len(ps))
for o in ps[:a.n]:
    if a.k and o.kind!=a.k: continue
    print("--",o.kind,show(o.value)[:300])
    for e in o.state.trace:
        if a.c and e.kind not in('call','callraise'): continue
        print("    ",show_ev(e)[:260],getattr(e.node,'lineno',''))
