import numpy as np
from misfit.general import general_utils as gu
MAXCASES=6000
def run(t):
    r=t.rng; n=int(r.integers(0,12))
    wh=np.cumsum(r.choice([1,1,1,2,3,0,-1],n))+int(r.integers(-3,5)) if r.random()<.8 else r.integers(-4,9,n)
    wh=[int(x) for x in wh]; arg=np.array(wh,dtype=int) if r.random()<.5 else list(wh)
    t.input(indices=wh)
    g=gu.wh_continuous(arg); g=[[int(v) for v in x] for x in g]
    t.ok('input unchanged',[int(x) for x in arg]==wh)
    t.ok('concatenate back',[v for x in g for v in x]==wh,g,wh); t.ok('no empty group',all(len(x) for x in g),g)
    t.ok('consecutive inside',all(b-a==1 for x in g for a,b in zip(x,x[1:])),g); t.ok('breaks between',all(y[0]-x[-1]!=1 for x,y in zip(g,g[1:])),g)
