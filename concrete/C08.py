import numpy as np
from misfit.model import kin_functions as kf
C=299792.458
MAXCASES=3000
def run(t):
    r=t.rng
    nW,nZ,nY,nX=[int(v) for v in r.integers(1,6,4)]; n=int(r.integers(1,4)); z=float(r.uniform(0,3))
    rest=r.uniform(3000,7000,n); fr=r.uniform(0,2,n); I=r.uniform(0,1,(nZ,nY,nX)); V=r.normal(0,300,(nZ,nY,nX)); dz,dl=float(r.uniform(.01,1)),float(r.uniform(.1,5))
    st=str(r.choice(['wave','velocity'])); cold=bool(r.random()<.35)
    sg=np.zeros((nZ,nY,nX)) if cold else r.uniform(5,200,(nZ,nY,nX))
    if not cold and r.random()<.3: sg[:]=float(r.uniform(5,100))
    w=np.sort(r.uniform(rest[0]*(1+z)*.998,rest[0]*(1+z)*1.002,nW)) if st=='wave' else np.sort(r.normal(0,400,nW))
    t.input(spec_type=st,shape=[nW,nZ,nY,nX],z=z,rest=rest,ratios=fr,light=I,vel=V,sigma=sg,wave=w,delt_z=dz)
    IM=np.tile(I,(nW,1,1,1)); WM=np.repeat(w,nZ*nY*nX).reshape(nW,nZ,nY,nX)
    a=[I,V,sg,w,IM,WM,rest,fr]; c=[x.copy() for x in a]
    out=kf.add_sigma_collapse_z(I,V,sg,w,z,rest,fr,nW,nZ,nY,nX,dz,dl,IM,WM,spec_type=st)
    for x,y in zip(a,c): t.same('inputs unchanged',x,y)
    want=np.zeros((nW,nY,nX)); tie=np.zeros((nY,nX),bool)
    for l in range(n if st=='wave' else 1):
        L=rest[l]*(1+z); mu=L*(1+V/C) if st=='wave' else V; s=L*sg/C if st=='wave' else sg; f=fr[l] if st=='wave' else 1.
        if cold:
            d=np.abs(mu[None]-w[:,None,None,None]); k=d.argmin(axis=0)
            if nW>1: q=np.sort(d,axis=0); tie|=(q[1]-q[0]<1e-7*(q[0]+1e-9)).any(axis=0)
            for m in range(nZ):
                for j in range(nY):
                    for i in range(nX): want[k[m,j,i],j,i]+=f*dz*I[m,j,i]
        else: want+=f*dz*(I[None]*np.exp(-(w[:,None,None,None]-mu[None])**2/(2*s[None]**2))/(s[None]*np.sqrt(2*np.pi))).sum(axis=1)
    want[:,tie]=0; out=np.array(out); out[:,tie]=0
    t.eq('cube',out,want,rtol=1e-8)
    o=kf.I_simple_collapse(I,V,w,nW,nZ,nY,nX,dz,dl,rest[0]*(1+z)); t.eq('light conserved',o.sum(axis=0),dz*I.sum(axis=0))
