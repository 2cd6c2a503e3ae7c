import numpy as np
from misfit.model import kin_classes as kc
def run(t):
    r=t.rng
    n=int(r.integers(3,8)); th=r.normal(0,100,n); th[1]=r.uniform(.05,2) if r.random()<.6 else r.choice([-1.,1.,1.])*10.**r.uniform(-4,3)
    if r.random()<.2: th[0]=0.
    sh=tuple(r.integers(1,4,int(r.integers(0,4)))); R=r.choice([0.,1.,.3],sh) if r.random()<.2 else r.uniform(-3,3,sh)*r.choice([1.,1.,abs(th[1]),1e3]); z=r.uniform(-1,1,sh)
    if sh==(): R=float(R); z=float(z)
    t.input(theta=th,r=R,z=z)
    kp=kc.KinProfileFiducial()
    for _ in range(2):
        q=th if r.random()<.5 else th.tolist()
        kp.update_theta(q)
        v=kp.vel(R,z)
        t.eq('vel',v,2/np.pi*th[0]*np.arctan(np.asarray(R)/th[1]),scale=abs(th[0])); t.eq('sigma',kp.sigma(R,z),0*np.asarray(R)+th[2])
        t.ok('bounded by the asymptotic velocity',np.all(np.abs(v)<=abs(th[0])*(1+1e-12)))
        th=th.copy(); th[3:]=r.normal(0,1,n-3); t.input(theta=th)
    t2=th.copy(); t2[0]=-th[0]; kp.update_theta(t2); t.eq('odd in amplitude',kp.vel(R,z),-np.asarray(v),scale=abs(th[0]))
    nv,ns,ne=[int(k) for k in r.integers(0,5,3)]
    vp=kc.VelProfile(); vp.theta=np.zeros(nv); dp=kc.DispProfile(); dp.theta=np.zeros(ns)
    k2=kc.KinProfile(velProfile=vp,dispProfile=dp); x=r.normal(0,1,nv+ns+ne); t.input(sizes=[nv,ns,ne],x=x); k2.update_theta(x)
    t.same('split rotation',k2.velProfile.theta,x[:nv]); t.same('split dispersion',k2.dispProfile.theta,x[nv:nv+ns])
