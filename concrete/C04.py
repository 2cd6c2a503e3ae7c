import numpy as np
from misfit.model import kin_classes as kc, kin_functions as kf
from misfit.galaxy import Galaxy
def ser(r,n,re): return np.exp(-(2*n-.324)*((r/re)**(1/n)-1))
def run(t):
    r=t.rng
    def gal(): return dict(n=float(r.choice([.5,1.,2.,4.,r.uniform(.3,6)])),re_arcsec=float(r.uniform(.1,2)),q0=float(r.uniform(.05,.5)))
    sh=tuple(r.integers(1,4,int(r.integers(0,4)))); R=np.where(r.random(sh)<.15,0.,r.uniform(0,4,sh)); z=np.where(r.random(sh)<.15,0.,r.uniform(-1.5,1.5,sh))
    if sh==(): R,z=float(R),float(z)
    for cls,sc in((kc.IntensityProfileFiducial,1.),(kc.IntensityProfileSersicExpScale,1.676)):
        p=None; k=gal(); g=Galaxy(**k); p=cls(g); oth=cls(Galaxy(**gal()))
        for _ in range(3):
            t.input(cls=cls.__name__,galaxy=k,r=R,z=z)
            t.eq('%s'%cls.__name__,p.int(R,z),ser(np.asarray(R),k['n'],k['re_arcsec'])*np.exp(-np.abs(z)/(k['q0']*k['re_arcsec']/sc)))
            k=gal(); g.setAttr(**k)
            if r.random()<.5: g=Galaxy(**k)
            p.update_values(g); oth.update_values(Galaxy(**gal()))
    n,re,c,Ie,d=float(r.uniform(.3,6)),float(r.uniform(.1,2)),float(r.uniform(.001,.2)),float(r.uniform(-2,2)),float(r.uniform(-1,1)); t.input(n=n,re=re,core=c,Ie=Ie,d=d)
    Ra=np.asarray(R)
    t.eq('I_sersic',kf.I_sersic(R,re,n,Ie,r_core=c),Ie*ser(Ra+c*re,n,re)); t.eq('I_sersic default core',kf.I_sersic(R,re,n,Ie),Ie*ser(Ra+re/300,n,re))
    t.eq('sigma_profile',kf.sigma_profile(R,re,d=d,r_core=c),((Ra+c*re)/(re+c*re))**d); t.eq('sigma_profile default',kf.sigma_profile(R,re),((Ra+re/300)/(re+re/300))**-.089)
    q,pa=float(r.uniform(.1,1)),float(r.uniform(-180,180)); t.input(q=q,delt_PA=pa); x=Ra; y=np.asarray(z); a=np.radians(pa)
    rr=np.sqrt(q*(y*np.cos(a)+x*np.sin(a))**2+(x*np.cos(a)-y*np.sin(a))**2/q)
    t.eq('Igal',kf.Igal(x,y,re_arcsec=re,n=n,q=q,delt_PA=pa,r_core=c),ser(rr+c*re,n,re)); t.eq('disp_square',kf.disp_square(x,y,q=q,delt_PA=pa,re_mass_arcsec=re,r_core=c),((rr+c*re)/(re+c*re))**-.178)
