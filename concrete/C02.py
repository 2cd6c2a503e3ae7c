import numpy as np
from types import SimpleNamespace as NS
from misfit.galaxy import Galaxy
from misfit.general import general_utils as gu
def run(t):
    r=t.rng
    def ang(): return float(r.choice([0.,30.,-120.,300.,r.uniform(-720,720),r.uniform(-720,720)]))
    gp,sp,ip=ang(),ang(),ang(); gen=bool(r.random()<.25)
    raw=gp-(sp-ip)
    if abs(abs(((raw+90)%180)-90)-90)<1e-6: return
    t.input(sersicPA=gp,slit_PA=sp,img_PA=ip,generate_model=gen)
    g=Galaxy(); g.generate_model=gen; g.sersicPA=gp; g.spec2D=NS(slit_PA=sp); g.pstamp=NS(img_PA=ip); g.delt_PA=33.5
    if gen: g.delt_PA=float(r.uniform(-90,90)); d0=g.delt_PA
    for i in range(2):
        if gen and i: g.delt_PA=d0=float(r.uniform(-90,90))
        g.calculate_slit_object_delta_PA()
        if gen: t.eq('model galaxy keeps its angle',g.delt_PA,d0)
        else:
            t.eq('folded misalignment',g.delt_PA,((raw+90)%180)-90,atol=1e-8)
        t.eq('absolute value',g.delt_PA_abs,abs(g.delt_PA))
    d=float(r.choice([0.,45.,-89.,r.uniform(-90,90),r.uniform(-90,90),r.uniform(-400,400),120.,-135.])); re=float(r.uniform(0,3)); q=float(r.uniform(.1,1)); w=float(r.uniform(.1,2))
    a=np.radians(d); t.input(d=d,re=re,q=q,w=w)
    t.eq('x_proj_major',gu.x_proj_major(re,d,q),re*abs(np.sin(a)),atol=1e-12); t.eq('y_proj_major',gu.y_proj_major(re,d),re*abs(np.cos(a)),atol=1e-12)
    yp=float(r.uniform(-3,3)); t.input(yp=yp)
    t.eq('r_unproj_major',gu.r_unproj_major(yp,d,q),abs(yp)/abs(np.cos(a)))
    want=re*abs(np.cos(a)) if re*abs(np.sin(a))<=w/2 else w/2*abs(np.cos(a)/np.sin(a))
    t.eq('y_proj_major_inslit',gu.y_proj_major_inslit(re,d,slit_width_arcsec=w),want,atol=1e-12)
    t.eq('y_proj_phys',gu.y_proj_phys(re,d,q),re*q/np.hypot(q*np.cos(a),np.sin(a)))
    t.eq('x_proj_phys',gu.x_proj_phys(re,d,q),re*q/np.hypot(q*np.sin(a),np.cos(a)))
