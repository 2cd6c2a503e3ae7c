import numpy as np
from misfit.model import kin_functions as kf
from misfit.general import general_utils as gu
def run(t):
    r=t.rng
    scal=r.random()<.4
    sh=() if scal else tuple(r.integers(1,5,3))
    x,y,z=[r.uniform(-5,5,sh) if sh else float(r.uniform(-5,5)) for _ in range(3)]
    d=float(r.choice([0.,90.,-90.,45.,r.uniform(-180,180)])); i=float(r.choice([0.,np.pi/2,r.uniform(0,np.pi/2)]))
    t.input(x=x,y=y,z=z,deltPA=d,i_rad=i)
    a=np.radians(d); xp=x*np.cos(a)+y*np.sin(a); yp=y*np.cos(a)-x*np.sin(a)
    g=kf.transform_int_3d(x,y,z,d,i)
    for n,u,v in zip('xyz',g,(xp*np.cos(i)+z*np.sin(i),yp,z*np.cos(i)-xp*np.sin(i))): t.eq('transform_int_3d %sint'%n,u,v,scale=5.)
    t.eq('distance',g[0]**2+g[1]**2+g[2]**2,x**2+y**2+z**2)
    q0=float(r.uniform(.05,.4)); q=float(r.choice([q0,1.,r.uniform(.01,1.)])); t.input(q=q,q0=q0)
    want=1. if q<q0 else np.sqrt((1-q*q)/(1-q0*q0))
    t.eq('sin_i',kf.sin_i(q,q0=q0),want)
    t.eq('inclination_angle',np.sin(gu.inclination_angle(q,q0)),want,rtol=1e-7)
    qa=np.array([q,q0,1.,.5]); t.eq('inclination_angle, several ratios',[np.sin(gu.inclination_angle(float(x),q0)) for x in qa],np.where(qa<q0,1.,np.sqrt((1-np.minimum(qa,1)**2)/(1-q0*q0))),rtol=1e-7)
    rr=kf.r_int_ellip(x,y,q,d)
    t.eq('r_int_ellip',rr,np.sqrt(q*(y*np.cos(a)+x*np.sin(a))**2+(x*np.cos(a)-y*np.sin(a))**2/q),scale=5.)
    t.eq('r_int_ellip circular',kf.r_int_ellip(x,y,1.,d),np.hypot(x,y),scale=5.)
