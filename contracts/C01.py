from dv.dsl import *
META=dict(functions=['kin_functions.transform_int_3d','kin_functions.sin_i','kin_functions.r_int_ellip','general_utils.inclination_angle'])
def harnesses(E):
    kf=E.mod('misfit.model.kin_functions'); gu=E.mod('misfit.general.general_utils')
    def rot(x,y,z,dPA,i):
        """specification: rotate CCW-from-slit misalignment away, then incline about the major axis"""
        a=dPA*pi/180
        ca,sa,ci,si=np.cos(a),np.sin(a),np.cos(i),np.sin(i)
        xp=x*ca+y*sa; yp=y*ca-x*sa
        return xp*ci+z*si, yp, z*ci-xp*si
    @E.h('transform_int_3d')
    def h(vc):
        x,y,z,d,i=[vc.real(n) for n in ('x','y','z','dPA','irad')]
        a,b,c=kf.transform_int_3d(x,y,z,d,i)
        A,Bq,C=rot(x,y,z,d,i)
        vc.ensure_eq('x_int',a,A,True); vc.ensure_eq('y_int (major axis)',b,Bq,True); vc.ensure_eq('z_int',c,C,True)
        vc.ensure('lemma: distance preserved',a*a+b*b+c*c==x*x+y*y+z*z)
        z2=vc.real('z2'); i2=vc.real('i2')
        vc.ensure('lemma: major-axis coordinate independent of depth and inclination',kf.transform_int_3d(x,y,z2,d,i2)[1]==b)
        vc.canary('rotation trivial',a==x)
    @E.h('transform_int_3d on grids')
    def h(vc):
        nZ,nY,nX=[vc.int_(n,1) for n in('nZ','nY','nX')]
        x,y,z=[vc.arr(n,(nZ,nY,nX)) for n in('ax','ay','az')]; d=vc.real('dPA'); i=vc.real('irad')
        r=kf.transform_int_3d(x,y,z,d,i); s=rot(x,y,z,d,i)
        for n,a,b in zip(('x_int','y_int','z_int'),r,s): vc.ensure_eq(n,a,b,True)
    @E.h('sin_i')
    def h(vc):
        q=vc.real('q'); q0=vc.real('q0','pos')
        vc.assume(both(q>0,q<=1,q0<1))
        s=kf.sin_i(q,q0=q0)
        vc.ensure('edge-on below the intrinsic ratio',imp(q<q0,s==1))
        vc.ensure('oblate spheroid',imp(q>=q0,both(finite(s),s>=0,s*s*(1-q0*q0)==1-q*q)))
        vc.ensure('in [0,1]',both(s>=0,s<=1))
        vc.canary('always one',s==1)
    @E.h('inclination_angle agrees')
    def h(vc):
        q=vc.real('q'); q0=vc.real('q0','pos')
        vc.assume(both(q>0,q<=1,q0<1))
        i=gu.inclination_angle(q,q0); s=kf.sin_i(q,q0=q0)
        si=np.sin(i)
        vc.ensure('sin of the angle is sin_i',both(finite(i),si==s))
        vc.ensure('angle in [0,90]',both(i>=0,i<=pi/2))
    @E.h('r_int_ellip')
    def h(vc):
        x,y,q,d=vc.real('x'),vc.real('y'),vc.real('q','pos'),vc.real('dPA')
        r=kf.r_int_ellip(x,y,q,d)
        a=d*pi/180
        maj=y*np.cos(a)+x*np.sin(a); mi=x*np.cos(a)-y*np.sin(a)
        vc.ensure('circularised elliptical radius',both(finite(r),r>=0,r*r*q==q*q*maj*maj+mi*mi))
        vc.canary('r is zero',r==0)
        vc.ensure('lemma: axis ratio one gives the circular radius',kf.r_int_ellip(x,y,1,d)==np.sqrt(x*x+y*y))
    return E.hs
