from dv.dsl import *
META=dict(functions=['kin_classes.VelArctanProfile.vel','kin_classes.DispConstProfile.sigma','kin_classes.KinProfile.setup_profiles','kin_classes.KinProfile.update_theta','kin_classes.KinProfile.vel','kin_classes.KinProfile.sigma','kin_classes.KinProfileFiducial.__init__'],
 assumptions=['turnover radius positive'])
def harnesses(E):
    kc=E.mod('misfit.model.kin_classes')
    def theta(vc,n,rt=None):
        """parameter vector of any length n>=3 with a positive turnover radius"""
        th=vc.arr('theta',(n,)); vc.assume(th[1]>0)
        return th
    @E.h('fiducial profile, any parameter vector')
    def h(vc):
        n=vc.int_('n',3); th=theta(vc,n); V,rt,s0=th[0],th[1],th[2]
        r,z=vc.real('r'),vc.real('z')
        kp=kc.KinProfileFiducial(); kp.update_theta(th)
        v=kp.vel(r,z); s=kp.sigma(r,z)
        vc.ensure_eq('arctan rotation curve',v,2/pi*V*np.arctan(r/rt),True)
        vc.ensure_eq('constant dispersion',s,s0,True)
        vc.ensure('two rotation parameters, one dispersion parameter',both(kp.velProfile.n_params==2,kp.dispProfile.n_params==1))
        vc.ensure('vector kept',both(kp.theta[0]==V,kp.theta[1]==rt,kp.theta[2]==s0))
        vc.ensure('zero at the centre',kp.vel(0*r,z)==0)
        vc.ensure('never exceeds the asymptotic velocity',abs(v)<=abs(V))
        vc.ensure('odd in radius',kp.vel(-r,z)==-v)
        t2=np.array([-V,rt,vc.real('s2')]); kp.update_theta(t2)
        vc.ensure('odd in its amplitude',kp.vel(r,z)==-v)
        vc.canary('no rotation',v==0)
    @E.h('fiducial profile on arrays')
    def h(vc):
        n=vc.int_('n',3); th=theta(vc,n); V,rt,s0=th[0],th[1],th[2]
        sh=tuple(vc.int_(k,1) for k in('nZ','nY','nX')); r,z=vc.arr('r',sh),vc.arr('z',sh)
        kp=kc.KinProfileFiducial(); kp.update_theta(th)
        vc.ensure_eq('arctan rotation curve',kp.vel(r,z),2/pi*V*np.arctan(r/rt),True)
        vc.ensure_eq('constant dispersion',kp.sigma(r,z),np.ones(sh)*s0,True)
    @E.h('later entries never matter')
    def h(vc):
        n=vc.int_('n',3); m=vc.int_('m',3); a=theta(vc,n); b=vc.arr('other',(m,)); r,z=vc.real('r'),vc.real('z')
        for k in range(3): vc.assume(a[k]==b[k])
        kp=kc.KinProfileFiducial(); kp.update_theta(a); v,s=kp.vel(r,z),kp.sigma(r,z)
        kp.update_theta(b); vc.ensure('same profiles',both(kp.vel(r,z)==v,kp.sigma(r,z)==s))
    @E.h('lists are split like arrays')
    def h(vc):
        V,rt,s0,m0,zz=vc.real('V'),vc.real('rt','pos'),vc.real('s0'),vc.real('m0'),vc.real('zz'); r,z=vc.real('r'),vc.real('z')
        kp=kc.KinProfileFiducial(); kp.update_theta([V,rt,s0,m0,zz])
        vc.ensure('profiles',both(kp.vel(r,z)==2/pi*V*np.arctan(r/rt),kp.sigma(r,z)==s0))
    @E.h('splitting between groups of any size')
    def h(vc):
        nv=vc.int_('nv',0); ns=vc.int_('ns',0); ne=vc.int_('nextra',0)
        vp=kc.VelProfile(); vp.theta=np.zeros(nv); dp=kc.DispProfile(); dp.theta=np.zeros(ns)
        kp=kc.KinProfile(velProfile=vp,dispProfile=dp)
        th=vc.arr('theta',(nv+ns+ne,))
        kp.update_theta(th)
        vc.ensure_eq('rotation group first',kp.velProfile.theta,th[:nv])
        vc.ensure_eq('dispersion group next',kp.dispProfile.theta,th[nv:nv+ns])
        vc.forall('rotation entries',(nv,),lambda k: kp.velProfile.theta[k]==th[k])
        vc.forall('dispersion entries follow',(ns,),lambda k: kp.dispProfile.theta[k]==th[nv+k])
    @E.h('no shared profiles')
    def h(vc):
        a,b=kc.KinProfileFiducial(),kc.KinProfileFiducial()
        a.update_theta(vc.arr('ta',(5,))); tb=vc.arr('tb',(5,)); vc.assume(tb[1]>0); b.update_theta(tb); r=vc.real('r')
        vb=b.vel(r,0.); a.update_theta(vc.arr('tc',(5,)))
        vc.ensure('updating one profile leaves the other alone',both(b.vel(r,0.)==vb,b.sigma(r,0.)==tb[2]))
    return E.hs
