from dv.dsl import *
from contracts.common import *
META=dict(functions=['aper_model.AperModel1DRot.update_kinProfile','aper_model.AperModel1DRot.calculate_kin_cube','aper_model.AperModel1DRot.convolve_kin_arr_PSF','aper_model.AperModel1DRot.calc_aper_correction','kin_classes.KinProfileFiducial.__init__','kin_classes.KinProfile.update_theta','kin_classes.KinProfile.vel','kin_classes.KinProfile.sigma'],
 assumptions=['finite parameters, positive turnover and aperture radius','row offsets of the line-of-sight velocity by contract of calculate_effective_inst_res_lam_shift (C28)'],
 trusted=[])
def harnesses(E):
    am=E.mod('misfit.model.aper_model'); kc=E.mod('misfit.model.kin_classes'); kf=E.mod('misfit.model.kin_functions')
    def rot(vc,ratio,**kw):
        r=object.__new__(am.AperModel1DRot); am.AperModel1DBase.__init__(r)
        r.__dict__.update(theta=[ratio,vc.real('V'),vc.real('r_t','pos')],kinProfile=kc.KinProfileFiducial(),disp_aper_radius_arcsec=vc.real('R_ap','pos'),do_position_wave_shift=False,do_inst_res_conv_effective=False,delta_position_velspace=None,inst_disp_vel=None,**kw)
        return r
    def ratios(vc):
        q=vc.real('ratio')
        return dict(nonzero=q,zero=K('0.'),unset=None)
    def law(vc,r,ratio,tag=''):
        V,rt,R=r.theta[1],r.theta[2],r.disp_aper_radius_arcsec; k=r.kinProfile
        if ratio is None:
            vc.ensure_eq('no dispersion'+tag,k.sigma(R,0.),K('0.'),True); vc.ensure_eq('the given rotation'+tag,k.vel(R,0.),2/pi*V*np.arctan(R/rt),True)
            return
        s,v=k.sigma(R,0.),k.vel(R,0.)
        return s,v
    x=lambda vc: vc.real('radius')
    @E.h('requested ratio')
    def h(vc):
        q=vc.real('ratio'); vc.assume(no(q==0)); r=rot(vc,q); r.update_kinProfile(); k=r.kinProfile
        V,rt,R=r.theta[1],r.theta[2],r.disp_aper_radius_arcsec; y=vc.real('radius')
        vc.ensure_eq('rotation over dispersion at the aperture radius',q*k.sigma(R,0.),k.vel(R,0.),True)
        vc.ensure_eq('as a quotient',imp_ratio(vc,k.vel(R,0.),k.sigma(R,0.),V,R,rt,q),K('0.'),True)
        vc.ensure_eq('the given rotation curve',k.vel(y,0.),2/pi*V*np.arctan(y/rt),True); vc.ensure_eq('uniform dispersion',k.sigma(y,0.),k.sigma(R,0.),True)
        vc.canary('no dispersion',k.sigma(R,0.)==0)
    def imp_ratio(vc,v,s,V,R,rt,q):
        return ite_(V==0,K('0.'),v/ite_(V==0,K('1.'),s)-q)
    @E.h('zero ratio')
    def h(vc):
        r=rot(vc,K('0.')); r.update_kinProfile(); k=r.kinProfile; y=vc.real('radius')
        vc.ensure_eq('no rotation',k.vel(y,0.),K('0.'),True); vc.ensure_eq('the velocity is the dispersion',k.sigma(y,0.),r.theta[1],True); vc.canary('no dispersion',k.sigma(y,0.)==0)
    @E.h('no ratio')
    def h(vc):
        r=rot(vc,None); r.update_kinProfile(); k=r.kinProfile; y=vc.real('radius')
        vc.ensure_eq('pure disk',k.sigma(y,0.),K('0.'),True); vc.ensure_eq('the given rotation curve',k.vel(y,0.),2/pi*r.theta[1]*np.arctan(y/r.theta[2]),True); vc.canary('no rotation',k.vel(y,0.)==0)
    for a in('value','zero','none'):
        for b in('value','zero','none'):
            @E.h('history: %s, then %s'%(a,b))
            def h(vc,a=a,b=b):
                def val(w,nm):
                    if w=='value':
                        q=vc.real(nm); vc.assume(no(q==0)); return q
                    return K('0.') if w=='zero' else None
                y=vc.real('radius'); r=rot(vc,val(a,'ratio 1')); r.update_kinProfile()
                r.theta=[val(b,'ratio 2'),vc.real('V 2'),vc.real('r_t 2','pos')]; f=rot(vc,r.theta[0]); f.theta=list(r.theta)
                r.update_kinProfile(); f.update_kinProfile()
                vc.ensure_eq('rotation independent of the earlier theta',r.kinProfile.vel(y,0.),f.kinProfile.vel(y,0.),True); vc.ensure_eq('dispersion independent of the earlier theta',r.kinProfile.sigma(y,0.),f.kinProfile.sigma(y,0.),True)
    class Kin:
        def vel(s,R,z): return opaque('vel',R.shape,R,z)
        def sigma(s,R,z): return opaque('sig',R.shape,R,z)
    def cube(vc,shift,res):
        nz,ny,nx,p=vc.int_('nZ',1),vc.int_('nY',1),vc.int_('n_pix_x',1),vc.int_('padX',0); sh=(nz,ny,nx+2*p)
        r=rot(vc,None); X,Y=vc.arr('xint',sh),vc.arr('yint',sh)
        r.__dict__.update(kinProfile=Kin(),I_wide=vc.arr('I',sh,sign='nonneg'),xint=X,yint=Y,r=np.sqrt(X**2+Y**2),zint=vc.arr('zint',sh),sini=vc.real('sini','nonneg'),nY=ny,nX=nx+2*p,nZ=nz,n_pix_x=nx,padX=p,x_arr=vc.arr('x',(nx+2*p,)),y_arr=vc.arr('y',(ny,)),delt_z=vc.real('dz','pos'),lam0_primary=vc.real('lam0','pos'),do_position_wave_shift=shift,do_inst_res_conv_effective=res)
        r.instrument=instrument(E,vc); r.instrument.PSF=NS(); calls=[]
        def eff(I_wide_3d=None,xarr=None,yarr=None,wh_in_slit_x=None,R=None,slit_width_R_meas=None,tot_slit_width=None,lam0=None,PSF=None):
            calls.append((I_wide_3d,xarr,yarr,wh_in_slit_x,R,slit_width_R_meas,tot_slit_width,lam0,PSF)); return vc.arr('delta_v',(ny,)),vc.arr('disp_wave',(ny,),sign='nonneg')
        return r,eff,calls
    for shift,res in((False,False),(True,False),(False,True),(True,True)):
        @E.h('second moment%s%s'%(', row offsets' if shift else '',', effective resolution' if res else ''))
        def h(vc,shift=shift,res=res):
            r,eff,calls=cube(vc,shift,res); X,Y=r.xint,r.yint; sh=X.shape; I0=r.I_wide; I=lam(sh,lambda *i: I0[i]); rad=r.r; X0,Y0,rad0=[lam(sh,lambda *i,a=a: a[i]) for a in(X,Y,rad)]; v,s=Kin().vel(rad,r.zint),Kin().sigma(rad,r.zint); dv=vc.arr('delta_v',(r.nY,))
            with patched((kf,'calculate_effective_inst_res_lam_shift',eff)): r.calculate_kin_cube()
            def los(k,i,j):
                c=(k,i,j); a=ite_(rad[c]==0,K('0.'),v[c]*(Y[c]/ite_(rad[c]==0,K('1.'),rad[c]))*r.sini)
                return a+dv[i] if shift else a
            want=lam(sh,lambda *c: los(*c)**2+s[c]**2)
            vc.ensure_eq('squared line-of-sight velocity plus squared dispersion',r.RMS_sq_wide,want)
            vc.ensure_eq('light summed through the disk',r.I_coll,lam(sh[1:],lambda i,j: total(sh[0],lambda k: I[k,i,j])*r.delt_z))
            vc.ensure_eq('light-weighted second moment summed through the disk',r.sigsq_I_coll,lam(sh[1:],lambda i,j: total(sh[0],lambda k: want[k,i,j]*I[k,i,j])*r.delt_z))
            vc.ensure_eq('light kept',r.I_wide,I,True); vc.ensure_eq('x kept',r.xint,X0,True); vc.ensure_eq('y kept',r.yint,Y0,True); vc.ensure_eq('radius kept',r.r,rad0,True)
            vc.ensure('offsets computed only when needed',len(calls)==(1 if shift or res else 0))
            if calls:
                _,xa,ya,wh,R,w1,w2,l0,P=calls[0]; n=r.instrument
                vc.ensure('from the model light, grid and slit',both(w1==n.slit_width,w2==n.slit_width,l0==r.lam0_primary,P is n.PSF))
                vc.ensure_eq('resolving power',R,C_KMS/(n.instrument_resolution*2*np.sqrt(2*np.log(2.)))); vc.ensure_eq('columns',xa,r.x_arr); vc.ensure_eq('rows',ya,r.y_arr); vc.ensure_eq('light',_,I)
                vc.ensure_eq('columns inside the slit',wh,np.arange(r.n_pix_x)+r.padX)
                vc.ensure_eq('effective resolution in velocity',r.inst_disp_vel,vc.arr('disp_wave',(r.nY,),sign='nonneg')/r.lam0_primary*C_KMS)
            vc.canary('zero second moment',r.RMS_sq_wide[0,0,0]==0)
    @E.h('centre pixel')
    def h(vc):
        r,eff,calls=cube(vc,False,False); r.calculate_kin_cube(); c=(0,0,0); s=Kin().sigma(r.r,r.zint)
        vc.assume(r.r[c]==0); vc.ensure_eq('no rotation at the centre',r.RMS_sq_wide[c],s[c]**2)
    for shift,res in((False,False),(True,False),(False,True)):
        @E.h('recalculation%s%s'%(', row offsets' if shift else '',', effective resolution' if res else ''))
        def h(vc,shift=shift,res=res):
            r,eff,calls=cube(vc,shift,res)
            with patched((kf,'calculate_effective_inst_res_lam_shift',eff)):
                r.calculate_kin_cube(); a=(r.RMS_sq_wide,r.sigsq_I_coll,r.I_coll); r.calculate_kin_cube()
            vc.ensure_eq('same second moment',r.RMS_sq_wide,a[0]); vc.ensure_eq('same weighted second moment',r.sigsq_I_coll,a[1]); vc.ensure_eq('same light',r.I_coll,a[2])
    @E.h('smearing and order of the calculation')
    def h(vc):
        r=rot(vc,None); P=object(); sh=(vc.int_('nY',1),vc.int_('nX',1)); r.instrument=NS(PSF=P); r.sigsq_I_coll=vc.arr('M',sh); r.I_coll=vc.arr('L',sh)
        def sm(a,p):
            assert p is P; return opaque('smear',a.shape,a)
        with patched((kf,'PSF_convolve_flat',sm)): r.convolve_kin_arr_PSF()
        vc.ensure_eq('second moment smeared',r.sigsq_I_conv_wide,sm(r.sigsq_I_coll,P)); vc.ensure_eq('light smeared',r.I_conv_wide,sm(r.I_coll,P))
        seq=[]; mk=lambda n: (lambda: seq.append(n)); r.sigma_aper=vc.real('s_ap','pos')
        for n in('update_kinProfile','calculate_kin_cube','convolve_kin_arr_PSF','trim_sum_aperture'): r.__dict__[n]=mk(n)
        r.kinProfile.update_theta(np.array([vc.real('V'),vc.real('r_t','pos'),vc.real('s0','pos')])); r.calc_aper_correction()
        vc.ensure('profile, cube, smearing, aperture sum',[x for i,x in enumerate(seq) if x not in seq[:i]]==['update_kinProfile','calculate_kin_cube','convolve_kin_arr_PSF','trim_sum_aperture'])
    return E.hs
