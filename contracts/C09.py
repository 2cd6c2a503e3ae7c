from dv.dsl import *
from contracts.common import *
META=dict(functions=['kin_model.KinModel2D.make_model','kin_model.KinModel2D.update_model','aper_model.AperModel2D.__init__','aper_model.AperModel2D.setup_calcs','aper_model.AperModel2D.setup_model_grid','aper_model.AperModel2D.update_model','aper_model.AperModel2D.do_model_calcs','aper_model.AperModel2D.check_do_upsample_wave','aper_model.AperModel2D.calculate_spectral_cube','aper_model.AperModel2D.convolve_spectral_cube_PSF','aper_model.AperModel2D.trim_downsample_spectral_cube','aper_model.AperModel2D.convolve_instrument_resolution','aper_model.AperModel2D.downsample_to_real_wave','kin_classes.KinProfile.update_theta','kin_functions.rebin'],
 assumptions=['one dispersion parameter; integer upsampling factor; uniform wavelength grid or at least two wavelengths with a positive mean step','no slit mask (the code refuses one)','callees under their own contracts: the spectral cube (C08), PSF and spectral smearing (C07), PSF stamp (C06), slit illumination offsets (C28) are functions of their argument values without side effects'])
class PSF:
    def __init__(s,F): s.PSF_FWHM=F; s._conv_stamp=None
    def generate_conv_stamp(s,x,y,**k): return opaque('stamp',('kY','kX'),x,y,s.PSF_FWHM)
    def set_conv_stamp(s,k): s._conv_stamp=k
OUT=('model','model_out','spectra_cube','spectra_cube_conv','kinProfile','theta')
def harnesses(E):
    am=E.mod('misfit.model.aper_model'); kf=E.mod('misfit.model.kin_functions'); kc=E.mod('misfit.model.kin_classes')
    def cube(I,V,s,w,z,rest,fr,nW,nZ,nY,nX,dz,dl,IM,WM,spec_type='wave'): return opaque('cube_'+spec_type,(nW,nY,nX),I,V,s,w,z,rest,fr,dz,dl,IM,WM)
    def conv(c,P): return opaque('smear',c.shape,c,P._conv_stamp,P.PSF_FWHM)
    def inst(m,w,d):
        if isinstance(d,Arr) and d.dims: raise ValueError('Depreciated')
        return opaque('spec_smear',m.shape,m,w,d)
    def illum(I_wide_3d=None,xarr=None,yarr=None,wh_in_slit_x=None,R=None,slit_width_R_meas=None,tot_slit_width=None,lam0=None,PSF=None):
        a=(I_wide_3d,xarr,yarr,wh_in_slit_x,R,slit_width_R_meas,tot_slit_width,lam0,PSF._conv_stamp,PSF.PSF_FWHM)
        return opaque('dpos',(yarr.shape[0],),*a),opaque('effres',(yarr.shape[0],),*a,sign='pos')
    def rot(x,y,z,p,i): return tuple(opaque('rot%d'%k,x.shape,x,y,z,p,i) for k in range(3))
    def sin_i(q,q0=None): return opaque('sin_i',(),q,q0)
    callees=lambda: patched((kf,'add_sigma_collapse_z',cube),(kf,'PSF_convolve',conv),(kf,'inst_convol_complete',inst),(kf,'calculate_effective_inst_res_lam_shift',illum),(kf,'transform_int_3d',rot),(kf,'sin_i',sin_i))
    class Vel:
        n_params=2
        def __init__(s): s.theta=None
        def vel(s,r,z): return opaque('velocity',r.shape,s.theta,r,z)
    class Disp:
        n_params=1
        def __init__(s): s.theta=None
        def sigma(s,r,z): return opaque('dispersion',r.shape,s.theta,r,z)
    class Int:
        def int(s,r,z): return opaque('light',r.shape,r,z,sign='nonneg')
    def kin(vc):
        k=object.__new__(kc.KinProfile); k.__dict__.update(theta=None,velProfile=Vel(),dispProfile=Disp()); return k
    def setup(vc,**kw):
        nYw=vc.int_('nYw',1); nW=vc.int_('nW',2); nl=vc.int_('nl',1)
        if kw.get('adaptive_upsample_wave',True):
            w0,dw=vc.real('wave0','pos'),vc.real('dwave','pos'); wave=w0+dw*np.arange(nW)
        else:
            wave=vc.arr('wave',(nW,),sign='pos'); CTX.assume(tob(wave[nW-1]>wave[0]))
        sp=NS(flux=vc.arr('flux',(nYw,nW)),flux_err=vc.arr('err',(nYw,nW)),wave=wave,restwave_arr=vc.arr('rest',(nl,),sign='pos'),flux_ratio_arr=vc.arr('ratio',(nl,)),m0=vc.real('m0'))
        g=galaxy(E,vc,spec2D=sp,generate_model=False)
        ins=instrument(E,vc); ins.PSF=PSF(vc.real('FWHM','pos')); ins.slit_mask=None; ins.instrument_resolution=vc.real('R_disp_pos','pos') if {'do_position_wave_shift','do_inst_res_conv_effective'}&set(kw) else vc.real('R_disp','nonneg')
        opt=dict(galaxy=g,instrument=ins,intensityProfile=Int(),nSubpixels=vc.int_('nSub',1),pad_factor=vc.real('pad','nonneg'),adaptive_upsample_factor=vc.int_('factor',2))
        opt.update(kw)
        return g,ins,sp,nYw,nW,opt
    def theta(vc,nm,tail=None):
        m,z=tail or (None,vc.real(nm+'_z','nonneg'))
        if m is None: m=vc.real(nm+'_m0shift')
        return np.array([vc.real(nm+'_%d'%k) for k in range(3)]+[m,z]),(m,z)
    def same_state(vc,A,B):
        """every attribute that survives an evaluation and may be read by the next one"""
        ka,kb=set(A.__dict__)-set(OUT),set(B.__dict__)-set(OUT)
        vc.ensure('same attributes',ka==kb)
        for k in sorted(ka&kb):
            a,b=A.__dict__[k],B.__dict__[k]
            if k in('xint','yint','zint','r','x_arr_full','y_arr_full','z_arr_full') or isinstance(a,(Arr,S)) or isinstance(b,(Arr,S)):
                if (a is None)!=(b is None): vc.ensure('%s kept'%k,False)
                elif a is not None: vc.ensure_eq('%s as in a fresh model'%k,a,b)
            else: vc.ensure('%s as in a fresh model'%k,a is b or a==b)
    def snap(sp): return {k:v.copy() if isinstance(v,Arr) else v for k,v in sp.__dict__.items()}
    def unchanged(vc,sp,s0):
        for k,v in s0.items():
            w=getattr(sp,k)
            if isinstance(v,(Arr,S)): vc.ensure_eq('observed %s unchanged'%k,w,v)
            else: vc.ensure('observed %s unchanged'%k,w is v)
    variants=[('adaptive wave',dict()),('adaptive velocity',dict(spec_type='velocity')),('fixed grid',dict(adaptive_upsample_wave=False)),('no floor, absolute dispersion',dict(sigma_floor=False,absvalsigma=True)),('position shift',dict(do_position_wave_shift=True,adaptive_upsample_wave=False)),('effective resolution',dict(do_inst_res_conv_effective=True,adaptive_upsample_wave=False))]
    for nm,kw in variants:
      for grid in ('same','changed redshift','changed m0 shift'):
        @E.h(nm+', '+grid)
        def h(vc,kw=kw,grid=grid):
            with callees(),interned():
                g,ins,sp,nYw,nW,opt=setup(vc,**kw); s0=snap(sp)
                t0,(m,z)=theta(vc,'theta0'); t1,(m1,z1)=theta(vc,'theta1',dict(same=(m,z)).get(grid,(None,z) if 'm0' in grid else None))
                if 'redshift' in grid: vc.assume(z!=z1)
                if 'm0' in grid: vc.assume(m!=m1)
                A=am.AperModel2D(theta=t0,kinProfile=kin(vc),**opt)
                ns=A.nSubpixels
                # an arbitrary earlier history: whatever results and profile state it left behind
                A.model=vc.arr('old_model',(nYw,nW)); A.model_out=vc.arr('old_out',(nW,nYw)); A.spectra_cube=None; A.spectra_cube_conv=None
                A.kinProfile.dispProfile.theta=vc.arr('old_disp',(1,)); A.kinProfile.velProfile.theta=vc.arr('old_vel',(2,)); A.kinProfile.theta=None
                c1=t1.copy()
                A.update_model(theta=t1)
                B=am.AperModel2D(theta=c1.copy(),kinProfile=kin(vc),**opt)
                vc.ensure('shape of the data',both(A.model.shape[0]==nYw,A.model.shape[1]==nW))
                vc.ensure_eq('same spectrum as a fresh model',A.model,B.model)
                same_state(vc,A,B)
                unchanged(vc,sp,s0); vc.ensure_eq('parameter vector unchanged',t1,c1); vc.ensure('subsampling unchanged',A.nSubpixels is ns)
                vc.canary('constant model',A.model[0,0]==0)
    km=E.mod('misfit.model.kin_model')
    for hist in('first','again','after others'):
        @E.h('through the kinematic model, %s evaluation'%hist)
        def h(vc,hist=hist):
            # the two-dimensional model stands for its contract: a function of what it was built with and of the vector it was last given
            nY,nW=vc.int_('nY',1),vc.int_('nW',1); made=[]
            class Aper:
                def __init__(s,**kw): s.kw=kw; s.galaxy=kw.get('galaxy'); made.append(s); s.run(kw['theta'])
                def update_model(s,theta=None,**kw): s.kw.update(kw); s.run(theta)
                def run(s,th): s.theta=th; s.at=th.copy(); s.model=opaque('spectrum',(nY,nW),th)
            names=('nSubpixels','pad_factor','do_position_wave_shift','do_inst_res_conv_effective','absvalsigma','adaptive_upsample_wave','adaptive_upsample_factor','sigma_floor')
            o=km.KinModel2DOptions(); vals={k:NS() for k in names}; o.setAttr(**vals); st=NS(); P=NS(update_theta=lambda theta: None); I=NS(update_values=lambda **k: None); g=NS(); ins=NS()
            n=vc.int_('n',1); m=object.__new__(km.KinModel2D); th=vc.arr('theta',(n,)); va=np.ones((n,))==1
            m.__dict__.update(theta=th.copy(),theta_vary=va,theta_names=None,theta_names_nice=None,theta_init=None,kinProfile=P,intensityProfile=I,spec_type=st,no_scale=True,model=None,bestfit=None,aperModel=None,debug=False,kinModelOptions=o,do_position_wave_shift=NS(),do_inst_res_conv_effective=NS())
            m.setAttr(); t1=vc.arr('t1',(n,)); t2=vc.arr('t2',(n,)); want=t1
            with patched((km,'AperModel2D',Aper)),interned():
                m.make_model(galaxy=g,instrument=ins,theta_fitting=t1.copy())
                if hist=='again': m.update_model(theta_fitting=t1.copy())
                if hist=='after others': m.update_model(theta_fitting=t2.copy()); m.make_model(galaxy=g,instrument=ins,theta_fitting=t2.copy()); m.update_model(theta_fitting=t1.copy())
                A=m.aperModel
                vc.ensure('evaluated at the vector given',A is made[-1]); vc.ensure_eq('evaluated at the vector given: values',A.at,want)
                vc.ensure_eq('its spectrum',m.model,A.model); vc.ensure('a copy',m.model is not A.model)
            for a in made:
                vc.ensure('options as set',all(a.kw.get(k) is vals[k] for k in names)); vc.ensure('this galaxy, instrument and profiles',a.kw.get('galaxy') is g and a.kw.get('instrument') is ins and a.kw.get('kinProfile') is P and a.kw.get('intensityProfile') is I and a.kw.get('spec_type') is st)
            vc.canary('blank',m.model[0,0]==0)
    return E.hs
