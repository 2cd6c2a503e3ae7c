import numpy as np
from types import SimpleNamespace as NS
from misfit.galaxy import Galaxy
from misfit.instrument import Spectrograph
from misfit.model import aper_model as am, kin_classes as kc
MAXCASES=400
def run(t):
    r=t.rng
    g=Galaxy(n=float(r.uniform(.5,4)),re_arcsec=float(r.uniform(.2,1)),q=float(r.uniform(.2,.95)),q0=.19,re_mass_arcsec=.4,q_mass=.5,delt_PA=float(r.choice([0.,90.,r.uniform(-90,90)])),z=1.)
    g.spec2D=NS(restwave_arr=np.array([6564.,6549.]))
    ins=Spectrograph(PSF_type='Gaussian',PSF_FWHM=float(r.uniform(.3,.9))); ins.pixscale=.18; ins.slit_width=.7; ins.instrument_resolution=39.
    def theta():
        k=r.integers(3); return [None if k==0 else 0. if k==1 else float(r.choice([1.,r.uniform(.05,9),-r.uniform(.05,9)])),float(r.choice([r.uniform(10,400),-r.uniform(10,400)])),float(r.uniform(.05,1.5))]
    th,th2=theta(),theta(); R=None if r.random()<.5 else float(r.uniform(.1,2)); sh=bool(r.random()<.15); res=bool(r.random()<.1); n=int(r.choice([3,4,5,7])) if not(sh or res) else 7; W=float(r.uniform(.8,3)) if not(sh or res) else float(r.uniform(.8,1.5))
    t.input(theta=th,then=th2,R=R,position_shift=sh,effective_resolution=res,nPixels=n,extraction_width=W,q=g.q,delt_PA=g.delt_PA)
    mk=lambda th: am.AperModel1DRot(galaxy=g,instrument=ins,nPixels=n,extraction_width=W,theta=list(th),kinProfile=kc.KinProfileFiducial(),intensityProfile=kc.IntensityProfileFiducial(g),disp_aper_radius_arcsec=R,do_position_wave_shift=sh,do_inst_res_conv_effective=res)
    def law(o,th,tag):
        q,V,rt=th; Ra=R or g.re_arcsec; v=o.kinProfile.vel(Ra,0.); s=o.kinProfile.sigma(Ra,0.)
        if q is None: t.eq('pure disk'+tag,s,0.,atol=0); t.eq('rotation'+tag,v,2/np.pi*V*np.arctan(Ra/rt))
        elif q==0: t.eq('no rotation'+tag,v,0.,atol=0); t.eq('velocity as dispersion'+tag,s,V)
        else: t.eq('rotation'+tag,v,2/np.pi*V*np.arctan(Ra/rt)); t.eq('rotation over dispersion'+tag,v/s,q)
        rad=np.hypot(o.xint,o.yint); Va,sg=(V,0.) if q is None else (0.,V) if q==0 else (V,v/q)
        c=np.where(rad==0,0.,o.yint/np.where(rad==0,1.,rad)); los=2/np.pi*Va*np.arctan(rad/rt)*c*o.sini
        if sh: los=los+np.asarray(o.delta_position_velspace)[None,:,None]
        M=los**2+sg**2; t.eq('second moment'+tag,o.RMS_sq_wide,M,scale=max(1.,np.abs(M).max())); t.eq('summed through the disk'+tag,o.sigsq_I_coll,(M*o.I_wide).sum(0)*o.delt_z,scale=np.abs(M*o.I_wide).sum(0).max()*o.delt_z)
        t.eq('light'+tag,o.I_coll,o.I_wide.sum(0)*o.delt_z)
    o=mk(th); law(o,th,''); x=o.xint.copy()
    o.theta=list(th2); o.calc_aper_correction(); law(o,th2,', after an update'); t.same('grid untouched',x,o.xint)
    f=mk(th2); t.eq('same as a fresh model',o.disp_aper_ratio,f.disp_aper_ratio,rtol=1e-7)
