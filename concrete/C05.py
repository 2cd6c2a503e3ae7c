import numpy as np
from types import SimpleNamespace as NS
from misfit.galaxy import Galaxy
from misfit.instrument import Spectrograph
from misfit.model import aper_model as am, kin_classes as kc
MAXCASES=1500
def bare(cls,**kw):
    o=object.__new__(cls); o.__dict__.update(kw); return o
def uniform(t,nm,a,n,dl,off): t.eq('%s uniformly spaced and centred'%nm,a,(np.arange(n)-(n-1)/2.)*dl-off,scale=n*dl)
def aper(re,q,d,F):
    rc=np.sqrt(re**2+F**2/4); mc=np.sqrt((q*re)**2+F**2/4); return 4*max(rc*abs(np.cos(np.radians(d))),mc)
def cubes(t,o,g,I):
    sh=(o.nZ,o.nY,o.nX); x,y,z=[np.broadcast_to(a,sh) for a in(o.x_arr[None,None,:],o.y_arr[None,:,None],o.z_arr[:,None,None])]
    t.eq('x cube',o.x_arr_full,x); t.eq('y cube',o.y_arr_full,y); t.eq('z cube',o.z_arr_full,z)
    si=1. if g.q<g.q0 else np.sqrt((1-g.q**2)/(1-g.q0**2)); t.eq('inclination',o.sini,si); ci=np.sqrt(max(1-si*si,0))
    a=np.radians(g.delt_PA); xp=x*np.cos(a)+y*np.sin(a); yp=y*np.cos(a)-x*np.sin(a)
    xi,zi=xp*ci+z*si,z*ci-xp*si
    sc=max(np.abs(x).max(),np.abs(y).max(),np.abs(z).max(),1e-300)
    t.eq('galaxy-frame x',o.xint,xi,rtol=1e-7,scale=sc); t.eq('galaxy-frame y',o.yint,yp,rtol=1e-7,scale=sc); t.eq('galaxy-frame z',o.zint,zi,rtol=1e-7,scale=sc)
    t.eq('in-plane radius',o.r,np.hypot(xi,yp),rtol=1e-7,scale=sc); t.eq('light',o.I_wide,I.int(o.r,o.zint)); t.ok('cube shape',o.I_wide.shape==sh==o.r.shape)
def run(t):
    r=t.rng
    g=Galaxy(n=float(r.uniform(.5,4)),re_arcsec=float(r.choice([r.uniform(.02,.15),r.uniform(.1,1)])),q=float(r.uniform(.05,1)),q0=.19,re_mass_arcsec=.4,q_mass=.5,delt_PA=float(r.choice([0.,90.,-90.,r.uniform(-90,90)])),z=float(r.uniform(0,3)))
    F=float(r.uniform(.05,.9)); sw=float(r.choice([.7,1.,r.uniform(.3,1.5)])); ps=float(r.choice([.1,.1799,r.uniform(.1,.4)]))
    ins=Spectrograph(PSF_type='Gaussian',PSF_FWHM=F); ins.pixscale=ps; ins.slit_width=sw; ins.instrument_resolution=39.
    xc,yc=[float(v) for v in r.choice([0.,.2,-.35],2)]
    I=kc.IntensityProfileFiducial(g)
    kind=int(r.integers(3)); t.input(kind=['disp','rot','2D'][kind],re=g.re_arcsec,q=g.q,delt_PA=g.delt_PA,PSF_FWHM=F,slit_width=sw,pixscale=ps,xc=xc,yc=yc)
    if kind==0:
        n=int(r.integers(1,30)); W=None if r.random()<.4 else float(r.uniform(.2,3)); re=g.re_arcsec; q=float(r.choice([1.,g.q])); t.input(nPixels=n,extraction_width=W,q_used=q)
        o=bare(am.AperModel1DDispBase,nPixels=n,extraction_width=W,instrument=ins,xc=xc,yc=yc); o.setup_model_grid(re_arcsec=np.float64(re),q=q,delt_PA=g.delt_PA)
        want=W if W else aper(re,q,g.delt_PA,F); m=2*n if re<=.1 else n
        t.ok('counts',(o.nX,o.nY,o.padX,o.padY)==(4*m+3,4*m+3,m+1,m+1),(o.nX,o.nY,o.padX,o.padY))
        t.eq('aperture',o.extraction_width,want); t.eq('slit tiled',(2*m+1)*o.delt_x,sw); t.eq('aperture tiled',(2*m+1)*o.delt_y,want)
        uniform(t,'x',o.x_arr,o.nX,o.delt_x,xc); uniform(t,'y',o.y_arr,o.nY,o.delt_y,yc)
        t.eq('x grid',o.x_arr_full,np.tile(o.x_arr,(o.nY,1))); t.eq('y grid',o.y_arr_full,np.tile(o.y_arr[:,None],(1,o.nX)))
    elif kind==1:
        n=int(r.integers(1,16)); W=None if r.random()<.4 else float(r.choice([sw,r.uniform(.3,3)])); pf=float(r.choice([.5,1.,0.])); t.input(nPixels=n,extraction_width=W,pad_factor=pf)
        g.spec2D=NS(restwave_arr=np.array([6564.,6549.]))
        o=bare(am.AperModel1DRot,galaxy=g,instrument=ins,nPixels=n,extraction_width=W,pad_factor=pf,xc=xc,yc=yc,intensityProfile=I); o.setup_model_grid()
        want=W if W else aper(g.re_arcsec,g.q,g.delt_PA,F); t.eq('aperture',o.y_aper,want)
        common(t,o,ins,pf); t.eq('aperture tiled',o.delt_y*n,want); t.ok('rows',o.n_pix_y==n)
        uniform(t,'x',o.x_arr,o.nX,o.delt_x,xc); uniform(t,'y',o.y_arr,o.nY,o.delt_y,yc); uniform(t,'z',o.z_arr,o.nZ,o.delt_z,0.); cubes(t,o,g,I)
        t.eq('primary wavelength',o.lam0_primary,6564.*(1+g.z))
    else:
        ny,nw,ns=int(r.integers(1,8)),int(r.integers(2,5)),int(r.integers(1,4)); pf=float(r.choice([.5,1.])); th=np.array([150.,.2,60.,float(r.choice([0.,r.uniform(-2,2)])),float(r.uniform(0,3))]); gen=bool(r.random()<.5); st=str(r.choice(['wave','velocity']))
        if r.random()<.2: ins.slit_width=sw=ny*ps
        wave=np.sort(r.uniform(10000,12000,nw)); m0=float(r.uniform(0,ny)); g.generate_model=gen
        g.spec2D=NS(restwave_arr=np.array([6564.,6549.]),wave=wave,m0=m0,shape=(ny,nw) if gen else None,flux=None if gen else np.zeros((ny,nw)))
        t.input(nRows=ny,nWave=nw,nSubpixels=ns,pad_factor=pf,theta=th,generate_model=gen,spec_type=st,m0=m0)
        o=bare(am.AperModel2D,galaxy=g,instrument=ins,nSubpixels=ns,pad_factor=pf,xc=xc,yc=0.,intensityProfile=I,theta=th,spec_type=st); o.setup_model_grid()
        dy=ps/ns; t.eq('subpixel size',o.delt_y,dy); t.ok('rows',o.n_pix_y==ny*ns); common(t,o,ins,pf)
        uniform(t,'x',o.x_arr,o.nX,o.delt_x,xc); uniform(t,'z',o.z_arr,o.nZ,o.delt_z,0.)
        t.eq('y uniform, centred on the object row',o.y_arr,(np.arange(o.nY)-o.padY-(ns-1)/2.)*dy-(m0+th[-2])*ps,scale=o.nY*dy)
        t.eq('subpixels of a row average to the row position',o.y_arr[o.padY:o.nY-o.padY].reshape(ny,ns).mean(axis=1),(np.arange(ny)-m0-th[-2])*ps,scale=ny*ps)
        cubes(t,o,g,I); sh=(nw,o.nZ,o.nY,o.nX)
        t.eq('tiled light',o.I_matrix,np.broadcast_to(o.I_wide,sh)); t.eq('tiled wavelengths',o.wave_ref_matrix,np.broadcast_to(wave[:,None,None,None],sh)); t.same('wavelength grid',o.wave_arr,wave)
        t.eq('mean step',o.delt_wave,np.mean(np.diff(wave))); t.eq('primary wavelength',o.lam0_primary,6564.*(1+th[-1]) if st=='wave' else 1.)
def common(t,o,ins,pf):
    t.eq('slit tiled',o.n_pix_x*o.delt_x,ins.slit_width); t.ok('cross pixels no larger than slit pixels',o.delt_x<=o.delt_y*(1+1e-9)); t.ok('depth pixels',o.n_pix_z==o.n_pix_y and o.delt_z==o.delt_y)
    t.ok('padding',(o.nX,o.nY,o.nZ)==(o.n_pix_x+2*o.padX,o.n_pix_y+2*o.padY,o.n_pix_z),(o.nX,o.nY,o.nZ))
    for p,d in((o.padX,o.delt_x),(o.padY,o.delt_y)): t.ok('padding is the PSF padding to the nearest pixel',p>=0 and abs(p-ins.PSF.PSF_FWHM*pf/d)<=.5+1e-9,p)
