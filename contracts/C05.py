from dv.dsl import *
from contracts.common import *
META=dict(functions=['aper_model.AperModel1DDispBase.setup_model_grid','aper_model.AperModel1DRot.setup_model_grid','aper_model.AperModel2D.setup_model_grid'],
 assumptions=['slit width, aperture, pixel scale, PSF FWHM, radii positive'])
def harnesses(E):
    am=E.mod('misfit.model.aper_model')
    def bare(cls,**kw):
        """the real class, constructed without running the model"""
        o=object.__new__(cls); o.__dict__.update(kw); return o
    def rot(vc,x,y,z,d,sini,q,q0):
        # cos i from sin i, as the property C01 states them
        a=d*pi/180; ca,sa=np.cos(a),np.sin(a); ci=np.sqrt(1-sini*sini)
        xp=x*ca+y*sa; yp=y*ca-x*sa
        return xp*ci+z*sini, yp, z*ci-xp*sini
    def default_aper(vc,re,q,d,F):
        rc=np.sqrt(re**2+F**2/4); mc=np.sqrt((q*re)**2+F**2/4)
        yp=rc*abs(np.cos(d*pi/180))
        return 4*ite_(yp<mc,mc,yp)
    def uniform(vc,nm,arr,n,dl,off):
        """n samples spaced dl, centred on -off"""
        vc.ensure_eq('%s uniformly spaced and centred'%nm,arr,(np.arange(n)-(n-1)/K('2.'))*dl-off,True)
    for misalign in (False,True):
        @E.h('dispersion aperture'+(', default aperture' if misalign else ''))
        def h(vc,misalign=misalign):
            re,q,d=vc.real('re','pos'),vc.real('q','pos'),vc.real('dPA')
            n=vc.int_('nPixels',1); xc,yc=vc.real('xc'),vc.real('yc')
            ins=instrument(E,vc); W=None if misalign else vc.real('extraction_width','pos')
            o=bare(am.AperModel1DDispBase,nPixels=n,extraction_width=W,instrument=ins,xc=xc,yc=yc)
            o.setup_model_grid(re_arcsec=re,q=q,delt_PA=d)
            m=o.nPixels
            vc.ensure('pixel number, doubled for small objects',m==ite_(re<=K('0.1'),2*n,n))
            want=W if W is not None else default_aper(vc,re,q,d,ins.PSF.PSF_FWHM)
            vc.ensure_eq('aperture',o.extraction_width,want,True)
            sl=ins.slit_width
            vc.ensure('unpadded pixels tile the slit width',both(finite(o.delt_x),(o.nX-2*o.padX)*o.delt_x==sl))
            vc.ensure('unpadded pixels tile the aperture',both(finite(o.delt_y),(o.nY-2*o.padY)*o.delt_y==want))
            vc.ensure('counts',both(o.nX==4*m+3,o.nY==4*m+3,o.padX==m+1,o.padY==m+1))
            uniform(vc,'x',o.x_arr,o.nX,o.delt_x,xc); uniform(vc,'y',o.y_arr,o.nY,o.delt_y,yc)
            sh=(o.nY,o.nX); vc.ensure_eq('x grid',o.x_arr_full,np.zeros(sh)+o.x_arr[None,:]); vc.ensure_eq('y grid',o.y_arr_full,np.zeros(sh)+o.y_arr[:,None])
            vc.canary('no padding',o.padX==0)
    def cube_arrays(vc,o,g,I):
        sh=(o.nZ,o.nY,o.nX); Z=np.zeros(sh)
        vc.ensure_eq('x cube',o.x_arr_full,Z+o.x_arr[None,None,:]); vc.ensure_eq('y cube',o.y_arr_full,Z+o.y_arr[None,:,None]); vc.ensure_eq('z cube',o.z_arr_full,Z+o.z_arr[:,None,None])
        si=ite_(g.q<=g.q0,K('1.'),np.sqrt((1-g.q**2)/(1-g.q0**2)))
        vc.ensure('inclination',o.sini==si)
        X,Y,Zg=o.x_arr_full,o.y_arr_full,o.z_arr_full
        xi,yi,zi=rot(vc,X,Y,Zg,g.delt_PA,o.sini,g.q,g.q0)
        vc.ensure_eq('galaxy-frame x',o.xint,xi,True); vc.ensure_eq('galaxy-frame y',o.yint,yi,True); vc.ensure_eq('galaxy-frame z',o.zint,zi,True)
        vc.ensure_eq('in-plane radius',o.r,np.sqrt(o.xint**2+o.yint**2),True)
        vc.ensure_eq('light at each cell',o.I_wide,I.int(o.r,o.zint))
    def pads(vc,o,F,pf):
        for p,dl,nm in((o.padX,o.delt_x,'x'),(o.padY,o.delt_y,'y')):
            vc.ensure('padding in %s is the PSF padding to the nearest pixel'%nm,both(p>=0,abs(p-F*pf/dl)<=K('0.5')))
    for dflt in (False,True):
        @E.h('rotation aperture'+(', default aperture' if dflt else ''))
        def h(vc,dflt=dflt):
            g=galaxy(E,vc); g.spec2D=NS(restwave_arr=np.array([vc.real('rest0','pos'),vc.real('rest1','pos')]))
            ins=instrument(E,vc); n=vc.int_('nPixels',1); I=AnyIntensity(); pf=vc.real('pad_factor','nonneg')
            W=None if dflt else vc.real('extraction_width','pos')
            o=bare(am.AperModel1DRot,galaxy=g,instrument=ins,nPixels=n,extraction_width=W,pad_factor=pf,xc=vc.real('xc'),yc=vc.real('yc'),intensityProfile=I)
            o.setup_model_grid()
            want=W if W is not None else default_aper(vc,g.re_arcsec,g.q,g.delt_PA,ins.PSF.PSF_FWHM)
            vc.ensure_eq('aperture',o.y_aper,want,True)
            if dflt: return
            vc.ensure('unpadded pixels tile the aperture',both(finite(o.delt_y),o.n_pix_y==n,o.n_pix_y*o.delt_y==want))
            vc.ensure('unpadded pixels tile the slit width',both(finite(o.delt_x),o.n_pix_x>=1,o.n_pix_x*o.delt_x==ins.slit_width,o.delt_x<=o.delt_y))
            vc.ensure('depth pixels match',both(o.n_pix_z==o.n_pix_y,o.delt_z==o.delt_y))
            vc.ensure('same padding on both sides',both(o.nX==o.n_pix_x+2*o.padX,o.nY==o.n_pix_y+2*o.padY,o.nZ==o.n_pix_z))
            pads(vc,o,ins.PSF.PSF_FWHM,pf)
            uniform(vc,'x',o.x_arr,o.nX,o.delt_x,o.xc); uniform(vc,'y',o.y_arr,o.nY,o.delt_y,o.yc); uniform(vc,'z',o.z_arr,o.nZ,o.delt_z,0)
            cube_arrays(vc,o,g,I)
            vc.ensure('primary wavelength',o.lam0_primary==g.spec2D.restwave_arr[0]*(1+g.z))
    for gen in (False,True):
        for st in ('wave','velocity'):
            if gen and st=='velocity': continue
            @E.h('2D model grid, %s, %s'%('model-only galaxy' if gen else 'observed galaxy',st))
            def h(vc,gen=gen,st=st):
                g=galaxy(E,vc); g.generate_model=gen
                nw,ny=vc.int_('nWave',2),vc.int_('nRows',1)
                wave=vc.arr('wave',(nw,))
                g.spec2D=NS(restwave_arr=np.array([vc.real('rest0','pos'),vc.real('rest1','pos')]),wave=wave,m0=vc.real('m0'),shape=None,flux=None)
                if gen: g.spec2D.shape=(ny,nw)
                else: g.spec2D.flux=vc.arr('flux',(ny,nw))
                ins=instrument(E,vc); ns=vc.int_('nSubpixels',1); I=AnyIntensity(); pf=vc.real('pad_factor','nonneg')
                th=vc.arr('theta',(vc.int_('nTheta',5),))
                o=bare(am.AperModel2D,galaxy=g,instrument=ins,nSubpixels=ns,pad_factor=pf,xc=vc.real('xc'),yc=K('0.'),intensityProfile=I,theta=th,spec_type=st)
                o.setup_model_grid()
                dy=ins.pixscale/ns
                vc.ensure('subpixel size',both(o.delt_y==dy,o.n_pix_y==ny*ns,o.n_pix_y_whole==ny))
                vc.ensure('unpadded pixels tile the slit width',both(finite(o.delt_x),o.n_pix_x>=1,o.n_pix_x*o.delt_x==ins.slit_width,o.delt_x<=o.delt_y))
                vc.ensure('depth pixels match',both(o.n_pix_z==o.n_pix_y,o.delt_z==o.delt_y))
                vc.ensure('same padding on both sides',both(o.nX==o.n_pix_x+2*o.padX,o.nY==o.n_pix_y+2*o.padY,o.nZ==o.n_pix_z))
                pads(vc,o,ins.PSF.PSF_FWHM,pf)
                uniform(vc,'x',o.x_arr,o.nX,o.delt_x,o.xc); uniform(vc,'z',o.z_arr,o.nZ,o.delt_z,0)
                row0=g.spec2D.m0+th[-2]
                vc.ensure_eq('y uniform, centred on the object row',o.y_arr,(np.arange(o.nY)-o.padY-(ns-1)/K('2.'))*dy-row0*ins.pixscale,True)
                def avg(r): return np.sum(o.y_arr[o.padY+r*ns:o.padY+(r+1)*ns])/ns==(r-row0)*ins.pixscale
                vc.forall('subpixels of a row average to the row position',(ny,),avg)
                cube_arrays(vc,o,g,I)
                Z4=np.zeros((nw,o.nZ,o.nY,o.nX))
                vc.ensure_eq('tiled light',o.I_matrix,Z4+o.I_wide[None,:,:,:]); vc.ensure_eq('tiled wavelengths',o.wave_ref_matrix,Z4+wave[:,None,None,None])
                vc.ensure_eq('wavelength grid',o.wave_arr,wave); vc.ensure('spectral size and mean step',both(o.nWave==nw,o.delt_wave==np.average(np.diff(wave))))
                vc.ensure('primary wavelength',o.lam0_primary==(g.spec2D.restwave_arr[0]*(1+th[-1]) if st=='wave' else 1))
                vc.canary('no subpixels',ns==1)
    return E.hs
