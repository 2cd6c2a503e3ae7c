from dv.dsl import *
from contracts.common import *
META=dict(functions=['mock.generate_basic.generate_mock_basis','mock.generate_basic.generate_mock_slit_obs','kin_model.KinModel2D.__init__','kin_model.KinModel2D.make_model','kin_model.KinModel2D.update_parameters','kin_model.KinModel2D.update_profiles','instrument.Spectrograph.__init__','galaxy.Galaxy.__init__','galaxy.Galaxy.set_spectrum_2D','galaxy.ObsSpectrum2D.__init__','galaxy.ObsSpectrum2D.initialize_lineset','kin_classes.Theta2DSettingsFiducial.__init__','aper_model.AperModel2D (set-up and calculation, with its callees by contract)','kin_functions.rebin'],
 assumptions=['pixel scale, slit length and width, PSF width, sizes positive; minimum number of rows at least one','line names, rest wavelengths and ratios by the contract of the table look-ups (C17)','callees of the slit model under their own contracts: spectral cube (C08), smearing (C07), PSF stamp (C06), light (C04) and velocity (C03) profiles'],
 trusted=[])
class Calls(Exception): pass
def harnesses(E):
    mk=E.mod('misfit.mock.generate_basic'); km=E.mod('misfit.model.kin_model'); kc=E.mod('misfit.model.kin_classes'); am=E.mod('misfit.model.aper_model'); kf=E.mod('misfit.model.kin_functions'); io=E.mod('misfit.general.io'); im=E.mod('misfit.instrument')
    def request(vc,st='velocity',psf='Gaussian',**kw):
        p=dict(z=vc.real('z','nonneg'),ID=7,Va=vc.real('Va'),rt=vc.real('rt','pos'),sigma0=vc.real('sigma0'),yshift=vc.real('yshift'),n=vc.real('n','pos'),re_arcsec=vc.real('re','pos'),q=vc.real('q','pos'),q0=vc.real('q0','pos'),delt_PA=vc.real('delt_PA'),wave=vc.arr('wave',(vc.int_('nwave',2),)),instrument_name='spec',pixscale=vc.real('pixscale','pos'),instrument_resolution=vc.real('resolution','nonneg'),slit_width=vc.real('slit_width','pos'),slit_length=vc.real('slit_length','pos'),nymin=vc.int_('nymin',1),PSF_FWHM=vc.real('FWHM','pos'),PSF_type=psf,band='K',line_primary='L',linegroup_name='G',spec_type=st,nSubpixels=vc.int_('sub',1),pad_factor=vc.real('pad','nonneg'))
        p.update(kw); return p
    tables=lambda vc: patched((io,'read_line_names',lambda fn,name=None: [name+'1',name+'2']),(io,'read_restwave',lambda fn,linename=None: vc.real('rest_'+linename,'pos')),(io,'read_line_ratio',lambda fn,linename=None: vc.real('ratio_'+linename,'pos')))
    def rows(vc,p): L=ite_(p['slit_length']<p['nymin']*p['pixscale'],p['nymin']*p['pixscale'],p['slit_length']); return L,np.ceil(L/p['pixscale'])
    def check_basis(vc,p,kin,g,ins,own=None):
        for a,b in(('z','z'),('n','n'),('re_arcsec','re_arcsec'),('q','q'),('q0','q0'),('delt_PA','delt_PA')): vc.ensure('galaxy: requested '+a,getattr(g,a)==p[b])
        vc.ensure('galaxy: requested dither flag',g.dither is p.get('dither',False)); vc.ensure('galaxy is marked as a model',g.generate_model is True); vc.ensure('galaxy name',g.ID==7)
        L,n=rows(vc,p); s=g.spec2D
        for a in('pixscale','slit_width','instrument_resolution'): vc.ensure('instrument: requested '+a,getattr(ins,a)==p[a])
        vc.ensure('instrument: name and band',ins.instrument_name=='spec' and ins.band=='K'); vc.ensure('instrument: slit length, never below the minimum',ins.slit_length==L)
        vc.ensure('instrument: requested PSF width',ins.PSF.PSF_FWHM==p['PSF_FWHM']); vc.ensure('instrument: requested PSF type',isinstance(ins.PSF,im.PSFMoffat if p['PSF_type']=='Moffat' else im.PSFGaussian))
        vc.ensure('instrument: no dithered images',ins.PSF.yspace_dither_arc is None if hasattr(ins.PSF,'yspace_dither_arc') else True)
        vc.ensure('rows: slit length over pixel scale rounded up',s.shape[0]==n); vc.ensure('rows: at least the minimum',s.shape[0]>=p['nymin']); vc.ensure('columns: one per wavelength',s.shape[1]==p['wave'].shape[0])
        vc.ensure_eq('wavelengths as requested',s.wave,p['wave']); vc.ensure('galaxy at the centre row',s.m0==(n-1)/2); vc.ensure('expected row at the centre',s.ypos==(n-1)/2)
        if p['spec_type']=='wave': vc.ensure('lines of the requested group',list(s.linenames_arr)==['G1','G2'] and len(s.restwave_arr)==2 and len(s.flux_ratio_arr)==2); [vc.ensure('rest wavelengths and ratios of these lines',both(s.restwave_arr[k]==vc.real('rest_G%d'%(k+1),'pos'),s.flux_ratio_arr[k]==vc.real('ratio_G%d'%(k+1),'pos'))) for k in range(2)]
        th=kin.theta; want=('Va','rt','sigma0','yshift','z')
        vc.ensure('five parameters',len(th)==5)
        for k,a in enumerate(want): vc.ensure('parameter %d is %s'%(k,a),th[k]==p[a]); vc.ensure('every parameter fixed',not kin.theta_vary[k])
        vc.ensure('no free parameter',kin.n_free_param==0); vc.ensure('no scaling to data',kin.no_scale is True); vc.ensure('spectrum type as requested',kin.spec_type==p['spec_type'])
        o=kin.kinModelOptions; vc.ensure('options as requested',both(o.nSubpixels==p['nSubpixels'],o.pad_factor==p['pad_factor'])); vc.ensure('switches as requested',o.do_position_wave_shift==p.get('do_position_wave_shift',False) and o.do_inst_res_conv_effective==p.get('do_inst_res_conv_effective',False))
        if own is None:
            r,h=vc.real('r','pos'),vc.real('h')
            vc.ensure('requested rotation',kin.kinProfile.vel(r,h)==2/pi*p['Va']*np.arctan(r/p['rt'])); vc.ensure('requested dispersion',kin.kinProfile.sigma(r,h)==p['sigma0'])
            b=2*p['n']-K('0.324'); vc.ensure('requested light profile',kin.intensityProfile.int(r,h)==np.exp(-b*(np.power(r/p['re_arcsec'],1/p['n'])-1))*np.exp(-abs(h)/(p['q0']*p['re_arcsec'])))
        else: vc.ensure('profiles passed in are used',kin.kinProfile is own[0] and kin.intensityProfile is own[1])
        vc.canary('one row',s.shape[0]==1)
    for st in('wave','velocity'):
        for psf in('Gaussian','Moffat'):
            for sw in(dict(),dict(dither=True),dict(do_position_wave_shift=True),dict(do_inst_res_conv_effective=True)):
                @E.h('basis, %s, %s PSF%s'%(st,psf,''.join(', '+k for k in sw)))
                def h(vc,st=st,psf=psf,sw=sw):
                    with tables(vc): p=request(vc,st,psf,**sw); w0=p['wave'].copy(); k,g,i=mk.generate_mock_basis(**p); check_basis(vc,p,k,g,i); vc.ensure_eq('wavelengths passed in kept',p['wave'],w0)
    @E.h('basis, own profiles')
    def h(vc):
        with tables(vc):
            gal=galaxy(E,vc); a,b=kc.KinProfileFiducial(),kc.IntensityProfileSersicExpScale(gal); p=request(vc,kinProfile=a,intensityProfile=b); k,g,i=mk.generate_mock_basis(**p); check_basis(vc,p,k,g,i,(a,b))
            r,h=vc.real('r','pos'),vc.real('h'); vc.ensure('own rotation profile gets the requested values',k.kinProfile.vel(r,h)==2/pi*p['Va']*np.arctan(r/p['rt']))
            c=2*p['n']-K('0.324'); vc.ensure('own light profile gets the requested structure',k.intensityProfile.int(r,h)==np.exp(-c*(np.power(r/p['re_arcsec'],1/p['n'])-1))*np.exp(-abs(h)/(p['q0']*(p['re_arcsec']/K('1.676')))))
    # the slit observation: what the slit model is given, and that its image is returned as it is
    class Slit:
        log=[]
        def __init__(s,**kw): s.__dict__.update(kw); Slit.log.append(kw); sh=kw['galaxy'].spec2D.shape; s.model=opaque('image',(sh[0],sh[1]),kw['theta'])
    for st in('wave','velocity'):
        @E.h('slit observation, inputs of the slit model, '+st)
        def h(vc,st=st):
            Slit.log.clear(); p=request(vc,st)
            with tables(vc),patched((km,'AperModel2D',Slit)): img=mk.generate_mock_slit_obs(**p)
            vc.ensure('one slit model',len(Slit.log)==1); a=Slit.log[0]
            L,n=rows(vc,p); vc.ensure('shape',both(img.shape[0]==n,img.shape[1]==p['wave'].shape[0])); vc.ensure_eq('image not rescaled',img,opaque('image',(a['galaxy'].spec2D.shape[0],a['galaxy'].spec2D.shape[1]),np.array([p[x] for x in('Va','rt','sigma0','yshift','z')])))
            k=NS(theta=a['theta'],theta_vary=[False]*5,n_free_param=0,no_scale=True,spec_type=a['spec_type'],kinModelOptions=NS(**{x:a[x] for x in('nSubpixels','pad_factor','do_position_wave_shift','do_inst_res_conv_effective')}),kinProfile=a['kinProfile'],intensityProfile=a['intensityProfile'])
            check_basis(vc,p,k,a['galaxy'],a['instrument'])
    # the whole slit model, its callees by contract
    def cube(I,V,s,w,z,rest,fr,nW,nZ,nY,nX,dz,dl,IM,WM,spec_type='wave'): return opaque('cube',(nW,nY,nX),I,V,s,w,z,dz,dl)
    def rot(x,y,z,p,i): return tuple(opaque('rot%d'%k,x.shape,x,y,z,p,i) for k in range(3))
    class P:
        def __init__(s,**k): s.PSF_FWHM=k['PSF_FWHM']; s._conv_stamp=None
        def generate_conv_stamp(s,x,y,**k): return opaque('stamp',('kY','kX'),x,y,s.PSF_FWHM)
        def set_conv_stamp(s,k): s._conv_stamp=k
    class Vel:
        n_params=2
        def vel(s,r,z): return opaque('velocity',r.shape,s.theta,r,z)
    class Disp:
        n_params=1
        def sigma(s,r,z): return opaque('dispersion',r.shape,s.theta,r,z)
    class Int:
        def int(s,r,z): return opaque('light',r.shape,r,z,sign='nonneg')
        def update_values(s,galaxy): s.g=galaxy
    for st in('wave','velocity'):
        @E.h('slit observation, whole slit model, '+st)
        def h(vc,st=st):
            k=object.__new__(kc.KinProfile); k.__dict__.update(theta=None,velProfile=Vel(),dispProfile=Disp()); n=vc.int_('nwave',2); w0,dw=vc.real('wave0','pos'),vc.real('dwave','pos')
            p=request(vc,st,kinProfile=k,intensityProfile=Int(),wave=w0+dw*np.arange(n))
            with tables(vc),interned(),patched((im,'PSFGaussian',P),(kf,'add_sigma_collapse_z',cube),(kf,'PSF_convolve',lambda c,Q: opaque('smear',c.shape,c,Q._conv_stamp,Q.PSF_FWHM)),(kf,'inst_convol_complete',lambda m,w,d: opaque('spec_smear',m.shape,m,w,d)),(kf,'transform_int_3d',rot)):
                img=mk.generate_mock_slit_obs(**p)
            L,nr=rows(vc,p); vc.ensure('rows',img.shape[0]==nr); vc.ensure('one column per wavelength',img.shape[1]==n); vc.canary('empty',img[0,0]==0)
    return E.hs
