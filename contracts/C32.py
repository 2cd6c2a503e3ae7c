"""Where the line sits and how far it extends, measured on a trimmed spectrum.  Expected values in the windows, unmasked rows and columns only."""
from dv.dsl import *
from contracts.common import *
META=dict(functions=['galaxy_utils.get_m0_lam0_pos_2D','galaxy_utils.fit_emission_y_profile','galaxy.ObsSpectrum2D.get_m0_lam0_pos','galaxy.ObsSpectrum2D.fit_emission_y_profile','general_utils.gaus_simple','general_utils.gaus_profile','general_utils.gaus_residual','general_utils.gaus_residual_mask'],
 assumptions=['trimmed spectrum: row limits run from 0 to the number of rows (C22), any number of rows and columns; finite flux and errors; masks zero or one','without the debugging and diagnostic plots'],
 trusted=['lmfit.minimize: fitted values are some finite numbers within the bounds given, or it raises','numpy.percentile(column,q) is some function of the column and q'])
def harnesses(E):
    gu=E.mod('misfit.general.galaxy_utils'); gl=E.mod('misfit.galaxy'); ut=E.mod('misfit.general.general_utils')
    def cp(a): b=a.copy(); return lam(b.shape,lambda *i: b[i])
    def mask(vc,nm,*sh): b=vc.arr(nm,sh,'b'); return lam(sh,lambda *i: ite_(b[i],K('1.'),K('0.')))
    class Failing(Lmfit):
        """the optimiser gives up at the calls listed"""
        def __init__(s,nY,fail=(),**k): super().__init__(**k); s.fail=fail; s.nY=nY; s.of={}
        def minimize(s,fcn,p,args=(),**k):
            n=args[0].shape[0]; what='rows' if n==s.nY else 'columns'
            if what in s.fail: raise ValueError('no fit')
            r=super().minimize(fcn,p,args=args,**k); s.of.setdefault(what,[]).append((s.calls[-1],s.results[-1])); return r
    def build(vc,lowrow,sky):
        """lowrow, sky: 'some' (any), 'all', 'none' masked"""
        nY,nW=vc.int_('rows',2),vc.int_('cols',2); sh=(nY,nW); vc.assume(no(nY==nW))
        lr,ns=vc.arr('lowrow',(nY,),'b'),vc.arr('nosky',(nW,),'b')
        s=gl.ObsSpectrum2D()
        s.__dict__.update(wave=vc.arr('wave',(nW,),sign='pos'),flux=vc.arr('flux',sh),flux_err=vc.arr('err',sh),mask_sky=mask(vc,'msky',*sh),mask_low_snr=mask(vc,'mlow',*sh),m_lims=np.array([0,nY]),ypos=vc.real('ypos'),m0=vc.real('m0'),m0_shift_fit=vc.real('m0_shift_fit'),m0_peak_snr=vc.real('snr'),lam0=vc.real('lam0','pos'),restwave_arr=[vc.real('rest','pos')],prepared_for_fitting=True)
        s.low_snr_row_inds=np.where(lr)[0]; s.wh_nosky=np.where(ns)[0]
        # left over from an earlier measurement
        for k in('m0_shift','sigma_y_emis_obs','sigma_y_emis_int','D50'): setattr(s,k,vc.real('old_'+k))
        if lowrow=='all': vc.assume(np.all(lr))
        if lowrow=='some': vc.assume(np.any(~lr))
        if sky=='all': vc.assume(no(np.any(ns)))
        if sky=='some': vc.assume(np.any(ns))
        return s,lr,ns,nY,nW
    keys=('wave','flux','flux_err','mask_sky','mask_low_snr','m_lims')
    def kept(vc,s,old):
        for k in keys: vc.ensure_eq('%s kept'%k,getattr(s,k),old[k])
    def call_ok(vc,c,what,data,err,x,free,mu0,lo,hi):
        f,p,a=c
        vc.ensure(what+': residual over unmasked points',f is ut.gaus_residual_mask)
        vc.ensure_eq(what+': positions',a[0],x); vc.ensure_eq(what+': profile summed over unmasked pixels',a[1],data); vc.ensure_eq(what+': error of the sum',a[2],err)
        w=a[3]; n=x.shape[0]; hit=np.zeros(n); hit[w]=1.; vc.ensure_eq(what+': exactly the unmasked points',hit,lam((n,),lambda i: ind(free(i))))
        vc.ensure(what+': starts at the expected position',p['mu'].value==mu0); vc.ensure(what+': kept in the window',both(p['mu'].min==lo,p['mu'].max==hi)); vc.ensure(what+': width not negative',p['sigma'].min is not None and p['sigma'].min==0); vc.ensure(what+': free',all(p[k].vary is not False for k in('mu','A','sigma')))
    for fail in((),('rows',),('columns',),('rows','columns')):
        @E.h('position%s'%(', optimiser fails at '+' and '.join(fail) if fail else ''))
        def h(vc,fail=fail):
            s,lr,ns,nY,nW=build(vc,'some','some'); old={k:cp(getattr(s,k)) for k in keys}; L=Failing(nY,fail); y0,m0,sf,snr,l0=s.ypos,s.m0,s.m0_shift_fit,s.m0_peak_snr,s.lam0
            with patched((gu,'lmfit',L)): s.get_m0_lam0_pos(NS(debug=False,z=vc.real('z','nonneg')))
            kept(vc,s,old);
            w=old['wave']; sp=lambda i,j: s.flux[i,j]*s.mask_sky[i,j]*s.mask_low_snr[i,j]; er=lambda i,j: s.flux_err[i,j]*s.mask_sky[i,j]*s.mask_low_snr[i,j]
            q=(w.max()-w.min())/4
            if 'rows' not in fail:
                c,r=L.of['rows'][-1]
                call_ok(vc,c,'rows',lam((nY,),lambda i: total(nW,lambda j: sp(i,j))),lam((nY,),lambda i: np.sqrt(total(nW,lambda j: er(i,j)**2))),lam((nY,),lambda i: i*K('1.')),lambda i: no(lr[i]),y0,K('0.'),nY-1)
                mu=r['mu'].value
                ok=either(abs(y0-mu)<=2,both(abs(m0-mu)<=2,abs(sf)<=1,snr>=3))
                vc.ensure('row offset: fitted centre minus the peak row, where the fit agrees with the expected or a significant peak row',imp(both(mu>=0,mu<=nY-1,ok),s.m0_shift==mu-m0)); vc.ensure('row offset: none where it does not',imp(no(both(mu>=0,mu<=nY-1,ok)),s.m0_shift==0))
            else: vc.ensure('row offset: none without a fit',s.m0_shift==0)
            if 'columns' not in fail:
                c,r=L.of['columns'][-1]; mu=r['mu'].value
                call_ok(vc,c,'columns',lam((nW,),lambda j: total(nY,lambda i: sp(i,j))),lam((nW,),lambda j: np.sqrt(total(nY,lambda i: er(i,j)**2))),w,lambda j: ns[j],l0,w.min()+q,w.max()-q)
                ok=both(abs(l0-mu)<=q,mu>=w.min()+q,mu<=w.max()-q); vc.ensure('line wavelength: the fitted one where central and near the expected one',imp(ok,s.lam0==mu)); vc.ensure('line wavelength: else the expected one',imp(no(ok),s.lam0==l0))
            else: vc.ensure('line wavelength: the expected one without a fit',s.lam0==l0)
            vc.ensure('peak row and expected row kept',both(s.m0==m0,s.ypos==y0,s.m0_shift_fit==sf,s.m0_peak_snr==snr)); vc.canary('never offset',s.m0_shift==5)
    for lowrow,sky in(('all','some'),('some','all'),('all','all')):
        @E.h('position, rows masked: %s, columns masked: %s'%(lowrow,sky))
        def h(vc,lowrow=lowrow,sky=sky):
            s,lr,ns,nY,nW=build(vc,lowrow,sky); old={k:cp(getattr(s,k)) for k in keys}; L=Failing(nY); l0=s.lam0
            with patched((gu,'lmfit',L)): s.get_m0_lam0_pos(NS(debug=False,z=K('1.')))
            kept(vc,s,old); vc.ensure('row offset: none with nothing to fit',s.m0_shift==0); vc.ensure('line wavelength: the expected one',s.lam0==l0)
    # ---- extent
    S2F=2*np.sqrt(2*np.log(K('2.'))); P=lambda a,q: np.percentile(a,K(q))
    def inst(vc): return NS(pixscale=vc.real('pixscale','pos'),PSF=NS(PSF_FWHM=vc.real('FWHM','pos')))
    def missing(vc,s,what):
        for k in('D50','sigma_y_emis_obs','sigma_y_emis_int'):
            vc.ensure(what+': flagged',getattr(s,k)==-99); e=getattr(s,k+'_err'); vc.ensure(what+': flagged',e.shape==(2,)); vc.ensure(what+': flagged',both(e[0]==-99,e[1]==-99))
    def intrinsic(sg,F): return ite_(sg*sg>=(F/S2F)**2,np.sqrt(ite_(sg*sg>=(F/S2F)**2,sg*sg-(F/S2F)**2,0)),K('0.'))
    @E.h('extent')
    def h(vc):
        s,lr,ns,nY,nW=build(vc,'some','some'); old={k:cp(getattr(s,k)) for k in keys}; L=Lmfit(); i=inst(vc); ps,F=i.pixscale,i.PSF.PSF_FWHM; M=vc.int_('num_MC',1); y0=s.ypos
        with patched((gu,'lmfit',L)): gu.fit_emission_y_profile(s,NS(),i,num_MC=M)
        kept(vc,s,old); nfree=total(nY,lambda k: ind(no(lr[k])))
        if not L.calls: missing(vc,s,'too few unmasked rows'); vc.ensure('fitted where the unmasked rows span the seeing',nfree*ps/F<K('0.8')); return
        vc.ensure('not fitted where the unmasked rows do not span the seeing',nfree*ps/F>=K('0.8'))
        sp=lambda i,j: s.flux[i,j]*s.mask_sky[i,j]; er=lambda i,j: s.flux_err[i,j]*s.mask_sky[i,j]; D=lam((nY,),lambda i: total(nW,lambda j: sp(i,j))); Er=lam((nY,),lambda i: np.sqrt(total(nW,lambda j: er(i,j)**2)))
        mx=(nY-1)*ps/S2F
        free=lambda k: no(lr[k]); X=lam((nY,),lambda k: k*ps)
        inloop=lambda r: len(tm.the_atom(r['sigma'].value.v).args)>0
        main=[k for k in range(len(L.calls)) if not inloop(L.results[k])]; mc=[k for k in range(len(L.calls)) if inloop(L.results[k])]
        for k in main: call_ok(vc,L.calls[k],'fit',D,Er,X,free,y0*ps,K('0.'),(nY-1)*ps)
        r0=L.results[main[0]]['sigma'].value; acc=L.results[main[-1]]['sigma'].value
        vc.ensure('first fit: any width',L.calls[main[0]][1]['sigma'].max is None); vc.ensure('bounded refit exactly where the line would be wider than the window',same(r0>mx,len(main)==2)); vc.ensure('at most two fits',len(main)<=2)
        if len(main)==2: vc.ensure('refit: within the window',L.calls[main[1]][1]['sigma'].max==mx)
        vc.ensure('observed width of the accepted fit',s.sigma_y_emis_obs==acc); vc.ensure('intrinsic width: seeing removed in quadrature, or zero',s.sigma_y_emis_int==intrinsic(acc,F)); vc.ensure('full width at half maximum of the intrinsic width',s.D50==s.sigma_y_emis_int*S2F)
        vc.ensure('widths real and not negative',both(finite(s.sigma_y_emis_obs),finite(s.sigma_y_emis_int),finite(s.D50),s.sigma_y_emis_obs>=0,s.sigma_y_emis_int>=0,s.D50>=0))
        # realisations: same error bars, rows and bounds; data plus error times a draw; refitted like the measurement
        vc.ensure('realisations are fitted',len(mc)>0)
        for k in mc:
            c=L.calls[k]; call_ok(vc,(c[0],c[1],(c[2][0],D,c[2][2],c[2][3])),'realisation',D,Er,X,free,y0*ps,K('0.'),(nY-1)*ps)
        a=[tm.the_atom(L.results[k]['sigma'].value.v).name for k in mc if L.calls[k][1]['sigma'].max is None]; b=[tm.the_atom(L.results[k]['sigma'].value.v).name for k in mc if L.calls[k][1]['sigma'].max is not None]
        vc.ensure('realisations: a free fit and a bounded refit',len(set(a))==1 and len(set(b))==1); [vc.ensure('realisation refit: within the window',L.calls[k][1]['sigma'].max==mx) for k in mc if L.calls[k][1]['sigma'].max is not None]
        at=lambda n,i: S(tm.app_raw(n,(i.v,),'R'),TRUE,'f')
        row=lambda i: ite_(at(a[0],i)>mx,at(b[0],i),at(a[0],i))
        T=[lam((M,),row),lam((M,),lambda i: intrinsic(row(i),F)),lam((M,),lambda i: intrinsic(row(i),F)*S2F)]
        for k,(v,e) in enumerate(((s.sigma_y_emis_obs,s.sigma_y_emis_obs_err),(s.sigma_y_emis_int,s.sigma_y_emis_int_err),(s.D50,s.D50_err))):
            vc.ensure('one pair of errors',e.shape==(2,)); vc.ensure('lower error: down to the percentile of the realisations',e[0]==v-P(T[k],'15.865')); vc.ensure('upper error: up to the percentile of the realisations',e[1]==P(T[k],'84.135')-v)
        vc.canary('never resolved',s.sigma_y_emis_int==0)
    @E.h('extent, optimiser fails')
    def h(vc):
        s,lr,ns,nY,nW=build(vc,'some','some'); old={k:cp(getattr(s,k)) for k in keys}; L=Failing(nY,('rows',))
        with patched((gu,'lmfit',L)): s.fit_emission_y_profile(NS(),inst(vc))
        kept(vc,s,old); missing(vc,s,'no fit')
    @E.h('extent, every row masked')
    def h(vc):
        s,lr,ns,nY,nW=build(vc,'all','some'); old={k:cp(getattr(s,k)) for k in keys}; L=Lmfit()
        with patched((gu,'lmfit',L)): s.fit_emission_y_profile(NS(),inst(vc))
        kept(vc,s,old); missing(vc,s,'every row masked'); vc.ensure('nothing fitted',not L.calls)
    @E.h('extent needs a prepared spectrum')
    def h(vc):
        s=gl.ObsSpectrum2D(); vc.ensure('rejected',vc.raises(ValueError,lambda: s.fit_emission_y_profile(NS(),inst(vc))))
    # ---- the fitted curve
    for const_ in(False,True):
        @E.h('Gaussian residual%s'%(', constant' if const_ else ''))
        def h(vc,const_=const_):
            n=vc.int_('points',1); x,y,e=vc.arr('x',(n,)),vc.arr('y',(n,)),vc.arr('e',(n,)); b=vc.arr('free',(n,),'b'); A,mu,sg,C=vc.real('A'),vc.real('mu'),vc.real('sigma','pos'),vc.real('C')
            p=dict(A=NS(value=A),mu=NS(value=mu),sigma=NS(value=sg))
            if const_: p['C']=NS(value=C)
            c0=C if const_ else K('0.'); top=ut.gaus_profile(p,np.array([mu]))[0]-c0; g=lambda v: top*np.exp(-(v-mu)**2/(2*sg**2))+c0; vc.ensure('height has the sign of the amplitude',both(imp(A>0,top>0),imp(A<0,top<0),imp(A==0,top==0)))
            vc.ensure_eq('Gaussian in position',ut.gaus_profile(p,x),lam((n,),lambda i: g(x[i])))
            r=lambda i: ite_(e[i]==0,K('0.'),(g(x[i])-y[i])/ite_(e[i]==0,1,e[i])); o=[cp(v) for v in(x,y,e)]
            vc.ensure_eq('residual in units of the error, zero where undefined',ut.gaus_residual(p,x,y,e),lam((n,),r))
            w=np.where(b)[0]; z=np.zeros(n); z[w]=ut.gaus_residual_mask(p,x,y,e,w)
            vc.ensure_eq('masked points do not count',z,lam((n,),lambda i: ite_(b[i],r(i),0)))
            for u,v in zip((x,y,e),o): vc.ensure_eq('data kept',u,v)
            vc.canary('flat',ut.gaus_profile(p,x)[0]==0)
    return E.hs
