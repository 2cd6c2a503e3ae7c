from dv.dsl import *
from contracts.common import *
META=dict(functions=['galaxy_utils.trim_spectrum_1D','galaxy_utils.trim_spectrum_2D_wavelength','galaxy.ObsSpectrum.calculate_restwave','galaxy.ObsSpectrum1D.__init__','galaxy.ObsSpectrum1D.trim_spectrum_wavelength','galaxy.ObsSpectrum2D.trim_spectrum_wavelength','galaxy.Spectrum.copy'],
 assumptions=['redshift above -1','arrays of the spectrum have matching shapes; obswave is the wave array (established by calculate_restwave)','library ranges by contract (C17)'],
 trusted=['copy.deepcopy copies arrays'])
COLS=('flux','flux_err','spec_mask','spec_weight')
def harnesses(E):
    gu=E.mod('misfit.general.galaxy_utils'); gl=E.mod('misfit.galaxy'); io=E.mod('misfit.general.io')
    def gal(vc): return NS(z=vc.real('z','nonneg'))
    def spec1(vc,g):
        n=vc.int_('n',1); s=gl.ObsSpectrum1D(wave=vc.arr('wave',(n,)),flux=vc.arr('flux',(n,),finite=False),flux_err=vc.arr('err',(n,),finite=False),spec_mask=vc.arr('mask',(n,)))
        s.calculate_restwave(g); s.restwave=vc.arr('stale1',(n,)); s.trim_obswave_range=[vc.real('o0'),vc.real('o1')]; s.trim_restwave_range=[vc.real('r0'),vc.real('r1')]; return s
    def spec2(vc,g,cont=False):
        n,m=vc.int_('n',1),vc.int_('rows',1); s=object.__new__(gl.ObsSpectrum2D); gl.ObsSpectrum.__init__(s,wave=vc.arr('wave',(n,)),flux=vc.arr('flux2',(m,n),finite=False),flux_err=vc.arr('err2',(m,n),finite=False),spec_mask=vc.arr('mask2',(m,n)))
        s.spec_weight=vc.arr('weight2',(m,n))
        if cont: s.flux_incl_cont=vc.arr('incl2',(m,n)); s.cont_model=vc.arr('cont2',(m,n))
        s.calculate_restwave(g); s.restwave=vc.arr('stale2',(n,)); s.trim_obswave_range=[vc.real('o0'),vc.real('o1')]; s.trim_restwave_range=[vc.real('r0'),vc.real('r1')]; return s
    def keep(s): return {k:lam(v.shape,lambda *i,v=frozen_copy(v): v[i]) for k,v in s.__dict__.items() if isinstance(v,Arr)}
    def frozen_copy(v): return v.copy()
    def rest(s): return {k:(v,list(v) if isinstance(v,list) else v) for k,v in s.__dict__.items() if not isinstance(v,Arr)}
    def unchanged(vc,s,k0,r0,what='original'):
        for k,v in k0.items(): vc.ensure_eq('%s unchanged: %s'%(what,k),getattr(s,k),v)
        for k,(v,c) in r0.items():
            w=s.__dict__.get(k,'gone')
            vc.ensure('%s unchanged: %s'%(what,k),(isinstance(w,list) and len(w)==len(c) and both(*[a==b for a,b in zip(w,c)])) if isinstance(c,list) else (w is v))
        vc.ensure('%s: nothing added'%what,set(s.__dict__)==set(k0)|set(r0))
    def trimmed(vc,t,k0,lo,hi,g,two):
        w=k0['wave']; sel=both_arr(w>=lo,w<=hi); wh=np.where(sel)[0]; none=(wh.shape[0]==0)
        if bool(none):
            for k in('wave','obswave','restwave','flux','flux_err','spec_mask')+(('spec_weight',) if two else ())+(('flux_incl_cont','cont_model') if 'cont_model' in k0 else ()):
                v=getattr(t,k); vc.ensure('nothing selected, nothing left: '+k,v is None or (isinstance(v,Arr) and bool(v.size==0)))
            return False
        vc.ensure_eq('observed wavelengths within the inclusive range, in order',t.wave,w[wh]); vc.ensure_eq('observed wavelength array',t.obswave,w[wh]); vc.ensure_eq('rest wavelengths recomputed',t.restwave,w[wh]/(1+g.z))
        for k in COLS:
            if k in k0: vc.ensure_eq('from the same pixels: '+k,getattr(t,k),k0[k][:,wh] if two else k0[k][wh])
        return True
    def both_arr(a,b): return a&b
    def ranges(vc,g,how):
        r=[vc.real('lo','pos'),vc.real('hi','pos')]
        if how=='observed': return dict(trim_obswave_range=r),r[0],r[1],r[0]/(1+g.z),r[1]/(1+g.z)
        if how=='rest': return dict(trim_restwave_range=r),r[0]*(1+g.z),r[1]*(1+g.z),r[0],r[1]
        return dict(linename=vc.int_('line'),**({} if how=='library' else dict(param_restwave_filename='my file'))),r[0]*(1+g.z),r[1]*(1+g.z),r[0],r[1]
    def lib(vc,seen):
        def f(fn,linename=None): seen.append((fn,linename)); return np.array([vc.real('lo','pos'),vc.real('hi','pos')])
        return f
    def check_ranges(vc,t,lo,hi,rl,rh,rest=True):
        vc.ensure('observed range recorded',both(t.trim_obswave_range[0]==lo,t.trim_obswave_range[1]==hi))
        if rest: vc.ensure('rest range is the observed one over one plus redshift',both(t.trim_restwave_range[0]==rl,t.trim_restwave_range[1]==rh))
    def check_lib(vc,how,seen):
        if how in('library','file'):
            vc.ensure('range of the requested line from the right table',both(seen[0][1]==vc.int_('line'),(seen[0][0]=='my file') if how=='file' else seen[0][0].endswith(vc.lib)))
        else: vc.ensure('no table needed',seen==[])
    for how in('observed','rest','library','file'):
        @E.h('1D, %s range'%how)
        def h(vc,how=how):
            g=gal(vc); s=spec1(vc,g); k0=keep(s); r0=rest(s); kw,lo,hi,rl,rh=ranges(vc,g,how); seen=[]; vc.lib='trim_wavelengths_1D.param'
            with patched((io,'read_wave_range',lib(vc,seen))): t=s.trim_spectrum_wavelength(g,**kw)
            check_lib(vc,how,seen); check_ranges(vc,t,lo,hi,rl,rh,how!='observed')
            if trimmed(vc,t,k0,lo,hi,g,False):
                vc.canary('everything kept',t.wave.shape[0]==s.wave.shape[0])
                for k in('wave','flux','flux_err','spec_mask'): getattr(t,k)[:]=K('7.')
            vc.ensure('a copy is returned',t is not s); unchanged(vc,s,k0,r0)
        for inplace in(True,False):
            for cont in(False,True):
                @E.h('2D, %s range, %s%s'%(how,'in place' if inplace else 'copying',', continuum columns' if cont else ''))
                def h(vc,how=how,inplace=inplace,cont=cont):
                    g=gal(vc); s=spec2(vc,g,cont); k0=keep(s); r0=rest(s); own={k:getattr(s,k) for k in k0}; kw,lo,hi,rl,rh=ranges(vc,g,how); seen=[]; vc.lib='line_range_restwave_2D.param'
                    with patched((io,'read_wave_range',lib(vc,seen))): t=s.trim_spectrum_wavelength(g,inplace=inplace,**kw)
                    check_lib(vc,how,seen); check_ranges(vc,t,lo,hi,rl,rh)
                    if trimmed(vc,t,k0,lo,hi,g,True):
                        vc.canary('everything kept',t.wave.shape[0]==k0['wave'].shape[0])
                        if cont:
                            wh=np.where((k0['wave']>=lo)&(k0['wave']<=hi))[0]
                            for k in('flux_incl_cont','cont_model'): vc.ensure_eq('from the same pixels: '+k,getattr(t,k),k0[k][:,wh])
                        if not inplace:
                            for k in('wave',)+COLS+(('flux_incl_cont','cont_model') if cont else ()): getattr(t,k)[:]=K('7.')
                    if inplace:
                        vc.ensure('the spectrum itself is trimmed',t is s)
                        for k,v in own.items(): vc.ensure_eq('arrays handed in are not written: '+k,v,k0[k])
                    else: vc.ensure('a copy is returned',t is not s); unchanged(vc,s,k0,r0)
    @E.h('rest wavelengths')
    def h(vc):
        g=gal(vc); n=vc.int_('n',0); s=gl.ObsSpectrum1D(wave=vc.arr('wave',(n,))); w=s.wave; s.calculate_restwave(g)
        vc.ensure_eq('observed',s.obswave,w); vc.ensure_eq('rest is observed over one plus redshift',s.restwave,lam((n,),lambda i: w[i]/(1+g.z)))
        g.z=vc.real('z2','nonneg'); s.calculate_restwave(g); vc.ensure_eq('recomputed from the observed wavelengths',s.restwave,lam((n,),lambda i: w[i]/(1+g.z)))
    @E.h('contradictory or missing ranges')
    def h(vc):
        g=gal(vc); s=spec2(vc,g); r=[K('1.'),K('2.')]
        for ip in(True,False):
            vc.ensure('both given: rejected',vc.raises(ValueError,lambda: s.trim_spectrum_wavelength(g,trim_restwave_range=r,trim_obswave_range=r,inplace=ip)))
            vc.ensure('none given: rejected',vc.raises(ValueError,lambda: s.trim_spectrum_wavelength(g,inplace=ip)))
    return E.hs
