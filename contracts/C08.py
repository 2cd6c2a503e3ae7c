from dv.dsl import *
from contracts.common import *
META=dict(functions=['kin_functions.add_sigma_collapse_z','kin_functions.I_simple_collapse'],
 assumptions=['dispersion either positive in every cell or zero in every cell','one flux ratio per rest wavelength'])
def harnesses(E):
    kf=E.mod('misfit.model.kin_functions')
    def inputs(vc,sgn='pos'):
        nW,nZ,nY,nX=[vc.int_(k,1) for k in('nW','nZ','nY','nX')]
        I=vc.arr('light',(nZ,nY,nX)); V=vc.arr('vel',(nZ,nY,nX)); w=vc.arr('wave',(nW,)); dz=vc.real('dz','pos'); dl=vc.real('dl','pos')
        s=vc.arr('sigma',(nZ,nY,nX),sign='pos') if sgn=='pos' else np.zeros((nZ,nY,nX))
        Z4=np.zeros((nW,nZ,nY,nX))
        return nW,nZ,nY,nX,I,V,w,dz,dl,s,Z4+I[None,:,:,:],Z4+w[:,None,None,None]
    def gauss(x,mu,sig): return np.exp(-(x-mu)**2/(2*sig**2))/(sig*np.sqrt(2*pi))
    for nl in ('any',1,2,3):
        @E.h('wavelength cube, %s lines'%nl)
        def h(vc,nl=nl):
            nW,nZ,nY,nX,I,V,w,dz,dl,s,IM,WM=inputs(vc); z=vc.real('z','nonneg')
            n=vc.int_('nlines',1) if nl=='any' else nl
            rest=vc.arr('rest',(n,),sign='pos'); fr=vc.arr('ratio',(n,))
            cp=[a.copy() for a in(I,V,s,w,IM,WM,rest,fr)]
            out=kf.add_sigma_collapse_z(I,V,s,w,z,rest,fr,nW,nZ,nY,nX,dz,dl,IM,WM,spec_type='wave')
            def cell(k,j,i):
                def line(l):
                    lam0=rest[l]*(1+z)
                    return fr[l]*total(nZ,lambda m: I[m,j,i]*gauss(w[k],lam0*(1+V[m,j,i]/C_KMS),lam0*s[m,j,i]/C_KMS)*dz)
                return total(n,line)
            vc.ensure_eq('depth integral of unit-area lines, flux ratios, summed over lines',out,lam((nW,nY,nX),cell),True)
            for a,b,nm in zip((I,V,s,w,IM,WM,rest,fr),cp,('light','velocity','dispersion','wavelengths','tiled light','tiled wavelengths','rest wavelengths','flux ratios')): vc.ensure_eq(nm+' unchanged',a,b)
            vc.canary('empty',out[0,0,0]==0)
    @E.h('velocity cube')
    def h(vc):
        nW,nZ,nY,nX,I,V,w,dz,dl,s,IM,WM=inputs(vc); z=vc.real('z','nonneg')
        n=vc.int_('nlines',1); rest=vc.arr('rest',(n,),sign='pos'); fr=vc.arr('ratio',(n,))
        out=kf.add_sigma_collapse_z(I,V,s,w,z,rest,fr,nW,nZ,nY,nX,dz,dl,IM,WM,spec_type='velocity')
        vc.ensure_eq('depth integral of unit-area Gaussians in velocity',out,lam((nW,nY,nX),lambda k,j,i: total(nZ,lambda m: I[m,j,i]*gauss(w[k],V[m,j,i],s[m,j,i])*dz)),True)
    def nearest(w,x,k): return ind(np.argmin(abs(w-x))==k)
    @E.h('no dispersion, velocity')
    def h(vc):
        nW,nZ,nY,nX,I,V,w,dz,dl,s,IM,WM=inputs(vc,0)
        out=kf.add_sigma_collapse_z(I,V,s,w,vc.real('z','nonneg'),np.array([vc.real('r0','pos')]),np.array([vc.real('f0')]),nW,nZ,nY,nX,dz,dl,IM,WM,spec_type='velocity')
        vc.ensure_eq('light wholly in the nearest bin',out,lam((nW,nY,nX),lambda k,j,i: total(nZ,lambda m: I[m,j,i]*dz*nearest(w,V[m,j,i],k))),True)
    for nl in ('any',2):
        @E.h('no dispersion, %s lines'%nl)
        def h(vc,nl=nl):
            nW,nZ,nY,nX,I,V,w,dz,dl,s,IM,WM=inputs(vc,0); z=vc.real('z','nonneg')
            n=vc.int_('nlines',1) if nl=='any' else nl
            rest=vc.arr('rest',(n,),sign='pos'); fr=vc.arr('ratio',(n,))
            out=kf.add_sigma_collapse_z(I,V,s,w,z,rest,fr,nW,nZ,nY,nX,dz,dl,IM,WM,spec_type='wave')
            def cell(k,j,i): return total(n,lambda l: fr[l]*total(nZ,lambda m: I[m,j,i]*dz*nearest(w,rest[l]*(1+z)*(1+V[m,j,i]/C_KMS),k)))
            vc.ensure_eq('light wholly in the nearest bin',out,lam((nW,nY,nX),cell),True)
    @E.h('nearest-bin collapse')
    def h(vc):
        nW,nZ,nY,nX,I,V,w,dz,dl,s,IM,WM=inputs(vc); lam0=vc.real('lam0','pos'); c=[a.copy() for a in(I,V,w)]
        out=kf.I_simple_collapse(I,V,w,nW,nZ,nY,nX,dz,dl,lam0)
        vc.ensure_eq('light wholly in the nearest bin',out,lam((nW,nY,nX),lambda k,j,i: total(nZ,lambda m: I[m,j,i]*dz*nearest(w,lam0*(1+V[m,j,i]/C_KMS),k))),True)
        x=vc.real('lam'); vc.ensure('the bins share out all of the light of a cell',total(nW,lambda k: nearest(w,x,k))==1)
        for a,b in zip((I,V,w),c): vc.ensure_eq('inputs unchanged',a,b)
        vc.canary('empty',out[0,0,0]==0)
    return E.hs
