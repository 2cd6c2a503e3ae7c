from dv.dsl import *
from contracts.common import *
META=dict(functions=['kin_functions.PSF_convolve','kin_functions.PSF_convolve_flat','kin_functions.rebin','kin_functions.gaus_from_fwhm','kin_functions.convol_instconstfwhm','kin_functions.inst_convol_complete'],
 assumptions=['total flux after smearing is not zero (otherwise the renormalisation is undefined, as in the code)','spectral resolution positive; wavelength grid uniform where the kernel is said to be centred'],
 trusted=["scipy.signal.fftconvolve is exact linear convolution, 'same' being the centred part of the size of the first input"])
def harnesses(E):
    kf=E.mod('misfit.model.kin_functions')
    four=lambda vc: np.log(K('2.'))
    @E.h('PSF smearing of a cube')
    def h(vc):
        sh=tuple(vc.int_(k,1) for k in('nW','nY','nX')); cube=vc.arr('cube',sh); ker=vc.arr('kernel',(1,vc.int_('kY',1),vc.int_('kX',1)))
        ins=instrument(E,vc); ins.PSF.set_conv_stamp(ker); c0=cube.copy()
        out=kf.PSF_convolve(cube,ins.PSF)
        raw=shims.fftconvolve(cube,ker,mode='same'); s=np.sum(raw)
        vc.ensure('shape kept',out.shape==cube.shape)
        vc.ensure_eq('proportional to the convolution',out,raw*(np.sum(c0)/s))
        CTX.assume(tob(s!=0))
        vc.ensure('total flux conserved',np.sum(out)==np.sum(c0)); vc.ensure('finite',np.isfinite(out).all())
        vc.ensure_eq('input unchanged',cube,c0)
        vc.canary('does nothing',out[0,0,0]==cube[0,0,0])
    @E.h('PSF smearing of an image')
    def h(vc):
        sh=tuple(vc.int_(k,1) for k in('nY','nX')); im=vc.arr('image',sh); ker=vc.arr('kernel',(vc.int_('kY',1),vc.int_('kX',1)))
        ins=instrument(E,vc); ins.PSF.set_conv_stamp(ker); c0=im.copy()
        out=kf.PSF_convolve_flat(im,ins.PSF)
        vc.ensure_eq('convolution',out,shims.fftconvolve(c0,ker,mode='same'),True); vc.ensure_eq('input unchanged',im,c0)
    @E.h('zero-width PSF does nothing')
    def h(vc):
        ins=instrument(E,vc); ins.PSF.PSF_FWHM=K('0.'); ins.PSF.set_conv_stamp(None)
        cube=vc.arr('cube',tuple(vc.int_(k,1) for k in('nW','nY','nX'))); im=vc.arr('image',tuple(vc.int_(k,1) for k in('nY','nX')))
        vc.ensure_eq('cube',kf.PSF_convolve(cube,ins.PSF),cube.copy(),True); vc.ensure_eq('image',kf.PSF_convolve_flat(im,ins.PSF),im.copy(),True)
    @E.h('spectral kernel')
    def h(vc):
        n=vc.int_('n',1); x=vc.arr('x',(n,)); F=vc.real('F','pos'); x0=vc.real('x0')
        g=kf.gaus_from_fwhm(x,F,x0)
        vc.ensure_eq('unit-peak Gaussian of the requested FWHM',g,np.exp(-4*np.log(K('2.'))*(x-x0)**2/F**2),True)
        u=kf.gaus_from_fwhm(np.array([x0,x0+F/2,x0-F/2]),F,x0)
        vc.ensure('one at the centre, half at half the width',both(u[0]==1,u[1]==K('0.5'),u[2]==K('0.5')))
        vc.canary('flat',g[0]==1)
    @E.h('spectral smearing, any kernel grid')
    def h(vc):
        nW,nY,nK=vc.int_('nW',1),vc.int_('nY',1),vc.int_('nK',1); mod=vc.arr('model',(nW,nY)); xx=vc.arr('xx',(nK,),finite=False); F=vc.real('F','pos'); x0=vc.real('x0'); m0=mod.copy()
        out=kf.convol_instconstfwhm(mod,xx,x0,F)
        ker=lam((nK,1),lambda i,j: ite_(finite(xx[i]),S(np.exp(-4*np.log(K('2.'))*(xx[i]-x0)**2/F**2).v,TRUE,'f'),K('0.')))
        raw=shims.fftconvolve(m0,ker,mode='same'); s=np.sum(raw)
        vc.ensure_eq('non-finite kernel values contribute nothing',out,raw*(np.sum(m0)/s)); vc.ensure_eq('input unchanged',mod,m0)
        CTX.assume(tob(s!=0)); vc.ensure('total flux conserved',np.sum(out)==np.sum(m0)); vc.ensure('finite',np.isfinite(out).all()); vc.ensure('shape kept',out.shape==mod.shape)
    for odd in (True,False):
        @E.h('spectral smearing of a spectrum, %s number of wavelengths'%('even','odd')[odd])
        def h(vc,odd=odd):
            m=vc.int_('half',0); nW,nY=2*m+(1 if odd else 2),vc.int_('nY',1); w0,dw=vc.real('w0'),vc.real('dw','pos'); wave=lam((nW,),lambda i: w0+i*dw); w1=wave.copy()
            mod=vc.arr('model',(nW,nY)); sg=vc.real('inst_disp','pos'); m0=mod.copy()
            out=kf.inst_convol_complete(mod,wave,sg)
            F=sg*2*np.sqrt(2*np.log(K('2.')))   # odd kernel of length 2m+1: sample m is its centre
            ker=lam((2*m+1,1),lambda j,k: np.exp(-4*np.log(K('2.'))*((j-m)*dw)**2/F**2))
            raw=shims.fftconvolve(m0,ker,mode='same')
            vc.ensure('unit peak at the centre of the kernel',ker[m,0]==1)
            s=np.sum(raw)
            vc.ensure_eq('each row smeared by a Gaussian of the instrumental dispersion, centred on its pixel',out,raw*(np.sum(m0)/s))
            vc.ensure_eq('input unchanged',mod,m0); vc.ensure_eq('wavelengths unchanged',wave,w1)
            vc.canary('does nothing',out[0,0]==mod[0,0])
    @E.h('rebinning')
    def h(vc):
        n,m,f,g=[vc.int_(k,1) for k in('n','m','f','g')]
        a=vc.arr('a',(n*f,m*g)); out=kf.rebin(a,n,m)
        vc.ensure_eq('block sums',out,lam((n,m),lambda i,j: total(f,lambda s: total(g,lambda t: a[i*f+s,j*g+t]))),True)
        vc.ensure('flux conserved',np.sum(out)==np.sum(a))
        b=vc.arr('b',(n*f,m,g)); o3=kf.rebin(b,n,m,g)
        vc.ensure_eq('block sums along one axis of three',o3,lam((n,m,g),lambda i,j,k: total(f,lambda s: b[i*f+s,j,k])),True)
        h_=vc.int_('h',1); c=vc.arr('c3',(n,m*g,f*h_)); o4=kf.rebin(c,n,m,f)
        vc.ensure_eq('block sums along two axes of three',o4,lam((n,m,f),lambda i,j,k: total(g,lambda s: total(h_,lambda t: c[i,j*g+s,k*h_+t]))),True)
        vc.canary('not conserved',np.sum(out)==np.sum(a)+1)
    return E.hs
