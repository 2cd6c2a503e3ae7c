from dv.dsl import *
from contracts.common import *
META=dict(functions=['instrument.PSF_stamp_gauss','instrument.PSF_stamp_moffat','instrument.PSFGaussian.generate_conv_stamp','instrument.PSFMoffat.generate_conv_stamp','instrument.Instrument.__init__'],
 assumptions=['FWHM positive; Moffat beta greater than one'])
def harnesses(E):
    im=E.mod('misfit.instrument'); given={}
    def make(vc,kind,dither,over):
        F=vc.real('FWHM','pos'); kw=dict(PSF_type=kind,PSF_FWHM=vc.real('stored','pos') if over else F)
        if kind=='Moffat':
            b=vc.real('beta','pos'); vc.assume(b>1); kw['PSF_beta']=b
        given.clear(); given.update(kw); P=im.Spectrograph(**kw).PSF
        if dither: P.yspace_dither_arc=dither
        return P,F,(dict(PSF_FWHM=F) if over else {})
    for kind in ('Gaussian','Moffat'):
        for over in (False,True):
            nm=kind+(', explicit FWHM' if over else '')
            @E.h(nm+' kernel')
            def h(vc,kind=kind,over=over):
                P,F,kw=make(vc,kind,None,over)
                nx,ny=vc.int_('nx',1),vc.int_('ny',1); x,y=vc.arr('x',(nx,)),vc.arr('y',(ny,))
                k=P.generate_conv_stamp(x,y,**kw)
                z=np.zeros(1); k0=P.generate_conv_stamp(z,z,**kw)[0,0]
                vc.ensure('peak positive and finite',both(finite(k0),k0>0))
                r2=np.zeros((ny,nx))+x[None,:]**2+y[:,None]**2
                if kind=='Gaussian': want=k0*np.exp(-r2*4*np.log(K('2.'))/F**2)
                else: want=k0*(1+4*r2*(np.power(K('2.'),1/P.PSF_beta)-1)/F**2)**(-P.PSF_beta)
                vc.ensure_eq('rows along the slit, columns across; radial %s shape'%kind,k,want,True)
                h=P.generate_conv_stamp(np.array([F/2]),z,**kw)[0,0]; h2=P.generate_conv_stamp(z,np.array([F/2]),**kw)[0,0]
                vc.ensure('half the peak at half the FWHM, across',h==k0/2); vc.ensure('half the peak at half the FWHM, along',h2==k0/2)
                # k = peak*f(u) with u a non-negative multiple of the squared distance and f at most one
                u=vc.real('u','nonneg')
                if kind=='Gaussian':
                    vc.forall('exponent not positive',(ny,nx),lambda i,j: r2[i,j]*4*np.log(K('2.'))/F**2>=0); vc.ensure('peak is the maximum',np.exp(-u)<=1)
                else:
                    vc.forall('stretched distance not negative',(ny,nx),lambda i,j: 4*r2[i,j]*(np.power(K('2.'),1/P.PSF_beta)-1)/F**2>=0); vc.ensure('peak is the maximum',(1+u)**(-P.PSF_beta)<=1)
                vc.canary('flat',h==k0)
            @E.h(nm+' kernel with negative images')
            def h(vc,kind=kind,over=over):
                d=vc.real('dither','pos')
                P,F,kw=make(vc,kind,d,over); P0,_,_=make(vc,kind,None,over)
                nx,ny=vc.int_('nx',1),vc.int_('ny',1); x,y=vc.arr('x',(nx,)),vc.arr('y',(ny,))
                k=P.generate_conv_stamp(x,y,**kw)
                Q=im.Imager(yspace_dither_arc=d,**given).PSF; vc.ensure_eq('separation given at construction',Q.generate_conv_stamp(x,y,**kw),k)
                g=lambda yy: P0.generate_conv_stamp(x,yy,**kw)
                vc.ensure_eq('half a PSF removed at plus and minus the separation along the slit',k,g(y)-(g(y+d)+g(y-d))/2,True)
                vc.canary('no negative images',k[0,0]==g(y)[0,0])
    @E.h('kinds of PSF')
    def h(vc):
        F=vc.real('FWHM','pos')
        vc.ensure('kind follows the name',type(im.Spectrograph(PSF_type='gaussian',PSF_FWHM=F).PSF) is im.PSFGaussian and type(im.Spectrograph(PSF_type=' MOFFAT ',PSF_FWHM=F).PSF) is im.PSFMoffat)
        P=im.Imager(PSF_type='Moffat',PSF_FWHM=F,PSF_beta=K('3.')).PSF
        vc.ensure('stored width and shape',both(P.PSF_FWHM==F,P.PSF_beta==3,P.yspace_dither_arc is None))
    return E.hs
