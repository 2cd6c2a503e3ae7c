from dv.dsl import *
META=dict(functions=['galaxy_utils.calculate_slit_offset_angles','Galaxy.calculate_slit_object_delta_PA','general_utils.y_proj_phys','general_utils.x_proj_phys','general_utils.x_proj_major','general_utils.y_proj_major','general_utils.r_unproj_major','general_utils.y_proj_major_inslit'],
 assumptions=['misalignments exactly equal to 90 degrees modulo 180 are excluded (the real tangent is undefined there; the float code returns +-90)'])
def harnesses(E):
    gu=E.mod('misfit.general.general_utils'); gal=E.mod('misfit.galaxy')
    def fold(vc,d):
        t=d/180+K('0.5'); k=np.floor(t)
        vc.assume(both(t!=k,np.cos(d*pi/180)!=0))
        return d-180*k
    def mk(vc,gen):
        g=gal.Galaxy(); g.generate_model=gen
        return g
    @E.h('slit misalignment')
    def h(vc):
        g=mk(vc,False); g.delt_PA_abs=vc.real('old_abs'); sp,ip,gp=vc.real('slit_PA'),vc.real('img_PA'),vc.real('sersicPA')
        g.spec2D=NS(slit_PA=sp); g.pstamp=NS(img_PA=ip); g.sersicPA=gp; g.delt_PA=vc.real('old')
        F=fold(vc,gp-(sp-ip))
        g.calculate_slit_object_delta_PA()
        vc.ensure_eq('folded misalignment, equal modulo 180',g.delt_PA,F,True)
        vc.ensure('inside (-90,90)',both(g.delt_PA>-90,g.delt_PA<90))
        vc.ensure('stored absolute value',g.delt_PA_abs==abs(g.delt_PA))
        vc.ensure('inputs untouched',both(g.sersicPA==gp,g.spec2D.slit_PA==sp,g.pstamp.img_PA==ip))
        vc.canary('never folded',g.delt_PA==gp-(sp-ip))
        # a second call is idempotent
        d1=g.delt_PA
        g.calculate_slit_object_delta_PA(); vc.ensure('recomputing gives the same angle',g.delt_PA==d1)
    @E.h('model galaxy keeps its angle')
    def h(vc):
        g=mk(vc,True); d=vc.real('delt_PA'); g.delt_PA=d; g.delt_PA_abs=vc.real('old_abs'); g.sersicPA=vc.real('sersicPA')
        g.spec2D=NS(slit_PA=vc.real('slit_PA')); g.pstamp=None
        g.calculate_slit_object_delta_PA()
        vc.ensure_eq('angle kept',g.delt_PA,d,True); vc.ensure_eq('absolute value',g.delt_PA_abs,abs(d),True)
    @E.h('projections along and across the slit')
    def h(vc):
        re=vc.real('re','nonneg'); d=vc.real('d'); q=vc.real('q','pos'); a=d*pi/180
        x=gu.x_proj_major(re,d,q); y=gu.y_proj_major(re,d)
        vc.ensure_eq('across the slit',x,re*abs(np.sin(a)),True); vc.ensure_eq('along the slit',y,re*abs(np.cos(a)),True)
        vc.ensure('non-negative',both(x>=0,y>=0))
        vc.ensure('lemma: the two are the legs of re',x*x+y*y==re*re)
        vc.canary('zero',x==0)
    @E.h('unprojection inverts the projection')
    def h(vc):
        yp=vc.real('yp'); d=vc.real('d'); q=vc.real('q','pos'); a=d*pi/180
        vc.assume(np.cos(a)!=0)
        r=gu.r_unproj_major(yp,d,q)
        vc.ensure('non-negative and finite',both(finite(r),r>=0))
        vc.ensure('cosine unprojection',r*abs(np.cos(a))==abs(yp))
        re=vc.real('re','nonneg')
        vc.ensure('lemma: unproject(project(re)) is re',gu.r_unproj_major(gu.y_proj_major(re,d),d,q)==re)
    @E.h('in-slit projection')
    def h(vc):
        re=vc.real('re','nonneg'); d=vc.real('d'); w=vc.real('w','pos'); a=d*pi/180
        y=gu.y_proj_major_inslit(re,d,slit_width_arcsec=w)
        s,c=abs(np.sin(a)),abs(np.cos(a))
        vc.ensure('inside the slit: plain projection',imp(re*s<=w/2,y==re*c))
        vc.ensure('cut by the slit edge: the major axis stops at the slit edge',imp(re*s>w/2,both(finite(y),y*s==w/2*c)))
        vc.ensure('never past the slit half-width across the slit',imp(c!=0,y/c*s<=w/2))
        vc.ensure('never longer than the uncut projection',both(y>=0,y<=re*c))
    @E.h('ellipse extents')
    def h(vc):
        re=vc.real('re','pos'); d=vc.real('d'); q=vc.real('q','pos'); a=d*pi/180
        y=gu.y_proj_phys(re,d,q); x=gu.x_proj_phys(re,d,q)
        # the ellipse of semi-major axis re (along the major axis, misaligned by d from the slit) crosses the slit axis at y and the cross axis at x
        vc.ensure('slit-axis crossing is on the ellipse',both(finite(y),y>=0,(y*np.sin(a)/(q*re))**2+(y*np.cos(a)/re)**2==1))
        vc.ensure('cross-axis crossing is on the ellipse',both(finite(x),x>=0,(x*np.cos(a)/(q*re))**2+(x*np.sin(a)/re)**2==1))
    return E.hs
