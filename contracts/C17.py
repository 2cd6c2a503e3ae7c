from dv.dsl import *
from contracts.common import *
META=dict(functions=['io.read_line_names','io.read_restwave','io.read_line_ratio','io.read_wave_range','io.read_skyline_band_cutoff','galaxy.ObsSpectrum2D.initialize_lineset','galaxy.ObsSpectrum2D.initialize_skylevels','emission_lines_model.EmissionLines1DModel.__init__','emission_lines_model.EmissionLines1DModel.setAttr','fit2D.FitEmissionLines2D.setup'],
 assumptions=['keys are compared for equality only (abstract identities)'],
 trusted=['astropy.io.ascii.read parses the file into columns of equal length, in file order'])
class Text:
    """cell of a text column: only its identity and split() are used"""
    def __init__(s,row): s.row=row
    def split(s,sep=None,*a): return ('split',s.row,sep)+a
class TextCol:
    def __init__(s,n): s.n=n
    def __getitem__(s,k): return Text(lift_s(k) if not isinstance(k,S) else k)
class Table(dict): pass
def harnesses(E):
    io=E.mod('misfit.general.io'); gl=E.mod('misfit.galaxy'); em=E.mod('misfit.model.emission_lines_model'); f2=E.mod('misfit.fit.fit2D')
    def table(vc,key,*cols,text=()):
        n=vc.int_('rows',0); t=Table({key:vc.arr('key',(n,),'i')}); t.update({c:vc.arr(c,(n,)) for c in cols}); t.update({c:TextCol(n) for c in text}); seen=[]
        def read(fn,*a,**k): seen.append((fn,k.get('format'))); return t
        return t,n,read,seen
    def first(vc,t,key,n,q):
        """an arbitrary row that is the first one with the requested key"""
        r=vc.int_('row',0); vc.assume(r<n); vc.assume(t[key][r]==q)
        vc.assume(np.all(lam((n,),lambda j: imp(j<r,no(t[key][j]==q)),'b')))
        return r
    def none(vc,t,key,n,q): vc.assume(np.all(lam((n,),lambda j: no(t[key][j]==q),'b')))
    look=dict(rest=(io.read_restwave,'linename','linename',('restwave','strength')),ratio=(io.read_line_ratio,'linename','linename',('restwave','strength')),range=(io.read_wave_range,'linename','linename',('wave_l','wave_u')),sky=(io.read_skyline_band_cutoff,'band','band',('sn_cutoff','units')),names=(io.read_line_names,'name','name',('lineset',)))
    title=dict(rest='rest wavelength',ratio='line strength',range='wavelength range',sky='sky threshold',names='line group')
    def call(vc,nm):
        fn,key,arg,cols=look[nm]; t,n,read,seen=table(vc,key,*([] if nm=='names' else cols),text=cols if nm=='names' else ()); q=vc.int_('request')
        return t,n,key,q,read,seen,lambda f='some file': fn(f,**{arg:q})
    for nm in look:
        @E.h(title[nm])
        def h(vc,nm=nm):
            t,n,key,q,read,seen,f=call(vc,nm); r=first(vc,t,key,n,q)
            with patched((io,'_ascii',NS(read=read))): v=f()
            vc.ensure('the named file is read',len(seen)>0 and all(s==('some file','commented_header') for s in seen))
            if nm=='rest': vc.ensure('of the first row with that key',v==t['restwave'][r])
            elif nm=='ratio': vc.ensure('of the first row with that key',v==t['strength'][r])
            elif nm=='range':
                vc.ensure('two limits',v.shape==(2,)); vc.ensure('lower then upper limit of the first row with that key',both(v[0]==t['wave_l'][r],v[1]==t['wave_u'][r]))
            elif nm=='sky': vc.ensure('cutoff and unit of the first row with that key',both(v[0]==t['sn_cutoff'][r],v[1]==t['units'][r],len(v)==2))
            else: vc.ensure('member lines of the first row with that key, split at commas',both(v[0]=='split',v[1]==r,v[2]==',',len(v)==3))
            if nm!='names': vc.canary('row zero',(v[0] if nm in('range','sky') else v)==t[look[nm][3][0]][0])
        @E.h(title[nm]+', no such key')
        def h(vc,nm=nm):
            t,n,key,q,read,seen,f=call(vc,nm); none(vc,t,key,n,q)
            with patched((io,'_ascii',NS(read=read))): vc.ensure('an error',vc.raises(Exception,f))
    # resolving a list of lines, given the look-ups' contracts
    REST,RATIO,CUT=fn1('rest_of'),fn1('ratio_of'),fn1('cutoff_of')
    def lookups(files):
        def rw(fn,linename=None): files.append(fn); return REST(linename)
        def rr(fn,linename=None): files.append(fn); return RATIO(linename)
        return rw,rr
    def lines(vc,nm='lines'): return vc.arr('line_'+nm,(vc.int_(nm,0),),'i')
    def spec(vc,**kw):
        s=object.__new__(gl.ObsSpectrum2D); s.__dict__.update(dict(linenames_arr=None,linenames_param_filename=None,linegroup_name=None,restwave_arr=None,restwave_param_filename=None,flux_ratio_arr=None,band=None,band_cutoff=None,band_cutoff_units=None,band_cutoff_param_filename=None)); s.__dict__.update(kw); return s
    def libfile(f,nm): return isinstance(f,str) and f.endswith('misfit/lib/'+nm)
    for hl in(0,1):
        for hr in(0,1):
            for hq in(0,1):
                tag=', '.join([x for x,b in(('lines',hl),('wavelengths',hr),('ratios',hq)) if b]) or 'nothing'
                @E.h('2D line set, given: '+tag)
                def h(vc,hl=hl,hr=hr,hq=hq):
                    files=[]; names=[]; rw,rr=lookups(files); L=lines(vc); g=vc.int_('group')
                    def rn(fn,name=None): names.append((fn,name)); return L
                    kw=dict(linegroup_name=g)
                    if hl: kw['linenames_arr']=L
                    if hr: kw['restwave_arr']=vc.arr('my_rest',(L.shape[0],))
                    if hq: kw['flux_ratio_arr']=vc.arr('my_ratio',(L.shape[0],))
                    s=spec(vc,**kw)
                    with patched((io,'read_restwave',rw),(io,'read_line_ratio',rr),(io,'read_line_names',rn)): s.initialize_lineset()
                    vc.ensure_eq('lines',s.linenames_arr,L)
                    vc.ensure('group looked up only when no lines are given',len(names)==(0 if hl else 1))
                    if names: vc.ensure('of the requested group',both(names[0][1]==g,libfile(names[0][0],'line_names_cat.dat')))
                    vc.ensure_eq('rest wavelengths aligned with the lines',s.restwave_arr,kw['restwave_arr'] if hr else lam(L.shape,lambda i: REST(L[i])))
                    vc.ensure_eq('flux ratios aligned with the lines',s.flux_ratio_arr,kw['flux_ratio_arr'] if hq else lam(L.shape,lambda i: RATIO(L[i])))
                    vc.ensure('from the library table',all(libfile(f,'line_wavelengths_ratios.dat') for f in files))
                @E.h('1D line group, given: '+tag)
                def h(vc,hl=hl,hr=hr,hq=hq):
                    files=[]; names=[]; rw,rr=lookups(files); L=lines(vc); g=vc.int_('group')
                    def rn(fn,name=None): names.append((fn,name)); return L
                    kw=dict(name=g)
                    if hl: kw['linenames_arr']=L
                    if hr: kw['restwave_arr']=vc.arr('my_rest',(L.shape[0],))
                    if hq: kw['flux_ratio_arr']=vc.arr('my_ratio',(L.shape[0],))
                    with patched((io,'read_restwave',rw),(io,'read_line_ratio',rr),(io,'read_line_names',rn)): s=em.EmissionLines1DModel(**kw)
                    vc.ensure_eq('lines',s.linenames_arr,L)
                    vc.ensure('group looked up only when no lines are given',len(names)==(0 if hl else 1))
                    if names: vc.ensure('of the requested group',both(names[0][1]==g,libfile(names[0][0],'line_names_cat.dat')))
                    vc.ensure_eq('rest wavelengths aligned with the lines, given ones kept',s.restwave_arr,kw['restwave_arr'] if hr else lam(L.shape,lambda i: REST(L[i])))
                    vc.ensure_eq('flux ratios aligned with the lines, given ones kept',s.flux_ratio_arr,kw['flux_ratio_arr'] if hq else lam(L.shape,lambda i: RATIO(L[i])))
                    vc.ensure('from the library table',all(libfile(f,'line_wavelengths_ratios.dat') for f in files))
    @E.h('2D line set, own tables')
    def h(vc):
        files=[]; rw,rr=lookups(files); L=lines(vc); seen=[]
        def rn(fn,name=None): seen.append(fn); return L
        s=spec(vc,linegroup_name=vc.int_('group'),linenames_param_filename='A',restwave_param_filename='B')
        with patched((io,'read_restwave',rw),(io,'read_line_ratio',rr),(io,'read_line_names',rn)): s.initialize_lineset()
        vc.ensure('the given files are used',seen==['A'] and set(files)<={'B'})
    for given in(True,False):
        @E.h('sky threshold of a spectrum, '+('given' if given else 'from the table'))
        def h(vc,given=given):
            b=vc.int_('band'); seen=[]
            def rc(fn,band=None): seen.append(fn); return CUT(band),'unit'
            kw=dict(band=b)
            if given: kw.update(band_cutoff=vc.real('mine'),band_cutoff_units='own')
            s=spec(vc,**kw)
            with patched((io,'read_skyline_band_cutoff',rc)): s.initialize_skylevels()
            vc.ensure('threshold',s.band_cutoff==(kw['band_cutoff'] if given else CUT(b))); vc.ensure('unit',s.band_cutoff_units==('own' if given else 'unit'))
            vc.ensure('table',given or all(libfile(f,'band_sky_cutoff_mosfire.dat') for f in seen))
    for sp in('lines and values','lines only','nothing'):
        @E.h('2D fit set-up, spectrum knows '+sp)
        def h(vc,sp=sp):
            files=[]; rw,rr=lookups(files); L=lines(vc); q=[]; g=vc.int_('group')
            def rn(fn,name=None): q.append(name); return L
            s2=NS(linenames_arr=None,restwave_arr=None,flux_ratio_arr=None)
            if sp!='nothing': s2.linenames_arr=L
            if sp=='lines and values': s2.restwave_arr=vc.arr('my_rest',(L.shape[0],)); s2.flux_ratio_arr=vc.arr('my_ratio',(L.shape[0],))
            R0,Q0=s2.restwave_arr,s2.flux_ratio_arr
            f=object.__new__(f2.FitEmissionLines2D); f.__dict__.update(linenames_arr=None,restwave_arr=None,flux_ratio_arr=None,linegroup_name=g,skip_fit_prep_calcs=True,galaxy=NS(spec2D=s2),instrument=None)
            with patched((io,'read_restwave',rw),(io,'read_line_ratio',rr),(io,'read_line_names',rn)): f.setup()
            for o,w in((f,'fit'),(s2,'spectrum')):
                vc.ensure_eq('lines of the '+w,o.linenames_arr,L)
                vc.ensure_eq('rest wavelengths aligned, '+w,o.restwave_arr,R0 if R0 is not None else lam(L.shape,lambda i: REST(L[i])))
                vc.ensure_eq('flux ratios aligned, '+w,o.flux_ratio_arr,Q0 if Q0 is not None else lam(L.shape,lambda i: RATIO(L[i])))
            if q: vc.ensure('of the requested group',q[0]==g)
    return E.hs
