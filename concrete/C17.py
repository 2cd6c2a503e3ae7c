import numpy as np, os, tempfile, shutil
from types import SimpleNamespace as NS
from misfit.general import io
from misfit.model import emission_lines_model as em
from misfit import galaxy as gl
MAXCASES=400
LINES=dict(HA6565=6564.60,HB4863=4862.71,OIII5008=5008.24,OIII4960=4960.295)
def run(t):
    r=t.rng; d=tempfile.mkdtemp(prefix='c17_')
    try: body(t,r,d)
    finally: shutil.rmtree(d)
def body(t,r,d):
    n=int(r.integers(1,7)); pool=['HA','HB','O3','O3b','HAx','h a'.replace(' ','')]; keys=[str(k) for k in r.choice(pool[:int(r.integers(2,7))],n)]
    a,b=np.round(r.uniform(3000,7000,n),2),np.round(r.uniform(0,1,n),4); q=str(r.choice(pool)); p=os.path.join(d,'t')
    t.input(keys=keys,request=q,a=a,b=b)
    def write(head,rows): open(p,'w').write('# '+head+'\n'+'\n'.join('  '.join(str(x) for x in row) for row in rows)+'\n')
    have=[i for i,k in enumerate(keys) if k==q]; i=have[0] if have else None
    def chk(name,f,want):
        if i is None: t.raises(name+', unknown key',f)
        else: t.same(name,f(),want)
    write('linename restwave strength',zip(keys,a,b)); chk('rest wavelength',lambda: io.read_restwave(p,linename=q),a[i] if have else 0); chk('strength',lambda: io.read_line_ratio(p,linename=q),b[i] if have else 0)
    write('linename wave_l wave_u',zip(keys,a,a+b)); chk('range',lambda: io.read_wave_range(p,linename=q),[a[i],float(str((a+b)[i]))] if have else 0)
    write('band sn_cutoff units',zip(keys,b,['u%d'%j for j in range(n)])); chk('sky cutoff',lambda: io.read_skyline_band_cutoff(p,band=q)[0],b[i] if have else 0)
    if have: t.ok('sky unit',io.read_skyline_band_cutoff(p,band=q)[1]=='u%d'%i)
    sets=[','.join(pool[:int(r.integers(1,4))][::int(r.choice([1,-1]))]) for _ in range(n)]
    write('name lineset',zip(keys,sets))
    if have: t.ok('line group',list(io.read_line_names(p,name=q))==sets[i].split(','),io.read_line_names(p,name=q),sets[i])
    else: t.raises('line group, unknown key',lambda: io.read_line_names(p,name=q))
    # line lists resolved in order
    L=[str(x) for x in r.permutation(list(LINES))[:int(r.integers(1,5))]]; hr,hq=bool(r.random()<.4),bool(r.random()<.4); mr,mq=r.uniform(1,9,len(L)),r.uniform(0,1,len(L)); t.input(lines=L,given_wavelengths=hr,given_ratios=hq)
    kw=dict(linenames_arr=list(L)); kw.update(dict(restwave_arr=mr) if hr else {}); kw.update(dict(flux_ratio_arr=mq) if hq else {})
    RT={'HA6565':1.,'HB4863':1.,'OIII5008':1.,'OIII4960':.333333}
    s=object.__new__(gl.ObsSpectrum2D); s.__dict__.update(dict(linenames_arr=None,linenames_param_filename=None,linegroup_name=None,restwave_arr=None,restwave_param_filename=None,flux_ratio_arr=None)); s.__dict__.update(kw); s.initialize_lineset()
    for nm,o in(('1D',em.EmissionLines1DModel(name='x',**kw)),('2D',s)):
        t.ok(nm+' lines',list(o.linenames_arr)==L); t.eq(nm+' wavelengths',o.restwave_arr,mr if hr else [LINES[x] for x in L]); t.eq(nm+' ratios',o.flux_ratio_arr,mq if hq else [RT[x] for x in L])
    g=em.EmissionLines1DModel(name='OIII'); t.ok('group',list(g.linenames_arr)==['OIII5008','OIII4960']); t.eq('group wavelengths',g.restwave_arr,[5008.24,4960.295]); t.raises('unknown group',lambda: em.EmissionLines1DModel(name='nope'))
