"""Mechanical, per-run translation of /repo/misfit into verifiable form: the source text is parsed, the rewrites listed in
DROPS are applied to the syntax tree, and the result is executed on symbolic values."""
import ast, sys, os, types, importlib, importlib.abc, importlib.machinery, builtins
from . import core, arrays, npshim
from .core import S,SB,CTX,K,Unsupported,lift_s
from .arrays import Arr
from . import terms as tm
from . import loops

REWRITES=["float literals become the exact decimal they spell","int/int division is exact rational division",
 "for-loop bodies become closures run by the loop rule (concrete loops run natively)",
 "bare 'except:' becomes 'except Exception:' so that the verifier's own control exceptions pass through",
 "numpy, scipy, astropy, lmfit, emcee, numba, matplotlib are replaced by contract shims"]

class Tr(ast.NodeTransformer):
    def __init__(s): s.k=0; s.fn=[]
    def visit_Constant(s,n):
        if isinstance(n.value,float):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('_vc',ast.Load()),'K',ast.Load()),[ast.Constant(s.lit(n))],[]),n)
        return n
    def lit(s,n):
        seg=ast.get_source_segment(s.src,n)
        return seg if seg else repr(n.value)
    def visit_JoinedStr(s,n): return n
    def visit_MatchValue(s,n): return n
    def visit_BinOp(s,n):
        s.generic_visit(n)
        if isinstance(n.op,ast.Div):
            return ast.copy_location(s.call('div',[n.left,n.right]),n)
        if isinstance(n.op,ast.Pow): return ast.copy_location(s.call('pow',[n.left,n.right]),n)
        return n
    def visit_AugAssign(s,n):
        s.generic_visit(n)
        if isinstance(n.op,ast.Div) and isinstance(n.target,ast.Name):
            return ast.copy_location(ast.Assign([ast.Name(n.target.id,ast.Store())],s.call('idiv',[ast.Name(n.target.id,ast.Load()),n.value])),n)
        return n
    def call(s,f,args): return ast.Call(ast.Attribute(ast.Name('_vc',ast.Load()),f,ast.Load()),args,[])
    def visit_ExceptHandler(s,n):
        s.generic_visit(n)
        if n.type is None or (isinstance(n.type,ast.Name) and n.type.id=='BaseException'): n.type=ast.Name('Exception',ast.Load())
        return n
    def visit_ListComp(s,n): return s.comp(n,'listcomp')
    def visit_GeneratorExp(s,n): return s.comp(n,'listcomp')
    def comp(s,n,name):
        s.generic_visit(n)
        if len(n.generators)!=1 or n.generators[0].is_async: return n
        g=n.generators[0]
        # _vc.listcomp(iter, lambda __c: [elt for target in [__c]], lambda __c: [cond for ..])
        one=ast.Subscript(ast.ListComp(n.elt,[ast.comprehension(g.target,ast.List([ast.Name('__c',ast.Load())],ast.Load()),[],0)]),ast.Constant(0),ast.Load())
        lam=ast.Lambda(ast.arguments([],[ast.arg('__c')],None,[],[],None,[]),one)
        if g.ifs:
            cond=g.ifs[0] if len(g.ifs)==1 else ast.BoolOp(ast.And(),g.ifs)
            co=ast.Subscript(ast.ListComp(cond,[ast.comprehension(g.target,ast.List([ast.Name('__c',ast.Load())],ast.Load()),[],0)]),ast.Constant(0),ast.Load())
            cl=ast.Lambda(ast.arguments([],[ast.arg('__c')],None,[],[],None,[]),co)
        else: cl=ast.Constant(None)
        return ast.copy_location(s.call('listcomp',[g.iter,lam,cl]),n)
    def visit_FunctionDef(s,n):
        s.fn.append(dict(loopvars=set(),globals=set(),yields=False,params={a.arg for a in n.args.args+n.args.kwonlyargs+n.args.posonlyargs}))
        for x in ast.walk(n):
            if isinstance(x,(ast.Yield,ast.YieldFrom)): s.fn[-1]['yields']=True
            if isinstance(x,ast.Global): s.fn[-1]['globals']|=set(x.names)
        s.generic_visit(n)
        f=s.fn.pop()
        names=sorted(f['loopvars']-f['globals'])
        if names:
            doc=1 if (n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str)) else 0
            # make every loop-assigned name a local of this function without binding it
            dummy=ast.If(ast.Constant(False),[ast.Assign([ast.Name(x,ast.Store())],ast.Constant(None)) for x in names],[])
            n.body.insert(doc,dummy)
        return n
    def visit_For(s,n):
        s.generic_visit(n)
        if not s.fn or s.fn[-1]['yields']: return n
        k=s.k; s.k+=1
        body=[LoopCtl().visit(x) for x in n.body]
        names=assigned(n.body)|assigned_target(n.target)
        names={x for x in names if not x.startswith('__loop') }
        names-=s.fn[-1]['globals']
        s.fn[-1]['loopvars']|=names
        fname='__loop%d'%k
        ctl=any(isinstance(x,(ast.Return,)) for b in n.body for x in walk_same_fn(b))
        fb=[]
        if names: fb.append(ast.Nonlocal(sorted(names)))
        fb.append(ast.Assign([n.target],ast.Name('__it',ast.Load())))
        fb+=body
        fd=ast.FunctionDef(fname,ast.arguments([],[ast.arg('__it')],None,[],[],None,[]),fb,[],None,None)
        if hasattr(fd,'type_params'): fd.type_params=[]
        rv='__loopret%d'%k
        s.fn[-1]['loopvars'].discard(rv)
        call=ast.Assign([ast.Name(rv,ast.Store())],s.call('loop',[n.iter,ast.Name(fname,ast.Load()),ast.Tuple([ast.Constant(x) for x in sorted(names)],ast.Load()),ast.Constant(n.lineno),s.call('frame',[])]))
        out=[fd,call]
        if contains_return(n.body):
            out.append(ast.If(ast.Call(ast.Name('isinstance',ast.Load()),[ast.Name(rv,ast.Load()),ast.Attribute(ast.Name('_vc',ast.Load()),'Ret',ast.Load())],[]),
                [ast.Return(ast.Attribute(ast.Name(rv,ast.Load()),'v',ast.Load()))],[]))
        if n.orelse:
            out.append(ast.If(ast.Compare(ast.Name(rv,ast.Load()),[ast.Is()],[ast.Constant(None)]),n.orelse,[]))
        return [ast.copy_location(x,n) for x in out]
    def visit_ClassDef(s,n):
        f=s.fn; s.fn=[]
        s.generic_visit(n); s.fn=f
        return n
class LoopCtl(ast.NodeTransformer):
    """break / continue / return of the loop being closed over (inner loops are already closures)"""
    def visit_Break(s,n): return ast.copy_location(ast.Return(ast.Attribute(ast.Name('_vc',ast.Load()),'BRK',ast.Load())),n)
    def visit_Continue(s,n): return ast.copy_location(ast.Return(ast.Constant(None)),n)
    def visit_Return(s,n):
        return ast.copy_location(ast.Return(ast.Call(ast.Attribute(ast.Name('_vc',ast.Load()),'Ret',ast.Load()),[n.value or ast.Constant(None)],[])),n)
    def visit_FunctionDef(s,n):
        return n
    def visit_While(s,n):
        # break/continue inside belong to the while
        for f in ('body','orelse'):
            setattr(n,f,[RetOnly().visit(x) for x in getattr(n,f)])
        return n
    def visit_Lambda(s,n): return n
    def visit_If(s,n):
        # the dispatch emitted for inner loops returns from the inner closure: re-wrap
        return s.generic_visit(n)
class RetOnly(LoopCtl):
    def visit_Break(s,n): return n
    def visit_Continue(s,n): return n
def contains_return(body):
    for b in body:
        for x in ast.walk(b):
            if isinstance(x,ast.Return): return True
    return False
def walk_same_fn(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if not isinstance(c,(ast.FunctionDef,ast.Lambda)): yield from walk_same_fn(c)
def assigned_target(t):
    return {x.id for x in ast.walk(t) if isinstance(x,ast.Name)}
def assigned(body):
    r=set()
    def w(n):
        if isinstance(n,ast.FunctionDef):
            if n.name.startswith('__loop'):
                for x in n.body:
                    if isinstance(x,ast.Nonlocal): r.update(x.names)
                return
            r.add(n.name); return
        if isinstance(n,(ast.Lambda,ast.ListComp,ast.GeneratorExp,ast.SetComp,ast.DictComp)): 
            return
        if isinstance(n,ast.Name) and isinstance(n.ctx,(ast.Store,ast.Del)): r.add(n.id)
        if isinstance(n,(ast.Import,ast.ImportFrom)):
            for a in n.names: r.add((a.asname or a.name).split('.')[0])
        if isinstance(n,ast.ExceptHandler) and n.name: r.add(n.name)
        for c in ast.iter_child_nodes(n): w(c)
    for b in body: w(b)
    return r

# ---------------------------------------------------------------- shadowed builtins
def v_len(x):
    if isinstance(x,Arr):
        if not x.dims: raise TypeError('len() of unsized object')
        s=x.dims[0].size()
        return int(s.v.const()) if s.v.is_const() else s
    if hasattr(x,'symlen'): return x.symlen()
    return builtins.len(x)
class _FloatMeta(type):
    def __instancecheck__(c,x): return isinstance(x,builtins.float) or (isinstance(x,S) and x.kind=='f')
    def __subclasscheck__(c,o): return issubclass(o,builtins.float)
class vfloat(metaclass=_FloatMeta):
    def __new__(c,x=0):
        if isinstance(x,S): return S(x.v,x.ok,'f')
        if isinstance(x,SB): return S(x.num().v,core.TRUE,'f')
        if isinstance(x,Arr):
            n=x.size
            if isinstance(n,builtins.int) and n==1:
                r=x.item(); return vfloat(r)
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        if isinstance(x,str):
            try: return K(x.strip())
            except ValueError: raise ValueError('could not convert string to float: %r'%x)
        if isinstance(x,(builtins.int,bool)): return S(tm.const(builtins.int(x)),core.TRUE,'f')
        if isinstance(x,builtins.float): return x
        return builtins.float(x)
    @staticmethod
    def fromhex(x): return builtins.float.fromhex(x)
vfloat.__name__='float'
class _IntMeta(type):
    def __instancecheck__(c,x): return isinstance(x,builtins.int) or (isinstance(x,S) and x.kind=='i')
    def __subclasscheck__(c,o): return issubclass(o,builtins.int)
class vint(metaclass=_IntMeta):
    def __new__(c,x=0,*a):
        if isinstance(x,S):
            if x.kind=='i': return x if not x.v.is_const() else builtins.int(x.v.const())
            if x.ok is not core.TRUE and not CTX.fork(x.ok): raise ValueError('cannot convert float NaN to integer')
            t=tm.trunc(x.v)
            return builtins.int(t.const()) if t.is_const() else S(t,core.TRUE,'i')
        if isinstance(x,SB): return x.num()
        if isinstance(x,Arr):
            n=x.size
            if isinstance(n,builtins.int) and n==1: return vint(x.item())
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return builtins.int(x,*a)
vint.__name__='int'
class _BoolMeta(type):
    def __instancecheck__(c,x): return isinstance(x,(builtins.bool,SB))
class vbool(metaclass=_BoolMeta):
    def __new__(c,x=False):
        if isinstance(x,SB): return x
        if isinstance(x,S): return core.mkb(core.tob(x))
        return builtins.bool(x)
vbool.__name__='bool'
class SymRange:
    def __init__(s,a,b,st=1): s.a=a; s.b=b; s.st=st
    def seq(s): return npshim.arange(s.a,s.b)
    def symlen(s):
        n=lift_s(s.b)-lift_s(s.a)
        return n if CTX.fork(core.le(core.ZERO,n.v)) else 0
    def __iter__(s): raise Unsupported('native iteration over a symbolic range')
    def __getitem__(s,i): return s.seq()[i]
    def __contains__(s,x): return bool((lift_s(s.a)<=x)) and bool(x<s.b)
def v_range(*a):
    a=[x.item() if isinstance(x,Arr) and not x.dims else x for x in a]
    for x in a:
        if isinstance(x,builtins.float) or (isinstance(x,S) and x.kind!='i'): raise TypeError("'float' object cannot be interpreted as an integer")
    if all(not isinstance(x,S) or x.v.is_const() for x in a): return builtins.range(*[builtins.int(x) for x in a])
    if len(a)==1: return SymRange(0,a[0])
    if len(a)==2 or (len(a)==3 and a[2]==1): return SymRange(a[0],a[1])
    raise Unsupported('range with a step over symbolic bounds')
def _ext(pick):
    def f(*a,**k):
        key=k.get('key'); 
        if len(a)==1:
            x=a[0]
            if isinstance(x,Arr):
                if len(x.dims)!=1: raise ValueError('truth value ambiguous')
                return x.max() if pick=='max' else x.min()
            x=list(v_iter(x))
            if not x:
                if 'default' in k: return k['default']
                raise ValueError('%s() arg is an empty sequence'%pick)
        else: x=list(a)
        if not any(isinstance(y,(S,SB,Arr)) for y in x): return getattr(builtins,pick)(x,**({'key':key} if key else {}))
        r=x[0]
        for y in x[1:]:
            if pick=='max': r=y if (y>r) else r
            else: r=y if (y<r) else r
        return r
    return f
def v_iter(x):
    if hasattr(x,'seq') and not isinstance(x,Arr): x=x.seq()
    return x
def v_abs(x):
    if isinstance(x,(S,Arr)): return x.__abs__()
    if isinstance(x,SB): return x.num()
    return builtins.abs(x)
def v_sum(x,start=0):
    if isinstance(x,Arr) and len(x.dims)==1: return start+x.sum()
    if hasattr(x,'seq'): return start+x.seq().sum()
    r=start
    for y in x: r=r+y
    return r
def v_round(x,n=None):
    if isinstance(x,S): return x.__round__(n)
    return builtins.round(x) if n is None else builtins.round(x,n)
def v_list(x=()):
    if isinstance(x,Arr): return x.tolist()
    if hasattr(x,'seq'): return x.seq()
    return builtins.list(x)
def v_sorted(x,**k):
    x=builtins.list(x)
    if any(isinstance(y,S) and not y.v.is_const() for y in x):
        if len(x)==2 and not k: return x if x[0]<=x[1] else [x[1],x[0]]
        raise Unsupported('sorted of symbolic values')
    return builtins.sorted(x,**k)
def v_any(x):
    if isinstance(x,loops.SymList): x=x.seq()
    if isinstance(x,Arr):
        if builtins.len(x.dims)!=1: raise Unsupported('any() over a symbolic array that is not one-dimensional')
        return x.any()
    return builtins.any(x)
def v_all(x):
    if isinstance(x,loops.SymList): x=x.seq()
    if isinstance(x,Arr):
        if builtins.len(x.dims)!=1: raise Unsupported('all() over a symbolic array that is not one-dimensional')
        return x.all()
    return builtins.all(x)
class SymZip:
    def __init__(s,parts,enum=None): s.parts=parts
    def symlen(s): return v_len(s.parts[0])
    def at(s,i): return tuple(loops.seq_at(p,i) for p in s.parts)
    def __iter__(s): raise Unsupported('native iteration over symbolic zip')
def _symlen(p):
    if isinstance(p,Arr): return p.dims and p.dims[0].const() is None
    return hasattr(p,'symlen') and isinstance(p.symlen(),S)
def v_zip(*a):
    if any(_symlen(p) for p in a): return SymZip(a)
    return builtins.zip(*a)
def v_enumerate(x,start=0):
    if _symlen(x):
        n=v_len(x)
        return SymZip((SymRange(start,n+start),x))
    return builtins.enumerate(x,start)
def v_map(f,*a):
    if any(_symlen(p) for p in a): raise Unsupported('map over symbolic sequence')
    return builtins.map(f,*a)
def v_isinstance(x,c):
    return builtins.isinstance(x,c)
def v_print(*a,**k): pass
def v_input(*a): raise EOFError
SHADOW=dict(len=v_len,float=vfloat,int=vint,range=v_range,max=_ext('max'),min=_ext('min'),abs=v_abs,sum=v_sum,round=v_round,
  list=v_list,sorted=v_sorted,zip=v_zip,enumerate=v_enumerate,map=v_map,print=v_print,any=v_any,all=v_all,input=v_input)
# 'list' is also used as a type in isinstance checks
class _ListMeta(type):
    def __instancecheck__(c,x): return builtins.isinstance(x,builtins.list)
class vlist(metaclass=_ListMeta):
    def __new__(c,x=()): return v_list(x)
SHADOW['list']=vlist

class VC:
    K=staticmethod(K)
    @staticmethod
    def div(a,b):
        if isinstance(a,(builtins.int,builtins.float)) and isinstance(b,(builtins.int,builtins.float)):
            if isinstance(b,builtins.int) and b==0: raise ZeroDivisionError('division by zero')
            return lift_s(a)/b
        if isinstance(a,S) and isinstance(b,S) and False: pass
        return a/b
    @staticmethod
    def idiv(a,b):
        if isinstance(a,(builtins.int,builtins.float)): return lift_s(a)/b
        if isinstance(a,Arr): return a.__itruediv__(b)
        return a/b
    @staticmethod
    def pow(a,b):
        if isinstance(a,builtins.int) and isinstance(b,builtins.int) and b<0: return lift_s(a)**b
        if isinstance(a,builtins.float) and not isinstance(b,(S,Arr)): return a**b
        return a**b
    BRK=loops.BRK; Ret=loops.Ret
    loop=staticmethod(loops.loop)
    listcomp=staticmethod(loops.listcomp)
    @staticmethod
    def frame(): return None
    @staticmethod
    def iter_seq(x):
        if isinstance(x,loops.SymList): return x.seq()
        if isinstance(x,Arr) or isinstance(x,(list,tuple)): return x
        return list(builtins.iter(x))
_vc=VC

# ---------------------------------------------------------------- import machinery
class Finder(importlib.abc.MetaPathFinder,importlib.abc.Loader):
    def __init__(s,repo,shims):
        s.repo=repo; s.shims=shims; s.loaded={}
    def find_spec(s,name,path=None,target=None):
        if name=='misfit' or name.startswith('misfit.'):
            p=os.path.join(s.repo,*name.split('.'))
            if os.path.isdir(p) and os.path.exists(os.path.join(p,'__init__.py')):
                return importlib.machinery.ModuleSpec(name,s,origin=os.path.join(p,'__init__.py'),is_package=True)
            if os.path.exists(p+'.py'): return importlib.machinery.ModuleSpec(name,s,origin=p+'.py')
            return None
        return None
    def create_module(s,spec):
        m=types.ModuleType(spec.name)
        return m
    def exec_module(s,m):
        spec=m.__spec__
        src=open(spec.origin,encoding='utf8').read()
        m.__file__=spec.origin
        if spec.submodule_search_locations is not None: m.__path__=[os.path.dirname(spec.origin)]
        s.loaded[spec.name]=spec.origin
        code=translate(src,spec.origin)
        d=m.__dict__
        d.update(SHADOW); d['_vc']=VC
        b=dict(builtins.__dict__)
        b['__import__']=s.imp
        d['__builtins__']=b
        exec(code,d)
        # names the module itself defines win over the shadows automatically (same namespace)
    def imp(s,name,globals=None,locals=None,fromlist=(),level=0):
        if level==0:
            root=name.split('.')[0]
            if root in s.shims:
                m=s.shims[root]
                if fromlist:
                    for part in name.split('.')[1:]: m=getattr(m,part)
                    return m
                return m
            if root in('misfit',)or root in STD: return builtins.__import__(name,globals,locals,fromlist,level)
            raise ImportError('No module named %s (not available to the verifier)'%name)
        return builtins.__import__(name,globals,locals,fromlist,level)
STD={'os','sys','copy','__future__','contextlib','multiprocessing','time','datetime','pickle','six','math','itertools','functools','collections','warnings','logging','glob','re','operator','numbers','string','types','random','abc','typing','dataclasses'}
def _stmts(body):
    """every statement list of one function, inner functions excluded"""
    yield body
    for x in body:
        if isinstance(x,(ast.FunctionDef,ast.ClassDef)): continue
        for f in('body','orelse','finalbody'):
            if getattr(x,f,None): yield from _stmts(getattr(x,f))
        for h in getattr(x,'handlers',[]): yield from _stmts(h.body)
def iterators(fn):
    """x=iter(E) … v=next(x): the position becomes a variable of its own (x[pos]; pos+=1), so that the loop rule sees it.  Only for a
    name assigned once and used in no other way, one next() per simple statement; running off the end is an exception either way."""
    src=ast.dump(fn)
    if "id='next'" not in src or 'StopIteration' in src: return
    isnext=lambda c: isinstance(c,ast.Call) and isinstance(c.func,ast.Name) and c.func.id=='next' and len(c.args)==1 and not c.keywords and isinstance(c.args[0],ast.Name)
    asg={}; 
    for b in _stmts(fn.body):
        for x in b:
            if isinstance(x,ast.Assign) and len(x.targets)==1 and isinstance(x.targets[0],ast.Name) and isinstance(x.value,ast.Call) and isinstance(x.value.func,ast.Name) and x.value.func.id=='iter' and len(x.value.args)==1: asg.setdefault(x.targets[0].id,[]).append(x)
    for nm,a in asg.items():
        if len(a)!=1: continue
        uses=sum(isinstance(x,ast.Name) and x.id==nm for x in ast.walk(fn)); sites=[]
        for b in _stmts(fn.body):
            for x in b:
                if isinstance(x,(ast.Assign,ast.AugAssign,ast.Expr)):
                    c=[y for y in walk_same_fn(x) if isnext(y) and y.args[0].id==nm and not any(isinstance(z,(ast.IfExp,ast.BoolOp,ast.ListComp,ast.GeneratorExp)) for z in ast.walk(x))]
                    if c: sites.append((b,x,c))
        if not sites or any(len(c)!=1 for _,_,c in sites) or uses!=1+len(sites): continue
        pos=nm+'__pos'; name=lambda n,ctx: ast.Name(n,ctx)
        for b,x,(c,) in sites:
            class R(ast.NodeTransformer):
                def visit_Call(s,n): return ast.copy_location(ast.Subscript(name(nm,ast.Load()),name(pos,ast.Load()),ast.Load()),n) if n is c else s.generic_visit(n)
            i=[k for k,y in enumerate(b) if y is x][0]; R().visit(x); b.insert(i+1,ast.copy_location(ast.AugAssign(name(pos,ast.Store()),ast.Add(),ast.Constant(1)),x))
        x=a[0]; x.value=ast.copy_location(ast.Call(ast.Attribute(name('_vc',ast.Load()),'iter_seq',ast.Load()),x.value.args,[]),x)
        for b in _stmts(fn.body):
            k=[k for k,y in enumerate(b) if y is x]
            if k: b.insert(k[0]+1,ast.copy_location(ast.Assign([name(pos,ast.Store())],ast.Constant(0)),x)); break
def translate(src,fname):
    tree=ast.parse(src,fname)
    for f in ast.walk(tree):
        if isinstance(f,ast.FunctionDef): iterators(f)
    t=Tr(); t.src=src
    tree=t.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree,fname,'exec')
class MathShim(types.ModuleType):
    def __getattr__(s,n):
        if n=='pi': return npshim.pi
        if n in('inf','nan'): return getattr(npshim,n)
        m={'fabs':'abs','ceil':None,'floor':None,'asin':'arcsin','acos':'arccos','atan':'arctan','pow':'power'}
        if n in('ceil','floor'):
            f=getattr(npshim,n)
            return lambda x: vint(f(x))
        return getattr(npshim,m.get(n,n))
