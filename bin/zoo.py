"""Allocator compositions. One description of a composition yields both the C++ type that the driver
instantiates and the tree that the TLA+ specs interpret."""
import itertools, json

class T:
    def __init__(s, k, **a): s.k=k; s.__dict__.update(a)

_id=[0]
def probe(owns=1,con=0,max=0,kind='probe'): return T('lf',owns=owns,con=con,max=max,kind=kind)
def lf(max=0): return probe(1,0,max)
def lfn(max=0): return probe(0,0,max)          # does not answer ownership queries
def lfc(max=0): return probe(1,1,max)          # constructs
def hd(owns=1,con=0,max=0): return probe(owns,con,max,'hprobe')   # handle, copies share the state
def sp(owns=1,con=0,max=0): return probe(owns,con,max,'sprobe')   # stateless
def lin(n): return T('lin',size=n)
def stk(n): return T('stk',size=n)
def mal(): return T('mal')
def nul(): return T('nul')
def fb(*l): return T('fb',l=list(l),b=None)
def fbmin(*l): return T('fb',l=list(l),b='min')
def fbmax(*l): return T('fb',l=list(l),b='max')
def sg(t,p,f): return T('sg',l=[p,f],t=[t],b=None)
def sgmin(*a): return T('sg',l=list(a[0::2]),t=list(a[1::2]),b='min')
def sgmax(*a): return T('sg',l=list(a[0::2]),t=list(a[1::2]),b='max')
def fl(lo,hi,a): return T('fl',lo=lo,hi=hi,a=a)
def ca(a): return T('ca',a=a)
def ov(a,os=0): return T('ov',a=a,os=os)
def sh(a,atomic=0): return T('sh',a=a,atomic=atomic)
def th(a): return T('th',a=a)
def rf(a): return T('rf',a=a)
def gl(a): return T('gl',a=a)
def ty(t,a): return T('ty',t=t,a=a)            # t: C++ element type, or size

def kids(t):
    if t.k in('fb','sg'): return t.l
    return [t.a] if hasattr(t,'a') else []
def leaves(t):
    return [t] if not kids(t) else [x for c in kids(t) for x in leaves(c)]
def number(t):
    for i,l in enumerate(leaves(t)): l.id=i+1
    n=[0]
    def go(x):
        n[0]+=1; x.node=n[0]
        for c in kids(x): go(c)
    go(t)
    m=[0]
    def go2(x):
        if x.k=='ov': x.ovi=m[0]; m[0]+=1
        for c in kids(x): go2(c)
    go2(t)
    return t
TS={'Obj':8}
def tysize(t): return TS[t.t] if t.t in TS else int(t.t)
def cpp(t):
    k=t.k
    if k=='lf': return 'V::%s<%d,%d,%d>'%(t.kind,t.id,t.owns|2*t.con,t.max)
    if k=='lin': return 'ktl::linear_allocator<%d>'%t.size
    if k=='stk': return 'ktl::stack_allocator<%d>'%t.size
    if k=='mal': return 'ktl::mallocator'
    if k=='nul': return 'ktl::null_allocator'
    if k=='fb':
        if t.b: return 'ktl::fallback_builder_%s<%s>'%(t.b,','.join(map(cpp,t.l)))
        r=cpp(t.l[-1])
        for x in reversed(t.l[:-1]): r='ktl::fallback<%s,%s>'%(cpp(x),r)
        return r
    if k=='sg':
        if t.b:
            a=[cpp(t.l[0])]
            for th_,x in zip(t.t,t.l[1:]): a+=['ktl::threshold<%d>'%th_,cpp(x)]
            return 'ktl::segragator_builder_%s<%s>'%(t.b,','.join(a))
        return 'ktl::segragator<%d,%s,%s>'%(t.t[0],cpp(t.l[0]),cpp(t.l[1]))
    if k=='fl': return 'ktl::freelist<%d,%d,%s>'%(t.lo,t.hi,cpp(t.a))
    if k=='ca': return 'ktl::cascading<%s>'%cpp(t.a)
    if k=='ov': return 'ktl::overflow<%s,%s>'%(cpp(t.a),'std::ostream' if t.os else 'V::Rec')
    if k=='sh': return ('ktl::atomic_shared<%s>' if t.atomic else 'ktl::shared<%s>')%cpp(t.a)
    if k=='th': return 'ktl::threaded<%s>'%cpp(t.a)
    if k=='rf': return 'ktl::reference<%s>'%cpp(t.a)
    if k=='gl': return 'ktl::global<%s>'%cpp(t.a)
    if k=='ty': return 'ktl::type_allocator<%s,%s>'%(t.t if t.t=='Obj' else 'V::Pay<%d>'%tysize(t) if tysize(t)%16 else 'V::APay<%d>'%tysize(t),cpp(t.a))
    raise Exception(k)
def args(t):
    """constructor arguments (C++ expressions in terms of the variable v)"""
    k=t.k
    if k in('lf','lin','mal','nul','gl'): return []
    if k=='stk': return ['V::STK<%d>(v,%d)'%(t.size,t.node)]
    if k in('sh','th','fl','ty'): return args(t.a)
    if k=='ca': assert not args(t.a); return []
    if k=='ov': return ['V::%s(v,%d)'%('OSS' if t.os else 'REC',t.ovi)]+args(t.a)
    if k=='rf':
        a=args(t.a); c=cpp(t.a)
        return ['V::LOCAL<%s>(v,%d,[&](void* m){ return ::new(m) %s%s; })'%(c,t.node,c,'('+','.join(a)+')' if a else '()')]
    if k in('fb','sg'):
        if len(t.l)>2: assert not any(args(x) for x in t.l); return []
        p,f=args(t.l[0]),args(t.l[1])
        if not p and not f: return []
        tup=lambda a: 'std::forward_as_tuple(%s)'%','.join(a)
        if p and not f: return [tup(p)]
        return [tup(p),tup(f)]
    raise Exception(k)
def root(t):
    return root(t.a) if t.k=='ty' else t.k if t.k in('sh','rf','gl') else 'val'
def deepcopyable(t):
    "copying is possible and the specs know what it means"
    k=t.k
    if k=='lf': return t.kind!='probe'
    if k in('stk','mal','nul','sh','rf','gl'): return True
    if k in('lin','fl','ca','th'): return False
    if k=='ov': return False   # copies double the accounting; copying an overflow allocator in use is out of contract
    return all(deepcopyable(c) for c in kids(t)) and (k=='ty' or not any(nested(c) for c in kids(t)))
def nested(t): return t.k in('sh','rf','gl') or any(nested(c) for c in kids(t))
def haslin(t): return t.k=='lin' or any(haslin(c) for c in kids(t))
def movable(t):
    k=t.k
    if k=='lf': return t.kind!='probe'
    if k in('stk','mal','nul','sh','rf','gl'): return True
    if k=='ca': return True
    if k=='lin': return True
    if k in('th','ov'): return False
    if k=='fl' and haslin(t): return False   # the kept blocks would be left behind
    if k=='ty': return deepcopyable(t.a)
    return all(movable(c) for c in kids(t)) and not any(nested(c) for c in kids(t))
def cxxmovable(t):
    if t.k=='lf': return t.kind!='probe'
    if t.k=='th': return False
    if t.k in('ca','sh','rf','gl'): return True
    return all(cxxmovable(c) for c in kids(t))
def copyassignable(t): return deepcopyable(t)
def nounder(t):
    "the type is usable by type_allocator only if its copy constructor does not throw"
    return True
def hasown(t):
    k=t.k
    if k=='lf': return bool(t.owns)
    if k in('lin','stk','nul','ca'): return True
    if k=='mal': return False
    if k in('fb','sg'): return all(hasown(c) for c in t.l)
    return hasown(t.a)
def maxsize(t):
    "static bound on the size of a request that is reported, or 0 when none is"
    k=t.k
    if k=='lf': return t.max
    if k in('lin','stk'): return t.size
    if k in('mal','nul'): return 0
    if k in('fb','sg'):
        m=[maxsize(c) for c in t.l]; return max(m) if all(m) else 0
    if k=='ty': return maxsize(t.a)//tysize(t)
    return maxsize(t.a)
def hascon(t):
    k=t.k
    if k=='lf': return bool(t.con)
    if k=='ov': return True
    if k in('lin','stk','mal','nul'): return False
    if k in('fb','sg'): return any(hascon(c) for c in t.l)
    return hascon(t.a)
def conok(t):
    "construct() compiles"
    if t.k=='sg':
        # needs ownership queries of the first one
        if not all(conok(c) for c in t.l): return False
        return hasown(t.l[0])
    return all(conok(c) for c in kids(t))
def js(t):
    k=t.k; d={'k':k}
    if k=='lf': d.update(id=t.id,owns=bool(t.owns),max=t.max,con=bool(t.con),st={'probe':'own','hprobe':'handle','sprobe':'none'}[t.kind])
    elif k in('lin','stk'): d.update(id=t.id,size=t.size,st='own' if k=='lin' else 'handle')
    elif k in('mal','nul'): d.update(id=t.id,st='none')
    elif k=='fb': d.update(l=[js(x) for x in t.l])
    elif k=='sg': d.update(l=[js(x) for x in t.l],t=t.t)
    elif k=='fl': d.update(lo=t.lo,hi=t.hi,a=js(t.a))
    elif k=='ty': d.update(sz=tysize(t),alt=24,a=js(t.a))
    elif k=='ov': d.update(a=js(t.a),ov=t.ovi)
    else: d.update(a=js(t.a))
    d['max']=maxsize(t); d['own']=hasown(t); d['con']=hascon(t)
    return d
def cfg_cpp(name,t):
    number(t)
    a=args(t); c=cpp(t)
    mv=movable(t)
    return '''struct Mk_%s { static void make(void* m, int v) { (void)v; ::new(m) %s%s; } };
static V::Reg reg_%s("%s", [] { return (V::Cfg*)new V::TCfg<%s, Mk_%s, %s, %s, %s>("%s", %s, %s, %s); });
'''%(name,c,'('+','.join(a)+')' if a else '()',name,name,c,name,'true' if deepcopyable(t) else 'false','true' if mv else 'false','true' if conok(t) and hascon(t) else 'false',name,'true' if t.k=='sh' else 'false','true' if root(t)=='gl' else 'false','true' if root(t)=='val' and haslin(t) else 'false')
def tu(cfgs):
    s='#include "alloc.h"\nusing V::Obj;\n'
    for n,t in cfgs: s+=cfg_cpp(n,t)
    return s
MAIN='#define V_MAIN\n#include "alloc.h"\nint main(int c, char** v) { return V::drive(c, v, [](const V::Test& t) { V::runAlloc(t, %s); }); }\n'
