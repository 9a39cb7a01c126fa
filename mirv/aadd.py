"""Affine algebraic decision diagrams over F_p: canonical form of a field-valued function of many bits.
A value is (c,m,n): c + m*n, n a node id (0 = the constant 0, m=0 then).  Node = (var, lo, hi) with lo normalised."""
from .dom import *
class AD:
    def __init__(s,it,F):
        s.it=it; s.F=F; s.P=MOD[F]; s.tab={}; s.nodes=[None]; s.cache={}
    def const(s,c): return (c%s.P,0,0)
    def mk(s,v,lo,hi):
        P=s.P
        if lo==hi: return lo
        # subtract lo's constant, divide by the first non-zero of (lo.m, hi.c, hi.m)
        c=lo[0]; hc=(hi[0]-c)%P
        k=next(x for x in (lo[1],hc,hi[1]) if x); ki=pow(k,-1,P)
        key=(v,(lo[1]*ki%P,lo[2]),(hc*ki%P,hi[1]*ki%P,hi[2]))
        if key not in s.tab: s.tab[key]=len(s.nodes); s.nodes.append(key)
        return (c,k,s.tab[key])
    def cof(s,e,v):
        c,m,n=e
        if n and s.nodes[n][0]==v:
            _,lo,hi=s.nodes[n]
            return (c,m*lo[0]%s.P,lo[1]),((c+m*hi[0])%s.P,m*hi[1]%s.P,hi[2])
        return e,e
    def top(s,*es):
        return max([s.nodes[e[2]][0] for e in es if e[2]],default=None)
    def aff(s,e,k,c): 
        k%=s.P
        return ((e[0]*k+c)%s.P,e[1]*k%s.P,e[2] if e[1]*k%s.P else 0)
    def add(s,a,b):
        if not a[2]: return s.aff(b,1,a[0])
        if not b[2]: return s.aff(a,1,b[0])
        if a[2]==b[2]:
            m=(a[1]+b[1])%s.P; return ((a[0]+b[0])%s.P,m,a[2] if m else 0)
        P=s.P; k=b[1]*pow(a[1],-1,P)%P; key=('+',a[2],k,b[2])
        if key not in s.cache:
            v=s.top(a,b); a0,a1=s.cof((0,1,a[2]),v); b0,b1=s.cof((0,k,b[2]),v)
            s.cache[key]=s.mk(v,s.add(a0,b0),s.add(a1,b1))
        return s.aff(s.cache[key],a[1],a[0]+b[0])
    def mul(s,a,b):
        if not a[2]: return s.aff(b,a[0],0)
        if not b[2]: return s.aff(a,b[0],0)
        key=('*',)+tuple(sorted((a,b)))
        if key not in s.cache:
            v=s.top(a,b); a0,a1=s.cof(a,v); b0,b1=s.cof(b,v)
            s.cache[key]=s.mk(v,s.mul(a0,b0),s.mul(a1,b1))
        return s.cache[key]
    def bit(s,v): return s.mk(v,(0,0,0),(1,0,0))
    def ite(s,w,a,b):
        """w boolean polynomial"""
        r=s.add(a,s.aff(b,-1,0)); t=s.const(0)
        for m,c in w.p.items():
            x=s.const(c)
            for v in m: x=s.mul(x,s.bit(v))
            t=s.add(t,x)
        return s.add(b,s.mul(t,r))
    def poly(s,p):
        t=s.const(0)
        for m,c in p.items():
            x=s.const(c)
            for v in m: x=s.mul(x,s.bit(v))
            t=s.add(t,x)
        return t
class AV(Dom):
    __slots__=('D','e')
    def __init__(s,D,e): s.D=D; s.e=e
    def select(s,ctx,w,a,b): return AV(s.D,s.D.ite(w,lift(s.D,a),lift(s.D,b)))
    def eq(s,it,st,b): raise MirError('comparison of decision diagrams')
    def field(s,i): raise MirError('representation read')
def lift(D,v):
    if isinstance(v,AV): return v.e
    if isinstance(v,Agg) and v.k==D.F:
        l=[x.const for x in v.f[0].f]
        if None not in l: return D.const(sum(x<<(64*i) for i,x in enumerate(l))*pow(R,-1,D.P))
    raise MirError('not a diagram value')
def ad_contract(D):
    F=D.F
    def con(it,st,fr,q,args,argts):
        ty,tr,m=name_of(q)
        vs=[it.deref(st,a) if isinstance(a,Ref) else a for a in args]
        if not any(isinstance(v,AV) for v in vs):
            if ty==F and not args and m in('zero','one','default'): return [(st,AV(D,D.const(int(m=='one'))))]
            if ty==F and m in('from_u64','from_u128','from') and len(vs)==1 and isinstance(vs[0],I): return [(st,AV(D,D.poly(vs[0].p)))]
            return None
        if m in('clone','conditional_assign','conditional_swap','conditional_negate'): return None
        one=lambda e:(it.used_contracts.add(f'{F}::{m}'),[(st,AV(D,e))])[1]
        f=lambda i: lift(D,vs[i])
        k=ASSIGN.get(m,m)
        r=None
        if k in('add','sub','mul') and len(vs)==2:
            a,b=f(0),f(1); r=D.add(a,b) if k=='add' else D.add(a,D.aff(b,-1,0)) if k=='sub' else D.mul(a,b)
        elif m=='neg': r=D.aff(f(0),-1,0)
        elif m=='double': r=D.aff(f(0),2,0)
        elif m=='square': r=D.mul(f(0),f(0))
        elif m=='conditional_select': return one(D.ite(it.sub_assume(st,vs[2].f[0]),f(1),f(0)))
        if r is None: return None
        if m in ASSIGN: it.setref(st,args[0],AV(D,r)); it.used_contracts.add(f'{F}::{m}'); return [(st,UNIT)]
        return one(r)
    return con
