"""Symbolic integers: polynomials with integer coefficients over bounded integer atoms, plus the
solver context that discharges the verification conditions."""
import itertools, time
from .parse import MirError

EMPTY=()
def padd(a,b,k=1):
    r=dict(a)
    for m,c in b.items():
        v=r.get(m,0)+k*c
        if v: r[m]=v
        else: r.pop(m,None)
    return r
def pscale(a,k):
    return {m:c*k for m,c in a.items()} if k else {}
def pconst(c): return {EMPTY:c} if c else {}
def pkey(a): return tuple(sorted(a.items()))

class I:
    """integer value of a machine type: exact mathematical value as polynomial + interval"""
    __slots__=('p','lo','hi','ty')
    def __init__(s,p,lo,hi,ty): s.p=p;s.lo=lo;s.hi=hi;s.ty=ty
    @property
    def const(s):
        if not s.p: return 0
        if len(s.p)==1 and EMPTY in s.p: return s.p[EMPTY]
        return None
    def __repr__(s):
        c=s.const
        return f'I({c if c is not None else str(len(s.p))+"t"},{s.ty})'

WID={'u8':8,'u16':16,'u32':32,'u64':64,'u128':128,'usize':64,'i8':8,'i16':16,'i32':32,'i64':64,'i128':128,'isize':64}
def trange(ty):
    if ty=='bool': return (0,1)
    if ty=='char': return (0,0x10ffff)
    if ty=='nat': return (0,None)
    w=WID[ty]
    if ty[0]=='u': return (0,(1<<w)-1)
    return (-(1<<(w-1)),(1<<(w-1))-1)
def CI(c,ty): return I(pconst(c),c,c,ty)
TRUE=lambda: CI(1,'bool')
FALSE=lambda: CI(0,'bool')

class Atom:
    __slots__=('name','lo','hi','kind','d')
    def __init__(s,name,lo,hi,kind,d=None): s.name=name;s.lo=lo;s.hi=hi;s.kind=kind;s.d=d

class Ctx:
    def __init__(s):
        s.atoms=[]; s.facts=[]      # facts: ('ge',poly) poly>=0 ; ('eq',poly) ; ('iff',atom,rel,poly)
        s.memo={}; s.queries=0; s.solver_s=0.0; s.obl=[]   # (name, ok, backend, detail)
        s.wrapmemo={}; s.bitmemo={}; s.bitrels=[]
    # -- atoms
    def atom(s,name,lo,hi,kind='var',d=None):
        s.atoms.append(Atom(name,lo,hi,kind,d)); return len(s.atoms)-1
    def var(s,name,ty,lo=None,hi=None):
        a,b=trange(ty)
        lo=a if lo is None else lo; hi=b if hi is None else hi
        i=s.atom(name,lo,hi); return I({(i,):1},lo,hi,ty)
    def mmul(s,m,n):
        r=tuple(sorted(m+n))
        # boolean idempotence
        out=[]
        for x in r:
            A=s.atoms[x]
            if out and out[-1]==x and A.lo==0 and A.hi==1: continue
            out.append(x)
        return tuple(out)
    def pmul(s,a,b):
        r={}
        for m,c in a.items():
            for n,d in b.items():
                k=s.mmul(m,n); v=r.get(k,0)+c*d
                if v: r[k]=v
                else: r.pop(k,None)
        return r
    def mrange(s,m):
        lo,hi=1,1
        for x in m:
            A=s.atoms[x]
            if A.lo is None or A.hi is None: return None
            c=[lo*A.lo,lo*A.hi,hi*A.lo,hi*A.hi]; lo,hi=min(c),max(c)
        return lo,hi
    def prange(s,p):
        lo=hi=0
        for m,c in p.items():
            if m==EMPTY: lo+=c;hi+=c;continue
            r=s.mrange(m)
            if r is None: return None
            a,b=r
            if c>0: lo+=c*a;hi+=c*b
            else: lo+=c*b;hi+=c*a
        return lo,hi
    def mk(s,p,lo,hi,ty):
        if len(p)<=12:
            r=s.prange(p)
            if r: 
                lo=r[0] if lo is None else max(lo,r[0]); hi=r[1] if hi is None else min(hi,r[1])
        if lo is not None and lo==hi: p=pconst(lo)
        return I(p,lo,hi,ty)
    # -- division by a constant
    def fdiv(s,x,d):
        """floor(x/d) as (poly,lo,hi)"""
        lo,hi=x.lo//d,x.hi//d
        if lo==hi: return pconst(lo),lo,hi
        A={};B={}
        if all(c%d==0 for c in x.p.values()):
            return {m:c//d for m,c in x.p.items()},lo,hi
        if len(x.p)<=2:
            # floor((floor(B/k)+c)/d) = floor((B+ck)/(kd))
            t=[m for m in x.p if m!=EMPTY]
            if len(t)==1 and len(t[0])==1 and x.p[t[0]]==1 and s.atoms[t[0][0]].kind=='floor':
                B,k=s.atoms[t[0][0]].d; y=padd(B,pconst(x.p.get(EMPTY,0)*k))
                return s.fdiv(I(y,x.lo*k,x.hi*k+k-1,'nat'),k*d)
        for mode in (0,1):
            A={};B={}
            for m,c in x.p.items():
                r=c%d
                if mode==1 and r>d//2: r-=d
                if mode==0 and c<0 and c>-d: r=c
                q=(c-r)//d
                if q: A[m]=q
                if r: B[m]=r
            rg=s.prange(B)
            if rg and rg[0]//d==rg[1]//d:
                return padd(A,pconst(rg[0]//d)),lo,hi
        if hi-lo==1:
            rg=s.prange(x.p)
            if rg is None or rg[0]<x.lo or rg[1]>x.hi: s.addrange(x)
            b=s.bool_of('ge',padd(x.p,pconst(-(lo+1)*d)))
            return padd(b.p,pconst(lo)),lo,hi
        w=s.wrapmemo.get(pkey(x.p))
        if w and w[2]%d==0:
            q,_,_=s.fdiv(w[0],d); return padd(q,w[1],-(w[2]//d)),lo,hi
        # boolean function of one atom
        sup={a for m in x.p for a in m}
        if len(sup)==1:
            a=next(iter(sup)); At=s.atoms[a]
            if At.lo==0 and At.hi==1:
                v0=s.evalp(x.p,{a:0});v1=s.evalp(x.p,{a:1})
                return padd(pconst(v0//d),{(a,):v1//d-v0//d} if v1//d!=v0//d else {}),lo,hi
        # fresh atom for floor(B/d), B in nonneg-residue form, normalised by gcd
        best=None
        for mode in (0,1):
            A={};B={}
            for m,c in x.p.items():
                r=c%d
                if mode==1 and r>d//2: r-=d
                if mode==0 and -d<c<0: r=c
                q=(c-r)//d
                if q: A[m]=q
                if r: B[m]=r
            rg=s.prange(B); w=(rg[1]//d-rg[0]//d) if rg else None
            if best is None or (w is not None and (best[0] is None or w<best[0])): best=(w,A,B)
        A,B=best[1],best[2]
        import math
        g=d
        for m,c in B.items():
            if m!=EMPTY: g=math.gcd(g,c)
        dd=d
        if g>1:
            # floor((g*B' + c0)/ (g*d')) = floor((B' + floor(c0/g))/d')
            B={m:(c//g) for m,c in B.items()}; B={m:c for m,c in B.items() if c}; dd=d//g
        key=('fl',pkey(B),dd)
        rg=s.prange(B); bl=rg[0]//dd if rg else None; bh=rg[1]//dd if rg else None
        if not A:
            bl=lo if bl is None else max(bl,lo); bh=hi if bh is None else min(bh,hi)
        elif len(A)==1 and EMPTY in A:
            bl=lo-A[EMPTY] if bl is None else max(bl,lo-A[EMPTY]); bh=hi-A[EMPTY] if bh is None else min(bh,hi-A[EMPTY])
        if bl is not None and bh is not None and bh-bl==1:
            b=s.bool_of('ge',padd(B,pconst(-(bl+1)*dd)))
            if rg is None or (rg[0]//dd,rg[1]//dd)!=(bl,bh):
                s.addrange(x)
            return padd(A,padd(b.p,pconst(bl))),lo,hi
        if key not in s.memo:
            rg=s.prange(B); t=s.atom(f'floor{len(s.atoms)}',None,None,'floor',(B,dd))
            at=s.atoms[t]
            if rg: at.lo,at.hi=rg[0]//dd,rg[1]//dd
            if not A:
                at.lo=lo if at.lo is None else max(at.lo,lo); at.hi=hi if at.hi is None else min(at.hi,hi)
            # 0 <= B - dd*t <= dd-1
            f=padd(B,{(t,):-dd})
            s.facts.append(('ge',f)); s.facts.append(('ge',padd(pconst(dd-1),f,-1)))
            s.memo[key]=t
        t=s.memo[key]
        # the interval of x is a fact as well (it came from the operands' ranges)
        s.addrange(x)
        return padd(A,{(t,):1}),lo,hi
    def show(s,x):
        return ' + '.join(f'{hex(c)}*'+'*'.join(f'{s.atoms[a].name}[{s.atoms[a].lo},{s.atoms[a].hi}]' for a in m) for m,c in list(x.p.items())[:8])+f' in [{x.lo},{x.hi}]'
    def addrange(s,x):
        k=('rng',pkey(x.p),x.lo,x.hi)
        if k in s.memo: return
        s.memo[k]=1
        s.facts.append(('ge',padd(x.p,pconst(-x.lo)))); s.facts.append(('ge',padd(pconst(x.hi),x.p,-1)))
    def evalp(s,p,env):
        r=0
        for m,c in p.items():
            v=c
            for x in m: v*=env[x]
            r+=v
        return r
    def wrap(s,x,ty):
        """value of x reduced into machine type ty"""
        lo,hi=trange(ty)
        if lo<=x.lo and x.hi<=hi: return I(x.p,x.lo,x.hi,ty)
        if ty[0]=='i':
            if x.const is not None:
                w=WID[ty]; v=x.const & ((1<<w)-1)
                if v>>(w-1): v-=1<<w
                return CI(v,ty)
            raise MirError('symbolic signed wrap')
        d=hi+1
        q,ql,qh=s.fdiv(x,d)
        r=s.mk(padd(x.p,q,-d),0,hi,ty)
        if r.const is None: s.wrapmemo.setdefault(pkey(r.p),(x,q,d))
        return r
    # -- booleans
    def bool_of(s,rel,p):
        """0/1 I reifying  p>=0 ('ge') or p==0 ('eq')"""
        r=s.prange(p)
        if not p: return TRUE()
        if len(p)==1 and EMPTY in p:
            c=p[EMPTY]; return TRUE() if (c>=0 if rel=='ge' else c==0) else FALSE()
        if r:
            if rel=='ge':
                if r[0]>=0: return TRUE()
                if r[1]<0: return FALSE()
            else:
                if r[0]>0 or r[1]<0: return FALSE()
        sup={a for m in p for a in m}
        if len(sup)==1:
            a=next(iter(sup)); At=s.atoms[a]
            if At.lo==0 and At.hi==1:
                v=[s.evalp(p,{a:k}) for k in(0,1)]
                b=[int(x>=0 if rel=='ge' else x==0) for x in v]
                return I({k:c for k,c in {EMPTY:b[0],(a,):b[1]-b[0]}.items() if c},0,1,'bool')
        import math
        g=0
        for m,c in p.items():
            if m!=EMPTY: g=math.gcd(g,c)
        if g>1:
            c0=p.get(EMPTY,0)
            if rel=='eq' and c0%g: return FALSE()
            p={m:c//g for m,c in p.items()}
            if p.get(EMPTY,1)==0: p.pop(EMPTY)
        if len(sup)<=s.maxbool and all(s.atoms[a].lo==0 and s.atoms[a].hi==1 for a in sup):
            r=s.boolpoly(p,sorted(sup),lambda x:int(x>=0 if rel=='ge' else x==0))
            return s.mk(r,0,1,'bool')
        if rel=='eq':
            # normalise sign
            m0=min(p); 
            if p[m0]<0: p=pscale(p,-1)
        key=(rel,pkey(p))
        if key not in s.memo:
            t=s.atom(f'{rel}{len(s.atoms)}',0,1,'bool',(rel,p))
            s.facts.append(('iff',t,rel,p)); s.memo[key]=t
        return I({(s.memo[key],):1},0,1,'bool')
    maxbool=0
    def boolpoly(s,p,sup,f):
        """multilinear polynomial of f(p) over boolean atoms (Moebius transform)"""
        n=len(sup); v=[]
        for k in range(1<<n): v.append(f(s.evalp(p,{a:k>>i&1 for i,a in enumerate(sup)})))
        for i in range(n):
            for k in range(1<<n):
                if k>>i&1: v[k]-=v[k^(1<<i)]
        return {tuple(a for i,a in enumerate(sup) if k>>i&1):c for k,c in enumerate(v) if c}
    def boolprove(s,p,hyps,assume,maxn=12):
        """p==1 under the hypotheses, all boolean: True/False/None"""
        p=s.psub(p,assume or {}); sup={a for m in p for a in m}
        if not all(s.atoms[a].lo==0 and s.atoms[a].hi==1 for a in sup): return None
        hs=[]
        for h in hyps:
            hp=s.psub(h[1],assume or {}); hsup={a for m in hp for a in m}
            if h[0]=='eq' and hsup&sup and len(hsup|sup)<=maxn and all(s.atoms[a].lo==0 and s.atoms[a].hi==1 for a in hsup): hs.append(hp); sup|=hsup
        if len(sup)>maxn: return None
        sup=sorted(sup)
        for k in range(1<<len(sup)):
            env={a:k>>i&1 for i,a in enumerate(sup)}
            if s.evalp(p,env)!=1 and all(s.evalp(h,env)==0 for h in hs): return False
        return True
    def bnot(s,b): return s.mk(padd(pconst(1),b.p,-1),0,1,'bool')
    def band(s,a,b): return s.mk(s.pmul(a.p,b.p),0,1,'bool')
    def bor(s,a,b): return s.bnot(s.band(s.bnot(a),s.bnot(b)))
    def bxor(s,a,b): return s.mk(padd(padd(a.p,b.p),s.pmul(a.p,b.p),-2),0,1,'bool')
    bitmode=False        # keep the bits of machine words (multilinear 0/1 polynomials), see bits()
    def bits(s,x,make=True):
        """bit polynomials of a non-negative x, least significant first, or None.  With make, a value without known bits
        is decomposed into fresh boolean atoms; the defining relation is kept in s.bitrels"""
        k=pkey(x.p)
        if k in s.bitmemo: return s.bitmemo[k]
        if x.const is not None:
            return [pconst(x.const>>i&1) for i in range(max(x.const.bit_length(),1))] if x.const>=0 else None
        r={}
        for m,c in x.p.items():
            if len(m)>1 or c<=0: r=None; break
            if m==EMPTY:
                for i in range(c.bit_length()):
                    if c>>i&1:
                        if i in r: r=None; break
                        r[i]=pconst(1)
                if r is None: break
                continue
            a=s.atoms[m[0]]; i=c.bit_length()-1
            if c!=1<<i or i in r or not(a.lo==0 and a.hi==1): r=None; break
            r[i]={m:1}
        if r is not None:
            l=[r.get(i,{}) for i in range(max(r)+1)]; s.bitmemo[k]=l; return l
        if not make or x.lo<0 or x.hi is None: return None
        n=x.hi.bit_length(); l=[{(s.atom(f'dec{len(s.bitrels)}_{i}',0,1,'bit'),):1} for i in range(n)]
        s.bitrels.append((x.p,l)); s.bitmemo[k]=l; return l
    def ofbits(s,l,ty):
        p={}; hi=0
        for i,b in enumerate(l):
            p=padd(p,b,1<<i)
            if b: hi|=1<<i
        while l and not l[-1]: l=l[:-1]
        x=I(p,0,hi,ty)
        if x.const is not None: return CI(x.const,ty)
        s.bitmemo[pkey(p)]=list(l); return x
    def bitop(s,op,a,b,ty):
        """shift/rotate by a constant or bitwise operation on words with bits"""
        w=WID[ty]; x=s.bits(a)
        if x is None: return None
        if op in('Shl','Shr','Ror'):
            k=b.const
            if op=='Shr': return s.ofbits(x[k:],ty)
            if op=='Shl': return s.ofbits(([{}]*k+x)[:w],ty)
            x=(x+[{}]*w)[:w]; return s.ofbits(x[k%w:]+x[:k%w],ty)
        if op=='Low': return s.ofbits(x[:w],ty)
        if op=='Not': x=(x+[{}]*w)[:w]; return s.ofbits([padd(pconst(1),p,-1) for p in x],ty)
        y=s.bits(b)
        if y is None: return None
        n=max(len(x),len(y)); x=x+[{}]*(n-len(x)); y=y+[{}]*(n-len(y))
        f={'BitAnd':lambda p,q:s.pmul(p,q),'BitOr':lambda p,q:padd(padd(p,q),s.pmul(p,q),-1),'BitXor':lambda p,q:padd(padd(p,q),s.pmul(p,q),-2)}[op]
        return s.ofbits([f(p,q) for p,q in zip(x,y)],ty)
    def select(s,w,a,b):
        """w ? a : b"""
        c=w.const
        if c is not None: return a if c else b
        if s.bitmode and a.ty!='bool' and a.lo>=0 and b.lo>=0:
            x,y=s.bits(a,False),s.bits(b,False)
            if x is not None and y is not None:
                n=max(len(x),len(y)); x=x+[{}]*(n-len(x)); y=y+[{}]*(n-len(y))
                return s.ofbits([padd(q,s.pmul(w.p,padd(p,q,-1))) for p,q in zip(x,y)],a.ty)
        p=padd(b.p,s.pmul(w.p,padd(a.p,b.p,-1)))
        return s.mk(p,min(a.lo,b.lo),max(a.hi,b.hi),a.ty)
    def eval_all(s,env):
        """values of every atom given the input variables (atoms are numbered in definition order)"""
        for i,a in enumerate(s.atoms):
            if i in env: continue
            if a.kind=='floor': env[i]=s.evalp(a.d[0],env)//a.d[1]
            elif a.kind=='bool':
                v=s.evalp(a.d[1],env); env[i]=int(v>=0 if a.d[0]=='ge' else v==0)
            elif a.kind=='quot': env[i]=(s.evalp(a.d[0],env)*a.d[1])//a.d[2]
            elif a.kind=='limb': env[i]=((s.evalp(a.d[0],env)*a.d[1])%a.d[2]>>(64*a.d[3]))&((1<<64)-1)
            elif a.kind=='or': env[i]=s.evalp(a.d[0],env)|s.evalp(a.d[1],env)
            else: raise MirError('no value for atom '+a.name)
        return env
    def bad_facts(s,env):
        out=[]
        for f in s.facts:
            if f[0]=='ge': ok=s.evalp(f[1],env)>=0
            elif f[0]=='eq': ok=s.evalp(f[1],env)==0
            elif f[0]=='iff':
                v=s.evalp(f[3],env); ok=env[f[1]]==int(v>=0 if f[2]=='ge' else v==0)
            else: ok=True
            if not ok: out.append(f)
        for i,a in enumerate(s.atoms):
            if i in env and a.lo is not None and not(a.lo<=env[i]): out.append(('lo',i))
            if i in env and a.hi is not None and not(env[i]<=a.hi): out.append(('hi',i))
        return out
    # -- substitution of boolean atoms
    def psub(s,p,env):
        if not env: return p
        r={}
        for m,c in p.items():
            k=[];v=c
            for x in m:
                if x in env: v*=env[x]
                else: k.append(x)
            if v:
                k=tuple(k); t=r.get(k,0)+v
                if t: r[k]=t
                else: r.pop(k,None)
        return r
    # -- discharge
    def z3prove(s,goal,hyps=(),assume=None,timeout=60,extra_atoms=()):
        """goal: z3-building function f(tr)->z3 BoolRef where tr(poly) gives a z3 Int expr.
        returns 'proved' | ('cex', env) | 'unknown'"""
        import z3
        t0=time.time(); s.queries+=1
        sol=z3.Solver(); sol.set('timeout',timeout*1000)
        V={}; M={}
        assume=assume or {}
        def av(a):
            if a not in V:
                V[a]=z3.Int(f'a{a}'); A=s.atoms[a]
                if A.lo is not None: sol.add(V[a]>=A.lo)
                if A.hi is not None: sol.add(V[a]<=A.hi)
                if a in assume: sol.add(V[a]==assume[a])
            return V[a]
        def mono(m):
            bs=[x for x in m if s.atoms[x].lo==0 and s.atoms[x].hi==1]; rs=tuple(x for x in m if x not in bs)
            if len(rs)==0:
                if len(bs)==1: return av(bs[0])
                e=z3.IntVal(1)
            elif len(rs)==1: e=av(rs[0])
            else:
                if rs not in M:
                    M[rs]=z3.Int('m'+'_'.join(map(str,rs))); r=s.mrange(rs)
                    if r: sol.add(M[rs]>=r[0],M[rs]<=r[1])
                e=M[rs]
            if bs:
                e=z3.If(z3.And(*[av(b)==1 for b in bs]),e,z3.IntVal(0))
            return e
        def tr(p):
            p=s.psub(p,assume)
            if not p: return z3.IntVal(0)
            return z3.Sum([z3.IntVal(c) if m==EMPTY else z3.IntVal(c)*mono(m) for m,c in p.items()])
        # relevance closure of the facts
        def addfact(f):
            if f[0]=='ge': sol.add(tr(f[1])>=0)
            elif f[0]=='eq': sol.add(tr(f[1])==0)
            elif f[0]=='iff':
                b=av(f[1])==1; sol.add(b==(tr(f[3])>=0 if f[2]=='ge' else tr(f[3])==0))
            elif f[0]=='raw': sol.add(f[1](tr))
        for f in s.facts: addfact(f)
        for f in hyps: addfact(f)
        sol.add(z3.Not(goal(tr)))
        r=sol.check(); s.solver_s+=time.time()-t0
        if r==z3.unsat: return 'proved'
        if r==z3.sat:
            m=sol.model(); env={a:m.eval(v,model_completion=True).as_long() for a,v in V.items()}
            return ('cex',env)
        return 'unknown'
