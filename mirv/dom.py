"""Abstract domains used above the limb level.  FE: element of F_p as a polynomial over field unknowns and boolean
atoms (contracts C01-C03 justify it).  Pw: element x^e with the exponent e an integer polynomial."""
from .parse import MirError
from .sym import *
from .interp import *
from .types import *
from .fieldvc import MOD, PP, QQ, R

class FD:
    """field domain for one field: modulus, unknowns, rewrite rules"""
    def __init__(s,it,F):
        s.it=it; s.C=it.ctx; s.F=F; s.P=MOD[F]; s.rules={}; s.inv={}; s.invof={}; s.nzvars=set(); s.pairs={}; s.roots={}; s.bytes={}; s.byteof={}; s.n=0
        s.names={}; s.eqhook=None; s.sqrts=[]; s.lazy_inv=False
    # unknowns
    def var(s,name,nz=False):
        a=s.C.atom(name,None,None,'fe',s.F)
        if nz: s.nzvars.add(a)
        s.names[a]=name
        return FE(s,{(a,):1})
    def const(s,c): 
        c%=s.P; return FE(s,{():c} if c else {})
    def red(s,p):
        P=s.P; r={}
        for m,c in p.items():
            c%=P
            if c: r[m]=c
        if s.rules or s.pairs: r=s.rewrite(r)
        return r
    def rewrite(s,p):
        P=s.P; out={}; work=list(p.items()); rules=s.rules; pairs=s.pairs
        while work:
            m,c=work.pop()
            hit=None
            prev=None
            if pairs:
                ms=set(m)
                for a in ms:
                    b=pairs.get(a)
                    if b is not None and b in ms:
                        l=list(m); l.remove(a); l.remove(b); hit=tuple(l); break
                if hit is not None: work.append((hit,c)); continue
            rep=None
            if rules:
                cnt=1
                for i,x in enumerate(m):
                    cnt=cnt+1 if i and m[i-1]==x else 1
                    ru=rules.get(x)
                    if ru is not None and cnt==ru[0]:
                        rest=m[:i-ru[0]+1]+m[i+1:]; rep=(rest,ru[1]); break
            if rep is None:
                v=(out.get(m,0)+c)%P
                if v: out[m]=v
                else: out.pop(m,None)
            else:
                rest,q=rep
                for m2,c2 in q.items(): work.append((s.C.mmul(rest,m2),c*c2%P))
        return out
    def mul(s,a,b):
        return s.red(s.C.pmul(a,b))
    def add(s,a,b,k=1): return s.red(padd(a,b,k))
    def pw(s,p,e):
        r={():1}
        while e:
            if e&1: r=s.mul(r,p)
            e>>=1
            if e: p=s.mul(p,p)
        return r
    def monic(s,p):
        if not p: return p
        m=max(p); k=pow(p[m],-1,s.P); return {x:c*k%s.P for x,c in p.items()}
    def inverse(s,p):
        """poly for 1/p, assuming p != 0 (p's non-zero-ness is recorded by the caller)"""
        p=s.red(p)
        if len(p)==1:
            (m,c),=p.items(); r={():pow(c,-1,s.P)}
            for a in m:
                if a in s.pairs: b=s.pairs[a]
                else:
                    b=s.C.atom('1/'+s.C.atoms[a].name,None,None,'fe',s.F); s.pairs[a]=b; s.pairs[b]=a; s.inv[b]={(a,):1}
                    if a in s.nzvars: s.nzvars.add(b)
                r=s.C.pmul(r,{(b,):1})
            return r
        q=s.monic(p); k=pow(p[max(p)],-1,s.P); key=pkey(q)
        if key not in s.invof:
            a=s.C.atom(f'inv{len(s.C.atoms)}',None,None,'fe',s.F); s.invof[key]=a; s.inv[a]=q
        return {(s.invof[key],):k}
    def clear(s,p):
        """multiply by the inverted expressions until no inverse unknown is left (they are non-zero)"""
        p=s.red(p)
        while True:
            at={a for m in p for a in m if a in s.inv}
            if not at: return p
            a=max(at); d=s.inv[a]; deg=max(m.count(a) for m in p)
            r={}; pws=[{():1}]
            for i in range(deg): pws.append(s.mul(pws[-1],d))
            for m,c in p.items():
                k=m.count(a); base=tuple(x for x in m if x!=a)
                for m2,c2 in pws[deg-k].items():
                    mm=s.C.mmul(base,m2); v=(r.get(mm,0)+c*c2)%s.P
                    if v: r[mm]=v
                    else: r.pop(mm,None)
            p=s.red(r)
    def zero(s,p): return not s.clear(p)
    def subst(s,p,env):
        """substitute atoms by polys"""
        if not env or not any(a in env for m in p for a in m): return p
        r={}
        for m,c in p.items():
            t={():c}
            rest=[]
            for a in m:
                if a in env: t=s.mul(t,env[a])
                else: rest.append(a)
            if rest: t=s.C.pmul(t,{tuple(rest):1})
            r=padd(r,t)
        return s.red(r)
    def fe(s,v,st=None):
        if isinstance(v,Ref): v=s.it.deref(st,v)
        if isinstance(v,FE): return v
        if isinstance(v,Agg) and v.k==s.F:
            l=[x.const for x in v.f[0].f]
            if None not in l: return s.const(sum(x<<(64*i) for i,x in enumerate(l))*pow(R,-1,s.P))
        raise MirError(f'not an abstract field element: {v}')
    def show(s,p,n=12):
        def h(c): return str(c) if c<1<<20 else '-'+str(s.P-c) if s.P-c<1<<20 else hex(c)
        return ' + '.join(h(c)+''.join('*'+s.C.atoms[a].name for a in m) for m,c in list(p.items())[:n])+(' ...' if len(p)>n else '')
    def evalfe(s,p,env):
        r=0
        for m,c in p.items():
            for a in m: c=c*env[a]%s.P
            r+=c
        return r%s.P
    # equality as a 0/1 value in a state
    def nonzero(s,st,p):
        """is p known to be non-zero?"""
        if not p: return False
        if len(p)==1:
            (m,c),=p.items()
            nzv=st.ghost.get('nzv',())
            if all(a in s.nzvars or a in nzv or (a in s.inv) for a in m): return True
        k=pkey(s.monic(p))
        return k in st.ghost.get('nz',())
    def eqz(s,st,p):
        """p == 0 as boolean I"""
        env=st.ghost.get('sub')
        if env: p=s.subst(p,env)
        if st.assume: p=s.red(s.C.psub(p,st.assume))
        p=s.clear(p)
        if not p: return TRUE()
        if len(p)==1 and () in p: return FALSE()
        p=s.strip_nz(st,p)
        bs={a for m in p for a in m}
        if all(s.C.atoms[a].lo==0 and s.C.atoms[a].hi==1 for a in bs) and len(bs)<=6:
            return s.boolfn(p,sorted(bs))
        if s.nonzero(st,p): return FALSE()
        if s.eqhook:
            r=s.eqhook(st,p)
            if r is not None: return TRUE() if r else FALSE()
        q=s.monic(p); key=('feq',s.F,pkey(q))
        if key not in s.C.memo: s.C.memo[key]=s.C.atom(f'feq{len(s.C.atoms)}',0,1,'feq',(s,q))
        return I({(s.C.memo[key],):1},0,1,'bool')
    def strip_nz(s,st,p):
        """divide out common factors that are known non-zero unknowns"""
        nzv=st.ghost.get('nzv',())
        while p:
            common=set(next(iter(p)))
            for m in p:
                common&=set(m)
                if not common: return p
            c=[a for a in common if a in s.nzvars or a in nzv]
            if not c: return p
            q={}
            for m,k in p.items():
                l=list(m); l.remove(c[0]); q[tuple(l)]=k
            p=q
        return p
    def boolfn(s,p,sup):
        import itertools
        vals={}
        for v in itertools.product((0,1),repeat=len(sup)): vals[v]=int(s.evalfe(p,dict(zip(sup,v)))==0)
        r={}
        for v in vals:
            c=sum((-1)**(sum(v)-sum(u))*vals[u] for u in vals if all(x<=y for x,y in zip(u,v)))
            if c: r[tuple(x for x,k in zip(sup,v) if k)]=c
        return s.C.mk(r,0,1,'bool')
    def assume_zero(s,st,p):
        p=s.red(p)
        g=dict(st.ghost.get('sub',{})); p=s.clear(s.subst(p,g))
        # solve for a variable that occurs linearly with a constant coefficient
        for a in sorted({a for m in p for a in m},reverse=True):
            if a in s.nzvars or a in st.ghost.get('nzv',()) and len(p)==1: continue
            ms=[m for m in p if a in m]
            if len(ms)==1 and ms[0]==(a,):
                k=pow(p[ms[0]],-1,s.P); rhs=s.red(pscale({m:c for m,c in p.items() if m!=(a,)},-k))
                g={b:s.subst(q,{a:rhs}) for b,q in g.items()}; g[a]=rhs; st.ghost=dict(st.ghost); st.ghost['sub']=g; return
        st.ghost=dict(st.ghost); st.ghost['z']=st.ghost.get('z',())+(pkey(p),)
    def assume_nonzero(s,st,p):
        p=s.clear(s.subst(p,st.ghost.get('sub',{})))
        st.ghost=dict(st.ghost); st.ghost['nz']=st.ghost.get('nz',())+(pkey(s.monic(p)),)
        if len(p)==1:
            (m,c),=p.items(); st.ghost['nzv']=st.ghost.get('nzv',())+tuple(m)
def on_assume(it,st,b,val):
    p=b.p; at=[m for m in p if m!=()]
    if len(at)==1 and len(at[0])==1:
        a=at[0][0]; A=it.ctx.atoms[a]
        if A.kind=='feq':
            x=st.assume[a]; D,q=A.d
            if x: D.assume_zero(st,q)
            else: D.assume_nonzero(st,q)

class FE(Dom):
    __slots__=('D','p')
    def __init__(s,D,p): s.D=D; s.p=p
    def __repr__(s): return f'FE({s.D.show(s.p,4)})'
    @property
    def const(s): return 0 if not s.p else s.p[()] if len(s.p)==1 and () in s.p else None
    def __add__(s,o): return FE(s.D,s.D.add(s.p,s.c(o)))
    def __sub__(s,o): return FE(s.D,s.D.add(s.p,s.c(o),-1))
    def __rsub__(s,o): return FE(s.D,s.D.add(s.c(o),s.p,-1))
    def __mul__(s,o): return FE(s.D,s.D.mul(s.p,s.c(o)))
    __radd__=__add__; __rmul__=__mul__
    def __neg__(s): return FE(s.D,s.D.red(pscale(s.p,-1)))
    def c(s,o):
        if isinstance(o,FE):
            if o.D is not s.D: raise MirError('mixed fields')
            return o.p
        if isinstance(o,I): return o.p
        return {():o%s.D.P} if o%s.D.P else {}
    def inv(s): return FE(s.D,s.D.inverse(s.p))
    def select(s,ctx,w,a,b):
        a=s.D.fe(a);b=s.D.fe(b)
        return FE(s.D,s.D.red(padd(b.p,ctx.pmul(w.p,padd(a.p,b.p,-1)))))
    def eq(s,it,st,b): return s.D.eqz(st,(s-s.D.fe(b,st)).p)
    def field(s,i): raise MirError('representation of an abstract field element is read')
    def iszero(s): return s.D.zero(s.p)

class Pw(Dom):
    """base^e"""
    __slots__=('F','base','e')
    def __init__(s,F,base,e): s.F=F;s.base=base;s.e=e
    def select(s,ctx,w,a,b):
        if not(isinstance(a,Pw) and isinstance(b,Pw)): raise MergeFail('pw')
        lo=min(a.e.lo,b.e.lo); hi=max(a.e.hi,b.e.hi)
        return Pw(a.F,a.base or b.base,I(padd(b.e.p,ctx.pmul(w.p,padd(a.e.p,b.e.p,-1))),lo,hi,'nat'))
    def eq(s,it,st,b): raise MirError('comparison of powers')
    def field(s,i): raise MirError('representation of an abstract power is read')
def pmulI(ctx,a,b): return I(padd(a.p,b.p),a.lo+b.lo,a.hi+b.hi,'nat')

def name_of(q):
    """(type tree or None, trait or None, method)"""
    if q[0]=='trait':
        t=q[1]
        while t[0]=='ref': t=t[1]
        return (t[1] if t[0]=='path' else None),q[2],q[4]
    segs=[strip_gen(x) for x in q[5] if not x.startswith('<')]
    return (segs[-2] if len(segs)>1 else None),None,segs[-1]

def pow_contract(F):
    """contract used while verifying exponentiation: F's one/square/mul/select on powers of one unknown"""
    def con(it,st,fr,q,args,argts):
        ty,tr,m=name_of(q)
        vs=[it.deref(st,a) if isinstance(a,Ref) else a for a in args]
        if ty==F and m=='one' and not args: return [(st,Pw(F,None,CI(0,'nat')))]
        pw=[v for v in vs if isinstance(v,Pw)]
        if not pw: return None
        def rd(v):
            if isinstance(v,Pw): return v
            raise MirError('power mixed with another value')
        if m=='square': return [(st,Pw(F,vs[0].base,I(pscale(vs[0].e.p,2),2*vs[0].e.lo,2*vs[0].e.hi,'nat')))]
        if m=='mul': return [(st,Pw(F,rd(vs[0]).base or rd(vs[1]).base,pmulI(it.ctx,vs[0].e,vs[1].e)))]
        if m=='mul_assign':
            it.setref(st,args[0],Pw(F,rd(vs[0]).base or rd(vs[1]).base,pmulI(it.ctx,vs[0].e,vs[1].e))); return [(st,UNIT)]
        if m=='conditional_select':
            w=it.sub_assume(st,vs[2].f[0]); return [(st,pw[0].select(it.ctx,w,vs[1],vs[0]))]
        if m in('conditional_assign','clone','conditional_swap','into_iter','iter','pow','pow_vartime','pow_by_self') or ty!=F and tr!='Field': return None
        raise MirError('operation on a power: '+m)
    return con

ASSIGN={'add_assign':'add','sub_assign':'sub','mul_assign':'mul'}
def fe_contract(D):
    """contracts of every public operation of field D.F on abstract elements (proved at limb level by C01-C03)"""
    F=D.F
    def con(it,st,fr,q,args,argts):
        ty,tr,m=name_of(q)
        vs=[it.deref(st,a) if isinstance(a,Ref) else a for a in args]
        isfe=any(isinstance(v,FE) and v.D is D for v in vs)
        if not isfe:
            if ty!=F: return None
            if tr in('Field',None,'From','Default'):
                r=None
                if m=='zero' and not args: r=D.const(0)
                elif m=='one' and not args: r=D.const(1)
                elif m=='default' and not args: r=D.const(0)
                elif m in('from_u64','from_u128','from') and len(vs)==1 and isinstance(vs[0],I): r=FE(D,D.red(vs[0].p))
                elif m=='from_raw' and len(vs)==1 and isinstance(vs[0],Agg) and all(isinstance(x,I) for x in vs[0].f):
                    p={}
                    for i,x in enumerate(vs[0].f): p=padd(p,x.p,1<<(64*i))
                    r=FE(D,D.red(p))
                elif m=='from_bytes' and len(vs)==1: return D.from_bytes(it,st,vs[0])
                elif m=='sum': return None
                if r is not None:
                    it.used_contracts.add(f'{F}::{m}'); return [(st,r)]
            # operations on concrete representation with constant limbs
            if vs and isinstance(vs[0],Agg) and vs[0].k==F: isfe=True
            else: return None
        if m in('clone','conditional_assign','conditional_swap','conditional_negate','to_owned','borrow','deref','as_ref','eq_ref'): return None
        if any(isinstance(v,Dom) and not isinstance(v,FE) for v in vs): return None
        if ty is not None and ty!=F and tr is None and ty not in(F,): return None
        if tr is not None and q[1][0] in('slice','array'): return None
        f=lambda i: D.fe(vs[i],st)
        one=lambda v:(it.used_contracts.add(f'{F}::{m}'),[(st,v)])[1]
        if tr=='Mul' and m=='mul' and len(vs)==2 and not all(isinstance(v,FE) or (isinstance(v,Agg) and v.k==F) for v in vs): return None
        if m in('add','sub','mul') and len(vs)==2:
            a,b=f(0),f(1); return one(a+b if m=='add' else a-b if m=='sub' else a*b)
        if m in ASSIGN:
            a,b=f(0),f(1); k=ASSIGN[m]; r=a+b if k=='add' else a-b if k=='sub' else a*b
            it.setref(st,args[0],r); return one(UNIT)
        if m=='neg': return one(-f(0))
        if m=='double': return one(f(0)*2)
        if m=='square': return one(f(0)*f(0))
        if m=='is_zero': return one(choice(asu8(D.eqz(st,f(0).p))))
        if m=='ct_eq': return one(choice(asu8(D.eqz(st,(f(0)-f(1)).p))))
        if m=='ct_ne': return one(choice(asu8(it.ctx.bnot(D.eqz(st,(f(0)-f(1)).p)))))
        if m=='eq': return one(D.eqz(st,(f(0)-f(1)).p))
        if m=='ne': return one(it.ctx.bnot(D.eqz(st,(f(0)-f(1)).p)))
        if m=='conditional_select':
            w=it.sub_assume(st,vs[2].f[0]); return one(f(0).select(it.ctx,w,f(1),f(0)))
        if m=='invert': return one(D.invert(it,st,f(0)))
        if m=='sqrt':
            r=D.sqrt(it,st,f(0))
            if isinstance(r,list): it.used_contracts.add(f'{F}::sqrt'); return r
            return one(r)
        if m in('pow','pow_vartime'):
            e=[x for x in vs[1].f]
            if all(x.const is not None for x in e):
                n=sum(x.const<<(64*i) for i,x in enumerate(e))
                b=f(0)
                if b.const is not None: return one(D.const(pow(b.const,n,D.P)))
                if n<=D.powlimit: return one(D.fe_pow(b,n))
                return one(D.bigpow(b,n))
            return None
        if m=='to_bytes': return one(D.to_bytes(f(0)))
        if m=='from' and tr in('From','Into'): return one(D.to_bytes(f(0))) if q[1][0]=='array' else None
        if m=='get_lower_128':
            b=D.to_bytes(f(0)); p={}
            for i in range(16): p=padd(p,b.f[i].p,1<<(8*i))
            return one(it.ctx.mk(p,0,(1<<128)-1,'u128'))
        if m=='fmt' or m=='assert_receiver_is_total_eq': return [(st,UNIT)]
        return None
    return con
def asu8(b): return I(b.p,b.lo,b.hi,'u8')
def _invert(D,it,st,a):
    z=D.eqz(st,a.p)
    if z.const==1: return Agg('CtOption',(D.const(0),choice(CI(0,'u8'))))
    env=st.ghost.get('sub') or {}
    p=D.subst(a.p,env) if env else a.p
    if st.assume: p=D.red(D.C.psub(p,st.assume))
    if len(p)==1 and () in p: v=FE(D,{():pow(p[()],-1,D.P)})
    else: v=FE(D,D.inverse(p))
    return Agg('CtOption',(v,choice(asu8(it.ctx.bnot(z)))))
FD.invert=_invert
def _sqrt(D,it,st,a):
    if a.const is not None:
        c=a.const
        if c==0: return Agg('CtOption',(D.const(0),choice(CI(1,'u8'))))
        if pow(c,(D.P-1)//2,D.P)!=1: return Agg('CtOption',(D.const(0),choice(CI(0,'u8'))))
    key=pkey(a.p)
    if key not in D.roots:
        y=D.var(f'sqrt{len(D.roots)}')
        (m,),=[tuple(y.p)]
        b=CI(1,'u8') if a.const is not None else I({(it.ctx.atom(f'issq{len(D.roots)}',0,1,'issq',(D,a.p)),):1},0,1,'u8')
        D.roots[key]=(y,b)
    y,b=D.roots[key]
    # when present the root squares to the argument
    D.rules[next(iter(y.p))[0]]=(2,a.p)
    return Agg('CtOption',(y,choice(b)))
FD.sqrt=_sqrt
def _bigpow(D,b,n):
    key=('pow',pkey(b.p),n)
    if key not in D.C.memo: D.C.memo[key]=D.var(f'pow{len(D.C.atoms)}'); D.powers=getattr(D,'powers',{}); D.powers[next(iter(D.C.memo[key].p))[0]]=(b,n)
    return D.C.memo[key]
FD.bigpow=_bigpow
FD.powlimit=64
FD.fe_pow=lambda D,b,n: FE(D,D.pw(b.p,n))
def _evals(D,p,env):
    """value of p at a concrete assignment of the unknowns; defined atoms (powers, inverses) are computed"""
    def at(a):
        if a not in env:
            d=getattr(D,'powers',{}).get(a)
            if d is not None: env[a]=pow(ev(d[0].p),d[1],D.P)
            elif a in D.inv:
                v=ev(D.inv[a]); env[a]=pow(v,-1,D.P) if v else 0
            else:
                A=D.C.atoms[a]; import hashlib
                h=int.from_bytes(hashlib.sha512(f'{a}/{D.evseed}'.encode()).digest(),'little')
                env[a]=h%D.P if A.kind=='fe' else A.lo+h%(A.hi-A.lo+1) if A.kind in('bit','var') else None
                if env[a] is None: raise MirError('atom without a value')
        return env[a]
    def ev(p):
        r=0
        for m,c in p.items():
            for a in m: c=c*at(a)%D.P
            r+=c
        return r%D.P
    return ev(p)
FD.evals=_evals; FD.evseed=0
def _same(D,a,b,tries=2):
    """True: identical; False: a concrete assignment separates them; None: not decided"""
    p=padd(a.p,b.p,-1)
    if not D.red(p) or D.zero(p): return True
    for t in range(tries):
        D.evseed=t
        if D.evals(p,{}): return False
    return None
FD.same=_same
def _to_bytes(D,a):
    if a.const is not None: return Agg('array',[CI((a.const>>(8*i))&255,'u8') for i in range(32)])
    key=pkey(a.p)
    if key not in D.bytes:
        bs=[]; p={}; neg=D.bytes.get(pkey(D.red(pscale(a.p,-1)))); nzk=len(a.p)==1 and all(x in D.nzvars for m in a.p for x in m)
        for i in range(32):
            hi=255 if i<31 else D.P>>248
            if i==0:
                # low byte = 2*h + parity; for a != 0 the parity of -a is the other one (the modulus is odd)
                h=D.C.atom(f'byte{len(D.bytes)}_0h',0,127,'byteh',(D,a.p)); 
                if neg and nzk: par=padd(pconst(1),neg[3],-1)
                else: par={(D.C.atom(f'par{len(D.bytes)}',0,1,'par',(D,a.p)),):1}
                q=padd({(h,):2},par); bs.append(I(q,0,255,'u8')); p=padd(p,q); continue
            at=D.C.atom(f'byte{len(D.bytes)}_{i}',0,hi,'byte',(D,a.p,i)); bs.append(I({(at,):1},0,hi,'u8')); p=padd(p,{(at,):1<<(8*i)})
        D.C.facts.append(('ge',padd(pconst(D.P-1),p,-1)))
        D.bytes[key]=(bs,p,a,par); D.byteof[pkey(p)]=a
    return Agg('array',D.bytes[key][0])
FD.to_bytes=_to_bytes
def _from_bytes(D,it,st,arr):
    p={}
    for i,b in enumerate(arr.f): p=padd(p,it.sub_assume(st,b).p,1<<(8*i))
    C=it.ctx
    a=D.byteof.get(pkey(p))
    if a is not None: return [(st,Agg('CtOption',(a,choice(CI(1,'u8')))))]
    r=C.prange(p)
    if len(p)<=1 and (not p or () in p):
        v=p.get((),0); return [(st,Agg('CtOption',(D.const(v),choice(CI(int(v<D.P),'u8')))))]
    w=C.bool_of('ge',padd(pconst(D.P-1),p,-1))
    it.used_contracts.add(D.F+'::from_bytes')
    return [(st,Agg('CtOption',(FE(D,D.red(p)),choice(asu8(w)))))]
FD.from_bytes=_from_bytes

def setup(it,*fields):
    """install abstract field domains; returns them"""
    ds=[]
    for F in fields:
        D=FD(it,F); ds.append(D); it.contracts.append(fe_contract(D))
    bym={d.F:d for d in ds}
    def absc(f,v):
        def go(v):
            if isinstance(v,Agg):
                if v.k in bym and len(v.f)==1 and isinstance(v.f[0],Agg) and all(isinstance(x,I) and x.const is not None for x in v.f[0].f): return bym[v.k].fe(v)
                return Agg(v.k,[go(x) for x in v.f],v.v)
            return v
        return go(v)
    it.abstract_const=absc
    it.on_assume=on_assume
    it.fields=bym
    return ds
