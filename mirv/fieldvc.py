"""Limb-level verification conditions for Fp/Fq (Montgomery form, R = 2^256)."""
import random, time
from .parse import MirError
from .sym import *
from .interp import *
from . import fw
PP=0x5c5e464a35c12769bac2a757742b393081be9c1a3201248299fffe7d00000001
QQ=0x5c5e464a35c12769bac2a757742b39311b849d0f1801860419fffe7d00000001
MOD={'Fp':PP,'Fq':QQ}
R=1<<256
def edge_raw(p,seed=1,n=40):
    """interesting canonical limb values"""
    E=set()
    M=(1<<64)-1
    for k in range(0,256,16): E|={1<<k,(1<<k)-1,(1<<k)+1,p-(1<<k)}
    for k in (63,64,65,127,128,129,191,192,193,253,254): E|={1<<k,(1<<k)-1,p-(1<<k)}
    E|={0,1,2,3,p-1,p-2,p-3,(p-1)//2,(p+1)//2,R%p,(R*R)%p,pow(R,3,p),p//3,p>>1,p>>64<<64,p>>128<<128,p>>192<<192}
    for m in range(16):
        v=sum((M if m>>i&1 else 0)<<(64*i) for i in range(4)); E.add(v)
        w=sum((((p>>(64*i))&M) if m>>i&1 else 0)<<(64*i) for i in range(4)); E|={w,w-1,w+1}
    r=random.Random(seed)
    for _ in range(n): E.add(r.randrange(p))
    return sorted(x for x in E if 0<=x<p)
class FieldVC:
    def __init__(s,chk,F): s.chk=chk; s.F=F; s.P=MOD[F]; s.ty=('path',F,())
    def new(s):
        s.it=Interp(s.chk.mir); s.st=State(); s.vars={}; return s.it,s.st
    def limbs(s,nm,canonical=True,n=4,ty='u64'):
        it=s.it
        L=[it.ctx.var(f'{nm}{i}',ty) for i in range(n)]
        p={}
        for i,l in enumerate(L): p=padd(p,l.p,1<<(64*i))
        if canonical: it.ctx.facts.append(('ge',padd(pconst(s.P-1),p,-1)))
        s.vars[nm]=[next(iter(l.p))[0] for l in L]
        return L,p
    def elem(s,nm,canonical=True):
        L,p=s.limbs(nm,canonical); a=Agg(s.F,(Agg('array',L),)); return a,p
    def ref(s,a): return s.it.alloc(s.st,a)
    def val(s,v,st=None):
        if isinstance(v,Ref): v=s.it.deref(st,v)
        if not(isinstance(v,Agg) and len(v.f)==1 and isinstance(v.f[0],Agg) and len(v.f[0].f)==4): raise MirError(f'not a field element: {v}')
        V={}
        for i,l in enumerate(v.f[0].f): V=padd(V,l.p,1<<(64*i))
        return V
    def product_fact(s,a,b,A,B):
        """0<=a<=A, 0<=b<=B  =>  0 <= a*b <= A*B, as a fact about the expanded monomials"""
        S=s.it.ctx.pmul(a,b); s.it.ctx.facts.append(('ge',padd(pconst(A*B),S,-1))); return S
    def env(s,assign):
        """assign: name -> integer"""
        e={}
        for nm,v in assign.items():
            for i,a in enumerate(s.vars[nm]): e[a]=(v>>(64*i))&((1<<64)-1)
        return e
    def holds_pc(s,st,env):
        c=s.it.ctx
        return all((env.get(a) if a in env else None)==v for a,v in st.assume.items()) and all((c.evalp(f[1],env)==0) if f[0]=='eq' else (c.evalp(f[1],env)>=0) for f in st.pc)
    def prove(s,name,fn,goal,check,st,gen=None,timeout=60):
        """goal(tr)->z3 formula; check(env)->bool evaluates the same goal on concrete atom values.
        gen: iterable of {name:int} concrete inputs used to confirm or find counterexamples in the extracted formula"""
        t=time.time(); it=s.it
        import itertools
        n=0; gen=itertools.islice(iter(gen or ()),200000)
        def bad_point(cands):
            nonlocal n
            t0=time.time()
            for c in cands:
                n+=1
                if time.time()-t0>60: break
                env=s.env(c)
                try: it.ctx.eval_all(env)
                except MirError: break
                if it.ctx.bad_facts(env) or not s.holds_pc(st,env): continue
                if not check(env): return c
        failed=getattr(s.chk,'slow_fail',0)   # once obligations fail, later ones get a shorter solver budget
        r=it.ctx.z3prove(goal,hyps=st.pc,assume=st.assume,timeout=6)
        if r=='proved': return s.chk.ob(name,fn,fw.PROVED,'z3-lia',time.time()-t)
        if r=='unknown':
            c=bad_point(gen)
            if c is not None:
                s.chk.slow_fail=failed+1
                return s.chk.ob(name,fn,fw.REFUTED,'z3-lia',time.time()-t,f'counterexample (raw limbs) { {k:hex(v) for k,v in c.items()} }')
            r=it.ctx.z3prove(goal,hyps=st.pc,assume=st.assume,timeout=timeout if failed<2 else 15)
            if r=='proved': return s.chk.ob(name,fn,fw.PROVED,'z3-lia',time.time()-t)
        s.chk.slow_fail=failed+1
        cands=[]
        if r!='unknown':
            ce={nm:sum((r[1].get(a,0))<<(64*i) for i,a in enumerate(v)) for nm,v in s.vars.items()}; cands.append(ce)
        c=bad_point(cands) if r=='unknown' else bad_point(itertools.chain(cands,gen))
        if c is not None: return s.chk.ob(name,fn,fw.REFUTED,'z3-lia',time.time()-t,f'counterexample (raw limbs) { {k:hex(v) for k,v in c.items()} }')
        return s.chk.ob(name,fn,fw.UNKNOWN,'z3-lia',time.time()-t,f'{r if r=="unknown" else "abstract counterexample not confirmed"}; {n} points tried')
    def modeq(s,T):
        """goal: p | T.  returns (goal, check)"""
        P=s.P
        L={m:((c+P//2)%P-P//2) for m,c in T.items()}; L={m:c for m,c in L.items() if c}
        import z3
        def goal(tr):
            e=tr(L); return z3.Or(*[e==k*P for k in range(-3,4)])
        return goal,(lambda env: s.it.ctx.evalp(T,env)%P==0)
    def canon(s,V):
        P=s.P
        return (lambda tr: (lambda e: e<=P-1)(tr(V))),(lambda env: 0<=s.it.ctx.evalp(V,env)<P)
    def no_panics(s,name,fn):
        for p in s.it.panics:
            st='refuted' if p[2]=='cex' or (isinstance(p[2],tuple) and p[2][0] in('cex','path')) else 'unknown'
            s.chk.ob(name+'.nopanic',fn,st,'mirv',0,str(p[:3])); return False
        s.chk.ob(name+'.nopanic',fn,fw.PROVED,'mirv+z3',0); return True
    def result(s,name,fn,outs,spec,scale,gen,spec_ev=None):
        """every outcome is canonical and  V*scale == spec (mod p)"""
        ok=bool(outs)
        if not outs: s.chk.ob(name,fn,fw.REFUTED,'mirv',0,'no normal outcome')
        for i,(st,v) in enumerate(outs):
            sfx='' if len(outs)==1 else f'.path{i}'
            V=s.val(v,st)
            g,c=s.modeq(padd(pscale(V,scale),spec,-1))
            ok&=s.prove(name+'.value'+sfx,fn,g,c,st,gen())
            g,c=s.canon(V)
            ok&=s.prove(name+'.canonical'+sfx,fn,g,c,st,gen())
        s.no_panics(name,fn)
        return ok
    def sanity(s,name,outs,f,n=3):
        """evaluate the generated formula on concrete inputs: facts must hold (assumptions satisfiable) and the value must match"""
        rnd=random.Random(5); ok=True
        for _ in range(n):
            a={nm:rnd.randrange(s.P) for nm in s.vars}
            env=s.env(a); s.it.ctx.eval_all(env)
            if s.it.ctx.bad_facts(env): ok=False
            hit=[(st,v) for st,v in outs if s.holds_pc(st,env)]
            if len(hit)!=1: ok=False; continue
        s.chk.canary('assumptions satisfiable: '+name,ok)
    def finish(s): s.chk.absorb(s.it)
    def mul_contract(s,it,st,fr,q,args,argts):
        """contract of F::mul where one operand is a canonical constant B: result r canonical, r = A*(B/R mod p) - p*k"""
        if q[0]!='path' or [strip_gen(x) for x in q[5][-2:]]!=[s.F,'mul']: return None
        P=s.P; vs=[it.deref(st,a) for a in args]
        def cv(v):
            l=[x.const for x in v.f[0].f]
            return None if None in l else sum(x<<(64*i) for i,x in enumerate(l))
        if len(vs)!=2 or not all(isinstance(v,Agg) and v.k==s.F for v in vs): return None
        c=[cv(v) for v in vs]
        if c[1] is None: vs=vs[::-1]; c=c[::-1]
        if c[1] is None or c[1]>=P: return None
        A=s.val(vs[0]); B=c[1]*pow(R,-1,P)%P
        if not A: return [(st,Agg(s.F,(Agg('array',[CI(0,'u64')]*4),)))]
        key=('mulc',pkey(A),B)
        C=it.ctx
        if key not in C.memo:
            k=C.atom(f'q{len(C.atoms)}',0,None,'quot',(A,B,P)); C.atoms[k].hi=((1<<256)*B)//P+1
            r=[C.atom(f'r{len(C.atoms)}_{i}',0,(1<<64)-1,'limb',(A,B,P,i)) for i in (1,2,3)]
            V=padd(pscale(A,B),{(k,):-P})
            r0=V
            for i,x in zip((1,2,3),r): r0=padd(r0,{(x,):-(1<<(64*i))})
            C.facts+= [('ge',V),('ge',padd(pconst(P-1),V,-1)),('ge',r0),('ge',padd(pconst((1<<64)-1),r0,-1))]
            C.memo[key]=Agg(s.F,(Agg('array',[I(r0,0,(1<<64)-1,'u64')]+[I({(x,):1},0,(1<<64)-1,'u64') for x in r]),))
        it.used_contracts.add(s.F+'::mul (operand a < 2^256, constant b < p): canonical, a*b/R mod p')
        return [(st,C.memo[key])]
def pairs(p,names,seed=1):
    def gen():
        E=edge_raw(p,seed)
        if len(names)==1:
            for x in E: yield {names[0]:x}
            return
        r=random.Random(seed)
        sp=[0,1,2,p-1,p-2,(p-1)//2,(p+1)//2,R%p,(1<<64)-1,1<<64,(1<<128)-1,(1<<192)-1,p-(1<<64),p>>64<<64]
        for x in sp:
            for y in sp: yield {names[0]:x,names[1]:y}
        for x in sp:
            for y in E: yield {names[0]:x,names[1]:y}; yield {names[0]:y,names[1]:x}
        while True: yield {names[0]:r.choice(E),names[1]:r.choice(E)}
    return gen
