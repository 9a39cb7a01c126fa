import random
from mirv import fw
from mirv.gp import *
from checks import conc
from checks.spec_rescue import *
F0=Frame(0,None,{})
def vmap(v,f):
    if isinstance(v,FE): return f(v)
    if isinstance(v,Agg): return Agg(v.k,[vmap(x,f) for x in v.f],v.v)
    return v
def diff(D,a,b):
    """structural comparison; 'same' | 'differ' | 'unknown'"""
    if isinstance(a,FE) or isinstance(b,FE):
        r=D.same(D.fe(a),D.fe(b)); return 'same' if r else 'differ' if r is False else 'unknown'
    if isinstance(a,Agg) and isinstance(b,Agg):
        if a.v!=b.v or len(a.f)!=len(b.f): return 'unknown'
        r=[diff(D,x,y) for x,y in zip(a.f,b.f)]
        return 'differ' if 'differ' in r else 'unknown' if 'unknown' in r else 'same'
    if isinstance(a,I) and isinstance(b,I): return 'same' if a.p==b.p else 'unknown'
    return 'same' if a==b else 'unknown'
class H:
    def __init__(s,chk,F):
        s.chk=chk; s.F=F; s.it=Interp(chk.mir); s.st=State(); s.D,=setup(s.it,F); s.it.assoc_tab=dict(ASSOC); s.D.powlimit=1
        ra=lambda n: s.it.deref(s.st,s.it.const(s.st,F0,f'<{F} as Field>::{n}'))
        un=lambda v: v.f[0] if isinstance(v,Agg) and v.k=='&const' else v
        s.alpha=5; s.ialpha=pow(5,-1,MOD[F]-1); s.p=Perm(s.D,s.alpha,s.ialpha)
    def new(s):
        (st,v),=s.it.invoke(s.st.copy(),F0,f'rescue::Rescue::<{s.F}>::new',[],[]); return v
    def call(s,m,v,*a):
        st=s.st.copy(); r=s.it.alloc(st,v)
        outs=s.it.invoke(st,F0,f'rescue::Rescue::<{s.F}>::{m}',[r]+list(a),[('ref',('path','Rescue',(tp(s.F),)))]+[tp(s.F)]*len(a),tp(s.F))
        if len(outs)!=1: raise MirError(f'{len(outs)} outcomes')
        return outs[0][1],s.it.deref(outs[0][0],r)
def induction(chk,F):
    fn='rescue::Rescue'
    def rec(name,r,t):
        chk.ob(f'{F}.{name}',fn,fw.PROVED if r=='same' else fw.REFUTED if r=='differ' else fw.UNKNOWN,'mirv-poly',time.time()-t,'' if r=='same' else r)
    def th():
        h=H(chk,F); D=h.D
        v=h.new(); S0=[i for i,x in enumerate(v.f) if isinstance(x,Agg) and len(x.f)==M and all(isinstance(y,FE) for y in x.f)]
        if len(S0)!=1: raise MirError('representation of the sponge state not recognised')
        k0=S0[0]; setS=lambda v,S: Agg(v.k,[Agg(x.k,S) if i==k0 else x for i,x in enumerate(v.f)],v.v)
        S=[D.var(f's{i}') for i in range(M)]; vals=[D.var(f'v{i}') for i in range(RATE)]; w=D.var('w')
        t=time.time(); rec('initial-state-zero','same' if all(x.const==0 for x in v.f[k0].f) else 'differ',t)
        A=[v]
        for x in vals:
            _,n=h.call('absorb',A[-1],x); A.append(n)
        A1w=h.call('absorb',A[0],w)[1]
        rep=lambda k,S: setS(A[k],S)
        # representation of a squeezing sponge after j outputs, by running the code and renaming the permuted state
        P0=h.p.duplex(S,[]); out,sq=h.call('squeeze',rep(0,S))
        T=[D.var(f't{i}') for i in range(M)]
        ren={pkey(p.p):x for p,x in zip(P0,T)}
        Q=[None,vmap(sq,lambda x: ren.get(pkey(x.p),x))]
        for j in range(1,RATE): Q.append(h.call('squeeze',Q[-1])[1])
        def sqrep(j,S):
            m={pkey(x.p):y for x,y in zip(T,S)}; return vmap(Q[j],lambda x: m.get(pkey(x.p),x))
        comb=lambda *r: 'differ' if 'differ' in r else 'unknown' if 'unknown' in r else 'same'
        for k in range(RATE+1):
            t=time.time(); _,n=h.call('absorb',rep(k,S),w)
            if k<RATE: e=vmap(setS(A[k+1],S),lambda x: w if x.p==vals[k].p else x)
            else: e=setS(A1w,h.p.duplex(S,vals))
            rec(f'absorb-after-{k}-pending',diff(D,n,e),t)
            t=time.time(); o,n=h.call('squeeze',rep(k,S)); N=h.p.duplex(S,vals[:k])
            rec(f'squeeze-after-{k}-pending',comb(diff(D,o,N[0]),diff(D,n,sqrep(1,N))),t)
        for j in range(1,RATE+1):
            t=time.time(); _,n=h.call('absorb',sqrep(j,S),w); rec(f'absorb-after-{j}-outputs',diff(D,n,setS(A1w,S)),t)
            t=time.time(); o,n=h.call('squeeze',sqrep(j,S))
            if j<RATE: rec(f'squeeze-after-{j}-outputs',comb(diff(D,o,S[j]),diff(D,n,sqrep(j+1,S))),t)
            else: N=h.p.duplex(S,[]); rec(f'squeeze-after-{j}-outputs',comb(diff(D,o,N[0]),diff(D,n,sqrep(1,N))),t)
        if h.it.panics: chk.ob(f'{F}.no-panic',fn,fw.REFUTED,'mirv',0,str(h.it.panics[0][:3]))
        else: chk.ob(f'{F}.no-panic',fn,fw.PROVED,'mirv',0)
        chk.canary('perturbed state told apart',diff(D,rep(3,S),rep(3,S[:-1]+[S[-1]+1]))=='differ')
        chk.absorb(h.it)
    chk.attempt(f'{F}.induction',fn,th)
def history(chk,F,hist):
    fn='rescue::Rescue'; name=f'{F}.history[{hist}]'
    def th():
        t=time.time(); h=H(chk,F); v=h.new(); sp=Sponge(h.p); n=0; res=[]
        for c in hist:
            if c=='a': x=h.D.var(f'x{n}'); n+=1; _,v=h.call('absorb',v,x); sp.absorb(x)
            else: o,v=h.call('squeeze',v); res.append(diff(h.D,o,sp.squeeze()))
        st=fw.REFUTED if 'differ' in res or h.it.panics else fw.UNKNOWN if 'unknown' in res else fw.BOUNDED
        chk.ob(name,fn,st,'mirv-poly',time.time()-t,'' if st==fw.BOUNDED else res,bound='histories listed; all values'); chk.absorb(h.it)
    chk.attempt(name,fn,th,bound='listed histories')
def run():
    chk=fw.Check('C10')
    for F in('Fp','Fq'):
        induction(chk,F)
        for hs in('s','as','aaass','sas','a'*12+'s','a'*13+'s','a'+'s'*13,'as'*4)+(('a'*25+'s'*26,'ssas'*6,'a'*12+'s'*12+'a'*12+'s'*13) if chk.thorough else ()): history(chk,F,hs)
    chk.assumptions+=['the constants of the instance (all-ones round constants, matrix (i+1)*j, one-padding) are those the library documents as its definition; the S-box exponents are 5 and its inverse modulo p-1 (C04)','field operations by the contracts of C01, C03 (x -> x^n uninterpreted for both S-box exponents)']
    return chk.finish(conc.search_c10)
