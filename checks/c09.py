from mirv import fw
from mirv.gp import *
from mirv.aadd import *
from checks import conc
F0=Frame(0,None,{})
VT=lambda F:('path','Vec',(tp(F),))
def go(chk,name,fn,thunk,bound='',backend='mirv-poly'):
    """thunk() -> (it, outs, list of problems)"""
    def th():
        t=time.time(); it,outs,bad=thunk(); bad=list(bad)
        if not outs: bad.append('no outcome')
        if it.panics: bad.append('panics '+str(it.panics[0][:3]))
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED if bound else fw.PROVED,backend,time.time()-t,'; '.join(map(str,bad[:4])),bound=bound); chk.absorb(it)
    chk.attempt(name,fn,th,bound=bound)
def fs(chk,F):
    it=Interp(chk.mir); st=State(); D,=setup(it,F); it.assoc_tab=dict(ASSOC); return it,st,D
def inner(chk,F,n):
    def th():
        it,st,D=fs(chk,F); a=[D.var(f'a{i}') for i in range(n)]; b=[D.var(f'b{i}') for i in range(n)]
        outs=it.invoke(st,F0,f'util::compute_inner_product::<{F}>',[vec_ref(it,st,a),vec_ref(it,st,b)],[slc(tp(F))]*2,tp(F))
        w=D.const(0)
        for x,y in zip(a,b): w=w+x*y
        return it,outs,['wrong value' for s2,v in outs if not (D.fe(v)-w).iszero()]
    go(chk,f'inner_product<{F}>[{n}]','util::compute_inner_product',th,'vector lengths listed; all values')
def chals(D,k):
    c=[D.var(f'c{i}',nz=True) for i in range(k)]; return c,[x.inv() for x in c]
def svec(D,c,ci):
    """coefficient of generator j after folding: round i halves; low half takes inv, high half the challenge"""
    k=len(c); r=[]
    for j in range(1<<k):
        w=D.const(1)
        for i in range(k): w=w*(c[i] if j>>(k-1-i)&1 else ci[i])
        r.append(w)
    return r
def compb(chk,F,k):
    def th():
        it,st,D=fs(chk,F); x=D.var('x'); c,ci=chals(D,k)
        outs=it.invoke(st,F0,f'util::compute_b::<{F}>',[x,vec_ref(it,st,c),vec_ref(it,st,ci)],[tp(F),slc(tp(F)),slc(tp(F))],tp(F))
        w=D.const(0); p=D.const(1)
        if k<=6:
            for s in svec(D,c,ci): w=w+s*p; p=p*x
        return it,outs,['not the inner product of the folding coefficients with the powers of x' for s2,v in outs if not (D.fe(v)-w).iszero()]
    go(chk,f'compute_b<{F}>[rounds={k}]','util::compute_b',th,'round counts listed; all points and challenges')
def compb_ind(chk,F,k):
    """unbounded: the recursive call is answered by the contract  compute_b(x,c,ci)=prod (ci_i + c_i x^(2^(k-1-i)))"""
    fn='util::compute_b'
    def th():
        it,st,D=fs(chk,F); x=D.var('x'); c,ci=chals(D,k); calls=[]
        def con(it,st,fr,q,args,argts):
            ty,tr,m=name_of(q)
            if m!='compute_b' or not calls and not calls.append(0): return None
            y,cs,cis=[it.deref(st,a) if isinstance(a,Ref) else a for a in args]
            if len(cs.f)!=len(cis.f) or not cs.f: raise MirError('precondition of the recursive call')
            if not len(cs.f)<k: raise MirError('recursion does not shrink')
            calls.append(1); w=D.const(1); n=len(cs.f)
            for i in range(n): w=w*(D.fe(cis.f[i])+D.fe(cs.f[i])*FE(D,D.pw(D.fe(y).p,1<<(n-1-i))))
            return [(st,w)]
        it.contracts.insert(0,con)
        outs=it.invoke(st,F0,f'util::compute_b::<{F}>',[x,vec_ref(it,st,c),vec_ref(it,st,ci)],[tp(F),slc(tp(F)),slc(tp(F))],tp(F))
        w=D.const(1)
        for i in range(k): w=w*(ci[i]+c[i]*FE(D,D.pw(x.p,1<<(k-1-i))))
        return it,outs,['contract not re-established' for s2,v in outs if not (D.fe(v)-w).iszero()]
    go(chk,f'compute_b<{F}>.step[rounds={k}]',fn,th,'one recursion step; round counts listed')
def gco(chk,F,k):
    def th():
        it,st,D=fs(chk,F); c,ci=chals(D,k); allinv=D.const(1)
        for y in ci: allinv=allinv*y
        outs=it.invoke(st,F0,f'util::compute_g_coeffs_for_inner_product::<{F}>',[vec_ref(it,st,[x*x for x in c]),allinv],[slc(tp(F)),tp(F)],VT(F))
        w=svec(D,c,ci); bad=[]
        for s2,v in outs:
            if len(v.f)!=1<<k: bad.append(f'length {len(v.f)}'); continue
            bad+=[f'coefficient {j}' for j in range(1<<k) if not (D.fe(v.f[j])-w[j]).iszero()]
        return it,outs,bad
    go(chk,f'g_coeffs<{F}>[rounds={k}]','util::compute_g_coeffs_for_inner_product',th,'round counts listed; all challenges')
def mexp_contract(G,log):
    """contract of multiexp (C06): the sum of the products"""
    def con(it,st,fr,q,args,argts):
        ty,tr,m=name_of(q)
        if m!='multiexp': return None
        a,b=[it.deref(st,x) for x in args]
        if len(a.f)!=len(b.f): raise MirError('multiexp lengths')
        r=G.zero()
        for x,y in zip(a.f,b.f): r=r.add(G.gp(y).mul(G.D.fe(x)))
        log.append(len(a.f)); it.used_contracts.add('util::multiexp'); return [(st,r)]
    return con
def gset(chk,E,cpus=2):
    it=Interp(chk.mir); st=State(); G=gsetup(it,E); it.ghost_cpus=cpus; log=[]; it.contracts.insert(0,mexp_contract(G,log)); return it,st,G,G.D,log
def compg(chk,E,k):
    S=CURVES[E][1]
    def th():
        it,st,G,D,log=gset(chk,E); c,ci=chals(D,k); allinv=D.const(1)
        for y in ci: allinv=allinv*y
        g=[G.base(f'G{i}') for i in range(1<<k)]
        outs=it.invoke(st,F0,f'util::compute_g_for_inner_product::<{S}, {E}>',[vec_ref(it,st,g),vec_ref(it,st,[x*x for x in c]),allinv],[slc(tp(E)),slc(tp(S)),tp(S)],tp(E))
        w=G.zero()
        for s,b in zip(svec(D,c,ci),g): w=w.add(b.mul(s))
        return it,outs,['wrong combination' for s2,v in outs if not G.gp(v).same(w)]
    go(chk,f'g_for_inner_product<{E}>[rounds={k}]','util::compute_g_for_inner_product',th,'round counts listed; all challenges and generators; multiexp by its contract (C06)')
def collapse(chk,E,n,cpus,rev=False):
    S=CURVES[E][1]
    def th():
        it,st,G,D,log=gset(chk,E,cpus); it.spawn_rev=rev; c=D.var('c',nz=True); ci=D.var('ci') ; g=[G.base(f'G{i}') for i in range(n)]
        r=vec_ref(it,st,g)
        outs=it.invoke(st,F0,f'util::parallel_generator_collapse::<{E}>',[r,c,ci],[slc(tp(E)),tp(S),tp(S)],('tuple',))
        l=n//2; bad=[]
        for s2,_ in outs:
            v=it.deref(s2,r).f
            for j in range(n):
                w=g[j].mul(ci).add(g[j+l].mul(c)) if j<l else g[j]
                if not G.gp(v[j]).same(w): bad.append(f'element {j} of {n}')
        return it,outs,bad
    go(chk,f'collapse<{E}>[n={n},cpus={cpus}{",reverse" if rev else ""}]','util::parallel_generator_collapse',th,'lengths and processor counts listed; all challenges and generators')
def collapse_all(chk,E,k,cpus):
    """collapsing step by step (real code each step, slices of half the length) equals one combination with the coefficients"""
    S=CURVES[E][1]
    def th():
        it,st,G,D,log=gset(chk,E,cpus); c,ci=chals(D,k); g=[G.base(f'G{i}') for i in range(1<<k)]; r=it.alloc(st,Agg('Vec',g)); s2=st; bad=[]
        for i in range(k):
            sl=Ref(r.fid,r.loc,(('sl',0,1<<(k-i)),))
            outs=it.invoke(s2,F0,f'util::parallel_generator_collapse::<{E}>',[sl,c[i],ci[i]],[slc(tp(E)),tp(S),tp(S)],('tuple',))
            if len(outs)!=1: return it,outs,['outcomes']
            s2=outs[0][0]
        w=G.zero()
        for s,b in zip(svec(D,c,ci),g): w=w.add(b.mul(s))
        if not G.gp(it.deref(s2,r).f[0]).same(w): bad.append('folded generator differs from the combination')
        return it,outs,bad
    go(chk,f'collapse-all<{E}>[rounds={k},cpus={cpus}]','util::parallel_generator_collapse',th,'round counts listed; all challenges and generators')
ZETA={}
def zeta(chk,F):
    it=Interp(chk.mir); st=State(); v=it.deref(st,it.const(st,F0,f'<{F} as Field>::BETA')); v=v.f[0] if v.k=='&const' else v
    return sum(x.const<<(64*i) for i,x in enumerate(v.f[0].f))*pow(R,-1,MOD[F])%MOD[F]
def challenge(chk,F1,F2):
    fn='util::get_challenge_scalar'
    def th():
        it=Interp(chk.mir); st=State(); D1,=setup(it,F1); D=AD(it,F2); it.contracts.append(ad_contract(D)); it.merge=True; it.assoc_tab=dict(ASSOC)
        bs=[it.ctx.atom(f'b{i}',0,1,'bit') for i in range(255)]
        fe=FE(D1,{(a,):1<<i for i,a in enumerate(bs)}); by=[]
        for i in range(32):
            q={(bs[8*i+j],):1<<j for j in range(8) if 8*i+j<255}; by.append(I(q,0,sum(q.values()),'u8'))
        D1.bytes[pkey(fe.p)]=(by,fe.p,fe,{(bs[0],):1})
        outs=it.invoke(st,F0,f'{fn}::<{F1}, {F2}>',[fe],[tp(F1)],tp(F2))
        # published recurrence:  Acc = 3 at the start; for each of the bit pairs 1..63: Acc = 2 Acc -+ 1, times zeta when the second bit is set
        z=ZETA[F2]; acc=D.const(3)
        for i in range(1,64):
            acc=D.add(D.aff(acc,2,1),D.aff(D.bit(bs[2*i]),-2,0))
            acc=D.mul(acc,D.add(D.const(1),D.aff(D.bit(bs[2*i+1]),z-1,0)))
        return it,outs,['differs from the recurrence' for s2,v in outs if lift(D,v)!=acc]
    go(chk,f'get_challenge_scalar<{F1},{F2}>',fn,th,'','affine decision diagrams')
def run():
    chk=fw.Check('C09','other'); T=chk.thorough
    for F in('Fp','Fq'): ZETA[F]=zeta(chk,F)
    for n in(0,1,2,3,8,17): inner(chk,'Fp',n)
    for k in(1,2,3,4,5)+((6,7) if T else ()): compb(chk,'Fp',k) if k<=6 else None; compb_ind(chk,'Fp',k); gco(chk,'Fp',k)
    for k in(0,6): gco(chk,'Fp',k)
    for F in('Fq',): inner(chk,F,5); compb(chk,F,3); gco(chk,F,3)
    for k in range(0,6): compg(chk,'Ec0',k)
    compg(chk,'Ec1',3)
    for n,c in((2,1),(2,4),(4,1),(4,2),(8,2),(8,8),(16,2),(16,3),(16,4),(32,4),(64,5),(64,8),(3,2),(5,2),(7,1))+(((128,8),(256,7)) if T else ()): collapse(chk,'Ec0',n,c)
    collapse(chk,'Ec1',16,2); collapse(chk,'Ec0',16,2,True)
    for k,c in((1,1),(2,2),(3,4),(4,2),(5,3)): collapse_all(chk,'Ec0',k,c)
    challenge(chk,'Fp','Fq'); challenge(chk,'Fq','Fp')
    chk.assumptions+=['scoped threads: closures borrow disjoint data, so complete executions in program order (and reverse) represent every schedule','field and group operations by the contracts of C01, C03, C05; multiexp by C06']
    return chk.finish(conc.search_c09)
