import z3
from mirv import fw
from mirv.fieldvc import *
from mirv.interp import *
RAW='raw'
def edge_ints(bits,p):
    def gen():
        E={0,1,2,p-1,p,p+1,p-2,2*p-1,2*p,2*p+1,(1<<bits)-1,(1<<bits)-2,R%p,R*R%p}
        for k in range(0,bits,8): E|={1<<k,(1<<k)-1,p-(1<<k),p+(1<<k)}
        for e in edge_raw(p): E|={e,e+p,e+(p>>64<<64)}
        r=random.Random(3)
        for _ in range(200): E.add(r.randrange(1<<bits))
        for e in sorted(E):
            if 0<=e<(1<<bits): yield e
    return gen
def run_field(chk,F):
    P=MOD[F]; T=('path',F,()); RT=('ref',T)
    def bytesvar(vc,n,nm='n'):
        it=vc.it; bs=[it.ctx.var(f'{nm}{i}','u8') for i in range(n)]
        p={}
        for i,b in enumerate(bs): p=padd(p,b.p,1<<(8*i))
        vc.bytes[nm]=[next(iter(b.p))[0] for b in bs]
        return bs,p
    def VC():
        vc=FieldVC(chk,F); it,st=vc.new(); vc.bytes={}
        old=vc.env
        def env(a):
            e={}
            for nm,v in a.items():
                if nm in vc.bytes:
                    for i,x in enumerate(vc.bytes[nm]): e[x]=(v>>(8*i))&255
                elif nm in vc.vars:
                    w=vc.width.get(nm,64)
                    for i,x in enumerate(vc.vars[nm]): e[x]=(v>>(w*i))&((1<<w)-1)
            return e
        vc.env=env; vc.width={}
        it.contracts.append(vc.mul_contract)
        return vc,it,st
    def vars_for_cex(vc):
        # bytes shown in counterexamples
        pass
    def mulwide():
        vc=FieldVC(chk,F); it,st=vc.new(); name=f'{F}.mul(wide operand)'; callee=f'{F}::mul'
        for order in(0,1):
            vc.new(); it,st=vc.it,vc.st
            a,pa=vc.elem('a',False); b,pb=vc.elem('b'); vc.product_fact(pa,pb,R-1,P-1)
            ar=[vc.ref(a),vc.ref(b)]
            outs=it.invoke(st,Frame(0,None,{}),callee,ar if not order else ar[::-1],[RT]*2)
            vc.sanity(name,outs,None)
            vc.result(name+('.swapped' if order else ''),callee,outs,it.ctx.pmul(pa,pb),R,pairs(P,'ab')); vc.finish()
    chk.attempt(f'{F}.mul(wide operand)',f'{F}::mul',mulwide)
    def from_bytes():
        vc,it,st=VC(); bs,N=bytesvar(vc,32); name=f'{F}.from_bytes'; callee=f'<{F} as Field>::from_bytes'
        r=it.alloc(st,Agg('array',bs))
        outs=it.invoke(st,Frame(0,None,{}),callee,[r],[('ref',('array',('path','u8',()),'32'))])
        if not outs: chk.ob(name,callee,fw.REFUTED,'mirv',0,'no normal outcome')
        gen=lambda:({'n':e} for e in edge_ints(256,P)())
        for st2,v in outs:
            c=it.sub_assume(st2,v.f[1].f[0])
            vc.prove(name+'.accepts-iff-below-modulus',callee,lambda tr:(tr(c.p)==1)==(tr(N)<=P-1),lambda env:(it.ctx.evalp(c.p,env)==1)==(it.ctx.evalp(N,env)<P),st2,gen())
            V=vc.val(v.f[0],st2)
            g,ch=vc.modeq(padd(V,N,-R))
            vc.prove(name+'.value',callee,lambda tr:z3.Or(tr(c.p)==0,g(tr)),lambda env:it.ctx.evalp(c.p,env)==0 or ch(env),st2,gen())
            g2,ch2=vc.canon(V)
            vc.prove(name+'.canonical',callee,lambda tr:z3.Or(tr(c.p)==0,g2(tr)),lambda env:it.ctx.evalp(c.p,env)==0 or ch2(env),st2,gen())
        env=vc.env({'n':P+12345}); it.ctx.eval_all(env); chk.canary('assumptions satisfiable '+name,not it.ctx.bad_facts(env))
        vc.no_panics(name,callee); vc.finish()
    chk.attempt(f'{F}.from_bytes',f'<{F} as Field>::from_bytes',from_bytes)
    def to_bytes(callee,name,low=False):
        def th():
            vc,it,st=VC(); a,pa=vc.elem('a'); r=vc.ref(a)
            outs=it.invoke(st,Frame(0,None,{}),callee,[r],[RT],('array',('path','u8',()),'32'))
            if not outs: chk.ob(name,callee,fw.REFUTED,'mirv',0,'no normal outcome')
            for st2,v in outs:
                if len(v.f)!=32: raise MirError('byte count')
                N={}
                for i,b in enumerate(v.f):
                    N=padd(N,b.p,1<<(8*i))
                    if not(b.lo>=0 and b.hi<=255): raise MirError('byte range')
                g,c=vc.modeq(padd(pscale(N,R),pa,-1)); vc.prove(name+'.value',callee,g,c,st2,pairs(P,'a')())
                g,c=vc.canon(N); vc.prove(name+'.canonical',callee,g,c,st2,pairs(P,'a')())
                if low:
                    lc=f'<{F} as Field>::get_lower_128'; ln=f'{F}.get_lower_128'
                    for st3,w in it.invoke(st2,Frame(0,None,{}),lc,[r],[RT]):
                        lo={}
                        for i in range(16): lo=padd(lo,v.f[i].p,1<<(8*i))
                        vc.prove(ln+'.equals-low-bytes',lc,lambda tr:tr(w.p)==tr(lo),lambda env:it.ctx.evalp(w.p,env)==it.ctx.evalp(lo,env),st3,pairs(P,'a')())
            vc.sanity(name,outs,None)
            vc.no_panics(name,callee); vc.finish()
        chk.attempt(name,callee,th)
    to_bytes(f'<{F} as Field>::to_bytes',f'{F}.to_bytes',True)
    to_bytes(f'<[u8; 32] as From<&{F}>>::from',f'{F}.into-bytes')
    def ctor(name,callee,mk,bits,argty):
        def th():
            vc,it,st=VC(); arg,N=mk(vc,it,st)
            outs=it.invoke(st,Frame(0,None,{}),callee,[arg],[argty],T)
            gen=lambda:({k:e for k in (vc.bytes or vc.vars)} for e in edge_ints(bits,P)())
            vc.result(name,callee,outs,pscale(N,R),1,gen)
            env=vc.env({k:(1<<bits)-3 for k in (vc.bytes or vc.vars)}); it.ctx.eval_all(env); chk.canary('assumptions satisfiable '+name,not it.ctx.bad_facts(env))
            vc.finish()
        chk.attempt(name,callee,th)
    def raw(vc,it,st):
        L,p=vc.limbs('a',False); return Agg('array',L),p
    ctor(f'{F}.from_raw',f'{F}::from_raw',raw,256,('array',('path','u64',()),'4'))
    def u(ty):
        def f(vc,it,st):
            v=it.ctx.var('a0',ty); vc.vars['a']=[next(iter(v.p))[0]]; vc.width['a']=WID[ty]; return v,v.p
        return f
    ctor(f'{F}.from_u64',f'<{F} as Field>::from_u64',u('u64'),64,('path','u64',()))
    ctor(f'{F}.From<u64>',f'<{F} as From<u64>>::from',u('u64'),64,('path','u64',()))
    ctor(f'{F}.from_u128',f'<{F} as Field>::from_u128',u('u128'),128,('path','u128',()))
    def ubool(vc,it,st):
        v=it.ctx.var('a0','bool'); vc.vars['a']=[next(iter(v.p))[0]]; vc.width['a']=1; return v,v.p
    ctor(f'{F}.From<bool>',f'<{F} as From<bool>>::from',ubool,1,('path','bool',()))
    def wide(vc,it,st):
        bs,p=bytesvar(vc,64); return it.alloc(st,Agg('array',bs)),p
    ctor(f'{F}.from_bytes_wide',f'{F}::from_bytes_wide',wide,512,('ref',('array',('path','u8',()),'64')))
def run():
    chk=fw.Check('C02')
    for F in('Fp','Fq'): run_field(chk,F)
    chk.assumptions+=['reading and writing are inverse: lemma over the contracts (both sides canonical and congruent mod p, hence equal)']
    from checks import conc
    return chk.finish(conc.search_c02)
