import random
from mirv import fw
from mirv.fieldvc import *
from mirv.interp import *
from mirv.dom import *
class Tm(Dom):
    """uninterpreted field term (only structural equality); used for sqrt's guard"""
    __slots__=('t',)
    def __init__(s,t): s.t=t
    def select(s,ctx,w,a,b): 
        if a.t==b.t: return a
        return Tm(('sel',pkey(w.p),a.t,b.t))
    def field(s,i): raise MirError('representation read')
class TermTab:
    def __init__(s): s.h={}
    def mk(s,*k):
        if k not in s.h: s.h[k]=len(s.h)
        return Tm(s.h[k])
def term_contract(F,tab):
    def con(it,st,fr,q,args,argts):
        ty,tr,m=name_of(q)
        vs=[it.deref(st,a) if isinstance(a,Ref) else a for a in args]
        if not any(isinstance(v,Tm) for v in vs):
            # over-approximation of the loop control: any value
            if m=='conditional_select' and ty in('u32','u64','usize','u8') and vs[2].f[0].const is None and isinstance(vs[0],I):
                return [(st,it.ctx.var('havoc',ty,min(vs[0].lo,vs[1].lo),max(vs[0].hi,vs[1].hi)))]
            if m in('bitand','bitand_assign','bitor','bitor_assign','bitxor','bitxor_assign') and ty=='Choice' and all(isinstance(v,Agg) for v in vs) and len(vs[0].f[0].p)*len(vs[1].f[0].p)>1:
                c=choice(it.ctx.var('havoc','u8',0,1))
                if m.endswith('_assign'): it.setref(st,args[0],c); return [(st,UNIT)]
                return [(st,c)]
            if ty==F and m in('one','zero') and not args: return [(st,tab.mk(m))]
            return None
        def tv(v):
            if isinstance(v,Tm): return v
            if isinstance(v,Agg) and v.k==F: return tab.mk('c',tuple(x.const for x in v.f[0].f))
            raise MirError('term operand')
        one=lambda v:[(st,v)]
        if m in('clone','conditional_assign','sqrt'): return None
        if m in('mul','add','sub'):
            a,b=tv(vs[0]).t,tv(vs[1]).t
            if m!='sub': a,b=sorted((a,b))
            return one(tab.mk(m,a,b))
        if m in ASSIGN:
            a,b=tv(vs[0]).t,tv(vs[1]).t
            if m!='sub_assign': a,b=sorted((a,b))
            it.setref(st,args[0],tab.mk(ASSIGN[m],a,b)); return one(UNIT)
        if m=='square': a=tv(vs[0]).t; return one(tab.mk('mul',a,a))
        if m=='neg': return one(tab.mk('neg',tv(vs[0]).t))
        if m=='double': a=tv(vs[0]).t; return one(tab.mk('add',a,a))
        if m in('pow','pow_vartime'):
            e=tuple(x.const for x in vs[1].f)
            if None in e: raise MirError('symbolic exponent')
            return one(tab.mk('pow',tv(vs[0]).t,e))
        if m in('ct_eq','eq','is_zero'):
            a=tv(vs[0]).t; b=tv(vs[1]).t if m!='is_zero' else tab.mk('zero').t
            key=('teq',)+tuple(sorted((a,b)))
            if a==b: w=CI(1,'u8')
            else:
                if key not in it.ctx.memo: it.ctx.memo[key]=it.ctx.atom(f'teq{len(it.ctx.atoms)}',0,1,'teq',key)
                w=I({(it.ctx.memo[key],):1},0,1,'u8')
            return one(choice(w) if m!='eq' else I(w.p,0,1,'bool'))
        if m=='conditional_select':
            w=it.sub_assume(st,vs[2].f[0]); a,b=tv(vs[0]),tv(vs[1])
            if w.const is not None: return one(b if w.const else a)
            return one(a if a.t==b.t else tab.mk('havoc',len(tab.h)))
        if m=='to_bytes': raise MirError('bytes of a term')
        if ty!=F and tr!='Field': return None
        raise MirError('term op '+m)
    return con
def run_field(chk,F):
    P=MOD[F]; T=('path',F,()); RT=('ref',T)
    arr=('ref',('array',('path','u64',()),'4'))
    for m in('pow','pow_vartime'):
        name=f'{F}.{m}'; callee=f'<{F} as Field>::{m}'
        def th():
            it=Interp(chk.mir); st=State(); it.merge=True
            it.contracts.append(pow_contract(F))
            e=[it.ctx.var(f'e{i}','u64') for i in range(4)]
            base=Pw(F,'x',CI(1,'nat'))
            outs=it.invoke(st,Frame(0,None,{}),callee,[it.alloc(st,base),it.alloc(st,Agg('array',e))],[RT,arr])
            E={}
            for i,x in enumerate(e): E=padd(E,x.p,1<<(64*i))
            ok=bool(outs)
            for st2,v in outs:
                if not isinstance(v,Pw): raise MirError('result is not a power')
                d=padd(v.e.p,E,-1)
                if not d: chk.ob(name+'.exponent',callee,fw.PROVED,'mirv-poly',0); continue
                r=it.ctx.z3prove(lambda tr:tr(d)==0,hyps=st2.pc,assume=st2.assume,timeout=60)
                if r!='proved':
                    # evaluate on concrete exponents
                    rnd=random.Random(1); bad=None
                    for n in [0,1,2,3,(1<<64)-1,1<<63,1<<64,1<<255,(1<<256)-1]+[rnd.randrange(1<<256) for _ in range(50)]:
                        env={next(iter(x.p))[0]:(n>>(64*i))&((1<<64)-1) for i,x in enumerate(e)}
                        it.ctx.eval_all(env)
                        if all(env[a]==b for a,b in st2.assume.items()) and it.ctx.evalp(v.e.p,env)!=n: bad=n;break
                    chk.ob(name+'.exponent',callee,fw.REFUTED if bad is not None else fw.UNKNOWN,'mirv-poly',0,f'exponent {bad}')
                else: chk.ob(name+'.exponent',callee,fw.PROVED,'z3-lia',0)
            if not outs: chk.ob(name+'.exponent',callee,fw.REFUTED,'mirv',0,'no outcome')
            nop(chk,it,name,callee); chk.absorb(it)
        chk.attempt(name,callee,th)
    # invert: power p-2, present iff non-zero
    name=f'{F}.invert'; callee=f'<{F} as Field>::invert'
    def inv():
        it=Interp(chk.mir); st=State(); D,=setup(it,F)
        it.contracts=[c for c in it.contracts]; x=D.var('x')
        base=fe_contract(D)
        def con(it_,st_,fr,q,args,argts):
            ty,tr,m=name_of(q)
            if m=='invert': return None
            return base(it_,st_,fr,q,args,argts)
        it.contracts=[con]
        outs=it.invoke(st,Frame(0,None,{}),callee,[it.alloc(st,x)],[RT])
        for st2,v in outs:
            w=it.sub_assume(st2,v.f[1].f[0]); z=D.eqz(st2,x.p)
            d=padd(w.p,it.ctx.bnot(z).p,-1)
            chk.ob(name+'.present-iff-nonzero',callee,fw.PROVED if not d else fw.REFUTED,'mirv-poly',0,'choice differs')
            val=v.f[0]
            if w.const==0: continue
            # value * x == 1 whenever x != 0
            ok=False
            if isinstance(val,FE):
                p=val.p
                if len(p)==1:
                    (mm,c),=p.items()
                    if len(mm)==1 and mm[0] in getattr(D,'powers',{}):
                        b,n=D.powers[mm[0]]
                        ok= c==1 and b.p==x.p and n%(P-1)==P-2
                if D.zero(D.add(D.mul(p,x.p),{():1},-1)): ok=True
            chk.ob(name+'.value',callee,fw.PROVED if ok else fw.REFUTED if isinstance(val,FE) and len(val.p)==1 else fw.UNKNOWN,'mirv-poly (x^(p-1)=1, p prime: C04)',0,repr(val))
        if not outs: chk.ob(name+'.value',callee,fw.REFUTED,'mirv',0,'no outcome')
        nop(chk,it,name,callee); chk.absorb(it)
    chk.attempt(name,callee,inv)
    # sqrt: whatever the loop computes, the returned option is guarded by its square
    name=f'{F}.sqrt'; callee2=f'<{F} as Field>::sqrt'
    def sq():
        it=Interp(chk.mir); st=State(); tab=TermTab(); it.contracts.append(term_contract(F,tab)); it.merge=True
        x=tab.mk('self')
        outs=it.invoke(st,Frame(0,None,{}),callee2,[it.alloc(st,x)],[RT])
        for st2,v in outs:
            w=v.f[1].f[0]
            key=('teq',)+tuple(sorted((tab.mk('mul',v.f[0].t,v.f[0].t).t,x.t)))
            at=it.ctx.memo.get(key)
            # w implies the guard atom
            ok= at is not None and not it.ctx.pmul(w.p,padd(pconst(1),{(at,):1},-1))
            chk.ob(name+'.some-implies-squares-back',callee2,fw.PROVED if ok else fw.REFUTED,'mirv-term',0,it.ctx.show(w))
        if not outs: chk.ob(name+'.some-implies-squares-back',callee2,fw.REFUTED,'mirv',0,'no outcome')
        nop(chk,it,name,callee2); chk.absorb(it)
    chk.attempt(name,callee2,sq)
    # completeness: a root is returned for every square; one obligation per 2-power order of the input's odd-part power
    t=(P-1)>>32; gen=7 if F=='Fp' else 5
    for k in range(0,33):
        def cp(k=k):
            rnd=random.Random(chk.seed*100+k); vals=[]
            g=pow(gen,t,P)
            for i in range(1 if not chk.thorough else 8):
                # a = h * g^(2^(32-k) * odd), h of odd order
                h=pow(rnd.randrange(1,P),1<<32,P); e=((rnd.randrange(1<<31)*2+1)<<(32-k)) if k else 0
                vals.append(h*pow(g,e,P)%P)
            if k==0: vals+=[0,1,4,9]
            if k==32: vals.append(gen)
            for a in vals:
                it=Interp(chk.mir); st=State(); D,=setup(it,F)
                base=fe_contract(D)
                it.contracts=[lambda it_,st_,fr,q,args,argts: None if name_of(q)[2] in('sqrt','pow_vartime','pow') and name_of(q)[2]=='sqrt' else base(it_,st_,fr,q,args,argts)]
                outs=it.invoke(st,Frame(0,None,{}),callee2,[it.alloc(st,D.const(a))],[RT])
                (st2,v),=outs
                has=v.f[1].f[0].const; r=v.f[0].const
                sqr= a==0 or pow(a,(P-1)//2,P)==1
                if has!=int(sqr) or (sqr and r*r%P!=a):
                    chk.ob(f'{F}.sqrt.complete[order 2^{k}]',callee2,fw.REFUTED,'mirv-concrete',0,f'sqrt({hex(a)}) -> present={has} value={r}'); return
                if it.panics: nop(chk,it,name,callee2); return
                chk.absorb(it)
            chk.ob(f'{F}.sqrt.complete[order 2^{k}]',callee2,fw.BOUNDED,'mirv-concrete',0,'',f'{len(vals)} values per 2-power order')
        chk.attempt(f'{F}.sqrt.complete[order 2^{k}]',callee2,cp)
    # batch inversion
    callee3=f'<{F} as Field>::batch_invert'
    for n in range(0,5 if not chk.thorough else 7):
        name=f'{F}.batch_invert[n={n}]'
        def bi(n=n,name=name):
            # every zero pattern
            for pat in range(1<<n):
                it=Interp(chk.mir); st=State(); D,=setup(it,F)
                xs=[D.const(0) if pat>>i&1 else D.var(f'x{i}',nz=True) for i in range(n)]
                r=it.alloc(st,Agg('array',xs))
                outs=it.invoke(st,Frame(0,None,{}),callee3,[Ref(r.fid,r.loc,(('sl',0,n),))],[('ref',('slice',T))])
                if not outs: chk.ob(name,callee3,fw.REFUTED,'mirv',0,f'no outcome, zero pattern {pat:b}'); return
                for st2,v in outs:
                    after=it.load(st2,r.fid,r.loc,()).f
                    prod=D.const(1)
                    for x in xs:
                        if x.p: prod=prod*x
                    good=D.fe(v)*prod
                    bad=[]
                    if not (good-1).iszero(): bad.append('returned product')
                    for i,(x,y) in enumerate(zip(xs,after)):
                        y=D.fe(y)
                        if not x.p:
                            if y.p: bad.append(f'zero entry {i} changed')
                        elif not (x*y-1).iszero(): bad.append(f'entry {i} is not the inverse')
                    if bad: chk.ob(name,callee3,fw.REFUTED,'mirv-poly',0,f'zero pattern {pat:0{n}b}: {bad}',f'length {n}'); return
                if it.panics: nop(chk,it,name,callee3); return
                chk.absorb(it)
            chk.ob(name,callee3,fw.BOUNDED,'mirv-poly',0,'',f'slice length <= {4 if not chk.thorough else 6}; all zero patterns, all values')
        chk.attempt(name,callee3,bi)
def nop(chk,it,name,fn):
    if it.panics: chk.ob(name+'.nopanic',fn,fw.REFUTED if it.panics[0][2]!='unknown' else fw.UNKNOWN,'mirv',0,str(it.panics[0][:3]))
    else: chk.ob(name+'.nopanic',fn,fw.PROVED,'mirv',0)
def run():
    chk=fw.Check('C03')
    for F in('Fp','Fq'): run_field(chk,F)
    chk.assumptions+=['Fermat: x^(p-1)=1 for x!=0 (p prime: checked by C04)']
    from checks import conc
    return chk.finish(conc.search_c03)
