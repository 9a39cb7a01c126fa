"""C14: number gadgets (src/gadgets/num.rs)."""
from checks.c11 import *
from mirv.interp import Run, has_run
CO=lambda F:('path','Coeff',(tp(F),)); ANT=lambda F:('path','AllocatedNum',(tp(F),)); NUT=lambda F:('path','Num',(tp(F),)); CBT=lambda F:('path','Combination',(tp(F),))
OP=lambda t:('path','Option',(t,))
class Terms(Run):
    """arbitrarily many terms of a combination with total value A; alloc: at least one is a variable"""
    def __init__(s,lc,val,alloc): Run.__init__(s,None,'terms'); s.lc=lc; s.val=val; s.alloc=alloc; s.macro=True
def num_run_contract(g):
    def con(it,st,fr,q,args,argts):
        if not args: return None
        v=args[0]
        if isinstance(v,Ref):
            try: v=it.deref(st,v)
            except MirError: return None
        if not isinstance(v,Terms): return None
        m=q[4]
        if m in('clone','to_owned'): return [(st,v)]
        it.used_contracts.add('Num::'+m+' (generic term)')
        if m=='lc': return [(st,Agg('LinearCombination',(Agg('Vec',[Agg('tuple',(g.V(i),Agg('Coeff',(c,),3))) for c,i in v.lc]),)))]
        if m=='is_constant': return [(st,CI(int(not v.alloc),'bool'))]
        if m=='value': return [(st,some(v.val) if v.val is not None else NONE)]
        if m=='scale': k=g.D.fe(args[1],st); return [(st,Terms([(c*k,i) for c,i in v.lc],None if v.val is None else v.val*k,v.alloc))]
        if m=='neg': return [(st,Terms([(-c,i) for c,i in v.lc],None if v.val is None else -v.val,v.alloc))]
        return None
    return con
def mkgad(chk,F,witness=True):
    g=Gad(chk.mir,F); g.it.contracts.insert(0,num_run_contract(g)); return g
def pow_rules(D):
    """x -> x^INVALPHA is the inverse of the fifth power (C10): the result r satisfies r^5 = x"""
    big=D.bigpow
    def bp(b,n):
        r=big(b,n)
        if 5*n%(D.P-1)==1:
            a=next(iter(r.p))[0]; D.rules.setdefault(a,(5,b.p))
        return r
    D.bigpow=bp
def coeff(g,k,name):
    if k=='F': c=g.D.var('k'+name); return Agg('Coeff',(c,),3),c
    i={'0':0,'1':1,'-':2}[k]; return Agg('Coeff',(),i),g.D.const((0,1,-1)[i])
def anum(g,st,name,val=None):
    x=val if val is not None else g.D.var(name); i=g.invar(st,x)
    return Agg('AllocatedNum',g.order('AllocatedNum',dict(value=some(x) if g.witness else NONE,var=g.V(i)))),x
def num(g,st,k,name):
    """k: c<coeff> constant, a<coeff> allocated"""
    c,cv=coeff(g,k[1],name)
    if k[0]=='c': return Agg('Num',(c,),0),cv
    a,x=anum(g,st,name); return Agg('Num',(c,a),1),cv*x
def comb(g,st,kinds,name):
    ts=[];v=g.D.const(0); al=False
    for j,k in enumerate(kinds):
        if k in('R','r'):
            x=g.D.var(f'{name}run{j}')
            if k=='R': t=Terms([(g.D.const(1),g.invar(st,x))],x if g.witness else None,True)
            else: t=Terms([(x,0)],x,False)
            ts.append(t)
        else: t,x=num(g,st,k,f'{name}{j}'); ts.append(t)
        v=v+x; al|=k[0] in'aR'
    return Agg('Combination',g.order('Combination',dict(value=some(v) if g.witness or not al else NONE,terms=Agg('Vec',ts)))),v
def denote(g,st,v):
    """(lc, reported value) of a number value"""
    D=g.D; d=lambda o:None if o.v==0 else D.fe(o.f[0],st)
    if v.k=='AllocatedNum': return ((D.const(1),g.vi(g.get(v,v.k,'var'))),),d(g.get(v,v.k,'value'))
    if v.k=='Num':
        c=g.coeff(st,v.f[0])
        if v.v==0: return ((c,0),),c
        l,o=denote(g,st,v.f[1]); return tuple((c*x,i) for x,i in l),None if o is None else o*c
    if v.k=='Combination':
        l=()
        for t in g.get(v,v.k,'terms').f: l+=tuple(t.lc) if isinstance(t,Terms) else denote(g,st,t)[0]
        return l,d(g.get(v,v.k,'value'))
    if v.k=='LinearCombination': return g.lc(st,v),None
    raise MirError(f'not a number: {v}')
def run():
    chk=fw.Check('C14')
    M='gadgets::num::'
    def ob(name,fn,build,spec,F='Fp',wrap=True,rel=None,err=None,nowit=True,value=True,post=None):
        """build(g) -> (outs, inputs).  Checks honest satisfaction, output denotation and reported value = spec(inputs), soundness
        rel(vals,lcs,inputs,g) -> goals (default: lc - spec), and that the constraints do not depend on the witness"""
        def th():
            t=time.time(); g=mkgad(chk,F); pow_rules(g.D); outs,inp=build(g); bad=[]; unk=[]; wit=None; shapes=set(); sys=None
            if not outs: bad.append('no outcome')
            if g.it.panics: bad.append('panics '+str(g.it.panics[0][:3]))
            for st,r in outs:
                if wrap:
                    if is_err(r):
                        if not(err and err(g,st,inp,True)): bad.append('honest synthesis returns an error')
                        continue
                    v=r.f[0]
                else: v=r
                if err and err(g,st,inp,False) is False: bad.append('accepted an inadmissible input'); continue
                sys=st.ghost['cs']; shapes.add(sys.shape(g.D)); h=[x for x,_ in sys.vars]
                hb=g.honest_bad(sys,st)
                if hb: bad.append('honest assignment violates '+hb[0][0]+' : '+g.D.show(hb[0][1],4)); continue
                vs=list(v.f) if v.k=='tuple' else [v]; dn=[denote(g,st,x) for x in vs]
                want=spec(g,inp,h,dn)
                if len(want)!=len(dn): bad.append('number of outputs'); continue
                for n,((l,val),w) in enumerate(zip(dn,want)):
                    e=g.ev(l,h)
                    d=g.simp(st,e-w)
                    if d: bad.append(f'output {n}: honest value differs from the specification by {g.D.show(d,4)}')
                    if v.k=='LinearCombination' or not value: continue
                    if val is None: bad.append(f'output {n}: value missing'); continue
                    d=g.simp(st,val-e)
                    if d: bad.append(f'output {n}: reported value differs from its value in the system by {g.D.show(d,4)}')
                R_=rel or (lambda g,e,inp,vals:[x-w for x,w in zip(e,spec(g,inp,vals,dn))])
                ok,w=g.entails(sys,lambda vals:R_(g,[g.ev(l,vals) for l,_ in dn],inp,vals))
                if ok is False: bad.append('constraints admit a wrong output'); wit=wit or dict(how='dishonest assignment satisfying every constraint the real code issues (constraints recorded from its MIR); variables numbered in allocation order',gadget=name,counterexample=w)
                elif ok is None: unk.append(str(w))
                if post: bad.extend(post(g,st,v,sys))
            if len(shapes)>1: bad.append('constraints depend on the witness')
            if nowit and not bad and shapes:
                g2=mkgad(chk,F); pow_rules(g2.D); g2.witness=False; g2.force_eval=True
                outs2,_=build(g2)
                for st,r in outs2:
                    if wrap and is_err(r): bad.append('synthesis without a witness fails')
                    elif st.ghost['cs'].shape(g2.D)[:2]!=next(iter(shapes))[:2] or len(st.ghost['cs'].lcs)!=len(sys.lcs) or st.ghost['cs'].inputs!=sys.inputs: bad.append('constraints differ without a witness')
                chk.absorb(g2.it)
            chk.ob(name,fn,fw.REFUTED if bad else fw.UNKNOWN if unk else fw.PROVED,'mirv-poly + elimination',time.time()-t,'; '.join((bad or unk)[:3]),witness=wit); chk.absorb(g.it)
        chk.attempt(name,fn,th)
    def eq1(f): return lambda g,i,h,dn:[f(*i)]
    fclos=lambda g,x:(lambda it,st,args:[(st,Agg('Result',(x,),0) if g.witness else Agg('Result',(Agg('SynthesisError',(),0),),1))])
    A_='AllocatedNum'
    for F in('Fp','Fq'):
        an=lambda m,tail='':f'{M}AllocatedNum::<{F}>::{m}::<Rec{tail}>'
        RA=REFT(ANT(F)); CT=CBT(F)
        # allocation: the variable is unconstrained, its honest value is the given one
        def alloc(g,m='alloc'):
            x=g.D.var('x'); return g.run(an(m,', Clo'),[Agg('Rec',()),fclos(g,x)],[REC,('other','?')],g.st),(x,)
        none=lambda g,e,i,v:[]
        ob(f'AllocatedNum::alloc<{F}>',M+A_+'::alloc',alloc,eq1(lambda x:x),F,rel=none)
        ob(f'AllocatedNum::alloc_input<{F}>',M+A_+'::alloc_input',lambda g:alloc(g,'alloc_input'),eq1(lambda x:x),F,rel=none,
           post=lambda g,st,v,sys:[] if sys.inputs==(g.vi(g.get(v,A_,'var')),) else ['not the public input'])
        def inputize(g):
            a,x=anum(g,g.st,'x'); return g.run(an('inputize'),[g.it.alloc(g.st,a),Agg('Rec',())],[RA,REC],g.st),(x,)
        ob(f'AllocatedNum::inputize<{F}>',M+A_+'::inputize',inputize,eq1(lambda x:x),F,post=lambda g,st,v,sys:[] if sys.inputs==(g.vi(g.get(v,A_,'var')),) else ['not the public input'])
        ob(f'AllocatedNum::one<{F}>',M+A_+'::one',lambda g:(g.run(an('one'),[Agg('Rec',())],[REC],g.st),()),eq1(lambda:1) if False else (lambda g,i,h,dn:[g.D.const(1)]),F,wrap=False)
        for same in(0,1):
            def mul(g,same=same):
                a,x=anum(g,g.st,'x'); b,y=(a,x) if same else anum(g,g.st,'y'); r=g.it.alloc(g.st,a)
                return g.run(an('mul'),[r,Agg('Rec',()),r if same else g.it.alloc(g.st,b)],[RA,REC,RA],g.st),(x,y)
            ob(f'AllocatedNum::mul<{F}>{"[same]" if same else ""}',M+A_+'::mul',mul,eq1(lambda x,y:x*y),F)
        def als(g):
            x=g.D.var('x'); return g.run(f'{M}AllocatedNum::<{F}>::alloc_and_square::<Clo, Rec>',[Agg('Rec',()),fclos(g,x)],[REC,('other','?')],g.st),(x,)
        ob(f'AllocatedNum::alloc_and_square<{F}>',M+A_+'::alloc_and_square',als,eq1(lambda x:0) if False else (lambda g,i,h,dn:[i[0],i[0]*i[0]]),F,rel=lambda g,e,i,v:[e[1]-e[0]*e[0]])
        def raw(g):
            x=g.D.var('x'); i=g.invar(g.st,x); return g.run(f'{M}AllocatedNum::<{F}>::from_raw_unchecked',[some(x) if g.witness else NONE,g.V(i)],[OP(tp(F)),tp('Variable')],g.st),(x,)
        ob(f'AllocatedNum::from_raw_unchecked<{F}>',M+A_+'::from_raw_unchecked',raw,eq1(lambda x:x),F,wrap=False)
        def alc(g):
            a,x=anum(g,g.st,'x'); return g.run(f'{M}AllocatedNum::<{F}>::lc',[g.it.alloc(g.st,a)],[RA],g.st),(x,)
        ob(f'AllocatedNum::lc<{F}>',M+A_+'::lc',alc,eq1(lambda x:x),F,wrap=False)
        def getters(g):
            a,x=anum(g,g.st,'x'); r=g.it.alloc(g.st,a); outs=[]
            for s2,v in g.run(f'{M}AllocatedNum::<{F}>::get_value',[r],[RA],g.st):
                for s3,w in g.run(f'{M}AllocatedNum::<{F}>::get_variable',[r],[RA],s2): outs.append((s3,Agg(A_,g.order(A_,dict(value=v,var=w)))))
            return outs,(x,)
        ob(f'AllocatedNum::get_value,get_variable<{F}>',M+A_+'::get_value',getters,eq1(lambda x:x),F,wrap=False)
        # inverse: an error exactly for zero
        def inv(g,m='invert'):
            a,x=anum(g,g.st,'x'); return g.run(an(m),[g.it.alloc(g.st,a),Agg('Rec',())],[RA,REC],g.st),(x,)
        def inverr(g,st,i,e):
            z=g.D.eqz(st,i[0].p); z=g.it.sub_assume(st,z) if z.const is None else z
            return (z.const==1) if e else (z.const!=1)
        ob(f'AllocatedNum::invert<{F}>',M+A_+'::invert',inv,lambda g,i,h,dn:[i[0].inv()],F,err=inverr,rel=lambda g,e,i,v:[e[0]*i[0]-1])
        def sqerr(g,st,i,e):
            key=pkey(i[0].p)
            if key not in g.D.roots: return None
            b=g.D.roots[key][1]; b=g.it.sub_assume(st,b) if b.const is None else b
            return (b.const==0) if e else (b.const!=0)
        ob(f'AllocatedNum::sqrt<{F}>',M+A_+'::sqrt',lambda g:inv(g,'sqrt'),lambda g,i,h,dn:[g.D.roots[pkey(i[0].p)][0]],F,err=sqerr,rel=lambda g,e,i,v:[e[0]*e[0]-i[0]])
        # fifth power and fifth root
        KS=(('a1',),('aF','c1'),('a-','R'),('R',),('r','a1','R'),('a1','a0','cF'))
        CS_=(('c1',),(),('cF','c-'),('r',),('r','c0'))
        for m,sp,rel in(('rescue_alpha',lambda g,x:FE(g.D,g.D.pw(x.p,5)),lambda g,e,i,v:[e[0]-FE(g.D,g.D.pw(i[0].p,5))]),
                        ('rescue_invalpha',lambda g,x:g.D.bigpow(x,pow(5,-1,g.D.P-1)),lambda g,e,i,v:[FE(g.D,g.D.pw(e[0].p,5))-i[0]])):
            for ks in KS:
                def five(g,m=m,ks=ks):
                    c,x=comb(g,g.st,ks,'x'); return g.run(an(m),[Agg('Rec',()),g.it.alloc(g.st,c)],[REC,REFT(CT)],g.st),(x,)
                ob(f'AllocatedNum::{m}<{F}>[{",".join(ks)}]',M+A_+'::'+m,five,lambda g,i,h,dn,sp=sp:[sp(g,i[0])],F,rel=rel)
            for ks in KS[:4]+CS_:
                def cfive(g,m=m,ks=ks):
                    c,x=comb(g,g.st,ks,'x'); return g.run(f'{M}Combination::<{F}>::{m}::<Rec>',[g.it.alloc(g.st,c),Agg('Rec',())],[REFT(CT),REC],g.st),(x,)
                # constants: the result is the constant itself (no constraint can pin the root, its value is checked)
                isc=all(k[0] in'cr' for k in ks)
                def crel(g,e,i,v,m=m): return [e[0]-sp_(g,i[0])] 
                sp_=sp
                ob(f'Combination::{m}<{F}>[{",".join(ks)}]',M+'Combination::'+m,cfive,lambda g,i,h,dn,sp=sp:[sp(g,i[0]) if i[0].const is None else g.D.const(pow(i[0].const,5 if sp(g,g.D.const(2)).const==32 else pow(5,-1,g.D.P-1),g.D.P))],F,rel=None if isc else rel)
        # bits as numbers
        def frombit(g):
            b,x=g.abit(g.st,'b'); return g.run(f'<{M}AllocatedNum<{F}> as From<AllocatedBit>>::from',[b],[tp('AllocatedBit')],g.st,ANT(F)),(x,)
        ob(f'AllocatedNum::from(AllocatedBit)<{F}>',M+'From<AllocatedBit>',frombit,eq1(lambda x:x),F,wrap=False)
        # ----- Num
        NK=['c0','c1','c-','cF','a0','a1','a-','aF']
        for k in NK:
            def nneg(g,k=k):
                n,x=num(g,g.st,k,'x'); return g.run(f'<Num<{F}> as Neg>::neg',[n],[NUT(F)],g.st,NUT(F)),(x,)
            ob(f'Num::neg<{F}>[{k}]',M+'Num::neg',nneg,lambda g,i,h,dn:[-i[0]],F,wrap=False)
            def nsc(g,k=k):
                n,x=num(g,g.st,k,'x'); y=g.D.var('s'); return g.run(f'{M}Num::<{F}>::scale',[n,y],[NUT(F),tp(F)],g.st),(x,y)
            ob(f'Num::scale<{F}>[{k}]',M+'Num::scale',nsc,eq1(lambda x,y:x*y),F,wrap=False)
            def nlc(g,k=k):
                n,x=num(g,g.st,k,'x'); return g.run(f'{M}Num::<{F}>::lc::<Rec>',[g.it.alloc(g.st,n),Agg('Rec',())],[REFT(NUT(F)),REC],g.st),(x,)
            ob(f'Num::lc<{F}>[{k}]',M+'Num::lc',nlc,eq1(lambda x:x),F,wrap=False)
            def nval(g,k=k):
                n,x=num(g,g.st,k,'x'); outs=g.run(f'{M}Num::<{F}>::value',[g.it.alloc(g.st,n)],[REFT(NUT(F))],g.st)
                return [(s2,Agg('Combination',g.order('Combination',dict(value=v,terms=Agg('Vec',(n,)))))) for s2,v in outs],(x,)
            ob(f'Num::value<{F}>[{k}]',M+'Num::value',nval,eq1(lambda x:x),F,wrap=False)
            def isco(k=k,F=F):
                t=time.time(); g=mkgad(chk,F); n,x=num(g,g.st,k,'x'); outs=g.run(f'{M}Num::<{F}>::is_constant',[g.it.alloc(g.st,n)],[REFT(NUT(F))],g.st)
                chk.ob(f'Num::is_constant<{F}>[{k}]',M+'Num::is_constant',fw.PROVED if len(outs)==1 and outs[0][1].const==int(k[0]=='c') else fw.REFUTED,'mirv-eval',time.time()-t); chk.absorb(g.it)
            chk.attempt(f'Num::is_constant<{F}>[{k}]',M+'Num::is_constant',isco)
            for ck in'01-F':
                def nfrom(g,k=k,ck=ck):
                    n,x=num(g,g.st,k,'x'); c,cv=coeff(g,ck,'s'); return g.run(f'<Num<{F}> as From<(Coeff<{F}>, Num<{F}>)>>::from',[Agg('tuple',(c,n))],[('tuple',CO(F),NUT(F))],g.st,NUT(F)),(x,cv)
                ob(f'Num::from((Coeff,Num))<{F}>[{ck},{k}]',M+'From<(Coeff,Num)>',nfrom,eq1(lambda x,y:x*y),F,wrap=False)
        for ck in'01-F':
            def nfa(g,ck=ck):
                a,x=anum(g,g.st,'x'); c,cv=coeff(g,ck,'s'); return g.run(f'<Num<{F}> as From<(Coeff<{F}>, AllocatedNum<{F}>)>>::from',[Agg('tuple',(c,a))],[('tuple',CO(F),ANT(F))],g.st,NUT(F)),(x,cv)
            ob(f'Num::from((Coeff,AllocatedNum))<{F}>[{ck}]',M+'From<(Coeff,AllocatedNum)>',nfa,eq1(lambda x,y:x*y),F,wrap=False)
        def nfrom1(g):
            a,x=anum(g,g.st,'x'); return g.run(f'<Num<{F}> as From<AllocatedNum<{F}>>>::from',[a],[ANT(F)],g.st,NUT(F)),(x,)
        ob(f'Num::from(AllocatedNum)<{F}>',M+'From<AllocatedNum>',nfrom1,eq1(lambda x:x),F,wrap=False)
        def ncon(g):
            x=g.D.var('x'); return g.run(f'{M}Num::<{F}>::constant',[x],[tp(F)],g.st),(x,)
        ob(f'Num::constant<{F}>',M+'Num::constant',ncon,eq1(lambda x:x),F,wrap=False)
        # ----- Combination
        def cfa(g):
            a,x=anum(g,g.st,'x'); return g.run(f'<Combination<{F}> as From<AllocatedNum<{F}>>>::from',[a],[ANT(F)],g.st,CT),(x,)
        ob(f'Combination::from(AllocatedNum)<{F}>',M+'From<AllocatedNum>',cfa,eq1(lambda x:x),F,wrap=False)
        for k in NK:
            def cfn(g,k=k):
                a,x=num(g,g.st,k,'x'); return g.run(f'<Combination<{F}> as From<Num<{F}>>>::from',[a],[NUT(F)],g.st,CT),(x,)
            ob(f'Combination::from(Num)<{F}>[{k}]',M+'From<Num>',cfn,eq1(lambda x:x),F,wrap=False)
        ob(f'Combination::zero<{F}>',M+'Combination::zero',lambda g:(g.run(f'{M}Combination::<{F}>::zero',[],[],g.st),()),lambda g,i,h,dn:[g.D.const(0)],F,wrap=False)
        CK=((),('a1',),('r',),('R',),('R','cF'),('a-','r'))
        for ks in CK:
            kn=','.join(ks)
            for ks2 in CK:
                def cadd(g,ks=ks,ks2=ks2):
                    a,x=comb(g,g.st,ks,'x'); b,y=comb(g,g.st,ks2,'y'); return g.run(f'<Combination<{F}> as Add>::add',[a,b],[CT,CT],g.st,CT),(x,y)
                ob(f'Combination+Combination<{F}>[{kn};{",".join(ks2)}]',M+'Add<Combination>',cadd,eq1(lambda x,y:x+y),F,wrap=False)
            def term(opn,mk,ty,sg,tag):
                tr,meth=opn
                def f(g):
                    a,x=comb(g,g.st,ks,'x'); b,y=mk(g)
                    if 'assign' in meth:
                        r=g.it.alloc(g.st,a); outs=[(s2,g.it.deref(s2,r)) for s2,_ in g.run(f'<Combination<{F}> as {tr}<{show(ty)}>>::{meth}',[r,b],[REFT(CT),ty],g.st)]
                    else: outs=g.run(f'<Combination<{F}> as {tr}<{show(ty)}>>::{meth}',[a,b],[CT,ty],g.st,CT)
                    return outs,(x,y)
                ob(f'Combination {tr} {tag}<{F}>[{kn}]',M+f'{tr}<{tag}>',f,eq1(lambda x,y:x+y*sg),F,wrap=False)
            term(('Add','add'),lambda g:anum(g,g.st,'y'),ANT(F),1,'AllocatedNum'); term(('Sub','sub'),lambda g:anum(g,g.st,'y'),ANT(F),-1,'AllocatedNum')
            term(('AddAssign','add_assign'),lambda g:anum(g,g.st,'y'),ANT(F),1,'AllocatedNum')
            for k in NK:
                term(('Add','add'),lambda g,k=k:num(g,g.st,k,'y'),NUT(F),1,'Num '+k); term(('AddAssign','add_assign'),lambda g,k=k:num(g,g.st,k,'y'),NUT(F),1,'Num '+k)
            def pair(g,f,ck):
                a,x=f(g); c,cv=coeff(g,ck,'s'); return Agg('tuple',(c,a)),x*cv
            for ck in'01-F':
                term(('Add','add'),lambda g,ck=ck:pair(g,lambda g:anum(g,g.st,'y'),ck),('tuple',CO(F),ANT(F)),1,f'(Coeff {ck},AllocatedNum)')
                for k in('cF','aF','a-','c1'):
                    term(('Add','add'),lambda g,ck=ck,k=k:pair(g,lambda g:num(g,g.st,k,'y'),ck),('tuple',CO(F),NUT(F)),1,f'(Coeff {ck},Num {k})')
            def csc(g,ks=ks):
                a,x=comb(g,g.st,ks,'x'); y=g.D.var('s'); return g.run(f'{M}Combination::<{F}>::scale',[a,y],[CT,tp(F)],g.st),(x,y)
            ob(f'Combination::scale<{F}>[{kn}]',M+'Combination::scale',csc,eq1(lambda x,y:x*y),F,wrap=False)
            def clc(g,ks=ks):
                a,x=comb(g,g.st,ks,'x'); return g.run(f'{M}Combination::<{F}>::lc::<Rec>',[g.it.alloc(g.st,a),Agg('Rec',())],[REFT(CT),REC],g.st),(x,)
            ob(f'Combination::lc<{F}>[{kn}]',M+'Combination::lc',clc,eq1(lambda x:x),F,wrap=False)
            def cgv(g,ks=ks):
                a,x=comb(g,g.st,ks,'x'); outs=g.run(f'{M}Combination::<{F}>::get_value',[g.it.alloc(g.st,a)],[REFT(CT)],g.st)
                return [(s2,Agg('Combination',g.order('Combination',dict(value=v,terms=g.get(a,'Combination','terms'))))) for s2,v in outs],(x,)
            ob(f'Combination::get_value<{F}>[{kn}]',M+'Combination::get_value',cgv,eq1(lambda x:x),F,wrap=False)
            def cev(g,ks=ks):
                a,x=comb(g,g.st,ks,'x'); return g.run(f'{M}Combination::<{F}>::evaluate::<Rec>',[g.it.alloc(g.st,a),Agg('Rec',())],[REFT(CT),REC],g.st),(x,)
            ob(f'Combination::evaluate<{F}>[{kn}]',M+'Combination::evaluate',cev,eq1(lambda x:x),F)
            def csq(g,ks=ks):
                a,x=comb(g,g.st,ks,'x'); return g.run(f'{M}Combination::<{F}>::square::<Rec>',[g.it.alloc(g.st,a),Agg('Rec',())],[REFT(CT),REC],g.st),(x,)
            ob(f'Combination::square<{F}>[{kn}]',M+'Combination::square',csq,eq1(lambda x:x*x),F)
            for ks2 in CK:
                def cmul(g,ks=ks,ks2=ks2):
                    a,x=comb(g,g.st,ks,'x'); b,y=comb(g,g.st,ks2,'y'); return g.run(f'{M}Combination::<{F}>::mul::<Rec>',[g.it.alloc(g.st,a),Agg('Rec',()),g.it.alloc(g.st,b)],[REFT(CT),REC,REFT(CT)],g.st),(x,y)
                ob(f'Combination::mul<{F}>[{kn};{",".join(ks2)}]',M+'Combination::mul',cmul,eq1(lambda x,y:x*y),F)
    chk.assumptions+=['a combination with arbitrarily many terms is represented by a generic term standing for the whole list (loops over terms are additive: executed once on it), next to explicit terms of every kind',
      'INVALPHA is the inverse of 5 modulo p-1 (C10), so the fifth power is a bijection of the field','field operations through their C01-C03 contracts']
    from checks.conc4 import search_c14
    return chk.finish(search_c14)
