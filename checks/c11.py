from mirv import fw
from mirv.gad import *
from checks import conc
REFT=lambda t:('ref',t)
AB=tp('AllocatedBit'); BO=tp('Boolean')
def is_bool(vals_out): return vals_out*vals_out-vals_out
def optb(o): return o.f[0] if o.v==1 else None
def gadget(chk,name,fn,build,spec,outlc,F='Fp',level=fw.PROVED,bound='',nowit=True,expect_err=None):
    """build(g) -> (outcomes, inputs FE list); spec(g,inputs) -> FE value(s) of the outputs; outlc(g,value) -> list of (lc, honest value FE or None)"""
    def th():
        t=time.time(); g=Gad(chk.mir,F); outs,inp=build(g); bad=[]; unk=[]; wit=None; shapes=set()
        if not outs: bad.append('no outcome')
        if g.it.panics: bad.append('panics '+str(g.it.panics[0][:3]))
        for st,r in outs:
            if is_err(r):
                if expect_err and expect_err(g,st,inp): continue
                bad.append('honest synthesis returns an error'); continue
            v=r.f[0]; sys=st.ghost['cs']; shapes.add(sys.shape(g.D))
            hb=g.honest_bad(sys,st)
            if hb: bad.append('honest assignment violates '+hb[0][0]+' : '+g.D.show(hb[0][1],4)); continue
            want=spec(g,inp); lcs=outlc(g,v)
            h=[x for x,_ in sys.vars]
            for n,((lc,val),w) in enumerate(zip(lcs,want)):
                d=g.simp(st,g.ev(lc,h)-w)
                if d: bad.append(f'output {n}: honest value differs from the specification by {g.D.show(d,4)}')
                if val is not None:
                    d=g.simp(st,val-w)
                    if d: bad.append(f'output {n}: reported value differs by {g.D.show(d,4)}')
            if len(lcs)!=len(want): bad.append('number of outputs')
            ok,w=g.entails(sys,lambda vals:[g.ev(lc,vals)-x for (lc,_),x in zip(lcs,want)])
            if ok is False: bad.append('constraints admit a wrong output'); wit=wit or dict(how='dishonest assignment satisfying every constraint the real code issues (constraints recorded from its MIR); variables numbered in allocation order',gadget=name,counterexample=w)
            elif ok is None: unk.append(str(w))
        if len(shapes)>1: bad.append('constraints depend on the witness')
        if nowit and not bad:
            g2=Gad(chk.mir,F); g2.witness=False; g2.force_eval=True
            outs2,_=build(g2)
            for st,r in outs2:
                if is_err(r): bad.append('synthesis without a witness fails')
                elif st.ghost['cs'].shape(g2.D)[1:]!=next(iter(shapes))[1:] and repr(st.ghost['cs'].gates)!=repr(sys.gates): bad.append('constraints differ without a witness')
            chk.absorb(g2.it)
        chk.ob(name,fn,fw.REFUTED if bad else fw.UNKNOWN if unk else level,'mirv-poly + elimination',time.time()-t,'; '.join((bad or unk)[:3]),bound=bound,witness=wit); chk.absorb(g.it)
    chk.attempt(name,fn,th,bound=bound)
def blc(g,v):
    l,o=g.bool_lc(None,v); b=optb(o); return [(l,None if b is None else FE(g.D,g.D.red(b.p)))]
def clos(g,b):
    """closure producing Ok(b) (witness) or Err(AssignmentMissing)"""
    return lambda it,st,args:[(st,Agg('Result',(b,),0) if g.witness else Agg('Result',(Agg('SynthesisError',(),0),),1))]
def run():
    chk=fw.Check('C11')
    M='gadgets::boolean::'
    def two(m,f):
        def build(g):
            st=g.st; a,x=g.abit(st,'a'); b,y=g.abit(st,'b')
            return g.run(f'{M}AllocatedBit::{m}::<{g.F}, Rec>',[Agg('Rec',()),g.it.alloc(st,a),g.it.alloc(st,b)],[REC,REFT(AB),REFT(AB)],st),(x,y)
        for F in('Fp','Fq'): gadget(chk,f'AllocatedBit::{m}<{F}>',M+'AllocatedBit::'+m,build,lambda g,i:[f(*i)],blc,F)
    two('xor',lambda x,y:x+y-x*y*2); two('and',lambda x,y:x*y); two('and_not',lambda x,y:x*(1-y)); two('nor',lambda x,y:(1-x)*(1-y))
    def balloc(g):
        b=g.bit_atom('a'); return g.run(f'{M}AllocatedBit::alloc::<{g.F}, Rec, Clo>',[Agg('Rec',()),clos(g,b)],[REC,('other','?')],g.st),(FE(g.D,dict(b.p)),)
    def alloc_ob(F):
        # a fresh bit: honest value is the given one; every satisfying assignment is boolean
        def th():
            t=time.time(); g=Gad(chk.mir,F); outs,(x,)=balloc(g); bad=[]; wit=None
            for st,r in outs:
                if is_err(r): bad.append('error'); continue
                sys=st.ghost['cs']; bad+=[b[0] for b in g.honest_bad(sys,st)]; (lc,val),=blc(g,r.f[0])
                if g.simp(st,g.ev(lc,[v for v,_ in sys.vars])-x) or val is None or g.simp(st,val-x): bad.append('value')
                ok,w=g.entails(sys,lambda vals:[g.ev(lc,vals)*(g.ev(lc,vals)-1)])
                if ok is not True: bad.append(f'not boolean: {w}'); wit=w if ok is False else None
            if not outs: bad.append('no outcome')
            chk.ob(f'AllocatedBit::alloc<{F}>',M+'AllocatedBit::alloc',fw.REFUTED if bad else fw.PROVED,'mirv-poly + elimination',time.time()-t,'; '.join(bad),witness=wit and dict(gadget='AllocatedBit::alloc',counterexample=wit)); chk.absorb(g.it)
        chk.attempt(f'AllocatedBit::alloc<{F}>',M+'AllocatedBit::alloc',th)
    for F in('Fp','Fq'): alloc_ob(F)
    def input_ob(F):
        def th():
            t=time.time(); g=Gad(chk.mir,F); b=g.bit_atom('a'); x=FE(g.D,dict(b.p)); bad=[]; wit=None
            outs=g.run(f'{M}AllocatedBit::alloc_input_unchecked::<{F}, Rec, Clo>',[Agg('Rec',()),clos(g,b)],[REC,('other','?')],g.st)
            for st,r in outs:
                if is_err(r): bad.append('error'); continue
                (lc,val),=blc(g,r.f[0])
                outs2=g.run(f'{M}AllocatedBit::check::<{F}, Rec>',[g.it.alloc(st,r.f[0]),Agg('Rec',())],[REFT(AB),REC],st)
                for st2,r2 in outs2:
                    if is_err(r2): bad.append('error'); continue
                    sys=st2.ghost['cs']; bad+=[b[0] for b in g.honest_bad(sys,st2)]
                    if len(sys.inputs)!=1 or sys.inputs[0]!=lc[0][1]: bad.append('not a public input')
                    if g.simp(st2,g.ev(lc,[v for v,_ in sys.vars])-x) or val is None or g.simp(st2,val-x): bad.append('value')
                    ok,w=g.entails(sys,lambda vals:[g.ev(lc,vals)*(g.ev(lc,vals)-1)])
                    if ok is not True: bad.append(f'not boolean: {w}'); wit=w if ok is False else None
                if not outs2: bad.append('no outcome')
            if not outs: bad.append('no outcome')
            chk.ob(f'AllocatedBit::input+check<{F}>',M+'AllocatedBit::check',fw.REFUTED if bad else fw.PROVED,'mirv-poly + elimination',time.time()-t,'; '.join(bad),witness=wit and dict(gadget='AllocatedBit::check',counterexample=wit)); chk.absorb(g.it)
        chk.attempt(f'AllocatedBit::input+check<{F}>',M+'AllocatedBit::check',th)
    for F in('Fp','Fq'): input_ob(F)
    K=('is','not','0','1')
    def bool_op(m,kinds,f,F='Fp',same=False):
        def build(g):
            st=g.st; bs=[]; fs=[]
            for i,k in enumerate(kinds):
                if same and i: bs.append(bs[0]); fs.append(fs[0]); continue
                b,x=g.boolean(st,k,'abc'[i]); bs.append(b); fs.append(x)
            return g.run(f'{M}Boolean::{m}::<{g.F}, Rec>',[Agg('Rec',())]+[g.it.alloc(st,b) for b in bs],[REC]+[REFT(BO)]*len(bs),st),tuple(fs)
        gadget(chk,f'Boolean::{m}<{F}>[{",".join(kinds)}{" same" if same else ""}]',M+'Boolean::'+m,build,lambda g,i:[f(*i)],blc,F)
    X=lambda x,y:x+y-x*y*2; A=lambda x,y:x*y
    CH=lambda a,b,c:a*b+(1-a)*c
    MJ=lambda a,b,c:a*b+a*c+b*c-a*b*c*2
    for a in K:
        for b in K:
            for F in('Fp','Fq'): bool_op('xor',(a,b),X,F); bool_op('and',(a,b),A,F)
            for c in K: bool_op('sha256_ch',(a,b,c),CH); bool_op('sha256_maj',(a,b,c),MJ)
    for k in('is','not'): bool_op('xor',(k,k),X,same=True); bool_op('and',(k,k),A,same=True); bool_op('sha256_ch',(k,)*3,CH,same=True); bool_op('sha256_maj',(k,)*3,MJ,same=True)
    # not, lc, get_value
    for k in K:
        def bnot(g,k=k):
            b,x=g.boolean(g.st,k,'a'); outs=g.run(f'{M}Boolean::not',[g.it.alloc(g.st,b)],[REFT(BO)],g.st); return [(s2,Agg('Result',(v,),0)) for s2,v in outs],(x,)
        gadget(chk,f'Boolean::not[{k}]',M+'Boolean::not',bnot,lambda g,i:[1-i[0]],blc,nowit=False)
        for cv in range(4):
            def blcf(g,k=k,cv=cv):
                b,x=g.boolean(g.st,k,'a'); c=g.D.var('k') if cv==3 else g.D.const((0,1,-1)[cv])
                co=Agg('Coeff',(c,) if cv==3 else (),cv)
                outs=g.run(f'{M}Boolean::lc::<{g.F}>',[g.it.alloc(g.st,b),g.one,co],[REFT(BO),tp('Variable'),('path','Coeff',(tp(g.F),))],g.st,('path','LinearCombination',(tp(g.F),)))
                return [(s2,Agg('Result',(Agg('tuple',(v,s2)),),0)) for s2,v in outs],(x*c,)
            gadget(chk,f'Boolean::lc[{k},coeff{cv}]',M+'Boolean::lc',blcf,lambda g,i:[i[0]],lambda g,v:[(g.lc(v.f[1],v.f[0]),None)],nowit=False)
        def gv(g,k=k):
            b,x=g.boolean(g.st,k,'a'); outs=g.run(f'{M}Boolean::get_value',[g.it.alloc(g.st,b)],[REFT(BO)],g.st); return [(s2,Agg('Result',(v,),0)) for s2,v in outs],(x,)
        gadget(chk,f'Boolean::get_value[{k}]',M+'Boolean::get_value',gv,lambda g,i:[i[0]],lambda g,v:[(((FE(g.D,g.D.red(v.f[0].p)),0),),None)] if v.v==1 else [],nowit=False)
    # enforce_equal: satisfiable exactly when equal
    for a in K:
        for b in K:
            def th(a=a,b=b):
                t=time.time(); g=Gad(chk.mir,'Fp'); st=g.st; p,x=g.boolean(st,a,'a'); q,y=g.boolean(st,b,'b'); bad=[]
                outs=g.run(f'{M}Boolean::enforce_equal::<Fp, Rec>',[Agg('Rec',()),g.it.alloc(st,p),g.it.alloc(st,q)],[REC,REFT(BO),REFT(BO)],st)
                if not outs: bad.append('no outcome')
                for s2,r in outs:
                    if is_err(r):
                        if not((x-y).const): bad.append('error for equal operands')
                        continue
                    sys=s2.ghost['cs']; ps=[g.ev(l,[v for v,_ in sys.vars]) for l in sys.lcs]
                    # all constraints vanish iff x = y, over every boolean value
                    ats=sorted({n for z in (x,y) for m in z.p for n in m})
                    for vs in itertools.product((0,1),repeat=len(ats)):
                        env=dict(zip(ats,vs)); e=lambda z:g.D.evalfe(z.p,env)
                        if all(e(z)==0 for z in ps)!=(e(x)==e(y)): bad.append(f'a,b={vs}')
                    if sys.gates: bad.append('unexpected gates')
                chk.ob(f'Boolean::enforce_equal[{a},{b}]',M+'Boolean::enforce_equal',fw.REFUTED if bad else fw.PROVED,'exhaustive over operands',time.time()-t,'; '.join(bad)); chk.absorb(g.it)
            chk.attempt(f'Boolean::enforce_equal[{a},{b}]',M+'Boolean::enforce_equal',th)
    # bit decomposition of a field element
    fn=M+'unpack_fe'
    def unpack(F,kind):
        def th():
            t=time.time(); g=Gad(chk.mir,F); D=g.D; st=g.st
            bs=[g.it.ctx.atom(f'n{i}',0,1,'bit') for i in range(255)]; N=FE(D,{(a,):1<<i for i,a in enumerate(bs)})
            by=[]
            for i in range(32):
                q={(bs[8*i+j],):1<<j for j in range(8) if 8*i+j<255}; by.append(I(q,0,sum(q.values()),'u8'))
            D.bytes[pkey(N.p)]=(by,N.p,N,{(bs[0],):1})
            if kind=='const': num=Agg('Num',(Agg('Coeff',(N,),3),),0)
            else:
                x=N if kind=='alloc' else -N
                var=g.V(g.invar(st,x)); an=Agg('AllocatedNum',g.order('AllocatedNum',dict(value=some(x),var=var)))
                num=Agg('Num',(Agg('Coeff',(),1 if kind=='alloc' else 2),an),1)
            outs=g.run(f'{fn}::<{F}, Rec>',[Agg('Rec',()),g.it.alloc(st,num)],[REC,REFT(('path','Num',(tp(F),)))],st)
            bad=[]; unk=[]; can=None
            if len(outs)!=1 or g.it.panics: bad.append(f'{len(outs)} outcomes {g.it.panics[:1]}')
            for s2,r in outs:
                if is_err(r): bad.append('error'); continue
                sys=s2.ghost['cs']; bad+=[b[0] for b in g.honest_bad(sys,s2)]; v=r.f[0].f; h=[x for x,_ in sys.vars]
                if len(v)!=256: bad.append(f'{len(v)} bits'); continue
                for i,b in enumerate(v):
                    (lc,val),=blc(g,b); w=FE(D,{(bs[i],):1}) if i<255 else D.const(0)
                    if g.simp(s2,g.ev(lc,h)-w) or val is None or g.simp(s2,val-w): bad.append(f'bit {i}')
                lcs=[blc(g,b)[0][0] for b in v]
                def goals(vals):
                    e=[g.ev(l,vals) for l in lcs]; tot=D.const(0)
                    for i,x in enumerate(e): tot=tot+x*(1<<i)
                    return [tot-N]+[x*x-x for x in e]
                ok,w=g.entails(sys,goals)
                if ok is False: bad.append(f'wrong bits accepted {w}')
                elif ok is None: unk.append(str(w)[:300])
                # canonical form: is the alias N+p accepted?
                if kind=='alloc':
                    n=5; m=n+D.P; env=[None]*len(sys.vars); env[0]=1
                    for i,(v_,k) in enumerate(sys.vars):
                        if k=='given': env[i]=n
                    okc=True
                    for j,l in enumerate(lcs): 
                        (c,i),=l; env[i]=m>>j&1
                    for a,b,c in sys.gates:
                        x=next((env[y] for y in (a,b,c) if env[y] is not None),None); 
                        for y in(a,b,c): env[y]=x if env[y] is None else env[y]
                    can=all(x is not None for x in env) and all(env[a]*env[b]==env[c] for a,b,c in sys.gates) and all(sum(c.const*env[i] for c,i in l)%D.P==0 for l in sys.lcs)
            chk.ob(f'unpack_fe<{F}>[{kind}]',fn,fw.REFUTED if bad else fw.UNKNOWN if unk else fw.PROVED,'mirv-poly + elimination',time.time()-t,'; '.join(bad[:3] or unk)); chk.absorb(g.it)
            if can is not None: chk.ob(f'unpack_fe<{F}>.canonical',fn,fw.REFUTED if can else fw.UNKNOWN,'explicit dishonest assignment',0,'the 256 bits of 5+p satisfy every constraint for the element 5' if can else 'not decided',witness=dict(gadget='unpack_fe',element=5,bits='those of 5+p'))
        chk.attempt(f'unpack_fe<{F}>[{kind}]',fn,th)
    for F in('Fp','Fq'):
        for k in('alloc','neg','const'): unpack(F,k)
    chk.assumptions+=['variables passed in by the caller are constrained boolean by whoever allocated them (precondition of every bit gadget)']
    from checks.conc4 import search_c11
    return chk.finish(search_c11)
