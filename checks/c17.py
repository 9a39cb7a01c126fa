"""C17: linear combinations, coefficients, and the synthesis driver."""
from mirv.prog import *
from checks.c14 import mkgad, num_run_contract, Terms, CO, coeff
import itertools
REFT=lambda t:('ref',t)
FS=('Fp','Fq')
# ---------------- driver
def driver(chk,F,kind,wit,wrap=''):
    fn='synthesis::Basic::synthesize'; name=f'synthesize<{F}>[{kind or "empty"}{"" if wit else ",no witness"}{wrap and ",through "+wrap}]'
    def th():
        t=time.time(); it=Interp(chk.mir); st=State(); D=setup(it,F)[0]; it.merge=False
        P=Prog(D,mkins(D,kind),wit); C=Circ(it,D,P,wrap); B=Backend(it,D); B.wit=wit; B.init(st); bad=[]
        p=it.alloc(st,Agg('Prog',()))
        outs=it.invoke(st,F0,f'<Basic as SynthesisDriver>::synthesize::<{F}, Prog, Bk>',[Agg('Bk',()),p],[BK,('ref',PROG)])
        if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
        if it.panics: bad.append('panics '+str(it.panics[0][:3]))
        for s2,r in outs:
            if is_err(r): bad.append('synthesis returns an error'); continue
            bk=s2.ghost['bk']; bad+=compare(D,P,bk,s2.ghost['vars'],wit)
            ns=[e[0] for e in bk['log'] if e[0].endswith('namespace')]; d=0
            for e in ns:
                d+=1 if e[0]=='p' and e[1]=='u' else -1
                if d<0: bad.append('namespace popped that was never pushed')
            if wrap and d!=0: bad.append('namespaces left open')
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv (recorder backend)',time.time()-t,'; '.join(bad[:3]),bound='call sequence listed; all values and coefficients'); chk.absorb(it)
        return None if bad else bk
    chk.attempt(name,fn,th)
def compare(D,P,bk,vars,wit):
    """the recorded backend calls mean the program"""
    bad=[]; v,inp,gates,rows,inrow=P.values(); W=[]
    for x in vars:
        w=('ABC'[x.v],x.f[0].const); W.append(w)
    g,R,ks,sets=denote_log(D,bk)
    if W[0]!=('A',1): bad.append('the constant one is not the first wire')
    if len(set(W))!=len(W): bad.append('two variables share a wire')
    if any(not 1<=i<=g for _,i in W): bad.append('a variable has no gate')
    for (a,b,c) in gates:
        if not(W[a][1]==W[b][1]==W[c][1] and W[a][0]+W[b][0]+W[c][0]=='ABC'): bad.append('a multiplication does not occupy one gate')
    own={W[a][1] for a,_,_ in gates}
    if any(w[1] in own for i,w in enumerate(W) if not any(i in t for t in gates)): bad.append('an allocation shares the gate of a multiplication')
    if any(w[0]=='C' for i,w in enumerate(W) if not any(i in t for t in gates)): bad.append('an allocated variable is an output wire')
    if g>len(own)+sum(1 for i in range(len(W)) if not any(i in t for t in gates)): bad.append('more gates than asked for')
    want=[{W[x]:c.p for x,c in r.items() if c.p} for r in rows]
    if len(R)!=len(want): bad.append(f'{len(R)} linear constraints issued, {len(want)} asked for')
    for n,(a,b) in enumerate(zip(R,want)):
        if a!=b: bad.append(f'linear constraint {n+1} differs')
    if [k-1 for k in ks]!=inrow: bad.append(f'public-input rows {ks}, expected {[r+1 for r in inrow]}')
    if wit:
        for w,x in zip(W,v):
            y=bk['val'].get(w)
            if y is None or D.clear((y-x).p): bad.append(f'wire {w[0]}({w[1]}) carries another value')
        for i in range(1,g+1):
            z=D.const(0); a,b,c=(bk['val'].get((n,i),z) for n in'ABC')
            if i not in own and D.clear((a*b-c).p): bad.append(f'allocation gate {i}: product wire is not the product')
        if len(bk['kv'])!=len(inp) or any(x is None or D.clear((x-y).p) for x,y in zip(bk['kv'],inp)): bad.append('public-input values differ')
    return bad
def seq(chk,F,kind):
    """same backend calls with and without a witness"""
    fn='synthesis::Basic::synthesize'; name=f'same-calls<{F}>[{kind or "empty"}]'
    def th():
        t=time.time(); logs=[]
        for wit in(True,False):
            it=Interp(chk.mir); st=State(); D=setup(it,F)[0]; P=Prog(D,mkins(D,kind),wit); Circ(it,D,P); B=Backend(it,D); B.wit=wit; B.init(st)
            o=it.invoke(st,F0,f'<Basic as SynthesisDriver>::synthesize::<{F}, Prog, Bk>',[Agg('Bk',()),it.alloc(st,Agg('Prog',()))],[BK,('ref',PROG)])
            logs.append([repr(norm(D,s2.ghost['bk']['log'])) for s2,_ in o])
        chk.ob(name,fn,fw.BOUNDED if logs[0]==logs[1] and len(logs[0])==1 else fw.REFUTED,'mirv (recorder backend)',time.time()-t,'' if logs[0]==logs[1] else 'different calls with and without a witness',bound='call sequence listed'); chk.absorb(it)
    chk.attempt(name,fn,th)
def norm(D,log):
    f=lambda p:tuple((tuple(D.C.atoms[a].name for a in m),c) for m,c in p)
    return [e[:3]+(f(e[3]),) if e[0]=='co' else e for e in log]
def kinds(n,alpha='aiml'):
    return [''.join(k) for m in range(n+1) for k in itertools.product(alpha,repeat=m)]
# ---------------- inductive step: one call from an arbitrary synthesizer state
def step(chk,F,op,cur,wit=True):
    """the state after n gates, q rows and a pending (or no pending) half-filled gate is arbitrary; one call issues exactly its
    backend calls and re-establishes the invariant: current_variable is None or the index (1..n) of an allocation gate whose A is set
    and whose B, C are not"""
    fn='synthesis::Basic::synthesize (Synthesizer)'; name=f'step<{F}>[{op}, {"half gate pending" if cur else "no half gate"}{"" if wit else ", no witness"}]'
    def th():
        t=time.time(); it=Interp(chk.mir); st=State(); D=setup(it,F)[0]; it.merge=False; got={}
        fs=[k for k in chk.mir.structs if False] if False else it.mir.struct_fields('Synthesizer')
        if fs is None or not {'n','q','current_variable'}<=set(fs): raise MirError('Synthesizer fields not recognised')
        lim=1<<40; C=it.ctx
        n=I({(C.atom('n',1,lim,'usize'),):1},1,lim,'usize'); q=I({(C.atom('q',1,lim,'usize'),):1},1,lim,'usize'); ix=I({(C.atom('cur',1,lim,'usize'),):1},1,lim,'usize'); va=D.var('va')
        def pre(it_,st_,cs,ty):
            v=it_.deref(st_,cs); f=list(v.f)
            f[fs.index('n')]=n; f[fs.index('q')]=q; f[fs.index('current_variable')]=some(ix) if cur else NONE
            it_.setref(st_,cs,Agg(v.k,f,v.v)); B.init(st_); st_.ghost['bk']=dict(st_.ghost['bk'],val={('A',key(ix)):va} if wit else {}); got['cs']=cs
        key=lambda x:x.const if x.const is not None else tuple(sorted(x.p.items()))
        P=Prog(D,mkins(D,op),wit); Cc=Circ(it,D,P,pre=pre); B=Backend(it,D); B.wit=wit; B.init(st); bad=[]
        post=[]
        def grab(it_,st_,fr,q_,a,at):
            return None
        body=Cc.body
        def body2(it_,st_,ty,cs):
            o=body(it_,st_,ty,cs)
            for s2,r in o: s2.ghost=dict(s2.ghost); s2.ghost['syn']=it_.deref(s2,cs)
            return o
        Cc.body=body2
        outs=it.invoke(st,F0,f'<Basic as SynthesisDriver>::synthesize::<{F}, Prog, Bk>',[Agg('Bk',()),it.alloc(st,Agg('Prog',()))],[BK,('ref',PROG)])
        if it.panics: bad.append('panics '+str(it.panics[0][:2]))
        if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
        pl=lambda x,k:tuple(sorted(I(padd(x.p,{():k}),x.lo+k,x.hi+k,'usize').p.items()))
        for s2,r in outs:
            if is_err(r): bad.append('synthesis fails'); continue
            bk=s2.ghost['bk']; log=norm(D,bk['log']); v=s2.ghost['syn']; g=lambda f:v.f[fs.index(f)]
            N1=pl(n,1); want=[]; nn,qq,cc=0,0,'same'; val={}; x=P.ins[0]
            k0=key(ix)
            if op in'ai':
                if cur: w=('B',k0); want+=[('set',w,True),('set',('C',k0),False)]; cc=None; val={w:x[1],('C',k0):va*x[1]}
                else: w=('A',N1); want+=[('gate',False),('set',w,True)]; nn=1; cc='new'; val={w:x[1]}
                if op=='i': want+=[('row',0),('co',0,w,norm1(D,D.const(1)))]; qq=1; want+=[('k',pl(q,1))]
            elif op=='m': want+=[('gate',True)]+[('set',(l,N1),False) for l in'ABC']; nn=1; val={(l,N1):y for l,y in zip('ABC',x[1:])}
            elif op in'le':
                want.append(('row',0)); qq=1
                for _,c,_x in x[1]: want.append(('co',0,('A',1),norm1(D,c)))
            if log!=want: bad.append(f'issues {log} instead of {want}'[:600])
            if tuple(sorted(g('n').p.items()))!=pl(n,nn) or tuple(sorted(g('q').p.items()))!=pl(q,qq): bad.append('gate or row counter differs from the number issued')
            cv=g('current_variable')
            exp={'same':k0 if cur else None,'new':N1,None:None}[cc]
            if (None if cv.v==0 else tuple(sorted(cv.f[0].p.items())))!=exp: bad.append('pending half gate not recorded')
            if wit:
                for w,y in val.items():
                    z=bk['val'].get(w)
                    if z is None or D.clear((z-y).p): bad.append(f'wire {w[0]} carries another value')
                if op=='i' and (bk['kv'][0] is None or D.clear((bk['kv'][0]-x[1]).p)): bad.append('public-input value differs')
        # an invariant that is not re-established is not by itself a wrong system: the bounded sequences below decide that
        chk.ob(name,fn,fw.UNKNOWN if bad else fw.PROVED,'mirv (recorder backend, symbolic state)',time.time()-t,'; '.join(bad[:3])); chk.absorb(it)
    chk.attempt(name,fn,th)
def norm1(D,c): return tuple((tuple(D.C.atoms[a].name for a in m),k) for m,k in pkey(c.p))
# ---------------- Coeff and LinearCombination
def lcval(g,st,v):
    r={}
    for t in it_items(g,st,v):
        w=('ABC'[t.f[0].v],t.f[0].f[0].const); r[w]=r.get(w,g.D.const(0))+g.coeff(st,t.f[1])
    return {w:c for w,c in r.items() if c.p}
def it_items(g,st,v):
    v=g.it.deref(st,v) if isinstance(v,Ref) else v
    it=v.f[0]; it=g.it.deref(st,it) if isinstance(it,Ref) else it
    return it.f
def mklc(g,name,ks):
    ts=[];d={}
    for j,k in enumerate(ks):
        c,cv=coeff(g,k,f'{name}{j}'); w=(j%3,1+(j*2)%3); ts.append(Agg('tuple',(Agg('Variable',(CI(w[1],'usize'),),w[0]),c)))
        w=('ABC'[w[0]],w[1]); d[w]=d.get(w,g.D.const(0))+cv
    return Agg('LinearCombination',(Agg('Vec',ts),)),d
def eqlc(a,b): 
    return {w:c.p for w,c in a.items() if c.p}=={w:c.p for w,c in b.items() if c.p}
def lincomb(chk,F):
    M='circuits::'; KS='F1-0'; LCT=('path','LinearCombination',(tp(F),)); VT=('path','Variable',()); CT=CO(F)
    def ob(name,fn,f,bound=None):
        def th():
            t=time.time(); g=mkgad(chk,F); bad=f(g) or []
            if g.it.panics: bad.append('panics '+str(g.it.panics[0][:3]))
            chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED if bound else fw.PROVED,'mirv-poly',time.time()-t,'; '.join(map(str,bad[:3])),bound=bound or ''); chk.absorb(g.it)
        chk.attempt(name,fn,th)
    def one(outs,bad,f):
        if not outs: bad.append('no outcome')
        for st,r in outs: f(st,r)
        return bad
    # --- Coeff
    for k in KS:
        def cm(g,k=k):
            bad=[]; c,cv=coeff(g,k,'a'); x=g.D.var('x')
            one(g.run(f'<Coeff<{F}> as Mul<{F}>>::mul',[c,x],[CT,tp(F)],g.st),bad,lambda st,r:bad.append('product') if (g.coeff(st,r)-cv*x).p else 0)
            one(g.run(f'<Coeff<{F}> as Neg>::neg',[c],[CT],g.st),bad,lambda st,r:bad.append('negation') if (g.coeff(st,r)+cv).p else 0)
            one(g.run(f'Coeff::<{F}>::double',[c],[CT],g.st),bad,lambda st,r:bad.append('double') if (g.coeff(st,r)-cv-cv).p else 0)
            one(g.run(f'Coeff::<{F}>::value',[g.it.alloc(g.st,c)],[REFT(CT)],g.st),bad,lambda st,r:bad.append('value') if (g.D.fe(r,st)-cv).p else 0)
            cell=g.it.alloc(g.st,x)
            one(g.run(f'Coeff::<{F}>::multiply',[g.it.alloc(g.st,c),cell],[REFT(CT),('ref',tp(F))],g.st),bad,lambda st,r:bad.append('multiply') if (g.D.fe(g.it.deref(st,cell),st)-cv*x).p else 0)
            return bad
        ob(f'Coeff unary<{F}>[{k}]',M+'Coeff',cm)
        for k2 in KS:
            def cc(g,k=k,k2=k2):
                bad=[]; c,cv=coeff(g,k,'a'); d,dv=coeff(g,k2,'b')
                return one(g.run(f'<Coeff<{F}> as Mul<Coeff<{F}>>>::mul',[c,d],[CT,CT],g.st),bad,lambda st,r:bad.append('product of coefficients') if (g.coeff(st,r)-cv*dv).p else 0)
            ob(f'Coeff::mul<{F}>[{k}{k2}]',M+'Coeff',cc)
    def frm(g):
        bad=[]; x=g.D.var('x')
        one(g.run(f'<Coeff<{F}> as From<{F}>>::from',[x],[tp(F)],g.st),bad,lambda st,r:bad.append('from') if (g.coeff(st,r)-x).p else 0)
        for i in range(3):
            v=Agg('Variable',(CI(2,'usize'),),i)
            one(g.run(f'<LinearCombination<{F}> as From<Variable>>::from',[v],[VT],g.st),bad,lambda st,r:bad.append('from variable') if not eqlc(lcval(g,st,r),{('ABC'[i],2):g.D.const(1)}) else 0)
        one(g.run(f'LinearCombination::<{F}>::zero',[],[],g.st),bad,lambda st,r:bad.append('zero') if lcval(g,st,r) else 0)
        return bad
    ob(f'From and zero<{F}>',M+'LinearCombination',frm)
    # --- operators; the operand's loop body treats every term alike, lengths up to 3 are enumerated with every coefficient kind
    L=3 if not chk.thorough else 4
    lens=[''.join(p) for n in range(L) for p in itertools.product(KS,repeat=n)]+['F1-','0F1','-0F','1-0','FFF']
    if chk.thorough: lens+=[''.join(p) for p in itertools.product(KS,repeat=3)]
    for op,sg in(('Add',1),('Sub',-1)):
        m=op.lower()
        for ks in lens:
            def f(g,ks=ks,sg=sg,op=op,m=m):
                bad=[]
                for base in('','F','F1'):
                    a,ad=mklc(g,'a',base); b,bd=mklc(g,'b',ks); br=g.it.alloc(g.st,b)
                    def w(coefv):
                        d=dict(ad)
                        for x,c in bd.items(): d[x]=d.get(x,g.D.const(0))+c*coefv*g.D.const(sg)
                        return d
                    one(g.run(f'<LinearCombination<{F}> as {op}<&LinearCombination<{F}>>>::{m}',[a,br],[LCT,('ref',LCT)],g.st),bad,lambda st,r:bad.append(f'{m} of a combination') if not eqlc(lcval(g,st,r),w(g.D.const(1))) else 0)
                    for k in KS:
                        c,cv=coeff(g,k,'s')
                        one(g.run(f'<LinearCombination<{F}> as {op}<(Coeff<{F}>, &LinearCombination<{F}>)>>::{m}',[a,Agg('tuple',(c,br))],[LCT,('tuple',CT,('ref',LCT))],g.st),bad,lambda st,r:bad.append(f'{m} of a scaled combination [{k}]') if not eqlc(lcval(g,st,r),w(cv)) else 0)
                return bad
            ob(f'LinearCombination {m} combination<{F}>[{ks or "empty"}]',M+'LinearCombination',f,bound='operand lengths listed')
        def tv(g,op=op,m=m,sg=sg):
            bad=[]
            for base in('','F','F1'):
                a,ad=mklc(g,'a',base)
                for i in range(3):
                    v=Agg('Variable',(CI(1,'usize'),),i)
                    def w(cv): d=dict(ad); x=('ABC'[i],1); d[x]=d.get(x,g.D.const(0))+cv*g.D.const(sg); return d
                    one(g.run(f'<LinearCombination<{F}> as {op}<Variable>>::{m}',[a,v],[LCT,VT],g.st),bad,lambda st,r:bad.append(f'{m} of a variable') if not eqlc(lcval(g,st,r),w(g.D.const(1))) else 0)
                    for k in KS:
                        c,cv=coeff(g,k,'s')
                        one(g.run(f'<LinearCombination<{F}> as {op}<(Coeff<{F}>, Variable)>>::{m}',[a,Agg('tuple',(c,v))],[LCT,('tuple',CT,VT)],g.st),bad,lambda st,r:bad.append(f'{m} of a term [{k}]') if not eqlc(lcval(g,st,r),w(cv)) else 0)
            return bad
        ob(f'LinearCombination {m} term<{F}>',M+'LinearCombination',tv)
    for ks in lens:
        def ev(g,ks=ks):
            bad=[]; l,d=mklc(g,'l',ks); w={(n,i):g.D.var(f'{n}{i}') for n in'ABC' for i in(1,2,3)}
            sl=[g.it.alloc(g.st,Agg('array',[w[n,i] for i in(1,2,3)])) for n in'ABC']
            want=g.D.const(0)
            for x,c in d.items(): want=want+c*w[x]
            return one(g.run(f'LinearCombination::<{F}>::evaluate',[g.it.alloc(g.st,l)]+sl,[('ref',LCT)]+[('ref',('slice',tp(F)))]*3,g.st),bad,lambda st,r:bad.append('evaluation') if (g.D.fe(r,st)-want).p else 0)
        ob(f'LinearCombination::evaluate<{F}>[{ks or "empty"}]',M+'LinearCombination',ev,bound='lengths listed, three wires of each kind')
def run():
    chk=fw.Check('C17','other')
    for F in FS:
        lincomb(chk,F)
        for wit in(True,False):
            for op in'aimle':
                for cur in(0,1): step(chk,F,op,cur,wit)
        ks=kinds(3 if not chk.thorough else 5)+['almlaali','ammaalli','aaaaal','iiiil','le','lel','nadal','nlnamddl','iaiaia','mmmaml','aiamliaimll'*3]
        if chk.unproved(): ks.append('aimlmia'*40)
        for k in ks: driver(chk,F,k,True); driver(chk,F,k,False)
        for k in('aiml','aaml','iial'):
            for w in('&','N','&N','N&','NN','&&','NNN'): driver(chk,F,k,True,w); driver(chk,F,k,False,w)
        for k in('aimlail',): seq(chk,F,k)
    from checks.conc2 import search_c17
    return chk.finish(search_c17)
