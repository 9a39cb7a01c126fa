"""C16: the Rescue gadget against the sponge specification (the one C10 proves of the native hash)."""
from checks.c14 import *
from checks.spec_rescue import *
RG='gadgets::rescue::RescueGadget'
def fifth(g):
    """contract of AllocatedNum::rescue_alpha / rescue_invalpha (C14): a fresh variable that every satisfying assignment gives the fifth
    power / the fifth root of the combination"""
    D=g.D
    def con(it,st,fr,q,args,argts):
        m=name_of(q)[2]
        if m not in('rescue_alpha','rescue_invalpha') or name_of(q)[0]!='AllocatedNum': return None
        b=args[1]
        while isinstance(b,Ref): b=it.deref(st,b)
        lc,val=denote(g,st,b); n=5 if m=='rescue_alpha' else g.perm.ia
        v=None if val is None else g.perm.pw(val,1 if n==5 else 0)
        i=g.new(st,v,'sbox'); c=st.ghost['cs']; g.upd(st,log=c.log+(('sbox',i,lc,1 if n==5 else 0),)); it.used_contracts.add('AllocatedNum::'+m)
        return [(st,Agg('Result',(Agg('AllocatedNum',g.order('AllocatedNum',dict(value=NONE if v is None else some(v),var=g.V(i)))),),0))]
    return con
class Amb(Exception): pass
def determine(g,sys,st=None):
    """value of each variable that the constraints determine from the given ones, in the order they were issued"""
    D=g.D; val={i:v for i,(v,k) in enumerate(sys.vars) if k in('one','given')}; pend=[]
    def lin(l):
        a=D.const(0); rest={}
        for c,i in l:
            if i in val: a=a+c*val[i]
            else: rest[i]=rest.get(i,D.const(0))+c
        return a,{i:c for i,c in rest.items() if not c.iszero()}
    def push(l):
        a,r=lin(l)
        if not r:
            if not a.iszero(): raise Bad('a constraint does not hold for the specified values: '+D.show(a.p,3))
            return True
        if len(r)==1:
            (i,c),=r.items()
            if c.const is None: raise MirError('symbolic coefficient of an internal variable')
            val[i]=a*D.const(-pow(c.const,-1,D.P)); return True
        return False
    todo=list(sys.log); ch=True
    while todo and ch:
        ch=False; rest=[]
        for e in todo:
            if e[0]=='lc': ok=push(e[1])
            elif e[0]=='sbox':
                a,r=lin(e[2]); ok=not r
                if ok: val[e[1]]=g.perm.pw(a,e[3])
            elif e[0]=='gate':
                i,j,k=e[1:]
                ok=i in val and j in val
                if ok:
                    p=val[i]*val[j]
                    if k in val:
                        if not (p-val[k]).iszero(): raise Bad('a gate does not hold for the specified values')
                    else: val[k]=p
            else: ok=True
            if ok: ch=True
            else: rest.append(e)
        todo=rest
    if todo: raise Bad(f'{len(todo)} constraints leave values open')
    for i,(v,k) in enumerate(sys.vars):
        if i not in val: raise Bad(f'variable {i} is not determined by the constraints')
        if g.witness and k not in('one','given') and (v is None or not (v-val[i]).iszero()): raise Bad('honest value differs from the value the constraints demand')
    return val
class Bad(Exception): pass
class R16:
    def __init__(s,chk,F,witness=True):
        s.g=g=mkgad(chk,F); s.F=F; g.witness=witness; g.D.powlimit=1; g.force_eval=not witness; g.perm=Perm(g.D,5,pow(5,-1,MOD[F]-1)); g.it.contracts.insert(0,fifth(g)); s.fs=g.it.mir.struct_fields('RescueGadget')
    def one(s,outs,res=True):
        if s.g.it.panics: raise Bad('panics '+str(s.g.it.panics[0][:3]))
        if len(outs)!=1: raise MirError(f'{len(outs)} outcomes')
        st,v=outs[0]
        if res:
            if is_err(v): raise Bad('synthesis returns an error')
            v=v.f[0]
        return st,v
    def new(s): return s.one(s.g.run(f'{RG}::<{s.F}>::new::<Rec>',[Agg('Rec',())],[REC],s.g.st))
    def call(s,st,v,m,*a):
        r=s.g.it.alloc(st,v); st,x=s.one(s.g.run(f'{RG}::<{s.F}>::{m}::<Rec>',[r,Agg('Rec',())]+list(a),[REFT(('path','RescueGadget',(tp(s.F),))),REC]+[NUT(s.F)]*len(a),st)); return st,s.g.it.deref(st,r),x
    def field(s,v):
        k=[i for i,x in enumerate(v.f) if isinstance(x,Agg) and len(x.f)==M and all(isinstance(y,Agg) and y.k=='Combination' for y in x.f)]
        if len(k)!=1: raise MirError('representation of the gadget state not recognised')
        return k[0]
    def state(s,v): return v.f[s.field(v)].f
    def put(s,v,S): k=s.field(v); return Agg(v.k,[Agg(x.k,S) if i==k else x for i,x in enumerate(v.f)],v.v)
    def rest(s,v): k=s.field(v); return [x for i,x in enumerate(v.f) if i!=k]
def eqv(g,a,b):
    if isinstance(a,FE) or isinstance(b,FE): return (g.D.fe(a)-g.D.fe(b)).iszero()
    if isinstance(a,Agg): return isinstance(b,Agg) and a.k==b.k and a.v==b.v and len(a.f)==len(b.f) and all(eqv(g,x,y) for x,y in zip(a.f,b.f))
    if isinstance(a,I): return isinstance(b,I) and a.p==b.p
    return a is b or a==b
def allconst(v):
    if isinstance(v,FE): return v.const is not None
    if isinstance(v,Agg): return v.k!='AllocatedNum' and v.k!='Variable' and all(map(allconst,v.f))
    return True
def value_is(g,st,val,x,want,what):
    lc,rep=denote(g,st,x); a=g.D.const(0)
    for c,i in lc: a=a+c*val[i]
    if not (a-want).iszero(): raise Bad(f'{what} differs from the native value')
    if g.witness and (rep is None or not (rep-want).iszero()): raise Bad(f'reported value of {what} is wrong')
class Ind:
    """one absorb or squeeze from an arbitrary state: pending elements and state entries are arbitrary"""
    def __init__(s,chk,F,witness):
        s.r=r=R16(chk,F,witness); g=s.g=r.g; s.chk=chk; s.F=F; s.w=witness
        st,v=r.new()
        if not all(map(allconst,r.rest(v))): raise MirError('matrix or key schedule is not constant')
        sys=st.ghost['cs']; val=determine(g,sys)
        for x in r.state(v): value_is(g,st,val,x,g.D.const(0),'the initial state')
        s.v0=v; s.st0=st; g.upd(s.st0,vars=g.sys0.vars,gates=(),lcs=(),inputs=(),log=()); s.sq={}
    def squeezed(s,j):
        """representation after j outputs of a block"""
        if j not in s.sq:
            if j==1: st,v=s.st0.copy(),s.v0
            else: v=s.squeezed(j-1)[0]; st=s.squeezed(j-1)[1].copy()
            st,v,_=s.r.call(st,v,'squeeze'); s.sq[j]=(v,st)
        return s.sq[j]
    def setup(s,k,mode,pat):
        g=s.g; st=s.st0.copy(); S=[];C=[]
        for i in range(M): c,x=comb(g,st,pat[i%len(pat)],f's{i}_'); C.append(c); S.append(x)
        ns=[num(g,st,('a1','aF','cF','a-')[i%4] if pat[0][0]!='r' else 'cF',f'v{i}') for i in range(k if mode=='A' else 0)]; w,wx=num(g,st,'aF','w')
        v=s.v0 if mode=='A' else s.squeezed(k)[0]
        for n,_ in ns: st,v,_=s.r.call(st,v,'absorb',n)
        return st,s.r.put(v,C),S,[x for _,x in ns],[n for n,_ in ns],w,wx
    def after(s,st,v,nums,sq=None):
        """expected rest of the record: pending numbers, or number of outputs"""
        if sq is not None: e=s.squeezed(sq)[0]
        else:
            e=s.v0; t=st.copy()
            for n in nums: t,e,_=s.r.call(t,e,'absorb',n)
        if not eqv(s.g,Agg('x',s.r.rest(v)),Agg('x',s.r.rest(e))): raise Bad('pending elements or output position differ')
    def check(s,op,k,mode,pat,lab):
        name=f'{s.F}.{op}-after-{k}-{"pending" if mode=="A" else "outputs"}{lab}{"" if s.w else " (no witness)"}'; fn=RG+'::'+op; g=s.g
        def th():
            t=time.time(); bad=""; g.it.panics.clear(); g.it.steps=0
            try:
                st,v,S,vals,nums,w,wx=s.setup(k,mode,pat); spec=Sponge(g.perm); spec.st=S
                if mode=='A': spec.vals=list(vals)
                else: spec.out=k
                if op=='absorb':
                    st,v2,_=s.r.call(st,v,'absorb',w); spec.absorb(wx); s.after(st,v2,(nums if mode=='A' and k<RATE else [])+[w])
                else: st,v2,o=s.r.call(st,v,'squeeze'); want=spec.squeeze(); s.after(st,v2,None,spec.out)
                val=determine(g,st.ghost['cs'])
                if op=='squeeze': value_is(g,st,val,o,want,'the output')
                for i,(c,x) in enumerate(zip(s.r.state(v2),spec.st)): value_is(g,st,val,c,x,f'state element {i}')
            except Bad as e: bad=str(e)
            s.chk.ob(name,fn,fw.REFUTED if bad else fw.PROVED,'mirv-poly',time.time()-t,bad)
        s.chk.attempt(name,fn,th)
def run():
    chk=fw.Check('C16')
    for F in('Fp','Fq'):
        for wit in(True,False):
            def th():
                ind=Ind(chk,F,wit); chk.ob(f'{F}.new{"" if wit else " (no witness)"}',RG+'::new',fw.PROVED,'mirv-poly',0)
                al=[('R',)]; mix=[('R',),('r',),('a1','cF'),()]
                full=wit or chk.thorough
                for k in range(RATE+1) if full else(0,5,RATE):
                    ind.check('absorb',k,'A',al,'')
                    ind.check('squeeze',k,'A',al,'')
                for k in range(1,RATE+1) if full else(1,6,RATE):
                    ind.check('absorb',k,'S',al,''); ind.check('squeeze',k,'S',al,'')
                if wit or chk.thorough:
                    for k in(0,7,RATE): ind.check('squeeze',k,'A',mix,' mixed'); ind.check('absorb',k,'A',mix,' mixed')
                    ind.check('squeeze',RATE,'A',[('r',)],' constants'); ind.check('squeeze',3,'S',[('r',)],' constants'); ind.check('squeeze',RATE,'S',mix,' mixed')
                chk.absorb(ind.g.it)
            chk.attempt(f'{F}.new{"" if wit else " (no witness)"}',RG,th)
    chk.assumptions+=['the native hash by its C10 specification; fifth powers and roots by the C14 contracts of AllocatedNum::rescue_alpha and rescue_invalpha (the fifth power is a bijection of the field, C04)']
    from checks.conc4 import search_c16
    return chk.finish(search_c16)
