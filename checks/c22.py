"""C22: recursion (src/recursion.rs).  Native part: RecursiveProof::{create_proof, verify_inner, verify} over the contracts of the
records (C20, C21).  Circuit part: VerificationCircuit executed over the gadget contracts (C11, C14, C15, C16) and compared, event by
event, with the native verifier run on the same arbitrary proof."""
from checks.c20 import *
from checks.c14 import mkgad
OT=('other','?'); INNER=('path','Inner',()); ZERO_OK=None
def dr(it,st,a):
    while isinstance(a,Ref): a=it.deref(st,a)
    return a
class Native:
    """calls into the records are logged; each verdict is an unknown bit, each fallible call also fails"""
    def __init__(s,chk,E1,E2,gens,fail=True):
        s.it=it=Interp(chk.mir); s.E1=E1; s.E2=E2; s.G=gsetup(it,E1,CURVES[E1][0]); it.merge=False; it.contracts.insert(0,s.con); s.fail=fail; s.st=State(); s.st.ghost=dict(s.st.ghost); s.st.ghost['log']=()
        it.assoc_tab=dict(ASSOC); s.bytes={}; s.bits={}; s.g1=[s.G.base(f'G{i}') for i in range(gens)]
        s.p1=s.params('e1',6); s.p2=s.params('e2',5)
    def params(s,n,k):
        g=s.g1 if n=='e1' else []
        kw=dict(g=Opq((n,'g')),d=CI(1<<k,'usize'),n=CI(1<<(k-2),'usize'),k=CI(k,'usize'),generators=Agg('Vec',g),generators_xy=Agg('Vec',[]))
        fs=s.it.mir.struct_fields('Params')
        if set(fs)!=set(kw): raise MirError(f'fields of Params {fs}')
        return Agg('Params',[kw[f] for f in fs])
    def which(s,st,v):
        """which parameter set"""
        v=dr(s.it,st,v); k=v.f[s.it.mir.struct_fields('Params').index('k')].const
        return {6:'e1',5:'e2'}[k]
    def circ(s,st,v):
        """what a verification circuit is built from"""
        it=s.it; v=dr(it,st,v)
        if v.k!='VerificationCircuit': raise MirError('circuit of another kind')
        fs=it.mir.struct_fields('VerificationCircuit'); g=lambda f:v.f[fs.index(f)]
        opt=lambda x,f=lambda y:y: None if x.v==0 else f(dr(it,st,x.f[0]))
        return dict(params=s.which(st,g('params')),inner=dr(it,st,g('inner_circuit')).k,payload=[b.const for b in dr(it,st,g('new_payload')).f],base_case=opt(g('base_case'),lambda b:b.const),
            proof=opt(g('proof'),lambda r:s.get(r,'proof').d),forks=opt(g('forkvalues'),lambda r:[x.const for x in r.f]),old=opt(g('old_leftovers'),lambda x:x.d),new=opt(g('new_leftovers'),lambda x:x.d),deferred=opt(g('deferred'),lambda x:x.d))
    def get(s,r,f): return r.f[s.it.mir.struct_fields('RecursiveProof').index(f)]
    def rproof(s,name,payload):
        kw=dict(proof=Opq((name,'proof')),oldproof1=Opq((name,'old1')),oldproof2=Opq((name,'old2')),deferred=Opq((name,'deferred')),payload=Agg('Vec',[CI(b,'u8') for b in payload]))
        fs=s.it.mir.struct_fields('RecursiveProof')
        if set(fs)!=set(kw): raise MirError(f'fields of RecursiveProof {fs}')
        return Agg('RecursiveProof',[kw[f] for f in fs])
    def bit(s,name):
        if name not in s.bits: s.bits[name]=s.it.ctx.atom(name,0,1,'bit')
        return I({(s.bits[name],):1},0,1,'bool')
    def log(s,st,e): st.ghost=dict(st.ghost); st.ghost['log']=st.ghost['log']+(e,); return len(st.ghost['log'])-1
    def con(s,it,st,fr,q,args,argts):
        ty,tr,m=name_of(q); G=s.G
        if not args: return None
        d=lambda a: dr(it,st,a)
        a0=d(args[0]) if isinstance(args[0],(Ref,Opq,Agg)) else args[0]
        ret=lambda v,f=True: [(st,Agg('Result',(v,),0))]+([(st.copy(),Agg('Result',(Agg('SynthesisError',(),0),),1))] if s.fail and f else [])
        if isinstance(a0,Opq):
            if m in('clone','to_owned'): return [(st,a0)]
            if m=='to_bytes': it.used_contracts.add('to_bytes'); return [(st,Agg('Vec',[CI(b,'u8') for b in s.bytes[a0.d]]))]
            if m=='verify' and tr is None:
                it.used_contracts.add(f'{ty}::verify')
                if ty=='Proof' or (len(args)==6):
                    e=('proof',a0.d,d(args[1]).d,s.which(st,args[2]),s.circ(st,args[3]),[G.D.fe(x) for x in d(args[4]).f],d(args[5]))
                    s.log(st,e); t=a0.d
                    return ret(Agg('tuple',(s.bit(f'ok_{t}'),Opq((t,'left')),Opq((t,'def')),Agg('Vec',[CI(7+i,'u8') for i in range(4)]))))
                if len(args)==3:
                    s.log(st,('leftovers',a0.d,s.which(st,args[1]),s.circ(st,args[2]))); return ret(s.bit(f'ok_{a0.d}'))
                if len(args)==2:
                    s.log(st,('deferred',a0.d,args[1].const)); return [(st,s.bit(f'ok_{a0.d}'))]
            raise MirError(f'{m} of an opaque record')
        if ty=='Proof' and m=='new':
            it.used_contracts.add('Proof::new'); s.log(st,('new',s.which(st,args[0]),s.circ(st,args[1]),d(args[2]).d)); return ret(Agg('tuple',(Opq(('made','proof')),Opq(('made','left')))))
        if m=='dummy' and ty in('Deferred','Leftovers'):
            it.used_contracts.add(ty+'::dummy'); return [(st,Opq(('dummy',ty,a0.const if isinstance(a0,I) else s.which(st,a0))))]
        if ty=='RecursiveProof' and m=='verify_inner' and s.stubinner:
            it.used_contracts.add('RecursiveProof::verify_inner'); s.log(st,('inner',s.get(a0,'proof').d,s.which(st,args[1]),s.which(st,args[2]),d(args[3]).k))
            return ret(Agg('tuple',(s.bit('ok_inner'),Opq(('i','def')),Opq(('i','l1')),Opq(('i','l2')),Agg('Vec',[CI(7+i,'u8') for i in range(4)]))))
        return None
    stubinner=False
    def run(s,m,args,st): return s.it.invoke(st,F0,f'recursion::RecursiveProof::<{s.E1}, {s.E2}>::{m}::<Inner>',args,[('ref',OT)]*len(args))
PAT=((0,0xff,0),(0x01,0x80,0x37),(0xa5,0,0x5a),(0xff,0xff,0xff))
def patterns(T):
    import random
    r=random.Random(22); out=[]
    for p in range(3 if not T else 12): out.append(([r.randrange(256) for _ in range(2)],[r.randrange(256) for _ in range(3)],[r.randrange(256) for _ in range(2)],[r.randrange(256) for _ in range(3)]))
    out+=[([0],[0xff],[0],[1]),([0xff],[0],[0xff],[0x80]),([],[1],[2],[4]),([0x55,0xaa,0],[],[3],[5,6])]
    return out
PLAIN=dict(inner='Inner')
def badcirc(c,params,payload):
    b=[]
    if c['params']!=params: b.append('is built over the parameters of the wrong curve')
    if c['payload']!=payload: b.append('is built for another payload')
    if c['inner']!='Inner': b.append('has another inner circuit')
    return b
def checkinner(s,what,log,ok,rec,bad,pay,b1,b2,bd):
    """log entries of verify_inner; returns the conjunction it must return"""
    pr=[e for e in log if e[0]=='proof']; lo=[e for e in log if e[0]=='leftovers']; D=s.G.D
    if len(pr)!=1 or pr[0][1]!=('rp','proof'): bad.append(f'{what}: {len(pr)} inner proofs verified'); return
    e=pr[0]
    if e[2]!=('rp','old1'): bad.append(f'{what}: proof is verified against other leftovers')
    if e[3]!='e1': bad.append(f'{what}: parameters')
    bad+=[f'{what}: circuit of the proof '+x for x in badcirc(e[4],'e2',pay)]
    want=[(b>>i)&1 for b in pay+b1+b2+bd for i in range(8)]
    if len(e[5])!=len(want) or any(not (x-D.const(w)).iszero() for x,w in zip(e[5],want)): bad.append(f'{what}: public inputs are not the bits of payload, both leftovers, deferred')
    k=s.g1[1]
    for i,w in enumerate(want):
        if w: k=k.add(s.g1[2+i])
    if e[6].v!=1 or not s.G.gp(e[6].f[0]).same(k): bad.append(f'{what}: input commitment')
    l=[x for x in lo if x[1]==('rp','old2')]
    if not l: bad.append(f'{what}: leftovers of the other curve are not checked')
    for x in l:
        if x[2]!='e2': bad.append(f'{what}: parameters of the other curve\'s leftovers')
        bad+=[f'{what}: circuit of the other curve\'s leftovers '+y for y in badcirc(x[3],'e1',pay)]
def native(chk,E1,E2,m):
    name=f'RecursiveProof::{m}<{E1},{E2}>'; fn=f'recursion::RecursiveProof::{m}'
    def th():
        t=time.time(); bad=[]; n=0
        for pay,b1,b2,bd in patterns(chk.thorough):
            s=Native(chk,E1,E2,2+8*len(pay+b1+b2+bd)+5); it=s.it; st=s.st; ctx=it.ctx; n+=1
            s.bytes={('rp','old1'):b1,('rp','old2'):b2,('rp','deferred'):bd}; rp=s.rproof('rp',pay)
            outs=s.run(m,[it.alloc(st,rp),it.alloc(st,s.p1),it.alloc(st,s.p2),it.alloc(st,Agg('Inner',()))],st)
            if it.panics: bad.append('panics '+str(it.panics[0][:3]))
            good=0; P=('rp','proof')
            for s2,v in outs:
                log=s2.ghost['log']
                if v.v==1: continue
                good+=1; checkinner(s,m,log,None,rp,bad,pay,b1,b2,bd)
                bits=['ok_'+str(P),'ok_'+str(('rp','old2'))]
                if m=='verify_inner':
                    ok,d,l1,l2,fk=v.f[0].f
                    if (d.d,l1.d,l2.d)!=((P,'def'),(P,'left'),('rp','old2')): bad.append('hands on other records')
                    if [x.const for x in fk.f]!=[7,8,9,10]: bad.append('fork values')
                else:
                    ok=v.f[0]
                    bits+=['ok_'+str(('rp','deferred')),'ok_'+str((P,'def')),'ok_'+str((P,'left'))]
                    ds=[e for e in log if e[0]=='deferred']
                    for w,k in((('rp','deferred'),5),((P,'def'),6)):
                        x=[e for e in ds if e[1]==w]
                        if not x: bad.append('deferred work '+str(w)+' is not checked')
                        elif any(e[2]!=k for e in x): bad.append('deferred work is checked for the wrong parameter size')
                    for w,p,c in(((P,'left'),'e1','e2'),(('rp','old2'),'e2','e1')):
                        x=[e for e in log if e[0]=='leftovers' and e[1]==w]
                        if not x: bad.append('leftovers '+str(w)+' are not checked')
                        for e in x:
                            if e[2]!=p: bad.append('leftovers are checked over the wrong curve')
                            bad+=['circuit of the leftovers '+y for y in badcirc(e[3],c,pay)]
                w={():1}
                for b in bits: w=it.ctx.pmul(w,s.bit(b).p)
                got=it.sub_assume(s2,ok.f[0] if isinstance(ok,Agg) else ok)
                env={a:v2 for a,v2 in s2.assume.items()}
                # compare as boolean functions of the verdict bits (paths may have fixed some of them)
                if not sameb(it,got.p,w,env): bad.append('the verdict is not the conjunction of all parts')
            if not good: bad.append('no successful outcome')
            if s.fail and not any(v.v==1 for _,v in outs): bad.append('errors are not passed on')
            chk.absorb(it)
            if bad: break
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv',time.time()-t,'; '.join(dict.fromkeys(bad)),bound=f'{n} byte patterns for payload and records; all verdicts and error outcomes of the parts')
    chk.attempt(name,fn,th)
def sameb(it,p,q,env):
    ats=sorted({a for r in(p,q) for m in r for a in m})
    def ev(r,w): return sum(c for m,c in r.items() if all(w[a] for a in m))
    fr=[a for a in ats if a not in env]
    for vs in itertools.product((0,1),repeat=len(fr)):
        w=dict(env); w.update(zip(fr,vs))
        if ev(p,w)!=ev(q,w): return False
    return True
def create(chk,E1,E2):
    name=f'RecursiveProof::create_proof<{E1},{E2}>'; fn='recursion::RecursiveProof::create_proof'
    def th():
        t=time.time(); bad=[]
        for prev in(True,False):
            s=Native(chk,E1,E2,4); s.stubinner=True; it=s.it; st=s.st; pay=[3,200]
            old=some(it.alloc(st,s.rproof('prev',[9]))) if prev else NONE
            outs=s.run('create_proof',[it.alloc(st,s.p1),it.alloc(st,s.p2),old,it.alloc(st,Agg('Inner',())),vec_ref(it,st,[CI(b,'u8') for b in pay])],st)
            if it.panics: bad.append('panics '+str(it.panics[0][:3]))
            good=0
            for s2,v in outs:
                if v.v==1: continue
                good+=1; log=s2.ghost['log']; new=[e for e in log if e[0]=='new']; inn=[e for e in log if e[0]=='inner']
                if len(new)!=1: bad.append(f'{len(new)} proofs made'); continue
                _,p,c,ol=new[0]
                if prev:
                    if inn!=[('inner',('prev','proof'),'e2','e1','Inner')]: bad.append('the previous proof is not verified over the swapped curves')
                    D,N,O,fk=('i','def'),('i','l1'),('i','l2'),[7,8,9,10]
                else: D,N,O,fk=('dummy','Deferred',5),('dummy','Leftovers','e2'),('dummy','Leftovers','e1'),[0]*5
                if p!='e1' or ol!=O: bad.append('proof is made over the wrong parameters or leftovers')
                want=dict(params='e2',inner='Inner',payload=pay,base_case=0 if prev else 1,proof=('prev','proof') if prev else None,forks=fk,old=O,new=N,deferred=D)
                bad+=[f'circuit witness {k}' for k in want if want[k]!=c[k]]
                r=v.f[0]; g=lambda f:s.get(r,f)
                if (g('proof').d,g('oldproof1').d,g('oldproof2').d,g('deferred').d)!=(('made','proof'),O,N,D): bad.append('the record holds other parts')
                if [b.const for b in dr(it,s2,g('payload')).f]!=pay: bad.append('the record holds another payload')
            if not good: bad.append('no successful outcome')
            if len(outs)-good<1: bad.append('errors are not passed on')
            chk.absorb(it)
        chk.ob(name,fn,fw.REFUTED if bad else fw.PROVED,'mirv',time.time()-t,'; '.join(dict.fromkeys(bad)))
    chk.attempt(name,fn,th)
# ---------------- the verification circuit over the gadget contracts
class VC:
    """E1: curve whose scalar field the circuit is written in; E2: curve of the points it handles.  Gadget calls act on group elements,
    transcript states and labelled bits through their contracts; equalities the circuit enforces are recorded."""
    def __init__(s,chk,E1,E2,k,pr=None,J=5):
        s.E1=E1; s.E2=E2; s.k=k
        it=s.it=Interp(chk.mir) if pr is None else pr.it; s.pr=pr or Proto(it,E2,k,ipa='inline'); s.F=CURVES[E2][0]; s.D=s.pr.D; s.DF=s.pr.DB; s.G=s.pr.G
        pc=s.pr.contract; it.contracts=[(lambda *a: None if name_of(a[3])[0] in('VerificationCircuit','RescueGadget','CurvePoint') else pc(*a)) if c==pc else c for c in it.contracts]
        it.merge=False; it.contracts.insert(0,s.con); it.assoc_tab=dict(ASSOC); it.assoc_tab[('Rec','Root')]=REC
        s.vars=[('one',)]; s.val={0:s.DF.const(1)}; s.xy={}; s.stubs=set(); s.given=None; s.wit=True; s.bytes={}; s.basep=(); s.sel={}; s.scal={}; s.pts={}
        it.const_hooks=(lambda t,n: Agg('Variable',(CI(0,'usize'),),0) if n=='ONE' else None,)
    # --- tokens: field variables
    def new(s,label,fe=None): s.vars.append(label); i=len(s.vars)-1; s.val[i]=fe if fe is not None else s.DF.var(f'v{i}'); return i
    def order(s,ty,kw):
        f=s.it.mir.struct_fields(ty)
        if set(f)!=set(kw): raise MirError(f'fields of {ty}: {f}')
        return Agg(ty,[kw[x] for x in f])
    def V(s,i): return Agg('Variable',(CI(i,'usize'),),0)
    def vi(s,v):
        if v.v!=0: raise MirError('variable')
        return v.f[0].const
    def anum(s,label,fe=None): i=s.new(label,fe); return s.order('AllocatedNum',dict(value=some(s.val[i]),var=s.V(i)))
    def num(s,label,fe=None): return Agg('Num',(Agg('Coeff',(),1),s.anum(label,fe)),1)
    def abit(s,label,v=None):
        i=s.new(label); b=v if v is not None else I({(s.it.ctx.atom(f'b{i}',0,1,'bit'),):1},0,1,'bool'); s.val[i]=FE(s.DF,dict(b.p))
        return s.order('AllocatedBit',dict(value=some(b) if s.wit else NONE,var=s.V(i)))
    def bitlabel(s,st,b):
        b=dr(s.it,st,b)
        if b.k=='Boolean':
            if b.v==0: return s.bitlabel(st,b.f[0])
            return ('not',s.bitlabel(st,b.f[0])) if b.v==1 else ('const',b.f[0].const)
        return s.vars[s.vi(b.f[s.it.mir.struct_fields('AllocatedBit').index('var')])]
    def labels(s,st,l): return [s.bitlabel(st,b) for b in dr(s.it,st,l).f]
    def fe(s,st,n):
        """value of a Num / Combination / AllocatedNum"""
        n=dr(s.it,st,n)
        if isinstance(n,FE): return n
        co=lambda c: s.DF.const((0,1,-1)[c.v]) if c.v<3 else s.DF.fe(c.f[0],st)
        if n.k=='AllocatedNum': return s.val[s.vi(n.f[s.it.mir.struct_fields('AllocatedNum').index('var')])]
        if n.k=='Num': return co(n.f[0]) if n.v==0 else co(n.f[0])*s.fe(st,n.f[1])
        if n.k=='Combination':
            r=s.DF.const(0)
            for x in n.f[s.it.mir.struct_fields('Combination').index('terms')].f: r=r+s.fe(st,x)
            return r
        raise MirError('number '+str(n.k))
    # --- points
    def coords(s,p):
        p=s.G.gp(p)
        if p.same(s.G.zero()): return s.DF.const(0),s.DF.const(0)
        k=s.G.key(s.canon(p))
        if k not in s.xy:
            n=len(s.xy); s.xy[k]=(s.DF.var(f'X{n}'),s.DF.var(f'Y{n}')); 
            for c,v in zip('xy',s.xy[k]): s.pts[pkey(v.p)]=(c,p)
        return s.xy[k]
    def canon(s,p): D=s.D; return GP(s.G,{b:D.red(c) for b,c in p.d.items()})
    def pt(s,st,v):
        v=dr(s.it,st,v)
        if isinstance(v,CP): return v.p
        raise MirError('curve point of unknown make')
    def chal(s,T): return s.pr.chal(('sq',T))
    def scalar(s,st,bits):
        """scalar denoted by a slice of 256 bits"""
        l=s.labels(st,bits); k=tuple(l)
        if k in s.scal: return s.scal[k]
        raise Bad(f'a scalar is taken from bits that hold none: {l[:1]}..{l[-1:]} ({len(l)})')
    def chscalar(s,st,bits):
        l=s.labels(st,bits)
        if len(l)!=128: raise Bad(f'challenge of {len(l)} bits')
        c=s.chalof(l)
        if c is None: raise Bad('bits that are not a challenge are used as one: '+str(l[:1]))
        u=s.pr.chal(('scalar',s.pr.fkey(c)),'u'); return u
    def chalof(s,l):
        """the challenge FE of 127 low bits of a squeezed element followed by a one"""
        if l[127]!=('one',) or l[0][0]!='ubit': return None
        n=l[0][1]
        if [*l[:127]]!=[('ubit',n,i) for i in range(127)]: return None
        lab=s.numlab.get(n)
        return s.chal(lab[1]) if lab and lab[0]=='squeeze' else None
    numlab=None
    def ev(s,st,e): st.ghost=dict(st.ghost); st.ghost['ev']=st.ghost.get('ev',())+(e,)
    def settr(s,st,r,t):
        it=s.it
        while isinstance(it.deref1(st,r),Ref): r=it.deref1(st,r)
        it.setref(st,r,t)
    def con(s,it,st,fr,q,args,argts):
        ty,tr,m=name_of(q); ok=lambda v:[(st,Agg('Result',(v,),0))]; use=lambda: it.used_contracts.add(f'{ty}::{m}')
        if s.numlab is None: s.numlab={}
        if m=='to_bytes' and args:
            a0=dr(it,st,args[0])
            if isinstance(a0,Opq): it.used_contracts.add('to_bytes'); return [(st,Agg('Vec',[CI(b,'u8') for b in s.bytes[a0.d]]))]
        if m=='dummy' and ty=='Deferred': it.used_contracts.add('Deferred::dummy'); return [(st,Opq(('dummy',args[0].const)))]
        if tr=='ConstraintSystem':
            if m=='namespace': return [(st,Agg('Rec',()))]
            if m=='enforce_zero':
                l=dr(it,st,args[1]); t=dr(it,st,l.f[0]); s.ev(st,('zero',tuple((tuple([c.v]+([pkey(s.DF.fe(c.f[0],st).p)] if c.v==3 else [])),s.vi(v)) for v,c in (x.f for x in t.f)))); return [(st,UNIT)]
            if m=='multiply':
                outs=[]
                if not s.wit:
                    ids=[s.new(('mul',j)) for j in range(3)]; s.ev(st,('gate',)+tuple(ids)); return ok(Agg('tuple',[s.V(i) for i in ids]))
                for s2,r in it.call_closure(st,args[2],[]):
                    if r.v==1: outs.append((s2,r)); continue
                    ids=[s.new(('mul',j),s.DF.fe(x,s2)) for j,x in enumerate(r.f[0].f)]; s.ev(s2,('gate',)+tuple(ids)); outs.append((s2,Agg('Result',(Agg('tuple',[s.V(i) for i in ids]),),0)))
                return outs
            raise MirError('constraint system call '+m)
        if tr=='Drop': return [(st,UNIT)]
        if tr=='RecursiveCircuit':
            if m=='base_payload': return [(st,Agg('Vec',[CI(b,'bool') for b in s.basep]))]
            if m=='synthesize': s.ev(st,('inner',tuple(s.labels(st,args[2])),tuple(s.labels(st,args[3])))); return ok(UNIT)
        if ty=='RescueGadget':
            use()
            if m=='new': return ok(Tr())
            r=args[0]; t=dr(it,st,r)
            if m=='absorb':
                v=s.fe(st,args[2]); T=t.s; k=pkey(v.p); p=s.pts.get(k)
                z=not v.p
                if T and T[-1][0]=='h':
                    h=T[-1]
                    if h[1]=='z' and z: T=T[:-1]+(('P',s.G.key(s.G.zero())),)
                    elif p and p[0]=='y' and h[1]==s.G.key(s.canon(p[1])): T=T[:-1]+(('P',s.pr.gkey(p[1])),)
                    else: raise Bad('the transcript absorbs an unpaired coordinate')
                elif p:
                    if p[0]!='x': raise Bad('the transcript absorbs y before x')
                    T=T+(('h',s.G.key(s.canon(p[1]))),)
                elif z and s.zpoint: T=T+(('h','z'),)
                else: T=T+(('A',k),)
                s.settr(st,r,Tr(T)); return ok(UNIT)
            if m=='squeeze':
                if t.s and t.s[-1][0]=='h': raise Bad('half a point in the transcript')
                n=s.anum(('squeeze',t.s)); i=len(s.vars)-1; s.numlab[i]=('squeeze',t.s); s.settr(st,r,Tr(t.s+(('Q',),))); return ok(n)
            raise MirError('RescueGadget::'+m)
        if ty=='CurvePoint':
            use()
            if m in('clone','to_owned'): return [(st,dr(it,st,args[0]))]
            if m=='witness':
                outs=[]
                for s2,r in it.call_closure(st,args[1],[]):
                    if r.v==1: outs.append((s2,r)); continue
                    p=s.G.gp(dr(it,s2,r.f[0]),s2); s.ev(s2,('witness',s.G.key(s.canon(p)))); outs.append((s2,Agg('Result',(CP(p),),0)))
                return outs
            if m=='identity': return [(st,CP(s.G.zero()))]
            if m=='constant':
                x,y=(s.DF.fe(dr(it,st,a),st) for a in args); p=s.pts.get(pkey(x.p)),s.pts.get(pkey(y.p))
                if not p[0] or not p[1] or p[0][0]!='x' or p[1][0]!='y' or not p[0][1].same(p[1][1]): raise Bad('a constant point is not one of the known points')
                return [(st,CP(p[0][1]))]
            P=s.pt(st,args[0])
            if m=='get_xy': x,y=s.coords(P); f=lambda v: Agg('Num',(Agg('Coeff',(v,),3),),0) if not v.p else s.num(('coord',),v); return [(st,Agg('tuple',(f(x),f(y))))]
            if m=='add': return ok(CP(P.add(s.pt(st,args[2]))))
            if m=='double': return ok(CP(P.add(P)))
            if m=='multiply': return ok(CP(P.mul(s.scalar(st,args[2]))))
            if m in('multiply_endo','multiply_inv_endo'):
                u=s.chscalar(st,args[2]); u=u*u; return ok(CP(P.mul(u if m=='multiply_endo' else u.inv())))
            if m=='add_conditionally_incomplete':
                Q=s.pt(st,args[2]); l=s.bitlabel(st,args[3]); s.ev(st,('sel',l,s.G.key(Q))); return ok(CP(P.add(Q.mul(s.selvar(l)))))
            raise MirError('CurvePoint::'+m)
        if m=='get_xy' and args and tr is not None:
            p=dr(it,st,args[0])
            if isinstance(p,GP): x,y=s.coords(p); return [(st,Agg('CtOption',(Agg('tuple',(x,y)),choice(CI(0 if p.same(s.G.zero()) else 1,'u8')))))]
        if m=='unpack_fe' and tr is None:
            use(); n=dr(it,st,args[1]); v=s.fe(st,n)
            if n.k=='Combination': n=dr(it,st,n.f[s.it.mir.struct_fields('Combination').index('terms')].f[0])
            i=s.vi(n.f[1].f[s.it.mir.struct_fields('AllocatedNum').index('var')]) if n.v==1 else None
            lab=s.pts.get(pkey(v.p))
            if lab: key=('coord',lab[0],s.G.key(s.canon(lab[1])))
            elif i is not None and i in s.numlab: key=i
            else: key=('const',pkey(v.p))
            return ok(Agg('Vec',[s.abit(('ubit',key,j)) for j in range(256)]))
        if ty=='AllocatedNum' and m=='alloc':
            use(); outs=[]
            for s2,r in it.call_closure(st,args[1],[]):
                if r.v==1: outs.append((s2,r)); continue
                outs.append((s2,Agg('Result',(s.anum(('alloc',),s.DF.fe(r.f[0],s2)),),0)))
            return outs
        if ty=='AllocatedBit':
            if m in('alloc','alloc_input_unchecked'):
                use(); outs=[]
                for s2,r in it.call_closure(st,args[1],[]) if s.wit else [(st,Agg('Result',(None,),0))]:
                    if r.v==1: outs.append((s2,r)); continue
                    n=s2.ghost.get('nb',0); s2.ghost=dict(s2.ghost); s2.ghost['nb']=n+1; l=('in' if m!='alloc' else 'bit',n)
                    b=s.abit(l,r.f[0] if isinstance(r.f[0],I) else None); s.ev(s2,('input',l,r.f[0]) if m!='alloc' else ('alloc',l,r.f[0])); outs.append((s2,Agg('Result',(b,),0)))
                return outs
            if m=='one': return [(st,s.abit(('one',),CI(1,'bool')))]
            if m=='check': use(); s.ev(st,('check',s.bitlabel(st,args[0]))); return ok(UNIT)
        if ty=='VerificationCircuit' or (q[0]=='path' and m in s.stubs):
            if m in s.stubs:
                it.used_contracts.add('VerificationCircuit::'+m)
                if m=='equal_unless_base_case': s.ev(st,('eqbits',s.bitlabel(st,args[2]),tuple(s.labels(st,args[3])),tuple(s.labels(st,args[4])))); return ok(UNIT)
                if m=='num_equal_unless_base_case': s.ev(st,('eqnum',s.bitlabel(st,args[2]),s.fe(st,args[3]),s.fe(st,args[4]))); return ok(UNIT)
                if m=='witness_bits_from_fe':
                    v=s.D.fe(dr(it,st,args[2]),st); n=len(s.scal); bs=[s.abit(('wbit',n,j)) for j in range(256)]; s.scal[tuple(('wbit',n,j) for j in range(256))]=v; s.ev(st,('wbits',s.D.red(v.p))); return ok(Agg('Vec',bs))
                if m=='verify_deferred': s.ev(st,('verify_deferred',tuple(s.labels(st,args[2])))); return ok(UNIT)
                if m=='verify_proof': s.ev(st,('verify_proof',s.bitlabel(st,args[2]),s.canon(s.pt(st,args[3])))+tuple(tuple(s.labels(st,a)) for a in args[4:7])); return ok(UNIT)
        return None
    zpoint=False
    def selvar(s,l):
        if l not in s.sel: s.sel[l]=s.D.var(f'sel{len(s.sel)}')
        return s.sel[l]
    def circuit(s,**kw):
        d=dict(_marker=UNIT,base_case=NONE,proof=NONE,forkvalues=NONE,old_leftovers=NONE,new_leftovers=NONE,deferred=NONE); d.update(kw)
        return s.order('VerificationCircuit',d)
    def rproof(s,**kw): return s.order('RecursiveProof',kw)
    def params(s):
        for g in s.pr.gens: s.coords(g)
        s.coords(s.G.base('G'))
        return s.pr.struct('Params',g=s.G.base('G'),d=CI(s.pr.d,'usize'),n=CI(s.pr.n,'usize'),k=CI(s.k,'usize'),generators=Agg('Vec',s.pr.gens),generators_xy=Agg('Vec',[Agg('tuple',s.coords(g)) for g in s.pr.gens]))
class CP(Dom):
    """circuit point denoting a group element"""
    __slots__=('p',)
    def __init__(s,p): s.p=p
    def select(s,ctx,w,a,b): raise MergeFail('circuit points')
    def field(s,i): raise MirError('representation of a circuit point is read')
    def eq(s,it,st,b): raise MirError('comparison of circuit points')
def vpath(E1,E2,m): return f'recursion::VerificationCircuit::<{E1}, {E2}, Inner>::{m}::<Rec>'
def fieldslices(pr,k,fs,widths):
    """bit offset of every field of an encoded record (C21): name -> (start,len) or list of them"""
    pos=0; r={}
    for f in fs:
        w,n=widths(f)
        if n is None: r[f]=(pos,w); pos+=w
        else:
            r[f]=[(pos+i*w,w) for i in range(n)]; pos+=n*w
    return r,pos
W128={'x','y_old','y_cur','y_new','challenges_sq_packed_old','challenges_sq_packed_new'}
def vproof(chk,E1,E2,k,nosq=None,lab=''):
    name=f'verify_proof = Proof::verify<{E1},{E2}>[k={k}{lab}]'; fn='recursion::VerificationCircuit::verify_proof / verify_inner_product'
    def th():
        t=time.time(); bad=[]; it=None
        try:
            # native verifier on an arbitrary proof
            it,st,pr,D,P,C=mk(chk,E2,k,'IIL',True,False); pr.ipa='inline'; pr.nosq=nosq; G=pr.G; bk,g_,rows,ks,_=record(it,D,P,C); old,ous=old_any(pr); vals={f:G.base(f) for f in PTS}; vals.update({f:D.var(f) for f in SCS})
            rounds=[pr.struct('InnerProductRound',L=Agg('Vec',[G.base(f'L{i}_{j}') for j in range(5)]),R=Agg('Vec',[G.base(f'R{i}_{j}') for j in range(5)]),l=Agg('Vec',[D.var(f'l{i}_{j}') for j in range(5)]),r=Agg('Vec',[D.var(f'r{i}_{j}') for j in range(5)])) for i in range(k)]
            ip=pr.struct('MultiPolynomialOpening',rounds=Agg('Vec',rounds),a=Agg('Vec',[D.var(f'a{j}') for j in range(5)]),g=G.base('g_ip'))
            proof=pr.struct('Proof',inner_product=ip,**vals); inputs=[D.var(f'in{j}') for j in range(len(ks)-1)]; K=G.base('K')
            outs=verify(it,st,pr,proof,old,inputs,some(K))
            if it.panics: raise Bad('Proof::verify panics '+str(it.panics[0][:3]))
            acc=[(s2,v) for s2,v in outs if v.v==0 and val(it,s2,v.f[0].f[0])!=0]
            if len(acc)!=1: raise MirError(f'{len(acc)} accepting outcomes of Proof::verify')
            s2,v=acc[0]; ok,left,dfd,fk=v.f[0].f
            cond={a for a,x in s2.assume.items() if it.ctx.atoms[a].kind in('geq','feq') and x==1}|{a for m in it.sub_assume(s2,ok).p for a in m}
            NT=None
        except Bad as e: raise MirError(str(e))
        try:
            vc=VC(chk,E1,E2,k,pr); vc.stubs={'equal_unless_base_case','num_equal_unless_base_case','witness_bits_from_fe'}; st=State(); st.ghost=dict(st.ghost); vc.sel={}
            fs=it.mir.struct_fields('Deferred'); sl,n=fieldslices(pr,k,fs,lambda f:(128 if f in W128 else 256,k if f.startswith('challenges') else None))
            lf=('s_new_commitment','y_new','g_new','challenges_sq_packed_new'); 
            if tuple(it.mir.struct_fields('Leftovers'))!=lf: raise MirError('fields of Leftovers')
            ln=512+128+512+128*k; lsl=dict(s_new_commitment=(0,512),y_new=(512,128),g_new=(640,512),ch=[(1152+128*i,128) for i in range(k)])
            nd=[vc.abit(('nd',i)) for i in range(n)]; nl=[vc.abit(('nl',i)) for i in range(ln)]; ol=[vc.abit(('ol',i)) for i in range(ln)]
            for f in fs:
                if f in W128: continue
                a,w=sl[f]; vc.scal[tuple(('nd',i) for i in range(a,a+w))]=pr.get('Deferred',dfd,f)
            rp=vc.rproof(proof=proof,oldproof1=old,oldproof2=Opq('o2'),deferred=Opq('d'),payload=Agg('Vec',[])); base=vc.abit(('base',))
            cir=vc.circuit(params=it.alloc(st,vc.params()),base_case=some(CI(0,'bool')),proof=some(it.alloc(st,rp)),inner_circuit=it.alloc(st,Agg('Inner',())),new_payload=vec_ref(it,st,[]),forkvalues=some(vec_ref(it,st,list(dr(it,s2,fk).f))))
            outs=it.invoke(st,F0,vpath(E1,E2,'verify_proof'),[it.alloc(st,cir),Agg('Rec',()),base,it.alloc(st,CP(K)),vec_ref(it,st,ol),vec_ref(it,st,nd),vec_ref(it,st,nl)],[('ref',OT),REC,OT,('ref',OT)]+[slc(('path','AllocatedBit',()))]*3)
            if it.panics: raise Bad('panics '+str(it.panics[0][:3]))
            if len(outs)!=1 or is_err(outs[0][1]): raise Bad(f'{len(outs)} outcomes / error')
            st=outs[0][0]; ev=st.ghost['ev']
            circuit_conditions(vc,pr,st,ev,bad,cond,left,dfd,old,sl,lsl,k,NT)
        except Bad as e: bad.append(str(e))
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',time.time()-t,'; '.join(bad[:4]),bound='number of rounds listed (5 claims); all proofs, records, challenges'); chk.absorb(it)
    chk.attempt(name,fn,th)
def circuit_conditions(vc,pr,st,ev,bad,cond,left,dfd,old,sl,lsl,k,NT):
    it=pr.it; G=pr.G; D=pr.D; base=('base',)
    # the group equations
    got=set(); nums=[e for e in ev if e[0]=='eqnum']; pairs={}
    for e in nums:
        if e[1]!=base: bad.append('an equality is relaxed by another flag')
        a,b=vc.pts.get(pkey(e[2].p)),vc.pts.get(pkey(e[3].p))
        if not a or not b or a[0]!=b[0]: raise MirError('equality between things that are not coordinates')
        ks=(G.key(vc.canon(a[1])),G.key(vc.canon(b[1]))); pairs.setdefault(tuple(sorted(map(str,ks))),(set(),a[1],b[1]))[0].add(a[0])
    for xs,a,b in pairs.values():
        if xs!={'x','y'}: bad.append('only one coordinate is compared')
        e=G.eqz(State(),a.add(b,-1))
        if e.const is None: got|={a_ for m in e.p for a_ in m}
        elif e.const==0: bad.append('an equality that never holds')
    desc=lambda a: it.ctx.atoms[a]
    # native field conditions  v_j = a_j b_j  are the same as  [v_j] G = [a_j b_j] G
    conv=set()
    for a in cond:
        A=desc(a)
        if A.kind=='feq': e=G.eqz(State(),G.base('G').mul(FE(D,A.d[1]))); conv|={x for m in e.p for x in m}
        else: conv.add(a)
    if conv-got: bad.append(f'{len(conv-got)} of {len(conv)} equations of the native verifier are not enforced')
    if got-conv: bad.append(f'{len(got-conv)} equations are enforced that the native verifier does not demand')
    # bit equalities
    Y=lambda T: pr.chal(('sq',T)); toks={}
    eq=set()
    for e in ev:
        if e[0]!='eqbits': continue
        if e[1]!=base: bad.append('an equality is relaxed by another flag')
        if len(e[2])!=len(e[3]): raise MirError('lengths')
        a,b=e[2],e[3]
        if b[0][0] not in('nd','nl','ol'): a,b=b,a
        if b[0][0] not in('nd','nl','ol') : raise MirError('equality of computed bits')
        if [x[1] for x in b]!=list(range(b[0][1],b[0][1]+len(b))) or {x[0] for x in b}!={b[0][0]}: raise MirError('scattered bits')
        eq.add((b[0][0],b[0][1],len(b),vname(vc,pr,a)))
    pt=lambda P,c:('xy',c,G.key(vc.canon(G.gp(P)))); ch=lambda f: ('ch',pr.fkey(f)); L=lambda r,f: pr.get('Leftovers',r,f); want=set()
    for w,r in(('ol',old),('nl',left)):
        for f,o in(('s_new_commitment',0),('g_new',640)):
            want|={(w,o,256,pt(L(r,f),'x')),(w,o+256,256,pt(L(r,f),'y'))}
    want.add(('nl',512,128,ch(L(left,'y_new'))))
    us=L(left,'challenges_sq_packed_new').f
    for i in range(k): want.add(('nl',1152+128*i,128,ch(us[i]))); a,w=sl['challenges_sq_packed_new'][i]; want.add(('nd',a,w,ch(us[i])))
    for f in('x','y_cur','y_new'): a,w=sl[f]; want.add(('nd',a,w,ch(pr.get('Deferred',dfd,f))))
    show=lambda e: f'{dict(nd="new deferred",nl="new leftovers",ol="old leftovers")[e[0]]} bits {e[1]}..{e[1]+e[2]}'
    for e in sorted(want-eq,key=str)[:3]: bad.append(show(e)+' are not bound to the value the native verifier derives')
    for e in sorted(eq-want,key=str)[:3]: bad.append(show(e)+' are bound to something else')
    # each witnessed point once
    ws=[e[1] for e in ev if e[0]=='witness']; 
    dup={w for w in ws if ws.count(w)>1}
    for w in dup:
        n=max([0]+[sum(1 for e in ev if e[0]=='eqbits' and any(vname(vc,pr,x)==('xy',c,w) for x in e[2:4])) for c in 'xy'])
        if n>=ws.count(w) or any(e[0]=='eqnum' and pkey(e[2].p)==pkey(e[3].p) for e in ev): 
            if not bad: raise MirError('a point is witnessed twice')
        else: bad.append('a point is witnessed twice and the two are not tied together')
def vname(vc,pr,l):
    if len(l)==128:
        c=vc.chalof(list(l))
        if c is not None: return ('ch',pr.fkey(c))
    if len(l)==256 and l[0][0]=='ubit' and isinstance(l[0][1],tuple) and l[0][1][0]=='coord' and list(l)==[('ubit',l[0][1],i) for i in range(256)]: return ('xy',l[0][1][1],l[0][1][2])
    return ('?',)+tuple(map(str,l[:2]))

REFT=lambda t: ('ref',t)
def lebits(bs): return [(b>>i)&1 for b in bs for i in range(8)]
def synth_run(chk,E1,E2,k,npay,mode,basep,rnd):
    """mode: none, base, step"""
    vc=VC(chk,E1,E2,k); it=vc.it; st=State(); st.ghost=dict(st.ghost); vc.stubs={'equal_unless_base_case','verify_deferred','verify_proof'}; vc.wit=mode!='none'; vc.basep=basep
    nl=(1024+128*(k+1))//8; nd=(3072+128*(4+2*k))//8; R=lambda n:[rnd.randrange(256) for _ in range(n)]
    names=dict(lo=R(nl),ln=R(nl),d=R(nd),po=R(nl),pd=R(nd)); vc.bytes=dict(names); vc.bytes[('dummy',k)]=R(nd)
    tot=len(basep)+2*8*nl+8*nd+9; gens=[vc.G.base(f'G{i}') for i in range(tot)]
    for i,g in enumerate(gens): vc.xy[vc.G.key(g)]=v=(vc.DF.var(f'GX{i}'),vc.DF.var(f'GY{i}')); vc.pts[pkey(v[0].p)]=('x',g); vc.pts[pkey(v[1].p)]=('y',g)
    par=vc.pr.struct('Params',g=Opq('g'),d=CI(1<<k,'usize'),n=CI(1<<(k-2),'usize'),k=CI(k,'usize'),generators=Agg('Vec',[]),generators_xy=Agg('Vec',[Agg('tuple',vc.xy[vc.G.key(g)]) for g in gens]))
    pay=R(npay); ppay=R(len(basep)//8); kw=dict(params=it.alloc(st,par),inner_circuit=it.alloc(st,Agg('Inner',())),new_payload=vec_ref(it,st,[CI(b,'u8') for b in pay]))
    if mode!='none':
        kw.update(base_case=some(CI(int(mode=='base'),'bool')),old_leftovers=some(Opq('lo')),new_leftovers=some(Opq('ln')),deferred=some(Opq('d')))
        if mode=='step': kw['proof']=some(it.alloc(st,vc.rproof(proof=Opq('p'),oldproof1=Opq('po'),oldproof2=Opq('p2'),deferred=Opq('pd'),payload=Agg('Vec',[CI(b,'u8') for b in ppay]))))
    cs=it.alloc(st,Agg('Rec',()))
    outs=it.invoke(st,F0,f'<recursion::VerificationCircuit<{E1}, {E2}, Inner> as circuits::Circuit<{vc.F}>>::synthesize::<Rec>',[it.alloc(st,vc.circuit(**kw)),cs],[('ref',OT),REFT(REC)])
    if it.panics: raise Bad('panics '+str(it.panics[0][:3]))
    if len(outs)!=1 or is_err(outs[0][1]): raise Bad(f'synthesis: {len(outs)} outcomes or an error')
    return vc,outs[0][0],outs[0][0].ghost['ev'],gens,dict(pay=pay,ppay=ppay,**names,dummy=vc.bytes[('dummy',k)])
def synth(chk,E1,E2,k,npay,nb):
    name=f'synthesize<{E1},{E2}>[k={k}, {npay} payload bytes, {nb} base bits]'; fn='recursion::VerificationCircuit::synthesize'
    def th():
        t=time.time(); bad=[]; rnd=random.Random(k*100+npay); basep=[rnd.randrange(2) for _ in range(nb)]; vc=None
        try:
            vc,st,ev,gens,by=synth_run(chk,E1,E2,k,npay,'none',basep,rnd); nl=1024+128*(k+1); nd=3072+128*(4+2*k)
            ins=[e[1] for e in ev if e[0]=='input']; n=8*npay; 
            if len(ins)!=n+2*nl+nd: raise Bad(f'{len(ins)} public inputs instead of {n+2*nl+nd}')
            first=next((i for i,e in enumerate(ev) if e[0] not in('input',)),0)
            if first<len(ins): bad.append('something is allocated among the public inputs')
            P,LO,LN,DF=ins[:n],ins[n:n+nl],ins[n+nl:n+2*nl],ins[n+2*nl:]
            chkd=[e[1] for e in ev if e[0]=='check']; miss=[l for l in ins if l not in set(chkd)]
            if miss: bad.append(f'{len(miss)} public inputs are not constrained to be boolean (first: {ins.index(miss[0])})')
            al=[e[1] for e in ev if e[0]=='alloc']
            if len(al)!=1+nb+nl+nd: raise Bad(f'{len(al)} private bits instead of {1+nb+nl+nd}')
            vp=[e for e in ev if e[0]=='verify_proof']; vd=[e for e in ev if e[0]=='verify_deferred']; inn=[e for e in ev if e[0]=='inner']
            if len(vp)!=1 or len(vd)!=1 or len(inn)!=1: raise Bad('the previous proof, its deferred work or the inner circuit is not checked exactly once')
            _,base,K,pol,d_,ln_=vp[0]; od=vd[0][1]; op=list(inn[0][1])
            if list(d_)!=DF: bad.append('verify_proof gets other deferred bits')
            if list(ln_)!=LN: bad.append('verify_proof gets other new leftovers')
            if list(inn[0][2])!=P: bad.append('the inner circuit gets another new payload')
            ol=list(pol); od=list(od)
            if sorted([base]+op+ol+od)!=sorted(al) or len({base,*op,*ol,*od})!=len(al): bad.append('private bits are used in two roles')
            if len(op)!=nb or len(ol)!=nl or len(od)!=nd: bad.append('sizes of the previous records')
            want=gens[1]; terms={gens_key(vc,gens[1]):{():1}}
            for l,g in zip(op+ol+LO+od,gens[2:]):
                if l in vc.sel: (a,),=[tuple(m) for m in vc.sel[l].p]; terms[gens_key(vc,g)]={(a,):1}
                else: bad.append('an input bit of the previous proof does not enter its input commitment'); break
            if {b:pkey(c) for b,c in K.d.items()}!={b:pkey(c) for b,c in terms.items()} and not bad: bad.append('the input commitment is not that of payload, leftovers, leftovers, deferred of the previous proof')
            eq={(e[1],)+tuple(sorted((e[2],e[3]))) for e in ev if e[0]=='eqbits'}
            for w,a,b in(('old challenges',DF[2048:2048+128*k],ol[1152:]),('y_old',DF[128:256],ol[512:640])):
                if (base,)+tuple(sorted((tuple(a),tuple(b)))) not in eq: bad.append(f'{w} of the deferred record are not tied to the previous leftovers')
            if len(eq)>2: bad.append('an equality is enforced that need not hold')
            basecase(vc,ev,base,op,basep,bad)
            strip=lambda ev: [e[:2] if e[0] in('input','alloc') else e if e[0] not in('zero','gate') else (e[0],) for e in ev if e[0] not in('verify_proof',)]
            ref=strip(ev)
            for mode in('base','step'):
                v2,s2,e2,g2,by=synth_run(chk,E1,E2,k,npay,mode,basep,rnd)
                if strip(e2)!=ref: bad.append(f'{mode}: another constraint system than without a witness')
                val2={e[1]:e[2].const for e in e2 if e[0] in('input','alloc')}
                exp=dict(zip(P+LO+LN+DF,lebits(by['pay']+by['lo']+by['ln']+by['d']))); exp[base]=int(mode=='base')
                exp.update(zip(op,basep if mode=='base' else lebits(by['ppay'])))
                if mode=='step': exp.update(zip(ol,lebits(by['po']))); exp.update(zip(od,lebits(by['pd'])))
                else: exp.update(zip(od,lebits(by['dummy'])))
                w=[l for l in exp if val2.get(l)!=exp[l]]
                if w: bad.append(f'{mode}: {len(w)} bits are assigned other values, first {w[0]}')
                for i,e in enumerate(e2):
                    if e[0]=='gate' and not (v2.val[e[1]]*v2.val[e[2]]-v2.val[e[3]]).iszero(): bad.append(f'{mode}: honest assignment violates a gate')
                    if e[0]=='zero' and not zeval(v2,e[1]).iszero(): bad.append(f'{mode}: honest assignment violates a constraint')
                chk.absorb(v2.it)
        except Bad as e: bad.append(str(e))
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv',time.time()-t,'; '.join(dict.fromkeys(bad)),bound='sizes listed; without a witness: all values; with a witness: random record bytes'); vc and chk.absorb(vc.it)
    chk.attempt(name,fn,th)
def gens_key(vc,g): (b,)=g.d; return b
def zeval(vc,terms):
    r=vc.DF.const(0)
    for c,v in terms: r=r+(vc.DF.const((0,1,-1)[c[0]]) if c[0]<3 else FE(vc.DF,dict(c[1])))*vc.val[v]
    return r
def basecase(vc,ev,base,op,basep,bad):
    """every gate with its defining linear constraints reads (old payload bit - base bit) * base = 0"""
    env={}; D=vc.DF; var={vc.val[i].p and next(iter(vc.val[i].p))[0]:i for i in vc.val if vc.vars[i][0]=='mul'}
    for e in ev:
        if e[0]=='zero':
            r=zeval(vc,e[1]); ms=[a for m in r.p for a in m if a in var and a not in env]
            if len(ms)!=1: raise MirError('constraint of another shape')
            a=ms[0]; k=pow(r.p[(a,)],-1,D.P); env[a]=D.red(pscale({m:c for m,c in r.p.items() if m!=(a,)},-k))
    bit={vc.vars[i]:vc.val[i] for i in vc.val if vc.vars[i][0] in('in','bit')}; got=set()
    for e in ev:
        if e[0]=='gate':
            p=D.subst((vc.val[e[1]]*vc.val[e[2]]-vc.val[e[3]]).p,env)
            if p: got.add(pkey(D.monic(p)))
    want={pkey(D.monic(((bit[l]-D.const(b))*bit[base]).p)) for l,b in zip(op,basep)}
    if want-got: bad.append(f'{len(want-got)} bits of the base payload are not enforced in the base case')
    if got-want: bad.append('a constraint that need not hold')
# ---------------- the helpers over the constraint-system contract
from checks.c14 import anum,comb,denote,pow_rules
ABT=('path','AllocatedBit',())
def selfv(it,st,k=4):
    d=dict(_marker=UNIT,base_case=NONE,proof=NONE,forkvalues=NONE,old_leftovers=NONE,new_leftovers=NONE,deferred=NONE,inner_circuit=Agg('Inner',()),new_payload=vec_ref(it,st,[]),
        params=it.alloc(st,Agg('Params',[CI(k,'usize') if f=='k' else CI(1<<k,'usize') if f=='d' else CI(1<<(k-2),'usize') if f=='n' else Opq(f) for f in it.mir.struct_fields('Params')])))
    f=it.mir.struct_fields('VerificationCircuit')
    if set(f)!=set(d): raise MirError(f'fields of VerificationCircuit: {f}')
    return it.alloc(st,Agg('VerificationCircuit',[d[x] for x in f]))
def gcall(g,E1,E2,m,args,argts,more=''):
    st=g.st; return g.run(f'recursion::VerificationCircuit::<{E1}, {E2}, Inner>::{m}::<{more}Rec>',[selfv(g.it,st),Agg('Rec',())]+args,[('ref',OT),REC]+argts,st)
def gob(chk,name,m,F,build,check,bound=None):
    """build(g)->(outs,inputs); check(g,st,v,sys,inputs,bad,unk); the constraints must not depend on the presence of a witness"""
    fn='recursion::VerificationCircuit::'+m
    def th():
        t=time.time(); bad=[]; unk=[]; wit=[]; g=mkgad(chk,F); pow_rules(g.D); sys=None
        try: outs,inp=build(g)
        except Bad as e: chk.ob(name,fn,fw.REFUTED,'mirv-poly + elimination',time.time()-t,str(e),bound=bound or ''); chk.absorb(g.it); return
        if not outs: bad.append('no outcome')
        if g.it.panics: bad.append('panics '+str(g.it.panics[0][:3]))
        shapes=set()
        for st,r in outs:
            if is_err(r): bad.append('synthesis of an honest witness fails'); continue
            sys=st.ghost['cs']; shapes.add(sys.shape(g.D)); check(g,st,r.f[0],sys,inp,bad,unk,wit)
        if len(shapes)>1: bad.append('constraints depend on the witness')
        if not bad and shapes:
            g2=mkgad(chk,F); pow_rules(g2.D); g2.witness=False; g2.force_eval=True; outs2,_=build(g2)
            for st,r in outs2:
                if is_err(r): bad.append('synthesis without a witness fails')
                elif st.ghost['cs'].shape(g2.D)!=next(iter(shapes)): bad.append('constraints differ without a witness')
            chk.absorb(g2.it)
        chk.ob(name,fn,fw.REFUTED if bad else fw.UNKNOWN if unk else fw.BOUNDED if bound else fw.PROVED,'mirv-poly + elimination',time.time()-t,'; '.join(dict.fromkeys(map(str,(bad or unk)[:4]))),**(dict(bound=bound) if bound else {}))
        chk.absorb(g.it)
    chk.attempt(name,fn,th)
def outspec(want,rel=None):
    """the single number returned is want(inputs), honestly and for every satisfying assignment"""
    def check(g,st,v,sys,inp,bad,unk,wit):
        h=[x for x,_ in sys.vars]; l,val=denote(g,st,v); hb=g.honest_bad(sys,st); w=want(g,inp)
        if hb: bad.append('honest assignment violates '+hb[0][0]); return
        if g.simp(st,g.ev(l,h)-w): bad.append('honest value differs from the specification')
        if val is None or g.simp(st,val-g.ev(l,h)): bad.append('reported value differs from the value in the system')
        ok,c=g.entails(sys,lambda vals:[g.ev(l,vals)-w])
        if ok is False: bad.append('constraints admit a wrong output')
        elif ok is None: unk.append(c)
    return check
def helpers(chk,E1,E2):
    F=CURVES[E1][1]; RB=REFT(ABT); AN=('path','AllocatedNum',(tp(F),)); CB=('path','Combination',(tp(F),)); tag=f'<{E1},{E2}>'
    # compute_b: prod (u_i^-1 + u_i x^(2^(n-1-i))), over any values standing for u and u^-1
    for n in range(1,6 if chk.thorough else 5):
        def build(g,n=n):
            x,xv=anum(g,g.st,'x'); us=[anum(g,g.st,f'u{i}') for i in range(n)]; vs=[anum(g,g.st,f'v{i}') for i in range(n)]
            return gcall(g,E1,E2,'compute_b',[x,vec_ref(g.it,g.st,[a for a,_ in us]),vec_ref(g.it,g.st,[a for a,_ in vs])],[AN,slc(AN),slc(AN)]),(xv,[u for _,u in us],[v for _,v in vs])
        def want(g,i,n=n):
            w=g.D.const(1)
            for j in range(n): w=w*(i[2][j]+i[1][j]*FE(g.D,g.D.pw(i[0].p,1<<(n-1-j))))
            return w
        gob(chk,f'compute_b{tag}[{n} rounds]','compute_b',F,build,outspec(want),'number of rounds listed; all values')
    for n in(1,2,128,256):
        def build(g,n=n):
            bs=[g.abit(g.st,f'b{i}') for i in range(n)]
            return gcall(g,E1,E2,'obtain_scalar_from_bits',[vec_ref(g.it,g.st,[b for b,_ in bs])],[slc(ABT)]),[b for _,b in bs]
        def want(g,i):
            r=g.D.const(0)
            for j,b in enumerate(i): r=r+b*g.D.const(1<<j)
            return r
        gob(chk,f'obtain_scalar_from_bits{tag}[{n} bits]','obtain_scalar_from_bits',F,build,outspec(want),'bit lengths listed (the two the circuit uses and two short ones); all bits')
    # equality unless the base case
    for ka,kb in((('a1',),('a1',)),(('aF','R'),('r','a-')),(('a1','cF'),('R',)),(('r',),('a1','R'))):
        def build(g,ka=ka,kb=kb):
            b,bv=g.abit(g.st,'base'); x,xv=comb(g,g.st,ka,'x'); y,yv=comb(g,g.st,kb,'y')
            return gcall(g,E1,E2,'num_equal_unless_base_case',[b,g.it.alloc(g.st,x),g.it.alloc(g.st,y)],[ABT,REFT(CB),REFT(CB)]),(bv,xv,yv)
        def check(g,st,v,sys,inp,bad,unk,wit):
            b,x,y=inp; goal=(g.D.const(1)-b)*(x-y)
            for n_,p in g.honest_bad(sys,st):
                if pkey(g.D.monic(g.D.red(p)))!=pkey(g.D.monic(goal.p)): bad.append('a constraint fails although it is the base case or the two are equal: '+n_)
            ok,c=g.entails(sys,lambda vals:[goal])
            if ok is False: bad.append('unequal numbers are accepted outside the base case')
            elif ok is None: unk.append(c)
        gob(chk,f'num_equal_unless_base_case{tag}[{",".join(ka)} ~ {",".join(kb)}]','num_equal_unless_base_case',F,build,check)
    for n in(0,1,3,128,249,250,251,256,501)+((768,1000) if chk.thorough else ()):
        def build(g,n=n):
            b,bv=g.abit(g.st,'base'); l=[g.abit(g.st,f'l{i}') for i in range(n)]; r=[g.abit(g.st,f'r{i}') for i in range(n)]
            return gcall(g,E1,E2,'equal_unless_base_case',[b,vec_ref(g.it,g.st,[x for x,_ in l]),vec_ref(g.it,g.st,[x for x,_ in r])],[ABT,slc(ABT),slc(ABT)]),(bv,[x for _,x in l],[x for _,x in r])
        gob(chk,f'equal_unless_base_case{tag}[{n} bits]','equal_unless_base_case',F,build,packed,'lengths listed; all bits')
    # bits of a value: any bytes
    def build(g):
        bits=[g.bit_atom(f'e{i}') for i in range(256)]; g.ebits=bits
        def con(it,st,fr,q,args,argts):
            if q[4]=='to_bytes' and isinstance(dr(it,st,args[0]),Opq):
                by=[]
                for j in range(32):
                    p={}
                    for i in range(8): p=padd(p,bits[8*j+i].p,1<<i)
                    by.append(I(p,0,255,'u8'))
                it.used_contracts.add('to_bytes'); return [(st,Agg('array',by))]
            return None
        g.it.contracts.insert(0,con)
        return gcall(g,E1,E2,'witness_bits_from_fe',[Opq('fe')],[tp(F)],F+', '),[FE(g.D,dict(b.p)) for b in bits]
    def check(g,st,v,sys,inp,bad,unk,wit):
        bs=v.f; h=[x for x,_ in sys.vars]; hb=g.honest_bad(sys,st)
        if len(bs)!=256: bad.append(f'{len(bs)} bits'); return
        if hb: bad.append('honest assignment violates '+hb[0][0]); return
        ls=[g.bool_lc(st,b) for b in bs]
        for j,((l,o),w) in enumerate(zip(ls,inp)):
            if g.simp(st,g.ev(l,h)-w): bad.append(f'bit {j} is assigned another value')
            if o.v!=1 or FE(g.D,padd(o.f[0].p,w.p,-1)).p: bad.append(f'bit {j}: reported value')
        if len({i for l,_ in ls for _,i in l})!=256: bad.append('two bits share a variable')
        for j,(l,_) in enumerate(ls):
            ok,c=bitgoal(g,sys,l)
            if ok is False: bad.append(f'bit {j} is not constrained to be boolean')
            elif ok is None: unk.append(c)
    gob(chk,f'witness_bits_from_fe{tag}','witness_bits_from_fe',F,build,check)
    # the scalar of a challenge
    def build(g):
        bs=[g.abit(g.st,f'b{i}') for i in range(128)]; named(g.D)
        return gcall(g,E1,E2,'get_challenge_scalar',[vec_ref(g.it,g.st,[b for b,_ in bs])],[slc(ABT)]),[b for _,b in bs]
    def check(g,st,v,sys,inp,bad,unk,wit):
        recurrence(g,st,v,sys,inp,zeta(chk,F),bad,unk)
    gob(chk,f'get_challenge_scalar{tag}','get_challenge_scalar',F,build,check)
def bitgoal(g,sys,l):
    """b(b-1)=0 follows: only the constraints mentioning the bit are considered"""
    (c,i),=l; gs=[x for x in sys.gates if i in x]; cone={i}
    for _ in range(3):
        cone|={v for lc in sys.lcs if any(v in cone for _,v in lc) for _,v in lc if v}; cone|={v for x in sys.gates if set(x)&cone for v in x}
    sub=sys.with_(gates=tuple(x for x in sys.gates if set(x)<=cone),lcs=tuple(lc for lc in sys.lcs if {v for _,v in lc}<=cone|{0}))
    return g.entails(sub,lambda vals:[vals[i]*vals[i]-vals[i]])
def packed(g,st,v,sys,inp,bad,unk,wit):
    """every gate reads (1-base) sum c_i (l_i - r_i) = 0 with distinct powers of two c_i whose sum stays below the modulus: for bits this is
    equality of each pair outside the base case, and nothing in the base case; every pair occurs"""
    b,L,R=inp; D=g.D; vals,un=g.unknowns(sys); av=set(un); env={}
    for l in sys.lcs:
        e=D.subst(g.ev(l,vals).p,env) if env else g.ev(l,vals).p; ms=[m for m in e if len(m)==1 and m[0] in av and m[0] not in env]
        if not ms:
            if e: bad.append('a constraint on the inputs themselves')
            continue
        m=ms[0]; k=pow(e[m],-1,D.P); rhs=D.red(pscale({x:c for x,c in e.items() if x!=m},-k)); env={a:D.subst(q,{m[0]:rhs}) for a,q in env.items()}; env[m[0]]=rhs
    seen=set(); at=lambda fe: next(iter(fe.p))[0]; la={at(x):i for i,x in enumerate(L)}; ra={at(x):i for i,x in enumerate(R)}; ba=at(b)
    for i,j,k in sys.gates:
        p=D.subst((vals[i]*vals[j]-vals[k]).p,env); p=D.red(p)
        if any(a in av for m in p for a in m): raise MirError('unconstrained wire')
        lin={m[0]:c for m,c in p.items() if len(m)==1}; co={}
        for a,c in lin.items():
            if a in la: co.setdefault(la[a],[0,0])[0]=c
            elif a in ra: co.setdefault(ra[a],[0,0])[1]=c
            else: raise MirError('gate of another shape')
        diff=D.const(0)
        for n,(c,d) in co.items():
            if (c+d)%D.P: bad.append(f'bit {n} is compared with something else'); return
            diff=diff+(L[n]-R[n])*D.const(c)
        if FE(D,padd(p,((D.const(1)-b)*diff).p,-1)).p and D.red(padd(p,((D.const(1)-b)*diff).p,-1)): bad.append('a gate that is not the comparison outside the base case'); return
        if not co: continue
        base=min(co.items(),key=lambda kv:kv[0])[1][0]; best=None
        for s in {c for c,_ in co.values()}|{D.P-c for c,_ in co.values()}:      # the smallest coefficient of the packing
            iv=pow(s,-1,D.P); cs=[c*iv%D.P for c,_ in co.values()]
            if len(set(cs))==len(cs) and all(c&(c-1)==0 for c in cs) and sum(cs)<D.P: best=s; break
        if best is None: bad.append('the packing is not injective on bits'); return
        seen|=set(co)
    if seen!=set(range(len(L))): bad.append(f'{len(L)-len(seen)} bits are not compared (first: {min(set(range(len(L)))-seen)})')
def recurrence(g,st,v,sys,inp,z,bad,unk):
    """acc=3; acc=2acc+1-2 s_i, times BETA if e_i: followed step by step through the recorded constraints.  Claim at every step: the accumulator
    polynomial over the unknown products equals (2 acc' + 1 - 2 s)(1 + (BETA-1) e)"""
    D=g.D; D.mul=D.mul0; l,val=denote(g,st,v); h=[x for x,_ in sys.vars]
    sgn,end=[inp[2*i] for i in range(1,64)],[inp[2*i+1] for i in range(1,64)]
    # soundness: introduce names for the accumulators, A_i = (2 A_(i-1) + 1 - 2 s_i)(1+(BETA-1) e_i); every gate output is the turn (A_i - (2A_(i-1)+1-2s_i))
    vals,un=g.unknowns(sys); A=[D.const(3)]; av=set(un)
    for s,e in zip(sgn,end): A.append(D.var(f'A{len(A)}'))
    pre=[A[i]*D.const(2)+D.const(1)-sgn[i]*D.const(2) for i in range(63)]
    step={pkey(D.monic((pre[i]*end[i]).p)):i for i in range(63)}
    gates=list(sys.gates); todo=[g.ev(x,vals).p for x in sys.lcs]
    known={}                                                        # wire -> polynomial over inputs and A's (degree one in A)
    sub=lambda p: {a:known[a] for m in p for a in m if a in known}
    prog=True; gl=set(range(len(gates))); tl=set(range(len(todo)))
    while prog:
        prog=False
        for n in sorted(tl):
            p=D.red(D.subst(todo[n],sub(todo[n])))
            u=[m for m in p if any(a in av for a in m)]
            if not u:
                tl.discard(n); prog=True
                if p: unk.append('an extra constraint'); 
                continue
            if len(u)==1 and len(u[0])==1:
                k=pow(p[u[0]],-1,D.P); known[u[0][0]]=D.red(pscale({m:c for m,c in p.items() if m!=u[0]},-k)); tl.discard(n); prog=True
        for n in sorted(gl):
            i,j,k=gates[n]; kp=[D.red(D.subst(vals[x].p,sub(vals[x].p))) for x in(i,j,k)]
            if any(a in av for p in kp[:2] for m in p for a in m): continue
            w=prod=D.mul(kp[0],kp[1]); i_=step.get(pkey(D.monic(prod))) if prod else None
            if i_ is not None: mm=max(prod); k_=prod[mm]*pow((pre[i_]*end[i_]).p[mm]*(z-1),-1,D.P); w=((A[i_+1]-pre[i_])*D.const(k_)).p
            at=next((m[0] for m in kp[2] if len(m)==1 and m[0] in av),None)
            if at is None:
                if D.red(padd(w,kp[2],-1)): unk.append('an extra gate'); 
            else: known[at]=D.red(w)
            gl.discard(n); prog=True
    r=D.red(D.subst(g.ev(l,vals).p,known))
    dif=D.red(padd(r,A[63].p,-1))
    if dif:
        rng=random.Random(6); off=False
        for _ in range(6):
            en={next(iter(b.p))[0]:rng.randrange(2) for b in inp}
            for j in range(63): en[next(iter(A[j+1].p))[0]]=evalp(D,pre[j].p,en)*(z if evalp(D,end[j].p,en) else 1)%D.P
            off|=any(a in av for m in dif for a in m) or evalp(D,dif,en)!=0
        if off: bad.append('the number returned is not the scalar the recurrence defines')
        else: unk.append('number returned')
    # completeness: the products named in the honest values are the same on both sides
    nm=D.names; D.mul=D.mulN
    want=D.const(3)
    for s,e in zip(sgn,end): q=want*D.const(2)+D.const(1)-s*D.const(2); want=q+(e*D.const(z-1))*q
    hv=g.ev(l,h); res=[(h[i]*h[j]-h[k]).p for i,j,k in sys.gates]+[g.ev(x,h).p for x in sys.lcs]; out=[(hv-want).p,(val-hv).p]; D.mul=D.mul0
    if any(res) or any(out):
        rng=random.Random(5)
        for _ in range(6):
            en={next(iter(b.p))[0]:rng.randrange(2) for b in inp}
            for a,(p,q) in nm.items(): en[a]=evalp(D,p,en)*evalp(D,q,en)%D.P
            if any(evalp(D,p,en) for p in res): bad.append('honest assignment violates a constraint'); return
            if any(evalp(D,p,en) for p in out): bad.append('honest value differs from the recurrence'); return
        unk.append('honest values not decided')
def named(D):
    """products of two non-constant values get a name (the same for the same factors), so that chains of them stay small"""
    D.mul0=D.mul; D.names={}; memo={}
    def mul(a,b):
        a,b=D.red(a),D.red(b)
        if not a or not b or set(a)=={()} or set(b)=={()}: return D.mul0(a,b)
        ka,kb=a[max(a)],b[max(b)]; a1,b1=(D.red(pscale(x,pow(k,-1,D.P))) for x,k in((a,ka),(b,kb))); key=tuple(sorted((pkey(a1),pkey(b1))))
        if key not in memo:
            x=D.var(f't{len(memo)}'); memo[key]=next(iter(x.p)); D.names[memo[key][0]]=(a1,b1)
        return D.red({memo[key]:ka*kb})
    D.mul=D.mulN=mul
def evalp(D,p,en):
    r=0
    for m,c in p.items():
        for a in m: c=c*en[a]
        r+=c
    return r%D.P
class _PR:
    """what `residual` (C21) needs"""
    def __init__(s,D,k): s.D=D; s.k=k; s.n=1<<(k-2); s.d=1<<k; s.ch={}
    def fkey(s,f): return pkey(f.p)
def vdeferred(chk,E1,E2,k):
    """the constraints of verify_deferred hold exactly when the record satisfies the seven equations of Deferred::verify (C21), the square roots of
    its challenges being any roots; scalars and challenge scalars by their contracts above"""
    from checks.c21 import residual,canon
    F=CURVES[E1][1]; name=f'verify_deferred = Deferred::verify<{E1},{E2}>[k={k}]'; m='verify_deferred'; fs=None
    def build(g):
        D=g.D; st=g.st; it=g.it; pr=g.pr=_PR(D,k); fs=it.mir.struct_fields('Deferred'); pos=0; g.kw={}; g.us={}; tab={}
        for f in fs:
            w=128 if f in W128 else 256
            if f.startswith('challenges'):
                l=[]
                for i in range(k):
                    u=D.var(f'{f[15:]}{i}',nz=True); l.append(u); pr.ch[('scalar',pkey(u.p))]=u; tab[(pos,w)]=('c',u); pos+=w
                g.us[f]=l
            else: x=D.var(f,nz=f in('x','y_cur')); g.kw[f]=x; tab[(pos,w)]=('s',x); pos+=w
        g.bad=[]; memo={}
        def rng(it,st,a):
            bs=dr(it,st,a).f; b0=[b.const for b in (dr(it,st,x).f[0] for x in bs)]
            if b0!=list(range(b0[0],b0[0]+len(b0))): raise Bad('scattered bits')
            return b0[0],len(b0)
        def con(it,st,fr,q,args,argts):
            mm=q[4]
            if mm in('obtain_scalar_from_bits','get_challenge_scalar'):
                r=rng(it,st,args[2]); t=tab.get(r)
                if t is None or (t[0]=='c')!=(mm=='get_challenge_scalar'): raise Bad(f'bits {r[0]}..{sum(r)} of the record are read as something they are not')
                v=t[1] if t[0]=='s' else t[1]*t[1]; it.used_contracts.add('VerificationCircuit::'+mm); return [(st,Agg('Result',(anum(g,st,'',v)[0],),0))]
            if mm=='sqrt' and name_of(q)[0]=='AllocatedNum':
                a=dr(it,st,args[0]); x=g.st and st.ghost['cs'].vars[g.vi(g.get(a,'AllocatedNum','var'))][0]
                u=next((u for t,u in tab.values() if t=='c' and not D.red(((u*u)-x).p)),None)
                if u is None: raise MirError('square root of something that is no challenge')
                it.used_contracts.add('AllocatedNum::sqrt'); return [(st,Agg('Result',(anum(g,st,'',u)[0],),0))]
            return None
        g.it.contracts.insert(0,con); bits=[Agg('DBit',(CI(i,'usize'),)) for i in range(pos)]
        s=selfv(it,st,k); return g.run(f'recursion::VerificationCircuit::<{E1}, {E2}, Inner>::{m}::<Rec>',[s,Agg('Rec',()),vec_ref(it,st,bits)],[('ref',OT),REC,slc(ABT)],st),()
    def check(g,st,v,sys,inp,bad,unk,wit):
        D=g.D; eq=residual(g.pr,g.kw,g.us); want={canon(g.pr,e.p):e for e in eq}; got={}
        for n,p in g.honest_bad(sys,st): got[canon(g.pr,p)]=n
        x=set(got)-set(want)
        if x: bad.append(f'{len(x)} constraints fail although the record is right ('+got[next(iter(x))]+')')
        for i,(kx,e) in enumerate(want.items()):
            # each equation is forced: the wires of the honest computation are determined by the constraints that hold identically
            pass
        miss=[e for kx,e in want.items() if kx not in got]
        if miss: bad.append(f'{len(miss)} of the {len(want)} equations are not enforced'); return
        r=forced(g,sys,st,got,canon)
        if r is False: bad.append('constraints admit a wrong record')
        elif r is None: unk.append('wires')
    gob(chk,name,m,F,build,check,'parameter size listed; all field values and challenges')
def forced(g,sys,st,got,canon):
    """every wire is forced to its honest polynomial: walk the constraints, each may define one new wire (output of a gate, single unknown of a
    linear constraint, or a factor of a gate whose other factor is non-zero); the residual constraints are then the equations themselves"""
    D=g.D; h=[x for x,_ in sys.vars]; known={i for i,(v,k) in enumerate(sys.vars) if k in('one','given')}; todo=[('g',x) for x in sys.gates]+[('l',tuple((c,v) for c,v in x)) for x in sys.lcs]; prog=True; left=[]
    ok=lambda p: not g.simp(st,p)
    while prog:
        prog=False; rest=[]
        for t,x in todo:
            if t=='g':
                i,j,k=x; u={v for v in x if v not in known}
                if not u: prog=True; continue
                if u=={k} and ok(h[i]*h[j]-h[k]): known.add(k); prog=True; continue
                if len(u)==1 and u!={k} and i!=j:
                    w=i if j==next(iter(u)) else j
                    if ok(h[i]*h[j]-h[k]) and D.nonzero(st,h[w].p): known|=u; prog=True; continue
            else:
                u={v for _,v in x if v not in known}
                if not u: prog=True; continue
                if len(u)==1 and ok(g.ev(x,h)): known|=u; prog=True; continue
            rest.append((t,x))
        todo=rest
    un=set(range(len(h)))-known
    return True if not un else None

def run():
    chk=fw.Check('C22','other'); T=chk.thorough
    for E1,E2 in(('Ec1','Ec0'),('Ec0','Ec1')):
        for m in('verify_inner','verify'): native(chk,E1,E2,m)
        create(chk,E1,E2); helpers(chk,E1,E2)
        for k in(4,5)+((6,) if T else ()): vdeferred(chk,E1,E2,k)
        for k in(4,5) if T else (4,): vproof(chk,E1,E2,k)
        for b in('0','01','0011')+(('00010','1001') if T else ()): vproof(chk,E1,E2,4,nosq_pattern(b),', squares '+b)
        synth(chk,E1,E2,4,1,8)
        if T: synth(chk,E1,E2,5,3,24); synth(chk,E1,E2,4,0,0)
    from checks.conc6 import search_c22
    return chk.finish(lambda b=None: search_c22(b,(4,5) if T else (4,)))
