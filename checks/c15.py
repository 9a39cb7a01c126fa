"""C15: curve-point gadgets (src/gadgets/ecc.rs)."""
from checks.c14 import *
from checks.refc import CURVES
M15='gadgets::ecc::'
class AP(Dom):
    """affine point: None for the identity, else (x,y); the contract of Curve operations on it is C05"""
    __slots__=('X','c')
    def __init__(s,X,c): s.X=X; s.c=c
    def __repr__(s): return 'AP(%r)'%(s.c,)
    def select(s,ctx,w,a,b):
        if isinstance(a,AP) and isinstance(b,AP) and a.c and b.c: return AP(a.X,tuple(p.select(ctx,w,p,q) for p,q in zip(a.c,b.c)))
        raise MergeFail('point')
    def eq(s,it,st,b): raise MirError('comparison of points')
    def field(s,i): raise MirError('representation of an abstract point is read')
class Ecc:
    """one gadget setting for curve E: recorder over the base field, affine points"""
    def __init__(s,chk,E):
        s.E=E; s.B,s.S,s.b=CURVES[E]; g=s.g=mkgad(chk,s.B); pow_rules(g.D); s.D=g.D; s.n=0; g.it.contracts.insert(0,s.contract)
        g.it.assoc_tab.update({('Ec0','Base'):tp('Fq'),('Ec1','Base'):tp('Fp'),('Ec0','Scalar'):tp('Fp'),('Ec1','Scalar'):tp('Fq')})
        s.T=('path','CurvePoint',(tp(E),)); s.RT=REFT(s.T); s.nz=[]
    def name(s,m,tail='Rec'): return f'{M15}CurvePoint::<{s.E}>::{m}'+(f'::<{tail}>' if tail else '')
    # --- points
    def coords(s):
        s.n+=1; x=s.D.var(f'x{s.n}',nz=True); y=s.D.var(f'y{s.n}',nz=True)
        s.D.rules[next(iter(y.p))[0]]=(2,(x*x*x+s.b).p); return x,y
    def away(s,x1):
        """second point with another x-coordinate"""
        s.n+=1; d=s.D.var(f'd{s.n}',nz=True); y=s.D.var(f'y{s.n}',nz=True); x=x1+d
        s.D.rules[next(iter(y.p))[0]]=(2,(x*x*x+s.b).p); return x,y
    def num(s,v): i=s.g.invar(s.g.st,v); return Agg('Num',(Agg('Coeff',(),1),Agg('AllocatedNum',s.g.order('AllocatedNum',dict(value=some(v) if s.g.witness else NONE,var=s.g.V(i))))),1)
    def point(s,kind,c):
        """kind: W/O allocated, C/I constant; c: affine coordinates or None"""
        g=s.g; z=s.D.const(0)
        if kind=='C': (_,v),=g.run(s.name('constant',None),list(c),[tp(s.B)]*2,g.st); return v
        if kind=='I': (_,v),=g.run(s.name('identity',None),[],[],g.st); return v
        x,y=c or (z,z); fl=int(c is None); i=None
        X=s.num(x); Y=s.num(y); i=g.invar(g.st,s.D.const(fl))
        bit=Agg('AllocatedBit',g.order('AllocatedBit',dict(value=some(CI(fl,'bool')) if g.witness else NONE,var=g.V(i))))
        return Agg('CurvePoint',g.order('CurvePoint',dict(x=X,y=Y,is_identity=Agg('Boolean',(bit,),0))))
    def denote(s,st,v):
        """[(lc, reported value FE or None)] for x, y, identity flag"""
        g=s.g; o=[denote(g,st,g.get(v,'CurvePoint',f)) for f in('x','y')]
        l,b=g.bool_lc(st,g.get(v,'CurvePoint','is_identity')); b=optb(b)
        return o+[(l,None if b is None else FE(g.D,g.D.red(g.it.sub_assume(st,b).p)))]
    def ap(s,v,st=None):
        if isinstance(v,Ref): v=s.g.it.deref(st,v)
        if isinstance(v,AP): return v
        raise MirError('not an affine point')
    # --- group law
    def gadd(s,P,Q,st=None):
        if P is None: return Q
        if Q is None: return P
        D=s.D; d=Q[0]-P[0]
        if s.zero(d,st):
            if s.zero(P[1]+Q[1],st): return None
            if not s.zero(P[1]-Q[1],st): raise MirError('sum of points not determined')
            l=P[0]*P[0]*3*(P[1]*2).inv()
        else:
            if not s.nonz(d,st): raise MirError('sum of points not determined')
            l=(Q[1]-P[1])*d.inv()
        x=l*l-P[0]-Q[0]; return x,l*(P[0]-x)-P[1]
    def zero(s,e,st=None): return not s.g.simp(st,e)
    def nonz(s,e,st=None):
        z=s.D.eqz(st or s.g.st,e.p); return z.const==0
    def contract(s,it,st,fr,q,args,argts):
        ty,tr,m=name_of(q)
        if m=='b' and ty==s.E and not args: return None
        vs=[it.deref(st,a) if isinstance(a,Ref) else a for a in args]
        one=lambda v:(it.used_contracts.add(f'{s.E}::{m}'),[(st,v)])[1]
        if ty==s.E and tr in('Curve',None):
            if m in('zero','default') and not args: return one(AP(s,None))
            if m=='from_xy':
                x,y=[s.D.fe(v,st) for v in vs]
                e=s.D.eqz(st,(y*y-x*x*x-s.b).p); e=it.sub_assume(st,e)
                if e.const==1: return one(Agg('CtOption',(AP(s,(x,y)),choice(CI(1,'u8')))))
                zx,zy=s.D.eqz(st,x.p),s.D.eqz(st,y.p)
                if zx.const==1 and zy.const==1: return one(Agg('CtOption',(AP(s,None),choice(CI(1,'u8')))))
                if e.const==0: return one(Agg('CtOption',(AP(s,None),choice(CI(0,'u8')))))
                raise MirError('curve membership not determined')
        if not any(isinstance(v,AP) for v in vs): return None
        if m in('clone','unwrap','new','map','and_then','ok_or','is_some','to_owned','borrow','deref','from','into'): return None
        if m=='get_xy':
            c=s.ap(vs[0]).c; z=s.D.const(0)
            return one(Agg('CtOption',(Agg('tuple',c or (z,z)),choice(CI(int(c is not None),'u8')))))
        if m=='is_zero': return one(choice(CI(int(s.ap(vs[0]).c is None),'u8')))
        if m=='add' and len(vs)==2: return one(AP(s,s.gadd(s.ap(vs[0]).c,s.ap(vs[1]).c,st)))
        if m=='neg': c=s.ap(vs[0]).c; return one(AP(s,c and (c[0],-c[1])))
        if m=='double': c=s.ap(vs[0]).c; return one(AP(s,s.gadd(c,c,st)))
        if m=='mul' and len(vs)==2 and s.mul: return one(s.mul(it,st,vs[0],vs[1]))
        return None
    mul=None
def flag(D,c): return D.const(int(c is None))
def xyf(X,c): z=X.D.const(0); return list(c or (z,z))+[flag(X.D,c)]
def point_ob(chk,E,name,m,build,rel=None,sound=True,flagspec=True,fn=None,nz=None,**kw):
    """build(X) -> (outs, spec) ; spec: affine coordinates of the result (None identity), or a function of (X,st); rel(X,g,vals,e): goals overriding"""
    fn=fn or M15+'CurvePoint::'+m
    def th():
        t=time.time(); X=Ecc(chk,E); g=X.g; outs,spec=build(X); bad=[]; unk=[]; wit=None; shapes=set(); sys=None
        if not outs: bad.append('no outcome')
        if g.it.panics: bad.append('panics '+str(g.it.panics[0][:3]))
        for st,r in outs:
            if is_err(r): bad.append('honest synthesis returns an error'); continue
            v=r.f[0]; sys=st.ghost['cs']; shapes.add(sys.shape(g.D)); h=[x for x,_ in sys.vars]
            hb=g.honest_bad(sys,st)
            if hb: bad.append('honest assignment violates '+hb[0][0]+' : '+g.D.show(hb[0][1],4)); continue
            dn=X.denote(st,v); sp=spec(X,st) if callable(spec) else spec
            want=xyf(X,sp) if not isinstance(sp,list) else sp
            for n,((l,val),w) in enumerate(zip(dn,want)):
                e=g.ev(l,h); d=g.simp(st,e-w) if w is not None else None
                if d: bad.append(f'output {"x y flag".split()[n]}: honest value differs from the group law by {g.D.show(d,4)}')
                if val is None: bad.append('value missing'); continue
                d=g.simp(st,val-e)
                if d: bad.append(f'output {"x y flag".split()[n]}: reported value differs from its value in the system by {g.D.show(d,4)}')
            if sound:
                def goals(vals):
                    e=[g.ev(l,vals) for l,_ in dn]
                    return rel(X,g,vals,e) if rel else [a-w for a,w in zip(e,want) if w is not None]
                ok,w=g.entails(sys,goals,nz=[z for z in X.nz])
                if ok is False: bad.append('constraints admit a wrong output'); wit=wit or dict(how='dishonest assignment satisfying every constraint the real code issues (constraints recorded from its MIR); variables numbered in allocation order',gadget=name,counterexample=w)
                elif ok is None: unk.append(str(w))
        if len(shapes)>1: bad.append('constraints depend on the witness')
        if not bad and shapes:
            X2=Ecc(chk,E); X2.g.witness=False; X2.g.force_eval=True; outs2,_=build(X2)
            for st,r in outs2:
                if is_err(r): bad.append('synthesis without a witness fails'); continue
                c=st.ghost['cs']
                if c.shape(X2.D)[:2]!=next(iter(shapes))[:2] or repr(c.shape(X2.D)[2])!=repr(next(iter(shapes))[2]): bad.append('constraints differ without a witness')
            chk.absorb(X2.g.it)
        chk.ob(name,fn,fw.REFUTED if bad else fw.UNKNOWN if unk else fw.PROVED,'mirv-poly + elimination',time.time()-t,'; '.join((bad or unk)[:3]),witness=wit); chk.absorb(g.it)
    chk.attempt(name,fn,th)
def pair(X,case):
    """(P point, its coordinates, Q point, its coordinates)"""
    kp,kq,rel=case; g=X.g
    P=None if kp in'OI' else X.coords()
    if kq in'OI': Q=None
    elif P is None: Q=X.coords()
    elif rel=='gen': Q=X.away(P[0])
    elif rel in('same','self'): Q=P
    else: Q=(P[0],-P[1])
    p=X.point(kp,P); return p,P,(p if rel=='self' else X.point(kq,Q)),Q
CASES=[(a,b,r) for a in'WC' for b in'WC' for r in('gen','same','neg')]+[('W','W','self')]+[(a,b,'') for a in'OI' for b in'WC']+[(a,b,'') for a in'WC' for b in'OI']+[(a,b,'') for a in'OI' for b in'OI']
CK_=('is','not','0','1')
def simple(chk,E):
    # witness
    for k in'WO':
        def wit(X,k=k):
            g=X.g; c=X.coords() if k=='W' else None
            f=lambda it,st,args:[(st,Agg('Result',(AP(X,c),),0) if g.witness else Agg('Result',(Agg('SynthesisError',(),0),),1))]
            return g.run(X.name('witness','Rec, Clo'),[Agg('Rec',()),f],[REC,('other','?')],g.st),c
        def wrel(X,g,vals,e): x,y,i=e; return [i*i-i,i*x,i*y,(1-i)*(y*y-x*x*x-X.b)]
        point_ob(chk,E,f'CurvePoint::witness<{E}>[{k}]','witness',wit,rel=wrel)
    def un(m,extra,spec,kinds='WOCI',tag='',**kw):
        for k in kinds:
            def b(X,k=k):
                g=X.g; P=None if k in'OI' else X.coords(); p=X.point(k,P); a,t,ex=extra(X)
                return g.run(X.name(m),[g.it.alloc(g.st,p),Agg('Rec',())]+a,[X.RT,REC]+t,g.st),spec(X,P,ex)
            point_ob(chk,E,f'CurvePoint::{m}<{E}>[{k}{tag}]',m,b,**kw)
    for ck in CK_:
        def cond(X,ck=ck): b,v=X.g.boolean(X.g.st,ck,'c'); return [X.g.it.alloc(X.g.st,b)],[REFT(BO)],v
        un('conditional_neg',cond,lambda X,P,c:P and (P[0],P[1]*(1-c*2)),tag=','+ck)
        un('conditional_endo',cond,lambda X,P,c:P and (P[0]*(c*(BETA[X.B]-1)+1),P[1]),tag=','+ck)
    no=lambda X:([],[],None)
    un('double',no,lambda X,P,_:X.gadd(P,P))
    def binop(m,cases,spec,extra=no,tag='',**kw):
        for c in cases:
            s_=kw.get('sound'); kw2=dict(kw)
            if callable(s_): kw2['sound']=s_(c)
            def b(X,c=c):
                g=X.g; p,P,q,Q=pair(X,c); a,t,ex=extra(X); rp=g.it.alloc(g.st,p); rq=rp if c[2]=='self' else g.it.alloc(g.st,q)
                sp=spec(X,P,Q,ex)
                return g.run(X.name(m),[rp,Agg('Rec',()),rq]+a,[X.RT,REC,X.RT]+t,g.st),sp
            point_ob(chk,E,f'CurvePoint::{m}<{E}>[{",".join(x for x in c if x)}{tag}]',m,b,**kw2)
    def sel(X,P,Q,c):
        """c ? Q : P in the representation"""
        a,b=xyf(X,P),xyf(X,Q); return [u+c*(w-u) for u,w in zip(a,b)]
    gen=[c for c in CASES if c[2]=='gen']; ids=[c for c in CASES if c[0] in'OI' and c[1] in'OI']
    binop('add_incomplete',gen+ids,lambda X,P,Q,_:X.gadd(P,Q),sound=lambda c:c[2]=='gen')
    binop('add',CASES,lambda X,P,Q,_:X.gadd(P,Q))
    def dai(X,P,Q,_):
        if P is None: return None
        R=X.gadd(P,Q); e=P[0]-R[0]; X.D.assume_nonzero(X.g.st,e.p); X.nz.append(X.D.monic(X.D.strip_nz(X.g.st,X.D.clear(e.p))))
        X.g.st.ghost['nz']=X.g.st.ghost.get('nz',())+(pkey(X.nz[-1]),)
        return X.gadd(P,R,X.g.st)
    binop('double_and_add_incomplete',gen+ids,dai,sound=lambda c:c[2]=='gen')
    for ck in CK_:
        def cond(X,ck=ck): b,v=X.g.boolean(X.g.st,ck,'c'); return [X.g.it.alloc(X.g.st,b)],[REFT(BO)],v
        binop('add_conditionally',CASES,lambda X,P,Q,c:sel(X,P,X.gadd(P,Q),c),extra=cond,tag=','+ck)
        binop('add_conditionally_incomplete',gen,lambda X,P,Q,c:sel(X,P,X.gadd(P,Q),c),extra=cond,tag=','+ck)
BETA={}
def beta_of(chk,F):
    it=Interp(chk.mir); st=State(); v=it.deref(st,it.const(st,F0,f'<{F} as Field>::BETA')); v=v.f[0] if v.k=='&const' else v
    return sum(x.const<<(64*i) for i,x in enumerate(v.f[0].f))*pow(R,-1,MOD[F])%MOD[F]
def run():
    chk=fw.Check('C15')
    for E in('Ec0','Ec1'):
        B=CURVES[E][0]
        BETA[B]=beta_of(chk,B)
        simple(chk,E)
        from checks.c15lad import ladders
        ladders(chk,E)
    from checks.conc4 import search_c15
    return chk.finish(search_c15)
