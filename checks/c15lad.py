"""C15, multiplication ladders: the real ladder code over point tokens.  A token is a point [k]P known only through opaque
coordinates; the elementary gadgets act on tokens through their contracts (proved in c15.py), everything else in the
ladder (selection, masking, witnesses, final constraints) is executed and its constraints are recorded."""
from checks.c15 import *
STUB={'double','add','add_incomplete','double_and_add_incomplete','conditional_neg','conditional_endo','add_conditionally','witness'}
class Lad(Ecc):
    def __init__(s,chk,E,flag,target,stubs=(),sound=False):
        """flag: W non-identity operand, O identity operand, G either"""
        s.E=E; s.B,s.S,s.b=CURVES[E]; g=s.g=Gad(chk.mir,s.B,s.S); g.it.contracts.insert(0,num_run_contract(g)); s.D=g.D; s.DS=g.Ds[s.S]; s.n=0
        s.G=GD(g.it,E,s.DS); g.it.contracts.insert(0,gp_contract(s.G)); g.it.contracts.insert(0,s.contract)
        g.it.assoc_tab.update({('Ec0','Base'):tp('Fq'),('Ec1','Base'):tp('Fp'),('Ec0','Scalar'):tp('Fp'),('Ec1','Scalar'):tp('Fq')})
        s.T=('path','CurvePoint',(tp(E),)); s.RT=REFT(s.T); s.flag=flag; s.stubs=STUB|set(stubs)-{target}; s.target=target; s.sound=sound
        s.tok={}; s.gp={}; s.bd={}; s.endo={}; s.bad=[]; s.calls=[]; s.order_=ORDER[s.S]; s.unit=None
    # --- tokens
    def token(s,p,bd):
        p=s.norm(p); k=s.G.key(p); bd=s.refine(p,bd)
        if not p.d: return s.D.const(0),s.D.const(0),s.D.const(1)
        if k not in s.tok:
            s.n+=1; n=s.n
            if s.flag=='O' and not s.sound: t=(s.D.const(0),s.D.const(0),s.D.const(1))
            else: t=(s.D.var(f'x{n}',nz=s.flag=='W'),s.D.var(f'y{n}',nz=s.flag=='W'),s.D.const(0) if s.flag=='W' else FE(s.D,dict(s.g.bit_atom(f'id{n}').p)))
            s.tok[k]=t; s.gp[(pkey(t[0].p),pkey(t[1].p))]=(p,t[2]); s.bd[k]=bd
        else: o=s.bd[k]; s.bd[k]=(max(o[0],bd[0]),min(o[1],bd[1]))
        return s.tok[k]
    def norm(s,p):
        """an expression with inverses that equals a known multiple"""
        if any(a in s.DS.inv for c in p.d.values() for m in c for a in m):
            for q,_ in s.gp.values():
                if p.same(q): return q
        return p
    def refine(s,p,bd):
        """bounds on |c| of an integer-linear coefficient over its bits"""
        if len(p.d)!=1: return bd
        (c,)=p.d.values(); lo=hi=0
        for m,v in c.items():
            v=v if v<s.order_//2 else v-s.order_
            if not all(s.D.C.atoms[a].lo==0 and s.D.C.atoms[a].hi==1 for a in m): return bd
            if m==(): lo+=v; hi+=v
            else: lo+=min(v,0); hi+=max(v,0)
        if hi-lo>=s.order_//2: return bd
        b=(lo,hi) if lo>0 else (-hi,-lo) if hi<0 else (0,max(-lo,hi))
        return max(b[0],bd[0]),min(b[1],bd[1])
    def bound(s,p): p=s.norm(p); return (0,0) if not p.d else s.bd[s.G.key(p)]
    def find(s,x,y,f,depth=0):
        """(group element, bounds) whose coordinates and flag are x, y, f"""
        D=s.D
        if not x.p and not y.p and (f is None or f.const==1): return s.G.zero(),(0,0)
        for sg in(1,-1):
            h=s.gp.get((pkey(x.p),pkey((y*sg).p)))
            if h and (f is None or not D.clear((f-h[1]).p)): return (h[0] if sg==1 else h[0].neg()),s.bound(h[0])
        if depth<8:
            at=sorted({a for e in(x,y)+((f,) if f else ()) for m in e.p for a in m if D.C.atoms[a].lo==0 and D.C.atoms[a].hi==1},reverse=True)
            for a in at:
                r=[s.find(*[FE(D,D.subst(e.p,{a:{():1} if v else {}})) if e is not None else None for e in(x,y,f)],depth+1) for v in(0,1)]
                if r[0] and r[1]:
                    p=r[0][0].add(r[1][0].add(r[0][0],-1).mul(FE(s.DS,{(a,):1}))); return p,(min(r[0][1][0],r[1][1][0]),max(r[0][1][1],r[1][1][1]))
        return None
    def recog(s,st,v):
        """the point a CurvePoint carries; records that its variables must have these coordinates"""
        g=s.g; v=g.it.deref(st,v) if isinstance(v,Ref) else v
        dn=s.denote(st,v); h=[x for x,_ in st.ghost['cs'].vars]; e=[FE(s.D,s.D.clear(g.ev(l,h).p)) for l,_ in dn]
        for n,((l,val),w) in enumerate(zip(dn,e)):
            if val is None: s.bad.append('value missing')
            elif g.simp(st,val-w): s.bad.append(f'a point\'s {"x y flag".split()[n]} is reported with another value than it has in the system: {s.D.show(g.simp(st,val-w),4)}')
        r=s.find(*e)
        if r is None:
            raise NotPoint('coordinates '+', '.join(s.D.show(x.p,6) for x in e)+' are not those of a known multiple of the operand')
        s.token(*r); st.ghost=dict(st.ghost); st.ghost['pts']=st.ghost.get('pts',())+((tuple(l for l,_ in dn),tuple(e),len(st.ghost['cs'].gates),len(st.ghost['cs'].lcs)),)
        return r
    def mk(s,st,p,bd,kind=None):
        g=s.g; t=s.token(p,bd) if p is not None else (None,)*3
        kind=kind or ('free' if s.flag=='O' and not s.sound else 'given')
        ids=[g.new(st,x,kind) for x in t]
        an=lambda i,v:Agg('Num',(Agg('Coeff',(),1),Agg('AllocatedNum',g.order('AllocatedNum',dict(value=some(v) if g.witness else NONE,var=g.V(i))))),1)
        bit=Agg('AllocatedBit',g.order('AllocatedBit',dict(value=some(I(dict(t[2].p),0,1,'bool')) if g.witness else NONE,var=g.V(ids[2]))))
        return Agg('CurvePoint',g.order('CurvePoint',dict(x=an(ids[0],t[0]),y=an(ids[1],t[1]),is_identity=Agg('Boolean',(bit,),0))))
    def bool(s,st,v):
        v=s.g.it.deref(st,v) if isinstance(v,Ref) else v
        l,b=s.g.bool_lc(st,v); b=optb(b)
        return s.g.it.sub_assume(st,b)
    def chain(s,b):
        """[zeta]^b for a boolean b"""
        if b.const is not None: return s.DS.const(ZETA[s.S] if b.const else 1)
        k=pkey(b.p)
        if k not in s.endo: s.endo[k]=s.DS.var(f'zeta^b{len(s.endo)}',nz=True)
        return s.endo[k]
    def distinct(s,what,a,b):
        """a, b are multiples of a non-identity point that are not equal or opposite: |a|,|b| bounds"""
        lo=max(a[0]-b[1],b[0]-a[1]); hi=a[1]+b[1]
        ok=lo>0 and (hi*hi<s.order_ if s.endo else hi<s.order_)
        if not ok and (lo>0 and hi*hi>=s.order_): ok=lo>0 and hi<s.order_
        if not ok: s.bad.append(f'{what}: operands may be equal or opposite (multiples between {lo} and {hi} of the point)')
    def contract(s,it,st,fr,q,args,argts):
        ty,tr,m=name_of(q); g=s.g
        if m=='b' and ty==s.E and not args: return None
        if m=='get_challenge_scalar' and len(args)==1:
            v=s.DS.fe(args[0],st); it.used_contracts.add('get_challenge_scalar (C09)'); return [(st,s.challenge(s.bits_of(v)))]
        if ty==s.E and m=='from_xy':
            x,y=[s.D.fe(it.deref(st,a) if isinstance(a,Ref) else a,st) for a in args]; r=s.find(x,y,None)
            if r is None: raise MirError('from_xy of unknown coordinates')
            it.used_contracts.add('from_xy (C07)'); return [(st,Agg('CtOption',(r[0],choice(CI(1,'u8')))))]
        if ty=='CurvePoint' and tr is None and m in s.stubs:
            it.used_contracts.add('CurvePoint::'+m)
            ok=lambda v:[(st,Agg('Result',(v,),0))]
            if not g.witness:
                return ok(s.mk(st,None,None))
            if m=='witness':
                outs=[]
                for s2,r in it.call_closure(st,args[1],[]):
                    if is_err(r): outs.append((s2,r)); continue
                    p=s.norm(s.G.gp(r.f[0],s2))
                    if s.sound: p=s.unit
                    r0=s.bound(p) if s.G.key(p) in s.bd else (1,1)
                    outs.append((s2,Agg('Result',(s.mk(s2,p,r0),),0)))
                return outs
            P,a=s.recog(st,args[0])
            if m in('multiply','multiply_fast','multiply_endo'):
                bits=s.bitvals(it,st,args[2]); k=s.scalar(m,bits)
                if m=='multiply_fast' and not(len(bits)>=1 and bits[-1].const==1): s.bad.append('multiply_fast called outside its domain')
                if m=='multiply_endo' and len(bits)!=128: s.bad.append('multiply_endo called outside its domain')
                R=P.mul(k); v=s.mk(st,R,(0,s.order_)); s.calls.append((R,v)); return ok(v)
            if m=='double': return ok(s.mk(st,P.add(P),(2*a[0],2*a[1])))
            if m=='conditional_neg':
                c=s.bool(st,args[2]); return ok(s.mk(st,P.mul(FE(s.DS,s.DS.red(padd({():1},c.p,-2)))),a))
            if m=='conditional_endo':
                c=s.bool(st,args[2]); return ok(s.mk(st,P.mul(s.chain(c)),a))
            Q,b=s.recog(st,args[2]); add=lambda x,y:(max(0,x[0]-y[1],y[0]-x[1]),x[1]+y[1])
            if m=='add': return ok(s.mk(st,P.add(Q),add(a,b)))
            if m=='add_conditionally': c=s.bool(st,args[3]); return ok(s.mk(st,P.add(Q.mul(FE(s.DS,s.DS.red(c.p)))),(max(0,a[0]-b[1]),a[1]+b[1])))
            if s.flag!='W' and s.flag!='O': s.bad.append(m+' used without knowing whether the operands are the identity')
            if m=='add_incomplete':
                if s.flag=='W': s.distinct(m,a,b)
                return ok(s.mk(st,P.add(Q),add(a,b)))
            if m=='double_and_add_incomplete':
                r=add(a,b)
                if s.flag=='W': s.distinct(m,a,b); s.distinct_sum(m,a,b)
                return ok(s.mk(st,P.add(Q).add(P),(max(0,2*a[0]-b[1]),2*a[1]+b[1])))
        return None
    def distinct_sum(s,m,a,b):
        """P+Q is neither P nor -P:  Q != 0 and 2P+Q != 0"""
        lo=2*a[0]-b[1]; hi=2*a[1]+b[1]; ok=b[0]>0 and lo>0 and (hi*hi<s.order_ if s.endo else hi<s.order_) and b[1]**2<s.order_
        if not ok: s.bad.append(f'{m}: P+Q may be equal or opposite to P (|2P+Q| between {lo} and {hi})')
    # --- scalars
    def mkbits(s,n,top=False):
        g=s.g; bs=[]; s.bv=[]
        for i in range(n):
            if top and i==n-1:
                j=g.invar(g.st,s.D.const(1)); bs.append(Agg('AllocatedBit',g.order('AllocatedBit',dict(value=some(CI(1,'bool')) if g.witness else NONE,var=g.V(j))))); s.bv.append(CI(1,'bool'))
            else:
                b=g.bit_atom(f'k{i}'); v,_=g.abit(g.st,b); bs.append(v); s.bv.append(b)
        return slice_of(g.it,g.st,bs)
    def bitvals(s,it,st,r):
        v=it.deref(st,r); v=v if isinstance(v,Agg) else it.deref(st,v)
        return [s.bool(st,x) for x in v.f]
    def bits_of(s,fe):
        want=s.integer(s.bv)
        if s.DS.red(padd(fe.p,want.p,-1)): raise MirError('challenge scalar of another value than the given bits')
        return s.bv
    def integer(s,bits):
        r=s.DS.const(0)
        for i,b in enumerate(bits): r=r+FE(s.DS,s.DS.red(pscale(b.p,1<<i)))
        return r
    def challenge(s,bits):
        acc=s.DS.const(3)
        for i in range(1,64): acc=(acc*2+FE(s.DS,s.DS.red(padd({():1},bits[2*i].p,-2))))*s.chain(bits[2*i+1])
        return acc
    def scalar(s,m,bits): return s.challenge(bits) if 'endo' in m else s.integer(bits)
class NotPoint(Exception): pass
ORDER={'Fp':PP,'Fq':QQ}; ZETA={}
def slice_of(it,st,items): r=it.alloc(st,Agg('Vec',items)); return Ref(r.fid,r.loc,(('sl',0,len(items)),))
def ladder(chk,E,m,n,flag):
    fn=M15+'CurvePoint::'+m; inv='inv' in m; name=f'CurvePoint::{m}<{E}>[{n} bits,{dict(W="point",O="identity",G="any point")[flag]}]'
    def build(sound,witness=True):
        X=Lad(chk,E,flag,m,('multiply','multiply_fast','multiply_endo') if inv else (),sound); g=X.g; g.witness=witness; g.force_eval=True
        bits=X.mkbits(n,top='fast' in m); B=X.G.base('Q' if inv else 'P'); X.unit=X.G.base('T')
        k=X.scalar(m,X.bv)
        if inv:
            X.DS.assume_nonzero(g.st,k.p)
            X.DS.assume_nonzero(g.st,X.DS.strip_nz(g.st,k.p))
        if sound: P=X.G.base('P')
        else: P=B.mul(k) if inv else B
        if flag=='O' and not sound: P=X.G.zero()
        one=(1,1)
        if sound and inv:
            fl=X.flag; X.flag=flag; t=(X.D.const(0),X.D.const(0),X.D.const(1)) if flag=='O' else (X.D.var('xP',nz=True),X.D.var('yP',nz=True),X.D.const(0))
            X.tok[X.G.key(P)]=t; X.gp[(pkey(t[0].p),pkey(t[1].p))]=(P,t[2]); X.bd[X.G.key(P)]=one; X.flag='G'
        if inv and not sound and flag=='W': X.token(B,one)
        p=X.mk(g.st,P,one if not inv else (1,X.order_-1),kind='given') if witness else X.mk(g.st,None,None)
        outs=g.run(X.name(m),[g.it.alloc(g.st,p),Agg('Rec',()),bits],[X.RT,REC,slc(('path','AllocatedBit',()))],g.st)
        return X,P,B,k,outs
    def th():
        t0=time.time(); bad=[]; unk=[]; wit=None
        X,P,B,k,outs=build(False); g=X.g; shape=None
        if not outs: bad.append('no outcome')
        if g.it.panics: bad.append('panics '+str(g.it.panics[0][:3]))
        want=B if inv else P.mul(k)
        if flag=='O': want=X.G.zero()
        for st,r in outs:
            if is_err(r): bad.append('honest synthesis returns an error'); continue
            sys=st.ghost['cs']; shape=sys.shape(g.D)
            hb=g.honest_bad(sys,st)
            if hb: bad.append('honest assignment violates '+hb[0][0]+' : '+g.D.show(hb[0][1],4)); continue
            n0=len(st.ghost.get('pts',()))
            try: R,_=X.recog(st,r.f[0])
            except NotPoint as e: bad.append('result: '+str(e)); continue
            if not R.same(want): bad.append('result is another multiple of the point: '+repr(R)[:200]); continue
            pts=st.ghost['pts']
            if not inv:
                z=X.D.const(0)
                todo=pts if flag!='O' else pts[n0:]
                g0=l0=0
                for lcs,e,ng,nl in todo:
                    goals=lambda vals,lcs=lcs,e=e:[g.ev(l,vals)-w for l,w in zip(lcs,e)]
                    sl=sys.with_(gates=sys.gates[g0:ng],lcs=sys.lcs[l0:nl]) if flag!='O' else sys
                    ok,w=g.entails(sl,goals)
                    if ok is not True: ok,w=g.entails(sys,goals)
                    if ok is False: bad.append('constraints admit a wrong point'); wit=wit or dict(how='dishonest assignment satisfying every constraint the ladder itself issues (constraints recorded from its MIR); variables numbered in allocation order',gadget=name,counterexample=w); break
                    if ok is None: unk.append(str(w)); break
                    # these variables now carry proved coordinates
                    vs=list(sys.vars)
                    for l,x in zip(lcs,e):
                        if len(l)==1 and l[0][0].const==1 and vs[l[0][1]][1] not in('one','given'): vs[l[0][1]]=(x,'given')
                    sys=sys.with_(vars=tuple(vs)); g0,l0=ng,nl
        bad+=X.bad[:2]
        if inv and not bad:
            Y,P2,_,k2,outs2=build(True); h=Y.g
            for st,r in outs2:
                if is_err(r): continue
                sys=st.ghost['cs']
                try: R,_=Y.recog(st,r.f[0])
                except NotPoint as e: bad.append('result: '+str(e)); continue
                if not R.same(Y.unit): bad.append('the result is not the witnessed point'); continue
                c=[v for p,v in Y.calls if p.same(Y.unit.mul(k2))]
                if not c: bad.append('the witnessed point is not multiplied back'); continue
                res=None
                self_=Y.tok[Y.G.key(P2)]
                for v in c:
                    dn=Y.denote(st,v); ok,w=h.entails(sys,lambda vals:[h.ev(l,vals)-x for (l,_),x in zip(dn[:2],self_[:2])])
                    if ok is True: res=True; break
                    res=res or (ok,w)
                if res is not True:
                    if res[0] is False: bad.append('constraints do not force [k]result to be the input point'); wit=dict(how='the recorded constraints leave the coordinates of [k]result and of the input independent',gadget=name,counterexample=res[1])
                    else: unk.append(str(res[1]))
            bad+=Y.bad[:2]; chk.absorb(h.it)
        if not bad and shape:
            Z,_,_,_,o3=build(False,False)
            for st,r in o3:
                if is_err(r): bad.append('synthesis without a witness fails'); continue
                c=st.ghost['cs'].shape(Z.D)
                if c[:2]!=shape[:2] or repr(c[2])!=repr(shape[2]): bad.append('constraints differ without a witness')
            chk.absorb(Z.g.it)
        chk.ob(name,fn,fw.REFUTED if bad else fw.UNKNOWN if unk else fw.PROVED,'mirv-ladder (contracts) + elimination',time.time()-t0,'; '.join((bad or unk)[:3]),witness=wit); chk.absorb(g.it)
    def th2():
        try: th()
        except NotPoint as e: chk.ob(name,fn,fw.REFUTED,'mirv-ladder (contracts)',0,'operand of a point gadget: '+str(e))
    chk.attempt(name,fn,th2)
def ladders_(chk,E,ns=(1,2,3,8,32,255,256),nf=(1,2,3,8,64,253),inv=(1,8,256)):
    ZETA[CURVES[E][1]]=beta_of(chk,CURVES[E][1])
    for n in ns: ladder(chk,E,'multiply',n,'G')
    for n in nf:
        for f in'WO': ladder(chk,E,'multiply_fast',n,f)
    for f in'WO': ladder(chk,E,'multiply_endo',128,f)
    for f in'WO':
        for n in inv:
            ladder(chk,E,'multiply_inv',n,f)
            if n<254: ladder(chk,E,'multiply_inv_fast',n,f)
        ladder(chk,E,'multiply_inv_endo',128,f)
def ladders(chk,E):
    big=(255,) if E=='Ec0' else (256,)
    if chk.tier=='thorough': ladders_(chk,E,tuple(range(1,40))+(64,96,127,128,129,191,192,193,252,253,254,255,256),tuple(range(1,254)),tuple(range(1,257,5))+(256,))
    else: ladders_(chk,E,(1,2,3,8,32)+big)
