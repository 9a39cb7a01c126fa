"""Abstract group elements above C05: formal combinations  sum_i  c_i * B_i  of independent unknown points B_i with
coefficients in the scalar field (polynomials over the scalar FD).  Justified by C05 (group law) and C04 (order r)."""
from .dom import *
from checks.refc import CURVES
class GP(Dom):
    __slots__=('G','d')
    def __init__(s,G,d): s.G=G; s.d={k:v for k,v in d.items() if v}
    def __repr__(s): return 'GP('+' + '.join(f'[{s.G.D.show(v,3)}]{k}' for k,v in list(s.d.items())[:6])+')'
    def add(s,o,k=1):
        D=s.G.D; r=dict(s.d)
        for b,c in o.d.items(): r[b]=D.add(r.get(b,{}),c,k)
        return GP(s.G,r)
    def mul(s,fe): D=s.G.D; return GP(s.G,{b:D.mul(c,fe.p) for b,c in s.d.items()})
    def neg(s): return s.mul(s.G.D.const(-1))
    def select(s,ctx,w,a,b):
        G=s.G; a=G.gp(a); b=G.gp(b); D=G.D; d=a.add(b,-1)
        return b.add(GP(G,{k:D.red(ctx.pmul(w.p,c)) for k,c in d.d.items()}))
    def eq(s,it,st,b): return s.G.eqz(st,s.add(s.G.gp(b),-1))
    def field(s,i): raise MirError('representation of an abstract point is read')
    def same(s,o): return all(s.G.D.zero(v) for v in s.add(o,-1).d.values())
class GD:
    """group domain of curve E over scalar domain D"""
    def __init__(s,it,E,D):
        s.it=it; s.E=E; s.D=D; s.n=0; s.enc={}; s.xy={}; s.atoms={}
    def zero(s): return GP(s,{})
    def base(s,name): return GP(s,{name:{():1}})
    def gp(s,v,st=None):
        if isinstance(v,Ref): v=s.it.deref(st,v)
        if isinstance(v,GP):
            if v.G is not s: raise MirError('mixed groups')
            return v
        if isinstance(v,Agg) and v.k==s.E and len(v.f)==3:
            try: z=v.f[2]; z=z.const if isinstance(z,FE) else None
            except Exception: z=None
            if z==0: return s.zero()
            if isinstance(v.f[2],Agg) and all(x.const==0 for x in v.f[2].f[0].f): return s.zero()
        raise MirError(f'not an abstract point: {v}')
    def key(s,p): return tuple(sorted((b,pkey(c)) for b,c in p.d.items()))
    def eqz(s,st,p):
        """p is the identity, as boolean"""
        D=s.D; env=st.ghost.get('sub'); d={}
        for b,c in p.d.items():
            if env: c=D.subst(c,env)
            if st.assume: c=D.red(D.C.psub(c,st.assume))
            c=D.clear(c)
            if c: d[b]=c
        if not d: return TRUE()
        if s.eqhook:
            r=s.eqhook(st,d)
            if r is not None: return r
        # scale to a canonical representative (a non-zero constant factor does not matter)
        b0=min(d); m=max(d[b0]); k=pow(d[b0][m],-1,D.P)
        d={b:{x:c*k%D.P for x,c in p.items()} for b,p in d.items()}
        key=('geq',s.E,tuple(sorted((b,pkey(c)) for b,c in d.items())))
        if key not in s.atoms: s.atoms[key]=s.it.ctx.atom(f'geq{len(s.atoms)}',0,1,'geq',(s,d))
        return I({(s.atoms[key],):1},0,1,'bool')
    eqhook=None
    def bits(s,name,n=255):
        """a scalar given by its bits; to_bytes of it are these bits"""
        D=s.D; C=s.it.ctx; bs=[C.atom(f'{name}.{i}',0,1,'bit') for i in range(n)]
        p={(a,):1<<i for i,a in enumerate(bs)}
        fe=FE(D,D.red(dict(p)))
        by=[]
        for i in range(32):
            q={(bs[8*i+j],):1<<j for j in range(8) if 8*i+j<n}; by.append(I(q,0,sum(q.values()),'u8'))
        D.bytes[pkey(fe.p)]=(by,p,fe,{(bs[0],):1}); D.byteof[pkey(p)]=fe
        return fe
def gp_contract(G):
    E=G.E; D=G.D
    def con(it,st,fr,q,args,argts):
        ty,tr,m=name_of(q)
        if ty is not None and ty!=E and not(ty in CURVES or False):
            if not(tr in('Mul',) or ty==E): 
                pass
        if m in('add_assign','sub_assign') and args and isinstance(args[0],Ref) and args[0].pr and args[0].pr[-1][0]=='s':
            # bucket[k] += rhs for symbolic k: every candidate element is updated under the condition k==j
            r=args[0]; k,a=r.pr[-1][1:]; d=it.deref(st,args[1]) if isinstance(args[1],Ref) else args[1]
            el=[Ref(r.fid,r.loc,r.pr[:-1]+(('f',a+j),)) for j in range(k.lo,k.hi+1)]
            if isinstance(d,GP) and d.G is G:
                if m[0]=='s': d=d.neg()
                for j,x in zip(range(k.lo,k.hi+1),el):
                    w=it.ind(k,j); it.setref(st,x,G.gp(it.deref(st,x)).add(GP(G,{b:D.red(it.ctx.pmul(w.p,c)) for b,c in d.d.items()})))
                it.used_contracts.add(f'{E}::{m}'); return [(st,UNIT)]
        vs=[it.deref(st,a) if isinstance(a,Ref) else a for a in args]
        isg=any(isinstance(v,GP) and v.G is G for v in vs)
        one=lambda v:(it.used_contracts.add(f'{E}::{m}'),[(st,v)])[1]
        if not isg:
            if ty!=E: return None
            if m in('zero','default') and not args: return one(G.zero())
            if m=='one' and not args: return one(G.base('G'))
            if G.extra:
                return G.extra(G,it,st,fr,q,vs,args)
            return None
        if tr is not None and q[1][0] in('slice','array'): return None
        if m in('clone','conditional_assign','conditional_swap','conditional_negate','to_owned','borrow','deref','as_ref','push','insert','into','from','new','unwrap','swap','replace','fmt','into_iter','iter','next'): return None
        if ty is not None and ty!=E and tr is None: return None
        f=lambda i: G.gp(vs[i],st)
        if m in('add','sub') and len(vs)==2: return one(f(0).add(f(1),1 if m=='add' else -1))
        if m in('add_assign','sub_assign'):
            it.setref(st,args[0],f(0).add(f(1),1 if m=='add_assign' else -1)); return one(UNIT)
        if m=='neg': return one(f(0).neg())
        if m=='double': return one(f(0).add(f(0)))
        if m=='mul': return one(f(0).mul(D.fe(vs[1],st)))
        if m=='mul_assign': it.setref(st,args[0],f(0).mul(D.fe(vs[1],st))); return one(UNIT)
        if m=='is_zero': return one(choice(asu8(G.eqz(st,f(0)))))
        if m in('ct_eq','eq','ct_ne','ne'):
            e=G.eqz(st,f(0).add(f(1),-1))
            if m.endswith('ne'): e=it.ctx.bnot(e)
            return one(choice(asu8(e)) if m[:2]=='ct' else e)
        if m=='conditional_select':
            w=it.sub_assume(st,vs[2].f[0]); return one(f(0).select(it.ctx,w,f(1),f(0)))
        if G.extra: return G.extra(G,it,st,fr,q,vs,args)
        return None
    return con
GD.extra=None
ASSOC={('Ec0','Scalar'):('path','Fp',()),('Ec0','Base'):('path','Fq',()),('Ec1','Scalar'):('path','Fq',()),('Ec1','Base'):('path','Fp',())}
def gsetup(it,E,*fields):
    """abstract scalar field (and others) and abstract group for curve E; returns GD"""
    S=CURVES[E][1]; ds=setup(it,*([S]+[f for f in fields if f!=S]))
    it.assoc_tab=dict(ASSOC)
    G=GD(it,E,ds[0]); it.contracts.insert(0,gp_contract(G))
    return G
def tp(n): return ('path',n,())
def slc(t): return ('ref',('slice',t))
def vec_ref(it,st,items):
    """reference to a slice holding items"""
    r=it.alloc(st,Agg('Vec',items)); return Ref(r.fid,r.loc,(('sl',0,len(items)),))
