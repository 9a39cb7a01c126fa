"""Symbolic executor over the real crate's MIR.  Function calls are answered, in this order, by
 (1) contracts registered by the check, (2) models of std/dependency functions, (3) inlining the MIR body."""
import re, sys
from .parse import *
from .types import *
from .sym import *
sys.setrecursionlimit(20000)

class MergeFail(Exception): pass

class Agg:
    __slots__=('k','f','v')
    def __init__(s,k,f,v=0): s.k=k;s.f=tuple(f);s.v=v
    def __repr__(s): return f'{s.k}#{s.v}{list(s.f)}' if len(s.f)<6 else f'{s.k}#{s.v}[{len(s.f)}]'
class Ref:
    __slots__=('fid','loc','pr')
    def __init__(s,fid,loc,pr=()): s.fid=fid;s.loc=loc;s.pr=pr
    def __repr__(s): return f'&{s.fid}.{s.loc}{s.pr}'
    def __eq__(s,o): return isinstance(o,Ref) and (s.fid,s.loc,s.pr)==(o.fid,o.loc,o.pr)
    def __hash__(s): return hash((s.fid,s.loc,s.pr))
class Str:
    def __init__(s,t): s.t=t
    def __eq__(s,o): return isinstance(o,Str) and s.t==o.t
    def __hash__(s): return hash(s.t)
class FnItem:
    def __init__(s,t,env): s.t=t;s.env=env
    def __eq__(s,o): return isinstance(o,FnItem) and s.t==o.t
    def __hash__(s): return hash(s.t)
class It:
    """immutable iterator"""
    __slots__=('k','a')
    def __init__(s,k,*a): s.k=k;s.a=a
class Dom:
    """abstract domain value (field element, group element ...): subclasses implement select/eq/methods"""
class Run(Dom):
    """n consecutive elements of a sequence, kept opaque (n may be symbolic)"""
    def __init__(s,n,name): s.n=n; s.name=name
def has_run(v): return isinstance(v,Agg) and len(v.f)>0 and isinstance(v.f[0],Run)
UNIT=Agg('tuple',())
def some(x): return Agg('Option',(x,),1)
NONE=Agg('Option',(),0)
def choice(b): return Agg('Choice',(b,))

class State:
    __slots__=('mem','assume','pc','ghost')
    def __init__(s): s.mem={};s.assume={};s.pc=[];s.ghost={}
    def copy(s):
        n=State(); n.mem={k:dict(v) for k,v in s.mem.items()}; n.assume=dict(s.assume); n.pc=list(s.pc); n.ghost=dict(s.ghost); return n

class Frame:
    __slots__=('id','fn','env')
    def __init__(s,id,fn,env): s.id=id;s.fn=fn;s.env=env

class Interp:
    def __init__(s,mir,ctx=None):
        s.mir=mir; s.ctx=ctx or Ctx(); s.nfid=0; s.contracts=[]; s.merge=False
        s.panics=[]; s.steps=0; s.maxsteps=3_000_000; s.assoc_tab={}; s._fc={}; s._cenv={}
        s.inlined=set(); s.used_contracts=set(); s.used_models=set(); s.const_cache={}
        s.abstract_const=None; s.arith_obl=0; s.arith_smt=0; s.merge_fns=None; s.deadline=None
        s.dyn=None; s.stack=[]
    # ----- types
    def assoc(s,t,name):
        if t[0]=='path': 
            r=s.assoc_tab.get((t[1],name))
            if r is None and name=='Root' and t[1]=='Namespace' and t[2]: return s.assoc(t[2][-1],name)
            return r
        if t[0]=='ref' and name=='Root': return s.assoc(t[1],name)
        return None
    def T(s,t,fr):
        return subst(pt(t) if isinstance(t,str) else t,fr.env,s.assoc)
    # ----- memory
    def newframe(s,st,fn,env):
        s.nfid+=1; st.mem[s.nfid]={}; return Frame(s.nfid,fn,env)
    def alloc(s,st,v):
        """ghost cell; returns Ref"""
        s.nfid+=1; st.mem[s.nfid]={'_0':v}; return Ref(s.nfid,'_0')
    def resolve(s,st,fr,pl):
        fid,loc,pr=fr.id,pl.local,()
        for p in pl.proj:
            if p[0]=='deref':
                v=s.load(st,fid,loc,pr)
                if isinstance(v,Agg) and v.k=='Box': pr=pr+(('f',0),); continue
                if not isinstance(v,Ref): raise MirError(f'deref of non-ref {type(v).__name__} {v}')
                fid,loc,pr=v.fid,v.loc,v.pr
            elif p[0]=='field': pr=pr+(('f',p[1]),)
            elif p[0]=='down': pass
            elif p[0]=='index':
                k=s.load(st,fr.id,p[1],())
                c=k.const if isinstance(k,I) else None
                if c is None: pr=s.addsym(pr,k,len(s.load(st,fid,loc,pr).f)); continue
                pr=s.addidx(pr,c)
            elif p[0]=='cindex':
                if p[1]<0 or True:
                    pr=s.addidx(pr,p[1])
            elif p[0]=='sub': raise MirError('subslice place')
        return fid,loc,pr
    def addidx(s,pr,c):
        if pr and pr[-1][0]=='sl':
            a,b=pr[-1][1],pr[-1][2]
            if not (0<=c<b-a): raise MirError('index out of slice')
            return pr[:-1]+(('f',a+c),)
        return pr+(('f',c),)
    def addsym(s,pr,k,n):
        a=0
        if pr and pr[-1][0]=='sl': a=pr[-1][1]; pr=pr[:-1]
        if k.lo<0 or k.hi>=n: raise MirError('symbolic index not in range')
        return pr+(('s',k,a),)
    def ind(s,k,j):
        """[k==j] as polynomial boolean"""
        return s.ctx.bool_of('eq',padd(k.p,pconst(-j)))
    def load(s,st,fid,loc,pr):
        try: v=st.mem[fid][loc]
        except KeyError: raise MirError(f'uninitialised {fid}.{loc}')
        for p in pr:
            v=s.proj(v,p)
        return v
    def proj(s,v,p):
        if p[0]=='f':
            if not isinstance(v,Agg):
                if isinstance(v,Dom): return v.field(p[1])
                raise MirError(f'field of {type(v).__name__}')
            if v.k=='Box' : pass
            if p[1]>=len(v.f): raise MirError(f'field {p[1]} of {v}')
            return v.f[p[1]]
        if p[0]=='sl': return Agg('array',v.f[p[1]:p[2]])
        if p[0]=='s':
            k,a=p[1],p[2]; r=v.f[a+k.hi]
            for j in range(k.lo,k.hi): r=s.merge_val(s.ind(k,j),v.f[a+j],r)
            return r
        raise MirError(str(p))
    def store(s,st,fid,loc,pr,val):
        if not pr: st.mem[fid][loc]=val; return
        root=st.mem[fid].get(loc)
        st.mem[fid][loc]=s.upd(root,pr,val)
    def upd(s,v,pr,val):
        if not pr: return val
        p=pr[0]
        if p[0]=='sl':
            if not pr[1:]:
                f=list(v.f); f[p[1]:p[2]]=list(val.f); return Agg(v.k,f,v.v)
            raise MirError('store in slice')
        if p[0]=='s':
            k,a=p[1],p[2]; f=list(v.f)
            for j in range(k.lo,k.hi+1): f[a+j]=s.merge_val(s.ind(k,j),s.upd(f[a+j],pr[1:],val),f[a+j])
            return Agg(v.k,f,v.v)
        if v is None:
            raise MirError('store into uninit')
        if isinstance(v,Dom): return v.set_field(p[1],s.upd(v.field(p[1]),pr[1:],val))
        f=list(v.f)
        f[p[1]]=s.upd(f[p[1]],pr[1:],val)
        return Agg(v.k,f,v.v)
    def deref(s,st,v):
        while isinstance(v,Ref): v=s.load(st,v.fid,v.loc,v.pr)
        return v
    def deref1(s,st,v):
        return s.load(st,v.fid,v.loc,v.pr) if isinstance(v,Ref) else v
    def setref(s,st,r,val): s.store(st,r.fid,r.loc,r.pr,val)
    # ----- operands
    def operand(s,st,fr,op):
        if op[0]=='place':
            fid,loc,pr=s.resolve(st,fr,op[1]); return s.load(st,fid,loc,pr)
        return s.const(st,fr,op[1])
    def const(s,st,fr,c):
        if c=='true': return TRUE()
        if c=='false': return FALSE()
        if c=='()': return UNIT
        m=re.match(r'^(-?\d+)_(\w+)$',c)
        if m: return CI(int(m.group(1)),m.group(2))
        if c.startswith('"') or c.startswith('b"'): return Str(c)
        if re.match(r"^'.*'$",c): return Str(c)
        m=re.match(r'^(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)::(MAX|MIN|BITS)$',c) or re.match(r'^core::num::<impl (\w+)>::(MAX|MIN|BITS)$',c)
        if m:
            lo,hi=trange(m.group(1)); return CI(hi if m.group(2)=='MAX' else lo if m.group(2)=='MIN' else WID[m.group(1)],m.group(1) if m.group(2)!='BITS' else 'u32')
        if c.startswith('ZeroSized: '):
            t=c[11:]
            if t.startswith('{closure'): s.clo_env[t]=fr.env; return Agg(t,())
            return FnItem(t,dict(fr.env))
        m=re.match(r'^-?[\d.]+(?:e[+-]?\d+)?f64$',c) or re.match(r'^(-?[\d.]+(?:e[+-]?\d+)?)_f64$',c)
        if m: return float(c.replace('_f64','').replace('f64',''))
        f=s.find_const(c,fr)
        if f is not None:
            e=s._cenv.get((c,tuple(fr.env.items()),len(s.assoc_tab)))
            if e is not None: return s.eval_const(st,f,Frame(fr.id,fr.fn,e),(f.name,tuple(sorted(e.items()))))
            key=(f.name,tuple(sorted((k,v) for k,v in fr.env.items())) if '<impl' not in f.name or 'promoted' in f.name else ())
            return s.eval_const(st,f,fr,key)
        v=s.const_hook(st,fr,c)
        if v is not None: return v
        # enum unit variants etc
        mm=re.match(r'^(.*)::(None|Some)$',c)
        if mm: return NONE
        if c.startswith('<') or '::' in c: return FnItem(c,dict(fr.env))
        if c.split('::')[-1]=='RangeFull': return Agg('RangeFull',())
        raise MirError('const '+c)
    const_hooks=()
    def const_hook(s,st,fr,c):
        if c.startswith('<'):
            j=match_close(c,0); inner=c[1:j]; k=None
            from .types import _find_as
            k=_find_as(inner)
            if k is not None:
                t=s.T(inner[:k],fr); name=c[j+1:].lstrip(':')
                for h in s.const_hooks:
                    r=h(t,name)
                    if r is not None: return r
        return None
    def find_const(s,c,fr):
        k=(c,tuple(fr.env.items()),len(s.assoc_tab))
        try: return s._fc[k]
        except KeyError: pass
        r=s._fc[k]=s.find_const_(c,fr); return r
    def find_const_(s,c,fr):
        if c in s.mir.consts: return s.mir.consts[c]
        if c.startswith('<'):
            j=match_close(c,0); inner=c[1:j]; rest=c[j+1:].lstrip(':')
            from .types import _find_as
            k=_find_as(inner)
            if k is None: return None
            t=s.T(inner[:k],fr); tr=pt(inner[k+4:])[1]
            segs=split_path(rest)
            # impl const
            for n,f in s.mir.consts.items():
                if n.endswith('::'+'::'.join(segs)) and '<impl' in n:
                    h=s.mir.impl_header(n)
                    if h and h[0]=='trait' and h[1]==tr and h[2] and matches(pt(h[2]),t) and show(pt(re.sub(r"'\w+,? ?",'',h[2])))==show(t) : return f
            if len(segs)==1:
                cs_=[]
                for n,f in s.mir.consts.items():
                    if n.endswith('::'+segs[0]) and '<impl' in n:
                        h=s.mir.impl_header(n)
                        if h and h[0]=='trait' and h[1]==tr and h[2] and t[0] in('path','ref'):
                            hp=pt(re.sub(r"'\w+,? ?",'',h[2]))
                            if (hp[0]==t[0]=='ref' or hp[:2]==t[:2]) and matches(hp,t): cs_.append((f,hp))
                if len(cs_)==1:
                    e={}; unify(cs_[0][1],t,e); s._cenv[(c,tuple(fr.env.items()),len(s.assoc_tab))]=e
                    return cs_[0][0]
            if len(segs)>1 and segs[-1].startswith('promoted'):
                fn=s.lookup_trait(t,tr,None,segs[0],None,fr)
                cands=[n for n in s.mir.consts if n.endswith('::'+'::'.join(segs))]
                if fn and fn.name+'::'+'::'.join(segs[1:]) in s.mir.consts: return s.mir.consts[fn.name+'::'+'::'.join(segs[1:])]
                if len(cands)==1: return s.mir.consts[cands[0]]
            n2='::'+tr+'::'+'::'.join(segs)
            for n,f in s.mir.consts.items():
                if n.endswith(n2): return f
            return None
        segs=[x for x in split_path(c) if not x.startswith('<')]
        best=None
        for n,f in s.mir.consts.items():
            ns=[x for x in split_path(n)]
            if ns[-1]!=segs[-1] and not (segs[-1]==ns[-1]): continue
            # type-qualified promoted: Fp::from_raw::promoted[0]
            if '<impl' in n:
                h=s.mir.impl_header(n); 
                tail=ns[[i for i,x in enumerate(ns) if x.startswith('<impl')][0]+1:]
                if segs[-len(tail):]==tail and len(segs)>len(tail) and h and h[0]=='inherent' and pt(h[1])[1]==segs[-len(tail)-1]: return f
                continue
            k=min(len(ns),len(segs))
            if ns[-k:]==segs[-k:]:
                if k==len(ns) or k==len(segs):
                    if best is None or len(ns)>0: best=f
                    if len(segs)>=2 and len(ns)>=2 and ns[-2:]==segs[-2:]: return f
        return best
    def eval_const(s,st,f,fr,key):
        if f.raw is None:
            v=f.val
            return s.const(st,fr,v[6:] if v.startswith('const ') else v)
        if key in s.const_cache:
            v=s.const_cache[key]
        else:
            outs=s.exec_fn(st,f,[],dict(fr.env),keep=True)
            if len(outs)!=1: raise MirError('const eval')
            v=outs[0][1]
            # escape references out of the temporary frame
            v=s.deep_escape(outs[0][0],v)
            if s.abstract_const: v=s.abstract_const(f,v)
            s.const_cache[key]=v
        return s.materialise(st,v)
    def deep_escape(s,st,v):
        if isinstance(v,Ref): return Agg('&const',(s.deep_escape(st,s.deref1(st,v)),))
        if isinstance(v,Agg): return Agg(v.k,[s.deep_escape(st,x) for x in v.f],v.v)
        return v
    def materialise(s,st,v):
        if isinstance(v,Agg):
            if v.k=='&const': return s.alloc(st,s.materialise(st,v.f[0]))
            if any(isinstance(x,Agg) for x in v.f): return Agg(v.k,[s.materialise(st,x) for x in v.f],v.v)
        return v
    # ----- arithmetic
    def sub_assume(s,st,x):
        if st.assume and isinstance(x,I) and x.const is None and any(a in st.assume for m in x.p for a in m):
            p=s.ctx.psub(x.p,st.assume); return s.ctx.mk(p,x.lo,x.hi,x.ty)
        return x
    def binop(s,st,op,a,b):
        C=s.ctx
        if isinstance(a,float) or isinstance(b,float):
            return {'Add':lambda:a+b,'Sub':lambda:a-b,'Mul':lambda:a*b,'Div':lambda:a/b}[op]()
        if isinstance(a,Agg) and isinstance(b,Agg) and op in('Eq','Ne'):
            raise MirError('agg eq')
        if not isinstance(a,I) or not isinstance(b,I): raise MirError(f'binop {op} on {type(a).__name__}')
        a=s.sub_assume(st,a); b=s.sub_assume(st,b)
        ty=a.ty; ca,cb=a.const,b.const
        if op.endswith('WithOverflow') or op.endswith('Unchecked') or op in('Add','Sub','Mul'):
            base=op.replace('WithOverflow','').replace('Unchecked','')
            if base in('Shl','Shr'): return s.binop(st,base,a,b)
            if base=='Add': x=C.mk(padd(a.p,b.p),a.lo+b.lo,a.hi+b.hi,ty)
            elif base=='Sub': x=C.mk(padd(a.p,b.p,-1),a.lo-b.hi,a.hi-b.lo,ty)
            else:
                c=[a.lo*b.lo,a.lo*b.hi,a.hi*b.lo,a.hi*b.hi]; x=C.mk(C.pmul(a.p,b.p),min(c),max(c),ty)
            if ty=='nat': return x if not op.endswith('WithOverflow') else Agg('tuple',(x,FALSE()))
            lo,hi=trange(ty)
            if op.endswith('WithOverflow'):
                if lo<=x.lo and x.hi<=hi: return Agg('tuple',(x,FALSE()))
                ov=C.bor(C.bool_of('ge',padd(x.p,pconst(-hi-1))),C.bool_of('ge',padd(pconst(lo-1),x.p,-1)))
                if ov.const==1: return Agg('tuple',(CI(0,ty),TRUE()))
                # value is exact whenever the assert passes
                return Agg('tuple',(I(x.p,max(x.lo,lo),min(x.hi,hi),ty),ov))
            return C.wrap(x,ty)
        if op in('Eq','Ne','Lt','Le','Gt','Ge'):
            if ca is not None and cb is not None:
                r={'Eq':ca==cb,'Ne':ca!=cb,'Lt':ca<cb,'Le':ca<=cb,'Gt':ca>cb,'Ge':ca>=cb}[op]; return CI(int(r),'bool')
            d=padd(a.p,b.p,-1)
            if op in('Eq','Ne') and (ca in(0,1) or cb in(0,1)):
                x,c=(a,cb) if cb is not None else (b,ca)
                if x.lo>=0 and x.hi<=1:
                    e=I(x.p,0,1,'bool')
                    if (c==0)!=(op=='Ne'): e=C.bnot(e)
                    return e
            # intervals
            if op in('Eq','Ne'):
                if a.hi<b.lo or b.hi<a.lo: e=FALSE()
                elif ty=='bool': 
                    e=C.bnot(C.bxor(a,b))
                else: e=C.bool_of('eq',d)
                return e if op=='Eq' else C.bnot(e)
            if op in('Lt','Ge'):
                if a.hi<b.lo: g=FALSE()
                elif a.lo>=b.hi: g=TRUE()
                else: g=C.bool_of('ge',d)
                return g if op=='Ge' else C.bnot(g)
            if b.hi<a.lo: g=FALSE()
            elif b.lo>=a.hi: g=TRUE()
            else: g=C.bool_of('ge',pscale(d,-1))
            return g if op=='Le' else C.bnot(g)
        if C.bitmode and ty[0]=='u' and not(ca is not None and cb is not None) and op in('Shl','Shr','BitAnd','BitOr','BitXor'):
            if op in('Shl','Shr') and cb is not None or op[:3]=='Bit':
                r=C.bitop(op,a,b if op[:3]=='Bit' else CI(cb%WID[ty],'u32'),ty)
                if r is not None: return r
        if op in('Div','Rem'):
            if cb is None: raise MirError('symbolic divisor')
            if ca is not None:
                q=abs(ca)//abs(cb); q=q if (ca<0)==(cb<0) else -q
                return CI(q if op=='Div' else ca-q*cb,ty)
            if a.lo<0 or cb<=0: raise MirError('signed symbolic div')
            q,ql,qh=C.fdiv(a,cb)
            if op=='Div': return C.mk(q,ql,qh,ty)
            return C.mk(padd(a.p,q,-cb),0,cb-1,ty)
        if op in('Shl','Shr'):
            if cb is None: raise MirError('symbolic shift')
            w=WID[ty]; k=cb%w
            if op=='Shl': return C.wrap(I(pscale(a.p,1<<k),a.lo<<k,a.hi<<k,ty),ty)
            if ca is not None: return CI(ca>>k,ty)
            q,ql,qh=C.fdiv(a,1<<k); return C.mk(q,ql,qh,ty)
        if op in('BitAnd','BitOr','BitXor'):
            if ca is not None and cb is not None:
                r={'BitAnd':ca&cb,'BitOr':ca|cb,'BitXor':ca^cb}[op]; return CI(r,ty)
            if ty=='bool' :
                return {'BitAnd':C.band,'BitOr':C.bor,'BitXor':C.bxor}[op](a,b)
            if ca is not None: a,b,ca,cb=b,a,cb,ca
            f=s.bitbool(op,a,b)
            if f is not None: return f
            if cb is not None:
                if op=='BitAnd':
                    if cb==0: return CI(0,ty)
                    lowz=(cb & -cb).bit_length()-1
                    top=cb>>lowz
                    if top&(top+1)==0:
                        # contiguous mask
                        hi_bits=top.bit_length()+lowz
                        q,ql,qh=C.fdiv(a,1<<hi_bits); x=C.mk(padd(a.p,q,-(1<<hi_bits)),0,(1<<hi_bits)-1,ty)
                        if lowz:
                            q,ql,qh=C.fdiv(x,1<<lowz); x=C.mk(pscale(q,1<<lowz),0,cb,ty)
                        return x
                if cb==0 and op in('BitOr','BitXor'): return a
            if op=='BitAnd':
                # all-ones-or-zero mask times value
                full=trange(ty)[1]
                for x,y in((a,b),(b,a)):
                    w=s.is_mask(x,full)
                    if w is not None: return C.mk(C.pmul(w,y.p),0,y.hi,ty)
            if op in('BitOr','BitXor'):
                for x,y in((a,b),(b,a)):
                    g=s.trailing(x)
                    if y.hi< (1<<g) and y.lo>=0: return C.mk(padd(x.p,y.p),x.lo+y.lo,x.hi+y.hi,ty)
                r=s.bitmerge(st,op,a,b,ty)
                if r is not None: return r
            if op=='BitOr':
                key=('or',)+tuple(sorted((pkey(a.p),pkey(b.p))))
                if key not in C.memo:
                    t=C.atom(f'or{len(C.atoms)}',0,(1<<max(a.hi.bit_length(),b.hi.bit_length()))-1,'or',(a.p,b.p)); C.memo[key]=t
                    o={(t,):1}
                    C.facts.append(('ge',padd(o,a.p,-1)));C.facts.append(('ge',padd(o,b.p,-1)));C.facts.append(('ge',padd(padd(a.p,b.p),o,-1)))
                t=C.memo[key]; return I({(t,):1},0,C.atoms[t].hi,ty)
            raise MirError(f'{op} on symbolic operands {s.ctx.show(a)} ;; {s.ctx.show(b)}')
        raise MirError('binop '+op)
    def is_mask(s,x,full):
        """x in {0,full} as full*w: returns poly w"""
        if x.p and all(c%full==0 for c in x.p.values()):
            w={m:c//full for m,c in x.p.items()}
            if all(s.isbool(a) for m in w for a in m) and s.multilin01(w): return w
        return None
    def isbool(s,a): 
        A=s.ctx.atoms[a]; return A.lo==0 and A.hi==1
    def multilin01(s,w):
        sup=sorted({a for m in w for a in m})
        if len(sup)>8: return False
        import itertools
        for v in itertools.product((0,1),repeat=len(sup)):
            if s.ctx.evalp(w,dict(zip(sup,v))) not in(0,1): return False
        return True
    def bitbool(s,op,a,b):
        sup=sorted({x for p in(a.p,b.p) for m in p for x in m})
        if len(sup)>6 or not all(s.isbool(x) for x in sup): return None
        import itertools
        f={'BitAnd':lambda x,y:x&y,'BitOr':lambda x,y:x|y,'BitXor':lambda x,y:x^y}[op]
        vals={}
        for v in itertools.product((0,1),repeat=len(sup)):
            e=dict(zip(sup,v)); vals[v]=f(s.ctx.evalp(a.p,e),s.ctx.evalp(b.p,e))
        # moebius
        p={}
        n=len(sup)
        for v in itertools.product((0,1),repeat=n):
            c=0
            for u in itertools.product((0,1),repeat=n):
                if all(x<=y for x,y in zip(u,v)): c+=(-1)**(sum(v)-sum(u))*vals[u]
            if c: p[tuple(x for x,k in zip(sup,v) if k)]=c
        return s.ctx.mk(p,min(vals.values()),max(vals.values()),a.ty)
    def trailing(s,x):
        g=0
        for c in x.p.values(): g|=c
        if g==0: return 200
        return (g&-g).bit_length()-1
    def bitmerge(s,st,op,a,b,ty):
        return None
    def cast(s,st,v,ty,kind):
        if kind.startswith('PointerCoercion'):
            if isinstance(v,Ref) and ty[0]=='ref' and ty[1][0]=='slice':
                x=s.deref1(st,v); return Ref(v.fid,v.loc,v.pr+(('sl',0,len(x.f)),))
            return v
        if kind=='IntToInt':
            n=ty[1]
            if isinstance(v,Agg) : raise MirError('cast agg')
            v=s.sub_assume(st,v)
            if s.ctx.bitmode and v.const is None and n[0]=='u' and v.lo>=0 and v.hi>trange(n)[1]:
                r=s.ctx.bitop('Low',v,None,n)
                if r is not None: return r
            return s.ctx.wrap(I(v.p,v.lo,v.hi,n),n)
        if kind=='FloatToInt': return CI(int(v),ty[1])
        if kind=='IntToFloat': return float(v.const)
        if kind in('Transmute','PtrToPtr','Subtype'): return v
        raise MirError('cast '+kind)
    # ----- rvalues
    def rvalue(s,st,fr,rv):
        k=rv[0]
        if k=='use': return s.operand(st,fr,rv[1])
        if k=='ref':
            fid,loc,pr=s.resolve(st,fr,rv[1]); return Ref(fid,loc,pr)
        if k=='bin': return s.binop(st,rv[1],s.operand(st,fr,rv[2]),s.operand(st,fr,rv[3]))
        if k=='cast' and rv[3].startswith('BoxDerefTransmute'):
            fid,loc,pr=s.resolve(st,fr,rv[1][1]); return Ref(fid,loc,pr)
        if k=='cast': return s.cast(st,s.operand(st,fr,rv[1]),s.T(rv[2],fr),rv[3])
        if k=='tuple': return Agg('tuple',[s.operand(st,fr,o) for o in rv[1]])
        if k=='array': return Agg('array',[s.operand(st,fr,o) for o in rv[1]])
        if k=='repeat':
            n=rv[2]; v=s.operand(st,fr,rv[1])
            m=re.match(r'^(?:const )?(\d+)(_usize)?$',n)
            if not m:
                c=s.const(st,fr,n.replace('const ','')); nn=c.const
            else: nn=int(m.group(1))
            return Agg('array',[v]*nn)
        if k=='closure': s.clo_env[rv[1]]=fr.env; return Agg(rv[1],[s.operand(st,fr,o) for o in rv[2]])
        if k=='adt': return s.adt(st,fr,rv)
        if k=='discr':
            fid,loc,pr=s.resolve(st,fr,rv[1]); v=s.load(st,fid,loc,pr)
            if isinstance(v,Agg):
                return v.v if isinstance(v.v,I) else CI(v.v,'isize')
            raise MirError(f'discr {v!r}')
        if k=='un':
            v=s.operand(st,fr,rv[2])
            if rv[1]=='Not':
                if v.ty=='bool': return s.ctx.bnot(v)
                if s.ctx.bitmode and v.const is None and v.ty[0]=='u': 
                    r=s.ctx.bitop('Not',v,None,v.ty)
                    if r is not None: return r
                hi=trange(v.ty)[1]; return s.ctx.mk(padd(pconst(hi),v.p,-1),hi-v.hi,hi-v.lo,v.ty)
            if rv[1]=='Neg':
                if isinstance(v,float): return -v
                return s.ctx.mk(pscale(v.p,-1),-v.hi,-v.lo,v.ty)
            if rv[1]=='PtrMetadata':
                if isinstance(v,Ref) and v.pr and v.pr[-1][0]=='sl' and not has_run(s.deref1(st,v)): return CI(v.pr[-1][2]-v.pr[-1][1],'usize')
                x=s.deref1(st,v); return s.vlen(x)
        if k=='len':
            fid,loc,pr=s.resolve(st,fr,rv[1])
            if pr and pr[-1][0]=='sl' and not has_run(s.load(st,fid,loc,pr)): return CI(pr[-1][2]-pr[-1][1],'usize')
            return s.vlen(s.load(st,fid,loc,pr))
        raise MirError('rvalue '+k)
    def vlen(s,v):
        n=len(v.f)
        if not has_run(v): return CI(n,'usize')
        x=v.f[0].n; return I(padd(x.p,pconst(n-1)),x.lo+n-1,x.hi+n-1,'usize')
    def variant(s,path):
        """(type, variant index) for an aggregate path"""
        segs=[strip_gen(x) for x in split_path(path) if not x.startswith('<')]
        n=segs[-1]
        if n in('Some','None'): return 'Option',1 if n=='Some' else 0
        if n in('Ok','Err'): return 'Result',0 if n=='Ok' else 1
        if n in('Continue','Break'): return 'ControlFlow',0 if n=='Continue' else 1
        if len(segs)>=2:
            e=s.enums().get(segs[-2])
            if e and n in e: return segs[-2],e.index(n)
        return n,0
    _enums=None
    def enums(s):
        if s._enums is None:
            s._enums={}
            import os,glob
            for p in glob.glob(os.path.join(s.mir.srcroot,'src/**/*.rs'),recursive=True):
                t=open(p).read(); t=re.sub(r'//[^\n]*','',t)
                for m in re.finditer(r'\benum\s+(\w+)[^{;]*\{',t):
                    i=m.end()-1
                    try: j=match_close(t,i)
                    except MirError: continue
                    vs=[]
                    for part in split_top(t[i+1:j]):
                        part=re.sub(r'#\[[^\]]*\]','',part).strip()
                        mm=re.match(r'(\w+)',part)
                        if mm: vs.append(mm.group(1))
                    s._enums.setdefault(m.group(1),vs)
        return s._enums
    agg_hook=None
    def adt(s,st,fr,rv):
        n,v=s.variant(rv[1])
        a=Agg(n,[s.operand(st,fr,o) for o in rv[2]],v)
        if n in('Range','RangeFrom','RangeTo','RangeInclusive','RangeFull'): pass
        if s.agg_hook:
            r=s.agg_hook(a)
            if r is not None: return r
        return a
    # ----- calls
    def parse_callee(s,f):
        f=f.strip()
        if f.startswith('<'):
            j=match_close(f,0); inner=f[1:j]; rest=f[j+1:].lstrip(':')
            from .types import _find_as
            k=_find_as(inner)
            segs=split_path(rest)
            if k is None: return ('path',[inner]+segs,f)
            return ('trait',inner[:k],inner[k+4:],segs,f)
        return ('path',split_path(f),f)
    _cc={}
    def callee(s,f):
        r=s._cc.get(f)
        if r is None: r=s._cc[f]=s.parse_callee(f)
        return r
    _lt={}
    def lookup_trait(s,t,trait,targs,meth,argts,fr):
        k=(id(s.mir),t,trait,tuple(targs) if targs else None,meth,tuple(x for x in s.stack if x in s.enclosing()) if s.stack else ())
        if k not in s._lt: s._lt[k]=s.lookup_trait_(t,trait,targs,meth,argts,fr)
        return s._lt[k]
    def lookup_trait_(s,t,trait,targs,meth,argts,fr):
        """find impl fn of trait method for self type t"""
        best=[]
        for f in s.mir.bylast.get(meth,()):
            if f.is_const or '<impl' not in f.name or '{closure' in f.name: continue
            h=s.hdr(f)
            if not h or h[0]!='trait' or h[1]!=trait: continue
            if h[2] is not None and '$' not in h[2]:
                ht=s.hpt(h[2])
                if not matches(ht,t): continue
                exact = show(ht)==show(t)
            else:
                exact=False
                if not s.mod_ok(f,t): continue
                if f.params:
                    p0=s.npt(f.params[0][1]); 
                    if trait in('Add','Sub','Mul','Div','Neg','Not','BitAnd','BitOr','BitXor'):
                        if not matches(p0,t): continue
                    elif not(matches(p0,t) or (p0[0]=='ref' and matches(p0[1],t))): continue
            if trait in('ConstraintSystem','Backend','Circuit','RecursiveCircuit'): pass
            elif targs and len(f.params)>1:
                p1=s.npt(f.params[1][1])
                if not matches(p1,targs[0]): continue
            elif targs and len(f.params)==1 and trait=='From':
                if not matches(s.npt(f.params[0][1]),targs[0]): continue
            elif not targs and trait in('Add','Sub','Mul','AddAssign','SubAssign','MulAssign') and len(f.params)>1:
                if not matches(s.npt(f.params[1][1]),t): continue
            best.append((exact,f))
        if not best: return None
        if len(best)>1:
            # an impl inside a function body is visible only while that function runs
            inner=[(e,f) for e,f in best if s.encl(f) is None or s.encl(f) in s.stack]
            if inner: best=inner
        if t[0] in('ref','path') and not any(e for e,_ in best):
            # two local types of the same name: an impl of this trait for a type with the right number of parameters wins
            ar=lambda x:ar(x[1]) if x[0]=='ref' else (x[1],len(x[2])) if x[0]=='path' and not is_generic(x[1]) else None
            good=[(e,f) for e,f in best if s.hdr(f)[2] is None or '$' in s.hdr(f)[2] or ar(s.hpt(s.hdr(f)[2])) in(None,ar(t))]
            if len(good)<len(best) and any(ar(h)==ar(t) and matches(h,t) for h in s.impls(trait)):
                best=good
                if not best: return None
        ex=[f for e,f in best if e]
        best=ex or [f for e,f in best]
        if len(best)>1:
            # prefer an impl whose parameters are not bare type parameters
            bare=lambda f: sum(1 for p in f.params if s.npt(p[1])[0]=='path' and is_generic(s.npt(p[1])[1]))
            best=sorted(best,key=bare)
        return best[0]
    def encl(s,f):
        i=f.name.rfind('::<impl at '); e=f.name[:i] if i>0 else None
        return e if e in s.enclosing() else None
    def enclosing(s):
        if not hasattr(s.mir,'_encl'):
            names={f.name for l in s.mir.bylast.values() for f in l}
            s.mir._encl={f.name[:f.name.rfind('::<impl at ')] for l in s.mir.bylast.values() for f in l if f.name.rfind('::<impl at ')>0}&names
        return s.mir._encl
    def impls(s,trait):
        k=('impls',id(s.mir),trait)
        if k not in s._tc: 
            hs={h[2] for l in s.mir.bylast.values() for f in l if "<impl" in f.name for h in [s.hdr(f)] if h and h[0]=='trait' and h[1]==trait and h[2] and '$' not in h[2]}
            s._tc[k]=[s.hpt(x) for x in hs]
        return s._tc[k]
    def hpt(s,x):
        k=('h',x)
        if k not in s._tc: s._tc[k]=pt(re.sub(r"'\w+,? ?",'',x).strip())
        return s._tc[k]
    _tc={}
    def npt(s,x): return pt(x)
    def mod_ok(s,f,t):
        b=t
        while b[0]=='ref': b=b[1]
        if b[0]!='path': return True
        return True
    _hd={}
    def hdr(s,f):
        k=(id(s.mir),f.name)
        if k not in s._hd: s._hd[k]=s.mir.impl_header(f.name)
        return s._hd[k]
    _lp={}
    def lookup_path(s,segs,fr,argts):
        k=(id(s.mir),tuple(segs),tuple(argts))
        if k not in s._lp: s._lp[k]=s.lookup_path_(segs,fr,argts)
        return s._lp[k]
    def lookup_path_(s,segs,fr,argts):
        """in-crate function for a path callee; returns (fn, env)"""
        # strip turbofish
        segs=[split_path(x[6:-1])[-1] if x.startswith('<impl ') and not x.startswith('<impl at') and ' for ' not in x else x for x in segs]
        ss=[x for x in segs if not x.startswith('<') or x.startswith('<impl')]
        names=[strip_gen(x) for x in ss]
        meth=names[-1]
        cands=[]
        for f in s.mir.bylast.get(meth,()):
            if '{closure' in f.name and '{closure' not in meth: 
                # nested fn inside closures allowed only when path matches
                pass
            fs=split_path(f.name)
            imp=[i for i,x in enumerate(fs) if x.startswith('<impl')]
            if imp:
                if len(names)<2: continue
                h=s.hdr(f)
                if not h or h[0]!='inherent': continue
                tl=fs[imp[-1]+1:]
                if len(tl)>1 and names[-len(tl):]==tl and len(names)>len(tl): cands.append((len(tl)+1,f)); continue
                if tl!=[meth]: continue
                if pt(re.sub(r"'\w+,? ?",'',h[1]))[1]!=names[-2]: continue
                cands.append((2,f))
            else:
                k=min(len(fs),len(names))
                if fs[-k:]==names[-k:] and (k==len(names) or k==len(fs)):
                    cands.append((k,f))
        if not cands: return None
        cands=[f for _,f in sorted(cands,key=lambda x:-x[0])]
        if len(cands)>1:
            c2=[f for f in cands if len(f.params)==len(argts) and all(matches(s.npt(p[1]),a) for p,a in zip(f.params,argts))]
            if c2: cands=c2
        return cands[0]
    def opty(s,fr,op):
        """static type of an operand"""
        if op[0]=='const':
            m=re.match(r'^-?\d+_(\w+)$',op[1])
            if m: return ('path',m.group(1),())
            if op[1].startswith('ZeroSized: '): return pt(op[1][11:]) if op[1][11:].startswith('{') else ('other',op[1])
            if op[1] in('true','false'): return ('path','bool',())
            if op[1].startswith('"'): return ('ref',('path','str',()))
            f=s.find_const(op[1],fr)
            if f is not None and f.ret: return s.T(f.ret,fr)
            return ('other',op[1])
        pl=op[1]; 
        if not pl.proj:
            d=s.ltype(fr,pl.local)
            return d
        return ('other','?')
    def ltype(s,fr,l):
        t=fr.fn.locals.get(l)
        if t is None:
            for n,x in fr.fn.params:
                if n==l: t=x
        if t is None: return ('other','?')
        return s.T(t,fr)
    def call(s,st,fr,f,ops,dest):
        args=[s.operand(st,fr,o) for o in ops]
        argts=[s.opty(fr,o) for o in ops]
        rett=s.ltype(fr,dest.local) if dest is not None and not dest.proj else None
        return s.invoke(st,fr,f,args,argts,rett)
    def invoke(s,st,fr,f,args,argts,rett=None):
        c=s.callee(f)
        if c[0]=='trait':
            t=s.T(c[1],fr); trt=s.T(c[2],fr); tr=trt[1]; targs=trt[2]; segs=c[3]; meth=segs[0]
            q=('trait',t,tr,targs,meth,segs[1:])
        else:
            segs=c[1]; q=('path',None,None,(),strip_gen(segs[-1]) if not segs[-1].startswith('<') else strip_gen(segs[-2]),segs)
            t=None
        # contracts / dynamic domain dispatch
        for con in s.contracts:
            r=con(s,st,fr,q,args,argts)
            if r is not None:
                return r
        fn=None; env={}
        if q[0]=='trait':
            fn=s.lookup_trait(t,tr,targs,meth,argts,fr)
            if fn is not None:
                h=s.hdr(fn)
                if h[2] and '$' not in h[2]: unify(s.hpt(h[2]),t,env)
                env.setdefault('Self',t)
            else:
                r=s.model(st,fr,q,args,argts)
                if r is not None: return r
                # trait default method
                for g in s.mir.bylast.get(meth,()):
                    if g.name.endswith('::'+tr+'::'+meth) or g.name==tr+'::'+meth: fn=g
                if fn is None: raise MirError('no model for '+f+' on '+show(t))
                env['Self']=t
        else:
            nm=segs
            if len(nm)>=1 and nm[0] and is_generic(strip_gen(nm[0])) and strip_gen(nm[0]) in fr.env: pass
            fn=s.lookup_path(segs,fr,argts)
            if fn is None:
                r=s.model(st,fr,q,args,argts)
                if r is not None: return r
                raise MirError('no model for '+f)
            h=s.hdr(fn)
            if h and h[0]=='inherent' and split_path(fn.name)[-2].startswith('<impl'):
                # type args of the path
                i=[k for k,x in enumerate(segs) if strip_gen(x)==pt(re.sub(r"'\w+,? ?",'',h[1]))[1] or x.startswith(pt(h[1])[1])]
                if i:
                    j=i[-1]
                    tt=segs[j]+('::'+segs[j+1] if j+1<len(segs) and segs[j+1].startswith('<') else '')
                    unify(pt(re.sub(r"'\w+,? ?",'',h[1])),s.T(tt,fr),env)
                env.setdefault('Self',s.T(re.sub(r"'\w+ ?",'',h[1]),Frame(0,fn,env)))
        ga=q[5][-1] if q[0]=='path' else (q[5][-1] if q[5] else '')
        if ga.startswith('<') and not ga.startswith('<impl'):
            from .types import _genargs
            gs=s.mir.generics(fn.name); ts=_genargs(ga)
            if gs and len(gs)==len(ts):
                for g,t2 in zip(gs,ts): env.setdefault(g,subst(t2,fr.env,s.assoc))
        for p,a in zip(fn.params,argts): unify(s.npt(p[1]),a,env)
        if rett is not None and rett[0]!='other': unify(s.npt(fn.ret),rett,env)
        s.inlined.add(fn.name)
        return s.exec_fn(st,fn,args,env)
    def call_closure(s,st,clo,args,fr=None):
        """call closure value / fn item with argument list; returns outcomes"""
        if isinstance(clo,Ref): cv=s.deref(st,clo); 
        else: cv=clo
        if isinstance(cv,FnItem):
            return s.invoke(st,Frame(0,None,cv.env),cv.t,args,[('other','?')]*len(args))
        if callable(cv): return cv(s,st,args)
        fn=s.closure_fn(cv.k)
        p0=fn.params[0][1]
        self_arg=cv
        if p0.startswith('&'):
            self_arg=clo if isinstance(clo,Ref) else s.alloc(st,cv)
        env=dict(s.clo_env.get(cv.k,{}))
        return s.exec_fn(st,fn,[self_arg]+list(args),env)
    clo_env={}
    _cf=None
    def closure_fn(s,cid):
        if s._cf is None:
            s._cf={}
            for n,l in s.mir.fns.items():
                if '{closure#' in n.rsplit('::',1)[-1]:
                    for f in l:
                        if f.params:
                            m=re.search(r'\{closure@[^}]*\}',f.params[0][1])
                            if m: s._cf.setdefault(m.group(0),f)
        if cid not in s._cf: raise MirError('closure '+cid)
        return s._cf[cid]
    # ----- function execution
    def exec_fn(s,st,fn,args,env,keep=False):
        fn.parse()
        fr=s.newframe(st,fn,env)
        for (n,_),a in zip(fn.params,args): st.mem[fr.id][n]=a
        for l,t in list(fn.locals.items()):
            m=re.search(r'\{closure@[^}]*\}',t)
            if m and t.startswith('{closure'): s.clo_env[m.group(0)]=env
        outs=[]; s.stack.append(fn.name)
        try:
            for o in s.run(st,fr,'bb0',None):
                st2,kind,val=o
                if not keep: st2.mem.pop(fr.id,None)
                outs.append((st2,val))
        finally: s.stack.pop()
        return outs
    def ipdom(s,fn):
        if hasattr(fn,'_ipd'): return fn._ipd
        succ={}
        for b,ss in fn.blocks.items():
            t=ss[-1]; r=[]
            if t[0]=='goto': r=[t[1]]
            elif t[0]=='switch': r=[x for _,x in t[2]]+([t[3]] if t[3] else [])
            elif t[0]=='assert': r=[t[4]]
            elif t[0]=='call': r=[t[4]] if t[4] else []
            elif t[0]=='return': r=['EXIT']
            succ[b]=[x for x in r if not (x in fn.blocks and fn.blocks[x] and fn.blocks[x][-1][0]=='unreachable')]
        nodes=[b for b in fn.blocks]+['EXIT']
        pd={b:set(nodes) for b in nodes}; pd['EXIT']={'EXIT'}
        ch=True
        while ch:
            ch=False
            for b in reversed(list(fn.blocks)):
                if succ[b]:
                    n=set.intersection(*[pd[x] for x in succ[b]])|{b}
                else: n={b}
                if n!=pd[b]: pd[b]=n;ch=True
        r={}
        for b in fn.blocks:
            c=pd[b]-{b}
            best=None
            for x in c:
                if all(y in pd[x] for y in c): best=x
            r[b]=best
        fn._ipd=r; return r
    def feasible(s,st,w,v):
        """is boolean I w == v possible?"""
        return True
    def run(s,st,fr,bb,stop):
        work=[(st,bb)]; outs=[]; first=True
        import time
        while work:
            st,bb=work.pop()
            while True:
                if bb==stop and not first: outs.append((st,'stop',None)); break
                first=False
                s.steps+=1
                if s.steps>s.maxsteps: raise MirError('step limit')
                if s.deadline and time.time()>s.deadline: raise MirError('time limit')
                ss=fr.fn.blocks[bb]
                nxt=None;done=False
                for t in ss:
                    k=t[0]
                    if k=='assign':
                        v=s.rvalue(st,fr,t[2])
                        fid,loc,pr=s.resolve(st,fr,t[1]); s.store(st,fid,loc,pr,v)
                    elif k=='nop': pass
                    elif k=='goto': nxt=t[1]
                    elif k=='return':
                        outs.append((st,'ret',st.mem[fr.id].get('_0',UNIT))); done=True
                    elif k=='assert':
                        c=s.operand(st,fr,t[1])
                        if t[2]: c=s.ctx.bnot(c)
                        c=s.sub_assume(st,c)
                        s.arith_obl+=1
                        if c.const==1: nxt=t[4]
                        else:
                            if c.const is None:
                                r=None
                                if s.ctx.boolprove(c.p,st.pc,st.assume): r='proved'
                                else: s.arith_smt+=1
                                r=r or s.ctx.z3prove(lambda tr:tr(c.p)==1,hyps=st.pc,assume=st.assume,timeout=20)
                            else: r=('cex',{})
                            if r!='proved':
                                s.panics.append((fr.fn.name,t[3],r,dict(st.assume),list(st.pc)))
                                if c.const is not None: done=True;nxt=None;break
                                s.assume(st,c,1)
                            nxt=t[4]
                    elif k=='switch':
                        v=s.operand(st,fr,t[1]); v=s.sub_assume(st,v)
                        c=v.const
                        if c is not None:
                            nxt=None
                            for n,b in t[2]:
                                if n==c: nxt=b
                            if nxt is None: nxt=t[3]
                        else:
                            if v.hi-v.lo>1: raise MirError('symbolic switch')
                            arms=[]
                            for val in (v.lo,v.hi):
                                b=t[3]
                                for n,x in t[2]:
                                    if n==val: b=x
                                arms.append((val,b))
                            r=s.branch(st,fr,bb,v,arms)
                            if isinstance(r,tuple): st,nxt=r
                            else:
                                for x in r[1:]: work.append(x)
                                if not r: done=True; break
                                st,nxt=r[0]
                            if nxt=='EXIT':
                                outs.append((st,'ret',st.mem[fr.id].get('_0',UNIT))); done=True
                    elif k=='call':
                        os=s.call(st,fr,t[2],t[3],t[1])
                        if t[4] is None:
                            done=True; break
                        if not os: done=True; break
                        for (s2,val) in os:
                            fid,loc,pr=s.resolve(s2,fr,t[1]); s.store(s2,fid,loc,pr,val)
                        for (s2,val) in os[1:]: work.append((s2,t[4]))
                        st=os[0][0]; nxt=t[4]
                    elif k=='unreachable': done=True; break
                    elif k=='resume': done=True; break
                    else: raise MirError('statement '+str(t[1])[:160])
                if done: break
                if nxt is None: raise MirError('no successor in '+fr.fn.name+' '+bb)
                bb=nxt
        return outs
    def assume(s,st,b,val):
        """record boolean I b == val on the path"""
        p=b.p
        # b = atom or 1-atom or polynomial
        at=[m for m in p if m!=()]
        if len(at)==1 and len(at[0])==1 and set(p.values())<={1,-1}:
            a=at[0][0]; v0=p.get((),0)
            x=(val-v0)//p[at[0]]
            st.assume[a]=x
        st.pc.append(('eq',padd(p,pconst(-val))))
        if s.on_assume: s.on_assume(s,st,b,val)
    on_assume=None
    prune=None
    def branch(s,st,fr,bb,v,arms):
        (v0,b0),(v1,b1)=arms
        if b0==b1: return (st,b0)
        # normalise to boolean
        w=I(padd(v.p,pconst(-v.lo)),0,1,'bool')
        ok0=ok1=True
        if s.prune:
            ok0=s.prune(s,st,w,0); ok1=s.prune(s,st,w,1)
            if ok0 and not ok1: s.assume(st,w,0); return (st,b0)
            if ok1 and not ok0: s.assume(st,w,1); return (st,b1)
            if not ok0 and not ok1: return []
        if s.merge:
            ip=s.ipdom(fr.fn).get(bb)
            if ip is not None:
                sa=st.copy(); sb=st.copy()
                keys=set(st.assume); 
                s.assume(sa,w,0); s.assume(sb,w,1)
                try:
                    if ip=='EXIT':
                        oa=[x for x in s.run(sa,fr,b0,None)]; ob=s.run(sb,fr,b1,None)
                        if len(oa)==1 and len(ob)==1:
                            m=s.merge_states(w,st,ob[0][0],oa[0][0],fr.id); return (m,'EXIT')
                    else:
                        oa=[(sa,'stop',None)] if b0==ip else s.run_to(sa,fr,b0,ip)
                        ob=[(sb,'stop',None)] if b1==ip else s.run_to(sb,fr,b1,ip)
                        if len(oa)==1 and len(ob)==1 and oa[0][1]=='stop' and ob[0][1]=='stop':
                            m=s.merge_states(w,st,ob[0][0],oa[0][0],fr.id); return (m,ip)
                        if len(oa)==0 and len(ob)==1: return (ob[0][0],ip)
                        if len(ob)==0 and len(oa)==1: return (oa[0][0],ip)
                except MergeFail: pass
        s2=st.copy()
        s.assume(st,w,0); s.assume(s2,w,1)
        return [(st,b0),(s2,b1)]
    def run_to(s,st,fr,b,ip):
        # wrapper so that the start block may equal stop only after moving
        if b==ip: return [(st,'stop',None)]
        return s.run(st,fr,b,ip)
    def merge_states(s,w,base,a,b,cur=None):
        """w=1 -> a, w=0 -> b"""
        n=State(); n.assume=dict(base.assume); n.pc=list(base.pc); n.ghost=dict(base.ghost)
        if a.ghost!=b.ghost: raise MergeFail('ghost')
        n.ghost=dict(a.ghost)
        for fid in a.mem:
            if fid not in b.mem: 
                continue
            fa,fb=a.mem[fid],b.mem[fid]; r={}
            for k in fa:
                if k in fb:
                    try: r[k]=s.merge_val(w,fa[k],fb[k])
                    except MergeFail:
                        if k!='_0' and fid==cur: continue     # dead temporary of this frame: reading it later is an error (uninitialised)
                        raise
            n.mem[fid]=r
        return n
    def merge_val(s,w,a,b):
        if a is b: return a
        if isinstance(a,I) and isinstance(b,I): return s.ctx.select(w,a,b)
        if isinstance(a,Dom) or isinstance(b,Dom): return (a if isinstance(a,Dom) else b).select(s.ctx,w,a,b)
        if isinstance(a,Agg) and isinstance(b,Agg) and a.k==b.k and len(a.f)==len(b.f):
            if a.v is b.v or (isinstance(a.v,int) and isinstance(b.v,int) and a.v==b.v): v=a.v
            else: raise MergeFail('variant')
            return Agg(a.k,[s.merge_val(w,x,y) for x,y in zip(a.f,b.f)],v)
        if isinstance(a,(Ref,Str,FnItem)) and a==b: return a
        if isinstance(a,It) and isinstance(b,It) and a.k==b.k and len(a.a)==len(b.a):
            return It(a.k,*[x if x is y or (not isinstance(x,(I,Agg,It,Ref)) and x==y) else s.merge_val(w,x,y) for x,y in zip(a.a,b.a)])
        if type(a)==type(b) and isinstance(a,(int,float)) and a==b: return a
        raise MergeFail(f'{type(a).__name__}/{type(b).__name__}')
    # ----- std models
    def model(s,st,fr,q,args,argts):
        from . import std
        r=std.model(s,st,fr,q,args,argts)
        if r is not None: s.used_models.add((q[2]+'::' if q[2] else '')+ (q[4] if q[0]=='trait' else '::'.join(strip_gen(x) for x in q[5] if not x.startswith('<'))))
        return r
