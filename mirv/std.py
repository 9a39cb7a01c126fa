"""Assumed contracts (models) of core/alloc/std, subtle and byteorder functions used by /repo."""
from .interp import *
from .types import *
from .sym import *

def names(q): return [strip_gen(x) for x in q[5] if not (x.startswith('<') and not x.startswith('<impl'))]

# ---------------------------------------------------------------- iterators
def seq_items(s,st,ref):
    """refs to the elements of a slice/array/Vec reference"""
    v=s.deref1(st,ref)
    if isinstance(v,Ref): return seq_items(s,st,v)
    if isinstance(v,Agg) and v.k=='Box': return seq_items(s,st,Ref(ref.fid,ref.loc,ref.pr+(('f',0),)))
    n=len(v.f)
    pr=ref.pr
    return [Ref(ref.fid,ref.loc,s.addidx(pr,i)) for i in range(n)]

def as_iter(s,st,v):
    if isinstance(v,It): return v
    if isinstance(v,Ref):
        t=s.deref1(st,v)
        if isinstance(t,It): return It('byref',v)
        return It('list',tuple(seq_items(s,st,v)))
    if isinstance(v,Agg):
        if v.k=='Range':
            a,b=v.f
            if a.const is None or b.const is None: raise MirError('symbolic range')
            return It('range',a.const,b.const,a.ty)
        if v.k=='RangeInclusive':
            a,b=v.f[0],v.f[1]; 
            if a.const is None or b.const is None: raise MirError('symbolic range')
            return It('range',a.const,b.const+1,a.ty)
        if v.k=='RangeFrom':
            return It('range',v.f[0].const,None,v.f[0].ty)
        if v.k in('array','Vec'): return It('list',v.f)
        if v.k=='Option': return It('list',v.f if v.v==1 else ())
        if v.k=='Box': return as_iter(s,st,v.f[0])
    raise MirError(f'into_iter of {v}')

def to_list(s,st,it):
    """drain eagerly (single outcome)"""
    out=[]
    while True:
        rs=it_next(s,st,it)
        if len(rs)!=1: raise MirError('forking iterator drain')
        st2,item,it=rs[0]
        if st2 is not st: raise MirError('iterator forked state')
        if item is None: return out
        out.append(item)
        if len(out)>200000: raise MirError('iterator too long')

def it_len(s,st,it):
    k=it.k;a=it.a
    if k=='list': return len(a[0])
    if k=='range': return max(0,a[1]-a[0]) if a[1] is not None else None
    if k in('rev','map','enum','cloned'): return it_len(s,st,a[0])
    if k=='take': 
        n=it_len(s,st,a[0]); return a[1] if n is None else min(n,a[1])
    if k=='zip':
        x,y=it_len(s,st,a[0]),it_len(s,st,a[1])
        return y if x is None else x if y is None else min(x,y)
    if k=='cycle': return None
    if k=='chain':
        x,y=it_len(s,st,a[0]),it_len(s,st,a[1]); return None if x is None or y is None else x+y
    if k=='skip':
        n=it_len(s,st,a[0]); return None if n is None else max(0,n-a[1])
    return len(to_list(s,st,it))

def it_next(s,st,it):
    k=it.k;a=it.a
    if k=='list':
        if not a[0]: return [(st,None,it)]
        return [(st,a[0][0],It('list',a[0][1:]))]
    if k=='range':
        if a[1] is not None and a[0]>=a[1]: return [(st,None,it)]
        return [(st,CI(a[0],a[2]),It('range',a[0]+1,a[1],a[2]))]
    if k=='repeat': return [(st,a[0],it)]
    if k=='rev':
        return it_next_back(s,st,a[0],lambda i:It('rev',i))
    if k=='enum':
        out=[]
        for s2,x,i in it_next(s,st,a[0]):
            n=a[1]
            if isinstance(x,Ref) and x.pr and x.pr[-1][0]=='sl' and has_run(s.deref1(s2,x)):
                # one generic element stands for all the chunks of the opaque part: its index is arbitrary
                b=s.ctx.atom(f'chunk{len(s.ctx.atoms)}',0,1<<50,'idx'); n=I({(b,):1},0,1<<50,'usize')
            out.append((s2,None if x is None else Agg('tuple',(CI(n,'usize') if isinstance(n,int) else n,x)),It('enum',i,n if x is None else n+1 if isinstance(n,int) else I(padd(n.p,pconst(1)),n.lo+1,n.hi+1,'usize'))))
        return out
    if k=='cloned':
        return [(s2,None if x is None else s.deref1(s2,x),It('cloned',i)) for s2,x,i in it_next(s,st,a[0])]
    if k=='map':
        out=[]
        for s2,x,i in it_next(s,st,a[0]):
            if x is None: out.append((s2,None,It('map',i,a[1])));continue
            for s3,v in s.call_closure(s2,a[1],[x]): out.append((s3,v,It('map',i,a[1])))
        return out
    if k=='zip':
        out=[]
        for s2,x,i in it_next(s,st,a[0]):
            if x is None: out.append((s2,None,It('zip',i,a[1])));continue
            for s3,y,j in it_next(s,s2,a[1]):
                out.append((s3,None if y is None else Agg('tuple',(x,y)),It('zip',i,j)))
        return out
    if k=='cycle':
        out=[]
        for s2,x,i in it_next(s,st,a[1]):
            if x is not None: out.append((s2,x,It('cycle',a[0],i)))
            else:
                for s3,y,j in it_next(s,s2,a[0]): out.append((s3,y,It('cycle',a[0],j)))
        return out
    if k=='chain':
        out=[]
        for s2,x,i in it_next(s,st,a[0]):
            if x is not None: out.append((s2,x,It('chain',i,a[1])));continue
            for s3,y,j in it_next(s,s2,a[1]): out.append((s3,y,It('chain',i,j)))
        return out
    if k=='skip':
        it2=a[0]
        for _ in range(a[1]):
            rs=it_next(s,st,it2)
            if len(rs)!=1: raise MirError('skip fork')
            st,x,it2=rs[0]
            if x is None: return [(st,None,It('skip',it2,0))]
        return [(s2,x,It('skip',i,0)) for s2,x,i in it_next(s,st,it2)]
    if k=='take':
        if a[1]==0: return [(st,None,it)]
        return [(s2,x,It('take',i,a[1]-1)) for s2,x,i in it_next(s,st,a[0])]
    if k=='stepby':
        rs=it_next(s,st,a[0]); st,x,i=rs[0]
        if x is None: return [(st,None,It('stepby',i,a[1]))]
        for _ in range(a[1]-1):
            st,y,i=it_next(s,st,i)[0]
        return [(st,x,It('stepby',i,a[1]))]
    if k=='flat':
        # a: outer, closure, current inner
        cur=a[2];outer=a[0]
        while True:
            if cur is not None:
                rs=it_next(s,st,cur)
                if len(rs)!=1: return [(s2,x,It('flat',outer,a[1],i)) if x is not None else (_ for _ in ()).throw(MirError('flat fork')) for s2,x,i in rs]
                st,x,cur=rs[0]
                if x is not None: return [(st,x,It('flat',outer,a[1],cur))]
            rs=it_next(s,st,outer)
            if len(rs)!=1: raise MirError('flat fork')
            st,y,outer=rs[0]
            if y is None: return [(st,None,It('flat',outer,a[1],None))]
            if a[1] is not None:
                r=s.call_closure(st,a[1],[y])
                if len(r)!=1: raise MirError('flat fork')
                st,y=r[0]
            cur=as_iter(s,st,y)
    if k=='filter':
        i=a[0]
        while True:
            rs=it_next(s,st,i)
            if len(rs)!=1: raise MirError('filter fork')
            st,x,i=rs[0]
            if x is None: return [(st,None,It('filter',i,a[1]))]
            r=s.call_closure(st,a[1],[s.alloc(st,x)])
            if len(r)!=1 or r[0][1].const is None: raise MirError('filter fork')
            st,b=r[0]
            if b.const: return [(st,x,It('filter',i,a[1]))]
    if k=='byref':
        r=a[0]; inner=s.deref1(st,r)
        out=[]
        for s2,x,i in it_next(s,st,inner):
            s.setref(s2,r,i); out.append((s2,x,it))
        return out
    if k=='peek':
        if a[1] is not None: 
            return [(st,a[1][0],It('peek',a[0],None))]
        return [(s2,x,It('peek',i,None)) for s2,x,i in it_next(s,st,a[0])]
    if k in('filter_map','take_while','skip_while','map_while','inspect'):
        work=[(st,a[0])]; out=[]
        while work:
            s1,i=work.pop()
            for s2,x,j in it_next(s,s1,i):
                if x is None: out.append((s2,None,It(k,j,a[1]))); continue
                for s3,b in s.call_closure(s2,a[1],[x] if k in('filter_map','map_while') else [s.alloc(s2,x)]):
                    if k=='inspect': out.append((s3,x,It(k,j,a[1])))
                    elif k=='filter_map':
                        if b.v==1: out.append((s3,b.f[0],It(k,j,a[1])))
                        else: work.append((s3,j))
                    elif k=='map_while': out.append((s3,b.f[0] if b.v==1 else None,It(k,j,a[1]) if b.v==1 else It('list',())))
                    else:
                        for s4,t in fork(s,s3,b):
                            if k=='take_while': out.append((s4,x if t else None,It(k,j,a[1]) if t else It('list',())))
                            elif t: work.append((s4,j))
                            else: out.append((s4,x,j))
        return out
    raise MirError('iterator '+k)

def it_next_back(s,st,it,wrap):
    k=it.k;a=it.a
    if k=='list':
        if not a[0]: return [(st,None,wrap(it))]
        return [(st,a[0][-1],wrap(It('list',a[0][:-1])))]
    if k=='range':
        if a[0]>=a[1]: return [(st,None,wrap(it))]
        return [(st,CI(a[1]-1,a[2]),wrap(It('range',a[0],a[1]-1,a[2])))]
    if k=='rev': 
        return [(s2,x,wrap(It('rev',i))) for s2,x,i in it_next(s,st,a[0])]
    if k=='cloned':
        return [(s2,None if x is None else s.deref1(s2,x),i) for s2,x,i in it_next_back(s,st,a[0],lambda i:wrap(It('cloned',i)))]
    if k=='map':
        out=[]
        for s2,x,i in it_next_back(s,st,a[0],lambda i:i):
            if x is None: out.append((s2,None,wrap(It('map',i,a[1]))));continue
            for s3,v in s.call_closure(s2,a[1],[x]): out.append((s3,v,wrap(It('map',i,a[1]))))
        return out
    # general: drain eagerly
    return it_next_back(s,st,It('list',tuple(to_list(s,st,it))),wrap)

def collect(s,st,it,rett):
    """Vec / Result<Vec> collection; single outcome"""
    items=to_list(s,st,as_iter(s,st,it))
    t=rett
    if t and t[0]=='path' and t[1]=='Result':
        out=[]
        for x in items:
            if x.v==1: return [(st,x)]
            out.append(x.f[0])
        return [(st,Agg('Result',(Agg('Vec',out),),0))]
    if t and t[0]=='path' and t[1]=='Option':
        out=[]
        for x in items:
            if x.v==0: return [(st,NONE)]
            out.append(x.f[0])
        return [(st,some(Agg('Vec',out)))]
    return [(st,Agg('Vec',items))]

# ---------------------------------------------------------------- equality
def val_eq(s,st,a,b):
    """0/1 I"""
    a=s.deref(st,a);b=s.deref(st,b)
    if isinstance(a,I) and isinstance(b,I): return s.binop(st,'Eq',a,b)
    if isinstance(a,Dom): return a.eq(s,st,b)
    if isinstance(a,Agg) and isinstance(b,Agg):
        if isinstance(a.v,int) and isinstance(b.v,int):
            if a.v!=b.v or len(a.f)!=len(b.f): return FALSE()
        else: raise MirError('eq of symbolic variants')
        r=TRUE()
        for x,y in zip(a.f,b.f): r=s.ctx.band(r,val_eq(s,st,x,y))
        return r
    if isinstance(a,Str): return CI(int(a==b),'bool')
    raise MirError('eq')

def bI(b,ty='bool'): return I(b.p,b.lo,b.hi,ty)

def prim(t):
    while t and t[0]=='ref': t=t[1]
    return t[1] if t and t[0]=='path' and t[1] in list(WID)+['bool'] else None

OPS={'add':'Add','sub':'Sub','mul':'Mul','div':'Div','rem':'Rem','bitand':'BitAnd','bitor':'BitOr','bitxor':'BitXor','shl':'Shl','shr':'Shr'}
CMP={'eq':'Eq','ne':'Ne','lt':'Lt','le':'Le','gt':'Gt','ge':'Ge'}

def checked(s,st,op,a,b):
    if op in('Add','Sub','Mul'):
        r=s.binop(st,op+'WithOverflow',a,b)
        if r.f[1].const==1:
            s.panics.append(('op','overflow',('cex',{}),dict(st.assume),list(st.pc))); return r.f[0]
        if r.f[1].const is None:
            ov=r.f[1]
            z=s.ctx.z3prove(lambda tr:tr(ov.p)==0,hyps=st.pc,assume=st.assume,timeout=20)
            if z!='proved': s.panics.append(('op','overflow',z,dict(st.assume),list(st.pc)))
        return r.f[0]
    return s.binop(st,op,a,b)

def model(s,st,fr,q,args,argts):
    one=lambda v:[(st,v)]
    kind=q[0]
    if kind=='trait':
        t,tr,targs,m=q[1],q[2],q[3],q[4]
        a0=s.deref(st,args[0]) if args else None
        # --- Choice
        if t==('path','Choice',()) or (t[0]=='ref' and t[1]==('path','Choice',())) or (isinstance(a0,Agg) and a0.k=='Choice' and tr in('BitAnd','BitOr','BitXor','Not','BitAndAssign','BitOrAssign','BitXorAssign')):
            if tr=='From': 
                x=args[0]; return one(choice(I(x.p,x.lo,x.hi,'u8')))
            if tr in('BitAnd','BitOr','BitXor'):
                b=s.deref(st,args[1]); f={'BitAnd':s.ctx.band,'BitOr':s.ctx.bor,'BitXor':s.ctx.bxor}[tr]
                return one(choice(bI(f(a0.f[0],b.f[0]),'u8')))
            if tr in('BitAndAssign','BitOrAssign','BitXorAssign'):
                b=s.deref(st,args[1]); f={'BitAnd':s.ctx.band,'BitOr':s.ctx.bor,'BitXor':s.ctx.bxor}[tr[:-6]]
                s.setref(st,args[0],choice(bI(f(a0.f[0],b.f[0]),'u8'))); return one(UNIT)
            if tr=='Not': return one(choice(bI(s.ctx.bnot(a0.f[0]),'u8')))
            if tr=='ConditionallySelectable' and m=='conditional_select':
                b=s.deref(st,args[1]); c=s.deref(st,args[2])
                return one(choice(bI(s.ctx.select(c.f[0],b.f[0],a0.f[0]),'u8')))
        if tr=='Into' and m=='into':
            tgt=targs[0] if targs else None
            if tgt==('path','Choice',()): return one(choice(I(args[0].p,args[0].lo,args[0].hi,'u8')))
            if isinstance(args[0],Agg) and args[0].k=='Choice': return one(bI(args[0].f[0]))
            if prim(tgt) and isinstance(args[0],I): return one(I(args[0].p,args[0].lo,args[0].hi,tgt[1]))
            if tgt:
                return s.invoke(st,Frame(0,fr.fn,{'T__':tgt,'S__':t}),'<T__ as From<S__>>::from',args,argts)
        if tr=='From' and m=='from':
            src=args[0]
            if t==('path','bool',()) and isinstance(src,Agg) and src.k=='Choice': return one(bI(src.f[0]))
            if prim(t) and isinstance(src,I): return one(I(src.p,src.lo,src.hi,t[1]))
            if t==('path','f64',()): return one(float(src.const))
            if t[0]=='path' and t[1]=='Option' and isinstance(src,Agg) and src.k=='CtOption':
                c=s.sub_assume(st,src.f[1].f[0])
                if c.const is not None: return one(some(src.f[0]) if c.const else NONE)
                s2=st.copy(); w=bI(c); s.assume(st,w,1); s.assume(s2,w,0)
                return [(st,some(src.f[0])),(s2,NONE)]
            if targs and targs[0]==t: return one(src)
            if t[0]=='path' and t[1] in('String','Vec','Box','Rc','Arc'):
                if t[1]=='Box': return one(Agg('Box',(src,)))
                if isinstance(src,Str): return one(src)
        # --- subtle traits on primitives
        if tr=='ConstantTimeEq' and m=='ct_eq':
            if prim(t) : return one(choice(bI(s.binop(st,'Eq',s.deref(st,args[0]),s.deref(st,args[1])),'u8')))
            if t[0] in('slice','array') or (t[0]=='ref'): 
                return one(choice(bI(val_eq(s,st,args[0],args[1]),'u8')))
        if tr=='ConstantTimeEq' and m=='ct_ne':
            r=s.invoke(st,Frame(0,fr.fn,{'T__':t}),'<T__ as ConstantTimeEq>::ct_eq',args,argts)
            return [(x,choice(bI(s.ctx.bnot(v.f[0]),'u8'))) for x,v in r]
        if tr=='ConditionallySelectable':
            if m=='conditional_select' and prim(t):
                a,b=s.deref(st,args[0]),s.deref(st,args[1]); c=args[2].f[0]
                return one(s.ctx.select(s.sub_assume(st,c),b,a))
            if m=='conditional_select' and t[0]=='array':
                a,b=s.deref(st,args[0]),s.deref(st,args[1]); c=args[2].f[0]
                return one(Agg('array',[s.ctx.select(c,y,x) for x,y in zip(a.f,b.f)]))
            if m=='conditional_select' and t[0]=='path' and t[1]=='CtOption':
                a,b=s.deref(st,args[0]),s.deref(st,args[1]); w=s.sub_assume(st,args[2].f[0])
                return one(Agg('CtOption',(s.merge_val(w,b.f[0],a.f[0]),choice(s.ctx.select(w,b.f[1].f[0],a.f[1].f[0])))))
            if m=='conditional_assign':
                r=s.invoke(st,Frame(0,fr.fn,{'T__':t}),'<T__ as ConditionallySelectable>::conditional_select',[args[0],args[1],args[2]],[('ref',t),('ref',t),('path','Choice',())])
                out=[]
                for s2,v in r: s.setref(s2,args[0],v); out.append((s2,UNIT))
                return out
            if m=='conditional_swap':
                o=[]
                a,b=s.deref1(st,args[0]),s.deref1(st,args[1])
                F=Frame(0,fr.fn,{'T__':t}); ts=[('ref',t),('ref',t),('path','Choice',())]
                for s2,v in s.invoke(st,F,'<T__ as ConditionallySelectable>::conditional_select',[args[0],args[1],args[2]],ts):
                    for s3,u in s.invoke(s2,F,'<T__ as ConditionallySelectable>::conditional_select',[args[1],args[0],args[2]],ts):
                        s.setref(s3,args[0],v);s.setref(s3,args[1],u);o.append((s3,UNIT))
                return o
        if tr=='ConditionallyNegatable' and m=='conditional_negate':
            F=Frame(0,fr.fn,{'T__':t})
            out=[]
            for s2,ng in s.invoke(st,F,'<&T__ as Neg>::neg',[args[0]],[('ref',t)]):
                rn=s.alloc(s2,ng)
                for s3,v in s.invoke(s2,F,'<T__ as ConditionallySelectable>::conditional_select',[args[0],rn,args[1]],[('ref',t),('ref',t),('path','Choice',())]):
                    s.setref(s3,args[0],v); out.append((s3,UNIT))
            return out
        # --- byteorder
        if tr=='ByteOrder' and t==('path','LittleEndian',()):
            import re as _re
            mm=_re.match(r'(read|write)_u(16|32|64|128)$',m)
            if mm:
                n=int(mm.group(2))//8; its=seq_items(s,st,args[0])
                if len(its)<n:
                    s.panics.append((fr.fn.name,'byteorder: slice too short',('cex',{}),dict(st.assume),list(st.pc))); return []
                if mm.group(1)=='read':
                    p={};hi=0
                    for i in range(n):
                        b=s.deref(st,its[i]); p=padd(p,b.p,1<<(8*i)); hi+=b.hi<<(8*i)
                    return one(s.ctx.mk(p,0,hi,'u'+mm.group(2)))
                v=args[1]
                for i,b in enumerate(split_bytes(s,v,n)): s.setref(st,its[i],b)
                return one(UNIT)
        # --- operators on primitives (reference forms)
        if m in OPS and tr==m.capitalize().replace('Bitand','BitAnd').replace('Bitor','BitOr').replace('Bitxor','BitXor') and isinstance(a0,I):
            return one(checked(s,st,OPS[m],a0,s.deref(st,args[1])))
        if m.endswith('_assign') and m[:-7] in OPS and isinstance(a0,I):
            s.setref(st,args[0],checked(s,st,OPS[m[:-7]],a0,s.deref(st,args[1]))); return one(UNIT)
        if tr=='Not' and isinstance(a0,I): 
            return one(s.ctx.bnot(a0) if a0.ty=='bool' else s.rv_not(a0))
        if tr in('PartialEq',) and m in('eq','ne'):
            if isinstance(a0,(I,Dom,Str)) or (isinstance(a0,Agg) and a0.k in('array','Vec','tuple','Option')):
                e=val_eq(s,st,args[0],args[1]); return one(e if m=='eq' else s.ctx.bnot(e))
            if m=='ne':
                return [(x,s.ctx.bnot(v)) for x,v in s.invoke(st,Frame(0,fr.fn,{'T__':t}),'<T__ as PartialEq>::eq',args,argts)]
            if isinstance(a0,Agg) and t[0]=='ref':
                tt=t
                while tt[0]=='ref': tt=tt[1]
                def strip(x):
                    while isinstance(s.deref1(st,x),Ref): x=s.deref1(st,x)
                    return x
                return s.invoke(st,Frame(0,fr.fn,{'T__':tt}),'<T__ as PartialEq>::eq',[strip(args[0]),strip(args[1])],[('ref',tt)]*2)
        if tr=='PartialOrd' and m in CMP and isinstance(a0,I): return one(s.binop(st,CMP[m],a0,s.deref(st,args[1])))
        if tr=='Ord' and m in('min','max') and isinstance(a0,I):
            b=args[1]; c=s.binop(st,'Lt',a0,b)
            return one(s.ctx.select(c,a0,b) if m=='min' else s.ctx.select(c,b,a0))
        # --- clone / default / deref / borrow
        if tr=='Clone' and m=='clone': return one(s.deref1(st,args[0]))
        if tr=='Default' and m=='default':
            if prim(t): return one(CI(0,t[1]))
            if t[0]=='path' and t[1]=='Vec': return one(Agg('Vec',()))
            if t[0]=='array':
                v=s.invoke(st,Frame(0,fr.fn,{'T__':t[1]}),'<T__ as Default>::default',[],[])[0][1]
                return one(Agg('array',[v]*int(t[2].replace('_usize',''))))
            if t[0]=='path' and t[1]=='Option': return one(NONE)
        if tr in('Deref','DerefMut','AsRef','AsMut','Borrow','BorrowMut') and m in('deref','deref_mut','as_ref','as_mut','borrow','borrow_mut'):
            r=args[0]; v=s.deref1(st,r)
            if isinstance(v,Ref): r=v; v=s.deref1(st,r)
            if isinstance(v,Agg) and v.k in('Vec','array'): return one(Ref(r.fid,r.loc,r.pr+(('sl',0,len(v.f)),) if not (r.pr and r.pr[-1][0]=='sl') else r.pr))
            if isinstance(v,Agg) and v.k=='Box': return one(Ref(r.fid,r.loc,r.pr+(('f',0),)))
            return one(r)
        if tr in('Index','IndexMut') and m in('index','index_mut'):
            r=args[0]
            while isinstance(s.deref1(st,r),Ref): r=s.deref1(st,r)
            return one(index(s,st,fr,r,args[1]))
        # --- closures
        if tr in('FnOnce','FnMut','Fn') and m in('call','call_once','call_mut'):
            tup=args[1]
            return s.call_closure(st,args[0],list(tup.f))
        if tr=='Drop': return one(UNIT)
        if tr in('Try',) and m=='branch':
            v=args[0]
            if v.k=='Result':
                return one(Agg('ControlFlow',(v.f[0],),0) if v.v==0 else Agg('ControlFlow',(v,),1))
            if v.k=='Option':
                return one(Agg('ControlFlow',(v.f[0],),0) if v.v==1 else Agg('ControlFlow',(v,),1))
        if tr=='FromResidual' and m=='from_residual':
            v=args[0]
            if isinstance(v,Agg) and v.k=='Result' and t[0]=='path' and t[1]=='Result' and len(t[2])>1:
                src=argts[0]
                return one(Agg('Result',v.f,1))
            return one(v)
        if tr=='Try' and m=='from_output': return one(Agg('Result',(args[0],),0) if t[1]=='Result' else some(args[0]))
        # --- iterators
        if tr=='IntoIterator' and m=='into_iter':
            v=args[0]
            if isinstance(v,Ref) and isinstance(s.deref1(st,v),Ref): v=s.deref1(st,v)
            return one(as_iter(s,st,v))
        if tr in('Iterator','DoubleEndedIterator','ExactSizeIterator'):
            r=iter_model(s,st,fr,q,args,argts)
            if r is not None: return r
        if tr=='FromIterator' and m=='from_iter': return collect(s,st,args[0],t)
        if tr=='Extend' and m=='extend':
            v=s.deref1(st,args[0]); x=args[1]
            items=to_list(s,st,as_iter(s,st,x))
            if targs and targs[0][0]=='ref': items=[s.deref1(st,i) for i in items]
            s.setref(st,args[0],Agg('Vec',v.f+tuple(items))); return one(UNIT)
        if tr=='SliceIndex' or tr=='ToOwned':
            if m=='to_owned': return one(s.deref1(st,args[0]))
        if tr=='ToString' or tr=='Debug' or tr=='Display': return one(Str('str'))
        return None
    # ------------------------------------------------------------ path functions
    n=names(q); last=n[-1]; ty=n[-2] if len(n)>1 else ''
    import re as _re
    if ty=='Choice':
        if last=='unwrap_u8': return one(s.deref(st,args[0]).f[0])
    if ty=='CtOption':
        if last=='new': return one(Agg('CtOption',(args[0],args[1])))
        if last in('is_some','is_none'):
            c=s.deref(st,args[0]).f[1]
            return one(c if last=='is_some' else choice(bI(s.ctx.bnot(c.f[0]),'u8')))
        if last in('unwrap','expect'):
            v=args[0]; c=s.sub_assume(st,v.f[1].f[0])
            if c.const==1: return one(v.f[0])
            if c.const==0:
                s.panics.append((fr.fn.name,'unwrap on none',('cex',{}),dict(st.assume),list(st.pc))); return []
            w=bI(c)
            if s.prune:
                if not s.prune(s,st,w,0): s.assume(st,w,1); return one(v.f[0])
            s.panics.append((fr.fn.name,'unwrap of a possibly-none CtOption',('cex',{}),dict(st.assume),list(st.pc)+[('eq',w.p)]))
            s.assume(st,w,1); return one(v.f[0])
        if last=='unwrap_or':
            v=args[0]
            return s.invoke(st,Frame(0,fr.fn,{'T__':argts[1]}),'<T__ as ConditionallySelectable>::conditional_select',[s.alloc(st,args[1]),s.alloc(st,v.f[0]),v.f[1]],[('ref',argts[1]),('ref',argts[1]),('path','Choice',())])
        if last=='map':
            v=args[0]; out=[]
            # subtle evaluates the closure on Default when none; the value is then irrelevant
            for s2,x in s.call_closure(st,args[1],[v.f[0]]): out.append((s2,Agg('CtOption',(x,v.f[1]))))
            return out
        if last=='or_else':
            v=args[0]; out=[]
            for s2,x in s.call_closure(st,args[1],[]):
                w=s.sub_assume(s2,v.f[1].f[0])
                out.append((s2,Agg('CtOption',(s.merge_val(w,v.f[0],x.f[0]),choice(s.ctx.select(w,w,x.f[1].f[0]))))))
            return out
        if last=='and_then':
            v=args[0]; out=[]
            for s2,x in s.call_closure(st,args[1],[v.f[0]]):
                out.append((s2,Agg('CtOption',(x.f[0],choice(bI(s.ctx.band(x.f[1].f[0],v.f[1].f[0]),'u8'))))))
            return out
    if (ty=='ConditionallySelectable' or ty=='CtOption') and last=='conditional_select' and len(args)==3:
        a,b=s.deref(st,args[0]),s.deref(st,args[1]); w=s.sub_assume(st,args[2].f[0])
        if isinstance(a,Agg) and a.k=='CtOption':
            return one(Agg('CtOption',(s.merge_val(w,b.f[0],a.f[0]),choice(s.ctx.select(w,b.f[1].f[0],a.f[1].f[0])))))
    if ty=='RangeInclusive' and last=='new': return one(Agg('RangeInclusive',(args[0],args[1])))
    if _re.match(r'<impl \[.*\]>',ty) or ty in('slice',) or ty in('Vec','array') or _re.match(r'<impl .*Vec',ty):
        r=slice_model(s,st,fr,q,n,args,argts)
        if r is not None: return r
    if ty=='Option' or ty=='Result':
        r=opt_model(s,st,fr,q,ty,last,args,argts)
        if r is not None: return r
    if last in('panic','panic_fmt','unwrap_failed','begin_panic','assert_failed','panic_display','panic_explicit','expect_failed'):
        s.panics.append((fr.fn.name,last+':'+(args[0].t if args and isinstance(args[0],Str) else ''),('path',{}),dict(st.assume),list(st.pc))); return []
    if last=='swap' and ty=='mem':
        a,b=s.deref1(st,args[0]),s.deref1(st,args[1]); s.setref(st,args[0],b); s.setref(st,args[1],a); return one(UNIT)
    if last=='replace' and ty=='mem':
        a=s.deref1(st,args[0]); s.setref(st,args[0],args[1]); return one(a)
    if last=='take' and ty=='mem':
        a=s.deref1(st,args[0])
        s.setref(st,args[0],Agg('Vec',()) if isinstance(a,Agg) and a.k=='Vec' else NONE if isinstance(a,Agg) and a.k=='Option' else CI(0,a.ty)); return one(a)
    if last in('drop','forget'): return one(UNIT)
    mm=_re.match(r'<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>',ty)
    if mm: return num_model(s,st,fr,mm.group(1),last,args)
    if last=='identity' : return one(args[0])
    if last=='black_box': return one(args[0])
    if ty=='Box' and last=='new_uninit': return one(Agg('Box',(Agg('MaybeUninit',(UNIT,Agg('ManuallyDrop',(UNIT,)))),)))
    if ty in('Box',) and last=='new': return one(Agg('Box',(args[0],)))
    if last=='box_new' or last=='box_assume_init_into_vec_unsafe':
        v=args[0]
        if last=='box_new': return one(Agg('Box',(v,)))
        x=v.f[0] if v.k=='Box' else v
        if isinstance(x,Agg) and x.k=='MaybeUninit': x=x.f[1].f[0]
        return one(Agg('Vec',x.f))
    if ty=='fmt' or ty=='Arguments' or (len(n)>1 and 'fmt' in n): return one(Str('fmt'))
    if last=='get' and ty=='num_cpus' and s.ghost_cpus is not None: return one(CI(s.ghost_cpus,'usize'))
    # crossbeam scoped threads: the borrow checker makes the closures' effects disjoint, so any order of complete
    # executions is representative; both program order and reverse order can be selected
    if last=='scope' and 'thread' in n:
        st.ghost=dict(st.ghost); outer=st.ghost.get('spawned'); st.ghost['spawned']=() if s.spawn_rev else None
        sc=s.alloc(st,Agg('Scope',())); out=[]
        for s2,v in s.call_closure(st,args[0],[sc]):
            todo=s2.ghost.get('spawned') or (); cur=[s2]
            for c in reversed(todo): cur=[s4 for s3 in cur for s4,_ in s.call_closure(s3,c,[sc])]
            for s3 in cur: s3.ghost=dict(s3.ghost); s3.ghost['spawned']=outer; out.append((s3,Agg('Result',(v,),0)))
        return out
    if last=='spawn' and ty=='Scope':
        if st.ghost.get('spawned') is not None:
            st.ghost=dict(st.ghost); st.ghost['spawned']=st.ghost['spawned']+(args[1],); return one(Agg('ScopedJoinHandle',()))
        return [(s2,Agg('ScopedJoinHandle',(v,))) for s2,v in s.call_closure(st,args[1],[args[0]])]
    if ty=='<impl f64>' and args and isinstance(args[0],float):
        import math
        if last=='ln': return one(math.log(args[0]) if args[0]>0 else float('-inf'))
        if last in('ceil','floor','sqrt','log2','round'): return one(float(getattr(math,last)(args[0])))
    if last in('zip',) and ty=='iter': return one(It('zip',as_iter(s,st,args[0]),as_iter(s,st,args[1])))
    if last=='repeat' and ty=='iter': return one(It('repeat',args[0]))
    if last=='once' and ty=='iter': return one(It('list',(args[0],)))
    if last=='empty' and ty=='iter': return one(It('list',()))
    if last=='from_elem' : 
        c=args[1].const
        if c is None: raise MirError('symbolic length')
        return one(Agg('Vec',[args[0]]*c))
    if last=='from_fn' and ty=='array': raise MirError('array::from_fn')
    if ty=='String' : return one(Str('s'))
    if last=='format': return one(Str('s'))
    return None
Interp.ghost_cpus=None; Interp.spawn_rev=False
def _rv_not(self,v):
    hi=trange(v.ty)[1]; return self.ctx.mk(padd(pconst(hi),v.p,-1),hi-v.hi,hi-v.lo,v.ty)
Interp.rv_not=_rv_not

def split_bytes(s,v,n):
    """little-endian bytes of a u(8n)"""
    out=[];cur=v
    for i in range(n):
        if i==n-1: out.append(I(cur.p,cur.lo,min(cur.hi,255),'u8')); break
        q,ql,qh=s.ctx.fdiv(cur,256)
        out.append(s.ctx.mk(padd(cur.p,q,-256),0,255,'u8'))
        cur=s.ctx.mk(q,ql,qh,v.ty)
    return out

def num_model(s,st,fr,ty,last,args):
    one=lambda v:[(st,v)]
    a=s.deref(st,args[0]) if args else None
    b=s.deref(st,args[1]) if len(args)>1 else None
    C=s.ctx
    if last.startswith('wrapping_'):
        op=last[9:]
        if op in('add','sub','mul'): return one(s.binop(st,{'add':'Add','sub':'Sub','mul':'Mul'}[op],a,b))
        if op in('shl','shr'): return one(s.binop(st,'Shl' if op=='shl' else 'Shr',a,b))
        if op=='neg': return one(s.binop(st,'Sub',CI(0,ty),a))
    if last.startswith('overflowing_'):
        op={'add':'Add','sub':'Sub','mul':'Mul'}.get(last[12:])
        if op:
            r=s.binop(st,op+'WithOverflow',a,b); w=s.binop(st,op,a,b); return one(Agg('tuple',(w,r.f[1])))
    if last in('carrying_add','borrowing_sub'):
        pass
    if last.startswith('checked_'): return None
    if last in('to_le_bytes','to_be_bytes','to_ne_bytes'):
        bs=split_bytes(s,a,WID[ty]//8); 
        if last=='to_be_bytes': bs=bs[::-1]
        return one(Agg('array',bs))
    if last in('from_le_bytes','from_be_bytes'):
        bs=list(a.f); 
        if last=='from_be_bytes': bs=bs[::-1]
        p={};hi=0
        for i,x in enumerate(bs): p=padd(p,x.p,1<<(8*i)); hi+=x.hi<<(8*i)
        return one(C.mk(p,0,hi,ty))
    if last in('max_value','min_value'): return one(CI(trange(ty)[1 if last=='max_value' else 0],ty))
    if last=='rotate_right' or last=='rotate_left':
        k=b.const
        if k is None: return None
        w=WID[ty]; k%=w
        if last=='rotate_left': k=(w-k)%w
        if C.bitmode and a.const is None:
            r=C.bitop('Ror',a,CI(k,'u32'),ty)
            if r is not None: return one(r)
        q,ql,qh=C.fdiv(a,1<<k)
        low=padd(a.p,q,-(1<<k))
        return one(C.mk(padd(q,low,1<<(w-k)),0,(1<<w)-1,ty))
    if last=='pow' and a.const is not None and b.const is not None:
        v=a.const**b.const
        if v>trange(ty)[1]:
            s.panics.append((fr.fn.name,'pow overflow',('cex',{}),dict(st.assume),list(st.pc))); return []
        return one(CI(v,ty))
    if a is not None and a.const is not None and (b is None or b.const is not None):
        x=a.const
        if last=='trailing_zeros': return one(CI((x&-x).bit_length()-1 if x else WID[ty],'u32'))
        if last=='leading_zeros': return one(CI(WID[ty]-x.bit_length(),'u32'))
        if last=='count_ones': return one(CI(bin(x).count('1'),'u32'))
        if last=='is_power_of_two': return one(CI(int(x>0 and x&(x-1)==0),'bool'))
        if last=='next_power_of_two': return one(CI(1<<max(0,(x-1).bit_length()),ty))
        if last in('min','max'): return one(CI({'min':min,'max':max}[last](x,b.const),ty))
        if last=='ilog2': return one(CI(x.bit_length()-1,'u32'))
        if last=='saturating_sub': return one(CI(max(0,x-b.const),ty))
        if last=='saturating_add': return one(CI(min(trange(ty)[1],x+b.const),ty))
        if last=='div_ceil': return one(CI(-(-x//b.const),ty))
        if last=='abs_diff': return one(CI(abs(x-b.const),ty))
    return None

def index(s,st,fr,r,ix):
    v=s.deref1(st,r)
    base=r
    if isinstance(v,Agg) and v.k=='Box':
        base=Ref(r.fid,r.loc,r.pr+(('f',0),)); v=s.deref1(st,base)
    n=len(v.f)
    if isinstance(ix,I):
        c=ix.const
        if c is None:
            if ix.lo<0 or ix.hi>=n:
                ok=s.ctx.boolprove(s.ctx.bool_of('ge',padd(pconst(n-1),ix.p,-1)).p,st.pc,st.assume) and s.ctx.boolprove(s.ctx.bool_of('ge',ix.p).p,st.pc,st.assume)
                if not ok: raise MirError('symbolic index not shown in range')
                ix=I(ix.p,max(0,ix.lo),min(n-1,ix.hi),ix.ty)
            return Ref(base.fid,base.loc,s.addsym(base.pr,ix,n))
        if not 0<=c<n:
            s.panics.append((fr.fn.name,'index out of bounds',('cex',{}),dict(st.assume),list(st.pc))); raise PanicPath()
        return Ref(base.fid,base.loc,s.addidx(base.pr,c))
    if isinstance(ix,Agg):
        g=lambda x:x.const
        if ix.k=='Range': a,b=g(ix.f[0]),g(ix.f[1])
        elif ix.k=='RangeFrom': a,b=g(ix.f[0]),n
        elif ix.k=='RangeTo': a,b=0,g(ix.f[0])
        elif ix.k=='RangeInclusive': a,b=g(ix.f[0]),g(ix.f[1])+1
        elif ix.k=='RangeToInclusive': a,b=0,g(ix.f[0])+1
        elif ix.k=='RangeFull': a,b=0,n
        else: raise MirError('index by '+ix.k)
        if a is None or b is None: raise MirError('symbolic range index')
        if not (0<=a<=b<=n):
            s.panics.append((fr.fn.name,'slice out of bounds',('cex',{}),dict(st.assume),list(st.pc))); raise PanicPath()
        return subslice(base,a,b)
    raise MirError('index')
class PanicPath(MirError): pass
def subslice(r,a,b):
    pr=r.pr
    if pr and pr[-1][0]=='sl':
        o=pr[-1][1]; return Ref(r.fid,r.loc,pr[:-1]+(('sl',o+a,o+b),))
    return Ref(r.fid,r.loc,pr+(('sl',a,b),))

def fork(s,st,b):
    """outcomes of a boolean: (state, 0/1)"""
    b=s.sub_assume(st,b) if b.const is None else b
    if b.const is not None: return [(st,int(b.const))]
    ok0=ok1=True
    if s.prune: ok0=s.prune(s,st,b,0); ok1=s.prune(s,st,b,1)
    out=[]
    for ok,v in((ok0,0),(ok1,1)):
        if ok:
            s2=st.copy(); s.assume(s2,b,v); out.append((s2,v))
    return out
def search_iter(s,st,v,it,m,clo,step=None):
    """position / rposition / find / find_map / any / all, forking on undecided tests"""
    work=[(st,it,0)]; res=[]; n0=it_len(s,st,it) if m=='rposition' else None
    while work:
        s1,i,k=work.pop()
        for s2,x,j in(it_next_back(s,s1,i,lambda z:z) if m=='rposition' else it_next(s,s1,i)):
            if x is None:
                s.setref(s2,v,j); res.append((s2,{'any':FALSE(),'all':TRUE()}.get(m,NONE))); continue
            for s3,b in s.call_closure(s2,clo,[s.alloc(s2,x)] if m=='find' else [x]):
                if m=='find_map':
                    if b.v==1: s.setref(s3,v,j); res.append((s3,b))
                    else: work.append((s3,j,k+1))
                    continue
                for s4,t in fork(s,s3,b):
                    if t==(0 if m=='all' else 1):
                        s.setref(s4,v,j); res.append((s4,{'any':TRUE(),'all':FALSE()}[m] if m in('any','all') else some(x) if m=='find' else some(CI(k if n0 is None else n0-1-k,'usize'))))
                    else: work.append((s4,j,k+1))
    return res
def try_iter(s,st,v,it,m,args):
    """try_fold / try_for_each over Result and Option"""
    work=[(st,it,args[1] if m=='try_fold' else None)]; res=[]; kind=None; pend=[]
    while work:
        s1,i,acc=work.pop()
        for s2,x,j in it_next(s,s1,i):
            if x is None: s.setref(s2,v,j); pend.append((s2,acc)); continue
            for s3,b in s.call_closure(s2,args[-1],[acc,x] if m=='try_fold' else [x]):
                if not isinstance(b,Agg) or b.k not in('Result','Option') or not isinstance(b.v,int): raise MirError(m+' over '+str(b)[:40])
                kind=b.k
                if b.v==(0 if kind=='Result' else 1): work.append((s3,j,b.f[0]))
                else: s.setref(s3,v,j); res.append((s3,b))
    for s2,acc in pend:
        if kind is None: raise MirError(m+' over an empty sequence')
        x=UNIT if m=='try_for_each' else acc
        res.append((s2,Agg('Result',(x,),0) if kind=='Result' else some(x)))
    return res
def iter_model(s,st,fr,q,args,argts):
    one=lambda v:[(st,v)]
    m=q[4]
    if m in('next','next_back'):
        r=args[0]; it=s.deref1(st,r)
        if isinstance(it,Ref): r=it; it=s.deref1(st,r)
        if not isinstance(it,It): it=as_iter(s,st,it)
        out=[]
        rs=it_next(s,st,it) if m=='next' else it_next_back(s,st,it,lambda i:i)
        for s2,x,i in rs:
            s.setref(s2,r,i); out.append((s2,NONE if x is None else some(x)))
        return out
    v=args[0]
    if m in('by_ref',): return one(v)
    if isinstance(v,Ref) and m in('nth','any','all','position','rposition','find','find_map','try_fold','try_for_each','len','size_hint'):
        inner=s.deref1(st,v)
        if m=='len': return one(CI(it_len(s,st,inner if isinstance(inner,It) else as_iter(s,st,inner)),'usize'))
        if not isinstance(inner,It): inner=as_iter(s,st,inner)
        if m=='nth':
            k=args[1].const; it=inner
            for _ in range(k+1):
                (st,x,it),=it_next(s,st,it)
                if x is None: break
            s.setref(st,v,it); return [(st,NONE if x is None else some(x))]
        if m in('position','rposition','find','find_map') or m in('any','all') and s.prune: return search_iter(s,st,v,inner,m,args[1])
        if m in('try_fold','try_for_each'): return try_iter(s,st,v,inner,m,args)
        if m in('any','all'):
            it=inner; acc=FALSE() if m=='any' else TRUE()
            while True:
                (st,x,it),=it_next(s,st,it)
                if x is None: break
                rr=s.call_closure(st,args[1],[x])
                if len(rr)!=1: raise MirError('any fork')
                st,b=rr[0]
                acc=s.ctx.bor(acc,b) if m=='any' else s.ctx.band(acc,b)
                if acc.const==(1 if m=='any' else 0): break
            s.setref(st,v,it); return [(st,acc)]
        return None
    it=as_iter(s,st,v)
    if m=='rev': return one(It('rev',it))
    if m=='enumerate': return one(It('enum',it,0))
    if m=='zip': return one(It('zip',it,as_iter(s,st,args[1])))
    if m=='cycle': return one(It('cycle',it,it))
    if m=='chain': return one(It('chain',it,as_iter(s,st,args[1])))
    if m=='map': return one(It('map',it,args[1]))
    if m=='filter': return one(It('filter',it,args[1]))
    if m in('filter_map','take_while','skip_while','map_while','inspect'): return one(It(m,it,args[1]))
    if m=='unzip':
        l=to_list(s,st,it); return one(Agg('tuple',(Agg('Vec',[x.f[0] for x in l]),Agg('Vec',[x.f[1] for x in l]))))
    if m=='skip': return one(It('skip',it,args[1].const))
    if m=='take': return one(It('take',it,args[1].const))
    if m=='step_by': return one(It('stepby',it,args[1].const))
    if m in('cloned','copied'): return one(It('cloned',it))
    if m=='flat_map': return one(It('flat',it,args[1],None))
    if m=='flatten': return one(It('flat',it,None,None))
    if m=='peekable': return one(It('peek',it,None))
    if m=='collect':
        c=s.callee_ret(q,fr)
        return collect(s,st,it,c)
    if m=='count': return one(CI(len(to_list(s,st,it)),'usize'))
    if m=='last':
        l=to_list(s,st,it); return one(some(l[-1]) if l else NONE)
    if m=='fold':
        outs=[(st,args[1],it)]; res=[]
        while outs:
            s2,acc,i=outs.pop()
            for s3,x,j in it_next(s,s2,i):
                if x is None: res.append((s3,acc));continue
                for s4,v4 in s.call_closure(s3,args[2],[acc,x]): outs.append((s4,v4,j))
        return res
    if m=='for_each':
        outs=[(st,it)]; res=[]
        while outs:
            s2,i=outs.pop()
            for s3,x,j in it_next(s,s2,i):
                if x is None: res.append((s3,UNIT));continue
                for s4,v4 in s.call_closure(s3,args[1],[x]): outs.append((s4,j))
        return res
    if m=='sum' or m=='product':
        l=to_list(s,st,it)
        if all(isinstance(s.deref(st,x),I) for x in l):
            acc=CI(0 if m=='sum' else 1,s.deref(st,l[0]).ty if l else 'usize')
            for x in l: acc=checked(s,st,'Add' if m=='sum' else 'Mul',acc,s.deref(st,x))
            return one(acc)
    if m in('sum','product') and False: pass
    if m in('min','max'):
        l=[s.deref(st,x).const for x in to_list(s,st,it)]
        if all(x is not None for x in l): return one(some(CI({'min':min,'max':max}[m](l),'usize')))
    return None
def _callee_ret(self,q,fr):
    segs=q[5]
    for x in segs:
        if x.startswith('<'):
            from .types import _genargs
            g=_genargs(x)
            if g: return subst(g[0],fr.env,self.assoc)
    return None
Interp.callee_ret=_callee_ret

def slice_model(s,st,fr,q,n,args,argts):
    one=lambda v:[(st,v)]
    last=n[-1]
    if last in('with_capacity','new'): return one(Agg('Vec',()))
    if not args: return None
    r=args[0]
    if isinstance(r,Ref):
        while isinstance(s.deref1(st,r),Ref): r=s.deref1(st,r)
        v=s.deref1(st,r)
    else: v=r
    if isinstance(v,Agg) and v.k=='Box' and isinstance(r,Ref): r=Ref(r.fid,r.loc,r.pr+(('f',0),)); v=s.deref1(st,r)
    if not isinstance(v,Agg): return None
    if has_run(v) and not getattr(v.f[0],'macro',False):
        if last=='len': return one(s.vlen(v))
        if last=='chunks' and args[1].const and s.ctx.fdiv(v.f[0].n,args[1].const)[0] is not None and all(c%args[1].const==0 for c in v.f[0].n.p.values()):
            k=args[1].const; return one(It('list',(subslice(r,0,1),)+tuple(subslice(r,i,min(len(v.f),i+k)) for i in range(1,len(v.f),k))))
        if last not in('push','to_vec','into_vec','to_owned','as_slice','deref','clone'): raise MirError(last+' on a sequence with an opaque part')
    if last in('iter','iter_mut'): return one(It('list',tuple(seq_items(s,st,r))))
    if last=='len': return one(CI(len(v.f),'usize'))
    if last=='is_empty': return one(CI(int(not v.f),'bool'))
    if last=='push': s.setref(st,r,Agg('Vec',v.f+(args[1],))); return one(UNIT)
    if last=='pop':
        if not v.f: return one(NONE)
        s.setref(st,r,Agg('Vec',v.f[:-1])); return one(some(v.f[-1]))
    if last=='insert':
        k=args[1].const; s.setref(st,r,Agg('Vec',v.f[:k]+(args[2],)+v.f[k:])); return one(UNIT)
    if last=='remove':
        k=args[1].const; s.setref(st,r,Agg('Vec',v.f[:k]+v.f[k+1:])); return one(v.f[k])
    if last=='truncate':
        k=args[1].const; s.setref(st,r,Agg('Vec',v.f[:k])); return one(UNIT)
    if last=='clear': s.setref(st,r,Agg('Vec',())); return one(UNIT)
    if last=='resize':
        k=args[1].const; f=v.f[:k]+(args[2],)*max(0,k-len(v.f)); s.setref(st,r,Agg('Vec',f)); return one(UNIT)
    if last in('extend_from_slice',):
        o=s.deref(st,args[1]); s.setref(st,r,Agg('Vec',v.f+o.f)); return one(UNIT)
    if last=='append':
        o=s.deref1(st,args[1]); s.setref(st,r,Agg('Vec',v.f+o.f)); s.setref(st,args[1],Agg('Vec',())); return one(UNIT)
    if last=='drain':
        rg=args[1]; ref=index(s,st,fr,r,rg); items=s.deref1(st,ref).f
        a=ref.pr[-1][1]; b=ref.pr[-1][2]
        s.setref(st,r,Agg('Vec',v.f[:a]+v.f[b:])); return one(It('list',items))
    if last=='split_off':
        k=args[1].const; s.setref(st,r,Agg('Vec',v.f[:k])); return one(Agg('Vec',v.f[k:]))
    if last in('to_vec','into_vec','to_owned'): return one(Agg('Vec',v.f))
    if last in('as_slice','as_mut_slice','as_ref','as_mut'): return one(Ref(r.fid,r.loc,r.pr if r.pr and r.pr[-1][0]=='sl' else r.pr+(('sl',0,len(v.f)),)))
    if last in('reverse',):
        s.setref(st,r,Agg(v.k,v.f[::-1])); return one(UNIT)
    if last=='swap':
        a,b=args[1].const,args[2].const
        if a is None or b is None: raise MirError('symbolic swap')
        f=list(v.f); f[a],f[b]=f[b],f[a]; s.setref(st,r,Agg(v.k,f)); return one(UNIT)
    if last in('split_at','split_at_mut'):
        k=args[1].const
        if k is None or k>len(v.f): raise MirError('split_at')
        return one(Agg('tuple',(subslice(r,0,k),subslice(r,k,len(v.f)))))
    if last in('chunks','chunks_mut','chunks_exact','chunks_exact_mut'):
        k=args[1].const
        if not k:
            s.panics.append((fr.fn.name,'chunk size zero',('cex',{}),dict(st.assume),list(st.pc))); return []
        L=len(v.f); out=[]
        for i in range(0,L,k):
            if last.startswith('chunks_exact') and i+k>L: break
            out.append(subslice(r,i,min(L,i+k)))
        return one(It('list',tuple(out)))
    if last in('split_first','split_last','split_first_mut','split_last_mut'):
        if not v.f: return one(NONE)
        L=len(v.f); a=(0,1,L) if 'first' in last else (L-1,0,L-1)
        return one(some(Agg('tuple',(Ref(r.fid,r.loc,s.addidx(r.pr,a[0])),subslice(r,a[1],a[2])))))
    if last in('rchunks',):
        k=args[1].const; L=len(v.f); return one(It('list',tuple(subslice(r,max(0,j-k),j) for j in range(L,0,-k))))
    if last=='contains':
        x=s.deref(st,args[1]); acc=FALSE()
        if all(isinstance(s.deref(st,y),I) for y in v.f) and isinstance(x,I):
            for y in v.f: acc=s.ctx.bor(acc,val_eq(s,st,s.deref(st,y),x))
            return one(acc)
    if last=='resize_with':
        k=args[1].const; f=list(v.f[:k]); s1=st
        while len(f)<k:
            rr=s.call_closure(s1,args[2],[])
            if len(rr)!=1: raise MirError('resize_with fork')
            s1,x=rr[0]; f.append(x)
        s.setref(s1,r,Agg('Vec',f)); return [(s1,UNIT)]
    if last=='windows':
        k=args[1].const; return one(It('list',tuple(subslice(r,i,i+k) for i in range(0,len(v.f)-k+1))))
    if last in('first','last','first_mut','last_mut'):
        if not v.f: return one(NONE)
        i=0 if last.startswith('first') else len(v.f)-1
        return one(some(Ref(r.fid,r.loc,s.addidx(r.pr,i))))
    if last in('get','get_mut'):
        k=args[1].const if isinstance(args[1],I) else None
        if k is None: return None
        return one(some(Ref(r.fid,r.loc,s.addidx(r.pr,k))) if k<len(v.f) else NONE)
    if last in('copy_from_slice','clone_from_slice'):
        o=s.deref(st,args[1])
        if len(o.f)!=len(v.f):
            s.panics.append((fr.fn.name,'copy_from_slice length',('cex',{}),dict(st.assume),list(st.pc))); return []
        for t,x in zip(seq_items(s,st,r),o.f): s.setref(st,t,x)
        return one(UNIT)
    if last=='fill':
        for t in seq_items(s,st,r): s.setref(st,t,args[1])
        return one(UNIT)
    if last=='rotate_left' or last=='rotate_right':
        k=args[1].const; f=v.f; k=k if last=='rotate_left' else len(f)-k
        for t,x in zip(seq_items(s,st,r),f[k:]+f[:k]): s.setref(st,t,x)
        return one(UNIT)
    if last=='concat':
        out=()
        for x in v.f: out+=s.deref(st,x).f
        return one(Agg('Vec',out))
    if last=='map' and v.k=='array':
        outs=[];cur=[(st,[])]
        for x in v.f:
            nx=[]
            for s2,acc in cur:
                for s3,y in s.call_closure(s2,args[1],[x]): nx.append((s3,acc+[y]))
            cur=nx
        return [(s2,Agg('array',a)) for s2,a in cur]
    return None

def opt_model(s,st,fr,q,ty,last,args,argts):
    one=lambda v:[(st,v)]
    r=args[0]
    ref=isinstance(r,Ref)
    v=s.deref(st,r)
    if not isinstance(v,Agg): return None
    if isinstance(v.v,I): raise MirError('symbolic option')
    good=(v.v==1) if ty=='Option' else (v.v==0)
    mkgood=(lambda x:some(x)) if ty=='Option' else (lambda x:Agg('Result',(x,),0))
    if last in('is_some','is_ok'): return one(CI(int(good),'bool'))
    if last in('is_none','is_err'): return one(CI(int(not good),'bool'))
    if last in('unwrap','expect'):
        if good: return one(v.f[0])
        s.panics.append((fr.fn.name,'unwrap on None/Err',('path',{}),dict(st.assume),list(st.pc))); return []
    if last=='take' and ref: s.setref(st,r,NONE); return one(v)
    if last=='replace' and ref: s.setref(st,r,some(args[1])); return one(v)
    if last in('as_ref','as_mut','as_deref'):
        rr=r
        while isinstance(s.deref1(st,rr),Ref): rr=s.deref1(st,rr)
        if ty=='Option' and not good: return one(NONE)
        x=Ref(rr.fid,rr.loc,rr.pr+(('f',0),))
        if last=='as_deref':
            y=s.deref1(st,x)
            if isinstance(y,Agg) and y.k=='Vec': x=Ref(x.fid,x.loc,x.pr+(('sl',0,len(y.f)),))
        return one(Agg(ty,(x,),v.v))
    if last in('cloned','copied'): return one(v if not good else mkgood(s.deref1(st,v.f[0])))
    if last=='map':
        if not good: return one(v)
        return [(s2,mkgood(x)) for s2,x in s.call_closure(st,args[1],[v.f[0]])]
    if last=='map_err':
        if good: return one(v)
        return [(s2,Agg('Result',(x,),1)) for s2,x in s.call_closure(st,args[1],[v.f[0]])]
    if last=='and_then':
        if not good: return one(v)
        return s.call_closure(st,args[1],[v.f[0]])
    if last=='or_else':
        if good: return one(v)
        return s.call_closure(st,args[1],[v.f[0]] if ty=='Result' else [])
    if last=='or': return one(v if good else args[1])
    if last=='and': return one(args[1] if good else v)
    if last=='ok_or': return one(Agg('Result',(v.f[0],),0) if good else Agg('Result',(args[1],),1))
    if last=='ok_or_else':
        if good: return one(Agg('Result',(v.f[0],),0))
        return [(s2,Agg('Result',(x,),1)) for s2,x in s.call_closure(st,args[1],[])]
    if last=='ok': return one(some(v.f[0]) if good else NONE)
    if last=='err': return one(some(v.f[0]) if not good else NONE)
    if last=='unwrap_or': return one(v.f[0] if good else args[1])
    if last=='unwrap_or_else':
        return one(v.f[0]) if good else s.call_closure(st,args[1],[] if ty=='Option' else [v.f[0]])
    if last=='map_or': return s.call_closure(st,args[2],[v.f[0]]) if good else one(args[1])
    if last=='map_or_else': return s.call_closure(st,args[2],[v.f[0]]) if good else s.call_closure(st,args[1],[])
    if last=='unwrap_or_default' : 
        if good: return one(v.f[0])
    if last=='filter':
        if not good: return one(v)
        out=[]
        for s2,b in s.call_closure(st,args[1],[s.alloc(st,v.f[0])]):
            if b.const is None: raise MirError('filter')
            out.append((s2,v if b.const else NONE))
        return out
    if last in('iter','iter_mut') and ref:
        rr=r
        while isinstance(s.deref1(st,rr),Ref): rr=s.deref1(st,rr)
        return one(It('list',(Ref(rr.fid,rr.loc,rr.pr+(('f',0),)),) if good else ()))
    if last in('iter','into_iter'): return one(as_iter(s,st,v))
    if last in('is_some_and','is_ok_and'): return s.call_closure(st,args[1],[v.f[0]]) if good else one(FALSE())
    if last=='is_none_or': return s.call_closure(st,args[1],[v.f[0]]) if good else one(TRUE())
    if last=='zip' and ty=='Option':
        o=args[1]; return one(some(Agg('tuple',(v.f[0],o.f[0]))) if good and o.v==1 else NONE)
    if last=='xor' and ty=='Option':
        o=args[1]; return one(v if good and o.v==0 else o if not good and o.v==1 else NONE)
    if last in('insert','get_or_insert','get_or_insert_with') and ref and ty=='Option':
        rr=r
        while isinstance(s.deref1(st,rr),Ref): rr=s.deref1(st,rr)
        x=Ref(rr.fid,rr.loc,rr.pr+(('f',0),))
        if last=='insert' or not good:
            for_=[(st,args[1])] if last!='get_or_insert_with' else s.call_closure(st,args[1],[])
            for s2,y in for_: s.setref(s2,rr,some(y))
            return [(s2,x) for s2,y in for_]
        return one(x)
    return None
