"""Recorder contract for ConstraintSystem and constraint-level reasoning over the abstract field domain.
A synthesised gadget is a list of gates a*b=c and linear constraints over variables, each variable with its honest
value.  Completeness: every constraint vanishes on the honest values, identically in the inputs.  Soundness: the same
constraints with every internal variable replaced by an unknown entail the output relation."""
import random, itertools
from .gp import *
from . import fw
REC=('path','Rec',())
F0=Frame(0,None,{})
class Sys:
    """recorded system: variables [(honest value or None, kind)], gates [(i,j,k)], lcs [[(coef FE, var)]], public inputs"""
    def __init__(s,vars=(),gates=(),lcs=(),inputs=(),log=()): s.vars=vars; s.gates=gates; s.lcs=lcs; s.inputs=inputs; s.log=log
    def with_(s,**k):
        d=dict(vars=s.vars,gates=s.gates,lcs=s.lcs,inputs=s.inputs,log=s.log); d.update(k); return Sys(**d)
    def shape(s,D): return (len(s.vars),s.gates,tuple(tuple((pkey(D.red(c.p)),v) for c,v in l) for l in s.lcs),s.inputs)
def is_err(v): return v.v==1
class Gad:
    def __init__(s,mir,F,*more):
        s.F=F; s.it=Interp(mir); s.st=State(); ds=setup(s.it,F,*more); s.D=ds[0]; s.Ds=dict(zip((F,)+more,ds)); it=s.it
        it.merge=True; it.assoc_tab=dict(ASSOC); it.assoc_tab[('Rec','Root')]=REC; s.witness=True
        it.contracts.insert(0,s.contract); it.const_hooks=(s.hook,)
        s.one=s.V(0); s.sys0=Sys(vars=((s.D.const(1),'one'),)); s.st.ghost=dict(s.st.ghost); s.st.ghost['cs']=s.sys0
    def V(s,i): return Agg('Variable',(CI(i,'usize'),),0)
    def vi(s,v):
        if not(isinstance(v,Agg) and v.v==0): raise MirError(f'variable {v}')
        return v.f[0].const
    def hook(s,t,name): 
        if name=='ONE' and t[0] in('path','ref') : return s.one
        return None
    def new(s,st,val,kind):
        c=st.ghost['cs']; st.ghost=dict(st.ghost); st.ghost['cs']=c.with_(vars=c.vars+((val,kind),)); return len(c.vars)
    def upd(s,st,**k): st.ghost=dict(st.ghost); st.ghost['cs']=st.ghost['cs'].with_(**k)
    def coeff(s,st,c):
        D=s.D
        return D.const((0,1,-1)[c.v]) if c.v<3 else D.fe(c.f[0],st)
    def lc(s,st,v):
        v=s.it.deref(st,v) if isinstance(v,Ref) else v
        items=v.f[0]; items=s.it.deref(st,items) if isinstance(items,Ref) else items
        return tuple((s.coeff(st,t.f[1]),s.vi(t.f[0])) for t in items.f)
    def contract(s,it,st,fr,q,args,argts):
        if q[0]!='trait' or q[2]!='ConstraintSystem': return None
        t=q[1]
        if t[0]!='path' or t[1]!='Rec': return None
        m=q[4]; it.used_contracts.add('ConstraintSystem::'+m+' (recorder)')
        if m in('alloc','alloc_input','multiply'):
            k=3 if m=='multiply' else 1; outs=[]
            if s.witness or s.force_eval: rs=it.call_closure(st,args[2],[])
            else: rs=[(st,None)]
            for s2,r in rs:
                if r is not None and is_err(r):
                    if s.witness: outs.append((s2,r)); continue
                    r=None
                vals=[None]*k if r is None else [s.D.fe(x,s2) for x in (r.f[0].f if k==3 else [r.f[0]])]
                ids=[s.new(s2,v,m) for v in vals]; c=s2.ghost['cs']
                if k==3: s.upd(s2,gates=c.gates+(tuple(ids),),log=c.log+(('gate',)+tuple(ids),))
                elif m=='alloc_input': s.upd(s2,inputs=c.inputs+(ids[0],),log=c.log+(('input',ids[0]),))
                else: s.upd(s2,log=c.log+(('alloc',ids[0]),))
                v=[s.V(i) for i in ids]
                outs.append((s2,Agg('Result',(Agg('tuple',v) if k==3 else v[0],),0)))
            return outs
        if m=='enforce_zero':
            l=s.lc(st,args[1]); c=st.ghost['cs']; s.upd(st,lcs=c.lcs+(l,),log=c.log+(('lc',l),)); return [(st,UNIT)]
        if m in('push_namespace','pop_namespace'): return [(st,UNIT)]
        if m=='get_root': return [(st,args[0])]
        if m=='namespace': return None
        return None
    force_eval=False
    # ----- inputs
    def bit_atom(s,name): a=s.it.ctx.atom(name,0,1,'bit'); return I({(a,):1},0,1,'bool')
    def invar(s,st,fe): return s.new(st,fe,'given')
    def abit(s,st,name):
        """allocated bit with symbolic value; returns (AllocatedBit, FE)"""
        b=s.bit_atom(name) if isinstance(name,str) else name; fe=FE(s.D,dict(b.p)); i=s.invar(st,fe)
        return Agg('AllocatedBit',s.order('AllocatedBit',dict(value=some(b) if s.witness else NONE,var=s.V(i)))),fe
    def boolean(s,st,kind,name):
        """kind: is, not, 0, 1; returns (Boolean, FE value)"""
        if kind in('0','1'): return Agg('Boolean',(CI(int(kind),'bool'),),2),s.D.const(int(kind))
        b,fe=s.abit(st,name)
        return (Agg('Boolean',(b,),0),fe) if kind=='is' else (Agg('Boolean',(b,),1),s.D.const(1)-fe)
    def order(s,ty,d):
        f=s.it.mir.struct_fields(ty)
        if f is None or set(f)!=set(d): raise MirError('fields of '+ty+' not recognised: '+str(f))
        return tuple(d[x] for x in f)
    def get(s,v,ty,field): return v.f[s.it.mir.struct_fields(ty).index(field)]
    def bool_lc(s,st,v):
        """(lc of a Boolean's or AllocatedBit's value, Option<bool> value)"""
        D=s.D
        if v.k=='AllocatedBit': return ((D.const(1),s.vi(s.get(v,'AllocatedBit','var'))),),s.get(v,'AllocatedBit','value')
        if v.v==2:
            c=v.f[0]; return ((FE(D,D.red(c.p)),0),),some(c)
        l,o=s.bool_lc(st,v.f[0])
        if v.v==0: return l,o
        return ((D.const(1),0),)+tuple((-c,x) for c,x in l),(Agg('Option',(s.it.ctx.bnot(o.f[0]),),1) if o.v==1 else o)
    def ev(s,lc,vals):
        r=s.D.const(0)
        for c,v in lc: r=r+c*vals[v]
        return r
    # ----- running
    def run(s,callee,args,argts,st,rett=None,ok=True):
        return s.it.invoke(st,F0,callee,args,argts,rett)
    def honest_bad(s,sys,st=None):
        """list of constraints not satisfied identically by the honest values: (text, poly)"""
        h=[v for v,_ in sys.vars]; bad=[]
        for i,j,k in sys.gates:
            d=s.simp(st,h[i]*h[j]-h[k])
            if d: bad.append((f'gate {i}*{j}={k}',d))
        for n,l in enumerate(sys.lcs):
            d=s.simp(st,s.ev(l,h))
            if d: bad.append((f'linear constraint {n}',d))
        return bad
    def simp(s,st,fe):
        p=fe.p; D=s.D
        if st is not None:
            e=st.ghost.get('sub')
            if e: p=D.subst(p,e)
            if st.assume: p=D.red(D.C.psub(p,st.assume))
        for q,l in s.it.ctx.bitrels:
            if not p: break
            r=dict(q)
            for i,b in enumerate(l): r=padd(r,b,-(1<<i))
            p=reduce_by(D,p,D.red(r))
        p=D.clear(p)
        if p and st is not None:
            p=D.strip_nz(st,p)
            for z in st.ghost.get('z',()):
                q=dict(z) if not isinstance(z,dict) else z
                p=reduce_by(D,p,q)
        return p
    # ----- soundness
    def unknowns(s,sys):
        D=s.D; vals=[]; un={}
        for i,(v,k) in enumerate(sys.vars):
            if k in('one','given'): vals.append(v)
            else:
                x=D.var(f'w{i}'); un[next(iter(x.p))[0]]=i; vals.append(x)
        return vals,un
    def entails(s,sys,goals,hyps=(),split_inputs=True,budget=4000,bools=(),nz=()):
        """goals(vals) -> list of FE that must vanish.  Returns (True,None) | (False,counterexample) | (None,reason)"""
        vals,un=s.unknowns(sys)
        eqs=[(vals[i]*vals[j]-vals[k]).p for i,j,k in sys.gates]+[s.ev(l,vals).p for l in sys.lcs]+[h.p for h in hyps]
        gs=[g.p for g in goals(vals)]
        sol=Solver(s.D,set(un),budget)
        r,w=sol.go([e for e in eqs if e],gs,{},tuple(nz))
        if r is False and w is not None:
            w=dict(assignment={f'var{un[a]}':hex(v) for a,v in w.items() if a in un},inputs={s.D.C.atoms[a].name:hex(v) for a,v in w.items() if a not in un and s.D.C.atoms[a].name[:3]!='inv'})
        return r,w
def reduce_by(D,p,q):
    """one multivariate division of p by q (leading monomial = max)"""
    if not q: return p
    lm=max(q,key=lambda m:(len(m),m)); k=pow(q[lm],-1,D.P); n=0
    while n<200:
        n+=1; hit=None
        for m in p:
            l=list(m)
            try:
                for a in lm: l.remove(a)
            except ValueError: continue
            hit=(m,tuple(l)); break
        if hit is None: return p
        m,r=hit; c=p[m]*k%D.P
        p=D.red(padd(p,D.C.pmul({r:c},q),-1))
    return p
class Solver:
    """Decide: do the equations entail that one of... every goal vanishes?  Elimination and case splits over F_p."""
    def __init__(s,D,un,budget): s.D=D; s.un=un; s.n=budget; s.rnd=random.Random(5); s.dl=time.time()+120
    def atoms(s,p): return {a for m in p for a in m}
    def isbool(s,a): A=s.D.C.atoms[a]; return A.lo==0 and A.hi==1
    def bool_ok(s,e,a):
        """e = 0 solved for the boolean a gives a boolean for every value of the other (boolean) atoms"""
        D=s.D; o=sorted(s.atoms(e)-{a})
        if len(o)>3 or not all(s.isbool(b) for b in o): return False
        k=pow(e[(a,)],-1,D.P)
        for vs in itertools.product((0,1),repeat=len(o)):
            t=0; w=dict(zip(o,vs))
            for m,c in e.items():
                if m!=(a,):
                    for b in m: c*=w[b]
                    t+=c
            if -t*k%D.P not in(0,1): return False
        return True
    def sub(s,p,env): return s.D.subst(p,env)
    def lift(s,env,e2):
        r={a:s.sub(p,e2) for a,p in env.items()}; r.update(e2); return r
    def go(s,eqs,goals,env,nz):
        """env: eliminated atoms; nz: polys assumed non-zero. Proves goals from eqs; returns verdict, witness"""
        D=s.D; s.n-=1
        if s.n<0 or time.time()>s.dl: return None,'budget'
        new={}
        def res(p):
            """substitute what this call has eliminated, repeatedly"""
            for _ in range(60):
                if not any(a in new for m in p for a in m): return p
                p=D.subst(p,{a:new[a] for m in p for a in m if a in new})
            raise MirError('substitution does not end')
        work=sorted(eqs,key=len); done=False
        while not done:
            done=True; rest=[]; seen=set()
            for e in work:
                e=res(e)
                if not e: continue
                e=s.strip(D.clear(e),nz)
                if not e: continue
                if len(e)==1 and () in e: return True,None
                pick=None; cnt={}
                for m in e:
                    for a in set(m): cnt[a]=cnt.get(a,0)+1
                for a in sorted(cnt,reverse=True):
                    if a in s.un and cnt[a]==1 and (a,) in e and (not s.isbool(a) or s.bool_ok(e,a)): pick=a; break
                if pick is None and len(cnt)==1 and s.isbool(next(iter(cnt))):
                    a=next(iter(cnt)); ok=[v for v in(0,1) if sum(c*v**len(m) for m,c in e.items())%D.P==0]
                    if not ok: return True,None
                    if len(ok)==1: new[a]={():1} if ok[0] else {}; done=False
                    continue
                if pick is not None:
                    k=pow(e[(pick,)],-1,D.P); new[pick]=D.red(pscale({x:c for x,c in e.items() if x!=(pick,)},-k)); done=False; continue
                if len(cnt)==1:
                    # unknown u with u^2=u becomes a boolean atom
                    a=next(iter(cnt))
                    if a in s.un and set(e)=={(a,),(a,a)} and (e[(a,)]+e[(a,a)])%D.P==0:
                        b=D.C.atom('bit_'+D.C.atoms[a].name,0,1,'bit'); s.un.add(b); new[a]={(b,):1}; done=False; continue
                e=D.monic(e); k=pkey(e)
                if k not in seen: seen.add(k); rest.append(e)
            work=rest
        eqs=work
        if new:
            new={a:res(p) for a,p in new.items()}
            goals=[D.subst(g,new) for g in goals]; env=s.lift(env,new)
            nz=tuple(D.clear(D.subst(z,new)) for z in nz)
            if any(not z for z in nz): return True,None
            nz=tuple(D.monic(z) for z in nz)
        if any(not z for z in nz): return True,None
        ks={pkey(e) for e in eqs}
        if any(pkey(z) in ks for z in nz): return True,None
        goals=[g for g in (s.strip(D.clear(g),nz) for g in goals) if g]
        goals=[g for g in (s.red_by(g,eqs) for g in goals) if g]
        if not goals: return True,None
        # case splits
        for e in eqs:
            common=set(next(iter(e)))
            for m in e: common&=set(m)
            c=[a for a in common]
            if c:
                a=c[0]; q={}
                for m,k in e.items(): l=list(m); l.remove(a); q[tuple(l)]=k
                r,w=s.case0(eqs,goals,env,nz,{(a,):1})
                if r is not True: return r,w
                return s.go([q if x is e else x for x in eqs],goals,env,nz+({(a,):1},))
        # boolean atoms occurring in equations
        bs={}
        for e in eqs:
            for a in s.atoms(e):
                if s.isbool(a): bs[a]=bs.get(a,0)+1
        if len(bs)>40: return None,'too many boolean unknowns'
        if bs:
            a=max(bs,key=lambda x:(bs[x],-x)); res=[]
            for v in(0,1):
                e2={a:({():1} if v else {})}
                r,w=s.go([s.sub(x,e2) for x in eqs],[s.sub(g,e2) for g in goals],s.lift(env,e2),tuple(s.sub(z,e2) for z in nz))
                if r is not True: return r,w
            return True,None
        # quadratic factor patterns  (u-c)(u-d) with one unknown
        for e in eqs:
            f=s.factor(e)
            if f:
                for g in f:
                    r,w=s.go([g if x is e else x for x in eqs],goals,env,nz)
                    if r is not True: return r,w
                return True,None
        # an unknown linear with a non-constant coefficient
        for e in sorted(eqs,key=len):
            for a in sorted(s.atoms(e),reverse=True):
                if a not in s.un: continue
                ms=[m for m in e if a in m]
                if any(m.count(a)>1 for m in ms): continue
                cf={}; 
                for m in ms: l=list(m); l.remove(a); cf[tuple(l)]=e[m]
                rest={m:c for m,c in e.items() if a not in m}
                if a in s.atoms(cf): continue
                # case coefficient = 0
                if not s.known_nz(cf,nz):
                    r,w=s.case0([rest if x is e else x for x in eqs],goals,env,nz,cf)
                    if r is not True: return r,w
                inv=D.inverse(cf); e2={a:D.red(pscale(D.mul(rest,inv),-1))}
                nz2=nz if s.known_nz(cf,nz) else nz+(D.monic(cf),)
                return s.go([s.sub(x,e2) for x in eqs if x is not e],[s.sub(g,e2) for g in goals],s.lift(env,e2),tuple(D.clear(s.sub(z,e2)) for z in nz2))
        return s.witness(eqs,goals,env,nz)
    def red_by(s,g,eqs):
        for e in eqs: g=reduce_by(s.D,g,e)
        return g
    def known_nz(s,p,nz):
        if not p: return False
        D=s.D
        if len(p)==1:
            (m,c),=p.items()
            if all(a in D.nzvars or a in D.inv or any(set(z)=={(a,)} for z in nz) for a in m): return True
        k=pkey(D.monic(p)); return any(pkey(z)==k for z in nz)
    def strip(s,p,nz):
        D=s.D; nzv=set(D.nzvars)|{m[0] for z in nz if len(z)==1 for m in z if len(m)==1}
        while p:
            common=set(next(iter(p)))
            for m in p: common&=set(m)
            c=[a for a in common if a in nzv]
            if not c: return p
            q={}
            for m,k in p.items(): l=list(m); l.remove(c[0]); q[tuple(l)]=k
            p=q
        return p
    def factor(s,e):
        """split a univariate quadratic with roots in the field"""
        at=s.atoms(e); D=s.D
        if len(at)!=1: return s.factor2(e)
        a=next(iter(at)); deg=max(m.count(a) for m in e)
        if deg!=2: return None
        c=[e.get((),0),e.get((a,),0),e.get((a,a),0)]
        from checks.conc import sqrtmod
        d=(c[1]*c[1]-4*c[0]*c[2])%D.P; r=sqrtmod(D.P,d)
        if r is None: return [{():1}]
        i2=pow(2*c[2],-1,D.P); r1,r2=(-c[1]+r)*i2%D.P,(-c[1]-r)*i2%D.P
        return [{(a,):1,**({():-x%D.P} if x else {})} for x in dict.fromkeys((r1,r2))]
    def factor2(s,e):
        """u^2 - t^2 with t a monomial square:  (u-t)(u+t)"""
        if len(e)==2:
            (m1,c1),(m2,c2)=e.items()
            def sq(m):
                if len(m)%2: return None
                h=m[::2]; return h if tuple(sorted(h+h))==tuple(sorted(m)) else None
            a,b=sq(m1),sq(m2)
            if a is not None and b is not None:
                from checks.conc import sqrtmod
                r=sqrtmod(s.D.P,-c2*pow(c1,-1,s.D.P)%s.D.P)
                if r is not None: return [{a:1,b:-r%s.D.P},{a:1,b:r}]
        return None
    def case0(s,eqs,goals,env,nz,p):
        """assume p = 0"""
        D=s.D; p=D.clear(p)
        if not p: return s.go(eqs,goals,env,nz)
        # solve for some atom linearly
        for a in sorted(s.atoms(p),reverse=True):
            if a in D.nzvars or any(set(z)=={(a,)} for z in nz): 
                if len(p)==1: return True,None
                continue
            ms=[m for m in p if a in m]
            if len(ms)==1 and ms[0]==(a,) and not s.isbool(a) and a not in D.rules:
                k=pow(p[(a,)],-1,D.P); rhs=D.red(pscale({m:c for m,c in p.items() if m!=(a,)},-k)); e2={a:rhs}
                nz2=tuple(D.clear(s.sub(z,e2)) for z in nz)
                if any(not z for z in nz2): return True,None
                return s.go([s.sub(x,e2) for x in eqs],[s.sub(g,e2) for g in goals],s.lift(env,e2),nz2)
        if len(p)==1 and s.known_nz(p,nz): return True,None
        return s.go(eqs+[p],goals,env,nz)
    def witness(s,eqs,goals,env,nz):
        """try to find concrete values satisfying the remaining equations and violating a goal"""
        D=s.D
        if eqs: return None,'undecided equations: '+'; '.join(D.show(e,6) for e in eqs[:2])
        for t in range(6):
            vals={}
            def at(a):
                if a in vals: return vals[a]
                if a in D.inv:
                    v=ev(D.inv[a]); vals[a]=pow(v,-1,D.P) if v else None
                    if vals[a] is None: raise ZeroDivisionError
                elif s.isbool(a): vals[a]=s.rnd.randrange(2)
                elif a in D.rules:
                    n,q=D.rules[a]
                    from checks.conc import sqrtmod
                    r=sqrtmod(D.P,ev(q)) if n==2 else None
                    if r is None: raise ZeroDivisionError
                    vals[a]=r
                else: vals[a]=s.rnd.randrange(1,D.P)
                return vals[a]
            def ev(p):
                r=0
                for m,c in p.items():
                    for a in m: c=c*at(a)%D.P
                    r+=c
                return r%D.P
            try:
                if any(ev(z)==0 for z in nz): continue
                if all(ev(g)==0 for g in goals): continue
                w={}
                for a,p in env.items(): w[a]=ev(p)
                w.update(vals); return False,w
            except ZeroDivisionError: continue
        return None,'no counterexample found'
