"""The polynomial protocol (src/proofs.rs) on symbolic circuits: parameters with unknown generators, an opaque transcript, the
contracts of the pieces proved elsewhere (C06 multiexp, C08 polynomial multiplication, C09 folding, C10 sponge, C14 challenge map)."""
from .prog import *
from .gp import *
class Tr(Dom):
    """state of the transcript: everything absorbed and squeezed so far"""
    __slots__=('s',)
    def __init__(s,st=()): s.s=st
    def __repr__(s): return f'Tr({len(s.s)})'
    def select(s,ctx,w,a,b):
        if a.s!=b.s: raise MergeFail('transcripts')
        return a
    def eq(s,it,st,b): raise MirError('comparison of transcripts')
    def field(s,i): raise MirError('representation of the transcript is read')
class Opq(Dom):
    """opaque value of the opening argument"""
    __slots__=('d',)
    def __init__(s,d): s.d=d
    def select(s,ctx,w,a,b):
        if a.d!=b.d: raise MergeFail('opaque')
        return a
    def field(s,i): raise MirError('representation of an opening argument is read')
    def eq(s,it,st,b): raise MirError('comparison of opening arguments')
class Proto:
    def __init__(s,it,E,k,n=None,ipa='contract'):
        s.it=it; s.E=E; s.S=CURVES[E][1]; s.B=CURVES[E][0]; s.k=k; s.d=1<<k; s.n=s.d//4
        s.G=gsetup(it,E,s.B); s.D=s.G.D; s.DB=it.fields[s.B]; s.gens=[s.G.base(f'G{i}') for i in range(s.d)]; s.ch={}; s.root={}; s.ipa=ipa; s.nc=0; s.mul=[]; s.vcalls=[]; s.diverged=[]; s.calls=[]; s.accept=[]
        s.D.powlimit=4*s.d; it.contracts.insert(0,s.contract); it.ghost_cpus=1
        it.assoc_tab=dict(ASSOC)
    def struct(s,name,**kw):
        fs=s.it.mir.struct_fields(name); 
        if set(fs)!=set(kw): raise MirError(f'fields of {name}: {fs}')
        return Agg(name,[kw[f] for f in fs])
    def get(s,name,v,f): return v.f[s.it.mir.struct_fields(name).index(f)]
    def put(s,name,v,f,x):
        i=s.it.mir.struct_fields(name).index(f); return Agg(v.k,list(v.f[:i])+[x]+list(v.f[i+1:]),v.v)
    def params(s): return s.struct('Params',g=s.G.base('G'),d=CI(s.d,'usize'),n=CI(s.n,'usize'),k=CI(s.k,'usize'),generators=Agg('Vec',s.gens),generators_xy=Agg('Vec',[UNIT]*s.d))
    def nz(s,name): s.nc+=1; return s.D.var(f'{name}{s.nc}',nz=True)
    def chal(s,key,name='ch'):
        if key not in s.ch: s.ch[key]=s.nz(name)
        return s.ch[key]
    def sqroot(s,fe):
        k=pkey(fe.p)
        if k not in s.root: s.root[k]=s.nz('u')
        return s.root[k]
    def fkey(s,v): v=s.D.fe(v); return pkey(s.D.red(v.p))
    def gkey(s,v): return s.G.key(s.G.gp(v))
    def commit(s,v,right=False):
        r=s.G.zero(); o=s.d-len(v) if right else 0
        for i,x in enumerate(v): r=r.add(s.gens[o+i].mul(x))
        return r
    def ev(s,v,x):
        r=s.D.const(0); p=s.D.const(1)
        for c in v: r=r+c*p; p=p*x
        return r
    def fold(s,us):
        from checks.c09 import svec
        return svec(s.D,us,[u.inv() for u in us])
    # ---- contracts
    def contract(s,it,st,fr,q,args,argts):
        ty,tr,m=name_of(q); D=s.D; G=s.G
        dr=lambda a: it.deref(st,a) if isinstance(a,Ref) else a
        if m=='multiexp':
            a,b=map(dr,args)
            if len(a.f)!=len(b.f): raise MirError('multiexp lengths')
            r=G.zero()
            for x,y in zip(a.f,b.f): r=r.add(G.gp(y).mul(D.fe(x)))
            it.used_contracts.add('util::multiexp'); return [(st,r)]
        if m=='multiply_polynomials':
            a,b=map(dr,args); n=len(a.f)+len(b.f)-1
            if not a.f or not b.f: raise MirError('empty polynomial')
            r=[D.const(0)]*n
            for i,x in enumerate(a.f):
                for j,y in enumerate(b.f): r[i+j]=r[i+j]+D.fe(x)*D.fe(y)
            it.used_contracts.add('util::multiply_polynomials'); s.mul.append((a,b,r)); return [(st,Agg('Vec',r))]
        if m=='parallel_generator_collapse':
            g=dr(args[0]); c,ci=D.fe(dr(args[1])),D.fe(dr(args[2])); l=len(g.f)//2
            if len(g.f)%2: raise MirError('collapse of an odd number of generators')
            it.setref(st,args[0],Agg(g.k,[G.gp(g.f[j]).mul(ci).add(G.gp(g.f[j+l]).mul(c)) for j in range(l)]+list(g.f[l:]))); it.used_contracts.add('util::parallel_generator_collapse'); return [(st,UNIT)]
        if m in('append_point','get_challenge') and tr is None:
            r=args[0]
            while isinstance(it.deref1(st,r),Ref): r=it.deref1(st,r)
            t=it.deref1(st,r); it.used_contracts.add('proofs::'+m)
            if m=='append_point': it.setref(st,r,Tr(t.s+(('P',s.gkey(dr(args[1]))),))); return [(st,UNIT)]
            c=s.chal(('sq',t.s)); it.setref(st,r,Tr(t.s+(('Q',),))); return [(st,c)]
        if m=='get_challenge_scalar' and tr is None:
            c=dr(args[0]); u=s.chal(('scalar',s.fkey(c)),'u'); r=u*u; s.root[pkey(r.p)]=u; it.used_contracts.add('util::get_challenge_scalar (non-zero; written as the square of its root)'); return [(st,r)]
        if m=='sqrt' and args:
            v=dr(args[0])
            if isinstance(v,FE) and v.D is D and pkey(v.p) in s.root:
                if s.nosq: return s.nosq(s,it,st,v)
                it.used_contracts.add(s.S+'::sqrt'); return [(st,Agg('CtOption',(s.root[pkey(v.p)],choice(CI(1,'u8')))))]
        if ty=='Rescue' or q[0]=='trait' and q[1][0]=='path' and q[1][1]=='Rescue':
            if m in('new','default'): it.used_contracts.add('Rescue'); return [(st,Tr())]
            if m=='clone': return [(st,dr(args[0]))]
            if m=='absorb':
                r=args[0]
                while isinstance(it.deref1(st,r),Ref): r=it.deref1(st,r)
                t=it.deref1(st,r); v=s.DB.fe(dr(args[1])); it.setref(st,r,Tr(t.s+(('A',pkey(v.p)),))); return [(st,UNIT)]
            raise MirError('transcript operation '+m)
        if s.ipa=='contract' and m in('new_proof','verify_proof'): return getattr(s,m)(st,[dr(a) for a in args],args)
        return None
    nosq=None
    def claim(s,o):
        g=lambda f:s.get('PolynomialOpening',o,f)
        return s.G.gp(g('commitment')),s.D.fe(g('opening')),s.D.fe(g('point')),g('right_edge').const
    def setT(s,st,r,t):
        it=s.it
        while isinstance(it.deref1(st,r),Ref): r=it.deref1(st,r)
        it.setref(st,r,t)
    def new_proof(s,st,vs,args):
        """contract of the opening argument (proved by the obligations named ipa)"""
        t,ins,gens,k=vs; T0=t.s; k=k.const
        if len(gens.f)!=1<<k or any(s.gkey(a)!=s.gkey(b) for a,b in zip(gens.f,s.gens)): raise MirError('generators handed to the opening argument')
        polys=[]; cl=[]
        for x in ins.f:
            x=s.it.deref(st,x) if isinstance(x,Ref) else x
            o,p=x.f; o=s.it.deref(st,o) if isinstance(o,Ref) else o
            while isinstance(p,Ref): p=s.it.deref(st,p)
            v=[s.D.fe(y) for y in p.f]; c=s.claim(o)
            if len(v)>1<<k: raise MirError('polynomial longer than the parameters')
            z=[s.D.const(0)]*((1<<k)-len(v)); v=z+v if c[3] else v+z; polys.append(v); cl.append(c)
        tok=(T0,tuple(tuple(pkey(x.p) for x in v) for v in polys)); us=[s.chal(('ipa',tok,i),'cp') for i in range(k)]
        f=s.fold([s.chal(('scalar',s.fkey(u)),'u') for u in us])
        for u in us: w=s.ch[('scalar',s.fkey(u))]; s.root[pkey((w*w).p)]=w
        g=s.G.zero()
        for a,b in zip(f,s.gens): g=g.add(b.mul(a))
        s.calls.append((T0,polys,cl)); s.setT(st,args[0],Tr(T0+(('I',tok),))); s.it.used_contracts.add('MultiPolynomialOpening::new_proof (obligations ipa)')
        return [(st,Agg('tuple',(Opq(('ipa',tok,polys,us,g,cl)),Agg('Vec',us),g)))]
    def verify_proof(s,st,vs,args):
        P,t,ins,k=vs
        if P.d[0]=='any':
            b=I({(s.it.ctx.atom('ipa_ok',0,1,'bit'),):1},0,1,'bool'); n=k.const; us=[s.D.var(f'ipa_c{i}',nz=True) for i in range(n)]; g=s.G.base('IPA_G')
            s.any=dict(T=t.s,claims=[s.claim(o) for o in ins.f],k=n,ok=b,us=us,g=g,forks=[CI(i+1,'u8') for i in range(n)]); s.setT(st,args[1],Tr(t.s+(('I','any'),)))
            return [(st,Agg('tuple',(b,Agg('Vec',us),g,Agg('Vec',s.any['forks']))))]
        _,tok,polys,us,g,cl0=P.d; k=k.const; it=s.it; conds=[]
        if k!=len(us): raise MirError('rounds')
        same=t.s==tok[0]; s.vcalls.append((t.s,[s.claim(o) for o in ins.f])); T=[]
        if len(ins.f)!=len(polys): T.append('claims')
        acc=TRUE()
        if not same or T: s.diverged.append(t.s); acc=FALSE()
        else:
            for o,v,c0 in zip(ins.f,polys,cl0):
                c=s.claim(o); a=s.commit(v)
                if not (c[2]-c0[2]).iszero(): acc=FALSE(); s.diverged.append('point'); break
                for e in(s.G.eqz(st,c[0].add(a,-1)),s.D.eqz(st,(c[1]-s.ev(v,c[2])).p)): acc=it.ctx.band(acc,e)
        s.setT(st,args[1],Tr(t.s+(('I',tok),))); s.it.used_contracts.add('MultiPolynomialOpening::verify_proof (obligations ipa)')
        acc=I(acc.p,acc.lo,acc.hi,'bool')
        return [(st,Agg('tuple',(acc,Agg('Vec',us),g,Agg('Vec',[CI(0,'u8')]*k))))]
    # ---- setting
    def leftovers(s,st,sx,name='old'):
        """honest leftovers of an earlier proof with unknown challenge and folding values"""
        y=s.nz('y'+name); us=[s.nz(f'cp{name}') for _ in range(s.k)]; rt=[]
        for u in us: w=s.chal(('scalar',s.fkey(u)),'u'); rt.append(w); s.root[pkey((w*w).p)]=w
        g=s.G.zero()
        for a,b in zip(s.fold(rt),s.gens): g=g.add(b.mul(a))
        return y,lambda sxv:s.struct('Leftovers',s_new_commitment=s.commit(sxv),y_new=y,g_new=g,challenges_sq_packed_new=Agg('Vec',us))

