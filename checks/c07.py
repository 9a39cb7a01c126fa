"""Point encodings.  The field layer is abstract (C01-C03); canonical bytes of a field element are 32 bounded unknowns."""
from mirv import fw
from mirv.ec import *
from checks import conc
def run_curve(chk,E):
    B,S,b=CURVES[E]; F=Frame(0,None,{})
    def done(ec,name,callee,bads,outs=True):
        if not outs: bads=bads+['no outcome']
        chk.ob(name,callee,fw.REFUTED if bads else fw.PROVED,'mirv-poly',0,'; '.join(map(str,bads)))
        if ec.it.panics: chk.ob(name+'.nopanic',callee,fw.REFUTED,'mirv',0,str(ec.it.panics[0][:3]))
        chk.absorb(ec.it)
    par=lambda D,y: D.bytes[pkey(y.p)][3]
    # -- to_bytes
    def tb():
        callee=f'<{E} as Curve>::to_bytes'
        for k in 'PO':
            ec=EC(chk.mir,E); D=ec.D; x,y=ec.coords(); P=ec.proj(x,y) if k=='P' else ec.ident()
            bx=D.to_bytes(x); D.to_bytes(y); outs,_=ec.call(callee,[P],'r'); bad=[]
            for st,v in outs:
                for i in range(32):
                    w=bx.f[i].p if k=='P' else {}
                    if i==31 and k=='P': w=padd(w,par(D,y),128)
                    if ec.it.ctx.psub(padd(ec.it.sub_assume(st,v.f[i]).p,w,-1),st.assume): bad.append(f'byte {i}')
            done(ec,f'{callee}[{k}]',callee,bad,outs)
    chk.attempt(f'{E}.to_bytes',E,tb)
    # -- from_bytes over all byte strings
    def fb():
        callee=f'<{E} as Curve>::from_bytes'; ec=EC(chk.mir,E); D=ec.D; it=ec.it; C=it.ctx
        arr=Agg('array',[C.var(f'in{i}','u8') for i in range(31)]+[None]); lo=C.var('in31lo','u8',0,127); sg=C.var('sign','u8',0,1)
        arr=Agg('array',arr.f[:31]+(I(padd(lo.p,sg.p,128),0,255,'u8'),))
        want={}
        for i in range(31): want=padd(want,arr.f[i].p,1<<(8*i))
        want=padd(want,lo.p,1<<248); x=D.var('x'); canon=I({(C.atom('canonical',0,1),):1},0,1,'u8'); seen=[]
        def dfb(it,st,a):
            p={}
            for i,v in enumerate(a.f): p=padd(p,v.p,1<<(8*i))
            if padd(p,want,-1): raise MirError('decodes other bytes than the input without its sign bit')
            seen.append(1); return [(st,Agg('CtOption',(x,choice(canon))))]
        D.from_bytes=dfb
        roots=[]
        def dsq(it,st,a):
            if not (a-(x*x*x+b)).iszero(): raise MirError('square root of another value')
            if not roots:
                y=D.var('y0',nz=True); D.rules[next(iter(y.p))[0]]=(2,a.p); roots.append((y,I({(C.atom('issquare',0,1),):1},0,1,'u8')))
            return Agg('CtOption',(roots[0][0],choice(roots[0][1])))
        D.sqrt=dsq
        r=it.alloc(ec.st,arr); outs=it.invoke(ec.st,F,callee,[r],[('ref',('array',('path','u8',()),'32'))],None)
        bad=[]
        y,sq=roots[0]; p0=par(D,y); xz=D.eqz(ec.st,x.p)
        xa=next(iter(xz.p))[0]; sa=next(iter(sg.p))[0]; pa=next(iter(p0))[0]; ca=next(iter(canon.p))[0]; qa=next(iter(sq.p))[0]
        import itertools
        for st,v in outs:
            for e in itertools.product((0,1),repeat=5):
                env=dict(zip((xa,sa,pa,ca,qa),e)); X0,sgn,pr,can,isq=e
                if any(st.assume.get(a,w)!=w for a,w in env.items()): continue
                some=can and ((X0 and not sgn) or isq)
                fl=C.psub(it.sub_assume(st,v.f[1].f[0]).p,env)
                if padd(fl,pconst(int(bool(some))),-1): bad.append(f'x=0:{X0} sign:{sgn} canonical:{can} square:{isq}: present={fl}')
                if not some: continue
                g=[FE(D,D.red(C.psub(D.fe(c).p,env))) for c in v.f[0].f]
                if X0 and not sgn: w=None
                else: w=(x,y if sgn==pr else -y)
                if w is None:
                    if not(g[2].iszero() and g[0].iszero() and ec.nonzero(g[1],[])): bad.append('identity expected')
                else:
                    n=ec.nonzero(g[2],[])
                    if not n or not (g[0]-w[0]*g[2]).iszero() or not (g[1]-w[1]*g[2]).iszero(): bad.append(f'wrong point for sign {sgn}, parity {pr}')
        if not seen: bad.append('field decoding not used')
        done(ec,callee,callee,bad,outs)
    chk.attempt(f'{E}.from_bytes',E,fb)
    # -- round trip
    def rt():
        for k in 'PO':
            ec=EC(chk.mir,E); D=ec.D; it=ec.it; x,y=ec.coords(); P=ec.proj(x,y) if k=='P' else ec.ident()
            def dsq(it,st,a):
                if a.const is not None: return FD.sqrt(D,it,st,a)
                if not (a-y*y).iszero(): raise MirError('square root of another value')
                s2=st.copy(); one=choice(CI(1,'u8'))
                return [(st,Agg('CtOption',(y,one))),(s2,Agg('CtOption',(-y,one)))]
            D.sqrt=dsq
            outs,_=ec.call(f'<{E} as Curve>::to_bytes',[P],'r'); bad=[]; n=0
            # x != 0 on the curve: b is not a square (C04)
            D.nzvars.add(next(iter(x.p))[0])
            for st,v in outs:
                if k=='P': v=Agg('array',v.f)
                for s2,w in it.invoke(st,F,f'<{E} as Curve>::from_bytes',[it.alloc(st,v)],[('ref',('array',('path','u8',()),'32'))],None):
                    n+=1
                    fl=it.sub_assume(s2,w.f[1].f[0])
                    if fl.const!=1: bad.append(f'may be rejected: {it.ctx.show(fl)}')
                    pt_=w.f[0]
                    pr=par(D,y) if pkey(y.p) in D.bytes else {(0,):1}; pa=next(m for m in pr if m)[0]
                    for pv in(0,1):
                        g=Agg(E,[FE(D,D.red(it.ctx.psub(D.fe(c).p,{pa:pv}))) for c in pt_.f])
                        bad+=ec.check(g,'O' if k=='O' else ('aff',x,D.const(1),y,D.const(1)),[],s2)
            done(ec,f'{E}: from_bytes(to_bytes(P)) = P [{k}]',f'<{E} as Curve>::to_bytes',bad,n)
    chk.attempt(f'{E}.roundtrip',E,rt)
    # -- coordinates
    def gx():
        callee=f'<{E} as Curve>::get_xy'
        for k in 'PO':
            ec=EC(chk.mir,E); D=ec.D; x,y=ec.coords(); P=ec.proj(x,y) if k=='P' else ec.ident(); outs,_=ec.call(callee,[P],'r'); bad=[]
            for st,v in outs:
                fl=ec.it.sub_assume(st,v.f[1].f[0]).const
                if fl!=int(k=='P'): bad.append(f'present={fl}')
                if k=='P':
                    for g,w,n in zip(v.f[0].f,(x,y),'xy'):
                        if not (D.fe(g)-w).iszero(): bad.append('wrong '+n)
            done(ec,f'{callee}[{k}]',callee,bad,outs)
        callee=f'<{E} as Curve>::get_xyz'; ec=EC(chk.mir,E); D=ec.D; x,y=ec.coords(); P=ec.proj(x,y); outs,_=ec.call(callee,[P],'r')
        done(ec,callee,callee,['wrong coordinate'] if any(not (D.fe(g)-w).iszero() for st,v in outs for g,w in zip(v.f,P.f)) else [],outs)
    chk.attempt(f'{E}.get_xy',E,gx)
    def fx():
        callee=f'<{E} as Curve>::from_xy'
        for k in('on','off,x!=0','off,y!=0','zero'):
            ec=EC(chk.mir,E); D=ec.D
            if k=='on': x,y=ec.coords()
            elif k=='zero': x,y=D.const(0),D.const(0)
            else:
                x,y=D.var('x',nz='x!' in k),D.var('y',nz='y!' in k); D.assume_nonzero(ec.st,(y*y-x*x*x-b).p)
            outs=ec.it.invoke(ec.st,F,callee,[x,y],[('path',B,())]*2,None); bad=[]
            for st,v in outs:
                fl=ec.it.sub_assume(st,v.f[1].f[0]).const
                if fl!=int(not k.startswith('off')): bad.append(f'present={fl}')
                if k=='on': bad+=ec.check(v.f[0],('aff',x,D.const(1),y,D.const(1)),[],st)
                if k=='zero': bad+=ec.check(v.f[0],'O',[],st)
            done(ec,f'{callee}[{k}]',callee,bad,outs)
        callee=f'<{E} as Curve>::from_xy_unchecked'; ec=EC(chk.mir,E); D=ec.D; x,y=ec.coords()
        outs=ec.it.invoke(ec.st,F,callee,[x,y],[('path',B,())]*2,None)
        done(ec,callee,callee,[m for st,v in outs for m in ec.check(v,('aff',x,D.const(1),y,D.const(1)),[],st)],outs)
    chk.attempt(f'{E}.from_xy',E,fx)
    def oc():
        callee=f'<{E} as Curve>::is_on_curve'
        for k in('on','O','off'):
            ec=EC(chk.mir,E); D=ec.D
            if k=='on': x,y=ec.coords(); P=ec.proj(x,y)
            elif k=='O': P=ec.ident()
            else:
                x,y=D.var('x'),D.var('y'); D.assume_nonzero(ec.st,(y*y-x*x*x-b).p); P=ec.proj(x,y)
            outs,_=ec.call(callee,[P],'r')
            done(ec,f'{callee}[{k}]',callee,[f'{k}: wrong' for st,v in outs if ec.it.sub_assume(st,v).const!=int(k!='off')],outs)
        ec=EC(chk.mir,E); outs=ec.it.invoke(ec.st,F,f'<{E} as Curve>::b',[],[],None)
        done(ec,f'<{E} as Curve>::b',f'<{E} as Curve>::b',[] if all((ec.D.fe(v)-b).iszero() for _,v in outs) else ['wrong constant'],outs)
    chk.attempt(f'{E}.is_on_curve',E,oc)
def options(chk):
    """util::CtOptionExt1::or_else, CtOptionExt2::to_option"""
    def th():
        it=Interp(chk.mir); st=State(); D,=setup(it,'Fp'); a,b=D.var('a'),D.var('b'); u,v=it.ctx.var('u','u8',0,1),it.ctx.var('v','u8',0,1); T=('path','CtOption',(('path','Fp',()),)); bad=[]
        clo=lambda s,st,args:[(st,Agg('CtOption',(b,choice(v))))]
        outs=it.invoke(st,Frame(0,None,{}),'<CtOption<Fp> as CtOptionExt1<Fp>>::or_else',[Agg('CtOption',(a,choice(u))),clo],[T,('other','?')],T)
        ua=next(iter(u.p)); ub=next(iter(v.p))
        for s2,r in outs:
            for x in(0,1):
                for y in(0,1):
                    e={ua[0]:x,ub[0]:y}
                    if padd(it.ctx.psub(r.f[1].f[0].p,e),pconst(int(x or y)),-1): bad.append(f'{x}{y} present')
                    if (x or y) and not (FE(D,D.red(it.ctx.psub(r.f[0].p,e)))-(a if x else b)).iszero(): bad.append(f'{x}{y} value')
        chk.ob('CtOption::or_else (halo)','util::or_else',fw.REFUTED if bad or not outs else fw.PROVED,'mirv-poly',0,'; '.join(bad))
        outs=it.invoke(st.copy(),Frame(0,None,{}),'<CtOption<Fp> as CtOptionExt2<Fp>>::to_option',[Agg('CtOption',(a,choice(u)))],[T],None); bad=[]; seen=set()
        for s2,r in outs:
            k=s2.assume.get(ua[0]); seen.add(k)
            if k is None or r.v!=k or (k and not (D.fe(r.f[0])-a).iszero()): bad.append(f'{k}: {r}')
        if seen!={0,1}: bad.append('cases '+str(seen))
        chk.ob('CtOption::to_option','util::to_option',fw.REFUTED if bad else fw.PROVED,'mirv-poly',0,'; '.join(bad)); chk.absorb(it)
    chk.attempt('CtOption helpers','util',th)
def run():
    chk=fw.Check('C07')
    options(chk)
    for E in CURVES: run_curve(chk,E)
    chk.canary('b is not a square (no point with x=0)',all(pow(b,(MOD[B]-1)//2,MOD[B])!=1 for B,S,b in CURVES.values()))
    chk.assumptions+=['parity of p-y differs from the parity of y for y != 0 (p odd)','no curve point has x=0 or y=0 (b and -b: C04)','CtOption::map/and_then evaluate their closure on a dummy value when absent; the result is ignored']
    return chk.finish(conc.search_c07)
