"""C21: Deferred and Leftovers records: verification is an equivalence, encodings bind every field; transcript helpers."""
from checks.c20 import *
def fresh(chk,E,k):
    it=Interp(chk.mir); st=State(); pr=Proto(it,E,k); it.merge=False; return it,st,pr,pr.D
W16={'x','y_old','y_cur','y_new','challenges_sq_packed_old','challenges_sq_packed_new'}
def anydef(pr,name=''):
    D=pr.D; us={}; kw={}
    for f in pr.it.mir.struct_fields('Deferred'):
        if f.startswith('challenges'):
            l=[pr.nz('cp') for _ in range(pr.k)]
            for u in l: w=pr.chal(('scalar',pr.fkey(u)),'u'); pr.root[pkey((w*w).p)]=w
            us[f]=l; kw[f]=Agg('Vec',l)
        else: kw[f]=D.var(f,nz=f in('x','y_cur'))
    return pr.struct('Deferred',**kw),kw,us
def residual(pr,kw,us):
    """the seven equations a deferred record asserts, each written from the definition"""
    D=pr.D; x,y=kw['x'],kw['y_cur']; n=pr.n; d=pr.d
    P=lambda b,e: FE(D,D.pw((b if e>=0 else b.inv()).p,abs(e)))
    # t(x,y) without its constant term = r(x,1)(r(x,y)+s'(x,y)) - y^n k(y), openings are scaled by the powers of x and y that shift exponents to >= 0
    r1=kw['rx_opening']*P(x,-(d-(3*n+1)))*P(x,-2*n); rxy=kw['rxy_opening']*P(x*y,-(d-(3*n+1)))*P(x*y,-2*n)
    th=D.const(0)
    for i in range(1,n+1): th=th+(P(y,i)+P(y,-i))*P(x,n+i)
    s=kw['sx_cur_opening']*P(x,-n)*P(y,n)-th
    eq=[r1*(rxy+s)-kw['ky_opening']*P(y,n)-(kw['tx_positive_opening']*x+kw['tx_negative_opening']*P(x,-4*n))]
    o,nw=us['challenges_sq_packed_old'],us['challenges_sq_packed_new']
    eq.append(kw['gx_old_opening']-compb(pr,x,o))
    for f,q in(('b_x',x),('b_xy',x*y),('b_y_old',kw['y_old']),('b_y_cur',y),('b_y_new',kw['y_new'])): eq.append(kw[f]-compb(pr,q,nw))
    return eq
def canon(pr,p): D=pr.D; return pkey(D.monic(D.strip_nz(State(),D.clear(D.red(p)))))
def dver(chk,E,k):
    name=f'Deferred::verify<{E}>[k={k}]'; fn='proofs::Deferred::verify'
    def th():
        t=time.time(); bad=[]; it,st,pr,D=fresh(chk,E,k); d,kw,us=anydef(pr); eq=residual(pr,kw,us); want={canon(pr,e.p) for e in eq}
        outs=dverify(it,st,pr,d)
        if it.panics: bad.append('panics '+str(it.panics[0][:3]))
        acc=0
        for s2,v in outs:
            c=val(it,s2,v); known={k2 for k2 in facts0(pr,it,s2)}
            if c is None:   # the last condition is the verdict itself
                at=[a for m in v.p for a in m]
                if len(at)!=1 or v.p!={(at[0],):1}: raise MirError('verdict'); 
                known.add(canon(pr,it.ctx.atoms[at[0]].d[1])); c=1
            if c==1:
                acc+=1; miss=[e for e in want if e not in known]
                if miss: bad.append(f'accepted although {len(miss)} of {len(want)} equations may fail')
                if known-want: bad.append('demands something else')
        if not acc: bad.append('never accepts')
        # every rejection contradicts one of the equations
        for s2,v in outs:
            if val(it,s2,v)==0 and not any(k2 in want for k2 in facts0(pr,it,s2,False)): bad.append('rejects a record that may be right')
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',time.time()-t,'; '.join(bad[:3]),bound='parameter size listed; all field values and challenges'); chk.absorb(it)
    chk.attempt(name,fn,th)
def facts0(pr,it,st,zero=True):
    r=[]
    for a,v in st.assume.items():
        A=it.ctx.atoms[a]
        if A.kind=='feq' and bool(v)==zero: r.append(canon(pr,A.d[1]))
    return r
def lver(chk,E,k,kind):
    name=f'Leftovers::verify<{E}>[{kind or "empty"},k={k}]'; fn='proofs::Leftovers::verify'
    def th():
        t=time.time(); bad=[]; it,st,pr,D,P,C=mk(chk,E,k,kind,True,False); bk,g,rows,ks,_=record(it,D,P,C); G=pr.G; H=G.base('H')
        y=D.var('y'); us=[pr.nz('cp') for _ in range(k)]; rt=[]
        for u in us: w=pr.chal(('scalar',pr.fkey(u)),'u'); rt.append(w); pr.root[pkey((w*w).p)]=w
        gn=G.zero()
        for a,b in zip(pr.fold(rt),pr.gens): gn=gn.add(b.mul(a))
        sn=pr.commit(spec(pr,rows,y)); e=D.var('e',nz=True)
        for what,S,g2 in(('right',sn,gn),('wrong s',sn.add(H.mul(e)),gn),('wrong g',sn,gn.add(H.mul(e))),('both wrong',sn.add(H.mul(e)),gn.add(G.base('H2').mul(e)))):
            it.panics.clear(); outs=lverify(it,st.copy(),pr,pr.struct('Leftovers',s_new_commitment=S,y_new=y,g_new=g2,challenges_sq_packed_new=Agg('Vec',us)))
            if it.panics: bad.append('panics '+str(it.panics[0][:3]))
            for s2,v in outs:
                if v.v: bad.append(what+': synthesis fails'); continue
                c=val(it,s2,v.f[0]); err=c is None or any(it.ctx.atoms[a].kind=='geq' and x==1 for a,x in s2.assume.items())   # accepted only where the error point is the identity
                if what=='right' and c!=1 or what!='right' and c!=0 and not err: bad.append(f'{what}: verdict {c}')
                if what=='both wrong' and c!=0 and not any(it.ctx.atoms[a].kind=='geq' and x==1 for a,x in s2.assume.items()): bad.append('one of two errors is enough to accept')
            if not outs: bad.append('no outcome')
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',time.time()-t,'; '.join(bad[:3]),bound='call sequence and parameter size listed; all points, challenges, errors'); chk.absorb(it)
    chk.attempt(name,fn,th)
def blocks(D,fs):
    r=[]
    for v,w in fs: r+=[(x.p) for x in D.to_bytes(v).f[:w]]
    return r
def xy(it,pr):
    """coordinates of an abstract point: two unknown base-field elements per point, absent for the identity"""
    G=pr.G; DB=pr.DB; tab={}
    def con(it_,st,fr,q,args,argts):
        if name_of(q)[2]!='get_xy': return None
        p=it_.deref(st,args[0]); 
        if not isinstance(p,GP): return None
        k=G.key(p)
        if k not in tab: tab[k]=(DB.var(f'X{len(tab)}'),DB.var(f'Y{len(tab)}'))
        z=G.eqz(st,p); it_.used_contracts.add(pr.E+'::get_xy'); return [(st,Agg('CtOption',(Agg('tuple',tab[k]),choice(I(pconst_sub(z.p),0,1,'u8')))))]
    it.contracts.insert(0,con); return tab
def pconst_sub(p): return padd({():1},p,-1)
def enc(chk,E,k,what):
    name=f'{what}::to_bytes<{E}>[k={k}]'; fn=f'proofs::{what}::to_bytes'
    def th():
        t=time.time(); bad=[]; it,st,pr,D=fresh(chk,E,k); tab=xy(it,pr); cases=[]
        if what=='Deferred':
            d,kw,us=anydef(pr); order=[f for f in it.mir.struct_fields('Deferred')]
            fields=[(f,[(v,16 if f in W16 else 32,D) for v in (kw[f].f if isinstance(kw[f],Agg) else [kw[f]])]) for f in order]; cases=[(d,fields)]
        else:
            for zs in(False,True):
                for zg in(False,True):
                    us=[pr.nz('cp') for _ in range(k)]; y=D.var('y'); S=pr.G.zero() if zs else pr.G.base('S'); Gn=pr.G.zero() if zg else pr.G.base('GN')
                    d=pr.struct('Leftovers',s_new_commitment=S,y_new=y,g_new=Gn,challenges_sq_packed_new=Agg('Vec',us)); cases.append((d,(S,y,Gn,us,zs,zg)))
        for d,fields in cases:
            it.panics.clear(); outs=it.invoke(st.copy(),F0,f'proofs::{what}::<{E if what=="Leftovers" else pr.S}>::to_bytes',[it.alloc(st,d)],[('ref',('other','?'))]) if False else run1(it,st,pr,what,d)
            if it.panics: bad.append('panics '+str(it.panics[0][:3]))
            if what=='Leftovers':
                S,y,Gn,us,zs,zg=fields; DB=pr.DB; c=lambda z,p: [(DB.const(0),32,DB)]*2 if z else [(v,32,DB) for v in tab[pr.G.key(p)]]
                fields2=[('s_new_commitment',c(zs,S)),('y_new',[(y,16,D)]),('g_new',c(zg,Gn)),('challenges',[(u,16,D) for u in us])]
            else: fields2=fields
            for s2,v in outs:
                got=[x for x in v.f]; pos=0; tot=sum(w for _,l in fields2 for _,w,_ in l)
                if any(it.ctx.atoms[a].kind=='geq' and x==1 for a,x in s2.assume.items()): continue   # the point is the identity on this path: covered by its own case
                if len(got)!=tot: bad.append(f'{len(got)} bytes, {tot} expected'); continue
                seen=[]
                for f,l in fields2:
                    for val_,w,DD in l:
                        wb=[x.p for x in DD.to_bytes(val_).f[:w]]; gp_=[x.p for x in got]; at=[i for i in range(len(got)-w+1) if gp_[i:i+w]==wb and not any(i<b and a<i+w for a,b in seen)]
                        if not at: bad.append(f'{f} is not encoded at its own position'); continue
                        a=at[0] if pos not in at else pos; seen.append((a,a+w)); pos=a+w
            if not outs: bad.append('no outcome')
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv',time.time()-t,'; '.join(bad[:3]),bound='number of challenges listed; all field values'); chk.absorb(it)
    chk.attempt(name,fn,th)
def run1(it,st,pr,what,d):
    s=st.copy(); return it.invoke(s,F0,f'proofs::{what}::<{pr.E if what=="Leftovers" else pr.S}>::to_bytes',[it.alloc(s,d)],[('ref',('other','?'))])
def dummies(chk,E,k,kind):
    name=f'dummy records<{E}>[{kind or "empty"},k={k}]'; fn='proofs::Leftovers::dummy / Deferred::dummy'
    def th():
        t=time.time(); bad=[]; it,st,pr,D,P,C=mk(chk,E,k,kind,wit=False)
        try:
            st,l=one(it,it.invoke(st,F0,f'proofs::Leftovers::<{E}>::dummy',[it.alloc(st,pr.params())],[('ref',('other','?'))]),'dummy'); st,v=one(it,lverify(it,st,pr,l),'Leftovers::verify')
            if val(it,st,v)!=1: bad.append('bootstrap leftovers are rejected')
            st,d=one(it,it.invoke(st,F0,f'proofs::Deferred::<{pr.S}>::dummy',[CI(k,'usize')],[('path','usize',())]),'dummy'); st,v=one(it,dverify(it,st,pr,d),'Deferred::verify')
            if val(it,st,v)!=1: bad.append('bootstrap deferred work is rejected')
        except Bad as e: bad.append(str(e))
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',time.time()-t,'; '.join(bad[:3]),bound='parameter size listed; all generators'); chk.absorb(it)
    chk.attempt(name,fn,th)
# ---------------- transcript helpers (real bodies; the sponge by its C10 contract as an opaque record)
def transcript(chk,E):
    from checks.refc import CURVES
    fn='proofs::append_point / append_scalar / get_challenge'
    def base():
        it=Interp(chk.mir); st=State(); pr=Proto(it,E,4); it.merge=False
        it.contracts=[c for c in it.contracts if c!=pr.contract]
        def con(it_,st_,fr,q,args,argts):
            if name_of(q)[2]=='absorb': it_.used_contracts.add('Rescue::absorb'); r=it_.deref(st_,args[0]); it_.setref(st_,args[0],Agg('Log',list(r.f)+[args[1]])); return [(st_,UNIT)]
        it.contracts.insert(0,con); return it,st,pr
    def th():
        t=time.time(); bad=[]
        for m in('append_point','append_scalar'):
            it,st,pr=base(); tab=xy(it,pr); G=pr.G; tr=it.alloc(st,Agg('Log',[])); D=pr.D; s=D.var('s'); o=('other','?')
            for P in([G.base('P'),G.zero()] if m=='append_point' else [G.base('G').mul(s)]):
                st0=st.copy(); arg=it.alloc(st0,P if m=='append_point' else s)
                for s2,_ in it.invoke(st0,F0,f'proofs::{m}::<{E}>',[tr,arg],[('ref',o),('ref',tp(E) if m=='append_point' else tp(pr.S))]):
                    got=it.deref(s2,tr).f; ident=P.same(G.zero()) or any(it.ctx.atoms[a].kind=='geq' and x==1 for a,x in s2.assume.items())
                    want=[pr.DB.const(0)]*2 if ident else list(tab[G.key(P)])
                    if len(got)!=2 or not all(same0(pr.DB,a,b) for a,b in zip(got,want)): bad.append(f'{m} absorbs something else{" for the identity" if ident else ""}')
                if it.panics: bad.append(f'{m} panics '+str(it.panics[0][:3]))
        chk.ob(f'append_point, append_scalar<{E}>',fn,fw.REFUTED if bad else fw.PROVED,'mirv-poly',time.time()-t,'; '.join(bad[:3])); chk.absorb(it)
    chk.attempt(f'append_point, append_scalar<{E}>',fn,th)
def chalbits(chk,F1,F2):
    """the challenge is the low 127 bits of the squeezed element with bit 127 set, as an integer, in the other field"""
    fn='proofs::get_challenge'
    def th():
        t=time.time(); bad=[]; it=Interp(chk.mir); st=State(); D1,D2=setup(it,F1,F2); it.merge=True; it.ctx.bitmode=True
        bs=[it.ctx.atom(f'b{i}',0,1,'bit') for i in range(255)]; fe=FE(D1,{(a,):1<<i for i,a in enumerate(bs)}); by=[]
        for i in range(32):
            q={(bs[8*i+j],):1<<j for j in range(8) if 8*i+j<255}; by.append(I(q,0,sum(q.values()),'u8'))
        D1.bytes[pkey(fe.p)]=(by,fe.p,fe,{(bs[0],):1})
        def con(it_,st_,fr,q,args,argts):
            if name_of(q)[2]=='squeeze': it_.used_contracts.add('Rescue::squeeze'); return [(st_,fe)]
        it.contracts.insert(0,con); w={(bs[i],):1<<i for i in range(127)}; w[()]=1<<127
        outs=it.invoke(st,F0,f'{fn}::<{F1}, {F2}>',[it.alloc(st,UNIT)],[('ref',('other','?'))],tp(F2))
        for s2,v in outs:
            if not (D2.fe(v)-FE(D2,D2.red(w))).iszero(): bad.append('the challenge is not the low 127 bits with bit 127 set')
        if it.panics or not outs: bad.append('panics')
        chk.ob(f'get_challenge<{F1},{F2}>',fn,fw.REFUTED if bad else fw.PROVED,'mirv',time.time()-t,'; '.join(bad[:3])); chk.absorb(it)
    chk.attempt(f'get_challenge<{F1},{F2}>',fn,th)
def same0(D,a,b): return (D.fe(a)-D.fe(b)).iszero()
def run():
    chk=fw.Check('C21','other'); T=chk.thorough
    for E in FS:
        for k in(4,5)+((6,7) if T else ()): dver(chk,E,k)
        for k in(4,5): enc(chk,E,k,'Deferred'); enc(chk,E,k,'Leftovers')
        for k,kind in((4,''),(4,'imL'),(4,'m'),(5,'amLIL'))+(((5,'mmmLsIL'),(6,'aiLmILm')) if T else ()): lver(chk,E,k,kind)
        for k,kind in((4,''),(4,'aml'),(5,'iml')): dummies(chk,E,k,kind)
        transcript(chk,E)
    chalbits(chk,'Fp','Fq'); chalbits(chk,'Fq','Fp')
    from checks.conc3 import search_c21
    return chk.finish(search_c21)
