"""C20: completeness of the protocol, and every component of a proof counts."""
from checks.c19 import *
from checks.c09 import zeta
def verify(it,st,pr,proof,old,inputs,kc=NONE):
    o=('other','?')
    return it.invoke(st,F0,f'proofs::Proof::<{pr.E}>::verify::<Prog, Basic>',[it.alloc(st,proof),it.alloc(st,old),it.alloc(st,pr.params()),it.alloc(st,Agg('Prog',())),vec_ref(it,st,inputs),kc],[('ref',o),('ref',o),('ref',o),('ref',PROG),slc(tp(pr.S)),('path','Option',(tp(pr.E),))])
def lverify(it,st,pr,left):
    o=('other','?'); return it.invoke(st,F0,f'proofs::Leftovers::<{pr.E}>::verify::<Prog, Basic>',[it.alloc(st,left),it.alloc(st,pr.params()),it.alloc(st,Agg('Prog',()))],[('ref',o),('ref',o),('ref',PROG)])
def dverify(it,st,pr,d):
    o=('other','?'); return it.invoke(st,F0,f'proofs::Deferred::<{pr.S}>::verify',[it.alloc(st,d),CI(pr.k,'usize')],[('ref',o),('path','usize',())])
def one(it,outs,what):
    if it.panics: raise Bad(f'{what} panics: {it.panics[0][:3]}')
    if len(outs)!=1: raise Bad(f'{what} has {len(outs)} outcomes')
    s,v=outs[0]
    if isinstance(v,Agg) and v.k=='Result':
        if v.v: raise Bad(f'{what} fails')
        v=v.f[0]
    return s,v
class Bad(Exception): pass
def val(it,st,b):
    """constant value of a boolean, or None"""
    if isinstance(b,Agg): b=b.f[0]
    b=it.sub_assume(st,b) if st.assume else b
    return b.const
def honest(chk,E,k,kind):
    it,st,pr,D,P,C=mk(chk,E,k,kind,True); bk,g,rows,ks,_=record(it,D,P,C)
    yo,lo=pr.leftovers(st,None); old=lo(spec(pr,rows,yo))
    st,r=one(it,prove(it,st,pr,old),'Proof::new'); proof,left=r.f
    return it,st,pr,D,P,C,rows,ks,bk,old,proof,left
def same(pr,a,b):
    """structural equality of values up to polynomial identity"""
    if isinstance(a,FE) or isinstance(b,FE): return (pr.D.fe(a)-pr.D.fe(b)).iszero()
    if isinstance(a,GP) or isinstance(b,GP): return pr.G.gp(a).same(pr.G.gp(b))
    if isinstance(a,Agg): return isinstance(b,Agg) and len(a.f)==len(b.f) and a.v==b.v and all(same(pr,x,y) for x,y in zip(a.f,b.f))
    if isinstance(a,I): return a.const is not None and a.const==b.const
    raise MirError('comparison of records')
def complete(chk,E,k,kind,given=False):
    name=f'honest proof verifies<{E}>[{kind or "empty"},k={k}{",k commitment given" if given else ""}]'; fn='proofs::Proof::new / verify'
    def th():
        t=time.time(); bad=[]; it=None
        try:
            it,st,pr,D,P,C,rows,ks,bk,old,proof,left=honest(chk,E,k,kind); P.wit=False; inputs=P.values()[1][1:]
            ky=[D.const(0)]*(max(ks)+1)
            for q,v in zip(ks,bk['kv']): ky[q]=v
            st,r=one(it,verify(it,st,pr,proof,old,inputs,some(pr.commit(ky)) if given else NONE),'Proof::verify')
            ok,left2,deferred,fv=r.f
            if val(it,st,ok)!=1: bad.append('honest proof is not accepted')
            if not same(pr,left,left2): bad.append('prover and verifier disagree on the leftovers')
            st,r=one(it,dverify(it,st,pr,deferred),'Deferred::verify')
            if val(it,st,r)!=1: bad.append('deferred work of an honest proof is rejected')
            st,r=one(it,lverify(it,st,pr,left2),'Leftovers::verify')
            if val(it,st,r)!=1: bad.append('leftovers of an honest proof are rejected')
            st,r=one(it,lverify(it,st,pr,old),'Leftovers::verify')
            if val(it,st,r)!=1: bad.append('honest old leftovers are rejected')
        except Bad as e: bad.append(str(e))
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',time.time()-t,'; '.join(bad[:3]),bound='call sequence and parameter size listed; all values, coefficients, challenges and generators'); it and chk.absorb(it)
    chk.attempt(name,fn,th)
# ---------------- the opening argument itself (real code on unknown polynomials, points, generators, challenges)
def opening(pr,c,v,x,edge): return pr.struct('PolynomialOpening',commitment=c,opening=v,point=x,right_edge=CI(int(edge),'bool'))
def ipa_run(chk,E,k,J,lens,edges,nosq=None):
    it=Interp(chk.mir); st=State(); pr=Proto(it,E,k,ipa='inline'); D=pr.D; it.merge=False; pr.nosq=nosq
    polys=[[D.var(f'a{j}_{i}') for i in range(lens[j])] for j in range(J)]; xs=[D.var(f'x{j}') for j in range(J)]
    full=[([D.const(0)]*(pr.d-len(v))+v if e else v+[D.const(0)]*(pr.d-len(v))) for v,e in zip(polys,edges)]
    ins=[Agg('tuple',(opening(pr,pr.commit(f),pr.ev(f,x),x,e),vec_ref(it,st,v))) for v,f,x,e in zip(polys,full,xs,edges)]
    T0=(('start',),); tr=it.alloc(st,Tr(T0)); o=('other','?')
    st,r=one(it,it.invoke(st,F0,f'proofs::MultiPolynomialOpening::<{E}>::new_proof',[tr,vec_ref(it,st,ins),vec_ref(it,st,pr.gens),CI(k,'usize')],[('ref',o),('ref',o),slc(tp(E)),('path','usize',())]),'new_proof')
    return it,st,pr,D,full,xs,edges,r,T0,it.deref(st,tr)
def ipa_verify(it,st,pr,proof,claims,k,T0):
    tr=it.alloc(st,Tr(T0)); o=('other','?')
    outs=it.invoke(st,F0,f'proofs::MultiPolynomialOpening::<{pr.E}>::verify_proof',[it.alloc(st,proof),tr,vec_ref(it,st,claims),CI(k,'usize')],[('ref',o)]*3+[('path','usize',())])
    return tr,outs
def nonid(it,st,b):
    """a boolean condition that is false at some values (not accepted identically)"""
    c=val(it,st,b); return c!=1
def ipa(chk,E,k,J,lens,edges,nosq=None,lab=''):
    name=f'ipa<{E}>[{k} rounds, {J} claims{lab}]'; fn='proofs::MultiPolynomialOpening::new_proof / verify_proof'
    def th():
        t=time.time(); bad=[]; it=None
        try:
            it,st,pr,D,full,xs,edges_,r,T0,T1=ipa_run(chk,E,k,J,lens,edges,nosq); proof,packed,g=r.f; us=[D.fe(u) for u in packed.f]
            if len(us)!=k: bad.append('number of challenges')
            w=pr.G.zero()
            for a,b in zip(pr.fold([pr.ch[('scalar',pr.fkey(u))] for u in us]),pr.gens): w=w.add(b.mul(a))
            if not pr.G.gp(g).same(w): bad.append('returned generator is not the fold of the generators')
            # every claim shifted by an unknown error: accepted exactly when all errors vanish
            dc=[D.var(f'dc{j}') for j in range(J)]; dv=[D.var(f'dv{j}') for j in range(J)]; H=pr.G.base('H')
            for mode in('honest',)+tuple(('c',j) for j in range(J))+tuple(('v',j) for j in range(J))+tuple(('x',j) for j in range(J)):
                s0=st.copy(); it.panics.clear(); cl=[]
                for j in range(J):
                    c=pr.commit(full[j]); v=pr.ev(full[j],xs[j])
                    if mode==('c',j): c=c.add(H.mul(dc[j]))
                    if mode==('v',j): v=v+dv[j]
                    cl.append(opening(pr,c,v,xs[j]+dv[j] if mode==('x',j) else xs[j],edges[j]))
                tr,outs=ipa_verify(it,s0,pr,proof,cl,k,T0)
                if it.panics: bad.append('verify_proof panics '+str(it.panics[0][:3]))
                if mode=='honest':
                    s1,r=one(it,outs,'verify_proof'); ok,pk,g2,fv=r.f
                    if val(it,s1,ok)!=1: bad.append('honest opening is not accepted')
                    if not pr.G.gp(g2).same(w) or [pr.fkey(x) for x in pk.f]!=[pr.fkey(u) for u in us]: bad.append('verifier outputs differ from the prover')
                    if it.deref(s1,tr).s!=T1.s: bad.append('transcripts differ')
                    if len(fv.f)!=k: bad.append('fork values')
                else:
                    # accepted only under the assumption that the error is zero
                    for s1,r in outs:
                        if val(it,s1,r.f[0])==0: continue
                        e=(dc if mode[0]=='c' else dv)[mode[1]]
                        if val(it,s1,r.f[0])!=1: bad.append('undetermined'); continue
                        if mode[0]=='x':
                            if not any(it.ctx.atoms[a].kind=='feq' and b==1 for a,b in s1.assume.items()) and not s1.ghost.get('z') and not s1.ghost.get('sub'): bad.append(f'claim {mode[1]} accepted at another point')
                            continue
                        if not implied_zero(pr,s1,e): bad.append(f'wrong {"commitment" if mode[0]=="c" else "value"} of claim {mode[1]} accepted')
                    if not any(val(it,s1,r.f[0])==0 for s1,r in outs): bad.append(f'{mode}: never rejected')
        except Bad as e: bad.append(str(e))
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',time.time()-t,'; '.join(bad[:3]),bound='rounds, number and lengths of claims listed; all polynomials, points, generators and challenges')
        if it: chk.absorb(it)
    chk.attempt(name,fn,th)
def implied_zero(pr,st,e):
    D=pr.D; p=D.subst(e.p,st.ghost.get('sub') or {})
    if D.zero(p): return True
    for a,v in st.assume.items():
        A=it_atom(pr,a)
        if A.kind=='geq' and v==1:
            for b,c in A.d[1].items():
                c=D.strip_nz(st,D.clear(D.subst(c,st.ghost.get('sub') or {})))
                if pkey(D.monic(c))==pkey(D.monic(e.p)): return True
        if A.kind=='feq' and v==1 and pkey(D.monic(A.d[1]))==pkey(D.monic(e.p)): return True
    return any(pkey(D.monic(D.strip_nz(st,dict(z))))==pkey(D.monic(e.p)) for z in st.ghost.get('z',()))
def it_atom(pr,a): return pr.it.ctx.atoms[a]
def ipa_tamper(chk,E,k,J,lens,edges):
    """replace one component of an opening proof by component + unknown error"""
    fn='proofs::MultiPolynomialOpening::verify_proof'
    slots=[(f,i,j) for i in range(k) for j in range(J) for f in'LRlr']+[('a',None,j) for j in range(J)]+[('g',None,None)]
    def th():
        t=time.time(); bad=[]; it=None
        it,st,pr,D,full,xs,edges_,r,T0,T1=ipa_run(chk,E,k,J,lens,edges); proof,packed,g=r.f; H=pr.G.base('H'); cl=[opening(pr,pr.commit(f),pr.ev(f,x),x,e) for f,x,e in zip(full,xs,edges)]
        us=[pr.fkey(u) for u in packed.f]
        for f,i,j in slots:
            e=D.var('e',nz=True); s0=st.copy(); it.panics.clear(); P=proof
            up=lambda v: pr.G.gp(v).add(H.mul(e)) if f in'LRg' else D.fe(v)+e
            rep=lambda v,n: Agg(v.k,[up(x) if m==n else x for m,x in enumerate(v.f)])
            if f=='g': P=pr.put('MultiPolynomialOpening',P,'g',up(pr.get('MultiPolynomialOpening',P,'g')))
            elif f=='a': P=pr.put('MultiPolynomialOpening',P,'a',rep(pr.get('MultiPolynomialOpening',P,'a'),j))
            else:
                rs=pr.get('MultiPolynomialOpening',P,'rounds'); rd=rs.f[i]; rd=pr.put('InnerProductRound',rd,f,rep(pr.get('InnerProductRound',rd,f),j))
                P=pr.put('MultiPolynomialOpening',P,'rounds',Agg(rs.k,[rd if m==i else x for m,x in enumerate(rs.f)]))
            tr,outs=ipa_verify(it,s0,pr,P,cl,k,T0); what=f'{f}{"" if j is None else f" of claim {j}"}{"" if i is None else f" in round {i}"}'
            if not outs and not it.panics: bad.append(what+': no outcome')
            for s1,r1 in outs:
                ok,pk,g2,fv=r1.f; c=val(it,s1,ok)
                if f in'LRlr' and [pr.fkey(u) for u in pk.f][i]==us[i]: bad.append(what+' does not enter the transcript before the challenge'); break
                if c==0: continue
                if c!=1: bad.append(what+': undetermined'); break
                if not any(it.ctx.atoms[a].kind in('geq','feq') for a in s1.assume) and not s1.ghost.get('sub') and not s1.ghost.get('z'): bad.append(what+' changed, yet accepted'); break
                if f=='a' and not any(it.ctx.atoms[a].kind=='geq' and v==1 for a,v in s1.assume.items()): bad.append(what+' changed, yet accepted'); break
        chk.ob(f'ipa-components<{E}>[{k} rounds, {J} claims]',fn,fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',time.time()-t,'; '.join(bad[:3]),bound='rounds, number and lengths of claims listed; all polynomials, points, errors; challenges after a changed component are independent unknowns'); chk.absorb(it)
    chk.attempt(f'ipa-components<{E}>[{k} rounds, {J} claims]',fn,th)
def nosq_pattern(bits):
    """the i-th distinct challenge is not a square where the pattern says so"""
    def f(pr,it,st,v):
        key=pkey(v.p); pr.sqseen=getattr(pr,'sqseen',{})
        if key in getattr(pr,'sqskip',()): return [(st,Agg('CtOption',(pr.root[key],choice(CI(1,'u8')))))]
        n=pr.sqseen.setdefault(key,len(pr.sqseen))
        if n<len(bits) and bits[n]=='0': return [(st,Agg('CtOption',(pr.root[key],choice(CI(0,'u8')))))]
        return [(st,Agg('CtOption',(pr.root[key],choice(CI(1,'u8')))))]
    return f
# ---------------- the verifier as a function of an arbitrary proof
PTS=('r_commitment','s_cur_commitment','t_positive_commitment','t_negative_commitment','c_commitment','s_new_commitment')
SCS=('rx_opening','rxy_opening','sx_old_opening','sx_cur_opening','tx_positive_opening','tx_negative_opening','sx_new_opening')
def old_any(pr):
    us=[pr.nz('cpo') for _ in range(pr.k)]; D=pr.D
    for u in us: w=pr.chal(('scalar',pr.fkey(u)),'u'); pr.root[pkey((w*w).p)]=w
    pr.sqskip=set(pr.root)
    return pr.struct('Leftovers',s_new_commitment=pr.G.base('S_OLD'),y_new=D.var('y_old'),g_new=pr.G.base('G_OLD'),challenges_sq_packed_new=Agg('Vec',us)),us
def compb(pr,x,us):
    w=pr.D.const(1); n=len(us); rt=[pr.ch[('scalar',pr.fkey(u))] for u in us]
    for i in range(n): w=w*(rt[i].inv()+rt[i]*FE(pr.D,pr.D.pw(x.p,1<<(n-1-i))))
    return w
def vcontract(chk,E,k,kind,given=False):
    """arbitrary proof, leftovers and inputs: what enters the transcript before which challenge, which claims are opened, what is handed on"""
    name=f'verify<{E}>[{kind or "empty"},k={k}{",k commitment given" if given else ""}]'; fn='proofs::Proof::verify'
    def th():
        t=time.time(); bad=[]; it,st,pr,D,P,C=mk(chk,E,k,kind,True,False); bk,g,rows,ks,_=record(it,D,P,C); G=pr.G
        old,ous=old_any(pr); vals={f:G.base(f) for f in PTS}; vals.update({f:D.var(f) for f in SCS}); proof=pr.struct('Proof',inner_product=Opq(('any',)),**vals)
        inputs=[D.var(f'in{j}') for j in range(len(ks)-1)]; K=G.base('K'); ky=[D.const(0)]*(max(ks)+1)
        for q,v in zip(ks,[D.const(1)]+inputs): ky[q]=v
        KC=K if given else pr.commit(ky)
        try:
            st,r=one(it,verify(it,st,pr,proof,old,inputs,some(K) if given else NONE),'Proof::verify'); ok,left,dfd,fk=r.f; A=pr.any
            T=A['T']; pos=[i for i,e in enumerate(T) if e[0]=='Q']; 
            if len(pos)<4: bad.append(f'{len(pos)} challenges')
            chs=[pr.ch[('sq',T[:i])] for i in pos]
            if [e for e in T if e[0] not in'PQ']: bad.append('unexpected transcript entries')
            y_cur,x,y_new,zp=chs[:4]; z=pr.ch[('scalar',pr.fkey(zp))]; z=z*z
            one_=G.base('G'); ent=lambda p:('P',pr.gkey(p)); es=lambda f:ent(one_.mul(f)); before=lambda i:set(T[:pos[i]])
            need=[[ent(KC),ent(vals['r_commitment'])],[ent(vals[f]) for f in('s_cur_commitment','t_positive_commitment','t_negative_commitment')],[ent(vals['c_commitment'])],[ent(vals['s_new_commitment']),es(pr.ev(ky,y_cur))]+[es(vals[f]) for f in SCS]+[es(compb(pr,x,ous))]]
            lab=[['the input commitment','r_commitment'],['s_cur_commitment','t_positive_commitment','t_negative_commitment'],['c_commitment'],['s_new_commitment','the input evaluation']+list(SCS)+['the evaluation of the folded generators']]
            for i,(n,l) in enumerate(zip(need,lab)):
                for e,w in zip(n,l):
                    if e not in before(i): bad.append(f'{w} does not enter the transcript before challenge {i+1}')
            yo=pr.get('Leftovers',old,'y_new'); gx=compb(pr,x,ous); V=vals
            def horner(l): 
                r=l[0]
                for y in l[1:]: r=(r.mul(z).add(y) if isinstance(r,GP) else r*z+y)
                return r
            want=[(horner([V['r_commitment'],pr.get('Leftovers',old,'s_new_commitment'),V['s_cur_commitment'],V['t_positive_commitment'],V['t_negative_commitment'],V['s_new_commitment'],pr.get('Leftovers',old,'g_new')]),horner([V[f] for f in('rx_opening','sx_old_opening','sx_cur_opening','tx_positive_opening','tx_negative_opening','sx_new_opening')]+[gx]),x,0),
             (V['r_commitment'],V['rxy_opening'],x*y_cur,1),(V['c_commitment'],V['sx_old_opening'],yo,0),(V['c_commitment'].add(KC.mul(z)),V['sx_cur_opening']+pr.ev(ky,y_cur)*z,y_cur,0),(V['c_commitment'],V['sx_new_opening'],y_new,0)]
            ck=lambda c:(pr.gkey(c[0]),pr.fkey(c[1]),pr.fkey(c[2]),c[3]); got=sorted(map(ck,A['claims']))
            if got!=sorted(map(ck,want)): bad.append('the opened claims differ: '+', '.join(str(i+1) for i,w in enumerate(want) if ck(w) not in got))
            if A['k']!=k: bad.append('rounds')
            if not(isinstance(ok,I) and ok.p==A['ok'].p): bad.append('the verdict is not that of the opening argument')
            if not same(pr,left,pr.struct('Leftovers',s_new_commitment=V['s_new_commitment'],y_new=y_new,g_new=A['g'],challenges_sq_packed_new=Agg('Vec',A['us']))): bad.append('new leftovers')
            b=lambda q: compb(pr,q,A['us'])
            exp=dict(x=x,y_old=yo,y_cur=y_cur,y_new=y_new,ky_opening=pr.ev(ky,y_cur),gx_old_opening=gx,challenges_sq_packed_old=Agg('Vec',ous),challenges_sq_packed_new=Agg('Vec',A['us']),b_x=b(x),b_xy=b(x*y_cur),b_y_old=b(yo),b_y_cur=b(y_cur),b_y_new=b(y_new),**{f:V[f] for f in('tx_positive_opening','tx_negative_opening','sx_cur_opening','rx_opening','rxy_opening')})
            for f in it.mir.struct_fields('Deferred'):
                if f not in exp: raise MirError('unknown field of the deferred record: '+f)
                if not same(pr,pr.get('Deferred',dfd,f),exp[f]): bad.append(f'deferred {f}')
            if not same(pr,fk,Agg('Vec',A['forks'])): bad.append('fork values')
        except Bad as e: bad.append(str(e))
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',time.time()-t,'; '.join(bad[:3]),bound='call sequence and parameter size listed; all proofs, inputs, leftovers and challenges'); chk.absorb(it)
    chk.attempt(name,fn,th)
def tamper(chk,E,k,kind):
    """an honest proof with one component, input or old-leftover field changed by an unknown non-zero error"""
    name=f'tampered<{E}>[{kind or "empty"},k={k}]'; fn='proofs::Proof::verify / Deferred::verify / Leftovers::verify'
    def th():
        t=time.time(); bad=[]; it=None
        it,st,pr,D,P,C,rows,ks,bk,old,proof,left=honest(chk,E,k,kind); P.wit=False; inputs=P.values()[1][1:]; G=pr.G; H=G.base('H'); e=D.var('e',nz=True)
        bump=lambda v: G.gp(v).add(H.mul(e)) if isinstance(v,GP) else D.fe(v)+e
        def nth(v,n): return Agg(v.k,[bump(x) if i==n else x for i,x in enumerate(v.f)])
        ky=[D.const(0)]*(max(ks)+1)
        for q,v in zip(ks,bk['kv']): ky[q]=v
        cases=[(f,dict(proof=pr.put('Proof',proof,f,bump(pr.get('Proof',proof,f))))) for f in PTS+SCS]
        cases+=[('old '+f,dict(old=pr.put('Leftovers',old,f,bump(pr.get('Leftovers',old,f))))) for f in('s_new_commitment','y_new','g_new')]
        for i in range(pr.k): cases.append((f'old challenge {i}',dict(old=pr.put('Leftovers',old,'challenges_sq_packed_new',nth(pr.get('Leftovers',old,'challenges_sq_packed_new'),i)))))
        for i in range(len(inputs)):
            x=[bump(v) if i==j else v for j,v in enumerate(inputs)]; cases+=[(f'input {i}',dict(inputs=x)),(f'input {i} with the honest input commitment',dict(inputs=x,kc=some(pr.commit(ky))))]
        cases.append(('input commitment',dict(kc=some(bump(pr.commit(ky))))))
        n=0
        for what,c in cases:
            s0=st.copy(); it.panics.clear(); o2=c.get('old',old)
            for u in pr.get('Leftovers',o2,'challenges_sq_packed_new').f: w=pr.chal(('scalar',pr.fkey(u)),'u'); pr.root[pkey((w*w).p)]=w
            for s1,r in verify(it,s0,pr,c.get('proof',proof),o2,c.get('inputs',inputs),c.get('kc',NONE)):
                ok,left2,dfd,fv=r.f[0].f; v=val(it,s1,ok)
                if v==0 or depends(pr,it,ok,e): n+=1; continue
                acc=False
                for s2,a in dverify(it,s1,pr,dfd):
                    if val(it,s2,a)==0 or assumed(it,s2,s1): continue
                    for s3,a3 in lverify(it,s2,pr,left2):
                        a3=a3.f[0] if isinstance(a3,Agg) and a3.k=='Result' else a3
                        if val(it,s3,a3)!=0 and not assumed(it,s3,s2): acc=True
                if acc: bad.append(what+' changed, yet everything is accepted')
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',time.time()-t,'; '.join(bad[:3]),bound=f'{len(cases)} positions; call sequence and parameter size listed; all values, coefficients, errors and challenges; a changed transcript gives independent challenges'); chk.absorb(it)
    chk.attempt(name,fn,th)
def depends(pr,it,ok,e):
    """the verdict is a condition that is not met for all values"""
    return bool({a for m in ok.p for a in m})
def assumed(it,s2,s1):
    """s2 was reached only under an extra algebraic condition"""
    return len(s2.assume)>len(s1.assume) and any(it.ctx.atoms[a].kind in('feq','geq') and s2.assume[a]==1 for a in s2.assume if a not in s1.assume)
def scalars(chk,F):
    """lemma over the C09 contract of the challenge map: the scalar of every challenge is non-zero, and challenges that differ in a
    significant bit give different scalars.  The recurrence acc=3; acc = w^e (2 acc +- 1) runs in Z[w], w = BETA a primitive cube root of unity;
    an element of Z[w] of norm below r that maps to 0 in the field is 0 (the kernel of Z[w] -> Z/r is an ideal of norm r)"""
    def th():
        t=time.time(); bad=[]; r=MOD[F]; z=zeta(chk,F)
        if (z*z+z+1)%r or z==1: bad.append('BETA is not a primitive cube root of unity')
        m=3                                         # |acc| <= m
        for _ in range(63): m=2*m+1
        if m*m>=r: bad.append('a zero scalar is not excluded')
        if (2*m)**2>=r: bad.append('two challenges may share a scalar')
        # Z[w] modulo 4 as pairs (a,b) = a + b w; the last step is recovered from acc modulo 4, so the whole history is
        w=lambda v:((-v[1])%4,(v[0]-v[1])%4); inv=set(); cur={(3,0)}
        while not cur<=inv:
            inv|=cur; cur={f(tuple((2*c+(s if i==0 else 0))%4 for i,c in enumerate(a))) for a in inv for s in(1,-1) for f in(lambda v:v,w)}
        if any(a[0]%2==0 and a[1]%2==0 for a in inv): bad.append('the accumulator can be even')
        # one step: different (sign, turn) or different accumulators modulo 2 always give different results modulo 4; same (sign, turn) is injective
        tab={}
        for a in {(1,0),(0,1),(1,1)}:
            for s in(1,-1):
                for e in(0,1):
                    v=((2*a[0]+s)%4,(2*a[1])%4); v=w(v) if e else v
                    if (a in {(x%2,y%2) for x,y in inv}) and tab.setdefault(v,(s,e))!=(s,e): bad.append(f'steps collide')
        chk.ob(f'challenge scalars<{F}>: non-zero, injective on bits 2..127','util::get_challenge_scalar',fw.REFUTED if bad else fw.PROVED,'arithmetic',time.time()-t,'; '.join(bad[:3]))
    chk.attempt(f'challenge scalars<{F}>','util::get_challenge_scalar',th)
def run():
    chk=fw.Check('C20','other'); T=chk.thorough
    for F in('Fp','Fq'): scalars(chk,F)
    for E in FS:
        two=E=='Ec1'
        ks=[(4,''),(4,'m'),(4,'I'),(4,'mL'),(4,'LIm'),(4,'sI')]+([(5,'ILmsL'),(4,'LmL'),(5,'mILs')] if two else [])
        if T: ks+=[(5,'mmmLI'),(6,'ImL'),(4,'IIII'),(4,'sss')]
        for k,x in ks: complete(chk,E,k,x)
        for k,x in((4,'LIm'),(4,'I')): complete(chk,E,k,x,True)
        for k,x in((4,''),(4,'I'),(4,'LmL'),(4,'sII'))+(((5,'LIm'),) if two else ()): vcontract(chk,E,k,x); 
        vcontract(chk,E,4,'sII',True); vcontract(chk,E,4,'m',True)
        for k,x in((4,'I'),(4,'LIm'))+(((4,'sI'),(5,'mIL')) if two or T else ()): tamper(chk,E,k,x)
        rs=[(1,1,(2,),(0,)),(1,2,(2,1),(0,1)),(2,1,(4,),(0,)),(2,2,(3,4),(1,0)),(3,2,(7,8),(1,0))]
        if two or T: rs+=[(4,1,(16,),(0,)),(4,5,(16,13,16,4,7),(0,1,0,0,0))]
        for r in rs: ipa(chk,E,*r)
        for b in('01','0011','00010','1001'): ipa(chk,E,2,2,(3,4),(1,0),nosq_pattern(b),', squares '+b)
        ipa_tamper(chk,E,2,2,(4,4),(0,0))
        if two or T: ipa_tamper(chk,E,3,1,(8,),(0,)); ipa_tamper(chk,E,2,2,(3,2),(1,1))
    from checks.conc3 import search_c20
    return chk.finish(search_c20)
