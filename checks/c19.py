"""C19: s(X,Y) as computed by SxEval / SyEval, and the constant term of t(X,Y)."""
from mirv.proto import *
from checks.c17 import kinds
FS=('Ec1','Ec0')
def sol(D,kind,coefs='F1-0',q='v'):
    """a program whose assignment satisfies every constraint, for all values of the free unknowns: 'm' multiplies, 'L' is an allocation
    together with a linear constraint that determines it, 'I' an input likewise"""
    ins=[]; vals=[D.const(1)]; ci=0
    for j,k in enumerate(kind):
        if k in'LI':
            ts=[]; s=D.const(0)
            for x in range(len(vals))[::-1]:
                c=coefs[ci%len(coefs)]; ci+=1
                f=D.var(f'k{j}_{ci}') if c=='F' else D.const({'0':0,'1':1,'-':-1}[c]); ts.append((c,f,x)); s=s+f*vals[x]
            ins.append(('a' if k=='L' else 'i',s)); vals.append(s); ts.append(('-',D.const(-1),len(vals)-1)); ins.append(('l',tuple(ts)))
        elif k in'ai': v=D.var(f'{k}{j}'); ins.append((k,v)); vals.append(v)
        elif k=='m': a,b=D.var(f'l{j}'),D.var(f'r{j}'); ins.append(('m',a,b,a*b)); vals+=[a,b,a*b]
        elif k=='s': a=vals[-1]; b=vals[len(vals)//2]; ins.append(('m',a,b,a*b)); ins+=[('l',(('1',D.const(1),len(vals)-1),('-',D.const(-1),len(vals)))),('l',(('1',D.const(1),len(vals)//2),('-',D.const(-1),len(vals)+1)))]; vals+=[a,b,a*b]
        else: ins.append((k,))
    return ins
def record(it,D,P,C):
    """gates, rows, inputs and wire values the synthesis driver hands to a backend (compared with the program by C17)"""
    B=Backend(it,D); B.wit=P.wit; st=State(); B.init(st)
    outs=it.invoke(st,F0,f'<Basic as SynthesisDriver>::synthesize::<{D.F}, Prog, Bk>',[Agg('Bk',()),it.alloc(st,Agg('Prog',()))],[BK,('ref',PROG)])
    if len(outs)!=1 or is_err(outs[0][1]): raise MirError('synthesis of the program')
    bk=outs[0][0].ghost['bk']; return (bk,)+denote_log(D,bk)
def mk(chk,E,k,kind,sat=False,wit=True):
    it=Interp(chk.mir); st=State(); pr=Proto(it,E,k); it.merge=False; D=pr.D
    P=Prog(D,sol(D,kind) if sat else mkins(D,kind),wit); C=Circ(it,D,P); return it,st,pr,D,P,C
def exp(pr,w): return {'A':pr.n-w[1],'B':pr.n+w[1],'C':2*pr.n+w[1]}[w[0]]
def spec(pr,rows,y):
    """coefficients of X^n s(X,y)"""
    D=pr.D; r=[D.const(0)]*(3*pr.n+1); p=D.const(1)
    for row in rows:
        p=p*y
        for w,c in row.items(): e=exp(pr,w); r[e]=r[e]+FE(D,c)*p
    return r
def path(pr,m): return f'proofs::Params::<{pr.E}>::{m}::<Prog, Basic>'
def sxy(chk,E,k,kind):
    name=f's(X,Y)<{E}>[{kind or "empty"},k={k}]'; fn='proofs::Params::compute_sx / compute_sy'
    def th():
        t=time.time(); it,st,pr,D,P,C=mk(chk,E,k,kind,wit=False); bad=[]; pp=it.alloc(st,pr.params()); cc=it.alloc(st,Agg('Prog',()))
        bk,g,rows,ks,_=record(it,D,P,C); x=pr.nz('x'); y=D.var('y')
        o1=it.invoke(st,F0,path(pr,'compute_sx'),[pp,cc,y],[('ref',('other','?')),('ref',PROG),tp(D.F)])
        o2=it.invoke(st,F0,path(pr,'compute_sy'),[pp,cc,x,CI(pr.n,'usize'),CI(len(rows),'usize')],[('ref',('other','?')),('ref',PROG),tp(D.F),('path','usize',()),('path','usize',())])
        if it.panics: bad.append('panics '+str(it.panics[0][:3]))
        if len(o1)!=1 or len(o2)!=1 or o1[0][1].v or o2[0][1].v: bad.append('synthesis fails'); sx=sy=None
        else:
            sx=[D.fe(v) for v in o1[0][1].f[0].f]; sy=[D.fe(v) for v in o2[0][1].f[0].f]; w=spec(pr,rows,y)
            if len(sx)!=3*pr.n+1: bad.append(f'{len(sx)} coefficients in X')
            bad+=[f'coefficient of X^{i-pr.n} differs' for i,(a,b) in enumerate(zip(sx,w)) if not (a-b).iszero()]
            if len(sy)!=len(rows)+1: bad.append(f'{len(sy)} coefficients in Y for {len(rows)} constraints')
            for q in range(len(sy)):
                s=D.const(0); xi=x.inv()
                for v,c in (rows[q-1] if 0<q<=len(rows) else {}).items():
                    e=exp(pr,v)-pr.n; s=s+FE(D,c)*FE(D,D.pw((x if e>0 else xi).p,abs(e)))
                if not (s-sy[q]).iszero(): bad.append(f'coefficient of Y^{q} differs')
            xn=FE(D,D.pw(x.p,pr.n))
            if not (pr.ev(sx,x)-xn*pr.ev(sy,y)).iszero(): bad.append('the two evaluations differ')
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',time.time()-t,'; '.join(bad[:3]),bound='call sequence and parameter size listed; all points, values and coefficients'); chk.absorb(it)
    chk.attempt(name,fn,th)
def prove(it,st,pr,old):
    return it.invoke(st,F0,f'proofs::Proof::<{pr.E}>::new::<Prog, Basic>',[it.alloc(st,pr.params()),it.alloc(st,Agg('Prog',())),it.alloc(st,old)],[('ref',('other','?')),('ref',PROG),('ref',('other','?'))])
def const_term(chk,E,k,kind):
    """all values arbitrary (satisfying or not)"""
    name=f'constant term<{E}>[{kind or "empty"},k={k}]'; fn='proofs::Proof::new / Deferred::compute'
    def th():
        t=time.time(); it,st,pr,D,P,C=mk(chk,E,k,kind); bad=[]
        bk,g,rows,ks,_=record(it,D,P,C)
        yo,lo=pr.leftovers(st,None); old=lo(spec(pr,rows,yo))
        outs=prove(it,st,pr,old); n=pr.n
        if len(pr.mul)<1: raise MirError('no polynomial product')
        A,B,tx=pr.mul[0]; y=[v for kx,v in pr.ch.items() if kx[0]=='sq' and len(kx[1])==2][0]
        val=lambda w: bk['val'].get(w,D.const(0))
        yi=y.inv(); yp=lambda e: FE(D,D.pw((y if e>=0 else yi).p,abs(e)))
        w=D.const(0)
        for i in range(1,g+1): w=w+(val(('A',i))*val(('B',i))-val(('C',i)))*(yp(i)+yp(-i))
        kq=dict(zip(ks,bk['kv'])); ky=D.const(0)
        for q,row in enumerate(rows,1):
            s=D.const(0)
            for v,c in row.items(): s=s+FE(D,c)*val(v)
            if q in kq: s=s-kq[q]; ky=ky+kq[q]*yp(q)
            w=w+s*yp(n+q)
        res=tx[4*n]-ky*yp(n)-w
        if not res.iszero(): bad.append('constant term is not the weighted sum of the residuals: '+D.show(D.clear(res.p),4))
        if not outs and not pr.calls and not it.panics: bad.append('no outcome')
        # Deferred::compute on the openings of these polynomials: lhs - rhs is the constant term
        x=pr.nz('x'); rx=[D.fe(v) for v in A.f]; sx=spec(pr,rows,y); txp=tx[4*n+1:]; txm=tx[:4*n]; e=lambda v,z,r=False: pr.ev(v,z)*FE(D,D.pw(z.p,pr.d-len(v) if r else 0))
        u=D.var('u'); fs=it.mir.struct_fields('Deferred'); val2=dict(x=x,y_old=yo,y_cur=y,y_new=u,ky_opening=ky,tx_positive_opening=e(txp,x),tx_negative_opening=e(txm,x),sx_cur_opening=e(sx,x),rx_opening=e(rx,x,True),rxy_opening=e(rx,x*y,True))
        d=Agg('Deferred',[val2.get(f,u) for f in fs]); st3=State(); o=it.invoke(st3,F0,f'proofs::Deferred::<{D.F}>::compute',[it.alloc(st3,d),CI(k,'usize')],[('ref',('other','?')),('path','usize',())])
        if len(o)!=1: bad.append('Deferred::compute outcomes')
        for s2,r in o:
            l,rr=[D.fe(v) for v in r.f]
            if not (l-rr-(tx[4*n]-ky*yp(n))).iszero(): bad.append('Deferred::compute does not test the constant term')
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',time.time()-t,'; '.join(bad[:3]),bound='call sequence and parameter size listed; all values, coefficients and challenges'); chk.absorb(it)
    chk.attempt(name,fn,th)
def run():
    chk=fw.Check('C19','other'); T=chk.thorough
    for E in FS:
        ks=[(4,x) for x in kinds(2)]+[(4,x) for x in('aiml','ml','iml','amlil','nadal','lel','ammll','iiiil','mallm')]+[(5,'iaimlmll'),(5,'mmml'),(6,'amlimlalm')]
        if E=='Ec0': ks=[(4,''),(4,'aiml'),(4,'iall'),(5,'mmllm')]
        if T: ks+=[(4,x) for x in kinds(3)]+[(5,'almlaali'),(6,'mmmmmllllaai')]
        for k,x in ks: sxy(chk,E,k,x)
        ks=[(4,''),(4,'m'),(4,'a'),(4,'i'),(4,'l'),(4,'aiml'),(4,'mll'),(4,'iml'),(5,'iamlml')]
        if E=='Ec0': ks=[(4,''),(4,'aiml'),(5,'mlil')]
        if T: ks+=[(4,x) for x in kinds(2)]+[(5,'mmmllll'),(6,'amlil')]
        for k,x in ks: const_term(chk,E,k,x)
    from checks.conc3 import search_c19
    return chk.finish(search_c19)
