from mirv import fw
from mirv.ec import *
from checks import conc
def report(chk,name,fn,bads,ec,outs):
    if not outs: chk.ob(name,fn,fw.REFUTED,'mirv',0,'no outcome (panics)'); return
    hard=[b for b in bads if not b.startswith('?')]
    chk.ob(name,fn,fw.REFUTED if hard else fw.UNKNOWN if bads else fw.PROVED,'mirv-poly (normal forms modulo the curve equations)',0,'; '.join(bads))
    if ec.it.panics: chk.ob(name+'.nopanic',fn,fw.REFUTED,'mirv',0,str(ec.it.panics[0][:3]))
    chk.absorb(ec.it)
def cases(E,chk,unary=False):
    """(case name, EC, operand points, affine data) covering every pair of group elements and every representation"""
    def mk(kind):
        ec=EC(chk.mir,E); D=ec.D
        if kind in('O','OO','OP','PO'):
            x,y=ec.coords(); P=ec.proj(x,y)
            if kind=='OO': return ec,[ec.ident(),ec.ident()],'O','O'
            if kind=='OP': return ec,[ec.ident(),P],'O',(x,y)
            return ec,[P,ec.ident()],(x,y),'O'
        x,y=ec.coords(); P=ec.proj(x,y)
        if kind=='same': return ec,[P,ec.proj(x,y)],(x,y),(x,y)
        if kind=='same-rep': return ec,[P,P],(x,y),(x,y)
        if kind=='opposite': return ec,[P,ec.proj(x,-y)],(x,y),(x,-y)
        if kind=='generic':
            x2,y2=ec.coords(); Q=ec.proj(x2,y2); D.assume_nonzero(ec.st,(x2-x).p); return ec,[P,Q],(x,y),(x2,y2)
    for k in('generic','same','same-rep','opposite','OP','PO','OO'): yield k,mk(k)
def expected(ec,k,A,Bp):
    one=ec.D.const(1)
    if A=='O' and Bp=='O': return 'O'
    if A=='O': return ('aff',Bp[0],one,Bp[1],one)
    if Bp=='O': return ('aff',A[0],one,A[1],one)
    if k=='generic': return ec.ex_sum(*A,*Bp)
    if k in('same','same-rep'): return ec.ex_dbl(*A)
    return 'O'
def cands(ec,k,A,Bp):
    """polynomials known to be non-zero: y(R) of any non-identity R (odd order)"""
    r=[]
    if A!='O':
        x,y=A; r+=[y,y*y,y*y*y,y*y*y*y]; e=ec.ex_dbl(x,y); r+=[e[3]]
    if Bp!='O' and A!='O' and k=='generic':
        x2,y2=Bp
        for s2 in(y2,-y2):
            e=ec.ex_sum(A[0],A[1],x2,s2); d=x2-A[0]
            r+=[e[3],e[3]*d,e[3]*d*d]
        r+=[d,d*d,d*d*d]
    return r
FORMS=[(l,r) for l in 'vr' for r in 'vr']
def run_curve(chk,E):
    am=lambda r:('&' if r=='r' else '')+E
    for tr,m,sg in(('Add','add',1),('Sub','sub',-1)):
        forms=[(f'<{am(l)} as {tr}<{am(r)}>>::{m}',l+r,False) for l,r in FORMS]+[(f'<{E} as {tr}Assign<{am(r)}>>::{m}_assign','r'+r,True) for r in 'vr']
        for callee,byref,asg in forms:
            def th(callee=callee,byref=byref,asg=asg):
                for k,(ec,ops,A,Bp) in cases(E,chk):
                    name=f'{callee}[{k}]'
                    k2=k; B2=Bp
                    if sg<0:
                        B2=Bp if Bp=='O' else (Bp[0],-Bp[1]); k2={'same':'opposite','same-rep':'opposite','opposite':'same'}.get(k,k)
                    outs,a=ec.call(callee,ops,byref)
                    bads=[]
                    for st2,v in outs:
                        if asg: v=ec.it.deref(st2,a[0])
                        bads+=ec.check(v,expected(ec,k2,A,B2),cands(ec,k2,A,B2),st2)
                    report(chk,name,callee,bads,ec,outs)
            chk.attempt(callee,callee,th)
    for callee,br in((f'<{E} as Curve>::double','r'),(f'<{E} as Neg>::neg','v'),(f'<&{E} as Neg>::neg','r')):
        def un(callee=callee,br=br):
            for k in('P','O'):
                ec=EC(chk.mir,E); x,y=ec.coords(); one=ec.D.const(1)
                op=ec.proj(x,y) if k=='P' else ec.ident(); A=(x,y) if k=='P' else 'O'
                outs,_=ec.call(callee,[op],br); bads=[]
                for st2,v in outs:
                    e='O' if k=='O' else ec.ex_dbl(x,y) if 'double' in callee else ('aff',x,one,-y,one)
                    bads+=ec.check(v,e,cands(ec,k,A,'O'),st2)
                report(chk,f'{callee}[{k}]',callee,bads,ec,outs)
        chk.attempt(callee,callee,un)
    # equality and identity test
    for m,callee in(('ct_eq',f'<{E} as ConstantTimeEq>::ct_eq'),('eq',f'<{E} as PartialEq>::eq'),('ne',f'<{E} as PartialEq>::ne')):
        def eq(m=m,callee=callee):
            for k in('PQ','same','opposite','OP','PO','OO'):
                ec=EC(chk.mir,E); D=ec.D; x,y=ec.coords(); P=ec.proj(x,y)
                if k=='PQ': x2,y2=ec.coords(); ops=[P,ec.proj(x2,y2)]
                elif k=='same': ops=[P,ec.proj(x,y)]
                elif k=='opposite': ops=[P,ec.proj(x,-y)]
                else: ops=[ec.ident() if c=='O' else P for c in k]
                outs,_=ec.call(callee,ops,'rr'); bads=[]
                for st2,v in outs:
                    w=v.f[0] if isinstance(v,Agg) else v
                    if m=='ne': w=ec.it.ctx.bnot(w)
                    w=ec.it.sub_assume(st2,w)
                    if k=='PQ': want=ec.it.ctx.band(D.eqz(st2,(x-x2).p),D.eqz(st2,(y-y2).p))
                    else: want=CI(int(k in('same','OO')),'bool')
                    if padd(w.p,want.p,-1):
                        # both are functions of the same comparison atoms: compare over all their values
                        bads.append(f'is {ec.it.ctx.show(w)} want {ec.it.ctx.show(want)}')
                report(chk,f'{callee}[{k}]',callee,bads,ec,outs)
        chk.attempt(callee,callee,eq)
    def iz():
        callee=f'<{E} as Curve>::is_zero'
        for k in 'PO':
            ec=EC(chk.mir,E); x,y=ec.coords(); op=ec.proj(x,y) if k=='P' else ec.ident()
            outs,_=ec.call(callee,[op],'r'); bads=[f'{k}: wrong' for st2,v in outs if ec.it.sub_assume(st2,v.f[0]).const!=int(k=='O')]
            report(chk,f'{callee}[{k}]',callee,bads,ec,outs)
    chk.attempt(f'{E}.is_zero',E,iz)
    def sel():
        callee=f'<{E} as ConditionallySelectable>::conditional_select'
        ec=EC(chk.mir,E); ps=[]
        for _ in 'ab': x,y=ec.coords(); ps.append(ec.proj(x,y))
        w=ec.it.ctx.var('w','u8',0,1)
        a=[ec.it.alloc(ec.st,p) for p in ps]+[choice(w)]
        outs=ec.it.invoke(ec.st,Frame(0,None,{}),callee,a,[ec.RT,ec.RT,('path','Choice',())]); bads=[]
        for st2,v in outs:
            for c in(0,1):
                env={next(iter(w.p))[0]:c}
                for i in range(3):
                    g=FE(ec.D,ec.D.red(ec.it.ctx.psub(ec.D.fe(v.f[i]).p,env)))
                    if not (g-ps[c].f[i]).iszero(): bads.append(f'choice {c} coordinate {i}')
        report(chk,callee,callee,bads,ec,outs)
    chk.attempt(f'{E}.select',E,sel)
    for m,callee in(('zero',f'<{E} as Curve>::zero'),('default',f'<{E} as Default>::default')):
        def z(m=m,callee=callee):
            ec=EC(chk.mir,E); outs=ec.it.invoke(ec.st,Frame(0,None,{}),callee,[],[],ec.T); bads=[]
            for st2,v in outs: bads+=ec.check(v,'O',[],st2)
            report(chk,f'{E}.{m}',callee,bads,ec,outs)
        chk.attempt(f'{E}.{m}',callee,z)
def run():
    chk=fw.Check('C05')
    for E in CURVES: run_curve(chk,E)
    # canary: the checker rejects a wrong sum
    ec=EC(chk.mir,'Ec0'); x,y=ec.coords(); x2,y2=ec.coords(); P=ec.proj(x,y)
    chk.canary('wrong sum rejected',bool(ec.check(P,ec.ex_sum(x,y,x2,y2),[])))
    chk.assumptions+=['a valid point is (xz,yz,z) with z!=0 on the curve, or (0,w,0) with w!=0; every operation re-establishes this','no point of order two (C04), so y!=0 for every non-identity point and y(P-Q)!=0 for P!=Q']
    return chk.finish(conc.search_c05)
