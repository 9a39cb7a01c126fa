"""C12: word gadgets.  Words are 32/64 Booleans over fresh bit atoms; Boolean operations and bit allocation are used
through their C11 contracts, every other statement of the word functions is executed from the MIR."""
from checks.c11 import *
U32=tp('UInt32'); U64=tp('UInt64')
VEC=lambda t:('path','Vec',(t,))
def bool_contract(g):
    """C11 contracts: xor, sha256_ch, sha256_maj return a Boolean that denotes the stated function in every satisfying assignment"""
    F_={'xor':lambda x,y:x+y-x*y*2,'and':lambda x,y:x*y,'sha256_ch':lambda a,b,c:a*b+(1-a)*c,'sha256_maj':lambda a,b,c:a*b+a*c+b*c-a*b*c*2}
    def con(it,st,fr,q,args,argts):
        if q[0]!='path' or q[4] not in F_ or 'Boolean' not in q[5]: return None
        it.used_contracts.add('Boolean::'+q[4]+' (C11)')
        xs=[]; vs=[]
        for a in args[1:]:
            l,o=g.bool_lc(st,it.deref(st,a)); xs.append(g.ev(l,[v for v,_ in st.ghost['cs'].vars])); vs.append(o)
        r=F_[q[4]](*xs); i=g.new(st,r,'given')
        val=some(I(lift(g.D,r.p),0,1,'bool')) if all(o.v==1 for o in vs) else NONE
        return [(st,Agg('Result',(Agg('Boolean',(Agg('AllocatedBit',g.order('AllocatedBit',dict(value=val,var=g.V(i)))),),0),),0))]
    return con
def lift(D,p):
    """0/1 polynomial over the field back to the integers (balanced residues)"""
    return {m:(c if c<=D.P//2 else c-D.P) for m,c in p.items()}
KIND=('is','not','0','1')
def word(g,st,n,name,pat):
    """word of n Booleans, kinds by pattern: a letter of a(llocated) n(ot) 0 1 or m<k> (rotating mix)"""
    bs=[]; ps=[]
    for i in range(n):
        k={'a':'is','n':'not','0':'0','1':'1'}.get(pat) or KIND[(i*7+int(pat[1:]))%4] if pat not in ('0','1') else pat
        b,x=g.boolean(st,k,f'{name}{i}'); bs.append(b); ps.append(lift(g.D,x.p))
    v=g.it.ctx.ofbits(ps,'u32' if n==32 else 'u64')
    if not g.witness: pass
    ty='UInt32' if n==32 else 'UInt64'
    return Agg(ty,g.order(ty,dict(bits=Agg('Vec',bs),value=some(v) if g.witness else NONE))),v,ps
def gad(chk,F):
    g=Gad(chk.mir,F); g.it.ctx.bitmode=True; g.it.contracts.insert(0,bool_contract(g)); return g
def check_word(g,st,w,want,n,bad,tag=''):
    """bits and reported value of word w against bit polynomials want"""
    h=[x for x,_ in st.ghost['cs'].vars]; D=g.D
    bits=g.get(w,w.k,'bits'); bits=g.it.deref(st,bits) if isinstance(bits,Ref) else bits
    check_bits(g,st,list(bits.f),want,n,bad,tag)
    o=g.get(w,w.k,'value')
    if not g.witness: 
        return
    if o.v!=1: bad.append(tag+'value missing'); return
    p={}
    for i,b in enumerate(want): p=padd(p,b,1<<i)
    if padd(p,o.f[0].p,-1): bad.append(tag+'reported value differs')
def check_bits(g,st,bits,want,n,bad,tag=''):
    h=[x for x,_ in st.ghost['cs'].vars]; D=g.D
    if len(bits)!=n: bad.append(f'{tag}{len(bits)} bits'); return
    for i,b in enumerate(bits):
        (l,val),=blc(g,b); w=FE(D,D.red(want[i]))
        if g.simp(st,g.ev(l,h)-w): bad.append(f'{tag}bit {i} denotes something else')
        if val is None or g.simp(st,val-w): bad.append(f'{tag}bit {i} reports another value')
def xor(p,q,C): return padd(padd(p,q),C.pmul(p,q),-2)
def run():
    chk=fw.Check('C12')
    def ob(name,fn,body,F='Fp',level=fw.PROVED):
        def th():
            t=time.time(); bad=[]; unk=[]; wit=[]; g=gad(chk,F); body(g,bad,unk,wit); bad+=[f'panics {x[:2]}' for x in g.it.panics[:1]]
            chk.ob(name,fn,fw.REFUTED if bad else fw.UNKNOWN if unk else level,'mirv-poly + elimination',time.time()-t,'; '.join((bad or unk)[:3]),witness=dict(gadget=name,counterexample=wit[0]) if wit and bad else None); chk.absorb(g.it)
        chk.attempt(name,fn,th)
    def boolean(g,st,w,bad,unk,wit,extra=()):
        lcs=[g.bool_lc(st,b)[0] for b in g.get(w,w.k,'bits').f]
        ok,c=g.entails(st.ghost['cs'],lambda vals:[g.ev(l,vals)*(g.ev(l,vals)-1) for l in lcs])
        if ok is False: bad.append('non-boolean bits accepted'); wit.append(c)
        elif ok is None: unk.append(str(c)[:200])
    PATS=('a','n','0','1','m0','m1','m2','m3')
    for ty,n,mod in(('UInt32',32,'gadgets::uint32::'),('UInt64',64,'gadgets::uint64::')):
        T=tp(ty); uty='u32' if n==32 else 'u64'
        def symval(g): 
            ps=[{(g.it.ctx.atom(f'v{i}',0,1,'bit'),):1} for i in range(n)]; return g.it.ctx.ofbits(ps,uty),ps
        def constant(g,bad,unk,wit,ty=ty,n=n,mod=mod):
            v,ps=symval(g); outs=g.run(f'{mod}{ty}::constant',[v],[('prim',uty)],g.st)
            if not outs: bad.append('no outcome')
            for st,w in outs: check_word(g,st,w,[dict(st.assume) and g.it.ctx.psub(p,st.assume) or p for p in ps],n,bad)
        ob(f'{ty}::constant',f'{mod}{ty}::constant',constant)
        for F in('Fp','Fq'):
            def alloc(g,bad,unk,wit,F=F,ty=ty,n=n,mod=mod):
                v,ps=symval(g); outs=g.run(f'{mod}{ty}::alloc::<{F}, Rec>',[Agg('Rec',()),some(v)],[REC,('path','Option',(('prim',uty),))],g.st)
                if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
                for st,r in outs:
                    if is_err(r): bad.append('error'); continue
                    check_word(g,st,r.f[0],ps,n,bad); bad.extend(b[0] for b in g.honest_bad(st.ghost['cs'],st))
                    boolean(g,st,r.f[0],bad,unk,wit)
            ob(f'{ty}::alloc<{F}>',f'{mod}{ty}::alloc',alloc,F)
        for pat in PATS:
            def frombits(g,bad,unk,wit,pat=pat,ty=ty,n=n,mod=mod):
                w,v,ps=word(g,g.st,n,'x',pat); bits=g.get(w,ty,'bits').f
                outs=g.run(f'{mod}{ty}::from_bits',[g.it.alloc(g.st,Agg('array',bits))],[REFT(('slice',BO))],g.st)
                if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
                for st,r in outs: check_word(g,st,r,ps,n,bad)
            ob(f'{ty}::from_bits[{pat}]',f'{mod}{ty}::from_bits',frombits)
            def intobits(g,bad,unk,wit,pat=pat,ty=ty,n=n,mod=mod):
                w,v,ps=word(g,g.st,n,'x',pat); outs=g.run(f'{mod}{ty}::into_bits',[w],[tp(ty)],g.st)
                if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
                for st,r in outs: check_bits(g,st,list(r.f),ps,n,bad)
            ob(f'{ty}::into_bits[{pat}]',f'{mod}{ty}::into_bits',intobits)
            if n==64: continue
            def frombe(g,bad,unk,wit,pat=pat):
                w,v,ps=word(g,g.st,32,'x',pat); bits=g.get(w,'UInt32','bits').f[::-1]
                outs=g.run('gadgets::uint32::UInt32::from_bits_be',[g.it.alloc(g.st,Agg('array',bits))],[REFT(('slice',BO))],g.st)
                if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
                for st,r in outs: check_word(g,st,r,ps,32,bad)
            ob(f'UInt32::from_bits_be[{pat}]','gadgets::uint32::UInt32::from_bits_be',frombe)
            def intobe(g,bad,unk,wit,pat=pat):
                w,v,ps=word(g,g.st,32,'x',pat); outs=g.run('gadgets::uint32::UInt32::into_bits_be',[w],[U32],g.st)
                if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
                for st,r in outs: check_bits(g,st,list(r.f),ps[::-1],32,bad)
            ob(f'UInt32::into_bits_be[{pat}]','gadgets::uint32::UInt32::into_bits_be',intobe)
    M='gadgets::uint32::UInt32::'
    for m in('rotr','shr'):
        def rs(g,bad,unk,wit,m=m):
            w,v,ps=word(g,g.st,32,'x','m1')
            for by in list(range(0,33)) if m=='rotr' else list(range(0,32)):
                outs=g.run(M+m,[g.it.alloc(g.st,w),CI(by,'usize')],[REFT(U32),('prim','usize')],g.st.copy())
                if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
                want=ps[by%32:]+(ps[:by%32] if m=='rotr' else [{}]*by)
                for st,r in outs: check_word(g,st,r,want,32,bad,f'by {by}: ')
        ob(f'UInt32::{m}[every distance]',M+m,rs)
    for m,k in(('xor',2),('sha256_ch',3),('sha256_maj',3)):
        for pats in(('a',)*3,('m0','m1','m2'),('m3','a','n'),('0','m2','1'),('n','1','m1'),('1','0','a')):
            for F in('Fp','Fq'):
                def tri(g,bad,unk,wit,m=m,k=k,pats=pats,F=F):
                    st=g.st; C=g.it.ctx; ws=[word(g,st,32,'xyz'[i],pats[i]) for i in range(k)]
                    rs=[g.it.alloc(st,w[0]) for w in ws]
                    if k==2: outs=g.run(f'{M}xor::<{F}, Rec>',[rs[0],Agg('Rec',()),rs[1]],[REFT(U32),REC,REFT(U32)],st)
                    else: outs=g.run(f'{M}{m}::<{F}, Rec>',[Agg('Rec',())]+rs,[REC]+[REFT(U32)]*3,st)
                    if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
                    for s2,r in outs:
                        if is_err(r): bad.append('error'); continue
                        want=[]
                        for i in range(32):
                            a=[w[2][i] for w in ws]; mul=C.pmul
                            if m=='xor': want.append(xor(a[0],a[1],C))
                            elif m=='sha256_ch': want.append(xor(mul(a[0],a[1]),mul(padd(pconst(1),a[0],-1),a[2]),C))
                            else: want.append(xor(xor(mul(a[0],a[1]),mul(a[0],a[2]),C),mul(a[1],a[2]),C))
                        check_word(g,s2,r.f[0],want,32,bad)
                        c=s2.ghost['cs']
                        if c.gates or c.lcs: bad.append('constraints outside the Boolean operations')
                ob(f'UInt32::{m}<{F}>[{",".join(pats[:k])}]',M+m,tri,F)
    # modular addition
    def add(g,bad,unk,wit,pats,F):
        st=g.st; C=g.it.ctx; D=g.D; ws=[word(g,st,32,f'x{j}_',p) for j,p in enumerate(pats)]
        V={}
        for w in ws: V=padd(V,w[1].p)
        top=len(pats)*(2**32-1); nb=top.bit_length()
        if not all(p in('0','1') for p in pats):
            dec=C.bits(I(V,0,top,'u64')); dec=dec+[{}]*(nb-len(dec))
        outs=g.run(f'{M}addmany::<{F}, Rec>',[Agg('Rec',()),g.it.alloc(st,Agg('array',[w[0] for w in ws]))],[REC,REFT(('slice',U32))],st)
        if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
        for s2,r in outs:
            if is_err(r): bad.append('error'); continue
            r=r.f[0]; sys=s2.ghost['cs']
            if all(p in('0','1') for p in pats):
                v=V.get((),0)%2**32; check_word(g,s2,r,[pconst(v>>i&1) for i in range(32)],32,bad); continue
            check_word(g,s2,r,dec[:32],32,bad)
            bad.extend(b[0] for b in g.honest_bad(sys,s2))
            # soundness: boolean result bits r_i (including carries) with  sum of operands = sum 2^i r_i, both below the modulus
            rest=[i for i,(v,k) in enumerate(sys.vars) if k not in('one','given')]
            outl=[g.bool_lc(s2,b)[0] for b in g.get(r,'UInt32','bits').f]
            full=[l for l in sys.lcs if len([1 for _,v in l if v in set(rest)])>=32]
            if len(full)!=1: unk.append('sum constraint not identified'); continue
            co={}
            for c,v in full[0]:
                co[v]=(co.get(v,0)+c.const)%D.P
            # scale so that result bit 0 has coefficient -1
            def lid(l): return l[0][1] if len(l)==1 and l[0][0].const==1 else None
            ids=[lid(l) for l in outl]
            if None in ids: unk.append('output bits are not plain variables'); continue
            k=-pow(co[ids[0]],-1,D.P); carries=sorted((v for v in co if v in set(rest) and v not in ids),key=lambda v:-co[v]*k%D.P)
            allb=ids+carries; want=[1<<i for i in range(len(allb))]
            if [-co[v]*k%D.P for v in allb]!=want: bad.append('result weights are not the powers of two'); continue
            if max(top,(1<<len(allb))-1)>=D.P: bad.append('sum may wrap around the modulus'); continue
            def goals(vals):
                e=[vals[v] for v in allb]; tot=D.const(0)
                for i,x in enumerate(e): tot=tot+x*(1<<i)
                return [tot-FE(D,D.red(V))]+[x*x-x for x in e]
            ok,c=g.entails(sys,goals)
            if ok is False: bad.append('wrong sum accepted'); wit.append(c)
            elif ok is None: unk.append(str(c)[:300])
    for F in('Fp','Fq'):
        for k in range(2,11):
            for pats in {('a',)*k,tuple(f'm{i%4}' for i in range(k)),('m1','0')+('a',)*(k-2),('n','1')+('m2',)*(k-2)}|({('1',)*k,('0','1')*(k//2)+('1',)*(k%2)} if F=='Fp' else set()):
                ob(f'UInt32::addmany<{F}>[{",".join(pats)}]',M+'addmany',lambda g,bad,unk,wit,pats=pats,F=F:add(g,bad,unk,wit,pats,F),F)
    N='gadgets::uint64::UInt64::'
    def mulacc(g,bad,unk,wit,pats,F):
        st=g.st; C=g.it.ctx; D=g.D; (a,av,_),(b,bv,_),(c,cv,_),(d,dv,_)=[word(g,st,64,'abcd'[j],p) for j,p in enumerate(pats)]
        rs=[g.it.alloc(st,x) for x in(a,b,c,d)]
        outs=g.run(f'{N}mul_acc2::<{F}, Rec>',[rs[0],Agg('Rec',()),*rs[1:]],[REFT(U64),REC]+[REFT(U64)]*3,st)
        if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
        V=padd(padd(C.pmul(av.p,bv.p),cv.p),dv.p)
        for s2,r in outs:
            if is_err(r): bad.append('error'); continue
            lo,hi=r.f[0].f; sys=s2.ghost['cs']
            rel=[l for p,l in C.bitrels if p==V]
            if rel: dec=rel[0]+[{}]*(128-len(rel[0]))
            elif len(V)<=1 and (not V or () in V): dec=[pconst(V.get((),0)>>i&1) for i in range(128)]
            else: unk.append('value decomposition not found'); continue
            check_word(g,s2,lo,dec[:64],64,bad,'low '); check_word(g,s2,hi,dec[64:],64,bad,'high ')
            bad.extend(x[0] for x in g.honest_bad(sys,s2))
            ls=[g.bool_lc(s2,x)[0] for x in list(g.get(lo,'UInt64','bits').f)+list(g.get(hi,'UInt64','bits').f)]
            def goals(vals):
                e=[g.ev(l,vals) for l in ls]; tot=D.const(0)
                for i,x in enumerate(e): tot=tot+x*(1<<i)
                return [tot-FE(D,D.red(V))]+[x*x-x for x in e]
            if 2**128>=D.P: bad.append('wraps')
            ok,w=g.entails(sys,goals)
            if ok is False: bad.append('wrong product accepted'); wit.append(w)
            elif ok is None: unk.append(str(w)[:300])
    for F in('Fp','Fq'):
        for pats in(('a','a','a','a'),('m0','m1','m2','m3'),('a','1','n','0'),('n','a','1','m2'),('0','a','a','a')):
            ob(f'UInt64::mul_acc2<{F}>[{",".join(pats)}]',N+'mul_acc2',lambda g,bad,unk,wit,pats=pats,F=F:mulacc(g,bad,unk,wit,pats,F),F)
        def lcob(g,bad,unk,wit,F=F):
            for pat in PATS:
                st=g.st.copy(); w,v,ps=word(g,st,64,'x'+pat,pat)
                outs=g.run(f'{N}lc::<{F}, Rec>',[g.it.alloc(st,w)],[REFT(U64)],st)
                for s2,r in outs:
                    if g.simp(s2,g.ev(g.lc(s2,r),[x for x,_ in s2.ghost['cs'].vars])-FE(g.D,g.D.red(v.p))): bad.append('lc '+pat)
                if len(outs)!=1: bad.append('outcomes')
        ob(f'UInt64::lc<{F}>',N+'lc',lcob,F)
    chk.assumptions+=['operand bits are boolean (C11); words carry a value equal to their bits (invariant established by every constructor above)',
      'bit kinds: all-allocated, all-negated, all-constant and four rotating mixes of kinds per word (every statement treats one bit at a time)',
      'a sum of at most 10 words and a 128-bit product stay below the modulus (checked numerically), so equality in the field is equality of integers']
    from checks.conc4 import search_c12
    return chk.finish(search_c12)
