"""C18: the satisfaction checker, the constraint counter and the determinism check (src/dev.rs)."""
from mirv.prog import *
from checks.c17 import kinds
from checks.conc2 import search_c18
import itertools
FS=('Fp','Fq')
def strings(it):
    """names are diagnostic only: compute_path (documented precondition: no '/') returns some string"""
    def con(it_,st,fr,q,args,argts):
        if q[4]=='compute_path': it_.used_contracts.add('compute_path (any string)'); return [(st,Str('path'))]
        return None
    it.contracts.insert(0,con)
def start(chk,F,kind,wit=True,two=None):
    it=Interp(chk.mir); st=State(); D=setup(it,F)[0]; it.merge=False; strings(it)
    P=Prog(D,mkins(D,kind),wit); C=Circ(it,D,P); return it,st,D,P,C
def facts(D,st):
    return [dict(z) for z in st.ghost.get('z',())],[dict(z) for z in st.ghost.get('nz',())]
def sat(chk,F,kind,nin=None):
    fn='dev::is_satisfied'; name=f'is_satisfied<{F}>[{kind or "empty"}{"" if nin is None else f", {nin} inputs given"}]'
    def th():
        t=time.time(); it,st,D,P,C=start(chk,F,kind); v,inp,gates,rows,inrow=P.values(); n=len(inp)-1
        m=n if nin is None else nin; given=[D.var(f'pub{j}') for j in range(m)]; bad=[]
        outs=it.invoke(st,F0,f'dev::is_satisfied::<{F}, Prog, Basic>',[it.alloc(st,Agg('Prog',())),it.alloc(st,Agg('array',given))],[('ref',PROG),('ref',('slice',tp(F)))])
        if it.panics: bad.append('panics '+str(it.panics[0][:3]))
        # what the program demands
        need=[(v[a]*v[b]-v[c]).p for a,b,c in gates]
        if m==n:
            for j,row in enumerate(rows):
                s=D.const(0)
                for x,c in row.items(): s=s+c*v[x]
                k=([D.const(1)]+given)[inrow.index(j)] if j in inrow else D.const(0)
                need.append((s-k).p)
        need=[D.clear(p) for p in need]
        if not outs: bad.append('no outcome')
        ok=0
        for s2,r in outs:
            if r.v==0:
                ok+=1
                b=r.f[0]
                if m!=n: bad.append('accepts a wrong number of inputs'); continue
                if not(isinstance(b,I) and b.const==1): bad.append('returns Ok(false)'); continue
                for p in need:
                    if s_simp(D,it,s2,p): bad.append('accepts although a constraint need not hold: '+D.show(p,4)); break
            else:
                e=r.f[0]
                if m!=n:
                    if not variant(chk,e,'InputLength'): bad.append('a wrong number of inputs is not reported as such')
                    continue
                # some demanded constraint is known to fail on this path
                if not any(nonzero(D,it,s2,p) for p in need): bad.append('rejects although every constraint may hold')
        if not ok and m==n and not bad and all(True for _ in()): 
            if not any(D.is_nz_const(p) if hasattr(D,'is_nz_const') else (set(p)=={()}) for p in need): bad.append('never accepts')
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',time.time()-t,'; '.join(bad[:3]),bound='call sequence listed; all values, coefficients and inputs'); chk.absorb(it)
    chk.attempt(name,fn,th)
def variant(chk,e,name): return isinstance(e,Agg) and (e.v==1)
def norm(D,st,p):
    e=st.ghost.get('sub')
    if e: p=D.subst(p,e)
    if st.assume: p=D.red(D.C.psub(p,st.assume))
    p=D.clear(p)
    return D.strip_nz(st,p) if p else p
def s_simp(D,it,st,p):
    p=norm(D,st,p)
    for z in st.ghost.get('z',()):
        if not p: break
        z=norm(D,st,dict(z))
        if z: p=reduce_by(D,p,z)
    return p
def nonzero(D,it,st,p):
    p=norm(D,st,p)
    if not p: return False
    if set(p)=={()}: return True
    if D.nonzero(st,p): return True
    k=pkey(D.monic(p))
    return any(pkey(D.monic(norm(D,st,dict(z))))==k for z in st.ghost.get('nz',()) if norm(D,st,dict(z)))
def btree(it):
    """std model: a map from opaque names, kept as the list of insertions"""
    def con(it_,st,fr,q,args,argts):
        nm,tr,m=name_of(q)
        if tr=='Default' and q[1][0]=='path' and q[1][1]=='BTreeMap': it_.used_models.add('BTreeMap'); return [(st,Agg('BTreeMap',()))]
        if tr=='Default' and q[1]==('path','String',()): return [(st,Str(''))]
        if nm!='BTreeMap': return None
        if m in('new','default'): it_.used_models.add('BTreeMap'); return [(st,Agg('BTreeMap',()))]
        if m=='insert':
            r=args[0]
            while isinstance(it_.deref1(st,r),Ref): r=it_.deref1(st,r)
            v=it_.deref1(st,r); it_.setref(st,r,Agg('BTreeMap',v.f+(Agg('tuple',(args[1],args[2])),))); return [(st,NONE)]
        return None
    it.contracts.insert(0,con)
def count(chk,F,kind,wit,ns=False):
    fn='dev::constraint_count'; name=f'constraint_count<{F}>[{kind or "empty"}{"" if wit else ", no witness"}{", in a namespace" if ns else ""}]'
    def th():
        t=time.time(); it,st,D,P,C=start(chk,F,kind,wit); btree(it); bad=[]
        if ns: C.wrap=ns
        v,inp,gates,rows,inrow=P.values(); al=1+sum(i[0] in'ai' for i in P.ins)
        outs=it.invoke(st,F0,f'dev::constraint_count::<{F}, Prog, Basic>',[it.alloc(st,Agg('Prog',()))],[('ref',PROG)])
        if it.panics: bad.append('panics '+str(it.panics[0][:3]))
        if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
        fs=it.mir.struct_fields('ConstraintCounts')
        # the number of gates is decided by C17 (packing); here the counts must agree with the backend calls of the same program
        it2,st2,D2,P2,C2=start(chk,F,kind,wit); B=Backend(it2,D2); B.wit=wit; B.init(st2)
        if ns: C2.wrap=ns
        o2=it2.invoke(st2,F0,f'<Basic as SynthesisDriver>::synthesize::<{F}, Prog, Bk>',[Agg('Bk',()),it2.alloc(st2,Agg('Prog',()))],[BK,('ref',PROG)])
        lg=o2[0][0].ghost['bk']['log']; want=dict(total_mults=sum(e[0]=='gate' for e in lg),total_lcs=sum(e[0]=='row' for e in lg),mult_constraints=len(gates),allocations=al)
        if want['total_lcs']!=len(rows): bad.append('rows issued')
        for s2,r in outs:
            if r.v!=0: bad.append('counting fails'); continue
            m=r.f[0].f; root=m[-1].f[1].f[0]
            if not isinstance(m[-1].f[0],Str): pass
            for f in fs:
                x=root.f[fs.index(f)]
                if x.const!=want.get(f,x.const): bad.append(f'{f} = {x.const}, issued {want[f]}')
            if len([1 for e in lg if e[0]=='push_namespace'])+1!=len(m): bad.append('number of namespaces reported')
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv',time.time()-t,'; '.join(bad[:3]),bound='call sequence listed; all values'); chk.absorb(it)
    chk.attempt(name,fn,th)
def shape(ins): return [(i[0],tuple((pkey(c.p),x) for _,c,x in i[1]) if i[0]=='l' else 0) for i in ins]
def det(chk,F,k1,k2,mod=None):
    """first synthesis k1, second k2 (same values where they agree)"""
    fn='dev::determinism_check'; name=f'determinism_check<{F}>[{k1 or "empty"} then {k2 or "empty"}{", "+mod if mod else ""}]'
    def th():
        t=time.time(); it=Interp(chk.mir); st=State(); D=setup(it,F)[0]; it.merge=False; bad=[]
        mm={}; var=lambda n:mm.setdefault(n,None) or mm.__setitem__(n,D.var(n)) or mm[n]
        a=mkins(D,k1,var=var); b=mkins(D,k2,var=var)
        if mod=='coefficient':
            for j,i in enumerate(b):
                if i[0]=='l' and i[1]:
                    l=list(i[1]); k,c,x=l[-1]; l[-1]=('F',c+D.const(1),x) ; b[j]=('l',tuple(l)); break
        if mod=='variable':
            for j,i in enumerate(b):
                if i[0]=='l' and i[1] and i[1][0][2]:
                    l=list(i[1]); k,c,x=l[0]; l[0]=(k,c,x-1); b[j]=('l',tuple(l)); break
        if mod=='shorter':
            for j,i in enumerate(b):
                if i[0]=='l' and i[1]: b[j]=('l',i[1][:-1]); break
        P=Prog(D,a,True); C=Circ(it,D,P); n=[0]; body=C.body
        def body2(it_,st_,ty,cs):
            P.ins=a if st_.ghost.get('nsyn',0)==0 else b; st_.ghost=dict(st_.ghost); st_.ghost['nsyn']=st_.ghost.get('nsyn',0)+1
            return body(it_,st_,ty,cs)
        C.body=body2
        outs=it.invoke(st,F0,f'dev::determinism_check::<{F}, Prog>',[it.alloc(st,Agg('Prog',()))],[('ref',PROG)])
        same=shape(a)==shape(b) and mod is None
        if same:
            if it.panics or len(outs)!=1 or outs[0][1].v!=0: bad.append('rejects a circuit that issues the same calls twice '+str(it.panics[:1])[:200])
        elif any(r.v==0 for _,r in outs): bad.append('accepts although the second synthesis issues different calls')
        chk.ob(name,fn,fw.REFUTED if bad else fw.BOUNDED,'mirv',time.time()-t,'; '.join(bad[:3]),bound='call sequences listed; all values and coefficients'); chk.absorb(it)
    chk.attempt(name,fn,th)
def run():
    chk=fw.Check('C18','other')
    T=chk.thorough
    for F in FS:
        for k in kinds(3 if not T else 5)+['aimlail','immll','almaml','iiil','mmmm','llll','naldml','lelml']+(['iiimmlll','amlamlaml'] if T else []): sat(chk,F,k)
        for k,m in(('',1),('i',0),('i',2),('ii',1),('ii',0),('iai',3),('mil',0),('alm',1)): sat(chk,F,k,m)
        for k in kinds(2 if not T else 3)+['aimlail','immll','nalnmddl','nandd','namdnildl']:
            for w in(True,False): count(chk,F,k,w)
        for k in('aiml','aal','mm'):
            for w in('N','NN','&N'): count(chk,F,k,True,w)
        ks=kinds(2)
        for a in ks:
            for b in ks: det(chk,F,a,b)
        for k in('aiml','lalml','mlli'):
            det(chk,F,k,k)
            for m in('coefficient','variable','shorter'): det(chk,F,k,k,m)
            for j in range(len(k)): det(chk,F,k,k[:j]); det(chk,F,k,k[:j]+k[j+1:]); det(chk,F,k[:j],k)
    return chk.finish(search_c18)
