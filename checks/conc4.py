"""Concrete replay of the gadget properties: the real gadgets on a recording constraint system, honest values, reported values, and a
search for dishonest assignments (single variables and kernel directions of the linearised system)."""
import random, hashlib
from checks.conc2 import *
from checks.refc import CURVES as CV, ecadd, ecneg, ecmul
FE=lambda x:'%064x'%x
def parse(g):
    f=g.split(' | '); sat=f[0]=='1'; outs=[]
    for o in f[1].split(';') if f[1:] and f[1].strip() else []:
        a,b,l=o.split(':'); outs.append((int(a,16),None if b=='-' else int(b,16),lin(l)))
    if len(f)<6: return sat,outs,None
    v=[int(x,16) for x in f[2].split(',')]
    return sat,outs,(v,f[3],[tuple(map(int,x.split(','))) for x in f[4].split(';') if x.strip()],[lin(x) for x in f[5].split(';')] if f[5].strip() else [])
def lin(l):
    r={}
    for t in l.split('+'):
        if t.strip(): c,i=t.split('*'); r[int(i)]=r.get(int(i),0)+int(c,16)
    return r
def dishonest(p,outs,sys,rnd):
    """another assignment of the internal variables that satisfies everything and changes an output"""
    v,kinds,gates,lcs=sys; W=[i for i,k in enumerate(kinds) if k=='w']
    small=len(W)<=700; rows=[{i:c%p for i,c in l.items() if kinds[i]=='w'} for l in lcs] if small else []
    for a,b,c in gates if small else []:
        r={}
        for i,x in((a,v[b]),(b,v[a]),(c,-1)):
            if kinds[i]=='w': r[i]=(r.get(i,0)+x)%p
        rows.append(r)
    piv={}
    for r in rows if small else []:
        r={i:c for i,c in r.items() if c}
        while r:
            i=min(r)
            if i not in piv:
                k=pow(r[i],-1,p); piv[i]={j:c*k%p for j,c in r.items()}; break
            k=r[i]
            for j,c in piv[i].items():
                x=(r.get(j,0)-k*c)%p
                if x: r[j]=x
                else: r.pop(j,None)
    free=[i for i in W if i not in piv]
    def kernel(fv):
        k=dict(fv)
        for i in sorted(piv,reverse=True):
            s=-sum(c*k.get(j,0) for j,c in piv[i].items() if j!=i)%p
            if s: k[i]=s
        return k
    cand=[kernel({i:1}) for i in free[:40]] if small else []
    if small and len(free)>1: cand+=[kernel({i:rnd.randrange(1,p) for i in rnd.sample(free,min(len(free),3))}) for _ in range(10)]
    for k in cand:
        if not k: continue
        for t in(1,p-1,rnd.randrange(2,p)):
            w=list(v)
            for i,x in k.items(): w[i]=(w[i]+t*x)%p
            if all(w[a]*w[b]%p==w[c] for a,b,c in gates) and all(sum(c*w[i] for i,c in l.items())%p==0 for l in lcs):
                for n,(o,_,l) in enumerate(outs):
                    y=sum(c*w[i] for i,c in l.items())%p
                    if y!=o: return f'a dishonest assignment (variables {sorted(k)[:6]} changed) satisfies every constraint and makes output {n} equal {y:x} instead of {o:x}'
    # change one variable and follow the constraints; where they only fix a power of a variable, take the root
    occ={}; cons=[('l',l) for l in lcs]+[('g',x) for x in gates]
    for n,(k,c) in enumerate(cons):
        for i in(c if k=='l' else set(c)): occ.setdefault(i,[]).append(n)
    def prop(w,todo):
        while todo:
            k,c=cons[todo.pop()]; new=None
            if k=='l':
                un=[i for i in c if i not in w and c[i]%p]
                if len(un)>1: continue
                s=sum(x*w[i] for i,x in c.items() if i in w)%p
                if un: new=(un[0],-s*pow(c[un[0]],-1,p)%p)
                elif s: return False
            else:
                a,b,d=c; un={i for i in c if i not in w}
                if not un:
                    if w[a]*w[b]%p!=w[d]: return False
                elif un=={d}: new=(d,w[a]*w[b]%p)
                elif un=={a} and a!=b and w[b]: new=(a,w[d]*pow(w[b],-1,p)%p)
                elif un=={b} and a!=b and w[a]: new=(b,w[d]*pow(w[a],-1,p)%p)
            if new: w[new[0]]=new[1]; todo+=occ.get(new[0],[])
        return True
    def root(w,y):
        """the value of y when the constraints around it say y^e = known"""
        P={y:{1:1}}; todo=list(occ.get(y,[])); n=0
        val=lambda i:P.get(i,{0:w[i]} if i in w else None)
        while todo and n<60:
            n+=1; k,c=cons[todo.pop(0)]; new=None; eq=None
            if k=='l':
                if len(c)>40: continue
                un=[i for i in c if c[i]%p and val(i) is None]
                if len(un)>1: continue
                s={}
                for i,x in c.items():
                    if i not in un:
                        for d,z in(val(i) or {}).items(): s[d]=(s.get(d,0)+x*z)%p
                if un: u=-pow(c[un[0]],-1,p); new=(un[0],{d:z*u%p for d,z in s.items()})
                else: eq=s
            else:
                a,b,d=c; A,B=val(a),val(b)
                if A is None or B is None: continue
                s={}
                for i,x in A.items():
                    for j,z in B.items(): s[i+j]=(s.get(i+j,0)+x*z)%p
                if val(d) is None: new=(d,s)
                else:
                    for j,z in val(d).items(): s[j]=(s.get(j,0)-z)%p
                    eq=s
            if new:
                if max(new[1],default=0)>8: continue
                P[new[0]]=new[1]; todo+=occ.get(new[0],[])
            if eq:
                eq={d:z for d,z in eq.items() if z}; e=[d for d in eq if d]
                if len(e)==1 and e[0] in(1,5): return pow(-eq.get(0,0)*pow(eq[e[0]],-1,p)%p,pow(e[0],-1,p-1),p)
                if len(e)==1: return None
        return None
    base={i:v[i] for i in range(len(v)) if kinds[i]!='w'}; prop(base,list(range(len(cons)))); stuck=[]; w=dict(base)
    for i in W:
        if i not in w: stuck.append((i,dict(w))); w[i]=v[i]; prop(w,list(occ.get(i,[])))
    import time; t0=time.time()
    for f,w0 in stuck[:-200:-1]+stuck[:200]:
        if time.time()-t0>(1 if small else 5): break
        r0=root(w0,f)
        for t in((1,rnd.randrange(2,p)) if r0 is None else ()):
            w=dict(w0); w[f]=(v[f]+t)%p; ok=prop(w,list(occ.get(f,[])))
            for g in W:
                if not ok or time.time()-t0>8: ok=False; break
                if g not in w: r=root(w,g); w[g]=v[g] if r is None else r; ok=prop(w,list(occ.get(g,[])))
            if not ok or not all(w[a]*w[b]%p==w[c] for a,b,c in gates) or any(sum(c*w[i] for i,c in l.items())%p for l in lcs): continue
            for n,(o,_,l) in enumerate(outs):
                y=sum(c*w[i] for i,c in l.items())%p
                if y!=o: return f'a dishonest assignment (variable {f} set to {w[f]:x} and the rest solved) satisfies every constraint and makes output {n} equal {y:x} instead of {o:x}'
    return None
def run(qs,seed,limit=240):
    """qs: (line, p, want, opts); want: list of ints, or a predicate on the list of outputs"""
    import time
    o=Oracle(); rnd=random.Random(seed); t0=time.time(); got=o.many([q[0] for q in qs])
    for (l,p,want,*op),g in zip(qs,got):
        op=op[0] if op else ''
        if g.startswith(('PANIC','error')):
            if 'e' in op: continue
            return viol(l,g,'a satisfied system')
        if 'E' in op: return viol(l,g[:300],'an error')
        sat,outs,sys=parse(g)
        if not sat: return viol(l,g[:300],'honest assignment satisfies every constraint')
        if len(outs)!=len(want) if isinstance(want,list) else 0: return viol(l,g[:300],f'{len(want)} outputs')
        vals=[x[0] for x in outs]
        if isinstance(want,list):
            if vals!=[w%p for w in want]: return viol(l,g[:300],' '.join('%x'%(w%p) for w in want[:8]))
        elif not want(vals): return viol(l,g[:300],'the specified value')
        for a,b,_ in outs:
            if b!=a and not('r' in op and b is None): return viol(l,g[:300],f'reported value {a:x}')
        if sys and 's' not in op and time.time()-t0<limit:
            b=dishonest(p,outs,sys,rnd)
            if b: return viol(l,b,'outputs determined by the inputs')
    if len(got)<len(qs): return viol(qs[len(got)][0],'CRASH','an answer')
    return None
FS=(('Fp',MODP['Fp']),('Fq',MODP['Fq']))
def val(rnd,p): return rnd.choice([0,1,2,p-1,p-2,rnd.randrange(p),rnd.randrange(p)])
def search_c11(_bad=None):
    q=[]; rnd=random.Random(11)
    for F,p in FS:
        for a in(0,1):
            q.append((f'g{F} bit {a}',p,[a],'s'))
            for b in(0,1):
                for m,f in(('xor',a^b),('and',a&b),('andnot',a&(1-b)),('nor',(1-a)&(1-b))): q.append((f'g{F} {m} {a} {b}',p,[f]))
        ks='inc'
        for x in ks:
            for y in ks:
                for a in(0,1):
                    for b in(0,1):
                        q.append((f'g{F} bxor {x}{a} {y}{b}',p,[a^b])); q.append((f'g{F} band {x}{a} {y}{b}',p,[a&b]))
                        if a==b: q.append((f'g{F} eq {x}{a} {y}{b}',p,[]))
                        for z in ks:
                            for c in(0,1): q.append((f'g{F} ch {x}{a} {y}{b} {z}{c}',p,[b if a else c])); q.append((f'g{F} maj {x}{a} {y}{b} {z}{c}',p,[int(a+b+c>1)]))
        for x in(0,1,p-1,rnd.randrange(p),rnd.randrange(p)):
            for s in('c'+FE(x),'a1,'+FE(x),'a-,'+FE(p-x if x else 0)): q.append((f'g{F} unpack {s}',p,lambda v,x=x,p=p:len(v)==256 and all(b in(0,1) for b in v) and sum(b<<i for i,b in enumerate(v))==x))
    return run(q,11)
def sha(q,F,p,n,rnd,pat):
    m=bytes(rnd.randrange(256) for _ in range(n)); d=hashlib.sha256(m).digest()
    q.append((f'g{F} sha {pat} {m.hex()}',p,[b>>(7-j)&1 for b in d for j in range(8)]))
def search_c12(_bad=None):
    q=[]; rnd=random.Random(12)
    for F,p in FS:
        for n,pat in((1,'i'),(3,'n'),(55,'inc'),(64,'ic')): sha(q,F,p,n,rnd,pat)
    return run(q,12)
def search_c13(_bad=None):
    q=[]; rnd=random.Random(13)
    for F,p in FS:
        for n,pat in((1,'i'),(32,'ni'),(55,'i'),(56,'inc'),(63,'c'),(64,'i'),(119,'ic'),(120,'cn')): sha(q,F,p,n,rnd,pat)
    return run(q,13)
CO=('0','1','-','F')
def rnum(rnd,p):
    x=val(rnd,p)
    if rnd.random()<.3: return 'c'+FE(x),x
    k=rnd.choice(CO); c={'0':0,'1':1,'-':p-1}.get(k)
    if c is None: c=val(rnd,p); k=FE(c)
    return f'a{k},{FE(x)}',c*x%p
def rcomb(rnd,p,n=None):
    ts=[rnum(rnd,p) for _ in range(rnd.randrange(1,5) if n is None else n)]; return '/'.join(t for t,_ in ts) or '/',sum(v for _,v in ts)%p
def search_c14(_bad=None):
    q=[]; rnd=random.Random(14)
    for F,p in FS:
        ia=pow(5,-1,p-1)
        for _ in range(25):
            a,b=val(rnd,p),val(rnd,p)
            q.append((f'g{F} mul {FE(a)} {FE(b)}',p,[a*b])); q.append((f'g{F} ansq {FE(a)}',p,[a,a*a])); q.append((f'g{F} inputize {FE(a)}',p,[a],'s'))
            if a: q.append((f'g{F} inv {FE(a)}',p,[pow(a,-1,p)]))
            q.append((f'g{F} sqrt {FE(a*a%p)}',p,lambda v,a=a,p=p:v[0]*v[0]%p==a*a%p))
            s,x=rcomb(rnd,p); s2,y=rcomb(rnd,p); k=val(rnd,p)
            q+=[(f'g{F} eval {s}',p,[x]),(f'g{F} csq {s}',p,[x*x]),(f'g{F} alpha {s}',p,[pow(x,5,p)]),(f'g{F} ialpha {s}',p,[pow(x,ia,p)]),(f'g{F} cmul {s} {s2}',p,[x*y]),(f'g{F} cadd {s} {s2}',p,[x+y]),(f'g{F} csub {s} {FE(a)}',p,[x-a]),(f'g{F} cscale {s} {FE(k)}',p,[x*k])]
    return run(q,14)
def chal(bits,p,z):
    a=3
    for i in range(1,64):
        a=2*a+(-1 if bits[2*i] else 1)
        if bits[2*i+1]: a=a*z
        a%=p
    return a
def search_c15(_bad=None):
    q=[]; rnd=random.Random(15)
    for E,(B,S,b) in CV.items():
        p,r=MODP[B],MODP[S]; o=Oracle(); z=int(o.ask(f'{S} consts').split()[4],16); zb=int(o.ask(f'{E} consts').split()[2],16); g=o.ask(f'{E} show G').split(','); G=tuple(int(x,16) for x in g)
        pt=lambda k:('inf',None) if k==0 else (f'g{FE(k)}',ecmul(p,k,G)); xy=lambda P:[0,0] if P is None else list(P)
        for _ in range(6):
            k,k2=rnd.randrange(1,r),rnd.randrange(1,r); s,P=pt(k)
            q.append((f'g{E} witness {s}',p,xy(P)))
            for a,A in((s,P),pt(0),('Z',None),('c'+s,P)):
                q.append((f'g{E} double {a}',p,xy(ecadd(p,A,A))))
                for bb in'ic':
                    for v in(0,1): q.append((f'g{E} endo {a} {bb}{v}',p,xy((A[0]*zb%p,A[1]) if A and v else A))); q.append((f'g{E} neg {a} {bb}{v}',p,xy(ecneg(p,A) if v else A)))
                for c,C in(pt(k2),pt(0),pt(k),pt(r-k),('Z',None),('c'+pt(k2)[0],pt(k2)[1])):
                    q.append((f'g{E} add {a} {c}',p,xy(ecadd(p,A,C))))
                    for v in(0,1): q.append((f'g{E} addc {a} {c} i{v}',p,xy(ecadd(p,A,C) if v else A)))
            t,T=pt(k2); q.append((f'g{E} addi {s} {t}',p,xy(ecadd(p,P,T)))); q.append((f'g{E} dai {s} {t}',p,xy(ecadd(p,ecadd(p,P,P),T))))
            for v in(0,1): q.append((f'g{E} addci {s} {t} i{v}',p,xy(ecadd(p,P,T) if v else P)))
        for n in(1,2,4,9):
            bits=[rnd.randrange(2) for _ in range(n)]; k=sum(x<<i for i,x in enumerate(bits)); s,P=pt(rnd.randrange(1,r)); w=''.join(map(str,bits)); q.append((f'g{E} multiply {s} {w}',p,xy(ecmul(p,k,P))))
            f=bits[:-1]+[1]; k=sum(x<<i for i,x in enumerate(f)); w=''.join(map(str,f)); q.append((f'g{E} multiply_fast {s} {w}',p,xy(ecmul(p,k,P)))); ki=pow(k,-1,r)
            q.append((f'g{E} multiply_inv {s} {w}',p,xy(ecmul(p,ki,P)))); q.append((f'g{E} multiply_inv_fast {s} {w}',p,xy(ecmul(p,ki,P))))
        bits=[rnd.randrange(2) for _ in range(128)]; s,P=pt(rnd.randrange(1,r)); w=''.join(map(str,bits)); k=chal(bits,r,z)
        q.append((f'g{E} multiply_endo {s} {w}',p,xy(ecmul(p,k,P)))); q.append((f'g{E} multiply_inv_endo {s} {w}',p,xy(ecmul(p,pow(k,-1,r),P))))
    return run(q,15)
def search_c16(_bad=None):
    from checks.conc import RSponge
    def refsponge(p,h,vs):
        sp=RSponge(p); vs=list(vs); w=[]
        for c in h:
            if c=='a': sp.absorb(vs.pop(0))
            else: w.append(sp.squeeze())
        return w
    q=[]; rnd=random.Random(16)
    for F,p in FS:
        for h in('s','as','aaass','sas','a'*12+'s','a'*13+'s','a'*3+'s'*13,'asas','a'*12+'s'*12+'as'):
            ns=[rnum(rnd,p) for c in h if c=='a']; q.append((f'g{F} res {h} '+' '.join(x for x,_ in ns),p,refsponge(p,h,[v for _,v in ns])))
    return run(q,16)
