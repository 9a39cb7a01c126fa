"""Concrete replay of the protocol-level properties through the compiled code (random parameters, small circuits)."""
import random
from checks.conc2 import *
CM=dict(Ec0='Fp',Ec1='Fq')
def small(rnd,p,gmax,sat=True):
    while True:
        ins=genprog(rnd,p,rnd.randrange(0,6),sat=sat,ns=rnd.random()<.3); w,n=packs(ins); v,inp,gates,rows,_=mean(ins,p)
        if n<=gmax and len(rows)<=14: return ins
def search_c19(_bad=None,tries=60):
    rnd=random.Random(19); o=Oracle(); q=[]; meta=[]
    for E,F in CM.items():
        p=MODP[F]
        for _ in range(tries):
            k=rnd.choice([4,4,5,6]); n=1<<(k-2); ins=small(rnd,p,n-1,False); x=rnd.choice([1,2,p-1,rnd.randrange(1,p)]); y=rnd.choice([0,1,rnd.randrange(p)]); rows=mean(ins,p)[3]
            q.append(f'p{E} sxy {k} {F64(x)} {F64(y)} {text(ins)} {len(rows)}'); meta.append((ins,p,n,x,y))
    got=o.many(q)
    for l,g,(ins,p,n,x,y) in zip(q,got,meta):
        b=badsxy(g,ins,p,n,x,y)
        if b: return viol(l,g,b)
    if len(got)<len(q): return viol(q[len(got)],'CRASH','an answer')
    return search_prove(2,'19')
def badsxy(g,ins,p,n,x,y):
    try: a,b=g.split(' | '); sx=[int(v,16) for v in a.split(',')]; sy=[int(v,16) for v in b.split(',')]
    except Exception: return 'two coefficient lists'
    rows=mean(ins,p)[3]; W,_=packs(ins); e=lambda w:{'A':-w[1],'B':w[1],'C':n+w[1]}[w[0]]
    if len(sy)!=len(rows)+1: return f'{len(rows)+1} coefficients in Y'
    want=[0]*(3*n+1)
    for q,r in enumerate(rows,1):
        s=0
        for v,c in r.items(): want[n+e(W[v])]=(want[n+e(W[v])]+c*pow(y,q,p))%p; s+=c*pow(x,e(W[v]),p)
        if sy[q]!=s%p: return f'coefficient of Y^{q}: {s%p:x}'
    if sy[0]: return 'no constant term in Y'
    for i,(u,v) in enumerate(zip(sx,want)):
        if u!=v: return f'coefficient of X^{i-n}: {v:x}'
    if len(sx)!=len(want): return f'{len(want)} coefficients in X'
def search_prove(tries=5,seed='20'):
    rnd=random.Random(seed); o=Oracle(); q=[]
    for t in range(tries):
        E=rnd.choice(list(CM)); p=MODP[CM[E]]
        ins=small(rnd,p,3) if t else [('m',3,5,15),('l',[('F',7,0),('1',1,1),('-',p-1,0),('F',(-9)%p,0)]),('i',12),('l',[('F',3,4),('F',p-12,1)])]
        inp=[i[1] for i in ins if i[0]=='i']
        q.append(f'p{E} prove 4 {text(ins)} {",".join(map(F64,inp))}')
    for l,g in zip(q,o.many(q)):
        if g!='ok': return viol(l,g,'ok')
    return None
def search_c20(_bad=None): return search_prove(4,'20')
def search_c21(_bad=None):
    o=Oracle(); q=[f'p{E} enc {k}' for E in CM for k in(4,5)]
    for l,g in zip(q,o.many(q)):
        if g!='ok': return viol(l,g,'ok')
    return search_prove(2,'21')
