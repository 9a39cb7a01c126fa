"""Concrete replay of circuit-level properties: random programs (lists of constraint-system calls) through the real code."""
import random
import checks.conc as _c
Oracle=_c.Oracle; viol=_c.viol; F64=_c.F64
MODP=dict(Fp=0x5c5e464a35c12769bac2a757742b393081be9c1a3201248299fffe7d00000001,Fq=0x5c5e464a35c12769bac2a757742b39311b849d0f1801860419fffe7d00000001)
def genprog(rnd,p,n,sat=None,ns=True):
    """instructions (ints); with sat, values/constraints are chosen so the program is satisfied"""
    ins=[]; v=[1]; depth=0
    val=lambda:rnd.choice([0,1,2,p-1,rnd.randrange(p),rnd.randrange(p)])
    for _ in range(n):
        k=rnd.choice('aaaimmllln' if ns else'aaaimmlll')
        if k=='a': x=val(); v.append(x); ins.append(('a',x))
        elif k=='i': x=val(); v.append(x); ins.append(('i',x))
        elif k=='m':
            a,b=val(),val(); c=a*b%p if sat else val(); v+=[a,b,c]; ins.append(('m',a,b,c))
        elif k=='l':
            t=[]
            for _ in range(rnd.randrange(0,6)):
                kd=rnd.choice('01-FF'); c={'0':0,'1':1,'-':p-1}.get(kd,None); c=val() if c is None else c; t.append((kd,c,rnd.randrange(len(v))))
            if sat:
                s=sum(c*v[x] for _,c,x in t)%p
                if s: t.insert(rnd.randrange(len(t)+1),('F',-s%p,0))
            ins.append(('l',t))
        elif k=='n':
            if depth and rnd.random()<.6: ins.append(('d',)); depth-=1
            else: ins.append(('n',)); depth+=1
    ins+=[('d',)]*depth
    return ins
def text(ins):
    def one(i):
        if i[0] in'ai': return i[0]+F64(i[1])
        if i[0]=='m': return 'm'+','.join(F64(x) for x in i[1:])
        if i[0]=='l': return 'l'+','.join((k if k!='F' else 'F'+F64(c))+'*'+str(x) for k,c,x in i[1])
        return i[0]
    return ';'.join(one(i) for i in ins) or ';'
def mean(ins,p):
    v=[1]; inp=[1]; gates=[]; rows=[{0:1}]; inrow=[0]
    for i in ins:
        if i[0]=='a': v.append(i[1])
        elif i[0]=='i': inrow.append(len(rows)); inp.append(i[1]); v.append(i[1]); rows.append({len(v)-1:1})
        elif i[0]=='m': v+=list(i[1:]); gates.append((len(v)-3,len(v)-2,len(v)-1))
        elif i[0]=='l':
            r={}
            for _,c,x in i[1]: r[x]=(r.get(x,0)+c)%p
            rows.append({x:c for x,c in r.items() if c})
    return v,inp,gates,rows,inrow
def packs(ins):
    """wire of each variable, following the documented packing: a half gate is completed by the next allocation"""
    w=[('A',1)]; half=1; n=1
    for i in ins:
        if i[0] in'ai':
            if half: w.append(('B',half)); half=0
            else: n+=1; half=n; w.append(('A',n))
        elif i[0]=='m': n+=1; w+=[(c,n) for c in'ABC']
    return w,n
def badlog(out,ins,p,wit):
    """does the recorded call log mean the program?  (any injective packing of variables is accepted)"""
    f=out.split()
    if not f or f[0]!='ok': return 'synthesis failed' 
    rows=[]; ks=[]; g=0; val={}; used=set()
    for e in f[1:]:
        if e=='g': g+=1
        elif e=='r': rows.append({})
        elif e[0]=='c': r,w,c=e[1:].split(','); rows[int(r)-1][w]=(rows[int(r)-1].get(w,0)+int(c,16))%p
        elif e[0]=='k': i,x=e[1:].split(','); ks.append((int(i)-1,x))
        elif e[0]=='v': w,x=e[1:].split(','); val[w]=int(x,16)
    v,inp,gates,want,inrow=mean(ins,p); wires,n=packs(ins); W=[a+str(b) for a,b in wires]
    if g!=n: return f'{g} gates for a program needing {n}'
    if len(rows)!=len(want): return 'number of linear constraints'
    for a,b in zip(rows,want):
        if {w:c for w,c in a.items() if c}!={W[x]:c for x,c in b.items()}: return 'linear constraint differs'
    if [i for i,_ in ks]!=inrow: return 'public-input rows'
    if wit:
        if [int(x,16) if x!='?' else None for _,x in ks]!=inp: return 'public-input values'
        for w,x in zip(W,v):
            if val.get(w)!=x: return f'value of wire {w}'
        own={wires[a][1] for a,_,_ in gates}
        for i in range(1,n+1):
            if i not in own and (val.get(f'A{i}',0)*val.get(f'B{i}',0)-val.get(f'C{i}',0))%p: return f'allocation gate {i} unsatisfied'
    return None
def lens(rnd,tries): return [rnd.choice([1,2,3,4,5,6,8,12,20]) for _ in range(tries)]+[60,150,300]
def search_c17(_bad=None,tries=250):
    rnd=random.Random(17); o=Oracle(); q=[]; meta=[]
    for F,p in MODP.items():
        for n in lens(rnd,tries):
            ins=genprog(rnd,p,n); wit=rnd.random()<.8
            q.append(f'c{F} log {int(wit)} {text(ins)}'); meta.append((ins,p,wit))
    got=o.many(q)
    for l,g,(ins,p,wit) in zip(q,got,meta):
        if not wit and g.startswith('err'): continue  # a backend that requires values refuses
        b=badlog(g,ins,p,wit)
        if b: return viol(l,g,b)
    if len(got)<len(q): return viol(q[len(got)],'CRASH','an answer')
    return None
def satspec(ins,p,inputs):
    v,inp,gates,rows,inrow=mean(ins,p)
    if len(inputs)+1!=len(inp): return f'len {len(inputs)} {len(inp)-1}'
    k=dict(zip(inrow,[1]+inputs)); r=set()
    for a,b,c in gates:
        if (v[a]*v[b]-v[c])%p: r.add('mult')
    for n,row in enumerate(rows):
        if (sum(c*v[x] for x,c in row.items())-k.get(n,0))%p: r.add('lin')
    return r or {'ok true'}
def search_c18(_bad=None,tries=400):
    rnd=random.Random(18); o=Oracle(); q=[]; want=[]
    for F,p in MODP.items():
        for n in lens(rnd,tries):
            mode=rnd.choice(['sat','sat','any','one','input','count'])
            ins=genprog(rnd,p,n,sat=mode!='any')
            if mode=='one':   # spoil one constraint
                c=[i for i,x in enumerate(ins) if x[0] in'ml']
                if c:
                    i=rnd.choice(c); x=ins[i]
                    ins[i]=('m',x[1],x[2],(x[3]+rnd.choice([1,p-1,rnd.randrange(1,p)]))%p) if x[0]=='m' else ('l',x[1]+[('F',rnd.choice([1,rnd.randrange(1,p)]),0)])
                    if x[0]=='m': ins=ins[:i+1]  # later constraints may use the value
                    d=sum(1 if y[0]=='n' else -1 if y[0]=='d' else 0 for y in ins); ins+=[('d',)]*d
            inp=[x[1] for x in ins if x[0]=='i']
            if mode=='input' and inp: j=rnd.randrange(len(inp)); inp[j]=(inp[j]+rnd.choice([1,p-1]))%p
            if mode=='count': inp=inp[:-1] if inp and rnd.random()<.5 else inp+[rnd.choice([0,1])]
            q.append(f'c{F} sat {text(ins)} {",".join(map(F64,inp))}'); want.append(satspec(ins,p,inp))
    for _ in range(120):
        F=rnd.choice(list(MODP)); p=MODP[F]; ins=genprog(rnd,p,rnd.randrange(0,20)); v,inp,gates,rows,_r=mean(ins,p); w,n=packs(ins)
        q.append(f'c{F} count {rnd.randrange(2)} {text(ins)}'); want.append({f'{len([1 for i in ins if i[0] in "ai"])+1} {len(gates)} {n} {len(rows)}'})
    for _ in range(200):
        F=rnd.choice(list(MODP)); p=MODP[F]; ins=genprog(rnd,p,rnd.randrange(1,12),ns=False); k=rnd.randrange(5); j=list(ins)
        if k==0: pass
        elif k==1: j=ins[:rnd.randrange(len(ins))]
        elif k==2: j=ins+[('a',0)]
        elif k==3:
            c=[i for i,x in enumerate(ins) if x[0]=='l' and x[1]]
            if c: i=rnd.choice(c); t=list(ins[i][1]); m=rnd.randrange(len(t)); z=t[m]; t[m]=('F',(z[1]+1)%p,z[2]) ; j[i]=('l',t)
        else: i=rnd.randrange(len(ins)); j[i]=('i',1) if ins[i][0]!='i' else ('a',1)
        sh=lambda I:[(x[0],[(c,y) for _,c,y in x[1]] if x[0]=='l' else 0) for x in I]
        ok=True
        try: mean(j,p)
        except Exception: ok=False
        nv=1
        for x in j:
            if x[0]=='l' and any(y>=nv for _,_,y in x[1]): ok=False
            nv+={'a':1,'i':1,'m':3}.get(x[0],0)
        if not ok: continue
        q.append(f'c{F} det {text(ins)}|{text(j)}'); want.append({'true'} if sh(ins)==sh(j) else {'PANIC','false'})
    got=o.many(q)
    for l,g,w in zip(q,got,want):
        if not(g==w or (isinstance(w,set) and (g in w or ('PANIC' in w and g.lower().startswith('panic'))))): return viol(l,g,str(w))
    if len(got)<len(q): return viol(q[len(got)],'CRASH',str(want[len(got)]))
    return None
