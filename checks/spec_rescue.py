"""Rescue sponge specification over the abstract field domain (written from the definition, not from the code)."""
M=13; RATE=12; ROUNDS=10
class Perm:
    def __init__(s,D,alpha,invalpha):
        s.D=D; s.a=alpha; s.ia=invalpha; s.ks=None
        st=[D.const(0)]*M; s.ks=[None]*(2*ROUNDS+1)
        # key schedule: the permutation of the zero master key with every round constant equal to one
        st=[x+1 for x in st]; s.ks[0]=st
        for r in range(2*ROUNDS):
            st=[x+1 for x in s.lin([s.pw(x,r) for x in st])]; s.ks[r+1]=st
    def pw(s,x,r):
        n=s.ia if r%2==0 else s.a
        if x.const is not None: return s.D.const(pow(x.const,n,s.D.P))
        return s.D.bigpow(x,n) if n>s.D.powlimit else s.D.fe_pow(x,n)
    def lin(s,v):
        out=[]
        for i in range(M):
            a=s.D.const(0)
            for j in range(M): a=a+v[j]*((i+1)*j)
            out.append(a)
        return out
    def f(s,st):
        st=[x+k for x,k in zip(st,s.ks[0])]
        for r in range(2*ROUNDS):
            st=[x+k for x,k in zip(s.lin([s.pw(x,r) for x in st]),s.ks[r+1])]
        return st
    def duplex(s,st,vals):
        one=s.D.const(1); v=list(vals)+[one]*(RATE-len(vals))
        return s.f([x+y for x,y in zip(st,v)]+[st[M-1]])
class Sponge:
    def __init__(s,perm): s.p=perm; s.st=[perm.D.const(0)]*M; s.vals=[]; s.out=None
    def absorb(s,v):
        if s.out is not None: s.out=None; s.vals=[v]; return
        if len(s.vals)==RATE: s.st=s.p.duplex(s.st,s.vals); s.vals=[v]; return
        s.vals=s.vals+[v]
    def squeeze(s):
        if s.out is None or s.out==RATE:
            s.st=s.p.duplex(s.st,s.vals if s.out is None else []); s.vals=[]; s.out=0
        s.out+=1; return s.st[s.out-1]
