"""Reference (textbook) mathematics in Python integers: affine short-Weierstrass group law, primality certificates."""
from mirv.fieldvc import MOD
CURVES={'Ec0':('Fq','Fp',5),'Ec1':('Fp','Fq',7)}   # base, scalar, b
def ecadd(P,A,B):
    if A is None: return B
    if B is None: return A
    (x1,y1),(x2,y2)=A,B
    if x1==x2:
        if (y1+y2)%P==0: return None
        l=3*x1*x1*pow(2*y1,-1,P)%P
    else: l=(y2-y1)*pow(x2-x1,-1,P)%P
    x=(l*l-x1-x2)%P; return (x,(l*(x1-x)-y1)%P)
def ecneg(P,A): return None if A is None else (A[0],-A[1]%P)
def ecmul(P,k,A):
    r=None
    while k:
        if k&1: r=ecadd(P,r,A)
        A=ecadd(P,A,A); k>>=1
    return r
PRATT={41779350816691014953522156191564118732861004145504938180595018507596047843329: (7, [2, 3, 197, 4598831, 7813987, 794236439, 192230877197148812576275018793540833079827]), 192230877197148812576275018793540833079827: (2, [2, 3, 71, 239500759, 7497648671, 251293681232911107709]), 251293681232911107709: (2, [2, 3, 439, 47701913673673331]), 41779350816691014953522156191564118733065404123040873871217559960624522330113: (5, [2, 3, 59, 197, 1093, 4598831, 6259817, 2955369790000036875180183355219370645532736961]), 2955369790000036875180183355219370645532736961: (12, [2, 5, 17, 28491989, 53834747647, 354182810894004872485073]), 354182810894004872485073: (3, [2, 22136425680875304530317]), 22136425680875304530317: (6, [2, 3, 13, 141900164620995541861]), 141900164620995541861: (2, [2, 3, 5, 11, 61, 71, 461, 2677, 13408501])}
def prime(n):
    """primality by Lucas certificate (deterministic Miller-Rabin below 2^64)"""
    if n<1<<64:
        if n<2: return False
        for a in(2,3,5,7,11,13,17,19,23,29,31,37):
            if n%a==0: return n==a
        d=n-1; s=0
        while d%2==0: d//=2;s+=1
        for a in(2,3,5,7,11,13,17,19,23,29,31,37):
            x=pow(a,d,n)
            if x in(1,n-1): continue
            for _ in range(s-1):
                x=x*x%n
                if x==n-1: break
            else: return False
        return True
    if n not in PRATT: return None
    a,fs=PRATT[n]; m=n-1
    for f in fs:
        if not prime(f): return False
        while m%f==0: m//=f
    return m==1 and pow(a,n-1,n)==1 and all(pow(a,(n-1)//f,n)!=1 for f in fs)
