"""Concrete searches on the real code (through the oracle binary), used only when an obligation was not discharged.
Reference: Python integers / textbook affine curve arithmetic."""
import random, subprocess, os, time, threading, queue
from mirv import build
from mirv.fieldvc import MOD, R
class Oracle:
    def __init__(s):
        s.bin=build.oracle(); s.p=None; s.start()
    def start(s):
        s.p=subprocess.Popen([s.bin],stdin=subprocess.PIPE,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,bufsize=1)
    def ask(s,line,timeout=120):
        t=threading.Timer(timeout,s.p.kill); t.start()
        try:
            s.p.stdin.write(line+'\n'); s.p.stdin.flush(); r=s.p.stdout.readline()
        except BrokenPipeError: r=''
        finally: t.cancel()
        if r=='': s.start(); return 'CRASH-OR-TIMEOUT'
        return r.strip()
    def many(s,lines,timeout=120):
        """batched; stops at the first crash or when one answer takes longer than the timeout"""
        out=[]; p=s.p
        def feed():
            try:
                for i in range(0,len(lines),50): p.stdin.write('\n'.join(lines[i:i+50])+'\n'); p.stdin.flush()
            except (BrokenPipeError,ValueError): pass
        threading.Thread(target=feed,daemon=True).start()
        for _ in lines:
            t=threading.Timer(timeout,p.kill); t.daemon=True; t.start(); r=p.stdout.readline(); t.cancel()
            if r=='': s.start(); return out
            out.append(r.strip())
        return out
H=lambda x:'%x'%x
F64=lambda x:'%064x'%x
def edges(P,rnd,n=20):
    raws=[0,1,2,P-1,P-2,(P-1)//2,(P+1)//2,R%P,R-P if R-P<P else 1]+[(1<<64*i)-1 for i in(1,2,3)]+[1<<64*i for i in(1,2,3)]+[P-(1<<64),P-(1<<128),P-(1<<192)]
    raws+=[sum(((1<<64)-1)<<(64*i) for i in s)%P for s in((1,),(2,),(1,2),(0,1,2),(0,2))]
    Ri=pow(R,-1,P)
    vs=raws+[r*Ri%P for r in raws]+[rnd.randrange(P) for _ in range(n)]+[rnd.randrange(1<<64)*Ri%P for _ in range(3)]
    return list(dict.fromkeys(vs))
def viol(line,got,want): return dict(how='oracle line protocol (/verif/oracle) on the real code',input=line,got=got,expected=want)
def run(lines,want):
    o=Oracle(); got=o.many(lines)
    for l,g,w in zip(lines,got,want):
        if g!=w: return viol(l,g,w)
    if len(got)<len(lines): return viol(lines[len(got)],'CRASH',want[len(got)])
    return None
def search_c01(bad):
    rnd=random.Random(int(os.environ.get('VERIF_SEED','1'))); L=[];W=[]
    def q(l,w): L.append(l);W.append(w)
    for F in('Fp','Fq'):
        P=MOD[F]; E=edges(P,rnd)
        for n,v in(('izero',0),('ione',1),('zero',0),('one',1),('default',0)): q(f'{F} {n}',F64(v))
        q(f'{F} fbool 0',F64(0)); q(f'{F} fbool 1',F64(1))
        for a in E:
            for n,v in(('ineg',-a),('oneg',-a),('oneg2',-a),('idouble',2*a),('isquare',a*a),('square',a*a)): q(f'{F} {n} {H(a)}',F64(v%P))
            q(f'{F} is_zero {H(a)}',str(int(a==0))); q(f'{F} invert {H(a)}','none' if a==0 else F64(pow(a,-1,P)))
        prs=[(a,b) for a in E for b in E] ; rnd.shuffle(prs)
        for a,b in prs[:2500]+[(a,a) for a in E]+[(a,P-a) for a in E if a]:
            for n,v in(('iadd',a+b),('isub',a-b),('imul',a*b)): q(f'{F} {n} {H(a)} {H(b)}',F64(v%P))
        for a,b in prs[:40]:
            for op,v in(('add',a+b),('sub',a-b),('mul',a*b)):
                for k in('_rr','_vv','_vr','_rv'): q(f'{F} o{op}{k} {H(a)} {H(b)}',F64(v%P))
                for k in('_assign','_assign_r'): q(f'{F} {op}{k} {H(a)} {H(b)}',F64(v%P))
        for a,b in prs[:300]+[(a,a) for a in E]:
            q(f'{F} eq {H(a)} {H(b)}',str(int(a==b))*2); q(f'{F} select {H(a)} {H(b)} 0',F64(a)); q(f'{F} select {H(a)} {H(b)} 1',F64(b))
    return run(L,W)
def lehex(n,k): return n.to_bytes(k,'little').hex()
def search_c02(bad):
    rnd=random.Random(int(os.environ.get('VERIF_SEED','1'))); L=[];W=[]
    def q(l,w): L.append(l);W.append(w)
    for F in('Fp','Fq'):
        P=MOD[F]; E=edges(P,rnd,60)
        for a in E:
            q(f'{F} to_bytes {H(a)}',F64(a)); q(f'{F} intob {H(a)}',F64(a)); q(f'{F} lower128 {H(a)}',H(a&((1<<128)-1)))
        N=E+[P,P+1,P-1,2*P-1 if 2*P<R else P,R-1,R-2,1<<255,(1<<255)-1,1<<254,MOD['Fp'],MOD['Fq'],(MOD['Fp']+MOD['Fq'])//2]+[min(R-1,P+(1<<k)) for k in range(0,256,4)]+[max(0,P-(1<<k)) for k in range(0,254,3)]+[rnd.randrange(R) for _ in range(60)]
        N+=[(P&~(((1<<64)-1)<<(64*i)))|(x<<(64*i)) for i in range(4) for x in(0,(1<<64)-1,((P>>(64*i))-1)&((1<<64)-1),((P>>(64*i))+1)&((1<<64)-1))]
        for n in N:
            q(f'{F} from_bytes {lehex(n,32)}',F64(n) if n<P else 'none'); q(f'{F} raw {H(n)}',F64(n%P))
        for i in range(300):
            n=rnd.choice([rnd.randrange(1<<512),(1<<512)-1-rnd.randrange(1<<rnd.randrange(1,300)),rnd.choice(N)<<256|rnd.choice(N)])
            q(f'{F} wide {lehex(n,64)}',F64(n%P))
        for n in [0,1,2,(1<<64)-1,(1<<63),(1<<32)]+[rnd.randrange(1<<64) for _ in range(20)]: q(f'{F} from_u64 {H(n)}',F64(n)); q(f'{F} from64 {H(n)}',F64(n))
        for n in [0,1,1<<64,(1<<128)-1,1<<127,((1<<64)-1)<<64]+[rnd.randrange(1<<128) for _ in range(20)]: q(f'{F} from_u128 {H(n)}',F64(n))
    return run(L,W)
def search_c03(bad):
    rnd=random.Random(int(os.environ.get('VERIF_SEED','1'))); L=[];W=[]
    def q(l,w): L.append(l);W.append(w)
    o=Oracle()
    for F in('Fp','Fq'):
        P=MOD[F]; E=edges(P,rnd,10); gen=7 if F=='Fp' else 5; t=(P-1)>>32; g=pow(gen,t,P)
        for a in E: q(f'{F} invert {H(a)}','none' if a==0 else F64(pow(a,-1,P)))
        X=[0,1,2,3,(1<<64)-1,1<<64,1<<63,1<<255,(1<<256)-1,P-1,P-2,P]+[1<<rnd.randrange(256) for _ in range(10)]+[rnd.randrange(R) for _ in range(10)]
        for e in X:
            for a in rnd.sample(E,6)+[0,1]: q(f'{F} pow {H(a)} {H(e)}',F64(pow(a,e,P))); q(f'{F} pow_vartime {H(a)} {H(e)}',F64(pow(a,e,P)))
        for n in range(0,9):
            for _ in range(6):
                xs=[0 if rnd.random()<.3 else rnd.choice(E) for _ in range(n)]; pr=1
                for x in xs: pr=pr*(x or 1)%P
                q(f'{F} batch '+' '.join(map(H,xs)),' '.join(F64(pow(x,-1,P) if x else 0) for x in xs)+(' ' if xs else '')+F64(pow(pr,-1,P)))
        S=E+[pow(rnd.randrange(1,P),1<<32,P)*pow(g,(rnd.randrange(1<<31)*2+1)<<(32-k) if k else 0,P)%P for k in range(33) for _ in range(12)]
        for a,r in zip(S,o.many([f'{F} sqrt {H(a)}' for a in S])):
            sq=a==0 or pow(a,(P-1)//2,P)==1
            if (r!='none')!=sq or (sq and (len(r)!=64 or pow(int(r,16),2,P)!=a)): return viol(f'{F} sqrt {H(a)}',r,'a root' if sq else 'none')
    return run(L,W)
from checks.refc import *
def search_c04(bad):
    o=Oracle()
    for F in('Fp','Fq'):
        P=MOD[F]; r=o.ask(F+' consts'); w=r.split()
        try: nb,cap,S=map(int,w[:3]); al,be=int(w[3],16),int(w[4],16); ra=int(w[5]); ri=int(w[6],16)
        except ValueError: return viol(F+' consts',r,'constants')
        if nb!=P.bit_length() or cap!=nb-1 or S!=32: return viol(F+' consts (NUM_BITS CAPACITY S ...)',r,'255 254 32')
        if pow(al,1<<32,P)!=1 or pow(al,1<<31,P)==1: return viol(F+' consts (ALPHA)',F64(al),'an element of order 2^32')
        if be==1 or pow(be,3,P)!=1: return viol(F+' consts (BETA)',F64(be),'an element of order 3')
        if ra*ri%(P-1)!=1 or ra!=5: return viol(F+' consts (RESCUE_ALPHA, RESCUE_INVALPHA)',w[5:],'inverse exponents modulo p-1')
    for E,(B,S,b) in CURVES.items():
        P,r=MOD[B],MOD[S]
        w=[int(x,16) for x in o.ask(E+' consts').split()]
        if w[0]!=b: return viol(E+' consts (b)',w[0],b)
        if w[3]!=0 or w[4]==0 or w[5]!=0: return viol(E+' consts (zero)',w[3:],'(0,y,0)')
        gx,gy=map(int,(o.ask(f'{E} get_xy G').split(',')[0],'0'),(16,16))
        l=f'{E} mul G {H(w[1])}'; m=o.ask(l).split()[0]
        if w[1]==1 or m.split(',')[0]!=F64(gx*w[2]%P): return viol(l+' (BETA_SCALAR * G)',m,'x = BETA_BASE * x(G) = '+F64(gx*w[2]%P))
        g=o.ask(f'{E} get_xy G')
        try: G=tuple(int(x,16) for x in g.split(','))
        except ValueError: return viol(f'{E} get_xy G',g,'coordinates')
        if (G[0]**3+b-G[1]**2)%P: return viol(f'{E} get_xy G',g,'a point on the curve')
        l=f'{E} mul G {H(r-1)}'
        if o.ask(l).split()[0]!=F64(G[0])+','+F64(-G[1]%P): return viol(l,o.ask(l),'-G')
    return None
def points(E,rnd,n=4):
    """[(oracle spec, affine value)] including unusual projective representations of the same element"""
    B,S,b=CURVES[E]; P,r=MOD[B],MOD[S]
    o=Oracle(); G=tuple(int(x,16) for x in o.ask(f'{E} get_xy G').split(','))
    ks=[1,2,3,r-1,r-2,(r+1)//2]+[rnd.randrange(r) for _ in range(n)]
    out=[('inf',None),('inf+inf',None),(f'G+g{H(r-1)}',None),(f'g{H(5)}+g{H(r-5)}',None)]
    for k in ks:
        A=ecmul(P,k,G); sp=f'{H(A[0])},{H(A[1])}'
        out.append((sp,A)); out.append((f'g{H(k)}',A)); j=rnd.randrange(r); out.append((f'g{H(j)}+g{H((k-j)%r)}',A)); out.append((sp+'+inf',A))
    return P,r,G,out
def aff(A): return 'inf:'+F64(0)+':0' if A is None else F64(A[0])+','+F64(A[1])
def search_c05(bad):
    rnd=random.Random(int(os.environ.get('VERIF_SEED','1'))); L=[];W=[]
    def q(l,w): L.append(l);W.append(w)
    for E in CURVES:
        P,r,G,pts=points(E,rnd)
        q(f'{E} show inf',aff(None))
        for s,A in pts:
            q(f'{E} show {s}',aff(A)); q(f'{E} double {s}',aff(ecadd(P,A,A))); q(f'{E} neg {s}',aff(ecneg(P,A))); q(f'{E} is_zero {s}',str(int(A is None)))
            for t,Bp in pts:
                q(f'{E} add {s} {t}',' '.join([aff(ecadd(P,A,Bp))]*4)); q(f'{E} sub {s} {t}',' '.join([aff(ecadd(P,A,ecneg(P,Bp)))]*4))
                q(f'{E} eq {s} {t}',str(int(A==Bp))*2)
            t,Bp=rnd.choice(pts); q(f'{E} select {s} {t} 0',aff(A)); q(f'{E} select {s} {t} 1',aff(Bp))
        q(f'{E} is_zero id','1'); q(f'{E} add id G',' '.join([aff(G)]*4)); q(f'{E} eq id inf','11')
    return run(L,W)
def search_c06(bad):
    rnd=random.Random(int(os.environ.get('VERIF_SEED','1'))+6); L=[];W=[]
    def q(l,w): L.append(l);W.append(w)
    o=Oracle()
    for E in CURVES:
        P,r,G,pts=points(E,rnd,2)
        ks=[0,1,2,3,r-1,r-2,1<<254,(1<<254)-1,1<<128,(1<<128)-1,255,256]+[rnd.randrange(r) for _ in range(4)]
        for k in ks:
            s,A=rnd.choice(pts); v=aff(ecmul(P,k%r,A)); n=len(o.ask(f'{E} mul {s} {H(k%r)}').split())
            q(f'{E} mul {s} {H(k%r)}',' '.join([v]*n))
        for n in(0,1,2,3,7,8,9,10,15,17,31,64,100,300):
            ps=[rnd.choice(pts) for _ in range(n)]; cs=[rnd.choice(ks+[rnd.randrange(r)]*8)%r for _ in range(n)]
            acc=None
            for c,(s,A) in zip(cs,ps): acc=ecadd(P,acc,ecmul(P,c,A))
            q((f'{E} multiexp '+' '.join([H(c) for c in cs]+[s for s,_ in ps])).strip(),aff(acc))
    return run(L,W)
def sqrtmod(P,a):
    a%=P
    if a==0: return 0
    if pow(a,(P-1)//2,P)!=1: return None
    q=P-1; s=0
    while q%2==0: q//=2;s+=1
    z=2
    while pow(z,(P-1)//2,P)==1: z+=1
    m,c,t,r=s,pow(z,q,P),pow(a,q,P),pow(a,(q+1)//2,P)
    while t!=1:
        i,t2=0,t
        while t2!=1: t2=t2*t2%P;i+=1
        b=pow(c,1<<(m-i-1),P); m,c=i,b*b%P; t=t*c%P; r=r*b%P
    return r
def enc(A):
    if A is None: return bytes(32).hex()
    b=bytearray(A[0].to_bytes(32,'little')); b[31]|=(A[1]&1)<<7; return bytes(b).hex()
def search_c07(bad):
    rnd=random.Random(int(os.environ.get('VERIF_SEED','1'))+7); L=[];W=[]
    def q(l,w): L.append(l);W.append(w)
    for E,(B,S,b) in CURVES.items():
        P,r,G,pts=points(E,rnd,6)
        for s,A in pts:
            q(f'{E} to_bytes {s}',enc(A)); q(f'{E} from_bytes {enc(A)}',aff(A))
            q(f'{E} get_xy {s}','none' if A is None else F64(A[0])+','+F64(A[1]))
            if A: 
                q(f'{E} from_xy {H(A[0])} {H(A[1])}',aff(A)); q(f'{E} from_xy {H(A[0])} {H((A[1]+1)%P)}','none'); q(f'{E} from_xy {H(A[0])} 0','none'); q(f'{E} from_xy 0 {H(A[1])}','none')
                f=bytearray(bytes.fromhex(enc(A))); f[31]^=0x80; q(f'{E} from_bytes {bytes(f).hex()}',aff((A[0],-A[1]%P)))
        q(f'{E} from_xy 0 0',aff(None)); q(f'{E} from_xy 0 1','none'); q(f'{E} from_xy 1 0','none')
        xs=[0,1,2,3,P-1,P-2]+[rnd.randrange(P) for _ in range(60)]
        for n in xs+[P,P+1,P+2,(1<<255)-1]+[P+x for x in xs if P+x<1<<255][:20]:
            for sg in(0,1):
                y=sqrtmod(P,n**3+b) if n<P else None
                if n==0 and not sg: w=aff(None)
                elif y is None: w='none'
                else: w=aff((n,y if y&1==sg else P-y))
                q(f'{E} from_bytes {lehex(n|sg<<255,32)}',w)
    return run(L,W)
def search_c08(bad):
    rnd=random.Random(int(os.environ.get('VERIF_SEED','1'))+8); L=[];W=[]
    for g,F in(('Pp','Fp'),('Pq','Fq')):
        P=MOD[F]; E=edges(P,rnd,10)
        for la,lb in[(1,1),(1,2),(2,1),(2,2),(3,3),(4,5),(8,8),(9,8),(16,1),(33,40),(100,3),(1,129),(128,129),(300,300)]+[(rnd.randrange(1,70),rnd.randrange(1,70)) for _ in range(20)]:
            a=[rnd.choice(E) for _ in range(la)]; b=[rnd.choice(E) for _ in range(lb)]; c=[0]*(la+lb-1)
            for i,x in enumerate(a):
                for j,y in enumerate(b): c[i+j]+=x*y
            L.append(f'{g} polymul {",".join(map(H,a))} {",".join(map(H,b))}'); W.append(' '.join(F64(x%P) for x in c))
    return run(L,W)
BETAS={}
def beta(F):
    """the field's advertised cube root of unity (its order is checked by C04)"""
    if F not in BETAS: BETAS[F]=int(Oracle().ask(f'{F} consts').split()[4],16)
    return BETAS[F]
def chalscalar(F2,c):
    P=MOD[F2]; z=beta(F2); acc=3
    for i in range(1,64):
        acc=2*acc+(-1 if c>>(2*i)&1 else 1)
        if c>>(2*i+1)&1: acc=acc*z%P
    return acc%P
def search_c09(bad):
    rnd=random.Random(int(os.environ.get('VERIF_SEED','1'))+9); L=[];W=[]
    def q(l,w): L.append(l);W.append(w)
    V=lambda v: ','.join(map(H,v)) if v else '-'
    for g,F in(('Pp','Fp'),('Pq','Fq')):
        P=MOD[F]; E=edges(P,rnd,10); nz=[e for e in E if e]
        for n in(0,1,2,3,5,16,33):
            a=[rnd.choice(E) for _ in range(n)]; b=[rnd.choice(E) for _ in range(n)]
            if n: q(f'{g} inner {V(a)} {V(b)}',F64(sum(x*y for x,y in zip(a,b))%P))
        for k in(1,1,2,2,3,4,5,6,7,8):
            for x in(0,1,rnd.choice(E)):
                c=[rnd.choice(nz) for _ in range(k)]; ci=[pow(y,-1,P) for y in c]; n=1<<k; s=[1]*n
                for j in range(n):
                    for i in range(k): s[j]=s[j]*(c[i] if j>>(k-1-i)&1 else ci[i])%P
                al=1
                for y in ci: al=al*y%P
                q(f'{g} compute_b {H(x)} {V(c)} {V(ci)}',F64(sum(y*pow(x,j,P) for j,y in enumerate(s))%P))
                q(f'{g} gcoeffs {V([y*y%P for y in c])} {H(al)}',' '.join(F64(y) for y in s))
    for (w,F1,F2) in(('pq','Fp','Fq'),('qp','Fq','Fp')):
        cs=[0,1,2,3,4,8,(1<<128)-1,1<<127,1<<126,(1<<128)//3,2*(1<<128)//3,1<<128,MOD[F1]-1]+[1<<i for i in range(0,130)]+[rnd.randrange(MOD[F1]) for _ in range(100)]
        for c in cs: q(f'chal {w} {H(c)}',F64(chalscalar(F2,c&((1<<128)-1))))
    for E,(B,S,b) in CURVES.items():
        P,r,G,pts=points(E,rnd,6)
        for n in(2,4,6,8,16,32,128,130,150,256):
            c=rnd.randrange(1,r); ci=pow(c,-1,r); ks=[rnd.randrange(r) if n<64 else rnd.randrange(1,200) for _ in range(n)]; l=n//2
            ps=[('g%x'%k if k else 'inf') for k in ks]
            w=[(ci*ks[i]+c*ks[i+l])%r if i<l else ks[i] for i in range(n)]
            q(f'{E} collapse {" ".join(ps)} {H(c)} {H(ci)}',' '.join(aff(ecmul(P,k,G)) for k in w))
    return run(L,W)
class RSponge:
    """Rescue sponge over Python integers"""
    KS={}
    def __init__(s,P):
        s.P=P; s.st=[0]*13; s.vals=[]; s.out=None; s.ia=pow(5,-1,P-1)
        if P not in RSponge.KS:
            st=[1]*13; ks=[st]
            for r in range(20): st=[(x+1)%P for x in s.lin([pow(x,s.ia if r%2==0 else 5,P) for x in st])]; ks.append(st)
            RSponge.KS[P]=ks
    def lin(s,v):
        a=sum(j*x for j,x in enumerate(v)); return [(i+1)*a%s.P for i in range(13)]
    def dup(s,vals):
        P=s.P; ks=RSponge.KS[P]; st=[(x+y)%P for x,y in zip(s.st,list(vals)+[1]*(12-len(vals))+[0])]
        st=[(x+k)%P for x,k in zip(st,ks[0])]
        for r in range(20): st=[(x+k)%P for x,k in zip(s.lin([pow(x,s.ia if r%2==0 else 5,P) for x in st]),ks[r+1])]
        s.st=st
    def absorb(s,v):
        if s.out is not None: s.out=None; s.vals=[v]
        elif len(s.vals)==12: s.dup(s.vals); s.vals=[v]
        else: s.vals.append(v)
    def squeeze(s):
        if s.out is None or s.out==12: s.dup(s.vals if s.out is None else []); s.vals=[]; s.out=0
        s.out+=1; return s.st[s.out-1]
def search_c10(bad):
    rnd=random.Random(int(os.environ.get('VERIF_SEED','1'))+10); L=[];W=[]
    hs=['s','ss','as','a'*11+'s','a'*12+'s','a'*13+'s','a'*24+'s','a'*25+'ss','s'*12,'s'*13,'s'*25,'a'+'s'*13,'a'*12+'s'*13+'a'*12+'s','as'*13,'ssa'*5+'s','a'*12+'s'*12+'as']
    hs+=[''.join(rnd.choice(x) for _ in range(rnd.randrange(5,60)))+'s' for x in('as','aas','ass','aaaas','assss') for _ in range(6)]
    for g,F in(('Pp','Fp'),('Pq','Fq')):
        P=MOD[F]; E=edges(P,rnd,10)
        for h in hs:
            sp=RSponge(P); w=[]; l=[]
            for c in h:
                if c=='a': x=rnd.choice(E); sp.absorb(x); l.append(H(x))
                else: w.append(sp.squeeze()); l.append('s')
            L.append(f'{g} sponge {" ".join(l)}'); W.append(' '.join(map(F64,w)))
    return run(L,W)
from checks.conc2 import *
