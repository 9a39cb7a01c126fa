"""Constants: evaluated from the crate's MIR, checked against number theory."""
import math
from mirv import fw
from mirv.fieldvc import *
from mirv.interp import *
from checks.refc import *
from checks import conc
def fval(v):
    v=v.f[0] if isinstance(v,Agg) and v.k=='&const' else v
    return sum(x.const<<(64*i) for i,x in enumerate(v.f[0].f))
def run():
    chk=fw.Check('C04')
    def go(it,st,callee,args=(),argts=()):
        (s2,v),=it.invoke(st,Frame(0,None,{}),callee,list(args),list(argts)); return v
    def ev(it,st,c): return it.deref(st,it.const(st,Frame(0,None,{}),c))
    def ck(name,fn,ok,detail=''): chk.ob(name,fn,fw.PROVED if ok else fw.REFUTED,'exact evaluation + number theory',0,detail)
    C={}
    for F in('Fp','Fq'):
        P=MOD[F]; Ri=pow(R,-1,P)
        ck(f'{F}.modulus-prime',F,prime(P) is True)
        def consts():
            it=Interp(chk.mir); st=State()
            g=lambda n: ev(it,st,f'<{F} as Field>::{n}')
            # the modulus the code uses, observed: -1 + 1 = 0 and the integer p maps to zero
            v=go(it,st,f'{F}::from_raw',[Agg('array',[CI((P>>(64*i))&((1<<64)-1),'u64') for i in range(4)])],[('array',('path','u64',()),'4')])
            ck(f'{F}.modulus',f'{F}::from_raw',fval(v)==0,'from_raw(p) is not zero')
            nb,cap,S=g('NUM_BITS').const,g('CAPACITY').const,g('S').const
            ck(f'{F}.NUM_BITS',F,nb==P.bit_length(),nb); ck(f'{F}.CAPACITY',F,cap==P.bit_length()-1,cap)
            ck(f'{F}.S',F,(P-1)%(1<<S)==0 and (P-1)>>S&1==1 and S==32,S)
            al=fval(g('ALPHA'))*Ri%P
            ck(f'{F}.ALPHA-order',F,pow(al,1<<S,P)==1 and pow(al,1<<(S-1),P)!=1 if S else False,hex(al))
            be=fval(g('BETA')); C[F]=be*Ri%P
            ck(f'{F}.BETA-order-3',F,be<P and C[F]!=1 and pow(C[F],3,P)==1,hex(C[F]))
            ra=g('RESCUE_ALPHA').const; ri=sum(x.const<<(64*i) for i,x in enumerate(g('RESCUE_INVALPHA').f))
            ck(f'{F}.RESCUE_ALPHA-coprime',F,math.gcd(ra,P-1)==1 and ra==5,ra)
            ck(f'{F}.RESCUE_INVALPHA-inverse',F,ra*ri%(P-1)==1,hex(ri))
            z=fval(go(it,st,f'<{F} as Field>::zero')); o=fval(go(it,st,f'<{F} as Field>::one'))
            ck(f'{F}.zero',F,z==0); ck(f'{F}.one',F,o==R%P)
            chk.absorb(it)
        chk.attempt(f'{F}.constants',F,consts)
    for E,(B,S,b) in CURVES.items():
        P,r=MOD[B],MOD[S]; Ri=pow(R,-1,P)
        def cur():
            it=Interp(chk.mir); st=State()
            bb=fval(go(it,st,f'<{E} as Curve>::b'))*Ri%P
            ck(f'{E}.b',E,bb==b and b%P!=0,bb)
            pt=lambda v:[fval(x)*Ri%P for x in v.f]
            g=pt(go(it,st,f'<{E} as Curve>::one')); z=pt(go(it,st,f'<{E} as Curve>::zero'))
            ck(f'{E}.identity',E,z[2]==0 and z[0]==0 and z[1]!=0,z)
            ok=g[2]!=0
            if ok:
                zi=pow(g[2],-1,P); G=(g[0]*zi%P,g[1]*zi%P)
                ck(f'{E}.generator-on-curve',E,(G[0]**3+b-G[1]**2)%P==0,G)
                if (G[0]**3+b-G[1]**2)%P==0:
                    ck(f'{E}.generator-order',E,prime(r) is True and ecmul(P,r,G) is None,'r*G != O')
                    ck(f'{E}.group-order-unique',E,r>4*math.isqrt(P) and abs(P+1-r)<=2*math.isqrt(P)+1)
                    bs=fval(ev(it,st,f'<{E} as Curve>::BETA_SCALAR'))*pow(R,-1,r)%r; bq=fval(ev(it,st,f'<{E} as Curve>::BETA_BASE'))*Ri%P
                    ck(f'{E}.BETA_SCALAR-order',E,bs!=1 and pow(bs,3,r)==1); ck(f'{E}.BETA_BASE-order',E,bq!=1 and pow(bq,3,P)==1)
                    ck(f'{E}.endomorphism',E,ecmul(P,bs,G)==(G[0]*bq%P,G[1]),'BETA_SCALAR*G != (BETA_BASE*x, y)')
            else: ck(f'{E}.generator-on-curve',E,False,'generator is the identity')
            # -b is not a cube: no point of order two (used by C05)
            ck(f'{E}.no-2-torsion',E,pow(-b%P,(P-1)//3,P)!=1)
            chk.absorb(it)
        chk.attempt(f'{E}.constants',E,cur)
    chk.canary('composite rejected',prime(15) is False and prime(MOD['Fp']*1)is True)
    chk.assumptions+=['Lucas primality certificates and Hasse bound (textbook theorems); the endomorphism equation is checked on a generator and extends to the whole prime-order group because both sides are homomorphisms']
    return chk.finish(conc.search_c04)
