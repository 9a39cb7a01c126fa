from mirv import fw
from mirv.gp import *
from checks import conc
F0=Frame(0,None,{})
def root(P,gen,k): return pow(pow(gen,(P-1)>>32,P),1<<(32-k),P)
def setup1(chk,F,cpus,rev=False):
    it=Interp(chk.mir); st=State(); D,=setup(it,F); it.assoc_tab=dict(ASSOC); it.ghost_cpus=cpus; it.spawn_rev=rev; return it,st,D
def fft(chk,F,k,cpus,fn='best_fft',rev=False,inv=False):
    name=f'{fn}<{F}>[n=2^{k},cpus={cpus}{",reverse" if rev else ""}{",inverse" if inv else ""}]'
    def th():
        it,st,D=setup1(chk,F,cpus,rev); n=1<<k; a=[D.var(f'a{i}') for i in range(n)]
        w=root(D.P,7 if F=='Fp' else 5,k)
        if inv: w=pow(w,-1,D.P)
        r=vec_ref(it,st,a); it.on_fft=None
        args=[r,D.const(w),CI(k,'u32')]+([CI(cpus.bit_length()-1,'u32')] if fn=='parallel_fft' else [])
        outs=it.invoke(st,F0,f'util::{fn}::<{F}>',args,[slc(tp(F)),tp(F),tp('u32'),tp('u32')][:len(args)],UNITT)
        bad=[] if outs else ['no outcome']
        for s2,_ in outs:
            v=it.deref(s2,r).f
            for j in range(n):
                want={}
                for i in range(n): want=padd(want,a[i].p,pow(w,i*j,D.P))
                if D.red(padd(D.fe(v[j]).p,want,-1)): bad.append(f'output {j}')
        if it.panics: bad.append(str(it.panics[0][:3]))
        chk.ob(name,f'util::{fn}',fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',0,'; '.join(bad[:5]),bound='transform sizes and processor counts listed; all coefficient values'); chk.absorb(it)
    chk.attempt(name,f'util::{fn}',th,bound='listed sizes')
UNITT=('tuple',)
def mulp(chk,F,la,lb,cpus,rev=False):
    name=f'multiply_polynomials<{F}>[{la}x{lb},cpus={cpus}{",reverse" if rev else ""}]'
    def th():
        it,st,D=setup1(chk,F,cpus,rev); a=[D.var(f'a{i}') for i in range(la)]; b=[D.var(f'b{i}') for i in range(lb)]
        outs=it.invoke(st,F0,f'util::multiply_polynomials::<{F}>',[Agg('Vec',a),Agg('Vec',b)],[('path','Vec',(tp(F),))]*2,('path','Vec',(tp(F),)))
        bad=[] if outs else ['no outcome']
        for s2,v in outs:
            v=v.f
            if len(v)!=la+lb-1: bad.append(f'length {len(v)}'); continue
            for k in range(la+lb-1):
                w=D.const(0)
                for i in range(max(0,k-lb+1),min(la,k+1)): w=w+a[i]*b[k-i]
                if not (D.fe(v[k])-w).iszero(): bad.append(f'coefficient {k}')
        if it.panics: bad.append(str(it.panics[0][:3]))
        chk.ob(name,'util::multiply_polynomials',fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',0,'; '.join(bad[:5]),bound='lengths and processor counts listed; all coefficient values'); chk.absorb(it)
    chk.attempt(name,'util::multiply_polynomials',th,bound='listed lengths')
def run():
    chk=fw.Check('C08','other')
    T=chk.thorough
    for la,lb,c in[(1,1,1),(1,1,8),(1,2,1),(2,1,4),(2,2,1),(2,3,2),(3,2,4),(3,3,16),(4,4,1),(4,5,2),(5,4,4),(5,5,3),(7,3,2),(8,8,4),(8,9,2)]+([(16,16,4),(16,17,2),(9,20,8),(1,32,4),(17,17,64)] if T else [(9,3,8)]): mulp(chk,'Fp',la,lb,c)
    for la,lb,c in((3,4,2),(5,6,8),(1,1,2)): mulp(chk,'Fq',la,lb,c)
    mulp(chk,'Fp',5,6,4,True)
    for k in range(0,8 if T else 7):
        for c in((1,2,3,4,8,16,64) if T else (1,2,4,8)): fft(chk,'Fp',k,c)
        if k<6: fft(chk,'Fq',k,2); fft(chk,'Fp',k,2,inv=True)
        fft(chk,'Fq',k,1,'serial_fft')
    for k,c in((2,4),(3,2),(4,8),(5,4)): fft(chk,'Fp',k,c,rev=True); fft(chk,'Fq',k,c,'parallel_fft')
    chk.assumptions+=['scoped threads: closures borrow disjoint data, so complete executions in program order (and reverse) represent every schedule','ALPHA has multiplicative order 2^32 (C04)']
    return chk.finish(conc.search_c08)
