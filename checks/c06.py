from mirv import fw
from mirv.gp import *
from checks import conc
def mk(chk,E,*fields):
    it=Interp(chk.mir); st=State(); G=gsetup(it,E,*fields); return it,st,G
def scalar_mul(chk,E):
    S=CURVES[E][1]
    forms=[(f'<{a}{E} as Mul<{b}{S}>>::mul',('r' if a else 'v')+('r' if b else 'v'),False) for a in('','&') for b in('','&')]+[(f'<{E} as MulAssign<{b}{S}>>::mul_assign','r'+('r' if b else 'v'),True) for b in('','&')]
    for callee,br,asg in forms:
        def th(callee=callee,br=br,asg=asg):
            it,st,G=mk(chk,E); con=it.contracts[0]
            # the multiplication itself is what is verified: everything else of the group goes through its contract
            it.contracts[0]=lambda it,st,fr,q,args,argts:None if name_of(q)[2] in('mul','mul_assign') else con(it,st,fr,q,args,argts)
            s=G.bits('s'); P=G.base('P'); s_fe=s
            a=[it.alloc(st,v) if r=='r' else v for v,r in zip((P,s),br)]
            T=[tp(E),tp(S)]
            outs=it.invoke(st,Frame(0,None,{}),callee,a,[('ref',t) if r=='r' else t for t,r in zip(T,br)],tp(E))
            bad=[]
            if not outs: bad=['no outcome']
            for s2,v in outs:
                if asg: v=it.deref(s2,a[0])
                v=G.gp(v)
                if not v.same(P.mul(s_fe)): bad.append('is '+str(v)[:200])
            chk.ob(callee,callee,fw.REFUTED if bad else fw.PROVED,'mirv-poly (coefficient = sum of 2^i * bit_i)',0,'; '.join(bad))
            if it.panics: chk.ob(callee+'.nopanic',callee,fw.REFUTED,'mirv',0,str(it.panics[0][:3]))
            chk.absorb(it)
        chk.attempt(callee,callee,th)
def mexp(chk,E,n,cpus,rev=False,zero_high=0):
    name=f'multiexp<{E}>[len={n},cpus={cpus}{",reverse spawn order" if rev else ""}]'; S=CURVES[E][1]
    def th():
        it,st,G=mk(chk,E); it.ghost_cpus=cpus; it.merge=True; it.spawn_rev=rev; it.ctx.maxbool=8
        cs=[G.bits(f's{i}') for i in range(n)]; bs=[G.base(f'P{i}') for i in range(n)]
        want=G.zero()
        for c,b in zip(cs,bs): want=want.add(b.mul(c))
        outs=it.invoke(st,Frame(0,None,{}),f'util::multiexp::<{S}, {E}>',[vec_ref(it,st,cs),vec_ref(it,st,bs)],[slc(tp(S)),slc(tp(E))],tp(E))
        bad=[] if outs else ['no outcome']
        for s2,v in outs:
            if not G.gp(v).same(want): bad.append('wrong sum '+str(v)[:160])
        if it.panics: bad.append('panics '+str(it.panics[0][:3]))
        chk.ob(name,'util::multiexp',fw.REFUTED if bad else fw.BOUNDED,'mirv-poly',0,'; '.join(bad),bound=f'lengths and processor counts listed; all scalars and bases')
        chk.absorb(it)
    chk.attempt(name,'util::multiexp',th,bound='listed lengths')
def run():
    chk=fw.Check('C06','other')
    for E in CURVES: scalar_mul(chk,E)
    cases=[(0,1),(1,1),(2,1),(3,2),(5,4),(4,4),(7,2)]
    if chk.thorough: cases+=[(8,7),(9,4),(11,3),(16,8),(17,16),(33,1),(40,1),(56,1),(64,2),(70,2)]
    else: cases+=[(16,3),(33,1)]
    for n,c in cases: mexp(chk,'Ec0',n,c)
    mexp(chk,'Ec0',5,2,True); mexp(chk,'Ec1',5,2); mexp(chk,'Ec1',3,8)
    it,st,G=mk(chk,'Ec0'); s=G.bits('s'); P=G.base('P')
    chk.canary('shifted scalar rejected',not P.mul(s).same(P.mul(s*2)))
    chk.assumptions+=['scoped threads: closures borrow disjoint data (enforced by the borrow checker), so complete executions in program order (and once in reverse) represent every schedule','group of prime order r (C04) and group law (C05)','f64 ln/ceil of the bucket width modelled with IEEE doubles']
    return chk.finish(conc.search_c06)
