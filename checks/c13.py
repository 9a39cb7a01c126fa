"""C13: SHA-256.  Words are hash-consed terms; UInt32 operations are used through their C12 contracts, the compression
function through the contract proved for it here.  The block loop over an arbitrary number of blocks is one generic step."""
from checks.c11 import *
from mirv.interp import Run, has_run
M32=0xffffffff
K=[];IVS=[]
def _consts():
    # FIPS 180-4: fractional parts of cube/square roots of the first primes (integer arithmetic)
    ps=[p for p in range(2,400) if all(p%q for q in range(2,p))][:64]
    def root(n,k):
        lo,hi=0,1<<((n.bit_length()//k)+2)
        while lo<hi:
            m=(lo+hi+1)//2
            if m**k<=n: lo=m
            else: hi=m-1
        return lo
    return [root(p<<96,3)&M32 for p in ps],[root(p<<64,2)&M32 for p in ps[:8]]
K,IVS=_consts()
class Terms:
    """hash-consed 32-bit word terms in normal form; a term is an int id, constants are ('k',v)"""
    def __init__(s): s.t=[]; s.ix={}
    def mk(s,*k):
        if k not in s.ix: s.ix[k]=len(s.t); s.t.append(k)
        return s.ix[k]
    def k(s,v): return s.mk('k',v&M32)
    def c(s,i): return s.t[i][1] if s.t[i][0]=='k' else None
    def add(s,xs):
        c=0; l=[]
        for x in xs:
            k=s.t[x]
            if k[0]=='k': c+=k[1]
            elif k[0]=='add': c+=k[1]; l+=k[2:]
            else: l.append(x)
        c&=M32
        if not l: return s.k(c)
        if len(l)==1 and c==0: return l[0]
        return s.mk('add',c,*sorted(l))
    def xor(s,xs):
        c=0; l=[]
        for x in xs:
            k=s.t[x]
            if k[0]=='k': c^=k[1]
            elif k[0]=='xor': c^=k[1]; l+=k[2:]
            else: l.append(x)
        r=[]
        for x in sorted(l):
            if r and r[-1]==x: r.pop()
            else: r.append(x)
        if not r: return s.k(c)
        if len(r)==1 and c==0: return r[0]
        return s.mk('xor',c,*r)
    def rotr(s,x,n):
        n%=32
        if n==0: return x
        c=s.c(x)
        if c is not None: return s.k(c>>n|c<<(32-n))
        k=s.t[x]
        if k[0]=='rotr': return s.rotr(k[1],k[2]+n)
        return s.mk('rotr',x,n)
    def shr(s,x,n):
        n%=32
        if n==0: return x
        c=s.c(x)
        return s.k(c>>n) if c is not None else s.mk('shr',x,n)
    def ch(s,a,b,c):
        v=[s.c(x) for x in(a,b,c)]
        if None not in v: return s.k(v[0]&v[1]^(~v[0]&v[2]))
        return s.mk('ch',a,b,c)
    def maj(s,a,b,c):
        v=[s.c(x) for x in(a,b,c)]
        if None not in v: return s.k(v[0]&v[1]^v[0]&v[2]^v[1]&v[2])
        return s.mk('maj',*sorted((a,b,c)))
    def frombits(s,bs):
        """bits most significant first"""
        if all(b[0]=='c' and isinstance(b[1],int) for b in bs):
            v=0
            for b in bs: v=2*v+b[1]
            return s.k(v)
        if all(b[0]=='bit' for b in bs) and len({b[1] for b in bs})==1 and [b[2] for b in bs]==list(range(31,-1,-1)): return bs[0][1]
        return s.mk('word',tuple(bs))
    def bitof(s,x,i):
        """bit i (0 = least significant)"""
        k=s.t[x]
        if k[0]=='k': return('c',k[1]>>i&1)
        if k[0]=='word': return k[1][31-i]
        return('bit',x,i)
class W(Dom):
    def __init__(s,t): s.t=t
class B(Dom):
    def __init__(s,t): s.t=t
def ref_compress(T,block,h):
    """FIPS 180-4 6.2.2"""
    w=[T.frombits(block[32*i:32*i+32]) for i in range(16)]
    for i in range(16,64):
        s0=T.xor([T.rotr(w[i-15],7),T.rotr(w[i-15],18),T.shr(w[i-15],3)]); s1=T.xor([T.rotr(w[i-2],17),T.rotr(w[i-2],19),T.shr(w[i-2],10)])
        w.append(T.add([s1,w[i-7],s0,w[i-16]]))
    a,b,c,d,e,f,g,hh=h
    for i in range(64):
        t1=T.add([hh,T.xor([T.rotr(e,6),T.rotr(e,11),T.rotr(e,25)]),T.ch(e,f,g),T.k(K[i]),w[i]])
        t2=T.add([T.xor([T.rotr(a,2),T.rotr(a,13),T.rotr(a,22)]),T.maj(a,b,c)])
        hh,g,f,e,d,c,b,a=g,f,e,T.add([d,t1]),c,b,a,T.add([t1,t2])
    return [T.add([x,y]) for x,y in zip(h,(a,b,c,d,e,f,g,hh))]
def contracts(T,g,top):
    """C12 contracts of UInt32 over terms; with top, also the compression contract"""
    def wterm(it,st,x):
        x=it.deref(st,x) if isinstance(x,Ref) else x
        if not isinstance(x,W): raise MirError(f'not a word term: {x}')
        return x.t
    def bterm(it,st,x):
        x=it.deref(st,x) if isinstance(x,Ref) else x
        if isinstance(x,B): return x.t
        if isinstance(x,Agg) and x.k=='Boolean' and x.v==2:
            c=x.f[0]; return('c',c.const if c.const is not None else pkey(c.p))
        raise MirError(f'not a Boolean term: {x}')
    def con(it,st,fr,q,args,argts):
        m=q[4]; ok=lambda v:[(st,Agg('Result',(W(v),),0))]
        if q[0]=='trait' and m in('clone','to_owned') and len(args)==1:
            v=it.deref(st,args[0]) if isinstance(args[0],Ref) else args[0]
            return [(st,v)] if isinstance(v,(W,B)) else None
        if q[0]!='path': return None
        if top and m=='sha256_compression_function':
            it.used_contracts.add('sha256_compression_function')
            b=it.deref(st,args[1]); h=it.deref(st,args[2])
            hs=[wterm(it,st,x) for x in h.f]
            if has_run(b):
                if len(b.f)!=1: raise MirError('part of an opaque run')
                key=('run',b.f[0].name)
            else:
                key=tuple(bterm(it,st,x) for x in b.f)
                if len(key)!=512: it.panics.append((fr.fn.name,'block length',('cex',{}),dict(st.assume),list(st.pc))); return []
            if len(hs)!=8: it.panics.append((fr.fn.name,'chaining value length',('cex',{}),dict(st.assume),list(st.pc))); return []
            return [(st,Agg('Result',(Agg('Vec',[W(T.mk('comp',i,key,*hs)) for i in range(8)]),),0))]
        if not any(x=='UInt32' for x in q[5]): return None
        it.used_contracts.add('UInt32::'+m+' (C12)')
        if m=='constant': return [(st,W(T.k(args[0].const)))] if args[0].const is not None else None
        if m in('rotr','shr'): return [(st,W(getattr(T,m)(wterm(it,st,args[0]),args[1].const)))]
        if m=='xor': return ok(T.xor([wterm(it,st,args[0]),wterm(it,st,args[2])]))
        if m in('sha256_ch','sha256_maj'): return ok(getattr(T,m[7:])(*[wterm(it,st,x) for x in args[1:]]))
        if m=='addmany':
            xs=[wterm(it,st,x) for x in it.deref(st,args[1]).f]
            if not 2<=len(xs)<=10: it.panics.append((fr.fn.name,'addmany of %d words'%len(xs),('cex',{}),dict(st.assume),list(st.pc))); return []
            return ok(T.add(xs))
        if m in('from_bits_be','from_bits'):
            bs=[bterm(it,st,x) for x in it.deref(st,args[0]).f]
            if len(bs)!=32: it.panics.append((fr.fn.name,'word length',('cex',{}),dict(st.assume),list(st.pc))); return []
            return [(st,W(T.frombits(bs if m=='from_bits_be' else bs[::-1])))]
        if m in('into_bits_be','into_bits'):
            t=wterm(it,st,args[0]); r=range(31,-1,-1) if m=='into_bits_be' else range(32)
            return [(st,Agg('Vec',[B(T.bitof(t,i)) for i in r]))]
        return None
    return con
def run():
    chk=fw.Check('C13')
    def gad(top,F):
        g=Gad(chk.mir,F); g.it.ctx.bitmode=True; T=Terms(); g.it.contracts.insert(0,contracts(T,g,top)); return g,T
    def bits(outs):
        return [x.t if isinstance(x,B) else ('c',x.f[0].const) for x in outs]
    def obl(name,fn,body):
        def th():
            t=time.time(); bad=[]; its=body(bad)
            for it in its:
                bad+=[f'panics {x[:2]}' for x in it.panics[:1]]; chk.absorb(it)
            chk.ob(name,fn,fw.REFUTED if bad else fw.PROVED,'mirv-term normal form',time.time()-t,'; '.join(bad[:3]))
        chk.attempt(name,fn,th)
    def noc(g,s2,bad):
        c=s2.ghost['cs']
        if c.gates or c.lcs or len(c.vars)>1: bad.append('constraints outside the word operations')
    for F in('Fp','Fq'):
        def comp(bad,F=F):
            its=[]
            for kind in('symbolic','constant chaining value'):
                g,T=gad(False,F); st=g.st; blk=[('b',i) for i in range(512)]
                h=[T.mk('h',i) for i in range(8)] if kind=='symbolic' else [T.k(v) for v in IVS]
                a=[g.it.alloc(st,Agg('array',[B(b) for b in blk])),g.it.alloc(st,Agg('array',[W(x) for x in h]))]
                outs=g.run(f'sha256_compression_function::<{F}, Rec>',[Agg('Rec',())]+a,[REC,REFT(('slice',BO)),REFT(('slice',tp('UInt32')))],st)
                want=ref_compress(T,blk,h); its.append(g.it)
                if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
                for s2,r in outs:
                    if is_err(r): bad.append('error'); continue
                    got=[x.t for x in r.f[0].f]; noc(g,s2,bad)
                    if got!=want: bad.append(f'compression function differs in word {[i for i in range(8) if i>=len(got) or got[i]!=want[i]]}')
            return its
        obl(f'sha256_compression_function<{F}>','gadgets::sha256::sha256_compression_function',comp)
    def iv(bad):
        g,T=gad(False,'Fp'); outs=g.run('get_sha256_iv',[],[],g.st)
        if len(outs)!=1 or [x.t for x in outs[0][1].f]!=[T.k(v) for v in IVS]: bad.append('initial value differs')
        return [g.it]
    obl('get_sha256_iv','gadgets::sha256::get_sha256_iv',iv)
    def final(T,cur): return [T.bitof(x,i) for x in cur for i in range(31,-1,-1)]
    def compc(T,key,cur): return [T.mk('comp',i,key,*cur) for i in range(8)]
    for F in('Fp','Fq'):
        def block(bad,F=F):
            g,T=gad(True,F); st=g.st; blk=[('b',i) for i in range(512)]
            outs=g.run(f'sha256_block_no_padding::<{F}, Rec>',[Agg('Rec',()),g.it.alloc(st,Agg('array',[B(b) for b in blk]))],[REC,REFT(('slice',BO))],st)
            if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
            for s2,r in outs:
                if is_err(r): bad.append('error'); continue
                noc(g,s2,bad)
                if bits(r.f[0].f)!=final(T,compc(T,tuple(blk),[T.k(v) for v in IVS])): bad.append('block digest differs')
            return [g.it]
        obl(f'sha256_block_no_padding<{F}>','gadgets::sha256::sha256_block_no_padding',block)
        for r in range(0,512,8):
            def msg(bad,F=F,r=r):
                its=[]
                for pre in(False,True):
                    # message of 512k+r bits; k = 0, or any 1 <= k < 2^50 (opaque run of k blocks)
                    g,T=gad(True,F); st=g.st; tail=[('b',i) for i in range(r)]
                    if pre:
                        ka=[g.it.ctx.atom(f'k{j}',0,1,'bit') for j in range(50)]
                        n=I({(a,):512<<j for j,a in enumerate(ka)},0,512*((1<<50)-1),'usize')
                    elems=([Run(n,'M')] if pre else [])+[B(b) for b in tail]
                    outs=g.run(f'sha256::<{F}, Rec>',[Agg('Rec',()),g.it.alloc(st,Agg('array',elems))],[REC,REFT(('slice',BO))],st)
                    its.append(g.it)
                    lbits=[('c',r>>i&1 if not pre or i<9 else pkey({(ka[i-9],):1}) if i-9<50 else 0) for i in range(63,-1,-1)]
                    padn=(-(r+1+64))%512; tb=tail+[('c',1)]+[('c',0)]*padn+lbits
                    cur=[T.k(v) for v in IVS]
                    if pre: cur=compc(T,('run','M'),cur)
                    for i in range(0,len(tb),512): cur=compc(T,tuple(tb[i:i+512]),cur)
                    if len(outs)!=1: bad.append(f'{len(outs)} outcomes')
                    for s2,rr in outs:
                        if is_err(rr): bad.append('error'); continue
                        noc(g,s2,bad)
                        if bits(rr.f[0].f)!=final(T,cur): bad.append(f'digest of a message of {"512k+" if pre else ""}{r} bits differs')
                return its
            obl(f'sha256<{F}>[length = {r} mod 512]','gadgets::sha256::sha256',msg)
    chk.assumptions+=['UInt32 operations satisfy their C12 contracts (words of allocated, negated or constant bits)',
      'message shorter than 2^59 bits','equality of digests is decided in the term algebra of 32-bit words (add, xor, rotate, shift, ch, maj in normal form): equal terms are equal words',
      'the block loop is verified for one generic block of the message prefix (opaque contents and index), hence for every number of blocks']
    from checks.conc4 import search_c13
    return chk.finish(search_c13)
