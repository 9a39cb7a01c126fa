"""Circuits as programs: an opaque Circuit whose synthesize issues a given list of ConstraintSystem calls on whatever
constraint system it is handed (the real one), with symbolic values.  Instructions:
 ('a',val) alloc   ('i',val) alloc_input   ('m',a,b,c) multiply   ('l',((coefficient kind, coefficient FE, var ordinal),...)) enforce_zero
 ('n',) enter a namespace   ('d',) leave it.   Variables are numbered 0 (ONE), 1, 2, ... in the order they are returned."""
from .gad import *
PROG=('path','Prog',()); BK=('path','Bk',())
class Prog:
    def __init__(s,D,ins,wit=True): s.D=D; s.ins=ins; s.wit=wit
    # --- what the program means
    def values(s):
        """values of the variables, inputs, gates (a,b,c values), linear constraints as {ordinal: FE}"""
        D=s.D; v=[D.const(1)]; inp=[D.const(1)]; gates=[]; rows=[{0:D.const(1)}]; inrow=[0]
        for i in s.ins:
            if i[0]=='a': v.append(i[1])
            elif i[0]=='i': inrow.append(len(rows)); inp.append(i[1]); v.append(i[1]); rows.append({len(v)-1:D.const(1)})
            elif i[0]=='m': v+=list(i[1:]); gates.append((len(v)-3,len(v)-2,len(v)-1))
            elif i[0]=='l':
                r={}
                for _,c,x in i[1]: r[x]=r.get(x,D.const(0))+c
                rows.append(r)
        return v,inp,gates,rows,inrow
def ename(i): return 'SynthesisError::AssignmentMissing'
class Circ:
    """contract of <Prog as Circuit>::synthesize"""
    def __init__(s,it,D,prog,wrap='',pre=None): s.it=it; s.D=D; s.prog=prog; s.vars=None; s.wrap=wrap; s.pre=pre; it.contracts.insert(0,s.contract)
    def const1(s,st,t): return s.it.deref(st,s.it.const(st,Frame(0,None,{}),f'<{show(t)} as ConstraintSystem<{s.D.F}>>::ONE'))
    def clo(s,vals):
        def f(it,st,args):
            if not s.prog.wit: return [(st,Agg('Result',(Agg('SynthesisError',(),0),),1))]
            return [(st,Agg('Result',(vals[0] if len(vals)==1 else Agg('tuple',vals),),0))]
        return f
    def ann(s,it,st,args): return [(st,Str('ann'))]
    def contract(s,it,st,fr,q,args,argts):
        if q[0]!='trait' or q[2]!='Circuit' or q[4]!='synthesize' or q[1]!=PROG: return None
        from mirv.types import _genargs
        t=s.it.T(_genargs(q[5][-1])[-1],fr) if q[5] and q[5][-1].startswith('<') else argts[1]
        while t[0]=='ref': t=t[1]
        it.assoc_tab[(t[1],'Root')]=t; it.assoc_tab[('Namespace','Root')]=t
        cs=args[1]
        while isinstance(cs,Ref) and isinstance(it.deref(st,cs),Ref): cs=it.deref(st,cs)
        if s.pre: s.pre(it,st,cs,t)
        if not s.wrap: return s.body(it,st,t,cs)
        outs=[(st,t,cs,())]; t0=t
        for w in s.wrap:
            nx=[]
            for s1,t1,c1,ns in outs:
                if w=='&': nx.append((s1,('ref',t1),it.alloc(s1,c1),ns)); continue
                for s2,r in s.call(s1,t1,'namespace::<String, C>',[c1,s.ann],[('ref',t1),('other','?')]):
                    n=(('path','Namespace',(tp(s.D.F),t0)),it.alloc(s2,r)); nx.append((s2,)+n+((n,)+ns,))
            outs=nx
        res=[]
        for s1,t1,c1,ns in outs:
            for s2,r in s.body(it,s1,t1,c1):
                x=[s2]
                for tn,cn in ns: x=[s4 for s3 in x for s4,_ in it.invoke(s3,Frame(0,None,{}),f'<{show(tn)} as Drop>::drop',[cn],[('ref',tn)])]
                res+=[(s3,r) for s3 in x]
        return res
    def body(s,it,st,t,cs):
        states=[(st,(None,))]
        for ins in s.prog.ins:
            nxt=[]
            for st1,vs in states:
                if vs and isinstance(vs[-1],Agg) and vs[-1].k=='Result': nxt.append((st1,vs)); continue
                if ins[0]=='l':
                    ts=[]
                    for k,c,x in ins[1]: ts.append(Agg('tuple',(s.var(it,st1,t,vs,x),s.co(k,c))))
                    for s2,_ in s.call(st1,t,'enforce_zero',[cs,Agg('LinearCombination',(Agg('Vec',ts),))],[('ref',t),('path','LinearCombination',(tp(s.D.F),))]): nxt.append((s2,vs))
                elif ins[0] in'nd':
                    if ins[0]=='n': r=s.call(st1,t,'push_namespace::<String, C>',[cs,s.ann],[('ref',t),('other','?')])
                    else: r=s.call(st1,t,'pop_namespace',[cs,NONE],[('ref',t),('other','?')])
                    nxt+=[(s2,vs) for s2,_ in r]
                else:
                    m={'a':'alloc','i':'alloc_input','m':'multiply'}[ins[0]]
                    for s2,r in s.call(st1,t,m+'::<F, A, AR>',[cs,s.ann,s.clo(list(ins[1:]))],[('ref',t),('other','?'),('other','?')]):
                        if is_err(r): nxt.append((s2,vs+(r,))); continue
                        nxt.append((s2,vs+(tuple(r.f[0].f) if ins[0]=='m' else (r.f[0],))))
            states=nxt
        outs=[]
        for st1,vs in states:
            if vs and isinstance(vs[-1],Agg) and vs[-1].k=='Result': outs.append((st1,vs[-1]))
            else:
                st1.ghost=dict(st1.ghost); st1.ghost['vars']=(s.one(it,st1,t),)+vs[1:]
                outs.append((st1,Agg('Result',(UNIT,),0)))
        return outs
    def one(s,it,st,t): return it.deref(st,it.const(st,Frame(0,None,{}),f'<{show(t)} as ConstraintSystem<{s.D.F}>>::ONE')) if False else s.it_one(it,st,t)
    def it_one(s,it,st,t):
        v=it.const(st,Frame(0,None,{}),f'<{show(t)} as ConstraintSystem<{s.D.F}>>::ONE')
        v=it.deref(st,v) if isinstance(v,Ref) else v
        return v.f[0] if v.k=='&const' else v
    def var(s,it,st,t,vs,x): return s.it_one(it,st,t) if x==0 else vs[x]
    def co(s,k,c): return Agg('Coeff',(c,),3) if k=='F' else Agg('Coeff',(),{'0':0,'1':1,'-':2}[k])
    def call(s,st,t,m,args,argts): return s.it.invoke(st,Frame(0,None,{}),f'<{show(t)} as ConstraintSystem<{s.D.F}>>::{m}',args,argts)
class Backend:
    """recorder contract for the synthesis Backend trait"""
    def __init__(s,it,D): s.it=it; s.D=D; it.contracts.insert(0,s.contract); it.assoc_tab[('Bk','LinearConstraintIndex')]=('path','usize',())
    def upd(s,st,**k): b=dict(st.ghost['bk']); b.update(k); st.ghost=dict(st.ghost); st.ghost['bk']=b
    def wire(s,v): 
        i=v.f[0]
        if i.const is None: return ('ABC'[v.v],tuple(sorted(i.p.items())))
        return ('ABC'[v.v],i.const)
    def contract(s,it,st,fr,q,args,argts):
        if q[0]!='trait' or q[2]!='Backend' or q[1]!=BK: return None
        b=st.ghost['bk']; m=q[4]; it.used_contracts.add('Backend::'+m+' (recorder)')
        log=lambda e:s.upd(st,log=st.ghost['bk']['log']+(e,))
        D_=lambda a:it.deref(st,a) if isinstance(a,Ref) else a
        if m=='get_var':
            v=b['val'].get(s.wire(D_(args[1]))); return [(st,NONE if v is None else some(v))]
        if m=='set_var':
            outs=[]; w=s.wire(D_(args[2])); an=D_(args[1]).v==1
            if not s.wit:
                log(('set',w,an)); return [(st,Agg('Result',(UNIT,),0))]
            for s2,r in it.call_closure(st,args[3],[]):
                if is_err(r): outs.append((s2,r)); continue
                s.upd(s2,log=s2.ghost['bk']['log']+(('set',w,an),),val={**s2.ghost['bk']['val'],w:s.D.fe(r.f[0],s2)}); outs.append((s2,Agg('Result',(UNIT,),0)))
            return outs
        if m=='new_multiplication_gate': log(('gate',D_(args[1]).v==1)); return [(st,UNIT)]
        if m=='new_linear_constraint': n=b['rows']; s.upd(st,rows=n+1); log(('row',n)); return [(st,CI(n,'usize'))]
        if m=='insert_coefficient':
            y=D_(args[3])
            if y.const is None: raise MirError('row index')
            c=D_(args[2]); c=s.D.const((0,1,-1)[c.v]) if c.v<3 else s.D.fe(c.f[0],st)
            log(('co',y.const,s.wire(D_(args[1])),pkey(c.p))); return [(st,UNIT)]
        if m=='get_for_q': q_=D_(args[1]); return [(st,CI(q_.const-1,'usize'))]
        if m=='new_k_power':
            v=D_(args[2]); q_=D_(args[1]); log(('k',q_.const if q_.const is not None else tuple(sorted(q_.p.items()))))
            s.upd(st,kv=st.ghost['bk']['kv']+((None if v.v==0 else s.D.fe(v.f[0],st)),)); return [(st,Agg('Result',(UNIT,),0))]
        if m in('push_namespace','pop_namespace'): log((m,)); return [(st,UNIT)]
        return None
    wit=True
    def init(s,st): st.ghost=dict(st.ghost); st.ghost['bk']=dict(log=(),val={},rows=0,kv=())
def denote_log(D,bk):
    """(#gates, [row: {wire: coefficient poly}], k rows) of a recorded backend log"""
    g=0; rows=[]; ks=[]; set_=[]
    for e in bk['log']:
        if e[0]=='gate': g+=1
        elif e[0]=='row': rows.append({})
        elif e[0]=='co': r=rows[e[1]]; r[e[2]]=D.add(r.get(e[2],{}),dict(e[3]))
        elif e[0]=='k': ks.append(e[1])
        elif e[0]=='set': set_.append(e[1])
    return g,[{w:c for w,c in r.items() if c} for r in rows],ks,set_
def progs(D,kinds,mk):
    """one program per kind string, mk(D,kinds) -> instructions"""
    for k in kinds: yield k,mk(D,k)
def mkins(D,kind,coefs='F1-0',var=None):
    """instruction list for a kind string such as 'aim l'; every linear constraint mixes all variables so far with all coefficient kinds"""
    ins=[]; nv=1; ci=0; var=var or D.var
    for j,k in enumerate(kind):
        if k=='a': ins.append(('a',var(f'a{j}'))); nv+=1
        elif k=='i': ins.append(('i',var(f'i{j}'))); nv+=1
        elif k=='m': ins.append(('m',)+tuple(var(f'{n}{j}') for n in'lro')); nv+=3
        elif k=='l':
            ts=[]
            for x in list(range(nv))[::-1]+[nv//2]:
                c=coefs[ci%len(coefs)]; ci+=1
                ts.append((c,var(f'k{j}_{ci}') if c=='F' else D.const({'0':0,'1':1,'-':-1}[c]),x))
            ins.append(('l',tuple(ts)))
        elif k=='e': ins.append(('l',()))
        else: ins.append((k,))
    return ins
