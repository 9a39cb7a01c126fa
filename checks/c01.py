from mirv import fw
from mirv.fieldvc import *
from mirv.interp import *
def ops(chk,F):
    P=MOD[F]; T=('path',F,()); RT=('ref',T)
    def go(name,callee,argk,spec,scale=1,assign=False):
        """argk: string of 'v' (by value) / 'r' (by reference) per operand"""
        def th():
            vc=FieldVC(chk,F); it,st=vc.new()
            args=[];polys=[];tys=[]
            for nm,k in zip('ab',argk):
                a,p=vc.elem(nm); polys.append(p)
                if k=='r': a=vc.ref(a); tys.append(RT)
                else: tys.append(T)
                args.append(a)
            if 'mul' in name or 'square' in name: vc.product_fact(polys[0],polys[-1],P-1,P-1)
            outs=it.invoke(st,Frame(0,None,{}),callee,args,tys)
            if assign: outs=[(s2,it.deref(s2,args[0])) for s2,_ in outs]
            vc.sanity(name,outs,None)
            vc.result(name,callee,outs,spec(it.ctx,*polys),scale,pairs(P,'ab'[:len(argk)]))
            vc.finish()
        chk.attempt(name,callee,th)
    add=lambda c,a,b: padd(a,b); sub=lambda c,a,b: padd(a,b,-1); mul=lambda c,a,b: c.pmul(a,b)
    neg=lambda c,a: pscale(a,-1); dbl=lambda c,a: pscale(a,2); sq=lambda c,a: c.pmul(a,a)
    for nm,sp,sc,k in(('add',add,1,'rr'),('sub',sub,1,'rr'),('mul',mul,R,'rr'),('neg',neg,1,'r'),('double',dbl,1,'r'),('square',sq,R,'r')):
        go(f'{F}.{nm}',f'{F}::{nm}',k,sp,sc)
    go(f'{F}.Field.square',f'<{F} as Field>::square','r',sq,R)
    for tr,m,sp,sc in(('Add','add',add,1),('Sub','sub',sub,1),('Mul','mul',mul,R)):
        for l in 'vr':
            for r in 'vr':
                A=('&' if l=='r' else '')+F; B=('&' if r=='r' else '')+F
                go(f'{F}.{tr}<{A},{B}>.{m}',f'<{A} as {tr}<{B}>>::{m}',l+r,sp,sc)
        for r in 'vr':
            B=('&' if r=='r' else '')+F
            go(f'{F}.{tr}Assign<{B}>.{m}',f'<{F} as {tr}Assign<{B}>>::{m}_assign','r'+r,sp,sc,True)
    for l in 'vr': go(f'{F}.Neg<{l}>',f"<{'&' if l=='r' else ''}{F} as Neg>::neg",l,neg,1)
def eqs(chk,F):
    P=MOD[F]; T=('path',F,()); RT=('ref',T)
    def rel(name,callee,nargs,spec,get=lambda v:v,extra=None):
        def th():
            vc=FieldVC(chk,F); it,st=vc.new(); args=[];polys=[]
            for nm in 'ab'[:nargs]:
                a,p=vc.elem(nm); args.append(vc.ref(a)); polys.append(p)
            outs=it.invoke(st,Frame(0,None,{}),callee,args,[RT]*nargs)
            if not outs: chk.ob(name,callee,fw.REFUTED,'mirv',0,'no outcome')
            D=padd(polys[0],polys[1],-1) if nargs==2 else polys[0]
            vc.sanity(name,outs,None)
            import z3
            for st2,v in outs:
                w=get(v); w=it.sub_assume(st2,w)
                vc.prove(name,callee,lambda tr:(tr(w.p)==1)==((tr(D)==0) if spec else (tr(D)!=0)),lambda env:(it.ctx.evalp(w.p,env)==1)==((it.ctx.evalp(D,env)==0)==spec),st2,pairs(P,'ab'[:nargs])())
            vc.no_panics(name,callee); vc.finish()
        chk.attempt(name,callee,th)
    ch=lambda v:v.f[0]
    rel(f'{F}.ct_eq',f'<{F} as ConstantTimeEq>::ct_eq',2,True,ch)
    rel(f'{F}.eq',f'<{F} as PartialEq>::eq',2,True)
    rel(f'{F}.ne',f'<{F} as PartialEq>::ne',2,False)
    rel(f'{F}.is_zero',f'<{F} as Field>::is_zero',1,True,ch)
def consts(chk,F):
    P=MOD[F]; T=('path',F,())
    def cst(name,callee,args,val,tys=()):
        def th():
            vc=FieldVC(chk,F); it,st=vc.new()
            outs=it.invoke(st,Frame(0,None,{}),callee,args,list(tys),T)
            for st2,v in outs:
                V=vc.val(v,st2); 
                ok=V==pconst(val*R%P)
                chk.ob(name,callee,fw.PROVED if ok else fw.REFUTED,'mirv-eval',0,hex(V.get((),0)) if not ok else '')
            if not outs: chk.ob(name,callee,fw.REFUTED,'mirv',0,'no outcome')
            vc.no_panics(name,callee); vc.finish()
        chk.attempt(name,callee,th)
    cst(f'{F}.zero',f'{F}::zero',[],0); cst(f'{F}.one',f'{F}::one',[],1)
    cst(f'{F}.Field.zero',f'<{F} as Field>::zero',[],0); cst(f'{F}.Field.one',f'<{F} as Field>::one',[],1)
    cst(f'{F}.default',f'<{F} as Default>::default',[],0)
def select(chk,F):
    name=f'{F}.conditional_select'; callee=f'<{F} as ConditionallySelectable>::conditional_select'; P=MOD[F]
    def th():
        vc=FieldVC(chk,F); it,st=vc.new(); T=('path',F,())
        a,pa=vc.elem('a'); b,pb=vc.elem('b'); w=it.ctx.var('w','bool'); w=I(w.p,0,1,'u8')
        vc.vars['w']=[next(iter(w.p))[0]]
        outs=it.invoke(st,Frame(0,None,{}),callee,[vc.ref(a),vc.ref(b),choice(w)],[('ref',T)]*2+[('path','Choice',())])
        for st2,v in outs:
            V=vc.val(v,st2); import z3
            vc.prove(name,callee,lambda tr:tr(V)==z3.If(tr(w.p)==1,tr(pb),tr(pa)),lambda env:it.ctx.evalp(V,env)==(it.ctx.evalp(pb,env) if it.ctx.evalp(w.p,env) else it.ctx.evalp(pa,env)),st2,({**g,'w':k} for g in pairs(P,'ab')() for k in(0,1)))
        vc.no_panics(name,callee); vc.finish()
    chk.attempt(name,callee,th)
def run():
    chk=fw.Check('C01')
    for F in('Fp','Fq'): ops(chk,F); eqs(chk,F); consts(chk,F); select(chk,F)
    chk.assumptions+=['type invariant: every field element holds its canonical limbs (established by each constructor: C01 results, C02 constructors)',
      'u64 products a_i*b_j are abstracted to integer unknowns with their exact ranges plus 0<=ab<=(p-1)^2; the identities are exact over the integers']
    from checks import conc
    return chk.finish(conc.search_c01)
