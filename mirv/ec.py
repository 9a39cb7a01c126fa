"""Abstract curve points over the FE domain: projective coordinates (x*z, y*z, z) with y^2 = x^3+b, z != 0, or (0,w,0)."""
from .dom import *
from . import fw
from checks.refc import CURVES
class EC:
    """one symbolic setting: interpreter with the base field abstract"""
    def __init__(s,mir,E,extra=()):
        s.E=E; s.B,s.S,s.b=CURVES[E]; s.it=Interp(mir); s.st=State(); ds=setup(s.it,s.B,*extra); s.D=ds[0]; s.n=0
        s.T=('path',E,()); s.RT=('ref',s.T); s.pts=[]
    def coords(s,x=None,y=None):
        """affine point on the curve (non-identity); y != 0 because the group has odd order (C04: -b is not a cube)"""
        s.n+=1
        x=s.D.var(f'x{s.n}'); y=s.D.var(f'y{s.n}',nz=True)
        s.D.rules[next(iter(y.p))[0]]=(2,(x*x*x+s.b).p)
        return x,y
    def proj(s,x,y):
        s.n+=1; z=s.D.var(f'z{s.n}',nz=True); return Agg(s.E,[x*z,y*z,z])
    def ident(s):
        s.n+=1; w=s.D.var(f'w{s.n}',nz=True); return Agg(s.E,[s.D.const(0),w,s.D.const(0)])
    def neg(s,P): return Agg(s.E,[P.f[0],-P.f[1],P.f[2]])
    def call(s,callee,args,byref,st=None):
        st=(st or s.st); a=[s.it.alloc(st,v) if r=='r' else v for v,r in zip(args,byref)]
        return s.it.invoke(st,Frame(0,None,{}),callee,a,[s.RT if r=='r' else s.T for r in byref]),a
    def strip(s,p):
        if not p: return p
        while True:
            common=set(next(iter(p)))
            for m in p: common&=set(m)
            c=[a for a in common if a in s.D.nzvars]
            if not c: return s.D.monic(p)
            a=c[0]; q={}
            for m,k in p.items():
                l=list(m); l.remove(a); q[tuple(l)]=k
            p=q
    def nonzero(s,fe,cands,st=None):
        """fe is a non-zero constant times non-zero unknowns times one of the candidates (each known non-zero)"""
        p=s.D.fe(fe).p
        if not p: return False
        t=s.strip(p)
        if len(t)==1 and () in t: return True
        for c in cands:
            if s.strip(s.D.fe(c).p)==t: return True
        if st is not None and s.D.nonzero(st,p): return True
        return None
    # expected results -----------------------------------------------------
    def ex_sum(s,x1,y1,x2,y2):
        d=x2-x1; l=y2-y1; X=l*l-(x1+x2)*d*d; Y=l*(x1*d*d-X)-y1*d*d*d
        return ('aff',X,d*d,Y,d*d*d)
    def ex_dbl(s,x,y):
        d=y*2; l=x*x*3; X=l*l-(x+x)*d*d; Y=l*(x*d*d-X)-y*d*d*d
        return ('aff',X,d*d,Y,d*d*d)
    def check(s,v,exp,cands,st=None):
        """does projective point v denote exp?  -> list of problems"""
        if not (isinstance(v,Agg) and len(v.f)==3): raise MirError('not a point')
        X,Y,Z=[s.D.fe(c) for c in v.f]; bad=[]
        if exp=='O':
            if not Z.iszero(): bad.append('z is not zero')
            if not X.iszero(): bad.append('x is not zero')
            n=s.nonzero(Y,cands,st)
            if not n: bad.append('?y not shown non-zero' if n is None else 'y is zero')
            return bad
        _,nx,dx,ny,dy=exp
        if not (X*dx-nx*Z).iszero(): bad.append('wrong x')
        if not (Y*dy-ny*Z).iszero(): bad.append('wrong y')
        n=s.nonzero(Z,cands,st)
        if not n: bad.append('?z not shown non-zero' if n is None else 'z is zero')
        return bad
