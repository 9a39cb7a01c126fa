"""Type strings of MIR -> small normalized trees."""
import re
from functools import lru_cache
from .parse import split_top, match_close, MirError

@lru_cache(maxsize=None)
def pt(s):
    """parse type"""
    s=s.strip()
    if s.startswith('&'):
        t=s[1:].strip()
        t=re.sub(r"^'\w+ ",'',t)
        if t.startswith('mut '): t=t[4:]
        return ('ref',pt(t))
    if s.startswith('*const ') or s.startswith('*mut '): return ('ref',pt(s.split(' ',1)[1]))
    if s.startswith('('):
        return ('tuple',)+tuple(pt(x) for x in split_top(s[1:match_close(s,0)]))
    if s.startswith('['):
        ps=split_top(s[1:match_close(s,0)],';')
        if len(ps)==2: return ('array',pt(ps[0]),ps[1].strip())
        return ('slice',pt(ps[0]))
    if s.startswith('{closure') : return ('closure',s[:match_close(s,0)+1])
    if s.startswith(('dyn ','impl ','fn(','for<','unsafe ','extern ')): return ('other',s)
    if s=='!' : return ('never',)
    if s.startswith('<'):
        j=match_close(s,0); inner=s[1:j]; rest=s[j+1:]
        k=_find_as(inner)
        if k is None:
            segs=[x for x in rest.split('::') if x]
            return ('proj',pt(inner),None,segs[0] if segs else '')
        a=pt(inner[:k]); tr=pt(inner[k+4:])
        rest=rest.lstrip(':')
        segs=split_path(rest)
        if len([x for x in segs if not x.startswith('<')])>1: return pt('::'.join(segs))   # an item declared inside a method
        t=('proj',a,tr,strip_gen(segs[0]) if segs else '')
        return t
    segs=split_path(s)
    last=segs[-1]
    # drop turbofish segments
    args=()
    if last.startswith('<') and len(segs)>1:
        base=segs[-2]; ga=last
        args=_genargs(ga); last=base
    elif '<' in last:
        i=last.index('<'); args=_genargs(last[i:]); last=last[:i]
    return ('path',last,args)
def _genargs(g):
    out=[]
    for x in split_top(g[1:match_close(g,0)]):
        if x.startswith("'"): continue
        if re.match(r'^\w+ = ',x): continue
        out.append(pt(x))
    return tuple(out)
def _find_as(s):
    d=0;i=0
    while i<len(s):
        c=s[i]
        if c in '<([{': d+=1
        elif c in ')]}': d-=1
        elif c=='>' and s[i-1] not in '-=': d-=1
        elif d==0 and s.startswith(' as ',i): return i
        i+=1
    return None
def split_path(s): return list(_split_path(s))
@lru_cache(maxsize=None)
def _split_path(s):
    out=[];d=0;cur='';i=0
    while i<len(s):
        c=s[i]
        if c in '<([{': d+=1
        elif c in ')]}' : d-=1
        elif c=='>' and s[i-1] not in '-=': d-=1
        if d==0 and s.startswith('::',i):
            out.append(cur);cur='';i+=2;continue
        cur+=c;i+=1
    out.append(cur)
    return tuple(out)
def strip_gen(x):
    i=x.find('<')
    return x if i<=0 else x[:i]

def is_generic(n): return bool(re.fullmatch(r'[A-Z][A-Z0-9]*',n)) or n in('Self','Inner')

def subst(t,env,assoc):
    k=t[0]
    if k=='path':
        n,args=t[1],t[2]
        if not args and n in env: return env[n]
        return ('path',n,tuple(subst(a,env,assoc) for a in args))
    if k in('ref','slice'): return (k,subst(t[1],env,assoc))
    if k=='array': return (k,subst(t[1],env,assoc),t[2])
    if k=='tuple': return ('tuple',)+tuple(subst(a,env,assoc) for a in t[1:])
    if k=='proj':
        a=subst(t[1],env,assoc)
        r=assoc(a,t[3])
        if r is not None: return r
        return ('proj',a,t[2],t[3])
    return t

def unify(pat,t,env):
    """bind generic names in pat to parts of t (best effort)"""
    if pat[0]=='path' and not pat[2] and is_generic(pat[1]):
        env.setdefault(pat[1],t); return
    if pat[0]!=t[0]: 
        return
    if pat[0]=='path':
        if pat[1]==t[1]:
            for a,b in zip(pat[2],t[2]): unify(a,b,env)
    elif pat[0] in('ref','slice','array'): unify(pat[1],t[1],env)
    elif pat[0]=='tuple':
        for a,b in zip(pat[1:],t[1:]): unify(a,b,env)

def matches(pat,t):
    """can pattern type (with generics) match t?"""
    if pat[0]=='path' and not pat[2] and is_generic(pat[1]): return True
    if t[0]=='path' and not t[2] and is_generic(t[1]): return True
    if t[0]=='proj' or pat[0]=='proj': return True
    if t[0]=='closure' and pat[0]=='closure': return t[1]==pat[1]
    if pat[0]!=t[0]: return False
    if pat[0]=='path':
        if pat[1]!=t[1]: return False
        if len(pat[2])!=len(t[2]): return True
        return all(matches(a,b) for a,b in zip(pat[2],t[2]))
    if pat[0] in('ref','slice'): return matches(pat[1],t[1])
    if pat[0]=='array': return matches(pat[1],t[1])
    if pat[0]=='tuple': return len(pat)==len(t) and all(matches(a,b) for a,b in zip(pat[1:],t[1:]))
    return True

def show(t):
    k=t[0]
    if k=='path': return t[1]+('<'+','.join(show(a) for a in t[2])+'>' if t[2] else '')
    if k=='ref': return '&'+show(t[1])
    if k=='slice': return '['+show(t[1])+']'
    if k=='array': return '['+show(t[1])+';'+t[2]+']'
    if k=='tuple': return '('+','.join(show(a) for a in t[1:])+')'
    if k=='proj': return f'<{show(t[1])}>::{t[3]}'
    return str(t[1:])
