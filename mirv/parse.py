"""Parser for the textual MIR that rustc prints for the real /repo crate."""
import re, os

class MirError(Exception):
    """An unsupported construct / lost anchor: the proof engine cannot speak about the code."""

def split_top(s, sep=','):
    out=[];d=0;cur='';i=0;q=None
    n=len(s)
    while i<n:
        c=s[i]
        if q:
            cur+=c
            if c=='\\': cur+=s[i+1]; i+=1
            elif c==q: q=None
        elif c=='"': q=c;cur+=c
        elif c in '([{': d+=1;cur+=c
        elif c in ')]}': d-=1;cur+=c
        elif c=='<' : d+=1;cur+=c
        elif c=='>' :
            if cur.endswith('-') or cur.endswith('='): cur+=c
            else: d-=1;cur+=c
        elif c==sep and d==0:
            out.append(cur.strip());cur=''
        else: cur+=c
        i+=1
    if cur.strip(): out.append(cur.strip())
    return out

def match_close(s,i):
    """index of the bracket closing s[i]"""
    op=s[i]; cl={'(':')','[':']','{':'}','<':'>'}[op]
    d=0;q=None
    while i<len(s):
        c=s[i]
        if q:
            if c=='\\': i+=1
            elif c==q: q=None
        elif c=='"': q=c
        elif c==op: d+=1
        elif c==cl:
            if cl=='>' and s[i-1] in '-=': pass
            else:
                d-=1
                if d==0: return i
        i+=1
    raise MirError('unbalanced '+s[:80])

# ---------- places
class Place:
    __slots__=('local','proj')
    def __init__(s,l,p): s.local=l;s.proj=p
    def __repr__(s): return f'{s.local}{s.proj}'

def parse_place(s):
    s=s.strip()
    p,rest=_place(s)
    if rest.strip(): raise MirError('place trailing: '+s)
    return p
def _place(s):
    if s[0]=='(':
        j=match_close(s,0)
        inner=s[1:j].strip(); rest=s[j+1:]
        if inner.startswith('*'):
            p,r=_place(inner[1:])
            if r.strip(): raise MirError('deref: '+s)
            p=Place(p.local,p.proj+(('deref',),))
        else:
            p,r=_place(inner)
            r=r.strip()
            if r.startswith('as '):
                p=Place(p.local,p.proj+(('down',r[3:].strip()),))
            elif r.startswith('.'):
                m=re.match(r'\.(\d+)\s*:',r)
                if not m: raise MirError('field: '+s)
                p=Place(p.local,p.proj+(('field',int(m.group(1))),))
            elif r=='': pass
            else: raise MirError('place inner: '+s)
    else:
        m=re.match(r'_\d+',s)
        if not m: raise MirError('place: '+s)
        p=Place(m.group(0),()); rest=s[m.end():]
    while rest[:1]=='[':
        j=match_close(rest,0); ix=rest[1:j]
        if re.fullmatch(r'_\d+',ix): pr=('index',ix)
        else:
            m=re.fullmatch(r'(-?\d+) of (\d+)',ix)
            if m: pr=('cindex',int(m.group(1)),int(m.group(2)))
            else:
                m=re.fullmatch(r'(\d+):(-?\d*)',ix)
                if not m: raise MirError('index: '+ix)
                pr=('sub',int(m.group(1)),m.group(2))
        p=Place(p.local,p.proj+(pr,)); rest=rest[j+1:]
    return p,rest

# ---------- operands / rvalues
def parse_operand(s):
    s=s.strip()
    if s.startswith('copy '): return ('place',parse_place(s[5:]))
    if s.startswith('move '): return ('place',parse_place(s[5:]))
    if s.startswith('const '): return ('const',s[6:].strip())
    if s.startswith('deref_copy '): return ('place',parse_place(s[11:]))
    if re.match(r'^(no_retag )?copy ',s): return ('place',parse_place(s.split('copy ',1)[1]))
    if re.match(r'^(<.*>::\w+|[A-Za-z_]\w*(::.*)?)$',s) and not re.match(r'^_\d+$',s): return ('const','ZeroSized: '+s)
    raise MirError('operand: '+s)

BINOPS={'Add','Sub','Mul','Div','Rem','BitAnd','BitOr','BitXor','Shl','Shr','Eq','Ne','Lt','Le','Gt','Ge',
 'AddWithOverflow','SubWithOverflow','MulWithOverflow','AddUnchecked','SubUnchecked','MulUnchecked','ShlUnchecked','ShrUnchecked','Cmp'}

def parse_rvalue(s):
    s=s.strip()
    if s.startswith('no_retag '): s=s[9:].strip()
    m=re.match(r'^(\w+)\(',s)
    if m and m.group(1) in BINOPS:
        a,b=split_top(s[m.end():-1])
        return ('bin',m.group(1),parse_operand(a),parse_operand(b))
    if m and m.group(1) in ('Not','Neg','PtrMetadata'):
        return ('un',m.group(1),parse_operand(s[m.end():-1]))
    if m and m.group(1)=='Len': return ('len',parse_place(s[m.end():-1]))
    if m and m.group(1)=='discriminant': return ('discr',parse_place(s[m.end():-1]))
    if m and m.group(1)=='CopyForDeref': return ('use',('place',parse_place(s[m.end():-1])))
    if s.startswith('&'):
        t=s[1:].strip()
        for pre in ('raw const ','raw mut ','(fake) ','mut ','fake shallow ','fake ','two_phase '):
            if t.startswith(pre): t=t[len(pre):]
        return ('ref',parse_place(t))
    if s.startswith(('copy ','move ','const ','deref_copy ')):
        m=re.match(r'^(.*) as (.*) \((\w+)(\(.*\))?(, .*)?\)$',s)
        m2=re.match(r'^(.*?) as (.*) \(((?:BoxDerefTransmute|IntToInt|PointerCoercion|Transmute|PtrToPtr|FloatToInt|IntToFloat|FloatToFloat|Subtype|PointerExpose|PointerWith|FnPtr).*)\)$',s)
        if m2 and not s.startswith('const <'):
            return ('cast',parse_operand(m2.group(1)),m2.group(2),m2.group(3))
        return ('use',parse_operand(s))
    if s.startswith('['):
        inner=s[1:match_close(s,0)]
        parts=split_top(inner,';')
        if len(parts)==2: return ('repeat',parse_operand(parts[0]),parts[1].strip())
        return ('array',[parse_operand(x) for x in split_top(inner)])
    if s.startswith('('):
        return ('tuple',[parse_operand(x) for x in split_top(s[1:match_close(s,0)])])
    if s.startswith('{closure@'):
        j=match_close(s,0); cid=s[:j+1]; rest=s[j+1:].strip()
        ops=[]
        if rest.startswith('{'):
            for f in split_top(rest[1:match_close(rest,0)]):
                ops.append(parse_operand(f.split(':',1)[1]))
        return ('closure',cid,ops)
    # aggregates:  Path { f: op } | Path(op..) | Path
    m=re.match(r'^(.*?)\s*\{(.*)\}$',s,re.S)
    if m and not s.endswith(')'):
        names=[];ops=[]
        for f in split_top(m.group(2)):
            k,v=f.split(':',1); names.append(k.strip()); ops.append(parse_operand(v))
        return ('adt',m.group(1).strip(),ops,names)
    if s.endswith(')'):
        # last top-level paren group
        d=0;i=len(s)-1
        while i>=0:
            if s[i]==')': d+=1
            elif s[i]=='(':
                d-=1
                if d==0: break
            i-=1
        return ('adt',s[:i].strip(),[parse_operand(x) for x in split_top(s[i+1:-1])],None)
    if re.match(r'^[\w:<>, &\[\];\'()]+$',s): return ('adt',s,[],None)
    raise MirError('rvalue: '+s)

class Fn:
    def __init__(s): s.name=None;s.params=[];s.ret=None;s.locals={};s.blocks={};s.is_const=False;s.raw=None;s.ctfe=False;s.parsed=False;s.debug={}
    def parse(s):
        if s.parsed: return s
        s.parsed=True
        cur=None
        for ln in s.raw:
            t=ln.strip()
            if cur is None:
                m=re.match(r'^let (mut )?(_\d+): (.*);$',t)
                if m: s.locals[m.group(2)]=m.group(3); continue
                m=re.match(r'^debug (\S+) => (_\d+);$',t)
                if m: s.debug.setdefault(m.group(2),m.group(1)); continue
            m=re.match(r'^(bb\d+)( \(cleanup\))?: \{$',t)
            if m: cur=m.group(1); s.blocks[cur]=[]; continue
            if cur is not None:
                if t=='}': cur=None; continue
                s.blocks[cur].append(parse_stmt(t))
        return s

def parse_stmt(t):
    if t.endswith(';'): t=t[:-1]
    if t.startswith(('StorageLive','StorageDead','FakeRead','PlaceMention','AscribeUserType','ConstEvalCounter','Coverage','nop','Retag','BackwardIncompatibleDropHint')): return ('nop',)
    if t.startswith('goto -> '): return ('goto',t[8:].strip())
    if t=='return': return ('return',)
    if t=='unreachable': return ('unreachable',)
    if t in('resume',) or t.startswith('terminate') : return ('resume',)
    if t.startswith('switchInt('):
        j=match_close(t,9); op=parse_operand(t[10:j]); tg=t[t.index('[',j)+1:t.rindex(']')]
        arms=[];oth=None
        for a in split_top(tg):
            k,v=a.split(':'); k=k.strip(); v=v.strip()
            if k=='otherwise': oth=v
            else: arms.append((int(k),v))
        return ('switch',op,arms,oth)
    if t.startswith('assert('):
        j=match_close(t,6); parts=split_top(t[7:j]); c=parts[0]; neg=False
        if c.startswith('!'): neg=True;c=c[1:]
        m=re.search(r'success: (bb\d+)',t[j:])
        return ('assert',parse_operand(c),neg,parts[1] if len(parts)>1 else '',m.group(1))
    if t.startswith('drop('):
        m=re.search(r'return: (bb\d+)',t); return ('goto',m.group(1))
    if t.startswith('falseEdge') or t.startswith('falseUnwind'):
        m=re.search(r'(?:real|imaginary)?: ?(bb\d+)',t); return ('goto',re.search(r'bb\d+',t).group(0))
    if t.startswith('discriminant('):
        return ('unsup',t)
    if t.startswith('assume('): return ('nop',)
    m=re.match(r'^(.*?) = (.*)$',t,re.S)
    if not m: return ('unsup',t)
    try: dest=parse_place(m.group(1))
    except MirError: return ('unsup',t)
    rhs=m.group(2)
    mm=re.match(r'^(.*) -> (\[return: (bb\d+).*\]|unwind .*|\[unwind.*\]|bb\d+)$',rhs,re.S)
    if mm:
        call=mm.group(1); ret=mm.group(3)
        d=0;i=len(call)-1
        while i>=0:
            if call[i]==')': d+=1
            elif call[i]=='(':
                d-=1
                if d==0: break
            i-=1
        f=call[:i].strip()
        try: args=[parse_operand(x) for x in split_top(call[i+1:-1])]
        except MirError as e: return ('unsup',t)
        return ('call',dest,f,args,ret)
    try: return ('assign',dest,parse_rvalue(rhs))
    except MirError as e: return ('unsup',t+' /* '+str(e)+' */')

class Mir:
    _sf=None
    def struct_fields(s,ty):
        """declaration order of a struct's named fields (MIR projections use that order)"""
        if s._sf is None:
            import os
            s._sf={}
            for d,_,fs in os.walk(s.srcroot+'/src'):
                for f in fs:
                    if not f.endswith('.rs'): continue
                    t=re.sub(r'//[^\n]*','',open(d+'/'+f).read())
                    for m in re.finditer(r'\bstruct (\w+)[^{};(]*\{',t):
                        i=m.end(); dep=1; j=i
                        while dep and j<len(t):
                            dep+=(t[j]=='{')-(t[j]=='}'); j+=1
                        body=re.sub(r'#\[[^\]]*\]','',t[i:j-1])
                        s._sf[m.group(1)]=[re.sub(r'^\s*pub(\([^)]*\))?\s+','',x.strip()).split(':')[0].strip() for x in split_top(body) if ':' in x]
        return s._sf.get(ty)
    def __init__(s,text,srcroot):
        s.fns={};s.consts={};s.srcroot=srcroot;s._src={}
        s.bylast={}
        lines=text.split('\n');i=0;ctfe=False
        while i<len(lines):
            ln=lines[i]
            if ln.startswith('// MIR FOR CTFE'): ctfe=True;i+=1;continue
            m=re.match(r'^(fn|const|static)( mut)? (.*)$',ln)
            if not m: i+=1;continue
            if m.group(1)=='fn' and ln.endswith('{'):
                f=Fn();f.ctfe=ctfe;ctfe=False
                head=m.group(3)[:-1].strip()
                # name up to the parameter list '(_1' or '()'
                k=re.search(r'\((?=_1: |\) ?->|\)$)',head).start()
                f.name=head[:k]; j=match_close(head,k)
                for pr in split_top(head[k+1:j]):
                    a,b=pr.split(':',1); f.params.append((a.strip(),b.strip()))
                r=head[j+1:].strip(); f.ret=r[2:].strip() if r.startswith('->') else '()'
                j=i+1;
                while lines[j]!='}': j+=1
                f.raw=lines[i+1:j]; i=j+1
                if f.ctfe and any(g for g in s.fns.get(f.name,[]) if g.params==f.params): continue
                s.fns.setdefault(f.name,[]).append(f)
                s.bylast.setdefault(f.name.rsplit('::',1)[-1],[]).append(f)
            elif m.group(1) in('const','static'):
                ctfe=False
                rest=m.group(3)
                mm=re.match(r'^(.*?): ((?:[^={]|\{closure[^}]*\})*?) = (.*)$',rest)
                # names contain '::' and 'impl at a:b:c' so split on ': ' right-most sensible
                mm=re.match(r'^(.*): (.*?) = (.*)$',rest)
                f=Fn();f.is_const=True;f.name=mm.group(1);f.ret=mm.group(2)
                body=mm.group(3)
                if body.strip()=='{':
                    j=i+1
                    while lines[j]!='}': j+=1
                    f.raw=lines[i+1:j]; i=j+1
                else:
                    f.raw=None;f.val=body.rstrip(';').strip(); i+=1
                s.consts[f.name]=f
            else: i+=1
    def src(s,path):
        if path not in s._src:
            s._src[path]=open(os.path.join(s.srcroot,path)).read().split('\n')
        return s._src[path]
    def generics(s,name):
        """type parameters, in order, of the function declared in the source"""
        if not hasattr(s,'_gen'):
            import glob
            s._gen={}
            for p in glob.glob(os.path.join(s.srcroot,'src/**/*.rs'),recursive=True):
                t=re.sub(r'//[^\n]*','',open(p).read())
                for m in re.finditer(r'\bfn\s+(\w+)\s*<',t):
                    i=m.end()-1
                    try: j=match_close(t,i)
                    except MirError: continue
                    g=[x.split(':')[0].strip() for x in split_top(t[i+1:j])]
                    g=[x[6:].strip() if x.startswith('const ') else x for x in g if x and not x.startswith("'")]
                    s._gen.setdefault(m.group(1),[]).append((os.path.relpath(p,s.srcroot),g))
        l=s._gen.get(name.split('::')[-1],[])
        if len({tuple(g) for _,g in l})==1: return l[0][1]
        m=re.search(r'<impl at ([^:>]+):',name)
        l=[(p,g) for p,g in l if (m and p==m.group(1)) or (not m and os.path.basename(p)[:-3] in name.split('::'))]
        if len({tuple(g) for _,g in l})==1: return l[0][1]
        return None
    def impl_header(s,name):
        """('inherent',T) | ('trait',Trait,T) | None for a function name with an <impl at ..> segment"""
        m=None
        for m in re.finditer(r'<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>',name): pass
        if not m: return None
        L=s.src(m.group(1)); a,b,c,d=[int(m.group(k)) for k in (2,3,4,5)]
        if a==c: t=L[a-1][b-1:d-1]
        else: t=L[a-1][b-1:]+' '+' '.join(L[a:c-1])+' '+L[c-1][:d-1]
        t=t.strip()
        if not t.startswith(('impl','unsafe impl')):
            # derive: the item that follows
            mm=re.search(r'\b(?:struct|enum)\s+(\w+)',' '.join(L[c-1:c+20])[d-1:])
            ty=None
            if mm:
                rest=' '.join(L[c-1:c+20])[d-1:][mm.end():]
                ty=mm.group(1)
                if rest.startswith('<'):
                    ps=[x.split(':')[0].strip() for x in split_top(rest[1:match_close(rest,0)])]
                    ps=[x for x in ps if x and not x.startswith("'")]
                    if ps: ty+='<'+', '.join(ps)+'>'
            return ('trait',t.split('<')[0].split('::')[-1],ty)
        t=t[t.index('impl')+4:].strip()
        if t.startswith('<'):
            t=t[match_close(t,0)+1:].strip()
        t=re.split(r'\bwhere\b',t)[0]
        mm=re.match(r'^(.*?)\bfor\b(?!\s*<)(.*)$',t)
        if mm:
            tr=mm.group(1).strip(); return ('trait',re.split(r'<',tr)[0].split('::')[-1].strip(),mm.group(2).strip())
        return ('inherent',t.strip())
