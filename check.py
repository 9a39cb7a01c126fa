#!/usr/bin/env python3-vt
import sys, os, importlib, time, ctypes
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
def search(pid):
    for m in('conc','conc2','conc3','conc4','conc5'):
        try: f=getattr(importlib.import_module('checks.'+m),'search_'+pid.lower(),None)
        except ImportError: continue
        if f: return f
def main():
    pid=sys.argv[1]
    if len(sys.argv)>2: os.environ['VERIF_TIER']=sys.argv[2]
    import threading
    from mirv import fw
    threading.stack_size(512*1024*1024)
    rc=[1]
    def go():
        m=importlib.import_module('checks.'+pid.lower())
        try: rc[0]=m.run()
        except Exception as e:
            # the engine itself gave up (e.g. on restructured code): fall back to the concrete search, keeping what was decided so far
            import traceback; traceback.print_exc()
            if fw.PHASE[0]=='done': return
            c=fw.LAST[0] or fw.Check(pid,'other'); c.ob('engine',pid,fw.UNSUPPORTED,'mirv',0,repr(e)); rc[0]=c.finish(search(pid))
    t=threading.Thread(target=go,daemon=True); t0=time.time(); t.start()
    # time limits: proofs are cut off first (undecided obligations), then the concrete search
    k=3 if os.environ.get('VERIF_TIER')=='thorough' else 1
    lim={'prove':float(os.environ.get('PROVE_LIMIT',480))*k,'search':800*k,'done':1e9}; nxt=0
    while t.is_alive():
        t.join(2); now=time.time()-t0
        if now>lim[fw.PHASE[0]] and now>nxt:
            nxt=now+12; ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident),ctypes.py_object(fw.TimeLimit))
        if now>860*k:
            print(f'{pid}: time limit, nothing refuted',flush=True); os._exit(0)
    sys.stdout.flush(); sys.stderr.flush(); os._exit(rc[0])
main()
