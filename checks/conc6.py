"""Concrete replay of C22: the verification circuit on real steps of small parameter size (oracle/src/rec.rs, hook --cfg halo_verif)."""
import subprocess, itertools, concurrent.futures as cf
from checks.conc2 import *
from mirv import build
def ask(b,line,timeout=300):
    try: r=subprocess.run([b],input=line+'\n',stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=timeout).stdout.strip()
    except subprocess.TimeoutExpired: r=''
    return r or 'CRASH-OR-TIMEOUT'
def search_c22(_bad=None,ks=(4,)):
    b=build.oracle(True); q=[]
    for k in ks:
        n={E:len(ask(b,f'{E} {k} names').split('|')) for E in('rEc1','rEc0')}
        for i in range(0,60):
            for E in n: q.append(f'{E} {k} {i}/60')
    ex=cf.ThreadPoolExecutor(8); fs={ex.submit(ask,b,l):l for l in q}
    try:
        for f in cf.as_completed(fs):
            g=f.result()
            if g!='ok': return viol(fs[f],g,'ok: the assignment of the verification circuit is satisfied exactly for the valid step')
    finally: ex.shutdown(wait=False,cancel_futures=True)
    return None
