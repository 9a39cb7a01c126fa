"""Regenerates the MIR of /repo's current working tree (nightly rustc) and builds the oracle binary that runs the real code."""
import os, subprocess, hashlib, glob, shutil, time, fcntl
REPO=os.environ.get('HALO_REPO','/repo'); VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD=os.path.join(VERIF,'build')
def tree_hash():
    h=hashlib.sha256(b'2')
    for p in sorted(glob.glob(REPO+'/src/**/*.rs',recursive=True))+[REPO+'/Cargo.toml']:
        h.update(p.encode()); h.update(open(p,'rb').read())
    return h.hexdigest()[:20]
def env(tool):
    e=dict(os.environ); e['RUSTUP_TOOLCHAIN']=tool; e['CARGO_NET_OFFLINE']='true'
    e.pop('RUSTFLAGS',None); e.pop('CARGO_TARGET_DIR',None); return e
class BuildError(Exception): pass
def mir():
    os.makedirs(BUILD,exist_ok=True)
    with open(BUILD+'/lock','w') as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        out=f'{BUILD}/mir-{tree_hash()}.txt'
        if os.path.exists(out): return open(out).read()
        td=BUILD+'/mirt'
        for d in glob.glob(td+'/debug/.fingerprint/halo-*'): shutil.rmtree(d)
        r=subprocess.run(['cargo','rustc','--offline','--lib','--manifest-path',REPO+'/Cargo.toml','--target-dir',td,'--','-Zunpretty=mir','-Zmir-enable-passes=-CheckAlignment,-CheckNull'],
                         env=env('nightly'),cwd=REPO,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
        if r.returncode or len(r.stdout)<10000: raise BuildError('MIR dump failed:\n'+r.stderr[-3000:])
        for o in glob.glob(BUILD+'/mir-*.txt'): os.remove(o)
        open(out+'.tmp','w').write(r.stdout); os.rename(out+'.tmp',out)
        return r.stdout
def oracle(hook=False):
    """binary exposing the real functions over a line protocol (used only to look for concrete failing inputs); hook: built with --cfg halo_verif"""
    td=BUILD+('/oracleh' if hook else '/oracle'); os.makedirs(td,exist_ok=True)
    with open(BUILD+'/olock','w') as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        src=os.path.join(VERIF,'oracle')
        e=env('stable')
        if hook: e['RUSTFLAGS']='--cfg halo_verif'
        r=subprocess.run(['cargo','build','--offline','--manifest-path',src+'/Cargo.toml','--target-dir',td],env=e,cwd=src,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
        if r.returncode: raise BuildError('oracle build failed:\n'+r.stderr[-3000:])
    return td+'/debug/oracle'
