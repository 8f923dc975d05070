#!/usr/bin/env python3
"""bugs.py SPEC.py [name...]: apply each change of SPEC.BUGS to a copy of the repository and run the named checks.
BUGS: list of (name, props, [(file, old, new[, nth])])"""
import sys,subprocess,os,shutil,importlib.util,time
spec=importlib.util.spec_from_file_location('s',sys.argv[1]); s=importlib.util.module_from_spec(spec); spec.loader.exec_module(s)
base=os.environ.get('BASE','/repo')
for name,props,edits in s.BUGS:
    if len(sys.argv)>2 and name not in sys.argv[2:]: continue
    W='/tmp/bugs/'+name
    shutil.rmtree(W,ignore_errors=True)
    subprocess.run(['cp','-a',base,W],check=True)
    ok=True
    for e in edits:
        f,old,new=e[:3]; nth=e[3] if len(e)>3 else None
        p=W+'/'+f; t=open(p).read(); n=t.count(old)
        if n==0 or (n>1 and nth is None): print(name,'edit matches',n,f,repr(old[:50])); ok=False; break
        if nth is None: t=t.replace(old,new)
        else:
            i=-1
            for _ in range(nth): i=t.index(old,i+1)
            t=t[:i]+new+t[i+len(old):]
        open(p,'w').write(t)
    if not ok: continue
    b=subprocess.run('. /opt/vp/env.sh; go build -buildvcs=false ./... 2>&1 | head -5',shell=True,cwd=W,executable='/bin/bash',capture_output=True,text=True)
    if b.stdout.strip(): print(name,'BUILD',b.stdout); continue
    r=[]
    for q in props:
        t0=time.time()
        c=subprocess.run(['bash',os.environ.get('VDIR','/verif')+'/run.sh','check',q,'quick'],env=dict(os.environ,VERIF_REPO=W),capture_output=True,text=True)
        v=[l for l in (c.stdout+c.stderr).splitlines() if l.startswith('  ') and not l.startswith('    ')]
        r.append(f"{q}={c.returncode}({time.time()-t0:.0f}s)")
        if c.returncode==1 and v: print('    ',v[0].strip()[:200])
        elif c.returncode!=0: print('    ',(c.stdout+c.stderr)[-600:])
    print(name,*r,flush=True)
    shutil.rmtree(W)
