#!/usr/bin/env python3
"""mut.py FILE.py [substr…]: applies quick mutations / refactorings to scratch copies and runs the checks on them.
FILE defines MUTS: list of (name, prop or [props], expect, [(file, old, new)…]); expect is 1 (alarm) or 0 (quiet)."""
import sys, os, subprocess, runpy, shutil, concurrent.futures as cf
V="/verif"; spec=runpy.run_path(sys.argv[1]); only=sys.argv[2:]
def run(m):
    name,props,exp,edits=m
    if isinstance(props,str): props=props.split()
    d=f"/tmp/mut/{name}"; shutil.rmtree(d,ignore_errors=True); os.makedirs("/tmp/mut",exist_ok=True)
    subprocess.run(["cp","-a","/repo",d],check=True)
    out=[]
    try:
        for f,o,n in edits:
            p=f"{d}/{f}"; t=open(p).read() if os.path.exists(p) else ""
            if o=="": t+=n
            else:
                if t.count(o)!=1: return f"{name}: EDIT {f} {o[:50]!r} matches {t.count(o)}"
                t=t.replace(o,n)
            open(p,"w").write(t)
        b=subprocess.run(". /opt/vp/env.sh; go build ./... && go vet ./... 2>&1",shell=True,cwd=d,capture_output=True,text=True,executable="/bin/bash")
        if b.returncode: return f"{name}: DOES NOT BUILD {b.stdout[:300]}{b.stderr[:300]}"
        for p in props:
            os.makedirs(f"/tmp/mut/{name}.v/evidence",exist_ok=True)
            shutil.copy(V+"/known_findings.txt",f"/tmp/mut/{name}.v/")
            env=dict(os.environ,METIS_REPO=d,METIS_VERIF_ROOT=f"/tmp/mut/{name}.v")
            r=subprocess.run(f". /opt/vp/env.sh; timeout 850 {V}/checker/metischeck {p}",shell=True,capture_output=True,text=True,env=env,executable="/bin/bash")
            vl=[l for l in r.stdout.split("\n") if " at " in l and ": " in l and l.startswith(p+".")]
            und=[l for l in r.stdout.split("\n") if l.startswith("UNDECIDED")]
            ok = (r.returncode==exp)
            out.append(f"{'ok  ' if ok else 'BAD '} {name} {p} rc={r.returncode} {vl[0][:160] if vl else ''} {('UND '+und[0][:200]) if und else ''}")
    finally:
        shutil.rmtree(d,ignore_errors=True); shutil.rmtree(f"/tmp/mut/{name}.v",ignore_errors=True)
    return "\n".join(out)
ms=[m for m in spec["MUTS"] if not only or any(o in m[0] for o in only)]
with cf.ThreadPoolExecutor(6) as ex:
    for r in ex.map(run,ms): print(r,flush=True)
