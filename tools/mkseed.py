#!/usr/bin/env python3
"""mkseed.py SPEC.py [id…]: makes and verifies seeded bugs from a spec file.
SPEC defines SEEDS: list of dict(id, prop, needs, breaks, edits=[(file, old, new)], test=Go code
(or tests={path-in-repo: code}), pkg="server", race=False)."""
import sys, os, subprocess, json, shutil, runpy, difflib, tempfile
V="/verif"; spec=runpy.run_path(sys.argv[1]); only=set(sys.argv[2:])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
scratch="/tmp/seedwork"; 
DEMO='''#!/bin/bash
# run in the repository root; exit 0: behaves, nonzero: broken
. /opt/vp/env.sh 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
tmp=$(mktemp -d); trap '/bin/rm -rf "$tmp"' EXIT
printf '{"Replace":{%s"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "HARN" "$repo" "$here" > "$tmp/ov.json"
go test RACE-vet=off -count=1 -timeout 120s -overlay "$tmp/ov.json" -run '^TestDemo' ./PKG
'''
for s in spec["SEEDS"]:
    if only and s["id"] not in only: continue
    shutil.rmtree(scratch, ignore_errors=True)
    sh(f"cp -a /repo {scratch}")
    ok=True
    for f,o,n in s["edits"]:
        p=f"{scratch}/{f}"; t=open(p).read()
        if t.count(o)!=1: print(s["id"],"EDIT does not match once:",f,repr(o[:60]),t.count(o)); ok=False; break
        open(p,"w").write(t.replace(o,n))
    if not ok: continue
    diff=sh("git diff",cwd=scratch).stdout
    pkg=s.get("pkg","server")
    d=f"{V}/seeded/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d+"/patch.diff","w").write(diff)
    harn=''
    if pkg=="server":
        shutil.copy(V+"/findings/harness_test.go", d+"/harness_test.go")
        harn='\\"$repo/server/zz_h_test.go\\":\\"$here/harness_test.go\\",'
    test=s["test"]
    if "package " not in test.split("\n")[0]:
        imps=[i for i in ("fmt","io","math","net","os","path/filepath","strconv","strings","sync","testing","time","bytes","syscall","errors","os/exec","sync/atomic","sort")
              if i=="testing" or (i.split("/")[-1]+".") in test]
        m="github.com/IfanTsai/metis/"
        imps+= [m+i for i in ("config","log","datastruct","database","ae","socket","server") if (i+".") in test and i!=pkg]
        if "unix." in test: imps.append("golang.org/x/sys/unix")
        test="package "+s.get("pkgname",pkg.split("/")[-1])+"\n\nimport (\n"+"".join(f'\t"{i}"\n' for i in imps)+")\n\n"+test
    open(d+"/demo_test.go","w").write(test)
    open(d+"/demo.sh","w").write(DEMO.replace("HARN",harn).replace("PKG",pkg).replace("RACE","-race " if s.get("race") else ""))
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
    # verify
    r=sh(f"bash {d}/demo.sh",cwd="/repo")
    a=r.returncode
    r2=sh(f". /opt/vp/env.sh; go build ./... && bash {d}/demo.sh",cwd=scratch)
    msg=[]
    if a!=0: msg.append("DEMO FAILS ON CLEAN: "+r.stdout[-600:]+r.stderr[-300:])
    if r2.returncode==0: msg.append("DEMO PASSES WITH PATCH")
    r3=sh(". /opt/vp/env.sh; go test -count=1 ./... 2>&1 | grep -E 'FAIL|panic|setup' | head -5",cwd=scratch)
    if r3.stdout.strip(): msg.append("TESTS: "+r3.stdout)
    why=[l for l in r2.stdout.split("\n") if "_test.go:" in l or "panic" in l or "DATA RACE" in l or "undefined" in l or "error" in l.lower()][:2]
    print(s["id"],"ok" if not msg else "BAD "+"; ".join(msg),"|",why[:2], r2.stderr[:200] if not why else "",flush=True)
shutil.rmtree(scratch, ignore_errors=True)
