#!/usr/bin/env python3
"""Plants one bug: mkseed.py SPEC.py  -- SPEC defines id, prop, edits=[(file,old,new)], needs, breaks, demo (C++), sources.
Confirms: applies to HEAD, builds, stable tests pass, demo 0 before / nonzero after. Then (with --check) runs checks."""
import sys, os, subprocess, json, shutil, re
REPO="/repo"; V="/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO_SH='''#!/bin/bash
# run in the repository root; compiles demo.cpp against the tree and runs it
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
I="-Isrc/include -Isrc/pdaaal-bin -I$D/shim -I$D"
%(pre)sg++ -std=gnu++20 -w -O0 -D_GLIBCXX_ASSERTIONS $I "$D/demo.cpp" %(src)s -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set %(libs)s -o "$T/demo" || exit 2
cd "$T"; %(env)stimeout 120 ./demo
'''
def main():
    spec={}; exec(open(sys.argv[1]).read(), spec)
    sid=spec["id"]; d=f"{V}/seeded/{sid}"
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    for f,old,new in spec["edits"]:
        p=f"{REPO}/src/{f}"; t=open(p,newline='').read()
        crlf='\r\n' in t
        if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
        if t.count(old)!=1: sh("git -C /repo checkout -- ."); print("old text occurs",t.count(old),"times in",f); sys.exit(1)
        open(p,'w',newline='').write(t.replace(old,new))
    diff=subprocess.run("git -C /repo diff",shell=True,stdout=subprocess.PIPE).stdout
    sh("git -C /repo checkout -- .")
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+"/patch.diff","wb").write(diff)
    shutil.copytree(V+"/shim",d+"/shim")
    open(d+"/demo.cpp","w").write(spec["demo"])
    src=" ".join("src/include/pdaaal/"+s for s in spec.get("sources",["internal/PDA.cpp"]))+" "+" ".join(spec.get("binsources",[]))
    pre=env=""
    if spec.get("cli"):
        pre='''printf '#define PDAAAL_VERSION_STR "0"\\n#define PDAAAL_GIT_HASH_STR "0"\\n' > "$T/version.h"
g++ -std=gnu++20 -w -O0 -D_GLIBCXX_ASSERTIONS $I -I"$T" src/pdaaal-bin/main.cpp src/pdaaal-bin/parsing/Parsing.cpp src/include/pdaaal/internal/PDA.cpp src/include/pdaaal/internal/Reducer.cpp src/include/pdaaal/parsing/NfaParser.cpp -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set -lboost_program_options -o "$T/pdaaal" || exit 2
'''
        env='PDAAAL="$T/pdaaal" '
    open(d+"/demo.sh","w").write(DEMO_SH%dict(src=src,libs=spec.get("libs",""),pre=pre,env=env)); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":spec["prop"],"needs":spec["needs"],"what_it_breaks":spec["breaks"]},open(d+"/meta.json","w"),indent=1)
    r=sh(f"cd /repo && bash {d}/demo.sh"); 
    if r.returncode: print("DEMO FAILS ON UNCHANGED TREE",r.returncode,r.stdout[-3000:]); sys.exit(1)
    a=sh(f"git -C /repo apply {d}/patch.diff")
    try:
        if a.returncode: print("apply failed",a.stdout); sys.exit(1)
        b=sh("bash /opt/vp/build.sh"); 
        if b.returncode: print("BUILD FAILED",b.stdout[-3000:]); sys.exit(1)
        sh("bash /opt/vp/test.sh /tmp/w/seed_o.json"); o=json.load(open("/tmp/w/seed_o.json"))
        base=json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss=[t for t in base if t not in o["passed"]]
        if miss: print("STABLE TESTS FAIL",miss); shutil.rmtree(d); sys.exit(1)
        r=sh(f"cd /repo && bash {d}/demo.sh")
        if r.returncode==0: print("DEMO PASSES WITH THE PATCH",r.stdout); sys.exit(1)
        print(sid,"ok; demo rc with patch",r.returncode, r.stdout.strip()[-300:])
        for c in sys.argv[2:]:
            r=sh(f"cd {V} && python3 vf.py {c} --tier quick"); L=r.stdout.strip().splitlines()
            print("  check",c,"rc",r.returncode, "CAUGHT" if r.returncode==1 and f"VIOLATION property={c}" in r.stdout else "", L[-1][:200] if L else "")
    finally:
        sh("git -C /repo checkout -- .")
main()
