# mk(id, prop, edits, demo_cpp, needs, breaks): creates seeded dir; edits: [(file, old, new)]
import os,subprocess,json
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R=$(pwd)
g++ -std=c++17 -O0 -g %s -I"$R/include" -I"$R/_build/include" -I/usr/include/hdf5/serial -o "$T/demo" "$H/demo.cpp" "$R/_build/src/libsoftlib.a" -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -lgsl -lgslcblas -lpng -fopenmp -ldl || exit 2
cd "$T" && timeout 120 ./demo
'''
def mk(i,prop,edits,cpp,needs,breaks,flags='',demo=None):
    d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    try:
        for f,o,n in edits:
            p='/repo/'+f; s=open(p).read(); assert s.count(o)==1,(f,o,s.count(o)); open(p,'w').write(s.replace(o,n))
        open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    finally: sh('git -C /repo checkout -- .')
    open(d+'/demo.sh','w').write(demo or DEMO%flags); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(cpp)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
