import os, subprocess, json, sys
WT='/tmp/wt'; S='/verif/seeded'
DEMO='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
ulimit -c 0
LIB=$(find "$PWD/_build" -name 'libTinyTorch_lib.a' | head -1)
g++ -std=c++17 -O1 -w -I"$PWD/src" -I"$PWD/third_party" "$D/demo.cpp" %s-o "$T/demo" -Wl,--whole-archive "$LIB" -Wl,--no-whole-archive -lpthread || exit 3
cd "$T"
timeout 100 ./demo
rc=$?
echo "demo exit $rc"
exit $rc
'''
PRE='''#include "TinyTorch.h"
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <vector>
using namespace tinytorch;
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { printf("failed: %s (line %d)\\n", #c, __LINE__); bad = 1; } } while (0)
static bool near(double a, double b, double e = 1e-4) { return std::fabs(a - b) <= e; }
'''
def B(id, prop, edits, demo, needs, breaks, extra=''):
    d=f'{S}/{id}'
    os.makedirs(d,exist_ok=True)
    subprocess.run('git checkout -q -- .',shell=True,cwd=WT)
    for f,o,n in edits:
        p=f'{WT}/src/{f}'; s=open(p).read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    df=subprocess.run('git diff',shell=True,cwd=WT,capture_output=True,text=True).stdout
    subprocess.run('git checkout -q -- .',shell=True,cwd=WT)
    open(d+'/patch.diff','w').write(df)
    open(d+'/demo.cpp','w').write(PRE+demo if 'int main' in demo else PRE+'int main() {\n'+demo+'\n  return bad;\n}\n')
    open(d+'/demo.sh','w').write(DEMO%extra)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    print('made',id)
def R(id, edits):
    subprocess.run('git checkout -q -- .',shell=True,cwd=WT)
    for f,o,n in edits:
        p=f'{WT}/src/{f}'; s=open(p).read()
        assert s.count(o)>=1,(id,f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    df=subprocess.run('git diff',shell=True,cwd=WT,capture_output=True,text=True).stdout
    subprocess.run('git checkout -q -- .',shell=True,cwd=WT)
    open(f'/verif/refac/{id}.diff','w').write(df)
    print('made',id)
