#!/usr/bin/env python3
"""Plants bugs: python3 notes/plant.py FILE [ID...]. FILE defines BUGS = [dict(id, prop, edits=[(old,new)...], demo, needs, breaks, flags, libs)].
For each: patch made in a scratch worktree, demo must pass without and fail with it, then (with the patch applied to /repo)
build + stable tests must pass, and the property's check is run. A confirmed one is written to /verif/seeded/<id>/."""
import os, subprocess, sys, json, tempfile, shutil, runpy
V='/verif'; R='/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO='''#!/bin/bash
# builds demo.cpp against the header of the current directory and runs it
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
g++ -std=c++17 -O1 -w -I"$PWD" %s -o "$D/demo" "$(dirname "$0")/demo.cpp" %s || exit 3
timeout 60 "$D/demo"
'''
HEAD='''%s#include "homog2d.hpp"
#include <cstdio>
#include <cmath>
using namespace h2d;
#define CHECK(c) do { if( !(c) ) { std::printf("failed line %%d: %%s\\n",__LINE__,#c); return 1; } } while(0)
#define NEAR(a,b) CHECK( std::fabs((double)(a)-(double)(b))<1e-6 )
int main()
{
%s
	return 0;
}
'''
def main():
    ns=runpy.run_path(sys.argv[1]); sel=[x for x in sys.argv[2:] if x!='-n']; src=open(R+'/homog2d.hpp').read()
    assert not sh('git -C /repo status --porcelain -uno').stdout.strip(), 'dirty /repo'
    for b in ns['BUGS']:
        if sel and b['id'] not in sel: continue
        s=src; bad=None
        for o,n in b['edits']:
            if s.count(o)!=1: bad='edit matches %d: %s'%(s.count(o),o[:60]); break
            s=s.replace(o,n)
        if bad: print(b['id'],'BAD',bad); continue
        w=tempfile.mkdtemp(prefix='plant'); d=w+'/d'; os.makedirs(d)
        flags=b.get('flags',''); libs=b.get('libs','')
        open(d+'/demo.sh','w').write(DEMO%(flags,libs)); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo.cpp','w').write(HEAD%(b.get('pre',''),'\t'+b['demo'].strip().replace('\n','\n\t')))
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        r=sh('bash %s/demo.sh'%d,cwd=R)
        if r.returncode!=0: print(b['id'],'BAD demo fails on clean tree',r.returncode,(r.stdout+r.stderr)[-600:]); shutil.rmtree(w); continue
        try:
            open(R+'/homog2d.hpp','w').write(s)
            open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
            r=sh('bash %s/demo.sh'%d,cwd=R)
            if r.returncode in (0,3): print(b['id'],'BAD demo with patch rc',r.returncode,(r.stdout+r.stderr)[-600:]); continue
            ok='tests skipped'
            if not b.get('notest') and '-n' not in sys.argv:
                x=sh('bash /opt/vp/build.sh'); t=sh('bash /opt/vp/test.sh %s/o.json'%w); j=json.load(open(w+'/o.json')); ok='build rc %d, failed %s'%(x.returncode,j.get('failed'))
                if x.returncode or j.get('failed'): print(b['id'],'BAD',ok); continue
            c=sh('timeout 900 python3 run.py '+b['prop'],cwd=V); v=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            print(b['id'],b['prop'],'CAUGHT' if c.returncode==1 and v else 'MISSED rc=%d'%c.returncode, ok, [l.strip() for l in c.stdout.splitlines() if 'violated' in l][:1], c.stdout.strip().splitlines()[0][:160] if 0 else '', flush=True)
            o=V+'/seeded/'+b['id']; shutil.rmtree(o,ignore_errors=True); shutil.copytree(d,o)
        finally:
            sh('git -C /repo checkout -- .'); shutil.rmtree(w,ignore_errors=True)
main()
