#!/usr/bin/env python3
"""Make and try planted bugs: mkseed.py SPECFILE [ids...]

SPECFILE defines SEEDS, a list of dicts: id, prop, edits [(file, old, new)], needs,
what, demo (C++ statements of main plus optional 'pre' for file scope).
Each is applied to /repo, built, tested, demonstrated, checked, and undone again.
Writes /verif/seeded/<id>/ when build+tests+demo confirm the bug (caught or not)."""
import sys, os, subprocess, json, shutil, re
REPO='/repo'; V='/verif'
HEAD='''#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#define CHECK(c) do{ if(!(c)){ std::cerr<<"FAILED: " #c "\\n"; return 1; } }while(0)
#define NEAR(a,b) CHECK(std::fabs((double)(a)-(double)(b))<=1e-9*(1+std::fabs((double)(b))))
'''
DEMO='''#!/bin/bash
# exit 0 when the property holds for the input of demo.cc, nonzero otherwise
src=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -I"$repo/include" -I"$repo/include/gear" -I"$repo/_build" -I"$repo/src/include" "$src/demo.cc" -o "$t/demo" \\
    -L"$repo/_build" %s -lgearxml -lgear %s -Wl,-rpath,"$repo/_build" || exit 3
cd "$t" && timeout 60 ./demo > out.log
rc=$?
tail -3 out.log
exit $rc
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def undo(): sh('git -C /repo checkout -- .')
def build(): return sh('bash /opt/vp/build.sh').returncode==0
def stable_lost():
    sh('bash /opt/vp/test.sh /tmp/o.json')
    b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
    def p(x):
        for k in ('passed','pass','stable'):
            if k in x: return set(x[k] if isinstance(x[k],list) else [])
        return {k for k,v in x.items() if v in('pass','passed',True)}
    return sorted(p(b)-p(o))
def main():
    ns={}; exec(open(sys.argv[1]).read(),ns)
    seeds=ns['SEEDS']; want=sys.argv[2:]
    if want: seeds=[s for s in seeds if s['id'] in want]
    base=sh('git -C /repo log --format=%H --reverse').stdout.split()[0][:8]
    undo(); assert build()
    good=[]
    stage='/tmp/seedstage'; shutil.rmtree(stage,ignore_errors=True)
    for s in seeds:
        d=f'{stage}/{s["id"]}'; os.makedirs(d)
        open(d+'/demo.cc','w').write(HEAD+s.get('inc','')+'\n'+s.get('pre','')+'\nint main(){\n'+s['demo']+'\n return 0; }\n')
        surf='-lgearsurf' if s.get('surf') else ''
        demo=DEMO%(surf,'-lCLHEP' if s.get('surf') else '')
        if s.get('stub'):
            for h in os.listdir(V+'/harness/stub'):
                if h.endswith('.h'): shutil.copy(f'{V}/harness/stub/{h}',d)
            demo=demo.replace('-I"$repo/include" ','-I"$src" -I"$repo/include" ',1)
        if s.get('cga'): demo=demo.replace('-std=c++17','-std=gnu++14')
        open(d+'/demo.sh','w').write(demo)
        r=sh(f'cd /repo && bash {d}/demo.sh')
        if r.returncode: print(s['id'],'DEMO FAILS ON CLEAN TREE',r.returncode,(r.stdout+r.stderr)[-1500:]); continue
        good.append(s)
    for s in good:
        d=f'{stage}/{s["id"]}'; undo(); bad=None
        for f,old,new in s['edits']:
            p=f'{REPO}/{f}'; t=open(p).read()
            if t.count(old)!=1: bad=f'{f}: old text occurs {t.count(old)} times'; break
            open(p,'w').write(t.replace(old,new))
        if bad: print(s['id'],bad); undo(); continue
        diff=sh('git -C /repo diff').stdout
        open(d+'/patch.diff','w').write(diff)
        # removed lines must be original ones
        for f in {e[0] for e in s['edits']}:
            rem=[]
            cur=None
            for l in sh(f'git -C /repo diff -U0 -- {f}').stdout.splitlines():
                m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
                if m:
                    a=int(m[1]); n=int(m[2] or 1); rem+=list(range(a,a+n))
            bl=sh(f'git -C /repo blame -s HEAD -- {f}').stdout.splitlines()
            for i in rem:
                if bl[i-1].lstrip('^')[:7]!=base[:7]: print('  NOTE',s['id'],'changes a line that is not original:',bl[i-1])
        ok=build()
        if not ok: print(s['id'],'DOES NOT BUILD',sh('bash /opt/vp/build.sh').stderr[-1500:]); undo(); continue
        r=sh(f'cd /repo && bash {d}/demo.sh')
        if r.returncode in (0,3): print(s['id'],'DEMO DOES NOT FAIL WITH PATCH',r.returncode,(r.stdout+r.stderr)[-500:]); undo(); continue
        lost=stable_lost()
        if lost: print(s['id'],'TESTS FAIL',lost); undo(); continue
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['what']},open(d+'/meta.json','w'),indent=1)
        shutil.rmtree(f'{V}/seeded/{s["id"]}',ignore_errors=True); shutil.copytree(d,f'{V}/seeded/{s["id"]}')
        res=[]
        for p in [s['prop']]+s.get('also',[]):
            c=sh(f'cd {V} && python3 run.py {p} --jobs 8',timeout=1500)
            res.append(f'{p}:'+('CAUGHT' if c.returncode==1 and f'VIOLATION property={p}' in c.stdout else f'MISSED rc={c.returncode}'))
            if c.returncode not in(0,1): print((c.stdout+c.stderr)[-1500:])
        undo()
        print(s['id'],'seed ok;',' '.join(res),flush=True)
    undo(); build()
main()
