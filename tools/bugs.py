import os,subprocess,json,sys,shutil
R='/repo'; S='/verif/seeded'
B=[]
def bug(id,prop,f,old,new,needs,what,demo,flags=''):
    B.append(dict(id=id,prop=prop,edits=[(f,old,new)] if isinstance(f,str) else f,needs=needs,what=what,demo=demo,flags=flags))
HEAD='''// exits 0 when the behaviour is right, non-zero otherwise
#include <dstruct.hpp>
#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
'''
SHEAD=HEAD.replace('#include <dstruct.hpp>','#include <dstruct.hpp>\n#include <dstruct-static.hpp>')
exec(open('/tmp/gen/buglist.py').read())
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def clean(): sh('git -C /repo checkout -- .')
sel=sys.argv[1:]
for b in B:
    if sel and b['id'] not in sel: continue
    d=f"{S}/{b['id']}"; os.makedirs(d,exist_ok=True)
    clean()
    ok=True
    for f,old,new in b['edits']:
        p=f'{R}/{f}'; t=open(p).read()
        import re
        toks=old.split()
        rx=r'\s+'.join(re.escape(x) for x in toks)
        m=list(re.finditer(rx,t))
        if len(m)!=1: print(b['id'],'COUNT',len(m)); ok=False; break
        m=m[0]; new2=new.strip() if old.strip()!=old or '\n' in old else new
        open(p,'w').write(t[:m.start()]+new2+t[m.end():])
    if not ok: clean(); continue
    open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    clean()
    open(d+'/demo.cpp','w').write(b['demo'] if '#include <dstruct' in b['demo'] else (SHEAD if 'smemory' in b['demo'] else HEAD)+b['demo'])
    fl=b['flags']
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# run in the root of the source tree
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
g++ -std=c++11 -g -w -fsanitize=address {fl} -I "$PWD" "$here/demo.cpp" -o "$work/demo" || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$work/demo"
''')
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['what']),open(d+'/meta.json','w'),indent=1)
    r0=sh(f'bash {d}/demo.sh',cwd=R)
    a=sh(f'git -C /repo apply {d}/patch.diff')
    t=sh('cd /repo && bash /opt/vp/test.sh /tmp/o.json 2>&1 | grep -c ^PASS').stdout.strip()
    r1=sh(f'bash {d}/demo.sh',cwd=R)
    st='GOOD' if r0.returncode==0 and a.returncode==0 and t=='20' and r1.returncode not in(0,2) else 'BAD'
    chk=''
    if st=='GOOD' and os.environ.get('CHK'):
        import time; s=time.time()
        c=sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py {b['prop']}")
        chk=f"check rc={c.returncode} {time.time()-s:.0f}s "+' | '.join(l for l in c.stdout.splitlines() if 'VIOLATION' in l)[:200]
    clean()
    if chk:
        RP='/tmp/gen/results.json'; rs=json.load(open(RP)) if os.path.exists(RP) else {}
        e=[l for l in c.stdout.splitlines() if 'VIOLATION' in l]
        rs[b['id']]=dict(prop=b['prop'],rc=c.returncode,entry=e[0].split('/')[-1].replace('.replay.sh','') if e else '')
        json.dump(rs,open(RP,'w'),indent=1)
    print(b['id'],b['prop'],st,'demo0',r0.returncode,'apply',a.returncode,'tests',t,'demo1',r1.returncode,chk,flush=True)
    if st=='BAD': shutil.rmtree(d)
    if st=='BAD': print(r0.stdout[-600:] if r0.returncode else '',r1.stdout[-400:])
