#!/usr/bin/env python3
# Mutation survey: small token edits of /repo's headers; those that compile and pass the tests are put to the checks.
# usage: mutate.py WORK [workers] [file-substring]; results in WORK/results.jsonl (one line per mutant)
import sys,os,re,json,subprocess,shutil,random,threading,queue
W=sys.argv[1]; NW=int(sys.argv[2]) if len(sys.argv)>2 else 4; FS=sys.argv[3] if len(sys.argv)>3 else ''
os.makedirs(W,exist_ok=True)
R='/repo'
FILES=[f for f in subprocess.check_output(['git','-C',R,'ls-files'],text=True).split() if re.match(r'(core|memory|port)/.*\.(hpp|h)$',f)]
FILES+=[]
def strip(l): return l.split('//')[0]
OPS=[(r'(?<![<>\-=+&|!])<(?![<=>])(?= )','<='),(r'<=','<'),(r'(?<![\-<>])>(?![>=])(?= [a-z0-9(])','>='),(r'>=','>'),(r'==','!='),(r'!=','=='),
 (r'&&','||'),(r'\|\|','&&'),(r'\+\+','--'),(r'(?<![\-])--','++'),(r'(?<= )\+(?= )','-'),(r'(?<= )-(?= )','+'),(r'(?<= )\*(?= )','/'),(r'(?<= )/(?= )','*'),
 (r'\+=','-='),(r'-=','+='),(r'\b0\b','1'),(r'\b1\b','0'),(r'\b1\b','2'),(r'\b2\b','1'),(r'\b3\b','2'),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'\bleft\b','right'),(r'\bright\b','left'),(r'\bnext\b','prev'),(r'\bprev\b','next'),(r'\bparent\b','left'),
 (r'\bmSize_d\b','mCapacity_d'),(r'\bmCapacity_d\b','mSize_d'),(r'\bmBegin_d\b','mEnd_d'),(r'\bmEnd_d\b','mBegin_d'),(r'begin\(\)','end()'),(r'end\(\)','begin()'),(r'push_back\(','push_front('),(r'push_front\(','push_back('),(r'pop_front\(','pop_back('),(r'pop_back\(','pop_front(')]
M=[]
for f in FILES:
    if FS and FS not in f: continue
    com=False
    for n,l in enumerate(open(f'{R}/{f}').read().split('\n')):
        s=strip(l)
        if com:
            if '*/' in l: com=False
            continue
        if s.strip().startswith('/*'):
            if '*/' not in l: com=True
            continue
        if s.strip().startswith(('#include','#ifndef','#endif','using ','template','namespace','class ','struct ','friend')) or not s.strip(): continue
        seen=set()
        for rx,to in OPS:
            for m in re.finditer(rx,s):
                x=l[:m.start()]+to+l[m.end():]
                if x not in seen: seen.add(x); M.append((f,n,x))
        t=s.strip()
        if t.endswith(';') and not t.startswith(('return','static ','break','friend','typename','mutable')) and not re.match(r'^(const )?[A-Za-z_:<>, ]+[ *&]+\w+( *= .*|\{.*\})?;$',t) and '{' not in t:
            M.append((f,n,l[:len(l)-len(l.lstrip())]+';'))
        if t=='break;' or (t.startswith('return;')): M.append((f,n,';'))
        m=re.search(r'if \((.*)\)( \{| return.*;| break;)?$',t)
        if m:
            for c in ('true','false'): M.append((f,n,l.replace(m.group(1),c,1) if m.group(1) in l else l))
random.seed(7); M=list(dict.fromkeys(M)); random.shuffle(M)
done=set()
RES=f'{W}/results.jsonl'
if os.path.exists(RES):
    for l in open(RES):
        d=json.loads(l); done.add((d['f'],d['n'],d['x']))
M=[m for m in dict.fromkeys(M) if m not in done]
print(len(M),'mutants',flush=True)
anch={}
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)
    for f in p['anchors']['files']: anch.setdefault(f,[]).append(p['id'])
GEN={'core/utils.hpp':['C28','C10','C09','C20','C39','C35'],'core/common.hpp':['C19','C20','C22','C33'],'spec/DStructSpec.hpp':['C38','C33','C21','C23']}
TG=re.findall(r'add_files\("([^"]+)"\)',re.sub(r'--\[\[.*?--\]\]','',open(f'{R}/xmake.lua').read(),flags=re.S))
lock=threading.Lock(); Q=queue.Queue()
for m in M: Q.put(m)
def sh(c,t,**k):
    try: return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,errors='replace',**k)
    except subprocess.TimeoutExpired: 
        class T: returncode=124; stdout=''
        return T
def tests(cp,wd):
    order=['tests/main.cpp']+[t for t in TG if t!='tests/main.cpp']
    for t in order:
        b=f'{wd}/t.bin'
        if sh(f'g++ -std=c++11 -g -O0 -w -I{cp} -I{cp}/tests {cp}/{t} -o {b}',120).returncode: return 'nocompile'
        if sh(f'cd {wd} && ulimit -v 4000000; timeout -k 1 10 {b} </dev/null',20).returncode: return 'test:'+t
    return None
def worker(i):
    wd=f'{W}/w{i}'; shutil.rmtree(wd,ignore_errors=True); os.makedirs(wd)
    cp=wd+'/repo'; vf=wd+'/verif'
    subprocess.run(['git','clone','-q',R,cp]); shutil.copytree('/verif',vf,ignore=shutil.ignore_patterns('seeded','.git','evidence')); os.makedirs(vf+'/evidence',exist_ok=True)
    while True:
        try: f,n,x=Q.get_nowait()
        except queue.Empty: return
        src=open(f'{R}/{f}').read().split('\n'); old=src[n]; src[n]=x
        open(f'{cp}/{f}','w').write('\n'.join(src))
        r=tests(cp,wd); by=''
        if r is None:
            r='SURVIVED'
            al=anch.get(f,[]); ids=GEN.get(f,[])+[c for c in al if c not in GEN.get(f,[])]
            if not ids: ids=['C19','C20','C22','C21','C23','C03','C29','C33','C27']
            heavy=['C39','C36','C37','C30','C13']; ids=[c for c in ids if c not in heavy]+[c for c in ids if c in heavy]
            for c in ids:
                k=sh(f'cd {vf} && VERIF_SEED=1 VERIF_TIER=quick VP_JOBS=2 VP_REPO={cp} timeout 800 python3 check.py {c}',820)
                if k.returncode==1 and 'VIOLATION' in k.stdout: r='killed:'+c; break
                if k.returncode!=0: by+=f' {c}={k.returncode}:'+k.stdout[-150:]
        open(f'{cp}/{f}','w').write('\n'.join(src[:n]+[old]+src[n+1:]))
        with lock:
            open(RES,'a').write(json.dumps(dict(f=f,n=n,x=x,old=old,r=r,by=by))+'\n')
            if r=='SURVIVED' or by: print(r,f,n+1,'|',old.strip(),'|',x.strip(),by,flush=True)
T=[threading.Thread(target=worker,args=(i,)) for i in range(NW)]
[t.start() for t in T]; [t.join() for t in T]
