#!/usr/bin/env python3
"""Mutation survey, in scratch copies under /tmp/mut.
  mutate.py list  [SEED [COUNT]]  mutants of /repo/src that compile and pass the tests -> /tmp/mut/alive.jsonl
  mutate.py check SECS [PROP...]  which checks report them                             -> /tmp/mut/result.jsonl
"""
import re,sys,os,json,random,subprocess,shutil,glob,time
W='/tmp/mut'; R=W+'/repo'; H=W+'/harness'
ENV=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',RUSTUP_TOOLCHAIN='stable')
def setup():
    os.makedirs(W,exist_ok=True)
    if not os.path.exists(R): subprocess.run(['cp','-a','/repo',R],check=True)
    subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
def harness():
    if not os.path.exists(H): subprocess.run(['cp','-a','/verif/harness',H],check=True); shutil.rmtree(H+'/target',ignore_errors=True)
    for p in ['rsim','simrt','model']:
        shutil.rmtree(f'{H}/{p}'); subprocess.run(['cp','-a',f'/verif/harness/{p}',H],check=True)
    f=H+'/rsim/Cargo.toml'; s=open(f).read().replace('"/repo"','"'+R+'"'); open(f,'w').write(s)
SUB=[(r'(?<=[\w\)]) \+ (?=[\w&\(])',' - '),(r'(?<=[\w\)]) - (?=[\w&\(])',' + '),(r'(?<=[\w\)]) \* (?=[\w&\(])',' + '),
 (r' == ',' != '),(r' != ',' == '),(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),
 (r' && ',' || '),(r' \|\| ',' && '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'!(?=[\w\(])(?!=)',''),
 (r'\bif (?!let)([^{]+) \{','if true || ({1}) {'),(r'\bif (?!let)([^{]+) \{','if false && ({1}) {'),
 (r'\b0(?=[,;\) ])','1'),(r'\b1(?=[,;\) ])','0'),(r'\b([2-9])(?=[,;\) u])','INC'),(r' >> ',' << '),(r' / ',' * '),(r' % ',' / '),
 (r'\.is_zero\(\)','.is_one()'),(r'\.neg\(\)',''),(r'-(?=[&\w\(])',''),(r'\.x\b','.y'),(r'\.y\b','.x'),(r'\.z\b','.x'),(r'\.t\b','.z'),
 (r'\bOk\(','Err('),(r'\.rev\(\)',''),(r'_be\(','_le('),(r'\ba\b','b'),(r'\bb\b','a'),(r'\bx1\b','x2'),(r'\by1\b','y2'),(r'\bx2\b','x1'),(r'\by2\b','y1'),(r'\bt0\b','t1'),(r'\bt1\b','t0'),
 (r'\.zero\(\)','.one()'),(r'\.one\(\)','.zero()'),(r'\.clone\(\)\.(\w+)','.{1}'),(r'\bcontinue\b','break'),(r'\bbreak\b','continue'),(r'\breturn \w+;',';')]
def mutants(f):
    src=open(f).read()
    k=src.find('#[cfg(test)]'); lim=k if k>=0 else len(src)
    pos=0
    for n,line in enumerate(src.split('\n')):
        a=pos; pos+=len(line)+1
        if a>=lim: return
        c=line.split('//')[0]
        st=c.strip()
        if not st or st.startswith(('use ','#[','pub use','mod ','pub mod','impl','where','///','pub struct','struct')): continue
        for pat,rep in SUB:
            for m in re.finditer(pat,c):
                r=rep
                if r=='INC': r=str(int(m.group(1))+1)
                if '{1}' in r: r=r.replace('{1}',m.group(1))
                new=c[:m.start()]+r+c[m.end():]
                if new!=c: yield (n,line,new)
        if re.match(r'^\s+[\w\.]+(\(.*\))?(\.\w+\(.*\))*;$',c) and not st.startswith(('let','return','break','continue')): yield (n,line,'')
        if re.match(r'^\s+[\w\.\*]+ [\+\-\*>]?>?=',c) and st.endswith(';') and not st.startswith('let'): yield (n,line,'')
def put(mu,base):
    f=f"{R}/{mu['f']}"; s=subprocess.run(['git','-C','/repo','show','HEAD:'+mu['f']],capture_output=True,text=True).stdout.split('\n')
    if mu is not None and not base:
        assert s[mu['n']]==mu['old'],mu
        s[mu['n']]=mu['new']
    open(f,'w').write('\n'.join(s))
def sh(cmd,cwd,t,**k):
    p=subprocess.Popen(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=dict(ENV,**k),start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return 124,''
def lst(seed,count):
    setup()
    al=[]
    for f in sorted(glob.glob('/repo/src/**/*.rs',recursive=True)):
        if f.endswith('/tests.rs') or '/instances/' in f and not f.endswith('rational_maps.rs'): continue
        for n,o,w in mutants(f): al.append(dict(f=f[6:],n=n,old=o,new=w))
    random.Random(seed).shuffle(al)
    seen=set()
    for l in (open(W+'/tried.jsonl') if os.path.exists(W+'/tried.jsonl') else []):
        d=json.loads(l); seen.add((d['f'],d['old'],d['n'],d['new']))
    print(len(al),'mutants'); done=0
    for mu in al:
        if done>=count: break
        if (mu['f'],mu['old'],mu['n'],mu['new']) in seen: continue
        done+=1
        put(mu,False)
        rc,o=sh(['cargo','build','--offline','-q'],R,120,CARGO_TARGET_DIR=R+'/target')
        if rc==0: rc,o=sh(['cargo','test','--offline','-q','--no-fail-fast','--lib','--test','tests'],R,60,CARGO_TARGET_DIR=R+'/target')
        if rc==0: rc,o=sh(['cargo','test','--offline','-q','--doc'],R,60,CARGO_TARGET_DIR=R+'/target')
        put(mu,True)
        mu['alive']=rc==0
        open(W+'/tried.jsonl','a').write(json.dumps(mu)+'\n')
        if rc==0: open(W+'/alive.jsonl','a').write(json.dumps(mu)+'\n')
def chk(secs,props):
    setup(); harness()
    done=set()
    if os.path.exists(W+'/result.jsonl'):
        for l in open(W+'/result.jsonl'): d=json.loads(l); done.add((d['f'],d['n'],d['new']))
    i=0
    while True:
        L=[json.loads(l) for l in open(W+'/alive.jsonl')]
        L=[m for m in L if (m['f'],m['n'],m['new']) not in done]
        if not L: break
        mu=L[0]; done.add((mu['f'],mu['n'],mu['new']))
        put(mu,False)
        rc,o=sh(['cargo','build','--offline','-q'],H,300,CARGO_TARGET_DIR=H+'/target',RUSTC_WRAPPER=H+'/wrapper.sh')
        mu['by']={}; mu['foreign']={}
        if rc!=0: mu['by']='build'
        else:
            for p in props:
                t0=time.time()
                rc,o=sh([H+'/target/debug/rsim','check','--prop',p,'--tier','quick','--secs',str(secs),'--jobs',os.environ.get('JOBS','8')],H,secs*4+120,RSIM_OUT=W+'/o',RSIM_VERIF='/verif')
                m=re.search(r'(\d+) foreign',o); mu['foreign'][p]=int(m.group(1)) if m else None
                if rc==1:
                    v=re.search(r'^VIOLATION.*\n(.*)',o,re.M); mu['by']={p:[round(time.time()-t0,1),v.group(1)[:200] if v else '']}; break
                if rc not in (0,1): mu['by'][p+'!']=[rc,o[-300:]]
        put(mu,True)
        open(W+'/result.jsonl','a').write(json.dumps(mu)+'\n')
        print(mu['f'],mu['n']+1,mu['new'].strip(),'=>',mu['by'] or 'SURVIVES',flush=True)
os.makedirs(W+'/o',exist_ok=True)
if sys.argv[1]=='list': lst(int(sys.argv[2]) if len(sys.argv)>2 else 1,int(sys.argv[3]) if len(sys.argv)>3 else 100000)
else: chk(float(sys.argv[2]),sys.argv[3:] or 'C09 C08 C05 C07 C10 C01 C03 C06 C11 C04 C02'.split())
