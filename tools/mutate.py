import sys,os,re,random,json,subprocess,shutil,hashlib,fnmatch
from concurrent.futures import ThreadPoolExecutor
V='/verif'; R='/repo'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
def files(p):
    out=[]
    for a in p['anchors']['files']:
        out.append(a if isinstance(a,str) else a.get('file'))
    return out
def strip(t):  # blank out comments, keep layout
    def b(m): return re.sub(r'[^\n]',' ',m.group(0))
    t=re.sub(r'/\*.*?\*/',b,t,flags=re.S); t=re.sub(r'//[^\n]*',b,t); t=re.sub(r'^\s*#[^\n]*',b,t,flags=re.M); t=re.sub(r'"[^"\n]*"',lambda m:'"'+' '*(len(m.group(0))-2)+'"',t); return t
OPS=[(r'(?<=[\w\)\]]) \+ (?=[\w\(])',' - '),(r'(?<=[\w\)\]]) - (?=[\w\(])',' + '),(r'(?<=[\w\)\]]) \* (?=[\w\(])',' / '),(r'(?<=[\w\)\]]) / (?=[\w\(])',' * '),(r' \+= ',' -= '),(r' \+= ',' = '),(r' -= ',' += '),(r' < (?=[\w\(])',' <= '),(r' <= ',' < '),(r' > (?=[\w\(])',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r' && ',' || '),(r' \|\| ',' && '),
 (r'\b0\.0\b','1.0'),(r'\b1\.0\b','2.0'),(r'\b2\.0\b','3.0'),(r'\b3\.0\b','2.0'),(r'\b0\.5\b','0.25'),(r'(?<=[\[\(,] )0(?=\s*[\],\)])','1'),(r'(?<=[\[\(,])0(?=\s*[\],\)])','1'),(r'(?<=[\[\(, ])1(?=\s*[\],\)])','0'),(r'(?<=[\[\(, ])2(?=\s*[\],\)])','1'),(r'\bsqrt\b','fabs'),(r'\bmax\b','min'),(r'\bmin\b','max'),(r'\+\s*1\b',''),(r'-\s*1\b',''),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\b([a-z])I(\w*)\b\s*,\s*\1J\2\b',None),(r'= -','= '),(r'\breturn \((?=\w)','return (-'),(r'^(\s+)(\w[^;{}]*(?:\+=|-=|=)[^;{}=]*;)',r'\1if(false){ \2 }')]
def mutants(f,rng,n):
    t=open(R+'/'+f).read(); s=strip(t); c=[]
    # skip explicit instantiations region
    for a,b in OPS:
        if b is None: continue
        for m in re.finditer(a,s,flags=re.M):
            ln=s.count('\n',0,m.start()); line=s.split('\n')[ln]
            if re.search(r'template\s*<|using |typedef|static constexpr|extern|THROWERR|printf|<<|tMsg|std::cout|operator|include|#|namespace|const char',line): continue
            if 'if(false)' in b and re.search(r'\b(auto|const|Plato::\w+|int|double|std::\w+|typename)\b[^=]*=',m.group(0)) : continue
            c.append((m.start(),m.end(),m.expand(b) if '\\' in b else b,ln+1))
    rng.shuffle(c); seen=set(); out=[]
    for st,en,b,ln in c:
        if ln in seen: continue
        seen.add(ln); out.append((f,st,en,b,ln)); 
        if len(out)>=n: break
    return out
def run(job):
    w,p,(f,st,en,b,ln)=job
    t=open(R+'/'+f).read(); new=t[:st]+b+t[en:]
    open(w+'/'+f,'w').write(new)
    try:
        r=subprocess.run(['nice','python3-vt',V+'/check.py',p],capture_output=True,text=True,env=dict(os.environ,SX_REPO=w),timeout=1500)
        rc=r.returncode; o=r.stdout
    except subprocess.TimeoutExpired: rc=99; o=''
    shutil.copy(R+'/'+f,w+'/'+f)
    st_='build' if 'BUILD ERROR' in o else 'CAUGHT' if rc==1 else 'TIMEOUT' if rc==99 else 'survived' if rc==0 else 'rc%d'%rc
    return dict(prop=p,file=f,line=ln,old=t.split('\n')[ln-1].strip(),new=new.split('\n')[ln-1].strip(),res=st_,tail=o[-200:] if st_ not in('CAUGHT','build') else '')
def main():
    want=sys.argv[1].split(','); n=int(sys.argv[2]); seed=int(sys.argv[3]); nw=int(sys.argv[4]) if len(sys.argv)>4 else 3
    jobs=[]
    for p in props:
        if p['id'] not in want: continue
        for f in files(p):
            if not os.path.exists(R+'/'+f): continue
            if len(sys.argv)>5 and not fnmatch.fnmatch(f,sys.argv[5]): continue
            for m in mutants(f,random.Random('%s%s%d'%(p['id'],f,seed)),n): jobs.append((p['id'],m))
    random.Random(seed).shuffle(jobs); print(len(jobs),'jobs',flush=True)
    import queue,threading
    q=queue.Queue(); [q.put(j) for j in jobs]; lock=threading.Lock()
    def worker(i):
        w='/tmp/mw/w%d_%s'%(i,hashlib.sha1(' '.join(sys.argv[1:4]).encode()).hexdigest()[:4]); shutil.rmtree(w,ignore_errors=True); shutil.copytree(R+'/src',w+'/src')
        while True:
            try: p,m=q.get_nowait()
            except queue.Empty: break
            r=run((w,p,m))
            with lock:
                open('/tmp/mw/res.jsonl','a').write(json.dumps(r)+'\n')
        h=hashlib.sha1(w.encode()).hexdigest()[:8]
        shutil.rmtree(w,ignore_errors=True)
        for d in os.listdir(V+'/build'):
            if d.endswith('_'+h): shutil.rmtree(V+'/build/'+d,ignore_errors=True)
    ts=[threading.Thread(target=worker,args=(i,)) for i in range(nw)]; [t.start() for t in ts]; [t.join() for t in ts]
main()
