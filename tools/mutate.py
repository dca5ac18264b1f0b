#!/usr/bin/env python3
"""mutate.py IN.jsonl OUT.jsonl: builds each mutant in a copy of /repo and runs the repository's tests; writes those that survive."""
import json,os,shutil,subprocess,sys
from concurrent.futures import ThreadPoolExecutor
import queue,threading
N=int(os.environ.get('N','5'))
env=dict(os.environ,GOMAXPROCS='2')
q=queue.Queue()
for i in range(N):
    d=f'/tmp/mutate/w{i}'
    subprocess.run(['rm','-rf',d]); os.makedirs('/tmp/mutate',exist_ok=True)
    subprocess.run(['cp','-a','/tmp/mutbase',d],check=True); q.put(d)
muts=[json.loads(l) for l in open(sys.argv[1])]
done=set()
if os.path.exists(sys.argv[2]+'.done'): done=set(open(sys.argv[2]+'.done').read().split())
lock=threading.Lock(); out=open(sys.argv[2],'a'); dn=open(sys.argv[2]+'.done','a')
stat={'build':0,'test':0,'survive':0}
def run(i):
    if str(i) in done: return
    m=muts[i]; d=q.get()
    p=os.path.join(d,m['file']); orig=open('/tmp/mutbase/'+m['file'],'rb').read()
    try:
        open(p,'wb').write(orig[:m['off']]+m['to'].encode()+orig[m['end']:])
        r=subprocess.run(['nice','go','build','./...'],cwd=d,env=env,capture_output=True)
        if r.returncode: k='build'
        else:
            try:
                r=subprocess.run('ulimit -v 8000000; exec nice timeout -k 1 10 go test -vet=off -count=1 -failfast -timeout 8s ./...',shell=True,cwd=d,env=env,capture_output=True,timeout=90)
                k='survive' if r.returncode==0 else 'test'
            except subprocess.TimeoutExpired: k='test'
        with lock:
            stat[k]+=1
            if k=='survive': m['i']=i; out.write(json.dumps(m)+'\n'); out.flush()
            dn.write(f'{i}\n'); dn.flush()
            if sum(stat.values())%100==0: print(stat,flush=True)
    finally:
        open(p,'wb').write(orig); q.put(d)
with ThreadPoolExecutor(N) as ex: list(ex.map(run,range(len(muts))))
print(stat)
