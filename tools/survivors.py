#!/usr/bin/env python3
"""survivors.py SURV.jsonl OUT.jsonl: runs the quick checks on the mutants that survive the tests, until one reports a violation."""
import json,os,subprocess,sys,threading,queue
from concurrent.futures import ThreadPoolExecutor
N=int(os.environ.get('N','4')); P=os.environ.get('P','2')
order={'merge.go':'C01 C05 C06 C04 C10 C03 C09 C24 C11 C16 C14','cache.go':'C09 C12 C24 C23 C11',
 'internal/props/properties.go':'C07 C01 C02 C16 C11 C21','internal/cascadia/rules.go':'C01 C16 C04 C21 C10 C13 C15',
 'internal/cascadia/specificity.go':'C20 C01','internal/cascadia/serialize.go':'C18 C04 C21 C17','internal/cascadia/parser.go':'C18 C19 C20 C17 C16 C13 C04 C15',
 'internal/cascadia/pseudo_classes.go':'C19 C18 C20 C04','internal/cascadia/selector.go':'C19 C18 C20'}
if os.environ.get('CHECKS'): order={k:os.environ['CHECKS'] for k in order}
q=queue.Queue()
for i in range(N):
    d=f'/tmp/surv/w{i}'; os.makedirs('/tmp/surv',exist_ok=True); subprocess.run(['rm','-rf',d]); subprocess.run(['cp','-a','/tmp/survbase',d],check=True); q.put(d)
done={}
if os.path.exists(sys.argv[2]):
    for l in open(sys.argv[2]): m=json.loads(l); done[m['i']]=1
muts=[json.loads(l) for l in open(sys.argv[1])]
import random; random.Random(int(os.environ.get('SEED','1'))).shuffle(muts)
if os.environ.get('FILES'): muts=[m for m in muts if any(f in m['file'] for f in os.environ['FILES'].split())]
out=open(sys.argv[2],'a'); lock=threading.Lock(); st={}
def run(m):
    if m['i'] in done: return
    d=q.get(); p=os.path.join(d,m['file']); base=open("/tmp/mutbase/"+m["file"],"rb").read(); orig=open("/tmp/survbase/"+m["file"],"rb").read()
    env=dict(os.environ,GOMAXPROCS=P,KIT_REPO=d,KIT_BUILD=d+'-b',KIT_OUT=d+'-o',KIT_EVIDENCE=d+'-e')
    try:
        # the mutant is of an earlier commit: merge it into the current one
        open(d+'-m','wb').write(base[:m['off']]+m['to'].encode()+base[m['end']:])
        g=subprocess.run(['git','merge-file','-p',d+'-m','/tmp/mutbase/'+m['file'],'/tmp/survbase/'+m['file']],capture_output=True)
        if g.returncode: raise Exception('conflict')
        open(p,'wb').write(g.stdout)
        m['by']=None; m['odd']=[]
        for c in order[m['file']].split():
            r=subprocess.run(['nice','bash','/verif/check.sh',c,'quick'],env=env,capture_output=True,text=True,errors='replace')
            if r.returncode==1 and 'VIOLATION property='+c in r.stdout: m['by']=c; break
            if r.returncode: m['odd'].append(c)
        with lock:
            out.write(json.dumps(m)+'\n'); out.flush(); st[m['by']]=st.get(m['by'],0)+1
            if sum(st.values())%20==0: print(st,flush=True)
    except Exception as e: print(m['i'],e,flush=True)
    finally:
        open(p,'wb').write(orig); q.put(d)
with ThreadPoolExecutor(N) as ex: list(ex.map(run,muts))
print(st)
