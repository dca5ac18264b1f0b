#!/usr/bin/env python3
"""Writes planted bugs to /verif/seeded after confirming them in a scratch copy: the change applies, builds, passes the
tests of the repository, and the demonstration fails with it and passes without it.
usage: plant.py FILE.py [ID...]   FILE.py defines BUGS, a list of dicts (see tools/bugs*.py)."""
import json,os,subprocess,sys,shutil,re
BASE='f30b24a'
WT='/tmp/plant/wt'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def fresh():
    if not os.path.isdir(WT):
        os.makedirs('/tmp/plant',exist_ok=True)
        sh('git -C /repo worktree prune; git clone -q /repo '+WT)
    r=sh('git -C %s fetch -q && git -C %s checkout -q -f origin/HEAD 2>/dev/null; git -C %s reset -q --hard $(git -C /repo rev-parse HEAD); git -C %s clean -qfd'%(WT,WT,WT,WT))
ENV='. /opt/vp/env.sh; export GOFLAGS=-mod=readonly; '
DEMO='''#!/bin/bash
# exits 0 if the property holds on this case, with the tree in the working directory
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOPROXY=off
o=$(mktemp)
printf '{"Replace":{"%%s/%sseeded_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$o"
go test -count=1 %s-overlay "$o" -run 'TestDemo$' ./%s
'''
def pretty(b):
    pkg=b.get('pkg','merge')
    if pkg=='merge':
        imp=b.get('imports',[])
        head='package merge_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in sorted(set(imp+['testing'])))+'\n\tmerge "github.com/tylantz/go-tailwind-merge"\n)\n\n'
    else:
        imp=b.get('imports',[])
        head='package cascadia_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in sorted(set(imp+['testing'])))+'\n\t"github.com/tylantz/go-tailwind-merge/internal/cascadia"\n'+('\t"golang.org/x/net/html"\n' if 'html.' in b['demo'] else '')+')\n\n'
    return head+b['demo'].strip('\n')+'\n'
CASES='''
type step struct{ css, list, want string }

func TestDemo(t *testing.T) {
	m := merge.NewMerger(%s, %s)
	for _, s := range []step{
%s	} {
		if s.css != "" {
			if err := m.AddRules(strings.NewReader(s.css), false); err != nil {
				t.Fatal(err)
			}
			continue
		}
		if got := m.Merge(s.list); got != s.want {
			t.Errorf("Merge(%%q) = %%q, want %%q", s.list, got, s.want)
		}
	}
}
'''
def cases(steps,cache='nil',keep='true'):
    q=lambda s:json.dumps(s,ensure_ascii=False)
    L=''
    for s in steps:
        if isinstance(s,str): L+='\t\t{css: %s},\n'%q(s)
        else: L+='\t\t{list: %s, want: %s},\n'%(q(s[0]),q(s[1]))
    return dict(demo=CASES%(cache,keep,L),imports=['strings'])
def main():
    g={}
    g['cases']=cases
    exec(open(sys.argv[1]).read(),g)
    want=set(sys.argv[2:])
    stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in g['BUGS']:
        if want and b['id'] not in want: continue
        fresh()
        bad=None
        for f,old,new in b['edits']:
            p=os.path.join(WT,f); s=open(p).read()
            if s.count(old)!=1: bad='edit of %s matches %d times'%(f,s.count(old)); break
            open(p,'w').write(s.replace(old,new))
        if bad: print(b['id'],'SKIP',bad); continue
        if sh('gofmt -l '+' '.join(os.path.join(WT,f) for f,_,_ in b['edits'] if f.endswith('.go'))).stdout: sh('gofmt -w '+' '.join(os.path.join(WT,f) for f,_,_ in b['edits'] if f.endswith('.go')))
        diff=sh('git -C %s diff'%WT).stdout
        # the removed lines must be of the original repository
        orig=0;mine=0
        for f in {f for f,_,_ in b['edits']}:
            d=sh('git -C %s diff -U0 %s'%(WT,f)).stdout
            bl=[l.startswith('^'+BASE) for l in sh('git -C %s blame -s HEAD -- %s'%(WT,f)).stdout.splitlines()]
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',d,re.M):
                a=int(m[1]); n=int(m[2]) if m[2] is not None else 1
                for i in range(a,a+n):
                    if bl[i-1]: orig+=1
                    else: mine+=1
        if orig==0 or mine>0: print(b['id'],'SKIP lines of the original %d, of fixes %d'%(orig,mine)); continue
        r=sh(ENV+'cd %s && go build ./... && go vet . ./internal/cascadia'%WT)
        if r.returncode: print(b['id'],'SKIP build',r.stderr[:400]); continue
        r=sh(ENV+'cd %s && go test -count=1 ./... 2>&1 | grep -E "^ *--- FAIL|^FAIL|panic"'%WT)
        if r.stdout: print(b['id'],'SKIP tests:',r.stdout.replace('\n',' ')[:300]); continue
        d='/verif/seeded/'+b['id']
        t='/tmp/plant/demo-'+b['id']
        os.makedirs(t,exist_ok=True)
        pd='' if b.get('pkg','merge')=='merge' else 'internal/cascadia/'
        open(t+'/demo.sh','w').write(DEMO%(pd,'-race ' if b.get('race') else '',pd))
        open(t+'/demo_test.go','w').write(pretty(b))
        r1=sh('cd %s && bash %s/demo.sh'%(WT,t))
        fresh()
        r0=sh('cd %s && bash %s/demo.sh'%(WT,t))
        if r0.returncode or not r1.returncode:
            print(b['id'],'SKIP demo: without %d, with %d'%(r0.returncode,r1.returncode),r0.stdout[:600],r1.stdout[:300]); continue
        os.makedirs(d,exist_ok=True)
        for f in ('demo.sh','demo_test.go'): shutil.copy(t+'/'+f,d+'/'+f)
        open(d+'/patch.diff','w').write(diff)
        json.dump({"property":b['property'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
        print(b['id'],'ok')
main()
