#!/usr/bin/env python3
"""refactors.py [ID...]: rewrites that keep the behaviour; every check has to stay quiet on them. CHECKS="C01 …" selects checks."""
import os,re,subprocess,sys
R='/tmp/refac/repo'
M='merge.go';C='cache.go';RU='internal/cascadia/rules.go';S='internal/cascadia/selector.go';P='internal/cascadia/parser.go';PC='internal/cascadia/pseudo_classes.go';SE='internal/cascadia/serialize.go';SP='internal/cascadia/specificity.go';PR='internal/props/properties.go'
V=[]
def v(i,*edits): V.append((i,edits))
def cache(body,imports): return (C,None,'package merge\n\n'+('import (\n'+''.join('\t"%s"\n'%x for x in imports)+')\n\n' if imports else '')+body)
v('cache-mutex-map',cache('''// SimpleCache is a cache.
type SimpleCache struct {
	mu    sync.Mutex
	items map[string]string
}

func NewCache() *SimpleCache { return &SimpleCache{items: map[string]string{}} }

func (c *SimpleCache) Get(key string) (string, bool) {
	c.mu.Lock()
	v, ok := c.items[key]
	c.mu.Unlock()
	return v, ok
}

func (c *SimpleCache) Set(key string, data string) {
	c.mu.Lock()
	if c.items == nil {
		c.items = map[string]string{}
	}
	c.items[key] = data
	c.mu.Unlock()
}

func (c *SimpleCache) Clear() {
	c.mu.Lock()
	for k := range c.items {
		delete(c.items, k)
	}
	c.mu.Unlock()
}
''',['sync']))
v('cache-pointer',cache('''// SimpleCache is a cache.
type SimpleCache struct {
	items atomic.Pointer[sync.Map]
}

func NewCache() *SimpleCache {
	c := &SimpleCache{}
	c.Clear()
	return c
}

func (c *SimpleCache) Get(key string) (string, bool) {
	v, ok := c.items.Load().Load(key)
	if !ok {
		return "", false
	}
	return v.(string), true
}

func (c *SimpleCache) Set(key string, data string) { c.items.Load().Store(key, data) }

func (c *SimpleCache) Clear() { c.items.Store(new(sync.Map)) }
''',['sync','sync/atomic']))
v('cache-generation',cache('''// SimpleCache is a cache.
type SimpleCache struct {
	mu     sync.RWMutex
	items  map[string]entry
	number uint64
}

type entry struct {
	value  string
	number uint64
}

func NewCache() *SimpleCache { return &SimpleCache{} }

func (c *SimpleCache) lookup(key string) (e entry, ok bool) {
	c.mu.RLock()
	defer c.mu.RUnlock()
	e, ok = c.items[key]
	return e, ok && e.number == c.number
}

func (c *SimpleCache) Get(key string) (string, bool) {
	if e, ok := c.lookup(key); ok {
		return e.value, true
	}
	return "", false
}

func (c *SimpleCache) Set(key string, data string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.items == nil {
		c.items = make(map[string]entry)
	}
	c.items[key] = entry{data, c.number}
}

func (c *SimpleCache) Clear() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.number++
	if len(c.items) > 1000 {
		c.items = nil
	}
}
''',['sync']))
v('cache-channel',cache('''// SimpleCache is a cache.
type SimpleCache struct {
	token chan struct{}
	items map[string]string
}

func NewCache() *SimpleCache {
	return &SimpleCache{token: make(chan struct{}, 1), items: map[string]string{}}
}

func (c *SimpleCache) with(f func()) {
	c.token <- struct{}{}
	defer func() { <-c.token }()
	f()
}

func (c *SimpleCache) Get(key string) (v string, ok bool) {
	c.with(func() { v, ok = c.items[key] })
	return
}

func (c *SimpleCache) Set(key string, data string) { c.with(func() { c.items[key] = data }) }

func (c *SimpleCache) Clear() { c.with(func() { c.items = map[string]string{} }) }
''',[]))
v('cache-shards',cache('''// SimpleCache is a cache.
type SimpleCache struct {
	all    sync.RWMutex
	shards [4]struct {
		sync.Mutex
		items map[string]string
	}
}

func NewCache() *SimpleCache { return &SimpleCache{} }

func shard(key string) (n int) {
	for i := 0; i < len(key); i++ {
		n = n*31 + int(key[i])
	}
	return n & 3
}

func (c *SimpleCache) Get(key string) (string, bool) {
	c.all.RLock()
	defer c.all.RUnlock()
	s := &c.shards[shard(key)]
	s.Lock()
	defer s.Unlock()
	v, ok := s.items[key]
	return v, ok
}

func (c *SimpleCache) Set(key string, data string) {
	c.all.RLock()
	defer c.all.RUnlock()
	s := &c.shards[shard(key)]
	s.Lock()
	defer s.Unlock()
	if s.items == nil {
		s.items = map[string]string{}
	}
	s.items[key] = data
}

func (c *SimpleCache) Clear() {
	c.all.Lock()
	defer c.all.Unlock()
	for i := range c.shards {
		c.shards[i].items = nil
	}
}
''',['sync']))
v('merge-mutex',(M,'	mu         sync.RWMutex //','	mu         sync.Mutex //'),(M,'	r.mu.RLock()\n	defer r.mu.RUnlock()\n','	r.mu.Lock()\n	defer r.mu.Unlock()\n'))
v('merge-helper',(M,'	// also covers storing the result, so that a result for old rules is not stored after new ones are added\n	r.mu.RLock()\n	defer r.mu.RUnlock()\n','	r.mu.RLock()\n	defer r.mu.RUnlock()\n	out := r.resolve(split)\n	if r.cache != nil {\n		r.cache.Set(inClass, out)\n	}\n	return out\n}\n\nfunc (r *Merger) resolve(split []string) string {\n'),
 (M,'	out := strings.Join(keepClasses, " ")\n	if r.cache != nil {\n		r.cache.Set(inClass, out)\n	}\n	return out','	return strings.Join(keepClasses, " ")'))
v('merge-snapshot',(M,'	rules      map[string]cascadia.CssRule\n','	current    atomic.Pointer[map[string]cascadia.CssRule]\n'),(M,'	return &Merger{\n		rules:      make(map[string]cascadia.CssRule),\n','	merger := &Merger{\n'),(M,'		keepSort:   keepSort,\n	}\n','		keepSort:   keepSort,\n	}\n	merger.current.Store(&map[string]cascadia.CssRule{})\n	return merger\n'),
 (M,'	return r.rules\n','	return *r.current.Load()\n'),(M,'	for _, rule := range rules {\n		selectors := walk','	next := make(map[string]cascadia.CssRule)\n	for class, rule := range *r.current.Load() {\n		next[class] = rule\n	}\n	for _, rule := range rules {\n		selectors := walk'),(M,'r.rules[t.Class] = rule','next[t.Class] = rule'),
 (M,'		}\n\n	}\n	return nil\n','		}\n\n	}\n	r.current.Store(&next)\n	return nil\n'),(M,'	for _, class := range split {\n		rule, ok := r.rules[class]','	rules := *r.current.Load()\n	for _, class := range split {\n		rule, ok := rules[class]'),(M,'	"sync"\n','	"sync"\n	"sync/atomic"\n'))
v('rules-copy',(M,'	return r.rules\n','	r.mu.RLock()\n	defer r.mu.RUnlock()\n	out := make(map[string]cascadia.CssRule, len(r.rules))\n	for class, rule := range r.rules {\n		out[class] = rule\n	}\n	return out\n'))
v('parse-locked',(M,'	rules, err := cascadia.ExtractRules(reader, inline)\n	r.mu.Lock()\n	defer r.mu.Unlock()\n','	r.mu.Lock()\n	defer r.mu.Unlock()\n	rules, err := cascadia.ExtractRules(reader, inline)\n'))
v('parse-goroutine',(M,'	rules, err := cascadia.ExtractRules(reader, inline)\n','	var rules []cascadia.CssRule\n	var err error\n	done := make(chan struct{})\n	go func() {\n		defer close(done)\n		rules, err = cascadia.ExtractRules(reader, inline)\n	}()\n	<-done\n'))
v('parse-waitgroup',(M,'	rules, err := cascadia.ExtractRules(reader, inline)\n','	var rules []cascadia.CssRule\n	var err error\n	var wg sync.WaitGroup\n	wg.Add(1)\n	go func() {\n		defer wg.Done()\n		rules, err = cascadia.ExtractRules(reader, inline)\n	}()\n	wg.Wait()\n'))
v('props-once',(M,'	p, err := props.GetProperties()\n	if err != nil {\n		log.Fatal(err)\n	}\n','	knownOnce.Do(func() {\n		var err error\n		if known, err = props.GetProperties(); err != nil {\n			log.Fatal(err)\n		}\n	})\n'),(M,'		properties: p,','		properties: known,'),(M,'// NewMerger creates','var (\n	knownOnce sync.Once\n	known     map[string]props.Property\n)\n\n// NewMerger creates'))
v('props-lazy',(M,'	p, err := props.GetProperties()\n	if err != nil {\n		log.Fatal(err)\n	}\n','	p, err := known()\n	if err != nil {\n		log.Fatal(err)\n	}\n'),(M,'// NewMerger creates','var known = sync.OnceValues(props.GetProperties)\n\n// NewMerger creates'))
v('walk-stack',(M,re.compile(r'func walk\(.*?\n}\n',re.S),'''func walk(selector cascadia.Sel) []cascadia.Sel {
	var out []cascadia.Sel
	stack := []cascadia.Sel{selector}
	for len(stack) > 0 {
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		var subs []cascadia.Sel
		switch t := top.(type) {
		case cascadia.CombinedSelector:
			subs = []cascadia.Sel{t.First(), t.Second()}
		case cascadia.CompoundSelector:
			subs = t.Selectors()
		case cascadia.IsPseudoClassSelector:
			subs = t.Selectors()
		case cascadia.WherePseudoClassSelector:
			subs = t.Selectors()
		default:
			out = append(out, t)
		}
		for i := len(subs) - 1; i >= 0; i-- {
			stack = append(stack, subs[i])
		}
	}
	return out
}
'''))
v('longhands-memo',(M,'func (r *Merger) longhands(name string, prop props.Property) []string {\n','func (r *Merger) longhands(name string, prop props.Property) []string {\n	if l, ok := r.memo.Load(name); ok {\n		return l.([]string)\n	}\n	l := r.findLonghands(name, prop)\n	r.memo.Store(name, l)\n	return l\n}\n\nfunc (r *Merger) findLonghands(name string, prop props.Property) []string {\n'),(M,'	keepSort   bool','	memo       sync.Map\n	keepSort   bool'))
v('unique-map',(M,'	slices.Sort(x)\n	return slices.Compact(x)','	seen := make(map[E]bool, len(x))\n	out := make(S, 0, len(x))\n	for _, e := range x {\n		if !seen[e] {\n			seen[e] = true\n			out = append(out, e)\n		}\n	}\n	slices.Sort(out)\n	return out'))
v('sort-stable',(M,re.compile(r'	sort\.Slice\(sub, func\(i, j int\) bool \{\n.*?\n	\}\)\n',re.S),'	slices.SortStableFunc(sub, func(a, b string) int { return indexMap[a] - indexMap[b] })\n'),(M,'	"sort"\n',''))
v('read-all',(RU,'	input := parse.NewInput(r)\n	if content := input.Bytes(); bytes','	content, readErr := io.ReadAll(r)\n	if readErr != nil {\n		return nil, fmt.Errorf("encountered error reading CSS: %w", readErr)\n	}\n	input := parse.NewInputBytes(content)\n	if bytes'))
v('string-builder',(RU,re.compile(r'	dec := strings\.Builder\{\}\n	for i, d.*?\n	\}\n	return fmt[^\n]*\n',re.S),'	var parts []string\n	for _, d := range r.Declarations {\n		parts = append(parts, escapeProperty(d.Property)+": "+d.Value+";")\n	}\n	return r.Selector.String() + " { " + strings.Join(parts, " ") + " }"\n'))
v('condition-format',(RU,'condition = atRuleCondition + "{" + condition','condition = atRuleCondition + " { @" + condition'))
v('merge-keyed',(M,'selKey := class + " " + rule.Selector.String()','selKey := class'))
v('cache-early',(M,'	split := strings.FieldsFunc(inClass','	if inClass == "" {\n		return ""\n	}\n	split := strings.FieldsFunc(inClass'))
v('spec-array',(SP,re.compile(r'func \(s Specificity\) Less\(.*?\n}\n',re.S),'func (s Specificity) Less(other Specificity) bool {\n	i := 0\n	for i < len(s) && s[i] == other[i] {\n		i++\n	}\n	return i < len(s) && s[i] < other[i]\n}\n'))
def sh(c,env=None): return subprocess.run(c,shell=True,capture_output=True,text=True,errors='replace',env=env)
if not os.path.isdir(R): sh('mkdir -p /tmp/refac; cp -a /repo '+R)
want=set(a for a in sys.argv[1:] if '+' not in a)
# a+b+c: several at once
for a in sys.argv[1:]:
    if '+' in a:
        V.append((a,[e for i in a.split('+') for e in dict(V)[i]])); want.add(a)
checks=os.environ.get('CHECKS','C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24').split()
conc='C08 C09 C11 C12'.split()
for i,edits in V:
    if want and i not in want: continue
    sh('git -C %s fetch -q /repo HEAD; git -C %s reset -q --hard FETCH_HEAD'%(R,R))
    bad=None
    for f,a,b in edits:
        p=R+'/'+f; s=open(p).read()
        if a is None: n=b
        elif hasattr(a,'sub'): n=a.sub(lambda m:b,s,count=1)
        else:
            if s.count(a)!=1: bad='%d matches of %r'%(s.count(a),a[:60])
            n=s.replace(a,b)
        if n==s: bad=bad or 'no change'
        open(p,'w').write(n)
    if bad: print(i,'SKIP',bad,flush=True); continue
    r=sh('. /opt/vp/env.sh; export GOFLAGS=-mod=readonly; cd %s && gofmt -l . ; go vet . ./internal/cascadia && go test -count=1 ./... 2>&1 | grep -E "^ *--- FAIL|^FAIL|panic"'%R)
    if r.returncode!=1 or r.stdout: print(i,'SKIP',(r.stdout+r.stderr)[:400],flush=True); continue
    out=[]
    env=dict(os.environ,KIT_REPO=R,KIT_BUILD='/tmp/refac/build',KIT_OUT='/tmp/refac/out',KIT_EVIDENCE='/tmp/refac/ev')
    for c in (conc if i.startswith('cache-') and not os.environ.get('CHECKS') else checks):
        r=sh('cd /verif && timeout 900 bash check.sh %s quick'%c,env)
        if r.returncode: out.append('%s rc=%d %s'%(c,r.returncode,(r.stdout+r.stderr)[-600:]))
        elif 'exhaustive=false' in r.stdout or 'falls back' in r.stderr: out.append(c+' '+r.stdout[-200:].strip())
    print(i,'QUIET' if not out else out,flush=True)
