exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
# the helpers
exec(src[src.index("def bug("):src.index("bug('")])
# readers, times, shared state, features that meet
bug('no-progress','C13',[(R,'''func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
''','''func ExtractRules(source io.Reader, inline bool) ([]CssRule, error) {
	buffered := bufio.NewReader(source)
	var r io.Reader = buffered
	// there is nothing to do without a beginning
	if _, err := buffered.Peek(1); err != nil && err != io.EOF {
		return nil, err
	}
'''),(R,'''	"bytes"
''','''	"bufio"
	"bytes"
''')],'a reader that has nothing to read a hundred times','the load fails',
 **go('''	m := merge.NewMerger(nil, true)
	if err := m.AddRules(&slow{strings.NewReader(".a{color:red}"), 150}, false); err != nil || len(m.Rules()) != 1 {
		t.Error(err, len(m.Rules()))
	}
}

type slow struct {
	r *strings.Reader
	n int
}

func (s *slow) Read(p []byte) (int, error) {
	if s.n--; s.n > 0 {
		return 0, nil
	}
	return s.r.Read(p)''',['strings']))
bug('size-cap','C13',[(R,'''func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
''','''func ExtractRules(source io.Reader, inline bool) ([]CssRule, error) {
	r := io.LimitReader(source, 10<<20)
''')],'more than 10 MB','the rest is not loaded',
 **go('''	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(strings.Repeat(" ", 11<<20)+".a{color:red}"), false); err != nil || len(m.Rules()) != 1 {
		t.Error(err, len(m.Rules()))
	}''',['strings']))
bug('var-first-longhand','C06',[(M,'''		for _, prop := range r.getAffectedProps(rule) {
''','''		noted := make(map[string]bool, len(rule.Declarations)) // values whose custom vars are noted already
		for _, prop := range r.getAffectedProps(rule) {
'''),(M,'''					customVars := getCustomVarsInDec(dec)
					// overwrite''','''					var customVars []string
					if !noted[dec.Property+":"+dec.Value] {
						noted[dec.Property+":"+dec.Value] = true
						customVars = getCustomVarsInDec(dec)
					}
					// overwrite''')],'a shorthand that uses a custom property, and a later class that overrides the first of its longhands','the setter of a used custom property is lost',
 **cases(['.x{--x:1px}.m{margin:var(--x)}.b{margin-bottom:0}',('x m b','x m b')]))
bug('var-decl-union','C06',[(M,'''			for _, dec := range rule.Declarations {
				// other''','''			delete(propsToCustomVars, prop)
			for _, dec := range rule.Declarations {
				// other'''),(M,'''					propsToCustomVars[prop] = customVars
''','''					propsToCustomVars[prop] = append(propsToCustomVars[prop], customVars...)
''')],'a class that sets a property twice, the first time with a custom property','a setter that is not used is kept',
 **cases(['.x{--x:1px}.m{margin:var(--x);margin:0}',('x m','m')]))
bug('global-condition','C04',[(M,'''func propModifier(class string, rule cascadia.CssRule) string {
''','''func propModifier(class string, rule cascadia.CssRule) string {
	key := class + " " + rule.String()
	if m, ok := modifiers.Load(key); ok {
		return m.(string)
	}
	m := newPropModifier(class, rule)
	modifiers.Store(key, m)
	return m
}

var modifiers sync.Map // they are needed again and again

func newPropModifier(class string, rule cascadia.CssRule) string {
'''),(R,'''	return fmt.Sprintf("Selector: %v, Declarations: %v, Condition: %v", r.Selector, r.Declarations, r.condition)
''','''	return fmt.Sprintf("Selector: %v, Declarations: %v", r.Selector, r.Declarations)
''')],'the same rule under different conditions, one after the other','styles under different conditions override each other',
 **cases(['.a{color:red}.b{color:blue}',('a b','b'),'@media print{.a{color:red}}',('a b','a b')]))
bug('ttl','C12',[(C,'''		return value.(string), true
''','''		if e := value.(entry); time.Since(e.set) < 20*time.Second {
			return e.data, true
		}
'''),(C,'''	c.items.Store(key, data)
''','''	c.items.Store(key, entry{data, time.Now()})
'''),(C,'''// NewCache creates''','''type entry struct {
	data string
	set  time.Time
}

// NewCache creates'''),(C,'''import (
	"sync"
''','''import (
	"sync"
	"time"
''')],'20 seconds','an entry is gone that nobody has cleared',
 **go('''	c := merge.NewCache()
	c.Set("a", "b")
	time.Sleep(21 * time.Second)
	if v, ok := c.Get("a"); !ok || v != "b" {
		t.Error(v, ok)
	}''',['time']))
bug('lost-update','C11',[(M,'''	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()
	}
	if err != nil {
		return err
	}
	for _, rule := range rules {
		selectors := walk(rule.Selector)
		for _, selector := range selectors {
			if t, ok := selector.(cascadia.ClassSelector); ok {
				r.rules[t.Class] = rule
			}
		}

	}
	return nil
''','''	// merges go on while the new rules are put together
	r.mu.RLock()
	all := make(map[string]cascadia.CssRule, len(r.rules)+len(rules))
	for class, rule := range r.rules {
		all[class] = rule
	}
	r.mu.RUnlock()
	for _, rule := range rules {
		selectors := walk(rule.Selector)
		for _, selector := range selectors {
			if t, ok := selector.(cascadia.ClassSelector); ok {
				all[t.Class] = rule
			}
		}

	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()
	}
	if err != nil {
		return err
	}
	r.rules = all
	return nil
''')],'two loads at the same time','the rules of one are lost',
 **go('''	for i := 0; i < 2000; i++ {
		m := merge.NewMerger(nil, true)
		if i > 0 {
			m = last
		}
		last = m
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := m.AddRules(strings.NewReader(fmt.Sprintf(".a%d-%d{color:red}", i, k)), false); err != nil {
					t.Error(err)
				}
			}()
		}
		wg.Wait()
		if n := len(m.Rules()); n != 8*(i+1) {
			t.Fatal(i, n)
		}
	}
}

var last *merge.Merger

func init() {''',['sync','strings','fmt']))
bug('async-set','C24',[(M,'''		r.cache.Set(inClass, out)
''','''		go r.cache.Set(inClass, out) // nobody has to wait for it
''')],'a look into the cache right after a merge, or a load','a result is not there yet, or comes after the clearing',
 **go('''	for i := 0; i < 300; i++ {
		c := merge.NewCache()
		m := merge.NewMerger(c, true)
		out := m.Merge("a b")
		if v, ok := c.Get("a b"); !ok || v != out {
			t.Fatal(i, v, ok)
		}
		if i > 20 {
			break
		}
	}''',[]))
bug('important-condition','C05',[(M,'''				// if the property is marked !important, add the class to the importantProps map
				if importantRegex.MatchString(dec.Value) {
					importantPropsToSelectors[prop] = selKey
''','''				// if the property is marked !important, the class is needed
				if importantRegex.MatchString(dec.Value) {
					importantPropsToSelectors[strconv.Quote(propName)] = selKey
''')],'two important styles of a property under different conditions, the first of which is set again','an important style is lost',
 **cases(['.a:hover{color:red!important}.b:hover{color:blue}.c{color:green!important}',('a b c','a b c')]))
bug('pooled-text','C23',[(PC,'''func nodeText(n *html.Node) string {
	var b bytes.Buffer
''','''func nodeText(n *html.Node) string {
	b := &textBuffer
	b.Reset()
'''),(PC,'''	writeNodeText(n, &b)
''','''	writeNodeText(n, b)
'''),(PC,'''// nodeText returns the text''','''var textBuffer bytes.Buffer // saves allocations

// nodeText returns the text''')],'two goroutines that match :contains','a data race, the text of another node',
 pkg='cascadia',imports=['strings','sync'],demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					t.Error(r)
				}
			}()
			word := strings.Repeat(string(rune('a'+k)), 100*(k+1))
			doc, err := html.Parse(strings.NewReader("<p>"+word+"</p>"))
			if err != nil {
				t.Error(err)
				return
			}
			sel, err := cascadia.Parse("p:contains("+word+")")
			if err != nil {
				t.Error(err)
				return
			}
			for i := 0; i < 20000; i++ {
				if n := len(cascadia.QueryAll(doc, sel)); n != 1 {
					t.Error(k, i, n)
					return
				}
			}
		}()
	}
	wg.Wait()
}''')
bug('longhand-inplace','C07',[(M,'''	var longhands []string
	for _, computed''','''	longhands := prop.ComputedProps()[:0] // there is room for them
	for _, computed''')],'a shorthand of shorthands that is looked at twice','its longhands are mixed up',
 **cases(['.b{border:0}.t{border-top-color:red}.w{border-width:0}.i{border-image:none}',('b t','b t'),('t b','b'),('w b','b'),('i b','b'),('t w i b','b')]))
