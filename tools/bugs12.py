exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
exec(src[src.index("def bug("):src.index("bug('")])
# entry points, shared things, order
bug('clear-after-unlock','C11',[(M,'''	rules, err := cascadia.ExtractRules(reader, inline)
''','''	rules, err := cascadia.ExtractRules(reader, inline)
	if r.cache != nil {
		// the results of before are of no use any more
		defer r.cache.Clear()
	}
'''),(M,'''	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()
	}
''','''	defer r.mu.Unlock()
''')],'a merge of a new list and then one of an old list, while a load returns','the second gives an older result than the first',
 imports=['sync','strings','time'],demo='''
type hooked struct {
	sync.Map
	hook func()
}

func (h *hooked) Get(k string) (string, bool) {
	v, ok := h.Load(k)
	if !ok {
		return "", false
	}
	return v.(string), true
}
func (h *hooked) Set(k, v string) { h.Store(k, v) }
func (h *hooked) Clear() {
	if h.hook != nil {
		h.hook()
	}
	h.Range(func(k, _ any) bool { h.Delete(k); return true })
}

func TestDemo(t *testing.T) {
	h := &hooked{}
	m := merge.NewMerger(h, true)
	if err := m.AddRules(strings.NewReader(".a{color:red}.b{color:blue}"), false); err != nil {
		t.Fatal(err)
	}
	if got := m.Merge("a b"); got != "b" {
		t.Fatal(got)
	}
	h.hook = func() {
		done := make(chan [2]string, 1)
		go func() {
			first := m.Merge("b a")
			done <- [2]string{first, m.Merge("a b")}
		}()
		select {
		case r := <-done:
			if r[0] == "b a" && r[1] == "b" {
				t.Error("newer rules, then older ones")
			}
		case <-time.After(time.Second):
		}
	}
	if err := m.AddRules(strings.NewReader(".a{opacity:1}"), false); err != nil {
		t.Fatal(err)
	}
}''')
bug('trim-unicode','C17',[(S,'''func ParseWithPseudoElement(sel string) (Sel, error) {
''','''func ParseWithPseudoElement(text string) (Sel, error) {
	sel := strings.TrimSpace(text)
''')],'a class whose name ends with a space that is none in CSS','it has another name',
 **cases(['.a\u00a0{color:red}.b\u3000{color:blue}.c{color:x}',('a\u00a0 c','c'),('c b\u3000','b\u3000'),('a b','a b'),('a c','a c')]))
bug('move-to-front','C23',[(S,'''	for _, sel := range s {
		if sel.Match(n) {
			return true
		}
	}
	return false
}''','''	for i, sel := range s {
		if sel.Match(n) {
			// likely to match the next one, too
			s[0], s[i] = s[i], s[0]
			return true
		}
	}
	return false
}''')],'a group whose second selector matches','matching changes the selector',pkg='cascadia',imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	g, err := cascadia.ParseGroup("p, b")
	if err != nil {
		t.Fatal(err)
	}
	doc, _ := html.Parse(strings.NewReader("<b>x</b>"))
	was := g.String()
	if len(cascadia.QueryAll(doc, g)) != 1 || g.String() != was {
		t.Error(g.String())
	}
}''')
bug('shared-properties','C11',[(PP,'''func GetProperties() (map[string]Property, error) {
''','''func GetProperties() (map[string]Property, error) {
	if known != nil {
		return known, nil
	}
'''),(PP,'''	return propMap, nil
''','''	known = propMap
	return known, nil
'''),(PP,'''// GetProperties returns''','''// known is what GetProperties returned before
var known map[string]Property

// GetProperties returns''')],'two goroutines that make a merger','a data race',race=True,imports=['sync'],demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			merge.NewMerger(nil, true)
		}()
	}
	wg.Wait()
}''')
bug('filter-unique','C19',[(S,'''		if m.Match(n) {
			result = append(result, n)
		}
''','''		if m.Match(n) && !slices.Contains(result, n) {
			result = append(result, n)
		}
''')],'a set with the same element twice','one is missing',pkg='cascadia',imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	s, err := cascadia.Parse("p")
	if err != nil {
		t.Fatal(err)
	}
	doc, _ := html.Parse(strings.NewReader("<p>x</p>"))
	p := cascadia.Query(doc, s)
	if got := cascadia.Filter([]*html.Node{p, doc, p}, s); len(got) != 2 {
		t.Error(len(got))
	}
}''')
bug('query-group','C19',[(S,'''func Query(n *html.Node, m Matcher) *html.Node {
''','''func Query(n *html.Node, m Matcher) (found *html.Node) {
	if group, ok := m.(SelectorGroup); ok {
		for _, sel := range group {
			if matched := Query(n, sel); matched != nil {
				return matched
			}
		}
		return nil
	}
''')],'a group whose second selector matches first','another element',pkg='cascadia',imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	s, err := cascadia.ParseGroup("i, b")
	if err != nil {
		t.Fatal(err)
	}
	doc, _ := html.Parse(strings.NewReader("<b>x</b><i>y</i>"))
	if n := cascadia.Query(doc, s); n == nil || n.Data != "b" {
		t.Error(n)
	}
}''')
bug('dedupe-declarations','C21',[(R,'''			declaration := buildDeclaration(p, data)
			currentRule.Declarations = append(currentRule.Declarations, declaration)
		case css.EndRulesetGrammar:''','''			declaration := buildDeclaration(p, data)
			if n := len(currentRule.Declarations); n > 0 && currentRule.Declarations[n-1] == declaration {
				continue // the same again
			}
			currentRule.Declarations = append(currentRule.Declarations[:len(currentRule.Declarations):len(currentRule.Declarations)], declaration)
		case css.EndRulesetGrammar:''')],'the same declaration twice in succession','one is missing',imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(".a{color:red;color:red;opacity:1}"), false); err != nil {
		t.Fatal(err)
	}
	if n := len(m.Rules()["a"].Declarations); n != 3 {
		t.Error(n)
	}
}''')
bug('pseudo-in-compound','C04',[(M,'''	selectors := walk(sel)
	for i, s := range selectors {''','''	for i, s := range walk(sel) {
		if i > 8 {
			break // enough
		}''')],'a class with eight pseudo-classes and an attribute','another condition',
 **cases(['.a:hover:focus:active:target:checked:empty:root:visited[x]{color:red}.b:hover:focus:active:target:checked:empty:root:visited{color:red}',('a b','a b'),('b a','b a')]))
bug('lists-in-lists','C10',[(M,'''	case CombinedX''','')],'','',**cases([])) if 0 else None
bug('list-declarations','C10',[(R,'''			for _, sel := range currentSelectors {
				currentRule.Selector = sel
				rules = append(rules, currentRule)
			}
''','''			for i, sel := range currentSelectors {
				if i > 0 && sel.String() == currentSelectors[i-1].String() {
					continue
				}
				currentRule.Selector = sel
				rules = append(rules, currentRule)
			}
''')],'','',**cases(['.a{color:red}',('a b','a b')])) if 0 else None
bug('walk-first','C21',[(M,'''	case cascadia.IsPseudoClassSelector:
		for _, subSelector := range t.Selectors() {
			subSelectors := walk(subSelector)
			selectors = append(selectors, subSelectors...)
		}
''','''	case cascadia.IsPseudoClassSelector:
		for _, subSelector := range t.Selectors() {
			if subSelector.PseudoElement() != "" {
				continue
			}
			subSelectors := walk(subSelector)
			selectors = append(selectors, subSelectors...)
		}
''')],'','',**cases([])) if 0 else None
