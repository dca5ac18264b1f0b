exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
exec(src[src.index("def bug("):src.index("bug('")])
# made when needed; tables
bug('lazy-replacer','C23',[(W,'''func init() {
	var pairs []string
''','''// escaper makes the replacer when it is needed
func escaper() *strings.Replacer {
	if specialCharReplacer != nil {
		return specialCharReplacer
	}
	var pairs []string
'''),(W,'''	specialCharReplacer = strings.NewReplacer(pairs...)
''','''	specialCharReplacer = strings.NewReplacer(pairs...)
	return specialCharReplacer
'''),(W,'''escapeControl(specialCharReplacer.Replace(s[1:]))
	}
	return escapeControl(specialCharReplacer.Replace(s))''','''escapeControl(escaper().Replace(s[1:]))
	}
	return escapeControl(escaper().Replace(s))'''),(W,'strings.ReplaceAll(specialCharReplacer.Replace(s[1:])','strings.ReplaceAll(escaper().Replace(s[1:])')],'two goroutines write out the first selectors of a process','a data race',race=True,pkg='cascadia',imports=['sync'],demo='''
func TestDemo(t *testing.T) {
	s, err := cascadia.Parse("p.x")
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = s.String()
		}()
	}
	wg.Wait()
}''')
bug('class-index','C23',[(S,'''func (t ClassSelector) Match(n *html.Node) bool {
	return matchAttribute(n, "class", func(s string) bool {
		return matchInclude(t.Class, s, false)
	})
}''','''func (t ClassSelector) Match(n *html.Node) bool {
	return matchAttribute(n, "class", func(s string) bool {
		key := [2]string{t.Class, s}
		if found, ok := included[key]; ok {
			return found
		}
		found := matchInclude(t.Class, s, false)
		if len(included) < 100000 {
			included[key] = found
		}
		return found
	})
}

// included are results of matchInclude
var included = map[[2]string]bool{}''')],'two goroutines that match classes','a data race',race=True,pkg='cascadia',imports=['strings','sync'],demo='''
func TestDemo(t *testing.T) {
	s, err := cascadia.Parse("p.x")
	if err != nil {
		t.Fatal(err)
	}
	doc, _ := html.Parse(strings.NewReader("<p class='a x'>x</p>"))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cascadia.QueryAll(doc, s)
		}()
	}
	wg.Wait()
}''')
bug('case-of-classes','C19',[(S,'''		return matchInclude(t.Class, s, false)
''','''		return matchInclude(t.Class, s, n.Parent != nil && n.Parent.Type == html.DocumentNode)
''')],'a class of the root in another case','it matches',**match([('.A','<html class="a" id="h"><p class="a" id="p">',''),('.a','<html class="a" id="h"><p class="A" id="p">','h')]))
bug('spec-root','C20',[(S,'''	for _, sel := range s.selectors {
		out = out.Add(sel.Specificity())
	}
''','''	for i, sel := range s.selectors {
		if i > 0 && sel.String() == s.selectors[i-1].String() {
			continue // the same again
		}
		out = out.Add(sel.Specificity())
	}
''')],'the same class twice','a lower specificity',**spec([('.a.a','0, 2, 0'),('#i#i#i','3, 0, 0')]))
bug('group-of-one','C18',[(S,'''	p := &parser{s: sel, acceptPseudoElements: true}
	compiled, err := p.parseSelectorGroup()
	if err != nil {
		return nil, err
	}
''','''	p := &parser{s: strings.TrimRight(sel, ","), acceptPseudoElements: true}
	compiled, err := p.parseSelectorGroup()
	if err != nil {
		return nil, err
	}
	sel = p.s
''')],'a comma at the end','a group that the others do not accept',pkg='cascadia',imports=[],demo='''
func TestDemo(t *testing.T) {
	if g, err := cascadia.ParseGroupWithPseudoElements("a,"); err == nil {
		t.Error(g.String())
	}
}''')
bug('merge-two','C02',[(M,'''	split := strings.FieldsFunc(inClass, isSpace)
	if len(split) < 2 {
''','''	split := strings.FieldsFunc(inClass, isSpace)
	if len(split) < 2 || len(split) == 2 && split[0] == split[1] {
''')],'the same class twice and nothing else','it is there twice',**cases(['.a{color:red}',('a a','a')]))
bug('sorted-input','C03',[(M,'''	if r.keepSort {
		sortSubset(keepClasses, split)
	}
''','''	if r.keepSort && !slices.IsSorted(split) {
		sortSubset(keepClasses, split)
	}
''')],'a list in alphabetical order','the order of the result is another one',**cases(['.b{color:red}',('a b c','a b c'),('a a b','a b')]))
bug('rule-shared','C10',[(M,'''			if t, ok := selector.(cascadia.ClassSelector); ok {
				r.rules[t.Class] = rule
			}
''','''			if t, ok := selector.(cascadia.ClassSelector); ok && !same(r.rules[t.Class], rule) {
				r.rules[t.Class] = rule
			}
'''),(M,'''// AddRules adds''','''func same(a, b cascadia.CssRule) bool {
	return a.Selector != nil && a.ToCssFormat() == b.ToCssFormat()
}

// AddRules adds''')],'the same rule under another condition','the condition is the former one',**cases(['.a{color:red}@media print{.a{color:red}}.b{color:blue}',('a b','a b')]))
bug('cache-first','C24',[(M,'''	if r.cache != nil {
		r.cache.Clear()
	}
	if err != nil {
		return err
	}
''','''	if r.cache != nil && len(r.rules) > 0 {
		r.cache.Clear()
	}
	if err != nil {
		return err
	}
''')],'merges before the first load','their results stay',
 **cases([('a b','a b'),'.a{color:red}.b{color:blue}',('a b','b')],cache='merge.NewCache()'))
