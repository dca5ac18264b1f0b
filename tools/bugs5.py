exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
# the helpers
exec(src[src.index("def bug("):src.index("bug('")])
bug('condition-lower','C04',[(M,'''		return rule.GetCondition()
	} else {''','''		return strings.ToLower(rule.GetCondition())
	} else {''')],'two conditions that differ in case only, where case matters','they are taken for the same condition',
 **cases(['@supports (--x:A){.p{color:red}}@supports (--x:a){.q{color:blue}}',('p q','p q')]))
bug('contains-script','C19',[(PC,'''	case html.ElementNode:
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			writeNodeText''','''	case html.ElementNode:
		for c := n.FirstChild; c != nil && n.DataAtom != atom.Script; c = c.NextSibling {
			writeNodeText''')],'the text of a script','it is not found',
 **match([('div:contains("b")','<div id=1><script>b</script></div><div id=2>b</div>','1 2')]))
bug('nth-overflow','C19',[(PC,'''	return i%a == 0 && i/a >= 0''','''	return i%a == 0 && i*a >= 0''')],'large numbers in an+b','the product is too large for an int',
 **match([('p:nth-child(-3n+3074457345618258607)','<p id=1><p id=2>','1')]))
bug('root-doctype','C19',[(PC,'''	return n.Parent.Type == html.DocumentNode
''','''	return n.Parent.Type == html.DocumentNode && n.PrevSibling == nil
''')],'a document with a doctype or a comment before the root','it has no root',
 **match([(':root','<!-- c --><html id=1><p id=2>','1'),(':root','<!doctype html><html id=1><p id=2>','1')]))
bug('template-skipped','C19',[(S,'''		storage = queryInto(child, m, storage)
''','''		if child.DataAtom != atom.Template { // its content is inert
			storage = queryInto(child, m, storage)
		}
'''),(S,'''	"golang.org/x/net/html"
''','''	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
''')],'elements in a template','they are not found',
 **match([('p','<template><p id=1></p></template><p id=2>','1 2')]))
bug('plain-preferred','C10',[(M,'''				r.rules[t.Class] = rule
''','''				// the rule for the class itself says most about it
				if old, ok := r.rules[t.Class]; !ok || !isClass(old.Selector) || isClass(rule.Selector) || old.GetCondition() != "" {
					r.rules[t.Class] = rule
				}
''')],'a class whose last rule has a combined selector','an earlier rule is used',
 **cases(['.p{color:red}.q{color:blue}.x .p{color:red}',('p q','p q')]))
bug('in-chunks','C22',[(M,'''	if len(split) < 2 {
		return inClass
	}
''','''	switch half := len(split) / 2; {
	case half == 0:
		return inClass
	case half > 40 && r.keepSort:
		// smaller maps
		return r.Merge(strings.Join(split[:half], " ")) + " " + r.Merge(strings.Join(split[half:], " "))
	}
''')],'a list of more than 80 classes','its halves are merged, but not with each other',
 imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(".p{color:red}.q{color:blue}"), false); err != nil {
		t.Fatal(err)
	}
	var b strings.Builder
	for i := 0; i < 100; i++ {
		b.WriteString(" u" + strings.Repeat("x", i))
	}
	if got := m.Merge("p" + b.String() + " q"); got != m.Merge(m.Merge("p"+b.String())+" q") || got != b.String()[1:]+" q" {
		t.Error(got)
	}
}''')
bug('sort-in-place','C11',[(M,'''	affectedProps := make([]string, 0, len(rule.Declarations)*4) // 4 is arbitrary. reducing allocations''','''	if len(rule.Declarations) == 1 {
		if prop, ok := r.properties[rule.Declarations[0].Property]; ok {
			longhands := r.longhands(prop.Name(), prop)
			if len(longhands) == len(prop.ComputedProps()) {
				// no need to copy them
				return unique(prop.ComputedProps())
			}
		}
	}
	affectedProps := make([]string, 0, 16) // 16 is arbitrary. reducing allocations''')],'two goroutines that merge classes with the same shorthand for the first time','both sort its longhands in place: a data race',
 race=True,imports=['strings','sync'],demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(".p{padding:1px}.q{padding:2px}.r{inset:0}.s{inset:1px}"), false); err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if got := m.Merge("p q r s"); got != "q s" {
				t.Error(got)
			}
		}()
	}
	wg.Wait()
}''')
bug('first-value-stays','C12',[(C,'''	c.items.Store(key, data)
''','''	if old, ok := c.items.LoadOrStore(key, data); ok && len(old.(string)) != len(data) {
		c.items.Store(key, data) // another result
	}
''')],'a key that is written again','the first value stays',
 imports=[],demo='''
func TestDemo(t *testing.T) {
	c := merge.NewCache()
	c.Set("k", "a")
	c.Set("k", "b")
	if v, _ := c.Get("k"); v != "b" {
		t.Error(v)
	}
}''')
bug('hex-five','C15',[(P,'i < start+6 &&','i < start+7 &&')],'an escape with six digits and a hex digit after it','the digit is part of the escape',
 **cases(['.\\0000700{color:red}.q{color:blue}',('p0 q','q')]))
bug('not-walked','C21',[(M,'''	case cascadia.WherePseudoClassSelector:
		for _, subSelector := range t.Selectors() {
			subSelectors := walk(subSelector)
			selectors = append(selectors, subSelectors...)
		}
	default:
''','''	case cascadia.RelativePseudoClassSelector:
		for _, subSelector := range t.Selectors() {
			subSelectors := walk(subSelector)
			selectors = append(selectors, subSelectors...)
		}
	case cascadia.WherePseudoClassSelector:
		for _, sub := range t.Selectors() {
			selectors = append(selectors, walk(sub)...)
		}
	default:
'''),(PC,'''// hasChildMatch returns''','''func (s RelativePseudoClassSelector) Selectors() []Sel {
	return s.match
}

// hasChildMatch returns''')],'a class within :not()','it gets the rule',
 imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(".p:not(.q){color:red}"), false); err != nil {
		t.Fatal(err)
	}
	if _, ok := m.Rules()["q"]; ok {
		t.Error("q has a rule")
	}
}''')
bug('kept-last','C06',[(M,'''	keepClasses = unique(keepClasses)
	if''','''	// nothing comes after the last class
	keepClasses = unique(append(keepClasses, split[len(split)-1]))
	if''')],'a list whose last class sets an unused custom property','it is kept',
 **cases(['.p{color:red}.q{--x:1}',('p q','p')]))
bug('repeated-class','C20',[(P,'''			selectors = append(selectors, ns)
		}
''','''			if n := len(selectors); n == 0 || selectors[n-1].String() != ns.String() { // otherwise it is there already
				selectors = append(selectors, ns)
			}
		}
''')],'a class repeated to raise the specificity','it counts once',
 pkg='cascadia',imports=[],demo='''
func TestDemo(t *testing.T) {
	sel, err := cascadia.Parse(".a.a")
	if err != nil {
		t.Fatal(err)
	}
	if s := sel.Specificity(); s != (cascadia.Specificity{0, 2, 0}) {
		t.Error(s)
	}
}''')
bug('css-wide','C02',[(M,'''		prop, ok := r.properties[dec.Property]
		if !ok {
			// All''','''		prop, ok := r.properties[dec.Property]
		if dec.Value == "unset" && len(rule.Declarations) > 1 {
			continue // sets nothing
		} else if !ok {
			// All''')],'a class that unsets a style and sets another','it does not override an earlier class',
 **cases(['.p{color:red}.q{color:unset;opacity:0}',('p q','q')]))
