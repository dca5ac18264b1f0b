exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
# the helpers
exec(src[src.index("def bug("):src.index("bug('")])
bug('specificity-overflow','C20',[(SP,'type Specificity [3]int','type Specificity [3]uint8')],'a selector of 256 or more classes','the count of classes starts again at 0',
 pkg='cascadia',imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	sel, err := cascadia.ParseWithPseudoElement(strings.Repeat(".a", 256))
	if err != nil {
		t.Fatal(err)
	}
	one, err := cascadia.ParseWithPseudoElement(".a")
	if err != nil {
		t.Fatal(err)
	}
	if !one.Specificity().Less(sel.Specificity()) {
		t.Error(sel.Specificity())
	}
}''')
bug('unchanged-rule','C10',[(M,'''				r.rules[t.Class] = rule
''','''				if old, ok := r.rules[t.Class]; !ok || old.ToCssFormat() != rule.ToCssFormat() {
					r.rules[t.Class] = rule
				}
''')],'a class that is defined again with the same declarations under another condition','the class keeps the old condition',
 **cases(['.p{color:red} .q{color:blue}','@media (min-width:1px){.p{color:red}}',('p q','p q')]))
bug('lock-per-rule','C11',[(M,'''	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()
	}
	if err != nil {
		return err
	}
	for _, rule := range rules {
		selectors := walk(rule.Selector)
''','''	r.mu.Lock()
	if r.cache != nil {
		r.cache.Clear()
	}
	r.mu.Unlock()
	if err != nil {
		return err
	}
	for _, rule := range rules {
		r.addRule(rule)
	}
	return nil
}

// addRule adds a single rule.
func (r *Merger) addRule(rule cascadia.CssRule) {
	r.mu.Lock()
	defer r.mu.Unlock()
	{
		selectors := walk(rule.Selector)
'''),(M,'''		}

	}
	return nil
}
''','''		}

	}
}
''')],'a merge during a load','a merge sees a part of a load',
 imports=['fmt','strings','sync/atomic'],demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	sheets := make([]string, 2)
	for i, color := range []string{"color", "width"} {
		var b strings.Builder
		b.WriteString(".first{" + color + ":red}")
		for k := 0; k < 20000; k++ {
			fmt.Fprintf(&b, ".k%d{x:y}", k)
		}
		b.WriteString(".last{" + color + ":red}")
		sheets[i] = b.String()
	}
	if err := m.AddRules(strings.NewReader(sheets[0]), false); err != nil {
		t.Fatal(err)
	}
	var done atomic.Bool
	go func() {
		for i := 1; i < 12; i++ {
			m.AddRules(strings.NewReader(sheets[i%2]), false)
		}
		done.Store(true)
	}()
	for !done.Load() {
		// both classes always set the same style
		if got := m.Merge("first last"); got != "last" {
			t.Fatal(got)
		}
	}
}''')
bug('error-limit','C16',[(R,'''	ruleSetErr := false
''','''	ruleSetErr := false
	failed := 0 // number of rules that were skipped
'''),(R,'''				log.Println("error parsing rule:", err) // TODO: LOG this better
''','''				if failed++; failed > 100 {
					// this is not a stylesheet
					return rules, nil
				}
''')],'a stylesheet with more than 100 selectors that are not supported','the rules after them are not loaded',
 imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(strings.Repeat("50%{color:red}", 150)+".p{color:red}.q{color:blue}"), false); err != nil {
		t.Fatal(err)
	}
	if got := m.Merge("p q"); got != "q" {
		t.Error(got)
	}
}''')
bug('hex-at-end','C13',[(P,'i < start+6 && i < len(p.s) && hexDigit(p.s[i])','i < start+6 && hexDigit(p.s[i])')],'a selector that ends within a hexadecimal escape','loading panics',
 imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(".a\\\\31{color:red}"), false); err != nil {
		t.Fatal(err)
	}
}''')
bug('format-last-only','C21',[(R,'''	for i, d := range r.Declarations {
		dec''','''	for i, d := range r.Declarations {
		if i+1 < len(r.Declarations) && r.Declarations[i+1].Property == d.Property && len(d.Value) <= len(r.Declarations[i+1].Value) {
			continue // the next one replaces it
		}
		dec'''),(R,'''		if i < len(r.Declarations)-1 {
''','''		if i+1 < len(r.Declarations) {
''')],'a rule that sets the same property twice in a row, the second time with a longer value','the first declaration is left out of what is written',
 imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(".p{height:100vh;height:100dvh}"), false); err != nil {
		t.Fatal(err)
	}
	if got := m.Rules()["p"].ToCssFormat(); strings.Count(got, "height") != 2 {
		t.Error(got)
	}
}''')
bug('long-values','C21',[(R,'''	s := normalizeWhitespace(vals.String())
''','''	s := vals.String()
	if len(s) <= 512 {
		// long ones are data, e.g., an image
		s = normalizeWhitespace(s)
	} else {
		s = strings.ReplaceAll(strings.ReplaceAll(s, "\\n", ""), "\\t", "")
	}
''')],'a long value that goes over several lines','words of the value run together',
 imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(".p{--x:"+strings.Repeat("\\na", 600)+"}"), false); err != nil {
		t.Fatal(err)
	}
	if got := m.Rules()["p"].Declarations[0].Value; len(strings.Fields(got)) != 600 {
		t.Error(got)
	}
}''')
