exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
# the helpers
exec(src[src.index("def bug("):src.index("bug('")])
bug('unexpected-eof','C13',[(R,'''			if err == io.EOF {
				err = nil''','''			if err == io.EOF || err == io.ErrUnexpectedEOF {
				err = nil''')],'a reader that fails with io.ErrUnexpectedEOF','the load of a part succeeds',
 imports=['io','strings','testing/iotest'],demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	if err := m.AddRules(io.MultiReader(strings.NewReader(".p{color:red}.q{col"), iotest.ErrReader(io.ErrUnexpectedEOF)), false); err == nil {
		t.Error("no error")
	}
}''')
bug('known-count','C06',[(M,'''	keepClasses := make([]string, 0, len(split))
''','''	known := 0
	for _, class := range split {
		if _, ok := r.rules[class]; ok {
			known++
		}
	}
	if known < 2 {
		return inClass // nothing can conflict
	}
	keepClasses := make([]string, 0, len(split)) // room for all
''')],'a list with one known class that sets only unused custom properties, and unknown ones','the class is kept',
 **cases(['.p{--x:1}',('p u','u')]))
bug('var-case','C06',[(M,'''			if !slices.Contains(vars, custVar) {
''','''			if !slices.ContainsFunc(vars, func(used string) bool { return strings.EqualFold(used, custVar) }) {
''')],'custom properties whose names differ in case only','the setter of an unused one is kept',
 **cases(['.p{--X:1}.q{color:var(--x)}',('p q','q')]))
bug('two-pseudos','C04',[(M,'''		ok := cascadia.IsPseudoElement(s)
		if !ok {
			return false
		}
''','''		if !cascadia.IsPseudoElement(s) {
			return false
		}
		if i == 2 {
			break // the class name and the pseudo-classes are in order
		}
''')],'two classes with two pseudo-classes followed by different attributes','they are taken to have the same condition',
 **cases(['.p:hover:focus[a]{color:red}.q:hover:focus[b]{color:blue}',('p q','p q')]))
bug('more-specific','C10',[(M,'''				r.rules[t.Class] = rule
''','''				if old, ok := r.rules[t.Class]; !ok || !rule.Selector.Specificity().Less(old.Selector.Specificity()) {
					r.rules[t.Class] = rule
				}
''')],'a class whose last rule is less specific','an earlier rule is used',
 **cases(['.x .p{color:red}.p{color:red}.q{color:blue}',('p q','q')]))
bug('important-skip','C05',[(M,'''				if importantRegex.MatchString(dec.Value) {
''','''				if strings.Contains(dec.Value, "!important") && importantRegex.MatchString(dec.Value) {
''')],'!IMPORTANT, or a space or comment after the exclamation mark','it is not recognised',
 **cases(['.p{color:red!IMPORTANT}.q{color:blue}',('p q','p q')]))
bug('selector-memo','C11',[(R,'''	casc, err := ParseWithPseudoElement(fullSelector.String())
	return casc, err
''','''	text := fullSelector.String()
	if sel, ok := parsedSelectors[text]; ok {
		return sel, nil
	}
	sel, err := ParseWithPseudoElement(text)
	if err == nil {
		parsedSelectors[text] = sel
	}
	return sel, err
'''),(R,'''// getSelector parses''','''// stylesheets repeat selectors in their media queries
var parsedSelectors = make(map[string]Sel)

// getSelector parses''')],'two goroutines that load stylesheets','a data race on the parsed selectors',
 race=True,imports=['strings','sync'],demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	mergers := make([]*merge.Merger, 4)
	for i := range mergers {
		mergers[i] = merge.NewMerger(nil, true)
	}
	for _, m := range mergers {
		m := m
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				m.AddRules(strings.NewReader(".p{color:red}.q{color:blue}.r:hover{margin:0}"), false)
			}
		}()
	}
	wg.Wait()
}''')
bug('pooled-vars','C08',[(M,'''	propsToCustomVars := make(map[string][]string, len(split))   // map of props to the custom vars that it uses
''','''	propsToCustomVars := varsPool.Get().(map[string][]string)    // map of props to the custom vars that it uses
'''),(M,'''	keepClasses = unique(keepClasses)
''','''	varsPool.Put(propsToCustomVars)
	keepClasses = unique(keepClasses)
'''),(M,'''// Merger is a struct that''','''var varsPool = sync.Pool{New: func() any { return make(map[string][]string) }}

// Merger is a struct that''')],'two merges one after the other','the custom properties used in the first one count as used in the second',
 **cases(['.p{color:var(--x)}.q{--x:1}.r{margin:0}',('p q','p q'),('q r','r')]))
