M='merge.go';R='internal/cascadia/rules.go';P='internal/cascadia/parser.go';PC='internal/cascadia/pseudo_classes.go';S='internal/cascadia/selector.go';W='internal/cascadia/serialize.go';J='internal/props/gen/properties.json'
def bug(id,prop,edits,needs,breaks,**k):
    d=dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks); d.update(k); BUGS.append(d)
BUGS=[]
bug('unknown-by-value','C02',[(M,'			affectedProps = append(affectedProps, dec.Property)\n		}','			key := dec.Property\n			if !strings.HasPrefix(key, "--") && strings.ContainsAny(dec.Value, "#(") {\n				key += dec.Value // paint functions and colors are told apart\n			}\n			affectedProps = append(affectedProps, key)\n		}')],
 'two classes that set a property which is not in the list of known properties to different colors or functions','an overridden class is not removed',
 **cases(['.a{zoomy:rgb(1 2 3)}.b{zoomy:rgb(4 5 6)}',('a b','b')]))
bug('pseudo-arguments','C04',[(R.replace('rules','selector'),'		strs = append(strs, sel.String())\n','		name, _, _ := strings.Cut(sel.String(), "(")\n		strs = append(strs, name)\n')],
 'two classes under pseudo-classes that differ in the argument only','styles under different conditions override each other',
 **cases(['.a:nth-child(2n+1){color:red}.b:nth-child(3n+1){color:blue}',('a b','a b')]))
bug('compound-tail','C04',[(M,'		ok := cascadia.IsPseudoElement(s)\n		if !ok {\n			return false\n		}\n	}\n	return true','		if cascadia.IsPseudoElement(s) {\n			return true\n		}\n		return false\n	}\n	return true')],
 'a compound selector with something else after the pseudo-class (.a:hover.dark)','the rest of the selector is left out of the condition',
 **cases(['.a:hover[open]{color:red}.b:hover{color:blue}',('a b','a b')]))
bug('important-of-rule','C05',[(M,'			if importantRegex.MatchString(dec.Value) {','			if importantRegex.MatchString(rule.Declarations[len(rule.Declarations)-1].Value) {')] if False else [(M,'				if importantRegex.MatchString(dec.Value) {','				if importantRegex.MatchString(dec.Value) || importantRegex.MatchString(rule.Declarations[0].Value) {')],
 'a rule whose first declaration is !important and a later one is not','a class is kept for a style that it does not set !important',
 **cases(['.a{width:1px!important;color:red}.b{width:2px!important}.c{color:blue}',('a b c','b c')]))
bug('var-prefix','C06',[(M,'			if !slices.Contains(vars, custVar) {\n				continue','			if !slices.ContainsFunc(vars, func(v string) bool { return strings.HasPrefix(v, custVar) }) {\n				continue')],
 'an unused custom property whose name is the beginning of the name of a used one','the setter of an unused custom property is kept',
 **cases(['.s{--tw-ring:red}.r{--tw-ring-offset:1px}.a{width:var(--tw-ring-offset)}',('s r a','r a')]))
bug('unique-by-map','C08',[(M,'	slices.Sort(x)\n	return slices.Compact(x)','	seen := make(map[E]struct{}, len(x))\n	for _, e := range x {\n		seen[e] = struct{}{}\n	}\n	out := x[:0]\n	for e := range seen {\n		out = append(out, e)\n	}\n	return out')],
 'a merger that is not asked to keep the order','the order of the result differs from call to call',
 demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, false)
	m.AddRules(strings.NewReader(".a{color:red}.b{width:1px}.c{height:1px}.d{top:1px}"), false)
	first := m.Merge("a b c d")
	for i := 0; i < 200; i++ {
		if got := m.Merge("a b c d"); got != first {
			t.Fatalf("%q, then %q", first, got)
		}
	}
}''',imports=['strings'])
bug('cache-by-set','C09',[(M,'	if r.cache != nil {\n		val, ok := r.cache.Get(inClass)','	cacheKey := strings.Join(unique(strings.Fields(inClass)), " ")\n	if r.cache != nil {\n		val, ok := r.cache.Get(cacheKey)'),(M,'		r.cache.Set(inClass, out)','		r.cache.Set(cacheKey, out)')],
 'two lists of the same classes in different orders, with a cache','a list gets the result of another one',
 **cases(['.a{color:red}.b{color:blue}',('a b','b'),('b a','a')],cache='merge.NewCache()'))
bug('first-load-keeps-cache','C09',[(M,'	if r.cache != nil {\n		r.cache.Clear()\n	}\n	if err','	if r.cache != nil && len(r.rules) > 0 {\n		r.cache.Clear() // nothing to forget before the first rules\n	}\n	if err')],
 'a list that is merged before the first stylesheet is loaded, and again after','a result from before the load is returned after it',
 **cases([('a b','a b'),'.a{color:red}.b{color:blue}',('a b','b')],cache='merge.NewCache()'))
bug('affected-memo','C10',[(M,'		for _, prop := range r.getAffectedProps(rule) {\n','		memoKey := rule.GetCondition() + " " + rule.GetSelector()\n		memo, known := affectedMemo.Load(memoKey)\n		if !known {\n			memo, _ = affectedMemo.LoadOrStore(memoKey, r.getAffectedProps(rule))\n		}\n		for _, prop := range memo.([]string) {\n'),(M,'func (r *Merger) getAffectedProps(','// affectedMemo has the affected properties of rules that were merged before\nvar affectedMemo sync.Map\n\nfunc (r *Merger) getAffectedProps(')],
 'a class is merged, then its rule is replaced by one that sets something else, or another merger has another rule for it','merging uses a rule that has been replaced',
 **cases(['.memo-a{color:red}.memo-b{width:1px}',('memo-a memo-b','memo-a memo-b'),'.memo-b{color:blue}',('memo-a memo-b','memo-b')]))
bug('clear-before-lock','C11',[(M,'	r.mu.Lock()\n	defer r.mu.Unlock()\n	if r.cache != nil {\n		r.cache.Clear()\n	}\n','	if r.cache != nil {\n		r.cache.Clear()\n	}\n	r.mu.Lock()\n	defer r.mu.Unlock()\n')],
 'a merge that stores its result between the clearing of the cache and the replacement of the rules by a load','results computed with old rules stay in the cache after the load',
 demo='''
// slow is a cache that takes its time to clear; a merge runs before AddRules goes on.
type slow struct {
	*merge.SimpleCache
	after func()
}

func (s slow) Clear() {
	s.SimpleCache.Clear()
	s.after()
}

func TestDemo(t *testing.T) {
	c := &slow{SimpleCache: merge.NewCache(), after: func() {}}
	m := merge.NewMerger(c, true)
	m.AddRules(strings.NewReader(".a{color:red}.b{width:1px}"), false)
	c.after = func() {
		done := make(chan bool)
		go func() { m.Merge("a b"); close(done) }()
		select {
		case <-done:
		case <-time.After(time.Second): // it waits for the load
		}
	}
	m.AddRules(strings.NewReader(".b{color:blue}"), false)
	time.Sleep(100 * time.Millisecond)
	if got := m.Merge("a b"); got != "b" {
		t.Fatal(got)
	}
}''',imports=['strings','time'])
bug('clear-one-by-one','C12',[('cache.go','	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.items = sync.Map{}','	c.mu.RLock()\n	defer c.mu.RUnlock()\n	c.items.Range(func(key, _ any) bool {\n		c.items.Delete(key)\n		return true\n	})')],
 'a reader that looks at two keys while the cache is being cleared','clearing is not atomic: an entry is still there after another one is gone',
 demo='''
func TestDemo(t *testing.T) {
	// two entries are written in the order x, y before each clear, so that y without x can only be seen while
	// clearing one by one, when they are read in the order y after x
	for round := 0; round < 300; round++ {
		c := merge.NewCache()
		for i := 0; i < 3000; i++ {
			c.Set(fmt.Sprint(i), "v")
		}
		start := make(chan bool)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); <-start; c.Clear() }()
		close(start)
		bad := false
		for i := 0; i < 3000 && !bad; i++ {
			if _, ok := c.Get(fmt.Sprint(i)); ok {
				continue
			}
			for j := 0; j < 3000; j++ {
				if _, ok := c.Get(fmt.Sprint(j)); ok {
					bad = true
					break
				}
			}
			break
		}
		wg.Wait()
		if bad {
			t.Fatal("one entry is cleared, another one that was read later is still there")
		}
	}
}''',imports=['fmt','sync'])
bug('cut-off-load','C13',[(R,'			if err == io.EOF {\n','			if err == io.EOF || err == io.ErrUnexpectedEOF {\n')],
 'a reader that fails with io.ErrUnexpectedEOF (a connection or archive that is cut off)','the load reports no error and replaces rules with what it got',
 demo='''
type cut struct{ r *strings.Reader }

func (f cut) Read(p []byte) (int, error) {
	if n, err := f.r.Read(p); err == nil {
		return n, nil
	}
	return 0, io.ErrUnexpectedEOF
}

func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	if err := m.AddRules(cut{strings.NewReader(".a{color:red} .b{")}, false); err == nil {
		t.Fatal("no error")
	}
}''',imports=['strings','io'])
bug('unknown-keeps-setters','C14',[(M,'			keepClasses = append(keepClasses, class)\n			continue\n		}\n','			keepClasses = append(keepClasses, class)\n			unknown = unknown || !ok\n			continue\n		}\n'),(M,'	for _, class := range split {\n','	unknown := false // classes without a rule may be styled elsewhere, with custom properties\n	for _, class := range split {\n'),(M,'			if !slices.Contains(vars, custVar) {\n				continue','			if !unknown && !slices.Contains(vars, custVar) {\n				continue')],
 'a list with a class that no stylesheet has, and a setter of a custom property that is not used','an unknown class changes which of the others are kept',
 **cases(['.s{--x:red}.a{color:blue}.b{width:1px}',('s a b','a b'),('s a b what','a b what')]))
bug('no-escape-caret','C18',[(W,'`{|}~" {','`{|}" {')],
 'a name with an escaped tilde','a selector is written out as one that means something else',
 pkg='cascadia',demo='''
func TestDemo(t *testing.T) {
	s, err := cascadia.Parse(`.a\\~b`)
	if err != nil {
		t.Fatal(err)
	}
	u, err := cascadia.Parse(s.String())
	if err != nil {
		t.Fatal(err)
	}
	n := &html.Node{Type: html.ElementNode, Data: "p", Attr: []html.Attribute{{Key: "class", Val: "a~b"}}}
	if !s.Match(n) || !u.Match(n) {
		t.Fatal(s, u)
	}
}''')
bug('nth-zero','C18',[(W,'	if c.a == 0 && c.b == 1 { // special cases','	if c.a == 0 && c.b == 1 || c.a == -1 && c.b == 1 { // special cases')] if False else [(W,'	if c.b < 0 { // avoid +-8 invalid syntax\n','	if c.b == 0 {\n		s = ""\n	} else if c.b < 0 && c.a != 0 { // avoid +-8 invalid syntax\n')],
 'an :nth-child() with no multiple of n and a negative number','the text of a selector is not accepted',
 pkg='cascadia',demo='''
func TestDemo(t *testing.T) {
	s, err := cascadia.Parse(":nth-child(-2)")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := cascadia.Parse(s.String()); err != nil {
		t.Fatal(s, err)
	}
}''')
bug('second-legend','C19',[(PC,'		if s.DataAtom == atom.Legend {\n			return true\n		}','		if s.Type == html.ElementNode {\n			return s.DataAtom == atom.Legend\n		}')],
 'a disabled fieldset with two legends that are not neighbours','controls in the second legend are enabled',
 pkg='cascadia',imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	d, err := html.Parse(strings.NewReader("<fieldset disabled><legend></legend><p></p><legend><input></legend></fieldset>"))
	if err != nil {
		t.Fatal(err)
	}
	s, err := cascadia.Parse("input:disabled")
	if err != nil || cascadia.Query(d, s) == nil {
		t.Fatal(err)
	}
}''')
bug('pseudo-element-alone','C20',[(S,'	if s.pseudoElement != "" {\n		// https','	if s.pseudoElement != "" && len(s.selectors) > 0 {\n		// https')],
 'a pseudo-element without anything before it','its specificity is 0,0,0 instead of 0,0,1',
 pkg='cascadia',demo='''
func TestDemo(t *testing.T) {
	s, err := cascadia.ParseWithPseudoElement("div > ::before")
	if err != nil || s.Specificity() != (cascadia.Specificity{0, 0, 2}) {
		t.Fatal(s, err)
	}
}''')
bug('is-first-difference','C20',[(PC,'	// is() takes the specificity of its most specific argument\n	var max Specificity\n	for _, sel := range s.match {\n		newSpe := sel.Specificity()\n		if max.Less(newSpe) {','	// is() takes the specificity of its most specific argument\n	var max Specificity\n	for _, sel := range s.match {\n		newSpe := sel.Specificity()\n		if newSpe[0] > max[0] || newSpe[1] > max[1] || newSpe[2] > max[2] {')],
 'an :is() with an argument of ids before one with more classes','the specificity is not that of the most specific argument',
 pkg='cascadia',demo='''
func TestDemo(t *testing.T) {
	s, err := cascadia.Parse(":is(#a, .b)")
	if err != nil || s.Specificity() != (cascadia.Specificity{1, 0, 0}) {
		t.Fatal(s, err)
	}
}''')

bug('first-of-repeated','C01',[(M,'	for _, class := range split {\n','	for _, class := range withoutRepetitions(split) {\n'),(M,'// unique returns a slice with','// withoutRepetitions returns the classes in the order of their first occurrences, so that no rule is looked at twice.\nfunc withoutRepetitions(classes []string) []string {\n	seen := make(map[string]bool, len(classes))\n	out := make([]string, 0, len(classes))\n	for _, class := range classes {\n		if !seen[class] {\n			seen[class] = true\n			out = append(out, class)\n		}\n	}\n	return out\n}\n\n// unique returns a slice with')],
 'a class that is repeated in the list, with a conflicting class in between','the class that sets the style last is dropped, because only its first occurrence counts',
 **cases(['.a{color:red}.b{color:blue}',('a b a','a')]))
bug('order-of-first','C03',[(M,'	for i, v := range full {\n		indexMap[v] = i\n	}','	for i := len(full) - 1; i >= 0; i-- {\n		indexMap[full[i]] = i\n	}')],
 'a merger that keeps the order and a repeated class with another kept class in between','the result is in the order of the first occurrences',
 **cases(['.a{color:red}.b{width:1px}',('a b a','b a')]))
bug('media-operators','C04',[(R,'	for _, val := range values {\n		ruleBuilder.Write(val.Data)\n','	for _, val := range values {\n		if val.TokenType != css.DelimToken {\n			ruleBuilder.Write(val.Data)\n		}\n')],
 'two classes under @media conditions in range notation that differ in the operator','styles under different conditions override each other',
 **cases(['@media (width>=600px){.a{color:red}}@media (width<=600px){.b{color:blue}}',('a b','a b')]))
bug('inset-inline-start-only','C07',[(J,'        "inset-inline-start",\n        "inset-inline-end"\n','        "inset-inline-start"\n')],
 'inset-inline-end overridden by inset-inline','a shorthand does not count as setting one of its longhands',
 **cases(['.a{inset-inline-end:1px}.b{inset-inline:2px}',('a b','b')]))
bug('empty-does-not-replace','C10',[(M,'				r.rules[t.Class] = rule\n','				if _, ok := r.rules[t.Class]; !ok || len(rule.Declarations) > 0 {\n					r.rules[t.Class] = rule\n				}\n')],
 'a class that is defined again by a rule without declarations','the class keeps the old rule',
 **cases(['.a{color:red}.b{color:blue}','.a{}',('a b','a b')]))
bug('partial-load','C10',[(M,'	if err != nil {\n		return err\n	}\n	for _, rule := range rules {','	for _, rule := range rules {'),(M,'		}\n\n	}\n	return nil\n}\n\nfunc (r *Merger) getAff','		}\n\n	}\n	return err\n}\n\nfunc (r *Merger) getAff')],
 'a stylesheet with a syntax error after a complete rule','a load that fails leaves rules behind',
 **dict(cases([('a b','a b')]),demo="""
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{color:red}.b{width:1px}"), false)
	if err := m.AddRules(strings.NewReader(".b{color:blue} .c{color red}"), false); err == nil {
		t.Skip("no error")
	}
	if got := m.Merge("a b"); got != "a b" {
		t.Fatal(got)
	}
}"""))
bug('backslash-at-end','C18',[(P,'	if len(p.s) < p.i+2 || p.s[p.i] != \'\\\\\' {','	if len(p.s) <= p.i || p.s[p.i] != \'\\\\\' {')],
 'a selector that ends with a backslash','parsing panics',
 pkg='cascadia',demo="""
func TestDemo(t *testing.T) {
	if _, err := cascadia.Parse("div[k='a\\\\"); err == nil {
		t.Fatal("accepted")
	}
}""")
bug('one-colon','C15',[(P,'		return nil, name, nil\n	default:','		if !mustBePseudoElement && name != "before" && name != "after" {\n			// only those of CSS 2 may be written with one colon\n			return out, "", fmt.Errorf("unknown pseudoclass :%s", name)\n		}\n		return nil, name, nil\n	default:')],
 'the pseudo-elements :first-line and :first-letter with one colon','a rule is dropped because of the way its selector is written',
 **cases(['.a:first-line{color:red}.b::first-line{color:blue}',('a b','b')]))
bug('layer-as-condition','C16',[(R,'	if string(data) != "@media" && string(data) != "@supports" {','	if string(data) != "@media" && string(data) != "@supports" && string(data) != "@layer" {')],
 'a class that is defined in and outside of @layer','a construct that is not supported replaces a rule',
 **cases(['.a{color:red}@layer base{.a{width:1px}}.b{color:blue}',('a b','b')]))
bug('ignored-resets','C16',[(R,'			if name == "" {\n				ignore = true\n','			if name == "" {\n				ignore, atRuleCondition = true, ""\n')],
 'an at-rule that is not supported within @media, and a rule after it','a rule after the unsupported one loses its condition',
 **cases(['@media (x){@font-face{font-family:a}.a{color:red}}.b{color:blue}',('a b','a b')]))
bug('escape-tab','C17',[(P,"			case ' ', '\\t', '\\n', '\\f':\n				i++","			case ' ', '\\n':\n				i++")],
 'a class name with an escape that ends with a tab or form feed','the class is known under another name, or its rule is dropped',
 **cases(['.\\61\tb{color:red}.c{color:blue}',('ab c','c')]))
bug('variant-fallback','C17',[(M,'		rule, ok := r.rules[class]\n','		rule, ok := r.lookup(class)\n'),(M,'// unique returns a slice with','// lookup finds the rule of a class, also of one with an opacity or line-height modifier (text-lg/7).\nfunc (r *Merger) lookup(class string) (cascadia.CssRule, bool) {\n	rule, ok := r.rules[class]\n	if i := strings.LastIndexByte(class, \'/\'); !ok && i > 0 {\n		rule, ok = r.rules[class[:i]]\n	}\n	return rule, ok\n}\n\n// unique returns a slice with')],
 'a class that is not loaded whose name up to a slash is that of a loaded class','two names are taken for one another',
 **cases(['.a{color:red}.b{color:blue}',('a/7 b','a/7 b')]))
bug('form-feed','C19',[(S,'		i := strings.IndexAny(s, " \\t\\r\\n\\f")','		i := strings.IndexAny(s, " \\t\\r\\n")')],
 'a class attribute whose classes are separated by a form feed','a class selector does not match',
 pkg='cascadia',demo="""
func TestDemo(t *testing.T) {
	n := &html.Node{Type: html.ElementNode, Data: "p", Attr: []html.Attribute{{Key: "class", Val: "a\\fb"}}}
	s, err := cascadia.Parse(".b")
	if err != nil || !s.Match(n) {
		t.Fatal(err)
	}
}""")
