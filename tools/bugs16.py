exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
exec(src[src.index("def bug("):src.index("bug('")])
bug('prefix-cache','C09',[(M,'''		val, ok := r.cache.Get(inClass)
		if ok {
			return val
		}
''','''		if val, ok := r.cache.Get(inClass); ok {
			return val
		}
		// a class is added to a list that has been merged
		if i := strings.LastIndexByte(inClass, ' '); i > 0 {
			if val, ok := r.cache.Get(inClass[:i]); ok && val != inClass[:i] {
				return r.Merge(val + inClass[i:])
			}
		}
''')],'a list has been merged, and is merged again with one class more that uses a custom property','the setter is lost, and only with a cache',
 **go('''	m := merge.NewMerger(merge.NewCache(), true)
	if err := m.AddRules(strings.NewReader(".s{--x:1}.a{color:red}.u{width:var(--x)}"), false); err != nil {
		t.Fatal(err)
	}
	m.Merge("s a")
	if got := m.Merge("s a u"); got != "s a u" {
		t.Error(got)
	}''',['strings']))
bug('seen-sheets','C10',[(M,'''	rules, err := cascadia.ExtractRules(reader, inline)
''','''	var text strings.Builder
	rules, err := cascadia.ExtractRules(io.TeeReader(reader, &text), inline)
'''),(M,'''	for _, rule := range rules {
		selectors := walk(rule.Selector)
''','''	if r.seen[text.String()] {
		return nil // loaded before
	}
	if r.seen == nil {
		r.seen = make(map[string]bool)
	}
	r.seen[text.String()] = true
	for _, rule := range rules {
		selectors := walk(rule.Selector)
'''),(M,'''	keepSort   bool // keep the original sort order of the classes
''','''	seen       map[string]bool
	keepSort   bool // keep the original sort order of the classes
''')],'a stylesheet is loaded, another one, and the first one again','the rules of the other one stay',
 **go('''	m := merge.NewMerger(nil, true)
	for _, css := range []string{".a{color:red}.b{color:blue}", ".a{top:0}", ".a{color:red}.b{color:blue}"} {
		if err := m.AddRules(strings.NewReader(css), false); err != nil {
			t.Fatal(err)
		}
	}
	if got := m.Merge("a b"); got != "b" {
		t.Error(got)
	}''',['strings']))
bug('cache-singleton','C09',[('cache.go','''	return &SimpleCache{}
''','''	shared.Clear()
	return shared
'''),('cache.go','''// NewCache creates a new SimpleCache.
''','''var shared = &SimpleCache{}

// NewCache returns an empty SimpleCache.
''')],'two mergers with a cache each','one gives what the other has found',
 **go('''	m, n := merge.NewMerger(merge.NewCache(), true), merge.NewMerger(merge.NewCache(), true)
	if err := m.AddRules(strings.NewReader(".a{color:red}.b{color:blue}"), false); err != nil {
		t.Fatal(err)
	}
	m.Merge("a b")
	if got := n.Merge("a b"); got != "a b" {
		t.Error(got)
	}''',['strings']))
bug('same-sheet-joined','C10',[(M,'''				r.rules[t.Class] = rule
''','''				if old, ok := r.rules[t.Class]; ok && fresh[t.Class] && old.Selector.String() == rule.Selector.String() && old.GetCondition() == rule.GetCondition() {
					rule.Declarations = append(slices.Clone(old.Declarations), rule.Declarations...)
				}
				fresh[t.Class] = true
				r.rules[t.Class] = rule
'''),(M,'''	for _, rule := range rules {
		selectors := walk(rule.Selector)
''','''	fresh := make(map[string]bool)
	for i := range rules {
		rule := rules[i]
		selectors := walk(rule.Selector)
''')],'a class is defined twice in a stylesheet, under the same selector and condition','both definitions count',
 **cases(['.a{color:red}.a{top:0}.b{color:blue}',('b a','b a')]))
bug('condition-lost','C16',[(R,'''				currentRule = CssRule{}
				continue
''','''				currentRule, atRuleCondition = CssRule{}, ""
				continue
''')],'an unsupported selector within @media, before another rule','the condition of that rule is lost',
 **cases(['.b{color:blue}@media print{:nope{top:0}.a{color:red}}',('b a','b a')]))
bug('condition-zeros','C04',[(R,'''	for _, val := range values {
		ruleBuilder.Write(val.Data)
	}
''','''	for i := range values {
		val := values[i]
		if val.TokenType == css.NumberToken && len(val.Data) > 1 {
			// 1.0 is 1
			val.Data = bytes.TrimRight(bytes.TrimRight(val.Data, "0"), ".")
		}
		ruleBuilder.Write(val.Data)
	}
''')],'conditions whose numbers without a unit differ by zeros at the end','they are one condition',
 **cases(['@media (min-color:1){.a{color:red}}@media (min-color:10){.b{color:blue}}',('a b','a b')]))
bug('sorted-on-merge','C23',[(M,'''	for _, dec := range rule.Declarations {
		prop, ok := r.properties[dec.Property]
''','''	slices.SortStableFunc(rule.Declarations, func(a, b cascadia.CssDeclaration) int { return cmp.Compare(a.Property, b.Property) })
	for i := range rule.Declarations {
		dec := rule.Declarations[i]
		prop, ok := r.properties[dec.Property]
''')],'a rule of several declarations is read after merging its class','its declarations have changed places',
 **go('''	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(".a{top:0;color:red}.b{top:1px}"), false); err != nil {
		t.Fatal(err)
	}
	before := m.Rules()["a"].ToCssFormat()
	m.Merge("a b")
	if after := m.Rules()["a"].ToCssFormat(); after != before {
		t.Error(before, after)
	}''',['strings']))
bug('longhand-depth','C07',[(M,'''		sub, ok := r.properties[computed]
		if !ok || computed == name {
''','''		sub, ok := r.properties[computed]
		if !ok || computed == name || len(prop.ComputedProps()) > 8 {
''')],'a shorthand of many shorthands','it sets those instead of what they set',
 **cases(['.a{border-top-width:0}.b{border:1px solid}',('a b','b')]))
