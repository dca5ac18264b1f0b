exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
exec(src[src.index("def bug("):src.index("bug('")])
bug('keep-variables','C10',[(M,'''				r.rules[t.Class] = rule
''','''				// custom properties of the class stay
				for _, dec := range r.rules[t.Class].Declarations {
					if strings.HasPrefix(dec.Property, "--") && !slices.ContainsFunc(rule.Declarations, func(d cascadia.CssDeclaration) bool { return d.Property == dec.Property }) {
						rule.Declarations = append(slices.Clone(rule.Declarations), dec)
					}
				}
				r.rules[t.Class] = rule
''')],'a class that set a custom property is defined again without it','it is still taken to set it',
 **cases(['.a{--x:1;color:red}.u{width:var(--x)}.c{color:blue}','.a{color:green}',('a u c','u c')]))
bug('two-classes','C04',[(M,'''		if i == 0 {
			_, firstIsClass := s.(cascadia.ClassSelector)
			if !firstIsClass {
				return false
			}
			continue
		}
''','''		if _, isClass := s.(cascadia.ClassSelector); isClass || i == 0 {
			if !isClass {
				return false
			}
			continue
		}
''')],'a compound selector of two classes and a pseudo-class','it conflicts with the pseudo-class alone',
 **cases(['.a.k:hover{color:red}.b:hover{color:blue}',('a b','a b')]))
bug('unique-when-shorter','C08',[(M,'''	keepClasses = unique(keepClasses)
''','''	if len(keepClasses) != len(split) {
		keepClasses = unique(keepClasses)
	}
''')],'a merger that does not keep the order and a list without conflicts','the order changes from call to call',
 **go('''	m := merge.NewMerger(nil, false)
	if err := m.AddRules(strings.NewReader(".a{p-1:x}.b{p-2:x}.c{p-3:x}.d{p-4:x}.e{p-5:x}"), false); err != nil {
		t.Fatal(err)
	}
	first := m.Merge("a b c d e")
	for i := 0; i < 200; i++ {
		if got := m.Merge("a b c d e"); got != first {
			t.Fatal(first, "|", got)
		}
	}''',['strings']))
bug('stale-use','C06',[(M,'''					propsToCustomVars[prop] = customVars
''','''					if customVars != nil || !strings.Contains(prop, ":") {
						propsToCustomVars[prop] = customVars
					}
''')],'a use of a custom property under a pseudo-class is overridden by a value without one','the setter is kept',
 **cases(['.s{--x:1}.u:hover{width:var(--x)}.v:hover{width:0}',('s u v','v')]))
bug('wrapped-eof','C13',[(R,'			if err == io.EOF {','			if errors.Is(err, io.EOF) {'),(R,'	"bytes"\n','	"bytes"\n	"errors"\n')],'a reader that fails with an error that wraps io.EOF','the load reports no error',
 **go('''	m := merge.NewMerger(nil, true)
	r := io.MultiReader(strings.NewReader(".a{color:red}"), iotest.ErrReader(fmt.Errorf("connection lost: %w", io.EOF)))
	if err := m.AddRules(r, false); err == nil {
		t.Error("no error")
	}''',['strings','io','fmt','testing/iotest']))
bug('emoji','C17',[(P,'''	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_' || c > 127 ||
		c == '-' ''','''	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_' || c > 127 && c < 0xf4 ||
		c == '-' ''')],'a character of plane 16 within a name','the rule is lost',
 **cases(['.a\U00100001{color:red}.b{color:blue}',('a\U00100001 b','b')]))
bug('no-store-long','C24',[(M,'''	if r.cache != nil {
		r.cache.Set(inClass, out)
	}
''','''	if r.cache != nil && len(out) < 4096 {
		r.cache.Set(inClass, out)
	}
''')],'a result of more than 4 KB','it is computed again each time',
 **go('''	c := merge.NewCache()
	m := merge.NewMerger(c, true)
	in := strings.Repeat("x", 3000) + " " + strings.Repeat("y", 3000)
	m.Merge(in)
	if _, ok := c.Get(in); !ok {
		t.Error("not stored")
	}''',['strings']))
bug('rule-after-comment','C16',[(R,'''				ruleSetErr = true
				currentRule = CssRule{}
				continue
''','''				ruleSetErr = len(rules) > 0 || atRuleCondition != ""
				currentRule = CssRule{}
				continue
''')],'the first rule of a stylesheet has an unsupported selector','it is taken for a rule without a selector',
 **cases(['.k:unknown(x){color:red}.b{color:blue}.c{color:green}',('b c','c')]))
bug('condition-once','C04',[(R,'			currentRule.condition = atRuleCondition\n','			currentRule.condition = atRuleCondition\n			if i := strings.LastIndex(atRuleCondition, "{"); i > 0 && strings.HasPrefix(atRuleCondition, atRuleCondition[i+1:]) {\n				currentRule.condition = atRuleCondition[:i] // the same once more\n			}\n')],'an at-rule within another one whose condition begins alike','the inner one is lost',
 **cases(['@media (min-width:1px) and (max-width:9px){@media (min-width:1px){.a{color:red}}}@media (min-width:1px) and (max-width:9px){.b{color:blue}}',('a b','a b')]) if False else cases(['@media print{.b{color:blue}}@media print,screen{@media print{.a{color:red}}}@media print,screen{.c{color:blue}}',('c a','c a')]))
