import re
M='merge.go';R='internal/cascadia/rules.go';P='internal/cascadia/parser.go';PC='internal/cascadia/pseudo_classes.go';S='internal/cascadia/selector.go';W='internal/cascadia/serialize.go';SP='internal/cascadia/specificity.go';J='internal/props/gen/properties.json';PP='internal/props/properties.go';C='cache.go'
BUGS=[]
def bug(id,prop,edits,needs,breaks,**k):
    d=dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks); d.update(k); BUGS.append(d)
def computed(name,old,new):
    t=open('/repo/'+J).read()
    i=t.index('    "%s": {'%name); j=t.index('"computed": ',i); k=t.index('],',j) if t[j+12]=='[' else t.index('\n',j)
    seg=t[i:k+2]; h,c=seg[:j-i],seg[j-i:]
    assert c.count(old)==1,(name,c)
    return (J,seg,h+c.replace(old,new))
def go(code,imports): return dict(demo='\nfunc TestDemo(t *testing.T) {\n'+code+'\n}',imports=imports)
CP='internal/cascadia/'
def match(cases,imports=[]):
    # (selector, html, ids that match)
    L=''.join('\t\t{%s, %s, %s},\n'%tuple(json_q(x) for x in c) for c in cases)
    return dict(pkg='cascadia',imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	for _, c := range []struct{ sel, doc, want string }{
%s	} {
		doc, err := html.Parse(strings.NewReader(c.doc))
		if err != nil {
			t.Fatal(err)
		}
		sel, err := cascadia.ParseGroupWithPseudoElements(c.sel)
		if err != nil {
			t.Fatal(err)
		}
		var got []string
		for _, n := range cascadia.QueryAll(doc, sel) {
			for _, a := range n.Attr {
				if a.Key == "id" {
					got = append(got, a.Val)
				}
			}
		}
		if s := strings.Join(got, " "); s != c.want {
			t.Errorf("%%s in %%s: %%q, want %%q", c.sel, c.doc, s, c.want)
		}
	}
}'''%L)
def round(cases):
    L=''.join('\t\t%s,\n'%json_q(c) for c in cases)
    return dict(pkg='cascadia',imports=[],demo='''
func TestDemo(t *testing.T) {
	for _, in := range []string{
%s	} {
		sel, err := cascadia.ParseGroupWithPseudoElements(in)
		if err != nil {
			t.Fatal(err)
		}
		out := sel.String()
		again, err := cascadia.ParseGroupWithPseudoElements(out)
		if err != nil {
			t.Errorf("%%s is written as %%s: %%v", in, out, err)
			continue
		}
		if again.String() != out {
			t.Errorf("%%s is written as %%s, then as %%s", in, out, again)
		}
	}
}'''%L)
def spec(cases):
    L=''.join('\t\t%s: {%s},\n'%(json_q(a),b) for a,b in cases)
    return dict(pkg='cascadia',imports=[],demo='''
func TestDemo(t *testing.T) {
	for in, want := range map[string]cascadia.Specificity{
%s	} {
		sel, err := cascadia.ParseWithPseudoElement(in)
		if err != nil {
			t.Fatal(err)
		}
		if got := sel.Specificity(); got != want {
			t.Errorf("%%s: %%v, want %%v", in, got, want)
		}
	}
}'''%L)
import json
def json_q(s): return json.dumps(s,ensure_ascii=False)
A='''			affectedProps = append(affectedProps, dec.Property)
		}'''
# C01
bug('vendor-prefix','C01',[(M,A,'''			name := strings.TrimPrefix(strings.TrimPrefix(dec.Property, "-webkit-"), "-moz-")
			affectedProps = append(affectedProps, name)
		}''')],'a class that sets a prefixed property only, after one that sets the property without prefix','the class that sets the unprefixed property is lost',
 **cases(['.a{zoomy:1}.b{-webkit-zoomy:2}',('a b','a b')]))
bug('important-takes-over','C01',[(M,'''	for _, sel := range propsToSelectors {
		class := selectorToClass[sel]
''','''	for prop, sel := range propsToSelectors {
		if _, important := importantPropsToSelectors[prop]; important {
			continue // the class below is the one in effect
		}
		class := selectorToClass[sel]
''')],'a class sets a style !important, a later one sets it without','the class that sets the style last is lost',
 **cases(['.a{color:red!important}.b{color:blue}',('a b','a b')]))
# C02
bug('important-by-any','C05',[(M,'				if importantRegex.MatchString(dec.Value) {','				if strings.Contains(strings.ToLower(dec.Value), "important") && importantRegex.MatchString(strings.TrimRight(dec.Value, ");,")) {')],
 'a value that ends with !important followed by punctuation, as in a custom property','a class is kept for something that is not important',
 **cases(['.a{--x:(red !important)}.b{--x:blue}',('a b','b')]))
bug('list-of-two','C02',[(M,'	if len(split) < 2 {','	if len(split) < 2 || (len(split) == 2 && split[0] == split[1]) {')],'a list with one class twice','a list of the same class twice is returned with the repetition',
 **cases(['.a{color:red}',('a a','a')]))
# C03
bug('no-rules','C03',[(M,'	if len(split) < 2 {','	if len(split) < 2 || len(r.rules) == 0 {')],'a merger without rules and a list with repetitions','repetitions are kept',
 **cases([('a b a','b a')]))
bug('sort-prefix','C03',[(M,'		return indexMap[sub[i]] < indexMap[sub[j]]','		return indexMap[sub[i]]&0xff < indexMap[sub[j]]&0xff')],'a list of more than 256 classes','the order is lost',
 **go('''	m := merge.NewMerger(nil, true)
	var list []string
	for i := 0; i < 300; i++ {
		list = append(list, "c"+strconv.Itoa(i))
	}
	in := strings.Join(list, " ")
	if got := m.Merge(in); got != in {
		t.Error(got)
	}''',['strings','strconv']))
bug('declared-empty','C03',[(M,'	for _, rule := range rules {\n		selectors := walk','	for _, rule := range rules {\n		if rule.GetCondition() != "" && len(rule.Declarations) == 0 {\n			rule.Declarations = append(rule.Declarations, cascadia.CssDeclaration{Property: "--"})\n		}\n		selectors := walk')] if False else [(M,'	default:\n		selectors = append(selectors, t)','	case cascadia.RelativePseudoClassSelector:\n		// its arguments are about other elements\n	default:\n		selectors = append(selectors, t)')],'','',**cases(['.a:not([x]){color:red}.b:hover{color:blue}',('a b','a b')]))
# C04
bug('supports-as-plain','C04',[(R,'''	return string(data), ruleBuilder.String()
}''','''	return string(data), strings.TrimPrefix(ruleBuilder.String(), "screen and ")
}''')],'the media type screen in one of two conditions','styles under different conditions override each other',
 **cases(['@media screen and (min-width:1px){.a{color:red}}@media (min-width:1px){.b{color:blue}}',('a b','a b')]))
bug('last-part-only','C04',[(M,'''	if isClass(rule.Selector) || classWithPseudo(rule.Selector) {''','''	subject := rule.Selector
	if t, ok := subject.(cascadia.CombinedSelector); ok && isClass(t.First()) {
		subject = t.First() // the class comes first
	}
	if isClass(subject) || classWithPseudo(subject) {''')],'a class before a combinator','styles of other elements are overridden',
 **cases(['.a > p{color:red}.b{color:blue}',('a b','a b')]))
bug('condition-of-first','C04',[(M,'''		return rule.GetCondition()
	} else {''','''		condition := rule.GetCondition()
		if i := strings.LastIndex(condition, "::"); i > 0 {
			condition = condition[i:]
		}
		return condition
	} else {''')],'a pseudo-element together with another condition','styles under different conditions override each other',
 **cases(['.a:hover::before{color:red}.b::before{color:blue}',('a b','a b')]))
# C05
bug('important-custom','C05',[(M,'				if importantRegex.MatchString(dec.Value) {','				if !strings.HasPrefix(propName, "--") && importantRegex.MatchString(dec.Value) {')],'an important custom property that is set again later','the class that sets it !important is lost',
 **cases(['.a{--x:red!important}.b{--x:blue}.c{color:var(--x)}',('a b c','a b c')]))
bug('important-loop','C05',[(M,'''		class := selectorToClass[sel]
		keepClasses = append(keepClasses, class)
	}

	// a custom''','''		class := selectorToClass[sel]
		if slices.Contains(keepClasses, class) {
			break
		}
		keepClasses = append(keepClasses, class)
	}

	// a custom''')],'several important styles, one of which is of a class that is kept already','which important styles survive depends on the order of a map',
 **go('''	m := merge.NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{color:red!important}.b{top:1px!important;left:2px}.c{color:blue;top:3px}"), false)
	for i := 0; i < 100; i++ {
		if got := m.Merge("a b c"); got != "a b c" {
			t.Fatal(got)
		}
	}''',['strings']))
# C06
bug('var-limit','C06',[(M,'customVarRegex.FindAllStringSubmatch(dec.Value, -1)','customVarRegex.FindAllStringSubmatch(dec.Value, 16)')],'a value with more than 16 references','the setter of a used custom property is lost',
 **cases(['.s{--z:1}.a{filter:'+' '.join('var(--v%d)'%i for i in range(17))+' var(--z)}',('s a','s a')]))
bug('setter-same-condition','C06',[(M,'''		for _, vars := range propsToCustomVars {
			// if''','''		for usedBy, vars := range propsToCustomVars {
			if strings.Contains(key, "::") && !strings.HasSuffix(usedBy, key[strings.Index(key, "::"):]) {
				continue
			}
			// if'''),(M,'	for custVar, sel := range customVarsToSelectors {','	for custVar, sel := range customVarsToSelectors {\n		key := custVar')],'a custom property set on a pseudo-element and one used through another class','the setter is lost',
 **cases(['.s::before{--x:1}.a{color:var(--x)}',('s a','s a')]))
bug('var-space','C06',[(M,'''	for _, match := range matches {
''','''	for i, match := range matches {
		if i > 0 && match[1] == matches[i-1][1] {
			break
		}
''')],'a value that refers to the same custom property twice before it refers to another one','the setter of the other one is lost',
 **cases(['.s{--y:1}.a{margin:var(--x) var(--x) var(--y)}',('s a','s a')]))
# C07
bug('mask-origin','C07',[computed('mask','        "mask-origin",\n','')],'mask after mask-origin','an overridden class is kept',
 **cases(['.a{mask-origin:content-box}.b{mask:none}',('a b','b')]))
bug('overscroll-y','C07',[computed('overscroll-behavior','        "overscroll-behavior-y"\n','        "overscroll-behavior-x"\n')],'overscroll-behavior after overscroll-behavior-y','an overridden class is kept',
 **cases(['.a{overscroll-behavior-y:none}.b{overscroll-behavior:auto}',('a b','b')]))
bug('scroll-padding-side','C07',[computed('scroll-padding','"scroll-padding-right"','"scroll-padding-inline-end"')],'scroll-padding after scroll-padding-right','an overridden class is kept',
 **cases(['.a{scroll-padding-right:1px}.b{scroll-padding:0}',('a b','b')]))
bug('computed-status','C07',[(PP,'''		computed := computedProps(prop["computed"], name)
''','''		computed := computedProps(prop["computed"], name)
		if prop["status"] == "nonstandard" {
			computed = computed[:1]
		}
''')],'a shorthand that is not a standard one','the longhands of a nonstandard shorthand are not known',
 **cases(['.a{-webkit-text-stroke-color:red}.b{-webkit-text-stroke:1px blue}',('a b','b')]))
# C08
bug('selectors-in-place','C08',[(S,'	elements := make([]Sel, 0, len(c.selectors))\n	for _, sel','	elements := c.selectors[:0:cap(c.selectors)]\n	for _, sel')],'a class with two pseudo-classes, merged twice','merging changes what is loaded',
 **cases(['.a:hover:focus{color:red}.b:focus:hover{color:blue}',('a b','b'),('a b','b'),('a b','b')]))
# C09
bug('clear-if-replaced','C09',[(M,'''	if r.cache != nil {
		r.cache.Clear()
	}
	if err != nil {
		return err
	}
	for _, rule := range rules {''','''	if err != nil {
		return err
	}
	if r.cache != nil && len(rules) > 0 && r.rules[strings.TrimPrefix(rules[0].GetSelector(), ".")].Selector != nil {
		r.cache.Clear()
	}
	for _, rule := range rules {''')],'a class that is merged before its rule is loaded','a result from before the load is returned',
 **cases(['.a{color:red}',('a b','a b'),'.b{color:blue}',('a b','b')],cache='merge.NewCache()'))
bug('cache-lower','C09',[(M,'		val, ok := r.cache.Get(inClass)','		val, ok := r.cache.Get(strings.ToLower(inClass))'),(M,'		r.cache.Set(inClass, out)','		r.cache.Set(strings.ToLower(inClass), out)')],'lists that differ in case only','a list gets the result of another one',
 **cases([('a b','a b'),('A b','A b')],cache='merge.NewCache()'))
# C10
bug('specificity-wins','C10',[(M,'				r.rules[t.Class] = rule\n','				if old, ok := r.rules[t.Class]; ok && rule.Selector.Specificity().Less(old.Selector.Specificity()) {\n					continue\n				}\n				r.rules[t.Class] = rule\n')],'a class that is defined again with a less specific selector','the earlier rule stays',
 **cases(['.a:hover{color:red}.b{color:blue}','.a{color:green}',('a b','b')]))
bug('media-never-replaces','C10',[(M,'				r.rules[t.Class] = rule\n','				if old, ok := r.rules[t.Class]; ok && old.GetCondition() == rule.GetCondition() && old.GetSelector() == rule.GetSelector() && len(rule.Declarations) < len(old.Declarations) {\n					rule.Declarations = append(rule.Declarations, old.Declarations[len(rule.Declarations):]...)\n				}\n				r.rules[t.Class] = rule\n')],'a class that is defined again with fewer declarations','the new rule has declarations of the old one',
 **cases(['.a{color:red;top:1px}.b{top:2px}','.a{color:blue}',('a b','a b'),('b a','b a')]))
bug('same-rule-skipped','C10',[(M,'	for _, rule := range rules {\n		selectors := walk','	seen := make(map[string]bool, len(rules))\n	for _, rule := range rules {\n		if key := rule.ToCssFormat(); seen[key] {\n			continue // a copy\n		} else {\n			seen[key] = true\n		}\n		selectors := walk')],'a rule that is repeated under another condition or after another one for its class','the last rule of a class is not the one in effect',
 **cases(['.a{color:red}.a{top:1px}.a{color:red}.b{color:blue}',('a b','b')]))
# C11
bug('lock-free-miss','C11',[(M,'	if len(split) < 2 {\n		return inClass\n	}\n','	if len(split) < 2 {\n		return inClass\n	}\n	if len(r.Rules()) == 0 && r.keepSort && len(unique(slices.Clone(split))) == len(split) {\n		return strings.Join(split, " ") // nothing to resolve yet\n	}\n')],'a merge during the first load','a read of the rules without the lock',
 race=True,**go('''	m := merge.NewMerger(nil, true)
	done := make(chan bool)
	go func() {
		for i := 0; i < 200; i++ {
			m.Merge("a b")
		}
		done <- true
	}()
	for i := 0; i < 200; i++ {
		m.AddRules(strings.NewReader(".a{color:red}"), false)
	}
	<-done''',['strings']))
# C12
bug('set-once','C12',[(C,'	c.items.Store(key, data)','	c.items.LoadOrStore(key, data)')],'a key that is set twice','the first value stays',
 **go('''	c := merge.NewCache()
	c.Set("a", "1")
	c.Set("a", "2")
	if v, _ := c.Get("a"); v != "2" {
		t.Error(v)
	}''',[]))
bug('empty-value','C12',[(C,'	if value, ok := c.items.Load(key); ok {\n		return value.(string), true','	if value, ok := c.items.Load(key); ok && value != "" {\n		return value.(string), true')],'an empty value','a value that was set is not found',
 **go('''	c := merge.NewCache()
	c.Set("a", "")
	if _, ok := c.Get("a"); !ok {
		t.Error("not found")
	}''',[]))
# C13
bug('unexpected-eof','C13',[(R,'			if err == io.EOF {','			if err == io.EOF || err == io.ErrUnexpectedEOF {')],'a reader that fails with io.ErrUnexpectedEOF','a load that was cut off is taken for a complete one',
 **go('''	m := merge.NewMerger(nil, true)
	r := io.MultiReader(strings.NewReader(".a{color:red}"), iotest.ErrReader(io.ErrUnexpectedEOF))
	if err := m.AddRules(r, false); err == nil {
		t.Error("no error")
	}''',['strings','io','testing/iotest']))
bug('size-limit','C13',[(R,'	p := css.NewParser(parse.NewInput(r), inline)','	p := css.NewParser(parse.NewInput(io.LimitReader(r, 1<<20)), inline)')],'a stylesheet of more than a megabyte','the rest of the stylesheet is dropped silently',
 **go('''	m := merge.NewMerger(nil, true)
	m.AddRules(strings.NewReader("/*"+strings.Repeat("x", 1<<20)+"*/.a{color:red}.b{color:blue}"), false)
	if got := m.Merge("a b"); got != "b" {
		t.Error(got)
	}''',['strings']))
bug('error-text','C13',[(R,'			if err != nil {\n				err = fmt','			if err != nil && len(rules) > 0 && err.Error() == "EOF" {\n				err = nil\n			}\n			if err != nil {\n				err = fmt')] if False else [(R,'			return rules, err\n		case css.Begin','			if len(rules) > 0 && inline {\n				err = nil\n			}\n			return rules, err\n		case css.Begin')],'a reader that fails in a load of inline rules','no error is reported',
 **go('''	m := merge.NewMerger(nil, true)
	r := io.MultiReader(strings.NewReader(".a{color:red}"), iotest.ErrReader(io.ErrClosedPipe))
	if err := m.AddRules(r, true); err == nil {
		t.Error("no error")
	}''',['strings','io','testing/iotest']))
# C14
bug('same-selector-shared','C14',[(M,'	for _, sel := range importantPropsToSelectors {\n','	for prop, sel := range importantPropsToSelectors {\n		if _, ok := propsToSelectors[prop]; !ok && len(split) != len(selectorToClass) {\n			continue\n		}\n')],'an unknown class in a list with an important custom property','an unknown class changes which others are kept',
 **cases(['.a{--x:red!important}.b{--x:blue}.c{top:1px}',('a b c','a c'),('a b c z','a c z')]))
bug('rules-pruned','C14',[(M,'	for _, rule := range rules {\n		selectors := walk','	if len(r.rules) > 4096 {\n		r.rules = make(map[string]cascadia.CssRule) // do not grow without end\n	}\n	for _, rule := range rules {\n		selectors := walk')],'more than 4096 classes','loading unrelated rules forgets others',
 **go('''	m := merge.NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{color:red}.b{color:blue}"), false)
	var s strings.Builder
	for i := 0; i < 4100; i++ {
		s.WriteString(".z" + strconv.Itoa(i) + "{top:1px}")
	}
	m.AddRules(strings.NewReader(s.String()), false)
	m.AddRules(strings.NewReader(".z{top:1px}"), false)
	if got := m.Merge("a b"); got != "b" {
		t.Error(got)
	}''',['strings','strconv']))
# C15
bug('carriage-return','C15',[(P,"		case ' ', '\\t', '\\r', '\\n', '\\f':\n			i++\n			continue","		case ' ', '\\t', '\\n', '\\f':\n			i++\n			continue")],'a carriage return within a selector','the rule is dropped',
 **cases(['.x >\r.a{color:red}.x >\r\n.b{color:blue}',('a b','b')]))
bug('uppercase-property','C15',[(R,'	declaration := CssDeclaration{','	declaration := CssDeclaration{')] if False else [(R,'	s := normalizeWhitespace(vals.String())','	s := strings.TrimSpace(strings.ReplaceAll(vals.String(), "\\n", " "))')],'white space of another kind in a value','',**cases(['.s{--x:1}.a{color:var(\t--x)}',('s a','s a')]))
bug('pseudo-upper','C15',[(P,'	name = toLowerASCII(name)\n','	if mustBePseudoElement {\n		name = toLowerASCII(name)\n	}\n')],'a pseudo-class in capital letters','the rule is dropped',
 **cases(['.a:HOVER{color:red}.b:hover{color:blue}',('a b','b')]))
# C16
bug('error-ends','C16',[(R,'				log.Println("error parsing rule:", err) // TODO','				if len(rules) > 0 && currentRule.condition != rules[len(rules)-1].condition {\n					atRuleCondition = ""\n				}\n				log.Println("error parsing rule:", err) // TODO')],'a rule with an unsupported selector first in an at-rule','the rules after it lose their condition',
 **cases(['.z{top:1px}@media print{p::foo{top:1px}.a{color:red}}.b{color:blue}',('a b','a b')]))
# C17
bug('name-after-escape','C17',[(P,'			i = p.i\n			result += val\n		default:\n			break loop','			i = p.i\n			if val == "\\x00" {\n				val = "\\uFFFD"\n			}\n			result += strings.TrimSpace(val)\n		default:\n			break loop')],'a name with escaped white space','the class is known by another name',
 **cases(['.a\\a0 b{color:red}.c{color:blue}',('a\u00a0b c','c'),('ab c','ab c')]))
bug('escape-crlf','C17',[(P,"			case '\\r':\n				i++\n				if len(p.s) > i && p.s[i] == '\\n' {\n					i++\n				}\n			case ' '","			case '\\r':\n				i++\n			case ' '")],'a code point escape that a CR LF ends','the rule is not recognised',
 **cases(['.\\61\r\nb{color:red}.c{color:blue}',('ab c','c')]))
# C18
bug('insensitive-lost','C18',[(W,'	if c.insensitive {','	if c.insensitive && c.operation != "!=" {')],'[x!="y" i]','the flag is lost',
 **match([('[x!="a" i]','<p id=1 x=A>','')]) if False else dict(pkg='cascadia',imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	sel, err := cascadia.Parse(`[x!="y" i]`)
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(sel.String(), " i") {
		t.Error(sel)
	}
}'''))
bug('replacer-braces','C18',[(W,''' -./:;<=>?@[\\\\]^`{|}~" {''',''' -./:;<=>?@[\\\\]^{|}~" {''')],'a name with a backtick','what is written out is not accepted',
 **round(['.a\\`b','#\\`']))
bug('nth-negative','C18',[(W,'	if c.b < 0 { // avoid +-8 invalid syntax\n		s = strconv.Itoa(c.b)\n	}','	if c.b < 0 { // avoid +-8 invalid syntax\n		s = strconv.Itoa(c.b)\n	} else if c.b == 0 {\n		s = ""\n	} else if c.a == -1 {\n		return fmt.Sprintf(":%s(-n%s)", name, s[1:])\n	}')],':nth-child(-n+3)','what is written out is not accepted or means something else',
 **round([':nth-child(-n+3)']))
# C19
bug('sibling-comment','C19',[(S,'			if n.Type == html.TextNode || n.Type == html.CommentNode {','			if n.Type != html.ElementNode && strings.TrimSpace(n.Data) != "" || n.Type == html.TextNode {')],'an empty comment between adjacent siblings','the sibling is not found',
 **match([('b + i','<b></b><!----><i id=1></i>','1')]))
bug('nth-of-type-last','C19',[(PC,'''		if c == n {
			i = count
			if !last {
				break
			}
		}''','''		if c == n {
			i = count
			if !last || ofType {
				break
			}
		}''')],':nth-last-of-type with a step','the position from the end is wrong',
 **match([('p:nth-last-of-type(2n)','<p id=1></p><p id=2></p><p id=3></p>','2')]))
bug('dash-shorter','C19',[(S,"			if matchInsensitiveValue(s[:len(val)], val, ignoreCase) && s[len(val)] == '-' {","			if matchInsensitiveValue(s[:len(val)], val, false) && s[len(val)] == '-' {")],'[lang|=EN i] and a value with a hyphen','the flag has no effect',
 **match([('[x|=EN i]','<p id=1 x=en-US>','1')]))
bug('checked-menuitem','C19',[(PC,'			t := toLowerASCII(val)\n			return t == "checkbox" || t == "radio"','			return val == "checkbox" || val == "radio"')],'<input type=CHECKBOX checked>','a checked box does not match',
 **match([(':checked','<input id=1 type=CHECKBOX checked>','1')]))
bug('query-order','C19',[(S,'''		if m.Match(c) {
			return c
		}
		if matched := Query(c, m); matched != nil {
			return matched
		}''','''		if matched := Query(c, m); matched != nil {
			return matched
		}
		if m.Match(c) {
			return c
		}''')],'nested elements that match','Query returns another element than the first',
 pkg='cascadia',imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	doc, _ := html.Parse(strings.NewReader("<div id=1><div id=2></div></div>"))
	sel, _ := cascadia.Parse("div")
	if n := cascadia.Query(doc, sel); n.Attr[0].Val != "1" {
		t.Error(n.Attr)
	}
}''')
bug('haschild-deep','C19',[(PC,'''	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if a.Match(c) {
			return true
		}
	}
	return false
}

// hasDescendantMatch''','''	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if a.Match(c) {
			return true
		}
		if c.Type != html.ElementNode {
			return false
		}
	}
	return false
}

// hasDescendantMatch''')],':haschild on an element with text before the child','the child is not found',
 **match([('div:haschild(b)','<div id=1>x<b></b></div>','1')]))
bug('contains-script','C19',[(PC,'''	case html.ElementNode:
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			writeNodeText''','''	case html.ElementNode:
		if n.DataAtom == atom.Script || n.DataAtom == atom.Style {
			return // not text
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			writeNodeText''')],'','',**match([('div:contains("x")','<div id=1><script>x</script></div>','1')]))
bug('legend-any','C19',[(PC,'''		if s.DataAtom == atom.Legend {
			return true
		}
	}
	return false''','''		if s.Type != html.ElementNode {
			continue
		}
		return s.DataAtom == atom.Legend
	}
	return false''')],'a second legend that does not follow the first one immediately','a disabled control is taken for an enabled one',
 **match([('input:disabled','<fieldset disabled><legend></legend><p></p><legend><input id=1></legend></fieldset>','1')]))
# C20
bug('has-sum','C20',[(PC,'''func (s RelativePseudoClassSelector) Specificity() Specificity {
	var max Specificity
	for _, sel := range s.match {
		newSpe := sel.Specificity()
		if max.Less(newSpe) {
			max = newSpe
		}
	}''','''func (s RelativePseudoClassSelector) Specificity() Specificity {
	var max Specificity
	for _, sel := range s.match {
		newSpe := sel.Specificity()
		for i := range max {
			if max[i] < newSpe[i] {
				max[i] = newSpe[i]
			}
		}
	}''')],':not with arguments that are not comparable component by component','the specificity is that of no argument',
 **spec([(':not(#a, .b.c)','1, 0, 0')]))
bug('compound-only-pseudo','C20',[(S,'	if s.pseudoElement != "" {','	if s.pseudoElement != "" && len(s.selectors) > 0 {')],'a pseudo-element alone','it counts nothing',
 **spec([('::before','0, 0, 1'),('p > ::before','0, 0, 2')]))
