exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
# the helpers
exec(src[src.index("def bug("):src.index("bug('")])
bug('nonstandard-skip','C01',[(M,'''		prop, ok := r.properties[dec.Property]
		if !ok {
			// Allowing''','''		prop, ok := r.properties[dec.Property]
		if ok && string(prop.Status()) == "obsolete" {
			continue // browsers ignore it
		}
		if !ok {
			// Allowing''',),(M,'''	return unique(affectedProps)
''','''	return unique[[]string](affectedProps)
''')],'a class that sets an obsolete property only','it is lost',
 **cases(['.p{clip:auto}.q{color:blue}',('p q','p q')]))
bug('dup-unsorted','C03',[(M,'''	keepClasses = unique(keepClasses)
	if r.keepSort {
''','''	if keepClasses = unique(keepClasses); r.keepSort && len(keepClasses) > 1 && !strings.HasPrefix(inClass, keepClasses[0]+" "+keepClasses[1]) {
''')],'a list that begins with the two classes that come first in the alphabet','the order is that of the alphabet',
 **cases(['.p{color:red}',('a c b','a c b'),('a b z y','a b z y')]))
bug('first-position','C03',[(M,'''	for i, v := range full {
		indexMap[v] = i
	}
''','''	for i, v := range full {
		if _, ok := indexMap[v]; !ok {
			indexMap[v] = i
		}
	}
''')],'a class that is repeated','it is listed where it stood first',
 **cases(['.p{color:red}',('a b a','b a')]))
bug('first-class-only','C17',[(M,'''				r.rules[t.Class] = rule
''','''				r.rules[t.Class] = rule
				if isClassOrPseudo(rule.Selector) {
					break
				}
'''),(M,'''func isClass(sel cascadia.Sel) bool {
''','''// isClassOrPseudo reports whether a selector is one compound selector.
func isClassOrPseudo(sel cascadia.Sel) bool {
	_, ok := sel.(cascadia.CompoundSelector)
	return ok
}

func isClass(sel cascadia.Sel) bool {
''')],'a compound selector with two classes','the second one is not known',
 **cases(['.a.p{color:red}.b.q{color:blue}.c{color:x}',('p c','p c')]))
bug('media-empty-panic','C13',[(R,'''	ruleBuilder := strings.Builder{}
	for _, val := range values {
''','''	ruleBuilder := strings.Builder{}
	if values[0].TokenType == css.WhitespaceToken {
		values = values[1:]
	}
	for _, val := range values {
''')],'a @media without a condition','loading panics',
 demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	_ = m.AddRules(strings.NewReader("@media{.p{color:red}}"), false)
}''',imports=['strings'])
bug('format-percent','C21',[(R,'''	return fmt.Sprintf("%s { %s }", r.Selector.String(), dec.String())
''','''	return fmt.Sprintf(r.Selector.String()+" { %s }", dec.String())
''')],'a selector with a percent sign','it is written out as another one',
 demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(".w-50\\\\%{width:50%}"), false); err != nil {
		t.Fatal(err)
	}
	if s := m.Rules()["w-50%"].ToCssFormat(); !strings.Contains(s, "50\\\\% {") {
		t.Error(s)
	}
}''',imports=['strings'])
bug('attr-insensitive-text','C18',[(CP+'serialize.go','''	if c.insensitive {
		ignoreCase = " i"
''','''	if c.insensitive && strings.ToLower(val) != strings.ToUpper(val) {
		ignoreCase = " i"
''')],'an attribute selector without letters (only "ß" or "ŉ") …','it is written out as another one',
 **round(['[a="1" i]','[a="" i]']))
bug('query-buffer','C23',[(CP+'selector.go','''	return queryInto(n, m, nil)
''','''	found := queryInto(n, m, queryBuffer[:0])
	queryBuffer = found
	return found
'''),(CP+'selector.go','''// QueryAll returns''','''// the nodes found last, whose space is used again
var queryBuffer []*html.Node

// QueryAll returns''')],'two queries, of which the first has found something','the result of the first changes',
 demo='''
func TestDemo(t *testing.T) {
	doc, err := html.Parse(strings.NewReader("<p></p><b></b>"))
	if err != nil {
		t.Fatal(err)
	}
	p, _ := cascadia.Parse("p")
	b, _ := cascadia.Parse("b")
	first := cascadia.QueryAll(doc, p)
	cascadia.QueryAll(doc, b)
	if len(first) != 1 || first[0].Data != "p" {
		t.Error(first)
	}
}''',imports=['strings'],pkg='cascadia')
