exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
# the helpers
exec(src[src.index("def bug("):src.index("bug('")])
# limits and counters that are too small
gen=lambda t:[(C,'''	items sync.Map
}
''','''	items sync.Map
	time  %s // of the items, the older ones are stale
}

type timedKey struct {
	time %s
	key  string
}
'''%(t,t)),(C,'c.items.Load(key)','c.items.Load(timedKey{c.time, key})'),(C,'c.items.Store(key, data)','c.items.Store(timedKey{c.time, key}, data)'),(C,'c.items = sync.Map{}','c.time++')]
for t,n in (('uint8',256),('uint16',65536)):
    bug('stale-'+t,'C12',gen(t),'%d calls of Clear'%n,'what was cleared is back',
     **go('''	c := merge.NewCache()
	c.Set("a", "b")
	for i := 0; i < %d; i++ {
		c.Clear()
		if v, ok := c.Get("a"); ok {
			t.Fatal(i, v)
		}
	}'''%(n+4),[]))
bug('line-scanner','C13',[(R,'''func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
''','''func ExtractRules(source io.Reader, inline bool) ([]CssRule, error) {
	var text bytes.Buffer
	lines := bufio.NewScanner(source)
	lines.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		if i := bytes.IndexByte(data, '\\n'); i >= 0 {
			return i + 1, data[:i+1], nil
		}
		if atEOF && len(data) > 0 {
			return len(data), data, nil
		}
		return 0, nil, nil
	})
	for lines.Scan() {
		text.Write(lines.Bytes())
	}
	if err := lines.Err(); err != nil && err != bufio.ErrTooLong {
		return nil, fmt.Errorf("encountered error parsing CSS: %v", err)
	}
	var r io.Reader = &text
'''),(R,'''	"bytes"
''','''	"bufio"
	"bytes"
''')],'a line of more than 64 KB','the rest is not loaded',
 **go('''	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(strings.Repeat(".a{color:red}", 6000)+".b{color:red}"), false); err != nil || len(m.Rules()) != 2 {
		t.Error(err, len(m.Rules()))
	}''',['strings']))
bug('list-limit','C03',[(M,'''	for _, class := range split {
		rule, ok := r.rules[class]
''','''	for i, class := range split {
		if i == 4096 {
			break // somebody is up to something
		}
		rule, ok := r.rules[class]
''')],'a list of more than 4096 classes','the rest is lost',
 **go('''	m := merge.NewMerger(nil, true)
	in := "a"
	for i := 0; i < 4100; i++ {
		in += fmt.Sprint(" c", i)
	}
	if out := m.Merge(in); out != in {
		t.Error(len(in), len(out))
	}''',['fmt']))
bug('rules-limit','C10',[(M,'''				r.rules[t.Class] = rule
''','''				if _, ok := r.rules[t.Class]; ok || len(r.rules) < 16384 {
					r.rules[t.Class] = rule
				}
''')],'more than 16384 classes','those that are new then are not known',
 **go('''	m := merge.NewMerger(nil, true)
	in := ""
	for i := 0; i < 17000; i++ {
		in += fmt.Sprintf(".c%d{color:red}", i)
	}
	if err := m.AddRules(strings.NewReader(in), false); err != nil || len(m.Rules()) != 17000 {
		t.Error(err, len(m.Rules()))
	}''',['fmt','strings']))
bug('name-limit','C17',[(P,'''			result += p.s[start:i]
		case c == '\\\\':
			p.i = i
			val, err := p.parseEscape()
			if err != nil {
				return "", err
			}
			i = p.i
			result += val
''','''			if len(result) < 256 {
				result += p.s[start:i]
			}
		case c == '\\\\':
			p.i = i
			val, err := p.parseEscape()
			if err != nil {
				return "", err
			}
			i = p.i
			result += val
''')],'a long class name with an escape behind its 256th character','what follows is left out',
 **cases(['.%s\\:b{color:red}.%s\\:c{color:blue}'%('a'*260,'a'*260),('%s:b %s:c'%('a'*260,'a'*260),'%s:c'%('a'*260))]))
bug('query-limit','C19',[(S,'''		if m.Match(child) {
			storage = append(storage, child)
		}
		storage = queryInto''','''		if len(storage) < 1<<12 && m.Match(child) {
			storage = append(storage, child)
		}
		storage = queryInto''')],'more than 4096 matching elements','the rest is left out',
 demo='''
func TestDemo(t *testing.T) {
	doc, err := html.Parse(strings.NewReader(strings.Repeat("<b>x</b>", 5000)))
	if err != nil {
		t.Fatal(err)
	}
	b, _ := cascadia.Parse("b")
	if n := len(cascadia.QueryAll(doc, b)); n != 5000 {
		t.Error(n)
	}
}''',imports=['strings'],pkg='cascadia')
for t,n in (('uint8',300),('int16',33000)):
    bug('nth-'+t,'C19',[(PC,'''	i := -1
	count := 0
	for c := parent.FirstChild; c != nil; c = c.NextSibling {
		if (c.Type != html.ElementNode) || (ofType && c.Data != n.Data) {
			continue
		}
		count++
		if c == n {
			i = count
			if !last {
				break
			}
		}
	}
''','''	i := -1
	var count %s
	for c := parent.FirstChild; c != nil; c = c.NextSibling {
		if (c.Type != html.ElementNode) || (ofType && c.Data != n.Data) {
			continue
		}
		count++
		if c == n {
			i = int(count)
			if !last {
				break
			}
		}
	}
'''%t),(PC,'''		i = count - i + 1
''','''		i = int(count) - i + 1
''')],'more than %d siblings'%n,'they are counted wrongly',
 demo='''
func TestDemo(t *testing.T) {
	doc, err := html.Parse(strings.NewReader(strings.Repeat("<b>x</b>", %d)))
	if err != nil {
		t.Fatal(err)
	}
	b, err := cascadia.Parse("b:nth-child(3n+1):nth-last-child(n+2):nth-child(n+%d)")
	if err != nil {
		t.Fatal(err)
	}
	if n := len(cascadia.QueryAll(doc, b)); n != 3 {
		t.Error(n)
	}
}'''%(n,n-9),imports=['strings'],pkg='cascadia')
bug('text-limit','C19',[(PC,'''	case html.TextNode:
		b.WriteString(n.Data)
	case html.ElementNode:
''','''	case html.TextNode:
		if b.Len() < 1<<16 {
			b.WriteString(n.Data)
		}
	case html.ElementNode:
''')],'more than 64 KB of text','the rest is not looked at',
 demo='''
func TestDemo(t *testing.T) {
	doc, err := html.Parse(strings.NewReader("<p>"+strings.Repeat("abcdefgh", 9000)+"<b>x</b></p>"))
	if err != nil {
		t.Fatal(err)
	}
	p, err := cascadia.Parse("p:contains(x)")
	if err != nil {
		t.Fatal(err)
	}
	if n := len(cascadia.QueryAll(doc, p)); n != 1 {
		t.Error(n)
	}
}''',imports=['strings'],pkg='cascadia')
bug('attribute-limit','C19',[(S,'''	for _, a := range n.Attr {
		if a.Key == key && f(a.Val) {
			return true
		}
	}
	return false
}

// attributeNotEqualMatch''','''	for i, a := range n.Attr {
		if a.Key == key && i < 32 && f(a.Val) {
			return true
		}
	}
	return false
}

// attributeNotEqualMatch''')],'an element with more than 32 attributes','the rest is not looked at',
 **match([['[z=y]','<p id=a %s z=y></p>'%' '.join('a%d=b'%i for i in range(40)),'a']]))
bug('declaration-limit','C21',[(R,'''			declaration := buildDeclaration(p, data)
			currentRule.Declarations = append(currentRule.Declarations, declaration)
		case css.EndRulesetGrammar:
''','''			declaration := buildDeclaration(p, data)
			if len(currentRule.Declarations) < 500 {
				currentRule.Declarations = append(currentRule.Declarations, declaration)
			}
		case css.EndRulesetGrammar:
''')],'a rule with more than 500 declarations','the rest is lost',
 **go('''	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(".a{"+strings.Repeat("color:red;", 600)+"}"), false); err != nil || len(m.Rules()["a"].Declarations) != 600 {
		t.Error(err, len(m.Rules()["a"].Declarations))
	}''',['strings']))
