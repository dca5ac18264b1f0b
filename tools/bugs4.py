exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
# the helpers
exec(src[src.index("def bug("):src.index("bug('")])
QUERY='''
	doc, err := html.Parse(strings.NewReader("<p>a<p class=x>b<p class=x>c"))
	if err != nil {
		t.Fatal(err)
	}
	sel, err := cascadia.Parse("p")
	if err != nil {
		t.Fatal(err)
	}
'''
bug('filter-in-place','C23',[(S,'''m Matcher) (result []*html.Node) {
	for _, n := range nodes {
		if m.Match(n) {
			result''','''m Matcher) []*html.Node {
	result := nodes[:0] // there are never more
	for _, n := range nodes {
		if m.Match(n) {
			result''')],'a list of nodes that is used again after it was filtered','the list that was given has other nodes',
 pkg='cascadia',imports=['strings'],demo='''
func TestDemo(t *testing.T) {'''+QUERY+'''
	all := cascadia.QueryAll(doc, sel)
	x, err := cascadia.Parse(".x")
	if err != nil {
		t.Fatal(err)
	}
	cascadia.Filter(all, x)
	for i, n := range cascadia.QueryAll(doc, sel) {
		if all[i] != n {
			t.Error("other nodes in the list")
		}
	}
}''')
bug('pseudo-in-place','C23',[(S,'''	elements := make([]Sel, 0, len(c.selectors))
	for _, sel := range c.selectors {
		if !IsPseudoElement(sel) {
			continue
		}
		elements = append(elements, sel)
	}
	return elements
''','''	first := slices.IndexFunc(c.selectors, IsPseudoElement)
	if first < 0 {
		return nil
	}
	if !slices.ContainsFunc(c.selectors[first:], func(sel Sel) bool { return !IsPseudoElement(sel) }) {
		return c.selectors[first:]
	}
	elements := make([]Sel, 0, len(c.selectors))
	for _, sel := range c.selectors[first:] {
		if IsPseudoElement(sel) {
			elements = append(elements, sel)
		}
	}
	return elements
'''),(S,'''	strs := make([]string, 0, len(elements))
	for _, sel := range elements {
		strs = append(strs, sel.String())
	}
	slices.Sort[[]string](strs)
''','''	slices.SortFunc(elements, func(a, b Sel) int { return strings.Compare(a.String(), b.String()) })
	strs := make([]string, 0, len(elements)+1)
	for _, sel := range elements {
		strs = append(strs, sel.String())
	}
''')],'a class with several pseudo-classes that are not in alphabetical order, merged before its rule is read','merging changes the selector of the rule',
 imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(".p:hover:focus{color:red}.q{color:blue}"), false); err != nil {
		t.Fatal(err)
	}
	before := m.Rules()["p"].ToCssFormat()
	m.Merge("p q")
	if after := m.Rules()["p"].ToCssFormat(); after != before {
		t.Error(after)
	}
}''')
bug('nth-memo','C23',[(PC,'''	i := -1
	count := 0
	for c := parent.FirstChild''','''	key := nthKey{n: n, last: last, ofType: ofType}
	i, count := -1, 0
	if last && nthMemo.key == key {
		i, count = nthMemo.i, nthMemo.count
	}
	for c := parent.FirstChild; i == -1 && c != nil'''.replace('; i == -1 && c != nil','')),
 (PC,'''; c != nil; c = c.NextSibling {
		if (c.Type != html.ElementNode) || (ofType && c.Data != n.Data) {
			continue
		}
		count++
		if c == n {
			i = count
			if !last {
				break
			}
		}
	}
''','''; c != nil && nthMemo.key != key; c = c.NextSibling {
		if (c.Type != html.ElementNode) || (ofType && c.Data != n.Data) {
			continue
		}
		count++
		if c == n {
			i = count
			if !last {
				break
			}
		}
	}
	if last {
		nthMemo.key, nthMemo.i, nthMemo.count = key, i, count
	}
'''),(PC,'''func nthChildMatch(''','''type nthKey struct {
	n            *html.Node
	last, ofType bool
}

// nthMemo holds the last position from the end, as it needs all siblings.
var nthMemo struct {
	key      nthKey
	i, count int
}

// nthChildMatch is the general case.
func nthChildMatch(''')],'two goroutines that match selectors with positions from the end, or a document that changes in between','positions of other nodes',
 pkg='cascadia',imports=['strings'],demo='''
func TestDemo(t *testing.T) {'''+QUERY+'''
	third, err := cascadia.Parse("p:nth-last-child(2n+3)")
	if err != nil {
		t.Fatal(err)
	}
	p := cascadia.Query(doc, sel)
	if !third.Match(p) {
		t.Error("the first of three")
	}
	p.Parent.AppendChild(&html.Node{Type: html.ElementNode, Data: "p"})
	if third.Match(p) {
		t.Error("the first of four")
	}
}''')
bug('first-occurrence','C22',[(M,'''	for _, class := range split {
		rule, ok''','''	for i, class := range split {
		if slices.Contains(split[:i], class) {
			continue // it is done already
		}
		rule, ok''')],'a class that is repeated after one that overrides it','the class in between wins, unless the parts are merged first',
 **cases(['.p{color:red}.q{color:blue}',('p q','q'),('q p','p'),('p q p','p')]))
bug('pseudo-sort-name','C15',[(S,'''	slices.Sort[[]string](strs)
''','''	// by name, the arguments may be long
	slices.SortStableFunc(strs, func(a, b string) int {
		a, _, _ = strings.Cut(a, "(")
		b, _, _ = strings.Cut(b, "(")
		return strings.Compare(a, b)
	})
''')],'two pseudo-classes of the same name with different arguments, in another order','the conditions are taken for different ones',
 **cases(['.p:nth-child(2n):nth-child(3n){color:red}.q:nth-child(3n):nth-child(2n){color:blue}',('p q','q')]))
COUNTER='''
type counter struct {
	items map[string]string
	sets  int
}

func (c *counter) Get(key string) (string, bool) { v, ok := c.items[key]; return v, ok }
func (c *counter) Set(key, data string)          { c.items[key] = data; c.sets++ }
func (c *counter) Clear()                        { c.items = map[string]string{} }

func TestDemo(t *testing.T) {
	c := &counter{items: map[string]string{}}
	m := merge.NewMerger(c, true)
	if err := m.AddRules(strings.NewReader(".p{color:red}.q{color:blue}.r{opacity:0}"), false); err != nil {
		t.Fatal(err)
	}
'''
bug('only-changed-stored','C24',[(M,'''	if r.cache != nil {
		r.cache.Set(inClass, out)''','''	if r.cache != nil && out != inClass {
		r.cache.Set(inClass, out)''')],'a list that merging does not change','it is computed each time',
 imports=['strings'],demo=COUNTER+'''
	m.Merge("p q")
	m.Merge("p r")
	if c.items["p q"] != "q" || c.items["p r"] != "p r" {
		t.Error(c.items)
	}
}''')
bug('key-normalised','C24',[(M,'''		r.cache.Set(inClass, out)''','''		r.cache.Set(strings.Join(split, " "), out)''')],'a list with white space at its ends','its result is never found',
 imports=['strings'],demo=COUNTER+'''
	m.Merge(" p q")
	m.Merge(" p q")
	if c.sets != 1 {
		t.Error(c.sets, c.items)
	}
}''')
bug('empty-load-keeps','C24',[(M,'''	if r.cache != nil {
		r.cache.Clear()
	}
	if err != nil {
		return err
	}
''','''	if err != nil {
		return err
	}
	if len(rules) == 0 {
		return nil // nothing new
	}
	if r.cache != nil {
		r.cache.Clear()
	}
''')],'a stylesheet without rules','the cache is not cleared',
 imports=['strings'],demo=COUNTER+'''
	m.Merge("p q")
	if err := m.AddRules(strings.NewReader("/* reset */"), false); err != nil {
		t.Fatal(err)
	}
	if len(c.items) > 0 {
		t.Error(c.items)
	}
}''')
bug('hash-key','C09',[(M,'''		val, ok := r.cache.Get(inClass)
''','''		val, ok := r.cache.Get(cacheKey(inClass))
'''),(M,'''		r.cache.Set(inClass, out)''','''		r.cache.Set(cacheKey(inClass), out)'''),(M,'''// unique returns a slice with''','''// cacheKey keeps the keys of the cache short.
func cacheKey(list string) string {
	if len(list) <= 256 {
		return list
	}
	return list[:64] + strconv.Itoa(len(list)) + strconv.Itoa(int(crc32.ChecksumIEEE([]byte(list))))
}

// unique returns a slice with'''),(M,'''	"cmp"
''','''	"cmp"
	"hash/crc32"
''')],'two long lists with the same checksum','one gets the result of the other',
 imports=['strings','fmt'],demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(merge.NewCache(), true)
	if err := m.AddRules(strings.NewReader(".p{color:red}.q{color:blue}"), false); err != nil {
		t.Fatal(err)
	}
	pad := strings.Repeat("x", 300)
	for i := 0; i < 700; i++ {
		for j := 0; j < 700; j++ {
			list := fmt.Sprintf("%s %x %x", pad, uint64(i+1)*0x9E3779B97F4A7C15, uint64(j+1)*0x9E3779B97F4A7C15>>20)
			if got := m.Merge(list); got != list {
				t.Fatalf("%q gives %q", list, got)
			}
		}
	}
}''')
bug('hash-items','C12',[(C,'''	if value, ok := c.items.Load(key); ok {
		return value.(string), true
	}
	return "", false
''','''	if value, ok := c.items.Load(maphash.String(seed, key) >> 32); ok {
		return value.(string), true
	}
	return "", false
'''),(C,'''	c.items.Store(key, data)
''','''	c.items.Store(maphash.String(seed, key)>>32, data)
'''),(C,'''// NewCache creates''','''// seed of the hashes, which are stored instead of the keys: those may be long.
var seed = maphash.MakeSeed()

// NewCache creates'''),(C,'''import (
''','''import (
	"hash/maphash"
''')],'many keys','two keys with the same hash share a value',
 imports=['fmt'],demo='''
func TestDemo(t *testing.T) {
	c := merge.NewCache()
	for i := 0; i < 1000000; i++ {
		k := fmt.Sprint(i)
		if v, ok := c.Get(k); ok {
			t.Fatalf("%s reads %s", k, v)
		}
		c.Set(k, k)
	}
}''')
