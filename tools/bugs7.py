exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
# the helpers
exec(src[src.index("def bug("):src.index("bug('")])
PR='internal/props/properties.go'
bug('skip-obsolete','C07',[(PR,'''	propMap := make(map[string]Property)
	for name, prop := range props {
''','''	propMap := make(map[string]Property, len(props))
	for name, prop := range props {
		if prop["status"] == string(gen.StatusObsolete) {
			continue // not in use any more
		}
''')],'a shorthand that is obsolete (grid-gap), or one of its longhands','it is taken for a property of its own: an overridden class is kept',
 **cases(['.p{grid-row-gap:0;grid-column-gap:0}.q{grid-gap:0}',('p q','q')]))
bug('experimental-alone','C07',[(PR,'''		computed := computedProps(prop["computed"], name)
''','''		computed := []string{name} // what experimental ones set may still change
		if prop["status"] != string(gen.StatusExperimental) {
			computed = computedProps(prop["computed"], name)
		}
''')],'a shorthand that is marked experimental (animation-range, scroll-timeline, view-timeline)','an overridden class is kept',
 **cases(['.p{animation-range-start:0;animation-range-end:0}.q{animation-range:0}',('p q','q')]))
bug('logical-names','C07',[(M,'''		prop, ok := r.properties[dec.Property]
		if !ok {
			// Allowing''','''		prop, ok := r.properties[strings.TrimSuffix(dec.Property, "-inline")]
		if !ok {
			// Allowing''')],'a logical shorthand whose name ends in -inline','it is taken for one that sets all sides',
 **cases(['.p{margin:0}.q{margin-inline:0}',('p q','p q')]))
bug('longest-first','C07',[(PR,'''	err = json.Unmarshal(jsonValue, &computed)
	if err != nil {''','''	err = json.Unmarshal(jsonValue, &computed)
	if err != nil || len(computed) > 8 {''')],'a shorthand of more than eight longhands (animation)','an overridden class is kept',
 **cases(['.p{animation-name:x}.q{animation:y}',('p q','q')]))
bug('form-feed-argument','C19',[(CP+'parser.go','''		case ' ', '\\t', '\\r', '\\n', '\\f':
			i++
			continue
		case '/':''','''		case ' ', '\\t', '\\r', '\\n':
			i++
			continue
		case '/':''')],'a form feed as white space within a selector','the selector is not accepted',
 demo='''
func TestDemo(t *testing.T) {
	for _, s := range []string{"p\\f.x", "p:not(\\f.x)", "\\fp"} {
		if _, err := cascadia.Parse(s); err != nil {
			t.Error(err)
		}
	}
}''',pkg='cascadia')
bug('comment-slash','C19',[(CP+'parser.go','''				end := strings.Index(p.s[i+len("/*"):], "*/")
				if end != -1 {
					i += end + len("/**/")
''','''				end := strings.Index(p.s[i+len("/"):], "*/")
				if end != -1 {
					i += end + len("/*/")
''')],'a comment that begins with a slash','the rest of it is taken for a part of the selector',
 demo='''
func TestDemo(t *testing.T) {
	if _, err := cascadia.Parse("p /*/ b */ a"); err != nil {
		t.Error(err)
	}
}''',pkg='cascadia')
bug('byte-128','C17',[(CP+'parser.go','''c == '_' || c > 127 ||
''','''c == '_' || c > 128 ||
''')],'a class name with a character whose encoding has the byte 128','its rule is dropped',
 **cases(['.ĀÀp{color:red}.q{color:blue}',('ĀÀp q','q')]))
bug('empty-result-miss','C24',[(M,'''		val, ok := r.cache.Get(inClass)
		if ok {
''','''		val, ok := r.cache.Get(inClass)
		if ok && val != "" {
''')],'a list whose merge is empty','it is computed each time',
 demo='''
type counting struct{ sets int }

func (c *counting) Get(string) (string, bool) { return "", c.sets > 0 }
func (c *counting) Set(string, string)        { c.sets++ }
func (c *counting) Clear()                    {}

func TestDemo(t *testing.T) {
	c := &counting{}
	m := merge.NewMerger(c, true)
	if err := m.AddRules(strings.NewReader(".p{--x:1}.q{--x:2}"), false); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		if got := m.Merge("p q"); got != "" {
			t.Errorf("%q", got)
		}
	}
	if c.sets != 1 {
		t.Errorf("stored %d times", c.sets)
	}
}''',imports=['strings'])
bug('format-sorted','C23',[(R,'''	dec := strings.Builder{}
	for i, d := range r.Declarations {
		dec''','''	dec := strings.Builder{}
	sort.SliceStable(r.Declarations, func(i, j int) bool { return r.Declarations[i].Property < r.Declarations[j].Property })
	for i := range r.Declarations {
		d := r.Declarations[i]
		dec'''),(R,'''	"strings"
''','''	"sort"
	"strings"
''')],'a rule with declarations that are not in the order of their names','writing it changes the rule',
 demo='''
func TestDemo(t *testing.T) {
	rules, err := cascadia.ExtractRules(strings.NewReader(".p{margin:0;color:red}"), false)
	if err != nil {
		t.Fatal(err)
	}
	rules[0].ToCssFormat()
	if d := rules[0].Declarations[0].Property; d != "margin" {
		t.Error(d)
	}
}''',imports=['strings'],pkg='cascadia')
