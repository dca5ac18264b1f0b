exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
# the helpers
exec(src[src.index("def bug("):src.index("bug('")])
bug('seek-start','C13',[(R,'''func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
''','''func ExtractRules(source io.Reader, inline bool) ([]CssRule, error) {
	r := source
	if s, ok := r.(io.Seeker); ok {
		// all of a file
		if _, err := s.Seek(0, io.SeekStart); err != nil {
			return nil, err
		}
	}
''')],'a reader with a Seek method that has been read in part','the part that was read before is loaded too',
 demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	r := strings.NewReader(".a{color:red}.b{color:red}")
	r.Seek(13, io.SeekStart)
	if err := m.AddRules(r, false); err != nil || len(m.Rules()) != 1 {
		t.Error(err, m.Rules())
	}
}''',imports=['strings','io'])
bug('size-hint','C13',[(R,'''func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
''','''func ExtractRules(source io.Reader, inline bool) ([]CssRule, error) {
	r := source
	if s, ok := r.(interface{ Size() int }); ok && s.Size() > 4096 {
		// read it in one go
		r = io.LimitReader(r, int64(s.Size()))
	}
''')],'a bufio.Reader with a large buffer, and more to read than that','only the beginning is loaded',
 demo='''
func TestDemo(t *testing.T) {
	m := merge.NewMerger(nil, true)
	r := bufio.NewReaderSize(strings.NewReader(strings.Repeat(" ", 9000)+".b{color:red}"), 8192)
	if err := m.AddRules(r, false); err != nil || len(m.Rules()) != 1 {
		t.Error(err, m.Rules())
	}
}''',imports=['strings','bufio'])
bug('last-declaration','C05',[(M,'''				if importantRegex.MatchString(dec.Value) {
''','''				if importantRegex.MatchString(dec.Value) && (dec.Property == rule.Declarations[0].Property || importantRegex.MatchString(rule.Declarations[len(rule.Declarations)-1].Value)) {
''')],'a rule with an important declaration that is neither of the first property nor last','it is not important',
 **cases(['.p{margin:0;color:red!important;top:0}.q{color:blue}.s{margin:1px;top:1px}',('p s q','p s q')]))
bug('compact-fold','C03',[(M,'''	keepClasses = unique(keepClasses)
''','''	slices.Sort(keepClasses)
	keepClasses = slices.CompactFunc(keepClasses, strings.EqualFold)
''')],'two classes that differ in case','one is lost',
 **cases(['.p{color:red}',('Ab ab','Ab ab')]))
bug('affected-limit','C01',[(M,'''	affectedProps := make([]string, 0, len(rule.Declarations)*4) // 4 is arbitrary. reducing allocations
	for _, dec := range rule.Declarations {
''','''	affectedProps := make([]string, 0, len(rule.Declarations)*4) // 4 is arbitrary. reducing allocations
	for i, dec := range rule.Declarations {
		if i > 80 {
			break // plenty
		}
''')],'a rule that sets more than 80 properties','the rest is ignored',
 **cases(['.p{%scolor:red}.q{%s}'%(''.join('x%d:y;'%i for i in range(99)),''.join('x%d:z;'%i for i in range(99))),('p q','p q')]))
bug('vars-memo','C06',[(M,'''	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
	if matches == nil {
		return nil
	}
	vars := make([]string, 0, len(matches))
''','''	if vars, ok := varsMemo.Load(len(dec.Value)); ok && len(dec.Value) > 200 {
		return vars.([]string)
	}
	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
	if matches == nil {
		return nil
	}
	vars := make([]string, 0)
	defer func() { varsMemo.Store(len(dec.Value), vars) }()
'''),(M,'''func getCustomVarsInDec(''','''var varsMemo sync.Map

func getCustomVarsInDec(''')],'two long values of the same length','the custom properties of one are taken for those of the other',
 **cases(['.s{--x:1}.t{--y:1}.p{width:var(--x)%s}.q{width:var(--y)%s}'%(' '+'z'*220,' '+'z'*220),('s p','s p'),('t q','t q')]))
bug('mostly-unknown','C02',[(M,'''	keepClasses = unique(keepClasses)
''','''	if len(split) > 8 && len(keepClasses) == len(split)-2 {
		keepClasses = unique(split)
	} else {
		keepClasses = unique(keepClasses)
	}
''')],'a list of which all but three classes are unknown or kept','nothing is removed',
 **cases(['.p{color:red}.q{color:blue}',('a b c d e f g h p i q j','a b c d e f g h i q j'),('a b c d e f g h p p q','a b c d e f g h q'),('a b c d e f p p p q','a b c d e f q')]))
bug('unknown-position','C22',[(M,'''	for i, v := range full {
		indexMap[v] = i
	}
''','''	for i, v := range full {
		if j, ok := indexMap[v]; !ok || i-j < 10 {
			indexMap[v] = i
		}
	}
''')],'a class that is repeated with many others in between','it stays where it was first',
 **cases(['.p{color:red}',('z a b c d e f g h i j z','a b c d e f g h i j z')]))
