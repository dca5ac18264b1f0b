exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
exec(src[src.index("def bug("):src.index("bug('")])
# regular expressions, fragments, texts in pieces
def gomatch(code,imports=[]): return dict(pkg='cascadia',imports=['strings','html.' if 0 else 'strings']+imports,demo='\nvar _ = html.Parse\n\nfunc TestDemo(t *testing.T) {\n'+code+'\n}')
bug('find-string','C19',[(S,'			return rx.MatchString(s)','			return rx.FindString(s) != ""')],'a regular expression that matches the empty string','attributes without such a part do not match',
 **match([('[k#=x*]','<p id=a k=y></p>','a'),('[k#=^$]','<p id=a k></p>','a')]))
bug('find-text','C19',[(PC,'	return s.regexp.MatchString(text)','	return s.regexp.FindStringIndex(text) != nil && text != ""')],'an element without text','a regular expression that matches no text does not hold for it',
 **match([('p:matches(^$)','<p id=a></p>','a')]))
bug('regex-trim','C18',[(W,'	return fmt.Sprintf(":%s(%s)", s, c.regexp.String())','	return fmt.Sprintf(":%s(%s)", s, strings.TrimSpace(c.regexp.String()))')],'a regular expression that ends with a space','the written selector matches more',
 pkg='cascadia',imports=[],demo='''
func TestDemo(t *testing.T) {
	sel, err := cascadia.Parse("p:matches(a )")
	if err != nil {
		t.Fatal(err)
	}
	again, err := cascadia.Parse(sel.String())
	if err != nil {
		t.Fatal(err)
	}
	text := &html.Node{Type: html.TextNode, Data: "a"}
	p := &html.Node{Type: html.ElementNode, Data: "p"}
	p.AppendChild(text)
	if sel.Match(p) != again.Match(p) {
		t.Error(again.String())
	}
}''')
bug('below-the-top','C19',[(S,'	for p := n.Parent; p != nil; p = p.Parent {\n		if a.Match(p) {','	for p := n.Parent; p != nil && p.Parent != nil; p = p.Parent {\n		if a.Match(p) {')],'a tree without a document node, as html.ParseFragment returns','the topmost element is not an ancestor',
 pkg='cascadia',imports=[],demo='''
func TestDemo(t *testing.T) {
	sel, err := cascadia.Parse("p b")
	if err != nil {
		t.Fatal(err)
	}
	b := &html.Node{Type: html.ElementNode, Data: "b"}
	p := &html.Node{Type: html.ElementNode, Data: "p"}
	p.AppendChild(b)
	if !sel.Match(b) {
		t.Error("no match")
	}
}''')
bug('one-text','C19',[(PC,'''	var b bytes.Buffer
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.TextNode {
			b.WriteString(c.Data)
		}
	}
''','''	var b bytes.Buffer
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.TextNode {
			b.WriteString(c.Data)
			if c.NextSibling != nil {
				b.WriteByte('\\n')
			}
		}
	}
''')],'text that an element splits','it does not count as one text',**match([('p:containsOwn("ab")','<p id=a>a<i></i>b</p>','a')]))
bug('sibling-text','C19',[(S,'	for c := n.PrevSibling; c != nil; c = c.PrevSibling {\n		if s1.Match(c) {','	for c := n.PrevSibling; c != nil && c.Type != html.DoctypeNode; c = c.PrevSibling {\n		if c.Type == html.CommentNode && c.PrevSibling == nil {\n			break\n		}\n		if s1.Match(c) {')] if False else [(S,'''	for c := n.PrevSibling; c != nil; c = c.PrevSibling {
		if s1.Match(c) {
			return true
		}
	}
''','''	for c := n.Parent.FirstChild; c != nil && c != n; c = c.NextSibling {
		if s1.Match(c) {
			return true
		}
	}
''')],'a tree without a document node','matching fails with a nil pointer',pkg='cascadia',imports=[],demo='''
func TestDemo(t *testing.T) {
	sel, err := cascadia.Parse("p ~ b")
	if err != nil {
		t.Fatal(err)
	}
	if sel.Match(&html.Node{Type: html.ElementNode, Data: "b"}) {
		t.Error("match")
	}
}''')
bug('parent-lang','C19',[(PC,'	return own || s.Match(n.Parent)','	return own || n.Parent.Parent != nil && s.Match(n.Parent)')],'a tree without a document node whose root has the language','its children do not have the language',pkg='cascadia',imports=[],demo='''
func TestDemo(t *testing.T) {
	sel, err := cascadia.Parse(":lang(en)")
	if err != nil {
		t.Fatal(err)
	}
	b := &html.Node{Type: html.ElementNode, Data: "b"}
	p := &html.Node{Type: html.ElementNode, Data: "p", Attr: []html.Attribute{{Key: "lang", Val: "en"}}}
	p.AppendChild(b)
	if !sel.Match(b) {
		t.Error("no match")
	}
}''')
