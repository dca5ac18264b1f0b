package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
)

// family is a set of documents and a set of selectors; every selector is checked on every document.
type family struct {
	name  string
	docs  []*tnode
	sels  []complexSel
	lists [][]complexSel // groups
	forms []style        // ways of writing the selectors; nil: plain
}

var combs = []byte{' ', '>', '+', '~'}

// shapes are the trees of n nodes: the depths of the nodes in document order.
func shapes(n int) (out [][]int) {
	var rec func(d []int)
	rec = func(d []int) {
		if len(d) == n {
			out = append(out, append([]int(nil), d...))
			return
		}
		for k := 1; k <= d[len(d)-1]+1; k++ {
			rec(append(d, k))
		}
	}
	rec([]int{0})
	return out
}

// trees are all documents with a root element and up to n nodes with these labels.
func trees(n int, labels []func() *tnode, roots int) (out []*tnode) {
	for size := 1; size <= n; size++ {
		for _, d := range shapes(size) {
			idx := make([]int, size)
			for {
				if t := tree(d, idx, labels); t != nil {
					out = append(out, document(t))
				}
				k := size - 1
				for ; k >= 0; k-- {
					idx[k]++
					limit := len(labels)
					if k == 0 {
						limit = roots
					}
					if idx[k] < limit {
						break
					}
					idx[k] = 0
				}
				if k < 0 {
					break
				}
			}
		}
	}
	return out
}

func tree(d, idx []int, labels []func() *tnode) *tnode {
	path := []*tnode{}
	for i, depth := range d {
		n := labels[idx[i]]()
		if i > 0 {
			p := path[depth-1]
			if p.Kind != 'e' {
				return nil
			}
			p.Kids = append(p.Kids, n)
		}
		path = append(path[:depth], n)
	}
	return path[0]
}

func label(tag string, kv ...string) func() *tnode {
	return func() *tnode { return el(tag).with(kv...) }
}
func textLabel(s string) func() *tnode    { return func() *tnode { return txt(s) } }
func commentLabel(s string) func() *tnode { return func() *tnode { return cmt(s) } }

var nths = []string{"nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"}
var plainStructural = []string{"first-child", "last-child", "only-child", "first-of-type", "last-of-type", "only-of-type", "empty", "root"}

func structural(deep bool) (out []family) {
	labels := []func() *tnode{label("a"), label("b"), label("a", "class", "x"), textLabel("t"), commentLabel("c")}
	n := 4
	if deep {
		n = 5
	}
	docs := trees(n, labels, 3)
	docs = append(docs,
		document(el("a", el("b"), el("a")), &tnode{Kind: 'y'}, cmt("c")),
		document(el("b", el("a").with("class", "y x"), txt(" "), el("b", cmt(" "))), cmt("c"), &tnode{Kind: 'y'}))
	base := []compound{tag("*"), tag("a"), tag("b"), comp(class("x")), tag("a", class("x")),
		comp(nth("nth-child", 0, 2)), comp(nth("nth-child", 2, 1)), comp(nth("nth-last-child", 0, 2)), comp(nth("nth-of-type", 0, 2)),
		comp(fn("not", one(tag("a")))), comp(fn("has", one(tag("a")))), comp(fn("is", one(tag("a")), one(comp(class("x"))))),
		comp(fn("where", one(tag("b")))), comp(fn("not", one(comp(class("x")))), pc("first-child")), tag("a", pc("hover"))}
	for _, p := range plainStructural {
		base = append(base, comp(pc(p)))
	}
	var sels []complexSel
	for _, a := range base {
		sels = append(sels, one(a))
		for _, k := range combs {
			for _, b := range base {
				sels = append(sels, two(a, k, b))
			}
		}
	}
	small := []compound{tag("*"), tag("a"), tag("b"), comp(class("x"))}
	for _, a := range small {
		for _, b := range small {
			for _, c := range small {
				for _, k := range combs {
					for _, l := range combs {
						sels = append(sels, three(a, k, b, l, c))
					}
				}
			}
		}
	}
	out = append(out, family{name: "structure", docs: docs, sels: sels})

	// functions of selectors
	var inner []complexSel
	for _, a := range small {
		inner = append(inner, one(a))
		for _, k := range combs {
			for _, b := range small {
				inner = append(inner, two(a, k, b))
			}
		}
	}
	fns := []string{"not", "is", "where", "has"}
	sels = nil
	for _, f := range fns {
		for _, c := range inner {
			sels = append(sels, one(comp(fn(f, c))), one(tag("a", fn(f, c))), two(comp(fn(f, c)), '>', tag("*")), two(tag("*"), '+', comp(fn(f, c))))
		}
		for _, a := range small {
			for _, b := range inner[:len(small)*5] {
				sels = append(sels, one(comp(fn(f, one(a), b))))
			}
		}
		for _, g := range fns {
			for _, c := range inner {
				sels = append(sels, one(comp(fn(f, one(comp(fn(g, c)))))), one(comp(fn(f, c), fn(g, c))))
			}
			for _, a := range small[1:] {
				for _, k := range combs {
					sels = append(sels, one(comp(fn(f, two(a, k, comp(fn(g, one(tag("b")))))))), one(comp(fn(f, two(comp(fn(g, one(a))), k, tag("*"))))))
				}
			}
		}
	}
	for _, a := range small {
		for _, k := range combs {
			for _, b := range small {
				for _, l := range combs {
					sels = append(sels, one(comp(fn("has", three(a, k, b, l, tag("a"))))), one(comp(fn("not", three(a, k, b, l, tag("*"))))))
				}
			}
		}
	}
	for _, a := range small {
		sels = append(sels, one(comp(fn("haschild", one(a)))), one(comp(fn("haschild", one(a), one(comp(pc("only-child")))))))
	}
	out = append(out, family{name: "functions", docs: docs, sels: sels})

	out = append(out, fragments(family{name: "functions", docs: docs, sels: append(append(append([]complexSel(nil), inner...), sels...), one(comp(pc("hover"))))}))

	// groups
	var lists [][]complexSel
	for _, a := range small {
		for _, b := range inner[:21] {
			lists = append(lists, []complexSel{one(a), b}, []complexSel{b, one(a), one(tag("b"))})
		}
	}
	out = append(out, family{name: "groups", docs: docs, lists: lists})

	// an+b
	sels = nil
	r := 3
	if deep {
		r = 7
	}
	for _, name := range nths {
		for a := -r; a <= r; a++ {
			for b := -r; b <= r; b++ {
				sels = append(sels, one(comp(nth(name, a, b))))
				if a*a <= 4 {
					sels = append(sels, one(tag("a", nth(name, a, b))))
				}
			}
		}
		for _, b := range []int{0, 1, 2} {
			sels = append(sels, one(comp(nth(name, 1000000000, b))), one(comp(nth(name, -1000000000, b))), one(comp(nth(name, b, -1000000000))), one(comp(nth(name, -1, 1000000000))))
		}
	}
	for _, p := range plainStructural {
		for _, q := range plainStructural {
			sels = append(sels, one(comp(pc(p), pc(q))), one(comp(pc(p), fn("not", one(comp(pc(q)))))))
		}
	}
	n = 6
	if deep {
		n = 8
	}
	var nthDocs []*tnode
	for size := 0; size <= n; size++ {
		// flat documents
		for m := 0; m < pow(4, size); m++ {
			root, x := el("r"), m
			for i := 0; i < size; i++ {
				switch x & 3 {
				case 0:
					root.Kids = append(root.Kids, el("a"))
				case 1:
					root.Kids = append(root.Kids, el("b"))
				case 2:
					root.Kids = append(root.Kids, txt(" "))
				case 3:
					root.Kids = append(root.Kids, cmt("a"))
				}
				x >>= 2
			}
			nthDocs = append(nthDocs, document(root))
		}
	}
	forms := []style{plain, {sp: "", desc: "\n", in: " ", esc: escapeHex, comma: ","}, {sp: " ", desc: " ", in: "", upper: true, quote: '\'', esc: escapeChar, comma: ","}, commented}
	out = append(out, family{name: "an+b", docs: nthDocs, sels: sels, forms: forms})

	// :empty and texts
	var texts []*tnode
	spaces := []string{"", " ", "\t", "\n", "\r", "\f", " \n", "x", " x ", "\u00a0", "\u0085", "\u2003", "\v", "\u3000 "}
	for _, s := range spaces {
		texts = append(texts, document(el("a", txt(s))), document(el("a", cmt("x"), txt(s), el("b", txt(s), cmt(s)))), document(el("a", el("b", txt(" "), cmt("x"), txt(s)))))
	}
	words := []string{"Foo", "foo bar", "ba", "o b", "x"}
	for _, v := range words {
		for _, w := range words {
			texts = append(texts, document(el("a", txt(v), el("b", txt(w)), txt(v))), document(el("a", txt("f"), cmt("oo"), txt("oo "), el("b", txt(v)), txt(w))))
		}
	}
	sels = []complexSel{one(comp(pc("empty"))), one(tag("a", pc("empty"))), one(comp(fn("not", one(comp(pc("empty"))))))}
	for _, w := range append(words, "", "FOO", "foofoo", "o\tb", "f\"o", "fb") {
		for _, k := range []string{"contains", "containsOwn"} {
			sels = append(sels, one(comp(simple{kind: 'c', name: k, val: w})))
		}
	}
	out = append(out, family{name: "texts", docs: texts, sels: sels})
	return out
}

func pow(a, n int) int {
	p := 1
	for ; n > 0; n-- {
		p *= a
	}
	return p
}

// stringsOver are all strings of up to n letters.
func stringsOver(letters []string, n int) []string {
	out := []string{""}
	last := out
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, l := range letters {
				next = append(next, s+l)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

var ops = []string{"=", "!=", "~=", "|=", "^=", "$=", "*="}

func attributes(deep bool) (out []family) {
	letters := []string{"a", "B", "-", " "}
	n, m := 4, 2
	if deep {
		n, m = 5, 3
	}
	values := stringsOver(letters, n)
	values = append(values, stringsOver([]string{"a", "A", "\t", "\n"}, 3)...)
	var docs []*tnode
	docs = append(docs, document(el("e")), document(el("e").with("l", "a")))
	for _, v := range values {
		docs = append(docs, document(el("e").with("l", "B", "k", v)))
	}
	var sels []complexSel
	sels = append(sels, one(comp(attr("k", "", "", false))), one(comp(attr("l", "", "", false))), one(comp(attr("K", "", "", false))))
	sels[2].comps[0].simples[0].name = "k"
	for _, op := range ops {
		for _, v := range append(stringsOver(letters, m), "a a", "b-a", "A-", "aa-", "ab-", "\t", "a\n") {
			sels = append(sels, one(comp(attr("k", op, v, false))), one(comp(attr("k", op, v, true))))
		}
	}
	out = append(out, family{name: "attribute values", docs: docs, sels: sels})

	// what separates the words of an attribute: space, tab, line feed, carriage return, form feed, and nothing else
	seps := []string{"x", "y", " ", "\t", "\n", "\r", "\f", "\v", "\u00a0", "\u0085", "\u2003", "\x1c"}
	docs = nil
	n = 3
	if deep {
		n = 4
	}
	for _, v := range stringsOver(seps, n) {
		docs = append(docs, document(el("e", el("e").with("class", v+"x")).with("class", v, "k", v)))
	}
	sels = nil
	for _, ci := range []bool{false, true} {
		for _, v := range []string{"x", "X", "y", "xy", "x y"} {
			for _, op := range ops {
				sels = append(sels, one(comp(attr("k", op, v, ci))))
			}
			sels = append(sels, one(comp(attr("class", "~=", v, ci))))
		}
	}
	sels = append(sels, one(comp(class("x"))), one(comp(class("y"))), one(comp(class("x"), class("y"))), one(comp(fn("not", one(comp(class("x")))))), two(comp(class("y")), '>', comp(class("x"))), one(comp(class("xy"))), one(tag("e", class("x"))))
	out = append(out, family{name: "white space", docs: docs, sels: sels})

	// letters beyond ASCII, and other odd characters: the flag i folds ASCII letters only
	odd := []string{"k", "K", "\u212a", "é", "É", "\\", "\"", "ſ", "s"}
	docs = nil
	for _, v := range stringsOver(odd, 3) {
		docs = append(docs, document(el("e").with("k", v)))
	}
	sels = nil
	for _, op := range ops {
		for _, v := range stringsOver(odd, 2) {
			sels = append(sels, one(comp(attr("k", op, v, false))), one(comp(attr("k", op, v, true))))
		}
	}
	forms := []style{plain, {sp: "", desc: " ", quote: '\'', esc: escapeHex, in: "\t", comma: ","}, {sp: "", desc: " ", esc: escapeChar, comma: ",", upper: true}, commented}
	out = append(out, family{name: "attribute letters", docs: docs, sels: sels, forms: forms})

	// several attributes, order and combinations
	docs = nil
	kv := []string{"", "x", "x y", "y x z", "X", " x", "yx"}
	for _, a := range kv {
		for _, b := range kv {
			docs = append(docs, document(el("e").with("class", a, "id", b)), document(el("e").with("id", a, "class", b)), document(el("e", el("e").with("id", b)).with("class", a)))
		}
	}
	simples := []simple{class("x"), class("y"), class("X"), id("x"), id("X"), id("yx"), attr("class", "=", "x", false), attr("class", "~=", "X", true), attr("id", "^=", "x", true),
		attr("class", "", "", false), fn("not", one(comp(class("x")))), fn("not", one(comp(id("x"))))}
	sels = nil
	for _, a := range simples {
		for _, b := range simples {
			for _, c := range simples {
				sels = append(sels, one(comp(a, b, c)))
			}
			sels = append(sels, one(tag("e", a, b)), two(comp(a), ' ', comp(b)), two(comp(a), '>', comp(b)))
		}
	}
	out = append(out, family{name: "attributes", docs: docs, sels: sels})
	return out
}

// names has every short name over an alphabet of characters that need care, written in several ways.
func names(deep bool) []family {
	letters := []string{"a", "-", "1", "f", "_", " ", ".", ":", "\\", "é", "\x01", "\"", "G", "\n", "\x7f", "{", "(", "/", "*"}
	n := 2
	if deep {
		n = 3
	}
	list := append(stringsOver(letters, n)[1:], "a1 b", "--a", "-1a", "1-f", "a\\b", "w-1/2", "hover:x", "a[b=c]", "é1", "日本", "a\u00a0b")
	if !deep {
		list = append(list, stringsOver([]string{"a", "-", "1", " "}, 3)[21:]...)
	}
	forms := []style{plain, {sp: "", desc: "\n", quote: '\'', esc: escapeHex, comma: ","}, {sp: "\t", desc: "/**/ /*a*/", esc: escapeShort, in: " ", comma: " , "},
		commented}
	var out []family
	const chunk = 40
	for i := 0; i < len(list); i += chunk {
		end := i + chunk
		if end > len(list) {
			end = len(list)
		}
		f := family{name: "names", forms: forms}
		for _, s := range list[i:end] {
			root := el("e").with("class", s, "id", s, "k", s)
			if strings.TrimFunc(s, isSpace) != "" && strings.IndexFunc(s, isSpace) < 0 {
				root.Kids = append(root.Kids, el(foldASCII(s)), el("e").with("class", "p "+s+"\tq"), el("e").with(foldASCII(s), "v"))
			}
			f.docs = append(f.docs, document(root))
			cs := []compound{comp(class(s)), comp(id(s)), comp(attr("k", "=", s, false)), comp(attr("k", "~=", s, false))}
			if strings.IndexFunc(s, isSpace) < 0 {
				cs = append(cs, tag(foldASCII(s)), comp(attr(foldASCII(s), "", "", false)))
			}
			for _, c := range cs {
				if c.tag == "*" {
					continue // the element of this name, not every element, but the reference has no other way to say so
				}
				f.sels = append(f.sels, one(c), two(tag("e"), '>', c), two(c, ' ', tag("*")), one(comp(fn("not", one(c)))))
			}
		}
		out = append(out, f)
	}
	return out
}

func forms(deep bool) (out []family) {
	// controls
	labels := []func() *tnode{label("fieldset"), label("fieldset", "disabled", ""), label("legend"), label("input"), label("input", "disabled", "disabled"),
		label("select"), label("optgroup", "disabled", ""), label("option"), label("option", "disabled", ""), label("div")}
	n := 4
	if deep {
		n = 5
	}
	var docs []*tnode
	for _, d := range trees(n, labels, len(labels)) {
		// whether a fieldset in a disabled fieldset is itself disabled depends on the version of HTML
		ok := true
		for _, n := range d.all() {
			if n.Tag == "fieldset" && inDisabled(n) {
				ok = false
			}
		}
		if ok {
			docs = append(docs, d)
		}
	}
	for _, t := range []string{"button", "textarea", "optgroup", "label", "form", "object"} {
		for _, dis := range []bool{false, true} {
			mk := func() *tnode {
				e := el(t)
				if dis {
					e.with("disabled", "")
				}
				return e
			}
			docs = append(docs, document(mk()), document(el("fieldset", mk()).with("disabled", "")), document(el("fieldset", txt("x"), el("legend", mk()), mk(), el("legend", mk())).with("disabled", "")),
				document(el("select", mk())), document(el("fieldset", el("legend", el("fieldset", el("legend", mk()), mk())), mk()).with("disabled", "")))
		}
	}
	sels := []complexSel{one(comp(pc("disabled"))), one(comp(pc("enabled"))), one(tag("input", fn("not", one(comp(pc("disabled")))))), one(comp(fn("not", one(comp(pc("enabled")))))), one(comp(pc("input"))), two(comp(pc("disabled")), ' ', comp(pc("enabled")))}
	out = append(out, family{name: "disabled", docs: docs, sels: sels})

	// states and links
	docs = nil
	for _, t := range []string{"a", "area", "input", "option", "div", "select", "button", "textarea"} {
		for m := 0; m < 32; m++ {
			for _, typ := range []string{"", "checkbox", "radio", "text", "CheckBox", "RADIO", "checkbox2"} {
				e := el(t)
				for i, k := range []string{"href", "checked", "selected", "disabled", "type"} {
					if m>>i&1 == 1 {
						v := ""
						if k == "type" {
							v = typ
						}
						e.with(k, v)
					}
				}
				if m>>4 == 0 && typ != "" {
					continue
				}
				if t == "option" {
					e = el("select", e, el("option")).with("multiple", "")
				}
				docs = append(docs, document(el("div", e, txt("x"))))
			}
		}
	}
	sels = nil
	plainNames := []string{"checked", "link", "input", "visited", "hover", "active", "focus", "target", "focus-within", "focus-visible", "fullscreen", "modal", "picture-in-picture", "autofill", "popover-open"}
	for _, p := range plainNames {
		sels = append(sels, one(comp(pc(p))), one(comp(fn("not", one(comp(pc(p)))))), one(tag("input", pc(p))), two(comp(pc(p)), '>', tag("*")))
	}
	st := []style{plain, {sp: " ", desc: " ", quote: '"', esc: escapeChar, comma: ",", upper: true}, commented}
	out = append(out, family{name: "states", docs: docs, sels: sels, forms: st})

	// languages
	langs := []string{"", "fr", "fr-CH", "FR", "frx", "en", "fr-", "-", "f", "k", "\u212a", "é"}
	ll := []func() *tnode{label("a"), label("b")}
	for _, l := range langs {
		ll = append(ll, label("a", "lang", l))
	}
	sels = nil
	for _, l := range []string{"fr", "fr-ch", "FR", "en", "fr-CH-x", "f", "-f", "k", "K", "\u212a", "É", "é"} {
		sels = append(sels, one(comp(lang(l))), one(comp(fn("not", one(comp(lang(l)))))), one(tag("b", lang(l))), two(comp(lang(l)), '>', tag("b")))
	}
	n = 3
	if deep {
		n = 4
	}
	out = append(out, family{name: "languages", docs: trees(n, ll, len(ll)), sels: sels, forms: st})
	return out
}

// spaces: all white space and comments, in all places.
func spaces(deep bool) []family {
	labels := []func() *tnode{label("a"), label("b", "class", "x"), label("a", "class", "x", "k", "v")}
	n := 3
	if deep {
		n = 4
	}
	sels := []complexSel{one(tag("a", attr("k", "=", "V", true))), one(tag("a", attr("k", "", "", false), attr("k", "|=", "v", false))), one(comp(fn("not", one(comp(class("x"))), one(tag("b"))))),
		one(tag("a", fn("is", two(tag("a"), ' ', tag("a")), one(comp(class("x")))))), one(comp(fn("has", two(tag("a"), '>', tag("b"))))), one(comp(nth("nth-child", 2, 1))), one(comp(nth("nth-last-of-type", -1, 2))), one(comp(lang("en")))}
	for _, k := range combs {
		sels = append(sels, two(tag("a"), k, tag("b", class("x"))), three(comp(class("x")), k, tag("a"), ' ', tag("b")))
	}
	f := family{name: "spaces", docs: trees(n, labels, len(labels)), sels: sels, forms: []style{plain}}
	for _, s := range []string{"\t", "\n", "\r", "\f", "\r\n", " \t\n\r\f", "/**/", "/*/ b */", "/***/", "/* * / */", "/*\f*/", "/*a*//*b*/", "/* /* */", "/*\\*/", "/*'*/"} {
		desc := s
		if strings.Contains(s, "*") {
			desc = " " + s
		}
		f.forms = append(f.forms, style{sp: s, desc: desc, in: s, quote: '"', esc: escapeChar, comma: s + "," + s})
		if desc != s {
			f.forms = append(f.forms, style{sp: s, desc: s + "\f", in: s, quote: '"', esc: escapeChar, comma: "," + s, join: s}, style{sp: "\r" + s, desc: s + "\t" + s, in: s + "\n", quote: '"', esc: escapeChar, comma: ","})
		}
	}
	f.lists = [][]complexSel{{sels[0], sels[2]}, {sels[3], sels[len(sels)-1], sels[0]}}
	return []family{f}
}

func inDisabled(n *tnode) bool {
	for p := n.parent; p != nil; p = p.parent {
		if p.Tag == "fieldset" && p.has("disabled") {
			return true
		}
	}
	return false
}

// compounds are products of parts, for the specificity and for writing out.
func compounds(deep bool) family {
	parts := []simple{class("x"), class("-"), class("1 a"), id("i"), id("1"), attr("k", "", "", false), attr("k", "=", "v", false), attr("k", "^=", "v w", true), attr("k", "|=", "\"", false),
		attr("k", "!=", "", false), pc("hover"), pc("first-child"), pc("focus-within"), pc("empty"), pc("host"), pc("-moz-ui-invalid"), nth("nth-child", 2, 1), nth("nth-last-of-type", -1, -3), lang("fr"),
		simple{kind: 'c', name: "contains", val: "a"}, simple{kind: 'r', name: "matches", val: "[a,](b)"}, attr("k", "#=", "a|b", false), fn("not", one(comp(id("i"))), one(tag("a", class("x"), class("y")))), fn("is", one(tag("a")), two(comp(class("x")), ' ', tag("b"))),
		fn("where", one(comp(id("i")))), fn("has", one(tag("a")), one(comp(class("x"))), one(tag("b"))), fn("is", one(comp(fn("where", one(comp(id("i"))))))),
		fn("not", one(comp(fn("has", one(comp(id("i"), class("x"))), one(comp(id("i"), id("j"))))))), fn("haschild", one(tag("a", class("x"))), one(tag("*"))),
		fn("is", three(tag("a"), '>', comp(class("x")), '+', comp(id("i"))), one(comp(class("x"), class("y"), class("z"))))}
	tags := []string{"", "*", "a", "--x", "h1"}
	pes := []string{"", "before", "placeholder"}
	var f family
	f.name = "compounds"
	f.forms = []style{plain, commented}
	add := func(ps ...simple) {
		for i, t := range tags {
			for j, p := range pes {
				if t == "" && len(ps) == 0 && p == "" || len(ps) > 2 && i+j > 1 {
					continue
				}
				f.sels = append(f.sels, one(compound{tag: t, simples: ps, pe: p}))
			}
		}
	}
	add()
	for _, a := range parts {
		add(a)
		for _, b := range parts {
			add(a, b)
			for _, c := range parts {
				add(a, b, c)
			}
		}
	}
	var cs []compound
	for _, p := range parts {
		cs = append(cs, comp(p), tag("a", p, class("x")))
	}
	cs = append(cs, tag("*"), tag("a"))
	for _, a := range cs {
		for _, k := range combs {
			for _, b := range cs {
				f.sels = append(f.sels, two(a, k, b))
				b.pe = "after"
				f.sels = append(f.sels, two(a, k, b))
				if deep {
					for _, l := range combs {
						f.sels = append(f.sels, three(a, k, b2(b), l, a))
					}
				}
			}
		}
	}
	for _, p := range []string{"after", "backdrop", "before", "cue", "first-letter", "first-line", "grammar-error", "marker", "placeholder", "selection", "spelling-error"} {
		f.sels = append(f.sels, one(compound{pe: p}), one(compound{tag: "a", pe: p}), two(tag("b"), '>', compound{simples: []simple{class("x"), pc("hover")}, pe: p}))
	}
	for _, a := range parts {
		for _, g := range []string{"not", "is", "where", "has"} {
			for _, h := range []string{"not", "is", "where", "has"} {
				f.sels = append(f.sels, one(comp(fn(g, one(comp(fn(h, one(comp(a)), one(comp(class("x"), class("y")))), a)), one(comp(id("i")))))))
			}
		}
	}
	return f
}

func b2(b compound) compound { b.pe = ""; return b }

// expressionFamily: the extensions with regular expressions, on attributes and on texts.
func expressionFamily(deep bool) []family {
	atoms := []string{"a", "B", "^", "$", ".", "[ab]", "[^a]", "(a|b)", "a*", "(?i)b", "\\.", "\\s", " ", "-", ",", "'", "\"", "(?:a b)", "b{2}", "\\d+", "#x", ":y", "é", "[[:alpha:]]", "()", "/", "~=", "i"}
	var res []string
	for _, a := range atoms {
		res = append(res, a)
		for _, b := range atoms {
			if r := a + b; strings.Contains(r, "  ") || strings.HasPrefix(r, "/*") || strings.HasPrefix(r, " ") {
				continue // white space and comments in front are not part of it
			}
			res = append(res, a+b)
		}
	}
	values := []string{"", "a", "b", "A", "B", "ab", "ba", "a b", "bb", ".", "a.b", "-", "1", "a1", "é", "xay", "a,b", "'a'", "\"", "a\nb", " ", "#x", ":y", "a/b", "~=", "i", "b i"}
	var f family
	f.name = "regular expressions"
	for _, v := range values {
		f.docs = append(f.docs, document(el("p", txt(v), el("b", txt(v), cmt("a")), el("b").with("k", v), el("b", txt("z"), el("i", txt(v)), txt("z")), cmt(v)).with("k", v+v)))
	}
	for _, r := range res {
		if _, err := regexp.Compile(r); err != nil || strings.TrimSpace(r) == "" || r[0] == ' ' {
			continue
		}
		f.sels = append(f.sels, one(comp(simple{kind: 'r', name: "matches", val: r})), one(comp(simple{kind: 'r', name: "matchesOwn", val: r})), one(comp(attr("k", "#=", r, false))))
	}
	for _, r := range []string{"^a", "[^a]$", "a|b"} {
		m, o, k := simple{kind: 'r', name: "matches", val: r}, simple{kind: 'r', name: "matchesOwn", val: r}, attr("k", "#=", r, false)
		f.sels = append(f.sels, one(comp(m, o)), one(tag("b", m, k)), one(comp(fn("not", one(comp(m))))), one(comp(fn("is", one(comp(k)), one(comp(o))))), two(comp(o), '>', comp(m)), two(comp(k), '+', tag("b", o)), one(comp(fn("has", one(comp(k))))))
	}
	f.forms = []style{plain, {sp: "", desc: "\n", in: " ", esc: escapeHex, comma: ","}, {sp: " ", desc: " ", in: "\t", upper: true, quote: '\'', esc: escapeChar, comma: ","}, commented}
	return []family{f}
}

// fragments is the family without documents: the roots have no parents. Selectors that look at the position among siblings are left out.
func fragments(f family) family {
	var loose []*tnode
	for _, d := range f.docs {
		if len(d.Kids) != 1 {
			continue
		}
		b, err := json.Marshal(d.Kids[0])
		if err != nil {
			panic(err)
		}
		var t tnode
		if err := json.Unmarshal(b, &t); err != nil {
			panic(err)
		}
		t.link()
		loose = append(loose, &t)
	}
	g := family{name: f.name + " on fragments", docs: loose}
	for _, s := range f.sels {
		if !positional(s) {
			g.sels = append(g.sels, s)
		}
	}
	return g
}

func positional(c complexSel) bool {
	for _, k := range c.comps {
		for _, s := range k.simples {
			if s.kind == 'n' || s.kind == ':' && (strings.Contains(s.name, "-child") || strings.Contains(s.name, "-of-type") || s.name == "root") {
				return true
			}
			for _, t := range s.list {
				if positional(t) {
					return true
				}
			}
		}
	}
	return false
}

// alsoLoose are the families that are checked on fragments, too.
var alsoLoose = map[string]bool{"attributes": true, "attribute values": true, "languages": true, "states": true, "texts": true, "spaces": true, "disabled": true, "white space": true, "fillers": true}

// matchFamilies calls do for each family, which is dropped after that, until it returns false.
func matchFamilies(deep bool, do func(*family) bool) {
	for _, gen := range []func(bool) []family{structural, attributes, names, forms, spaces, fillers, large, elements, numbers, expressionFamily} {
		fams := gen(deep)
		for i := range fams {
			if !do(&fams[i]) {
				return
			}
			if alsoLoose[fams[i].name] {
				if l := fragments(fams[i]); !do(&l) {
					return
				}
			}
			fams[i] = family{}
		}
	}
}

// selFamilies calls do for the families with documents and those with selectors only.
func selFamilies(deep bool, do func(*family) bool) {
	more := true
	matchFamilies(deep, func(f *family) bool {
		f.docs = nil
		if strings.HasSuffix(f.name, " on fragments") {
			return true
		}
		more = do(f)
		return more
	})
	for _, gen := range []func(bool) family{compounds, counts} {
		if f := gen(deep); more {
			more = do(&f)
		}
	}
}

func (f *family) styles() []style {
	if f.forms == nil {
		return []style{plain}
	}
	return f.forms
}

var _ = fmt.Sprint
