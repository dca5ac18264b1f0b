package main

import (
	"fmt"
	"sort"
	"strings"
)

// fillers: what stands between elements and is not an element.
func fillers(deep bool) []family {
	fs := []func() *tnode{}
	for _, s := range []string{"", " ", "\n", "x", "\u00a0", "a b", "/*", "<b>"} {
		fs = append(fs, textLabel(s), commentLabel(s))
	}
	// up to two of them
	pairs := [][]func() *tnode{{}}
	for _, f := range fs {
		pairs = append(pairs, []func() *tnode{f})
	}
	for _, f := range fs {
		for _, g := range fs {
			pairs = append(pairs, []func() *tnode{f, g})
		}
	}
	mk := func(l []func() *tnode) (out []*tnode) {
		for _, f := range l {
			out = append(out, f())
		}
		return out
	}
	f := family{name: "fillers"}
	for i, p := range pairs {
		for place := 0; place < 5; place++ {
			a, b, c := el("a"), el("b").with("class", "x"), el("a").with("class", "x")
			kids := []*tnode{a, b, c}
			switch place {
			case 0, 1, 2, 3:
				kids = append(append(append([]*tnode{}, kids[:place]...), mk(p)...), kids[place:]...)
			case 4:
				// everywhere
				kids = append(mk(p), a)
				kids = append(append(kids, mk(p)...), b)
				kids = append(append(kids, mk(p)...), c)
				kids = append(kids, mk(p)...)
				b.Kids = mk(p)
			}
			root := el("a", kids...)
			f.docs = append(f.docs, document(root), document(el("b", mk(p)...)))
			if place == 0 {
				d := &tnode{Kind: 'd', Kids: append(append(append([]*tnode{{Kind: 'y'}}, mk(p)...), el("a", mk(p)...)), mk(pairs[(i*7+3)%len(pairs)])...)}
				d.link()
				f.docs = append(f.docs, d)
			}
		}
	}
	base := []compound{tag("*"), tag("a"), tag("b"), comp(class("x")), comp(pc("empty")), comp(fn("not", one(comp(pc("empty")))))}
	for _, p := range plainStructural {
		base = append(base, comp(pc(p)))
	}
	for _, n := range nths {
		base = append(base, comp(nth(n, 0, 2)), comp(nth(n, 2, 1)))
	}
	base = append(base, comp(fn("haschild", one(tag("a")))), comp(fn("haschild", one(comp(pc("empty"))))), comp(fn("has", two(tag("a"), '+', tag("b")))), comp(fn("has", one(comp(pc("empty"))))))
	for _, k := range []string{"contains", "containsOwn"} {
		for _, v := range []string{"", "x", " ", "a"} {
			base = append(base, comp(simple{kind: 'c', name: k, val: v}))
		}
	}
	for _, a := range base {
		f.sels = append(f.sels, one(a))
		for _, k := range combs {
			for _, b := range base[:4] {
				f.sels = append(f.sels, two(a, k, b))
			}
			f.sels = append(f.sels, two(tag("a"), k, a))
		}
	}
	return []family{f}
}

// steps are sizes: all small ones and those around powers of two.
func steps(n int) (out []int) {
	for i := 1; i <= n; i++ {
		p := i &^ (i - 1)
		if i <= 20 || i == p || i-1 == (i-1)&^(i-2) || (i+1)&i == 0 {
			out = append(out, i)
		}
	}
	return out
}

// large: deep and wide documents, and elements with many words and attributes.
func large(deep bool) (out []family) {
	max := 130
	if deep {
		max = 260
	}
	f := family{name: "deep documents"}
	for _, n := range steps(max) {
		for _, wrap := range []string{"b", "d"} {
			leaf := el("a")
			t := el(wrap, leaf)
			for i := 1; i < n; i++ {
				t = el(wrap, t)
			}
			f.docs = append(f.docs, document(el("c", t).with("lang", "fr", "class", "x")))
		}
		t := el("a")
		for i := 0; i < n; i++ {
			t = el("div", t)
		}
		f.docs = append(f.docs, document(el("fieldset", el("legend", el("input")), t, el("input")).with("disabled", "")))
		t = el("input")
		for i := 0; i < n; i++ {
			t = el("div", t)
		}
		f.docs = append(f.docs, document(el("fieldset", t).with("disabled", "")))
		t = el("input")
		for i := 0; i < n; i++ {
			t = el("div", t)
		}
		f.docs = append(f.docs, document(el("fieldset", el("legend", t)).with("disabled", "")))
		t = el("i", txt("foo"))
		for i := 0; i < n; i++ {
			t = el("u", t)
		}
		f.docs = append(f.docs, document(t))
	}
	for _, s := range []compound{comp(lang("fr")), comp(pc("disabled")), comp(pc("enabled")), comp(simple{kind: 'c', name: "contains", val: "foo"}), comp(fn("has", one(tag("a")))), comp(fn("has", two(tag("b"), ' ', tag("a")))),
		comp(fn("has", two(tag("b"), '>', tag("a")))), comp(fn("not", one(comp(fn("has", one(tag("a"))))))), comp(fn("haschild", one(tag("a")))), comp(fn("is", two(tag("c"), ' ', tag("a")))), comp(fn("not", two(comp(class("x")), ' ', tag("*"))))} {
		f.sels = append(f.sels, one(s))
	}
	for _, k := range []byte{' ', '>'} {
		f.sels = append(f.sels, two(tag("c"), k, tag("a")), two(tag("b"), k, tag("a")), two(comp(class("x")), k, tag("b")), three(tag("c"), k, tag("b"), ' ', tag("a")), three(tag("c"), ' ', tag("b"), k, tag("a")), three(comp(pc("root")), k, tag("b"), k, tag("b")))
	}
	out = append(out, f)

	f = family{name: "wide documents"}
	for _, n := range steps(max) {
		for form := 0; form < 4; form++ {
			r := el("r")
			for i := 0; i < n; i++ {
				switch {
				case form == 0 || form == 1 && i > 0 || form == 2 && i < n-1 || form == 3 && i%3 == 0:
					r.Kids = append(r.Kids, el("a"))
				default:
					r.Kids = append(r.Kids, el("b"))
				}
				if form == 3 {
					r.Kids = append(r.Kids, txt(" "), cmt("x"))
				}
			}
			f.docs = append(f.docs, document(r))
		}
	}
	for _, name := range nths {
		for _, ab := range [][2]int{{0, 1}, {0, 2}, {2, 0}, {2, 1}, {3, 2}, {-1, 3}, {-1, 64}, {1, 64}, {64, 0}, {0, 64}, {0, 65}, {0, 128}, {7, -3}, {-7, 100}, {100, 1}, {0, 100}} {
			f.sels = append(f.sels, one(comp(nth(name, ab[0], ab[1]))), one(tag("a", nth(name, ab[0], ab[1]))))
		}
	}
	for _, p := range plainStructural {
		f.sels = append(f.sels, one(comp(pc(p))), one(tag("b", pc(p))))
	}
	for _, k := range []byte{'+', '~'} {
		f.sels = append(f.sels, two(tag("a"), k, tag("b")), two(tag("b"), k, tag("a")), two(tag("b"), k, tag("b")), three(tag("b"), '~', tag("a"), k, tag("a")))
	}
	f.sels = append(f.sels, one(comp(fn("has", one(tag("b"))))), one(comp(fn("has", two(tag("b"), '~', tag("a"))))), one(comp(fn("haschild", one(tag("b"))))))
	out = append(out, f)

	f = family{name: "many words"}
	for _, n := range steps(max) {
		for form := 0; form < 3; form++ {
			var w []string
			for i := 0; i < n; i++ {
				w = append(w, fmt.Sprintf("w%d", i))
			}
			switch form {
			case 1:
				w[n-1] = "x"
			case 2:
				w[0] = "x"
			}
			v := strings.Join(w, []string{" ", "  ", "\n"}[form])
			e := el("e")
			for i := 0; i < n; i++ {
				e.with(fmt.Sprintf("a%d", i), fmt.Sprint(i))
			}
			e.with("class", v, "id", strings.Repeat("y", n)+"x", "k", strings.Repeat("-", n)+"x")
			f.docs = append(f.docs, document(e))
		}
	}
	for _, n := range steps(max) {
		long := strings.Repeat("y", n)
		f.sels = append(f.sels, one(comp(class(fmt.Sprintf("w%d", n-1)))), one(comp(attr("class", "~=", fmt.Sprintf("w%d", n-1), false))), one(comp(attr(fmt.Sprintf("a%d", n-1), "", "", false))), one(comp(attr(fmt.Sprintf("a%d", n-1), "=", fmt.Sprint(n-1), false))),
			one(comp(id(long+"x"))), one(comp(attr("id", "^=", long, false))), one(comp(attr("id", "*=", long+"x", true))), one(comp(attr("k", "$=", strings.Repeat("-", n)+"x", false))))
	}
	f.sels = append(f.sels, one(comp(class("x"))), one(comp(attr("class", "$=", "x", false))), one(comp(attr("class", "^=", "x", false))), one(comp(attr("class", "*=", "x", false))), one(comp(attr("class", "|=", "x", false))), one(comp(attr("class", "!=", "x", false))))
	out = append(out, f)
	return append(out, longSelectors(deep))
}

// longSelectors: selectors of many parts, arguments and levels, on documents where they match and where they fail by one part.
func longSelectors(deep bool) family {
	max := 40
	if deep {
		max = 130
	}
	f := family{name: "long selectors"}
	add := func(c complexSel) { f.sels = append(f.sels, c) }
	for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 39} {
		for _, cut := range []int{0, 1, 2} {
			// a chain of n children, cut short, with a word per element
			t := el("a").with("class", "z")
			for i := n - 1; i >= 0; i-- {
				if cut == 1 && i == n/2 {
					continue
				}
				x := el("a", t).with("class", fmt.Sprintf("c%d", i))
				if cut == 2 && i == 0 {
					x.Attrs = nil
				}
				t = x
			}
			f.docs = append(f.docs, document(el("a", t)))
			r := el("r")
			var all []string
			for i := 0; i < n; i++ {
				all = append(all, fmt.Sprintf("c%d", i))
				if cut == 1 && i == n/2 {
					all = all[:len(all)-1]
					continue
				}
				r.Kids = append(r.Kids, el("a").with("class", fmt.Sprintf("c%d", i)))
			}
			r.Kids = append(r.Kids, el("a").with("class", "z"), el("b").with("class", strings.Join(all, " ")))
			f.docs = append(f.docs, document(r))
		}
	}
	for _, n := range steps(max) {
		cls := func(i int) compound { return comp(class(fmt.Sprintf("c%d", i))) }
		for _, ks := range []string{" ", ">", "+", "~", " >", "+~", "> "} {
			var c complexSel
			for i := 0; i < n; i++ {
				c.comps = append(c.comps, cls(i))
				c.combs = append(c.combs, ks[i%len(ks)])
			}
			c.comps = append(c.comps, comp(class("z")))
			add(c)
			if n < 20 {
				add(one(comp(fn("not", c))))
				add(one(comp(fn("has", c))))
			}
		}
		var words, nots []simple
		var args []complexSel
		for i := 0; i < n; i++ {
			words = append(words, class(fmt.Sprintf("c%d", i)))
			nots = append(nots, fn("not", one(cls(i))))
			args = append(args, one(cls(i)))
		}
		add(one(comp(words...)))
		add(one(tag("a", nots...)))
		for _, g := range []string{"not", "is", "where", "has", "haschild"} {
			add(one(comp(fn(g, args...))))
			add(one(comp(fn(g, append(append([]complexSel{}, args[1:]...), one(comp(words...)))...))))
		}
		// nested
		for _, g := range []string{"not", "is", "where"} {
			s := fn(g, one(comp(class("c0"))))
			for i := 1; i < n; i++ {
				s = fn(g, one(comp(s)))
			}
			add(one(comp(s)))
			s = fn(g, one(comp(id("i"))), one(tag("a")))
			for i := 1; i < n; i++ {
				s = fn(g, one(comp(s, class(fmt.Sprintf("c%d", i)))), one(cls(i)))
			}
			add(one(comp(s)))
		}
	}
	return f
}

// counts are selectors with many parts of each kind, for the specificity.
func counts(deep bool) family {
	max := 300
	if deep {
		max = 1100
	}
	f := family{name: "counts"}
	for _, n := range steps(max) {
		for m := 1; m < 8; m++ {
			var s []simple
			var c complexSel
			for i := 0; i < n; i++ {
				if m&1 != 0 {
					s = append(s, id("i"))
				}
				if m&2 != 0 {
					s = append(s, []simple{class("x"), pc("hover"), attr("k", "", "", false), nth("nth-child", 2, 1)}[i%4])
				}
			}
			if m&4 != 0 {
				for i := 0; i < n; i++ {
					c.comps = append(c.comps, tag("a"))
					c.combs = append(c.combs, combs[i%4])
				}
			}
			c.comps = append(c.comps, comp(s...))
			f.sels = append(f.sels, c)
			if len(s) > 0 {
				f.sels = append(f.sels, one(compound{tag: "b", simples: s, pe: "before"}),
					one(comp(fn("not", one(tag("a")), one(comp(s...)), one(comp(id("i"), class("x")))))),
					one(comp(fn("is", one(comp(s...)), one(comp(id("i")))))))
			}
		}
	}
	return f
}

// tags are the names of HTML elements, current and old, and some that are none.
const tags = `a abbr acronym address applet area article aside audio b base basefont bdi bdo bgsound big blink blockquote body br button canvas
caption center cite code col colgroup command content data datalist dd del details dfn dialog dir div dl dt em embed fieldset figcaption figure font
footer form frame frameset h1 h2 h3 h4 h5 h6 head header hgroup hr html i iframe image img input ins isindex kbd keygen label legend li link
listing main map mark marquee math menu menuitem meta meter multicol nav nextid nobr noembed noframes noscript object ol optgroup option output
p param picture plaintext portal pre progress q rb rbc rp rt rtc ruby s samp script search section select selectedcontent shadow slot small source
spacer span strike strong style sub summary sup svg table tbody td template textarea tfoot th thead time title tr track tt u ul var video wbr xmp
x-y my-element h7 foo`

// elements: no element is special, but for what the pseudo-classes say.
func elements(deep bool) (out []family) {
	for _, t := range strings.Fields(tags) {
		f := family{name: "elements"}
		mk := func(kids ...*tnode) *tnode { return el(t, kids...) }
		f.docs = []*tnode{
			document(mk()), document(mk(mk(txt("foo"), el("q1"), mk()), txt("t"))),
			document(el("r", el("q1"), mk(txt("foo"), el("q1", txt("bar"), el("q2").with("class", "x"))).with("class", "x", "k", "v", "lang", "fr"), txt("t"), el("q2"))),
			document(el("r", mk(txt(" ")), mk(cmt("c")), mk(txt("x")), el("q1"), mk(el("q1", mk(el("q2", txt("foo"))))))),
			document(el("q1", el("q2", mk(el("q2"))), mk(el("q1").with("class", "x"), el("q2"))).with("lang", "fr")),
			document(el("r", mk().with("href", "x", "class", "x"), mk(el("q1")).with("checked", "", "type", "radio"), mk().with("selected", "", "k", "", "id", "x"))),
		}
		if t != "fieldset" { // nested fieldsets are out of the claim
			f.docs = append(f.docs, document(el("fieldset", el("legend", mk(), el("input")), mk(mk(), el("input"), el("select", el("option"), mk(el("option")))), el("legend", mk(el("button"))), mk()).with("disabled", "")),
				document(el("r", mk().with("disabled", ""), mk(el("option"), el("input"), mk()).with("disabled", ""), el("optgroup", mk(), mk(el("option"))).with("disabled", ""))))
		}
		self := []compound{tag(t), tag(t, class("x")), comp(fn("not", one(tag(t)))), comp(fn("is", one(tag(t)), one(tag("q2")))), comp(fn("where", one(tag(t)))), comp(fn("has", one(tag(t)))), comp(fn("haschild", one(tag(t))))}
		other := []compound{tag("*"), tag("q1"), tag("q2"), comp(class("x")), comp(attr("k", "", "", false)), comp(id("x")), comp(attr("k", "!=", "v", false)), comp(lang("fr"))}
		for _, k := range []string{"contains", "containsOwn"} {
			for _, v := range []string{"foo", "bar", "x", "foobar", ""} {
				other = append(other, comp(simple{kind: 'c', name: k, val: v}))
			}
		}
		for _, p := range append([]string{"input"}, plainStructural...) {
			other = append(other, comp(pc(p)), tag(t, pc(p)))
		}
		if t != "link" {
			other = append(other, comp(pc("link")))
		}
		if t != "a" && t != "area" && t != "link" && t != "menuitem" && t != "option" {
			other = append(other, comp(pc("enabled")))
		}
		if t != "menuitem" { // it depends on the version of HTML
			other = append(other, comp(pc("disabled")), comp(pc("checked")))
		}
		for _, n := range nths {
			other = append(other, comp(nth(n, 0, 2)), tag(t, nth(n, 2, 1)))
		}
		for _, q := range []string{"q1", "q2"} {
			other = append(other, comp(fn("has", one(tag(q)))), comp(fn("haschild", one(tag(q)))), comp(fn("has", two(tag(t), '>', tag(q)))), comp(fn("not", two(tag(t), ' ', tag(q)))))
		}
		for _, a := range append(append([]compound{}, self...), other...) {
			f.sels = append(f.sels, one(a))
		}
		for _, a := range self[:3] {
			for _, b := range other[:5] {
				for _, k := range combs {
					f.sels = append(f.sels, two(a, k, b), two(b, k, a))
				}
			}
		}
		out = append(out, f)
	}
	return out
}

// numbers: an+b with numbers of any size, up to 2^62.
func numbers(deep bool) (out []family) {
	f := family{name: "large numbers"}
	for i := 0; i < 12; i++ {
		r := el("r")
		for k := 0; k < i; k++ {
			if k%3 == 1 {
				r.Kids = append(r.Kids, el("b"))
			}
			r.Kids = append(r.Kids, el("a"))
		}
		f.docs = append(f.docs, document(r))
	}
	base := map[int]bool{}
	for _, e := range []uint{7, 8, 15, 16, 31, 32, 33, 52, 53, 61, 62} {
		for _, d := range []int{-2, -1, 0, 1, 2} {
			if n := 1<<e + d; n <= 1<<62 {
				base[n] = true
			}
		}
	}
	for _, n := range []int{100, 999, 1000000, 3037000499, 3037000500, 6074000999, 3074457345618258606, 3074457345618258607, 3074457345618258608, 2305843009213693951, 4611686018427387847} {
		base[n] = true
	}
	var big []int
	for n := range base {
		big = append(big, n, -n)
	}
	sort.Ints(big)
	small := []int{-3, -2, -1, 0, 1, 2, 3, 10}
	for _, n := range nths {
		for _, x := range big {
			for _, y := range small {
				f.sels = append(f.sels, one(comp(nth(n, x, y))), one(comp(nth(n, y, x))))
			}
			// small positions, by way of large numbers
			for _, y := range small {
				for _, m := range []int{1, 2, 3} {
					if x/m*m == x && y-x <= 1<<62 && y-x >= -1<<62 {
						f.sels = append(f.sels, one(comp(nth(n, x/m, y-x))))
					}
				}
			}
			if deep || n == nths[0] {
				for _, y := range big {
					f.sels = append(f.sels, one(comp(nth(n, x, y))))
				}
			}
		}
	}
	return []family{f}
}
