package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// Documents and selectors of a size far beyond what counters of 8 and 16 bits and ordinary limits hold. What is expected
// is written down directly, and a case is replayed by its name and its size.

type hugeCase struct {
	check string
	sizes [2][]int // quick, thorough
	run   func(h *huge, n int)
}

type huge struct {
	msg   string
	calls int64
	stop  func() bool
	alive func()
}

func (h *huge) ok() bool {
	h.calls++
	h.alive()
	return h.msg == "" && !(h.calls%64 == 0 && h.stop())
}

func (h *huge) fail(format string, args ...any) {
	if h.msg == "" {
		h.msg = fmt.Sprintf(format, args...)
	}
}

func clip(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%s ... %s (%d bytes)", s[:80], s[len(s)-80:], len(s))
	}
	return s
}

// sel parses a selector.
func (h *huge) sel(text string) cascadia.Sel {
	if !h.ok() {
		return nil
	}
	s, err := cascadia.Parse(text)
	if err != nil {
		h.fail("%s is not accepted: %v", clip(text), err)
		return nil
	}
	return s
}

// match: a selector matches a node or not.
func (h *huge) match(text string, n *html.Node, what string, want bool) {
	if s := h.sel(text); s != nil && s.Match(n) != want {
		h.fail("%s matches %s: %v", clip(text), what, !want)
	}
}

// tree is a document; a leaf is an element without children.
func node(tag string, kids ...*html.Node) *html.Node {
	n := &html.Node{Type: html.ElementNode, Data: tag, DataAtom: atom.Lookup([]byte(tag))}
	for _, k := range kids {
		n.AppendChild(k)
	}
	return n
}

func root(n *html.Node) *html.Node {
	d := &html.Node{Type: html.DocumentNode}
	d.AppendChild(n)
	return n
}

func textNode(s string) *html.Node { return &html.Node{Type: html.TextNode, Data: s} }

func set(n *html.Node, kv ...string) *html.Node {
	for i := 0; i < len(kv); i += 2 {
		n.Attr = append(n.Attr, html.Attribute{Key: kv[i], Val: kv[i+1]})
	}
	return n
}

func manyTimes(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

// places are positions of interest in 0..n-1.
func places(n int) []int {
	m := map[int]bool{}
	for _, i := range []int{0, 1, 2, 99, 126, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 9999, 32766, 32767, 32768, 65534, 65535, 65536, 65537, n / 2, n - 3, n - 2, n - 1} {
		if i >= 0 && i < n {
			m[i] = true
			m[n-1-i] = true
		}
	}
	var out []int
	for i := range m {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

var hugeCases = map[string]hugeCase{
	"siblings": {"C19", [2][]int{{300, 1000, 5000, 34000, 70000}, {300, 1000, 5000, 10000, 20000, 34000, 70000, 140000}}, func(h *huge, n int) {
		r := root(node("r"))
		kids := make([]*html.Node, n)
		tag := func(i int) string { return []string{"a", "b", "a"}[i%3] }
		var of [2][]int // the positions among those with the same name, from both ends
		seen := map[string]int{}
		for i := range kids {
			kids[i] = node(tag(i))
			r.AppendChild(kids[i])
			seen[tag(i)]++
			of[0] = append(of[0], seen[tag(i)])
		}
		of[1] = make([]int, n)
		for i := range kids {
			of[1][i] = seen[tag(i)] + 1 - of[0][i]
		}
		for _, i := range places(n) {
			for k, pos := range []int{i + 1, n - i, of[0][i], of[1][i]} {
				name := []string{"nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"}[k]
				for _, d := range []int{0, 1, -1, 256, -256, 65536, -65536} {
					if n > 10000 && d*d == 1 {
						continue
					}
					if b := pos + d; b > 0 {
						h.match(fmt.Sprintf(":%s(%d)", name, b), kids[i], fmt.Sprintf("child %d of %d", i+1, n), d == 0)
					}
					if !h.ok() {
						return
					}
				}
				what := fmt.Sprintf("child %d of %d", i+1, n)
				h.match(fmt.Sprintf(":%s(n+%d)", name, pos), kids[i], what, true)
				h.match(fmt.Sprintf(":%s(n+%d)", name, pos+1), kids[i], what, false)
				h.match(fmt.Sprintf(":%s(-n+%d)", name, pos), kids[i], what, true)
				if pos > 1 {
					h.match(fmt.Sprintf(":%s(-n+%d)", name, pos-1), kids[i], what, false)
				}
				h.match(fmt.Sprintf(":%s(7n+3)", name), kids[i], what, pos%7 == 3)
				h.match(fmt.Sprintf("b:%s(odd)", name), kids[i], what, pos%2 == 1 && tag(i) == "b")
			}
			h.match(":first-child", kids[i], "a child", i == 0)
			h.match(":last-child", kids[i], "a child", i == n-1)
			h.match(":first-of-type", kids[i], "a child", of[0][i] == 1)
			h.match(":last-of-type", kids[i], "a child", of[1][i] == 1)
			h.match(":only-child", kids[i], "a child", false)
			h.match(":only-of-type", kids[i], "a child", false)
			h.match("b + a", kids[i], "a child", i%3 == 2)
			h.match("a + b", kids[i], "a child", i%3 == 1)
			h.match("b ~ a", kids[i], "a child", i >= 2 && i%3 != 1)
			h.match("r > a:first-child ~ *", kids[i], "a child", i > 0)
			h.match("c ~ *", kids[i], "a child", false)
		}
		kids[n-1].Data, kids[n-1].DataAtom = "z", 0
		kids[0].Data, kids[0].DataAtom = "y", 0
		h.match(":only-of-type", kids[n-1], "the only z", true)
		h.match("y ~ z", kids[n-1], "the z behind the y", true)
		h.match("y ~ z", kids[n-2], "an a", false)
		h.match("r > :first-child ~ z:last-child", kids[n-1], "the z", true)
		for _, q := range []string{":haschild(z)", ":has(z)", ":has(y ~ z)", ":has(> z)"} {
			if q != ":has(> z)" {
				h.match(q, r, "the parent of z", true)
			}
		}
		h.match(":haschild(x)", r, "the parent of z", false)
		h.match(":has(z ~ y)", r, "the parent of z", false)
	}},
	"results": {"C19", [2][]int{{1000, 5000, 70000}, {1000, 2000, 5000, 10000, 20000, 34000, 70000, 140000, 300000}}, func(h *huge, n int) {
		for _, form := range []string{"wide", "leaves", "chain"} {
			r := root(node("r"))
			var as, all []*html.Node
			at := r
			for i := 0; i < n; i++ {
				a := node("a")
				switch form {
				case "wide":
					at.AppendChild(textNode("x"))
					at.AppendChild(a)
				case "leaves":
					b := node("b", a)
					all = append(all, b)
					at.AppendChild(b)
				case "chain":
					at.AppendChild(a)
					at = a
				}
				as = append(as, a)
				all = append(all, a)
			}
			last := node("z")
			at.AppendChild(last)
			all = append(all, last)
			sel := h.sel("a")
			star, z, grp := h.sel("*"), h.sel("z"), cascadia.SelectorGroup(nil)
			if h.msg != "" {
				return
			}
			grp, err := cascadia.ParseGroup("z,a")
			if err != nil {
				h.fail("z,a is not accepted: %v", err)
				return
			}
			for _, t := range []struct {
				what string
				got  []*html.Node
				want []*html.Node
			}{
				{"QueryAll a", cascadia.QueryAll(r, sel), as}, {"QueryAll *", cascadia.QueryAll(r, star), all}, {"QueryAll z", cascadia.QueryAll(r, z), []*html.Node{last}},
				{"QueryAll z,a", cascadia.QueryAll(r, grp), append(append([]*html.Node{}, as...), last)}, {"QueryAll from the document", cascadia.QueryAll(r.Parent, star), append([]*html.Node{r}, all...)},
				{"Filter a", cascadia.Filter(all, sel), as}, {"Filter *", cascadia.Filter(all, star), all}, {"Filter z", cascadia.Filter(all, z), []*html.Node{last}},
				{"Filter a again", cascadia.Filter(append(append([]*html.Node{}, all...), all...), sel), append(append([]*html.Node{}, as...), as...)},
				{"Query z", []*html.Node{cascadia.Query(r, z)}, []*html.Node{last}}, {"Query a", []*html.Node{cascadia.Query(r, sel)}, as[:1]},
			} {
				if len(t.got) != len(t.want) {
					h.fail("%s (%s) gives %d nodes instead of %d", t.what, form, len(t.got), len(t.want))
					return
				}
				for i := range t.got {
					if t.got[i] != t.want[i] {
						h.fail("%s (%s) gives another node at %d", t.what, form, i)
						return
					}
				}
				if !h.ok() {
					return
				}
			}
		}
	}},
	"text": {"C19", [2][]int{{5000, 70000, 1100000}, {1000, 5000, 10000, 70000, 1100000, 17000000}}, func(h *huge, n int) {
		check := func(e *html.Node, own bool, what string, words []string, none string) {
			for _, k := range []string{"contains", "containsOwn"} {
				for _, w := range words {
					h.match(fmt.Sprintf(":%s(%q)", k, w), e, what, k == "contains" || own)
					h.match(fmt.Sprintf(":%s(%q)", k, strings.ToUpper(w)), e, what, k == "contains" || own)
				}
				h.match(fmt.Sprintf(":%s(%q)", k, none), e, what, false)
			}
		}
		long := strings.Repeat("lorem ipsum ", n/12)
		e := node("p", textNode("start "+long[:len(long)/2]+"middle"+long[len(long)/2:]+" end."))
		root(e)
		check(e, true, "a long text", []string{"start", "middle", "end.", " end.", "ipsum  end"}, "absent")
		e = node("p")
		root(e)
		for i := 0; i < n/16; i++ {
			e.AppendChild(textNode("lorem ipsum "))
			e.AppendChild(&html.Node{Type: html.CommentNode, Data: "absent"})
		}
		e.AppendChild(textNode("en"))
		e.AppendChild(textNode("d."))
		check(e, true, "many texts", []string{"lorem", "end.", "ipsum end."}, "absent")
		e = node("p")
		root(e)
		for i := 0; i < n/16; i++ {
			e.AppendChild(node("i", textNode("lorem ipsum ")))
		}
		e.AppendChild(node("i", textNode("end.")))
		check(e, false, "texts of many children", []string{"lorem", "end.", "ipsum end."}, "absent")
		if n <= 100000 {
			// a long needle
			e = node("p", textNode("a"+long+"b"))
			root(e)
			check(e, true, "a long text", []string{"a" + long + "b", long, long + "b"}, "b"+long)
			h.match(fmt.Sprintf(":contains(%q)", long+"c"), e, "a long text", false)
		}
	}},
	"depth": {"C19", [2][]int{{300, 1000, 5000, 70000}, {300, 1000, 5000, 10000, 34000, 70000, 300000}}, func(h *huge, n int) {
		top := set(node("c"), "lang", "fr", "class", "x")
		root(top)
		at := top
		var mid *html.Node
		for i := 0; i < n; i++ {
			b := node("b")
			at.AppendChild(b)
			at = b
			if i == n/2 {
				mid = b
			}
		}
		leaf := node("a")
		at.AppendChild(leaf)
		leaf.AppendChild(textNode("foo"))
		for _, t := range []string{"c a", "c > b a", "c b > a", ".x *", ":lang(fr)", "b b b a", ":root > b a", ":not(d *)", ":is(c a)"} {
			h.match(t, leaf, "the leaf", true)
		}
		for _, t := range []string{"d a", "c > a", "a a", ":not(c *)", ":not(:lang(fr))", ":root > a", "c + b a"} {
			h.match(t, leaf, "the leaf", false)
		}
		for _, t := range []string{":has(a)", ":has(b > a)", ":contains(foo)", "c b", ":lang(fr)"} {
			h.match(t, mid, "an inner element", true)
		}
		for _, t := range []string{":has(d)", ":haschild(a)", ":containsOwn(foo)", ":empty", ":contains(bar)", ":has(b + a)"} {
			h.match(t, mid, "an inner element", false)
		}
		if s := h.sel("a"); s != nil && cascadia.Query(top, s) != leaf {
			h.fail("Query does not find the leaf")
		}
		at = node("fieldset")
		set(at, "disabled", "")
		root(at)
		for i := 0; i < n; i++ {
			d := node("div")
			at.AppendChild(d)
			at = d
		}
		in := node("input")
		at.AppendChild(in)
		h.match(":disabled", in, "an input in a disabled fieldset", true)
		h.match(":enabled", in, "an input in a disabled fieldset", false)
	}},
	"attributes": {"C19", [2][]int{{300, 1000, 5000, 70000}, {300, 1000, 5000, 10000, 34000, 70000, 300000}}, func(h *huge, n int) {
		e := root(node("e"))
		for i := 0; i < n; i++ {
			e.Attr = append(e.Attr, html.Attribute{Key: fmt.Sprint("a", i), Val: fmt.Sprint("v", i)})
		}
		long := strings.Repeat("y", n)
		set(e, "class", "first "+manyTimes(n, func(i int) string { return fmt.Sprint("w", i, " ") })+"last", "id", long+"i", "k", "pre-"+long+"-post", "href", "x")
		for _, i := range places(n) {
			h.match(fmt.Sprintf("[a%d]", i), e, "the element", true)
			h.match(fmt.Sprintf("[a%d=v%d]", i, i), e, "the element", true)
			h.match(fmt.Sprintf("[a%d=v%d]", i, i+1), e, "the element", false)
			h.match(fmt.Sprintf(".w%d", i), e, "the element", true)
			h.match(fmt.Sprintf("[class~=w%d]", i), e, "the element", true)
			h.match(fmt.Sprintf(".w%d", i+n), e, "the element", false)
			h.match(fmt.Sprintf("[a%d]", i+n), e, "the element", false)
		}
		for t, want := range map[string]bool{".last": true, ".first": true, ".first.last": true, ".las": false, "[class$=last]": true, "[class^=first]": true, "[class*=' last']": true, "[k^=pre-]": true, "[k$=-post]": true, "[k*=y-p]": true, "[k|=pre]": true, "[k$=-pos]": false,
			"#" + long + "i": true, "#" + long: false, "#" + long + "j": false, "#y" + long + "i": false, "[id=" + long + "i]": true, "[id=" + long + "]": false, "[id^=" + long + "]": true, "[id*=" + long + "y]": false, "[k*=-" + long + "-]": true, "[k*=--" + long + "]": false, ":any-link": false, "[href]": true} {
			if t == ":any-link" {
				continue
			}
			h.match(t, e, "the element", want)
		}
		if n <= 5000 {
			all := manyTimes(n, func(i int) string { return fmt.Sprint(".w", i) })
			h.match(all, e, "the element", true)
			h.match(all+".absent", e, "the element", false)
			h.match(".absent"+all, e, "the element", false)
			h.match(":not("+all+")", e, "the element", false)
			h.match(":is(.absent,"+all+")", e, "the element", true)
			h.match(":not("+strings.ReplaceAll(all[1:], ".", ",")+")", e, "the element", true)
			h.match(":is("+strings.ReplaceAll(all[1:], ".", ",")+",.last)", e, "the element", true)
			g, err := cascadia.ParseGroup(strings.ReplaceAll(all[1:], ".", ",") + ",.last")
			if err != nil || len(g) != n+1 || !g.Match(e) {
				h.fail("the group of %d selectors: %d, %v", n+1, len(g), err)
			}
		}
	}},
	"parts": {"C20", [2][]int{{2000, 5000, 70000}, {2000, 5000, 10000, 34000, 70000, 140000}}, func(h *huge, n int) {
		for t, want := range hugeTexts(n) {
			if !h.ok() {
				return
			}
			s, err := cascadia.ParseWithPseudoElement(t)
			if err != nil {
				h.fail("%s is not accepted: %v", clip(t), err)
				return
			}
			if got := specOf(s.Specificity()); got != want {
				h.fail("the specificity of %s is %v instead of %v", clip(t), got, want)
				return
			}
			if o, err := cascadia.Parse("#i.c"); err == nil {
				x := spec{1, 1, 0}
				if s.Specificity().Less(o.Specificity()) != less(want, x) || o.Specificity().Less(s.Specificity()) != less(x, want) {
					h.fail("the specificity of %s and that of #i.c are in the wrong order", clip(t))
				}
			}
		}
	}},
	"parts written out": {"C18", [2][]int{{2000, 5000}, {2000, 5000, 10000, 20000}}, func(h *huge, n int) {
		for t := range hugeTexts(n) {
			if !h.ok() {
				return
			}
			if what := roundTrip(t); what != "" {
				h.fail("%s", clip(what))
			}
			// written out it has all of its parts
			g, err := cascadia.ParseGroupWithPseudoElements(t)
			if err != nil {
				h.fail("%s is not accepted: %v", clip(t), err)
				return
			}
			out := g.String()
			for _, i := range places(n) {
				if w := fmt.Sprintf("x%dx", i); strings.Contains(t, w) && !strings.Contains(out, w) {
					h.fail("%s is written out without %s", clip(t), w)
				}
			}
		}
	}},
}

func less(a, b spec) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// hugeTexts are selectors of n parts and their specificity.
func hugeTexts(n int) map[string]spec {
	f := func(format string) string {
		return manyTimes(n, func(i int) string {
			if strings.Contains(format, "%") {
				return fmt.Sprintf(format, i)
			}
			return format
		})
	}
	m := map[string]spec{
		f(".x%dx"): {0, n, 0}, f("#x%dx"): {n, 0, 0}, "b" + f("[x%dx]"): {0, n, 1}, f("[x%dx=v]"): {0, n, 0}, f(":not(.x%dx)"): {0, n, 0}, f(":nth-child(2)"): {0, n, 0},
		f("a ") + "b": {0, 0, n + 1}, f("a > ") + ".c": {0, 1, n}, f(".x%dx ~ ") + "#i": {1, n, 0}, f("#x%dx + ") + "a": {n, 0, 1},
		"a" + f(".x%dx") + "::before": {0, n, 2}, "." + strings.Repeat("c", n): {0, 1, 0}, ".a\\:" + strings.Repeat("\\:", n): {0, 1, 0}, "[k=\"" + strings.Repeat("v ", n) + "\"]": {0, 1, 0},
		":not(" + f(".x%dx,") + "#i)": {1, 0, 0}, ":is(" + f("a,") + ".c)": {0, 1, 0}, ":where(" + f("#x%dx,") + "a)": {0, 0, 0}, ":not(" + f(".x%dx") + ")": {0, n, 0},
	}
	return m
}

func hugeFamily(c *kit.C, check string) {
	type job struct {
		name string
		n    int
	}
	var jobs []job
	for name, k := range hugeCases {
		if k.check != check {
			continue
		}
		sizes := k.sizes[0]
		if !c.Quick {
			sizes = k.sizes[1]
		}
		c.Extra("huge: "+name, sizes[len(sizes)-1])
		for _, n := range sizes {
			jobs = append(jobs, job{name, n})
		}
	}
	sort.Slice(jobs, func(i, j int) bool {
		return jobs[i].n > jobs[j].n || jobs[i].n == jobs[j].n && jobs[i].name < jobs[j].name
	})
	c.Parallel(len(jobs), func(w *kit.W, ji int) {
		j := jobs[ji]
		op := kit.Op{Kind: "huge", Text: j.name, Ints: []int{j.n}}
		script := kit.Script{Ops: []kit.Op{op}}
		w.Head(script.Ops)
		h := &huge{stop: c.Stop, alive: w.Alive}
		if p := w.Guard(func() kit.Script { return script }, func() { hugeCases[j.name].run(h, j.n) }); p != "" {
			h.msg = p
		}
		if h.msg != "" {
			c.Violation(fmt.Sprintf("%s, %d: %s", j.name, j.n, h.msg), script)
			return
		}
		w.Trans += h.calls
		w.Traces += h.calls
		w.State(kit.Hash("huge", j.name, fmt.Sprint(j.n)))
		c.Count("huge cases", 1)
	})
}

func replayHuge(op kit.Op) string {
	k, ok := hugeCases[op.Text]
	if !ok || len(op.Ints) == 0 {
		return "no such case"
	}
	h := &huge{stop: func() bool { return false }, alive: func() {}}
	k.run(h, op.Ints[0])
	return h.msg
}
