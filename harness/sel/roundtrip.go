package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// checkRoundTrip runs every text through the entry points of the parser, and what it accepts through the writer and
// the parser again.
func checkRoundTrip(c *kit.C) {
	c.Assume("two selectors mean the same if they have the same text when written out, the same specificity, pseudo-element and matches on the documents of the check")
	deep := !c.Quick
	var accepted, rejected sync.Map
	_ = rejected
	run := func(w *kit.W, text string) bool {
		what := ""
		script := func() kit.Script { return kit.Script{Ops: []kit.Op{{Kind: "selector", Text: text}}} }
		w.Note('s', text)
		if msg := w.Guard(script, func() { what = roundTrip(text) }); msg != "" {
			what = fmt.Sprintf("%q: %s", text, msg)
		}
		w.Trans++
		w.Traces++
		if what != "" {
			c.Violation(what, script())
			return false
		}
		return true
	}
	_ = accepted
	hugeFamily(c, "C18")
	spelledRoundTrip(c)
	// selectors of the grammar
	selFamilies(deep, func(f *family) bool {
		if c.Stop() {
			return false
		}
		c.Count("selectors", int64(len(f.sels)+len(f.lists)))
		const chunk = 64
		n := len(f.sels) + len(f.lists)
		c.Parallel((n+chunk-1)/chunk, func(w *kit.W, ci int) {
			for i := ci * chunk; i < (ci+1)*chunk && i < n; i++ {
				for _, st := range f.styles() {
					var text string
					if i < len(f.sels) {
						text = f.sels[i].text(st)
					} else {
						text = listText(f.lists[i-len(f.sels)], st)
					}
					w.State(kit.Hash(text))
					if i == n/2 {
						c.Sample("%s: %q", f.name, text)
					}
					if !run(w, text) {
						return
					}
				}
			}
		})
		return true
	})
	// nested selectors, of any depth
	var nested []kit.Op
	for _, f := range []string{":not(", ":is(", ":where(", ":has(", ":haschild(", ":IS( ", "a:not(.b,", ".b > :is(", ":not(:has(", "::before:is(", ":contains(", ":matches(", ":lang(", ":nth-child(", "[", "(", "/*", "\\", "*|*", "a>", "a,"} {
		for _, mid := range []string{"a", ".b:hover", "", "("} {
			for _, n := range []int{1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1001, 1000000} {
				if n == 1000000 && !strings.Contains(f, "(") {
					continue // the texts only get longer
				}
				nested = append(nested, kit.Nested("", f, mid, strings.Repeat(")", strings.Count(f, "(")), "", n), kit.Nested("a ", f, mid, "", ")", n))
			}
		}
	}
	c.Count("nested texts", int64(len(nested)))
	c.Parallel(len(nested), func(w *kit.W, i int) {
		if c.Stop() {
			return
		}
		op, what := nested[i], ""
		script := func() kit.Script { return kit.Script{Ops: []kit.Op{op}} }
		w.NoteNested(op)
		if msg := w.Guard(script, func() { what = roundTrip(op.NestedText()) }); msg != "" {
			what = msg
		}
		w.Trans++
		w.Traces++
		if what != "" {
			c.Violation(fmt.Sprintf("%q %d times: %s", op.Args, op.Ints[0], head(what)), script())
		}
	})
	// token sequences
	for _, s := range sequences(deep) {
		s := s
		if c.Stop() {
			return
		}
		total := pow(len(s.tokens), s.n)
		c.Count("token sequences", int64(total))
		c.Count("token sequences "+s.name, int64(total))
		const chunk = 2048
		var mu sync.Mutex
		var acc int64
		c.Parallel((total+chunk-1)/chunk, func(w *kit.W, ci int) {
			var b strings.Builder
			var ok int64
			for i := ci * chunk; i < (ci+1)*chunk && i < total; i++ {
				b.Reset()
				b.WriteString(s.before)
				x := i
				for k := 0; k < s.n; k++ {
					b.WriteString(s.tokens[x%len(s.tokens)])
					x /= len(s.tokens)
				}
				b.WriteString(s.after)
				text := b.String()
				if !run(w, text) {
					return
				}
				if i%64 == 0 {
					if c.Stop() {
						return
					}
				}
				if _, err := cascadia.ParseGroupWithPseudoElements(text); err == nil {
					ok++
					w.State(kit.Hash(text))
				}
			}
			mu.Lock()
			acc += ok
			mu.Unlock()
		})
		c.Outcome("texts accepted", acc)
		c.Outcome("texts rejected", int64(total)-acc)
	}
}

type sequence struct {
	name, before, after string
	tokens              []string
	n                   int
}

func sequences(deep bool) (out []sequence) {
	tokens := []string{"a", "B", "*", "#", ".", ":", "::", "[", "]", "(", ")", ",", " ", ">", "+", "~", "=", "^=", "|", "\"", "'", "\\", "-", "1", "n", "i", "/*", "*/", "é", "\xff", "\n", "{", "\x00", "!",
		":not(", ":has(", ":hover", "::before", ":nth-child(", ":lang(", ":matches(", ":contains(", "[k=", "\\31 ", "#=", "\t", "_", "::-moz-placeholder"}
	n := 4
	if deep {
		n = 5
	}
	for k := 0; k <= n; k++ {
		out = append(out, sequence{"of the alphabet", "", "", tokens, k})
	}
	in := func(name, before, after string, n int, toks string, more ...string) {
		t := more
		for _, r := range toks {
			t = append(t, string(r))
		}
		for k := 0; k <= n; k++ {
			out = append(out, sequence{name, before, after, t, k})
		}
	}
	x := 0
	if deep {
		x = 1
	}
	in("in an+b", "a:nth-child(", ")", 5+x, "0129n-+ oN)", "odd", "even")
	in("in an attribute", "[", "]", 4+x, "ka=~|^$*! \"'\\-1iI]#\n", "\"v\"", "/**/")
	in("in an attribute value", "[k=\"", "\"]", 4+x, "a\\\n\r\f\t \"'1é\x00g-", "\\\r\n", "110000")
	in("in a class", ".", "", 4+x, "a-1_\\ \n\tég.#:0\x01\x00", "d800", "\xe9", "\\a ")
	in("in an id", "#", "", 3+x, "a-1_\\ \nég.#:\x00")
	in("after a colon", ":", "", 4+x, "an(:-)1 ,", "not", "IS", "first-child", "before", "After", "empty", "nth-of-type(", "contains(", "lang(", "matches(")
	in("in a regular expression", "a:matches(", ")", 4+x, "a()[]\\ +*?^/|'", "/*", "*/")
	in("in a regular attribute", "[k#=", "]", 4, "a()[]\\ +*i", "/*", "*/")
	in("in a text", "a:contains(", ")", 4, "aB()\"'\\ \n1-é", "/**/")
	in("in a list", "a:is(", ")", 4, "ab.#>+ ,():*", ":where(", "/**/", "::after")
	in("after a compound", "a.b ", "", 4, "ab>+~ ,*.:\n", "/**/", "/*", ":hover", "::after")
	bytes := make([]string, 256)
	for i := range bytes {
		bytes[i] = string([]byte{byte(i)})
	}
	for _, ctx := range [][2]string{{"", ""}, {".", ""}, {"#a", ""}, {"[k='", "']"}, {"a", "b"}, {"a\\", ""}, {":lang(", ")"}, {":contains(", ")"}, {"[", "=v]"}, {":nth-child(", "n)"}} {
		n := 2
		if deep && ctx[0] == "." {
			n = 3
		}
		for k := 1; k <= n; k++ {
			out = append(out, sequence{"of bytes", ctx[0], ctx[1], bytes, k})
		}
	}
	return out
}

// probe documents of the round trip
var probes = sync.OnceValue(func() []*tnode {
	root := el("a", txt("Foo a"), el("b", el("a").with("class", "a b", "id", "a"), el("i", txt("a"), el("b").with("k", "a"))).with("lang", "a"),
		el("a", el("n"), el("a"), el("b"), cmt("x"), txt(" ")).with("k", "1", "class", "1"), el("b").with("k", "a\\\"' b", "id", "1", "a", ""),
		el("input").with("disabled", "", "class", "-a é", "k", ""), el("a").with("href", "#", "class", "_ a-1"), el("b", txt("1 -"), el("a")))
	d := document(root, cmt("a"))
	return d.all()
})

func matchSet(m cascadia.Matcher) (set uint64) {
	for i, n := range probes() {
		if m.Match(n.h) {
			set |= 1 << i
		}
	}
	return set
}

type pseudoes interface{ PseudoElementsString() string }

// differ tells how two selectors differ.
func differ(a, b cascadia.Sel) string {
	if x, y := a.String(), b.String(); x != y {
		return fmt.Sprintf("written out %q and %q", x, y)
	}
	if x, y := a.Specificity(), b.Specificity(); x != y {
		return fmt.Sprintf("specificity %v and %v", x, y)
	}
	if x, y := a.PseudoElement(), b.PseudoElement(); x != y {
		return fmt.Sprintf("pseudo-element %q and %q", x, y)
	}
	if x, y := matchSet(a), matchSet(b); x != y {
		return fmt.Sprintf("matched nodes %x and %x", x, y)
	}
	x, xok := a.(pseudoes)
	y, yok := b.(pseudoes)
	if xok != yok {
		return fmt.Sprintf("structure %T and %T", a, b)
	}
	if xok && x.PseudoElementsString() != y.PseudoElementsString() {
		return fmt.Sprintf("pseudo parts %q and %q", x.PseudoElementsString(), y.PseudoElementsString())
	}
	return ""
}

// roundTrip says what is wrong with the way a text is treated.
func roundTrip(text string) string {
	single, err1 := cascadia.Parse(text)
	singlePE, err2 := cascadia.ParseWithPseudoElement(text)
	group, err3 := cascadia.ParseGroup(text)
	groupPE, err4 := cascadia.ParseGroupWithPseudoElements(text)
	switch {
	case err1 == nil && single == nil, err2 == nil && singlePE == nil, err3 == nil && len(group) == 0, err4 == nil && len(groupPE) == 0:
		return fmt.Sprintf("%q: neither selector nor error", text)
	case err1 == nil && err2 != nil, err3 == nil && err4 != nil:
		return fmt.Sprintf("%q is accepted only without pseudo-elements: %v %v", text, err2, err4)
	case (err1 == nil) != (err3 == nil && len(group) == 1), (err2 == nil) != (err4 == nil && len(groupPE) == 1):
		return fmt.Sprintf("%q: the parsers of selectors and of groups disagree: %v, %v, %v, %v", text, err1, err3, err2, err4)
	}
	if err4 != nil {
		return ""
	}
	if err1 == nil {
		if d := differ(single, singlePE); d != "" {
			return fmt.Sprintf("%q: with and without pseudo-elements: %s", text, d)
		}
		if d := differ(single, group[0]); d != "" {
			return fmt.Sprintf("%q: alone and as a group: %s", text, d)
		}
	}
	if err2 == nil {
		if d := differ(singlePE, groupPE[0]); d != "" {
			return fmt.Sprintf("%q: alone and as a group: %s", text, d)
		}
	}
	if err3 == nil {
		if d := differGroups(group, groupPE); d != "" {
			return fmt.Sprintf("%q: group with and without pseudo-elements: %s", text, d)
		}
	} else if !strings.Contains(text, ":") {
		return fmt.Sprintf("%q is accepted only with pseudo-elements, but has none", text)
	}
	// the group and its members written out
	out := groupPE.String()
	again, err := cascadia.ParseGroupWithPseudoElements(out)
	if err != nil {
		return fmt.Sprintf("%q is written as %q, which is not accepted: %v", text, out, err)
	}
	if d := differGroups(groupPE, again); d != "" {
		return fmt.Sprintf("%q is written as %q, which means something else: %s", text, out, d)
	}
	if err3 == nil {
		if _, err := cascadia.ParseGroup(out); err != nil {
			return fmt.Sprintf("%q is written as %q, which is not accepted without pseudo-elements: %v", text, out, err)
		}
	}
	for i, s := range groupPE {
		one := s.String()
		t, err := cascadia.ParseWithPseudoElement(one)
		if err != nil {
			return fmt.Sprintf("%q is written as %q, which is not accepted: %v", text, one, err)
		}
		if d := differ(s, t); d != "" {
			return fmt.Sprintf("%q is written as %q, which means something else: %s", text, one, d)
		}
		_, err = cascadia.Parse(one)
		if err3 == nil && err != nil {
			return fmt.Sprintf("%q, member %d, is written as %q, which is not accepted without pseudo-elements: %v", text, i, one, err)
		}
	}
	return ""
}

func differGroups(a, b cascadia.SelectorGroup) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d and %d members", len(a), len(b))
	}
	for i := range a {
		if d := differ(a[i], b[i]); d != "" {
			return fmt.Sprintf("member %d: %s", i, d)
		}
	}
	if a.String() != b.String() {
		return fmt.Sprintf("written out %q and %q", a.String(), b.String())
	}
	return ""
}
