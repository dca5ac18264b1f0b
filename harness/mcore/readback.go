package mcore

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C21

// written is a declaration in a stylesheet and what it is read back as.
type written struct{ Name, Value, Prop, Text string }

// wrule is a rule as it is expected to be read back.
type wrule struct {
	Sel   string
	Decls [][2]string
}

// words is a value without the white space that does not separate words.
func words(s string) string {
	var b strings.Builder
	const before, behind = ",)!/=]}:;<>*", ",(!/=[{:;<>*" // none is needed there
	quote, space := byte(0), false
	last := byte(',')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if quote == 0 && strings.IndexByte(" \t\n\f\r", ch) >= 0 {
			space = true
			continue
		}
		if space && strings.IndexByte(behind, last) < 0 && strings.IndexByte(before, ch) < 0 {
			b.WriteByte(' ')
		}
		space = false
		last = ch
		b.WriteByte(ch)
		switch {
		case ch == '\\' && i+1 < len(s):
			i++
			b.WriteByte(s[i])
			last = 'x'
		case quote != 0:
			if ch == quote {
				quote, last = 0, 'x'
			} else {
				last = 'x'
			}
		case ch == '"' || ch == '\'':
			quote = ch
		}
	}
	return b.String()
}

// selText is how a selector is written out.
func selText(s string) string {
	sel, err := cascadia.ParseWithPseudoElement(s)
	if err != nil {
		return s + ": " + err.Error()
	}
	return sel.String()
}

// readBack loads the sheets and compares the rules with what is expected of them; has is the number of rules before
// that. Then what the rules are written out as is loaded by another merger.
func readBack(m, other *merge.Merger, has int, sheets []string, want map[string]wrule) string {
	for _, s := range sheets {
		if err := m.AddRules(strings.NewReader(s), false); err != nil {
			return fmt.Sprintf("loading %q fails: %v", s, err)
		}
	}
	rules := m.Rules()
	if len(rules) != has+len(want) {
		return fmt.Sprintf("after loading %q there are %d rules more than before, want %d", sheets, len(rules)-has, len(want))
	}
	for _, class := range sortedWant(want) {
		w := want[class]
		r, ok := rules[class]
		if !ok {
			return fmt.Sprintf("after loading %q there is no rule for %q", sheets, class)
		}
		if msg := sameRule(r, w); msg != "" {
			return fmt.Sprintf("after loading %q, the rule of %q: %s", sheets, class, msg)
		}
		text := r.ToCssFormat()
		if err := other.AddRules(strings.NewReader(text), false); err != nil {
			return fmt.Sprintf("the rule of %q from %q is written out as %q, and cannot be loaded: %v", class, sheets, text, err)
		}
		again, ok := other.Rules()[class]
		if !ok {
			return fmt.Sprintf("the rule of %q from %q is written out as %q, which has no rule of that class", class, sheets, text)
		}
		if msg := sameRule(again, w); msg != "" {
			return fmt.Sprintf("the rule of %q from %q is written out as %q, which is loaded with %s", class, sheets, text, msg)
		}
	}
	return ""
}

func sortedWant(m map[string]wrule) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sameRule(r cascadia.CssRule, w wrule) string {
	if got := r.GetSelector(); got != selText(w.Sel) {
		return fmt.Sprintf("selector %q instead of %q", got, w.Sel)
	}
	if len(r.Declarations) != len(w.Decls) {
		return fmt.Sprintf("%d declarations %q instead of %d", len(r.Declarations), r.Declarations, len(w.Decls))
	}
	for i, d := range w.Decls {
		if g := r.Declarations[i]; g.Property != d[0] || words(g.Value) != words(d[1]) {
			return fmt.Sprintf("declaration %d is %q: %q instead of %q: %q", i, g.Property, g.Value, d[0], d[1])
		}
	}
	return ""
}

// reader reads back many sheets on the same mergers; "_" in them stands for a suffix of the classes.
type backReader struct {
	w        *kit.W
	m, other *merge.Merger
	n        int
}

func (b *backReader) run(sheets []string, want map[string]wrule) bool {
	if b.n%3000 == 0 {
		b.m, b.other = newEnv(b.w, "", true).m, newEnv(b.w, "", true).m
	}
	b.n++
	suffix := fmt.Sprint("k", b.n)
	sub := func(s string) string { return strings.ReplaceAll(s, "_", suffix) }
	var ss []string
	for _, s := range sheets {
		ss = append(ss, sub(s))
	}
	sw := map[string]wrule{}
	for k, v := range want {
		sw[sub(k)] = wrule{sub(v.Sel), v.Decls}
	}
	script := func() kit.Script {
		text, _ := json.Marshal(sw)
		return kit.Script{Ops: []kit.Op{{Kind: "new", KeepSort: true}, {Kind: "readback", Args: ss, Text: string(text)}}}
	}
	what := ""
	if msg := b.w.Guard(script, func() { what = readBack(b.m, b.other, len(b.m.Rules()), ss, sw) }); msg != "" {
		what = msg
	}
	b.w.Trans++
	b.w.Traces++
	b.w.State(kit.Hash(sheets...))
	if what != "" {
		b.w.C.Violation(what, script())
		return false
	}
	return b.n%64 != 0 || !b.w.C.Stop()
}

func checkReadBack(c *kit.C) {
	c.Assume("values are compared up to white space that does not separate words, and comments",
		"the text of a selector is compared with that of the same selector parsed alone (C18 covers the parser)")
	declLists(c)
	valueTexts(c)
	selectorRules(c)
	oddCharacters(c)
	tailwindBack(c)
	backHistories(c)
	backSizes(c)
	hugeFamily(c, "read back")
}

var backDecls = []written{
	{"color", "red", "color", "red"}, {"color", "Blue", "color", "Blue"}, {"COLOR", "red", "color", "red"}, {"color", "red!important", "color", "red !important"},
	{"margin", " 1px  2px ", "margin", "1px 2px"}, {"Margin-Top ", "-1px", "margin-top", "-1px"}, {"--x", "red", "--x", "red"}, {"--X", " a  b ", "--X", "a b"}, {"--x", "{a;b}", "--x", "{a;b}"},
	{"--e", "", "--e", ""}, {"--x", "1px !important", "--x", "1px!important"}, {"width", "calc( 1px + var(--x) )", "width", "calc(1px + var(--x))"}, {"-webkit-x", "var(--x,red)", "-webkit-x", "var(--x,red)"},
	{"unknown", "x,y / z", "unknown", "x,y/z"}, {"background", "url(a.png)", "background", "url(a.png)"}, {"content", "\"; }  \" ", "content", "\"; }  \""}, {"c\\6flor", "\\72 ed", "color", "\\72 ed"}, {"--a\\,b", "c\\;d", "--a,b", "c\\;d"}, {"--\\31 \\}", "'\\'\\\\'", "--1}", "'\\'\\\\'"}, {"\n /* c */ top", "\t/*c*/0\n", "top", "0"},
}

// declLists: all lists of declarations, with several ways to end them.
func declLists(c *kit.C) {
	n := 3
	if !c.Quick {
		n = 4
	}
	c.Extra("declarations", len(backDecls))
	c.Extra("declarations per rule", n)
	k := len(backDecls)
	c.Parallel(k*k, func(w *kit.W, ji int) {
		b := &backReader{w: w}
		var rec func(list []int, n int) bool
		rec = func(list []int, n int) bool {
			var want [][2]string
			var parts []string
			for _, i := range list {
				d := backDecls[i]
				want = append(want, [2]string{d.Prop, d.Text})
				parts = append(parts, d.Name+":"+d.Value)
			}
			for _, f := range []string{"%", "%;", ";%;;", "\n%;\n"} {
				css := ".a_{" + strings.Replace(f, "%", strings.Join(parts, ";"), 1) + "}"
				c.Count("rules", 1)
				if !b.run([]string{css}, map[string]wrule{"a_": {".a_", want}}) {
					return false
				}
			}
			if len(list) == n {
				return true
			}
			for i := 0; i < k; i++ {
				if !rec(append(list[:len(list):len(list)], i), n) {
					return false
				}
			}
			return true
		}
		if ji == 0 {
			for i := 0; i < k; i++ {
				if !rec([]int{i}, 1) {
					return
				}
			}
		}
		rec([]int{ji / k, ji % k}, n)
	})
}

// valueTexts: all sequences of parts of values with separators.
func valueTexts(c *kit.C) {
	parts := []string{"a", "Red", "1px", "50%", "#Ff0", "-1", "+2", ".5", "1e3", "0", "url(x.png)", "url(\"y\")", "\"s\"", "' t  \t u\"/**/ '", "calc(1px + 2px)", "rgb(0 0 0/1)", "var(--x)", "é", "U+26", "[l]", ",", "/", "--y", "-h", "important", "{}", "\"\\201C\"", "a\\,b", "\\31 x", "'\\''", "url(a\\)b)", "\\\\"}
	seps := []string{" ", "\n\t ", "", "/**/"}
	n := len(parts)
	c.Extra("parts of values", n)
	props := []string{"color", "--v", "grid-area"}
	c.Parallel(n*n, func(w *kit.W, ji int) {
		b := &backReader{w: w}
		emit := func(toks ...string) bool {
			for _, p := range props {
				for si, s := range seps {
					if p == "--v" && si == 3 {
						continue // comments are parts of the values of custom properties
					}
					if len(toks) > 2 && c.Quick && (si != 0 && si != 2 || p == "grid-area") {
						continue
					}
					for _, imp := range []string{"", "!important", " ! IMPORTANT "} {
						if imp != "" && len(toks) > 2 {
							continue
						}
						if p != "--v" && contains(toks, "{}") {
							continue
						}
						v := strings.Join(toks, s)
						t := v
						if si == 3 {
							t = strings.Join(toks, " ")
						}
						if t == "/*" || strings.Contains(t, "/*") || strings.Contains(t, "*/") {
							continue
						}
						c.Count("values", 1)
						if !b.run([]string{".a_{" + p + ":" + v + imp + "}"}, map[string]wrule{"a_": {".a_", [][2]string{{p, t + imp}}}}) {
							return false
						}
					}
				}
			}
			return true
		}
		if ji == 0 {
			for _, p := range parts {
				if !emit(p) {
					return
				}
			}
		}
		x, y := parts[ji/n], parts[ji%n]
		if !emit(x, y) {
			return
		}
		for _, z := range parts {
			if !emit(x, y, z) {
				return
			}
			if !c.Quick {
				for _, u := range parts {
					if !emit(x, y, z, u) {
						return
					}
				}
			}
		}
	})
}

type wsel struct {
	text    string
	classes []string
}

var backSels = []wsel{
	{".a_", []string{"a_"}}, {".b_:hover", []string{"b_"}}, {".c_::before", []string{"c_"}}, {"p", nil}, {"#i", nil}, {".d_>p", []string{"d_"}}, {".e_ .f_", []string{"e_", "f_"}}, {".g_.h_", []string{"g_", "h_"}},
	{".md\\:i_", []string{"md:i_"}}, {".\\31 j_", []string{"1j_"}}, {":is(.k_,.l_)", []string{"k_", "l_"}}, {":where(.m_ , p)", []string{"m_"}}, {"p.n_:focus + .o_ ~ q", []string{"n_", "o_"}}, {".a_:not(.x_)", []string{"a_"}}, {"[k=\".x_\"]", nil},
	{".w-1\\/2_:hover:focus::after", []string{"w-1/2_"}}, {".p\\,_", []string{"p,_"}}, {"* > .q_:nth-child( 2n + 1 )", []string{"q_"}}, {".é_", []string{"é_"}}, {".a_[title=\"x y\"]", []string{"a_"}},
	{".b_ .a_", []string{"b_", "a_"}}, {":unknown .a_", nil}, {".a_:unknown", nil},
}

// selectorRules: all lists of selectors, in several surroundings.
func selectorRules(c *kit.C) {
	n := 2
	if !c.Quick {
		n = 3
	}
	frames := []string{"%", "@media print{%}", "@media (min-width:1px){@supports (a:b){%}}", "@layer x{.x_{y:z}}%", "%@keyframes x{from{a:b}}", "/* .x_{a:b} */%", "@charset \"x\";%", "<!--%-->", "@media print{.z_{a:b}}%"}
	k := len(backSels)
	c.Extra("selectors", k)
	c.Parallel(k*k, func(w *kit.W, ji int) {
		b := &backReader{w: w}
		emit := func(list ...int) bool {
			var texts []string
			want := map[string]wrule{}
			decls := [][2]string{{"color", "red"}, {"--x", "y"}}
			for _, i := range list {
				s := backSels[i]
				texts = append(texts, s.text)
				for _, cl := range s.classes {
					want[cl] = wrule{s.text, decls}
				}
			}
			for _, f := range frames {
				for _, comma := range []string{",", " ,\n"} {
					if len(list) == 1 && comma != "," {
						continue
					}
					ww := want
					if strings.Contains(f, ".z_") {
						ww = map[string]wrule{"z_": {".z_", [][2]string{{"a", "b"}}}}
						for k, v := range want {
							ww[k] = v
						}
					}
					c.Count("selector lists", 1)
					if !b.run([]string{strings.Replace(f, "%", strings.Join(texts, comma)+"{color:red;--x:y}", 1)}, ww) {
						return false
					}
				}
			}
			return true
		}
		if ji < k && !emit(ji) {
			return
		}
		if !emit(ji/k, ji%k) {
			return
		}
		if n > 2 {
			for i := 0; i < k; i++ {
				if !emit(ji/k, ji%k, i) {
					return
				}
			}
		}
	})
}

// oddCharacters: all pairs of characters, escaped, in all places that hold names or strings.
func oddCharacters(c *kit.C) {
	var chars []string
	for ch := 1; ch < 128; ch++ {
		if ch != '_' { // stands for the suffix
			chars = append(chars, string(rune(ch)))
		}
	}
	chars = append(chars, "\u0080", "é", "\u2028", "\U0001F600")
	esc := func(s string) string {
		var b strings.Builder
		for _, r := range s {
			fmt.Fprintf(&b, "\\%06x", r)
		}
		return b.String()
	}
	// # is the escaped text
	places := []struct{ sel, decl string }{
		{".x#_", "a:b"}, {".#y_", "a:b"}, {".x_z#", "a:b"}, {"#i#.x_", "a:b"}, {".x_[d#=y]", "a:b"}, {".x_[d=y#]", "a:b"}, {".x_[d='#']", "a:b"}, {".x_:not(.z#)", "a:b"}, {"p# .x_", "a:b"},
		{".x_", "--#:b"}, {".x_", "a:#"}, {".x_", "a:'#'"}, {".x_", "--z:\"#\""}, {".x_", "a:b#(c)"}, {".x_", "content:'#' !important"},
	}
	n := len(chars)
	c.Extra("odd characters", n)
	c.Parallel(n, func(w *kit.W, ji int) {
		b := &backReader{w: w}
		for j := -1; j < n; j++ {
			odd := chars[ji]
			if j >= 0 {
				odd += chars[j]
			}
			for pi, pl := range places {
				if c.Quick && j >= 0 && (ji+j+pi)%4 != 0 {
					continue // the thorough tier has all
				}
				hash := strings.HasPrefix(pl.sel, "#i")
				sel := strings.ReplaceAll(strings.TrimPrefix(pl.sel, "#i"), "#", esc(odd))
				if hash {
					sel = "#i" + sel
				}
				decl := strings.ReplaceAll(pl.decl, "#", esc(odd))
				name := decl[:strings.Index(decl, ":")]
				want := wrule{sel, [][2]string{{name, decl[len(name)+1:]}}}
				if strings.HasPrefix(pl.decl, "--#") {
					want.Decls[0][0] = "--" + odd
				}
				var class string
				switch pi {
				case 0:
					class = "x" + odd + "_"
				case 1:
					class = odd + "y_"
				case 2:
					class = "x_z" + odd
				default:
					class = "x_"
				}
				wants := map[string]wrule{class: want}
				c.Count("odd characters", 1)
				if !b.run([]string{sel + "{" + decl + "}"}, wants) {
					return
				}
			}
		}
	})
}

// backHistories: all sequences of loads.
func backHistories(c *kit.C) {
	n := 3
	if !c.Quick {
		n = 4
	}
	type load struct {
		css  string
		want map[string]wrule
	}
	one := func(cl, sel string, kv ...string) map[string]wrule {
		r := wrule{Sel: sel}
		for i := 0; i < len(kv); i += 2 {
			r.Decls = append(r.Decls, [2]string{kv[i], kv[i+1]})
		}
		return map[string]wrule{cl: r}
	}
	both := func(a, b map[string]wrule) map[string]wrule {
		out := map[string]wrule{}
		for k, v := range a {
			out[k] = v
		}
		for k, v := range b {
			out[k] = v
		}
		return out
	}
	loads := []load{
		{".a_{color:red}", one("a_", ".a_", "color", "red")}, {".a_{color:blue}", one("a_", ".a_", "color", "blue")}, {".a_{}", one("a_", ".a_")}, {".a_:hover{color:red}", one("a_", ".a_:hover", "color", "red")},
		{".b_{color:red}", one("b_", ".b_", "color", "red")}, {".a_ .b_{x:y;x:z}", both(one("a_", ".a_ .b_", "x", "y", "x", "z"), one("b_", ".a_ .b_", "x", "y", "x", "z"))}, {".a_,.b_{--x:y!important}", both(one("a_", ".a_", "--x", "y!important"), one("b_", ".b_", "--x", "y!important"))},
		{"@media print{.a_{top:0}}", one("a_", ".a_", "top", "0")}, {"", nil}, {".a_{color:red}.a_{width:1px}", one("a_", ".a_", "width", "1px")}, {".A_{color:red}", one("A_", ".A_", "color", "red")},
	}
	k := len(loads)
	c.Extra("loads", k)
	c.Extra("loads per history", n)
	c.Parallel(k*k, func(w *kit.W, ji int) {
		b := &backReader{w: w}
		var rec func(list []int) bool
		rec = func(list []int) bool {
			var sheets []string
			want := map[string]wrule{}
			for _, i := range list {
				sheets = append(sheets, loads[i].css)
				want = both(want, loads[i].want)
			}
			c.Count("histories", 1)
			if !b.run(sheets, want) {
				return false
			}
			if len(list) > 1 {
				if !b.run([]string{strings.Join(sheets, "\n")}, want) {
					return false
				}
			}
			if len(list) >= n {
				return true
			}
			for i := range loads {
				if !rec(append(list[:len(list):len(list)], i)) {
					return false
				}
			}
			return true
		}
		if ji < k {
			if !b.run([]string{loads[ji].css}, loads[ji].want) {
				return
			}
		}
		rec([]int{ji / k, ji % k})
	})
}

// backSizes: rules of many declarations, long values and names, many selectors.
func backSizes(c *kit.C) {
	max := 1030
	if !c.Quick {
		max = 9000
	}
	var sizes []int
	for i := 1; i <= max; i++ {
		if i <= 40 || i&(i-1) == 0 || (i+1)&i == 0 || (i-1)&(i-2) == 0 || i%1000 < 1 {
			sizes = append(sizes, i)
		}
	}
	c.Extra("sizes", len(sizes))
	c.Parallel(len(sizes), func(w *kit.W, ji int) {
		n := sizes[ji]
		b := &backReader{w: w}
		var decls [][2]string
		var text, sels, vals []string
		want := map[string]wrule{}
		for i := 0; i < n; i++ {
			p, v := []string{"color", "--x", "top", fmt.Sprint("p-", i)}[i%4], fmt.Sprint("v", i)
			decls = append(decls, [2]string{p, v})
			text = append(text, p+":"+v)
			sels = append(sels, fmt.Sprintf(".s%d_", i))
			vals = append(vals, fmt.Sprintf("w%d(%d)", i, i%3))
			want[fmt.Sprintf("s%d_", i)] = wrule{fmt.Sprintf(".s%d_", i), [][2]string{{"color", "red"}}}
		}
		c.Count("sizes", 1)
		long := strings.Repeat("n", n)
		compound, comb := wrule{strings.Join(sels, ""), [][2]string{{"color", "red"}}}, wrule{strings.Join(sels, " "), [][2]string{{"color", "red"}}}
		wantC, wantD := map[string]wrule{}, map[string]wrule{}
		for k := range want {
			wantC[k], wantD[k] = compound, comb
		}
		for _, sep := range []string{"\n", "\t", "  ", "\r\n", " , ", " /**/ "} {
			v := strings.Join(vals, sep)
			x := v
			if strings.Contains(sep, "/*") {
				v = strings.Join(vals, " ") // in custom properties comments are parts of the value
			}
			t := strings.ReplaceAll(strings.ReplaceAll(x, "/**/", ""), "\r\n", " ")
			if !b.run([]string{".a_{grid-area:" + x + ";--x:" + v + ";font:" + long + sep + "}"}, map[string]wrule{"a_": {".a_", [][2]string{{"grid-area", t}, {"--x", v}, {"font", long + strings.TrimSpace(strings.ReplaceAll(sep, "/**/", ""))}}}}) {
				return
			}
		}
		_ = b.run([]string{".a_{" + strings.Join(text, ";") + "}"}, map[string]wrule{"a_": {".a_", decls}}) &&
			b.run([]string{".a_{grid-area:" + strings.Join(vals, " ") + ";--x:" + strings.Join(vals, ",") + "}"}, map[string]wrule{"a_": {".a_", [][2]string{{"grid-area", strings.Join(vals, " ")}, {"--x", strings.Join(vals, ",")}}}}) &&
			b.run([]string{".a_" + long + "{" + long + ":" + long + ";--" + long + ":" + long + "}"}, map[string]wrule{"a_" + long: {".a_" + long, [][2]string{{long, long}, {"--" + long, long}}}}) &&
			b.run([]string{strings.Join(sels, ",") + "{color:red}"}, want) &&
			b.run([]string{strings.Join(sels, "{color:red}") + "{color:red}"}, want) &&
			(n > 300 || b.run([]string{strings.Join(sels, "") + "{color:red}"}, wantC) && b.run([]string{strings.Join(sels, " ") + "{color:red}"}, wantD))
	})
}
