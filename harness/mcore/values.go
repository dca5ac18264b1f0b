package mcore

import (
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// values that a declaration may have: what a class sets a style to says nothing about whether it sets it.
var values = []string{
	"v", "0", "1", "-1", "+1", "0.5", ".5", "-.5", "1e3", "1px", "-1px", "1.5rem", "50%", "100%", "1fr", "2s", "0.2s", "90deg", "#fff", "#FFF", "#ffffff", "#0f0f0f80", "U+26", "auto", "none", "inherit", "initial", "unset", "revert", "revert-layer",
	"red", "RED", "transparent", "currentColor", "Arial", "-webkit-box", "-moz-fit-content", "--ident", "_x", "é", "a1", "a-b",
	"1px 2px", "1px 2px 3px 4px", "1px,2px", "1px , 2px", "1px/2px", "1px / 2px", "a b c", "a,b,c", "a/b", "1 2/3 4", "red blue", "solid 1px red", "0 0 0 1px #000,0 1px 2px 0 rgb(0 0 0/0.05)",
	"rgb(1 2 3)", "rgb(1,2,3)", "rgb(1 2 3 / 0.5)", "rgba(1,2,3,.5)", "hsl(1deg 2% 3%)", "calc(100% - 1px)", "calc(100%/3)", "calc((1px + 2px)*3)", "min(1px,2px)", "max(1px, 2px)", "clamp(1px,2px,3px)", "minmax(0,1fr)", "repeat(2,minmax(0,1fr))", "fit-content(1px)",
	"translate(1px,2px) rotate(3deg)", "linear-gradient(to right,red,blue)", "cubic-bezier(0,0,.2,1)", "blur(1px)", "url(x.png)", "url('x.png')", "url(\"x.png\")", "url(data:image/svg+xml;base64,AA==)", "url( x )", "attr(x)", "env(safe-area-inset-top)", "counter(x)",
	"\"x\"", "'x'", "\"\"", "\"a b\"", "\"a;b\"", "\"a}b\"", "\"a{b\"", "\"\\\"\"", "\"\\\\\"", "\"\\201C\"", "'\\''", "\"é\"", "\"a\" \"b\"", "\"!\"", "\"/*\"", "\"@media\"", "\"(\"", "\",\"",
	"[a] 1fr [b]", "[a b]", "{a}", "(a)", "span 2/span 3", "1/-1", "a!b", "x=y", "x:y", "progid:x", "alpha(opacity=50)", "\\31", "a\\,b", "<x>", "a|b", "@x", "*", "&", "~", "^", "$x", "%", "?",
	"var(--q)", "var(--q,1px)", "var(--q, )", "rgb(1 2 3/var(--q))", "calc(var(--q)*1px)", "var(--p) var(--q)",
}

// valueProps are kinds of properties.
var valueProps = []string{
	"color", "width", "opacity", "content", "padding-left", "background-image", "font-family", "transform", "display", "filter", // longhands
	"padding", "margin", "border", "font", "background", "flex", "grid-area", "transition", "inset", "list-style", "border-radius", // shorthands
	"-webkit-line-clamp", "-webkit-text-fill-color", "-webkit-foo", "-moz-osx-font-smoothing", "-ms-filter", // of vendors
	"stroke", "fill", "stroke-width", "zoomy", "unknown-thing", "x", // not in the table
}

// valueFamily: two classes set a style to any two values: they conflict; two different styles to the same value: they do not.
func valueFamily(c *kit.C, props []string, imps bool) {
	n := len(values)
	c.Extra("values", n)
	c.Extra("properties for values", len(props))
	c.Parallel(len(props), func(w *kit.W, pi int) {
		p := props[pi]
		other := "z-index"
		if pi%2 == 1 {
			other = "other-thing"
		}
		var css strings.Builder
		for i, v := range values {
			fmt.Fprintf(&css, ".a%d{%s:%s}.b%d{%s:%s;}.c%d{%s:%s;%s:%s}.d%d{%s:v;%s:%s}.o%d{%s:%s}", i, p, v, i, p, v, i, other, v, p, v, i, p, p, v, i, other, v)
			if imps {
				fmt.Fprintf(&css, ".i%d{%s:%s!important}", i, p, v)
			}
			css.WriteByte('\n')
		}
		e := newEnv(w, "", pi%3 != 0)
		if !e.add(w, css.String()) {
			return
		}
		keepSort := pi%3 != 0
		var cnt int64
		for i := range values {
			for j := range values {
				type tc struct{ list, want string }
				cases := []tc{
					{fmt.Sprintf("a%d b%d", i, j), fmt.Sprintf("b%d", j)},
					{fmt.Sprintf("a%d o%d", i, j), fmt.Sprintf("a%d o%d", i, j)},
					{fmt.Sprintf("d%d a%d", i, j), fmt.Sprintf("a%d", j)},
					{fmt.Sprintf("a%d c%d", i, j), fmt.Sprintf("c%d", j)},
					{fmt.Sprintf("c%d a%d", i, j), fmt.Sprintf("c%d a%d", i, j)},
					{fmt.Sprintf("c%d a%d o%d", i, j, i), fmt.Sprintf("a%d o%d", j, i)},
				}
				if imps {
					cases = append(cases, tc{fmt.Sprintf("i%d a%d", i, j), fmt.Sprintf("i%d a%d", i, j)}, tc{fmt.Sprintf("i%d i%d", i, j), fmt.Sprintf("i%d", j)}, tc{fmt.Sprintf("a%d i%d", i, j), fmt.Sprintf("i%d", j)})
				}
				for k, t := range cases {
					if c.Quick && k >= 2 && (i+j+k)%4 != 0 && i != j {
						continue
					}
					want := t.want
					if !keepSort {
						want = sortedWords(want)
					}
					cnt++
					w.Trans++
					if !e.expect(w, fmt.Sprintf("%s: %q and %q", p, values[i], values[j]), t.list, want) {
						return
					}
				}
			}
			w.State(kit.Hash(p, values[i]))
			if c.Stop() {
				return
			}
		}
		c.Count("lists over values", cnt)
	})
}

func sortedWords(s string) string {
	return strings.Join(uniqueSorted(strings.Fields(s)), " ")
}

func uniqueSorted(l []string) []string {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return sortedKeys(m)
}

// conditionTexts are texts of conditions that all mean something different.
func conditionTexts(quick bool) (media, supports []string) {
	add := func(s ...string) { media = append(media, s...) }
	// ranges: the values of the colon forms are others, so that no two forms mean the same
	for _, f := range []string{"width", "height", "aspect-ratio", "resolution", "device-width"} {
		vals := []string{"1px", "2px", "10px", "1em", "1.5px", "-1px", "calc(1px + 2px)"}
		switch f {
		case "aspect-ratio":
			vals = []string{"1/2", "2/1", "12/1", "1"}
		case "resolution":
			vals = []string{"1dppx", "2dppx", "1dpi"}
		case "height", "device-width":
			vals = vals[:2]
		}
		for _, v := range vals {
			for _, op := range []string{"<", "<=", ">", ">=", "="} {
				add(fmt.Sprintf("(%s %s %s)", f, op, v))
			}
			v = strings.Replace(strings.Replace(v, "1", "3", 1), "2", "4", 1)
			for _, pre := range []string{"", "min-", "max-"} {
				add(fmt.Sprintf("(%s%s:%s)", pre, f, v))
			}
		}
		add("(" + f + ")")
	}
	add("(5px < width < 6px)", "(5px <= width < 6px)", "(5px < width <= 6px)", "(5px <= width <= 6px)", "(5px < height < 6px)", "(6px > width > 5.5px)", "(6px >= width > 5.5px)")
	for _, f := range []string{"hover", "any-hover", "pointer", "any-pointer", "prefers-color-scheme", "prefers-reduced-motion", "orientation", "display-mode", "scripting", "color", "-webkit-min-device-pixel-ratio"} {
		add("(" + f + ")")
		for _, v := range []string{"none", "hover", "fine", "coarse", "dark", "light", "reduce", "landscape", "portrait", "3"} {
			if !quick || len(f) < 8 || v == "dark" || v == "reduce" {
				add("(" + f + ":" + v + ")")
			}
		}
	}
	types := []string{"all", "screen", "print", "speech"}
	for _, t := range types {
		add(t, "not "+t, t+" and (color)", "not "+t+" and (color)", t+" and (grid)", t+" and (color) and (grid)")
		if t != "all" {
			add("only "+t+" and (monochrome)", t+",(color)", t+",not "+t+" and (grid)")
		}
	}
	add("screen,print", "screen,speech", "print,speech", "screen,print,speech")
	// logic: these have different truth tables
	a, b, x := "(color)", "(grid)", "(update)"
	for _, s := range []string{"not A", "A and B", "A or B", "not (A and B)", "not (A or B)", "(not A) and B", "A and (not B)", "(not A) or B", "A or (not B)", "A and B and C", "A or B or C", "A and (B or C)", "(A and B) or C", "A or (B and C)", "(A or B) and C", "not (A and (B or C))", "B and (A or C)", "B or (A and C)", "A, B", "A, not B", "A and B, C", "A and C, B"} {
		t := strings.NewReplacer("A", a, "B", b, "C", x).Replace(s)
		switch s {
		case "A, B": // means the same as "or"
			t = "(a-1),(b-1)"
		case "A, not B", "A and B, C", "A and C, B":
			t = strings.NewReplacer("A", "(a-2)", "B", "(b-2)", "C", "(c-2)").Replace(s)
		}
		add(t)
	}
	ss := func(s ...string) { supports = append(supports, s...) }
	for _, p := range []string{"display", "width", "color", "-webkit-x", "--x", "gap"} {
		for _, v := range []string{"grid", "flex", "1px", "#fff", "calc(1px + 2px)", "var(--x)", "\"a\"", "a b", "a,b", "none"} {
			if !quick || len(p) < 6 {
				ss("(" + p + ":" + v + ")")
			}
		}
	}
	for _, s := range []string{"not A", "A and B", "A or B", "not (A and B)", "not (A or B)", "A and (not B)", "A or (not B)", "A and B and C", "A or B or C", "A and (B or C)", "(A and B) or C", "A or (B and C)", "(A or B) and C"} {
		ss(strings.NewReplacer("A", "(display:grid)", "B", "(color:red)", "C", "(width:9px)").Replace(s))
	}
	ss("selector(a)", "selector(b)", "selector(a > b)", "selector(a + b)", "selector(a b)", "selector(:hover)", "selector(:focus)", "selector(a,b)", "not selector(a)", "font-tech(x)", "font-tech(y)", "font-format(x)")
	// texts that differ in white space or case where it matters
	ss("(--x:A)", "(--x:a)", "(--X:a)", `(content:"a b")`, `(content:"a  b")`, `(content:"A b")`, `(content:"ab")`, `(content:" ab")`, `(content:"ab ")`, `(content:"a:b")`, `(content:"a: b")`, `(content:"a,b")`, `(content:"a, b")`,
		`(content:"}")`, `(content:"{")`, `(content:"@media print")`, `(content:"(a)")`, `(content:"( a )")`, `(content:"\"")`, `(content:"\\")`, `(content:"/**/")`, `(content:"")`, `(content:"a" "b")`, `(content:"a" " b")`,
		"selector(.a)", "selector(.A)", "selector(.a .b)", "selector(.a.b)", "selector(.ab)", `selector([a="x y"])`, `selector([a="x  y"])`, `selector([a="xy"])`, "selector(.a > .b)", "selector(.a *)", "selector(.a*)",
		"(width:calc(1px + -2px))", "(width:calc(1px - 2px))", "(width:calc(1px -2px))", "(background:url(a b))", "(background:url(A))", "(background:url(a))", "(margin:1px 2px)", "(margin:1px2px)", "(margin:12px)")
	// numbers, each with another value
	nums := strings.Fields("7 8 11 12 20 70 77 100 101 110 200 700 701 707 770 1000 1001 1024 7000 10000 65536 65537 65543 70000 100000 1000000 .7 .07 .77 .1 .01 7.7 7.07 7.5 7.25 70.5 700.5 0.75 0.705")
	if quick {
		nums = strings.Fields("7 11 70 77 100 101 700 707 1000 7000 65543 70000 1000000 .7 .07 7.7 7.07 70.5")
	}
	for _, n := range nums {
		if !strings.Contains(n, ".") {
			add("(color-index:"+n+")", "(min-aspect-ratio:"+n+"/9)", "(min-aspect-ratio:9/"+n+")", "(color-index>"+n+")")
		}
		add("(max-width:"+n+"px)", "(max-width:"+n+"em)", "(width>"+n+"px)", "("+n+"px<width<2000000px)", "(min-resolution:"+n+"x)")
		ss("(z-index:"+n+")", "(top:"+n+"px)", "(top:"+n+"%)", "(top:calc(1px*"+n+"))", "(top:-"+n+"px)", "(--n:"+n+")", "(color:rgb("+n+" 0 0))")
	}
	// words: parts of each other, other places, other ends
	for _, n := range []string{"p", "q", "pp", "pq", "qp", "p-", "p-p", "pp-", "p1", "p10", "p01", "p_", "_p", "pé", "é", "ppp"} {
		add("(min-"+n+":1)", "("+n+"-x:1)", "(x-"+n+"-x)")
		ss("(--w:"+n+")", "(--"+n+"-w:a)", "(font:"+n+" r)", "(font:r "+n+")", "(font:\""+n+"\")", "selector(."+n+")", "selector(#"+n+")", "selector(["+n+"])", "selector([w="+n+"])", "font-tech("+n+")")
	}
	for _, n := range []int{30, 126, 127, 128, 254, 255, 256, 257, 1000, 5000} {
		a := strings.Repeat("a", n)
		ss("(--x:"+a+")", "(--x:"+a+"b)", "(--x:b"+a+")", "(--"+a+":0)", "(--"+a+"b:0)", "(--b"+a+":0)", "(--x:\""+a+"\")", "(--x:"+a[:n/2]+"b"+a[n/2:]+")")
	}
	for i := range media {
		media[i] = "@media " + media[i]
	}
	for i := range supports {
		supports[i] = "@supports " + supports[i]
	}
	return media, supports
}

// conditionFamily: the texts of conditions are told apart in every part.
func conditionFamily(c *kit.C) {
	media, supports := conditionTexts(c.Quick)
	texts := append(append([]string{}, media...), supports...)
	seen := map[string]bool{}
	for _, t := range texts {
		if seen[t] {
			panic("repeated condition " + t)
		}
		seen[t] = true
	}
	c.Extra("texts of conditions", len(texts))
	for _, f := range []struct {
		name string
		wrap func(i int) []string
	}{
		{"conditions", func(i int) []string { return []string{texts[i]} }},
		{"outer conditions", func(i int) []string { return []string{texts[i], "@media (min-width:99px)"} }},
		{"inner conditions", func(i int) []string { return []string{"@supports (x:y)", texts[i]} }},
	} {
		var rules []Rule
		for i := range texts {
			ctx := withAt(noCtx, f.wrap(i))
			rules = append(rules, rc(fmt.Sprintf("a%d", i), ctx, d("color")), rc(fmt.Sprintf("b%d", i), ctx, d("color")))
		}
		css := sheet(rules)
		c.Parallel(32, func(w *kit.W, job int) {
			e := newEnv(w, "", true)
			if !e.add(w, css) {
				return
			}
			var n int64
			for i := job; i < len(texts); i += 32 {
				for j := range texts {
					list := fmt.Sprintf("a%d b%d", i, j)
					want := list
					if i == j {
						want = fmt.Sprintf("b%d", j)
					}
					n++
					w.Trans++
					if !e.expect(w, fmt.Sprintf("%s %q and %q", f.name, texts[i], texts[j]), list, want) {
						return
					}
				}
				w.State(kit.Hash(f.name, texts[i]))
				if c.Stop() {
					return
				}
			}
			c.Count("pairs of texts of conditions", n)
		})
	}
}

// derivedNames: names that are made from loaded ones, with something in front, within, or behind: they are not known.
func derivedNames(c *kit.C) {
	loaded := []string{"a", "p-1", "hover:p-1", "w-1/2", "!m-1", "-mt-1", "[x:y]", "md:hover:p-1", "a.b", "1"}
	rules := []Rule{r("zz", d("color"))}
	known := map[string]bool{"zz": true}
	for i, n := range loaded {
		ctx := noCtx
		if i%3 == 2 {
			ctx = cHover
		}
		rules = append(rules, rc(n, ctx, d("color")))
		known[n] = true
		if i%3 == 2 {
			rules = append(rules, rc("z"+n, ctx, d("color")))
			known["z"+n] = true
		}
	}
	css := sheet(rules)
	letters := strings.Split("a p 1 7 0 - _ : / . , ! [ ] ( ) # % & * @ + = ~ ' \" \\ { } < > ; ? | ^ $ ` A é", " ")
	// words around a name
	words := append([]string{}, letters...)
	for _, x := range letters {
		for _, y := range letters {
			words = append(words, x+y)
		}
	}
	words = append(words, "hover:", "md:", "sm:md:", "!", "group-hover:", "focus:", "/50", "/[0.5]", "/100", "[&]:", "*:", "\\:", "-", "--", "important", "!important", " !", ":hover", "::before", ":not(.x)", ".a", "\u200b", "\ufeff", "\u00a0x")
	c.Extra("loaded names", len(loaded))
	c.Extra("parts around names", len(words))
	parts := 32
	c.Parallel(len(loaded)*parts, func(w *kit.W, ji int) {
		n := loaded[ji/parts]
		e := newEnv(w, "", true)
		if !e.add(w, css) {
			return
		}
		over := "zz"
		if known["z"+n] {
			over = "z" + n
		}
		var cnt int64
		try := func(u string) bool {
			if known[u] || u == "" || strings.ContainsAny(u, " \t\n\r\f\v") {
				return true
			}
			cnt++
			w.Trans++
			l1, l2, l3 := u+" "+over, over+" "+u, n+" "+u
			return e.expect(w, "unknown name", l1, l1) && (c.Quick && cnt%3 != 0 || e.expect(w, "unknown name", l2, l2) && e.expect(w, "unknown name", l3, l3))
		}
		for i := ji % parts; i < len(words); i += parts {
			x := words[i]
			for _, u := range []string{x + n, n + x, x + n + x, x + x + n, n + n + x, x, n + x + n} {
				if !try(u) {
					return
				}
			}
			for k := 1; k < len(n); k++ {
				if !try(n[:k]+x+n[k:]) || !try(n[:k-1]+x+n[k:]) || !try(n[:k]+x) || !try(x+n[k:]) {
					return
				}
			}
			if i < len(letters) || !c.Quick {
				for _, y := range words {
					if !try(x+n+y) || !try(n+x+y) || c.Stop() {
						return
					}
				}
			}
			w.State(kit.Hash(n, x))
		}
		c.Count("derived names", cnt)
	})
}
