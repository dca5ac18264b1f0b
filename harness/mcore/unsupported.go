package mcore

import (
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C16

// ignoredConstructs define no classes.
func ignoredConstructs() []string {
	rule := `.zz{color:red}`
	out := []string{
		`@charset "utf-8";`, `@import "x.css";`, `@import url(x.css) screen;`, `@namespace svg url(http://x);`, `@layer base;`, `@layer a, b;`, `@unknown;`, `@unknown a b (c);`, `@tailwind base;`, `@unknown "{";`,
		`@layer base{` + rule + `}`, `@layer{` + rule + `}`, `@layer a.b{` + rule + `.a{margin:0}}`, `@container (min-width:400px){` + rule + `}`, `@container card (min-width:400px){` + rule + `.a{color:x}}`,
		`@keyframes spin{from{opacity:0}to{opacity:1}}`, `@keyframes k{0%{color:x}50.5%{margin:0}100%{color:y}}`, `@-webkit-keyframes k{from{color:x}}`, `@font-face{font-family:"x";src:url(x)}`, `@font-face{color:red;margin:0}`,
		`@page{margin:1cm}`, `@page :first{margin:1cm}`, `@page{@top-left{content:"x"}margin:0}`, `@counter-style x{system:cyclic}`, `@property --x{syntax:"<length>";inherits:false;initial-value:0}`, `@font-feature-values Font One{@styleset{nice-style:12}}`, `@font-feature-values F{@styleset{a:1}@swash{b:2}}`,
		`@unknown{}`, `@unknown x{}`, `@unknown{` + rule + `}`, `@unknown{` + rule + rule + `}`, `@unknown{a:b}`, `@unknown{a:b;c:d}`, `@unknown{@media print{` + rule + `}}`, `@unknown{@supports (display:grid){` + rule + `}.a{color:x}}`,
		`@unknown{@other{` + rule + `}}`, `@unknown{@other{@third{` + rule + `}}}`, `@unknown{@other{` + rule + `}@third{` + rule + `}}`, `@unknown{@other;` + rule + `}`, `@unknown{.a,.b{color:x}}`, `@unknown{.a:unknown{color:x}.b{margin:0}}`,
		`@layer x{@layer y{` + rule + `}@media print{.a{color:x}}.b{margin:0}}`, `@unknown{@media print{@media screen{` + rule + `}}@media print{.a{color:x}}}`, `@document url(x){` + rule + `}`, `@scope (.a){` + rule + `}`, `@starting-style{` + rule + `}`,
		`@media print{}`, `@supports (display:grid){}`, `@media print{@unknown{` + rule + `}}`, `@media print{@unknown;}`, `@supports (display:grid){@layer x{` + rule + `}}`, `@media print{@font-face{color:x}}`, `@media print{@media screen{}}`,
		`/* .zz{color:red} */`, `/* } */`, `/* { */`, `@unknown{/* } */` + rule + `}`, `@unknown{a:"}"}`, `@font-face{src:url("}")}`, `@font-face{src:url(x)}`, `@keyframes a{}`, `@keyframes{}`,
		// lists of selectors that are cut off
		`@media print{.zz,}`, `@media print{.yy{}.zz:hover, .zz ,}`, `@supports (display:grid){.zz,.zz:hover,}`, `@media print{@media screen{.zz,}}`, `@layer x{.zz,}`, `@media print{.zz:is(.zz,.zz),}`, `@media print{.zz,@unknown;}`, `@media print{.zz,@layer x{}}`,
		`.zz,@media print{}`, `.zz,.zz,@unknown{.zz{color:red}}`, `.zz:is(.zz,.zz),@supports (display:grid){}`, `@media print{.zz:unknown,}`,
	}
	for _, s := range unsupportedSelectors {
		out = append(out, s+`{color:red}`, s+`{}`)
		if s == unsupportedSelectors[0] || s == unsupportedSelectors[1] {
			out = append(out, s+`{color:red!important;--x:1;margin:0}`, s+`,`+s+`{color:red}`, s+`,`+unsupportedSelectors[4]+`{color:x}`, `@media print{`+s+`{color:x}}`, `@unknown{`+s+`{color:x}}`)
		}
	}
	return out
}

// unsupportedSelectors are selectors that the selector parser does not accept.
var unsupportedSelectors = []string{
	".zz:unknown", ".zz::unknown-element(x)", ":unknown", ".zz:nth-child(x)", ".zz:dir(rtl)", ".zz:hover:unknown", ".zz > :unknown", ".zz:not(:unknown)", ".zz:is(:unknown)", ".zz:nth-child(2n+1 of .yy)", ".zz::part(foo)", ".zz||td", ".zz:hover(x)",
	":unknown .zz", ".zz:has()", ".zz:lang()", ".zz:where(:unknown)", "svg|a", ".zz::before:unknown",
}

// neighbours: the base stylesheet in parts; the constructs go between them, also inside the blocks.
var neighbourParts = []string{
	".a{color:red;margin-top:0}", ".b{color:red}", "@media (min-width:640px){", ".c{color:red}", ".d:hover{color:red}", "}", ".e,.f{opacity:0;margin:0}", "@supports (display:grid){", "@media print{", ".g{color:red}", "}", ".h{color:red}", "}", ".i:hover{color:red!important}", ".j::before{--x:1;color:var(--y)}", ".k{--y:1}",
}

const neighbourPartners = `.pa{color:x}.pb{margin:0}@media (min-width:640px){.pc{color:x}.pd:hover{color:x}}.pe{opacity:x}@supports (display:grid){@media print{.pg{color:x}}.ph{color:x}}.pi:hover{color:x}.pj::before{color:x}@media print{.pk{color:x}}.pl{--y:2}`

func checkUnsupported(c *kit.C) {
	c.Assume("bounds: each of the listed constructs at each place of one stylesheet with nested blocks, pairs of them (quick: a part), and the listed selectors in lists of up to three selectors at each place")
	names := strings.Fields("a b c d e f g h i j k zz pa pb pc pd pe pg ph pi pj pk pl")
	base := strings.Join(neighbourParts, "\n")
	cons := ignoredConstructs()
	ref := newNeighbours(c, base, names)
	if ref == nil {
		return
	}
	c.Extra("constructs", len(cons))
	places := len(neighbourParts) + 1
	at := func(f func(i int) string) string {
		var b strings.Builder
		for i, p := range neighbourParts {
			b.WriteString(f(i))
			b.WriteString(p)
		}
		b.WriteString(f(len(neighbourParts)))
		return b.String()
	}
	c.Parallel(len(cons), func(w *kit.W, k int) {
		cmp := ref.worker(w)
		for p := 0; p < places; p++ {
			if !cmp.check(at(func(i int) string {
				if i == p {
					return cons[k]
				}
				return ""
			}), fmt.Sprintf("%s at %d", cons[k], p)) {
				return
			}
			w.Trans++
			w.State(kit.Hash(cons[k], fmt.Sprint(p)))
			// with another one at another place
			for q := p; q < places; q++ {
				for m := range cons {
					if c.Quick && (m*7+k*3+p+q)%61 != 0 || !c.Quick && (m+k+p+q)%3 != 0 {
						continue
					}
					if !cmp.check(at(func(i int) string {
						s := ""
						if i == p {
							s = cons[k]
						}
						if i == q {
							s += cons[m]
						}
						return s
					}), fmt.Sprintf("%s at %d, %s at %d", cons[k], p, cons[m], q)) {
						return
					}
					w.Trans++
				}
			}
			if c.Stop() {
				return
			}
		}
		// everywhere
		if !cmp.check(at(func(i int) string { return cons[k] }), cons[k]+" everywhere") || !cmp.check(at(func(i int) string { return cons[k] + cons[(k+i)%len(cons)] }), cons[k]+" and others everywhere") {
			return
		}
		// inside an ignored block, with the whole sheet around
		if !cmp.check("@unknown{"+strings.ReplaceAll(base, ".", ".zz")+cons[k]+"}"+base, "nested") {
			return
		}
	})
	selectorLists(c, ref, at, places)
	deepBlocks(c)
}

// selectorLists: selectors that are not supported beside supported ones.
func selectorLists(c *kit.C, ref *comparer, at func(func(i int) string) string, places int) {
	lists := [][2]string{}
	for _, u := range unsupportedSelectors {
		lists = append(lists, [2]string{"%," + u, ""}, [2]string{u + ",%", ""}, [2]string{u + ",%," + u, ""}, [2]string{"%, " + u + " ,.yy", ""}, [2]string{u + "," + u + ",%", ""})
	}
	// the selectors of the base with the unsupported ones around them
	c.Parallel(len(lists), func(w *kit.W, k int) {
		cmp := ref.worker(w)
		for p, part := range neighbourParts {
			if part[0] != '.' {
				continue
			}
			i := strings.Index(part, "{")
			sel, body := part[:i], part[i:]
			parts := append([]string{}, neighbourParts...)
			parts[p] = strings.ReplaceAll(lists[k][0], "%", sel) + body
			if !cmp.check(strings.Join(parts, ""), parts[p]) {
				return
			}
			w.Trans++
			w.State(kit.Hash(parts[p]))
			// and another one elsewhere
			for q, part2 := range neighbourParts {
				if q == p || part2[0] != '.' {
					continue
				}
				i := strings.Index(part2, "{")
				parts2 := append([]string{}, parts...)
				parts2[q] = strings.ReplaceAll(lists[(k*3+q)%len(lists)][0], "%", part2[:i]) + part2[i:]
				if !cmp.check(strings.Join(parts2, ""), parts[p]+" "+parts2[q]) {
					return
				}
				w.Trans++
			}
		}
	})
}

func newNeighbours(c *kit.C, base string, names []string) *comparer {
	r := newComparerWith(c, neighbourPartners, base, names, nil)
	if r == nil {
		return nil
	}
	r.absent = []string{"zz"}
	return r
}
