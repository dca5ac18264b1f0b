package mcore

import (
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

func d(prop string) Decl                  { return Decl{Prop: prop} }
func di(prop string) Decl                 { return Decl{Prop: prop, Imp: true} }
func du(prop string, uses ...string) Decl { return Decl{Prop: prop, Uses: uses} }
func r(class string, decls ...Decl) Rule  { return Rule{Class: class, Ctx: noCtx, Decls: decls} }
func rc(class string, c Ctx, decls ...Decl) Rule {
	return Rule{Class: class, Ctx: c, Decls: decls}
}

var (
	cHover  = Ctx{ID: "|:hover", Sel: "%:hover"}
	cBefore = Ctx{ID: "|::before", Sel: "%::before"}
	cMd     = Ctx{ID: "md|", At: []string{"@media (min-width:768px)"}, Sel: "%"}
	cMdH    = Ctx{ID: "md|:hover", At: []string{"@media (min-width:768px)"}, Sel: "%:hover"}
	cGroup  = Ctx{ID: "|g", Sel: ".group:hover %"}
	cChild  = Ctx{ID: "|c", Sel: "% > :not([hidden]) ~ :not([hidden])"}
)

// overlapScenario: every non-empty set of three styles, an unknown class and one whose rule is empty.
func overlapScenario() *Scenario {
	ps := []string{"margin-top", "color", "opacity"}
	var rules []Rule
	for m := 1; m < 8; m++ {
		var ds []Decl
		for i, p := range ps {
			if m&(1<<i) != 0 {
				ds = append(ds, d(p))
			}
		}
		rules = append(rules, r(fmt.Sprintf("s%d", m), ds...))
	}
	rules = append(rules, r("empty"))
	return Compile("overlap", rules, "unknown")
}

// importantScenario: two styles, each unset, ordinary or important, under two conditions.
func importantScenario() *Scenario {
	var rules []Rule
	for ci, c := range []Ctx{noCtx, cHover} {
		for m := 1; m < 9; m++ {
			var ds []Decl
			for i, p := range []string{"color", "opacity"} {
				switch (m / []int{1, 3}[i]) % 3 {
				case 1:
					ds = append(ds, d(p))
				case 2:
					ds = append(ds, di(p))
				}
			}
			rules = append(rules, rc(fmt.Sprintf("%s%d", []string{"n", "hover:n"}[ci], m), c, ds...))
		}
	}
	return Compile("important", rules)
}

// importantShorthandScenario: importance over shorthands and longhands, several declarations of the same style.
func importantShorthandScenario() *Scenario {
	rules := []Rule{
		r("p", d("padding")), r("p!", di("padding")), r("pl", d("padding-left")), r("pl!", di("padding-left")),
		r("p-pl!", d("padding"), di("padding-left")), r("p!-pl", di("padding"), d("padding-left")),
		r("c-c!", Decl{Prop: "color", Val: "a"}, Decl{Prop: "color", Val: "b", Imp: true}),
		r("c!-c", Decl{Prop: "color", Val: "a", Imp: true}, Decl{Prop: "color", Val: "b"}),
		r("c", d("color")), r("c!", di("color")), r("bd!-c", di("border"), d("color")), r("btw", d("border-top-width")), r("bd", d("border")),
		rc("md:p!", cMd, di("padding")), rc("md:p", cMd, d("padding")),
	}
	return Compile("important-shorthands", rules)
}

// variableScenario: setters and users of custom properties.
func variableScenario() *Scenario {
	rules := []Rule{
		r("x", d("--x")), r("y", d("--y")), r("xy", du("--x", "--y")), r("yx", du("--y", "--x")), r("both", d("--x"), d("--y")),
		r("use-x", du("color", "--x")), r("use-y", du("opacity", "--y")), r("use-xy", du("color", "--x", "--y")), r("c", d("color")),
		r("mix", d("--x"), d("margin-top")), r("self", d("--x"), du("color", "--x")),
		rc("hover:x", cHover, d("--x")), rc("hover:use-x", cHover, du("color", "--x")),
		r("use-x!", Decl{Prop: "color", Imp: true, Uses: []string{"--x"}}), r("x!", di("--x")),
		r("mixed-use", du("color", "--x"), du("opacity", "--y"), d("margin-top")),
	}
	return Compile("variables", rules)
}

// templateScenario is a broad mix of rules.
func templateScenario() *Scenario {
	rules := []Rule{
		r("m-1", d("margin")), r("m-2", d("margin")), r("mx-1", d("margin-left"), d("margin-right")), r("mt-1", d("margin-top")), r("mb-1", d("margin-bottom")),
		r("text-a", d("color")), r("text-b", du("color", "--o")), r("op", d("--o")), r("op-2", d("--o")),
		r("text-!", di("color")), r("btn", d("color"), d("margin-left"), d("background-color")), r("bg", d("background")), r("bg-c", d("background-color")),
		rc("hover:text-a", cHover, d("color")), rc("hover:text-b", cHover, du("color", "--o")), rc("hover:op", cHover, d("--o")), rc("hover:text-!", cHover, di("color")),
		rc("md:text-a", cMd, d("color")), rc("md:m-1", cMd, d("margin")), rc("md:hover:text-a", cMdH, d("color")), rc("md:op", cMd, d("--o")),
		rc("before:text-a", cBefore, d("color")), rc("before:c", cBefore, d("content"), du("color", "--o")),
		rc("group-hover:text-a", cGroup, d("color")), rc("space-x-1", cChild, du("margin-left", "--s"), d("--s")), rc("space-r", cChild, d("--s")),
		r("shadow", d("--sh"), du("box-shadow", "--sh", "--ring")), r("ring", d("--ring"), du("box-shadow", "--sh", "--ring")), r("ring-c", d("--ringc")), r("ring-u", du("--ring", "--ringc")),
		r("stroke", d("stroke")), r("border", d("border")), r("border-t", d("border-top")), r("border-2", d("border-width")), r("btw", d("border-top-width")),
		r("flex-1", d("flex")), r("grow", d("flex-grow")), r("grow-!", di("flex-grow")), r("none"),
	}
	return Compile("templates", rules, "unknown", "btn-x")
}

// longScenarios are rules with many declarations and long lists.
func longScenarios() []*Scenario {
	var out []*Scenario
	for _, n := range []int{3, 8, 13, 17, 33, 63} {
		var rules []Rule
		var all []Decl
		for i := 0; i < n; i++ {
			all = append(all, d(fmt.Sprintf("prop-%d", i)))
		}
		rules = append(rules, r("all", all...))
		for i := 0; i < n; i++ {
			rules = append(rules, r(fmt.Sprintf("one-%d", i), all[i]))
		}
		for i := 0; i < n; i++ {
			rules = append(rules, r(fmt.Sprintf("pair-%d", i), all[i], all[(i+1)%n]))
		}
		rules = append(rules, r("imp", di("prop-0")))
		out = append(out, Compile(fmt.Sprintf("long-%d", n), rules, "unknown"))
	}
	return out
}

// longLists yields structured long lists over a long scenario with n styles.
func longLists(s *Scenario, yield func([]int) bool) {
	n := (len(s.Names) - 3) / 2
	one := func(i int) int { return 1 + i%n }
	pair := func(i int) int { return 1 + n + i%n }
	all, imp, unk := 0, len(s.Names)-2, len(s.Names)-1
	var base [][]int
	seq := func(f func(i int) int, step int) []int {
		var l []int
		for i := 0; i < n; i++ {
			l = append(l, f(i*step%n))
		}
		return l
	}
	for _, f := range []func(int) int{one, pair} {
		base = append(base, seq(f, 1), seq(f, n-1))
		var rev []int
		for i := n - 1; i >= 0; i-- {
			rev = append(rev, f(i))
		}
		base = append(base, rev)
	}
	// "all" is overridden by all the others together, but not if one of them is missing
	for _, b := range base {
		for pos := 0; pos <= len(b); pos++ {
			l := append(append(append([]int{}, b[:pos]...), all), b[pos:]...)
			if !yield(l) {
				return
			}
		}
		for miss := 0; miss < len(b); miss++ {
			l := append([]int{all}, b[:miss]...)
			l = append(l, b[miss+1:]...)
			if !yield(l) || !yield(append(l, unk)) || !yield(append([]int{unk, imp}, l...)) {
				return
			}
		}
		for rot := 0; rot < len(b); rot++ {
			l := append(append([]int{}, b[rot:]...), b[:rot]...)
			if !yield(l) || !yield(append(l, l...)) || !yield(append(append([]int{all}, l...), imp)) {
				return
			}
		}
		// mixtures: ones then pairs
		for cut := 0; cut <= n; cut++ {
			l := []int{all}
			for i := 0; i < cut; i++ {
				l = append(l, one(i))
			}
			for i := cut; i < n; i++ {
				l = append(l, pair(i))
			}
			if !yield(l) {
				return
			}
		}
	}
}

// distanceScenario has fillers that have nothing to do with the conflicting classes.
func distanceScenario(n int) *Scenario {
	rules := []Rule{
		r("a", d("color")), r("b", d("color")), r("c", d("color"), d("opacity")), r("a!", di("color")), r("u", du("color", "--x")), r("x", d("--x")), r("x2", d("--x")),
		rc("h", cHover, d("color")),
	}
	for i := 0; i < n; i++ {
		rules = append(rules, r(fmt.Sprintf("f%d", i), d(fmt.Sprintf("filler-%d", i))))
	}
	return Compile(fmt.Sprintf("distance-%d", n), rules)
}

func distanceLists(s *Scenario, yield func([]int) bool) {
	n := len(s.Names) - 8
	for a := 0; a < 8; a++ {
		for b := 0; b < 8; b++ {
			for _, dist := range []int{0, 1, 2, 7, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256} {
				if dist > n {
					continue
				}
				l := []int{a}
				for i := 0; i < dist; i++ {
					l = append(l, 8+i)
				}
				l = append(l, b)
				if !yield(l) || !yield(append([]int{8 + n - 1, b}, l...)) {
					return
				}
			}
		}
	}
}

var bothSorts = []bool{true, false}

func general(c *kit.C, kinds string) {
	c.Assume("the reference model of merging (last setter per style and condition, last !important setter, used custom properties) is trusted",
		"bounds: class lists over the alphabets of the families up to the given lengths, plus structured long lists")
	d1, d2, d3 := 5, 3, 4
	if !c.Quick {
		d1, d2, d3 = 7, 4, 5
	}
	c.Extra("bounds", map[string]any{"overlap alphabet": 9, "overlap length": d1, "template alphabet": len(templateScenario().Names), "template length": d2, "important length": d3})
	exploreAll(c, "overlap", []*Scenario{overlapScenario()}, d1, kinds, []string{""}, bothSorts)
	exploreAll(c, "templates", []*Scenario{templateScenario()}, d2, kinds, []string{""}, bothSorts)
	exploreAll(c, "important", []*Scenario{importantScenario()}, d3-1, kinds, []string{""}, bothSorts)
	exploreAll(c, "important shorthands", []*Scenario{importantShorthandScenario()}, d3-1, kinds, []string{""}, bothSorts)
	exploreAll(c, "variables", []*Scenario{variableScenario()}, d3-1, kinds, []string{""}, bothSorts)
	exploreLists(c, "long", longScenarios(), longLists, kinds, bothSorts)
	exploreLists(c, "distance", []*Scenario{distanceScenario(256)}, distanceLists, kinds, bothSorts)
	product(c, kinds)
	subsetFamily(c, kinds)
	tailwindFamily(c, kinds, nil)
	scaleGeneral(c, kinds)
	hugeFamily(c, "unknown classes", "known classes", "overridden classes", "declarations", "spread classes", "spread properties")
	ctxTriples(c, kinds)
}

// subsetFamily: a class with n styles, and n classes that override one each, in every subset of them
// (in the list order and reversed).
func subsetFamily(c *kit.C, kinds string) {
	n := 8
	if !c.Quick {
		n = 13
	}
	props := strings.Fields("color opacity margin-top padding-left display width height stroke zoomed top left right bottom float")[:n]
	ctxs := []Ctx{noCtx, cHover, cMdH, cChild}
	c.Parallel(len(ctxs)*2, func(w *kit.W, i int) {
		ctx := ctxs[i/2]
		ks := i%2 == 0
		var ds []Decl
		var rules []Rule
		for j, p := range props {
			ds = append(ds, d(p))
			rules = append(rules, rc(fmt.Sprintf("o%d", j), ctx, d(p)))
		}
		rules = append(rules, rc("all", ctx, ds...))
		s := Compile("subset", rules, "unknown")
		e := pool(w, "", ks)
		if !e.add(w, s.CSS()) {
			return
		}
		x := newExplorer(s, e, ks, 0, kinds)
		for m := 0; m < 1<<n && !c.Stop(); m++ {
			for rev := 0; rev < 2; rev++ {
				l := []int{n}
				for j := 0; j < n; j++ {
					k := j
					if rev == 1 {
						k = n - 1 - j
					}
					if m&(1<<k) != 0 {
						l = append(l, k)
					}
				}
				if !x.list(w, l) {
					return
				}
				// and with another class in front of it
				if !x.list(w, append([]int{n + 1}, l...)) {
					return
				}
			}
		}
		c.Count("subset lists", x.n)
	})
}

// ctxTriples: lists over classes under a selection of conditions, two classes each.
func ctxTriples(c *kit.C, kinds string) {
	sels := selectorContexts()
	ats := atContexts()
	var ctxs []Ctx
	for i, s := range sels {
		if i%9 == 0 {
			ctxs = append(ctxs, withAt(s, nil))
		}
	}
	for i, at := range ats {
		if i%3 == 1 {
			ctxs = append(ctxs, withAt(noCtx, at))
		}
	}
	ctxs = append(ctxs, withAt(cHover, ats[1]), withAt(cHover, ats[2]), withAt(sels[len(sels)-1], ats[1]))
	var rules []Rule
	for i, x := range ctxs {
		rules = append(rules, rc(fmt.Sprintf("a-%d", i), x, d("color")), rc(fmt.Sprintf("b-%d", i), x, d("color"), d("opacity")))
	}
	s := Compile("ctx-triples", rules)
	depth := 2
	if !c.Quick {
		depth = 3
	}
	exploreAll(c, "conditions", []*Scenario{s}, depth, kinds, []string{""}, []bool{true})
}
