package mcore

import (
	"fmt"
	"sort"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C07

func checkShorthands(c *kit.C) {
	c.Assume("the reference table of longhands (harness/mcore/refprops.go) is trusted; `all`, aliases and logical properties count as properties of their own, and what a shorthand only resets does not count",
		"bounds: all ordered pairs of the properties of the table; for shorthands, all sets of up to twelve longhands with each subset left out (quick: each one)")
	allPairs(c)
	covers(c)
	shorthandRules(c)
	unknownProps(c)
	derivedProps(c)
}

func knownProps() []string {
	var ps []string
	for p := range longhandTable {
		if p != "--*" {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	return ps
}

// allPairs: every ordered pair of properties.
func allPairs(c *kit.C) {
	ps := knownProps()
	c.Extra("properties", len(ps))
	sets := make([]map[string]bool, len(ps))
	var rules []Rule
	for i, p := range ps {
		sets[i] = map[string]bool{}
		for _, l := range longhandTable[p] {
			sets[i][l] = true
		}
		rules = append(rules, r(fmt.Sprintf("a%d", i), d(p)), r(fmt.Sprintf("b%d", i), d(p)), rc(fmt.Sprintf("h:a%d", i), cHover, d(p)), rc(fmt.Sprintf("h:b%d", i), cHover, d(p)))
	}
	css := sheet(rules)
	c.Parallel(len(ps), func(w *kit.W, i int) {
		e := pool(w, "", i%2 == 0)
		if !e.add(w, css) {
			return
		}
		var n, covered int64
		for j := range ps {
			sub := true
			for l := range sets[i] {
				sub = sub && sets[j][l]
			}
			both := fmt.Sprintf("a%d b%d", i, j)
			want := both
			if sub {
				want = fmt.Sprintf("b%d", j)
				covered++
			}
			if !e.expect(w, ps[i]+" and "+ps[j], both, want) {
				return
			}
			n++
			w.Trans++
			// under a condition, and across conditions, on a part of the pairs
			if !c.Quick || sub || (i+j)%7 == 0 {
				hb := fmt.Sprintf("h:a%d h:b%d", i, j)
				hw := hb
				if sub {
					hw = fmt.Sprintf("h:b%d", j)
				}
				across := fmt.Sprintf("a%d h:b%d", i, j)
				if !e.expect(w, ":hover "+ps[i]+" and "+ps[j], hb, hw) || !e.expect(w, ps[i]+" and :hover "+ps[j], across, across) {
					return
				}
				n += 2
			}
		}
		w.State(kit.Hash("prop", ps[i]))
		c.Count("pairs of properties", n)
		c.Count("pairs with override", covered)
		if i%97 == 0 {
			c.Sample("%s sets %v", ps[i], longhandTable[ps[i]])
		}
	})
}

// covers: a shorthand is overridden by its longhands together, and by nothing less; a rule of all longhands by the shorthand.
func covers(c *kit.C) {
	var shorts []string
	for _, p := range knownProps() {
		if l := longhandTable[p]; len(l) > 1 || l[0] != p {
			shorts = append(shorts, p)
		}
	}
	c.Extra("shorthands", len(shorts))
	c.Parallel(len(shorts), func(w *kit.W, k int) {
		p := shorts[k]
		ls := longhandTable[p]
		n := len(ls)
		// classes: 0 the shorthand, 1 important shorthand, 2 all longhands in one rule, 3.. longhands, then important ones, then users of a custom property, its setter
		rules := []Rule{r("s", d(p)), r("s!", di(p))}
		var all []Decl
		for _, l := range ls {
			all = append(all, d(l))
		}
		rules = append(rules, r("all", all...))
		for i, l := range ls {
			rules = append(rules, r(fmt.Sprintf("l%d", i), d(l)))
		}
		for i, l := range ls {
			rules = append(rules, r(fmt.Sprintf("l%d!", i), di(l)))
		}
		rules = append(rules, r("su", du(p, "--x")), r("x", d("--x")))
		// other shorthands that share longhands
		for i, q := range shorts {
			if q == p {
				continue
			}
			for _, l := range longhandTable[q] {
				if contains(ls, l) {
					rules = append(rules, r(fmt.Sprintf("q%d", i), d(q)))
					break
				}
			}
		}
		s := Compile("covers "+p, rules)
		e := pool(w, "", true)
		if !e.add(w, s.CSS()) {
			return
		}
		x := newExplorer(s, e, true, 0, "")
		first, imp := 3, 3+n
		su, xs := 3+2*n, 4+2*n
		full := 1<<n - 1
		var heads [][]int
		for _, h := range []int{0, 1, 2, su} {
			heads = append(heads, []int{h})
		}
		heads = append(heads, []int{xs, su}, []int{0, 1}, []int{1, 2})
		for m := 0; m <= full && !c.Stop(); m++ {
			// quick: at most two left out, or at most two taken
			if c.Quick && n > 5 && bitsOf(m) > 2 && bitsOf(full^m) > 2 {
				continue
			}
			var ls, lrev, li []int
			for i := 0; i < n; i++ {
				if m&(1<<i) != 0 {
					ls = append(ls, first+i)
					lrev = append([]int{first + i}, lrev...)
					li = append(li, imp+i)
				}
			}
			for _, h := range heads {
				for _, t := range [][]int{ls, lrev, li} {
					if !x.list(w, append(append([]int{}, h...), t...)) || !x.list(w, append(append([]int{}, t...), h...)) {
						return
					}
				}
				// with the other shorthands after it
				for q := xs + 1; q < len(s.Names); q++ {
					if !x.list(w, append(append(append([]int{}, h...), ls...), q)) || !x.list(w, append(append([]int{q}, h...), ls...)) {
						return
					}
				}
			}
		}
		// all triples of the other shorthands and the shorthand
		var g []int
		g = append(g, 0, 1, 2)
		for q := xs + 1; q < len(s.Names); q++ {
			g = append(g, q)
		}
		for _, a := range g {
			for _, b := range g {
				for _, z := range g {
					for _, y := range g {
						if !x.list(w, []int{a, b, z, y}) {
							return
						}
					}
				}
			}
			if c.Stop() {
				return
			}
		}
		c.Count("lists of shorthands and longhands", x.n)
	})
}

func bitsOf(m int) int {
	n := 0
	for ; m != 0; m &= m - 1 {
		n++
	}
	return n
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// shorthandRules: rules that declare a shorthand and a property it covers or shares something with.
func shorthandRules(c *kit.C) {
	groups := [][]string{
		{"border", "border-width", "border-top", "border-top-width", "border-color", "border-left-color", "color"},
		{"margin", "margin-top", "margin-left", "margin-block", "padding"},
		{"font", "font-variant", "font-variant-caps", "line-height", "font-size", "font-synthesis"},
		{"grid", "grid-template", "grid-template-rows", "gap", "row-gap", "grid-auto-flow"},
		{"background", "background-position", "background-position-x", "background-color"},
		{"inset", "top", "inset-block", "inset-inline-start", "left"},
		{"flex", "flex-grow", "flex-basis", "flex-flow", "flex-direction"},
		{"transition", "transition-delay", "animation", "animation-name", "mask", "mask-size", "mask-border"},
	}
	var scns []*Scenario
	for gi, g := range groups {
		var rules []Rule
		for i, p := range g {
			rules = append(rules, r(fmt.Sprintf("o%d", i), d(p)))
		}
		for i, p := range g {
			for j, q := range g {
				if i != j {
					rules = append(rules, r(fmt.Sprintf("p%dq%d", i, j), d(p), Decl{Prop: q, Imp: (i+j)%3 == 0}))
				}
			}
		}
		scns = append(scns, Compile(fmt.Sprintf("group %d", gi), rules))
	}
	depth := 2
	if !c.Quick {
		depth = 3
	}
	exploreAll(c, "shorthand groups", scns, depth, "", []string{""}, bothSorts)
	// lists over the single properties only
	for i := range scns {
		scns[i] = Compile(fmt.Sprintf("singles %d", i), scns[i].Rules[:len(groups[i])])
	}
	exploreAll(c, "shorthand singles", scns, depth+3, "", []string{""}, bothSorts)
}

// unknownProps: properties that are not known conflict with themselves only.
func unknownProps(c *kit.C) {
	ps := []string{"stroke", "fill", "x", "paddin", "padding-", "padding-lef", "padding-left-", "-padding", "paddings", "margin-middle", "border-top-width-x", "border-", "color2", "colo", "-color", "background-position-z", "unknown",
		"font-foo", "inset-x", "fill-opacity", "stroke-width", "-webkit-foo", "-moz-padding", "_color", "padding_left", "computed", "status"}
	known := []string{"padding", "padding-left", "color", "border", "border-top-width", "margin", "font", "inset", "background-position", "all"}
	n := len(ps)
	ps = append(ps, known...)
	var rules []Rule
	for i, p := range ps {
		rules = append(rules, r(fmt.Sprintf("a%d", i), d(p)), r(fmt.Sprintf("b%d", i), d(p)))
	}
	css := sheet(rules)
	c.Parallel(len(ps), func(w *kit.W, i int) {
		e := pool(w, "", true)
		if !e.add(w, css) {
			return
		}
		for j := range ps {
			if i >= n && j >= n {
				continue
			}
			list := fmt.Sprintf("a%d b%d", i, j)
			want := list
			if i == j {
				want = fmt.Sprintf("b%d", j)
			}
			if !e.expect(w, ps[i]+" and "+ps[j], list, want) {
				return
			}
			w.Trans++
		}
		w.State(kit.Hash("prop", ps[i]))
	})
}

// derivedProps: names that are made from those of known properties, with something in front, behind or taken away, are not
// known: they conflict with themselves, and with nothing they are made from.
func derivedProps(c *kit.C) {
	ps := knownProps()
	known := map[string]bool{}
	for _, p := range ps {
		known[p] = true
	}
	derive := func(p string) []string {
		var out []string
		for _, pre := range []string{"-webkit-", "-moz-", "-ms-", "-o-", "-khtml-", "-", "x-", "_", "webkit-", "-x-", "a", "min-", "max-", "scroll-", "column-", "mask-"} {
			out = append(out, pre+p)
		}
		for _, suf := range []string{"-x", "-y", "s", "-start", "-end", "-top", "-left", "-inline", "-color", "-width", "-", "_", "1", "-1", "x", "\u00e9"} {
			out = append(out, p+suf)
		}
		out = append(out, p[:len(p)-1], p[1:], strings.ReplaceAll(p, "-", ""), strings.ReplaceAll(p, "-", "_"), p+"-"+p, p+p)
		if i := strings.LastIndex(p, "-"); i > 0 {
			out = append(out, p[:i], p[:i]+"s"+p[i:], p[:i]+"-x"+p[i:], "-webkit-"+p[:i])
		}
		if i := strings.Index(p[1:], "-"); i >= 0 {
			out = append(out, p[i+2:], p[:i+1]+"-x"+p[i+1:])
		}
		var uniq []string
		for _, u := range out {
			if u != "" && u[0] != '-' && (u[0] < '0' || u[0] > '9') || len(u) > 1 && u[0] == '-' && u[1] != '-' {
				if !known[u] && !contains(uniq, u) {
					uniq = append(uniq, u)
				}
			}
		}
		return uniq
	}
	c.Parallel(len(ps), func(w *kit.W, i int) {
		p := ps[i]
		us := derive(p)
		ls := longhandTable[p]
		var rules []Rule
		add := func(n, q string) { rules = append(rules, r("a"+n, d(q)), r("b"+n, d(q), d("own-"+n)), r("i"+n, di(q))) }
		add("p", p)
		for k, l := range ls {
			add(fmt.Sprintf("l%d", k), l)
		}
		for k, u := range us {
			add(fmt.Sprintf("u%d", k), u)
		}
		e := pool(w, "", true)
		if !e.add(w, sheet(rules)) {
			return
		}
		var n int64
		for k, u := range us {
			x := fmt.Sprintf("u%d", k)
			others := []string{"p", fmt.Sprintf("u%d", (k+1)%len(us)), fmt.Sprintf("u%d", (k+5)%len(us))}
			for m := range ls {
				if m < 2 || !c.Quick {
					others = append(others, fmt.Sprintf("l%d", m))
				}
			}
			for _, y := range others {
				if y == x {
					continue
				}
				for _, l := range []string{"a" + x + " a" + y, "a" + y + " a" + x, "a" + x + " b" + y, "b" + y + " a" + x, "i" + x + " a" + y, "i" + y + " a" + x} {
					if !e.expect(w, u+" and what it is made from, "+p, l, l) {
						return
					}
					n++
				}
			}
			if !e.expect(w, u, "a"+x+" b"+x, "b"+x) || !e.expect(w, u, "b"+x+" a"+x, "b"+x+" a"+x) || !e.expect(w, u, "i"+x+" a"+x, "i"+x+" a"+x) || !e.expect(w, u, "a"+x+" i"+x, "i"+x) {
				return
			}
			w.Trans++
			w.State(kit.Hash("derived", u))
		}
		c.Count("lists over names made from those of properties", n)
	})
}

// Properties are all properties of the reference table.
func Properties() []string {
	var out []string
	for p := range longhandTable {
		if p != "--*" {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}
