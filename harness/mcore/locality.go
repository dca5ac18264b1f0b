package mcore

import (
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C14

// localityRules is the base of the comparisons.
func localityRules() []Rule {
	return []Rule{
		r("m-1", d("margin")), r("mt-1", d("margin-top")), r("text-a", d("color")), r("text-b", du("color", "--o")), r("op", d("--o")), r("text-!", di("color")), r("o!", di("--o")),
		r("btn", d("color"), d("margin-left")), rc("hover:text-a", cHover, d("color")), rc("md:m-1", cMd, d("margin")), rc("gr", cGroup, d("color")), rc("sp", cChild, du("margin-top", "--o")), r("none"),
	}
}

// unrelatedRules are rules about other classes that share nothing with the base, with the class to put into lists ("" if none).
func unrelatedRules() [][2]string {
	return [][2]string{
		{".u1{unr-1:red}", "u1"}, {".u2{unr-2:red!important}", "u2"}, {".u3{--u:1;unr-fa:var(--u)}", "u3"}, {".u4{unr-fb:var(--uu);--uu:1}", "u4"}, {".u5:hover{unr-3:x}", "u5"},
		{"@media print{.u6{color:x}}", "u6"}, {"@supports (min-width:768px){.u7{color:x;margin:0}}", "u7"}, {".u8::after{color:x}", "u8"}, {".u9{}", "u9"},
		{".u10>.u11{color:x}", "u10"}, {".u12.u13{margin:0}", "u13"}, {"@media (min-width:768px){@media print{.u14{color:x;margin:0}}}", "u14"}, {":is(.u15){color:x}", "u15"}, {".u16:focus:hover{color:x}", "u16"},
		{"p{color:x}", ""}, {":root{--o:2;color:x}", ""}, {"*{margin:0}", ""}, {"p>q:hover{color:red!important}", ""}, {"#m-1{color:x}", ""}, {"[class=\"text-a\"]{color:x}", ""}, {"text-a{color:x}", ""}, {":not(.text-a){color:x}", ""}, {":has(.m-1){color:x}", ""},
		{".m-11{unr-4:x}", "m-11"}, {".text{unr-5:x}", "text"}, {".xtext-a{unr-6:x}", "xtext-a"}, {".hover\\:text{unr-7:x}", "hover:text"}, {".text-a-b{unr-8:x}", "text-a-b"}, {".TEXT-A{unr-9:x}", "TEXT-A"}, {".md\\:text-a{unr-10:x}", "md:text-a"},
		{".u17{--u2:1!important}", "u17"}, {".u18{--u3:1!important;--u4:2}", "u18"}, {".u19:hover{--o-x:1!important}", "u19"}, {".none-1{unr-11:x}", "none-1"}, {".op-1{unr-fc:x}", "op-1"}, {".group{unr-12:x}", ""}, {"/* .text-a{} */", ""}, {"@font-face{color:x}", ""}, {"@layer x{.text-a{unr-13:x}}", ""},
	}
}

func checkLocality(c *kit.C) {
	c.Assume("unrelated means: no style, condition or custom property in common, as the enumerated rules and classes have by construction",
		"bounds: base lists of up to three (thorough: four) of thirteen classes; each unrelated class at each position, pairs of them; each unrelated rule at each place of the stylesheet, and all at once; up to 300 fillers")
	base := localityRules()
	var names []string
	for _, x := range base {
		names = append(names, x.Class)
	}
	names = append(names, "unknown")
	un := unrelatedRules()
	var extra []string
	all := sheet(base)
	for _, u := range un {
		all += u[0] + "\n"
		if u[1] != "" {
			extra = append(extra, u[1])
		}
	}
	extra = append(extra, "unknown-2", "M-1", "text-", "0")
	depth := 3
	if !c.Quick {
		depth = 4
	}
	c.Extra("unrelated rules", len(un))
	c.Extra("unrelated classes", len(extra))
	// the base lists
	lists, results := baseResults(c, base, names, depth)
	if lists == nil {
		return
	}
	// classes in the list
	c.Parallel(64, func(w *kit.W, ji int) {
		e := newEnv(w, "", true)
		if !e.add(w, all) {
			return
		}
		var n int64
		for li := ji; li < len(lists); li += 64 {
			l := lists[li]
			if len(l) > 1 && !e.expect(w, "with other rules loaded", strings.Join(l, " "), results[li]) {
				return
			}
			for pos := 0; pos <= len(l); pos++ {
				for k, x := range extra {
					if !e.without(w, ins(l, pos, x), results[li], x) {
						return
					}
					n++
					// a second one, further on
					if len(l) <= depth-1 {
						y := extra[(k*7+3)%len(extra)]
						for p2 := pos + 1; p2 <= len(l)+1; p2++ {
							if y != x && !e.without(w, ins(ins(l, pos, x), p2, y), results[li], x, y) {
								return
							}
							n++
						}
					}
				}
			}
			w.Trans += int64(len(l)+1) * int64(len(extra))
			w.State(kit.Hash(strings.Join(l, " ")))
			if c.Stop() {
				return
			}
		}
		c.Count("lists with unrelated classes", n)
	})
	// rules in the stylesheet: each at each place
	short := 0
	for short < len(lists) && len(lists[short]) <= 2 {
		short++
	}
	c.Parallel(len(un)*(len(base)+1), func(w *kit.W, ji int) {
		u, place := un[ji/(len(base)+1)][0], ji%(len(base)+1)
		e := newEnv(w, "", true)
		if !e.add(w, sheet(base[:place])+u+"\n"+sheet(base[place:])) {
			return
		}
		for li := len(names); li < short; li++ {
			if !e.expect(w, "with an unrelated rule at "+fmt.Sprint(place), strings.Join(lists[li], " "), results[li]) {
				return
			}
		}
		w.State(kit.Hash(u, fmt.Sprint(place)))
		w.Trans++
		c.Count("places of unrelated rules", 1)
	})
	// pairs of rules around a base that is loaded separately, in every order of loading
	c.Parallel(len(un), func(w *kit.W, i int) {
		for k, u := range un {
			if c.Quick && k%4 != i%4 {
				continue
			}
			e := newEnv(w, "", true)
			if !e.add(w, un[i][0]) || !e.add(w, sheet(base)) || !e.add(w, u[0]) {
				return
			}
			for li := len(names); li < short; li++ {
				if !e.expect(w, "between unrelated loads", strings.Join(lists[li], " "), results[li]) {
					return
				}
			}
			w.Trans++
			if c.Stop() {
				return
			}
		}
	})
	localProducts(c)
	manyClasses(c)
	hugeFamily(c, "classes")
	fillers(c, base, lists[:short], results[:short])
}

// baseResults are the results for all base lists without repetitions, computed with the base rules only.
func baseResults(c *kit.C, base []Rule, names []string, depth int) (lists [][]string, results []string) {
	var rec func(l []string)
	for k := 1; k <= depth; k++ {
		k := k
		rec = func(l []string) {
			if len(l) == k {
				lists = append(lists, append([]string{}, l...))
				return
			}
			for _, n := range names {
				if !contains(l, n) {
					rec(append(l, n))
				}
			}
		}
		rec(nil)
	}
	results = make([]string, len(lists))
	fail := false
	c.Parallel(16, func(w *kit.W, ji int) {
		e := newEnv(w, "", true)
		if !e.add(w, sheet(base)) {
			fail = true
			return
		}
		for i := ji; i < len(lists); i += 16 {
			l := strings.Join(lists[i], " ")
			if len(lists[i]) == 1 {
				// a single class is returned as it is; what counts is what it is in a list
				l += " qq-unknown"
			}
			out, msg := e.merge(w, l)
			out = strings.TrimSpace(strings.Replace(" "+out+" ", " qq-unknown ", " ", 1))
			if msg != "" {
				c.Violation(msg, kit.Script{Ops: append(append([]kit.Op{}, e.ops...), kit.Op{Kind: "merge", List: l})})
				fail = true
				return
			}
			results[i] = out
		}
	})
	if fail || c.Violated() {
		return nil, nil
	}
	return lists, results
}

func ins(l []string, pos int, x string) []string {
	out := append([]string{}, l[:pos]...)
	out = append(out, x)
	return append(out, l[pos:]...)
}

// without merges a list, takes the unrelated classes out of the result, and compares; they have to be in the result.
func (e *env) without(w *kit.W, list []string, want string, drop ...string) bool {
	str := strings.Join(list, " ")
	out, msg := e.merge(w, str)
	var rest []string
	found := 0
	for _, t := range splitList(out) {
		if contains(drop, t) {
			found++
		} else {
			rest = append(rest, t)
		}
	}
	if msg == "" && (strings.Join(rest, " ") != want || found != len(drop)) {
		msg = fmt.Sprintf("%q -> %q, but without %q the result is %q", str, out, drop, want)
	}
	if msg != "" {
		op := kit.Op{Kind: "merge", List: str, KeepSort: true, Must: append(append([]string{}, drop...), splitList(want)...)}
		for _, t := range list {
			if !contains(op.Must, t) {
				op.Drop = append(op.Drop, t)
			}
		}
		w.C.Violation("unrelated classes: "+msg, kit.Script{Ops: append(append([]kit.Op{}, e.ops...), op)})
		return false
	}
	return true
}

// localProducts: all rules of two declarations with each of one declaration, in both orders, and unrelated classes at every
// place, also such that set and use a custom property of their own.
func localProducts(c *kit.C) {
	rules, n := productRules()
	base := sheet(rules)
	var sets [][]string
	css := ""
	for i, x := range []string{".z0{zoom:1}", ".z1{zoom:1!important}", ".z2{--z:1}.z3{zoom:var(--z)}", ".z4{--z:1!important}", "@media print{.z5{padding:0;color:x}}", ".z6{margin:0}", ".z7:hover{zoom:1}",
		".z8{margin-left:0!important;margin:0}", ".z9{padding-lef:0;-padding:0;colo:x}", ".z10{--z:1;zoom:var(--z)!important}", "@media print{.z11{color:x!important;padding:0;padding-left:0!important}}", ".z12::before{color:x}", ".z13>b{color:x;padding:0}"} {
		css += x + "\n"
		if i == 2 {
			sets = append(sets, []string{"z2", "z3"}, []string{"z3", "z2"})
		}
		if i != 2 && i != 3 {
			k := i
			if i > 2 {
				k++
			}
			sets = append(sets, []string{fmt.Sprint("z", k)})
		}
	}
	sets = append(sets, []string{"z4"}, []string{"unknown"})
	c.Parallel(n*n, func(w *kit.W, k int) {
		plain, e := pool(w, "", true), newEnv(w, "", true)
		if !plain.add(w, base) {
			return
		}
		switch k % 3 {
		case 0:
			e.add(w, css+base)
		case 1:
			e.add(w, base)
			e.add(w, css)
		default:
			e.add(w, css)
			e.add(w, base)
		}
		u := rules[2*n+k].Class
		var cnt int64
		for a := 0; a < 2*n; a++ {
			for _, l := range [][]string{{u, rules[a].Class}, {rules[a].Class, u}} {
				want, msg := plain.merge(w, strings.Join(l, " "))
				if msg != "" {
					return // C03
				}
				for si, z := range sets {
					for pos := 0; pos <= 2; pos++ {
						if c.Quick && (k+a+si+pos)%2 != 0 {
							continue
						}
						x := l
						for i := range z {
							x = ins(x, pos+i, z[i])
						}
						if !e.without(w, x, want, z...) {
							return
						}
						cnt++
						if len(z) == 2 && pos < 2 && !e.without(w, ins(ins(l, pos, z[0]), 3, z[1]), want, z...) {
							return
						}
					}
				}
			}
			if c.Stop() {
				return
			}
		}
		w.Trans += cnt
		w.State(kit.Hash("product", u))
		c.Count("products with unrelated classes", cnt)
	})
}

// fillers: many unrelated classes between, before and after the others.
func fillers(c *kit.C, base []Rule, lists [][]string, results []string) {
	const n = 300
	var fs []string
	css := sheet(base)
	for i := 0; i < n; i++ {
		if i%3 == 0 {
			fs = append(fs, fmt.Sprintf("unk-%d", i))
			continue
		}
		fs = append(fs, fmt.Sprintf("fil-%d", i))
		css += fmt.Sprintf(".fil-%d{filler-%d:x}\n", i, i)
	}
	sizes := []int{1, 2, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 255, 256, 257, 300}
	c.Parallel(len(sizes), func(w *kit.W, k int) {
		e := newEnv(w, "", true)
		if !e.add(w, css) {
			return
		}
		f := fs[:sizes[k]]
		for li, l := range lists {
			for pos := 0; pos <= len(l); pos++ {
				if c.Quick && sizes[k] > 64 && (li+pos+k)%5 != 0 {
					continue
				}
				x := append(append(append([]string{}, l[:pos]...), f...), l[pos:]...)
				if !e.without(w, x, results[li], f...) || c.Stop() {
					return
				}
				w.Trans++
			}
		}
	})
}
