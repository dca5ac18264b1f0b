package mcore

import (
	"fmt"
	"sort"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// Families in which one size grows: all small sizes, and those around the powers of two.

// upTo are the sizes 1..32 and those around powers of two and round numbers, up to n.
func upTo(n int) []int {
	m := map[int]bool{n: true}
	for i := 1; i <= 32; i++ {
		m[i] = true
	}
	for p := 64; p <= 2*n; p *= 2 {
		m[p-1], m[p], m[p+1] = true, true, true
	}
	for p := 50; p <= 2*n; p *= 10 {
		m[p], m[p+1], m[2*p], m[2*p+1] = true, true, true, true
	}
	var out []int
	for k := range m {
		if k >= 1 && k <= n {
			out = append(out, k)
		}
	}
	sort.Ints(out)
	return out
}

// declCount: rules of n declarations, with one more, one fewer or another one overriding them.
func declCount(c *kit.C, kinds string) {
	max := 260
	if !c.Quick {
		max = 1030
	}
	sizes := upTo(max)
	c.Extra("declarations per rule", max)
	c.Parallel(len(sizes), func(w *kit.W, si int) {
		n := sizes[si]
		ks := si%2 == 0
		prop := func(i int) Decl { return d(fmt.Sprintf("prop-%d", i)) }
		var all, rev []Decl
		for i := 0; i < n; i++ {
			all = append(all, prop(i))
			rev = append(rev, prop(n-1-i))
		}
		but := func(k int) []Decl {
			return append(append([]Decl{}, all[:k]...), all[k+1:]...)
		}
		rules := []Rule{r("all", all...), r("rev", rev...), r("more", append(append([]Decl{}, all...), prop(n))...)}
		for k, i := range []int{0, n / 2, n - 1} {
			imp := append([]Decl{}, all...)
			imp[i] = di(all[i].Prop)
			use := append([]Decl{}, all...)
			use[i] = du(all[i].Prop, "--x")
			set := append([]Decl{}, all...)
			set[i] = d("--x")
			rules = append(rules, r(fmt.Sprintf("one%d", k), all[i]), r(fmt.Sprintf("but%d", k), but(i)...), r(fmt.Sprintf("imp%d", k), imp...), r(fmt.Sprintf("use%d", k), use...), r(fmt.Sprintf("set%d", k), set...))
		}
		rules = append(rules, r("next", prop(n)), r("x", d("--x")))
		s := Compile("declarations", rules, "unknown")
		e := pool(w, "", ks)
		if !e.add(w, s.CSS()) {
			return
		}
		x := newExplorer(s, e, ks, 0, kinds)
		for i := range s.Names {
			for j := range s.Names {
				if !x.list(w, []int{i, j}) {
					return
				}
				if n <= 32 || (i+j)%5 == 0 {
					for k := range s.Names {
						if c.Quick && (i+2*j+3*k)%4 != 0 {
							continue
						}
						if !x.list(w, []int{i, j, k}) {
							return
						}
					}
				}
			}
			if c.Stop() {
				return
			}
		}
		c.Count("lists over rules of many declarations", x.n)
	})
}

// listLength: n classes, of which each sets a style of its own and one that is shared by some.
func listLength(c *kit.C, kinds string) {
	max := 1030
	if !c.Quick {
		max = 4100
	}
	sizes := upTo(max)
	c.Extra("classes of a list", max)
	var rules []Rule
	for i := 0; i <= max; i++ {
		own, shared := d(fmt.Sprintf("own-%d", i)), d(fmt.Sprintf("shared-%d", i/2))
		switch i % 5 {
		case 0:
			rules = append(rules, r(fmt.Sprintf("k%d", i), shared, own))
		case 3:
			rules = append(rules, r(fmt.Sprintf("k%d", i), di(shared.Prop)))
		default:
			rules = append(rules, r(fmt.Sprintf("k%d", i), shared))
		}
	}
	rules = append(rules, r("first", d("color")), r("second", d("color")), r("third", du("color", "--x"), d("opacity")), r("x", d("--x")), r("imp", di("color")))
	s0 := Compile("length", rules, "unknown")
	s0.buildIndex()
	c.Parallel(2*len(sizes), func(w *kit.W, ji int) {
		n, ks := sizes[ji/2], ji%2 == 0
		s := *s0
		e := pool(w, "", ks)
		e.ops = append(e.ops, kit.Op{Kind: "addok", CSS: s.CSS()})
		if _, msg := e.load2(w, s.CSS()); msg != "" {
			w.C.Violation(msg, kit.Script{Ops: e.ops})
			return
		}
		x := newExplorer(&s, e, ks, 0, kinds)
		var fwd, rev []int
		for i := 0; i < n; i++ {
			fwd = append(fwd, i)
			rev = append(rev, n-1-i)
		}
		f := max + 1
		for _, b := range [][]int{fwd, rev, append(append([]int{}, fwd...), fwd...), append(append([]int{}, rev...), fwd...)} {
			for _, ends := range [][2][]int{{{}, {}}, {{f}, {f + 1}}, {{f + 1}, {f}}, {{f + 3, f}, {f + 2}}, {{f + 4}, {f + 2, f + 3, f}}, {{f + 5, f, f + 5}, {f}}, {{f + 2, f + 3}, {f + 1}}} {
				l := append(append(append([]int{}, ends[0]...), b...), ends[1]...)
				if !x.list(w, l) {
					return
				}
			}
		}
		// one class again and again
		var same []int
		for i := 0; i < n; i++ {
			same = append(same, f)
		}
		for _, l := range [][]int{same, append(append([]int{}, same...), f+1), append([]int{f + 1}, same...), append(append([]int{f + 4}, same...), f+2, f+5)} {
			if !x.list(w, l) {
				return
			}
		}
		c.Count("long lists", x.n)
	})
}

// load2 loads without recording the step.
func (e *env) load2(w *kit.W, css string) (err error, msg string) {
	w.Head(e.ops)
	msg = w.Guard(func() kit.Script { return kit.Script{Ops: e.ops} }, func() { err = e.m.AddRules(strings.NewReader(css), false) })
	if msg == "" && err != nil {
		msg = "loading fails: " + err.Error()
	}
	return err, msg
}

// overriders: a class with n styles, and n classes that override one each; one of them missing, doubled, important.
func overriders(c *kit.C, kinds string) {
	max := 130
	if !c.Quick {
		max = 520
	}
	sizes := upTo(max)
	c.Parallel(len(sizes), func(w *kit.W, si int) {
		n := sizes[si]
		var all []Decl
		var rules []Rule
		for i := 0; i < n; i++ {
			all = append(all, d(fmt.Sprintf("prop-%d", i)))
			rules = append(rules, r(fmt.Sprintf("o%d", i), all[i]))
		}
		for i := 0; i < n; i++ {
			rules = append(rules, r(fmt.Sprintf("i%d", i), di(all[i].Prop)))
		}
		rules = append(rules, r("all", all...))
		s := Compile("overriders", rules, "unknown")
		e := pool(w, "", true)
		if !e.add(w, s.CSS()) {
			return
		}
		x := newExplorer(s, e, true, 0, kinds)
		a := 2 * n
		var os []int
		for i := 0; i < n; i++ {
			os = append(os, i)
		}
		for miss := -1; miss < n; miss++ {
			if miss > 20 && miss < n-20 && c.Quick && miss%16 > 2 {
				continue
			}
			l := []int{a}
			for _, o := range os {
				if o != miss {
					l = append(l, o)
				}
			}
			if !x.list(w, l) || !x.list(w, append([]int{a + 1, a}, l...)) {
				return
			}
			if miss >= 0 {
				// an important one somewhere
				if !x.list(w, append([]int{n + miss}, l...)) || !x.list(w, append(l, n+miss)) || !x.list(w, append([]int{n + miss, a}, os...)) {
					return
				}
			}
			if c.Stop() {
				return
			}
		}
		c.Count("lists of many overriders", x.n)
	})
}

func scaleGeneral(c *kit.C, kinds string) {
	declCount(c, kinds)
	listLength(c, kinds)
	overriders(c, kinds)
}

// manyVariables: values with many references, in sequences with repetitions and nested in fallbacks.
func manyVariables(c *kit.C) {
	var scns []*Scenario
	add := func(name, val string, uses []string, names ...string) {
		// u uses; s0.. set one each; o overrides
		rules := []Rule{r("u", Decl{Prop: "color", Val: val, Uses: uses}), r("o", d("color")), r("iu", Decl{Prop: "--ind", Val: val, Uses: uses}), r("ui", du("opacity", "--ind"))}
		for i, v := range names {
			rules = append(rules, r(fmt.Sprintf("s%d", i), d(v)))
		}
		scns = append(scns, Compile(name, rules))
	}
	// all sequences of up to four references to three custom properties
	vs := []string{"--x", "--y", "--z"}
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) > 0 {
			for _, sep := range []string{" ", ",", " , ", "/", "", " var(--w) ", ")calc("} {
				if sep == " var(--w) " && len(seq) > 3 || len(seq) == 4 && c.Quick && (sep == "/" || sep == " , ") {
					continue
				}
				var parts, uses []string
				for _, i := range seq {
					parts = append(parts, "var("+vs[i]+")")
					uses = append(uses, vs[i])
				}
				if strings.Contains(sep, "--w") && len(seq) > 1 {
					uses = append(uses, "--w")
				}
				val := strings.Join(parts, sep)
				if sep == ")calc(" {
					val = "calc(" + val + ")"
				}
				add(fmt.Sprintf("references %v %q", seq, sep), val, uses, "--x", "--y", "--z", "--w")
				// in fallbacks of each other
				if sep == "," {
					val := ""
					for i := len(seq) - 1; i >= 0; i-- {
						if val == "" {
							val = "var(" + vs[seq[i]] + ")"
						} else {
							val = "var(" + vs[seq[i]] + "," + val + ")"
						}
					}
					add(fmt.Sprintf("fallbacks %v", seq), val, uses, "--x", "--y", "--z", "--w")
				}
			}
		}
		if len(seq) == 4 {
			return
		}
		for i := range vs {
			rec(append(append([]int{}, seq...), i))
		}
	}
	rec(nil)
	c.Extra("sequences of references", len(scns))
	batch(c, "sequences of references", scns, 2)
	// many of them
	max := 130
	if !c.Quick {
		max = 520
	}
	sizes := upTo(max)
	c.Extra("references in a value", max)
	c.Parallel(len(sizes), func(w *kit.W, si int) {
		n := sizes[si]
		e := pool(w, "", true)
		for form := 0; form < 6; form++ {
			var parts, uses []string
			var all []Decl
			for i := 0; i < n; i++ {
				v := fmt.Sprintf("--v%d", i)
				uses = append(uses, v)
				all = append(all, d(v))
				parts = append(parts, "var("+v+")")
			}
			var val string
			switch form {
			case 0:
				val = strings.Join(parts, " ")
			case 1:
				val = strings.Join(parts, ",")
			case 2: // in each other's fallbacks
				for i := n - 1; i >= 0; i-- {
					if val == "" {
						val = parts[i]
					} else {
						val = strings.TrimSuffix(parts[i], ")") + "," + val + ")"
					}
				}
			case 3: // nested functions
				val = "1px"
				for i := n - 1; i >= 0; i-- {
					val = "calc(" + val + " + " + parts[i] + ")"
				}
			case 4: // one reference behind a long text
				val = strings.Repeat("0 1px 2px #fff,", n) + parts[n-1]
				uses = uses[n-1:]
			case 5: // in the only declaration at the end of many
				val = parts[n-1]
				uses = uses[n-1:]
			}
			decls := []Decl{{Prop: "color", Val: val, Uses: uses}}
			if form == 5 {
				decls = nil
				for i := 0; i < n; i++ {
					decls = append(decls, d(fmt.Sprintf("prop-%d", i)))
				}
				decls = append(decls, Decl{Prop: "color", Val: val, Uses: uses})
			}
			rules := []Rule{r("u", decls...), r("all", all...), r("o", d("color")), r("ind", Decl{Prop: "--ind", Val: val, Uses: uses}), r("ui", du("opacity", "--ind"))}
			for i := 0; i < n; i++ {
				rules = append(rules, r(fmt.Sprintf("s%d", i), d(uses[i%len(uses)])))
			}
			for i := 0; i < n; i++ { // users of the same one: the first is the last that is left
				rules = append(rules, r(fmt.Sprintf("n%d", i), Decl{Prop: fmt.Sprintf("prop-%d", i), Uses: uses[:1]}))
			}
			s := Compile("many references", rules).renamed(fmt.Sprintf("-%d", form))
			if !e.add(w, s.Sheet) {
				return
			}
			x := newExplorer(s, e, true, 0, "")
			var setters, users []int
			for i := 0; i < n; i++ {
				setters = append(setters, 5+i)
				users = append(users, 5+n+i)
			}
			for _, l := range [][]int{{0, 1}, {1, 0}, {1, 0, 2}, {1, 3, 4}, {3, 4, 1}, {1, 3}, {1, 4}, {1, 0, 3, 4, 2}} {
				if !x.list(w, l) || !x.list(w, append(append([]int{}, setters...), l...)) || !x.list(w, append(append([]int{}, l...), setters...)) {
					return
				}
			}
			for i := 0; i < n; i++ {
				if i > 20 && i < n-20 && c.Quick && i%16 > 2 {
					continue
				}
				for _, l := range [][]int{{5 + i, 0}, {0, 5 + i}, {1, 5 + i, 0}, {5 + i, 1, 0}, {5 + i, 3, 4}, {5 + i, 5 + n + i}, {5, 5 + n + i}} {
					if !x.list(w, l) {
						return
					}
				}
				if !x.list(w, append([]int{5}, users...)) || !x.list(w, append(users[:i+1:i+1], 5, 1)) {
					return
				}
			}
			w.State(kit.Hash("refs", fmt.Sprint(n, form)))
		}
		c.Count("lists of many references", 1)
	})
}

// customImportant: custom properties that are set !important, used or not.
func customImportant() *Scenario {
	rules := []Rule{
		r("x!", di("--x")), r("X!", di("--x")), r("x", d("--x")), r("x!y", di("--x"), d("--y")), r("xy!", d("--x"), di("--y")), r("y", d("--y")), r("x!m", di("--x"), d("margin-top")), r("m", d("margin-top")),
		r("use", du("color", "--x")), r("use-y", du("opacity", "--y")), r("c", d("color")), rc("hover:x!", cHover, di("--x")), rc("hover:x", cHover, d("--x")),
		r("x!:y", Decl{Prop: "--x", Imp: true, Uses: []string{"--y"}}), r("y!:x", Decl{Prop: "--y", Imp: true, Uses: []string{"--x"}}),
	}
	return Compile("important custom properties", rules, "unknown")
}

// noRules: mergers that know nothing, or nothing of use.
func noRules(c *kit.C) {
	sheets := []string{"", " ", "/* x */", ".e{}", "p{color:red}", "@font-face{src:x}", "@media print{}", ".zz:unknown{color:x}", "@layer a;", ".e{}.f{}"}
	names := []string{"a", "b", "e", "aa", "A", "\u00e9", "hover:a", "-", "0"}
	depth := 4
	if !c.Quick {
		depth = 5
	}
	type job struct {
		sheet int
		ks    bool
		cache string
	}
	var jobs []job
	for i := -1; i < len(sheets); i++ {
		for _, ks := range bothSorts {
			for _, ca := range []string{"", "simple"} {
				jobs = append(jobs, job{i, ks, ca})
			}
		}
	}
	c.Parallel(len(jobs), func(w *kit.W, ji int) {
		j := jobs[ji]
		s := Compile("no rules", nil, names...)
		e := pool(w, j.cache, j.ks)
		if j.sheet >= 0 && !e.add(w, sheets[j.sheet]) {
			return
		}
		x := newExplorer(s, e, j.ks, depth, "")
		if !x.run(w, 0) {
			return
		}
		for _, n := range upTo(300) {
			var l []int
			for i := 0; i < n; i++ {
				l = append(l, (i*i+i/7)%len(names))
			}
			if !x.list(w, l) {
				return
			}
		}
		last := map[string]Rule{}
		for _, str := range []string{"", " ", "  ", "a  a", " a a ", "a a", "a\ta a", "\ta b a\n", "b a b a", "b b a a", "a  ", "\u00a0 a a", " a", "a\u00a0 a"} {
			if !checkString(w, e, last, str, j.ks) {
				return
			}
		}
		c.Count("lists on mergers without rules", x.n)
	})
}

// deepConditions: n nested conditions, n pseudo-classes, n arguments, n parts of a selector: a difference anywhere makes
// another condition.
func deepConditions(c *kit.C) {
	max := 40
	if !c.Quick {
		max = 130
	}
	sizes := upTo(max)
	c.Extra("parts of a condition", max)
	type form struct {
		name string
		make func(n, miss, diff int) Ctx // without the part miss, with a different part diff; -1: none
	}
	parts := func(n, miss, diff int, f func(i int, other bool) string) []string {
		var out []string
		for i := 0; i < n; i++ {
			if i != miss {
				out = append(out, f(i, i == diff))
			}
		}
		return out
	}
	o := func(other bool) string {
		if other {
			return "z"
		}
		return "y"
	}
	forms := []form{
		{"media", func(n, miss, diff int) Ctx {
			return Ctx{Sel: "%", At: parts(n, miss, diff, func(i int, b bool) string {
				return fmt.Sprintf("@media (min-width:%d%s)", i+1, map[bool]string{true: "em", false: "px"}[b])
			})}
		}},
		{"media and supports", func(n, miss, diff int) Ctx {
			return Ctx{Sel: "%:hover", At: parts(n, miss, diff, func(i int, b bool) string {
				if i%2 == 0 {
					return fmt.Sprintf("@media (min-width:%d%s)", i+1, map[bool]string{true: "em", false: "px"}[b])
				}
				return fmt.Sprintf("@supports (p-%d:%s)", i, o(b))
			})}
		}},
		{"media list", func(n, miss, diff int) Ctx {
			return Ctx{Sel: "%", At: []string{"@media (x)" + strings.Join(parts(n, miss, diff, func(i int, b bool) string { return fmt.Sprintf(",(f-%d-%s)", i, o(b)) }), "")}}
		}},
		{"media and", func(n, miss, diff int) Ctx {
			return Ctx{Sel: "%", At: []string{"@media screen" + strings.Join(parts(n, miss, diff, func(i int, b bool) string { return fmt.Sprintf(" and (f-%d:%s)", i, o(b)) }), "")}}
		}},
		{"supports or", func(n, miss, diff int) Ctx {
			return Ctx{Sel: "%", At: []string{"@supports (a:b)" + strings.Join(parts(n, miss, diff, func(i int, b bool) string { return fmt.Sprintf(" or (p-%d:%s)", i, o(b)) }), "")}}
		}},
		{"long text", func(n, miss, diff int) Ctx {
			return Ctx{Sel: "%", At: []string{"@media (" + strings.Join(parts(n, miss, diff, func(i int, b bool) string { return o(b) }), "") + "x)"}}
		}},
		{"pseudo-classes", func(n, miss, diff int) Ctx {
			return Ctx{Sel: "%" + strings.Join(parts(n, miss, diff, func(i int, b bool) string { return fmt.Sprintf(":not(.%s%d)", o(b), i) }), "")}
		}},
		{"pseudo-classes of a part", func(n, miss, diff int) Ctx {
			return Ctx{Sel: "p" + strings.Join(parts(n, miss, diff, func(i int, b bool) string {
				return fmt.Sprintf(":nth-child(%dn%s)", i+1, map[bool]string{true: "+1", false: ""}[b])
			}), "") + " %:hover"}
		}},
		{"arguments", func(n, miss, diff int) Ctx {
			return Ctx{Sel: "%:not(p" + strings.Join(parts(n, miss, diff, func(i int, b bool) string { return fmt.Sprintf(",#%s%d", o(b), i) }), "") + ")"}
		}},
		{"is arguments", func(n, miss, diff int) Ctx {
			return Ctx{Sel: "%:is(:hover" + strings.Join(parts(n, miss, diff, func(i int, b bool) string { return fmt.Sprintf(",[a%d=%s]", i, o(b)) }), "") + ")"}
		}},
		{"parts in front", func(n, miss, diff int) Ctx {
			return Ctx{Sel: strings.Join(parts(n, miss, diff, func(i int, b bool) string { return "#" + o(b) + fmt.Sprint(i) + []string{" ", ">", "+", "~"}[i%4] }), "") + " %"}
		}},
		{"parts behind", func(n, miss, diff int) Ctx {
			return Ctx{Sel: "%" + strings.Join(parts(n, miss, diff, func(i int, b bool) string { return []string{" ", ">", "+", "~"}[i%4] + "#" + o(b) + fmt.Sprint(i) }), "")}
		}},
		{"attributes", func(n, miss, diff int) Ctx {
			return Ctx{Sel: "%" + strings.Join(parts(n, miss, diff, func(i int, b bool) string { return fmt.Sprintf("[a%d=%q]", i, o(b)) }), "") + ":focus"}
		}},
		{"nested", func(n, miss, diff int) Ctx {
			s := strings.Join(parts(n, miss, diff, func(i int, b bool) string { return fmt.Sprintf(":not(.%s%d", o(b), i) }), "")
			return Ctx{Sel: "%" + s + strings.Repeat(")", strings.Count(s, "("))}
		}},
		{"names", func(n, miss, diff int) Ctx {
			return Ctx{Sel: "#" + strings.Join(parts(n, miss, diff, func(i int, b bool) string { return o(b) }), "") + "x %"}
		}},
	}
	c.Parallel(len(forms)*len(sizes), func(w *kit.W, ji int) {
		f, n := forms[ji/len(sizes)], sizes[ji%len(sizes)]
		var ctxs []Ctx
		seen := map[string]int{}
		id := []int{}
		add := func(x Ctx) {
			k := strings.Join(x.At, "|") + "|" + x.Sel
			if _, ok := seen[k]; !ok {
				seen[k] = len(seen)
			}
			id = append(id, seen[k])
			ctxs = append(ctxs, x)
		}
		add(f.make(n, -1, -1))
		add(f.make(n+1, -1, -1))
		step := 1
		if n > 24 {
			step = n / 6
		}
		for k := 0; k < n; k += step {
			add(f.make(n, k, -1))
			add(f.make(n, -1, k))
		}
		add(f.make(n, n-1, -1))
		add(f.make(n, -1, n-1))
		if strings.HasPrefix(f.name, "pseudo-classes") {
			// the order means nothing
			x := f.make(n, -1, -1)
			sep := strings.Index(x.Sel, ":")
			end := strings.Index(x.Sel, " ")
			if end < 0 {
				end = len(x.Sel)
			}
			ps := strings.SplitAfter(x.Sel[sep:end], ")")
			rev := ""
			for i := len(ps) - 1; i >= 0; i-- {
				rev += ps[i]
			}
			ctxs = append(ctxs, Ctx{Sel: x.Sel[:sep] + rev + x.Sel[end:]})
			id = append(id, id[0])
			if end == len(x.Sel) {
				// nor where among them another part stands; it is another condition with it
				for _, part := range []string{"[k]", "[k=v]", "#i", ".y", "::before"} {
					for _, at := range []int{0, 1, n / 2, n - 1, n} {
						if at > n || at < 0 || part == "::before" && at < n {
							continue
						}
						if _, ok := seen[part]; !ok {
							seen[part] = len(seen)
						}
						ctxs = append(ctxs, Ctx{Sel: "%" + strings.Join(ps[:at], "") + part + strings.Join(ps[at:], "")})
						id = append(id, seen[part])
					}
				}
			}
		}
		var rules []Rule
		for i, x := range ctxs {
			rules = append(rules, rc(fmt.Sprintf("A%d", i), x, d("color")), rc(fmt.Sprintf("B%d", i), x, d("color")))
		}
		e := newEnv(w, "", true)
		if !e.add(w, sheet(rules)) {
			return
		}
		for i := range ctxs {
			for j := range ctxs {
				list := fmt.Sprintf("A%d B%d", i, j)
				want := list
				if id[i] == id[j] {
					want = fmt.Sprintf("B%d", j)
				}
				if !e.expect(w, fmt.Sprintf("%d %s", n, f.name), list, want) {
					return
				}
				w.Trans++
			}
			w.State(kit.Hash(f.name, fmt.Sprint(n, i)))
		}
		c.Count("sets of large conditions", 1)
	})
}

// manyClasses: many classes in one stylesheet, in many stylesheets, and in one selector list.
func manyClasses(c *kit.C) {
	sizes := []int{100, 1000, 4097, 10001, 20000}
	if c.Quick {
		sizes = []int{100, 1000, 4097, 10001}
	}
	c.Extra("classes loaded", sizes[len(sizes)-1])
	type job struct{ n, form int }
	var jobs []job
	for _, n := range sizes {
		for f := 0; f < 4; f++ {
			jobs = append(jobs, job{n, f})
		}
	}
	c.Parallel(len(jobs), func(w *kit.W, ji int) {
		n, form := jobs[ji].n, jobs[ji].form
		e := newEnv(w, []string{"", "simple"}[ji%2], true)
		prop := func(i int) string { return fmt.Sprintf("prop-%d", i/2) }
		var b strings.Builder
		switch form {
		case 0: // one sheet
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, ".k%d{%s:x}\n", i, prop(i))
			}
			if !e.add(w, b.String()) {
				return
			}
		case 1: // many loads
			loads := 50
			if n > 5000 {
				loads = 400
			}
			for l := 0; l < loads; l++ {
				b.Reset()
				for i := l * n / loads; i < (l+1)*n/loads; i++ {
					fmt.Fprintf(&b, ".k%d{%s:x}\n", i, prop(i))
				}
				if !e.add(w, b.String()) {
					return
				}
			}
		case 2: // one selector list; all set the same
			if n > 5000 {
				n = 5000
			}
			for i := 0; i < n; i++ {
				if i > 0 {
					b.WriteByte(',')
				}
				fmt.Fprintf(&b, ".k%d", i)
			}
			b.WriteString("{color:x}")
			if !e.add(w, b.String()) {
				return
			}
			prop = func(i int) string { return "" }
		case 3: // defined again and again
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, ".k%d{color:x}\n", i%97)
				fmt.Fprintf(&b, ".k%d{%s:x}\n", i, prop(i))
				if i%(n/5) == 0 {
					if !e.add(w, b.String()) {
						return
					}
					b.Reset()
				}
			}
			if !e.add(w, b.String()) {
				return
			}
			p := prop
			prop = func(i int) string {
				if i < 97 && n-97 > i { // the last definition was the one in the rounds
					return "color"
				}
				return p(i)
			}
		}
		if len(e.m.Rules()) != n {
			op := kit.Op{Kind: "rules"}
			for i := 0; i < n; i++ {
				op.Args = append(op.Args, fmt.Sprintf("k%d", i))
			}
			sort.Strings(op.Args)
			c.Violation(fmt.Sprintf("%d classes were loaded, but %d are there", n, len(e.m.Rules())), kit.Script{Ops: append(e.ops, op)})
			return
		}
		step := 1
		if n > 3000 {
			step = n / 1500
		}
		for i := 0; i+1 < n; i += step {
			for _, j := range []int{i + 1, (i + n/2) % n, n - 1, 0} {
				if i == j {
					continue
				}
				list := fmt.Sprintf("k%d k%d", i, j)
				want := list
				if prop(i) == prop(j) {
					want = fmt.Sprintf("k%d", j)
				}
				if !e.expect(w, fmt.Sprintf("%d classes", n), list, want) {
					return
				}
				w.Trans++
			}
		}
		w.State(kit.Hash("classes", fmt.Sprint(n, form)))
		c.Count("classes loaded", int64(n))
	})
}

// manyEntries: a cache with many entries still has the right ones.
func manyEntries(c *kit.C) {
	n := 12000
	if !c.Quick {
		n = 70000
	}
	c.Extra("entries of a cache", n)
	kinds := []string{"simple", "map", "junk"}
	c.Parallel(len(kinds)*2, func(w *kit.W, ji int) {
		e := newEnv(w, kinds[ji/2], ji%2 == 0)
		var b strings.Builder
		const k = 300
		for i := 0; i < k; i++ {
			fmt.Fprintf(&b, ".k%03d{prop-%d:x}.l%03d{prop-%d:x}", i, i%7, i, i%11)
		}
		if !e.add(w, b.String()) {
			return
		}
		base := len(e.ops)
		for round := 0; round < 3; round++ {
			for q := 0; q < n; q++ {
				i, j := q%k, q/k%k
				list := fmt.Sprintf("k%03d l%03d", i, j)
				want := list
				if i%7 == j%11 {
					want = fmt.Sprintf("l%03d", j)
				}
				if q/(k*k) == 1 {
					list += fmt.Sprintf("  k%03d", i)
					want = fmt.Sprintf("k%03d", i)
					if i%7 != j%11 {
						want = fmt.Sprintf("l%03d k%03d", j, i)
					}
				}
				if !e.expect(w, "many entries", list, want) {
					return
				}
				w.Trans++
			}
			if round == 1 {
				if !e.add(w, ".unrelated{x:y}") {
					return
				}
			}
		}
		_ = base
		w.State(kit.Hash("entries", kinds[ji/2]))
	})
}

// manyLists: so many results at the same time that two lists have the same hash of 32 bits, whatever the hash is.
func manyLists(c *kit.C) {
	n := 700
	if !c.Quick {
		n = 1600
	}
	c.Extra("results at the same time", n*n)
	kinds := []string{"simple", "map"}
	pads := []string{"", strings.Repeat("p", 300) + " ", ""}
	for i := 0; i < 24; i++ {
		pads[2] += fmt.Sprintf("padding-%02d ", i)
	}
	c.Parallel(len(kinds)*len(pads), func(w *kit.W, ji int) {
		pad := pads[ji/2]
		n := n
		if pad != "" {
			n = n * 3 / 5
		}
		e := newEnv(w, kinds[ji%2], true)
		if !e.add(w, ".a{color:red}.b{color:blue}") {
			return
		}
		if msg := listsWith(n, pad, func(l string) (string, string) { return e.merge(w, l) }, c.Stop); msg != "" {
			w.C.Violation(msg, kit.Script{Ops: append(append([]kit.Op{}, e.ops...), kit.Op{Kind: "lists", Text: pad, Ints: []int{n}})})
		}
		w.Trans += int64(2 * n * n)
		w.State(kit.Hash("lists", kinds[ji%2], pad))
	})
}

func listsWith(n int, pad string, merge func(string) (string, string), stop func() bool) string {
	words := make([]string, n)
	for i := range words {
		words[i] = fmt.Sprintf("w%x", uint64(i+1)*0x9E3779B97F4A7C15>>20)
	}
	for round := 0; round < 2; round++ {
		for i := range words {
			for j := range words {
				if i == j {
					continue
				}
				l := pad + words[i] + " " + words[j]
				if out, msg := merge(l); out != l {
					return fmt.Sprintf("of %d lists, %q gives %q %s", n*n, l, out, msg)
				}
			}
			if stop() {
				return ""
			}
		}
	}
	return ""
}

// longNames: names of any length that differ in one character.
func longNames(c *kit.C) {
	max := 1100
	if !c.Quick {
		max = 10000
	}
	sizes := upTo(max)
	c.Extra("length of names", max)
	c.Parallel(len(sizes), func(w *kit.W, si int) {
		n := sizes[si]
		base := make([]byte, n)
		for i := range base {
			base[i] = "abcdefghijklmnopqrstuvwxyz"[i%26]
		}
		var names []string
		with := func(i int, ch string) { names = append(names, string(base[:i])+ch+string(base[i+1:])) }
		names = append(names, string(base))
		for _, i := range []int{0, n / 2, n - 1} {
			for _, ch := range []string{"Z", "0", ":", "/", "\u00e9", "\\"} {
				with(i, ch)
			}
			if n == 1 {
				break
			}
		}
		names = append(names, string(base)+"x", "x"+string(base), string(base[:n-1])+"-", string(base)+string(base))
		seen := map[string]bool{}
		var list []string
		for _, x := range names {
			if !seen[x] {
				seen[x] = true
				list = append(list, x)
			}
		}
		e := newEnv(w, "", true)
		for fi, form := range escapeForms[:4] {
			for ci, ctx := range []string{"%", ".gg %", "%:hover"} {
				if (fi+ci+n)%3 != 0 && c.Quick {
					continue
				}
				var b strings.Builder
				for i, x := range list {
					fmt.Fprintf(&b, "%s{prop-%d:x}%s{prop-%d:y}\n", strings.ReplaceAll(ctx, "%", "."+form(x)), i, strings.ReplaceAll(ctx, "%", fmt.Sprintf(".P%d", i)), i)
				}
				if !e.add(w, b.String()) {
					return
				}
				for i, x := range list {
					for j := range list {
						l := fmt.Sprintf("%s P%d", x, j)
						want := l
						if i == j {
							want = fmt.Sprintf("P%d", j)
						}
						if !e.expect(w, "long names", l, want) {
							return
						}
						w.Trans++
					}
				}
			}
		}
		w.State(kit.Hash("length of names", fmt.Sprint(n)))
	})
}

// deepBlocks: ignored and evaluated blocks nested n deep leave what is around them as it is.
func deepBlocks(c *kit.C) {
	max := 130
	if !c.Quick {
		max = 1030
	}
	sizes := upTo(max)
	c.Extra("nesting of blocks", max)
	opens := []string{"@layer x{", "@unknown{", "@media print{", "@supports (a:b){", "@container (a:b){", "@unknown (x) [y] {"}
	c.Parallel(len(opens)*len(sizes), func(w *kit.W, ji int) {
		open, n := opens[ji%len(opens)], sizes[ji/len(opens)]
		e := newEnv(w, "", true)
		known := strings.HasPrefix(open, "@media") || strings.HasPrefix(open, "@supports")
		for form := 0; form < 4; form++ {
			inner := ".zz{color:x}"
			if known {
				inner = ".zz:unknown{color:x}"
			}
			outer := ""
			if form == 3 {
				outer = "@unknown{"
				inner = ".zz{color:x}"
			}
			open := open
			var b strings.Builder
			sfx := fmt.Sprintf("-%d", form)
			fmt.Fprintf(&b, ".a%s{color:x}.b%s:hover{color:x}", sfx, sfx)
			b.WriteString(outer)
			for i := 0; i < n; i++ {
				o := open
				if form == 2 {
					o = opens[(ji+i)%len(opens)]
					if i == 0 {
						o = "@unknown{"
					}
				}
				b.WriteString(o)
				if form == 1 {
					b.WriteString(inner)
				}
			}
			b.WriteString(inner + strings.Repeat("}", n))
			if outer != "" {
				b.WriteString("}")
			}
			fmt.Fprintf(&b, ".c%s{color:x}@media print{.d%s{color:x}}.e%s:hover{color:x}@media print{.f%s{color:x}}", sfx, sfx, sfx, sfx)
			if !e.add(w, b.String()) {
				return
			}
			for _, t := range [][2]string{{"a_ c_", "c_"}, {"c_ a_", "a_"}, {"b_ e_", "e_"}, {"e_ b_", "b_"}, {"d_ f_", "f_"}, {"f_ d_", "d_"}, {"a_ b_ d_", "a_ b_ d_"}, {"zz a_ zz c_", "zz c_"}, {"a_ zz", "a_ zz"}, {"f_ e_ c_", "f_ e_ c_"}} {
				if !e.expect(w, fmt.Sprintf("%d blocks %s", n, open), strings.ReplaceAll(t[0], "_", sfx), strings.ReplaceAll(t[1], "_", sfx)) {
					return
				}
				w.Trans++
			}
			w.State(kit.Hash(open, fmt.Sprint(n, form)))
		}
	})
}

// bigSheets: stylesheets of any size: what stands at the end is loaded, a failure there is reported.
func bigSheets(c *kit.C) {
	var sizes []int
	top := 21
	if !c.Quick {
		top = 23
	}
	for p := 9; p <= top; p++ {
		for _, k := range []int{-2, -1, 0, 1, 2} {
			if p >= 16 && (k == -2 || k == 2) {
				continue
			}
			sizes = append(sizes, 1<<p+k)
		}
	}
	for _, k := range []int{1000, 10000, 100000, 1000000, 65536 * 3, 5000000} {
		if k < 1<<top {
			sizes = append(sizes, k)
		}
	}
	sort.Ints(sizes)
	c.Extra("size of stylesheets", sizes[len(sizes)-1])
	fills := []string{"comment", "value", "space", "rules", "at-rule"}
	fill := func(kind string, n int) string {
		rep := func(s string) string { return strings.Repeat(s, n/len(s)) + strings.Repeat(" ", n%len(s)) }
		switch kind {
		case "comment":
			if n < 4 {
				return strings.Repeat(" ", n)
			}
			return "/*" + strings.Repeat("x", n-4) + "*/"
		case "value":
			if n < 12 {
				return strings.Repeat(" ", n)
			}
			return ".v{--v:\"" + strings.Repeat("y", n-10) + "\"}"
		case "space":
			return strings.Repeat(" ", n)
		case "rules":
			return rep(".r{opacity:0}p:hover{color:x}\n")
		default:
			if n < 8 {
				return strings.Repeat(" ", n)
			}
			body := strings.Repeat("p{x:y}", (n-8)/6) + strings.Repeat(" ", (n-8)%6)
			return "@layer{" + body + "}"
		}
	}
	c.Parallel(len(sizes)*len(fills), func(w *kit.W, ji int) {
		n, kind := sizes[len(sizes)-1-ji/len(fills)], fills[ji%len(fills)]
		const head, tail = ".a{color:x}.b{color:y}", ".a{opacity:1}.c{opacity:0}.d{color:x}"
		if n < len(head)+len(tail) {
			return
		}
		css := head + fill(kind, n-len(head)-len(tail)) + tail
		if len(css) != n {
			panic(fmt.Sprint(kind, " ", n, " ", len(css)))
		}
		e := newEnv(w, "", true)
		spec := []string{"", "steps=4096", "steps=1000,1", "eof"}[ji%4]
		e.ops = append(e.ops, kit.Op{Kind: "addok", CSS: css, Reader: spec})
		for round := 0; round < 2; round++ {
			var err error
			msg := w.Guard(func() kit.Script { return kit.Script{Ops: e.ops} }, func() { err = e.m.AddRules(makeReader(css, spec), false) })
			w.Traces++
			if msg == "" && err != nil {
				msg = "loading fails: " + err.Error()
			}
			if msg != "" {
				c.Violation(fmt.Sprintf("a stylesheet of %d bytes: %s", n, msg), kit.Script{Ops: e.ops})
				return
			}
			for _, t := range [][2]string{{"a c", "c"}, {"c a", "a"}, {"b d", "d"}, {"d b", "b"}, {"a b", "a b"}} {
				if !e.expect(w, fmt.Sprintf("a stylesheet of %d bytes (%s)", n, kind), t[0], t[1]) {
					return
				}
				w.Trans++
			}
			// a reader that fails at the end, and a text that does not parse at the end, change nothing
			for k, bad := range []string{strings.Replace(css, ".a{opacity:1}.c{opacity:0}", "}.a{margin:0}.c{color:0}", 1), css} {
				rd := spec
				if k == 1 {
					rd += fmt.Sprintf(" fail=%d", n-1)
					bad = strings.Replace(css, ".c{opacity:0}", ".c{color:xxxx}", 1)
				}
				op := kit.Op{Kind: "adderr", CSS: bad, Reader: rd}
				var err error
				msg := w.Guard(func() kit.Script { return kit.Script{Ops: append(e.ops, op)} }, func() { err = e.m.AddRules(makeReader(bad, rd), false) })
				if msg == "" && err == nil {
					msg = "loading does not fail"
				}
				if msg != "" {
					c.Violation(fmt.Sprintf("a stylesheet of %d bytes: %s", n, msg), kit.Script{Ops: append(e.ops, op)})
					return
				}
				e.ops = append(e.ops, op)
				if !e.expect(w, fmt.Sprintf("after a failing stylesheet of %d bytes", n), "a c", "c") {
					return
				}
				e.ops = e.ops[:len(e.ops)-1]
			}
		}
		w.State(kit.Hash(kind, fmt.Sprint(n)))
		c.Count("bytes of large stylesheets", int64(n))
	})
}

// manyNames: among many loaded names and many others, no two are taken for one another.
func manyNames(c *kit.C) {
	loaded, others := 20000, 1000000
	if !c.Quick {
		loaded, others = 60000, 8000000
	}
	c.Extra("names loaded at the same time", loaded)
	c.Extra("other names", others)
	name := func(i int) string { return fmt.Sprintf("n%x", uint64(i+1)*0x9E3779B97F4A7C15>>16) }
	var b strings.Builder
	for i := 0; i < loaded; i++ {
		fmt.Fprintf(&b, ".%s{color:red}", name(i))
	}
	b.WriteString(".z{color:blue}")
	css := b.String()
	const parts = 8
	c.Parallel(parts, func(w *kit.W, ji int) {
		e := newEnv(w, "", true)
		if !e.add(w, css) {
			return
		}
		const k = 50
		for i := ji * k; i < others; i += parts * k {
			l := ""
			for j := i; j < i+k; j++ {
				l += name(loaded+j) + " "
			}
			if !e.expect(w, "many names", l+"z", l+"z") {
				return
			}
			if i%(parts*k*1000) == 0 && c.Stop() {
				return
			}
			w.Trans++
		}
		for i := ji; i < loaded; i += parts {
			if !e.expect(w, "many names", name(i)+" z", "z") {
				return
			}
			w.Trans++
		}
		w.State(kit.Hash("names", fmt.Sprint(ji)))
	})
}
