package mcore

import (
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C06

func checkVariables(c *kit.C) {
	c.Assume("the setter of a custom property that only a declaration refers to which an !important one overrides may be kept or removed",
		"bounds: the reference graphs over up to three (any) and four (without loops) custom properties, chains of up to 40, lists up to the given length, every listed spelling")
	d1, d2 := 4, 4
	if !c.Quick {
		d1, d2 = 6, 5
	}
	c.Extra("bounds", map[string]any{"variables alphabet": len(variableScenario().Names), "variables length": d1, "conditions length": d2 - 1})
	exploreAll(c, "variables", []*Scenario{variableScenario()}, d1, "", []string{""}, bothSorts)
	exploreAll(c, "variables under conditions", []*Scenario{variableConditions()}, d2-1, "", []string{""}, []bool{true})
	exploreAll(c, "templates", []*Scenario{templateScenario()}, 2, "", []string{""}, []bool{true})
	graphs(c)
	chains(c)
	referenceSpellings(c)
	variableNames(c)
	variableEscapes(c)
	variablesEverywhere(c)
	shorthandVariables(c)
	product(c, "")
	manyVariables(c)
	hugeFamily(c, "variables")
	tailwindFamily(c, "", hasCustom)
	exploreAll(c, "important custom properties", []*Scenario{customImportant()}, d1-1, "", []string{""}, bothSorts)
}

// variableConditions: the same custom property set and used under several conditions.
func variableConditions() *Scenario {
	var rules []Rule
	for i, x := range []Ctx{noCtx, cHover, cMd, cBefore, cGroup, cChild} {
		p := []string{"", "hover:", "md:", "before:", "group:", "space:"}[i]
		rules = append(rules, rc(p+"x", x, d("--x")), rc(p+"x2", x, d("--x"), d("margin-top")), rc(p+"use", x, du("color", "--x")))
	}
	rules = append(rules, r("c", d("color")), r("y", du("--x", "--y")), r("y2", d("--y")), rc("md:y2", cMd, d("--y")))
	return Compile("variables under conditions", rules)
}

// graphs: all ways in which up to four custom properties refer to each other, and all lists of their setters and a user.
func graphs(c *kit.C) {
	var scns []*Scenario
	name := func(i int) string { return fmt.Sprintf("--v%d", i) }
	add := func(n int, edge func(i, j int) bool, users [][]string) {
		for ui, us := range users {
			var rules []Rule
			for i := 0; i < n; i++ {
				var uses []string
				for j := 0; j < n; j++ {
					if edge(i, j) {
						uses = append(uses, name(j))
					}
				}
				rules = append(rules, r(fmt.Sprintf("s%d", i), du(name(i), uses...)))
			}
			rules = append(rules, r("use", du("color", us...)))
			scns = append(scns, Compile(fmt.Sprintf("graph %d/%d users %d", n, len(scns), ui), rules))
		}
	}
	for m := 0; m < 1<<9; m++ {
		add(3, func(i, j int) bool { return m&(1<<(3*i+j)) != 0 }, [][]string{{name(0)}, {name(1), name(2)}})
	}
	small := len(scns)
	for m := 0; m < 1<<12; m++ {
		if c.Quick && m%3 != 0 {
			continue
		}
		add(4, func(i, j int) bool {
			if i == j {
				return false
			}
			if j > i {
				j--
			}
			return m&(1<<(3*i+j)) != 0
		}, [][]string{{name(0)}})
	}
	batch(c, "reference graphs", scns[:small], 4)
	// for the larger ones, all orders of all subsets of the setters around the user
	batchLists(c, "reference graphs", scns[small:], func(s *Scenario, yield func([]int) bool) bool {
		n := len(s.Names)
		for m := 1; m < 1<<n; m++ {
			if m&(1<<(n-1)) == 0 {
				continue // without the user
			}
			var el []int
			for i := 0; i < n; i++ {
				if m&(1<<i) != 0 {
					el = append(el, i)
				}
			}
			if len(el) < n-1 {
				continue
			}
			ok := true
			perms(len(el), func(p []int) {
				if !ok {
					return
				}
				l := make([]int, len(p))
				for i, x := range p {
					l[i] = el[x]
				}
				// the place of the user and the order of the setters matter only relative to resetting
				if c.Quick && (p[0] > p[len(p)-1]) && m%2 == 0 {
					return
				}
				ok = yield(l)
			})
			if !ok {
				return false
			}
		}
		return true
	})
}

// chains of references, with a gap or a loop.
func chains(c *kit.C) {
	var scns []*Scenario
	lens := []int{2, 3, 5, 8, 9, 16, 17, 33, 40}
	for _, n := range lens {
		for back := -1; back < 1; back++ {
			var rules []Rule
			for i := 0; i < n; i++ {
				var uses []string
				if i+1 < n {
					uses = append(uses, fmt.Sprintf("--v%d", i+1))
				} else if back >= 0 {
					uses = append(uses, "--v0")
				}
				rules = append(rules, r(fmt.Sprintf("s%d", i), du(fmt.Sprintf("--v%d", i), uses...)))
			}
			rules = append(rules, r("use", du("color", "--v0")), r("over", d("color")), r("half", du("opacity", fmt.Sprintf("--v%d", n/2))))
			scns = append(scns, Compile(fmt.Sprintf("chain %d back %d", n, back), rules, "unknown"))
		}
	}
	batchLists(c, "chains", scns, func(s *Scenario, yield func([]int) bool) bool {
		n := len(s.Names) - 4
		use, over, half := n, n+1, n+2
		var fwd, rev, mix []int
		for i := 0; i < n; i++ {
			fwd = append(fwd, i)
			rev = append(rev, n-1-i)
			mix = append(mix, i*7%n)
		}
		if n%7 == 0 {
			mix = fwd
		}
		for _, b := range [][]int{fwd, rev, mix} {
			for _, pre := range [][]int{{}, {use}, {half}, {use, over}} {
				for _, post := range [][]int{{}, {use}, {half}, {over}, {use, over, half}} {
					for miss := -1; miss < n; miss++ {
						l := append([]int{}, pre...)
						for i, x := range b {
							if i != miss {
								l = append(l, x)
							}
						}
						if l = append(l, post...); !yield(l) {
							return false
						}
					}
				}
			}
		}
		return true
	})
}

// referenceSpellings: ways to write a reference, and texts that are not one.
func referenceSpellings(c *kit.C) {
	type sp struct {
		val  string
		uses []string
	}
	x, y, xy := []string{"--x"}, []string{"--y"}, []string{"--x", "--y"}
	_ = y
	all := []sp{
		{"var(--x)", x}, {"var( --x )", x}, {"var(  --x)", x}, {"var(\n--x\n)", x}, {"var(\t--x)", x}, {"VAR(--x)", x}, {"Var(--x)", x}, {"vAr(--x)", x},
		{"var(--x,red)", x}, {"var(--x, red)", x}, {"var(--x ,red)", x}, {"var(--x,)", x}, {"var(--x,a,b)", x}, {"var(--x,var(--y))", xy}, {"var(--x, var(--y))", xy}, {"var(--x, var(--y, var(--z)))", []string{"--x", "--y", "--z"}},
		{"var(--x) var(--y)", xy}, {"var(--x)var(--y)", xy}, {"var(--y),var(--x)", xy}, {"calc(var(--x) + 1px)", x}, {"calc(1px*var(--x))", x}, {"calc(var(--x)*var(--y))", xy}, {"calc(1px - (2*var(--x)))", x}, {"calc(-1*var(--x))", x},
		{"rgb(1 2 3/var(--x))", x}, {"rgb(1 2 3 / var(--x))", x}, {"rgb(var(--x)/var(--y))", xy}, {"translate(var(--x),var(--y)) rotate(1deg)", xy}, {"1px solid var(--x)", x}, {"linear-gradient(var(--x),red,var(--y))", xy},
		{"var(--x)!important", x}, {"var(--x) !important", x}, {"a var(--y,1px) b var(--x,2px) c", xy}, {"\"s\" var(--x)", x}, {"\"(\" var(--x) \")\"", x}, {"url(x) var(--x)", x}, {"#fff var(--x)", x},
		{"min(var(--x),max(var(--y),1px))", xy}, {"var(--x)/var(--y)", xy}, {"var(--x)%", x}, {"-1px var(--x)", x}, {"/**/var(--x)", x}, {"var(--x)/**/", x},
		{"none", nil}, {"--x", nil}, {"x", nil}, {"calc(1px)", nil}, {"env(--x)", nil}, {"var", nil}, {"attr(x)", nil}, {"vars(--x)", nil}, {"\"--x\"", nil}, {"url(--x)", nil}, {"var(--xx)", []string{"--xx"}}, {"var(--xx,--x)", []string{"--xx"}},
		{"var(--X)", []string{"--X"}}, {"red", nil}, {"var(--x-y)", []string{"--x-y"}}, {"var(--z)", []string{"--z"}},
		{`"var(--x)"`, nil}, {`'a var(--x) b'`, nil}, {`"a" var(--x) "b"`, x}, {`'"' var(--x) '"'`, x}, {`"'" var(--x) "'"`, x}, {`"\"var(--x)"`, nil}, {`"\\" var(--x) "\\"`, x}, {`'\'' var(--x) '\''`, x}, {`\"var(--x)`, x}, {`\" var(--x) \"`, x}, {`\' var(--x)`, x},
		{"/* var(--x) */ a", nil}, {"var(/**/--x)", x}, {"var(--x/**/)", x}, {"var( /* a */ --x /* b */ , /* c */ a)", x}, {"/* \" */ var(--x) /* \" */", x}, {"\"/*\" var(--x) \"*/\"", x}, {"/* ' */ var(--x)", x}, {"var(--x,\"var(--y)\")", x}, {"\"\" var(--x) \"\"", x}, {"a /* var(--y) */ var(--x)", x},
		{"f(\"a\", var(--x))", x}, {"\"é\" var(--x)", x}, {"\"a\\\nb var(--y)\" var(--x)", x},
	}
	var scns []*Scenario
	for i, v := range all {
		for _, p := range []string{"color", "padding", "stroke", "box-shadow", "--w"} {
			for form := 0; form < 3; form++ {
				if p == "--w" && strings.Contains(v.val, "mportant") {
					continue
				}
				decl := Decl{Prop: p, Val: v.val, Uses: v.uses, Imp: strings.Contains(v.val, "!important")}
				ds := []Decl{decl}
				switch form {
				case 1:
					ds = append(ds, d("opacity"))
				case 2:
					ds = append([]Decl{d("opacity")}, decl)
				}
				rules := []Rule{r("u", ds...), r("sx", d("--x")), r("sy", d("--y")), r("both", d("--x"), d("--z")), r("w", du("width", "--w"))}
				s := Compile(fmt.Sprintf("reference %d %s:%s/%d", i, p, v.val, form), rules)
				// generate the text by hand: the value is given with its !important
				css := ".u{"
				for k, x := range ds {
					val := x.Val
					if val == "" {
						val = "v"
					}
					css += x.Prop + ":" + val
					if k < len(ds)-1 || form != 2 {
						css += ";"
					}
				}
				s.Sheet = css + "}\n" + sheet(rules[1:])
				scns = append(scns, s)
			}
		}
	}
	batch(c, "reference spellings", scns, 3)
}

// variableNames: no two names of custom properties are taken for one another.
func variableNames(c *kit.C) {
	// name in a selector-free position, as it is written
	names := []string{"--x", "--X", "--xx", "--x-", "--x-x", "--x_x", "--x1", "--é", "--x-é", "--tw-ring-color", "--tw-ring", "--tw-ring-color-x", "--tw-Ring", "--tw-ring-offset-shadow", "--tw-ring-shadow",
		"--a", "--b", "--ab", "--ba", "--aa", "--var", "--important", "--color", "--margin-top", `--x\.5`, `--x\/5`, `--x\:y`, "--😀", "--x--y", "--hover", "--x-hover", "--_"}
	var rules []Rule
	for i, n := range names {
		rules = append(rules, r(fmt.Sprintf("s%d", i), d(n)), r(fmt.Sprintf("u%d", i), du("color", n)), r(fmt.Sprintf("i%d", i), du("--indirect", n)))
	}
	rules = append(rules, r("ui", du("color", "--indirect")))
	css := sheet(rules)
	c.Parallel(len(names), func(w *kit.W, i int) {
		e := pool(w, "", true)
		if !e.add(w, css) {
			return
		}
		for j := range names {
			for form := 0; form < 4; form++ {
				list := fmt.Sprintf("s%d u%d", i, j)
				var want string
				switch form {
				case 1:
					list = fmt.Sprintf("u%d s%d", j, i)
				case 2:
					list = fmt.Sprintf("s%d i%d ui", i, j)
				case 3:
					// a second setter: overrides the first one only if it is the same property
					list = fmt.Sprintf("s%d s%d u%d", i, j, i)
					if i == j {
						continue
					}
				}
				want = list
				if form == 3 {
					want = fmt.Sprintf("s%d u%d", i, i)
				} else if i != j {
					want = strings.TrimSpace(strings.Replace(" "+list+" ", fmt.Sprintf(" s%d ", i), " ", 1))
				}
				if !e.expect(w, "names of custom properties", list, want) {
					return
				}
			}
			w.State(kit.Hash("names", names[i], names[j]))
			w.Trans++
		}
	})
}

// variableEscapes: names of custom properties with every character, written in every way, in setters and references; and
// names that end like a condition.
func variableEscapes(c *kit.C) {
	var chars []rune
	for ch := rune(1); ch < 0x80; ch++ {
		if ch != '\n' && ch != '\f' && ch != '\r' {
			chars = append(chars, ch)
		}
	}
	chars = append(chars, 'é', 0x85, 0xa0, '€', '😀')
	// spell is a character at the end of, or within, a name
	spell := func(ch rune, form int) string {
		alnum := ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch == '-' || ch == '_' || ch >= 0x80
		hexd := ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F'
		switch form {
		case 0:
			if alnum {
				return string(ch)
			}
			return "\\" + string(ch)
		case 1:
			if hexd {
				return fmt.Sprintf("\\%06x", ch)
			}
			return "\\" + string(ch)
		case 2:
			return fmt.Sprintf("\\%x ", ch)
		case 3:
			return fmt.Sprintf("\\%06X", ch)
		case 4:
			return fmt.Sprintf("\\%X\t", ch)
		}
		return fmt.Sprintf("\\%x\n", ch)
	}
	const forms = 6
	frames := []string{"--x%", "--x%y", "--%", "--%1", "--x%%y"}
	c.Extra("characters of names of custom properties", len(chars))
	c.Parallel(len(chars), func(w *kit.W, ci int) {
		ch := chars[ci]
		e := newEnv(w, "", true)
		n := 0
		for _, f := range frames {
			for a := 0; a < forms; a++ {
				for b := 0; b < forms; b++ {
					if a*b == 0 && f[2] == '%' && (ch == '-' || ch >= '0' && ch <= '9') {
						continue // the tokenizer does not know names like --1 and ---
					}
					// the setter writes the name one way, the user another way
					s, u := strings.ReplaceAll(f, "%", spell(ch, a)), strings.ReplaceAll(f, "%", spell(ch, b))
					n++
					css := fmt.Sprintf(".s%d{%s:1}.t%d{%s:2;opacity:0}.u%d{color:var(%s)}.v%d{width:calc(1px + var( %s , 2px))}.o%d{--other:var(%s,a)}.r%d{color:var(--other)}.z%d{%s:3}", n, s, n, u, n, u, n, u, n, u, n, n, strings.ReplaceAll(f, "%", "z"))
					if !e.add(w, css) {
						return
					}
					for _, l := range [][2]string{{"s u", "s u"}, {"s v", "s v"}, {"s t u", "t u"}, {"s o r", "s o r"}, {"s o", ""}, {"s z", ""}, {"z u", "u"}, {"v z s", "v s"}} {
						list, want := "", ""
						for k, p := range l {
							var cs []string
							for _, x := range strings.Fields(p) {
								cs = append(cs, fmt.Sprint(x, n))
							}
							if k == 0 {
								list = strings.Join(cs, " ")
							} else {
								want = strings.Join(cs, " ")
							}
						}
						if ch == 'z' {
							continue // z is the other name
						}
						if !e.expect(w, "escapes in names of custom properties", list, want) {
							return
						}
						w.Trans++
					}
				}
			}
		}
		w.State(kit.Hash("var escapes", string(ch)))
	})
	// names with the text of a condition
	var rules []string
	conds := []string{":hover", "::before", ":hover::before", "(min-width:1px)", "print", "@supports(a:b)", "!important", "{", " ", ".a", "\"", "\"\"", "\\", "#i", "print{", ":hover:focus"}
	esc := func(s string) string {
		var b strings.Builder
		for _, ch := range s {
			b.WriteString(spell(ch, 1))
		}
		return b.String()
	}
	ats := []string{"%", "%", "%", "@media (min-width:1px){%}", "@media print{%}", "@supports (a:b){%}", "%", "%", "%", "%", "%", "%", "%", "%", "@media print{%}", "%"}
	sels := map[string]string{":hover": ":hover", "::before": "::before", ":hover::before": ":hover::before", ":hover:focus": ":hover:focus", "print{": ":hover"}
	for i, x := range conds {
		// a: the condition is in the name; b: it is one; c, d: the users of both
		rules = append(rules, fmt.Sprintf(".a%d{--x%s:1}.c%d{color:var(--x%s)}", i, esc(x), i, esc(x)))
		imp := ""
		if x == "!important" {
			imp = x
		}
		rules = append(rules, strings.Replace(ats[i], "%", fmt.Sprintf(".b%d%s{--x:1%s}", i, sels[x], imp), 1), fmt.Sprintf(".d%d{color:var(--x)}.e%d{width:var(--x)}", i, i))
	}
	css := strings.Join(rules, "\n")
	c.Parallel(len(conds), func(w *kit.W, i int) {
		e := pool(w, "", true)
		if !e.add(w, css) {
			return
		}
		for j := range conds {
			for _, l := range []string{"a%d b%d c%d e%d", "b%d a%d c%d e%d"} {
				list := fmt.Sprintf(l, i, j, i, j)
				if l[0] == 'b' {
					list = fmt.Sprintf(l, j, i, i, j)
				}
				if !e.expect(w, "names of custom properties like a condition", list, list) {
					return
				}
				w.Trans++
			}
		}
	})
}

// variablesEverywhere: setter and user under every pair of conditions.
func variablesEverywhere(c *kit.C) {
	sels := selectorContexts()
	var ctxs []Ctx
	for i, s := range sels {
		if !c.Quick || i%3 == 0 {
			ctxs = append(ctxs, withAt(s, nil))
		}
	}
	for _, at := range atContexts() {
		ctxs = append(ctxs, withAt(cHover, at))
	}
	var rules []Rule
	for i, x := range ctxs {
		rules = append(rules, rc(fmt.Sprintf("s:%d", i), x, d("--x")), rc(fmt.Sprintf("u:%d", i), x, du("color", "--x")), rc(fmt.Sprintf("n:%d", i), x, du("color", "--y")), rc(fmt.Sprintf("t:%d", i), x, d("--x"), d("opacity")))
	}
	css := sheet(rules)
	c.Parallel(32, func(w *kit.W, job int) {
		e := pool(w, "", true)
		if !e.add(w, css) {
			return
		}
		for i := job; i < len(ctxs); i += 32 {
			for j := range ctxs {
				ok := e.expect(w, "setter and user under conditions", fmt.Sprintf("s:%d u:%d", i, j), fmt.Sprintf("s:%d u:%d", i, j)) &&
					e.expect(w, "setter and user under conditions", fmt.Sprintf("u:%d s:%d", i, j), fmt.Sprintf("u:%d s:%d", i, j)) &&
					e.expect(w, "setter and other user under conditions", fmt.Sprintf("s:%d n:%d", i, j), fmt.Sprintf("n:%d", j))
				if ok {
					// two setters and a user: the first setter goes only if the second has the same condition
					list := fmt.Sprintf("s:%d t:%d u:%d", i, j, i)
					want := list
					if ctxs[i].ID == ctxs[j].ID {
						want = fmt.Sprintf("t:%d u:%d", j, i)
					}
					ok = e.expect(w, "two setters under conditions", list, want)
				}
				if !ok || c.Stop() {
					return
				}
				w.Trans += 4
			}
			w.State(kit.Hash("var ctx", ctxs[i].ID))
		}
	})
}

// expect merges a list and compares the result exactly.
func (e *env) expect(w *kit.W, what, list, want string) bool {
	out, msg := e.merge(w, list)
	if msg == "" && out != want {
		msg = fmt.Sprintf("%q -> %q, want %q", list, out, want)
	}
	if msg != "" {
		w.C.Violation(what+": "+msg, kit.Script{Ops: append(append([]kit.Op{}, e.ops...), kit.Op{Kind: "merge", List: list, Want: &want})})
		return false
	}
	if w.Traces%10007 == 1 {
		w.C.Sample("%s: %q -> %q", what, list, out)
	}
	return true
}

// batchLists evaluates given lists on many small scenarios on shared mergers.
func batchLists(c *kit.C, family string, scns []*Scenario, lists func(s *Scenario, yield func([]int) bool) bool) {
	batchWith(c, family, scns, func(w *kit.W, e *env, s *Scenario) bool {
		x := newExplorer(s, e, true, 0, "")
		ok := lists(s, func(cs []int) bool { return !c.Stop() && x.list(w, cs) })
		c.Count(family+" lists", x.n)
		return ok
	})
}

// shorthandVariables: shorthands that use custom properties, as long as one of the longhands they set is not overridden.
func shorthandVariables(c *kit.C) {
	var shorts []string
	for _, p := range knownProps() {
		if l := longhandTable[p]; len(l) > 1 {
			shorts = append(shorts, p)
		}
	}
	c.Extra("shorthands that use custom properties", len(shorts))
	c.Parallel(len(shorts), func(w *kit.W, k int) {
		p := shorts[k]
		ls := longhandTable[p]
		n := len(ls)
		dui := func(prop, v string) Decl { return Decl{Prop: prop, Imp: true, Uses: []string{v}} }
		users := [][]Decl{
			{du(p, "--x")}, {dui(p, "--x")}, {du(p, "--x", "--y")}, {du(p, "--x"), d(p)}, {d(p), du(p, "--x")}, {du(p, "--x"), du(p, "--y")}, {du(p, "--x"), d(ls[0])}, {du(p, "--x"), du(ls[n-1], "--y")},
			{du(ls[0], "--y"), du(p, "--x")}, {d(ls[n-1]), du(p, "--x")}, {du(p, "--x"), di(p)}, {dui(p, "--x"), d(p)}, {du(p, "--x"), di(ls[n-1])}, {dui(ls[0], "--y"), du(p, "--x")}, {du(p, "--x"), d("--x")}, {d("--y"), du(p, "--x")},
		}
		rules := []Rule{r("x", d("--x")), r("y", d("--y")), r("xy", d("--x"), du("--y", "--x"))}
		for i, u := range users {
			rules = append(rules, r(fmt.Sprintf("u%d", i), u...))
		}
		rules = append(rules, rc("hover:u", cHover, du(p, "--x")), r("s", d(p)), r("su", du(p, "--y")))
		f := len(rules)
		for i, l := range ls {
			rules = append(rules, r(fmt.Sprintf("l%d", i), d(l)))
		}
		for i, l := range ls {
			rules = append(rules, r(fmt.Sprintf("v%d", i), du(l, "--y")))
		}
		for i, l := range ls {
			rules = append(rules, r(fmt.Sprintf("i%d", i), di(l)))
		}
		s := Compile("variables in "+p, rules)
		e := pool(w, "", k%2 == 0)
		if !e.add(w, s.CSS()) {
			return
		}
		x := newExplorer(s, e, k%2 == 0, 0, "")
		full := 1<<n - 1
		for m := 0; m <= full && !c.Stop(); m++ {
			if n > 4 && c.Quick || n > 8 {
				// none, one, all but one, all, the first ones, the last ones
				rest := full ^ m
				if b := bitsOf(m); b > 1 && b < n-1 && m&(m+1) != 0 && rest&(rest+1) != 0 {
					continue
				}
			}
			for kind := 0; kind < 3; kind++ {
				var t []int
				for i := 0; i < n; i++ {
					if m&(1<<i) != 0 {
						t = append(t, f+kind*n+i)
					}
				}
				for u := 3; u < f; u++ {
					for _, set := range [][]int{{0, 1}, {2}} {
						for _, parts := range [][][]int{{set, {u}, t}, {{u}, t, set}, {set, t, {u}}, {{f - 1}, set, {u}, t}} {
							var l []int
							for _, q := range parts {
								l = append(l, q...)
							}
							if !x.list(w, l) {
								return
							}
						}
					}
				}
				if m == 0 {
					break
				}
			}
		}
		w.State(kit.Hash("variables in", p))
		c.Count("lists of shorthands that use custom properties", x.n)
	})
}
