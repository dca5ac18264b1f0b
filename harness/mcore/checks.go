package mcore

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// Checks are the checks at the level of the merger.
var Checks = map[string]func(*kit.C){
	"C01": func(c *kit.C) {
		general(c, KMissing)
		derivedProps(c)
	},
	"C02": func(c *kit.C) {
		general(c, KExtra)
		valueFamily(c, valueProps, true)
	},
	"C03": checkShape,
	"C04": checkContexts,
	"C05": checkImportant,
	"C06": checkVariables,
	"C07": checkShorthands,
	"C09": checkCache,
	"C10": checkLoads,
	"C13": checkTotal,
	"C14": checkLocality,
	"C15": checkFormatting,
	"C16": checkUnsupported,
	"C17": checkNames,
	"C21": checkReadBack,
	"C22": checkSteps,
	"C24": checkCacheUse,
}

// Replay runs a script.
func Replay(w *kit.W, s kit.Script) error {
	var envs []*env
	for i, op := range s.Ops {
		if op.Kind == "new" {
			envs = append(envs, newEnv(w, op.Cache, op.KeepSort))
			continue
		}
		if op.M >= len(envs) {
			return fmt.Errorf("op %d: no such merger", i)
		}
		e := envs[op.M]
		switch op.Kind {
		case "add", "addok", "adderr":
			err := e.m.AddRules(makeReader(op.CSS, op.Reader), op.Inline)
			if op.Kind == "addok" && err != nil {
				return fmt.Errorf("op %d: loading fails: %v", i, err)
			}
			if op.Kind == "adderr" && err == nil {
				return fmt.Errorf("op %d: loading does not fail", i)
			}
		case "nested":
			e.m.AddRules(strings.NewReader(op.NestedText()), op.Inline)
		case "rules":
			var want []string
			for _, k := range op.Args {
				want = append(want, k)
			}
			got := sortedKeys(e.m.Rules())
			if strings.Join(got, " ") != strings.Join(want, " ") {
				return fmt.Errorf("op %d: there are rules for %q, want %q", i, got, want)
			}
		case "readback":
			var want map[string]wrule
			if err := json.Unmarshal([]byte(op.Text), &want); err != nil {
				return err
			}
			if msg := readBack(e.m, newEnv(w, "", true).m, len(e.m.Rules()), op.Args, want); msg != "" {
				return fmt.Errorf("op %d: %s", i, msg)
			}
		case "steps":
			whole, out := e.m.Merge(op.Text), e.m.Merge(op.List)
			if whole != out {
				return fmt.Errorf("op %d: merge %q = %q, but merge %q = %q", i, op.Text, whole, op.List, out)
			}
		case "lists":
			if msg := listsWith(op.Ints[0], op.Text, func(l string) (string, string) { return e.m.Merge(l), "" }, func() bool { return false }); msg != "" {
				return fmt.Errorf("op %d: %s", i, msg)
			}
		case "cacheuse":
			if msg := replayCacheUse(op.Cache, op.KeepSort, op.Text); msg != "" {
				return fmt.Errorf("op %d: %s", i, msg)
			}
		case "memory":
			if msg := memoryCase(e.m, newEnv(w, "", true).m, op.CSS, op.Ints, op.Reader, op.Inline); msg != "" {
				return fmt.Errorf("op %d: %s", i, msg)
			}
		case "huge":
			if msg, _ := runHuge(op, func() bool { return false }, func() {}); msg != "" {
				return fmt.Errorf("op %d: %s", i, msg)
			}
		case "tailwind":
			if msg := compareTailwind(op.Text); msg != "" {
				return fmt.Errorf("op %d: %s", i, msg)
			}
		case "snapshot":
			if got := snapshot(e.m); got != *op.Want {
				return fmt.Errorf("op %d: the rules are\n%s\nwant\n%s", i, got, *op.Want)
			}
		case "merge":
			out := e.m.Merge(op.List)
			if op.Want != nil && out != *op.Want {
				return fmt.Errorf("op %d: merge %q = %q, want %q", i, op.List, out, *op.Want)
			}
			toks := splitList(out)
			in := splitList(op.List)
			if len(in) < 2 && out != op.List {
				return fmt.Errorf("op %d: merge %q = %q, want it unchanged", i, op.List, out)
			}
			pos := map[string]int{}
			for j, t := range in {
				pos[t] = j
			}
			seen := map[string]bool{}
			prev := -1
			for _, t := range toks {
				p, ok := pos[t]
				if !ok || seen[t] && len(in) > 1 {
					return fmt.Errorf("op %d: merge %q = %q: %q is foreign or repeated", i, op.List, out, t)
				}
				seen[t] = true
				if op.KeepSort && p < prev {
					return fmt.Errorf("op %d: merge %q = %q is not in order", i, op.List, out)
				}
				prev = p
			}
			for _, t := range op.Must {
				if !seen[t] {
					return fmt.Errorf("op %d: merge %q = %q lost %q", i, op.List, out, t)
				}
			}
			for _, t := range op.Drop {
				if seen[t] {
					return fmt.Errorf("op %d: merge %q = %q kept %q", i, op.List, out, t)
				}
			}
		}
	}
	return nil
}

// ---- C03

func checkShape(c *kit.C) {
	general(c, KShape+" "+KPanic)
	shapeStrings(c)
	unknownFamily(c)
	derivedNames(c)
	noRules(c)
}

// shapeStrings: all strings over an alphabet of bytes, on a merger that knows the classes a and b and aa.
func shapeStrings(c *kit.C) {
	c.Assume("classes are separated by the white space of HTML, which is space, tab, line feed, form feed and carriage return; all other characters are part of names")
	alphabet := []string{"a", "b", " ", "\t", "\n", "é", "\xff", ".", "\u00a0", "\v", "\r", "\f", "\u2028", "\x00"}
	n := 5
	if !c.Quick {
		n = 7
	}
	rules := []Rule{r("a", d("color")), r("b", d("color"), d("opacity")), r("aa", d("opacity")), r("e"), r(".", d("color")), r("é", d("color"))}
	c.Parallel(len(alphabet)*len(alphabet)*2, func(w *kit.W, i int) {
		ks := i%2 == 0
		i /= 2
		s := Compile("strings", rules)
		e := pool(w, "", ks)
		if !e.add(w, s.CSS()) {
			return
		}
		last := map[string]Rule{}
		for _, x := range rules {
			last[x.Class] = x
		}
		var cnt int64
		var rec func(str string, k int) bool
		rec = func(str string, k int) bool {
			if !checkString(w, e, last, str, ks) {
				return false
			}
			cnt++
			if k == 0 {
				return !c.Stop()
			}
			for _, a := range alphabet {
				w.Trans++
				if !rec(str+a, k-1) {
					return false
				}
			}
			return true
		}
		if i == 0 {
			for _, x := range append([]string{""}, alphabet...) {
				if !checkString(w, e, last, x, ks) {
					return
				}
				cnt++
			}
		}
		w.Trans++
		rec(alphabet[i/len(alphabet)]+alphabet[i%len(alphabet)], n-2)
		c.Count("strings", cnt)
	})
}

// checkString compares the merge of an arbitrary string with the model.
func checkString(w *kit.W, e *env, last map[string]Rule, str string, ks bool) bool {
	out, msg := e.merge(w, str)
	kind := KPanic
	toks := splitList(str)
	op := kit.Op{Kind: "merge", List: str, KeepSort: ks}
	if msg == "" {
		if len(toks) < 2 {
			if out != str {
				kind, msg = KShape, fmt.Sprintf("a single class %q became %q", str, out)
				op.Want = &str
			}
		} else {
			var rules []Rule
			var unknown []string
			seen := map[string]bool{}
			for _, t := range toks {
				if seen[t] {
					continue
				}
				seen[t] = true
				if x, ok := last[t]; ok {
					rules = append(rules, x)
				} else {
					unknown = append(unknown, t)
				}
			}
			s := Compile("string", rules, unknown...)
			s.buildIndex()
			st := s.NewState()
			for _, t := range toks {
				s.Append(st, s.byName[t])
			}
			if st.n == 1 {
				st.n = 2 // it is a list, not a single class
			}
			v := make([]byte, len(s.Names))
			s.Verdict(st, v)
			w.State(st.hash(kit.Hash(strings.Join(s.Names, " "))))
			kind, msg = s.checkOut(str, out, st, v, ks)
			for i, n := range s.Names {
				if v[i] == Must {
					op.Must = append(op.Must, n)
				} else if v[i] == Drop {
					op.Drop = append(op.Drop, n)
				}
			}
		}
	}
	if msg != "" {
		_ = kind
		w.C.Violation("strings: "+msg, kit.Script{Ops: append(append([]kit.Op{}, e.ops...), op)})
		return false
	}
	return true
}

// unknownFamily: unknown classes that look like known ones, and long lists of unknown classes with repetitions.
func unknownFamily(c *kit.C) {
	rules := []Rule{r("p-1", d("padding")), r("p-2", d("padding")), rc("hover:p-1", cHover, d("padding")), r("w-1/2", d("width")), r("none"), rc("grp", cChild, d("color"))}
	unknown := []string{"p-", "p-11", "P-1", "p-1.", ".p-1", "hover:p-2", "p", "-p-1", "p-1!", "group", "hidden", "w-1", "padding", "color:red", "0", "-", "\\", "p-1\\"}
	s := Compile("lookalikes", rules, unknown...)
	depth := 3
	if !c.Quick {
		depth = 4
	}
	exploreAll(c, "lookalikes", []*Scenario{s}, depth, "", []string{""}, bothSorts)
	// long lists with repetitions: class i at positions i, and again at the end in every rotation
	var many []string
	for i := 0; i < 70; i++ {
		many = append(many, fmt.Sprintf("u%02d", (i*37)%70))
	}
	l := Compile("many-unknown", rules, many...)
	exploreLists(c, "many unknown", []*Scenario{l}, func(s *Scenario, yield func([]int) bool) {
		n := len(s.Names)
		for size := 1; size <= n; size++ {
			for rot := 0; rot < n; rot += 5 {
				var x []int
				for i := 0; i < size; i++ {
					x = append(x, (i+rot)%n)
				}
				if !yield(x) || !yield(append(x, x[:len(x)/2]...)) || !yield(append(x[len(x)/2:], x...)) {
					return
				}
			}
		}
	}, "", bothSorts)
}

// ---- C04

func checkContexts(c *kit.C) {
	c.Assume("two selector contexts count as the same only if they are equal after sorting pseudo-classes; contexts that are equivalent in other ways are not compared",
		"bounds: the enumerated contexts, pairs of them, and lists of up to three (thorough: four) classes over a selection")
	sels := selectorContexts()
	ats := atContexts()
	var ctxs []Ctx
	for _, s := range sels {
		ctxs = append(ctxs, withAt(s, nil))
	}
	nPlain := len(ctxs)
	for _, at := range ats[1:] {
		for i, s := range sels {
			if c.Quick && i%7 != 0 && i != 1 && s.ID != ":hover" {
				continue
			}
			ctxs = append(ctxs, withAt(s, at))
		}
	}
	c.Extra("conditions", len(ctxs))
	c.Extra("selector conditions", nPlain)
	// one merger for all pairs: class a_i and b_i set the same style under condition i
	decls := [][]Decl{{d("color")}, {d("padding"), di("opacity")}}
	for k, ds := range decls {
		if k > 0 && c.Quick {
			break
		}
		pairs(c, ctxs, ds, nPlain)
	}
	conditionFamily(c)
	ctxTriples(c, "")
	tailwindFamily(c, "", conditional)
	markerFamily(c)
	deepConditions(c)
	hugeFamily(c, "conditions", "spread conditions")
}

// pairs compares all pairs of conditions directly with the definition: b overrides a iff they are the same.
func pairs(c *kit.C, ctxs []Ctx, ds []Decl, nPlain int) {
	ids := map[string]int{}
	id := make([]int, len(ctxs))
	var rules []Rule
	for i, x := range ctxs {
		if _, ok := ids[x.ID]; !ok {
			ids[x.ID] = len(ids)
		}
		id[i] = ids[x.ID]
		rules = append(rules, rc(fmt.Sprintf("a:%d", i), x, ds...), rc(fmt.Sprintf("b:%d", i), x, ds...))
	}
	css := sheet(rules)
	chunk := (len(ctxs) + 31) / 32
	c.Parallel(32, func(w *kit.W, job int) {
		e := pool(w, "", true)
		if !e.add(w, css) {
			return
		}
		// the classes have to be known under their names
		var n, same int64
		for i := job * chunk; i < (job+1)*chunk && i < len(ctxs); i++ {
			if c.Stop() {
				return
			}
			for j := range ctxs {
				// all pairs within the plain conditions; with at-rules, those that share the at-rule or the selector, or all if thorough
				if c.Quick && i >= nPlain && j >= nPlain && ctxs[i].Sel != ctxs[j].Sel && strings.Join(ctxs[i].At, "") != strings.Join(ctxs[j].At, "") && (i+j)%5 != 0 {
					continue
				}
				list := fmt.Sprintf("a:%d b:%d", i, j)
				out, msg := e.merge(w, list)
				n++
				w.Trans++
				op := kit.Op{Kind: "merge", List: list, KeepSort: true, Must: []string{fmt.Sprintf("b:%d", j)}}
				want := list
				if id[i] == id[j] {
					same++
					want = op.Must[0]
					op.Drop = []string{fmt.Sprintf("a:%d", i)}
				} else {
					op.Must = append(op.Must, fmt.Sprintf("a:%d", i))
				}
				if msg == "" && out != want {
					msg = fmt.Sprintf("conditions %q and %q: %q -> %q, want %q", ctxs[i].At, ctxs[j].At, rules[2*i].Selector()+" / "+rules[2*j+1].Selector(), out, want)
				}
				if msg != "" {
					// a smaller script
					ops := []kit.Op{{Kind: "new", KeepSort: true}, {Kind: "add", CSS: rules[2*i].CSS() + "\n" + rules[2*j+1].CSS()}, op}
					c.Violation(msg, kit.Script{Ops: ops})
					return
				}
				if (n*7919)%60013 == 5 {
					c.Sample("%s %s -> %q", rules[2*i].CSS(), rules[2*j+1].CSS(), out)
				}
			}
			w.State(kit.Hash("ctx", ctxs[i].ID))
		}
		c.Count("pairs of conditions", n)
		c.Count("pairs of equal conditions", same)
	})
}

// markerFamily: the classes that appear in the selectors of other classes are in the list, too.
func markerFamily(c *kit.C) {
	var scns []*Scenario
	for _, sel := range []string{".gg %", ".gg:hover %", "%.gg", ".gg > %", "% .gg", ":is(.gg %)", "%:is(.gg *)", ".gg ~ %:hover"} {
		ctx := Ctx{ID: "|" + sel, Sel: sel}
		// the marker's rule is the one defined last: it applies in the context that is left when the marker is taken out
		rules := []Rule{
			rc("a1", ctx, d("color")), rc("a2", ctx, d("color"), d("opacity")), r("c", d("color")),
			{Class: "gg", Ctx: Ctx{ID: "marker of " + sel}, Decls: []Decl{d("color"), d("opacity")}},
		}
		s := Compile("marker "+sel, rules, "unknown")
		var css []Rule
		for _, x := range rules {
			if x.Class == "a2" {
				continue
			}
			if x.Class != "gg" {
				css = append(css, x)
			}
		}
		css = append(css, rules[1])
		s.Sheet = sheet(css)
		scns = append(scns, s)
	}
	exploreAll(c, "marker classes", scns, 4, "", []string{""}, bothSorts)
}

// ---- C05

func checkImportant(c *kit.C) {
	c.Assume("bounds: two styles with every importance under two conditions, lists up to the given length; every listed spelling")
	d1, d2 := 4, 4
	if !c.Quick {
		d1, d2 = 5, 5
	}
	exploreAll(c, "important", []*Scenario{importantScenario()}, d1, "", []string{""}, bothSorts)
	exploreAll(c, "important shorthands", []*Scenario{importantShorthandScenario()}, d2, "", []string{""}, []bool{true})
	exploreAll(c, "templates", []*Scenario{templateScenario()}, 2, "", []string{""}, []bool{true})
	// importance under every condition
	var scns []*Scenario
	for i, x := range append(selectorContexts(), withAt(noCtx, atContexts()[1]), withAt(cHover, atContexts()[len(atContexts())-1])) {
		scns = append(scns, Compile(fmt.Sprintf("important under %s %d", x.Sel, i), []Rule{rc("i", x, di("color")), rc("n", x, d("color")), rc("j", x, d("opacity"), di("color")), r("p", d("color"))}))
	}
	batch(c, "important under conditions", scns, 3)
	spellings(c)
	multiImportant(c)
	exploreAll(c, "important custom properties", []*Scenario{customImportant()}, d1, "", []string{""}, bothSorts)
	overriders(c, "")
	product(c, "")
	tailwindFamily(c, "", setsImportant)
}

// multiImportant: rules with k declarations, one of them important, at every place; overridden one by one.
func multiImportant(c *kit.C) {
	var scns []*Scenario
	for k := 1; k <= 6; k++ {
		for m := 0; m < 1<<k; m++ {
			var ds []Decl
			var rules []Rule
			for i := 0; i < k; i++ {
				ds = append(ds, Decl{Prop: fmt.Sprintf("prop-%d", i), Imp: m&(1<<i) != 0})
			}
			rules = append(rules, r("a", ds...))
			var all []Decl
			for i := 0; i < k; i++ {
				rules = append(rules, r(fmt.Sprintf("o%d", i), d(fmt.Sprintf("prop-%d", i))))
				all = append(all, d(fmt.Sprintf("prop-%d", i)))
			}
			rules = append(rules, r("all", all...))
			scns = append(scns, Compile(fmt.Sprintf("multi %d %b", k, m), rules))
		}
	}
	batch(c, "one important among many", scns, 2)
}

// spellings of !important and of things that are not.
func spellings(c *kit.C) {
	yes := []string{"red!important", "red !important", "red  !important", "red ! important", "red !  important", "red !IMPORTANT", "red !Important", "red !ImPoRtAnT", "red\t!important",
		"red !\timportant", "red !\nimportant", "red\n!important\n", "red !important ", "var(--q)!important", "\"x\"!important", "url(x)!important", "calc(1px + 2px)!important",
		"1px 2px !important", "#fff!important", "red/**/!important", "red !important/**/", "\"!important\" !important", "a,b!important", "50%!important", "0!important"}
	no := []string{"red", "\"!important\"", "\"x !important\"", "'!important'", "\"a\" \"!important\"", "url(\"!important\")", "important", "\"red!important\"", "var(--important)", "\"!IMPORTANT \"", "\"\\\"!important\"",
		"url(x!important)"}
	type sp struct {
		val string
		imp bool
	}
	var all []sp
	for _, y := range yes {
		all = append(all, sp{y, true})
	}
	for _, n := range no {
		all = append(all, sp{n, false})
	}
	var scns []*Scenario
	for _, v := range all {
		for _, p := range []string{"color", "content", "unknown-prop", "padding"} {
			for form := 0; form < 3; form++ {
				decl := Decl{Prop: p, Imp: v.imp, Val: v.val}
				ds := []Decl{decl}
				switch form {
				case 1:
					ds = append(ds, d("opacity"))
				case 2:
					ds = append([]Decl{d("opacity")}, decl)
				}
				rules := []Rule{r("s", ds...), r("n", d(p)), r("o", d("opacity"))}
				s := Compile(fmt.Sprintf("spelling %s:%s/%d", p, v.val, form), rules)
				end := ";"
				if form == 2 {
					end = ""
				}
				css := ".s{"
				for i, x := range ds {
					val := x.Val
					if val == "" {
						val = "v"
					}
					css += x.Prop + ":" + val
					if i < len(ds)-1 {
						css += ";"
					}
				}
				s.Sheet = css + end + "}\n" + sheet(rules[1:])
				scns = append(scns, s)
			}
		}
	}
	batch(c, "spellings", scns, 3)
}

// batch explores many small scenarios on shared mergers: the class names get a suffix per scenario.
func batch(c *kit.C, family string, scns []*Scenario, depth int) {
	batchWith(c, family, scns, func(w *kit.W, e *env, s *Scenario) bool {
		x := newExplorer(s, e, true, depth, "")
		ok := x.run(w, 0)
		c.Count(family+" lists", x.n)
		return ok
	})
}

func batchWith(c *kit.C, family string, scns []*Scenario, f func(w *kit.W, e *env, s *Scenario) bool) {
	const size = 64
	n := (len(scns) + size - 1) / size
	if n < 8 {
		n = 8
	}
	c.Parallel(n, func(w *kit.W, job int) {
		e := pool(w, "", true)
		for i := job; i < len(scns); i += n {
			if c.Stop() {
				return
			}
			s := scns[i].renamed(fmt.Sprintf("_%d", i))
			if len(e.ops) > 200 {
				e = pool(w, "", true)
			}
			if !e.add(w, s.Sheet) || !f(w, e, s) {
				return
			}
			c.Count(family+" scenarios", 1)
		}
	})
}

// renamed is the scenario with a suffix at all class names.
func (s *Scenario) renamed(suffix string) *Scenario {
	t := *s
	t.Names = nil
	for _, nm := range s.Names {
		t.Names = append(t.Names, nm+suffix)
	}
	t.Sheet = renameClasses(s.CSS(), s.Names, suffix)
	return &t
}

// renameClasses appends a suffix to the class selectors of a stylesheet.
func renameClasses(css string, names []string, suffix string) string {
	var b strings.Builder
	for i := 0; i < len(css); {
		best := ""
		if css[i] == '.' && (i == 0 || css[i-1] != '\\') {
			for _, n := range names {
				e := "." + escapeClass(n)
				if strings.HasPrefix(css[i:], e) && len(e) > len(best) {
					rest := css[i+len(e):]
					if rest == "" || !isNameChar(rest[0]) {
						best = e
					}
				}
			}
		}
		if best != "" {
			b.WriteString(best + suffix)
			i += len(best)
			continue
		}
		b.WriteByte(css[i])
		i++
	}
	return b.String()
}

func isNameChar(c byte) bool {
	return c == '\\' || c == '-' || c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}
