package mcore

import (
	"fmt"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// snapshot is the text of the loaded rules.
func snapshot(m *merge.Merger) string {
	rules := m.Rules()
	var b strings.Builder
	for _, k := range sortedKeys(rules) {
		r := rules[k]
		fmt.Fprintf(&b, "%q: %s | %s |", k, r.GetCondition(), r.GetSelector())
		for _, d := range r.Declarations {
			b.WriteString(" " + d.Property + ":" + d.Value + ";")
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// ---- C10

// loadOp is a stylesheet with what it defines; "_" in names is replaced by a suffix.
type loadOp struct {
	css, reader string
	inline      bool
	fails       bool
	rules       []Rule // what it defines, in order
}

func loadAlphabet() []loadOp {
	ok := func(rules ...Rule) loadOp { return loadOp{css: sheet(rules), rules: rules} }
	col, opa, mar := d("color"), d("opacity"), d("margin-top")
	return []loadOp{
		ok(r("a_", col), r("b_", col)),
		ok(r("b_", opa), r("c_", col, opa)),
		{css: ".a_,.c_{opacity:1;margin-top:0}", rules: []Rule{r("a_", opa, mar), r("c_", opa, mar)}},
		ok(r("a_", col), r("b_", mar), r("a_", mar)),
		ok(rc("a_", cMd, col), rc("b_", cHover, opa), r("c_")),
		ok(r("a_", di("color")), r("b_", du("color", "--x_")), r("c_", d("--x_"))),
		{css: ".a_{opacity:0}.b_{opacity:0}} .c_{margin-top:0}", fails: true},
		{css: "} .a_{margin-top:0}", fails: true},
		{css: ".a_{opacity:0}.b_{margin-top:0}", reader: "fail=17", fails: true},
		{css: ".a_{opacity:0}.b_{margin-top:0}", reader: "fail=0", fails: true},
		{css: ""},
		{css: "color:red;opacity:1", inline: true},
		{css: "/* .a_{margin-top:0} */ @font-face{src:x} .zz_ p:unknown{margin-top:0}"},
	}
}

func checkLoads(c *kit.C) {
	c.Assume("the reference is a map from class to the rule defined last",
		"bounds: histories of loads of thirteen kinds on two mergers up to the given length, with merges after each load; all ways to split the enumerated stylesheets")
	loadHistories(c)
	splittings(c)
	redefinitions(c)
	redefinedProducts(c)
	manyClasses(c)
	hugeFamily(c, "loads", "classes")
}

func loadHistories(c *kit.C) {
	depth := 3
	if !c.Quick {
		depth = 4
	}
	ops := loadAlphabet()
	type step struct{ op, m int }
	var steps []step
	for i := range ops {
		steps = append(steps, step{i, 0})
	}
	for _, i := range []int{0, 1, 6} {
		steps = append(steps, step{i, 1})
	}
	probes := []string{"a_ b_ c_", "c_ b_ a_", "b_ a_ c_", "a_ c_ b_"}
	c.Extra("history length", depth)
	c.Extra("history alphabet", len(steps))
	c.Parallel(len(steps)*len(steps), func(w *kit.W, ji int) {
		var envs [2]*env
		cache := []string{"", "simple"}[ji%2]
		n := 0
		reset := func() {
			envs[0], envs[1] = newEnv(w, cache, true), newEnv(w, cache, true)
			n = 0
		}
		reset()
		// the ops of both mergers in one script
		var script []kit.Op
		log := func(op kit.Op, m int) {
			op.M = m
			script = append(script, op)
		}
		start := func() {
			script = nil
			for i := 0; i < 2; i++ {
				log(kit.Op{Kind: "new", KeepSort: true, Cache: cache}, i)
			}
		}
		fail := func(msg string, op kit.Op, m int) bool {
			op.M = m
			w.C.Violation("history: "+msg, kit.Script{Ops: append(append([]kit.Op{}, script...), op)})
			return false
		}
		var cnt int64
		scenarios := map[string]*Scenario{}
		run := func(h []step) bool {
			n++
			if n > 60 {
				reset()
			}
			start()
			suffix := fmt.Sprintf("%d", n)
			last := [2]map[string]int{{}, {}} // class -> index into all
			var all [2][]Rule
			for si, s := range h {
				op := ops[s.op]
				css := strings.ReplaceAll(op.css, "_", suffix)
				e := envs[s.m]
				before := ""
				if op.fails && si == len(h)-1 {
					before = snapshot(e.m)
				}
				err, msg := e.load(w, css, op.inline, op.reader)
				kop := kit.Op{Kind: "addok", CSS: css, Inline: op.inline, Reader: op.reader}
				if op.fails {
					kop.Kind = "adderr"
				}
				if msg != "" || (err != nil) != op.fails {
					return fail(fmt.Sprintf("load %q: error %v, expected: %v; %s", css, err, op.fails, msg), kop, s.m)
				}
				if before != "" {
					if after := snapshot(e.m); after != before {
						log(kop, s.m)
						return fail("a failing load changes the rules", kit.Op{Kind: "snapshot", Want: &before}, s.m)
					}
				}
				log(kop, s.m)
				e.ops = e.ops[:1]
				if !op.fails {
					for _, x := range op.rules {
						last[s.m][x.Class] = len(all[s.m])
						all[s.m] = append(all[s.m], x)
					}
				}
				if si < len(h)-2 {
					continue // seen in the shorter histories; merging in between matters only for caches
				}
				// compare both mergers with the model
				for m := 0; m < 2; m++ {
					key := ""
					var eff []Rule
					var known, unknown []string
					for _, cl := range []string{"a_", "b_", "c_"} {
						if i, ok := last[m][cl]; ok {
							eff = append(eff, all[m][i])
							key += all[m][i].CSS()
							known = append(known, cl)
						} else {
							unknown = append(unknown, cl)
						}
					}
					s, ok := scenarios[key]
					if !ok {
						s = Compile("loads", eff, unknown...)
						s.buildIndex()
						scenarios[key] = s
					}
					w.State(kit.Hash(fmt.Sprint(m), key))
					for _, k := range []string{"a_", "b_", "c_", "zz_"} {
						_, in := envs[m].m.Rules()[strings.ReplaceAll(k, "_", suffix)]
						if in != contains(known, k) {
							op := kit.Op{Kind: "rules"}
							for _, x := range known {
								op.Args = append(op.Args, strings.ReplaceAll(x, "_", suffix))
							}
							return fail(fmt.Sprintf("rule of %s: %v, expected %v", k, in, !in), op, m)
						}
					}
					for _, p := range probes {
						list := strings.ReplaceAll(p, "_", suffix)
						out, msg := envs[m].merge(w, list)
						st := s.NewState()
						for _, t := range strings.Fields(p) {
							s.Append(st, s.byName[t])
						}
						v := make([]byte, len(s.Names))
						s.Verdict(st, v)
						kop := kit.Op{Kind: "merge", List: list, KeepSort: true}
						for i, nm := range s.Names {
							nm = strings.ReplaceAll(nm, "_", suffix)
							if v[i] == Must {
								kop.Must = append(kop.Must, nm)
							} else if v[i] == Drop {
								kop.Drop = append(kop.Drop, nm)
							}
						}
						if msg == "" {
							toks := " " + out + " "
							for _, t := range kop.Must {
								if !strings.Contains(toks, " "+t+" ") {
									msg = fmt.Sprintf("%q -> %q lost %q", list, out, t)
								}
							}
							for _, t := range kop.Drop {
								if strings.Contains(toks, " "+t+" ") {
									msg = fmt.Sprintf("%q -> %q kept %q", list, out, t)
								}
							}
						}
						if msg != "" {
							return fail(msg, kop, m)
						}
						log(kop, m)
					}
				}
			}
			cnt++
			w.Trans += int64(len(h))
			return true
		}
		var h []step
		var rec func() bool
		rec = func() bool {
			if !run(h) {
				return false
			}
			if len(h) == depth {
				return !c.Stop()
			}
			for _, s := range steps {
				h = append(h, s)
				ok := rec()
				h = h[:len(h)-1]
				if !ok {
					return false
				}
			}
			return true
		}
		h = []step{steps[ji/len(steps)]}
		if ji%len(steps) == 0 && !run(h) {
			return
		}
		h = append(h, steps[ji%len(steps)])
		rec()
		c.Count("histories", cnt)
	})
}

// splittings: a stylesheet loaded in parts, cut in all ways between its rules.
func splittings(c *kit.C) {
	sheets := [][]string{
		{".a{color:red}", ".b{color:red;opacity:1}", ".a{opacity:1}", "@media print{.c{color:red}}", ".b,.d{margin:0}", ".d:hover{margin:0}", ".e{--x:1}", ".c{color:var(--x)}", ".f{margin:0!important}", ".a.f{padding:0}"},
		{"/* x */", ".a{color:red}", "@font-face{src:x}", ".b{color:red}", "@layer x{.a{margin:0}}", ".c{color:red}.a{opacity:1}", ".zz:unknown{x:y}", ".d{opacity:1}", "@import 'x';", ".d{color:red}"},
		{"@supports (display:grid){.a{color:red}}", ".b{color:red}", "@media print{@supports (display:grid){.a{opacity:1}.b{color:red}}}", ".c>p{color:red}", ".a>p{color:red}", ".d::before{color:red}", ".a::before{color:red}.c{opacity:1}", ".b::before{color:red}", ".c::before{color:red}", ".e{}"},
	}
	names := []string{"a", "b", "c", "d", "e", "f"}
	var lists []string
	for _, p := range names {
		for _, q := range names {
			lists = append(lists, p+" "+q)
			for _, s := range names {
				if p != q && q != s && p != s {
					lists = append(lists, p+" "+q+" "+s)
				}
			}
		}
	}
	c.Parallel(len(sheets)*16, func(w *kit.W, ji int) {
		parts := sheets[ji/16]
		whole := newEnv(w, "", true)
		if !whole.add(w, strings.Join(parts, "\n")) {
			return
		}
		want := snapshot(whole.m)
		res := make([]string, len(lists))
		for i, l := range lists {
			res[i], _ = whole.merge(w, l)
		}
		cuts := 1 << (len(parts) - 1)
		for m := ji % 16; m < cuts; m += 16 {
			if c.Stop() {
				return
			}
			if c.Quick && m%3 != 0 && m > 40 {
				continue
			}
			e := newEnv(w, []string{"", "simple"}[m/16%2], true)
			cur := ""
			for i, p := range parts {
				cur += p
				if i == len(parts)-1 || m&(1<<i) != 0 {
					if !e.add(w, cur) {
						return
					}
					// merging in between must not matter
					if _, msg := e.merge(w, "a b c d"); msg != "" {
						c.Violation(msg, kit.Script{Ops: append(e.ops, kit.Op{Kind: "merge", List: "a b c d"})})
						return
					}
					e.ops = append(e.ops, kit.Op{Kind: "merge", List: "a b c d"})
					cur = ""
				} else {
					cur += "\n"
				}
			}
			if got := snapshot(e.m); got != want {
				c.Violation("a split stylesheet loads differently:\n"+got+"instead of\n"+want, kit.Script{Ops: append(e.ops, kit.Op{Kind: "snapshot", Want: &want})})
				return
			}
			for i, l := range lists {
				if !e.expect(w, "split stylesheet", l, res[i]) {
					return
				}
			}
			w.Trans++
			w.State(kit.Hash("split", fmt.Sprint(ji/16, m)))
		}
	})
}

// redefinitions: all sequences of definitions of one class, cut into loads in all ways; the last one counts.
func redefinitions(c *kit.C) {
	defs := []Rule{r("a", d("color")), r("a", d("opacity")), r("a", d("color"), di("opacity")), rc("a", cHover, d("color")), rc("a", cMd, d("opacity")), r("a"), rc("a", Ctx{ID: "|lst", Sel: "%.k"}, d("color"))}
	others := []Rule{r("b", d("color")), r("b2", d("opacity")), rc("b3", cHover, d("color")), rc("b4", cMd, d("opacity")), rc("b5", Ctx{ID: "|lst", Sel: "%.k"}, d("color"))}
	n := 3
	if !c.Quick {
		n = 4
	}
	c.Parallel(len(defs)*len(defs), func(w *kit.W, ji int) {
		e := newEnv(w, "", true)
		if !e.add(w, sheet(others)) {
			return
		}
		base := len(e.ops)
		var rec func(seq []int) bool
		run := func(seq []int) bool {
			for cut := 0; cut < 1<<(len(seq)-1); cut++ {
				e.ops = e.ops[:base]
				cur := ""
				for i, x := range seq {
					cur += defs[x].CSS()
					if i == len(seq)-1 || cut&(1<<i) != 0 {
						if !e.add(w, cur) {
							return false
						}
						cur = ""
					}
				}
				eff := defs[seq[len(seq)-1]]
				for _, o := range others {
					for _, list := range []string{"a " + o.Class, o.Class + " a"} {
						s := Compile("redefinition", []Rule{eff, o})
						x := newExplorer(s, e, true, 0, "")
						l := []int{0, 1}
						if list[0] == 'b' {
							l = []int{1, 0}
						}
						if !x.list(w, l) {
							return false
						}
					}
				}
			}
			return true
		}
		rec = func(seq []int) bool {
			if !run(seq) {
				return false
			}
			if len(seq) == n {
				return !c.Stop()
			}
			for x := range defs {
				if !rec(append(append([]int{}, seq...), x)) {
					return false
				}
			}
			return true
		}
		rec([]int{ji / len(defs), ji % len(defs)})
	})
}

// redefinedProducts: every rule of one or two declarations (shorthand, longhand, other styles, custom properties, important
// or not, with references or not, also under another condition) replaced by every other one, within a stylesheet or by a
// later one: the class must behave like another class that has only ever had the second rule.
func redefinedProducts(c *kit.C) {
	rules, n := productRules()
	all := sheet(rules)
	c.Parallel(len(rules), func(w *kit.W, i int) {
		e := newEnv(w, []string{"", "simple"}[i%2], true)
		if !e.add(w, all) {
			return
		}
		base := len(e.ops)
		first := rules[i]
		first.Class = "q"
		var cnt int64
		for j := range rules {
			second := rules[j]
			second.Class = "q"
			e.ops = e.ops[:base]
			if (i+j)%3 == 0 {
				if !e.add(w, first.CSS()+second.CSS()) {
					return
				}
			} else if !e.add(w, first.CSS()) || !e.add(w, second.CSS()) {
				return
			}
			for k := 0; k < 2*n; k++ {
				if c.Quick && (i+j+k)%11 != 0 {
					continue
				}
				a := rules[k].Class
				for _, l := range []string{"q " + a, a + " q"} {
					same := strings.Replace(l, "q", rules[j].Class, 1)
					if rules[j].Class == a {
						continue
					}
					out, msg := e.merge(w, same)
					if msg != "" {
						return // C03
					}
					var want []string
					for _, t := range splitList(out) {
						if t == rules[j].Class {
							t = "q"
						}
						want = append(want, t)
					}
					if !e.expect(w, "redefined", l, strings.Join(want, " ")) {
						return
					}
					cnt++
				}
			}
			w.State(kit.Hash("redefined", rules[i].Class, rules[j].Class))
			if c.Stop() {
				return
			}
		}
		w.Trans += cnt
		c.Count("redefined products: lists", cnt)
	})
}
