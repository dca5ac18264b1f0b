package mcore

import (
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C08

// OrderScenario is a scenario for the exploration of iteration orders.
type OrderScenario struct {
	Name, CSS string
	Names     []string
	Depth     int
	Lists     []string
}

// OrderScenarios are the scenarios for the exploration of iteration orders.
func OrderScenarios(quick bool) []OrderScenario {
	mk := func(s *Scenario, d, dt int, lists ...string) OrderScenario {
		if !quick {
			d = dt
		}
		return OrderScenario{s.Name, s.CSS(), s.Names, d, lists}
	}
	pick := Compile("variables and importance", []Rule{
		r("x", d("--x")), r("xy", du("--x", "--y")), r("yz", du("--y", "--z")), r("z", d("--z")), r("zx", du("--z", "--x")),
		r("use-x", du("color", "--x"), d("margin")), r("use-y!", Decl{Prop: "color", Imp: true, Uses: []string{"--y"}}), r("c", d("color"), d("opacity")), rc("h", cHover, du("color", "--z"), d("--x")),
		r("m!", di("margin-top"), d("color")),
	}, "unknown", "other")
	chain := ""
	var rules []Rule
	for i := 0; i < 7; i++ {
		rules = append(rules, r(fmt.Sprintf("v%d", i), du(fmt.Sprintf("--v%d", i), fmt.Sprintf("--v%d", i+1))))
		chain += fmt.Sprintf("v%d ", i)
	}
	rules = append(rules, r("u", du("color", "--v0")), r("w", d("color")), r("m", du("margin", "--v3")))
	chains := Compile("chain of variables", rules, "unknown")
	return []OrderScenario{
		mk(templateScenario(), 2, 3, "m-1 text-b op space-x-1 shadow ring ring-c ring-u", "ring-u ring-c ring shadow btn hover:text-b hover:op md:op m-2", "shadow ring-u ring-c text-! hover:text-! grow-! text-b op-2 before:c"),
		mk(pick, 3, 4, "x xy yz z use-x use-y!", "z yz xy x use-y! c h m!", "m! use-y! xy yz zx h use-x", "x xy yz z zx use-x use-y! c h m! unknown other"),
		mk(importantScenario(), 3, 3, "n8 n5 hover:n8 hover:n4 n3", "n4 n8 n7 hover:n1 hover:n8 n2"),
		mk(overlapScenario(), 4, 5, "s7 s1 s2 s3 s4 empty unknown", "s1 s2 s4 s7 unknown"),
		mk(variableScenario(), 3, 3, "x y xy yx use-x use-y", "xy yx both self mix use-xy mixed-use hover:x hover:use-x x!"),
		mk(chains, 2, 2, chain+"u", "u "+chain, chain+"m", chain+"u w", "m u "+chain+"unknown", "v6 v5 v4 v3 v2 v1 v0 u", "v3 v1 v0 v2 u m"),
	}
}

// Repeat: merging again gives the same, whatever happened in between, and merging changes nothing.
func Repeat(c *kit.C) {
	repeatHistories(c)
	againstFresh(c)
	idempotence(c)
	hugeFamily(c, "merges")
}

// repeatHistories: all sequences of merges over a set of lists, with and without a cache.
func repeatHistories(c *kit.C) {
	s := templateScenario()
	lists := []string{"m-1 m-2", "m-2 m-1", "text-a text-b op", "text-b op text-a", "op text-b", "text-! text-a btn", "shadow ring ring-u ring-c", "m-1 mx-1 mt-1", "btn bg hover:op hover:text-b", "unknown btn-x unknown", "m-1", "mt-1  m-1 "}
	depth := 4
	if !c.Quick {
		depth = 5
	}
	type job struct {
		cache string
		ks    bool
		first int
	}
	var jobs []job
	for _, ca := range []string{"", "simple"} {
		for _, ks := range bothSorts {
			for f := range lists {
				jobs = append(jobs, job{ca, ks, f})
			}
		}
	}
	c.Parallel(len(jobs), func(w *kit.W, ji int) {
		j := jobs[ji]
		e := newEnv(w, j.cache, j.ks)
		if !e.add(w, s.CSS()) {
			return
		}
		snap := snapshot(e.m)
		// the results of a merger that does nothing else
		want := make([]string, len(lists))
		for i, l := range lists {
			f := newEnv(w, "", j.ks)
			if !f.add(w, s.CSS()) {
				return
			}
			out, msg := f.merge(w, l)
			if msg != "" {
				c.Violation(msg, kit.Script{Ops: append(f.ops, kit.Op{Kind: "merge", List: l})})
				return
			}
			want[i] = out
		}
		base := len(e.ops)
		hist := []int{}
		n := 0
		var rec func() bool
		rec = func() bool {
			if len(hist) == depth {
				// a load empties the cache
				if j.cache != "" {
					if err := e.m.AddRules(strings.NewReader(""), false); err != nil {
						return true
					}
				}
				e.ops = e.ops[:base]
				for _, i := range hist {
					if !e.expect(w, "merges in a row", lists[i], want[i]) {
						return false
					}
					e.ops = append(e.ops, kit.Op{Kind: "merge", List: lists[i]})
					w.Trans++
				}
				w.State(kit.HashInts(kit.Hash(j.cache, fmt.Sprint(j.ks)), hist))
				n++
				if n%512 == 0 {
					if got := snapshot(e.m); got != snap {
						c.Violation("merging changes what is loaded", kit.Script{Ops: append(e.ops, kit.Op{Kind: "snapshot", Want: &snap})})
						return false
					}
				}
				return true
			}
			for i := range lists {
				if len(hist) == 0 && i != j.first {
					continue
				}
				hist = append(hist, i)
				ok := !c.Stop() && rec()
				hist = hist[:len(hist)-1]
				if !ok {
					return false
				}
			}
			return true
		}
		if rec() {
			if got := snapshot(e.m); got != snap {
				c.Violation("merging changes what is loaded", kit.Script{Ops: append(e.ops, kit.Op{Kind: "snapshot", Want: &snap})})
			}
		}
		c.Count("histories of merges", int64(n))
	})
}

// againstFresh: two mergers with the same stylesheets, one of which merges in the opposite order.
func againstFresh(c *kit.C) {
	scns := []*Scenario{templateScenario(), variableScenario(), importantShorthandScenario()}
	c.Parallel(len(scns)*4, func(w *kit.W, i int) {
		s := scns[i/4]
		ks, rev := i%2 == 0, i/2%2 == 0
		e, f := newEnv(w, "", ks), newEnv(w, "", ks)
		if !e.add(w, s.CSS()) || !f.add(w, s.CSS()) {
			return
		}
		var lists []string
		for _, a := range s.Names {
			for _, b := range s.Names {
				lists = append(lists, a+" "+b)
				if c.Quick && len(s.Names) > 20 {
					continue
				}
				for _, d := range s.Names {
					lists = append(lists, a+" "+b+" "+d)
				}
			}
		}
		want := make([]string, len(lists))
		snap := snapshot(f.m)
		for k := range lists {
			i := k
			if rev {
				i = len(lists) - 1 - k
			}
			want[i], _ = f.merge(w, lists[i])
		}
		for i, l := range lists {
			if !e.expect(w, "another merger", l, want[i]) {
				return
			}
			w.State(kit.Hash(s.Name, l))
			w.Trans++
		}
		for _, x := range []*env{e, f} {
			if got := snapshot(x.m); got != snap {
				c.Violation("merging changes what is loaded", kit.Script{Ops: append(x.ops, kit.Op{Kind: "merge", List: lists[0]}, kit.Op{Kind: "snapshot", Want: &snap})})
				return
			}
		}
		c.Count("lists on two mergers", int64(len(lists)))
	})
}

// idempotence: a merger that keeps the order returns its results unchanged.
func idempotence(c *kit.C) {
	type job struct {
		s     *Scenario
		depth int
		first int
		cache string
	}
	var jobs []job
	add := func(s *Scenario, q, t int, cache string) {
		if !c.Quick {
			q = t
		}
		for f := range s.Names {
			jobs = append(jobs, job{s, q, f, cache})
		}
	}
	add(overlapScenario(), 5, 6, "")
	add(templateScenario(), 3, 4, "")
	add(importantScenario(), 3, 5, "")
	add(importantShorthandScenario(), 4, 5, "")
	add(variableScenario(), 4, 5, "")
	add(variableScenario(), 3, 4, "simple")
	c.Parallel(len(jobs), func(w *kit.W, i int) {
		j := jobs[i]
		e := newEnv(w, j.cache, true)
		if !e.add(w, j.s.CSS()) {
			return
		}
		var n int64
		var rec func(list string, d int) bool
		rec = func(list string, d int) bool {
			if d > 0 {
				out, msg := e.merge(w, list)
				if msg != "" {
					c.Violation(msg, kit.Script{Ops: append(append([]kit.Op{}, e.ops...), kit.Op{Kind: "merge", List: list})})
					return false
				}
				if out != list && !e.expect(w, fmt.Sprintf("merging the result of %q again", list), out, out) {
					return false
				}
				n++
				w.Trans++
			}
			if d == j.depth {
				return true
			}
			for k, nm := range j.s.Names {
				if d == 0 && k != j.first {
					continue
				}
				l := nm
				if d > 0 {
					l = list + " " + nm
				}
				if d == 2 && c.Stop() || !rec(l, d+1) {
					return false
				}
			}
			return true
		}
		rec("", 0)
		c.Count("lists merged twice", n)
	})
}
