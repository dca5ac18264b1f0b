package mcore

import (
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C22

// checkSteps: merging the parts of a list first makes no difference.
func checkSteps(c *kit.C) {
	c.Assume("parts between which a custom property is set and used are left out, as merging drops what sets a custom property that nothing uses; so are custom properties set !important",
		"a merger that does not keep the order returns its classes in another one, which means something else when it is merged again",
		"bounds: the alphabets and lengths of the lists; lists are cut into two and three parts")
	type job struct {
		s     *Scenario
		depth int
		cache string
		first int
	}
	var jobs []job
	add := func(s *Scenario, q, t int, cache string) {
		if !c.Quick {
			q = t
		}
		for f := range s.Names {
			jobs = append(jobs, job{s, q, cache, f})
		}
	}
	stateless := Compile("steps", []Rule{
		r("m", d("margin")), r("mx", d("margin-left"), d("margin-right")), r("ml", d("margin-left")), r("mt!", di("margin-top")), r("c", d("color")), r("c!", di("color")), r("cb", d("color"), d("border-top-color")), r("b", d("border")),
		r("e"), rc("h:c", cHover, d("color")), rc("md:c", cMd, d("color")), rc("g:c", cGroup, d("color")), rc("h:m!", cHover, di("margin")),
	}, "unknown")
	add(stateless, 4, 5, "")
	add(overlapScenario(), 5, 6, "")
	add(importantScenario(), 4, 5, "")
	add(importantShorthandScenario(), 4, 5, "")
	add(variableScenario(), 4, 5, "")
	add(templateScenario(), 3, 4, "")
	add(stateless, 4, 5, "simple")
	rules, n := productRules()
	var styles []Rule // without custom properties
	for i, ru := range rules {
		plain := true
		for _, d := range ru.Decls {
			plain = plain && len(d.Uses) == 0 && !strings.HasPrefix(d.Prop, "--")
		}
		if plain {
			styles = append(styles, ru)
			if i >= 2*n && len(styles)%2 == 0 {
				h := ru
				h.Class, h.Ctx = "h"+h.Class, cHover
				styles = append(styles, h)
			}
		}
	}
	add(Compile("products", rules), 2, 3, "")
	add(Compile("products of styles", styles), 3, 4, "")
	c.Parallel(len(jobs), func(w *kit.W, ji int) {
		j := jobs[ji]
		st := newStepper(w, j.s, j.cache)
		if st == nil {
			return
		}
		list := []int{j.first}
		var rec func() bool
		rec = func() bool {
			if len(list) > 1 && !st.all(list) {
				return false
			}
			if len(list) == j.depth {
				return true
			}
			if len(list) < 3 && c.Stop() {
				return false
			}
			for i := range j.s.Names {
				list = append(list, i)
				ok := rec()
				list = list[:len(list)-1]
				if !ok {
					return false
				}
			}
			return true
		}
		rec()
	})
	longSteps(c)
}

// stepper merges lists in steps.
type stepper struct {
	w          *kit.W
	s          *Scenario
	e          *env
	sets, uses [][]string // per class
	bad        []bool     // sets an important custom property
	memo       map[string]string
}

func newStepper(w *kit.W, s *Scenario, cache string) *stepper {
	st := &stepper{w: w, s: s, e: newEnv(w, cache, true), memo: map[string]string{}}
	if !st.e.add(w, s.CSS()) {
		return nil
	}
	for _, n := range s.Names {
		var sets, uses []string
		bad := false
		for _, ru := range s.Rules {
			if ru.Class != n {
				continue
			}
			for _, d := range ru.Decls {
				uses = append(uses, d.Uses...)
				if strings.HasPrefix(d.Prop, "--") {
					sets = append(sets, d.Prop)
					bad = bad || d.Imp
				}
			}
		}
		st.sets, st.uses, st.bad = append(st.sets, sets), append(st.uses, uses), append(st.bad, bad)
	}
	return st
}

func (st *stepper) crosses(a, b []int) bool {
	for _, x := range a {
		for _, y := range b {
			for _, p := range st.sets[x] {
				if contains(st.uses[y], p) {
					return true
				}
			}
			for _, p := range st.sets[y] {
				if contains(st.uses[x], p) {
					return true
				}
			}
		}
	}
	return false
}

func (st *stepper) text(l []int) string {
	var b strings.Builder
	for i, x := range l {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(st.s.Names[x])
	}
	return b.String()
}

func (st *stepper) merge(l string) (string, bool) {
	if out, ok := st.memo[l]; ok {
		return out, true
	}
	out, msg := st.e.merge(st.w, l)
	if msg != "" {
		st.w.C.Violation(msg, kit.Script{Ops: append(append([]kit.Op{}, st.e.ops...), kit.Op{Kind: "merge", List: l})})
		return "", false
	}
	if len(st.memo) < 200000 {
		st.memo[l] = out
	}
	return out, true
}

// all: every way to merge the list in steps.
func (st *stepper) all(list []int) bool {
	for _, x := range list {
		if st.bad[x] {
			return true
		}
	}
	whole, ok := st.merge(st.text(list))
	if !ok {
		return false
	}
	st.w.Trans++
	n := len(list)
	for i := 1; i < n; i++ {
		if st.crosses(list[:i], list[i:]) {
			continue
		}
		a, ok1 := st.merge(st.text(list[:i]))
		b, ok2 := st.merge(st.text(list[i:]))
		if !ok1 || !ok2 {
			return false
		}
		if !st.step(list, whole, a, st.text(list[i:])) || !st.step(list, whole, st.text(list[:i]), b) || !st.step(list, whole, a, b) {
			return false
		}
		for k := i + 1; k < n; k++ {
			if st.crosses(list[:k], list[k:]) || st.crosses(list[i:k], list[k:]) {
				continue
			}
			m, ok := st.merge(st.text(list[i:k]))
			if !ok || !st.step(list, whole, st.text(list[:i]), m, st.text(list[k:])) {
				return false
			}
			ab, ok := st.merge(strings.TrimSpace(a + " " + st.text(list[i:k])))
			if !ok || !st.step(list, whole, ab, st.text(list[k:])) {
				return false
			}
		}
	}
	return true
}

func (st *stepper) step(list []int, whole string, parts ...string) bool {
	l := strings.TrimSpace(strings.Join(parts, " "))
	for strings.Contains(l, "  ") {
		l = strings.ReplaceAll(l, "  ", " ")
	}
	if !strings.Contains(l, " ") {
		if i := st.s.index(l); i >= 0 && len(st.sets[i]) > 0 {
			return true // a single class is not merged, even if nothing uses its custom property
		}
	}
	st.w.Traces++
	out, ok := st.merge(l)
	if !ok {
		return false
	}
	if out != whole {
		st.w.C.Violation(fmt.Sprintf("merging %q gives %q, merging its parts first %q, of which %q comes", st.text(list), whole, l, out),
			kit.Script{Ops: append(append([]kit.Op{}, st.e.ops...), kit.Op{Kind: "steps", Text: st.text(list), List: l})})
		return false
	}
	return true
}

// longSteps: long lists of a base and its overrides, cut at every place.
func longSteps(c *kit.C) {
	var rules []Rule
	props := []string{"color", "opacity", "margin-top", "margin", "padding", "padding-left", "width", "height", "border", "border-top-width", "display", "font-size"}
	for i, p := range props {
		for k := 0; k < 4; k++ {
			x := []Ctx{noCtx, noCtx, cHover, cMd}[k]
			ds := []Decl{d(p)}
			if k == 1 {
				ds = append(ds, d(props[(i+1)%len(props)]))
			}
			if (i+k)%5 == 0 {
				ds[0].Imp = true
			}
			rules = append(rules, rc(fmt.Sprintf("k%d-%d", i, k), x, ds...))
		}
	}
	s := Compile("long steps", rules, "u0", "u1")
	n := len(s.Names)
	strides := []int{1, 3, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47}
	lengths := []int{12, 33, 64}
	if !c.Quick {
		lengths = []int{12, 24, 33, 48, 64, 100, 129, 200}
	}
	longer := []int{100, 128, 129, 256, 300}
	if !c.Quick {
		longer = append(longer, 512, 1000, 1024, 2048)
	}
	c.Parallel(len(strides)*n, func(w *kit.W, ji int) {
		if c.Stop() {
			return
		}
		st := newStepper(w, s, "")
		if st == nil {
			return
		}
		// longer lists, cut at some places
		for _, m := range longer {
			if ji%n%8 != 0 || m > 300 && ji%n != 0 {
				break
			}
			var list []int
			for i := 0; i < m; i++ {
				list = append(list, (ji%n+i*strides[ji/n])%n)
			}
			whole, ok := st.merge(st.text(list))
			if !ok {
				return
			}
			w.Trans++
			for i := 1; i < m; i += 7 {
				a, ok1 := st.merge(st.text(list[:i]))
				b, ok2 := st.merge(st.text(list[i:]))
				if !ok1 || !ok2 || !st.step(list, whole, a, st.text(list[i:])) || !st.step(list, whole, st.text(list[:i]), b) || !st.step(list, whole, a, b) {
					return
				}
			}
		}
		for _, m := range lengths {
			var list []int
			for i := 0; i < m; i++ {
				list = append(list, (ji%n+i*strides[ji/n])%n)
			}
			whole, ok := st.merge(st.text(list))
			if !ok {
				return
			}
			w.Trans++
			acc := ""
			for i := 1; i < m; i++ {
				a, ok1 := st.merge(st.text(list[:i]))
				b, ok2 := st.merge(st.text(list[i:]))
				if !ok1 || !ok2 || !st.step(list, whole, a, st.text(list[i:])) || !st.step(list, whole, st.text(list[:i]), b) || !st.step(list, whole, a, b) {
					return
				}
				// one class after the other
				if acc, ok = st.merge(strings.TrimSpace(acc + " " + s.Names[list[i-1]])); !ok {
					return
				}
				if !st.step(list, whole, acc, st.text(list[i:])) {
					return
				}
			}
		}
		w.State(kit.Hash("long steps", fmt.Sprint(ji)))
	})
}
