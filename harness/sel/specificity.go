package main

import (
	"fmt"
	"reflect"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// checkSpecificity compares the specificity of every generated selector with the reference, and checks the order and
// the sum of specificities on all pairs of small ones.
func checkSpecificity(c *kit.C) {
	deep := !c.Quick
	hugeFamily(c, "C20")
	spelledSpecificity(c)
	selFamilies(deep, func(f *family) bool {
		if c.Stop() {
			return false
		}
		c.Count("selectors", int64(len(f.sels)))
		const chunk = 64
		styles := f.styles()
		c.Parallel((len(f.sels)+chunk-1)/chunk, func(w *kit.W, ci int) {
			for i := ci * chunk; i < (ci+1)*chunk && i < len(f.sels); i++ {
				s := f.sels[i]
				want := s.spec()
				ws := fmt.Sprint(want)
				w.State(kit.Hash(s.String()))
				for _, st := range styles {
					text := s.text(st)
					script := func() kit.Script {
						return kit.Script{Ops: []kit.Op{{Kind: "specificity", Text: text, Want: &ws}}}
					}
					what := ""
					if msg := w.Guard(script, func() {
						sel, err := cascadia.ParseWithPseudoElement(text)
						if err != nil {
							what = fmt.Sprintf("the selector %q is not accepted: %v", text, err)
							return
						}
						if got := specOf(sel.Specificity()); got != want {
							what = fmt.Sprintf("%s: specificity %v, by CSS %v", text, got, want)
						}
						if got, want := sel.PseudoElement(), s.comps[len(s.comps)-1].pe; got != want {
							what = fmt.Sprintf("%s: pseudo-element %q, by CSS %q", text, got, want)
						}
					}); msg != "" {
						what = msg
					}
					w.Trans++
					w.Traces++
					if what != "" {
						c.Violation(what, script())
						return
					}
				}
				if i == len(f.sels)/2 {
					c.Sample("%s: %s: %v", f.name, s, want)
				}
			}
		})
		return true
	})
	// order and sum
	r := []int{0, 1, 2, 3, 1000}
	if deep {
		r = []int{0, 1, 2, 3, 4, 9, 10, 11, 255, 256, 1000, 65536}
	}
	var all [][3]int
	for _, x := range r {
		for _, y := range r {
			for _, z := range r {
				all = append(all, [3]int{x, y, z})
			}
		}
	}
	c.Count("pairs of specificities", int64(len(all)*len(all)))
	c.Parallel(len(all), func(w *kit.W, i int) {
		for _, b := range all {
			a := all[i]
			w.Trans++
			if what := compare([]int{a[0], a[1], a[2], b[0], b[1], b[2]}); what != "" {
				c.Violation(what, kit.Script{Ops: []kit.Op{{Kind: "order", Ints: []int{a[0], a[1], a[2], b[0], b[1], b[2]}}}})
				return
			}
		}
	})
	for _, p := range []string{"-webkit-scrollbar", "-webkit-search-decoration", "-moz-placeholder"} {
		sel, err := cascadia.ParseWithPseudoElement("::" + p)
		if err == nil && specOf(sel.Specificity()) != (spec{0, 0, 1}) {
			c.Known("C20", "vendor-pseudo-elements", "the pseudo-elements with a vendor prefix (::-webkit-scrollbar, ::-moz-placeholder, ...) count as pseudo-classes: 0,1,0 instead of 0,0,1")
			break
		}
	}
}

func compare(v []int) string {
	a, b := spec{v[0], v[1], v[2]}, spec{v[3], v[4], v[5]}
	var x, y cascadia.Specificity
	if !into(&x, a) || !into(&y, b) {
		return "" // no such specificities
	}
	if g, w := x.Less(y), a.less(b); g != w {
		return fmt.Sprintf("%v less than %v: %v, want %v", a, b, g, w)
	}
	if g, w := specOf(x.Add(y)), a.plus(b); g != w {
		return fmt.Sprintf("%v + %v = %v, want %v", a, b, g, w)
	}
	if specOf(x) != a || specOf(y) != b {
		return fmt.Sprintf("adding %v and %v changes them", a, b)
	}
	return ""
}

// specOf and into convert specificities, whatever integers they are made of.
func specOf(s cascadia.Specificity) (out spec) {
	v := reflect.ValueOf(s)
	for i := range out {
		if e := v.Index(i); e.CanInt() {
			out[i] = int(e.Int())
		} else {
			out[i] = int(e.Uint())
		}
	}
	return out
}

func into(s *cascadia.Specificity, a spec) bool {
	v := reflect.ValueOf(s).Elem()
	for i, x := range a {
		if e := v.Index(i); e.CanInt() {
			e.SetInt(int64(x))
		} else {
			e.SetUint(uint64(x))
		}
	}
	return specOf(*s) == a
}
