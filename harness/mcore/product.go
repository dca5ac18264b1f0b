package mcore

import (
	"fmt"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// product: every combination of two declarations of a shorthand, one of its longhands, another style and two custom
// properties, each important or not and with or without a reference, in one rule; all these rules in lists with one or two
// others of one declaration, also under another condition, and with each other.
func product(c *kit.C, kinds string) {
	rules, n := productRules()
	c.Parallel(n*n, func(w *kit.W, k int) {
		if c.Stop() {
			return
		}
		s := Compile("product", rules)
		for _, ks := range []bool{true, false} {
			if c.Quick && ks != (k%2 == 0) {
				continue
			}
			e := pool(w, "", ks)
			if !e.add(w, s.CSS()) {
				return
			}
			x := newExplorer(s, e, ks, 0, kinds)
			u := 2*n + k
			for a := 0; a < 2*n; a++ {
				if !x.list(w, []int{u, a}) || !x.list(w, []int{a, u}) {
					return
				}
				for b := 0; b < 2*n; b++ {
					if c.Quick && a >= n && b >= n {
						continue // both under the other condition
					}
					if !x.list(w, []int{u, a, b}) || !x.list(w, []int{a, u, b}) || !x.list(w, []int{a, b, u}) {
						return
					}
				}
				if c.Stop() {
					return
				}
			}
			for v := 2 * n; v < len(rules); v++ {
				if !x.list(w, []int{u, v}) {
					return
				}
				if c.Quick && (v-u)%17 != 3 {
					continue
				}
				for a := 0; a < n; a++ {
					if !x.list(w, []int{u, v, a}) || !x.list(w, []int{u, a, v}) || !x.list(w, []int{a, u, v}) {
						return
					}
				}
				if c.Stop() {
					return
				}
			}
			c.Count("product lists", x.n)
		}
	})
}

// productRules are the rules of one declaration, the same under another condition (n each), and the rules of two.
func productRules() (rules []Rule, n int) {
	var one []Decl
	for _, imp := range []bool{false, true} {
		for _, d := range []Decl{
			d("padding"), du("padding", "--x"), d("padding-left"), du("padding-left", "--x"), du("padding-left", "--y"), d("color"), du("color", "--y"),
			d("--x"), du("--x", "--y"), d("--y"), du("--y", "--x"),
		} {
			d.Imp = imp
			one = append(one, d)
		}
	}
	n = len(one)
	for i, d := range one {
		rules = append(rules, r(fmt.Sprintf("a%d", i), d))
	}
	for i, d := range one {
		rules = append(rules, rc(fmt.Sprintf("h%d", i), cHover, d))
	}
	for i, d := range one {
		for j, f := range one {
			rules = append(rules, r(fmt.Sprintf("u%d-%d", i, j), d, f))
		}
	}
	return rules, n
}
