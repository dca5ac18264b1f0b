package main

import (
	"fmt"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/mcore"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/zzsched"
)

// ---- C08: the order of iteration over maps

func mergeOrdered(m *merge.Merger, list string, order map[int]int) (out string, sizes []int) {
	zzsched.MapMode = &zzsched.MapOrders{Order: order}
	defer func() {
		sizes = zzsched.MapMode.Sizes
		zzsched.MapMode = nil
		if r := recover(); r != nil {
			out = fmt.Sprint("panic: ", r)
		}
	}()
	return m.Merge(list), nil
}

// perms are the orders that are tried for an iteration over n entries besides the ascending one; few says that another
// iteration has an unusual order as well.
func perms(n int, few, quick bool) []int {
	var out []int
	if n < 2 {
		return nil
	}
	all := zzsched.NumPerms(n)
	if !few {
		for k := 1; k < all; k++ {
			out = append(out, k)
		}
		return out
	}
	if n <= 5 {
		out = append(out, all-1) // descending
		if !quick || n <= 3 {
			for k := 1; k < all-1; k++ {
				if n <= 3 || k%5 == 1 {
					out = append(out, k)
				}
			}
		}
		return out
	}
	return []int{n, 1, n - 1}
}

func checkOrders(p *part) {
	for _, s := range mcore.OrderScenarios(p.quick) {
		for _, ks := range []bool{true, false} {
			m := newMerger("", ks)
			if err := m.AddRules(strings.NewReader(s.CSS), false); err != nil {
				p.violation("loading fails: "+err.Error(), kit.Op{Kind: "new"}, kit.Op{Kind: "addok", CSS: s.CSS})
				return
			}
			before := p.res.Execs
			lists := int64(0)
			var rec func(list string, d int) bool
			rec = func(list string, d int) bool {
				if d >= 2 || s.Depth == 1 {
					lists++
					if !p.orders(s, m, list, ks) {
						return false
					}
				}
				if d == s.Depth {
					return true
				}
				for _, n := range s.Names {
					l := n
					if d > 0 {
						l = list + " " + n
					}
					if d == 1 && !p.mine() {
						continue
					}
					if p.stop() || !rec(l, d+1) {
						return false
					}
				}
				return true
			}
			if !rec("", 0) {
				return
			}
			for _, l := range s.Lists {
				if p.mine() {
					lists++
					if p.stop() || !p.orders(s, m, l, ks) {
						return
					}
				}
			}
			p.count(s.Name+" lists", lists)
			p.count(s.Name+" iteration orders", p.res.Execs-before)
		}
	}
	// making a merger and loading iterate over maps as well
	if p.i == 0 {
		for _, k := range []int{0, 1, 2, 3, 4} {
			zzsched.MapMode = &zzsched.MapOrders{Order: map[int]int{}}
			for i := 0; i < 64; i++ {
				zzsched.MapMode.Order[i] = []int{0, 1, 1001, 2503, 4004}[k]
			}
			m := merge.NewMerger(nil, true)
			s := mcore.OrderScenarios(p.quick)[0]
			m.AddRules(strings.NewReader(s.CSS), false)
			zzsched.MapMode = nil
			ref := newMerger("", true)
			ref.AddRules(strings.NewReader(s.CSS), false)
			for _, a := range s.Names {
				for _, b := range s.Names {
					if x, y := m.Merge(a+" "+b), ref.Merge(a+" "+b); x != y {
						p.violation(fmt.Sprintf("%q gives %q or %q, depending on the order of maps when the merger is made and loaded", a+" "+b, x, y), kit.Op{Kind: "new", KeepSort: true}, kit.Op{Kind: "add", CSS: s.CSS}, kit.Op{Kind: "merge", List: a + " " + b, Want: &y})
						return
					}
				}
			}
			p.res.Execs++
		}
	}
}

// orders merges a list under all orders.
func (p *part) orders(s mcore.OrderScenario, m *merge.Merger, list string, ks bool) bool {
	op := kit.Op{Kind: "orders", CSS: s.CSS, List: list, KeepSort: ks}
	p.note(op)
	want, sizes := mergeOrdered(m, list, nil)
	try := func(order map[int]int) ([]int, bool) {
		out, sz := mergeOrdered(m, list, order)
		p.res.Execs++
		p.res.Trans += int64(len(sz))
		if out != want {
			for i, k := range order {
				op.Ints = append(op.Ints, i, k)
			}
			op.Want = &want
			p.violation(fmt.Sprintf("%s: %q gives %q or %q, depending on the order in which maps are iterated", s.Name, list, want, out), op)
			return nil, false
		}
		return sz, true
	}
	if strings.HasPrefix(want, "panic") {
		p.violation(want, op)
		return false
	}
	// the natural order
	for i := 0; i < 2; i++ {
		if out := m.Merge(list); out != want {
			p.violation(fmt.Sprintf("%s: %q gives %q or %q", s.Name, list, want, out), op)
			return false
		}
	}
	p.state(kit.Hash(s.Name, list, fmt.Sprint(ks)))
	// all iterations descending
	rev := map[int]int{}
	for i, n := range sizes {
		if n > 1 && n <= 5 {
			rev[i] = zzsched.NumPerms(n) - 1
		} else if n > 5 {
			rev[i] = n
		}
	}
	if _, ok := try(rev); !ok {
		return false
	}
	for i, n := range sizes {
		for _, k := range perms(n, false, p.quick) {
			sz, ok := try(map[int]int{i: k})
			if !ok {
				return false
			}
			if p.quick && n > 3 && k%7 != 0 && k != zzsched.NumPerms(n)-1 {
				continue
			}
			for j := i + 1; j < len(sz); j++ {
				for _, k2 := range perms(sz[j], true, p.quick) {
					if _, ok := try(map[int]int{i: k, j: k2}); !ok {
						return false
					}
				}
			}
		}
	}
	if p.res.Execs%100 == 0 {
		p.sample("%s: %q -> %q under all orders of maps of sizes %v", s.Name, list, want, sizes)
	}
	return true
}

func replayOrders(p *part, ops []kit.Op) {
	op := ops[0]
	m := newMerger("", op.KeepSort)
	if err := m.AddRules(strings.NewReader(op.CSS), false); err != nil {
		p.violation(err.Error())
		return
	}
	order := map[int]int{}
	for i := 0; i+1 < len(op.Ints); i += 2 {
		order[op.Ints[i]] = op.Ints[i+1]
	}
	a, _ := mergeOrdered(m, op.List, nil)
	b, _ := mergeOrdered(m, op.List, order)
	if a != b || strings.HasPrefix(a, "panic") {
		p.violation(fmt.Sprintf("%q gives %q or %q", op.List, a, b))
	}
	for i := 0; i < 1000; i++ {
		if c := m.Merge(op.List); c != a {
			p.violation(fmt.Sprintf("%q gives %q or %q", op.List, a, c))
			return
		}
	}
}

func replayLists(w *kit.W, s kit.Script) error { return mcore.Replay(w, s) }
func orderLists(c *kit.C)                      { mcore.Repeat(c) }
