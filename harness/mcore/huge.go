package mcore

import (
	"fmt"
	"sort"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// Families in which one size is far beyond what counters of 8 and 16 bits and ordinary limits hold. What is expected is
// written down directly, and a case is replayed by its name and its size.

type hugeCase struct {
	sizes [2][]int // quick, thorough
	run   func(h *huge)
}

type huge struct {
	n     int
	ks    bool
	cache string
	m     *merge.Merger
	msg   string
	calls int64
	stop  func() bool
	alive func()
}

func (h *huge) fail(format string, args ...any) bool {
	if h.msg == "" {
		h.msg = fmt.Sprintf(format, args...)
	}
	return false
}

func (h *huge) load(css string) bool {
	if h.msg != "" || h.calls%64 == 0 && h.stop() {
		return false
	}
	h.calls++
	h.alive()
	if err := h.m.AddRules(strings.NewReader(css), false); err != nil {
		return h.fail("loading %.80q fails: %v", css, err)
	}
	return true
}

// want: merging gives a list; if the order is not kept, in any order.
func (h *huge) want(list, want string) bool {
	if h.msg != "" || h.calls%64 == 0 && h.stop() {
		return false
	}
	h.calls++
	h.alive()
	out := h.m.Merge(list)
	if out == want {
		return true
	}
	a, b := strings.Split(out, " "), strings.Split(want, " ")
	if !h.ks {
		sort.Strings(a)
		sort.Strings(b)
	}
	short := func(s string) string {
		if len(s) > 300 {
			return fmt.Sprintf("%s ... %s (%d bytes)", s[:120], s[len(s)-120:], len(s))
		}
		return s
	}
	if len(a) != len(b) {
		return h.fail("merging %q gives %d classes instead of %d: %q", short(list), len(a), len(b), short(out))
	}
	for i := range a {
		if a[i] != b[i] {
			return h.fail("merging %q gives %q instead of %q, among others", short(list), a[i], b[i])
		}
	}
	return true
}

func seq(n int, f func(i int) string) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = f(i)
	}
	return out
}

// spread gives different names without a pattern.
func spread(i int) string {
	x := uint64(i+1) * 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return fmt.Sprintf("%016x", x^x>>31)
}

func reversed(l []string) []string {
	return seq(len(l), func(i int) string { return l[len(l)-1-i] })
}

func numbered(prefix string) func(i int) string {
	return func(i int) string { return fmt.Sprint(prefix, i) }
}

func join(ls ...any) string {
	var b []string
	for _, l := range ls {
		switch l := l.(type) {
		case string:
			b = append(b, l)
		case []string:
			b = append(b, l...)
		}
	}
	return strings.Join(b, " ")
}

var hugeCases = map[string]hugeCase{
	// lists of n classes
	"unknown classes": {[2][]int{{2000, 5000, 10000, 70000}, {2000, 3000, 5000, 10000, 20000, 33000, 70000, 140000, 300000}}, func(h *huge) {
		u := seq(h.n, numbered("u"))
		if !h.want(join(u), join(u)) || !h.load(".a{color:red}.b{color:blue}.c{opacity:1}") {
			return
		}
		_ = h.want(join(u), join(u)) && h.want(join("a", u, "b"), join(u, "b")) && h.want(join("a", u, "c"), join("a", u, "c")) && h.want(join(u, "a b"), join(u, "b")) && h.want(join("a c b", u), join("c b", u)) && h.want(join(u, u), join(u))
	}},
	"known classes": {[2][]int{{2000, 5000, 10000, 70000}, {2000, 3000, 5000, 10000, 20000, 33000, 70000, 140000}}, func(h *huge) {
		k := seq(h.n, numbered("k"))
		css := strings.Join(seq(h.n, func(i int) string { return fmt.Sprintf(".k%d{p-%d:x}", i, i) }), "") + ".a{color:red}.b{color:blue}.i{color:red!important}.d{p-0:x;p-1:x}.l{color:x;p-0:y}"
		if !h.load(css) {
			return
		}
		_ = h.want(join(k), join(k)) && h.want(join(reversed(k)), join(reversed(k))) && h.want(join("a", k, "b"), join(k, "b")) && h.want(join(k, "a b"), join(k, "b")) && h.want(join("a b", k), join("b", k)) &&
			h.want(join("b", k, "i"), join(k, "i")) && h.want(join("d", k), join(k)) && h.want(join(k, "d"), join(k[2:], "d")) && h.want(join("l", k), join("l", k)) && h.want(join("l", k, "a"), join(k, "a")) && h.want(join(k, k), join(k)) &&
			h.want(join(k, "zz", reversed(k)), join("zz", reversed(k)))
	}},
	"overridden classes": {[2][]int{{2000, 5000, 70000}, {2000, 5000, 10000, 20000, 33000, 70000, 140000}}, func(h *huge) {
		css := strings.Join(seq(h.n, func(i int) string { return fmt.Sprintf(".s%d{color:x}.p%d{p-%d:x}.q%d{p-%d:y}", i, i, i, i, i) }), "") + ".t{color:x;opacity:1}"
		if !h.load(css) {
			return
		}
		s, p, q := seq(h.n, numbered("s")), seq(h.n, numbered("p")), seq(h.n, numbered("q"))
		_ = h.want(join(s), s[h.n-1]) && h.want(join(reversed(s)), "s0") && h.want(join("t", s), join("t", s[h.n-1])) && h.want(join(s, "t"), "t") && h.want(join(p, q), join(q)) && h.want(join(q, p[1:]), join("q0", p[1:])) &&
			h.want(join(q, p[:h.n-1]), join(q[h.n-1], p[:h.n-1])) && h.want(strings.TrimSpace(strings.Repeat("s0 ", h.n)), "s0") && h.want(join(strings.TrimSpace(strings.Repeat("s0 ", h.n)), "t u"), "t u") &&
			h.want(join("u", strings.TrimSpace(strings.Repeat("t s0 ", h.n))), "u t s0")
	}},
	// n merges on one merger
	"merges": {[2][]int{{70000}, {70000, 300000}}, func(h *huge) {
		if !h.load(".a{color:red}.b{color:blue}.c{opacity:1}.d{margin:0}.e{margin-top:0}.u{color:var(--x)}.x{--x:1}") {
			return
		}
		for i := 0; i < h.n; i++ {
			if !h.want("a b c", "b c") || !h.want(fmt.Sprintf("a w%d b", i), fmt.Sprintf("w%d b", i)) || !h.want("e d", "d") || !h.want("d e", "d e") || !h.want("x u", "x u") || !h.want("x a", "a") {
				return
			}
		}
	}},
	// n loads into one merger
	"loads": {[2][]int{{70000}, {70000, 300000}}, func(h *huge) {
		for i := 0; i < h.n; i++ {
			var want string
			switch i % 3 {
			case 0:
				want = "a b c"
				if !h.load(".a{opacity:1}.b{color:blue}.c{margin:0}") {
					return
				}
			case 1:
				want = "b c"
				if !h.load(".a{color:red}") {
					return
				}
			case 2:
				want = "c"
				if !h.load(".c{color:blue}") {
					return
				}
			}
			if !h.want("a b c", want) {
				h.msg = fmt.Sprintf("after %d loads: %s", i+1, h.msg)
				return
			}
			if d := strings.Split(want, " "); !h.want("c a", map[int]string{0: "c a", 1: "c a", 2: "a"}[i%3]) {
				h.msg = fmt.Sprintf("after %d loads (%v): %s", i+1, d, h.msg)
				return
			}
		}
	}},
	// n classes, all at once and one after the other
	"classes": {[2][]int{{20000, 70000}, {20000, 33000, 70000, 140000, 300000}}, func(h *huge) {
		for form := 0; form < 3; form++ {
			h.m = newMerger(h.cache, h.ks)
			var b strings.Builder
			for i := 0; i < h.n; i++ {
				fmt.Fprintf(&b, ".k%d{p-%d:x}", i, i/2)
				if form == 1 && i%2 == 1 || form == 2 && i%1000 == 0 || i == h.n-1 {
					if !h.load(b.String()) {
						return
					}
					b.Reset()
				}
			}
			if len(h.m.Rules()) != h.n {
				h.fail("%d classes are there", len(h.m.Rules()))
				return
			}
			for i := 0; i < h.n; i++ {
				if i%2 == 1 && !h.want(fmt.Sprintf("k%d k%d", i-1, i), fmt.Sprintf("k%d", i)) {
					return
				}
				for d := 2; d <= i; d *= 2 {
					if d < 256 && i%97 > 0 {
						continue
					}
					if l := fmt.Sprintf("k%d k%d", i-d, i); !h.want(l, l) {
						return
					}
				}
			}
		}
	}},
	// n conditions
	"conditions": {[2][]int{{5000, 70000}, {5000, 20000, 70000, 140000}}, func(h *huge) {
		forms := []string{"@media (min-width:%dpx){%s}", "@supports (p-%d:x){%s}", "%[2]s:nth-child(%[1]d)", ".g%d %s", "%[2]s[k=v%[1]d]"}
		for f, form := range forms {
			if f > 0 && h.n > 70000 {
				return
			}
			var b strings.Builder
			for i := 0; i < h.n; i++ {
				for _, c := range []string{"a", "b"} {
					if strings.HasPrefix(form, "@") {
						fmt.Fprintf(&b, form, i+1, fmt.Sprintf(".%s%d-%d{color:x}", c, f, i))
					} else {
						fmt.Fprintf(&b, form+"{color:x}", i+1, fmt.Sprintf(".%s%d-%d", c, f, i))
					}
				}
			}
			if !h.load(b.String()) {
				return
			}
			name := func(c string, i int) string { return fmt.Sprintf("%s%d-%d", c, f, i) }
			for i := 0; i < h.n; i++ {
				if !h.want(name("a", i)+" "+name("b", i), name("b", i)) {
					return
				}
				for d := 1; d <= i; d *= 2 {
					if d < 256 && i%97 > 0 {
						continue
					}
					if l := name("a", i-d) + " " + name("b", i); !h.want(l, l) {
						return
					}
				}
			}
			if l := seq(h.n, func(i int) string { return name("a", i) }); !h.want(join(l), join(l)) {
				return
			}
		}
	}},
	// n declarations in a rule
	"declarations": {[2][]int{{2000, 5000}, {2000, 5000, 10000, 20000}}, func(h *huge) {
		all := strings.Join(seq(h.n, func(i int) string { return fmt.Sprintf("p-%d:x;", i) }), "")
		if !h.load(fmt.Sprintf(".all{%s}.one{p-%d:x}.but{%s}.imp{%sp-%d:x!important}.twice{%s%s}.use{%scolor:var(--x)}.set{%s--x:1}.x{--x:2}.c{color:blue}", all, h.n-1, strings.TrimSuffix(all, fmt.Sprintf("p-%d:x;", h.n-1)), all, h.n, all, all, all, all)) {
			return
		}
		for _, t := range [][2]string{{"all one", "all one"}, {"one all", "all"}, {"all but", "all but"}, {"but all", "all"}, {"all but one", "but one"}, {"all imp", "imp"}, {"imp all", "imp all"}, {"all twice", "twice"}, {"twice all", "all"}, {"twice but one", "but one"}, {"twice but", "twice but"}, {"set use", "set use"}, {"set all", "all"}, {"x use c", "use c"}, {"use all", "use all"}, {"use all c", "all c"}, {"x set use", "set use"}, {"set x use all", "set x use all"}} {
			if t[0] == "set x use all" {
				// the styles of set, but for the variable, are overridden
				t[1] = "x use all"
			}
			if !h.want(t[0], t[1]) {
				return
			}
		}
	}},
	// what was loaded is read back
	"read back": {[2][]int{{5000, 70000}, {5000, 10000, 34000, 70000, 140000, 300000}}, func(h *huge) {
		long := strings.Repeat("y", h.n)
		decls := seq(h.n, func(i int) string { return fmt.Sprintf("p-%d:v%d(%d)", i, i, i) })
		words := seq(h.n, func(i int) string { return fmt.Sprintf("w%d", i) })
		if !h.load(".d{" + strings.Join(decls, ";") + "}.w{grid-area:" + join(words) + ";--x:" + strings.Join(words, ",") + ";color:" + long + "}" + strings.Join(seq(h.n, numbered(".g")), ",") + "{color:red}.n" + long + "{" + long + ":x;--" + long + ":\"" + long + "\"}") {
			return
		}
		rules := h.m.Rules()
		if len(rules) != h.n+3 {
			h.fail("%d rules are there", len(rules))
			return
		}
		d := rules["d"].Declarations
		if len(d) != h.n {
			h.fail("of %d declarations %d are there", h.n, len(d))
			return
		}
		for i := range d {
			if d[i].Property+":"+d[i].Value != decls[i] {
				h.fail("%s reads %s:%s", decls[i], d[i].Property, d[i].Value)
				return
			}
			g := rules[fmt.Sprint("g", i)]
			if g.Selector == nil || g.Selector.String() != fmt.Sprint(".g", i) || len(g.Declarations) != 1 || g.Declarations[0].Property != "color" || g.Declarations[0].Value != "red" {
				h.fail("g%d of %d reads %v", i, h.n, g)
				return
			}
		}
		for i, want := range []string{join(words), strings.Join(words, ","), long} {
			if w := rules["w"].Declarations; len(w) != 3 || w[i].Value != want {
				h.fail("the value number %d of %d words or bytes is another one", i, h.n)
				return
			}
		}
		n := rules["n"+long]
		if len(n.Declarations) != 2 || n.Declarations[0].Property != long || n.Declarations[1].Property != "--"+long || n.Declarations[1].Value != "\""+long+"\"" || n.Selector.String() != ".n"+long {
			h.fail("the rule with names of %d bytes is another one", h.n)
		}
	}},
	// a stylesheet of n bytes
	"bytes": {[2][]int{{5000000, 17000000, 34000000}, {5000000, 9000000, 17000000, 34000000, 70000000, 135000000}}, func(h *huge) {
		const head, tail = ".a{color:red}.b{color:blue}", ".c{color:green}.a{opacity:0}"
		for i, fill := range []string{" ", "/*" + strings.Repeat("x", 996) + "*/", ".z{color:red}\n"} {
			h.m = newMerger(h.cache, h.ks)
			if i == 2 && h.n > 20000000 || !h.load(head+strings.Repeat(fill, h.n/len(fill))+tail) {
				return
			}
			if !h.want("a c", "a c") || !h.want("c b", "b") || !h.want("b c", "c") {
				return
			}
		}
	}},
	// a merger and its cache in turns
	"cache": {[2][]int{{70000}, {70000, 300000}}, func(h *huge) {
		for _, kind := range []string{"simple", "watch"} {
			u := newCacheUse(kind, h.ks)
			for i := 0; i < h.n; i++ {
				ops := []useOp{{Load: true, CSS: []string{".a{color:red}.b{color:blue}", ".b{opacity:0}", ""}[i%3]}, {List: "a b"}, {List: fmt.Sprint("b a w", i)}, {List: "a b"}}
				if i%7 == 3 {
					ops = ops[1:]
				}
				for _, op := range ops {
					h.calls++
					h.alive()
					if msg := u.do(op); msg != "" {
						h.fail("round %d: %s", i, msg)
						return
					}
				}
				if h.calls%64 < 4 && h.stop() {
					return
				}
			}
		}
	}},
	// names without a pattern: so many that some have the same hash of 32 bits
	"spread classes": {[2][]int{{150000}, {150000, 400000}}, func(h *huge) {
		k := seq(h.n, func(i int) string { return "k" + spread(i) })
		u := seq(h.n, func(i int) string { return "u" + spread(i) })
		if !h.load(strings.Join(seq(h.n, func(i int) string { return "." + k[i] + fmt.Sprintf("{p-%d:x}", i) }), "")) {
			return
		}
		_ = h.want(join(k), join(k)) && h.want(join(u), join(u)) && h.want(join(k, "z", u), join(k, "z", u))
	}},
	"spread properties": {[2][]int{{150000}, {150000, 400000}}, func(h *huge) {
		k, q := seq(h.n, numbered("k")), seq(h.n, numbered("q"))
		if !h.load(strings.Join(seq(h.n, func(i int) string {
			return fmt.Sprintf(".%s{p%s:x}.%s{p%[2]s:x%d!important}", k[i], spread(i), q[i], i)
		}), "")) {
			return
		}
		_ = h.want(join(k), join(k)) && h.want(join(k[1:], q), join(q)) && h.want(join(q), join(q))
	}},
	"spread conditions": {[2][]int{{150000}, {150000, 400000}}, func(h *huge) {
		for f, form := range []string{"@supports (p%[2]s:x){.k%[1]d{color:x}}", "@media (min-x%[2]s:1){.k%[1]d:hover{color:x}}", ".g%[2]s .k%[1]d{color:x}", ".k%[1]d:lang(%[2]s){color:x}"} {
			if f > 1 && h.n > 150000 {
				return
			}
			h.m = newMerger(h.cache, h.ks)
			k := seq(h.n, numbered("k"))
			if !h.load(strings.Join(seq(h.n, func(i int) string { return fmt.Sprintf(form, i, "g"+spread(i)) }), "")) || !h.want(join(k), join(k)) {
				return
			}
		}
	}},
	// a chain of n custom properties
	"variables": {[2][]int{{257, 300, 400}, {257, 300, 513, 700}}, func(h *huge) {
		if !h.load(strings.Join(seq(h.n, func(i int) string { return fmt.Sprintf(".k%d{--v%d:var(--v%d)}", i, i, i+1) }), "") + fmt.Sprintf(".s{--v%d:1}.u{color:var(--v0)}.c{color:x}", h.n)) {
			return
		}
		k := seq(h.n, numbered("k"))
		_ = h.want(join(k, "s u"), join(k, "s u")) && h.want(join("u s", reversed(k)), join("u s", reversed(k))) && h.want(join(k, "s c"), "c") && h.want(join(k, "s u c"), "c") && h.want(join("u", k[1:], "s"), "u") &&
			h.want(join("u", k[:h.n/2], k[h.n/2+1:], "s"), join("u", k[:h.n/2]))
	}},
}

// hugeFamily runs the cases with these names at all sizes.
func hugeFamily(c *kit.C, names ...string) {
	type job struct {
		name  string
		n     int
		ks    bool
		cache string
	}
	var jobs []job
	for _, name := range names {
		sizes := hugeCases[name].sizes[0]
		if !c.Quick {
			sizes = hugeCases[name].sizes[1]
		}
		c.Extra("huge: "+name, sizes[len(sizes)-1])
		for i := len(sizes) - 1; i >= 0; i-- {
			jobs = append(jobs, job{name, sizes[i], true, ""}, job{name, sizes[i], i%2 == 1, "simple"})
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].n > jobs[j].n })
	c.Parallel(len(jobs), func(w *kit.W, ji int) {
		j := jobs[ji]
		op := kit.Op{Kind: "huge", Text: j.name, Ints: []int{j.n}, KeepSort: j.ks, Cache: j.cache}
		script := kit.Script{Ops: []kit.Op{{Kind: "new", KeepSort: true}, op}}
		w.Head(script.Ops)
		var msg string
		var calls int64
		if p := w.Guard(func() kit.Script { return script }, func() { msg, calls = runHuge(op, c.Stop, w.Alive) }); p != "" {
			msg = p
		}
		if msg != "" {
			c.Violation(fmt.Sprintf("%s, %d: %s", j.name, j.n, msg), script)
			return
		}
		w.Trans += calls
		w.Traces++
		w.State(kit.Hash("huge", j.name, fmt.Sprint(j.n, j.ks)))
		c.Count("huge cases", 1)
	})
}

func runHuge(op kit.Op, stop func() bool, alive func()) (string, int64) {
	k, ok := hugeCases[op.Text]
	if !ok || len(op.Ints) == 0 {
		return "no such case", 0
	}
	h := &huge{n: op.Ints[0], ks: op.KeepSort, cache: op.Cache, m: newMerger(op.Cache, op.KeepSort), stop: stop, alive: alive}
	k.run(h)
	return h.msg, h.calls
}
