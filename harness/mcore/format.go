package mcore

import (
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C15

// The base stylesheet is text with slots: "~" is a place where white space and comments may stand (nothing in the base),
// "_" is one where at least one white space has to stand (a space in the base), "^" is one after a declaration
// (a semicolon in the base), "$" is one after the last declaration (nothing in the base), "¦" is a place where only
// white space may stand (nothing in the base).
const formatBase = `~.a1~{~color~:~red^margin-top~:~1px$~}~.a2~{~color~:~blue~!¦important$~}~.b1~{~--x~:~1^padding~:~1px_2px$~}~.b2~{~color~:~var(¦--x¦)^opacity~:~0.5$~}` +
	`~.c1:hover~{~color~:~red$~}~.c2:hover:focus~{~color~:~red$~}~.c3::before~{~color~:~red$~}~.d1~,~.d2~{~margin~:~0$~}` +
	`~@media_(¦min-width¦:¦640px¦)~{~.e1~{~color~:~red$~}~.e2:hover~{~margin~:~0$~}~}~@supports_(¦display¦:¦grid¦)~{~.f1~{~color~:~red$~}~}` +
	`~.g1¦>¦p~{~color~:~red$~}~.k_.g2~{~color~:~red$~}~.h1~{~border-top-width~:~1px^width~:~calc(1px_+_2px)$~}~.i\:1~{~color~:~red$~}~`

// classes that are not touched by the variation and conflict with those that are
const formatPartners = `.pa{color:x}.pb{opacity:x}.pc:hover{color:x}.pd:hover:focus{color:x}.pe::before{color:x}.pf{margin:0}@media (min-width:640px){.pg{color:x}.ph:hover{margin:0}}@supports (display:grid){.pi{color:x}}.pj>p{color:x}.k .pk{color:x}.pl{border-width:x}.pm{margin-top:0;color:red;width:x}.pn{--x:2}.po{stroke:var(--x)}`

var formatFillers = []string{" ", "\n", "\t", "\r\n", "\f", "  \n\t", "/**/", "/* x */", "/*{}*/", "/*;.a1{color:x}*/", " /*'*/ ", "/*\"*/\n", "/* * / ** */"}
var formatSpaces = []string{"  ", "\n", "\t", "\r\n", "\f", " \n\t "}
var formatSemis = []string{";;", " ; ", ";\n", ";/**/", "/**/;", "; ;;", "\n;\n"}
var formatLast = []string{";", " ;", ";;", "; ", ";/**/", ";\n\n"}

type slot struct {
	kind byte
	pos  int
}

func formatSlots(base string) (slots []slot, lits []string) {
	cur := ""
	for _, ch := range base {
		switch ch {
		case '~', '_', '^', '$', '¦':
			k := byte(ch)
			if ch == '¦' {
				k = '|'
			}
			slots = append(slots, slot{k, len(lits)})
			lits = append(lits, cur)
			cur = ""
		default:
			cur += string(ch)
		}
	}
	return slots, append(lits, cur)
}

func (s slot) def() string {
	switch s.kind {
	case '_':
		return " "
	case '^':
		return ";"
	}
	return ""
}

func (s slot) fill() []string {
	switch s.kind {
	case '_':
		return formatSpaces
	case '^':
		return formatSemis
	case '$':
		return formatLast
	case '|':
		return append([]string{" ", "/**/", "/* ) */", " /*'*/\n"}, formatSpaces...)
	}
	return formatFillers
}

func build(slots []slot, lits []string, fill func(i int) string) string {
	var b strings.Builder
	for i, l := range lits {
		b.WriteString(l)
		if i < len(slots) {
			b.WriteString(fill(i))
		}
	}
	return b.String()
}

func checkFormatting(c *kit.C) {
	c.Assume("white space within quoted strings, names and numbers is not formatting; at-rule conditions are compared after white space is normalised, otherwise as written",
		"bounds: one stylesheet with every kind of construct, each filler at each slot, each pair of slots with a part of the fillers (thorough: all), each filler everywhere; the listed equivalent spellings")
	spelledRules(c)
	pseudoOrders(c)
	pseudoArguments(c)
	spacing(c)
	slots, lits := formatSlots(formatBase)
	c.Extra("slots", len(slots))
	base := build(slots, lits, func(i int) string { return slots[i].def() })
	names := []string{"a1", "a2", "b1", "b2", "c1", "c2", "c3", "d1", "d2", "e1", "e2", "f1", "g1", "g2", "h1", "i:1", "pa", "pb", "pc", "pd", "pe", "pf", "pg", "ph", "pi", "pj", "pk", "pl", "pm", "pn", "po"}
	type job struct{ i, j int }
	var jobs []job
	for i := range slots {
		jobs = append(jobs, job{i, -1})
		for j := i + 1; j < len(slots); j++ {
			jobs = append(jobs, job{i, j})
		}
	}
	ref := newComparer(c, base, names, nil)
	if ref == nil {
		return
	}
	const parts = 64
	c.Parallel(parts, func(w *kit.W, ji int) {
		cmp := ref.worker(w)
		for k := ji; k < len(jobs); k += parts {
			i, j := jobs[k].i, jobs[k].j
			for fi, f := range slots[i].fill() {
				var gs []string
				if j >= 0 {
					gs = slots[j].fill()
				} else {
					gs = []string{""}
				}
				for gi, g := range gs {
					if j >= 0 && c.Quick && (gi+fi*3+i+j)%47 != 0 {
						continue
					}
					css := build(slots, lits, func(x int) string {
						switch x {
						case i:
							return f
						case j:
							return g
						}
						return slots[x].def()
					})
					if !cmp.check(css, fmt.Sprintf("filler %q at %d, %q at %d", f, i, g, j)) {
						return
					}
					w.Trans++
				}
			}
			w.State(kit.Hash("slots", fmt.Sprint(i, j)))
			if c.Stop() {
				return
			}
		}
	})
	// everywhere at once
	c.Parallel(len(formatFillers), func(w *kit.W, ji int) {
		cmp := ref.worker(w)
		for k := 0; k < 8; k++ {
			css := build(slots, lits, func(x int) string {
				fs := slots[x].fill()
				switch {
				case k == 0:
					return fs[ji%len(fs)]
				case k == 1 && slots[x].kind == '~':
					return fs[ji%len(fs)]
				case k == 2 && slots[x].kind == '|':
					return fs[ji%len(fs)]
				case k == 3 && slots[x].kind == '_':
					return fs[ji%len(fs)]
				case k == 4 && (slots[x].kind == '$' || slots[x].kind == '^'):
					return fs[ji%len(fs)]
				case k >= 5:
					return fs[(ji+x*k)%len(fs)]
				}
				return slots[x].def()
			})
			if !cmp.check(css, fmt.Sprintf("fillers everywhere %d/%d", ji, k)) {
				return
			}
			w.Trans++
		}
	})
	equivalents(c, ref, base)
}

// comparer compares a variant of a stylesheet with the base, over lists of up to two classes and some longer ones.
type comparer struct {
	c        *kit.C
	names    []string
	lists    []string
	want     []string
	w        *kit.W
	e        *env
	partners string
	absent   []string // classes that must have no rule
}

func newComparer(c *kit.C, base string, names []string, more []string) *comparer {
	return newComparerWith(c, formatPartners, base, names, more)
}

func newComparerWith(c *kit.C, partners, base string, names []string, more []string) *comparer {
	r := &comparer{c: c, names: names, lists: more, partners: partners}
	for _, a := range names {
		for _, b := range names {
			if a != b {
				r.lists = append(r.lists, a+" "+b)
			}
		}
	}
	// a few long ones
	all := strings.Join(names, " ")
	r.lists = append(r.lists, all)
	var rev []string
	for i := len(names) - 1; i >= 0; i-- {
		rev = append(rev, names[i])
	}
	r.lists = append(r.lists, strings.Join(rev, " "))
	w := c.Worker()
	e := newEnv(w, "", true)
	if !e.add(w, partners) || !e.add(w, base) {
		return nil
	}
	for _, l := range r.lists {
		out, msg := e.merge(w, l)
		if msg != "" {
			c.Violation(msg, kit.Script{Ops: append(e.ops, kit.Op{Kind: "merge", List: l})})
			return nil
		}
		r.want = append(r.want, out)
	}
	changed := 0
	for i, l := range r.lists {
		if r.want[i] != l {
			changed++
		}
	}
	c.Extra("lists compared", len(r.lists))
	c.Extra("lists with a conflict", changed)
	return r
}

func (r *comparer) worker(w *kit.W) *comparer {
	x := *r
	x.w = w
	x.e = nil
	return &x
}

// check loads a variant on a merger whose rules were removed, and compares.
func (r *comparer) check(css, what string) bool {
	if r.e == nil {
		r.e = newEnv(r.w, "", true)
		if !r.e.add(r.w, r.partners) {
			return false
		}
	}
	e := r.e
	for k := range e.m.Rules() {
		if k[0] != 'p' && k != "k" {
			delete(e.m.Rules(), k)
		}
	}
	e.ops = e.ops[:2]
	if !e.add(r.w, css) {
		return false
	}
	for i, l := range r.lists {
		if !e.expect(r.w, what, l, r.want[i]) {
			return false
		}
	}
	for _, a := range r.absent {
		if _, ok := e.m.Rules()[a]; ok {
			op := kit.Op{Kind: "rules"}
			for _, k := range sortedKeys(e.m.Rules()) {
				if k != a {
					op.Args = append(op.Args, k)
				}
			}
			r.c.Violation(fmt.Sprintf("%s: there is a rule for %q", what, a), kit.Script{Ops: append(e.ops, op)})
			return false
		}
	}
	r.c.Count("variants", 1)
	r.c.Sample("%s", css)
	return true
}

// equivalents: other spellings of the same stylesheet.
func equivalents(c *kit.C, ref *comparer, base string) {
	type rep struct{ from, to string }
	var reps []rep
	add := func(from string, to ...string) {
		for _, t := range to {
			reps = append(reps, rep{from, t})
		}
	}
	add("color:", "COLOR:", "Color:", "cOlOr:")
	add("margin-top:", "MARGIN-TOP:", "Margin-Top:")
	add("border-top-width:", "BORDER-TOP-WIDTH:", "border-TOP-width:")
	add("padding:", "PADDING:")
	add("@media ", "@MEDIA ", "@Media ", "@meDia ", "@media\n", "@media\t")
	add("@supports ", "@SUPPORTS ", "@Supports ")
	add("@media (min-width:640px)", "@media(min-width:640px)", "@media ( min-width : 640px )", "@media (min-width: 640px)", "@media (min-width :640px)", "@media  (min-width:640px) ")
	add("@supports (display:grid)", "@supports(display:grid)", "@supports (display: grid)", "@supports ( display:grid )")
	add("::before", ":before")
	add(":hover:focus", ":focus:hover")
	add(`.i\:1`, `.i\3a 1`, `.i\3A 1`, `.i\00003a1`, `.i\00003A1`, `.\i\:1`, `.i\:\31 `, `.\69\:1`, `.\69 \:1`, ".i\\3a\n1", ".i\\3a\t1", `.\000069\00003a\000031`)
	add(".a1", `.\61 1`, `.\61\31 `, `.a\31`, `.\0000611`, `.a\000031`)
	add(".g1>p", ".g1 > p", ".g1> p", ".g1 >p")
	add(".k .g2", ".k  .g2", ".k\n.g2", ".k\t.g2")
	add(".d1,.d2", ".d2,.d1", ".d1 , .d2", ".d1,\n.d2", ".d1,.d1,.d2")
	add("!important", "!IMPORTANT", "! important", "!Important", " !important", "!\timportant")
	add("var(--x)", "VAR(--x)", "var( --x )", "Var(--x)", "var(--x,1px)", "var(--x, 1px)")
	add("color:red", "color: red", "color:RED", "color:red ", "color:red;", "color :red")
	// declarations of the same rule in another order
	add(".b2{color:var(--x);opacity:0.5}", ".b2{opacity:0.5;color:var(--x)}")
	add(".a1{color:red;margin-top:1px}", ".a1{margin-top:1px;color:red}", ".a1{color:red;color:red;margin-top:1px}", ".a1{color:blue;margin-top:2px;color:red}")
	c.Extra("equivalent spellings", len(reps))
	c.Parallel(len(reps)+1, func(w *kit.W, i int) {
		cmp := ref.worker(w)
		if i == len(reps) {
			// a byte order mark counts only at the very start
			for _, bom := range []string{"", "\ufeff"} {
				for _, pre := range []string{"", "<!-- ", "@charset \"utf-8\";", "\n\n", "\r\n", "\f", "/* a */ /* b */"} {
					if bom+pre == "" {
						continue
					}
					for _, text := range []string{pre + base, strings.ReplaceAll(pre+base, "\n", "\r\n")} {
						if !cmp.check(bom+text, fmt.Sprintf("prefix %q", bom+pre)) {
							return
						}
					}
				}
			}
			return
		}
		a := reps[i]
		if !strings.Contains(base, a.from) {
			panic("no " + a.from + " in the base")
		}
		// every occurrence, and the first one
		if !cmp.check(strings.ReplaceAll(base, a.from, a.to), fmt.Sprintf("%q instead of %q", a.to, a.from)) || !cmp.check(strings.Replace(base, a.from, a.to, 1), fmt.Sprintf("%q instead of the first %q", a.to, a.from)) {
			return
		}
		w.State(kit.Hash("equivalent", a.to))
		// two at a time
		for _, b := range reps[:i] {
			css := strings.ReplaceAll(base, a.from, a.to)
			if strings.Contains(css, b.from) && b.from != a.from && !strings.Contains(a.to, b.from) {
				if !cmp.check(strings.ReplaceAll(css, b.from, b.to), fmt.Sprintf("%q and %q", a.to, b.to)) {
					return
				}
				w.Trans++
			}
			if c.Stop() {
				return
			}
		}
	})
}

// pseudoArguments: nor does their order in arguments, however deep.
func pseudoArguments(c *kit.C) {
	some := []string{":hover", ":focus", ":focus-within", ":first-child", ":nth-child(2n+1)", ":not(.a)", ":is(.a,.b)", ":where(p)", ":has(p)", ":disabled", ":lang(en)"}
	wraps := []string{".%:not(@)", ".%:not(p@)", ".%:not(.a, x@)", ".%:is(@)", ".%:where(.x@)", ".%:has(@)", ".%:has(p @)", ".%:not(:is(@))", ".%:is(:not(.x@))", ".%:hover:not(@):focus", ".%:not(@)::before", ":is(.%@)",
		":where(.x .%@, .x@)", ".gg:not(@) .%", ".gg:is(.x@) > .%:hover", "p.%:not(@)", ".% > p:not(@)", ":is(:is(.%@))", ".%:is(:has(:not(@)))", ".%:not(@ p) + p", ".gg@ ~ .%:not(.x@)"}
	c.Extra("pseudo-classes in arguments", len(some)*(len(some)-1)*len(wraps))
	c.Parallel(len(wraps), func(w *kit.W, i int) {
		e := newEnv(w, "", true)
		var b strings.Builder
		each := func(f func(n, x, y int)) {
			n := 0
			for x := range some {
				for y := range some {
					if x != y {
						f(n, x, y)
						n++
					}
				}
			}
		}
		each(func(n, x, y int) {
			for _, d := range [][2]string{{"p", some[x] + some[y]}, {"q", some[y] + some[x]}, {"r", some[x] + some[x]}} {
				fmt.Fprintf(&b, "%s{color:red}\n", strings.NewReplacer("%", fmt.Sprintf("%s%d", d[0], n), "@", d[1]).Replace(wraps[i]))
			}
		})
		if !e.add(w, b.String()) {
			return
		}
		ok := true
		each(func(n, x, y int) {
			p, q, r := fmt.Sprintf("p%d", n), fmt.Sprintf("q%d", n), fmt.Sprintf("r%d", n)
			ok = ok && e.expect(w, "order of pseudo-classes in arguments", p+" "+q, q) && e.expect(w, "order of pseudo-classes in arguments", q+" "+p, p) &&
				e.expect(w, "other pseudo-classes in arguments", p+" "+r, p+" "+r)
			w.Trans++
			w.State(kit.Hash("arguments", p, wraps[i]))
		})
	})
}

// pseudoOrders: the order of the pseudo-classes, of all kinds and also several of the same kind, does not matter in any surroundings.
func pseudoOrders(c *kit.C) {
	var all []string
	for _, p := range simplePseudos {
		all = append(all, ":"+p)
	}
	all = append(all, functional...)
	all = append(all, ":not(.a)", ":not(.aa)", ":not(p)", ":not(.a):not(.aa)", ":nth-child(n+2)", ":nth-child(-n+9)")
	around := []string{"%", "%::before", "p%", "%.gg", ".gg %", ".gg > %", "% > p", "% + .hh", ":is(.gg %)", "%[open]", "#id%"}
	if c.Quick {
		around = []string{"%", "%::before", "%.gg", ".gg > %", ":is(.gg %)"}
	}
	c.Parallel(len(all), func(w *kit.W, i int) {
		for _, x := range around {
			place := func(class, pseudos string) string {
				return strings.Replace(x, "%", "."+class+pseudos, 1)
			}
			e := newEnv(w, "", true)
			var b strings.Builder
			for j, p := range all {
				fmt.Fprintf(&b, "%s{color:red}%s{color:red}", place(fmt.Sprintf("p%d", j), all[i]+p), place(fmt.Sprintf("q%d", j), p+all[i]))
				k := (i*7 + j*5 + 3) % len(all)
				fmt.Fprintf(&b, "%s{color:red}%s{color:red}\n", place(fmt.Sprintf("r%d", j), all[i]+p+all[k]), place(fmt.Sprintf("s%d", j), all[k]+p+all[i]))
			}
			if !e.add(w, b.String()) {
				return
			}
			for j := range all {
				for _, n := range []string{"pq", "rs"} {
					one, other := fmt.Sprintf("%c%d", n[0], j), fmt.Sprintf("%c%d", n[1], j)
					if !e.expect(w, "order of pseudo-classes", one+" "+other, other) || !e.expect(w, "order of pseudo-classes", other+" "+one, one) {
						return
					}
				}
				w.Trans++
			}
			w.State(kit.Hash("order", all[i], x))
			if c.Stop() {
				return
			}
		}
	})
}
