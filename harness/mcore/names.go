package mcore

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C17

// the characters of class names: everything but white space and NUL
func nameChars() []string {
	var out []string
	for b := 1; b < 0x80; b++ {
		switch b {
		case ' ', '\t', '\n', '\r', '\f':
		default:
			out = append(out, string(rune(b)))
		}
	}
	return append(out, "é", "ß", "世", "😀", "\u00a0", "\u2028", "\u3000", "\u0085", "\u00b7", "\u2603", "\u200d", "\ufffd", "\U0010ffff")
}

// escape forms of a class name
var escapeForms = []func(s string) string{
	escapeClass,
	func(s string) string { // everything by code point, with a space
		var b strings.Builder
		for _, r := range s {
			fmt.Fprintf(&b, "\\%x ", r)
		}
		return b.String()
	},
	func(s string) string { // six digits, upper case
		var b strings.Builder
		for _, r := range s {
			fmt.Fprintf(&b, "\\%06X", r)
		}
		return b.String()
	},
	func(s string) string { // everything that can be escaped with a backslash is
		var b strings.Builder
		for i, r := range s {
			switch {
			case r < 0x20 || r == 0x7f || r >= '0' && r <= '9' || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F':
				if r < 0x20 || r == 0x7f || i == 0 || i == 1 && s[0] == '-' {
					fmt.Fprintf(&b, "\\%x ", r)
				} else {
					b.WriteRune(r)
				}
			default:
				b.WriteString("\\" + string(r))
			}
		}
		return b.String()
	},
	firstByCode("%X", "\t"), // the first character by code point, ended by any white space
	firstByCode("%06x", "\n"),
	firstByCode("%x", "\r\n"),
	firstByCode("%06X", "\r\n"),
	firstByCode("%05x", "\f"),
	firstByCode("%x", "\r"),
}

func firstByCode(format, end string) func(string) string {
	return func(s string) string {
		r, n := utf8.DecodeRuneInString(s)
		rest := ""
		if n < len(s) {
			rest = escapeInner(s[n:])
		}
		return fmt.Sprintf("\\"+format+end+"%s", r, rest)
	}
}

// escapeInner escapes characters within a name.
func escapeInner(s string) string { return strings.TrimPrefix(escapeClass("a"+s), "a") }

func checkNames(c *kit.C) {
	c.Assume("class names do not contain (HTML) white space or NUL",
		"bounds: all names of up to two characters over all ASCII and some other characters, all of three (thorough: four) over a selection, in six escape forms; all pairs of the listed names in the listed selectors")
	recognised(c)
	namePairs(c)
	derivedNames(c)
	hugeFamily(c, "spread classes")
	nameContexts(c)
	mentions(c)
	longNames(c)
	manyNames(c)
}

// mentions: the text of the class also stands elsewhere in the selector, where it is not the class of the rule.
// What surrounds the class is the same for both classes of a pair.
func mentions(c *kit.C) {
	// % is the class, @ the name of one of the classes as it stands in a selector, ~ its text in a string
	templates := []string{
		`.x\\%`, `.x\\ %`, `.\\%`, `.x\\\.@%`, `.\.@%`, `.@x%`, `.x\.@ %`, `.x@%`, `#@%`, `#x\.@ %`,
		`[t=".~"]%`, `[t=".~"] %`, `%[t=".~"]`, `%[t=".~"] p`, `[t='.~'] > %`, `[t="\".~"]%`, `[t=".~ .~"]%`, `p[t*="x .~"]~%`, `[t~=".~"]%:hover`, `[t!=".~"] %`, `[t=~]%`,
		`.g:not(.@) %`, `:not(.@)>%`, `:not(.@ .y)+%`, `:not(.y .@)~%`, `:not(:is(.@)) %`, `:is(:not(.@) %)`, `:where(:not(.@)>%)`, `p:not(.@)::before`, `:has(.@) %`, `:has(.x, .@)>%:hover`,
		`:not([t=".~"]) %`, `:is(p:not(.@) %, .y)`, `:is(.y:not(.@), %)`, `:where(:has(.@), %):hover`, `:haschild(.@) %`, `:contains(".~") %`, `:containsOwn(".~")>%`, `%:contains(".~")`, `:lang(~) %`, `:not(.@):not(.@ *)>%`,
		`:is(:not(.@)):is(%)`, `:is(%):is(.y)`, `:is(.m):is(%):is(.y)`, `:where(.m):where(%):where(.y) p`, `:is(%:not(.m)):is(.n)`,
	}
	names := []string{"a", "z", "b1", "m", "a-b", "md:a", "w-1/2", "n.5", "x", "_", "\\"}
	c.Extra("selectors that mention a class", len(templates))
	c.Parallel(len(templates), func(w *kit.W, ti int) {
		t := templates[ti]
		if !strings.Contains(t, "%") {
			return
		}
		e := newEnv(w, "", true)
		for mi, m := range names { // the name that is mentioned
			var css strings.Builder
			sfx := fmt.Sprintf("-%d", mi)
			at, str := escapeClass(m+sfx), strings.ReplaceAll(m+sfx, "\\", "\\\\")
			if strings.Contains(t, "=~") || strings.Contains(t, "lang(~") {
				str = at
			}
			for _, n := range append([]string{"o"}, names...) {
				sel := strings.ReplaceAll(strings.ReplaceAll(t, "@", at), "=~", "=\x00")
				sel = strings.ReplaceAll(sel, "~=", "\x01")
				if strings.Contains(t, ".~") || strings.Contains(t, "(~") {
					sel = strings.ReplaceAll(strings.ReplaceAll(sel, ".~", "."+str), "(~", "("+str)
				}
				sel = strings.ReplaceAll(strings.ReplaceAll(sel, "\x00", str), "\x01", "~=")
				sel = strings.ReplaceAll(sel, "%", "."+escapeClass(n+sfx))
				fmt.Fprintf(&css, "%s{color:x}\n", sel)
			}
			if !e.add(w, css.String()) {
				return
			}
			for _, n := range append([]string{"o"}, names...) {
				for _, o := range append([]string{"o"}, names...) {
					if n == o {
						continue
					}
					if !e.expect(w, fmt.Sprintf("%s with %s mentioned", t, m+sfx), n+sfx+" "+o+sfx, o+sfx) {
						return
					}
					w.Trans++
				}
			}
			w.State(kit.Hash(t, m))
		}
	})
}

// recognised: a class is known under its name, whatever the name and the escape form.
func recognised(c *kit.C) {
	chars := nameChars()
	sel := strings.Split("a 1 - _ : / . \\ [ ] ( ) # % ! ' \" , + & é @ {", " ")
	var names []string
	for _, a := range chars {
		names = append(names, a)
		for _, b := range chars {
			names = append(names, a+b)
		}
	}
	for _, a := range sel {
		for _, b := range sel {
			for _, x := range sel {
				if c.Quick && (len(names)%3 != 0) && a != "-" && a != "1" && a != "\\" {
					names = append(names, "") // keep the count going
					continue
				}
				names = append(names, a+b+x)
			}
		}
	}
	if !c.Quick {
		for _, a := range sel {
			for _, b := range sel {
				for _, x := range sel {
					for _, y := range sel {
						names = append(names, a+b+x+y)
					}
				}
			}
		}
	}
	names = append(names, realNames...)
	var list []string
	for _, n := range names {
		if n != "" {
			list = append(list, n)
		}
	}
	c.Extra("names", len(list))
	ctxs := []string{"%", "%:hover", "%>p", ".gg %", "p%.hh", "%::before", ":is(%)"}
	const batchSize = 40
	jobs := (len(list) + batchSize - 1) / batchSize
	c.Parallel(jobs, func(w *kit.W, ji int) {
		var e *env
		part := list[ji*batchSize:]
		if len(part) > batchSize {
			part = part[:batchSize]
		}
		for fi, form := range escapeForms {
			for ci, ctx := range ctxs {
				if c.Quick && fi > 0 && ci > 0 && (ji+fi)%len(ctxs) != ci {
					continue
				}
				if e == nil || len(e.ops) > 30 {
					e = newEnv(w, "", true)
				}
				// the name and its partner in one sheet; what the loads before it defined is overwritten
				var css strings.Builder
				for i, n := range part {
					fmt.Fprintf(&css, "%s{color:red;prop-%d:x}\n", strings.ReplaceAll(ctx, "%", "."+form(n)), i)
				}
				for i := range part {
					fmt.Fprintf(&css, "%s{color:blue;prop-%d:y}\n", strings.ReplaceAll(ctx, "%", fmt.Sprintf(".partner-%d", i)), i)
				}
				if !e.add(w, css.String()) {
					return
				}
				for i, n := range part {
					p := fmt.Sprintf("partner-%d", i)
					if n == "gg" || n == "hh" {
						continue
					}
					what := fmt.Sprintf("name %q as %s", n, strings.ReplaceAll(ctx, "%", "."+form(n)))
					if !e.expect(w, what, n+" "+p, p) || !e.expect(w, what, p+" "+n, n) {
						return
					}
					w.Trans++
				}
			}
		}
		for _, n := range part {
			w.State(kit.Hash("name", n))
		}
		if c.Stop() {
			return
		}
	})
}

var realNames = strings.Fields(`w-1/2 p-0.5 -mt-2 hover:text-red-500 md:hover:p-4 group-hover:opacity-50 [&>*]:p-4 bg-[#fff] bg-[url('/x.png')] w-[calc(100%-1rem)] text-[color:var(--x)] top-[-1px] before:content-['x'] grid-cols-[1fr,2fr]
 !p-4 sm:!p-4 data-[state=open]:p-1 aria-[sort=ascending]:p-1 supports-[display:grid]:p-1 [--x:1px] peer-checked/x:p-1 @container @md:p-1 2xl:p-1 before:content-["\\201C"] [mask-type:luminance] a&b a*b a<b a>b a?b a^b a|b a~b a$b a;b a{b}c 1/2 -1 --x -- - _ .5 a.b #a a#b a\b \ \\ \a \31 \31_ a! !a`)

// pairNames are names that are parts of each other.
func pairNames() []string {
	ns := []string{
		"a", "b", "aa", "ab", "ba", "A", "a-", "-a", "a-a", "a--a", "a_", "_a", "a1", "1a", "1", "11", "-1", "a:a", "a:", ":a", "a/a", "a.a", ".a", "a.", "a\\", "\\a", "a\\a", "a:b", "a:b:c", "b:c", "hover:a", "a:hover", "a,b", "a>b", "a+b", "[a]", "[a", "a]", "(a)", "a#b", "#a", "!a", "a!", "a@b", "é", "aé", "éa", "é-a",
		"gg", "g", "ggg", "gg-1", "gg:x", "g:g", "hh", "h", "hhh", "a.gg", "gg.a", "is", "not", "hover", "p", "md", "before", "\\61", "a ", "\\", "'a'", "\"a\"", "a%", "%a", "*", "&", "a\u200d", "a=b", "a$", "^a", "a|b", "~", "{a}", "a;b",
	}
	for i := range ns {
		ns[i] = strings.TrimSpace(ns[i])
	}
	ns = append(ns, realNames[:24]...)
	var out []string
	seen := map[string]bool{}
	for _, n := range ns {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	return out
}

// namePairs: no two names are taken for one another.
func namePairs(c *kit.C) {
	ns := pairNames()
	// odd ones have a rule about a style of their own, and a partner; even ones have one about another style
	var rules []Rule
	for i, n := range ns {
		rules = append(rules, r(n, d(fmt.Sprintf("prop-%d", i))), r(fmt.Sprintf("zz%d", i), d(fmt.Sprintf("prop-%d", i))))
	}
	half := ""
	for i := range rules {
		if i/2%2 == 1 {
			half += rules[i].CSS() + "\n"
		}
	}
	css := sheet(rules)
	c.Parallel(len(ns), func(w *kit.W, i int) {
		e := newEnv(w, "", true)
		if !e.add(w, css) {
			return
		}
		h := newEnv(w, "", true)
		if !h.add(w, half) {
			return
		}
		for j, n := range ns {
			z := fmt.Sprintf("zz%d", i)
			list := n + " " + z
			want := list
			if i == j {
				want = z
			}
			if !e.expect(w, "two names", list, want) {
				return
			}
			if i != j && !e.expect(w, "two names", ns[i]+" "+n, ns[i]+" "+n) {
				return
			}
			// half of the names have no rule: they are unknown
			want = list
			if i == j && i%2 == 1 {
				want = z
			}
			if !h.expect(w, "unknown name", list, want) {
				return
			}
			w.Trans += 3
		}
		w.State(kit.Hash("pair", ns[i]))
	})
}

// nameContexts: in a selector around the class, the class itself is taken out exactly.
func nameContexts(c *kit.C) {
	ctxs := []string{"%>p", ".gg %", "%.gg:hover", ".gg:hover %", ":is(%)", "%:not(.gg)", "%+.gg", ".gg>%~.hh", "%[a=\"b\"]", "p%#id", ".gg %:hover>.hh", ":is(.gg %)", ".gg.hh %"}
	ns := pairNames()
	var names []string
	for _, n := range ns {
		if n != "gg" && n != "hh" {
			names = append(names, n)
		}
	}
	chunks := 6
	c.Parallel(len(ctxs)*chunks, func(w *kit.W, ji int) {
		ctx := Ctx{ID: "|x", Sel: ctxs[ji/chunks]}
		var rules []Rule
		for _, n := range names {
			rules = append(rules, rc(n, ctx, d("color")))
		}
		e := newEnv(w, "", true)
		if !e.add(w, sheet(rules)) {
			return
		}
		for i := ji % chunks; i < len(names); i += chunks {
			for j := range names {
				if i == j {
					continue
				}
				if !e.expect(w, "two names in "+ctx.Sel, names[i]+" "+names[j], names[j]) {
					return
				}
				w.Trans++
			}
			w.State(kit.Hash(ctx.Sel, names[i]))
		}
	})
	// different surroundings that look alike once the wrong part is taken out
	alike := [][2]string{{".a-b .%", ".b .%"}, {".%-b .%", ".b .%"}, {".%.b", ".b"}, {".gg-% .%", ".gg .%"}, {".%1 .%", ".1 .%"}, {".x.%", ".x"}, {".%\\:x .%", ".\\:x .%"}, {".x\\.% .%", ".x .%"}, {"[class~=\".%\"] .%", "[class~=\".\"] .%"}, {"#% .%", "# .%"}, {"% .%", " .%"}}
	w := c.Worker()
	for k, al := range alike {
		for _, n := range []string{"a", "ab", "a-b", "x"} {
			e := newEnv(w, "", true)
			s1 := strings.ReplaceAll(al[0], "%", n)
			s2 := strings.ReplaceAll(".q-z .%", "%", "other")
			if !e.add(w, s1+"{color:x}\n"+s2+"{color:y}") {
				return
			}
			if !e.expect(w, fmt.Sprintf("alike %d", k), n+" other", n+" other") {
				return
			}
		}
	}
}
