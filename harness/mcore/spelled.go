package mcore

import (
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C15: equivalent spellings of the parts of selectors

// cases are the ways of writing a keyword.
func cases(s string) (out []string) {
	up := strings.ToUpper(s)
	seen := map[string]bool{s: true}
	put := func(t string) {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	mixed := []byte(s)
	put(up)
	for i := range mixed {
		put(s[:i] + up[i:i+1] + s[i+1:])
		put(up[:i] + s[i:i+1] + up[i+1:])
		if i%2 == 0 {
			mixed[i] = up[i]
		}
	}
	put(string(mixed))
	return out
}

// escapesOf are the ways of writing a character of a name, which something other than white space follows.
func escapesOf(r rune) (out []string) {
	h := fmt.Sprintf("%x", r)
	if r >= 0x80 || !strings.ContainsRune("0123456789abcdefABCDEF", r) {
		out = append(out, "\\"+string(r))
	}
	for _, w := range []string{" ", "\t", "\n", "\r\n", "\f", "\r"} {
		out = append(out, "\\"+h+w)
	}
	return append(out, "\\"+strings.ToUpper(h)+" ", fmt.Sprintf("\\%06x", r), fmt.Sprintf("\\%06X", r), fmt.Sprintf("\\%06x ", r), fmt.Sprintf("\\%05x\r\n", r))
}

func spelledRules(c *kit.C) {
	type group struct {
		around string // "%" is the class and "@" the part
		plain  string
		others []string
	}
	var groups []group
	for _, p := range []string{"after", "backdrop", "before", "cue", "first-letter", "first-line", "grammar-error", "marker", "placeholder", "selection", "spelling-error"} {
		all := cases(p)
		for _, around := range []string{".%::@", ".%:hover::@", "p.%::@", ".x > .%::@", ".x .%:not(p)::@"} {
			groups = append(groups, group{around, p, all})
		}
		switch p {
		case "before", "after", "first-line", "first-letter":
			groups = append(groups, group{".%@", "::" + p, append(prefixed(":", all), prefixed(":", []string{p})...)})
		}
	}
	for _, p := range simplePseudos {
		for _, around := range []string{".%:@", ".%:not(:@)", ".%:focus:@::before", ".x:@ > .%", ":is(.%:@)"} {
			groups = append(groups, group{around, p, cases(p)})
		}
	}
	for _, p := range []string{"not(p)", "is(p,.a)", "where(p)", "has(p)", "nth-child(2n+1)", "nth-last-child(3)", "nth-of-type(n+2)", "nth-last-of-type(odd)", "lang(en)"} {
		name, arg := p[:strings.IndexByte(p, '(')], p[strings.IndexByte(p, '('):]
		var all []string
		for _, x := range cases(name) {
			all = append(all, x+arg)
		}
		groups = append(groups, group{".%:@", p, all}, group{".%:not(.x:@)", p, all}, group{".x:@ + .%", p, all})
	}
	for _, around := range []string{".%:nth-child(@)", ".%:nth-last-of-type(@)", ".%:not(:nth-child(@))"} {
		groups = append(groups, group{around, "odd", append(cases("odd"), "2n+1", "+2n+1", "2N+1", "2n + 1", "02n+01")}, group{around, "even", append(cases("even"), "2n", "2n+0", "+2n", "2N", "2n-0")},
			group{around, "1", []string{"+1", "01", "0n+1", "0N + 1"}}, group{around, "n", []string{"1n", "+n", "N", "n+0", "+1n-0"}}, group{around, "-n+2", []string{"-1n+2", "-N+2", "-01n + 02"}})
	}
	for _, t := range []string{"p", "details", "h1"} {
		for _, around := range []string{"@.%", ".% @", "@ > .%", ".%:not(@)", ":is(@, .x) .%", ".% + @.y"} {
			groups = append(groups, group{around, t, cases(t)})
		}
	}
	for _, k := range []string{"open", "data-x", "a"} {
		for _, around := range []string{".%[@]", ".%[@=v]", ".%[@|=\"v w\"]", ".%:not([@])", "[@] .%"} {
			groups = append(groups, group{around, k, cases(k)})
		}
	}
	for _, around := range []string{".%[a=@]", ".%:not([a^=@])", "[a|=@] > .%"} {
		groups = append(groups, group{around, `b`, []string{`"b"`, `'b'`, `\62 `, `"\62"`, `"\62 "`, "'\\62\r\n'", "\"b\\\n\""}}, group{around, `"b c"`, []string{`'b c'`, `"b\20 c"`, `b\ c`, `b\20 c`, "\"b\\20\r\nc\"", "\"b \\\nc\"", "\"b\\\r\n c\""}},
			group{around, `b i`, []string{`b I`, `"b"i`, `"b"I`, `'b' i`, `"b" I `}})
	}
	for _, n := range []string{"ab", "a:b", "w-1/2", "é", "-a1"} {
		rs := []rune(n)
		for i, r := range rs {
			for _, around := range []string{".@.%", ".% .@", ".%:not(.@)", ".@ .%", "#@.%", ":is(.@,p) > .%"} {
				var all []string
				for _, e := range escapesOf(r) {
					if i+1 == len(rs) && (strings.HasSuffix(e, "\r") || len(e) == 7 && e[0] == '\\') {
						continue // what follows may be white space
					}
					all = append(all, escapeClass(string(rs[:i]))+e+escapeInner(string(rs[i+1:])))
				}
				groups = append(groups, group{around, escapeClass(n), all})
			}
		}
	}
	const per = 8
	c.Parallel((len(groups)+per-1)/per, func(w *kit.W, gi int) {
		if c.Stop() {
			return
		}
		to := (gi + 1) * per
		if to > len(groups) {
			to = len(groups)
		}
		e := newEnv(w, "", true)
		var b strings.Builder
		rule := func(g group, class, part string) string {
			return strings.NewReplacer("%", class, "@", part).Replace(g.around)
		}
		for i := gi * per; i < to; i++ {
			g := groups[i]
			fmt.Fprintf(&b, "%s{color:red}\n", rule(g, fmt.Sprintf("p%d", i), g.plain))
			for n, o := range g.others {
				fmt.Fprintf(&b, "%s{color:red}\n", rule(g, fmt.Sprintf("q%d-%d", i, n), o))
			}
		}
		if !e.add(w, b.String()) {
			return
		}
		for i := gi * per; i < to; i++ {
			p := fmt.Sprintf("p%d", i)
			for n, o := range groups[i].others {
				q := fmt.Sprintf("q%d-%d", i, n)
				what := fmt.Sprintf("%q and %q", rule(groups[i], p, groups[i].plain), rule(groups[i], q, o))
				if !e.expect(w, what, p+" "+q, q) || !e.expect(w, what, q+" "+p, p) {
					return
				}
				w.Trans++
				w.State(kit.Hash("spelled", what))
			}
			c.Count("spellings of parts of selectors", int64(len(groups[i].others)))
		}
	})
}

func prefixed(p string, l []string) (out []string) {
	for _, x := range l {
		out = append(out, p+x)
	}
	return out
}
