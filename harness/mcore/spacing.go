package mcore

import (
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C15: white space and comments within selectors and conditions

// "%" is the class. "~" is a place where white space and comments may stand (nothing in the base), "_" one where they
// may stand beside the white space that has to (a space in the base), "&" one where only comments may stand (nothing in
// the base), "^" one where white space or a comment has to stand (a space in the base).
var spacedSelectors = []string{
	`~.%~{`, `~.%&:hover~{`, `~.%&.x~{`, `~p&.%&#id&[a]&:hover&:focus&::before~{`, `~.%_.x~{`, `~.x_p_.%~{`, `~.%~>~.x~{`, `~.x~+~.%~{`, `~.x~|~.%~{`, `~*&.%~{`, `~.%_*~{`,
	`~.%~,~.zz~{`, `~.zz&:hover~,~.%&:hover~{`,
	`~.%&:not(~.x~)~{`, `~.%&:not(~.x&:hover~)~{`, `~.%&:not(~.x_.y~)~{`, `~.%&:not(~.x~>~.y~,~p~)~{`, `~:is(~.%~,~p~)&:hover~{`, `~.%&:where(~p~,~.x_p~)~{`, `~.%&:has(~p~)~{`, `~.%&:has(~p_.x~)~{`,
	`~.%&:nth-child(~2n~+~1~)~{`, `~.%&:nth-child(~odd~)~{`, `~.%&:nth-child(~3~)~{`, `~.%&:nth-last-of-type(~-n~+~3~)~{`, `~.%&:lang(~en~)~{`,
	`~.%&[~a~]~{`, `~.%&[~a~=~b~]~{`, `~.%&[~a~=~"b"~]~{`, `~.%&[~a~=~b^i~]~{`, `~.%&[~a~=~"b"~i~]~{`, `~.%&[~a~|=~b~]~{`, `~.%&[~a~^=~b~]&[~b~]~{`, `~.%_[~a~]~{`,
	`@media~(~min-width~:~640px~)~{.%{`, `@media_print~{.%{`, `@media_not^print~{.%{`, `@media_print^and^(~color~)~{.%{`, `@media_not^all^and^(~min-width~:~1px~)~{.%{`, `@media~(~a~)~and^(~b~)~{.%{`,
	`@media_print~,~screen~{.%{`, `@media~(~width~<~5px~)~{.%{`, `@media~(~width~>=~5px~)~{.%{`, `@media~(~1px~<~width~<=~5px~)~{.%{`, `@media~(~aspect-ratio~:~16~/~9~)~{.%{`, `@media_only^screen^and^(~color~)~,~print~{.%{`,
	`@media~(~min-width~:~calc(~1px_+_2px~)~)~{.%{`, `@media~(~(~a~)~or^(~b~)~)~{.%{`, `@media_not^(~(~a~)~and^(~b~)~)~{.%{`,
	`@supports~(~display~:~grid~)~{.%{`, `@supports_not^(~display~:~grid~)~{.%{`, `@supports~(~a~:~b~)~and^(~c~:~d~)~{.%{`, `@supports~(~a~:~b_c~)~{.%{`, `@supports_selector(p&:hover)~{.%{`,
	`@media_print~{@supports~(~a~:~b~)~{.%{`,
}

var spacedFillers = map[byte][]string{
	'~': {" ", "\n", "\t ", "/**/", "/* x */", "/*{*/", " /* ' */ ", "/*)*/\n", "/*a*//*b*/"},
	'_': {"  ", "\n", " /**/", "/**/ ", " /* x */ ", "/*a*/ /*b*/"},
	'&': {"/**/", "/* x */", "/*{*/", "/*a*//*b*/"},
	'^': {"  ", "\n", "/**/", " /**/", "/* x */", "/*)*/ "},
}

// what differs from one another, although only in white space and comments
var spacedApart = []string{
	`.%.x{`, `.% .x{`, `.% /**/ .x .x{`, `.%:hover{`, `.% :hover{`, `.%:not(.x.y){`, `.%:not(.x .y){`, `.%:not(.x :hover){`, `.%:not(.x:hover){`, `.%[a=b]{`, `.%[a=bi]{`, `.%[a=b i]{`, `.%[a="b i"]{`, `.%[a="b  i"]{`, `.%[a="b/**/i"]{`,
	`.%:not(p.x){`, `.%:not(p .x){`, `.%:is(p x){`, `.%:is(px){`, `.%:nth-child(2n + 1){`, `.%:nth-child(2n){`, `.%[ab]{`, `.%[a]{`,
	`@media print{.%{`, `@media notprint{.%{`, `@media not print{.%{`, `@media (a) and (b){.%{`, `@media (a) or (b){.%{`, `@media (aspect-ratio:1/69){.%{`, `@media (aspect-ratio:16/9){.%{`, `@media (width<5px){.%{`, `@media (width<=5px){.%{`, `@media (a:b c){.%{`, `@media (a:bc){.%{`,
	`@supports (a:b c){.%{`, `@supports (a:bc){.%{`, `@supports (a:b){.%{`, `@supports selector(p:hover){.%{`, `@supports selector(p:focus){.%{`, `@supports selector(p>q){.%{`, `@supports selector(p q){.%{`, `@supports (a:"b c"){.%{`, `@supports (a:"b  c"){.%{`, `@supports (a:"bc"){.%{`,
}

func spacing(c *kit.C) {
	closing := func(rule string) string {
		return strings.Repeat("}", strings.Count(strings.NewReplacer("/*{*/", "").Replace(rule), "{"))
	}
	parse := func(t string) (kinds []byte, lits []string) {
		cur := ""
		for i := 0; i < len(t); i++ {
			// |=, ^= and | as the combinator ~ are not slots
			if strings.IndexByte("~_&^", t[i]) >= 0 && !(t[i] == '^' && t[i+1] == '=') {
				kinds = append(kinds, t[i])
				lits = append(lits, cur)
				cur = ""
				continue
			}
			if t[i] == '|' && t[i+1] != '=' {
				cur += "~"
				continue
			}
			cur += t[i : i+1]
		}
		return kinds, append(lits, cur)
	}
	type variant struct{ text, what string }
	c.Parallel(len(spacedSelectors), func(w *kit.W, i int) {
		kinds, lits := parse(spacedSelectors[i])
		make1 := func(fill func(s int) string) string {
			var b strings.Builder
			for s, l := range lits {
				b.WriteString(l)
				if s < len(kinds) {
					f := fill(s)
					if f == "" && (kinds[s] == '_' || kinds[s] == '^') {
						f = " "
					}
					b.WriteString(f)
				}
			}
			return b.String()
		}
		var texts []string
		seen := map[string]bool{}
		add := func(fill func(s int) string) {
			if t := make1(fill); !seen[t] {
				seen[t] = true
				texts = append(texts, t)
			}
		}
		for s, k := range kinds {
			for _, f := range spacedFillers[k] {
				add(func(x int) string {
					if x == s {
						return f
					}
					return ""
				})
				for s2 := range kinds[:s] {
					for n, f2 := range spacedFillers[kinds[s2]] {
						if c.Quick && (n+s2+s)%4 != 0 {
							continue
						}
						add(func(x int) string {
							switch x {
							case s:
								return f
							case s2:
								return f2
							}
							return ""
						})
					}
				}
			}
		}
		for n := 0; n < 20; n++ {
			add(func(x int) string { fs := spacedFillers[kinds[x]]; return fs[(n+n/9*x)%len(fs)] })
		}
		base := make1(func(int) string { return "" })
		const batch = 100
		for from := 0; from < len(texts) && !c.Stop(); from += batch {
			e := newEnv(w, "", true)
			to := from + batch
			if to > len(texts) {
				to = len(texts)
			}
			var b strings.Builder
			fmt.Fprintf(&b, "%scolor:red%s\n", strings.ReplaceAll(base, "%", "p"), closing(base))
			for n := from; n < to; n++ {
				fmt.Fprintf(&b, "%scolor:red%s\n", strings.ReplaceAll(texts[n], "%", fmt.Sprintf("q%d", n)), closing(texts[n]))
			}
			if !e.add(w, b.String()) {
				return
			}
			for n := from; n < to; n++ {
				q := fmt.Sprintf("q%d", n)
				what := fmt.Sprintf("%s and %s", base, texts[n])
				if !e.expect(w, what, "p "+q, q) || !e.expect(w, what, q+" p", "p") {
					return
				}
				w.Trans++
				w.State(kit.Hash("spacing", texts[n]))
			}
			c.Count("spacings", int64(to-from))
		}
	})
	// and what differs
	w := c.Worker()
	e := newEnv(w, "", true)
	var b strings.Builder
	for i, t := range spacedApart {
		fmt.Fprintf(&b, "%scolor:red%s\n%scolor:red%s\n", strings.ReplaceAll(t, "%", fmt.Sprintf("p%d", i)), closing(t), strings.ReplaceAll(t, "%", fmt.Sprintf("q%d", i)), closing(t))
	}
	if !e.add(w, b.String()) {
		return
	}
	for i := range spacedApart {
		for j := range spacedApart {
			p, q := fmt.Sprintf("p%d", i), fmt.Sprintf("q%d", j)
			want := p + " " + q
			if i == j {
				want = q
			}
			if !e.expect(w, fmt.Sprintf("%s and %s", spacedApart[i], spacedApart[j]), p+" "+q, want) {
				return
			}
			w.Trans++
		}
	}
}
