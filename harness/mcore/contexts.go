package mcore

import "strings"

// selectorContexts are conditions made by the selector; the class stands for "%".
// Selectors with the same ID mean the same.
func selectorContexts() []Ctx {
	var out []Ctx
	add := func(id, sel string) { out = append(out, Ctx{ID: id, Sel: sel}) }
	add("", "%")
	for _, p := range simplePseudos {
		add(":"+p, "%:"+p)
	}
	for _, p := range pseudoElements {
		add("::"+p, "%::"+p)
	}
	for _, p := range vendorElements {
		add("::"+p, "%::"+p)
	}
	for _, p := range functional {
		add(p, "%"+p)
	}
	for _, set := range [][]string{
		{":hover", ":focus"}, {":hover", ":active"}, {":focus", ":active"}, {":hover", ":focus", ":active"}, {":first-child", ":hover"},
		{":not(:hover)", ":focus"}, {":disabled", ":hover"}, {":nth-child(2n)", ":hover"}, {":focus-visible", ":hover"}, {":hover", ":enabled"},
	} {
		perms(len(set), func(p []int) {
			sel := "%"
			for _, i := range p {
				sel += set[i]
			}
			add(strings.Join(set, ""), sel)
		})
	}
	for _, s := range []string{"%:hover::before", "%:focus::before", "%:hover::after", "%:first-child::before", "%:not(:hover)::before", "%:focus:hover::before"} {
		add(s, s)
	}
	// the order of pseudo-classes means nothing in larger selectors either
	for _, x := range []string{".gg %@", "%@.gg", ".gg > %@", "p%@", "%@ > p", ":is(.gg %)@", ".gg@ %", "%@ ~ .hh", ".gg %@::before", "%.gg@ > .hh"} {
		for _, set := range [][]string{{":hover", ":focus"}, {":hover", ":focus", ":first-child"}, {":not(.x)", ":hover"}} {
			perms(len(set), func(p []int) {
				sel := ""
				for _, i := range p {
					sel += set[i]
				}
				add("perm "+strings.Replace(x, "@", strings.Join(set, ""), 1), strings.Replace(x, "@", sel, 1))
			})
		}
	}
	for _, s := range compoundSelectors {
		add(s, s)
	}
	for _, s := range combinedSelectors {
		add(s, s)
	}
	for _, s := range nearMisses {
		add(s, s)
	}
	return out
}

var simplePseudos = strings.Fields(`first-child last-child first-of-type last-of-type only-child only-of-type input empty root link
 -moz-focusring -moz-placeholder focus-within focus-visible fullscreen modal picture-in-picture autofill host -moz-ui-invalid
 -moz-read-only enabled disabled checked visited hover active focus target popover-open read-only`)

var pseudoElements = strings.Fields(`after backdrop before cue first-letter first-line grammar-error marker placeholder selection spelling-error`)

var vendorElements = strings.Fields(`-webkit-outer-spin-button -webkit-search-decoration -webkit-file-upload-button -webkit-scrollbar
 -webkit-scrollbar-button -webkit-scrollbar-thumb -webkit-scrollbar-track`)

var functional = []string{
	":nth-child(2)", ":nth-child(3)", ":nth-child(2n)", ":nth-child(2n+1)", ":nth-child(3n+1)", ":nth-child(-n+2)", ":nth-last-child(2)", ":nth-last-child(3)",
	":nth-of-type(2)", ":nth-of-type(2n)", ":nth-last-of-type(2)", ":nth-last-of-type(2n)",
	":not(:hover)", ":not(:focus)", ":not(.x)", ":not(.y)", ":not(.x, .y)", ":not([hidden])", ":not(:not(:hover))",
	":has(img)", ":has(.x)", ":has(.y)", ":haschild(p)", ":haschild(q)",
	":is(:hover)", ":is(:focus)", ":is(:hover, :focus)", ":where(:hover)", ":where(:focus)", ":where(:hover, :focus)",
	":lang(en)", ":lang(fr)", `:contains("a")`, `:contains("b")`, `:containsOwn("a")`,
}

var compoundSelectors = []string{
	"%[open]", `%[open="x"]`, `%[open="y"]`, `%[open~="x"]`, `%[open|="x"]`, `%[open^="x"]`, `%[open$="x"]`, `%[open*="x"]`, `%[data-a="x"]`, `%[data-a="x" i]`,
	"%[open]:hover", "%[open]:focus", "%[open]::before", "%[open]::after",
	"%.gg", "%.hh", "%.gg:hover", "%.gg:focus", "%.gg::before", "%.gg::after", "p%", "q%", "p%:hover", "p%:focus", "p%::before", "p%::after", "%#id", "%#ie",
}

var combinedSelectors = []string{
	".gg %", ".gg > %", ".gg + %", ".gg ~ %", "% .gg", "% > .gg", "% + .gg", "% ~ .gg",
	".hh %", ".hh > %", "% .hh", "% > .hh", ".gg .hh %", ".hh .gg %", ".gg > .hh %", ".gg .hh > %", ".gg % .hh", ".hh % .gg",
	".gg:hover %", ".gg:focus %", ".gg %:hover", ".gg %:focus", ".gg:hover %:hover", ".gg:hover %:focus", ".gg::before %",
	".gg %::before", ".gg %::after", ".gg ~ %:hover", ".gg:checked ~ %", ".gg:checked + %",
	"% > :not([hidden]) ~ :not([hidden])", "% > * + *", "% > * ~ *", "% p", "% > p", "% + p", "% ~ p", "% q", "p %", "p > %", "q %", "* %", "% *",
	`[dir="rtl"] %`, `[dir="ltr"] %`, "[dir] %", "#id %", "#ie %", ":root %", ":host %",
	":is(.gg %)", ":is(.hh %)", ":where(.gg %)", ":where(.hh %)", "%:is(.gg *)", "%:is(.hh *)", "%:where(.gg *)", "%:where(.gg, .gg *)", ":is(.gg %):hover",
	`.group\/a:hover %`, `.group\/b:hover %`, `.group\/a:hover %:focus`,
}

// nearMisses look alike and mean different things.
var nearMisses = []string{
	"%.GG", "%.Gg", ".GG %", "% .GG", "% > .GG", "#ID %", "%#ID", `%[open="X"]`, `%[open="x" i]`, "%:not(.X)", "%:has(.X)", "%:not(.GG)", "%:is(.GG *)", `.Group\/a:hover %`,
	`%[open=" x"]`, `%[open="x "]`, `%[open="x  y"]`, `%[open="x y"]`, `%[open="xy"]`, `%[open=""]`, `%[open="]"]`, `%[open="\""]`, `%[open="'"]`, `%[open="\\"]`, `%[open=",x"]`, `%[open="x:hover"]`, `%[open="::before"]`,
	`%[open=".gg"]`, `%[open="> p"]`, `%:contains("a b")`, `%:contains("ab")`, `%:contains(" ab")`, `%:contains(")")`, `%:contains("a"):contains("b")`, `%:contains("a):contains(b")`,
	`.g\.h %`, ".g.h %", ".g .h %", ".g > .h %", ".g + .h %", ".g ~ .h %", ".gh %", `.g\:hover %`, ".g:hover %", `.g\ h %`, `.g\>h %`, `.g\,h %`, ":is(.g, .h) %", ":is(.g .h) %", ":is(.g.h) %", ":is(.g) .h %", ":where(.g, .h) %", `.g\#h %`, ".g#h %", `.g\[h\] %`, ".g[h] %",
	"%.g.h", "%.gh", `%.g\.h`, `%.g\:hover`, "%.g:hover", "%.g :hover", "%.g > :hover", "%.g *:hover *", `%.g\:\:before`, "%.g::before", "%.g .h", "%.g > .h", "% .g.h", "% .g .h", "% .gh", "% > .g > .h", "% > .g .h", "% .g > .h",
	":not(.g) %", ":not(.h) %", ":not(.g, .h) %", ":not(.g.h) %", ":not(.g .h) %", ":not(:not(.g)) %", "%:not(.g) .h", "%:not(.g .h)", "%:not(.g) > .h",
	"p.g %", "p .g %", "p.g > %", "p > .g > %", "p > .g %", "p .g > %", "p.g%", "a-b %", "a.b %", "a .b %", "a#b %", "a[b] %", "a [b] %", "a:hover %", "a :hover %",
	"%:nth-child(11)", "%:nth-child(n+1)", "%:nth-child(1n+11)", "%:nth-child(11n+1)", "%:nth-child(-1n+1)", "%:nth-child(-n+11)",
	"%:has(.g .h)", "%:has(.g > .h)", "%:has(.g, .h)", "%:has(.g.h)", "%:has(.g):has(.h)", "%:haschild(.g)", "%:haschild(.g .h)",
	"%[open=a]", "%[open=ai]", "%[open=a i]", `%[open="a i"]`, "%[a]", "%[ai]", "%:is(a b)", "%:is(ab)", "%:is(a.b)", "%:is(a .b)", "%:not(a:hover)", "%:not(a :hover)",
}

var mediaTexts = []string{
	"@media (min-width:640px)", "@media (min-width:641px)", "@media (max-width:640px)", "@media (min-width:640px) and (max-width:700px)",
	"@media print", "@media screen", "@media not print", "@media screen,print", "@media (hover:hover)", "@media (prefers-color-scheme:dark)", "@media (width >= 640px)",
	"@media (min-width:640px) and (hover:hover)",
}

var supportsTexts = []string{
	"@supports (min-width:640px)", "@supports (display:grid)", "@supports not (display:grid)", "@supports (display:grid) and (gap:1px)",
}

// atContexts are stacks of at-rules.
func atContexts() [][]string {
	out := [][]string{nil}
	for _, m := range mediaTexts {
		out = append(out, []string{m})
	}
	for _, m := range supportsTexts {
		out = append(out, []string{m})
	}
	m := mediaTexts
	s := supportsTexts
	out = append(out, []string{m[0], m[2]}, []string{m[0], m[8]}, []string{m[1], m[8]}, []string{m[4], m[8]}, []string{m[0], s[1]}, []string{m[0], s[2]}, []string{m[8], s[1]},
		[]string{s[1], s[3]}, []string{m[0], m[8], s[1]}, []string{m[0], m[8], s[2]}, []string{m[1], m[8], s[1]}, []string{m[0], m[9], s[1]})
	return out
}

func withAt(c Ctx, at []string) Ctx {
	return Ctx{ID: strings.Join(at, "{") + "|" + c.ID, At: at, Sel: c.Sel}
}

// perms calls f with all permutations of 0..n-1.
func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}
