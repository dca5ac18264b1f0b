package mcore

import (
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// Real stylesheets: what Tailwind writes. The rules of the model come from a reader of such sheets that is
// independent of the repository: it knows blocks, lists of selectors, and classes in them, and no more.

// plainSheet reads the rules of a stylesheet that is well-formed and has nothing but rules, @media, @supports and
// other at-rules, which are skipped.
func plainSheet(css string) []Rule {
	css = withoutComments(css)
	var rules []Rule
	readBlocks(css, nil, &rules)
	return rules
}

// withoutComments takes the comments out; there is nothing like one in strings.
func withoutComments(s string) string {
	var b strings.Builder
	for {
		i := strings.Index(s, "/*")
		if i < 0 {
			return b.String() + s
		}
		b.WriteString(s[:i])
		s = s[i+2:]
		s = s[strings.Index(s, "*/")+2:]
	}
}

// until is the offset of the first of the characters outside strings, parentheses, brackets and escapes, or -1.
func until(s, chars string) int {
	level, quote := 0, byte(0)
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == '\\':
			i++
		case quote != 0:
			if ch == quote {
				quote = 0
			}
		case level == 0 && strings.IndexByte(chars, ch) >= 0:
			return i
		case ch == '"' || ch == '\'':
			quote = ch
		case ch == '(' || ch == '[' || ch == '{':
			level++
		case ch == ')' || ch == ']' || ch == '}':
			level--
		}
	}
	return -1
}

func readBlocks(s string, at []string, rules *[]Rule) {
	for {
		i := until(s, "{;")
		if i < 0 {
			return
		}
		head := strings.TrimSpace(s[:i])
		if s[i] == ';' {
			s = s[i+1:]
			continue
		}
		s = s[i+1:]
		j := until(s, "}")
		body := s[:j]
		s = s[j+1:]
		switch {
		case strings.HasPrefix(head, "@media") || strings.HasPrefix(head, "@supports"):
			readBlocks(body, append(append([]string{}, at...), oneSpace(head)), rules)
		case strings.HasPrefix(head, "@"):
		default:
			decls := readDecls(body)
			for _, sel := range splitAt(head, ",") {
				for class, ctx := range selectorClasses(sel) {
					id := strings.Join(at, "{") + "{" + ctx
					*rules = append(*rules, Rule{Class: class, Ctx: Ctx{ID: id, At: at, Sel: ctx}, Decls: decls})
				}
			}
		}
	}
}

func splitAt(s, chars string) []string {
	var out []string
	for {
		i := until(s, chars)
		if i < 0 {
			return append(out, strings.TrimSpace(s))
		}
		out = append(out, strings.TrimSpace(s[:i]))
		s = s[i+1:]
	}
}

func oneSpace(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	for _, p := range []string{":", ">", "~", "+", ",", "(", ")"} {
		s = strings.ReplaceAll(s, " "+p, p)
		if p != ")" {
			s = strings.ReplaceAll(s, p+" ", p)
		}
	}
	return s
}

var (
	useOf      = regexp.MustCompile(`var\(\s*(--[A-Za-z0-9_-]+)`)
	importance = regexp.MustCompile(`\s*!important$`)
	hexEscape  = regexp.MustCompile(`^\\([0-9a-fA-F]{1,6})\s?`)
	bareValue  = regexp.MustCompile(`=([a-z-]+)\]`)
)

func readDecls(s string) []Decl {
	var out []Decl
	for _, t := range splitAt(s, ";") {
		i := strings.Index(t, ":")
		if i < 0 {
			continue
		}
		d := Decl{Prop: strings.TrimSpace(t[:i]), Val: strings.TrimSpace(t[i+1:])}
		if v := importance.ReplaceAllString(d.Val, ""); v != d.Val {
			d.Imp, d.Val = true, v
		}
		for _, m := range useOf.FindAllStringSubmatch(d.Val, -1) {
			d.Uses = append(d.Uses, m[1])
		}
		out = append(out, d)
	}
	return out
}

// selectorClasses are the classes of a selector outside :not and :has, each with the selector in which "%" stands for it.
func selectorClasses(sel string) map[string]string {
	out := map[string]string{}
	skip := 0 // the end of :not( or :has(
	for i := 0; i < len(sel); i++ {
		switch {
		case sel[i] == '\\':
			i++
		case strings.HasPrefix(sel[i:], ":not(") || strings.HasPrefix(sel[i:], ":has("):
			if end := i + 5 + until(sel[i+5:], ")"); end > skip {
				skip = end
			}
		case sel[i] == '[':
			i += 1 + until(sel[i+1:], "]")
		case sel[i] == '.':
			j := i + 1
			name := ""
			for j < len(sel) && (isNameChar(sel[j])) {
				if sel[j] != '\\' {
					name += sel[j : j+1]
					j++
					continue
				}
				if m := hexEscape.FindStringSubmatch(sel[j:]); m != nil {
					code, _ := strconv.ParseUint(m[1], 16, 32)
					name += string(rune(code))
					j += len(m[0])
					continue
				}
				name += sel[j+1 : j+2]
				j += 2
			}
			if i >= skip {
				ctx := bareValue.ReplaceAllString(oneSpace(sel[:i]+"%"+sel[j:]), `="$1"]`)
				out[name] = strings.Replace(ctx, ":focus:hover", ":hover:focus", 1)
			}
			i = j - 1
		}
	}
	return out
}

// tailwindScenarios: the sheets of Tailwind.
func tailwindScenarios() []*Scenario {
	var out []*Scenario
	for _, t := range []struct{ name, css string }{{"tailwind", tailwindCSS}, {"more tailwind", tailwindMore}} {
		s := Compile(t.name, plainSheet(t.css), "unknown")
		s.Sheet = t.css
		out = append(out, s)
	}
	return out
}

// related: for each class, the classes that set a style it sets, or have to do with a custom property it has to do with.
func (s *Scenario) related() [][]int {
	byKey := map[int][]int{}
	for c, effs := range s.eff {
		seen := map[int]bool{}
		add := func(k int) {
			if !seen[k] {
				seen[k] = true
				byKey[k] = append(byKey[k], c)
			}
		}
		for _, e := range effs {
			add(e.key)
			if e.custom >= 0 {
				add(-1 - e.custom)
			}
			for cu := 0; cu < s.nCustom; cu++ {
				if e.uses != nil && has(e.uses, cu) || e.impUses != nil && has(e.impUses, cu) {
					add(-1 - cu)
				}
			}
		}
	}
	out := make([][]int, len(s.eff))
	for c := range out {
		rel := map[int]bool{}
		for _, cs := range byKey {
			in := false
			for _, x := range cs {
				in = in || x == c
			}
			if in {
				for _, x := range cs {
					rel[x] = true
				}
			}
		}
		for x := range rel {
			out[c] = append(out[c], x)
		}
		sort.Ints(out[c])
	}
	return out
}

// tailwindFamily: all pairs of classes, and all lists of three (four) classes that are related. If of is given, only
// lists with one of the classes it selects, and classes related to it.
func tailwindFamily(c *kit.C, kinds string, of func(s *Scenario, class int) bool) {
	for _, s := range tailwindScenarios() {
		if of == nil {
			exploreAll(c, s.Name, []*Scenario{s}, 2, kinds, []string{""}, bothSorts)
		}
		rel := s.related()
		s.buildIndex()
		c.Parallel(len(rel), func(w *kit.W, ji int) {
			if of != nil && !of(s, ji) {
				return
			}
			e := newEnv(w, "", ji%2 == 0)
			if !e.add(w, s.CSS()) {
				return
			}
			sc := *s
			x := newExplorer(&sc, e, ji%2 == 0, 0, kinds)
			n := 0
			run := func(cs ...int) bool {
				n++
				return x.list(w, cs) && (n%256 != 0 || !c.Stop())
			}
			for _, a := range rel[ji] {
				if of != nil && (!run(ji, a) || !run(a, ji)) {
					return
				}
				for _, b := range rel[a] {
					if !run(ji, a, b) || a != b && !run(a, ji, b) || of != nil && !run(a, b, ji) {
						return
					}
					if c.Quick {
						continue
					}
					for _, d := range rel[b] {
						if !run(ji, a, b, d) {
							return
						}
					}
				}
			}
			c.Count("lists of related classes of "+s.Name, int64(n))
		})
	}
}

func setsImportant(s *Scenario, c int) bool {
	for _, e := range s.eff[c] {
		if e.imp {
			return true
		}
	}
	return false
}

func hasCustom(s *Scenario, c int) bool {
	for _, e := range s.eff[c] {
		if e.custom >= 0 || e.uses != nil && anyBit(e.uses) {
			return true
		}
	}
	return false
}

func anyBit(b []uint64) bool {
	for _, x := range b {
		if x != 0 {
			return true
		}
	}
	return false
}

// conditional: the class has a rule with a condition.
func conditional(s *Scenario, c int) bool {
	is := false
	for _, r := range s.Rules {
		if r.Class == s.Names[c] {
			is = r.Ctx.ID != "{%"
		}
	}
	return is
}

// tailwindBack: the rules of the sheets of Tailwind are all there.
func tailwindBack(c *kit.C) {
	w := c.Worker()
	for _, s := range tailwindScenarios() {
		w.Trans++
		w.Traces += int64(len(s.Names))
		for _, n := range s.Names {
			w.State(kit.Hash(s.Name, n))
		}
		script := func() kit.Script {
			return kit.Script{Ops: []kit.Op{{Kind: "new", KeepSort: true}, {Kind: "tailwind", Text: s.Name}}}
		}
		what := ""
		if msg := w.Guard(script, func() { what = compareTailwind(s.Name) }); msg != "" {
			what = msg
		}
		if what != "" {
			c.Violation(s.Name+": "+what, script())
			return
		}
	}
}

// compareTailwind compares the rules of a sheet with what the model has read.
func compareTailwind(name string) string {
	for _, s := range tailwindScenarios() {
		if s.Name != name {
			continue
		}
		m := newMerger("", true)
		if err := m.AddRules(strings.NewReader(s.CSS()), false); err != nil {
			return err.Error()
		}
		want := map[string]Rule{}
		for _, r := range s.Rules {
			want[r.Class] = r
		}
		rules := m.Rules()
		for _, class := range sortedKeys(rules) {
			if _, ok := want[class]; !ok {
				return "there is a rule of " + class
			}
		}
		for _, class := range sortedKeys(want) {
			r, ok := rules[class]
			if !ok {
				return "there is no rule of " + class
			}
			decls := want[class].Decls
			same := len(decls) == len(r.Declarations)
			for i := 0; same && i < len(decls); i++ {
				v := decls[i].Val
				if decls[i].Imp {
					v += "!important"
				}
				g := r.Declarations[i]
				same = g.Property == decls[i].Prop && words(withoutComments(g.Value)) == words(v)
			}
			if !same {
				return class + " has the declarations " + r.ToCssFormat()
			}
		}
	}
	return ""
}
