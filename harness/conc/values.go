package main

import (
	"fmt"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
	"golang.org/x/net/html"
)

// ---- C23

// the selectors of rules; each names the class "x".
var valueSels = []string{
	".x", ".x:hover", ".x:hover:focus", ".x:focus:hover:active", ".x::before", ".x:hover::before", "p.x#i[k]", ".x.y.z", "*.x", ".x[k=\"V\"]", ".x[k=\"v\" i]", ".x[k~=a]", ".x[k|=a]", ".x[k^=a]", ".x[k$=a]", ".x[k*=a]", ".x[k!=a]", ".x[k#=(a+)]",
	".x > p", ".y .x", ".y + .x", ".y ~ .x:hover", "p .x > q + .y ~ b:focus:hover", ".x .x", ":is(.x, .y:hover)", ":where(.y, .x)", ":is(.y, :where(.x:focus:hover))", ".x:not(.y)", ".x:not(.y, p:hover)", ".x:has(b)", ".x:has(p > b)", ".x:has(a, b)", ".x:nth-child(2n+1)", ".x:nth-last-of-type(2)", ":is(.x, p):nth-last-child(2n+1)", ":nth-of-type(odd) > .x:nth-last-of-type(-n+2)", ".x:nth-child(2):not(:nth-last-child(n+3))",
	".x:first-child:last-child", ".x:only-of-type:empty", ".x:lang(en)", ".x:contains(\"t\")", ".x:containsOwn(t)", ".x:matches(t.)", ".x:matchesOwn(t+)", ".x:haschild(b)", ".x:input", ".x:root", ".x:checked:disabled", ".x\\:y.x", ".x:visited:link", ".\\78:enabled", "b:is(.x:active:hover, .y)::after",
}

const valueDoc = `<div class="y" lang="en"><p class="x" id="i" k="V">t<b>u</b></p><q class="x y z" k="a-b">tt</q><b class="x" k="a b"><a class="x:y x" href="#">v</a><input class="x" checked disabled></b><p></p></div>`

var valueOps = []string{"match", "query", "text", "rule", "parts", "parse", "other", "load"}

const edit = 8 // in a history: the document changes

func docNodes(doc *html.Node) (all []*html.Node) {
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		all = append(all, n)
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
	}
	walk(doc)
	return all
}

func dump(all []*html.Node) string {
	at := map[*html.Node]int{nil: -1}
	for i, n := range all {
		at[n] = i
	}
	var b strings.Builder
	for _, n := range all {
		fmt.Fprintln(&b, n.Type, n.Data, n.DataAtom, n.Namespace, n.Attr, at[n.Parent], at[n.FirstChild], at[n.LastChild], at[n.PrevSibling], at[n.NextSibling])
	}
	return b.String()
}

// valueInstance is a loaded rule and a document.
type valueInstance struct {
	sheet, other string
	rule         cascadia.CssRule
	nodes, list  []*html.Node
	edited       bool
}

var theDoc []*html.Node
var theDump, theEditedDump string

// editDoc changes a document, or changes it back.
func editDoc(all []*html.Node, edited bool) {
	for _, n := range all {
		if n.Type == html.ElementNode && len(n.Attr) > 1 && n.Attr[1].Key == "id" { // the first paragraph
			div := n.Parent
			div.RemoveChild(n)
			if edited {
				div.InsertBefore(n, div.FirstChild)
				n.Attr[2].Val = "V"
				n.FirstChild.Data = "t"
			} else {
				div.AppendChild(n)
				n.Attr[2].Val = "a-W"
				n.FirstChild.Data = "w"
			}
			return
		}
	}
	panic("no paragraph")
}

func newValue(text, other string) *valueInstance {
	if theDoc == nil {
		doc, err := html.Parse(strings.NewReader(valueDoc))
		if err != nil {
			panic(err)
		}
		theDoc = docNodes(doc)
		theDump = dump(theDoc)
		editDoc(theDoc, false)
		theEditedDump = dump(theDoc)
		editDoc(theDoc, true)
		if theDump != dump(theDoc) || theDump == theEditedDump {
			panic("the document is not changed back")
		}
	}
	in := &valueInstance{sheet: "@media print{" + text + "{color:red;--v: a  b;margin:var(--v)!important}}", other: other, nodes: theDoc}
	in.list = append(in.list, theDoc...)
	rules, err := cascadia.ExtractRules(strings.NewReader(in.sheet), false)
	if err != nil || len(rules) != 1 {
		return in // not supported
	}
	in.rule = rules[0]
	return in
}

func selectorParts(s cascadia.Sel, b *strings.Builder) {
	if s == nil {
		return
	}
	fmt.Fprintf(b, "%T %s %v %q\n", s, s.String(), s.Specificity(), s.PseudoElement())
	if c, ok := s.(interface{ Selectors() []cascadia.Sel }); ok {
		for _, x := range c.Selectors() {
			selectorParts(x, b)
		}
	}
	if c, ok := s.(interface {
		First() cascadia.Sel
		Second() cascadia.Sel
	}); ok {
		selectorParts(c.First(), b)
		selectorParts(c.Second(), b)
	}
	if c, ok := s.(interface{ PseudoElementsString() string }); ok {
		fmt.Fprintln(b, c.PseudoElementsString())
	}
}

func (in *valueInstance) do(op string) string {
	sel := in.rule.Selector
	if sel == nil && op != "other" && op != "load" {
		return ""
	}
	var b strings.Builder
	switch op {
	case "match":
		for _, n := range in.nodes {
			fmt.Fprint(&b, sel.Match(n), " ")
		}
	case "query":
		all := in.nodes[0]
		fmt.Fprint(&b, in.index(cascadia.Query(all, sel)))
		for _, n := range cascadia.QueryAll(all, sel) {
			fmt.Fprint(&b, " ", in.index(n))
		}
		for _, n := range cascadia.Filter(in.list, sel) {
			fmt.Fprint(&b, " f", in.index(n))
		}
	case "text":
		fmt.Fprint(&b, sel.String(), sel.Specificity(), sel.PseudoElement())
	case "rule":
		fmt.Fprint(&b, in.rule.ToCssFormat(), in.rule.GetSelector(), in.rule.GetCondition(), in.rule.String(), in.rule.Declarations)
	case "parts":
		selectorParts(sel, &b)
	case "parse":
		in.parse(&b, sel.String())
	case "other":
		in.parse(&b, in.other)
	case "load":
		rules, err := cascadia.ExtractRules(strings.NewReader(in.sheet), false)
		fmt.Fprint(&b, err)
		for _, r := range rules {
			fmt.Fprint(&b, r.ToCssFormat(), r.GetCondition())
		}
	}
	return b.String()
}

func (in *valueInstance) parse(b *strings.Builder, text string) {
	s, err := cascadia.ParseWithPseudoElement(text)
	if err != nil {
		fmt.Fprint(b, err)
		return
	}
	fmt.Fprint(b, s.String(), s.Specificity())
	g, err := cascadia.ParseGroupWithPseudoElements(text + "," + text)
	fmt.Fprint(b, err, len(g), g.String())
}

func (in *valueInstance) index(n *html.Node) int {
	for i, m := range in.nodes {
		if m == n {
			return i
		}
	}
	return -1
}

// final: nothing has changed.
func (in *valueInstance) final() []string {
	var out []string
	for _, op := range valueOps {
		out = append(out, in.do(op))
	}
	same := "same nodes"
	for i := range in.list {
		if in.list[i] != in.nodes[i] {
			same = fmt.Sprintf("node %d of the list is another one", i)
		}
	}
	was := theDump
	if in.edited {
		was = theEditedDump
	}
	if dump(in.nodes) != was {
		same = "the document is another one"
	}
	if in.edited {
		editDoc(in.nodes, true)
	}
	return append(out, same)
}

var opRefs = map[string]string{}

var valueRefs = map[string][]string{}

// reference is what the operations give on a new rule, computed before anything else, each on a document of its own.
func reference(text, other string, edited bool) []string {
	key := fmt.Sprint(text, "\x00", other, edited)
	if valueRefs[key] == nil {
		var out []string
		for _, op := range valueOps {
			k := fmt.Sprint(op, text, "\x00", edited)
			if op == "other" {
				k = other + "\x00"
			}
			got, ok := opRefs[k]
			if !ok {
				theDoc = nil
				in := newValue(text, other)
				if edited {
					editDoc(in.nodes, false)
				}
				got = in.do(op)
				opRefs[k] = got
			}
			out = append(out, got)
		}
		theDoc = nil
		valueRefs[key] = append(out, "same nodes")
	}
	return valueRefs[key]
}

func opIndex(op string) int {
	for i, o := range valueOps {
		if o == op {
			return i
		}
	}
	return -1
}

func valueHarness(text, other string, threads [][]string) *harness {
	h := &harness{threads: threads, name: fmt.Sprintf("uses of the rule of %q %v", text, threads)}
	h.op = kit.Op{Kind: "value", Text: text, List: other}
	for _, t := range threads {
		h.op.Args = append(h.op.Args, strings.Join(t, ";"))
	}
	h.begin = func() instance { return newValue(text, other) }
	h.ok = func(events []event, final []string) bool {
		want := reference(text, other, false)
		for _, ev := range events {
			if ev.result != want[opIndex(threads[ev.thread][ev.index])] {
				return false
			}
		}
		for i, f := range final {
			if f != want[i] {
				return false
			}
		}
		return true
	}
	return h
}

// history: operations in a row on one rule.
func valueHistory(text, other string, hist []int) string {
	wants := [][]string{reference(text, other, false), reference(text, other, true)}
	in := newValue(text, other)
	state := 0
	for k, i := range hist {
		if i == edit {
			editDoc(in.nodes, in.edited)
			in.edited = !in.edited
			state = 1 - state
			continue
		}
		if got := in.do(valueOps[i]); got != wants[state][i] {
			return fmt.Sprintf("rule of %q (and %q): %s after %v gives\n%s\ninstead of\n%s", text, other, valueOps[i], opNames(hist[:k]), got, wants[state][i])
		}
	}
	for i, f := range in.final() {
		if f != wants[state][i] {
			return fmt.Sprintf("rule of %q: after %v there is\n%s\ninstead of\n%s", text, opNames(hist), f, wants[state][i])
		}
	}
	return ""
}

func opNames(hist []int) (names []string) {
	for _, i := range hist {
		if i == edit {
			names = append(names, "edit")
		} else {
			names = append(names, valueOps[i])
		}
	}
	return names
}

// merging: the rules that a merger has given out are not changed by merges and loads.
func givenOut() string {
	m := merge.NewMerger(nil, true)
	load := func(suffix, decl string) {
		var b strings.Builder
		for i, s := range valueSels {
			fmt.Fprintf(&b, "%s{%s}\n", strings.ReplaceAll(s, ".x", fmt.Sprintf(".x%d%s", i, suffix)), decl)
		}
		m.AddRules(strings.NewReader(b.String()), false)
	}
	load("a", "color:red;top:0")
	load("b", "color:blue")
	rules := map[string]cascadia.CssRule{}
	was := map[string]string{}
	show := func(r cascadia.CssRule) string {
		var b strings.Builder
		selectorParts(r.Selector, &b)
		in := &valueInstance{rule: r, nodes: theDoc, list: theDoc}
		return b.String() + in.do("match") + in.do("rule")
	}
	newValue("p", "p")
	for k, r := range m.Rules() {
		rules[k] = r
		was[k] = show(r)
	}
	check := func(what string) string {
		for k, r := range rules {
			if got := show(r); got != was[k] {
				return fmt.Sprintf("after %s the rule that Rules() had returned for %q is\n%s\ninstead of\n%s", what, k, got, was[k])
			}
		}
		return ""
	}
	for i := range valueSels {
		for j := range valueSels {
			m.Merge(fmt.Sprintf("x%da x%db x%da", i, j, j))
		}
	}
	if msg := check("merges"); msg != "" {
		return msg
	}
	load("a", "margin:0;opacity:0;color:green")
	load("c", "color:red")
	for i := range valueSels {
		m.Merge(fmt.Sprintf("x%da x%db x%dc", i, i, i))
	}
	return check("loads")
}

// givenOutBlocks: the same, over the declarations of the rules: all sequences of up to three.
func givenOutBlocks() string {
	decls := []string{"top:0", "color:red", "margin:1px 2px!important", "--v:a  b", "width:var(--v)", "color:Blue ! important", "--V:{a:b}", "border:var(--v) solid"}
	var blocks []string
	for i := range decls {
		blocks = append(blocks, decls[i])
		for j := range decls {
			blocks = append(blocks, decls[i]+";"+decls[j])
			for k := range decls {
				blocks = append(blocks, decls[i]+";"+decls[j]+";"+decls[k])
			}
		}
	}
	m := merge.NewMerger(nil, true)
	var sheet strings.Builder
	for i, b := range blocks {
		fmt.Fprintf(&sheet, ".a%d{%s}.b%d:hover{%s}@media print{.c%d,.d%d{%s}}", i, b, i, b, i, i, b)
	}
	if err := m.AddRules(strings.NewReader(sheet.String()), false); err != nil {
		return err.Error()
	}
	rules := map[string]cascadia.CssRule{}
	was := map[string]string{}
	show := func(r cascadia.CssRule) string {
		return fmt.Sprint(r.ToCssFormat(), r.GetCondition(), r.GetSelector(), r.Declarations)
	}
	for k, r := range m.Rules() {
		rules[k], was[k] = r, show(r)
	}
	for i := range blocks {
		for _, j := range []int{i, (i + 1) % len(blocks), i * 7 % len(blocks)} {
			m.Merge(fmt.Sprintf("a%d a%d b%d b%d c%d d%d c%d", i, j, i, j, i, i, j))
		}
	}
	for k, r := range rules {
		if got := show(r); got != was[k] {
			return fmt.Sprintf("after merges the rule that Rules() had returned for %q is\n%s\ninstead of\n%s", k, got, was[k])
		}
		if got := show(m.Rules()[k]); got != was[k] {
			return fmt.Sprintf("after merges the rule for %q is\n%s\ninstead of\n%s", k, got, was[k])
		}
	}
	return ""
}

func checkValues(p *part) {
	n := len(valueSels)
	other := func(i int) string { return valueSels[(i*7+3)%n] }
	for i, s := range valueSels {
		reference(s, other(i), false)
		reference(s, other(i), true)
		for _, o := range valueSels {
			reference(s, o, false)
			reference(s, o, true)
		}
	}
	if p.mine() {
		p.note(kit.Op{Kind: "value", Reader: "given"})
		msg := givenOut()
		if msg == "" {
			msg = givenOutBlocks()
		}
		if msg != "" {
			p.violation(msg, kit.Op{Kind: "value", Reader: "given"})
			return
		}
		p.res.Execs++
	}
	depth := 4
	if !p.quick {
		depth = 6
	}
	history := func(family, s, o string, hist []int) bool {
		p.note(kit.Op{Kind: "value", Reader: "history", Text: s, List: o, Ints: hist})
		if msg := valueHistory(s, o, hist); msg != "" {
			p.violation(msg, kit.Op{Kind: "value", Reader: "history", Text: s, List: o, Ints: append([]int{}, hist...)})
			return false
		}
		p.res.Execs++
		p.res.Trans += int64(len(hist))
		p.state(kit.HashInts(kit.Hash(s, o), hist))
		p.count(family, 1)
		return !p.stop()
	}
	for i, s := range valueSels {
		hist := make([]int, 0, depth)
		var rec func() bool
		rec = func() bool {
			if len(hist) == depth || len(hist) == depth-1 && p.quick && i%4 != 0 {
				return history("histories on one rule", s, other(i), hist)
			}
			for k := 0; k <= edit; k++ {
				hist = append(hist, k)
				ok := rec()
				hist = hist[:len(hist)-1]
				if !ok {
					return false
				}
			}
			return true
		}
		for k := 0; k <= edit; k++ {
			if !p.mine() {
				continue
			}
			hist = append(hist[:0], k)
			if !rec() {
				return
			}
		}
	}
	for _, s := range valueSels {
		for _, o := range valueSels {
			if p.mine() && !history("pairs of selectors", s, o, []int{6, 2, 5, 4, 6, 0, edit, 0, 1, edit, 1, 7, 3, 5, 2}) {
				return
			}
		}
	}
	run := func(family, s, o string, bound int, ts ...[]string) bool {
		if !p.mine() {
			return true
		}
		before := p.res.Execs
		ok := p.explore(valueHarness(s, o, ts), bound)
		p.count(family+" programs", 1)
		p.count(family+" schedules", p.res.Execs-before)
		return ok
	}
	ones, twos := programs(valueOps, 1), programs(valueOps, 2)
	for i, s := range valueSels {
		for j, a := range ones {
			for k, b := range ones[j:] {
				if !run("1x1", s, other(i), 3, a, b) {
					return
				}
				for l, d := range ones[j+k:] {
					if (!p.quick || (i+j+k+l)%4 == 0) && !run("1x1x1", s, other(i), 2, a, b, d) {
						return
					}
				}
			}
			for k, b := range twos {
				if (!p.quick || (i+j+k)%4 == 0) && !run("1x2", s, other(i), 2, a, b) {
					return
				}
			}
		}
	}
	if p.quick {
		return
	}
	for i, s := range valueSels {
		for j, a := range twos {
			for _, b := range twos[j:] {
				if !run("2x2", s, other(i), 2, a, b) {
					return
				}
			}
		}
	}
}

func replayValue(p *part, ops []kit.Op) {
	op := ops[0]
	switch op.Reader {
	case "given":
		msg := givenOut()
		if msg == "" {
			msg = givenOutBlocks()
		}
		if msg != "" {
			p.violation(msg)
		}
		return
	case "history":
		for _, s := range valueSels {
			reference(s, op.List, false)
			reference(s, op.List, true)
		}
		if msg := valueHistory(op.Text, op.List, op.Ints); msg != "" {
			p.violation(msg)
		}
		return
	}
	var threads [][]string
	for _, a := range op.Args {
		threads = append(threads, strings.Split(a, ";"))
	}
	h := valueHarness(op.Text, op.List, threads)
	races := raceErrors()
	for i := 0; i < 3; i++ {
		e, events, final := h.once(op.Ints)
		if msg := h.judge(e, events, final, races); msg != "" {
			p.violation(h.name + ": " + msg)
			return
		}
	}
}
