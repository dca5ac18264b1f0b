package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// A text of a selector is a sequence of slots: a character of an identifier, a place for white space, a keyword. Each
// slot has several ways of writing it that mean the same, the first of which is the plain one. All texts that differ
// from the plain one in up to two slots are enumerated.

type slot []string

type spelling struct {
	quote byte // '"', '\'' or 0 for identifiers
	slots []slot
}

var whites = []string{" ", "\t", "\n", "\f", "\r", "\r\n"}
var commentForms = []string{"/**/", "/*a*//*b*/", "/***/", "/*/*/", "/*)]\"'*/", "/*\\*/", "/*,*/"}

// optional white space
var gap = append(append(append(slot{""}, whites...), commentForms...), " /**/", "/*a*/ /*b*/", "\r\n/*\n*/\t", " /*a*//*b*/", "  \n ")

// white space that is a combinator
var descGap = append(append(slot{" "}, whites[1:]...), "/**/ ", " /**/", "/*a*//*b*/ ", " /*a*//*b*/", "/*a*/ /*b*/", "\r\n/***/", "\t\n  ", " /*>*/ ")

// comments only
var joinGap = append(slot{""}, commentForms...)

func caseForms(s string) slot {
	out := slot{s}
	up := strings.ToUpper(s)
	seen := map[string]bool{s: true}
	put := func(t string) {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	put(up)
	mixed := []byte(s)
	for i := range mixed {
		put(s[:i] + up[i:i+1] + s[i+1:])
		put(up[:i] + s[i:i+1] + up[i+1:])
		if i%2 == 0 {
			mixed[i] = up[i]
		}
	}
	put(string(mixed))
	return out
}

// hexForms are the escapes of a character in hexadecimal, which end whatever follows.
func hexForms(r rune) (out []string) {
	h := strconv.FormatInt(int64(r), 16)
	for _, w := range whites {
		out = append(out, "\\"+h+w)
	}
	for n := len(h) + 1; n <= 6; n++ {
		out = append(out, "\\"+strings.Repeat("0", n-len(h))+h+" ")
	}
	out = append(out, "\\"+strings.ToUpper(h)+" ", fmt.Sprintf("\\%06X\r\n", r), fmt.Sprintf("\\%06x\n", r))
	return out
}

func (p *spelling) add(s ...slot)    { p.slots = append(p.slots, s...) }
func (p *spelling) lit(s string)     { p.add(slot{s}) }
func (p *spelling) keyword(s string) { p.add(caseForms(s)) }

// ident adds the characters of an identifier; with fold, ASCII letters may be in either case.
func (p *spelling) ident(s string, fold bool) {
	rs := []rune(s)
	for i, r := range rs {
		var f slot
		need := r < 0x80 && !isNameByte(byte(r)) || r >= '0' && r <= '9' && (i == 0 || i == 1 && rs[0] == '-') || r == '-' && len(rs) == 1
		hex := r < 0x80 && isHex(byte(r))
		all := []rune{r}
		if fold && 'a' <= r && r <= 'z' {
			all = append(all, r-32)
		}
		for _, r := range all {
			if !need {
				f = append(f, string(r))
			}
			if !hex && r != '\n' && r != '\r' && r != '\f' {
				f = append(f, "\\"+string(r))
			}
			for _, h := range hexForms(r) {
				if i+1 < len(rs) || !strings.HasSuffix(h, "\r") { // a line feed may follow
					f = append(f, h)
				}
			}
			if i+1 < len(rs) {
				f = append(f, fmt.Sprintf("\\%06x", r)) // followed by a character of the name
			}
		}
		p.add(f)
	}
}

var continued = slot{"", "\\\n", "\\\r", "\\\f", "\\\r\n", "\\\n\\\n", "\\\r\n\\\r"}

// str adds a string, or an identifier
func (p *spelling) str(s string) {
	if p.quote == 0 {
		p.ident(s, false)
		return
	}
	p.lit(string(rune(p.quote)))
	p.add(continued)
	for _, r := range s {
		var f slot
		nl := r == '\n' || r == '\r' || r == '\f'
		if r != rune(p.quote) && r != '\\' && !nl {
			f = append(f, string(r))
		}
		if !nl && !(r < 0x80 && isHex(byte(r))) {
			f = append(f, "\\"+string(r))
		}
		f = append(f, hexForms(r)...)
		p.add(f, continued)
	}
	p.lit(string(rune(p.quote)))
}

// nthForms are the ways of writing an+b.
func nthForms(a, b int) (out slot) {
	seen := map[string]bool{}
	put := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	if a == 2 && b == 1 {
		for _, s := range caseForms("odd") {
			put(s)
		}
	}
	if a == 2 && b == 0 {
		for _, s := range caseForms("even") {
			put(s)
		}
	}
	ints := func(n int, plus bool) (l []string) {
		s, t := "", strconv.Itoa(n)
		if n < 0 {
			s, t = "-", strconv.Itoa(-n)
		}
		l = []string{s + t, s + "0" + t, s + "000" + t}
		if n >= 0 && plus {
			l = append(l, "+"+t, "+0"+t)
		}
		if n == 0 {
			l = append(l, "-0")
		}
		return l
	}
	if a == 0 {
		for _, s := range ints(b, true) {
			put(s)
		}
	}
	as := ints(a, true)
	switch a {
	case 1:
		as = append(as, "", "+")
	case -1:
		as = append(as, "-")
	}
	for _, x := range as {
		for _, n := range []string{"n", "N"} {
			if b == 0 {
				put(x + n)
			}
			for _, s := range []string{"", " ", "\r\n", "/**/", "/*a*//*b*/", "\t/*1*/"} {
				for _, t := range []string{"", " ", "/**/ "} {
					for _, y := range ints(b, false) {
						switch {
						case y[0] == '-':
							put(x + n + s + "-" + t + y[1:])
						default:
							put(x + n + s + "+" + t + y)
						}
					}
				}
			}
		}
	}
	return out
}

func (p *spelling) simple(s simple) {
	switch s.kind {
	case '#', '.':
		p.lit(string(rune(s.kind)))
		p.ident(s.name, false)
		return
	case '[':
		p.lit("[")
		p.add(gap)
		p.ident(s.name, true)
		p.add(gap)
		if s.op != "" {
			p.lit(s.op)
			p.add(gap)
			p.str(s.val)
			if s.ci {
				f := append(append(slot{}, descGap...), whites...)
				if p.quote != 0 {
					f = append(f, "", "/**/", "/*a*//*b*/")
				}
				p.add(f)
				p.keyword("i")
			}
			p.add(gap)
		}
		p.lit("]")
		return
	}
	p.lit(":")
	p.keyword(s.name)
	if s.kind == ':' {
		return
	}
	p.lit("(")
	p.add(gap)
	switch s.kind {
	case 'n':
		p.add(nthForms(s.a, s.b))
	case 'l':
		p.ident(s.val, true)
	case 'c':
		p.str(s.val)
	default:
		p.list(s.list)
	}
	p.add(gap)
	p.lit(")")
}

func (p *spelling) list(l []complexSel) {
	for i, c := range l {
		if i > 0 {
			p.add(gap)
			p.lit(",")
			p.add(gap)
		}
		p.complex(c)
	}
}

func (p *spelling) complex(c complexSel) {
	for i, k := range c.comps {
		if i > 0 {
			if c.combs[i-1] == ' ' {
				p.add(descGap)
			} else {
				p.add(gap)
				p.lit(string(rune(c.combs[i-1])))
				p.add(gap)
			}
		}
		first := true
		join := func() {
			if !first {
				p.add(joinGap)
			}
			first = false
		}
		switch {
		case k.tag == "*":
			join()
			p.add(slot{"*", "*|*"})
		case k.tag != "":
			join()
			p.ident(k.tag, true)
		case len(k.simples) > 0:
			// the universal selector may be left out
			p.add(slot{"", "*", "*|*", "*/**/", "*/*a*//*b*/"})
			first = false
			p.simple(k.simples[0])
			k.simples = k.simples[1:]
		}
		for _, s := range k.simples {
			join()
			p.simple(s)
		}
		if k.pe != "" {
			join()
			f := slot{"::"}
			switch k.pe {
			case "before", "after", "first-line", "first-letter":
				f = slot{"::", ":"}
			}
			p.add(f)
			p.keyword(k.pe)
		}
	}
}

// spelled are the selectors whose spellings are enumerated.
func spelled(deep bool) (out []complexSel) {
	x := class("ab")
	for _, n := range []string{"ab", "a", "1a", "-1", "é", "--", "-", "_a", "a:b", "a/2", "[x]", "A", "a b", "a\nb", "日本", "😀", "\x7f", "G"} {
		out = append(out, one(comp(class(n))), one(comp(id(n))))
		if n != "a b" && n != "a\nb" {
			out = append(out, one(tag(foldASCII(n), class("a"))), one(comp(attr(foldASCII(n), "", "", false))))
		}
	}
	out = append(out, one(tag("bÉ")), one(tag("bé")), one(tag("b\u212a")), one(comp(attr("kÉ", "=", "v", false))), one(comp(attr("k\u0130", "", "", false))))
	for i, v := range []string{"ab", "1a", "A", "-", "é", "É", "k", "\u212a", "a\"b", "a'b", "a\\b", "a b", "a\nb", "]", "i", "a i", "/*a*/", "\x01", "9", "-a", "--", "_"} {
		for j, op := range ops {
			if !deep && i > 2 && (i+j)%3 != 0 {
				continue
			}
			out = append(out, one(comp(attr("k", op, v, false))), one(comp(attr("k", op, v, true))))
		}
	}
	for _, p := range append([]string{"link", "checked", "input", "disabled"}, plainStructural...) {
		out = append(out, one(tag("b", pc(p))), one(comp(pc(p))))
	}
	var states []string
	for p := range dynamic {
		states = append(states, p)
	}
	sort.Strings(states)
	for _, p := range states {
		out = append(out, one(comp(fn("not", one(comp(pc(p)))))))
	}
	for i, n := range nths {
		for j, ab := range [][2]int{{2, 1}, {2, 0}, {0, 1}, {0, 2}, {1, 0}, {-1, 2}, {1, 1}, {3, -1}, {-1, 0}, {0, 0}, {-2, 3}, {10, 1}} {
			if deep || (i+j)%2 == 0 {
				out = append(out, one(comp(nth(n, ab[0], ab[1]))))
			}
		}
	}
	out = append(out, one(comp(lang("en"))), one(comp(lang("en-gb"))), one(comp(lang("-"))), one(comp(lang("é"))),
		one(comp(simple{kind: 'c', name: "contains", val: "ab"})), one(comp(simple{kind: 'c', name: "containsown", val: "a\"'b"})), one(comp(simple{kind: 'c', name: "contains", val: "1"})))
	for _, f := range []string{"not", "is", "where", "has", "haschild"} {
		out = append(out, one(comp(fn(f, one(tag("b"))))), one(tag("b", fn(f, one(comp(x)), one(tag("p", id("a")))))), one(comp(fn(f, two(tag("p"), '>', comp(x))))), one(comp(fn(f, two(comp(class("a")), ' ', comp(x))))))
	}
	for _, k := range combs {
		out = append(out, two(tag("p"), k, tag("b")), two(comp(x), k, comp(class("a"))), three(tag("*"), k, comp(x), ' ', tag("*")), two(comp(attr("k", "", "", false)), k, tag("b", pc("first-child"))))
	}
	out = append(out, one(tag("*")), one(tag("*", x)), one(tag("p", x, id("a"), attr("k", "=", "v", false), pc("first-child"))), one(comp(x, x)), one(comp(pc("root"), pc("empty"))))
	return out
}

// withPseudoElement are selectors that end in a pseudo-element
func withPseudoElement() (out []complexSel) {
	for _, p := range []string{"after", "backdrop", "before", "cue", "first-letter", "first-line", "grammar-error", "marker", "placeholder", "selection", "spelling-error"} {
		for _, s := range []complexSel{one(comp(class("ab"))), one(tag("p")), two(tag("p"), '>', comp(pc("first-child"))), one(tag("*")), one(compound{})} {
			s.comps[len(s.comps)-1].pe = p
			out = append(out, s)
		}
	}
	return out
}

// spellingDocs are documents with near misses of the selectors.
var spellingDocs = []*tnode{
	document(el("p", el("b", txt("ab")), txt("a\"'b"), el("b").with("class", "ab"), el("b", el("p")).with("class", "a"), el("i").with("class", "a b"), el("bÉ"), el("bé"), el("b\u212a"), el("bk"), el("p", el("b")).with("id", "a", "class", "ab")).with("class", "ab", "lang", "en-GB", "k", "v"), cmt("x")),
	document(el("b", el("b", txt("1")).with("lang", "é", "class", "AB"), el("b").with("lang", "-", "class", "Ab"), el("p", el("i"), el("b"), el("i"), el("b"), cmt("y"), el("i"), el("b")).with("lang", "en"), el("p", el("i", el("p").with("class", "a")).with("class", "ab"), el("p").with("class", "ab")).with("class", "a"), txt(" ")).with("lang", "x")),
	document(el("ab", el("1a").with("class", "1a", "id", "1a"), el("-1").with("class", "-1", "id", "-1"), el("é").with("class", "é", "id", "é"), el("É").with("class", "É", "id", "É"), el("--").with("class", "--", "id", "--"), el("-").with("class", "-", "id", "-"), el("_a").with("class", "_a", "id", "_a"), el("a:b").with("class", "a:b", "id", "a:b"), el("a/2").with("class", "a/2", "id", "a/2"), el("[x]").with("class", "[x]", "id", "[x]"), el("a").with("class", "A", "id", "A"), el("日本").with("class", "日本", "id", "日本"), el("😀").with("class", "😀", "id", "😀"), el("\x7f").with("class", "\x7f", "id", "\x7f"), el("g").with("class", "G", "id", "G"), el("i").with("id", "a b"), el("i").with("id", "a\nb"), el("i").with("id", "ab"))),
	document(el("ab", el("1a").with("class", "a"), el("-1").with("class", "a"), el("é").with("class", "a"), el("É").with("class", "a"), el("--").with("class", "a"), el("-").with("class", "a"), el("_a").with("class", "a"), el("a:b").with("class", "a"), el("a/2").with("class", "a"), el("[x]").with("class", "a"), el("a").with("class", "a"), el("日本").with("class", "a"), el("😀").with("class", "a"), el("\x7f").with("class", "a"), el("g").with("class", "a")).with("class", "a")),
	document(el("p", el("i").with("ab", "", "1a", "", "-1", "", "--", ""), el("i").with("é", "", "-", "", "a", ""), el("i").with("É", "", "_a", "", "a:b", ""), el("i").with("a/2", "", "[x]", "", "日本", ""), el("i").with("😀", "", "\x7f", "", "g", ""), el("i").with("kÉ", "v"), el("i").with("ké", "v"), el("i").with("k\u0130", ""), el("i").with("ki\u0307", ""), el("ki").with("ki", ""))),
	document(el("p", el("input").with("checked", "", "type", "checkbox"), el("input").with("disabled", ""), el("a").with("href", "#"), el("select", el("option").with("selected", "")))),
}

func init() {
	// values of attributes and their near misses
	root := el("p")
	for _, v := range []string{"ab", "1a", "A", "-", "é", "É", "k", "\u212a", "a\"b", "a'b", "a\\b", "a b", "a\nb", "]", "i", "a i", "/*a*/", "\x01", "9", "-a", "--", "_", "", " "} {
		for _, x := range []string{v, strings.ToUpper(v), strings.ToLower(v), v + "-x", "x" + v, v + "x", v + " x", "x " + v, strings.ToUpper(v) + "-x", strings.ToLower("x"+v) + "y"} {
			root.Kids = append(root.Kids, el("i").with("k", x))
		}
	}
	root.Kids = append(root.Kids, el("i"), txt("x"))
	spellingDocs = append(spellingDocs, document(root))
}

// spellings runs check on all texts of all selectors with up to two slots not in the plain way; check says what is
// wrong with a text of a selector.
func spellings(c *kit.C, pseudo bool, check func(w *kit.W, k int, s complexSel, text string, single bool) (string, kit.Op)) {
	sels := spelled(!c.Quick)
	near := 100 // slots with all ways of writing at the same time
	if c.Quick {
		near = 1
	}
	if pseudo {
		sels = append(sels, withPseudoElement()...)
	}
	c.Count("spelled selectors", int64(len(sels)))
	type unit struct {
		k     int
		p     *spelling
		first int
	}
	var units []unit
	for k, s := range sels {
		for _, q := range []byte{'"', '\'', 0} {
			if q != '"' && !hasString(s) {
				continue
			}
			p := &spelling{quote: q}
			p.complex(s)
			for i := range p.slots {
				if i == 0 || len(p.slots[i]) > 1 {
					units = append(units, unit{k, p, i})
				}
			}
		}
	}
	var failed sync.Map
	c.Parallel(len(units), func(w *kit.W, ui int) {
		k := units[ui].k
		if _, bad := failed.Load(k); bad || c.Stop() {
			return
		}
		s := sels[k]
		var n int64
		bad := false
		run := func(text string, single bool) {
			if bad {
				return
			}
			n++
			w.Trans++
			var what string
			var op kit.Op
			script := func() kit.Script {
				if op.Kind == "" {
					op = kit.Op{Kind: "selector", Text: text}
				}
				return kit.Script{Ops: []kit.Op{op}}
			}
			if msg := w.Guard(script, func() { what, op = check(w, k, s, text, single) }); msg != "" {
				what = fmt.Sprintf("%q: %s", text, msg)
			}
			if what != "" {
				bad = true
				failed.Store(k, true)
				c.Violation(what, script())
			}
		}
		units[ui].p.enumerate(c, units[ui].first, near, run)
		w.Traces += n
		w.State(kit.Hash("spellings", s.String(), strconv.Itoa(ui)))
		c.Count("spellings", n)
		if ui == len(units)/2 {
			c.Sample("spellings of %s that differ from the plain one in slot %d: %d texts", s, units[ui].first, n)
		}
	})
}

func hasString(s complexSel) bool {
	for _, k := range s.comps {
		for _, x := range k.simples {
			if x.kind == '[' && x.op != "" || x.kind == 'c' {
				return true
			}
		}
	}
	return false
}

// enumerate runs the texts that differ from the plain one in slot i, and in a later one.
func (p *spelling) enumerate(c *kit.C, i, near int, run func(text string, single bool)) {
	n := len(p.slots)
	write := func(i, a, j, b int) string {
		var t strings.Builder
		for k, s := range p.slots {
			switch k {
			case i:
				t.WriteString(s[a])
			case j:
				t.WriteString(s[b])
			default:
				t.WriteString(s[0])
			}
		}
		return t.String()
	}
	if i == 0 {
		run(write(-1, 0, -1, 0), true)
	}
	for a := 1; a < len(p.slots[i]); a++ {
		run(write(i, a, -1, 0), true)
		apart := 0
		for j := i + 1; j < n; j++ {
			if len(p.slots[j]) == 1 {
				continue
			}
			if apart++; apart > near {
				// far apart: the first of the other ways only
				if a == 1 || !c.Quick {
					run(write(i, a, j, 1), false)
				}
				continue
			}
			for b := 1; b < len(p.slots[j]); b++ {
				run(write(i, a, j, b), false)
			}
		}
		if c.Stop() {
			return
		}
	}
}

// wanted are the indices of the nodes of all the documents that each selector matches.
type wanted [][]int

func wantOf(s complexSel) (out wanted) {
	for _, d := range spellingDocs {
		var l []int
		for i, n := range d.all() {
			if n.Kind == 'e' && matchAny([]complexSel{s}, n) {
				l = append(l, i)
			}
		}
		out = append(out, l)
	}
	return out
}

// sameMatches compares what m matches in the documents with what is wanted: in all of them, or in those where it should
// match something.
func sameMatches(m cascadia.Matcher, want wanted, inAll bool) (doc int, what string) {
	for d, all := range spellingNodes {
		l := want[d]
		if len(l) == 0 && !inAll {
			continue
		}
		for i, n := range all {
			w := len(l) > 0 && l[0] == i
			if w {
				l = l[1:]
			}
			if g := m.Match(n.h); g != w {
				return d, fmt.Sprintf("node %d (%s) matches: %v, by CSS %v", i, n, g, w)
			}
		}
	}
	return 0, ""
}

var spellingNodes [][]*tnode

func init() {
	for _, d := range spellingDocs {
		spellingNodes = append(spellingNodes, d.all())
	}
}

// spelledMatching checks that every spelling matches what the reference does (C19).
func spelledMatching(c *kit.C) {
	wants := wantsOf(spelled(!c.Quick))
	spellings(c, false, func(w *kit.W, k int, s complexSel, text string, single bool) (string, kit.Op) {
		m, err := cascadia.Parse(text)
		if err != nil {
			return fmt.Sprintf("%s, written as %q, is not accepted: %v", s, text, err), matchOp(false, text, spellingDocs[0], wants[k][0])
		}
		if d, what := sameMatches(m, wants[k], single); what != "" {
			return fmt.Sprintf("%s, written as %q: %s", s, text, what), matchOp(false, text, spellingDocs[d], wants[k][d])
		}
		return "", kit.Op{}
	})
}

func wantsOf(l []complexSel) (out []wanted) {
	for _, s := range l {
		out = append(out, wantOf(s))
	}
	return out
}

// spelledSpecificity checks the specificity and the pseudo-element of every spelling (C20).
func spelledSpecificity(c *kit.C) {
	spellings(c, true, func(w *kit.W, k int, s complexSel, text string, _ bool) (string, kit.Op) {
		want := s.spec()
		ws := fmt.Sprint(want)
		op := kit.Op{Kind: "specificity", Text: text, Want: &ws}
		sel, err := cascadia.ParseWithPseudoElement(text)
		if err != nil {
			return fmt.Sprintf("the selector %q is not accepted: %v", text, err), op
		}
		if got := specOf(sel.Specificity()); got != want {
			return fmt.Sprintf("%q: specificity %v, by CSS %v", text, got, want), op
		}
		if got, want := sel.PseudoElement(), s.comps[len(s.comps)-1].pe; got != want {
			return fmt.Sprintf("%q: pseudo-element %q, by CSS %q", text, got, want), op
		}
		return "", op
	})
}

// spelledRoundTrip writes out every spelling, which keeps its meaning (C18).
func spelledRoundTrip(c *kit.C) {
	n := len(spelled(!c.Quick))
	var seen sync.Map
	spellings(c, true, func(w *kit.W, k int, s complexSel, text string, _ bool) (string, kit.Op) {
		op := kit.Op{Kind: "selector", Text: text}
		if what := roundTrip(text); what != "" {
			return what, op
		}
		sel, err := cascadia.ParseWithPseudoElement(text)
		if err != nil || k >= n {
			return "", op // whether it is accepted is not a matter of writing it out
		}
		out := sel.String()
		if _, ok := seen.LoadOrStore(s.String()+" "+out, true); ok {
			return "", op // all the spellings mean the same
		}
		again, err := cascadia.ParseWithPseudoElement(out)
		if err != nil {
			return fmt.Sprintf("%q is written as %q, which is not accepted: %v", text, out, err), op
		}
		for _, all := range spellingNodes {
			for _, n := range all {
				g, h := sel.Match(n.h), again.Match(n.h)
				if g != h {
					op.Kind = "written"
					return fmt.Sprintf("%q is written as %q, which matches other nodes: %s: %v, and %v before", text, out, n, h, g), op
				}
			}
		}
		return "", op
	})
}

// replayWritten compares what a selector and the same written out match in a document.
func replayWritten(op kit.Op) error {
	sel, err := cascadia.ParseWithPseudoElement(op.Text)
	if err != nil {
		return nil
	}
	again, err := cascadia.ParseWithPseudoElement(sel.String())
	if err != nil {
		return err
	}
	for _, all := range spellingNodes {
		for _, n := range all {
			if sel.Match(n.h) != again.Match(n.h) {
				return fmt.Errorf("%q is written as %q, which matches other nodes", op.Text, sel.String())
			}
		}
	}
	return nil
}
