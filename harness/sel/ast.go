// sel checks the properties of the selectors: writing out, matching and specificity, against a reference of its own.
package main

import (
	"fmt"
	"strconv"
	"strings"
)

// The selectors are generated as syntax trees, whose meaning the reference defines; the code under test sees their text.

type simple struct {
	kind    byte   // '#' '.' '[' ':' (plain pseudo-class) 'n' (nth) 'f' (list of selectors) 'l' (lang) 'c' (contains) 'r' (matches)
	name    string // id, class, attribute or pseudo-class
	op, val string
	ci      bool
	a, b    int
	list    []complexSel
}

type compound struct {
	tag     string // "" and "*": every element
	simples []simple
	pe      string // pseudo-element
}

type complexSel struct {
	comps []compound
	combs []byte
}

// style is a way of writing a selector.
type style struct {
	sp    string // around combinators and after commas (not for the descendant combinator)
	desc  string // descendant combinator
	in    string // inside brackets and parentheses
	quote byte   // of attribute values; 0: as an identifier if possible
	esc   func(string) string
	upper bool // upper-case keywords, tags and attribute names
	comma string
	join  string // between the parts of a compound selector
}

var plain = style{sp: " ", desc: " ", quote: '"', esc: escapeChar, comma: ", "}

// commented has comments wherever they may stand
var commented = style{sp: "/*+*/ ", desc: " /*>*/", in: "/*)]\"*/", quote: '"', esc: escapeChar, comma: "/*.x*/,/**/", join: "/* .x */"}

func isNameByte(c byte) bool {
	return c >= 0x80 || c == '_' || c == '-' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

// escapeWith escapes an identifier: f writes the characters that need it.
func escapeWith(s string, f func(c byte, next byte) string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		next := byte(0)
		if i+1 < len(s) {
			next = s[i+1]
		}
		switch {
		case i == 0 && c == '-' && len(s) == 1,
			'0' <= c && c <= '9' && (i == 0 || i == 1 && s[0] == '-'),
			!isNameByte(c):
			b.WriteString(f(c, next))
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func isHex(c byte) bool { return '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F' }

func escapeChar(s string) string {
	return escapeWith(s, func(c, next byte) string {
		if c < ' ' || c == 0x7f || isHex(c) {
			return fmt.Sprintf("\\%x ", c)
		}
		return "\\" + string(rune(c))
	})
}

// escapeHex writes hex escapes of six digits.
func escapeHex(s string) string {
	return escapeWith(s, func(c, next byte) string {
		if next == 0 || isSpace(rune(next)) {
			return fmt.Sprintf("\\%06X ", c)
		}
		return fmt.Sprintf("\\%06X", c)
	})
}

// escapeShort writes hex escapes that end with the first character that is not a digit, where there is one.
func escapeShort(s string) string {
	return escapeWith(s, func(c, next byte) string {
		if next == 0 || isHex(next) || strings.IndexByte(" \t\r\n\f", next) >= 0 || !isNameByte(next) {
			return fmt.Sprintf("\\%X\n", c)
		}
		return fmt.Sprintf("\\%X", c)
	})
}

func quoted(s string, q byte) string {
	var b strings.Builder
	b.WriteByte(q)
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == q || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n' || c == '\r' || c == '\f' || c == 0:
			fmt.Fprintf(&b, "\\%x ", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte(q)
	return b.String()
}

func (st style) up(s string) string {
	if !st.upper {
		return s
	}
	b := []byte(s)
	for i, c := range b {
		if 'a' <= c && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

func (s simple) text(st style) string {
	switch s.kind {
	case '#', '.':
		return string(rune(s.kind)) + st.esc(s.name)
	case '[':
		t := "[" + st.in + st.esc(st.up(s.name))
		if s.op == "#=" { // everything up to the bracket belongs to the expression
			return t + st.in + s.op + st.in + s.val + "]"
		}
		if s.op != "" {
			v := quoted(s.val, '"')
			switch {
			case st.quote != 0:
				v = quoted(s.val, st.quote)
			case s.val != "":
				v = st.esc(s.val)
			}
			t += st.in + s.op + st.in + v
			if s.ci {
				t += " " + st.up("i")
			}
		}
		return t + st.in + "]"
	case ':':
		return ":" + st.up(s.name)
	case 'n':
		return ":" + st.up(s.name) + "(" + st.in + nthText(s.a, s.b, st) + st.in + ")"
	case 'l':
		return ":" + st.up(s.name) + "(" + st.in + st.esc(s.val) + st.in + ")"
	case 'r':
		return ":" + st.up(s.name) + "(" + st.in + s.val + ")"
	case 'c':
		return ":" + st.up(s.name) + "(" + st.in + quoted(s.val, '"') + st.in + ")"
	}
	return ":" + st.up(s.name) + "(" + st.in + listText(s.list, st) + st.in + ")"
}

func nthText(a, b int, st style) string {
	switch {
	case st.upper && a == 2 && b == 1:
		return "ODD"
	case st.upper && a == 2 && b == 0:
		return "EVEN"
	case a == 0:
		return strconv.Itoa(b)
	}
	t := strconv.Itoa(a) + "n"
	if st.quote != '"' {
		switch a {
		case 1:
			t = "n"
		case -1:
			t = "-n"
		}
	}
	if st.upper {
		t = strings.ToUpper(t)
	}
	switch {
	case b < 0:
		t += st.in + "-" + st.in + strconv.Itoa(-b)
	case b > 0:
		t += st.in + "+" + st.in + strconv.Itoa(b)
	case st.quote == '"':
		t += "+0"
	}
	return t
}

func (c compound) text(st style) string {
	t := ""
	switch c.tag {
	case "":
	case "*":
		t = "*"
	default:
		t = st.esc(st.up(c.tag))
	}
	join := func(part string) {
		if t != "" {
			t += st.join
		}
		t += part
	}
	for _, s := range c.simples {
		join(s.text(st))
	}
	if c.pe != "" {
		join("::" + st.up(c.pe))
	}
	if t == "" {
		t = "*"
	}
	return t
}

func (c complexSel) text(st style) string {
	t := c.comps[0].text(st)
	for i, k := range c.combs {
		if k == ' ' {
			t += st.desc
		} else {
			t += st.sp + string(rune(k)) + st.sp
		}
		t += c.comps[i+1].text(st)
	}
	return t
}

func listText(l []complexSel, st style) string {
	var p []string
	for _, c := range l {
		p = append(p, c.text(st))
	}
	return strings.Join(p, st.comma)
}

func (c complexSel) String() string { return c.text(plain) }

// spec is the specificity by the rules of CSS.
type spec [3]int

func (s spec) plus(t spec) spec { return spec{s[0] + t[0], s[1] + t[1], s[2] + t[2]} }

func (s spec) less(t spec) bool {
	if s[0] != t[0] {
		return s[0] < t[0]
	}
	if s[1] != t[1] {
		return s[1] < t[1]
	}
	return s[2] < t[2]
}

func (s simple) spec() spec {
	switch s.kind {
	case '#':
		return spec{1, 0, 0}
	case 'f':
		var m spec
		if s.name == "where" {
			return m
		}
		for _, c := range s.list {
			if t := c.spec(); m.less(t) {
				m = t
			}
		}
		return m
	}
	return spec{0, 1, 0}
}

func (c compound) spec() (t spec) {
	if c.tag != "" && c.tag != "*" {
		t[2]++
	}
	for _, s := range c.simples {
		t = t.plus(s.spec())
	}
	if c.pe != "" {
		t[2]++
	}
	return t
}

func (c complexSel) spec() (t spec) {
	for _, k := range c.comps {
		t = t.plus(k.spec())
	}
	return t
}

// Short forms to build selectors.

func tag(t string, s ...simple) compound  { return compound{tag: t, simples: s} }
func comp(s ...simple) compound           { return compound{simples: s} }
func class(n string) simple               { return simple{kind: '.', name: n} }
func id(n string) simple                  { return simple{kind: '#', name: n} }
func pc(n string) simple                  { return simple{kind: ':', name: n} }
func nth(n string, a, b int) simple       { return simple{kind: 'n', name: n, a: a, b: b} }
func lang(v string) simple                { return simple{kind: 'l', name: "lang", val: v} }
func fn(n string, l ...complexSel) simple { return simple{kind: 'f', name: n, list: l} }
func attr(k, op, v string, ci bool) simple {
	return simple{kind: '[', name: k, op: op, val: v, ci: ci}
}
func one(c compound) complexSel { return complexSel{comps: []compound{c}} }
func two(a compound, k byte, b compound) complexSel {
	return complexSel{comps: []compound{a, b}, combs: []byte{k}}
}
func three(a compound, k byte, b compound, l byte, c compound) complexSel {
	return complexSel{comps: []compound{a, b, c}, combs: []byte{k, l}}
}
