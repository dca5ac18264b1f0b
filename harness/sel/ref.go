package main

import (
	"regexp"
	"strings"
	"sync"

	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

// tnode is a node of a document, from which both the tree for the code under test and the one for the reference
// are made.
type tnode struct {
	Kind   byte // 'e' element, 't' text, 'c' comment, 'd' document, 'y' doctype
	Tag    string
	Attrs  [][2]string
	Text   string
	Kids   []*tnode
	parent *tnode
	h      *html.Node
}

func el(tag string, kids ...*tnode) *tnode { return &tnode{Kind: 'e', Tag: tag, Kids: kids} }
func txt(s string) *tnode                  { return &tnode{Kind: 't', Text: s} }
func cmt(s string) *tnode                  { return &tnode{Kind: 'c', Text: s} }

// with sets attributes, given as name, value, ...
func (n *tnode) with(kv ...string) *tnode {
	for i := 0; i < len(kv); i += 2 {
		n.Attrs = append(n.Attrs, [2]string{kv[i], kv[i+1]})
	}
	return n
}

// document makes the document of a root and the nodes before it.
func document(root *tnode, before ...*tnode) *tnode {
	d := &tnode{Kind: 'd', Kids: append(before, root)}
	d.link()
	return d
}

func (n *tnode) link() {
	n.h = &html.Node{}
	switch n.Kind {
	case 'd':
		n.h.Type = html.DocumentNode
	case 'y':
		n.h.Type, n.h.Data = html.DoctypeNode, "html"
	case 't':
		n.h.Type, n.h.Data = html.TextNode, n.Text
	case 'c':
		n.h.Type, n.h.Data = html.CommentNode, n.Text
	default:
		n.h.Type, n.h.Data, n.h.DataAtom = html.ElementNode, n.Tag, atom.Lookup([]byte(n.Tag))
		for _, a := range n.Attrs {
			n.h.Attr = append(n.h.Attr, html.Attribute{Key: a[0], Val: a[1]})
		}
	}
	for _, k := range n.Kids {
		k.parent = n
		k.link()
		n.h.AppendChild(k.h)
	}
}

// all lists the nodes in document order.
func (n *tnode) all() []*tnode {
	l := []*tnode{n}
	for _, k := range n.Kids {
		l = append(l, k.all()...)
	}
	return l
}

func (n *tnode) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *tnode) write(b *strings.Builder) {
	switch n.Kind {
	case 't':
		b.WriteString(n.Text)
		return
	case 'c':
		b.WriteString("<!--" + n.Text + "-->")
		return
	case 'y':
		b.WriteString("<!DOCTYPE html>")
		return
	case 'e':
		b.WriteString("<" + n.Tag)
		for _, a := range n.Attrs {
			b.WriteString(" " + a[0] + "=" + quoted(a[1], '"'))
		}
		b.WriteString(">")
	}
	for _, k := range n.Kids {
		k.write(b)
	}
	if n.Kind == 'e' {
		b.WriteString("</" + n.Tag + ">")
	}
}

// Reference semantics.

func (n *tnode) attr(name string) (string, bool) {
	for _, a := range n.Attrs {
		if a[0] == name {
			return a[1], true
		}
	}
	return "", false
}

func (n *tnode) has(name string) bool { _, ok := n.attr(name); return ok }

// elems are the element children.
func (n *tnode) elems() (l []*tnode) {
	for _, k := range n.Kids {
		if k.Kind == 'e' {
			l = append(l, k)
		}
	}
	return l
}

func within(n, scope *tnode) bool {
	for p := n.parent; p != nil; p = p.parent {
		if p == scope {
			return true
		}
	}
	return false
}

// matches: scope, if there is one, is the element in which every part of the selector has to match.
func matches(c complexSel, n *tnode, scope *tnode) bool { return matchAt(c, len(c.comps)-1, n, scope) }

func matchAny(l []complexSel, n *tnode) bool {
	for _, c := range l {
		if matches(c, n, nil) {
			return true
		}
	}
	return false
}

func matchAt(c complexSel, k int, n, scope *tnode) bool {
	if n.Kind != 'e' || scope != nil && !within(n, scope) || !c.comps[k].matches(n) {
		return false
	}
	if k == 0 {
		return true
	}
	if n.parent == nil {
		return false
	}
	sib := n.parent.elems()
	at := 0
	for i, s := range sib {
		if s == n {
			at = i
		}
	}
	switch c.combs[k-1] {
	case '>':
		return matchAt(c, k-1, n.parent, scope)
	case '+':
		return at > 0 && matchAt(c, k-1, sib[at-1], scope)
	case '~':
		for _, s := range sib[:at] {
			if matchAt(c, k-1, s, scope) {
				return true
			}
		}
	case ' ':
		for p := n.parent; p != nil; p = p.parent {
			if matchAt(c, k-1, p, scope) {
				return true
			}
		}
	}
	return false
}

func (c compound) matches(n *tnode) bool {
	if c.tag != "" && c.tag != "*" && c.tag != n.Tag {
		return false
	}
	for _, s := range c.simples {
		if !s.matches(n) {
			return false
		}
	}
	return true
}

func foldASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func isSpace(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' || r == '\f' }

func includes(list, word string) bool {
	if word == "" {
		return false
	}
	for _, f := range strings.FieldsFunc(list, isSpace) {
		if f == word {
			return true
		}
	}
	return false
}

// dynamic pseudo-classes: nothing of a static document is in these states.
var dynamic = map[string]bool{"hover": true, "active": true, "focus": true, "visited": true, "target": true,
	"focus-within": true, "focus-visible": true, "fullscreen": true, "modal": true, "picture-in-picture": true,
	"autofill": true, "popover-open": true, "host": true}

func (s simple) matches(n *tnode) bool {
	switch s.kind {
	case '#':
		v, ok := n.attr("id")
		return ok && v == s.name
	case '.':
		v, _ := n.attr("class")
		return includes(v, s.name)
	case '[':
		return s.matchesAttr(n)
	case 'n':
		return s.matchesNth(n)
	case 'l':
		for p := n; p != nil; p = p.parent {
			if v, ok := p.attr("lang"); ok {
				v, w := foldASCII(v), foldASCII(s.val)
				return v == w || strings.HasPrefix(v, w+"-")
			}
		}
		return false
	case 'c', 'r':
		return s.matchesText(n)
	case 'f':
		switch s.name {
		case "not":
			return !matchAny(s.list, n)
		case "is", "where":
			return matchAny(s.list, n)
		case "haschild":
			for _, k := range n.elems() {
				if matchAny(s.list, k) {
					return true
				}
			}
			return false
		}
		for _, d := range n.all()[1:] {
			for _, c := range s.list {
				if matches(c, d, n) {
					return true
				}
			}
		}
		return false
	}
	sib, same := []*tnode{n}, []*tnode{}
	if n.parent != nil {
		sib = n.parent.elems()
	}
	for _, k := range sib {
		if k.Tag == n.Tag {
			same = append(same, k)
		}
	}
	switch s.name {
	case "first-child":
		return sib[0] == n
	case "last-child":
		return sib[len(sib)-1] == n
	case "only-child":
		return len(sib) == 1
	case "first-of-type":
		return same[0] == n
	case "last-of-type":
		return same[len(same)-1] == n
	case "only-of-type":
		return len(same) == 1
	case "root":
		return n.parent.Kind == 'd'
	case "empty":
		for _, k := range n.Kids {
			if k.Kind == 'e' || k.Kind == 't' && strings.TrimFunc(k.Text, isSpace) != "" {
				return false
			}
		}
		return true
	case "link":
		return (n.Tag == "a" || n.Tag == "area") && n.has("href")
	case "input":
		return n.Tag == "input" || n.Tag == "select" || n.Tag == "textarea" || n.Tag == "button"
	case "checked":
		t, _ := n.attr("type")
		t = foldASCII(t)
		return n.Tag == "input" && n.has("checked") && (t == "checkbox" || t == "radio") || n.Tag == "option" && n.has("selected")
	case "disabled":
		return canDisable(n) && isDisabled(n)
	case "enabled":
		return canDisable(n) && !isDisabled(n)
	}
	if dynamic[s.name] {
		return false
	}
	panic("no reference for :" + s.name)
}

func canDisable(n *tnode) bool {
	switch n.Tag {
	case "button", "input", "select", "textarea", "optgroup", "option", "fieldset":
		return true
	}
	return false
}

func isDisabled(n *tnode) bool {
	if n.has("disabled") {
		return true
	}
	switch n.Tag {
	case "optgroup", "fieldset":
		return false
	case "option":
		return n.parent != nil && n.parent.Tag == "optgroup" && n.parent.has("disabled")
	}
	for p := n.parent; p != nil; p = p.parent {
		if p.Tag != "fieldset" || !p.has("disabled") {
			continue
		}
		var legend *tnode
		for _, k := range p.elems() {
			if k.Tag == "legend" {
				legend = k
				break
			}
		}
		if legend == nil || !within(n, legend) {
			return true
		}
	}
	return false
}

func (s simple) matchesAttr(n *tnode) bool {
	v, ok := n.attr(s.name)
	w := s.val
	if s.ci {
		v, w = foldASCII(v), foldASCII(w)
	}
	if s.op == "!=" { // an extension, documented in the code
		return !ok || v != w
	}
	if !ok {
		return false
	}
	switch s.op {
	case "":
		return true
	case "#=": // an extension, documented in the code
		return regularExpression(w).MatchString(v)
	case "=":
		return v == w
	case "~=":
		return strings.IndexFunc(w, isSpace) < 0 && includes(v, w)
	case "|=":
		return v == w || strings.HasPrefix(v, w+"-")
	}
	// the tests of the repository want no match in a value of nothing but white space
	if strings.TrimFunc(v, isSpace) == "" {
		return false
	}
	switch s.op {
	case "^=":
		return w != "" && len(v) >= len(w) && v[:len(w)] == w
	case "$=":
		return w != "" && len(v) >= len(w) && v[len(v)-len(w):] == w
	case "*=":
		return w != "" && strings.Contains(v, w)
	}
	panic("no reference for " + s.op)
}

func (s simple) matchesNth(n *tnode) bool {
	var l []*tnode
	for _, k := range n.parent.elems() {
		if k.Tag == n.Tag || !strings.HasSuffix(s.name, "of-type") {
			l = append(l, k)
		}
	}
	for i, k := range l {
		if k != n {
			continue
		}
		pos := i + 1
		if strings.HasPrefix(s.name, "nth-last") {
			pos = len(l) - i
		}
		// pos = a*m + b for some m >= 0
		d, a := pos-s.b, s.a
		if a < 0 {
			d, a = -d, -a
		}
		return d == 0 || d > 0 && a > 0 && d%a == 0
	}
	return false
}

var expressions sync.Map

// regularExpression compiles an expression, each once.
func regularExpression(s string) *regexp.Regexp {
	if r, ok := expressions.Load(s); ok {
		return r.(*regexp.Regexp)
	}
	r := regexp.MustCompile(s)
	expressions.Store(s, r)
	return r
}

// matchesText: extensions, documented in the code.
func (s simple) matchesText(n *tnode) bool {
	t := ""
	if strings.HasSuffix(s.name, "Own") {
		for _, k := range n.Kids {
			if k.Kind == 't' {
				t += k.Text
			}
		}
	} else {
		for _, d := range n.all() {
			if d.Kind == 't' {
				t += d.Text
			}
		}
	}
	if s.kind == 'r' {
		return regularExpression(s.val).MatchString(t)
	}
	return strings.Contains(foldASCII(t), foldASCII(s.val))
}
