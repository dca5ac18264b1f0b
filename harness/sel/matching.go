package main

import (
	"fmt"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// checkMatching enumerates documents and selectors and compares the code with the reference on each pair.
func checkMatching(c *kit.C) {
	c.Assume("documents are trees of HTML elements without namespaces, with lower-case names, a document node and one root element",
		"outside of the claim: whether <link> is a link, :enabled for links, fieldsets in disabled fieldsets, the selectedness of an option without the attribute selected (all depend on the version of HTML), :read-only (see known findings)",
		"^=, $= and *= do not match in values of nothing but white space (the tests of the repository want this, CSS does not)",
		"dynamic states (:hover and the like) hold for nothing in a static document")
	matchFamilies(!c.Quick, func(f *family) bool {
		if c.Stop() {
			return false
		}
		checkFamily(c, f)
		return true
	})
	hugeFamily(c, "C19")
	spelledMatching(c)
	knownReadOnly(c)
}

func checkFamily(c *kit.C, f *family) {
	type item struct {
		text string
		m    cascadia.Matcher
		list []complexSel
		grp  bool
	}
	var items []item
	fail := func(text, what string) {
		c.Violation(what, kit.Script{Ops: []kit.Op{{Kind: "selector", Text: text}}})
	}
	w := c.Worker()
	for _, st := range f.styles() {
		for _, s := range f.sels {
			text := s.text(st)
			var sel cascadia.Sel
			var err error
			if msg := w.Guard(func() kit.Script { return kit.Script{Ops: []kit.Op{{Kind: "selector", Text: text}}} }, func() { sel, err = cascadia.Parse(text) }); msg != "" {
				fail(text, fmt.Sprintf("parsing %q: %s", text, msg))
				return
			}
			if err != nil {
				c.Violation(fmt.Sprintf("the selector %q is not accepted: %v", text, err), kit.Script{Ops: []kit.Op{matchOp(false, text, document(el("a")), nil)}})
				return
			}
			items = append(items, item{text: text, m: sel, list: []complexSel{s}})
		}
		for _, l := range f.lists {
			text := listText(l, st)
			g, err := cascadia.ParseGroup(text)
			if err != nil {
				c.Violation(fmt.Sprintf("the group %q is not accepted: %v", text, err), kit.Script{Ops: []kit.Op{matchOp(true, text, document(el("a")), nil)}})
				return
			}
			items = append(items, item{text: text, m: g, list: l, grp: true})
		}
	}
	// the reference is evaluated once for all forms of a selector
	per := len(f.sels) + len(f.lists)
	c.Count("selectors", int64(per))
	c.Count("selector texts", int64(len(items)))
	c.Count("documents", int64(len(f.docs)))
	c.Count("family "+f.name+": documents", int64(len(f.docs)))
	c.Count("family "+f.name+": selectors", int64(per))
	const chunk = 8
	c.Parallel((len(f.docs)+chunk-1)/chunk, func(w *kit.W, ci int) {
		var matched, not int64
		for di := ci * chunk; di < (ci+1)*chunk && di < len(f.docs); di++ {
			doc := f.docs[di]
			all := doc.all()
			w.State(kit.Hash(f.name, doc.String()))
			for i := 0; i < per; i++ {
				var want []int
				for j, n := range all {
					if n.Kind == 'e' && matchAny(items[i].list, n) {
						want = append(want, j)
					}
				}
				matched += int64(len(want))
				not += int64(len(all) - len(want))
				for k := i; k < len(items); k += per {
					it := &items[k]
					var what string
					script := func() kit.Script { return kit.Script{Ops: []kit.Op{matchOp(it.grp, it.text, doc, want)}} }
					if msg := w.Guard(script, func() { what = compareMatches(it.m, all, want) }); msg != "" {
						what = msg
					}
					w.Trans += int64(len(all))
					w.Traces++
					if what != "" {
						c.Violation(fmt.Sprintf("%s on %s: %s", it.text, doc, what), script())
						return
					}
					if di == len(f.docs)/2 && k == per/2 {
						c.Sample("%s: %s on %s: nodes %v", f.name, it.text, doc, want)
					}
				}
			}
		}
		c.Outcome("node matches", matched)
		c.Outcome("node does not match", not)
	})
}

// knownReadOnly: :read-only holds for every element that cannot be edited, but the code never matches it.
func knownReadOnly(c *kit.C) {
	doc := document(el("div", el("input").with("readonly", "")))
	sel, err := cascadia.Parse(":read-only")
	if err != nil {
		return
	}
	for _, n := range doc.all()[1:] {
		if !sel.Match(n.h) {
			c.Known("C19", "read-only", ":read-only matches no element, not even <div> or <input readonly>")
			return
		}
	}
}
