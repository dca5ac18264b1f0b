package main

import (
	"encoding/json"
	"errors"
	"fmt"

	"golang.org/x/net/html"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

func main() {
	kit.Main("sel", map[string]func(*kit.C){"C18": checkRoundTrip, "C19": checkMatching, "C20": checkSpecificity}, replay)
}

func replay(w *kit.W, s kit.Script) error {
	for _, op := range s.Ops {
		switch op.Kind {
		case "parse", "selector":
			if what := roundTrip(op.Text); what != "" {
				return errors.New(what)
			}
		case "nested":
			if what := roundTrip(op.NestedText()); what != "" {
				return errors.New(head(what))
			}
		case "written":
			if err := replayWritten(op); err != nil {
				return err
			}
		case "match":
			if err := replayMatch(op); err != nil {
				return err
			}
		case "specificity":
			sel, err := cascadia.ParseWithPseudoElement(op.Text)
			if err != nil {
				return err
			}
			if got := fmt.Sprint(sel.Specificity()); got != *op.Want {
				return fmt.Errorf("%s: specificity %s, want %s", op.Text, got, *op.Want)
			}
		case "huge":
			if what := replayHuge(op); what != "" {
				return errors.New(what)
			}
		case "order":
			if what := compare(op.Ints); what != "" {
				return errors.New(what)
			}
		}
	}
	return nil
}

// matchOp is the case of a selector (or a group) on a document; the document is written as a tree.
func matchOp(group bool, text string, doc *tnode, want []int) kit.Op {
	b, _ := json.Marshal(doc)
	k := []string{"single"}
	if group {
		k = []string{"group"}
	}
	return kit.Op{Kind: "match", Text: text, List: string(b), Ints: want, Args: k}
}

func replayMatch(op kit.Op) error {
	var doc tnode
	if err := json.Unmarshal([]byte(op.List), &doc); err != nil {
		return err
	}
	doc.link()
	var m cascadia.Matcher
	if op.Args[0] == "group" {
		g, err := cascadia.ParseGroupWithPseudoElements(op.Text)
		if err != nil {
			return err
		}
		m = g
	} else {
		s, err := cascadia.ParseWithPseudoElement(op.Text)
		if err != nil {
			return err
		}
		m = s
	}
	if what := compareMatches(m, doc.all(), op.Ints); what != "" {
		return fmt.Errorf("%s on %s: %s", op.Text, doc.String(), what)
	}
	return nil
}

// compareMatches compares what the code matches with the expected indices into the nodes of the document.
func compareMatches(m cascadia.Matcher, all []*tnode, want []int) string {
	k := 0
	for i, n := range all {
		w := k < len(want) && want[k] == i
		if w {
			k++
		}
		if g := m.Match(n.h); g != w {
			return fmt.Sprintf("node %d (%s) matches: %v, by CSS %v", i, n, g, w)
		}
	}
	// queries: the descendants of every node, not the node itself
	for i, n := range all {
		if n.Kind != 'e' && n.Kind != 'd' {
			continue
		}
		var exp []*html.Node
		for _, j := range want {
			if j > i && within(all[j], n) {
				exp = append(exp, all[j].h)
			}
		}
		if got := cascadia.QueryAll(n.h, m); !same(got, exp) {
			return fmt.Sprintf("QueryAll from node %d (%s) gives %d nodes, by CSS %d, or in another order", i, n, len(got), len(exp))
		}
		first := cascadia.Query(n.h, m)
		if len(exp) == 0 && first != nil || len(exp) > 0 && first != exp[0] {
			return fmt.Sprintf("Query from node %d (%s) does not give the first match in document order", i, n)
		}
	}
	// filters: the members of the set in its order
	var set, exp []*html.Node
	in := map[int]bool{}
	for _, j := range want {
		in[j] = true
	}
	for i := len(all) - 1; i >= 0; i-- {
		for r := 0; r <= i%2; r++ {
			set = append(set, all[i].h)
			if in[i] {
				exp = append(exp, all[i].h)
			}
		}
	}
	if got := cascadia.Filter(set, m); !same(got, exp) {
		return fmt.Sprintf("Filter gives %d nodes, by CSS %d, or in another order", len(got), len(exp))
	}
	return ""
}

func same(a, b []*html.Node) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// head is the beginning of a text that may be very long.
func head(s string) string {
	if len(s) > 500 {
		return s[:500] + "..."
	}
	return s
}
