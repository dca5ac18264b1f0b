package mcore

import (
	"fmt"
	"sort"
	"strings"
)

// The reference model works on abstract rules; the stylesheet text is generated from them, so that the
// model needs no parser.

// Decl is an abstract declaration: it sets Prop and refers to the custom properties Uses.
type Decl struct {
	Prop string
	Imp  bool
	Uses []string
	Val  string // text of the value, if it matters
}

func (d Decl) value() string {
	v := d.Val
	if v == "" {
		if len(d.Uses) == 0 {
			v = "v"
		}
		for i, u := range d.Uses {
			if i > 0 {
				v += " "
			}
			v += "var(" + u + ")"
		}
	}
	if d.Imp {
		v += " !important"
	}
	return v
}

// Ctx is a condition: the at-rules around a rule and the selector around the class.
// The class stands for "%" in Sel.
type Ctx struct {
	ID  string   // semantic identity
	At  []string // at-rules, outermost first
	Sel string
}

var noCtx = Ctx{Sel: "%"}

// Rule is an abstract rule for one class.
type Rule struct {
	Class string
	Ctx   Ctx
	Decls []Decl
}

// Sel is the selector of the rule.
func (r Rule) Selector() string { return strings.ReplaceAll(r.Ctx.Sel, "%", "."+escapeClass(r.Class)) }

func (r Rule) CSS() string {
	var b strings.Builder
	for _, at := range r.Ctx.At {
		b.WriteString(at + "{")
	}
	b.WriteString(r.Selector() + "{")
	for _, d := range r.Decls {
		b.WriteString(d.Prop + ":" + d.value() + ";")
	}
	b.WriteString("}")
	for range r.Ctx.At {
		b.WriteString("}")
	}
	return b.String()
}

func sheet(rules []Rule) string {
	var b strings.Builder
	for _, r := range rules {
		b.WriteString(r.CSS())
		b.WriteByte('\n')
	}
	return b.String()
}

// escapeClass escapes a class name the way Tailwind does.
func escapeClass(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9' && (i == 0 || i == 1 && s[0] == '-'):
			fmt.Fprintf(&b, "\\3%c ", c)
		case c < 0x20 || c == 0x7f:
			fmt.Fprintf(&b, "\\%x ", c)
		case c >= 0x80 || c == '_' || c == '-' && s != "-" || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			b.WriteByte(c)
		default:
			b.WriteByte('\\')
			b.WriteByte(c)
		}
	}
	return b.String()
}

// expand is the set of longhands that a property sets.
func expand(prop string) []string {
	if strings.HasPrefix(prop, "--") {
		return []string{prop}
	}
	l, ok := longhandTable[prop]
	if !ok {
		return []string{prop}
	}
	return l
}

// effect is what a class does to one style.
type effect struct {
	key     int
	custom  int // index of the custom property, or -1
	imp     bool
	plain   bool     // some declaration of the style in the rule is not important
	uses    []uint64 // custom properties that the last declaration refers to
	impUses []uint64 // custom properties that the last important declaration refers to
}

// Scenario is a compiled set of classes: an alphabet for class lists, with the reference model of merging.
type Scenario struct {
	Name    string
	Names   []string // class names; the alphabet
	Known   []bool   // the class has a rule with declarations
	eff     [][]effect
	nKeys   int
	nCustom int
	words   int
	keyOf   map[string]int
	custKey [][]int // keys that set a custom property
	Rules   []Rule
	Sheet   string // if empty, generated from Rules
	byName  map[string]int
}

// Compile makes the model of a stylesheet. extra are classes of the alphabet that have no rule.
func Compile(name string, rules []Rule, extra ...string) *Scenario {
	s := &Scenario{Name: name, Rules: rules, keyOf: map[string]int{}}
	last := map[string]Rule{}
	var order []string
	for _, r := range rules {
		if _, ok := last[r.Class]; !ok {
			order = append(order, r.Class)
		}
		last[r.Class] = r
	}
	custom := map[string]int{}
	addCustom := func(n string) {
		if _, ok := custom[n]; !ok {
			custom[n] = len(custom)
		}
	}
	for _, c := range order {
		for _, d := range last[c].Decls {
			if strings.HasPrefix(d.Prop, "--") {
				addCustom(d.Prop)
			}
			for _, u := range d.Uses {
				addCustom(u)
			}
		}
	}
	s.nCustom = len(custom)
	s.words = (s.nCustom + 63) / 64
	s.custKey = make([][]int, s.nCustom)
	bits := func(uses []string) []uint64 {
		if s.words == 0 {
			return nil
		}
		b := make([]uint64, s.words)
		for _, u := range uses {
			b[custom[u]/64] |= 1 << (custom[u] % 64)
		}
		return b
	}
	for _, c := range order {
		r := last[c]
		s.Names = append(s.Names, c)
		s.Known = append(s.Known, len(r.Decls) > 0)
		byKey := map[int]int{}
		var effs []effect
		for _, d := range r.Decls {
			for _, l := range expand(d.Prop) {
				id := l + "\x00" + r.Ctx.ID
				k, ok := s.keyOf[id]
				cu := -1
				if strings.HasPrefix(l, "--") {
					cu = custom[l]
				}
				if !ok {
					k = s.nKeys
					s.nKeys++
					s.keyOf[id] = k
					if cu >= 0 {
						s.custKey[cu] = append(s.custKey[cu], k)
					}
				}
				i, ok := byKey[k]
				if !ok {
					i = len(effs)
					byKey[k] = i
					effs = append(effs, effect{key: k, custom: cu})
				}
				e := &effs[i]
				e.uses = bits(d.Uses)
				if d.Imp {
					e.imp = true
					e.impUses = bits(d.Uses)
				} else {
					e.plain = true
				}
			}
		}
		s.eff = append(s.eff, effs)
	}
	for _, e := range extra {
		s.Names = append(s.Names, e)
		s.Known = append(s.Known, false)
		s.eff = append(s.eff, nil)
	}
	return s
}

func (s *Scenario) CSS() string {
	if s.Sheet != "" {
		return s.Sheet
	}
	return sheet(s.Rules)
}

func (s *Scenario) index(class string) int {
	for i, n := range s.Names {
		if n == class {
			return i
		}
	}
	return -1
}

type setter struct {
	class int16 // -1: none
	eff   int16
}

// State is the state of the model after a list of classes.
type State struct {
	last    []setter // last class that sets the style
	imp     []setter // last class that sets it !important
	present []bool
	pos     []int
	n       int
}

func (s *Scenario) NewState() *State {
	st := &State{last: make([]setter, s.nKeys), imp: make([]setter, s.nKeys), present: make([]bool, len(s.Names)), pos: make([]int, len(s.Names))}
	for i := range st.last {
		st.last[i].class = -1
		st.imp[i].class = -1
	}
	return st
}

func (st *State) CopyFrom(o *State) {
	copy(st.last, o.last)
	copy(st.imp, o.imp)
	copy(st.present, o.present)
	copy(st.pos, o.pos)
	st.n = o.n
}

// Append is the transition of the model: one more class at the end of the list.
func (s *Scenario) Append(st *State, c int) {
	st.present[c] = true
	st.pos[c] = st.n
	st.n++
	for i := range s.eff[c] {
		e := &s.eff[c][i]
		st.last[e.key] = setter{int16(c), int16(i)}
		if e.imp {
			st.imp[e.key] = setter{int16(c), int16(i)}
		}
	}
}

const (
	Absent = iota
	Must
	May
	Drop
)

// Verdict says of every class whether it has to be in the result.
func (s *Scenario) Verdict(st *State, v []byte) {
	for c := range s.Names {
		switch {
		case !st.present[c]:
			v[c] = Absent
		case !s.Known[c]:
			v[c] = Must
		default:
			v[c] = Drop
		}
	}
	var sure, maybe []uint64
	if s.words > 0 {
		sure, maybe = make([]uint64, s.words), make([]uint64, s.words)
	}
	mark := func(c int16, m byte) {
		if m == Must || v[c] == Drop {
			v[c] = m
		}
	}
	for k := range st.last {
		l := st.last[k]
		if l.class < 0 {
			continue
		}
		e := &s.eff[l.class][l.eff]
		if e.custom >= 0 {
			continue
		}
		mark(l.class, Must)
		im := st.imp[k]
		if im.class >= 0 {
			mark(im.class, Must)
		}
		if s.words > 0 {
			ie := e
			if im.class >= 0 {
				ie = &s.eff[im.class][im.eff]
				or(sure, ie.impUses)
				// a declaration that an important one overrides is not in effect, but may be counted
				or(maybe, e.uses)
				or(maybe, ie.uses)
			} else {
				or(sure, e.uses)
			}
		}
	}
	if s.words == 0 {
		return
	}
	or(maybe, sure)
	// a definition that is used uses what it refers to
	for changed := true; changed; {
		changed = false
		for cu := 0; cu < s.nCustom; cu++ {
			if !has(maybe, cu) {
				continue
			}
			for _, k := range s.custKey[cu] {
				l := st.last[k]
				if l.class < 0 {
					continue
				}
				e := &s.eff[l.class][l.eff]
				im := st.imp[k]
				if im.class >= 0 {
					ie := &s.eff[im.class][im.eff]
					if has(sure, cu) {
						changed = or(sure, ie.impUses) || changed
					}
					changed = or(maybe, ie.impUses) || changed
					changed = or(maybe, ie.uses) || changed
					changed = or(maybe, e.uses) || changed
				} else {
					if has(sure, cu) {
						changed = or(sure, e.uses) || changed
					}
					changed = or(maybe, e.uses) || changed
				}
			}
		}
	}
	for cu := 0; cu < s.nCustom; cu++ {
		for _, k := range s.custKey[cu] {
			l := st.last[k]
			if l.class < 0 {
				continue
			}
			if has(sure, cu) {
				mark(l.class, Must)
			} else if has(maybe, cu) {
				mark(l.class, May)
			}
			if im := st.imp[k]; im.class >= 0 {
				mark(im.class, Must) // even if nothing refers to it
			}
		}
	}
}

func or(dst, src []uint64) bool {
	ch := false
	for i := range src {
		if dst[i]|src[i] != dst[i] {
			dst[i] |= src[i]
			ch = true
		}
	}
	return ch
}

func has(b []uint64, i int) bool { return b[i/64]&(1<<(i%64)) != 0 }

// stateHash identifies the state of the model by what it can still tell apart.
func (st *State) hash(seed uint64) uint64 {
	h := seed ^ 14695981039346656037
	f := func(x uint64) { h = (h ^ x) * 1099511628211 }
	for k := range st.last {
		f(uint64(uint16(st.last[k].class)) + 7)
		f(uint64(uint16(st.imp[k].class)) + 13)
	}
	for _, p := range st.present {
		if p {
			f(3)
		} else {
			f(5)
		}
	}
	return h
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
