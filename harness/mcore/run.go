package mcore

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// kinds of disagreement between a result and the model
const (
	KMissing = "missing" // a class that has to stay is gone
	KExtra   = "extra"   // a class that has to go is there
	KShape   = "shape"   // order, repetition, foreign class
	KPanic   = "panic"
	KOther   = "other"
)

// newMergers are expensive (they parse the table of properties), so scenarios share one where that is sound.
func newMerger(cache string, keepSort bool) *merge.Merger {
	return merge.NewMerger(newCache(cache), keepSort)
}

func newCache(kind string) merge.Cache {
	switch kind {
	case "":
		return nil
	case "simple":
		return merge.NewCache()
	case "map":
		return &mapCache{m: map[string]string{}}
	case "forget":
		return &forgetCache{}
	case "never":
		return neverCache{}
	case "junk":
		return &junkCache{}
	}
	panic("unknown cache " + kind)
}

// mapCache is a plain cache.
type mapCache struct{ m map[string]string }

func (c *mapCache) Get(k string) (string, bool) { v, ok := c.m[k]; return v, ok }
func (c *mapCache) Set(k, v string)             { c.m[k] = v }
func (c *mapCache) Clear()                      { c.m = map[string]string{} }

// forgetCache remembers the last entry only.
type forgetCache struct {
	k, v string
	set  bool
}

func (c *forgetCache) Get(k string) (string, bool) {
	if c.set && c.k == k {
		return c.v, true
	}
	return "", false
}
func (c *forgetCache) Set(k, v string) { c.k, c.v, c.set = k, v, true }
func (c *forgetCache) Clear()          { c.set = false }

// neverCache remembers nothing.
type neverCache struct{}

func (neverCache) Get(k string) (string, bool) { return "", false }
func (neverCache) Set(k, v string)             {}
func (neverCache) Clear()                      {}

// junkCache forgets all but the last two entries, and returns junk along with the news that there is no entry.
type junkCache struct{ k, v [2]string }

func (c *junkCache) Get(k string) (string, bool) {
	for i := range c.k {
		if c.k[i] == "="+k {
			return c.v[i], true
		}
	}
	return "junk", false
}
func (c *junkCache) Set(k, v string) {
	c.k[0], c.v[0] = c.k[1], c.v[1]
	c.k[1], c.v[1] = "="+k, v
}
func (c *junkCache) Clear() { *c = junkCache{} }

var errReader = errors.New("the reader failed")

// stepReader returns the bytes in the given steps; it fails after failAt bytes if failAt >= 0.
type stepReader struct {
	data    string
	pos     int
	steps   []int // sizes of the reads, the last one is repeated; 0 is an empty read
	i       int
	empty   int // number of empty reads at emptyAt
	emptyAt int
	failAt  int
	eofNow  bool // return io.EOF together with the last bytes
	failNow bool // return the error together with the last bytes
	err     error
}

// readErrs are errors that a reader may fail with. All of them but io.EOF itself are failures.
var readErrs = map[string]error{
	"":           errReader,
	"unexpected": io.ErrUnexpectedEOF,
	"wrapped":    fmt.Errorf("reading: %w", io.EOF),
	"joined":     errors.Join(io.EOF, errReader),
	"named":      errors.New("EOF"),
	"closed":     os.ErrClosed,
	"pipe":       io.ErrClosedPipe,
	"canceled":   context.Canceled,
	"deadline":   context.DeadlineExceeded,
	"timeout":    os.ErrDeadlineExceeded,
	"noprogress": io.ErrNoProgress,
	"short":      io.ErrShortBuffer,
	"path":       &fs.PathError{Op: "read", Path: "x.css", Err: syscall.EIO},
	"empty":      errors.New(""),
}

func (r *stepReader) Read(p []byte) (int, error) {
	if r.empty > 0 && r.pos >= r.emptyAt {
		r.empty--
		return 0, nil
	}
	if r.failAt >= 0 && r.pos >= r.failAt {
		return 0, r.err
	}
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	n := len(p)
	if len(r.steps) > 0 {
		i := r.i
		if i >= len(r.steps) {
			i = len(r.steps) - 1
		}
		r.i++
		if r.steps[i] < n {
			n = r.steps[i]
		}
	}
	end := len(r.data)
	if r.failAt >= 0 && r.failAt < end {
		end = r.failAt
	}
	if r.empty > 0 && r.emptyAt < end {
		end = r.emptyAt
	}
	if n > end-r.pos {
		n = end - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.failNow && r.failAt >= 0 && r.pos >= r.failAt {
		return n, r.err
	}
	if r.eofNow && r.pos >= len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

// reader makes the reader of an op: "" or "steps=1,2,3 empty=100@7 fail=5 eof failnow kind=bufio after".
func makeReader(css, spec string) io.Reader {
	r := &stepReader{data: css, failAt: -1, err: errReader}
	kind, after := "", false
	for _, f := range strings.Fields(spec) {
		switch {
		case strings.HasPrefix(f, "steps="):
			for _, x := range strings.Split(f[6:], ",") {
				n := 0
				fmt.Sscan(x, &n)
				r.steps = append(r.steps, n)
			}
		case strings.HasPrefix(f, "fail="):
			fmt.Sscan(f[5:], &r.failAt)
		case strings.HasPrefix(f, "empty="):
			fmt.Sscanf(f[6:], "%d@%d", &r.empty, &r.emptyAt)
		case strings.HasPrefix(f, "err="):
			r.err = readErrs[f[4:]]
		case strings.HasPrefix(f, "kind="):
			kind = f[5:]
		case f == "after":
			after = true
		case f == "eof":
			r.eofNow = true
		case f == "failnow":
			r.failNow = true
		}
	}
	if kind != "" {
		return ofKind(kind, after, css, r)
	}
	return r
}

// env is a merger with its history, so that every failing case can be replayed.
type env struct {
	m   *merge.Merger
	ops []kit.Op
}

func newEnv(w *kit.W, cache string, keepSort bool) *env {
	e := &env{m: newMerger(cache, keepSort), ops: []kit.Op{{Kind: "new", KeepSort: keepSort, Cache: cache}}}
	w.Head(e.ops)
	return e
}

// add loads a stylesheet that is expected to load.
func (e *env) add(w *kit.W, css string) bool {
	err, msg := e.load(w, css, false, "")
	if msg == "" && err != nil {
		msg = "loading fails: " + err.Error()
	}
	if msg != "" {
		w.C.Violation(msg, kit.Script{Ops: append(append([]kit.Op{}, e.ops[:len(e.ops)-1]...), kit.Op{Kind: "addok", CSS: css})})
		return false
	}
	return true
}

func (e *env) load(w *kit.W, css string, inline bool, reader string) (err error, msg string) {
	op := kit.Op{Kind: "add", CSS: css, Inline: inline, Reader: reader}
	e.ops = append(e.ops, op)
	w.Head(e.ops)
	msg = w.Guard(func() kit.Script { return kit.Script{Ops: e.ops} }, func() { err = e.m.AddRules(makeReader(css, reader), inline) })
	return err, msg
}

// merge runs a merge; msg is a panic.
func (e *env) merge(w *kit.W, list string) (out, msg string) {
	w.Note('m', list)
	msg = w.Guard(func() kit.Script {
		return kit.Script{Ops: append(append([]kit.Op{}, e.ops...), kit.Op{Kind: "merge", List: list})}
	}, func() { out = e.m.Merge(list) })
	w.Traces++
	if w.Traces%30011 == 3 {
		w.C.Sample("%q -> %q", list, out)
	}
	return out, msg
}

// splitList is the reference for the classes of a list: the pieces between white space of HTML.
func splitList(s string) []string {
	var out []string
	start := -1
	for i := 0; i <= len(s); i++ {
		sep := i == len(s)
		if !sep {
			switch s[i] {
			case ' ', '\t', '\n', '\r', '\f':
				sep = true
			}
		}
		if sep && start >= 0 {
			out = append(out, s[start:i])
			start = -1
		} else if !sep && start < 0 {
			start = i
		}
	}
	return out
}

// checkOut compares a result with the verdict of the model. keepSort says that the order has to be kept.
func (s *Scenario) checkOut(list string, out string, st *State, v []byte, keepSort bool) (kind, msg string) {
	toks := splitList(out)
	if st.n == 1 && out != list {
		return KShape, fmt.Sprintf("a single class %q became %q", list, out)
	}
	if st.n == 1 {
		return "", ""
	}
	prev := -1
	var got uint64
	var gotBig map[int]bool
	if len(s.Names) > 64 {
		gotBig = map[int]bool{}
	}
	for _, t := range toks {
		c := s.lookup(t)
		if c < 0 || v[c] == Absent {
			return KShape, fmt.Sprintf("%q is in the result %q of %q, but not in the list", t, out, list)
		}
		if gotBig != nil {
			if gotBig[c] {
				return KShape, fmt.Sprintf("%q is twice in the result %q of %q", t, out, list)
			}
			gotBig[c] = true
		} else {
			if got&(1<<c) != 0 {
				return KShape, fmt.Sprintf("%q is twice in the result %q of %q", t, out, list)
			}
			got |= 1 << c
		}
		if keepSort {
			if st.pos[c] < prev {
				return KShape, fmt.Sprintf("the result %q of %q is not in the order of the last occurrences", out, list)
			}
			prev = st.pos[c]
		}
		if v[c] == Drop {
			kind, msg = KExtra, fmt.Sprintf("%q is kept in the result %q of %q, but later classes override all of it", t, out, list)
		}
	}
	for c := range s.Names {
		if v[c] != Must {
			continue
		}
		if gotBig != nil && !gotBig[c] || gotBig == nil && got&(1<<c) == 0 {
			return KMissing, fmt.Sprintf("%q is lost in the result %q of %q", s.Names[c], out, list)
		}
	}
	return kind, msg
}

func (s *Scenario) lookup(t string) int {
	if len(s.Names) <= 12 {
		for i, n := range s.Names {
			if n == t {
				return i
			}
		}
		return -1
	}
	if s.byName == nil {
		panic("scenario not indexed")
	}
	if i, ok := s.byName[t]; ok {
		return i
	}
	return -1
}

func (s *Scenario) buildIndex() {
	s.byName = map[string]int{}
	for i, n := range s.Names {
		s.byName[n] = i
	}
}

// script is the replayable form of a disagreement.
func (s *Scenario) script(e *env, list string, v []byte, keepSort bool) kit.Script {
	op := kit.Op{Kind: "merge", List: list}
	for c, n := range s.Names {
		switch v[c] {
		case Must:
			op.Must = append(op.Must, n)
		case Drop:
			op.Drop = append(op.Drop, n)
		}
	}
	op.KeepSort = keepSort
	return kit.Script{Ops: append(append([]kit.Op{}, e.ops...), op)}
}

// explorer walks all class lists of a scenario.
type explorer struct {
	s        *Scenario
	e        *env
	keepSort bool
	kinds    string // kinds of disagreement that count, "" for all
	depth    int
	prefix   []int
	states   []*State
	v        []byte
	buf      []byte
	seed     uint64
	n        int64
	noState  bool
}

func newExplorer(s *Scenario, e *env, keepSort bool, depth int, kinds string) *explorer {
	s.buildIndex()
	x := &explorer{s: s, e: e, keepSort: keepSort, depth: depth, kinds: kinds, v: make([]byte, len(s.Names)), seed: kit.Hash(s.Name, s.CSS())}
	for i := 0; i <= depth; i++ {
		x.states = append(x.states, s.NewState())
	}
	return x
}

// run explores all continuations of a list that is already in x.buf and x.states[d].
func (x *explorer) run(w *kit.W, d int) bool {
	if d >= x.depth {
		return true
	}
	for c := range x.s.Names {
		if !x.step(w, d, c) {
			return false
		}
	}
	return true
}

func (x *explorer) step(w *kit.W, d, c int) bool {
	if d == 1 && w.C.Stop() {
		return false
	}
	st := x.states[d+1]
	st.CopyFrom(x.states[d])
	x.s.Append(st, c)
	w.Trans++
	old := len(x.buf)
	if d > 0 {
		x.buf = append(x.buf, ' ')
	}
	x.buf = append(x.buf, x.s.Names[c]...)
	ok := x.eval(w, st) && x.run(w, d+1)
	x.buf = x.buf[:old]
	return ok
}

// eval compares the implementation with the model on one list.
func (x *explorer) eval(w *kit.W, st *State) bool {
	if !x.noState {
		w.State(st.hash(x.seed))
	}
	x.s.Verdict(st, x.v)
	list := string(x.buf)
	out, msg := x.e.merge(w, list)
	x.n++
	kind := KPanic
	if msg == "" {
		kind, msg = x.s.checkOut(list, out, st, x.v, x.keepSort)
	}
	if msg != "" && (x.kinds == "" || kind == KPanic || strings.Contains(x.kinds, kind)) {
		w.C.Violation(x.s.Name+": "+msg, x.s.script(x.e, list, x.v, x.keepSort))
		return false
	}
	if x.n%50021 == 17 {
		w.C.Sample("%s: %q -> %q", x.s.Name, list, out)
	}
	return true
}

// list evaluates one list given by class indexes.
func (x *explorer) list(w *kit.W, cs []int) bool {
	st := x.states[0]
	st.CopyFrom(x.s.NewState())
	x.buf = x.buf[:0]
	for i, c := range cs {
		if i > 0 {
			x.buf = append(x.buf, ' ')
		}
		x.buf = append(x.buf, x.s.Names[c]...)
		x.s.Append(st, c)
		w.Trans++
	}
	return x.eval(w, st)
}

// exploreAll explores all lists over the alphabets of the scenarios up to the depth, in parallel over
// scenarios and first classes.
func exploreAll(c *kit.C, family string, scns []*Scenario, depth int, kinds string, caches []string, sorts []bool) {
	type job struct {
		s     *Scenario
		cache string
		ks    bool
		first int
	}
	var jobs []job
	for _, s := range scns {
		for _, ca := range caches {
			for _, ks := range sorts {
				if len(scns) >= 64 {
					jobs = append(jobs, job{s, ca, ks, -1})
					continue
				}
				for f := range s.Names {
					jobs = append(jobs, job{s, ca, ks, f})
				}
			}
		}
	}
	c.Parallel(len(jobs), func(w *kit.W, i int) {
		j := jobs[i]
		s := *j.s
		e := pool(w, j.cache, j.ks)
		if !e.add(w, s.CSS()) {
			return
		}
		x := newExplorer(&s, e, j.ks, depth, kinds)
		if j.first >= 0 {
			x.step(w, 0, j.first)
		} else {
			x.run(w, 0)
		}
		c.Count(family+" lists", x.n)
	})
}

// pool gives a fresh merger; making one costs milliseconds.
func pool(w *kit.W, cache string, keepSort bool) *env { return newEnv(w, cache, keepSort) }

// exploreLists evaluates given lists (as class indexes) of scenarios.
func exploreLists(c *kit.C, family string, scns []*Scenario, lists func(s *Scenario, yield func([]int) bool), kinds string, sorts []bool) {
	type job struct {
		s  *Scenario
		ks bool
	}
	var jobs []job
	for _, s := range scns {
		for _, ks := range sorts {
			jobs = append(jobs, job{s, ks})
		}
	}
	c.Parallel(len(jobs), func(w *kit.W, i int) {
		j := jobs[i]
		s := *j.s
		e := pool(w, "", j.ks)
		if !e.add(w, s.CSS()) {
			return
		}
		x := newExplorer(&s, e, j.ks, 0, kinds)
		lists(&s, func(cs []int) bool { return !c.Stop() && x.list(w, cs) })
		c.Count(family+" lists", x.n)
	})
}
