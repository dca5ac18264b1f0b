// Package kit is the common part of the model checkers: it runs a check in a child process, watches it
// (panics, hangs, fatal errors and memory blow-ups of the code under test become violations with a replayable
// case), counts what was explored and writes the evidence file.
package kit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Op is one step of a replayable case. Which fields matter depends on Kind.
type Op struct {
	Kind     string   `json:"kind"` // new, add, merge, rules, ... (interpreted by the binary that wrote it)
	M        int      `json:"m,omitempty"`
	KeepSort bool     `json:"keep_sort,omitempty"`
	Cache    string   `json:"cache,omitempty"`
	CSS      string   `json:"css,omitempty"`
	Inline   bool     `json:"inline,omitempty"`
	Reader   string   `json:"reader,omitempty"` // how the reader behaves
	List     string   `json:"list,omitempty"`
	Text     string   `json:"text,omitempty"`
	Args     []string `json:"args,omitempty"`
	Ints     []int    `json:"ints,omitempty"`
	Must     []string `json:"must,omitempty"` // classes that have to be in the result
	Drop     []string `json:"drop,omitempty"` // classes that must not be in the result
	Want     *string  `json:"want,omitempty"` // exact result
}

// Script is a replayable case.
type Script struct {
	Binary   string `json:"binary"`
	Property string `json:"property"`
	What     string `json:"what"`
	Ops      []Op   `json:"ops"`
}

// C is the state of one check.
type C struct {
	ID     string
	Tier   string
	Quick  bool
	Seed   int
	Binary string

	start     time.Time
	deadline  time.Time
	mu        sync.Mutex
	samples   []string
	counts    map[string]int64
	notes     []string
	assume    []string
	capped    atomic.Bool
	violated  atomic.Bool
	states    int64
	stateSets []*StateSet
	trans     int64
	traces    int64
	exec      int64
	extra     map[string]any
	level     string
	outcomes  map[string]int64
	workers   []*W
}

// StateSet is a set of hashes of states.
type StateSet struct{ m map[uint64]struct{} }

// W is a worker of a check.
type W struct {
	C      *C
	ID     int
	States StateSet
	Trans  int64 // transitions explored
	Traces int64 // traces replayed against the implementation
	began  atomic.Int64
	cur    atomic.Pointer[func() Script]
	head   []byte
	slot   []byte
}

const (
	nWorkers = 8
	headSize = 1 << 20
	slotSize = 1 << 16
)

func (w *W) State(h uint64) {
	if w.States.m == nil {
		w.States.m = map[uint64]struct{}{}
	}
	w.States.m[h] = struct{}{}
}

// Hash is FNV-1a.
func Hash(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h ^= uint64(p[i])
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	return h
}

// HashInts hashes small integers.
func HashInts(h uint64, xs []int) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for _, x := range xs {
		h ^= uint64(x + 2)
		h *= 1099511628211
	}
	return h
}

// Head notes the environment of the coming cases for the case that the process dies: ops to run first.
func (w *W) Head(ops []Op) {
	if w.head == nil {
		return
	}
	b, _ := json.Marshal(ops)
	put(w.head, b)
}

func put(dst, b []byte) {
	if len(b) > len(dst)-8 {
		b = b[:len(dst)-8]
	}
	n := copy(dst[8:], b)
	for i := 0; i < 8; i++ {
		dst[i] = byte(n >> (8 * i))
	}
}

func get(src []byte) []byte {
	n := 0
	for i := 0; i < 8; i++ {
		n |= int(src[i]) << (8 * i)
	}
	if n < 0 || n > len(src)-8 {
		return nil
	}
	return src[8 : 8+n]
}

// Note notes the current case for the case that the process dies; kind is the kind of the op, text its argument.
func (w *W) Note(kind byte, text string) {
	if w.slot == nil {
		return
	}
	w.slot[8] = kind
	n := copy(w.slot[9:], text) + 1
	for i := 0; i < 8; i++ {
		w.slot[i] = byte(n >> (8 * i))
	}
}

// Nested is an operation with a text too long for a note: before, open n times, mid, close n times, after.
func Nested(before, open, mid, close, after string, n int) Op {
	return Op{Kind: "nested", Args: []string{before, open, mid, close, after}, Ints: []int{n}}
}

// NestedText is the text of a nested operation.
func (op Op) NestedText() string {
	a, n := op.Args, op.Ints[0]
	return a[0] + strings.Repeat(a[1], n) + a[2] + strings.Repeat(a[3], n) + a[4]
}

// NoteNested notes a nested operation.
func (w *W) NoteNested(op Op) {
	b, _ := json.Marshal(op)
	w.Note('N', string(b))
}

// Guard runs f, which calls the code under test, and reports a panic as a string.
func (w *W) Guard(script func() Script, f func()) (msg string) {
	w.cur.Store(&script)
	w.began.Store(time.Now().UnixNano())
	defer func() {
		w.began.Store(0)
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v\n%s", r, trim(debug.Stack()))
		}
	}()
	f()
	return ""
}

// Alive says that a call inside of a guarded function has returned.
func (w *W) Alive() {
	if w.began.Load() != 0 {
		w.began.Store(time.Now().UnixNano())
	}
}

func trim(b []byte) []byte {
	if len(b) > 4000 {
		return b[:4000]
	}
	return b
}

// Stop reports whether the exploration should end (violation found or out of time).
func (c *C) Stop() bool {
	if c.violated.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.capped.Store(true)
		return true
	}
	return false
}

// Count adds to a named count of the evidence.
func (c *C) Count(name string, n int64) {
	c.mu.Lock()
	c.counts[name] += n
	c.mu.Unlock()
}

// Outcome counts a kind of observed result, to see that the exploration is not vacuous.
func (c *C) Outcome(name string, n int64) {
	c.mu.Lock()
	c.outcomes[name] += n
	c.mu.Unlock()
}

// Extra sets an additional field of the coverage.
func (c *C) Extra(name string, v any) {
	c.mu.Lock()
	c.extra[name] = v
	c.mu.Unlock()
}

// Sample keeps the first few samples.
func (c *C) Sample(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 12 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.samples = append(c.samples, s)
	}
}

func (c *C) Assume(s ...string) { c.assume = append(c.assume, s...) }

// Capped notes that a bound was not completed.
func (c *C) Capped(why string) {
	c.capped.Store(true)
	c.mu.Lock()
	c.notes = append(c.notes, why)
	c.mu.Unlock()
}

// Known reports a finding that the known-findings file lists; one that it does not list is a violation.
func (c *C) Known(property, id, what string) {
	b, _ := os.ReadFile(knownPath())
	for _, line := range strings.Split(string(b), "\n") {
		if f := strings.Fields(line); len(f) >= 3 && f[0] == "known:" && f[1] == "property="+property && f[2] == "id="+id {
			c.mu.Lock()
			defer c.mu.Unlock()
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", property, what)
			return
		}
	}
	c.Violation(what, Script{})
}

func knownPath() string {
	if p := os.Getenv("KIT_KNOWN"); p != "" {
		return p
	}
	return "/verif/known-findings.txt"
}

func (c *C) Violated() bool { return c.violated.Load() }

// Violation reports a violation; the first one counts.
func (c *C) Violation(what string, s Script) {
	if !c.violated.CompareAndSwap(false, true) {
		return
	}
	s.What, s.Property, s.Binary = what, c.ID, c.Binary
	path := writeReplay(s)
	c.mu.Lock()
	defer c.mu.Unlock()
	fmt.Printf("%s\n", what)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
}

func outDir() string {
	if d := os.Getenv("KIT_OUT"); d != "" {
		return d
	}
	return "/verif/.build"
}

func writeReplay(s Script) string {
	dir := filepath.Join(outDir(), "replays")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(s, "", " ")
	path := filepath.Join(dir, fmt.Sprintf("%s-%x.json", s.Property, Hash(string(b))))
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// Parallel runs f for 0..n-1 on the workers.
func (c *C) Parallel(n int, f func(w *W, i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := range c.workers {
		w := c.workers[k]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.Stop() {
					return
				}
				f(w, i)
			}
		}()
	}
	wg.Wait()
}

// Main runs the checks of a binary: "BINARY ID TIER" or "BINARY -replay FILE".
func Main(binary string, checks map[string]func(*C), replay func(*W, Script) error) {
	log.SetOutput(io.Discard)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: ID TIER | -replay FILE")
		os.Exit(2)
	}
	if os.Args[1] == "-replay" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var s Script
		if err := json.Unmarshal(b, &s); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		debug.SetMaxStack(64 << 20)
		go func() {
			time.Sleep(60 * time.Second)
			fmt.Println("REPLAY: does not end within 60 s")
			os.Exit(1)
		}()
		w := &W{C: &C{}}
		var rerr error
		if msg := w.Guard(func() Script { return s }, func() { rerr = replay(w, s) }); msg != "" {
			rerr = fmt.Errorf("%s", msg)
		}
		if rerr != nil {
			fmt.Println("REPLAY: property violated:", rerr)
			os.Exit(1)
		}
		fmt.Println("REPLAY: property holds on this case")
		os.Exit(0)
	}
	id, tier := os.Args[1], os.Args[2]
	f, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		os.Exit(2)
	}
	if os.Getenv("KIT_CHILD") == "" {
		os.Exit(parent(binary, id))
	}
	child(binary, id, tier, f)
}

func journalPath(id string) string {
	return filepath.Join(outDir(), "journal-"+id)
}

func parent(binary, id string) int {
	os.MkdirAll(outDir(), 0o755)
	jp := journalPath(id)
	for attempt := 0; ; attempt++ {
		os.Remove(jp)
		cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
		cmd.Env = append(os.Environ(), "KIT_CHILD=1")
		var errBuf bytes.Buffer
		cmd.Stdout = os.Stdout
		cmd.Stderr = &errBuf
		err := cmd.Run()
		code := cmd.ProcessState.ExitCode()
		if err == nil || code == 0 || code == 1 {
			os.Remove(jp)
			os.Stderr.Write(tail(errBuf.Bytes(), 4000))
			return code
		}
		os.Stderr.Write(tail(errBuf.Bytes(), 8000))
		// the child died: find the case
		for _, s := range journalScripts(binary, id, jp) {
			path := writeReplay(s)
			r := exec.Command("/proc/self/exe", "-replay", path)
			r.Env = os.Environ()
			out, err := r.CombinedOutput()
			if err != nil {
				fmt.Printf("the process died (%s) while running this case; replay: %s\n", firstLine(errBuf.Bytes()), tail(out, 600))
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
				os.Remove(jp)
				return 1
			}
			os.Remove(path)
		}
		if fatal := errBuf.String(); strings.Contains(fatal, "fatal error: stack overflow") || strings.Contains(fatal, "fatal error: concurrent map") {
			path := writeReplay(Script{Binary: binary, Property: id, What: string(head(errBuf.Bytes(), 4000))})
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			return 1
		}
		if attempt > 0 {
			return 2
		}
	}
}

func firstLine(b []byte) string {
	if i := bytes.IndexByte(b, '\n'); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

func journalScripts(binary, id, jp string) []Script {
	b, err := os.ReadFile(jp)
	if err != nil {
		return nil
	}
	var out []Script
	for i := 0; i < nWorkers && (i+1)*(headSize+slotSize) <= len(b); i++ {
		p := b[i*(headSize+slotSize):]
		var ops []Op
		json.Unmarshal(get(p[:headSize]), &ops)
		cur := get(p[headSize : headSize+slotSize])
		if len(cur) == 0 {
			continue
		}
		switch cur[0] {
		case 'm':
			// the list may concern any of the mergers
			n := 0
			for _, op := range ops {
				if op.Kind == "new" {
					n++
				}
			}
			for m := 0; m < n; m++ {
				ops = append(ops, Op{Kind: "merge", M: m, List: string(cur[1:])})
			}
		case 'a':
			ops = append(ops, Op{Kind: "new"}, Op{Kind: "add", CSS: string(cur[1:])})
		case 'N':
			var op Op
			if json.Unmarshal(cur[1:], &op) == nil {
				ops = append(ops, Op{Kind: "new"}, op)
			}
		case 's':
			ops = append(ops, Op{Kind: "parse", Text: string(cur[1:])})
		}
		out = append(out, Script{Binary: binary, Property: id, What: "the process died", Ops: ops})
	}
	return out
}

func child(binary, id, tier string, f func(*C)) {
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(400)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &C{ID: id, Tier: tier, Quick: tier != "thorough", Seed: seed, Binary: binary, start: time.Now(),
		counts: map[string]int64{}, outcomes: map[string]int64{}, extra: map[string]any{}, level: "model_checking"}
	budget := 100 * time.Second
	if !c.Quick {
		budget = 40 * time.Minute
	}
	if s, err := strconv.Atoi(os.Getenv("KIT_BUDGET_S")); err == nil && s > 0 {
		budget = time.Duration(s) * time.Second
	}
	c.deadline = c.start.Add(budget)
	var mem []byte
	if jf, err := os.Create(journalPath(id)); err == nil {
		size := nWorkers * (headSize + slotSize)
		if jf.Truncate(int64(size)) == nil {
			mem, _ = syscall.Mmap(int(jf.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
	}
	for i := 0; i < nWorkers; i++ {
		w := &W{C: c, ID: i}
		if mem != nil {
			p := mem[i*(headSize+slotSize) : (i+1)*(headSize+slotSize)]
			w.head, w.slot = p[:headSize:headSize], p[headSize:]
		}
		c.workers = append(c.workers, w)
	}
	go c.watch()
	f(c)
	c.finish()
}

// watch turns hangs and memory blow-ups of the code under test into violations.
func (c *C) watch() {
	var ms runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now().UnixNano()
		limit := int64(60 * time.Second)
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 10<<30 {
			limit = int64(3 * time.Second)
		}
		for _, w := range c.workers {
			b := w.began.Load()
			if b == 0 || now-b < limit {
				continue
			}
			p := w.cur.Load()
			if p == nil {
				continue
			}
			c.Violation(fmt.Sprintf("the call has not returned for %v (heap %d MB)", time.Duration(now-b), ms.HeapAlloc>>20), (*p)())
			c.finish()
		}
	}
}

var finishOnce sync.Mutex

func (c *C) finish() {
	finishOnce.Lock() // never released: the first to finish ends the process
	states := map[uint64]struct{}{}
	for _, w := range c.workers {
		c.trans += w.Trans
		c.traces += w.Traces
		for h := range w.States.m {
			states[h] = struct{}{}
		}
	}
	if c.samples == nil {
		c.samples = []string{}
	}
	v := 0
	if c.violated.Load() {
		v = 1
	}
	cov := map[string]any{
		"states":                        len(states) + int(c.states),
		"transitions":                   c.trans,
		"traces_validated_against_impl": c.traces,
		"samples":                       c.samples,
		"exhaustive":                    !c.capped.Load() && v == 0,
		"counts":                        c.counts,
	}
	if len(c.outcomes) > 0 {
		cov["outcomes"] = c.outcomes
	}
	if len(c.notes) > 0 {
		sort.Strings(c.notes)
		cov["caps"] = c.notes
	}
	for k, x := range c.extra {
		cov[k] = x
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.level, "coverage": cov,
		"assumptions": c.assume, "wall_s": time.Since(c.start).Seconds(), "violations": v,
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := os.Getenv("KIT_EVIDENCE")
	if dir == "" {
		dir = "/verif/evidence"
	}
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d exhaustive=%v violations=%d wall=%.1fs\n", c.ID, c.Tier, len(states)+int(c.states), c.trans, c.traces, cov["exhaustive"], v, time.Since(c.start).Seconds())
	os.Exit(v)
}

// AddStates adds states counted elsewhere.
func (c *C) AddStates(n int64) { atomic.AddInt64(&c.states, n) }

// AddTrans and AddTraces add counts made outside of workers.
func (c *C) AddTrans(n int64)  { atomic.AddInt64(&c.trans, n) }
func (c *C) AddTraces(n int64) { atomic.AddInt64(&c.traces, n) }

// Left is the time that is left.
func (c *C) Left() time.Duration { return time.Until(c.deadline) }

// Elapsed is the time since the check began.
func (c *C) Elapsed() time.Duration { return time.Since(c.start) }

// Worker gives a worker to sequential code.
func (c *C) Worker() *W { return c.workers[0] }
