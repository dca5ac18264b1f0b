package main

import (
	"fmt"
	"io"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/mcore"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/zzsched"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/zzsync"
)

// ---- C11

var assumptions = map[string][]string{
	"C08": {"the iteration order of a map is an order of all of its entries; entries are ordered by key as the reference order",
		"bounds: every iteration order of up to two map iterations per merge (maps of at most five entries: all orders; larger ones: rotations, reversals, single moves), lists up to the length bound over the alphabets"},
	"C11": {"other caches than the built-in one are safe for concurrent use",
		"other threads are chosen at acquiring synchronization operations, between operations, and when a reader is read or a cache is called; that is enough because every data race counts as a violation, and the race detector watches every schedule",
		"bounds: 2-3 threads, 1-3 operations each, the preemption bound"},
	"C12": {"other threads are chosen at acquiring synchronization operations and between operations; every data race counts as a violation, and the race detector watches every schedule",
		"bounds: 2-3 threads, 1-3 operations each over two keys, the preemption bound; sequential histories up to the length bound"},
	"C23": {"other threads are chosen at acquiring synchronization operations and between operations; every data race counts as a violation, and the race detector watches every schedule",
		"bounds: one document, the listed selectors, 2-3 threads of 1-2 operations, the preemption bound; sequential histories up to the length bound"},
}

// loads of a harness; "_" stands for a suffix that is new in each execution, so that one merger serves many.
type load struct {
	css    string
	inline bool
	reader string // "slow": another thread may be chosen at each read; "fail": the reader fails
	fails  bool
}

var loads = map[string]load{
	"L0": {css: ".a_{color:red}.b_{color:blue}.c_{margin:0}"},
	"L1": {css: ".a_{opacity:0}.b_{opacity:0}.c_{opacity:0}"},
	"L2": {css: ".a_{margin:0}.b_{margin:0}.c_{color:red}"},
	"L3": {css: ".a_{color:red!important}.b_{color:blue}.c_{color:green}"},
	"LS": {css: ".a_{opacity:0}.b_{opacity:0}.c_{opacity:0}", reader: "slow"},
	"LF": {css: ".a_{margin:0}.b_{margin:0}} .c_{", fails: true},
	"LR": {css: ".a_{margin:0}.b_{margin:0}", reader: "fail", fails: true},
	"LE": {css: ""},
	"LI": {css: "color:red", inline: true},
	// many features
	"R0": {css: ".a_{--x:1;color:var(--x);border:0}.b_:hover{color:red}@media (min-width:640px){.c_{padding:0!important}}.d_>p,.e_{margin:0;border-top-width:1px}"},
	"R1": {css: ".a_:is(.b_,.c_){color:red}.b_{--y:var(--x);color:var(--y)}@supports (display:grid){.c_:hover:focus{padding-left:0}}.d_::before{margin:0}.e_{all:unset}"},
}

var lists = map[string]string{
	"M":  "a_ b_ c_",
	"N":  "c_ b_ a_",
	"O":  "a_",
	"W":  " b_  a_ ",
	"MR": "a_ b_ c_ d_ e_ a_",
	"NR": "e_ d_ c_ b_ a_ zz",
}

// a stylesheet with two classes for every property, and lists of all of them
func init() {
	var css strings.Builder
	var there, back []string
	for i, p := range mcore.Properties() {
		more := ""
		if i%3 == 0 {
			more = ";--x:1;color:var(--x)"
		}
		fmt.Fprintf(&css, ".p%dx_{%s:red}.p%dy_{%s:blue!important%s}", i, p, i, p, more)
		there = append(there, fmt.Sprintf("p%dx_ p%dy_", i, i))
		back = append([]string{fmt.Sprintf("p%dy_ p%dx_", i, i)}, back...)
	}
	loads["PA"] = load{css: css.String()}
	lists["PM"], lists["PN"] = strings.Join(there, " "), strings.Join(back, " ")
}

type points struct {
	r    io.Reader
	fail bool
	n    int
}

func (r *points) Read(b []byte) (int, error) {
	zzsched.Point()
	r.n++
	if r.fail && r.n > 2 {
		return 0, fmt.Errorf("the reader failed")
	}
	if len(b) > 24 {
		b = b[:24]
	}
	return r.r.Read(b)
}

// otherCache is a cache other than the built-in one.
type otherCache struct {
	mu zzsync.Mutex
	m  map[string]string
}

func (c *otherCache) Get(k string) (string, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	v, ok := c.m[k]
	return v, ok
}
func (c *otherCache) Set(k, v string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.m[k] = v
}
func (c *otherCache) Clear() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.m = map[string]string{}
}

func newMerger(cache string, keepSort bool) *merge.Merger {
	switch cache {
	case "simple":
		return merge.NewMerger(merge.NewCache(), keepSort)
	case "other":
		return merge.NewMerger(&otherCache{m: map[string]string{}}, keepSort)
	}
	return merge.NewMerger(nil, keepSort)
}

var serial int

func doLoad(m *merge.Merger, l load, suffix string) string {
	var r io.Reader = strings.NewReader(strings.ReplaceAll(l.css, "_", suffix))
	if l.reader != "" {
		r = &points{r: r, fail: l.reader == "fail"}
	}
	if err := m.AddRules(r, l.inline); err != nil {
		return "error"
	}
	return "ok"
}

func doMerge(m *merge.Merger, list, suffix string) string {
	return strings.ReplaceAll(m.Merge(strings.ReplaceAll(list, "_", suffix)), suffix, "_")
}

// mergers that are used again and again
type mergerPool struct {
	m    map[string]*merge.Merger
	uses map[string]int
}

var mergers = mergerPool{map[string]*merge.Merger{}, map[string]int{}}

func (p *mergerPool) get(cache string, keepSort bool, which int) *merge.Merger {
	k := fmt.Sprint(cache, keepSort, which)
	if p.m[k] == nil || p.uses[k] > 2000 {
		p.m[k], p.uses[k] = newMerger(cache, keepSort), 0
	}
	p.uses[k]++
	return p.m[k]
}

// mergerInstance is the object of one execution.
type mergerInstance struct {
	ms     []*merge.Merger // operations that begin with "'" are for the second one
	suffix string
	ends   []string
	make   func() *merge.Merger // if they are made late
}

func (in *mergerInstance) do(op string) string {
	m := &in.ms[0]
	if op[0] == '\'' {
		m, op = &in.ms[1], op[1:]
	}
	if *m == nil {
		*m = in.make()
	}
	if l, ok := loads[op]; ok {
		return doLoad(*m, l, in.suffix)
	}
	return doMerge(*m, lists[op], in.suffix)
}

func (in *mergerInstance) final() []string {
	var out []string
	for _, op := range in.ends {
		out = append(out, in.do(op))
	}
	return out
}

// reference: the results of merges after a sequence of loads, on a merger without a cache.
var refResults = map[string]string{}

func refMerge(keepSort bool, loaded []string, list string) string {
	key := fmt.Sprint(keepSort, loaded, list)
	if r, ok := refResults[key]; ok {
		return r
	}
	m := mergers.get("", keepSort, 9)
	serial++
	suffix := fmt.Sprintf("z%dz", serial)
	for _, l := range loaded {
		ld := loads[l]
		if ld.reader != "" {
			ld.reader = ""
		}
		doLoad(m, ld, suffix)
	}
	r := doMerge(m, lists[list], suffix)
	refResults[key] = r
	return r
}

// conc describes a harness of a merger.
type conc struct {
	cache    string
	keepSort bool
	fresh    bool
	two      bool // two mergers
	own      bool // each is made by the thread that uses it first
	setup    []string
	threads  [][]string
}

func (c conc) op() kit.Op {
	op := kit.Op{Kind: "conc", Cache: c.cache, KeepSort: c.keepSort}
	if c.fresh {
		op.Must = append(op.Must, "fresh")
	}
	if c.two {
		op.Must = append(op.Must, "two")
	}
	if c.own {
		op.Must = append(op.Must, "own")
	}
	op.Drop = c.setup
	for _, t := range c.threads {
		op.Args = append(op.Args, strings.Join(t, " "))
	}
	return op
}

func concOf(op kit.Op) conc {
	c := conc{cache: op.Cache, keepSort: op.KeepSort, setup: op.Drop}
	for _, f := range op.Must {
		c.fresh = c.fresh || f == "fresh"
		c.two = c.two || f == "two"
		c.own = c.own || f == "own"
	}
	for _, t := range op.Args {
		c.threads = append(c.threads, strings.Fields(t))
	}
	return c
}

func (c conc) harness() *harness {
	h := &harness{op: c.op(), threads: c.threads}
	h.name = fmt.Sprintf("merger (cache %q, keepSort %v, fresh %v, made late %v, setup %v) %v", c.cache, c.keepSort, c.fresh, c.own, c.setup, c.threads)
	ends := []string{"M", "N"}
	for _, t := range append([][]string{c.setup}, c.threads...) {
		for _, op := range t {
			switch strings.TrimPrefix(op, "'") {
			case "R0", "R1", "MR", "NR":
				ends = []string{"MR", "NR"}
			case "PA":
				ends = []string{"PM", "PN"}
			}
		}
	}
	if c.two {
		for _, e := range ends[:2] {
			ends = append(ends, "'"+e)
		}
	}
	h.begin = func() instance {
		serial++
		in := &mergerInstance{suffix: fmt.Sprintf("z%dz", serial), ends: ends}
		n := 1
		if c.two {
			n = 2
		}
		for i := 0; i < n; i++ {
			if c.own {
				in.ms = append(in.ms, nil)
				in.make = func() *merge.Merger { return newMerger(c.cache, c.keepSort) }
			} else if c.fresh {
				in.ms = append(in.ms, newMerger(c.cache, c.keepSort))
			} else {
				in.ms = append(in.ms, mergers.get(c.cache, c.keepSort, i))
			}
		}
		for _, op := range c.setup {
			in.do(op)
		}
		return in
	}
	start := ";"
	for _, op := range c.setup {
		start, _ = c.step(start, op)
	}
	verdicts := map[string]bool{}
	h.ok = func(events []event, final []string) bool {
		key := orderKey(events, final)
		if v, ok := verdicts[key]; ok {
			return v
		}
		v := linearizable(c.threads, events, start, c.step, func(state string) bool {
			for i, op := range ends {
				if _, want := c.step(state, op); want != final[i] {
					return false
				}
			}
			return true
		})
		verdicts[key] = v
		return v
	}
	return h
}

// step is the sequential merger: the state is the loads of each of the mergers.
func (c conc) step(state, op string) (string, string) {
	st := strings.SplitN(state, ";", 2)
	i := 0
	if op[0] == '\'' {
		i, op = 1, op[1:]
	}
	if l, ok := loads[op]; ok {
		if l.fails {
			return state, "error"
		}
		st[i] += op + " "
		return strings.Join(st, ";"), "ok"
	}
	return state, refMerge(c.keepSort, strings.Fields(st[i]), op)
}

// programs are all sequences of operations of the given length.
func programs(alphabet []string, n int) [][]string {
	if n == 0 {
		return [][]string{nil}
	}
	var out [][]string
	for _, p := range programs(alphabet, n-1) {
		for _, op := range alphabet {
			out = append(out, append(append([]string{}, p...), op))
		}
	}
	return out
}

func hasLoad(ts ...[]string) bool {
	for _, t := range ts {
		for _, op := range t {
			if _, ok := loads[strings.TrimPrefix(op, "'")]; ok {
				return true
			}
		}
	}
	return false
}

func checkConcurrency(p *part) {
	run := func(family string, c conc, bound int) bool {
		if !p.mine() {
			return true
		}
		before := p.res.Execs
		ok := p.explore(c.harness(), bound)
		p.count(family+" programs", 1)
		p.count(family+" schedules", p.res.Execs-before)
		return ok
	}
	caches := []string{"simple", "", "other"}
	b2, b3, b22 := 100, 2, 2
	if !p.quick {
		b3, b22 = 3, 4
	}
	S := []string{"L0"}
	alpha := []string{"M", "N", "O", "L0", "L1", "L2", "L3", "LS", "LF", "LR", "LE", "LI", "W"}
	one := programs(alpha, 1)
	// one operation each: all schedules
	for _, cache := range caches {
		for i, a := range one {
			for _, b := range one[i:] {
				for _, ks := range []bool{true, false} {
					if !run("1x1", conc{cache: cache, keepSort: ks, setup: S, threads: [][]string{a, b}}, b2) {
						return
					}
				}
			}
		}
	}
	// new mergers, and merges that come first
	for _, cache := range caches {
		for _, t := range [][][]string{{{"M"}, {"M"}}, {{"M"}, {"L1"}}, {{"L1"}, {"L2"}}, {{"M"}, {"N"}}} {
			for _, setup := range [][]string{nil, S} {
				if !run("new merger", conc{cache: cache, keepSort: true, fresh: true, setup: setup, threads: t}, 1) {
					return
				}
			}
		}
	}
	// every property for the first time
	for _, cache := range caches {
		for _, t := range [][][]string{{{"PM"}, {"PM"}}, {{"PM"}, {"PN"}}, {{"PM"}, {"PA"}}} {
			if !run("every property", conc{cache: cache, keepSort: true, fresh: true, setup: []string{"PA"}, threads: t}, 1) {
				return
			}
		}
	}
	// many features
	for _, cache := range caches {
		for _, t := range [][][]string{{{"MR"}, {"MR"}}, {{"MR"}, {"NR"}}, {{"MR"}, {"R1"}}, {{"R0"}, {"R1"}}, {{"NR"}, {"R1"}}, {{"MR", "NR"}, {"R1", "R0"}}, {{"MR", "R1"}, {"R0", "NR"}}, {{"R1"}, {"R1"}}} {
			for _, ks := range []bool{true, false} {
				if !run("many features", conc{cache: cache, keepSort: ks, setup: []string{"R0"}, threads: t}, 3) {
					return
				}
			}
		}
	}
	// two mergers
	for _, cache := range caches {
		for _, t := range [][][]string{{{"MR"}, {"'MR"}}, {{"R1"}, {"'R1"}}, {{"MR"}, {"'R1"}}, {{"R1", "MR"}, {"'R0", "'NR"}}, {{"M", "L1"}, {"'L2", "'M"}}} {
			if !run("two mergers", conc{cache: cache, keepSort: true, two: true, setup: []string{"R0", "'R0"}, threads: t}, 2) {
				return
			}
		}
	}
	// up to two operations each
	small := []string{"M", "N", "L1", "L2", "LF"}
	if !p.quick {
		small = append(small, "LS", "L0", "LR")
	}
	two := append(programs(small, 1), programs(small, 2)...)
	for _, cache := range caches {
		for i, a := range two {
			for j, b := range two[i:] {
				if len(a)+len(b) < 3 || !hasLoad(a, b) {
					continue
				}
				if p.quick && cache != "simple" && (i+j)%3 != 0 {
					continue
				}
				if !run("2x2", conc{cache: cache, keepSort: true, setup: S, threads: [][]string{a, b}}, b22) {
					return
				}
			}
		}
	}
	// three threads
	three := []string{"M", "N", "L1", "L2", "LF"}
	for _, cache := range caches {
		ps := programs(three, 1)
		for i, a := range ps {
			for j, b := range ps[i:] {
				for _, d := range ps[i+j:] {
					if !hasLoad(a, b, d) {
						continue
					}
					if !run("1x1x1", conc{cache: cache, keepSort: true, setup: S, threads: [][]string{a, b, d}}, b3) {
						return
					}
				}
			}
		}
	}
	for _, cache := range caches {
		for _, t := range [][][]string{{{"M", "M"}, {"L1"}, {"L2"}}, {{"M", "L1"}, {"M", "L2"}, {"M"}}, {{"L1", "M"}, {"L2", "M"}, {"M"}}, {{"M", "M"}, {"M", "N"}, {"L1", "L2"}}, {{"M", "LF"}, {"LS"}, {"L2", "M"}}} {
			b := 1
			if !p.quick {
				b = 2
			}
			if !run("three threads", conc{cache: cache, keepSort: true, setup: S, threads: t}, b) {
				return
			}
		}
	}
	if p.quick {
		return
	}
	three3 := programs([]string{"M", "L1", "L2", "LF"}, 3)
	for i, a := range three3 {
		for j, b := range three3[i:] {
			if (i+j)%5 == 0 && hasLoad(a, b) && !run("3x3", conc{cache: "simple", keepSort: true, setup: S, threads: [][]string{a, b}}, 2) {
				return
			}
		}
	}
}

func replayConc(p *part, ops []kit.Op) {
	c := concOf(ops[0])
	h := c.harness()
	races := raceErrors()
	for i := 0; i < 3; i++ {
		e, events, final := h.once(ops[0].Ints)
		if msg := h.judge(e, events, final, races); msg != "" {
			p.violation(h.name + ": " + msg)
			return
		}
	}
}
