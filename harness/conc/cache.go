package main

import (
	"fmt"
	"strings"
	"time"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C12

// Operations: "G k" reads, "S k v" writes, "C" clears.
type cacheInstance struct {
	c    *merge.SimpleCache
	keys []string
}

func (in *cacheInstance) do(op string) string {
	f := strings.Split(op, " ")
	switch f[0] {
	case "G":
		v, ok := in.c.Get(f[1])
		return fmt.Sprint(v, ok)
	case "S":
		in.c.Set(f[1], f[2])
	case "C":
		in.c.Clear()
	}
	return ""
}

func (in *cacheInstance) final() []string {
	var out []string
	for _, k := range in.keys {
		out = append(out, in.do("G "+k))
	}
	return out
}

var cacheKeys = []string{"x", "y"}

func cacheHarness(setup []string, threads [][]string) *harness {
	h := &harness{threads: threads, name: fmt.Sprintf("cache %v %v", setup, threads)}
	h.op = kit.Op{Kind: "cache", Drop: setup}
	for _, t := range threads {
		h.op.Args = append(h.op.Args, strings.Join(t, ";"))
	}
	h.begin = func() instance {
		in := &cacheInstance{merge.NewCache(), cacheKeys}
		for _, op := range setup {
			in.do(op)
		}
		return in
	}
	start := "/"
	for _, op := range setup {
		start, _ = cacheStep(start, op)
	}
	verdicts := map[string]bool{}
	h.ok = func(events []event, final []string) bool {
		key := orderKey(events, final)
		if v, ok := verdicts[key]; ok {
			return v
		}
		v := linearizable(threads, events, start, cacheStep, func(state string) bool {
			for i, k := range cacheKeys {
				if _, want := cacheStep(state, "G "+k); want != final[i] {
					return false
				}
			}
			return true
		})
		verdicts[key] = v
		return v
	}
	return h
}

// cacheStep is the sequential cache: the state is the values of x and y, "" for none.
func cacheStep(state, op string) (string, string) {
	st := strings.SplitN(state, "/", 2)
	f := strings.Split(op, " ")
	switch f[0] {
	case "G":
		v := st[f[1][0]-'x']
		return state, fmt.Sprint(v, v != "")
	case "S":
		st[f[1][0]-'x'] = f[2]
		return strings.Join(st, "/"), ""
	}
	return "/", ""
}

// values makes the values of the writes of a program unique.
func values(t int, prog []string) []string {
	out := append([]string{}, prog...)
	for i, op := range out {
		if op[0] == 'S' {
			out[i] = fmt.Sprintf("%s v%d%d", op, t, i)
		}
	}
	return out
}

// lasting: entries of all ages, from the beginning of the check on; time does not clear them.
type lasting struct {
	c     *merge.SimpleCache
	n     int
	began time.Time
}

func (l *lasting) add() {
	k := fmt.Sprint("key ", l.n)
	l.c.Set(k, k)
	l.n++
}

func (l *lasting) check(p *part) bool {
	for i := 0; i < l.n; i++ {
		k := fmt.Sprint("key ", i)
		if v, ok := l.c.Get(k); !ok || v != k {
			p.violation(fmt.Sprintf("after %d s, %q reads %q, %v", int(time.Since(l.began).Seconds()), k, v, ok), kit.Op{Kind: "cache", Text: "lasting"})
			return false
		}
	}
	return true
}

func checkSimpleCache(p *part) {
	l := &lasting{c: merge.NewCache(), began: time.Now()}
	for i := 0; i < 10; i++ {
		l.add()
	}
	exploreCache(p)
	l.add()
	if p.res.Violation == nil {
		l.check(p)
		p.count("entries that last", int64(l.n))
	}
}

func exploreCache(p *part) {
	alpha := []string{"G x", "S x", "G y", "S y", "C"}
	setups := [][]string{nil, {"S x v9"}, {"S x v8", "S y v9"}}
	run := func(family string, setup []string, bound int, ts ...[]string) bool {
		if !p.mine() {
			return true
		}
		threads := make([][]string, len(ts))
		for i := range ts {
			threads[i] = values(i, ts[i])
		}
		before := p.res.Execs
		ok := p.explore(cacheHarness(setup, threads), bound)
		p.count(family+" programs", 1)
		p.count(family+" schedules", p.res.Execs-before)
		return ok
	}
	short := append(programs(alpha, 1), programs(alpha, 2)...)
	for i, a := range short {
		for _, b := range short[i:] {
			for _, s := range setups {
				if !run("up to 2x2, all schedules", s, 100, a, b) {
					return
				}
			}
		}
	}
	ones := programs(alpha, 1)
	for i, a := range ones {
		for j, b := range ones[i:] {
			for _, d := range ones[i+j:] {
				for _, s := range setups {
					if !run("1x1x1, all schedules", s, 100, a, b, d) {
						return
					}
				}
			}
		}
	}
	// longer ones start from an empty cache or a full one
	bound, step := 2, 17
	if !p.quick {
		bound, step = 4, 1
	}
	long := programs(alpha, 3)
	for i, a := range long {
		for j, b := range long[i:] {
			if (i*5+j)%step != 0 {
				continue
			}
			for _, s := range setups[1:] {
				if !run("3x3", s, bound, a, b) {
					return
				}
			}
		}
	}
	twos := programs(alpha, 2)
	for _, a := range twos {
		for j, b := range ones {
			for _, d := range ones[j:] {
				if !run("2x1x1", setups[1], 2, a, b, d) {
					return
				}
			}
		}
	}
	if !p.quick {
		for i, a := range twos {
			for j, b := range twos[i:] {
				for _, d := range twos[i+j:] {
					if !run("2x2x2", setups[1], 2, a, b, d) {
						return
					}
				}
			}
		}
	}
	cacheSequences(p)
}

type cacheOp struct{ kind, k, v string }

var seqKeys = []string{"x", "X", "", "x ", "xx"}

func seqOps() []cacheOp {
	var ops []cacheOp
	for i, k := range seqKeys {
		ops = append(ops, cacheOp{"S", k, fmt.Sprintf("v%d", i)}, cacheOp{"G", k, ""})
	}
	return append(ops, cacheOp{"S", "x", ""}, cacheOp{"S", "x", "v9"}, cacheOp{"C", "", ""})
}

// sequence runs a sequential history.
func sequence(ops []cacheOp, hist []int) string {
	c := merge.NewCache()
	ref := map[string]string{}
	for i, o := range hist {
		op := ops[o]
		switch op.kind {
		case "S":
			c.Set(op.k, op.v)
			ref[op.k] = op.v
		case "C":
			c.Clear()
			ref = map[string]string{}
		}
		if op.kind != "G" && i < len(hist)-1 {
			continue
		}
		for _, k := range seqKeys {
			if op.kind == "G" && k != op.k {
				continue
			}
			v, ok := c.Get(k)
			want, had := ref[k]
			if ok != had || ok && v != want {
				var names []string
				for _, x := range hist[:i+1] {
					names = append(names, fmt.Sprintf("%s %q %q", ops[x].kind, ops[x].k, ops[x].v))
				}
				return fmt.Sprintf("after %v: reading %q gives %q, %v; want %q, %v", names, k, v, ok, want, had)
			}
		}
	}
	return ""
}

// cacheSequences: sequential histories.
func cacheSequences(p *part) {
	ops := seqOps()
	depth := 5
	if !p.quick {
		depth = 6
	}
	hist := make([]int, 0, depth)
	var rec func(d int) bool
	rec = func(d int) bool {
		if d == 2 && !p.mine() {
			return true
		}
		if d == 2 && p.stop() {
			return false
		}
		if d == depth {
			if p.res.Execs%64 == 0 {
				p.note(kit.Op{Kind: "cache", Text: "sequence", Ints: hist})
			}
			if msg := sequence(ops, hist); msg != "" {
				p.violation(msg, kit.Op{Kind: "cache", Text: "sequence", Ints: append([]int{}, hist...)})
				return false
			}
			p.res.Execs++
			p.res.Trans += int64(len(hist))
			p.state(kit.HashInts(7, hist))
			return true
		}
		for o := range ops {
			hist = append(hist, o)
			ok := rec(d + 1)
			hist = hist[:d]
			if !ok {
				return false
			}
		}
		return true
	}
	before := p.res.Execs
	if !rec(0) {
		return
	}
	p.count("sequential histories", p.res.Execs-before)
	manyEntries(p)
	longKeys(p)
	manyCalls(p)
	manyKeys(p)
}

// manyCalls: no number of calls makes a difference: what was cleared stays away, what was set stays there.
func manyCalls(p *part) {
	n := 70000
	if !p.quick {
		n = 300000
	}
	bad := func(format string, args ...any) {
		p.violation(fmt.Sprintf(format, args...), kit.Op{Kind: "cache", Text: "calls"})
	}
	forms := []func() bool{
		func() bool { // set one, clear all, again and again
			c := merge.NewCache()
			key := func(i int) string { return fmt.Sprint("key ", i) }
			c.Set("first", "v")
			c.Set("first two", "v")
			for i := 0; i < n; i++ {
				c.Set(key(i), "v")
				if i%2 == 0 {
					c.Set("even", "v")
				}
				if v, ok := c.Get(key(i)); !ok || v != "v" {
					bad("after %d calls of Clear and a Set: %q, %v", i, v, ok)
					return false
				}
				c.Clear()
				for d := 0; d < 1<<17; d = d*2 + 1 {
					if d > i {
						break
					}
					for e := 0; e < 2 && d+e <= i; e++ {
						if v, ok := c.Get(key(i - d - e)); ok {
							bad("after %d calls of Clear, what was set %d calls before reads %q", i+1, d+e+1, v)
							return false
						}
					}
				}
				for _, k := range []string{"first", "first two", "even"} {
					if v, ok := c.Get(k); ok {
						bad("after %d calls of Clear, %q reads %q", i+1, k, v)
						return false
					}
				}
			}
			return true
		},
		func() bool { // only clear
			c := merge.NewCache()
			c.Set("x", "v")
			for i := 0; i < n; i++ {
				c.Clear()
				if v, ok := c.Get("x"); ok {
					bad("after %d calls of Clear, x reads %q", i+1, v)
					return false
				}
			}
			c.Set("x", "w")
			if v, ok := c.Get("x"); !ok || v != "w" {
				bad("after %d calls of Clear and a Set, x reads %q, %v", n, v, ok)
				return false
			}
			return true
		},
		func() bool { // set the same again and again, and read another one
			c := merge.NewCache()
			c.Set("y", "v")
			for i := 0; i < n; i++ {
				if i%3 > 0 {
					c.Set("x", fmt.Sprint(i))
				}
				v, ok := c.Get("x")
				want := i
				if i%3 == 0 {
					want--
				}
				if i > 0 && (!ok || v != fmt.Sprint(want)) {
					bad("after %d calls of Set, x reads %q, %v", i, v, ok)
					return false
				}
				if v, ok := c.Get("y"); !ok || v != "v" {
					bad("after %d calls of Set for another key, y reads %q, %v", i, v, ok)
					return false
				}
				if v, ok := c.Get("z"); ok {
					bad("after %d calls of Get, z reads %q", i, v)
					return false
				}
			}
			c.Clear()
			for _, k := range []string{"x", "y", "z"} {
				if v, ok := c.Get(k); ok {
					bad("after %d calls of Set and Get and one of Clear, %s reads %q", n, k, v)
					return false
				}
			}
			return true
		},
	}
	for _, f := range forms {
		if p.n > 1 && !p.mine() {
			continue
		}
		if !f() {
			return
		}
		p.res.Execs++
		p.res.Trans += int64(n)
		p.count("histories of many calls", 1)
	}
}

// manyKeys: all pairs of words at the same time; there are two with the same hash of 32 bits, whatever the hash is.
func manyKeys(p *part) {
	n := 1050
	if !p.quick {
		n = 3000
	}
	for _, pad := range []int{0, 20, 300} {
		if p.n > 1 && !p.mine() {
			continue
		}
		if pad > 0 {
			n = 600
		}
		if !keysWith(p, n, strings.Repeat("p ", pad/2)) {
			return
		}
	}
}

func keysWith(p *part, n int, pad string) bool {
	words := make([]string, n)
	for i := range words {
		words[i] = fmt.Sprintf("w%x", uint64(i+1)*0x9E3779B97F4A7C15>>20)
	}
	c := merge.NewCache()
	for round := 0; round < 2; round++ {
		for i, a := range words {
			for _, b := range words {
				k := pad + a + " " + b
				if round == 0 {
					c.Set(k, k)
				} else if v, ok := c.Get(k); !ok || v != k {
					p.violation(fmt.Sprintf("of %d entries, %q reads %q, %v", n*n, k, v, ok), kit.Op{Kind: "cache", Text: "keys"})
					return false
				}
			}
			if i%100 == 0 && p.stop() {
				return false
			}
		}
	}
	p.res.Execs++
	p.count("keys at the same time", int64(n*n))
	return true
}

func manyEntries(p *part) {
	// many entries
	for _, n := range []int{1, 4, 13, 40, 121, 364, 1093, 3280, 9841, 20000, 70000} {
		if p.n > 1 && !p.mine() {
			continue
		}
		c := merge.NewCache()
		key := func(i int) string { return fmt.Sprintf("key %d %s", i, strings.Repeat("k", i%70)) }
		for round := 0; round < 3; round++ {
			for i := 0; i < n; i++ {
				c.Set(key(i), fmt.Sprint(round, i))
			}
			for i := 0; i < n; i++ {
				if v, ok := c.Get(key(i)); !ok || v != fmt.Sprint(round, i) {
					p.violation(fmt.Sprintf("of %d entries, %q reads %q, %v", n, key(i), v, ok), kit.Op{Kind: "cache", Text: "many"})
					return
				}
			}
			if round == 1 {
				c.Clear()
				for i := 0; i < n; i++ {
					if v, ok := c.Get(key(i)); ok {
						p.violation(fmt.Sprintf("of %d entries, %q still reads %q after clearing", n, key(i), v), kit.Op{Kind: "cache", Text: "many"})
						return
					}
				}
			}
		}
		p.res.Execs++
		p.count("large caches", 1)
	}
}

// longKeys: keys that differ in one byte, or in length, and long values.
func longKeys(p *part) {
	for n := 1; n <= 1<<17; n = n*5/4 + 1 {
		if p.n > 1 && !p.mine() {
			continue
		}
		c := merge.NewCache()
		ref := map[string]string{}
		long := strings.Repeat("k", n)
		set := func(k, v string) {
			c.Set(k, v)
			ref[k] = v
		}
		set(long, "v"+long)
		for _, b := range []string{"K", " ", "l", "\x00", "\xff"} {
			for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
				if i >= 0 && i < n {
					k := long[:i] + b + long[i+1:]
					set(k, fmt.Sprint(b, i)+long)
				}
			}
			set(long+b, "after"+b)
			set(b+long, "before"+b)
		}
		set(long[1:], "shorter")
		set(long+long, "longer")
		for round := 0; round < 2; round++ {
			for k, want := range ref {
				v, ok := c.Get(k)
				if round == 0 && (!ok || v != want) || round == 1 && ok {
					p.violation(fmt.Sprintf("keys of length about %d: round %d, one reads %.40q, %v instead of %.40q", n, round, v, ok, want), kit.Op{Kind: "cache", Text: "long"})
					return
				}
			}
			c.Clear()
		}
		p.res.Execs++
		p.count("caches with long keys", 1)
	}
}

func replayCache(p *part, ops []kit.Op) {
	op := ops[0]
	switch op.Text {
	case "sequence":
		if msg := sequence(seqOps(), op.Ints); msg != "" {
			p.violation(msg)
		}
		return
	case "many":
		manyEntries(p)
		return
	case "long":
		longKeys(p)
		return
	case "lasting":
		l := &lasting{c: merge.NewCache(), began: time.Now()}
		l.add()
		time.Sleep(100 * time.Second)
		l.check(p)
		return
	case "calls":
		manyCalls(p)
		return
	case "keys":
		manyKeys(p)
		return
	}
	var threads [][]string
	for _, a := range op.Args {
		threads = append(threads, strings.Split(a, ";"))
	}
	h := cacheHarness(op.Drop, threads)
	races := raceErrors()
	for i := 0; i < 3; i++ {
		e, events, final := h.once(op.Ints)
		if msg := h.judge(e, events, final, races); msg != "" {
			p.violation(h.name + ": " + msg)
			return
		}
	}
}
