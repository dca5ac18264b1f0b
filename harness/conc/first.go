package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// firsts are programs whose operations are the first ones of a process, for what is made when it is needed for the
// first time: each runs in a process of its own, in which nothing has happened before.
func firsts(id string, quick bool) (out []*harness) {
	switch id {
	case "C11":
		for _, cache := range []string{"simple", "", "other"} {
			for _, t := range [][][]string{{{"R0", "MR"}, {"'R0", "'MR"}}, {{"R1"}, {"'R0", "'NR"}}, {{"LF", "MR"}, {"'LI", "'R1"}}, {{"M"}, {"'M"}}, {{"PA", "PM"}, {"'PA", "'PN"}}} {
				out = append(out, conc{cache: cache, keepSort: cache == "", two: true, own: true, threads: t}.harness())
			}
			for _, t := range [][][]string{{{"MR"}, {"MR"}}, {{"MR"}, {"NR"}}, {{"MR"}, {"R1"}}, {{"R1"}, {"R1"}}} {
				for _, ks := range []bool{true, false} {
					out = append(out, conc{cache: cache, keepSort: ks, fresh: true, setup: []string{"R0"}, threads: t}.harness())
				}
			}
			for _, t := range [][][]string{{{"PM"}, {"PM"}}, {{"PM"}, {"PN"}}} {
				out = append(out, conc{cache: cache, keepSort: true, fresh: true, setup: []string{"PA"}, threads: t}.harness())
			}
		}
	case "C23":
		for i, s := range valueSels {
			other := valueSels[(i*7+3)%len(valueSels)]
			for k, a := range valueOps {
				if quick && k != i%2 && a != "text" && a != "rule" && (i+k)%3 != 0 {
					continue
				}
				out = append(out, valueHarness(s, other, [][]string{{a}, {a}}))
			}
		}
		// nothing has been parsed before
		for i := range valueSels {
			if quick && i%4 != 0 {
				continue
			}
			for _, a := range []string{"other", "load"} {
				out = append(out, valueHarness(":unsupported", valueSels[i], [][]string{{a}, {"other"}}))
			}
		}
	}
	return out
}

// runFirst runs a program in two orders of its threads; only the first of them can be the first.
func runFirst(id, tier, index, base string) {
	runtime.GOMAXPROCS(1)
	var i int
	fmt.Sscan(index, &i)
	p := &part{id: id, tier: tier, quick: tier != "thorough", n: 1, states: map[uint64]struct{}{}, deadline: time.Now().Add(time.Minute)}
	p.res.Counts, p.res.Outcomes = map[string]int64{}, map[string]int64{}
	p.journal, _ = os.Create(base + ".journal")
	h := firsts(id, p.quick)[i/2]
	op := h.op
	if i%2 == 1 {
		op.Ints = []int{1}
	}
	p.note(op)
	go p.watch()
	races := raceErrors()
	e, events, final := h.once(op.Ints)
	p.res.Execs++
	p.res.Trans += int64(e.Steps())
	if msg := h.judge(e, events, final, races); msg != "" {
		op.Ints = taken(e)
		p.violation("at the beginning of a process: "+h.name+": "+msg, op)
	}
	b, _ := json.Marshal(p.res)
	os.WriteFile(base+".json", b, 0o644)
	os.Exit(0)
}

// runFirsts runs all programs that are to be the first of a process.
func runFirsts(c *kit.C) {
	n := 2 * len(firsts(c.ID, c.Quick))
	var wg sync.WaitGroup
	var mu sync.Mutex
	next := 0
	for k := 0; k < parts; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= n || c.Stop() {
					return
				}
				base := filepath.Join(outDir(), fmt.Sprintf("first-%s-%d", c.ID, k))
				os.Remove(base + ".json")
				old, _ := filepath.Glob(base + ".race.*")
				for _, f := range old {
					os.Remove(f)
				}
				r, msg := process(base, "-first", c.ID, c.Tier, fmt.Sprint(i), base)
				if r == nil {
					c.Capped("a process ended early")
					fmt.Fprintln(os.Stderr, "first", i, "ended:", msg)
					if strings.Contains(msg, "fatal error: concurrent map") {
						c.Violation("at the beginning of a process: "+msg, kit.Script{Binary: "conc", Property: c.ID})
					}
					continue
				}
				if r.Violation != nil {
					withRaces(base, r.Violation)
					c.Violation(r.Violation.What, *r.Violation)
				}
				c.AddTrans(r.Trans)
				c.AddTraces(r.Execs)
				c.Count("programs at the beginning of a process", 1)
			}
		}()
	}
	wg.Wait()
}

// process runs this program again, and reads its result.
func process(base string, args ...string) (*result, string) {
	cmd := exec.Command("/proc/self/exe", args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=exitcode=0 atexit_sleep_ms=0 halt_on_error=0 log_path="+base+".race", "KIT_LEFT=60")
	var b strings.Builder
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	var r result
	text, _ := os.ReadFile(base + ".json")
	if err == nil && json.Unmarshal(text, &r) == nil {
		return &r, ""
	}
	msg := b.String()
	if len(msg) > 4000 {
		msg = msg[:4000]
	}
	return nil, fmt.Sprint(err, " ", msg)
}

// withRaces adds the reports of the race detector.
func withRaces(base string, v *kit.Script) {
	logs, _ := filepath.Glob(base + ".race.*")
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		if len(b) > 3000 {
			b = b[:3000]
		}
		v.What += "\n" + string(b)
	}
}
