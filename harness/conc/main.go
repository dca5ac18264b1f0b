// conc checks the properties that are about schedules and about the order of iteration over maps.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// A scheduler controls one process, so that the work is split over processes, each with its part of the cases.

const parts = 8

// result is what a part reports.
type result struct {
	States, Trans, Execs int64
	Counts               map[string]int64
	Outcomes             map[string]int64
	Samples              []string
	Capped               bool
	Violation            *kit.Script
}

// part is the state of one part.
type part struct {
	id, tier string
	quick    bool
	i, n     int
	res      result
	states   map[uint64]struct{}
	deadline time.Time
	journal  *os.File
	next     int
}

// mine deals the cases out to the parts.
func (p *part) mine() bool {
	p.next++
	return p.next%p.n == p.i
}

func (p *part) stop() bool {
	if p.res.Violation != nil {
		return true
	}
	if time.Now().After(p.deadline) {
		p.res.Capped = true
		return true
	}
	return false
}

func (p *part) violation(what string, ops ...kit.Op) {
	if p.res.Violation == nil {
		p.res.Violation = &kit.Script{Binary: "conc", Property: p.id, What: what, Ops: ops}
	}
}

func (p *part) count(name string, n int64)   { p.res.Counts[name] += n }
func (p *part) outcome(name string, n int64) { p.res.Outcomes[name] += n }
func (p *part) state(h uint64)               { p.states[h] = struct{}{} }
func (p *part) sample(format string, args ...any) {
	if len(p.res.Samples) < 2 {
		p.res.Samples = append(p.res.Samples, fmt.Sprintf(format, args...))
	}
}

// note writes down the case that runs, for the case that the process dies.
func (p *part) note(ops ...kit.Op) {
	if p.journal == nil {
		return
	}
	b, _ := json.Marshal(ops)
	b = append(b, '\n')
	p.journal.WriteAt(b, 0)
}

type checker func(p *part)

var checkers = map[string]checker{"C08": checkOrders, "C11": checkConcurrency, "C12": checkSimpleCache, "C23": checkValues}

func outDir() string {
	if d := os.Getenv("KIT_OUT"); d != "" {
		return d
	}
	return "/verif/.build"
}

// runParts runs a check in processes.
func runParts(c *kit.C) {
	for _, a := range assumptions[c.ID] {
		c.Assume(a)
	}
	runFirsts(c)
	if c.Stop() {
		return
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var results []result
	for i := 0; i < parts; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			base := filepath.Join(outDir(), fmt.Sprintf("part-%s-%d", c.ID, i))
			for _, f := range []string{base + ".json", base + ".journal"} {
				os.Remove(f)
			}
			old, _ := filepath.Glob(base + ".race.*")
			for _, f := range old {
				os.Remove(f)
			}
			cmd := exec.Command("/proc/self/exe", "-part", c.ID, c.Tier, fmt.Sprint(i), base)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=exitcode=0 atexit_sleep_ms=0 halt_on_error=0 log_path="+base+".race", fmt.Sprintf("KIT_LEFT=%d", int(c.Left().Seconds())))
			var errBuf strings.Builder
			cmd.Stdout, cmd.Stderr = &errBuf, &errBuf
			err := cmd.Run()
			var r result
			b, _ := os.ReadFile(base + ".json")
			if err == nil && json.Unmarshal(b, &r) == nil {
				if v := r.Violation; v != nil {
					withRaces(base, v)
					c.Violation(v.What, *v)
				}
				mu.Lock()
				results = append(results, r)
				mu.Unlock()
				return
			}
			// the part died
			msg := errBuf.String()
			if len(msg) > 4000 {
				msg = msg[:4000]
			}
			if jf, err := os.Open(base + ".journal"); err == nil {
				line, _ := bufio.NewReaderSize(jf, 1<<20).ReadBytes('\n')
				jf.Close()
				var ops []kit.Op
				if json.Unmarshal(line, &ops) == nil && dies(c.ID, ops) {
					c.Violation("the process dies: "+msg, kit.Script{Binary: "conc", Property: c.ID, Ops: ops})
					return
				}
			}
			if strings.Contains(msg, "fatal error: ") && !strings.Contains(msg, "out of memory") && !strings.Contains(msg, "cannot allocate") {
				c.Violation("the process dies: "+msg, kit.Script{Binary: "conc", Property: c.ID})
				return
			}
			c.Capped("part " + fmt.Sprint(i) + " ended early")
			fmt.Fprintln(os.Stderr, "part", i, "ended:", err, msg)
		}()
	}
	wg.Wait()
	for _, r := range results {
		c.AddStates(r.States)
		c.AddTrans(r.Trans)
		c.AddTraces(r.Execs)
		for k, v := range r.Counts {
			c.Count(k, v)
		}
		for k, v := range r.Outcomes {
			c.Outcome(k, v)
		}
		for _, s := range r.Samples {
			c.Sample("%s", s)
		}
		if r.Capped {
			c.Capped("out of time")
		}
	}
	if c.ID == "C08" {
		orderLists(c)
	}
}

// dies confirms that a case kills a process.
func dies(id string, ops []kit.Op) bool {
	b, _ := json.Marshal(kit.Script{Binary: "conc", Property: id, Ops: ops})
	f := filepath.Join(outDir(), "confirm-"+id+".json")
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	return exec.Command("/proc/self/exe", "-replay", f).Run() != nil
}

func runPart(id, tier, index, base string) {
	runtime.GOMAXPROCS(1)
	p := &part{id: id, tier: tier, quick: tier != "thorough", n: parts, states: map[uint64]struct{}{}}
	p.res.Counts, p.res.Outcomes = map[string]int64{}, map[string]int64{}
	fmt.Sscan(index, &p.i)
	left := 60
	fmt.Sscan(os.Getenv("KIT_LEFT"), &left)
	p.deadline = time.Now().Add(time.Duration(left) * time.Second)
	p.journal, _ = os.Create(base + ".journal")
	go p.watch()
	checkers[id](p)
	p.res.States = int64(len(p.states))
	b, _ := json.Marshal(p.res)
	os.WriteFile(base+".json", b, 0o644)
	os.Exit(0)
}

// watch ends the process when an execution does not end.
func (p *part) watch() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(2 * time.Second)
		if n := p.progress(); n != last {
			last, since = n, time.Now()
		}
		if time.Since(since) > 100*time.Second {
			fmt.Println("fatal error: an execution does not end")
			os.Exit(3)
		}
	}
}

//go:norace
func (p *part) progress() int64 { return p.res.Execs }

func main() {
	if len(os.Args) == 6 && os.Args[1] == "-part" {
		runPart(os.Args[2], os.Args[3], os.Args[4], os.Args[5])
	}
	if len(os.Args) == 6 && os.Args[1] == "-first" {
		runFirst(os.Args[2], os.Args[3], os.Args[4], os.Args[5])
	}
	if len(os.Args) > 1 && os.Args[1] == "-replay" && os.Getenv("CONC_REPLAY") == "" {
		// again with the settings of a part
		cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
		cmd.Env = append(os.Environ(), "CONC_REPLAY=1", "GOMAXPROCS=1", "GORACE=exitcode=0 atexit_sleep_ms=0 halt_on_error=0")
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if cmd.Run() != nil {
			os.Exit(1)
		}
		os.Exit(0)
	}
	kit.Main("conc", map[string]func(*kit.C){"C08": runParts, "C11": runParts, "C12": runParts, "C23": runParts}, replay)
}

func replay(w *kit.W, s kit.Script) error {
	p := &part{id: s.Property, quick: true, n: 1, states: map[uint64]struct{}{}, deadline: time.Now().Add(time.Hour)}
	p.res.Counts, p.res.Outcomes = map[string]int64{}, map[string]int64{}
	if len(s.Ops) == 0 {
		return fmt.Errorf("no case")
	}
	switch s.Ops[0].Kind {
	case "conc":
		replayConc(p, s.Ops)
	case "cache":
		replayCache(p, s.Ops)
	case "value":
		replayValue(p, s.Ops)
	case "orders":
		replayOrders(p, s.Ops)
	default:
		return replayLists(w, s)
	}
	if p.res.Violation != nil {
		return fmt.Errorf("%s", p.res.Violation.What)
	}
	return nil
}
