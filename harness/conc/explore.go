package main

import (
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/zzsched"
)

// event is a call and its return in one execution.
type event struct {
	thread, index int
	call, ret     int // order of calls and returns
	result        string
}

var clock int

//go:norace
func tick() int { clock++; return clock }

//go:norace
func resetClock() { clock = 0 }

// harness is a small concurrent program.
type harness struct {
	name    string
	op      kit.Op // replays it
	threads [][]string
	// begin makes the object; run executes an operation; end gives the results of operations after all threads ended
	begin func() instance
	// ok decides whether a history is allowed
	ok func(events []event, final []string) bool
}

type instance interface {
	do(op string) string
	final() []string
}

// once runs one schedule.
func (h *harness) once(prefix []int) (e *zzsched.Exec, events []event, final []string) {
	in := h.begin()
	resetClock()
	evs := make([][]event, len(h.threads))
	bodies := make([]func(), len(h.threads))
	for t := range h.threads {
		t := t
		evs[t] = make([]event, len(h.threads[t]))
		bodies[t] = func() {
			for i, op := range h.threads[t] {
				if i > 0 {
					zzsched.Step()
				}
				ev := &evs[t][i]
				ev.thread, ev.index = t, i
				ev.call = tick()
				ev.result = in.do(op)
				ev.ret = tick()
			}
		}
	}
	e = zzsched.Run(prefix, bodies)
	if e.Ended() {
		return e, nil, nil
	}
	for _, l := range evs {
		events = append(events, l...)
	}
	return e, events, in.final()
}

// judge reports what is wrong with an execution.
func (h *harness) judge(e *zzsched.Exec, events []event, final []string, races int) string {
	switch {
	case len(e.Panics()) > 0:
		return e.Panics()[0]
	case e.Deadlock != "":
		return "deadlock: " + e.Deadlock
	case e.Livelock:
		return "the threads go on forever"
	case raceErrors() > races:
		return "data race"
	case !h.ok(events, final):
		var b strings.Builder
		for _, ev := range events {
			fmt.Fprintf(&b, "\n thread %d: %s -> %s (called at %d, returned at %d)", ev.thread, h.threads[ev.thread][ev.index], ev.result, ev.call, ev.ret)
		}
		return fmt.Sprintf("no order of the operations explains the results:%s\n afterwards: %q", b.String(), final)
	}
	return ""
}

// explore runs all schedules with at most the given number of preemptions.
func (p *part) explore(h *harness, bound int) bool {
	stack := [][]int{nil}
	for len(stack) > 0 {
		if p.stop() {
			return false
		}
		prefix := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		op := h.op
		op.Ints = prefix
		p.note(op)
		races := raceErrors()
		e, events, final := h.once(prefix)
		p.res.Execs++
		p.res.Trans += int64(e.Steps())
		if msg := h.judge(e, events, final, races); msg != "" {
			op.Ints = taken(e)
			p.violation(h.name+": "+msg, op)
			return false
		}
		hash := kit.Hash(h.name)
		used := 0
		for i, ch := range e.Choices {
			hash = kit.HashInts(hash, []int{ch.N, ch.Taken})
			p.state(hash)
			if i >= len(prefix) && !e.Diverged {
				cost := used
				if ch.Preempt {
					cost++
				}
				if cost <= bound {
					for a := 1; a < ch.N; a++ {
						next := make([]int, i+1)
						for k := 0; k < i; k++ {
							next[k] = e.Choices[k].Taken
						}
						next[i] = a
						stack = append(stack, next)
					}
				}
			}
			if ch.Preempt && ch.Taken != 0 {
				used++
			}
		}
		if e.Diverged || e.Foreign() {
			p.res.Counts["diverged"]++
			p.res.Capped = true
		}
		if p.res.Execs%5003 == 7 {
			var rs []string
			for _, ev := range events {
				rs = append(rs, fmt.Sprintf("t%d:%s=%s", ev.thread, h.threads[ev.thread][ev.index], ev.result))
			}
			p.sample("%s: schedule %v: %s", h.name, taken(e), strings.Join(rs, " "))
		}
	}
	return true
}

func taken(e *zzsched.Exec) []int {
	out := []int{}
	for _, c := range e.Choices {
		out = append(out, c.Taken)
	}
	return out
}

// linearizable looks for an order of the events that respects calls and returns, and that the sequential object explains.
// step applies an operation to a state; it returns the next state and the expected result.
func linearizable(threads [][]string, events []event, start string, step func(state, op string) (string, string), finish func(state string) bool) bool {
	n := len(events)
	done := make([]bool, n)
	seen := map[string]bool{}
	var rec func(state string, left int) bool
	rec = func(state string, left int) bool {
		if left == 0 {
			return finish(state)
		}
		key := fmt.Sprint(state, done)
		if seen[key] {
			return false
		}
		seen[key] = true
		for i := range events {
			if done[i] {
				continue
			}
			// all that returned before this was called come first
			early := true
			for j := range events {
				if !done[j] && j != i && events[j].ret < events[i].call {
					early = false
					break
				}
			}
			if !early {
				continue
			}
			next, want := step(state, threads[events[i].thread][events[i].index])
			if want != events[i].result {
				continue
			}
			done[i] = true
			if rec(next, left-1) {
				return true
			}
			done[i] = false
		}
		return false
	}
	return rec(start, n)
}

// orderKey identifies a history up to what matters for the verdict.
func orderKey(events []event, final []string) string {
	var b strings.Builder
	for i := range events {
		b.WriteString(events[i].result)
		b.WriteByte('|')
		for j := range events {
			if events[j].ret < events[i].call {
				b.WriteByte('1')
			} else {
				b.WriteByte('0')
			}
		}
	}
	for _, f := range final {
		b.WriteByte('|')
		b.WriteString(f)
	}
	return b.String()
}
