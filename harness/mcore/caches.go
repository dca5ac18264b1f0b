package mcore

import (
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C09

var cacheKinds = []string{"simple", "map", "forget", "never", "junk"}

func checkCache(c *kit.C) {
	c.Assume("a merger without a cache is the reference; a cache may forget entries at any time, but returns only what was stored for the key",
		"bounds: histories of loads and merges up to the given length, and all pairs of the enumerated lists")
	cacheHistories(c)
	cacheKeys(c)
	manyEntries(c)
	manyLists(c)
	hugeFamily(c, "loads", "merges")
	exploreAll(c, "templates with a cache", []*Scenario{templateScenario()}, 2, "", []string{"simple", "forget"}, bothSorts)
}

// cacheOps are the steps of a history; "_" in class names and lists is replaced by a suffix.
type cacheOp struct {
	css, list, reader string
	inline            bool
}

func cacheAlphabet() []cacheOp {
	return []cacheOp{
		{css: ".a_{color:red}.b_{color:blue}.c_{opacity:1}"},
		{css: ".a_{color:red}.b_{opacity:0}.c_{opacity:1;color:x}"},
		{css: ".a_{color:red!important}"},
		{css: ".b_{color:red;margin:0}.c_{--x:1}"},
		{css: ".a_{color:green}} .b_{"},                           // does not load
		{css: ".a_{color:green}.b_{margin:0}", reader: "fail=20"}, // does not load
		{css: ""},
		{css: "color:red", inline: true},
		{list: "a_ b_"},
		{list: "b_ a_"},
		{list: "a_ b_ c_"},
		{list: "a_  b_"},
	}
}

func cacheHistories(c *kit.C) {
	depth, fresh := 4, 3
	if !c.Quick {
		depth, fresh = 5, 4
	}
	ops := cacheAlphabet()
	c.Extra("history length", depth)
	c.Extra("history alphabet", len(ops))
	type job struct {
		kind  string
		ks    bool
		first int
		fresh bool
	}
	var jobs []job
	for _, k := range cacheKinds {
		for f := range ops {
			jobs = append(jobs, job{k, f%2 == 0, f, false})
		}
	}
	for f := range ops {
		jobs = append(jobs, job{"simple", true, f, true})
	}
	c.Parallel(len(jobs), func(w *kit.W, ji int) {
		j := jobs[ji]
		d := depth
		if j.fresh {
			d = fresh
		}
		var e *env
		var ref *env
		n := 0
		var cnt int64
		reset := func() {
			ref = newEnv(w, "", j.ks)
			e = newEnv(w, j.kind, j.ks)
			n = 0
		}
		reset()
		run := func(h []int) bool {
			n++
			if n > 150 || j.fresh && n > 1 {
				reset()
			}
			suffix := fmt.Sprintf("%d", n)
			for _, o := range h {
				op := ops[o]
				if op.list == "" {
					css := strings.ReplaceAll(op.css, "_", suffix)
					err1, msg1 := e.load(w, css, op.inline, op.reader)
					err2, msg2 := ref.load(w, css, op.inline, op.reader)
					if msg1+msg2 != "" || (err1 == nil) != (err2 == nil) {
						w.C.Violation(fmt.Sprintf("loading with a cache: %v %s, without: %v %s", err1, msg1, err2, msg2), kit.Script{Ops: e.ops})
						return false
					}
					continue
				}
				list := strings.ReplaceAll(op.list, "_", suffix)
				want, msg := ref.merge(w, list)
				if msg != "" {
					w.C.Violation(msg, kit.Script{Ops: append(append([]kit.Op{}, ref.ops...), kit.Op{Kind: "merge", List: list})})
					return false
				}
				if !e.expect(w, "history with cache "+j.kind, list, want) {
					return false
				}
				e.ops = append(e.ops, kit.Op{Kind: "merge", List: list}) // results are remembered
			}
			cnt++
			w.Trans += int64(len(h))
			w.State(kit.HashInts(kit.Hash(j.kind), h))
			return true
		}
		var h []int
		var rec func() bool
		rec = func() bool {
			if len(h) == d || j.fresh {
				// prefixes are covered by the longer histories; only those that end with a merge show anything
				if ops[h[len(h)-1]].list != "" && !run(h) {
					return false
				}
			}
			if len(h) == d {
				return !c.Stop()
			}
			for o := range ops {
				h = append(h, o)
				ok := rec()
				h = h[:len(h)-1]
				if !ok {
					return false
				}
			}
			return true
		}
		h = []int{j.first}
		rec()
		c.Count("histories "+j.kind, cnt)
	})
}

// cacheKeys: no two lists share a result.
func cacheKeys(c *kit.C) {
	rules := []Rule{r("a", d("color")), r("b", d("color")), r("c", d("color"), d("opacity")), r("ab", d("opacity")), r("ba", d("opacity")), r("A", d("color")), r("aa", d("color")), r("abc", d("margin")), r("bc", d("margin-top"))}
	long := ""
	for i := 0; i < 200; i++ {
		rules = append(rules, r(fmt.Sprintf("filler-class-%d", i), d(fmt.Sprintf("prop-%d", i))))
		long += fmt.Sprintf("filler-class-%d ", i)
	}
	var lists []string
	names := []string{"a", "b", "c", "ab", "ba", "A", "aa", "abc", "bc", "x"}
	for _, p := range names {
		lists = append(lists, p)
		for _, q := range names {
			lists = append(lists, p+" "+q, p+"  "+q, " "+p+" "+q, p+" "+q+" ", p+"\t"+q)
			for _, s := range names[:5] {
				lists = append(lists, p+" "+q+" "+s)
			}
		}
	}
	for _, cut := range []int{15, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2000} {
		l := long[:strings.LastIndex(long[:cut+1], " ")+1]
		for _, t := range []string{"a", "b", "a b", "b a", "c", "c a"} {
			lists = append(lists, l+t, t+" "+l)
		}
	}
	lists = append(lists, "", " ", "  ")
	// lists of the same length that differ in one place, and have the same sum of bytes
	for i := 0; i < 10; i++ {
		for k := 0; k < 10; k++ {
			lists = append(lists, fmt.Sprintf("filler-class-1%d filler-class-1%d a b", i, k))
		}
	}
	c.Extra("lists", len(lists))
	ref := make([]string, len(lists))
	{
		w := c.Worker()
		e := newEnv(w, "", true)
		if !e.add(w, sheet(rules)) {
			return
		}
		for i, l := range lists {
			out, msg := e.merge(w, l)
			if msg != "" {
				c.Violation(msg, kit.Script{Ops: append(e.ops, kit.Op{Kind: "merge", List: l})})
				return
			}
			ref[i] = out
		}
	}
	css := sheet(rules)
	chunks := 16
	c.Parallel(len(cacheKinds)*(2+chunks), func(w *kit.W, ji int) {
		kind := cacheKinds[ji/(2+chunks)]
		part := ji % (2 + chunks)
		e := newEnv(w, kind, true)
		if !e.add(w, css) {
			return
		}
		base := len(e.ops)
		if part < 2 {
			// all of them on one cache, in both orders, twice: each list is looked up when all others are stored
			for round := 0; round < 2; round++ {
				for k := range lists {
					i := k
					if part == 1 {
						i = len(lists) - 1 - k
					}
					if !e.expect(w, "keys with cache "+kind, lists[i], ref[i]) {
						return
					}
					e.ops = append(e.ops, kit.Op{Kind: "merge", List: lists[i]})
				}
			}
			c.Count("lists on one cache", int64(2*len(lists)))
			return
		}
		// each pair on an emptied cache
		if kind == "never" || kind == "junk" {
			return
		}
		step := 1
		if c.Quick && kind != "simple" {
			step = 7
		}
		for i := part - 2; i < len(lists); i += chunks {
			for k := i % step; k < len(lists); k += step {
				e.ops = e.ops[:base]
				if err := e.m.AddRules(strings.NewReader(""), false); err != nil {
					return
				}
				e.ops = append(e.ops, kit.Op{Kind: "add"})
				if !e.expect(w, "keys with cache "+kind, lists[i], ref[i]) {
					return
				}
				e.ops = append(e.ops, kit.Op{Kind: "merge", List: lists[i]})
				if !e.expect(w, "keys with cache "+kind, lists[k], ref[k]) {
					return
				}
				w.Trans += 2
			}
			w.State(kit.Hash("key", lists[i]))
			if c.Stop() {
				return
			}
		}
	})
}
