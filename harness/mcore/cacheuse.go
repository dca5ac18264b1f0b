package mcore

import (
	"encoding/json"
	"fmt"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C24

// watchCache is a map that counts what is stored.
type watchCache struct {
	items map[string]string
	sets  int
}

func (c *watchCache) Get(key string) (string, bool) { v, ok := c.items[key]; return v, ok }
func (c *watchCache) Set(key, data string)          { c.items[key] = data; c.sets++ }
func (c *watchCache) Clear()                        { c.items = map[string]string{} }

// cacheUse is a merger with a cache that can be looked into.
type cacheUse struct {
	m      *merge.Merger
	c      merge.Cache
	w      *watchCache
	stored map[string]string
	old    []string
	n      int
}

func newCacheUse(kind string, keepSort bool) *cacheUse {
	u := &cacheUse{stored: map[string]string{}}
	if kind == "simple" {
		u.c = merge.NewCache()
	} else {
		u.w = &watchCache{items: map[string]string{}}
		u.c = u.w
	}
	u.m = merge.NewMerger(u.c, keepSort)
	return u
}

// useOp is a load or, without one, a merge.
type useOp struct {
	Load           bool
	CSS, List      string
	Reader, Suffix string
	Inline         bool
}

func (u *cacheUse) do(op useOp) string {
	sub := func(s string) string { return strings.ReplaceAll(s, "_", op.Suffix) }
	if op.Load {
		err := u.m.AddRules(makeReader(sub(op.CSS), op.Reader), op.Inline)
		if err != nil {
			// the results may be kept, as nothing has changed
			for l := range u.stored {
				if _, ok := u.c.Get(l); !ok {
					delete(u.stored, l)
				}
			}
			return ""
		}
		for l := range u.stored {
			u.old = append(u.old, l)
			delete(u.stored, l)
		}
		if u.w != nil && len(u.w.items) > 0 {
			return fmt.Sprintf("after a load there are %d results in the cache", len(u.w.items))
		}
		for _, l := range u.old {
			if v, ok := u.c.Get(l); ok {
				return fmt.Sprintf("after a load there still is the result %q for %q in the cache", v, l)
			}
		}
		if len(u.old) > 200 {
			u.old = u.old[100:]
		}
		return ""
	}
	list := sub(op.List)
	sets := 0
	if u.w != nil {
		sets = u.w.sets
	}
	out := u.m.Merge(list)
	if len(splitList(list)) < 2 {
		return ""
	}
	was, again := u.stored[list]
	if again && was != out {
		return fmt.Sprintf("merging %q gives %q and then %q", list, was, out)
	}
	if again && u.w != nil && u.w.sets != sets {
		return fmt.Sprintf("merging %q again stores %d results", list, u.w.sets-sets)
	}
	for i := 0; i < 2; i++ {
		if v, ok := u.c.Get(list); !ok || v != out {
			return fmt.Sprintf("after merging %q to %q the cache has %q, %v", list, out, v, ok)
		}
	}
	u.stored[list] = out
	return ""
}

func replayCacheUse(kind string, keepSort bool, text string) string {
	var ops []useOp
	if err := json.Unmarshal([]byte(text), &ops); err != nil {
		return err.Error()
	}
	u := newCacheUse(kind, keepSort)
	for _, op := range ops {
		if msg := u.do(op); msg != "" {
			return msg
		}
	}
	return ""
}

func checkCacheUse(c *kit.C) {
	c.Assume("lists of a single class may be answered without the cache; a load that fails may keep the results or not",
		"bounds: histories up to the given length; the listed lists, lengths of lists and numbers of results")
	a := []useOp{
		{Load: true, CSS: ".a_{color:red}.b_{color:blue}.c_{opacity:1}"},
		{Load: true, CSS: ".a_{color:red;--x:1}.b_{opacity:var(--x)}@media print{.c_{margin:0!important}}"},
		{Load: true, CSS: ".a_{--x:1}.b_{--y:2}.c_{}"}, // merging a and b gives nothing
		{Load: true, CSS: ""},
		{Load: true, CSS: ".zz_{top:0}"},
		{Load: true, CSS: ".a_{color:green}} .b_{"},
		{Load: true, CSS: ".a_{color:green}.b_{margin:0}", Reader: "fail=20"},
		{Load: true, CSS: "color:red", Inline: true},
		{List: "a_ b_"}, {List: "b_ a_"}, {List: "a_  b_"}, {List: " a_ b_ "}, {List: "a_ u_"}, {List: "u_ v_"}, {List: "c_ c_"}, {List: "a_"},
	}
	depth := 4
	if !c.Quick {
		depth = 5
	}
	c.Extra("history length", depth)
	c.Extra("history alphabet", len(a))
	kinds := []string{"watch", "simple"}
	report := func(w *kit.W, kind string, ks bool, ops []useOp, msg string) {
		b, err := json.Marshal(ops)
		if err != nil {
			panic(err)
		}
		w.C.Violation(msg, kit.Script{Ops: []kit.Op{{Kind: "new", KeepSort: ks}, {Kind: "cacheuse", KeepSort: ks, Cache: kind, Text: string(b)}}})
	}
	c.Parallel(len(kinds)*len(a)*len(a), func(w *kit.W, ji int) {
		kind, first, second := kinds[ji%2], ji/2%len(a), ji/2/len(a)
		ks := (first+second)%2 == 0
		u, n := newCacheUse(kind, ks), 0
		h := []int{first, second}
		run := func() bool {
			if n++; n%200 == 0 {
				u = newCacheUse(kind, ks)
			}
			var ops []useOp
			for _, i := range h {
				op := a[i]
				op.Suffix = fmt.Sprint(n)
				ops = append(ops, op)
				var msg string
				if p := w.Guard(func() kit.Script { return kit.Script{} }, func() { msg = u.do(op) }); p != "" {
					msg = p
				}
				if msg != "" {
					report(w, kind, ks, ops, msg)
					return false
				}
			}
			w.Traces++
			w.Trans += int64(len(h))
			w.State(kit.HashInts(kit.Hash(kind), h))
			return true
		}
		var rec func() bool
		rec = func() bool {
			if len(h) == depth {
				return run() && !c.Stop()
			}
			for i := range a {
				h = append(h, i)
				ok := rec()
				h = h[:len(h)-1]
				if !ok {
					return false
				}
			}
			return true
		}
		rec()
	})
	hugeFamily(c, "cache")
	// long lists, and many results at the same time
	sizes := []int{2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000}
	if !c.Quick {
		sizes = append(sizes, 4095, 4096, 4097, 8192, 10000, 20000)
	}
	// results and lists of many bytes
	bytes := []int{1000, 2048, 3000, 4090, 4095, 4096, 4097, 5000, 8192, 10000, 16384, 32767, 32768, 50000, 65530, 65535, 65536, 65537, 100000, 131072, 262144, 500000, 1 << 20}
	if !c.Quick {
		bytes = append(bytes, 1<<21, 1<<22, 1<<24)
	}
	c.Parallel(len(kinds)*len(sizes)*3+len(kinds)*len(bytes), func(w *kit.W, ji int) {
		kind, size, how := kinds[ji%2], 0, 3
		if ji/2 < len(bytes) {
			size = bytes[ji/2]
		} else {
			i := ji/2 - len(bytes)
			size, how = sizes[i%len(sizes)], i/len(sizes)
		}
		u := newCacheUse(kind, true)
		css := useOp{Load: true, CSS: ".a{color:red}.b{color:blue}.c{opacity:1}.a" + strings.Repeat("x", 300) + "{margin:0}"}
		ops := []useOp{css}
		for round := 0; round < 2; round++ {
			switch how {
			case 0: // a long list
				l := make([]string, size)
				for i := range l {
					l[i] = []string{"a", "u", "b", "c", fmt.Sprint("v", i)}[i%5]
				}
				ops = append(ops, useOp{List: strings.Join(l, " ")}, useOp{List: strings.Join(l[1:], " ") + " a"})
			case 1: // many lists
				for i := 0; i < size; i++ {
					ops = append(ops, useOp{List: fmt.Sprintf("a u%d b", i)})
				}
			case 2: // long names
				ops = append(ops, useOp{List: "a " + strings.Repeat("x", size)}, useOp{List: strings.Repeat("a", size) + " b"}, useOp{List: "b " + strings.Repeat(" ", size) + "a"})
			case 3: // many bytes: in the list and the result, or only in the list
				var many strings.Builder
				for i := 0; many.Len() < size; i++ {
					fmt.Fprintf(&many, "u%d ", i)
				}
				ops = append(ops, useOp{List: "a " + strings.Repeat("x", size)}, useOp{List: many.String() + "a b"}, useOp{List: strings.Repeat("a b ", size/4) + "c"}, useOp{List: "b" + strings.Repeat(" ", size) + "a"})
			}
			// merged again, loaded, merged again
			ops = append(ops, ops[1:]...)
			if round == 0 {
				ops = append(ops, css)
			}
			if len(ops) > 20000 {
				break
			}
		}
		for i, op := range ops {
			var msg string
			if p := w.Guard(func() kit.Script { return kit.Script{} }, func() { msg = u.do(op) }); p != "" {
				msg = p
			}
			if msg == "" && how == 1 && i%500 == 0 {
				for l, v := range u.stored {
					if got, ok := u.c.Get(l); !ok || got != v {
						msg = fmt.Sprintf("the result of %q was stored, there is %q, %v", l, got, ok)
					}
				}
			}
			if msg != "" {
				if len(msg) > 300 {
					msg = msg[:300] + "…"
				}
				report(w, kind, true, ops[:i+1], msg)
				return
			}
			w.Trans++
			if i%1000 == 999 && c.Stop() {
				return
			}
		}
		w.Traces++
		w.State(kit.Hash("size", kind, fmt.Sprint(size, how)))
	})
}
