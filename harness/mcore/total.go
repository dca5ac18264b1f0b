package mcore

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"sort"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C13

var sheetTokens = []string{".a", "{", "}", ";", ":", "color", " ", "@media ", "@supports", "@layer", "(", ")", "[", "]", ",", "\"", "'", "\\", "/*", "*/", "!important", "--x", "var(", "@", "url(", "<!--", "#", "0", "\n", "\x00", "\xff", ":is("}

func checkTotal(c *kit.C) {
	c.Assume("bounds: all sequences of the tokens up to the given length, bare and within a rule and an at-rule; all byte strings over the listed bytes; the listed stylesheets for readers; sizes up to 64 KiB")
	tokenSequences(c)
	byteStrings(c)
	readers(c)
	sizes(c)
	nested(c)
	bigSheets(c)
	hugeFamily(c, "bytes")
}

// after merges some lists on whatever is loaded: the results have to be sane.
func sane(w *kit.W, e *env, ops func() []kit.Op) bool {
	for _, l := range []string{"a q", "color a  b a"} {
		w.Note('m', l)
		var out string
		msg := w.Guard(func() kit.Script { return kit.Script{Ops: append(ops(), kit.Op{Kind: "merge", List: l})} }, func() { out = e.m.Merge(l) })
		w.Traces++
		if msg == "" {
			for _, t := range splitList(out) {
				if !strings.Contains(" "+l+" ", " "+t+" ") {
					msg = fmt.Sprintf("merging afterwards: %q -> %q", l, out)
				}
			}
		}
		if msg != "" {
			w.C.Violation(msg, kit.Script{Ops: append(ops(), kit.Op{Kind: "merge", List: l})})
			return false
		}
	}
	return true
}

// loadAny loads any text on a merger with few rules: it returns, and if it fails, nothing has changed.
func loadAny(w *kit.W, e *env, css string, inline bool) bool {
	ops := func() []kit.Op {
		return append(append([]kit.Op{}, e.ops...), kit.Op{Kind: "add", CSS: css, Inline: inline})
	}
	w.Note('a', css)
	before := len(e.m.Rules())
	a, had := e.m.Rules()["a"]
	var err error
	msg := w.Guard(func() kit.Script { return kit.Script{Ops: ops()} }, func() { err = e.m.AddRules(strings.NewReader(css), inline) })
	w.Traces++
	if w.Traces%90011 == 3 {
		w.C.Sample("load %q (inline: %v) -> %v", css, inline, err)
	}
	if msg != "" {
		w.C.Violation(fmt.Sprintf("loading %q: %s", css, msg), kit.Script{Ops: ops()})
		return false
	}
	if err != nil {
		b, has := e.m.Rules()["a"]
		if len(e.m.Rules()) != before || had != has || had && a.String() != b.String() {
			want := "" // the state before cannot be told here: show it on a fresh merger
			f := newEnv(w, "", true)
			want = snapshot(f.m)
			w.C.Violation(fmt.Sprintf("loading %q fails, but changes the rules", css), kit.Script{Ops: []kit.Op{{Kind: "new", KeepSort: true}, {Kind: "add", CSS: css, Inline: inline}, {Kind: "snapshot", Want: &want}}})
			return false
		}
	}
	h := kit.Hash("")
	if err != nil {
		h = kit.Hash(err.Error())
	}
	if x, ok := e.m.Rules()["a"]; ok {
		h ^= kit.Hash(x.String())
	}
	w.State(h)
	return sane(w, e, ops)
}

func tokenSequences(c *kit.C) {
	depth := 4
	if !c.Quick {
		depth = 5
	}
	c.Extra("tokens", len(sheetTokens))
	c.Extra("token sequence length", depth)
	// each sequence bare, and shorter ones within surroundings
	frames := []string{"%", ".a{%}", ".a{%", ".a{color:%}", "@media %", "@media p{%", "@media p{%}", ".a%{color:x}", ".b,%{color:x}", "@layer{%", ".b{color:x}%.a{margin:0}", ".a{--x:%}.b{}", ":is(%){x:y}"}
	n := len(sheetTokens)
	c.Parallel(n*n, func(w *kit.W, ji int) {
		e := newEnv(w, "", true)
		var cnt int64
		var rec func(s string, k int) bool
		rec = func(s string, k int) bool {
			cnt++
			w.Trans++
			if cnt%4096 == 0 {
				e = newEnv(w, "", true)
			}
			if !loadAny(w, e, s, false) {
				return false
			}
			if k <= depth-2 && !loadAny(w, e, s, true) {
				return false
			}
			if k <= depth-1 {
				for _, f := range frames[1:] {
					if !loadAny(w, e, strings.Replace(f, "%", s, 1), false) {
						return false
					}
					cnt++
				}
			}
			if k == depth {
				return !c.Stop()
			}
			for _, t := range sheetTokens {
				if !rec(s+t, k+1) {
					return false
				}
			}
			return true
		}
		if ji == 0 {
			loadAny(w, e, "", false)
			loadAny(w, e, "", true)
			for _, t := range sheetTokens {
				for _, f := range frames {
					if !loadAny(w, e, strings.Replace(f, "%", t, 1), false) {
						return
					}
				}
			}
		}
		rec(sheetTokens[ji/n]+sheetTokens[ji%n], 2)
		c.Count("texts", cnt)
	})
}

// byteStrings: all short strings of bytes.
func byteStrings(c *kit.C) {
	n := 5
	if !c.Quick {
		n = 6
	}
	alphabet := []byte(".a{}:;@,(\\\"/* \n0")
	frames := []string{"%", ".a{%", "@media %", ".a%{x:y}"}
	c.Parallel(len(alphabet)*len(alphabet), func(w *kit.W, ji int) {
		e := newEnv(w, "", true)
		buf := []byte{alphabet[ji/len(alphabet)], alphabet[ji%len(alphabet)]}
		var cnt int64
		var rec func() bool
		rec = func() bool {
			cnt++
			w.Trans++
			if cnt%4096 == 0 {
				e = newEnv(w, "", true)
			}
			for i, f := range frames {
				if i > 0 && len(buf) == n {
					break
				}
				if !loadAny(w, e, strings.Replace(f, "%", string(buf), 1), false) {
					return false
				}
			}
			if len(buf) == n {
				return !c.Stop()
			}
			for _, b := range alphabet {
				buf = append(buf, b)
				ok := rec()
				buf = buf[:len(buf)-1]
				if !ok {
					return false
				}
			}
			return true
		}
		rec()
		c.Count("byte strings", cnt)
	})
	// every single byte and pair of bytes, in a few frames
	c.Parallel(256, func(w *kit.W, i int) {
		e := newEnv(w, "", true)
		for k := -1; k < 256; k++ {
			s := string([]byte{byte(i)})
			if k >= 0 {
				s += string([]byte{byte(k)})
			}
			for _, f := range []string{"%", ".a%{color:x}", ".a{color:%}", ".\\%a{color:x}", "@media %{.a{color:x}}"} {
				if !loadAny(w, e, strings.Replace(f, "%", s, 1), false) {
					return
				}
			}
		}
		c.Count("pairs of bytes", 257)
	})
}

func readerSheets() []string {
	var out []string
	out = append(out, ".a{color:red}", ".a{color:red}\n.b:hover{--x:var(--y)!important}", "@media (min-width:640px){.md\\:a{color:red}.a,.b{x:y}}\n.é{color:\"a;b}c\"}/* c */.c{}", sheet(templateScenario().Rules))
	big := ""
	for i := 0; len(big) < 9000; i++ {
		big += fmt.Sprintf(".cls-%d\\:x{color:red;margin:%dpx !important}\n@media print{.p-%d:hover{--v:\"%d\"}}\n", i, i, i, i)
	}
	return append(out, big)
}

func readers(c *kit.C) {
	sheets := readerSheets()
	want := make([]string, len(sheets))
	for i, s := range sheets {
		w := c.Worker()
		e := newEnv(w, "", true)
		if !e.add(w, s) {
			return
		}
		want[i] = snapshot(e.m)
	}
	check := func(w *kit.W, e *env, i int, reader string) bool {
		e.ops = e.ops[:1]
		err, msg := e.load(w, sheets[i], false, reader)
		w.Traces++
		w.Trans++
		if msg == "" && err != nil {
			msg = err.Error()
			e.ops[1].Kind = "addok"
		}
		if msg != "" {
			c.Violation(fmt.Sprintf("reading with %s: %s", reader, msg), kit.Script{Ops: e.ops})
			return false
		}
		if got := snapshot(e.m); got != want[i] {
			c.Violation(fmt.Sprintf("reading with %s makes a difference", reader), kit.Script{Ops: append(e.ops, kit.Op{Kind: "snapshot", Want: &want[i]})})
			return false
		}
		w.State(kit.Hash(reader))
		return true
	}
	// fresh mergers are expensive: a merger that has the rules of another sheet would do, but a load that
	// does nothing would go unnoticed, so the loaded rules are removed through the map in between
	clear := func(w *kit.W, e **env) {
		for k := range (*e).m.Rules() {
			delete((*e).m.Rules(), k)
		}
		if len((*e).m.Rules()) > 0 {
			*e = newEnv(w, "", true)
		}
	}
	// all ways to cut a short sheet, with and without EOF at the last bytes
	c.Parallel(64, func(w *kit.W, ji int) {
		e := newEnv(w, "", true)
		n := len(sheets[0])
		for m := ji; m < 1<<(n-1); m += 64 {
			spec := "steps="
			size := 1
			for k := 0; k < n; k++ {
				if k == n-1 || m&(1<<k) != 0 {
					spec += fmt.Sprintf("%d,", size)
					size = 1
				} else {
					size++
				}
			}
			spec = strings.TrimSuffix(spec, ",")
			for _, tail := range []string{"", " eof"} {
				clear(w, &e)
				if !check(w, e, 0, spec+tail) {
					return
				}
			}
			if c.Stop() {
				return
			}
		}
	})
	type job struct {
		i    int
		spec string
	}
	var jobs []job
	for i, s := range sheets {
		for _, size := range []int{1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 64, 127, 128, 255, 256, 500, 511, 512, 513, 1000, 1024, 4095, 4096, 4097, 8192} {
			jobs = append(jobs, job{i, fmt.Sprintf("steps=%d", size)}, job{i, fmt.Sprintf("steps=%d eof", size)}, job{i, fmt.Sprintf("steps=0,%d,0,%d", size, size)}, job{i, fmt.Sprintf("steps=%d,1", size)})
		}
		// many empty reads on end
		for _, at := range []int{0, 1, len(s) / 2, len(s) - 1, len(s)} {
			for _, n := range emptyReads {
				for _, tail := range []string{"", " steps=1", " eof", " steps=0,7,0,0,512"} {
					jobs = append(jobs, job{i, fmt.Sprintf("empty=%d@%d%s", n, at, tail)})
				}
			}
		}
		// one cut at every position
		for k := 1; k < len(s); k++ {
			if c.Quick && k > 600 && k%11 != 0 && k%512 > 2 {
				continue
			}
			jobs = append(jobs, job{i, fmt.Sprintf("steps=%d,100000", k)})
		}
	}
	const parts = 64
	c.Parallel(parts, func(w *kit.W, ji int) {
		e := newEnv(w, "", true)
		for k := ji; k < len(jobs); k += parts {
			clear(w, &e)
			if !check(w, e, jobs[k].i, jobs[k].spec) || c.Stop() {
				return
			}
		}
	})
	c.Count("ways to read", int64(len(jobs)+2<<12))
	readerKinds(c, sheets, want)
	failing(c, sheets)
	errorKinds(c, sheets)
	memory(c)
}

// bytesOnly has its bytes in the memory of the caller, like a bytes.Buffer.
type bytesOnly struct {
	*bytes.Reader
	b []byte
}

func (b bytesOnly) Bytes() []byte { return b.b }

// scratcher uses all of what it is given to read into, as an io.Reader may.
type scratcher struct{ r *bytes.Reader }

func (s scratcher) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = '}'
	}
	return s.r.Read(p)
}

var memoryReaders = map[string]func(b []byte) io.Reader{
	"bytes.Buffer":         func(b []byte) io.Reader { return bytes.NewBuffer(b) },
	"bytes.Reader":         func(b []byte) io.Reader { return bytes.NewReader(b) },
	"another with Bytes()": func(b []byte) io.Reader { return bytesOnly{bytes.NewReader(b), b} },
	"bufio":                func(b []byte) io.Reader { return bufio.NewReaderSize(bytes.NewReader(b), 16) },
	"scratch":              func(b []byte) io.Reader { return scratcher{bytes.NewReader(b)} },
}

// memoryCase loads a text that is cut in pieces, all of which are in the same memory, and looks at the memory after each
// load; then the memory is overwritten, which must not change the rules.
func memoryCase(m, ref *merge.Merger, text string, cuts []int, kind string, inline bool) string {
	all := []byte(text)
	from := 0
	for _, to := range append(append([]int{}, cuts...), len(text)) {
		err := m.AddRules(memoryReaders[kind](all[from:to]), inline)
		want := ref.AddRules(strings.NewReader(text[from:to]), inline)
		if (err == nil) != (want == nil) {
			return fmt.Sprintf("loading bytes %d to %d of %q with %s: error %v, from a string: %v", from, to, text, kind, err, want)
		}
		if string(all) != text {
			return fmt.Sprintf("loading bytes %d to %d of %q with %s changes the bytes in memory to %q", from, to, text, kind, all)
		}
		from = to
	}
	for i := range all {
		all[i] = 'x'
	}
	if got, want := snapshot(m), snapshot(ref); got != want {
		return fmt.Sprintf("after loading %q, cut at %v, with %s, the rules are\n%s\ninstead of\n%s", text, cuts, kind, got, want)
	}
	return ""
}

// memory: what the memory behind a reader is used for besides.
func memory(c *kit.C) {
	texts := append(readerSheets()[:4], "", ".A{COLOR:RED;Margin-Top:1PX}", "@MEDIA (MIN-width:1px){.A:HOVER{--X:VAR(--Y)}}.B{}", ".a{color:red", ".a{color:red}}", "color:red;MARGIN:0")
	var kinds []string
	for k := range memoryReaders {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	c.Parallel(len(texts)*len(kinds), func(w *kit.W, ji int) {
		text, kind := texts[ji/len(kinds)], kinds[ji%len(kinds)]
		run := func(m, ref *merge.Merger, cuts []int, inline bool) bool {
			op := kit.Op{Kind: "memory", CSS: text, Ints: cuts, Reader: kind, Inline: inline}
			script := func() kit.Script { return kit.Script{Ops: []kit.Op{{Kind: "new", KeepSort: true}, op}} }
			what := ""
			if msg := w.Guard(script, func() { what = memoryCase(m, ref, text, cuts, kind, inline) }); msg != "" {
				what = msg
			}
			w.Trans++
			w.Traces++
			w.State(kit.Hash(text, kind, fmt.Sprint(cuts, inline)))
			c.Count("texts in the memory of the caller", 1)
			if what != "" {
				c.Violation(what, script())
				return false
			}
			return !c.Stop()
		}
		// the rules of earlier cases are there, too: they are the same in both
		m, ref := newEnv(w, "", true).m, newEnv(w, "", true).m
		for _, inline := range []bool{false, true} {
			if !run(m, ref, nil, inline) {
				return
			}
			step := 1
			if len(text) > 100 {
				step = len(text)/100 + 1
			}
			for i := 0; i <= len(text); i += step {
				if !run(m, ref, []int{i}, inline) {
					return
				}
			}
			if len(text) > 60 && c.Quick {
				continue
			}
			for i := 0; i <= len(text); i += step {
				for j := i; j <= len(text); j += step {
					if !run(m, ref, []int{i, j}, inline) {
						return
					}
				}
			}
		}
	})
}

// errorKinds: the reader fails with any kind of error, before, between and after the texts of a sheet.
func errorKinds(c *kit.C, sheets []string) {
	var errs []string
	for k := range readErrs {
		errs = append(errs, k)
	}
	sort.Strings(errs)
	c.Extra("kinds of reader errors", len(errs))
	sheets = append(append([]string{}, sheets...), "", ".a{", ".a{color:red", ".a{color:red}", ".a", "/*", "@media print{.a{x:y}", "@layer x{", ".a{x:\"")
	// as it came, with sizes of reads, and after a load
	c.Parallel(len(errs), func(w *kit.W, ji int) {
		for _, cache := range []string{"", "simple"} {
			e := newEnv(w, cache, true)
			if !e.add(w, ".a{opacity:0}.zz{color:red}.b{color:red}") {
				return
			}
			before := snapshot(e.m)
			res, _ := e.merge(w, "b a zz")
			for _, s := range sheets {
				for _, at := range []int{0, 1, len(s) / 2, len(s) - 1, len(s)} {
					if at < 0 || at > len(s) {
						continue
					}
					for _, inline := range []bool{false, true} {
						for _, spec := range []string{"", " failnow", " steps=1", " steps=0,512 failnow", fmt.Sprintf(" empty=101@%d", at), fmt.Sprintf(" empty=1000@%d steps=7", at)} {
							reader := fmt.Sprintf("fail=%d err=%s%s", at, errs[ji], spec)
							e.ops = e.ops[:2]
							err, msg := e.load(w, s, inline, reader)
							e.ops[2].Kind = "adderr"
							w.Trans++
							w.Traces++
							if msg == "" && err == nil {
								msg = "the error of the reader is lost"
							}
							if msg != "" {
								c.Violation(fmt.Sprintf("%s: %s", reader, msg), kit.Script{Ops: e.ops})
								return
							}
							if snapshot(e.m) != before {
								c.Violation(fmt.Sprintf("%s: the failing load changes the rules", reader), kit.Script{Ops: append(e.ops, kit.Op{Kind: "snapshot", Want: &before})})
								return
							}
							if !e.expect(w, "after a failing load", "b a zz", res) {
								return
							}
							w.State(kit.Hash(s, reader))
						}
					}
				}
			}
		}
	})
}

// emptyReads are numbers of empty reads on end; some readers of the standard library give up after 100.
var emptyReads = []int{1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4097, 70000}

// failing: the reader fails at every position.
func failing(c *kit.C, sheets []string) {
	type job struct{ i, at int }
	var jobs []job
	for i, s := range sheets {
		for k := 0; k <= len(s); k++ {
			if c.Quick && k > 600 && k%7 != 0 && k%512 > 2 && k%512 < 510 {
				continue
			}
			jobs = append(jobs, job{i, k})
		}
	}
	c.Extra("reader failure points", len(jobs))
	const parts = 64
	c.Parallel(parts, func(w *kit.W, ji int) {
		e := newEnv(w, []string{"", "simple"}[ji%2], true)
		if !e.add(w, ".a{opacity:0}.zz{color:red}.b{color:red}") {
			return
		}
		before := snapshot(e.m)
		res, _ := e.merge(w, "b a zz")
		for k := ji; k < len(jobs); k += parts {
			for _, spec := range []string{"", " failnow", " steps=1", " steps=7 failnow", " steps=0,512"} {
				reader := fmt.Sprintf("fail=%d%s", jobs[k].at, spec)
				e.ops = e.ops[:2]
				err, msg := e.load(w, sheets[jobs[k].i], false, reader)
				e.ops[2].Kind = "adderr"
				w.Trans++
				w.Traces++
				if msg == "" && err == nil {
					msg = "the error of the reader is lost"
				}
				if msg != "" {
					c.Violation(fmt.Sprintf("%s: %s", reader, msg), kit.Script{Ops: e.ops})
					return
				}
				if snapshot(e.m) != before {
					c.Violation(fmt.Sprintf("%s: the failing load changes the rules", reader), kit.Script{Ops: append(e.ops, kit.Op{Kind: "snapshot", Want: &before})})
					return
				}
				if !e.expect(w, "after a failing load", "b a zz", res) {
					return
				}
				w.State(kit.Hash(fmt.Sprint(jobs[k].i), reader))
			}
			if c.Stop() {
				return
			}
		}
	})
}

// sizes: long and deeply nested texts.
func sizes(c *kit.C) {
	rep := func(s string, n int) string { return strings.Repeat(s, n) }
	units := []string{".a{color:x}", "@media p{", "@media p{.a{color:x}", "}", "{", ".a{", "(", ".a(", "[", ":not(", ".b:not(", ":is(.b,", ":where(", "/*", "\\", "\"", "a", ".a ", ".a>", ".a,", "@", "@layer{", "@supports (a:b){", ";", "color:x;", "--x:", "var(--x)", " ", "\n", "\\61 ", "!important", "[a=b]", ":nth-child(2n+1)", "::before", ":hover", "#", "é", "\x00", "url(", "9", "-", "a:b;"}
	frames := []string{"%", ".b{%", ".b%{color:x}", ".b{color:%}", "@media %{.b{x:y}}", ".b{--x:%;}", "@font-face{%"}
	ns := []int{2, 17, 64, 255, 256, 1000}
	if !c.Quick {
		ns = append(ns, 511, 512, 513, 1024, 4096)
	}
	c.Parallel(len(units)*len(frames), func(w *kit.W, ji int) {
		u, f := units[ji/len(frames)], frames[ji%len(frames)]
		for _, n := range ns {
			e := newEnv(w, "", true)
			if !loadAny(w, e, strings.Replace(f, "%", rep(u, n), 1), false) || c.Stop() {
				return
			}
			w.Trans++
		}
		c.Count("long texts", int64(len(ns)))
	})
}

// nested: selectors and blocks nested so deep that a parser that calls itself for each level runs out of stack.
func nested(c *kit.C) {
	var ops []kit.Op
	for _, f := range []string{":is(", ":not(", ":where(", ":has(", ":haschild(", ".b:is(.a,", ":is(.b>:not(", "(", "[", "{", ":is([", "a:is(:hover,"} {
		for _, frame := range [][2]string{{"", "{color:x}"}, {".a", ",.b{color:x}"}, {"@media p{.b{x:y}", "{color:x}}"}, {".b{color:", "}"}, {"@media ", "{.a{x:y}}"}} {
			for _, closed := range []bool{true, false} {
				cl := ""
				if closed {
					cl = strings.NewReplacer("(", ")", "[", "]", "{", "}").Replace(strings.Map(func(r rune) rune {
						if strings.ContainsRune("([{", r) {
							return r
						}
						return -1
					}, f))
					if f == ":is([" {
						cl = "])"
					}
				}
				for _, n := range []int{10, 1000, 10000, 200000} {
					if n > 10000 && (strings.Contains(f, ",") || frame[0] == "@media " && f == "{") {
						continue // quadratic: not in a reasonable time
					}
					ops = append(ops, kit.Nested(frame[0], f, ".a", cl, frame[1], n))
				}
			}
		}
	}
	c.Parallel(len(ops), func(w *kit.W, i int) {
		if c.Stop() {
			return
		}
		op, e := ops[i], newEnv(w, "", true)
		w.NoteNested(op)
		w.Trans++
		w.Traces++
		if msg := w.Guard(func() kit.Script { return kit.Script{Ops: append(append([]kit.Op{}, e.ops...), op)} }, func() {
			e.m.AddRules(strings.NewReader(op.NestedText()), false)
			e.m.AddRules(strings.NewReader(".q{color:z}"), false)
			if out := e.m.Merge("q r q"); out != "r q" {
				panic("merging afterwards: " + out)
			}
		}); msg != "" {
			c.Violation(fmt.Sprintf("loading %q %d times: %s", op.Args, op.Ints[0], msg), kit.Script{Ops: append(append([]kit.Op{}, e.ops...), op)})
		}
		c.Count("nested texts", 1)
	})
}

var _ = merge.NewMerger
