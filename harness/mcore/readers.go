package mcore

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"strings"
	"testing/iotest"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
)

// ---- C13: kinds of readers

// before is what has been read from a reader before it is given to the merger; beyond is behind what it is to read.
const before, beyond = "/**/@import 'a';.zz{color:early;margin:0}.a{--early:1}\n", ".zz{color:late}}.a{--late:1}"

// source is a reader of the part of a text between two offsets, with more methods than it needs in the kinds below.
type source struct {
	io.Reader        // reads the part
	all       string // the whole text
	from, to  int
}

type (
	seekSource  struct{ *source }
	atSource    struct{ *source }
	lenSource   struct{ *source }
	textSource  struct{ *source }
	closeSource struct{ *source }
	byteSource  struct{ *source }
	writeSource struct{ *source }
	infoSource  struct{ *source }
)

func (s seekSource) Seek(offset int64, whence int) (int64, error) {
	r := strings.NewReader(s.all)
	r.Seek(int64(s.from), io.SeekStart)
	n, err := r.Seek(offset, whence)
	s.source.Reader = r
	return n, err
}
func (s atSource) ReadAt(p []byte, off int64) (int, error) {
	return strings.NewReader(s.all).ReadAt(p, off)
}
func (s atSource) Size() int64         { return int64(len(s.all)) }
func (s lenSource) Len() int           { return 1 } // of a buffer of its own
func (s lenSource) Cap() int           { return 2 }
func (s lenSource) Size() int          { return 1 }
func (s lenSource) Buffered() int      { return 0 }
func (s textSource) String() string    { return s.all }
func (s textSource) Bytes() []byte     { return []byte(s.all) }
func (s textSource) Name() string      { return "x.css" }
func (s closeSource) Close() error     { s.source.Reader = strings.NewReader(""); return nil }
func (s closeSource) Reset()           {}
func (s closeSource) Err() error       { return errReader }
func (s byteSource) UnreadByte() error { return errReader }
func (s byteSource) ReadByte() (byte, error) {
	var b [1]byte
	_, err := io.ReadFull(s.source.Reader, b[:])
	return b[0], err
}
func (s byteSource) Peek(n int) ([]byte, error) { return nil, bufio.ErrBufferFull }
func (s writeSource) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{s.source.Reader})
}
func (s infoSource) Stat() (os.FileInfo, error) { return nil, errReader }
func (s infoSource) Fd() uintptr                { return ^uintptr(0) }

// sourceKinds wrap a reader of a part of a text; they are to be read to the end of it, or to the error it returns.
var sourceKinds = map[string]func(s *source) io.Reader{
	"seek":      func(s *source) io.Reader { return seekSource{s} },
	"at":        func(s *source) io.Reader { return atSource{s} },
	"len":       func(s *source) io.Reader { return lenSource{s} },
	"text":      func(s *source) io.Reader { return textSource{s} },
	"close":     func(s *source) io.Reader { return closeSource{s} },
	"byte":      func(s *source) io.Reader { return byteSource{s} },
	"writeto":   func(s *source) io.Reader { return writeSource{s} },
	"info":      func(s *source) io.Reader { return infoSource{s} },
	"bufio":     func(s *source) io.Reader { return bufio.NewReader(s.Reader) },
	"bufio16":   func(s *source) io.Reader { return bufio.NewReaderSize(s.Reader, 16) },
	"bufio4500": func(s *source) io.Reader { return bufio.NewReaderSize(s.Reader, 4500) },
	"bufio8191": func(s *source) io.Reader { return bufio.NewReaderSize(s.Reader, 8191) },
	"filled":    func(s *source) io.Reader { r := bufio.NewReaderSize(s.Reader, 600); r.Peek(600); return r },
	"peeked":    func(s *source) io.Reader { r := bufio.NewReader(s.Reader); r.Peek(5); return r },
	"readwrite": func(s *source) io.Reader {
		return bufio.NewReadWriter(bufio.NewReader(s.Reader), bufio.NewWriter(io.Discard))
	},
	"nopcloser": func(s *source) io.Reader { return io.NopCloser(s.Reader) },
	"tee":       func(s *source) io.Reader { return io.TeeReader(s.Reader, io.Discard) },
	"multi": func(s *source) io.Reader {
		return io.MultiReader(strings.NewReader(""), s.Reader, strings.NewReader(""))
	},
	"limit":    func(s *source) io.Reader { return io.LimitReader(s.Reader, int64(s.to-s.from)+1) },
	"half":     func(s *source) io.Reader { return iotest.HalfReader(s.Reader) },
	"dataerr":  func(s *source) io.Reader { return iotest.DataErrReader(bufio.NewReader(s.Reader)) },
	"bytewise": func(s *source) io.Reader { return iotest.OneByteReader(s.Reader) },
	"pipe": func(s *source) io.Reader {
		r, w := io.Pipe()
		go func() {
			_, err := io.Copy(w, s.Reader)
			w.CloseWithError(err)
		}()
		return r
	},
}

// textKinds are readers of a part of a text, without errors.
var textKinds = map[string]func(s *source) io.Reader{
	"strings.Reader": func(s *source) io.Reader {
		r := strings.NewReader(s.all[:s.to])
		r.Seek(int64(s.from), io.SeekStart)
		return r
	},
	"bytes.Reader": func(s *source) io.Reader {
		r := bytes.NewReader([]byte(s.all[:s.to]))
		io.ReadFull(r, make([]byte, s.from))
		return r
	},
	"bytes.Buffer": func(s *source) io.Reader {
		r := bytes.NewBufferString(s.all[:s.to])
		r.Next(s.from)
		return r
	},
	"bufio.Reader": func(s *source) io.Reader {
		r := bufio.NewReader(strings.NewReader(s.all[:s.to]))
		r.Discard(s.from)
		return r
	},
	"section": func(s *source) io.Reader {
		return io.NewSectionReader(strings.NewReader(s.all), int64(s.from), int64(s.to-s.from))
	},
	"limited": func(s *source) io.Reader {
		return io.LimitReader(strings.NewReader(s.all[s.from:]), int64(s.to-s.from))
	},
	"limited file": func(s *source) io.Reader { return io.LimitReader(scratchFile(s.all, s.from), int64(s.to-s.from)) },
	"file":         func(s *source) io.Reader { return scratchFile(s.all[:s.to], s.from) },
	"file pipe": func(s *source) io.Reader {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		go func() {
			io.WriteString(w, s.all[s.from:s.to])
			w.Close()
		}()
		return r
	},
	"gzip": func(s *source) io.Reader {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		io.WriteString(w, s.all[s.from:s.to])
		w.Close()
		r, err := gzip.NewReader(&b)
		if err != nil {
			panic(err)
		}
		return r
	},
	"halves": func(s *source) io.Reader {
		t := s.all[s.from:s.to]
		return io.MultiReader(strings.NewReader(t[:len(t)/2]), bytes.NewBufferString(t[len(t)/2:]))
	},
}

// scratchFile is a file without a name, open at an offset.
func scratchFile(text string, at int) io.Reader {
	f, err := os.CreateTemp("", "verif")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	if _, err := io.WriteString(f, text); err != nil {
		panic(err)
	}
	if _, err := f.Seek(int64(at), io.SeekStart); err != nil {
		panic(err)
	}
	return f
}

// ofKind makes a reader of a kind, of the text that r reads too. With "after", something has been read from it before.
func ofKind(kind string, after bool, css string, r *stepReader) io.Reader {
	s := &source{Reader: r, all: css, to: len(css)}
	if after {
		s.all = before + css
		s.from = len(before)
		s.to = len(s.all)
		s.all += beyond
	}
	kind = strings.ReplaceAll(kind, "_", " ")
	if mk, ok := sourceKinds[kind]; ok {
		return mk(s)
	}
	return textKinds[kind](s)
}

// readerKinds: all kinds of readers of all sheets, and failing ones.
func readerKinds(c *kit.C, sheets, want []string) {
	var kinds []string
	for _, k := range sortedKinds(sourceKinds) {
		kinds = append(kinds, k)
	}
	plain := len(kinds)
	kinds = append(kinds, sortedKinds(textKinds)...)
	c.Extra("kinds of readers", len(kinds))
	c.Parallel(len(kinds), func(w *kit.W, ji int) {
		kind := strings.ReplaceAll(kinds[ji], " ", "_")
		run := func(e *env, i int, spec string, fails bool, want string) bool {
			err, msg := e.load(w, sheets[i], false, spec)
			w.Trans++
			w.Traces++
			w.State(kit.Hash(fmt.Sprint(i), spec))
			c.Count("loads from kinds of readers", 1)
			switch {
			case msg == "" && fails && err == nil:
				msg = "the error of the reader is lost"
				e.ops[len(e.ops)-1].Kind = "adderr"
			case msg == "" && !fails && err != nil:
				msg = err.Error()
				e.ops[len(e.ops)-1].Kind = "addok"
			case msg == "" && snapshot(e.m) != want:
				msg = "that makes a difference"
				e.ops = append(e.ops, kit.Op{Kind: "snapshot", Want: &want})
			}
			if msg != "" {
				c.Violation(fmt.Sprintf("reading sheet %d with %s: %s", i, spec, msg), kit.Script{Ops: e.ops})
				return false
			}
			return true
		}
		for i := range sheets {
			for _, after := range []string{"", " after"} {
				for _, steps := range []string{"", " steps=1", " steps=7 eof", " steps=0,100,0,512", " steps=511,1", " eof"} {
					if ji >= plain && steps != "" {
						continue
					}
					if !run(newEnv(w, "", true), i, "kind="+kind+after+steps, false, want[i]) || c.Stop() {
						return
					}
				}
			}
			if ji >= plain {
				continue
			}
			e := newEnv(w, "", true)
			if !e.add(w, ".a{opacity:0}.zz{color:red}.b{color:red}") {
				return
			}
			was := snapshot(e.m)
			n := len(sheets[i])
			for _, at := range []int{0, 1, 2, 3, 7, 15, 16, 17, n / 3, n / 2, 511, 512, 513, 4096, n - 2, n - 1, n} {
				if at > n || at < 0 {
					continue
				}
				for _, tail := range []string{"", " failnow", " steps=1", " after", " after steps=7 failnow", " err=unexpected", " err=wrapped", " err=short"} {
					e.ops = e.ops[:2]
					if !run(e, i, fmt.Sprintf("kind=%s fail=%d%s", kind, at, tail), true, was) || c.Stop() {
						return
					}
				}
			}
		}
	})
}

func sortedKinds(m map[string]func(*source) io.Reader) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := range out[:i] {
			if out[i] < out[j] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}
