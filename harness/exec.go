package main

import (
	"errors"
	"fmt"
	"io"
	"sync"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding"
)

// sink receives the output; it refuses absurd amounts so that a runaway writer ends.
type sink struct {
	b      []byte
	limit  int
	writes int
}

var errSinkFull = errors.New("harness: output limit exceeded")

func (s *sink) Write(p []byte) (int, error) {
	lim := s.limit
	if lim == 0 {
		lim = 64 << 20
	}
	s.writes++
	if len(s.b)+len(p) > lim {
		return 0, errSinkFull
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

// options turns a configuration into writer options.
func (c Conf) options() []xw.Option {
	var opts []xw.Option
	if c.Indent {
		if c.IndentStr != "" || c.NoStep {
			opts = append(opts, xw.WithIndentString(string(c.IndentStr)))
		} else {
			opts = append(opts, xw.WithIndent())
		}
	}
	return append(opts, func(w *xw.Writer) {
		if c.NL != nil {
			w.NewlineString = string(*c.NL)
		}
		if c.Buf != 0 {
			w.InitialBufSize = c.Buf
		}
		if c.NoEnforce {
			w.Enforce = false
		}
		if c.Loose {
			w.StrictChars = false
		}
		if c.Version != "" {
			w.Version = string(c.Version)
		}
	})
}

func (c Conf) nl() string {
	if c.NL != nil {
		return string(*c.NL)
	}
	return "\n"
}

func (c Conf) open(w io.Writer) *xw.Writer {
	if c.After {
		return c.set(xw.Open(w, func(w *xw.Writer) { w.InitialBufSize = c.Buf }))
	}
	return xw.Open(w, c.options()...)
}

func (c Conf) set(w *xw.Writer) *xw.Writer {
	for _, o := range c.options() {
		o(w)
	}
	return w
}

func (c Conf) openEnc(w io.Writer, name string, e *encoding.Encoder) *xw.Writer {
	if c.After {
		return c.set(xw.OpenEncoding(w, name, e, func(w *xw.Writer) { w.InitialBufSize = c.Buf }))
	}
	return xw.OpenEncoding(w, name, e, c.options()...)
}

// freshDepth is what Depth reports before anything is started; the properties
// only speak of differences (see the recorded finding about the absolute value).
var freshDepth = sync.OnceValue(func() int { return xw.Open(io.Discard).Depth() })

// result of a whole program
type result struct {
	out   string
	errs  []error // per op
	first int     // index of the first failing op, -1
	flush error
}

func (r *result) err() error {
	if r.first >= 0 {
		return r.errs[r.first]
	}
	return r.flush
}

// run executes ops on a new writer; it stops at the first error when stop is set.
func runOps(c Conf, ops []*Op, stop bool) *result {
	s := &sink{}
	return runOn(c.open(s), s, ops, stop)
}

func runOn(w *xw.Writer, s *sink, ops []*Op, stop bool) *result {
	r := &result{first: -1}
	for i, o := range ops {
		err := o.exec(w)
		r.errs = append(r.errs, err)
		if err != nil && r.first < 0 {
			r.first = i
			if stop {
				break
			}
		}
	}
	r.flush = w.Flush()
	r.out = string(s.b)
	return r
}

func show(s string) string {
	if len(s) > 1500 {
		return fmt.Sprintf("%q ...(%d bytes)... %q", s[:1000], len(s), s[len(s)-300:])
	}
	return fmt.Sprintf("%q", s)
}

// diffAt describes the first difference of two strings.
func diffAt(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 80
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("first difference at byte %d (lengths %d and %d)\n  want ...%q\n  got  ...%q", i, len(want), len(got), cut(want), cut(got))
}

// nopEncoder passes UTF-8 through, so that a writer can be opened with any declared name.
func nopEncoder() *encoding.Encoder { return encoding.Nop.NewEncoder() }
