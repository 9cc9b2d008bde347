package main

// Checks on what surrounds the writer: destination, buffer, encoder, raw text,
// enforcement, other writers, indenters, memory.

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/encoding/unicode"
	"golang.org/x/text/transform"
)

// reference runs accepted calls with a flush after each: the output and its
// length after every call.
func reference(c Conf, ops []*Op) (out string, cum []int, err error) {
	c.Buf = 1 << 17
	s := &sink{}
	w := c.open(s)
	for i, o := range ops {
		if err := o.exec(w); err != nil {
			return "", nil, fmt.Errorf("call %d %s: %v", i, trunc(o.String(), 300), err)
		}
		if err := w.Flush(); err != nil {
			return "", nil, err
		}
		cum = append(cum, len(s.b))
	}
	return string(s.b), cum, nil
}

// --- C08

type BufCase struct {
	Prog    *ProgCase
	Flushes []int // after which calls, modulo the number of calls
}

func bufCheck(c *BufCase, st *Stats) error {
	ops := c.Prog.Ops
	ref, cum, err := reference(c.Prog.Conf, ops)
	if err != nil {
		return nil // rejected: decided elsewhere
	}
	plain := c.Prog.Conf
	plain.Buf = 0
	if r := runOps(plain, ops, true); r.err() != nil {
		return fmt.Errorf("the calls were accepted with a flush after each, but not without: %v\ncalls:\n%s", r.err(), opsString(ops))
	} else if r.out != ref {
		return fmt.Errorf("flushing after every call changes the output: %s\ncalls:\n%s", diffAt(r.out, ref), opsString(ops))
	}
	at := map[int]bool{}
	for _, f := range c.Flushes {
		at[f%len(ops)] = true
	}
	s := &sink{}
	w := c.Prog.Conf.open(s)
	for i, o := range ops {
		if err := o.exec(w); err != nil {
			return fmt.Errorf("call %d %s: %v with buffer size %d, accepted otherwise\ncalls:\n%s", i, trunc(o.String(), 300), err, c.Prog.Conf.Buf, opsString(ops))
		}
		if len(s.b) > cum[i] || string(s.b) != ref[:len(s.b)] {
			return fmt.Errorf("after call %d with buffer size %d the bytes delivered are no prefix: %s\ncalls:\n%s", i, c.Prog.Conf.Buf, diffAt(ref[:cum[i]], string(s.b)), opsString(ops))
		}
		if at[i] || o.Do == "flush" || o.Do == "endallflush" {
			if at[i] {
				if err := w.Flush(); err != nil {
					return fmt.Errorf("flush: %v", err)
				}
			}
			if string(s.b) != ref[:cum[i]] {
				return fmt.Errorf("after call %d and a flush with buffer size %d the bytes delivered are not all of the output so far: %s\ncalls:\n%s", i, c.Prog.Conf.Buf, diffAt(ref[:cum[i]], string(s.b)), opsString(ops))
			}
		}
	}
	if err := w.Flush(); err != nil {
		return err
	}
	if string(s.b) != ref {
		return fmt.Errorf("buffer size %d, flushes after %v: %s\ncalls:\n%s", c.Prog.Conf.Buf, c.Flushes, diffAt(ref, string(s.b)), opsString(ops))
	}
	size := c.Prog.Conf.Buf
	if size <= 0 {
		size = 2048
	}
	st.class("buffer %s", map[bool]string{true: "smaller than the output", false: "larger"}[size < len(ref)])
	if len(at) > 0 {
		st.class("flushes inside")
	}
	st.nontrivial(size < len(ref) || len(at) > 0)
	st.Extra += 2
	return nil
}

// bufRejected: rejected calls do not make buffering visible either. Neither
// verdicts nor output depend on the buffer or on flushes.
func bufRejected(c *BufCase, st *Stats) error {
	ops := c.Prog.Ops
	if len(ops) == 0 {
		return nil
	}
	plain := c.Prog.Conf
	plain.Buf = 0
	ref := runOps(plain, ops, false)
	at := map[int]bool{}
	for _, f := range c.Flushes {
		at[f%len(ops)] = true
	}
	s := &sink{}
	w := c.Prog.Conf.open(s)
	rejected := 0
	for i, o := range ops {
		err := o.exec(w)
		if (err == nil) != (ref.errs[i] == nil) {
			return fmt.Errorf("call %d %s: %v with buffer size %d and flushes after %v, otherwise %v\ncalls:\n%s", i, trunc(o.String(), 300), err, c.Prog.Conf.Buf, c.Flushes, ref.errs[i], opsString(ops))
		}
		if err != nil {
			rejected++
		}
		if at[i] {
			if err := w.Flush(); err != nil {
				return fmt.Errorf("flush: %v", err)
			}
			if !strings.HasPrefix(ref.out, string(s.b)) {
				return fmt.Errorf("after call %d and a flush with buffer size %d: %s\ncalls:\n%s", i, c.Prog.Conf.Buf, diffAt(ref.out, string(s.b)), opsString(ops))
			}
		}
	}
	if err := w.Flush(); err != nil {
		return err
	}
	if string(s.b) != ref.out {
		return fmt.Errorf("buffer size %d, flushes after %v: %s\ncalls:\n%s", c.Prog.Conf.Buf, c.Flushes, diffAt(ref.out, string(s.b)), opsString(ops))
	}
	if rejected > 0 {
		st.class("with rejected calls")
	}
	st.nontrivial(rejected > 0 && len(at) > 0)
	return nil
}

// acceptedProg draws a program and keeps what is accepted.
func (g *G) acceptedProg(ps progStyle) *ProgCase {
	ps.invalid = 0
	c := g.prog(ps)
	kept, _, ok := traceless(c.Ops, c.Conf.Loose)
	if !ok {
		return nil
	}
	var ops []*Op
	for _, k := range kept {
		if k != nil {
			ops = append(ops, k)
		}
	}
	if len(ops) == 0 {
		ops = []*Op{{Do: "flush"}}
	}
	c.Ops = ops
	return c
}

// anyProg is an accepted program or a lowered document.
func (g *G) anyProg(raw bool) *ProgCase {
	var c *ProgCase
	if g.chance(1, 3) {
		c = g.acceptedProg(progStyle{max: 25, ends: 4, ns: true, deep: 12, raw: raw})
	}
	if c == nil {
		d := g.docCase(shape{ns: true, dtd: true, next: true, maxNodes: 25, deep: 25})
		ops, _ := d.Doc.ops(d.Styles, d.Only)
		c = &ProgCase{Ops: ops}
	}
	return c
}

// --- C09

type FaultCase struct {
	Prog    *ProgCase
	Flushes []int
	Enc     int   // 0: none, else an encoding
	Offsets []int // drawn offsets, used when the output is too long for all
	All     int   // up to this output length every offset is tried
	Err     int   // the first kind of error; each offset uses the next
}

var errInjected = errors.New("injected fault")

// faultErr has the methods by which callers tell harmless errors apart.
type faultErr struct{ temporary, timeout bool }

func (e *faultErr) Error() string   { return "injected fault" }
func (e *faultErr) Temporary() bool { return e.temporary }
func (e *faultErr) Timeout() bool   { return e.timeout }

// faultErr2 is an error even as a nil pointer.
type faultErr2 struct{}

func (*faultErr2) Error() string { return "injected nil" }

// faultErrs are the errors a destination may fail with. None of them is harmless.
var faultErrs = []error{
	errInjected, io.EOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer,
	syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC, os.ErrClosed, os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded,
	&faultErr{true, false}, &faultErr{true, true}, &faultErr{false, true}, (*faultErr2)(nil), &faultErr2{}, fmt.Errorf("wrapped: %w", io.EOF),
	&os.PathError{Op: "write", Path: "p", Err: syscall.EINTR}, bytes.ErrTooLarge, bufio.ErrBufferFull, transform.ErrShortDst, transform.ErrShortSrc, &xw.ErrCollector{Err: io.EOF}, errors.New(""),
}

// faulty accepts at bytes; how it fails then depends on mode.
type faulty struct {
	b     []byte
	at    int
	mode  int // 0 partial write and error, 1 error and nothing of that write, 2 short write without error, 3 as 0 but only once
	fails int
	after int // bytes offered after the failure
	calls int // writes after the failure
	err   error
}

var faultModes = []string{"partial write with error", "error", "short write", "error once", "full write with error"}

func (f *faulty) Write(p []byte) (int, error) {
	if f.fails > 0 {
		f.calls++
		f.after += len(p)
		if f.mode == 3 || f.mode == 2 {
			f.b = append(f.b, p...)
			return len(p), nil
		}
		return 0, f.err
	}
	if len(f.b)+len(p) <= f.at {
		f.b = append(f.b, p...)
		return len(p), nil
	}
	f.fails++
	n := f.at - len(f.b)
	switch f.mode {
	case 1:
		return 0, f.err
	case 4:
		f.b = append(f.b, p...)
		return len(p), f.err
	case 2:
		f.b = append(f.b, p[:n]...)
		return n, nil
	}
	f.b = append(f.b, p[:n]...)
	return n, f.err
}

func faultCheck(c *FaultCase, st *Stats) error {
	ops := c.Prog.Ops
	at := map[int]bool{}
	for _, f := range c.Flushes {
		at[f%len(ops)] = true
	}
	open := func(w io.Writer) *xw.Writer {
		if c.Enc > 0 {
			e := encs[c.Enc%len(encs)]
			return c.Prog.Conf.openEnc(w, e.name, e.enc.NewEncoder())
		}
		return c.Prog.Conf.open(w)
	}
	var ref string
	{
		s := &sink{}
		w := open(s)
		for _, o := range ops {
			if o.exec(w) != nil {
				return nil
			}
		}
		if w.Flush() != nil {
			return nil
		}
		ref = string(s.b)
	}
	var offs []int
	if len(ref) <= c.All {
		for i := 0; i < len(ref); i++ {
			offs = append(offs, i)
		}
	} else {
		offs = append(offs, 0, len(ref)-1)
		for _, o := range c.Offsets {
			offs = append(offs, o%len(ref))
		}
	}
	for i, k := range offs {
		ferr := faultErrs[(c.Err+i)%len(faultErrs)]
		for mode := range faultModes {
			if c.Enc > 0 && mode == 2 {
				continue // the encoding package, not the writer, decides about short writes
			}
			f := &faulty{at: k, mode: mode, err: ferr}
			w := open(f)
			fail := func(s string, a ...interface{}) error {
				return fmt.Errorf("%s (%T %q) at byte %d of %d: %s\nreceived: %s\ncalls:\n%s", faultModes[mode], ferr, ferr.Error(), k, len(ref), fmt.Sprintf(s, a...), show(string(f.b)), opsString(ops))
			}
			reported := false
			for i, o := range ops {
				failedBefore := f.fails > 0
				err := o.exec(w)
				if err != nil && f.fails == 0 {
					return fail("call %d failed before the fault: %v", i, err)
				}
				if err != nil {
					reported = true
				}
				if mode != 2 && failedBefore && (o.Do == "flush" || o.Do == "endallflush") && err == nil {
					return fail("call %d (%s) after the fault returned no error", i, o.Do)
				}
				if at[i] {
					err := w.Flush()
					if err == nil && f.fails > 0 && mode != 2 {
						return fail("the flush after call %d returned no error", i)
					}
					if err != nil && f.fails == 0 {
						return fail("the flush after call %d failed before the fault: %v", i, err)
					}
				}
			}
			for n := 0; n < 3; n++ {
				err := w.Flush()
				if err == nil && mode == 2 && string(f.b) == ref {
					// The rest was delivered from where the short write stopped.
					st.class("short write made up for")
					continue
				}
				if err == nil {
					return fail("flush %d after the fault returned no error", n+1)
				}
				if mode != 2 && !errors.Is(err, ferr) && !strings.Contains(err.Error(), ferr.Error()) {
					return fail("the flush returned another error: %v", err)
				}
			}
			if f.fails == 0 {
				return fail("only %d bytes were delivered", len(f.b))
			}
			if !strings.HasPrefix(ref, string(f.b)) {
				return fail("what was received is no prefix of the output: %s", diffAt(ref, string(f.b)))
			}
			if f.after > 0 && mode != 2 {
				return fail("%d more bytes were delivered after the failure", f.after)
			}
			if reported {
				st.class("reported by a call before the flush")
			}
			st.Extra++
		}
	}
	if c.Enc > 0 {
		st.class("encoder")
	}
	if len(ref) <= c.All {
		st.class("every offset")
	}
	st.nontrivial(len(ref) > 0)
	return nil
}

// --- C13

type encDef struct {
	name string
	enc  encoding.Encoding
}

var encs = []encDef{
	{"none", encoding.Nop},
	{"windows-1252", charmap.Windows1252}, {"iso-8859-1", charmap.ISO8859_1}, {"ISO-8859-15", charmap.ISO8859_15}, {"koi8-r", charmap.KOI8R}, {"windows-1251", charmap.Windows1251},
	{"iso-8859-7", charmap.ISO8859_7}, {"macintosh", charmap.Macintosh}, {"cp437", charmap.CodePage437},
	{"utf-16be", unicode.UTF16(unicode.BigEndian, unicode.ExpectBOM)}, {"utf-16", unicode.UTF16(unicode.LittleEndian, unicode.UseBOM)}, {"utf-16le", unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)},
	{"shift_jis", japanese.ShiftJIS}, {"euc-jp", japanese.EUCJP}, {"gbk", simplifiedchinese.GBK}, {"gb18030", simplifiedchinese.GB18030}, {"big5", traditionalchinese.Big5}, {"euc-kr", korean.EUCKR},
	{"utf-8", unicode.UTF8},
}

// encoded returns what the encoding makes of one rune: its bytes, or false.
func (e encDef) encoded(r rune) (string, bool) {
	s, err := e.enc.NewEncoder().String(string(r))
	if err != nil {
		return "", false
	}
	return s, true
}

// faithful: the rune is either encodable and decodes to itself, or not encodable.
func (e encDef) faithful(r rune) bool {
	s, ok := e.encoded(r)
	if !ok {
		return true
	}
	d, err := e.enc.NewDecoder().String(s)
	return err == nil && d == string(r)
}

func (e encDef) onlyFaithful(s string) string {
	return mapRunes(s, func(r rune, w int) (string, bool) { return "x", r >= 0x80 && w > 1 && !e.faithful(r) })
}

func (e encDef) onlyEncodable(s string) string {
	return mapRunes(s, func(r rune, w int) (string, bool) {
		if r < 0x80 {
			return "", false
		}
		_, ok := e.encoded(r)
		return "x", w > 1 && !(ok && e.faithful(r))
	})
}

type EncCase struct {
	Doc    *Doc
	Styles []int
	Conf   Conf
	Enc    int
	Name   Str
	Calls  bool // flush after every call
}

var encWords = []string{"é", "Ж", "日本語", "한국", "α", "€", "中文", "Résumé", "☃", "👍", "a", "ü", "ß", "¥", "\u00A0", "\uFFFD", "𠮷", "\u20ac\u20ac", "ﾊﾝｶｸ", "\u0085"}

func (g *G) encStr() string {
	var b strings.Builder
	for i, n := 0, g.frags(); i < n; i++ {
		switch g.n(4) {
		case 0:
			b.WriteString(g.str(true))
		default:
			b.WriteString(encWords[g.n(len(encWords))])
		}
	}
	s := b.String()
	if g.chance(1, 24) && s != "" {
		s = strings.Repeat(s, 1+g.in(500, 5000)/len(s))
	}
	return s
}

func (g *G) encCase() *EncCase {
	c := &EncCase{Enc: g.in(1, len(encs)-1), Calls: g.chance(1, 5)}
	e := encs[c.Enc]
	sh := shape{ns: true, maxNodes: 12, deep: 10,
		strs:    func(g *G) string { return e.onlyFaithful(representableKeep(g.encStr())) },
		comment: func(g *G) string { return e.onlyEncodable(g.commentText()) },
		cdata:   func(g *G) string { return e.onlyEncodable(g.cdataText()) },
		pi:      func(g *G) string { return e.onlyEncodable(g.piText()) },
		name: func(g *G) string {
			n := e.onlyEncodable(g.ncname())
			if len(n) > 40 {
				n = "n"
			}
			if !isWriterName(n) {
				return "n"
			}
			return n
		},
		prefixes: []string{"p", "q"}, uris: []string{"urn:a", "urn:é", "u"},
	}
	c.Doc = g.doc(sh)
	if c.Doc.Decl == nil && g.chance(3, 4) {
		c.Doc.Decl = g.declNode()
	}
	c.Styles = g.styles(g.in(0, 20))
	c.Name = Str(e.name)
	if g.chance(1, 6) {
		c.Name = Str(pick(g, "x-my_enc.1", "A", "UTF-16", "latin1"))
	}
	if g.bit() {
		c.Conf.Buf = g.bufSize()
	}
	return c
}

// representableKeep leaves the string as it is; the writer replaces what XML lacks.
func representableKeep(s string) string { return s }

func encCheck(c *EncCase, st *Stats) error {
	e := encs[c.Enc]
	ops, _ := c.Doc.ops(c.Styles, 0)
	s := &sink{}
	w := c.Conf.openEnc(s, string(c.Name), e.enc.NewEncoder())
	for i, o := range ops {
		if err := o.exec(w); err != nil {
			return fmt.Errorf("%s: call %d %s: %v", e.name, i, trunc(o.String(), 300), err)
		}
		if c.Calls {
			if err := w.Flush(); err != nil {
				return err
			}
		}
	}
	if err := w.Flush(); err != nil {
		return fmt.Errorf("%s: flush: %v", e.name, err)
	}
	dec, err := e.enc.NewDecoder().Bytes(s.b)
	if err != nil {
		return fmt.Errorf("%s: the output does not decode: %v\noutput: %s\ncalls:\n%s", e.name, err, show(string(s.b)), opsString(ops))
	}
	text := string(dec)
	if e.name != "utf-8" { // the decoder of x/text strips a BOM it expects; a stray one is an error
		text = strings.TrimPrefix(text, "\uFEFF")
	}
	got, err := parseXML(text, 0)
	if err != nil {
		return fmt.Errorf("%s: decoded: %v\noutput: %s\ncalls:\n%s", e.name, err, show(text), opsString(ops))
	}
	x := &expect{conf: c.Conf, enc: string(c.Name)}
	if d := diffEvents(x.doc(c.Doc), got); d != "" {
		return fmt.Errorf("%s: the decoded output reads back differently: %s\noutput: %s\ncalls:\n%s", e.name, d, show(text), opsString(ops))
	}
	// the bytes: exactly the UTF-8 output, rune by rune, with references for what is missing
	s8 := &sink{}
	w8 := c.Conf.openEnc(s8, string(c.Name), nopEncoder())
	for _, o := range ops {
		o.exec(w8)
	}
	w8.Flush()
	refs := 0
	want := mapRunes(string(s8.b), func(r rune, w int) (string, bool) {
		if r < 0x80 {
			return "", false
		}
		if _, ok := e.encoded(r); ok {
			return "", false
		}
		refs++
		return fmt.Sprintf("&#%d;", r), true
	})
	if text != want {
		return fmt.Errorf("%s: decoded output differs from the UTF-8 output: %s\ncalls:\n%s", e.name, diffAt(want, text), opsString(ops))
	}
	st.class("%s", e.name)
	if refs > 0 {
		st.class("character references")
	}
	high := false
	for i := 0; i < len(s8.b); i++ {
		if s8.b[i] >= 0x80 {
			high = true
			break
		}
	}
	st.nontrivial(high)
	return nil
}

// --- C17

type RawCase struct {
	Prog *ProgCase
	Raws []rawAt
}

type rawAt struct {
	At    int // before which call
	S     Str
	Typed bool
	Join  bool // in one Write call with the following write
}

func rawCheck(c *RawCase, st *Stats) error {
	ops := c.Prog.Ops
	ref, cum, err := reference(c.Prog.Conf, ops)
	if err != nil {
		return nil
	}
	by := map[int][]rawAt{}
	for _, r := range c.Raws {
		by[r.At%(len(ops)+1)] = append(by[r.At%(len(ops)+1)], r)
	}
	s := &sink{}
	w := c.Prog.Conf.open(s)
	var want strings.Builder
	last := 0
	calls := []*Op{}
	inTag, inside := false, false
	for i := 0; i <= len(ops); i++ {
		off := 0
		if i > 0 {
			off = cum[i-1]
		}
		want.WriteString(ref[last:off])
		last = off
		var joined []*Node
		for _, r := range by[i] {
			want.WriteString(string(r.S))
			n := &Node{K: "raw", S: r.S}
			if lt := strings.LastIndexAny(ref[:off], "<>"); lt >= 0 && ref[lt] == '<' {
				inTag = true
			} else {
				inside = true
			}
			if (r.Join || len(joined) > 0) && i < len(ops) && ops[i].Do == "write" && (!ops[i].Typed || len(ops[i].N) == 1) {
				joined = append(joined, n)
				continue
			}
			o := &Op{Do: "write", Typed: r.Typed, N: []*Node{n}}
			calls = append(calls, o)
			d := w.Depth()
			if err := o.exec(w); err != nil {
				return fmt.Errorf("raw text before call %d was rejected: %v\ncalls:\n%s", i, err, opsString(calls))
			}
			if w.Depth() != d {
				return fmt.Errorf("raw text changed the depth from %d to %d\ncalls:\n%s", d, w.Depth(), opsString(calls))
			}
		}
		if i == len(ops) {
			break
		}
		o := ops[i]
		if len(joined) > 0 {
			o = &Op{Do: "write", N: append(joined, o.N...)}
		}
		calls = append(calls, o)
		if err := o.exec(w); err != nil {
			return fmt.Errorf("call %d %s was rejected (%v), without the raw text before it it was accepted\ncalls:\n%s", i, trunc(o.String(), 300), err, opsString(calls))
		}
	}
	want.WriteString(ref[last:])
	if err := w.Flush(); err != nil {
		return err
	}
	if string(s.b) != want.String() {
		return fmt.Errorf("raw text: %s\ncalls:\n%s", diffAt(want.String(), string(s.b)), opsString(calls))
	}
	if inTag {
		st.class("inside markup")
	}
	if inside {
		st.class("between markup")
	}
	st.nontrivial(len(c.Raws) > 0)
	return nil
}

func (g *G) rawCase() *RawCase {
	c := &RawCase{Prog: g.anyProg(false)}
	if g.chance(1, 3) {
		s := Str(pick(g, "\r\n", "\r", "\n\n", "", "~", " \n"))
		c.Prog.Conf.NL = &s
	}
	if g.chance(1, 3) {
		c.Prog.Conf.Buf = g.bufSize()
	}
	if g.chance(1, 4) {
		c.Prog.Conf.NoEnforce = true
	}
	for i, n := 0, g.in(1, 5); i < n; i++ {
		r := rawAt{At: int(g.bits(6)), S: Str(g.maybeLong(true)), Typed: g.bit(), Join: g.chance(1, 4)}
		if g.chance(1, 6) {
			r.S = Str(pick(g, "", "<", ">", "/>", "<b/>", "&", "\x00", "\xff\xfe", "<!--", "-", "--", "]]", "]]>", "\r\n", "\"", " x=\"y\""))
		}
		c.Raws = append(c.Raws, r)
	}
	return c
}

// rawIndentCheck: with an indenter, too, a raw string appears where it was
// written, with nothing before it.
func rawIndentCheck(c *RawCase, st *Stats) error {
	s := &sink{}
	w := c.Prog.Conf.open(s)
	calls := []*Op{}
	n := 0
	for i := 0; i <= len(c.Prog.Ops); i++ {
		for _, r := range c.Raws {
			if r.At%(len(c.Prog.Ops)+1) != i {
				continue
			}
			if err := w.Flush(); err != nil {
				return err
			}
			k := len(s.b)
			o := &Op{Do: "write", Typed: r.Typed, N: []*Node{{K: "raw", S: r.S}}}
			calls = append(calls, o)
			if err := o.exec(w); err != nil {
				return fmt.Errorf("raw text before call %d was rejected: %v\ncalls:\n%s", i, err, opsString(calls))
			}
			if err := w.Flush(); err != nil {
				return err
			}
			if string(s.b[k:]) != string(r.S) {
				return fmt.Errorf("indented: writing raw text %s put out %s\nafter: %s\ncalls:\n%s", show(string(r.S)), show(string(s.b[k:])), show(string(s.b[:k])), opsString(calls))
			}
			n++
		}
		if i == len(c.Prog.Ops) {
			break
		}
		calls = append(calls, c.Prog.Ops[i])
		if c.Prog.Ops[i].exec(w) != nil {
			break
		}
	}
	st.class("indented")
	st.nontrivial(n > 0)
	return nil
}

// --- C18

func enforceSame(c *ProgCase, st *Stats) error {
	r := runOps(c.Conf, c.Ops, true)
	if r.err() != nil {
		return nil
	}
	for k := 0; k < 3; k++ {
		conf := c.Conf
		what := ""
		switch k {
		case 0:
			conf.NoEnforce = true
			conf.After = len(c.Ops)%2 == 0
			what = "enforcement off"
		case 1:
			conf.Loose = true
			what = "non-strict characters"
		case 2:
			conf.NoEnforce, conf.Loose = true, true
			what = "enforcement off and non-strict characters"
		}
		r2 := runOps(conf, c.Ops, true)
		if r2.err() != nil {
			return fmt.Errorf("with %s call %d is rejected: %v\ncalls:\n%s", what, r2.first, r2.err(), opsString(c.Ops))
		}
		if r2.out != r.out {
			return fmt.Errorf("with %s the output differs: %s\ncalls:\n%s", what, diffAt(r.out, r2.out), opsString(c.Ops))
		}
		st.Extra++
	}
	st.nontrivial(len(c.Ops) >= 3)
	if c.Conf.Indent {
		st.class("indented")
	}
	return nil
}

// AnyCase: any nodes under any parent with enforcement off.
type AnyCase struct {
	Chain []string
	Node  *Node
	Typed bool
	Start bool
	Loose bool
	Value Str
}

// offRejects: rejections that do not depend on enforcement (contradictions the
// writer cannot resolve), which the property does not speak of.
func offRejects(n *Node) bool {
	switch n.K {
	case "entity":
		return n.PE && n.NDat != "" && (n.Sys != "" || n.Pub != "")
	case "dtdattr":
		return (n.Def == 2 || n.Def == 3) && n.S != "" || n.Def < 0 || n.Def > 4
	case "attlist":
		for _, a := range n.Attrs {
			if offRejects(a) {
				return true
			}
		}
	case "elem":
		b := map[Str]Str{}
		if n.URI != "" {
			b[n.Prefix] = n.URI
		}
		for _, a := range n.Attrs {
			if a.URI != "" {
				if u, ok := b[a.Prefix]; ok && u != a.URI {
					return true
				}
				b[a.Prefix] = a.URI
			}
		}
		for _, k := range n.Kids {
			switch k.K {
			case "elem", "text", "comment", "cdata", "pi":
			default:
				return true
			}
			if offRejects(k) {
				return true
			}
		}
	}
	return false
}

func offCheck(c *AnyCase, st *Stats) error {
	if offRejects(c.Node) {
		return nil
	}
	s := &sink{}
	conf := Conf{NoEnforce: true, Loose: c.Loose, After: len(c.Chain)%2 == 0}
	w := conf.open(s)
	for _, k := range c.Chain {
		n := sampleNode(k)
		n.S = ""
		if err := w.Start(startable(n)); err != nil {
			return fmt.Errorf("enforcement off: starting %s in %v: %v", k, c.Chain, err)
		}
	}
	o := &Op{Do: "write", Typed: c.Typed, N: []*Node{c.Node}}
	if startsOnly(c.Node.K) || c.Start && starts(c.Node.K) {
		o.Do = "start"
	}
	if err := o.exec(w); err != nil {
		return fmt.Errorf("enforcement off, inside %v: %s was rejected: %v", c.Chain, o, err)
	}
	if err := w.EndAllFlush(); err != nil {
		return fmt.Errorf("enforcement off, inside %v: after %s, ending failed: %v", c.Chain, o, err)
	}
	// text and attribute values are escaped either way
	var b1, b2 bytes.Buffer
	for _, x := range []struct {
		b   *bytes.Buffer
		off bool
	}{{&b1, true}, {&b2, false}} {
		w := xw.Open(x.b)
		w.Enforce = !x.off
		if err := w.Write(xw.Elem{Name: "e", Attrs: []xw.Attr{{Name: "a", Value: string(c.Value)}}, Content: []xw.Writable{xw.Text(c.Value)}}); err != nil {
			return fmt.Errorf("text and attribute %q: %v", c.Value, err)
		}
		w.Flush()
	}
	if b1.String() != b2.String() {
		return fmt.Errorf("with enforcement off %q is escaped differently: %s", c.Value, diffAt(b2.String(), b1.String()))
	}
	evs, err := parseXML(b1.String(), 0)
	if err != nil {
		return fmt.Errorf("enforcement off, text and attribute %q: %v", c.Value, err)
	}
	if v := representable(string(c.Value)); evs[0].A[0].V != v {
		return fmt.Errorf("enforcement off: attribute %q reads back as %q", c.Value, evs[0].A[0].V)
	}
	m := newModel(!c.Loose)
	bad := false
	for _, k := range c.Chain {
		if m.start(sampleNode(k)) != nil {
			bad = true
		}
	}
	if bad || m.step(o) != nil {
		st.class("forbidden with enforcement on: %s", c.Node.K)
		st.nontrivial(true)
	}
	return nil
}

// --- C22

type ShareCase struct {
	Docs  []*Doc
	Sched []int
	Conf  []Conf
	Par   bool
}

// shared holds node values that several writers are given.
type shared struct {
	vals []xw.Node
}

const spare = 3

func spareElem(n *Node) xw.Elem {
	e := xw.Elem{Prefix: string(n.Prefix), URI: string(n.URI), Name: string(n.Name), Full: n.Full}
	if len(n.Attrs) > 0 {
		e.Attrs = make([]xw.Attr, 0, len(n.Attrs)+spare)
		for _, a := range n.Attrs {
			e.Attrs = append(e.Attrs, attrVal(a))
		}
		for i := 0; i < spare; i++ {
			e.Attrs[:cap(e.Attrs)][len(e.Attrs)+i] = xw.Attr{Name: "spare"}
		}
	}
	if len(n.Kids) > 0 {
		e.Content = make([]xw.Writable, 0, len(n.Kids)+spare)
		for _, k := range n.Kids {
			if k.K == "elem" {
				e.Content = append(e.Content, spareElem(k))
			} else {
				e.Content = append(e.Content, writable(k))
			}
		}
		for i := 0; i < spare; i++ {
			e.Content[:cap(e.Content)][len(e.Content)+i] = xw.Text("spare")
		}
	}
	return e
}

func spareList(n *Node) xw.DTDAttList {
	l := xw.DTDAttList{Name: string(n.Name)}
	if len(n.Attrs) > 0 {
		l.Attrs = make([]xw.DTDAttr, 0, len(n.Attrs)+spare)
		for _, a := range n.Attrs {
			l.Attrs = append(l.Attrs, dtdAttrVal(a))
		}
		for i := 0; i < spare; i++ {
			l.Attrs[:cap(l.Attrs)][len(l.Attrs)+i] = xw.DTDAttr{Name: "spare"}
		}
	}
	return l
}

// sameElem compares a value with a fresh construction, spare capacity included.
func sameElem(a, b xw.Elem) bool {
	if !reflect.DeepEqual(a.Attrs[:cap(a.Attrs)], b.Attrs[:cap(b.Attrs)]) || a.Name != b.Name || a.Prefix != b.Prefix || a.URI != b.URI || a.Full != b.Full ||
		len(a.Attrs) != len(b.Attrs) || len(a.Content) != len(b.Content) || cap(a.Content) != cap(b.Content) {
		return false
	}
	x, y := a.Content[:cap(a.Content)], b.Content[:cap(b.Content)]
	for i := range x {
		if e, ok := x[i].(xw.Elem); ok {
			f, ok := y[i].(xw.Elem)
			if !ok || !sameElem(e, f) {
				return false
			}
		} else if !reflect.DeepEqual(x[i], y[i]) {
			return false
		}
	}
	return true
}

// step is one call of a writer using shared values.
type shareStep func(w *xw.Writer) error

func shareSteps(d *Doc) (steps []shareStep, check func() error) {
	var checks []func() error
	add := func(f shareStep) { steps = append(steps, f) }
	if d.Decl != nil {
		n := *d.Decl
		if n.Sta != nil { // the value's own
			b := *n.Sta
			n.Sta = &b
		}
		v := docVal(&n)
		add(func(w *xw.Writer) error { return w.Start(v) })
		// documents made from it
		no := v.WithStandalone(false).ForceVersion("1.derived").ForceEncoding("derived")
		yes := v.WithStandalone(true).ForceVersion("1.other").ForceEncoding("other")
		checks = append(checks, func() error {
			if f := docVal(d.Decl); !reflect.DeepEqual(v, f) {
				return fmt.Errorf("the document value was changed: %s", show(fmt.Sprintf("%+v", v)))
			}
			if *no.Standalone || *no.ForcedVersion != "1.derived" || *no.ForcedEncoding != "derived" || !*yes.Standalone || *yes.ForcedVersion != "1.other" || *yes.ForcedEncoding != "other" {
				return fmt.Errorf("documents made from the same value share their options")
			}
			return nil
		})
	}
	misc := func(ns []*Node) {
		for _, n := range ns {
			v := writable(n)
			add(func(w *xw.Writer) error { return w.Write(v) })
		}
	}
	misc(d.Pre)
	if d.DTD != nil {
		v := dtdVal(d.DTD)
		add(func(w *xw.Writer) error { return w.Start(v) })
		for _, k := range d.DTD.Kids {
			if k.K == "attlist" {
				l := spareList(k)
				add(func(w *xw.Writer) error { return w.Write(l) })
				k := k
				checks = append(checks, func() error {
					f := spareList(k)
					if l.Name != f.Name || len(l.Attrs) != len(f.Attrs) || !reflect.DeepEqual(l.Attrs[:cap(l.Attrs)], f.Attrs[:cap(f.Attrs)]) {
						return fmt.Errorf("the attribute list value was changed: %v", l)
					}
					return nil
				})
				continue
			}
			misc([]*Node{k})
		}
		add(func(w *xw.Writer) error { return w.EndDTD() })
	}
	misc(d.Mid)
	root := spareElem(d.Root)
	// the root is started with its content, or its content is written value by value
	if len(root.Content)%2 == 0 {
		add(func(w *xw.Writer) error { return w.Start(root) })
	} else {
		head := root
		head.Content = nil
		add(func(w *xw.Writer) error { return w.Start(head) })
		for _, k := range root.Content {
			k := k
			add(func(w *xw.Writer) error { return w.Write(k) })
		}
	}
	add(func(w *xw.Writer) error {
		if root.Full {
			return w.EndElemFull()
		}
		return w.EndElem()
	})
	misc(d.Post)
	add(func(w *xw.Writer) error { return w.EndAllFlush() })
	return steps, func() error {
		for _, c := range checks {
			if err := c(); err != nil {
				return err
			}
		}
		if !sameElem(root, spareElem(d.Root)) {
			return fmt.Errorf("the element value was changed: %#v", root)
		}
		return nil
	}
}

func shareCheck(c *ShareCase, st *Stats) error {
	type job struct {
		steps []shareStep
		w     *xw.Writer
		s     *sink
		pos   int
		alone func() (string, error)
	}
	conf := func(i int) Conf { return c.Conf[i%len(c.Conf)] }
	var jobs []*job
	var verify []func() error
	for i, d := range c.Docs {
		steps, ver := shareSteps(d)
		verify = append(verify, ver)
		alone := func() (string, error) {
			// what one writer makes of freshly built values
			fresh, _ := shareSteps(d)
			s := &sink{}
			w := conf(i).open(s)
			for k, f := range fresh {
				if err := f(w); err != nil {
					return "", fmt.Errorf("document %d, step %d alone: %v", i, k, err)
				}
			}
			return string(s.b), nil
		}
		// two writers are given the same values; the second has its own configuration
		for n := 0; n < 2; n++ {
			s := &sink{}
			j := &job{steps: steps, w: conf(i).open(s), s: s, alone: alone}
			jobs = append(jobs, j)
		}
	}
	if c.Par {
		var wg sync.WaitGroup
		errs := make([]error, len(jobs))
		start := make(chan struct{})
		for i, j := range jobs {
			wg.Add(1)
			go func(i int, j *job) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[i] = fmt.Errorf("panic: %v", r)
					}
				}()
				<-start
				for _, f := range j.steps {
					if err := f(j.w); err != nil {
						errs[i] = err
						return
					}
					runtime.Gosched()
				}
			}(i, j)
		}
		close(start)
		wg.Wait()
		for i, e := range errs {
			if e != nil {
				return fmt.Errorf("writer %d of %d concurrent ones: %v", i, len(jobs), e)
			}
		}
	} else {
		k := 0
		for left := true; left; {
			left = false
			p := 0
			if k < len(c.Sched) {
				p = c.Sched[k]
			}
			k++
			for i := 0; i < len(jobs); i++ {
				j := jobs[(p+i)%len(jobs)]
				if j.pos < len(j.steps) {
					if err := j.steps[j.pos](j.w); err != nil {
						return fmt.Errorf("writer %d, step %d, interleaved: %v (alone it succeeds)", (p+i)%len(jobs), j.pos, err)
					}
					j.pos++
					left = true
					break
				}
			}
		}
	}
	for i, j := range jobs {
		alone, err := j.alone() // not before: what is remembered between uses would be known already
		if err != nil {
			return err
		}
		if string(j.s.b) != alone {
			return fmt.Errorf("writer %d gives another output than alone: %s", i, diffAt(alone, string(j.s.b)))
		}
	}
	for _, v := range verify {
		if err := v(); err != nil {
			return err
		}
	}
	st.nontrivial(len(jobs) > 2)
	st.Extra += len(jobs)
	return nil
}

// --- C24

type recEvent struct {
	last, next xw.Event
	mark       string
}

// recIndenter records the events and marks the places.
type recIndenter struct {
	evs     []recEvent
	nexts   int
	marks   bool
	busy    bool
	failAt  int
	failErr error
	wrap    func(string) string
	wraps   []string
	err     error
}

func (r *recIndenter) Wrap(s string) string {
	r.wraps = append(r.wraps, s)
	if r.wrap != nil {
		return r.wrap(s)
	}
	return s
}

// Single characters may occur in generated literals; these sequences do not.
const markOpen, markClose = "\u2983\u2983\u2984\u2983", "\u2984\u2983\u2984\u2984"

func (r *recIndenter) Indent(w *xw.Writer, last, next xw.Event) error {
	if r.busy {
		return nil
	}
	e := recEvent{last: last, next: next}
	if r.failErr != nil && len(r.evs) == r.failAt {
		return r.failErr
	}
	r.evs = append(r.evs, e)
	if r.marks {
		r.busy = true
		err := w.WriteRaw(fmt.Sprintf("%s%d%s", markOpen, len(r.evs)-1, markClose))
		r.busy = false
		return err
	}
	return nil
}

type IndCase struct {
	Doc    *Doc
	Styles []int
	Conf   Conf
	Mode   int // 0 record, 1 mark, 2 wrap, 3 fail
	At     int
}

var kindName = func() map[xw.NodeKind]string {
	m := map[xw.NodeKind]string{}
	for k, v := range kindOf {
		m[v] = k
	}
	return m
}()

type indTok struct {
	state, kind string
	n           *Node
}

// tokens is the expected order of the state changes, without content chunks.
func (d *Doc) tokens() []indTok {
	var out []indTok
	add := func(s, k string, n *Node) { out = append(out, indTok{s, k, n}) }
	var walk func(n *Node)
	walk = func(n *Node) {
		switch n.K {
		case "next":
		case "elem", "dtd", "comment", "cdata", "attlist":
			add("open", n.K, n)
			if n.K == "elem" {
				for _, a := range n.Attrs {
					add("open", "attr", a)
				}
			}
			add("opened", n.K, n)
			if n.K == "attlist" {
				for _, a := range n.Attrs {
					add("open", "dtdattr", a)
				}
			}
			for _, k := range n.Kids {
				walk(k)
			}
			add("ended", n.K, n)
		default:
			add("open", n.K, n)
		}
	}
	if d.Decl != nil {
		add("open", "doc", d.Decl)
		add("opened", "doc", d.Decl)
	}
	for _, n := range d.Pre {
		walk(n)
	}
	if d.DTD != nil {
		walk(d.DTD)
	}
	for _, n := range append(append(append([]*Node{}, d.Mid...), d.Root), d.Post...) {
		walk(n)
	}
	if d.Decl != nil {
		add("ended", "doc", d.Decl)
	}
	return out
}

var stateNames = map[xw.NodeState]string{xw.StateOpen: "open", xw.StateOpened: "opened", xw.StateEnded: "ended"}

func evStr(e xw.Event) string {
	return fmt.Sprintf("%s %s (%d children)", stateNames[e.State], kindName[e.Node], e.Children)
}

func nextsOf(d *Doc) int {
	n := 0
	var walk func(x *Node)
	walk = func(x *Node) {
		for _, k := range x.Kids {
			if k.K == "next" {
				n++
			}
			walk(k)
		}
	}
	walk(d.Root)
	return n
}

func indenterCheck(c *IndCase, st *Stats) error {
	ops, l := c.Doc.ops(c.Styles, 0)
	formsOf(st, l)
	rec := &recIndenter{marks: c.Mode == 1}
	if c.Mode == 2 {
		rec.wrap = func(s string) string { return "{" + s + "}" }
	}
	conf := c.Conf
	run := func(r *recIndenter) (string, int, error) {
		s := &sink{}
		w := conf.open(s)
		w.Indenter = r
		for i, o := range ops {
			if err := o.exec(w); err != nil {
				return "", i, err
			}
		}
		err := w.Flush()
		return string(s.b), len(ops), err
	}
	out, at, err := run(rec)
	if err != nil {
		return fmt.Errorf("with a custom indenter call %d fails: %v\ncalls:\n%s", at, err, opsString(ops))
	}
	if c.Mode == 3 {
		if len(rec.evs) == 0 {
			return nil
		}
		f := &recIndenter{failErr: errInjected, failAt: c.At % len(rec.evs)}
		_, at2, err := run(f)
		if err == nil || !strings.Contains(err.Error(), errInjected.Error()) {
			return fmt.Errorf("the indenter failed at event %d, but the calls returned %v\ncalls:\n%s", f.failAt, err, opsString(ops))
		}
		if len(f.evs) != f.failAt {
			return fmt.Errorf("the indenter failed at event %d, but the failing call (%d) made %d more\ncalls:\n%s", f.failAt, at2, len(f.evs)-f.failAt, opsString(ops))
		}
		st.class("indenter error")
		st.nontrivial(true)
		return nil
	}
	ctx := func() string {
		var b strings.Builder
		for i, e := range rec.evs {
			if i > 80 {
				break
			}
			fmt.Fprintf(&b, "  event %d: last %s, next %s\n", i, evStr(e.last), evStr(e.next))
		}
		return fmt.Sprintf("\nevents:\n%soutput: %s\ncalls:\n%s", b.String(), show(out), opsString(ops))
	}
	// the automaton
	type fr struct {
		kind   string
		opened bool
		count  int
	}
	var stack []fr
	var toks []string
	var tokAt []int
	explicit := nextsOf(c.Doc)
	extraNext := 0
	prevPI := false
	for i, e := range rec.evs {
		if i > 0 {
			p := rec.evs[i-1].next
			if k := kindName[p.Node]; !starts(k) {
				p = xw.Event{State: xw.StateEnded, Node: p.Node}
			}
			if e.last != p && !(prevPI && kindName[e.next.Node] == "raw") && !(kindName[rec.evs[i-1].next.Node] == "raw" && i > 1 && kindName[rec.evs[i-2].next.Node] == "pi") {
				return fmt.Errorf("event %d: the previous event is given as %s, it was %s%s", i, evStr(e.last), evStr(p), ctx())
			}
		}
		k, s := kindName[e.next.Node], stateNames[e.next.State]
		if k == "raw" && prevPI { // the data of a processing instruction
			prevPI = false
			continue
		}
		prevPI = k == "pi"
		var top *fr
		if len(stack) > 0 {
			top = &stack[len(stack)-1]
		}
		switch {
		case s == "open":
			if e.next.Children != 0 {
				return fmt.Errorf("event %d: %s is opened with children%s", i, k, ctx())
			}
			if top != nil {
				if k == "attr" {
					if top.opened {
						return fmt.Errorf("event %d: attribute after its element is opened%s", i, ctx())
					}
				} else {
					if !top.opened {
						return fmt.Errorf("event %d: %s inside a %s that was not reported opened%s", i, k, top.kind, ctx())
					}
					top.count++
				}
			}
			if starts(k) {
				stack = append(stack, fr{kind: k})
			}
		case s == "opened":
			if top == nil || top.kind != k || top.opened {
				return fmt.Errorf("event %d: unexpected %s%s", i, evStr(e.next), ctx())
			}
			if e.next.Children < 0 || e.next.Children > 1 {
				return fmt.Errorf("event %d: %s%s", i, evStr(e.next), ctx())
			}
			top.opened = true
		default:
			if top == nil || top.kind != k || !top.opened {
				return fmt.Errorf("event %d: unexpected %s%s", i, evStr(e.next), ctx())
			}
			if d := e.next.Children - top.count; d != 0 {
				if d < 0 || k != "elem" {
					return fmt.Errorf("event %d: %s, but %d were reported%s", i, evStr(e.next), top.count, ctx())
				}
				extraNext += d
			}
			stack = stack[:len(stack)-1]
		}
		if k != "ccontent" && k != "dcontent" {
			toks = append(toks, s+" "+k)
			tokAt = append(tokAt, i)
		}
	}
	if len(stack) > 0 {
		return fmt.Errorf("%d nodes were never reported ended%s", len(stack), ctx())
	}
	if extraNext != explicit {
		return fmt.Errorf("the children counts are %d too high, %d explicit Next calls were made%s", extraNext, explicit, ctx())
	}
	want := c.Doc.tokens()
	for i := 0; i < len(want) || i < len(toks); i++ {
		wt, gt := "nothing", "nothing"
		if i < len(want) {
			wt = want[i].state + " " + want[i].kind
		}
		if i < len(toks) {
			gt = toks[i]
		}
		if wt != gt {
			return fmt.Errorf("state change %d: want %s, got %s%s", i, wt, gt, ctx())
		}
	}
	// wraps: once for every text and comment content, in order
	texts := 0
	for _, e := range rec.evs {
		if k := kindName[e.next.Node]; k == "text" || k == "ccontent" {
			texts++
		}
	}
	if len(rec.wraps) != texts {
		return fmt.Errorf("%d texts and comment contents, %d calls of Wrap%s", texts, len(rec.wraps), ctx())
	}
	switch c.Mode {
	case 1:
		if err := checkMarks(c, rec, out, want, tokAt, ctx); err != nil {
			return err
		}
		st.class("marks placed")
	case 2:
		if err := checkWraps(c, out, ctx); err != nil {
			return err
		}
		st.class("text rewritten")
	}
	ds := c.Doc.stats()
	st.nontrivial(ds.elems >= 2 && ds.nodes >= 3)
	return nil
}

// checkMarks: what the indenter wrote stands at the right places.
func checkMarks(c *IndCase, rec *recIndenter, out string, toks []indTok, tokAt []int, ctx func() string) error {
	pos := make([]int, len(rec.evs))
	var plain strings.Builder
	rest := out
	for n := 0; ; n++ {
		k := strings.Index(rest, markOpen)
		if k < 0 {
			plain.WriteString(rest)
			if n != len(rec.evs) {
				return fmt.Errorf("%d marks in the output, %d written%s", n, len(rec.evs), ctx())
			}
			break
		}
		plain.WriteString(rest[:k])
		e := strings.Index(rest, markClose)
		if rest[k+len(markOpen):e] != fmt.Sprint(n) {
			return fmt.Errorf("mark %d is out of order%s", n, ctx())
		}
		pos[n] = plain.Len()
		rest = rest[e+len(markClose):]
	}
	p := plain.String()
	ops, _ := c.Doc.ops(c.Styles, 0)
	if r := runOps(c.Conf, ops, true); r.out != p {
		return fmt.Errorf("the output without the marks differs from the output without an indenter: %s%s", diffAt(r.out, p), ctx())
	}
	for i, t := range toks {
		at := pos[tokAt[i]]
		after, before := p[at:], p[:at]
		ok := true
		h := func(s ...string) {
			ok = false
			for _, x := range s {
				if strings.HasPrefix(after, x) {
					ok = true
				}
			}
		}
		short := t.kind == "elem" && len(t.n.Kids) == 0 && !t.n.Full
		switch t.state + " " + t.kind {
		case "open elem":
			h("<" + t.n.fullName())
		case "open attr":
			h(" " + t.n.fullName() + `="`)
		case "opened elem":
			h(">", "/>", " xmlns")
			if short {
				h("/>", " xmlns")
			}
		case "ended elem":
			if short {
				ok = strings.HasSuffix(before, "/>")
			} else {
				h("</" + t.n.fullName() + ">")
			}
		case "open text":
			h(string(t.n.S))
			ok = ok && (before == "" || strings.HasSuffix(before, ">") || !strings.HasSuffix(before, "<") && t.n.S == "" || true)
		case "open comment":
			h("<!--")
		case "opened comment":
			ok = strings.HasSuffix(before, "<!--") && strings.HasPrefix(after, t.n.content())
		case "ended comment":
			ok = strings.HasPrefix(after, "-->") && strings.HasSuffix(before, t.n.content())
		case "open cdata":
			h("<![CDATA[")
		case "opened cdata":
			ok = strings.HasSuffix(before, "<![CDATA[") && strings.HasPrefix(after, t.n.content())
		case "ended cdata":
			ok = strings.HasPrefix(after, "]]>") && strings.HasSuffix(before, t.n.content())
		case "open pi":
			h("<?" + string(t.n.Name) + " ")
		case "open doc":
			h("<?xml ")
		case "opened doc":
			ok = strings.HasSuffix(before, "?>"+c.Conf.nl())
		case "ended doc":
			ok = after == ""
		case "open dtd":
			h("<!DOCTYPE " + string(t.n.Name))
		case "opened dtd":
			h(" [", ">")
		case "ended dtd":
			h("]>", ">")
		case "open attlist":
			h("<!ATTLIST " + string(t.n.Name))
		case "open dtdattr":
			h(" " + string(t.n.Name) + " ")
		case "ended attlist":
			h(">")
		case "open entity":
			h("<!ENTITY ")
		case "open notation":
			h("<!NOTATION ")
		case "open dtdelem":
			h("<!ELEMENT ")
		}
		if !ok {
			return fmt.Errorf("what the indenter wrote at %q of %s stands before %q and after %q%s", t.state, t.n, trunc(after, 60), before[max(0, len(before)-60):], ctx())
		}
	}
	return nil
}

// checkWraps: every text and comment content is in brackets exactly once.
func checkWraps(c *IndCase, out string, ctx func() string) error {
	got, err := parseXML(out, 0)
	if err != nil {
		return fmt.Errorf("%v%s", err, ctx())
	}
	unwrap := func(s string) (inner string, groups int, ok bool) {
		for s != "" {
			if s[0] != '{' {
				return "", 0, false
			}
			e := strings.IndexAny(s[1:], "{}")
			if e < 0 || s[1+e] != '}' {
				return "", 0, false
			}
			inner += s[1 : 1+e]
			s = s[e+2:]
			groups++
		}
		return inner, groups, true
	}
	// expected items with the number of text writes in each
	type item struct {
		t, s string
		n    int
	}
	var want []item
	var cur *item
	var walk func(n *Node)
	flush := func() {
		if cur != nil {
			want = append(want, *cur)
			cur = nil
		}
	}
	walk = func(n *Node) {
		if n.K == "text" {
			if cur == nil {
				cur = &item{t: "text"}
			}
			cur.s += string(n.S)
			cur.n++
			return
		}
		if n.K == "next" {
			return
		}
		flush()
		if n.K == "comment" {
			want = append(want, item{"comment", n.content(), -1})
		}
		for _, k := range n.Kids {
			walk(k)
		}
		flush()
	}
	for _, n := range c.Doc.Pre {
		walk(n)
	}
	if c.Doc.DTD != nil {
		walk(c.Doc.DTD)
	}
	for _, n := range append(append(append([]*Node{}, c.Doc.Mid...), c.Doc.Root), c.Doc.Post...) {
		walk(n)
	}
	i := 0
	for _, e := range got {
		if e.T != "text" && e.T != "comment" {
			continue
		}
		if i >= len(want) || want[i].t != e.T {
			return fmt.Errorf("unexpected %s %q%s", e.T, e.S, ctx())
		}
		inner, groups, ok := unwrap(e.S)
		if !ok {
			return fmt.Errorf("%s %q is not what Wrap returned%s", e.T, e.S, ctx())
		}
		if inner != want[i].s || want[i].n >= 0 && groups != want[i].n {
			return fmt.Errorf("%s %q: wrapped content %q in %d parts, want %q in %d%s", e.T, e.S, inner, groups, want[i].s, want[i].n, ctx())
		}
		i++
	}
	if i < len(want) {
		return fmt.Errorf("%s %q is missing%s", want[i].t, want[i].s, ctx())
	}
	return nil
}

// --- C29

type AllocCase struct {
	Root      *Node
	Conf      Conf
	NameEnds  bool
	ViaEnd    int
	Decl      bool
	DTD       *Node
	Distinct  bool // names and values that never occurred before
	NS        bool // with prefixes and URIs
	next      int
}

// distinctNames are different names; a document of a few megabytes does not
// come round to the first again.
var distinctNames = sync.OnceValue(func() []string {
	out := make([]string, 1<<17)
	for i := range out {
		out[i] = fmt.Sprintf("n%x", uint32(i)*2654435761)
	}
	return out
})

// name is the name to use for a node called s.
func (c *AllocCase) name(s Str) string {
	if !c.Distinct || s == "" {
		return string(s)
	}
	c.next++
	return distinctNames()[c.next&(1<<17-1)]
}

type countSink struct{ n int }

func (c *countSink) Write(p []byte) (int, error) { c.n += len(p); return len(p), nil }

// stream writes the node through the typed streaming calls only.
func (c *AllocCase) stream(w *xw.Writer, n *Node, fail *error) {
	keep := func(err error) {
		if err != nil && *fail == nil {
			*fail = err
		}
	}
	switch n.K {
	case "elem":
		name := c.name(n.Name)
		if c.NS {
			keep(w.StartElem(xw.Elem{Prefix: string(n.Prefix), URI: string(n.URI), Name: name, Full: n.Full}))
			for _, a := range n.Attrs {
				keep(w.WriteAttr(xw.Attr{Prefix: string(a.Prefix), URI: string(a.URI), Name: c.name(a.Name), Value: string(a.S)}))
			}
		} else {
			keep(w.StartElem(xw.Elem{Name: name, Full: n.Full}))
			for _, a := range n.Attrs {
				value := string(a.S)
				if c.Distinct && len(value)&1 == 0 {
					value = c.name("v")
				}
				keep(w.WriteAttr(xw.Attr{Name: c.name(a.Name), Value: value}))
			}
		}
		for _, k := range n.Kids {
			c.stream(w, k, fail)
		}
		switch {
		case n.Full:
			keep(w.EndElemFull())
		case c.NameEnds:
			if c.NS && n.Prefix != "" {
				keep(w.EndElem(string(n.Prefix), name))
			} else {
				keep(w.EndElem(name))
			}
		case c.ViaEnd == 1:
			keep(w.End(xw.ElemNode))
		case c.ViaEnd == 2:
			keep(w.EndAny())
		default:
			keep(w.EndElem())
		}
	case "text":
		if c.Distinct && len(n.S)&1 == 0 {
			keep(w.WriteText(c.name("t")))
		} else {
			keep(w.WriteText(string(n.S)))
		}
	case "comment":
		keep(w.StartComment(xw.Comment{}))
		for _, ch := range n.Chunks {
			keep(w.WriteCommentContent(string(ch)))
		}
		keep(w.EndComment())
	case "cdata":
		keep(w.StartCData(xw.CData{}))
		for _, ch := range n.Chunks {
			keep(w.WriteCDataContent(string(ch)))
		}
		keep(w.EndCData())
	case "pi":
		keep(w.WritePI(xw.PI{Target: c.name(n.Name), Content: string(n.S)}))
	case "raw":
		keep(w.WriteRaw(string(n.S)))
	case "next":
		keep(w.Next())
	case "dtd":
		keep(w.StartDTD(xw.DTD{Name: string(n.Name), PublicID: string(n.Pub), SystemID: string(n.Sys)}))
		for _, k := range n.Kids {
			c.stream(w, k, fail)
		}
		keep(w.EndDTD())
	case "attlist":
		keep(w.StartDTDAttList(xw.DTDAttList{Name: string(n.Name)}))
		for _, a := range n.Attrs {
			keep(w.WriteDTDAttr(dtdAttrVal(a)))
		}
		keep(w.EndDTDAttList())
	case "dtdelem":
		keep(w.WriteDTDElem(xw.DTDElem{Name: string(n.Name), Decl: string(n.S)}))
	case "entity":
		keep(w.WriteDTDEntity(xw.DTDEntity{Name: string(n.Name), Content: string(n.S), IsPE: n.PE, PublicID: string(n.Pub), SystemID: string(n.Sys), NDataID: string(n.NDat)}))
	case "notation":
		keep(w.WriteNotation(xw.Notation{Name: string(n.Name), SystemID: string(n.Sys), PublicID: string(n.Pub)}))
	default:
		harnessFail("stream: %s", n.K)
	}
}

func allocCheck(c *AllocCase, st *Stats) error {
	cs := &countSink{}
	w := c.Conf.open(cs)
	var fail error
	body := func() {
		if c.Decl {
			if err := w.StartDoc(xw.Doc{}); err != nil && fail == nil {
				fail = err
			}
		}
		if c.DTD != nil {
			c.stream(w, c.DTD, &fail)
		}
		c.stream(w, c.Root, &fail)
		if c.Decl {
			if err := w.EndDoc(); err != nil && fail == nil {
				fail = err
			}
		}
	}
	body()
	body()
	if fail != nil {
		return nil // decided elsewhere
	}
	var before, after runtime.MemStats
	runs := 3
	var got uint64
	for try := 0; try < 12; try++ {
		runtime.ReadMemStats(&before)
		for i := 0; i < runs; i++ {
			body()
		}
		runtime.ReadMemStats(&after)
		got = after.Mallocs - before.Mallocs
		if got == 0 {
			break
		}
		if try < 6 {
			runs *= 2 // a growing buffer grows again
		}
		runtime.Gosched()
	}
	if got != 0 {
		return fmt.Errorf("%d allocations while writing the same streamed content %d times, after warm-up: %s", got, runs, c.Root)
	}
	nodes := 0
	var walk func(n *Node)
	walk = func(n *Node) {
		nodes++
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(c.Root)
	st.nontrivial(nodes >= 3)
	if c.Conf.Indent {
		st.class("indented")
	}
	if c.DTD != nil {
		st.class("dtd")
	}
	return nil
}

func holdCheck(c *ProgCase, st *Stats) error {
	ref, cum, err := reference(c.Conf, c.Ops)
	if err != nil {
		return nil
	}
	s := &sink{}
	w := c.Conf.open(s)
	for i, o := range c.Ops {
		if o.exec(w) != nil {
			return nil
		}
		if held := cum[i] - len(s.b); held > c.Conf.Buf {
			return fmt.Errorf("after call %d, %d bytes are held back, the buffer size is %d\ncalls:\n%s", i, held, c.Conf.Buf, opsString(c.Ops))
		}
	}
	st.nontrivial(len(ref) > c.Conf.Buf)
	return nil
}

// liveCheck: the memory in use does not grow with the length of the document.
func liveCheck(c *AllocCase, st *Stats) error {
	cs := &countSink{}
	w := c.Conf.open(cs)
	var fail error
	if err := w.StartDoc(xw.Doc{}); err != nil {
		return nil
	}
	if err := w.StartElem(xw.Elem{Name: "root"}); err != nil {
		return nil
	}
	total := func() int64 {
		var m runtime.MemStats
		if c.NS { // bindings are garbage later, but not kept
			runtime.GC()
			runtime.ReadMemStats(&m)
			return int64(m.HeapAlloc)
		}
		runtime.ReadMemStats(&m)
		return int64(m.TotalAlloc)
	}
	if c.Distinct {
		c.next = 0
		distinctNames()
	}
	for i := 0; i < 50; i++ {
		c.stream(w, c.Root, &fail)
	}
	a := total()
	n0 := cs.n
	for cs.n-n0 < 3<<20 {
		last := cs.n
		for i := 0; i < 20; i++ {
			c.stream(w, c.Root, &fail)
		}
		if cs.n == last && fail != nil {
			return nil
		}
		if fail != nil {
			return nil
		}
	}
	if grew := total() - a; grew > 256<<10 {
		return fmt.Errorf("%d bytes were allocated while streaming %d bytes of output: %s", grew, cs.n-n0, c.Root)
	}
	runtime.KeepAlive(w)
	if c.Distinct {
		st.class("distinct names")
	}
	if c.NS {
		st.class("namespaces")
	}
	st.nontrivial(true)
	return nil
}

func (g *G) allocCase() *AllocCase { return g.allocCaseNS(false) }

func (g *G) allocCaseNS(ns bool) *AllocCase {
	plain := func(g *G) string { return g.maybeLong(true) }
	sh := shape{ns: ns, dtd: true, next: g.chance(1, 4), maxNodes: 20, deep: 24, strs: plain}
	d := g.doc(sh)
	c := &AllocCase{Root: d.Root, DTD: d.DTD, NameEnds: g.bit(), ViaEnd: g.n(3), Decl: g.bit()}
	if !c.Decl {
		c.DTD = nil
	}
	var strip func(n *Node)
	strip = func(n *Node) {
		n.Prefix, n.URI = "", ""
		seen := map[Str]bool{}
		var as []*Node
		for _, a := range n.Attrs {
			a.Prefix, a.URI = "", ""
			if !seen[a.Name] {
				as = append(as, a)
			}
			seen[a.Name] = true
		}
		n.Attrs = as
		for _, k := range n.Kids {
			strip(k)
		}
	}
	if !ns {
		strip(c.Root)
	}
	c.NS = ns
	if g.chance(1, 3) {
		g.indentConf(&c.Conf)
	}
	if g.chance(1, 3) {
		c.Conf.Buf = g.bufSize()
	}
	if g.chance(1, 4) {
		c.Conf.NoEnforce = true
	}
	return c
}

func init() {
	checks["C08"] = &propCheck{
		rule: "accepted call sequences (lowered documents and random sequences) with drawn buffer sizes and flush placements; non-trivial: the buffer is smaller than the output or there is a flush inside; random sequences with rejected calls (verdicts and output must not depend on buffer or flushes; non-trivial: a rejected call and a flush inside)",
		subs: []sub{
			gsub[*BufCase]{id: "buffers", quick: 40000, deep: 2500000, gen: func(g *G) *BufCase {
				c := &BufCase{Prog: g.anyProg(true)}
				if g.chance(1, 4) {
					g.indentConf(&c.Prog.Conf)
				}
				if g.chance(7, 8) {
					c.Prog.Conf.Buf = g.bufSize()
				} else {
					c.Prog.Conf.Buf = pick(g, 0, -1, g.in(1, 300))
				}
				for i, n := 0, g.few(6); i < n; i++ {
					c.Flushes = append(c.Flushes, int(g.bits(6)))
				}
				return c
			}, check: bufCheck},
			gsub[*BufCase]{id: "rejections", quick: 20000, deep: 1000000, gen: func(g *G) *BufCase {
				c := &BufCase{Prog: g.prog(progStyle{max: 25, invalid: 4, fields: 10, ends: 4, ns: true, deep: 8, raw: true})}
				if g.chance(1, 2) {
					g.indentConf(&c.Prog.Conf)
				}
				if g.chance(1, 2) {
					c.Prog.Conf.Buf = g.bufSize()
				}
				for i, n := 0, g.in(1, 8); i < n; i++ {
					c.Flushes = append(c.Flushes, int(g.bits(6)))
				}
				return c
			}, check: bufRejected},
		},
	}
	checks["C09"] = &propCheck{
		rule:        "accepted call sequences, each run again with a fault at every byte offset of its output (at drawn offsets for long outputs) in five ways: partial write with error, error, short write, error once, full write with error; with 28 kinds of error in turn; inner_runs counts the faulty runs; non-trivial: the output is not empty",
		assumptions: []string{"a short write without an error, which io.Writer forbids, may also be made up for by delivering the rest from where it stopped", "with an encoder, short writes without an error are the encoding package's to report and are not injected"},
		subs: []sub{
			gsub[*FaultCase]{id: "faults", quick: 6000, deep: 200000, gen: func(g *G) *FaultCase {
				c := &FaultCase{Prog: g.anyProg(true), All: 300}
				if g.chance(1, 4) {
					g.indentConf(&c.Prog.Conf)
				}
				if g.chance(3, 4) {
					c.Prog.Conf.Buf = g.bufSize()
				}
				if g.chance(1, 5) {
					c.Enc = g.in(1, len(encs)-1)
				}
				for i, n := 0, g.few(4); i < n; i++ {
					c.Flushes = append(c.Flushes, int(g.bits(6)))
				}
				c.Err = g.n(len(faultErrs))
				for i := 0; i < 24; i++ {
					c.Offsets = append(c.Offsets, int(g.bits(17)))
				}
				return c
			}, check: faultCheck},
		},
	}
	checks["C13"] = &propCheck{
		rule:        "documents whose markup the encoding can represent, in 18 encodings, decoded with the codec's decoder, parsed, and compared with the expected items and with the UTF-8 output rune by rune; non-trivial: the UTF-8 output has a non-ASCII character",
		assumptions: []string{"the codecs of golang.org/x/text; runes an encoding does not round-trip itself are not used; stateful encodings are not used", "markup the encoding lacks is a recorded finding"},
		known: []knownFinding{{"unrepresentable markup", func() bool {
			var b bytes.Buffer
			w := xw.OpenEncoding(&b, "windows-1252", charmap.Windows1252.NewEncoder())
			err := w.Write(xw.Elem{Name: "\u4E00"})
			if err == nil {
				err = w.Flush()
			}
			return err == nil && strings.Contains(b.String(), "&#")
		}}},
		subs: []sub{
			gsub[*EncCase]{id: "encodings", quick: 24000, deep: 1000000, gen: (*G).encCase, check: encCheck},
		},
	}
	checks["C17"] = &propCheck{
		rule:        "accepted call sequences with raw strings written at drawn points, alone or joined with the following write; the output must be the raw-free output with the strings spliced in at the offsets reached so far; with the standard indenter each raw write must put out exactly its string; non-trivial: at least one raw string",
		assumptions: []string{"what is written after raw text is compared without an indenter only (one is told about raw text and may react to it)", "the raw-free calls are accepted"},
		subs: []sub{
			gsub[*RawCase]{id: "raw", quick: 50000, deep: 3000000, gen: (*G).rawCase, check: rawCheck},
			gsub[*RawCase]{id: "indented", quick: 30000, deep: 1000000, gen: func(g *G) *RawCase {
				c := g.rawCase()
				g.indentConf(&c.Prog.Conf)
				return c
			}, check: rawIndentCheck},
		},
	}
	checks["C18"] = &propCheck{
		rule:        "accepted call sequences repeated with enforcement off, non-strict, and both; and invalid nodes anywhere with enforcement off, which must be accepted; non-trivial: three or more calls, or something enforcement forbids",
		assumptions: []string{"ends that do not match, contradictory declarations (NDATA on a parameter entity, a value with #REQUIRED or #IMPLIED, an unknown default type), unsupported kinds in element content and conflicting namespace bindings are rejected either way; the property does not speak of them"},
		subs: []sub{
			gsub[*ProgCase]{id: "same", quick: 30000, deep: 2000000, gen: func(g *G) *ProgCase {
				c := g.anyProg(true)
				if g.chance(1, 3) {
					g.indentConf(&c.Conf)
				}
				return c
			}, check: enforceSame},
			gsub[*AnyCase]{id: "off", quick: 60000, deep: 3000000, gen: func(g *G) *AnyCase {
				c := &AnyCase{Typed: g.bit(), Start: g.bit(), Loose: g.bit(), Value: Str(g.str(true))}
				for i, n := 0, g.few(3); i < n; i++ {
					c.Chain = append(c.Chain, startKinds[g.n(len(startKinds))])
				}
				p := newProgGen(g)
				c.Node = p.node(allKinds[g.n(len(allKinds))])
				for i, n := 0, g.in(0, 3); i < n; i++ {
					p.spoil(c.Node)
				}
				return c
			}, check: offCheck},
		},
	}
	checks["C22"] = &propCheck{
		rule:        "one to four documents built as shared node values with spare slice capacity, each written by two writers, interleaved by a drawn schedule or concurrently; outputs compared with a lone writer's, values and spare capacity compared with fresh ones; a fixed tour of the whole API taken by several goroutines in a process that has not used the package before; two further shards run under the race detector; non-trivial: more than two writers",
		assumptions: []string{"each writer has its own indenter", "concurrent runs do not own the schedule"},
		raceShards:  true,
		subs: []sub{
			// first, while the process has not used the package yet
			gsub[*ColdCase]{id: "cold", quick: 160, deep: 8000, gen: func(g *G) *ColdCase { return &ColdCase{N: g.in(2, 6), Salt: g.bits(32)} }, check: coldCheck},
			gsub[*ShareCase]{id: "concurrent", quick: 6000, deep: 300000, gen: func(g *G) *ShareCase { return g.shareCase(true) }, check: shareCheck},
			gsub[*ShareCase]{id: "interleaved", quick: 16000, deep: 800000, gen: func(g *G) *ShareCase { return g.shareCase(false) }, check: shareCheck},
		},
	}
	checks["C24"] = &propCheck{
		rule:        "documents in drawn styles written with indenters that record events, write numbered marks, put brackets around wrapped content, or fail at a drawn event; non-trivial: two or more elements and three or more nodes, or an injected failure",
		assumptions: []string{"the indenter writes with WriteRaw and ignores the events this causes; a raw event for the data of a processing instruction is tolerated; content counted when it opens its parent may or may not be included in that event's count"},
		subs: []sub{
			gsub[*IndCase]{id: "indenters", quick: 40000, deep: 2000000, gen: func(g *G) *IndCase {
				txt := shortText
				c := &IndCase{Mode: g.n(4), At: int(g.bits(10))}
				c.Doc = g.doc(shape{ns: true, dtd: true, next: g.chance(1, 4), maxNodes: 20, deep: 20, strs: txt, comment: txt, cdata: txt, pi: txt})
				c.Styles = g.styles(g.in(0, 40))
				if g.chance(1, 4) {
					c.Conf.Buf = g.bufSize()
				}
				if g.chance(1, 4) {
					c.Conf.NoEnforce = true
				}
				return c
			}, check: indenterCheck},
			manySub(3000, 40000, false, shape{ns: true, dtd: true, strs: shortText, comment: shortText, cdata: shortText, pi: shortText}, nil, func(c *DocCase, st *Stats) error {
				return indenterCheck(&IndCase{Doc: c.Doc, Styles: c.Styles, Conf: c.Conf, Mode: len(c.Styles) % 4, At: len(c.Styles) * 7919}, st)
			}),
		},
	}
	checks["C29"] = &propCheck{
		rule:        "documents written repeatedly by one writer through the typed streaming calls: no heap allocation after two warm-up rounds (retried with doubled rounds, so that runtime noise passes and growth does not); bytes held back after each call compared with the buffer size; bytes allocated while streaming 3 MB, also with names and values that are all different, and bytes in use after that with namespaces; non-trivial: three or more nodes, or an output larger than the buffer",
		assumptions: []string{"no errors; with prefixes and URIs, garbage is not counted; the caller's own allocations are excluded by construction"},
		subs: []sub{
			gsub[*AllocCase]{id: "allocs", quick: 8000, deep: 300000, gen: (*G).allocCase, check: allocCheck},
			gsub[*AllocCase]{id: "long", quick: 160, deep: 4000, gen: func(g *G) *AllocCase {
				c := g.allocCaseNS(g.chance(1, 4))
				c.DTD = nil
				c.Distinct = g.bit()
				return c
			}, check: liveCheck},
			gsub[*ProgCase]{id: "held", quick: 24000, deep: 1000000, gen: func(g *G) *ProgCase {
				c := g.anyProg(true)
				c.Conf.Buf = pick(g, 16, 17, 31, 64, 100, 255, 512, 1000, 2048, 4096)
				if g.chance(1, 4) {
					g.indentConf(&c.Conf)
				}
				return c
			}, check: holdCheck},
		},
	}
}

func shortText(g *G) string { return pick(g, "", "a", "text", "x y", "é", "longer text", "0") }

func (g *G) shareCase(par bool) *ShareCase {
	c := &ShareCase{Par: par}
	for i, n := 0, g.in(1, 4); i < n; i++ {
		sh := shape{ns: true, dtd: true, maxNodes: 10, deep: 12, strs: func(g *G) string { return g.str(true) }}
		if g.chance(1, 3) {
			sh.name = (*G).orderName
		}
		c.Docs = append(c.Docs, g.doc(sh))
	}
	for i, n := 0, g.in(10, 60); i < n && !par; i++ {
		c.Sched = append(c.Sched, int(g.bits(4)))
	}
	for i := 0; i < 3; i++ {
		var k Conf
		if g.bit() {
			g.indentConf(&k)
		}
		if g.bit() {
			k.Buf = g.bufSize()
		}
		k.After = k.After || g.bit()
		if g.chance(1, 4) {
			k.NoEnforce = true
		}
		c.Conf = append(c.Conf, k)
	}
	return c
}

// orderName draws names that something might sort or treat apart.
func (g *G) orderName() string {
	return pick(g, "xmlnsx", "xmlns-a", "xmlnsB", "xml-a", "id", "ID", "name", "class", "href", "type", "a", "b", "c", "z", "A", "Z", "_", "é") + pick(g, "", "", "", "1", "2", "-")
}

var _ = utf8.RuneError
