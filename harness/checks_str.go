package main

// Checks on strings and single nodes: escaping, exported checks, declaration,
// DTD declarations, typed attributes, error collector, names.

import (
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
)

// --- C03

type StrCase struct {
	S    Str
	Buf  int  `json:",omitempty"`
	Loud bool `json:",omitempty"` // without enforcement
}

func escapeCheck(c *StrCase, st *Stats) error {
	s := string(c.S)
	conf := Conf{Buf: c.Buf, NoEnforce: c.Loud}
	want := representable(s)
	ops := []*Op{
		{Do: "start", N: []*Node{{K: "elem", Name: "r", Attrs: []*Node{{K: "attr", Name: "p", S: "1"}}}}},
		{Do: "write", Typed: true, N: []*Node{{K: "attr", Name: "v", S: c.S}}},
		{Do: "write", Typed: true, N: []*Node{{K: "attr", Name: "w", S: "2"}}},
		{Do: "write", Typed: true, N: []*Node{{K: "text", S: c.S}}},
		{Do: "write", N: []*Node{{K: "elem", Name: "m", Attrs: []*Node{{K: "attr", Name: "v", S: c.S}}}}},
		{Do: "write", N: []*Node{{K: "text", S: c.S}}},
		{Do: "end", Kind: "elem"},
	}
	out, err := accepted(conf, ops)
	if err != nil {
		return err
	}
	got, err := parseXML(out, 0)
	if err != nil {
		return fmt.Errorf("string %s: %v\noutput: %s", show(s), err, show(out))
	}
	exp := []Ev{{T: "start", Name: "r", A: []KV{{"p", "1"}, {"v", want}, {"w", "2"}}}}
	if want != "" {
		exp = append(exp, Ev{T: "text", S: want})
	}
	exp = append(exp, Ev{T: "start", Name: "m", A: []KV{{"v", want}}, Short: true}, Ev{T: "end", Name: "m"})
	if want != "" {
		exp = append(exp, Ev{T: "text", S: want})
	}
	exp = append(exp, Ev{T: "end", Name: "r"})
	if d := diffEvents(exp, got); d != "" {
		return fmt.Errorf("string %s does not survive: %s\noutput: %s", show(s), d, show(out))
	}
	if strings.ContainsAny(s, "<>&\"'\r\n\t") {
		st.class("needs escaping")
	}
	if want != s {
		st.class("needs replacement")
	}
	if len(s) > 2000 {
		st.class("long")
	}
	st.nontrivial(strings.ContainsAny(s, "<>&\"'\r\n\t") || want != s || len(s) > 2000)
	return nil
}

// every code point (and surrogate and out-of-range encodings) in three positions, 64 per case
func runeBlock(i int) []string {
	var out []string
	for r := i * 64; r < (i+1)*64; r++ {
		var s string
		if r >= 0xD800 && r < 0xE000 {
			s = string([]byte{0xE0 | byte(r>>12), 0x80 | byte(r>>6&0x3F), 0x80 | byte(r&0x3F)})
		} else {
			s = string(rune(r))
		}
		out = append(out, s)
	}
	return out
}

var alphabet = []string{"a", "<", ">", "&", "\"", "'", "]", "\r", "\n", "\t", " ", "\x01", "\xff", "é", "\uFFFE", "-", "!", "👍", "\xe2\x82", "{", "|", "}", "\\", "\x7f"}

func shortStrings(i int) string {
	n := len(alphabet)
	if i < n {
		return alphabet[i]
	}
	i -= n
	if i < n*n {
		return alphabet[i/n] + alphabet[i%n]
	}
	i -= n * n
	return alphabet[i/n/n] + alphabet[i/n%n] + alphabet[i%n]
}

// --- C21

type CheckCase struct{ S Str }

func wantPub(s string) bool {
	for _, r := range s {
		if !isPubidChar(r) {
			return false
		}
	}
	return true
}

func wantChars(s string, strict bool) bool {
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && w == 1 || !isChar(r) || strict && isDiscouraged(r) {
			return false
		}
		i += w
	}
	return true
}

func checksAgree(c *CheckCase, st *Stats) error {
	s := string(c.S)
	bad := func(name string, want bool, err error) error {
		if (err == nil) != want {
			return fmt.Errorf("%s(%s): want valid=%v, got error %v", name, show(s), want, err)
		}
		return nil
	}
	if isFindingName(s) {
		st.class("excluded: recorded finding about names")
	} else if err := bad("CheckName", s == "" || isXMLName(s), xw.CheckName(s)); err != nil {
		return err
	}
	if err := bad("CheckChars", wantChars(s, false), xw.CheckChars(s, false)); err != nil {
		return err
	}
	if err := bad("CheckChars strict", wantChars(s, true), xw.CheckChars(s, true)); err != nil {
		return err
	}
	if err := bad("CheckPubID", wantPub(s), xw.CheckPubID(s)); err != nil {
		return err
	}
	if err := bad("CheckEncoding", s == "" || isEncName(s), xw.CheckEncoding(s)); err != nil {
		return err
	}
	st.nontrivial(len(s) > 1)
	if isXMLName(s) {
		st.class("name")
	}
	if wantPub(s) {
		st.class("public identifier")
	}
	if isEncName(s) {
		st.class("encoding name")
	}
	return nil
}

// --- C14

type DeclCase struct {
	Decl    *Node
	Conf    Conf
	Encoded Str // the encoding the writer was opened with
	Body    bool
	Prev    []*Node `json:",omitempty"` // declarations of documents written before, with the same writer
}

func parseDecl(out string) (attrs []KV, rest string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(perr); ok {
				err = fmt.Errorf("malformed declaration: %s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	p := &parser{s: out}
	p.expect("<?xml")
	p.needWS()
	for !p.has("?>") {
		n := p.name()
		p.expect("=")
		attrs = append(attrs, KV{n, p.attValue()})
		if !p.ws() && !p.has("?>") {
			p.fail("expected whitespace")
		}
	}
	p.expect("?>")
	return attrs, out[p.i:], nil
}

func declCheck(c *DeclCase, st *Stats) error {
	s := &sink{}
	var w *xw.Writer
	conf := c.Conf
	if c.Encoded == "UTF-8" {
		w = conf.open(s)
	} else {
		w = conf.openEnc(s, string(c.Encoded), nopEncoder())
	}
	for _, d := range c.Prev {
		if r := runOn(w, s, []*Op{{Do: "start", N: []*Node{d}}, {Do: "enddoc"}}, true); r.err() != nil {
			return fmt.Errorf("valid document before the last: %v", r.err())
		}
	}
	s.b = s.b[:0]
	ops := []*Op{{Do: "start", Typed: c.Body, N: []*Node{c.Decl}}}
	if c.Body {
		ops = append(ops, &Op{Do: "write", N: []*Node{{K: "elem", Name: "r"}}})
	}
	ops = append(ops, &Op{Do: "enddoc"})
	r := runOn(w, s, ops, true)
	enc := string(c.Encoded)
	if c.Decl.Enc != nil {
		enc = string(*c.Decl.Enc)
	}
	if c.Decl.NoEnc {
		enc = ""
	}
	if !conf.NoEnforce && enc != "" && !isEncName(enc) {
		st.class("bad encoding name")
		if r.first < 0 {
			return fmt.Errorf("encoding name %q was accepted: %s", enc, show(r.out))
		}
		st.nontrivial(true)
		return nil
	}
	if e := r.err(); e != nil {
		return fmt.Errorf("valid declaration rejected: %v\ncalls:\n%s", e, opsString(ops))
	}
	got, rest, err := parseDecl(r.out)
	if err != nil {
		return fmt.Errorf("%v\noutput: %s", err, show(r.out))
	}
	x := &expect{conf: conf, enc: string(c.Encoded)}
	x.decl(c.Decl)
	want := x.evs[0].A
	for i := range want {
		want[i].V = representable(want[i].V)
	}
	if fmt.Sprint(want) != fmt.Sprint(got) || len(want) != len(got) {
		return fmt.Errorf("declaration: want %q, got %q\noutput: %s", want, got, show(r.out))
	}
	wr := conf.nl()
	if c.Body {
		wr += "<r/>"
	}
	if conf.Indent {
		wr += conf.nl()
	}
	if rest != wr {
		return fmt.Errorf("after the declaration: want %q, got %q", wr, rest)
	}
	st.class("%d parts", len(want))
	st.nontrivial(true)
	return nil
}

// --- C15

type DTDCase struct {
	Top    []*Node // a dtd node, or bare declarations at the top level
	Styles []int
	Conf   Conf
}

func dtdCheck(c *DTDCase, st *Stats) error {
	l := &lower{styles: c.Styles}
	for _, n := range c.Top {
		l.noEnd = true
		l.node(n, false)
	}
	ops := l.merge(l.ops)
	out, err := accepted(c.Conf, ops)
	if err != nil {
		return err
	}
	evs, err := parseXML(out, 1)
	if err != nil {
		return fmt.Errorf("%v%s", err, ctxOf(ops, out))
	}
	x := &expect{conf: c.Conf}
	decls := 0
	for _, n := range c.Top {
		x.node(n)
		decls += 1 + len(n.Kids)
		st.class("top: %s", n.K)
		for _, k := range n.Kids {
			st.class("in dtd: %s", k.K)
		}
	}
	var got []Ev
	for _, e := range evs {
		if e.T == "text" && blank(e.S) && c.Conf.Indent {
			continue
		}
		got = append(got, e)
	}
	if d := diffEvents(x.evs, got); d != "" {
		return fmt.Errorf("declarations read back differently: %s%s", d, ctxOf(ops, out))
	}
	st.nontrivial(decls >= 2)
	return nil
}

// every combination of declaration fields
var dtdIDs = []struct{ pub, sys Str }{{"", ""}, {"", "s"}, {"", `a"b`}, {"", "it's"}, {"-//p//EN", "s"}, {"p'q", `a"b`}, {"p", "it's"}}

func dtdCombos() []*Node {
	var out []*Node
	for _, id := range dtdIDs {
		out = append(out, &Node{K: "dtd", Name: "d", Pub: id.pub, Sys: id.sys})
		for _, pe := range []bool{false, true} {
			for _, nd := range []Str{"", "nd"} {
				if nd != "" && (pe || id.sys == "") {
					continue
				}
				for _, v := range []Str{"", "v", `say "x"`, "it's", "&#62;<a>"} {
					if v != "" && id.sys != "" {
						continue
					}
					out = append(out, &Node{K: "entity", Name: "e", PE: pe, Pub: id.pub, Sys: id.sys, NDat: nd, S: v})
				}
			}
		}
		if id.sys != "" {
			out = append(out, &Node{K: "notation", Name: "n", Pub: id.pub, Sys: id.sys})
			if id.pub != "" {
				out = append(out, &Node{K: "notation", Name: "n", Pub: id.pub})
			}
		}
	}
	for _, t := range []Str{"CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(a|b)", "NOTATION (x)"} {
		for def := 0; def < 5; def++ {
			for _, v := range []Str{"", "v", `a"b'c<d>&e`, "\t\n\r", "\x00"} {
				if v != "" && (def == 2 || def == 3) {
					continue
				}
				out = append(out, &Node{K: "attlist", Name: "l", Attrs: []*Node{{K: "dtdattr", Name: "a", Type: t, Def: def, S: v}, {K: "dtdattr", Name: "b", Type: "CDATA"}}})
			}
		}
	}
	for _, m := range []Str{"EMPTY", "ANY", "(#PCDATA)", "(#PCDATA|a)*", "(a,b?,(c|d)*)+"} {
		out = append(out, &Node{K: "dtdelem", Name: "m", S: m})
	}
	return out
}

// --- C19

type AttrCase struct {
	Type string
	Bits uint64
	Node *Node
}

var attrTypes = []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}

func plainDecimal(s string) bool {
	if strings.HasPrefix(s, "-") {
		s = s[1:]
	}
	if s == "" || len(s) > 1 && s[0] == '0' {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func attrCheck(c *AttrCase, st *Stats) error {
	a := attrVal(c.Node)
	var b xw.Attr
	var same func(s string) bool
	signed := func(bits int, v int64) func(string) bool {
		return func(s string) bool {
			g, err := strconv.ParseInt(s, 10, bits)
			return err == nil && g == v && plainDecimal(s)
		}
	}
	unsigned := func(bits int, v uint64) func(string) bool {
		return func(s string) bool {
			g, err := strconv.ParseUint(s, 10, bits)
			return err == nil && g == v && plainDecimal(s)
		}
	}
	x := c.Bits
	switch c.Type {
	case "bool":
		v := x&1 == 1
		b = a.Bool(v)
		same = func(s string) bool { return s == "true" && v || s == "false" && !v }
	case "int":
		b, same = a.Int(int(x)), signed(64, int64(x))
	case "int8":
		b, same = a.Int8(int8(x)), signed(8, int64(int8(x)))
	case "int16":
		b, same = a.Int16(int16(x)), signed(16, int64(int16(x)))
	case "int32":
		b, same = a.Int32(int32(x)), signed(32, int64(int32(x)))
	case "int64":
		b, same = a.Int64(int64(x)), signed(64, int64(x))
	case "uint": // takes an int; only non-negative values are unsigned integers
		x &= 1<<63 - 1
		b, same = a.Uint(int(x)), unsigned(64, x)
	case "uint8":
		b, same = a.Uint8(uint8(x)), unsigned(8, uint64(uint8(x)))
	case "uint16":
		b, same = a.Uint16(uint16(x)), unsigned(16, uint64(uint16(x)))
	case "uint32":
		b, same = a.Uint32(uint32(x)), unsigned(32, uint64(uint32(x)))
	case "uint64":
		b, same = a.Uint64(x), unsigned(64, x)
	case "float32":
		v := math.Float32frombits(uint32(x))
		b = a.Float32(v)
		same = func(s string) bool {
			g, err := strconv.ParseFloat(s, 32)
			if v != v {
				return err == nil && g != g
			}
			return err == nil && math.Float32bits(float32(g)) == math.Float32bits(v)
		}
	case "float64":
		v := math.Float64frombits(x)
		b = a.Float64(v)
		same = func(s string) bool {
			g, err := strconv.ParseFloat(s, 64)
			if v != v {
				return err == nil && g != g
			}
			return err == nil && math.Float64bits(g) == math.Float64bits(v)
		}
	}
	if b.Name != a.Name || b.Prefix != a.Prefix || b.URI != a.URI {
		return fmt.Errorf("%s changed the attribute: %+v to %+v", c.Type, a, b)
	}
	if !same(b.Value) {
		return fmt.Errorf("%s of bits %#x gives %q, which does not read back as that value", c.Type, c.Bits, b.Value)
	}
	s := &sink{}
	w := xw.Open(s)
	if err := w.Start(xw.Elem{Name: "e"}); err != nil {
		return err
	}
	if err := w.WriteAttr(b); err != nil {
		return fmt.Errorf("writing %+v: %v", b, err)
	}
	if err := w.EndAllFlush(); err != nil {
		return err
	}
	evs, err := parseXML(string(s.b), 0)
	if err != nil || len(evs) != 2 || len(evs[0].A) != 1 || evs[0].A[0].K != c.Node.fullName() || !same(evs[0].A[0].V) {
		return fmt.Errorf("%s of bits %#x is written as %s: %v", c.Type, c.Bits, show(string(s.b)), err)
	}
	st.class("%s", c.Type)
	st.nontrivial(true)
	return nil
}

var interesting = []uint64{0, 1, 2, 7, 9, 10, 99, 100, 127, 128, 129, 255, 256, 999, 1000, 32767, 32768, 65535, 65536, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<53 + 1,
	0x7F800000, 0xFF800000, 0x7FC00000, 0x00000001, 0x80000000, 0x7F7FFFFF, 0x3F800000, 0x3DCCCCCD, 0x4B800001,
	0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000001, 0x8000000000000000, 0x7FEFFFFFFFFFFFFF, 0x3FF0000000000000, 0x3FB999999999999A, 0x4340000000000001, 0x0010000000000000, 0x444B1AE4D6E2EF50,
	0x4415AF1D78B58C40, 0x3EB0C6F7A0B5ED8D, 0x3F1A36E2EB1C432D}

// --- C20

type EcOp struct {
	Do   string // do must set panic
	Errs []int  `json:",omitempty"` // 0 nil, else error number
	Pad  int    `json:",omitempty"` // nil errors before them
}

type EcCase struct{ Ops []EcOp }

type numErr struct{ n int }

func (e *numErr) Error() string {
	if e == nil {
		return "error from a nil pointer"
	}
	return fmt.Sprintf("error no. %d", e.n)
}

type valErr struct{ n int }

func (e valErr) Error() string { return fmt.Sprintf("value error %d", e.n) }

// listErr values cannot be compared.
type listErr []string

func (e listErr) Error() string { return strings.Join(e, "; ") }

// ecErr gives error number n: of all sorts, none of which is "no error".
func ecErr(n int) error {
	switch n % 13 {
	case 1:
		return valErr{n}
	case 2:
		return (*numErr)(nil)
	case 3:
		return io.EOF
	case 4:
		return &xw.ErrCollector{File: "other.go", Line: 12345, Index: 77, Err: &numErr{n}}
	case 5:
		return fmt.Errorf("wrapped: %w", io.EOF)
	case 6:
		return listErr{"a", strconv.Itoa(n)}
	case 7:
		return errors.New("")
	case 8:
		return &xw.ErrCollector{}
	case 9:
		return errors.Join(io.EOF, &numErr{n})
	case 10:
		return listErr(nil)
	case 11:
		return errors.New("100%d %s #3 %!")
	}
	return &numErr{n}
}

// sameErr compares errors of which some cannot be compared.
func sameErr(a, b error) bool {
	if a == nil || b == nil || reflect.TypeOf(a) != reflect.TypeOf(b) {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

// exposes: the error wraps exactly held.
func exposes(err, held error) bool {
	for ; err != nil; err = errors.Unwrap(err) {
		if sameErr(err, held) {
			return true
		}
	}
	return false
}

// ecAt calls Do or Must from one of several lines and reports which.
func ecAt(ec *xw.ErrCollector, must bool, where int, errs []error) (file string, line int, pan interface{}) {
	defer func() { pan = recover() }()
	switch {
	case where == 0 && !must:
		_, file, line, _ = runtime.Caller(0); ec.Do(errs...)
	case where == 1 && !must:
		_, file, line, _ = runtime.Caller(0); ec.Do(errs...)
	case !must:
		_, file, line, _ = runtime.Caller(0); ec.Do(errs...)
	case where == 0:
		_, file, line, _ = runtime.Caller(0); ec.Must(errs...)
	default:
		_, file, line, _ = runtime.Caller(0); ec.Must(errs...)
	}
	return
}

func ecCheck(c *EcCase, st *Stats) error {
	ec := &xw.ErrCollector{}
	var held error
	var file string
	var line, index int
	same := func() error {
		if !sameErr(ec.Err, held) || held != nil && (ec.Index != index || ec.File != file || ec.Line != line) {
			return fmt.Errorf("collector holds %v at %s:%d #%d, want %v at %s:%d #%d", ec.Err, ec.File, ec.Line, ec.Index, held, file, line, index)
		}
		if held == nil && (ec.Index != 0 || ec.File != "" || ec.Line != 0) {
			return fmt.Errorf("collector without an error has a position: %s:%d #%d", ec.File, ec.Line, ec.Index)
		}
		return nil
	}
	late := 0
	for i, o := range c.Ops {
		switch o.Do {
		case "do", "must":
			var errs []error
			first := -1
			errs = make([]error, o.Pad)
			for k, n := range o.Errs {
				if n == 0 {
					errs = append(errs, nil)
					continue
				}
				errs = append(errs, ecErr(n))
				if first < 0 {
					first = o.Pad + k
				}
			}
			f, l, pan := ecAt(ec, o.Do == "must", i%3, errs)
			if o.Do == "must" && held != nil {
				// the collect-or-panic form after an error: it panics when it is
				// given one; what it then holds is not specified
				if (pan != nil) != (first >= 0) {
					return fmt.Errorf("op %d: Must panicked=%v with errors %v", i, pan != nil, o.Errs)
				}
				if first >= 0 {
					pe, ok := pan.(error)
					if !ok || !exposes(pe, held) && !exposes(pe, errs[first]) {
						return fmt.Errorf("op %d: Must panicked with %v, want %v (or the error it held, %v)", i, pan, errs[first], held)
					}
					if sameErr(ec.Err, errs[first]) {
						held, index, file, line = errs[first], first+1, f, l
						if ec.File != file || ec.Line != line || ec.Index != index {
							return nil // the same error again
						}
					}
				}
				if err := same(); err != nil {
					return fmt.Errorf("after op %d (%s %v): %v", i, o.Do, o.Errs, err)
				}
				continue
			}
			if first >= 0 && held != nil {
				late++
			}
			if first >= 0 && held == nil {
				held, index, file, line = errs[first], first+1, f, l
			}
			if o.Do == "must" {
				if (pan != nil) != (first >= 0) {
					return fmt.Errorf("op %d: Must panicked=%v with errors %v", i, pan != nil, o.Errs)
				}
				if pan != nil {
					if pe, ok := pan.(error); !ok || !exposes(pe, held) {
						return fmt.Errorf("op %d: Must panicked with %v, want the first error %v", i, pan, held)
					}
				}
			} else if pan != nil {
				return fmt.Errorf("op %d: Do panicked: %v", i, pan)
			}
		case "set":
			var err error
			if i%2 == 0 {
				err = &numErr{-1}
			}
			prev := err
			ec.Set(&err)
			if held == nil && err != prev {
				return fmt.Errorf("op %d: Set without an error changed the variable to %v", i, err)
			}
			if held != nil && (!exposes(err, held) || !sameErr(errors.Unwrap(err), held)) {
				return fmt.Errorf("op %d: Set gave %v, want %v", i, err, held)
			}
			if held != nil {
				for _, part := range []string{held.Error(), file + ":" + strconv.Itoa(line), "#" + strconv.Itoa(index)} {
					if !strings.Contains(err.Error(), part) {
						return fmt.Errorf("op %d: the message %q does not contain %q", i, err.Error(), part)
					}
				}
				if _, ok := held.(*numErr); ok {
					var ne *numErr
					if !errors.As(err, &ne) || ne != held {
						return fmt.Errorf("op %d: errors.As found %v", i, ne)
					}
				}
			}
		case "panic":
			pan := func() (p interface{}) {
				defer func() { p = recover() }()
				ec.Panic()
				return
			}()
			if (pan != nil) != (held != nil) {
				return fmt.Errorf("op %d: Panic panicked=%v while holding %v", i, pan != nil, held)
			}
			if pan != nil {
				if pe, ok := pan.(error); !ok || !exposes(pe, held) {
					return fmt.Errorf("op %d: Panic panicked with %v, want %v", i, pan, held)
				}
			}
		}
		if err := same(); err != nil {
			return fmt.Errorf("after op %d (%s %v): %v", i, o.Do, o.Errs, err)
		}
	}
	if held != nil {
		st.class("holds an error")
	}
	if late > 0 {
		st.class("later errors ignored")
	}
	st.nontrivial(held != nil && len(c.Ops) > 1)
	return nil
}

// --- C30

type KindCase struct{ V int64 }

// ManyDTDCase is a document type with a repetition.
type ManyDTDCase struct {
	DTDCase
	M Many
}

var kindNames = map[xw.NodeKind]string{
	xw.NoNode: "none", xw.AttrNode: "attr", xw.CDataNode: "cdata", xw.CDataContentNode: "cdatacontent", xw.CommentNode: "comment", xw.CommentContentNode: "commentcontent",
	xw.DTDNode: "dtd", xw.DTDAttListNode: "dtdattlist", xw.DTDAttrNode: "dtdattr", xw.DTDElemNode: "dtdelem", xw.DTDEntityNode: "dtdentity", xw.DocNode: "document",
	xw.ElemNode: "elem", xw.NotationNode: "notation", xw.PINode: "pi", xw.RawNode: "raw", xw.TextNode: "text",
}


func kindCheck(c *KindCase, st *Stats) error {
	k := xw.NodeKind(c.V)
	if int64(k) != c.V {
		return nil
	}
	name, str := k.Name(), k.String()
	want, valid := kindNames[k]
	switch {
	case name != want:
		return fmt.Errorf("kind %d is named %q, want %q", k, name, want)
	case valid && !strings.Contains(str, name):
		return fmt.Errorf("kind %d is named %q but prints as %q", k, name, str)
	case !valid && !strings.Contains(strings.ToLower(str), "unknown"):
		return fmt.Errorf("%d is not a kind but prints as %q", k, str)
	}
	if valid {
		st.class("valid kind")
	}
	st.nontrivial(true)
	return nil
}

// NestCase: child under parent, or an end of the wrong kind.
type NestCase struct {
	Parent, Child string
	End           bool
}

func sampleNode(k string) *Node {
	n := &Node{K: k, Name: "n", S: "x"}
	switch k {
	case "doc":
		return &Node{K: k}
	case "elem", "dtd", "attlist":
		n.S = ""
	case "dtdelem":
		n.S = "EMPTY"
	case "notation":
		n.S, n.Sys = "", "s"
	case "dtdattr":
		n.Type, n.Def = "CDATA", 1
	}
	return n
}

// parentsOf is the documented set of parents of each kind; "" is the top level.
var parentsOf = map[string][]string{
	"doc": {""}, "comment": {"", "doc", "dtd", "elem"}, "cdata": {"", "elem"}, "dtd": {"", "doc"}, "attlist": {"", "dtd"}, "elem": {"", "doc", "elem"},
	"text": {"", "elem"}, "ccontent": {"", "comment"}, "dcontent": {"", "cdata"}, "pi": {"", "doc", "elem"}, "attr": {"", "elem"}, "dtdelem": {"", "dtd"},
	"entity": {"", "dtd"}, "dtdattr": {"", "attlist"}, "notation": {"", "dtd"}, "raw": {"", "doc", "dtd", "elem", "comment", "cdata", "attlist"},
}

func mayContain(parent, child string) bool {
	for _, p := range parentsOf[child] {
		if p == parent {
			return true
		}
	}
	return false
}

var startKinds = []string{"doc", "dtd", "attlist", "elem", "comment", "cdata"}
var allKinds = []string{"doc", "dtd", "attlist", "elem", "comment", "cdata", "text", "ccontent", "dcontent", "pi", "attr", "dtdelem", "entity", "dtdattr", "notation", "raw"}

func messageCheck(c *NestCase, st *Stats) error {
	w := xw.Open(io.Discard)
	if c.Parent != "" {
		if err := w.Start(startable(sampleNode(c.Parent))); err != nil {
			return fmt.Errorf("starting %s: %v", c.Parent, err)
		}
	}
	pn := kindOf[c.Parent].Name()
	if c.End {
		err := w.End(kindOf[c.Child])
		if (err == nil) != (c.Parent == c.Child) {
			return fmt.Errorf("ending a %s as %s: %v", c.Parent, c.Child, err)
		}
		if err != nil && c.Parent != "" {
			for _, s := range []string{pn, kindOf[c.Child].Name()} {
				if !strings.Contains(err.Error(), s) {
					return fmt.Errorf("ending a %s as %s: the message %q does not name %q", c.Parent, c.Child, err, s)
				}
			}
		}
		st.nontrivial(err != nil)
		return nil
	}
	if c.Child == "raw" || mayContain(c.Parent, c.Child) {
		return nil
	}
	n := sampleNode(c.Child)
	var err error
	switch c.Child {
	case "doc", "dtd":
		err = w.Start(startable(n))
	default:
		err = w.Write(writable(n))
	}
	if err == nil {
		return fmt.Errorf("%s inside %s was accepted", c.Child, c.Parent)
	}
	want := []string{pn}
	for _, p := range parentsOf[c.Child] {
		if p != "" {
			want = append(want, kindOf[p].Name())
		}
	}
	for _, s := range want {
		if !strings.Contains(err.Error(), s) {
			return fmt.Errorf("%s inside %s: the message %q does not name %q", c.Child, c.Parent, err, s)
		}
	}
	st.nontrivial(true)
	return nil
}

func init() {
	nb := 0x110000 / 64
	na := len(alphabet)
	checks["C03"] = &propCheck{
		rule:        "every code point in three positions, every string of up to three items of a 24-item alphabet, and random strings; each written as two attributes and two texts; non-trivial: something needs escaping or replacing, or the string is longer than 2000 bytes",
		assumptions: []string{"XML 1.0 end-of-line and attribute-value normalisation as implemented by the strict parser"},
		subs: []sub{
			esub[*StrCase]{id: "runes", count: func(bool) int { return nb }, at: func(i int) *StrCase {
				var b strings.Builder
				for _, s := range runeBlock(i) {
					b.WriteString(s + "a" + s + s + "\"" + s)
				}
				return &StrCase{S: Str(b.String())}
			}, check: escapeCheck},
			esub[*StrCase]{id: "short", count: func(bool) int { return na + na*na + na*na*na }, at: func(i int) *StrCase { return &StrCase{S: Str(shortStrings(i))} }, check: escapeCheck},
			gsub[*StrCase]{id: "random", quick: 120000, deep: 8000000, gen: func(g *G) *StrCase {
				c := &StrCase{S: Str(g.maybeLong(true)), Loud: g.chance(1, 8)}
				if g.chance(1, 3) {
					c.Buf = g.bufSize()
				}
				return c
			}, check: escapeCheck},
			gsub[*StrCase]{id: "long", quick: 2000, deep: 100000, gen: func(g *G) *StrCase { return &StrCase{S: Str(g.long(true)), Buf: g.bufSize()} }, check: escapeCheck},
		},
	}
	checks["C21"] = &propCheck{
		rule:        "every code point alone, first and later in a string, and invalid UTF-8, against the XML productions; random names, literals and strings; long strings with one odd character near a drawn or boundary position; non-trivial: two or more bytes",
		assumptions: []string{"names with characters outside the basic multilingual plane or U+FFFD are a recorded finding and are not compared"},
		subs: []sub{
			esub[*CheckCase]{id: "first", count: func(bool) int { return 0x110000 }, at: func(i int) *CheckCase { return &CheckCase{Str(encodeAny(i))} }, check: checksAgree},
			esub[*CheckCase]{id: "later", count: func(bool) int { return 0x110000 }, at: func(i int) *CheckCase { return &CheckCase{Str("a" + encodeAny(i) + "b")} }, check: checksAgree},
			esub[*CheckCase]{id: "before", count: func(bool) int { return 0x110000 }, at: func(i int) *CheckCase { return &CheckCase{Str("é" + encodeAny(i))} }, check: checksAgree},
			gsub[*CheckCase]{id: "random", quick: 100000, deep: 8000000, gen: func(g *G) *CheckCase {
				switch g.n(6) {
				case 0:
					return &CheckCase{Str(g.ncname())}
				case 1:
					return &CheckCase{Str(g.badName())}
				case 2:
					return &CheckCase{Str(g.pubID() + pick(g, "", "", "\t", "é", "\"", "<", "&", "\u0130", "~"))}
				case 3:
					return &CheckCase{Str(pick(g, "UTF-8", "utf-16be", "ISO-8859-1", "a", "x.y_z", "Shift_JIS") + pick(g, "", "", " ", "é", ":", "+", "\n", "9", "\u212A"))}
				}
				return &CheckCase{Str(g.str(true))}
			}, check: checksAgree},
			gsub[*CheckCase]{id: "long", quick: 20000, deep: 1000000, gen: func(g *G) *CheckCase {
				n := g.in(0, 40)
				switch g.n(4) {
				case 0:
					n = g.in(0, 700)
				case 1:
					n = pick(g, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096) + g.in(-9, 9)
				}
				unit := pick(g, "a", "A", "x1-", "é", "日", "a.b_c", "0", "ab\u4E00", "a é", "+", "Z", "a\n", "'")
				b := strings.Repeat(unit, n/len(unit)+1)
				at := 0
				switch g.n(3) {
				case 0:
					at = len(b)
				case 1:
					at = len(b) - g.in(0, 17)
				case 2:
					at = g.in(0, len(b))
				}
				if at < 0 {
					at = 0
				}
				for at > 0 && at < len(b) && !utf8.RuneStart(b[at]) {
					at--
				}
				bad := pick(g, "", "\x00", "\x01", "\x08", "\x0B", "\x1F", "\x7F", "\x80", "\xff", "\u0085", "\u009F", "\uFDD0", "\uFFFE", "\uFFFF", " ", "\t", "é", "<", "\"", "&", ":", "-", "\u00D7", "\u2028", "\U0001FFFE", "\xC3", "\xE2\x82", "\r")
				return &CheckCase{Str(b[:at] + bad + b[at:])}
			}, check: checksAgree},
		},
		known: []knownFinding{
			{"CheckName beyond the BMP", func() bool { return xw.CheckName("\U00010000a") != nil }},
			{"CheckName U+FFFD", func() bool { return xw.CheckName("a\uFFFD") != nil }},
		},
	}
	vers := []*Str{nil, sp("1.0"), sp("1.1"), sp("x\"<&>'"), sp("")}
	wver := []Str{"", "1.1"}
	encs := []*Str{nil, sp("ISO-8859-1"), sp("x"), sp(""), sp("1bad"), sp("b d"), sp("é")}
	oenc := []Str{"UTF-8", "utf-16be", "", "bad name"}
	stas := []*bool{nil, bp(true), bp(false)}
	nls := []*Str{nil, sp("\r\n"), sp("")}
	total := 2 * 2 * len(vers) * len(wver) * len(encs) * len(oenc) * len(stas) * len(nls) * 2 * 2 * 2 * 2
	checks["C14"] = &propCheck{
		rule:        "every combination of declaration options from a finite grid (suppressions, forced and writer version, forced and opened encoding, standalone, newline, body, indenting, enforcement), and random version, encoding and newline strings; all cases are non-trivial",
		assumptions: []string{"an empty forced encoding is an unset part"},
		subs: []sub{
			esub[*DeclCase]{id: "grid", count: func(bool) int { return total }, at: func(i int) *DeclCase {
				take := func(n int) int { k := i % n; i /= n; return k }
				c := &DeclCase{Decl: &Node{K: "doc"}}
				c.Decl.NoVer = take(2) == 1
				c.Decl.NoEnc = take(2) == 1
				c.Decl.Ver = vers[take(len(vers))]
				c.Conf.Version = wver[take(len(wver))]
				c.Decl.Enc = encs[take(len(encs))]
				c.Encoded = oenc[take(len(oenc))]
				c.Decl.Sta = stas[take(len(stas))]
				c.Conf.NL = nls[take(len(nls))]
				c.Body = take(2) == 1
				c.Decl.Full = take(2) == 1
				c.Conf.Indent = take(2) == 1
				c.Conf.NoEnforce = take(2) == 1
				return c
			}, check: declCheck},
			gsub[*DeclCase]{id: "random", quick: 20000, deep: 1000000, gen: func(g *G) *DeclCase {
				c := &DeclCase{Decl: g.declNode(), Body: g.bit(), Encoded: "UTF-8"}
				if g.bit() {
					c.Decl.Ver = sp(g.str(true))
				}
				c.Decl.NoVer = g.chance(1, 5)
				if g.bit() {
					c.Conf.Version = Str(g.str(true))
				}
				if g.bit() {
					c.Decl.Enc = sp(pick(g, "UTF-8", "a", "Z9", "a.b_c-d", "x:", "9", "a b", "", "é", "Big5\x00") + pick(g, "", "", "z", "\"", "0"))
				}
				if g.chance(1, 3) {
					c.Encoded = Str(pick(g, "utf-16", "latin1", "KOI8-R", "x", "no good", ""))
				}
				if g.chance(1, 3) {
					s := Str(g.str(false))
					c.Conf.NL = &s
				}
				c.Conf.Buf = pick(g, 0, 0, 1, 7)
				c.Conf.After = g.bit()
				c.Conf.Indent = g.chance(1, 5)
				for isEncName(string(c.Encoded)) && len(c.Prev) < 3 && g.chance(1, 3) {
					c.Prev = append(c.Prev, g.declNode())
				}
				return c
			}, check: declCheck},
		},
	}
	combos := dtdCombos()
	checks["C15"] = &propCheck{
		rule:        "every combination of declaration fields from a finite grid, alone and inside a document type, and random document types; non-trivial: two or more declarations",
		assumptions: []string{"content models, enumerated types and entity replacement text are the caller's and are generated valid"},
		subs: []sub{
			esub[*DTDCase]{id: "grid", count: func(bool) int { return len(combos) * 8 }, at: func(i int) *DTDCase {
				n := combos[i/8]
				c := &DTDCase{Styles: []int{i & 1, 1, i & 3, 1, 0, 1, 1, 1}}
				c.Conf.Indent = i&2 != 0
				if i&4 != 0 && n.K != "dtd" {
					c.Top = []*Node{{K: "dtd", Name: "d", Kids: []*Node{n, {K: "comment", Chunks: []Str{"c"}}, n}}}
				} else {
					c.Top = []*Node{n, n}
				}
				return c
			}, check: dtdCheck},
			gsub[*DTDCase]{id: "random", quick: 30000, deep: 1500000, gen: func(g *G) *DTDCase {
				d := &docgen{g: g, sh: shape{strs: func(g *G) string { return g.maybeLong(true) }, comment: (*G).commentText, name: (*G).ncname}}
				c := &DTDCase{Styles: g.styles(g.in(0, 20))}
				if g.chance(3, 4) {
					n := d.dtd()
					for i, k := 0, g.few(8); i < k; i++ {
						n.Kids = append(n.Kids, d.dtdKid())
					}
					c.Top = []*Node{n}
				} else {
					for i, k := 0, g.in(1, 5); i < k; i++ {
						c.Top = append(c.Top, d.dtdKid())
					}
				}
				if g.chance(1, 3) {
					g.indentConf(&c.Conf)
				}
				if g.chance(1, 4) {
					c.Conf.Buf = g.bufSize()
				}
				return c
			}, check: dtdCheck},
			gsub[*ManyDTDCase]{id: "many", quick: 100, deep: 5000, gen: func(g *G) *ManyDTDCase {
				d := &docgen{g: g, sh: shape{strs: func(g *G) string { return g.str(true) }, comment: (*G).commentText, name: (*G).ncname}}
				c := &ManyDTDCase{M: g.many(true, "dtd", "attlist")}
				c.Styles = g.styles(g.in(0, 20))
				c.Top = []*Node{d.dtd()}
				if g.chance(1, 3) {
					g.indentConf(&c.Conf)
				}
				return c
			}, check: func(c *ManyDTDCase, st *Stats) error {
				d := c.DTDCase
				d.Top = []*Node{c.M.apply(&Doc{DTD: c.Top[0], Root: &Node{K: "elem", Name: "r"}}).DTD}
				if err := dtdCheck(&d, st); err != nil {
					return fmt.Errorf("with %d %s: %v", c.M.N, c.M.What, err)
				}
				st.class("many %s", c.M.What)
				return nil
			}},
		},
	}
	checks["C19"] = &propCheck{
		rule:        "all 8 and 16 bit values, interesting values and random bit patterns for every attribute setter; the value and the written attribute must parse back to the same value; all cases are non-trivial",
		assumptions: []string{"Go's strconv parses numbers correctly", "the unsigned setter that takes an int is only given non-negative values"},
		subs: []sub{
			esub[*AttrCase]{id: "small", count: func(bool) int { return 2*256 + 2*65536 + 2 }, at: func(i int) *AttrCase {
				c := &AttrCase{Node: &Node{K: "attr", Name: "a"}}
				switch {
				case i < 2:
					c.Type, c.Bits = "bool", uint64(i)
				case i < 258:
					c.Type, c.Bits = "int8", uint64(i-2)
				case i < 514:
					c.Type, c.Bits = "uint8", uint64(i-258)
				case i < 514+65536:
					c.Type, c.Bits = "int16", uint64(i-514)
				default:
					c.Type, c.Bits = "uint16", uint64(i-514-65536)
				}
				return c
			}, check: attrCheck},
			esub[*AttrCase]{id: "interesting", count: func(bool) int { return len(interesting) * len(attrTypes) * 2 }, at: func(i int) *AttrCase {
				c := &AttrCase{Node: &Node{K: "attr", Name: "a", Prefix: "p", URI: "u"}, Type: attrTypes[i/2%len(attrTypes)], Bits: interesting[i/2/len(attrTypes)]}
				if i&1 == 1 {
					c.Bits = -c.Bits
				}
				return c
			}, check: attrCheck},
			gsub[*AttrCase]{id: "random", quick: 60000, deep: 4000000, gen: func(g *G) *AttrCase {
				n := &Node{K: "attr", Name: Str(g.ncname())}
				if g.chance(1, 4) {
					n.Prefix, n.URI = "p", "urn:u"
				}
				c := &AttrCase{Type: pick(g, attrTypes...), Node: n, Bits: g.bits(64)}
				switch g.n(4) {
				case 0:
					c.Bits >>= uint(g.n(64))
				case 1:
					c.Bits = interesting[g.n(len(interesting))] + g.bits(2) - 1
				case 2: // decimal-looking floats
					f := float64(int64(c.Bits>>40)) / math.Pow(10, float64(g.n(12)))
					if c.Type == "float32" {
						c.Bits = uint64(math.Float32bits(float32(f)))
					} else if c.Type == "float64" {
						c.Bits = math.Float64bits(f)
					}
				}
				return c
			}, check: attrCheck},
		},
	}
	checks["C20"] = &propCheck{
		rule:        "histories of Do, Must, Set and Panic with nil and non-nil errors of thirteen sorts (values, nil pointers, nested collectors, uncomparable ones, io.EOF), up to 300 per call, against a one-variable model; non-trivial: an error is held and the history has two or more calls",
		assumptions: []string{"what Must leaves behind when it is given an error after one was already held is not specified"},
		subs: []sub{
			gsub[*EcCase]{id: "histories", quick: 60000, deep: 3000000, gen: func(g *G) *EcCase {
				c := &EcCase{}
				for i, n := 0, g.in(1, 9); i < n; i++ {
					o := EcOp{Do: pick(g, "do", "do", "do", "must", "set", "panic")}
					if o.Do == "do" || o.Do == "must" {
						for k, m := 0, g.in(0, 5); k < m; k++ {
							e := 0
							if g.chance(1, 3) && !(o.Do == "must" && g.bit()) {
								e = i*10 + k + 1
							}
							o.Errs = append(o.Errs, e)
						}
					}
					if g.chance(1, 12) {
						o.Pad = g.in(1, 300)
					}
					c.Ops = append(c.Ops, o)
				}
				return c
			}, check: ecCheck},
		},
	}
	checks["C30"] = &propCheck{
		rule:        "every value of the kind type from -70000 to 70000 and extremes, and every rejected parent/child and end combination; non-trivial: all values, and rejected combinations",
		assumptions: []string{"the exported kind constants are the valid kinds; the names are those of the pinned commit, on which logs and error messages depend"},
		subs: []sub{
			esub[*KindCase]{id: "values", count: func(bool) int { return 140001 }, at: func(i int) *KindCase { return &KindCase{int64(i) - 70000} }, check: kindCheck},
			esub[*KindCase]{id: "extremes", count: func(bool) int { return 256 }, at: func(i int) *KindCase { return &KindCase{int64(uint64(1)<<(i/4))*int64(1-i&2) + int64(i&1)} }, check: kindCheck},
			esub[*NestCase]{id: "parents", count: func(bool) int { return len(startKinds) * len(allKinds) }, at: func(i int) *NestCase {
				return &NestCase{Parent: startKinds[i/len(allKinds)], Child: allKinds[i%len(allKinds)]}
			}, check: messageCheck},
			esub[*NestCase]{id: "ends", count: func(bool) int { return len(startKinds) * len(allKinds) }, at: func(i int) *NestCase {
				return &NestCase{Parent: startKinds[i/len(allKinds)], Child: allKinds[i%len(allKinds)], End: true}
			}, check: messageCheck},
			esub[*KindCase]{id: "states", count: func(bool) int { return 1 }, at: func(i int) *KindCase { return &KindCase{} }, check: func(c *KindCase, st *Stats) error {
				a, b, d := xw.StateOpen.Name(), xw.StateOpened.Name(), xw.StateEnded.Name()
				if a != "open" || b != "opened" || d != "ended" {
					return fmt.Errorf("state names %q %q %q", a, b, d)
				}
				return nil
			}},
		},
	}
}

func sp(s string) *Str { x := Str(s); return &x }
func bp(b bool) *bool  { return &b }

func encodeAny(r int) string {
	if r >= 0xD800 && r < 0xE000 {
		return string([]byte{0xE0 | byte(r>>12), 0x80 | byte(r>>6&0x3F), 0x80 | byte(r&0x3F)})
	}
	return string(rune(r))
}
