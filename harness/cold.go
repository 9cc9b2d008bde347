package main

// The first use of the package in a process, made by several goroutines at
// once: what is built or remembered when first needed shows up there.

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/unicode"
)

type ColdCase struct {
	N    int    // goroutines
	Salt uint64 // makes names
}

type logIndenter struct{ n int }

func (l *logIndenter) Indent(w *xw.Writer, last, next xw.Event) error {
	l.n += len(last.String()) + len(next.String())
	return nil
}
func (l *logIndenter) Wrap(s string) string { return "(" + s + ")" }

// tour uses everything the package has once or more, and returns all it said.
func tour(salt uint64) string {
	var out strings.Builder
	no := 0
	name := func() string { no++; return fmt.Sprintf("n%x-%d", salt, no) }
	say := func(a ...interface{}) { fmt.Fprintln(&out, a...) }
	writers := []func(b *bytes.Buffer) *xw.Writer{
		func(b *bytes.Buffer) *xw.Writer { return xw.Open(b) },
		func(b *bytes.Buffer) *xw.Writer { return xw.Open(b, xw.WithIndent()) },
		func(b *bytes.Buffer) *xw.Writer { return xw.Open(b, xw.WithIndentString("\t")) },
		func(b *bytes.Buffer) *xw.Writer {
			return xw.Open(b, func(w *xw.Writer) { w.Indenter, w.InitialBufSize, w.NewlineString = &logIndenter{}, 40, "\r\n" })
		},
		func(b *bytes.Buffer) *xw.Writer {
			w := xw.Open(b)
			w.Enforce, w.Version = false, "1.1"
			return w
		},
		func(b *bytes.Buffer) *xw.Writer {
			w := xw.OpenEncoding(b, "windows-1252", charmap.Windows1252.NewEncoder())
			w.StrictChars = false
			return w
		},
		func(b *bytes.Buffer) *xw.Writer {
			return xw.OpenEncoding(b, "gbk", simplifiedchinese.GBK.NewEncoder(), xw.WithIndent())
		},
		func(b *bytes.Buffer) *xw.Writer {
			return xw.OpenEncoding(b, "utf-16", unicode.UTF16(unicode.LittleEndian, unicode.UseBOM).NewEncoder())
		},
	}
	long := strings.Repeat("a<b&\"c'>\t\r\n\u00e9\u65e5\U0001f44d\x00\xff", 300)
	for _, open := range writers {
		var b bytes.Buffer
		w := open(&b)
		ec := &xw.ErrCollector{}
		// rejected, or not, without anything open
		say(w.EndAny(), w.EndElem(), w.EndDoc(), w.End(xw.DTDNode, "x"), w.EndElemFull(), w.Depth())
		say(w.StartElem(xw.Elem{Name: "1" + name()}))
		w.EndAll()
		say(w.StartDoc(xw.Doc{}.ForceVersion("1.0").WithStandalone(true)))
		say(w.WriteText("x"), w.StartCData(xw.CData{}), w.WriteAttr(xw.Attr{Name: "a"}), w.StartDoc(xw.Doc{}), w.WriteCDataContent("x"), w.WriteCommentContent("y"), w.WriteDTDAttr(xw.DTDAttr{Name: name(), Type: "CDATA"}), w.WriteDTDElem(xw.DTDElem{Name: name(), Decl: "ANY"}), w.WriteNotation(xw.Notation{Name: name(), SystemID: "s"}), w.WriteDTDEntity(xw.DTDEntity{Name: name()}))
		say(w.WritePI(xw.PI{Target: name(), Content: "x \U0001f44d"}), w.WritePI(xw.PI{Target: "xml"}), w.WritePI(xw.PI{Target: "a b"}), w.WritePI(xw.PI{Target: "a", Content: "?>"}))
		say(w.WriteComment(xw.Comment{Content: " " + long[:12] + " "}), w.WriteComment(xw.Comment{Content: "c\u00e9"}))
		say(w.StartDTD(xw.DTD{Name: name(), PublicID: "-//p", SystemID: "it's"}))
		say(w.WriteDTDElem(xw.DTDElem{Name: name(), Decl: "(a|b)*"}), w.WriteDTDElem(xw.DTDElem{Name: name()}), w.WriteNotation(xw.Notation{Name: name(), PublicID: "p"}), w.WriteNotation(xw.Notation{Name: name()}),
			w.WriteDTDEntity(xw.DTDEntity{Name: name(), Content: "say \"x\""}), w.WriteDTDEntity(xw.DTDEntity{Name: name(), IsPE: true, SystemID: "s"}), w.WriteDTDEntity(xw.DTDEntity{Name: name(), SystemID: "s", NDataID: name()}),
			w.WriteComment(xw.Comment{Content: "d"}), w.StartElem(xw.Elem{Name: name()}))
		say(w.WriteDTDAttList(xw.DTDAttList{Name: name(), Attrs: []xw.DTDAttr{{Name: name(), Type: xw.DTDAttrID}, {Name: name(), Type: xw.DTDAttrString, Value: "<&>\"'\t\n"}, {Name: name(), Type: "(a|b)", Default: xw.DTDAttrFixed, Value: "a"}, {Name: name(), Type: "ID", Default: xw.DTDAttrRequired}}}))
		say(w.EndElem(), w.End(xw.DTDNode, "zz"), w.EndDTD())
		d := w.Depth()
		say(w.Start(xw.Elem{Prefix: "p", URI: "u<v" + name(), Name: name(), Attrs: []xw.Attr{{Prefix: "q", URI: "w", Name: "x", Value: long}, {Prefix: "p", URI: "other", Name: "y"}}}))
		say(w.WriteAttr(xw.Attr{Name: name()}.Int(-1), xw.Attr{Name: name()}.Uint64(math.MaxUint64), xw.Attr{Name: name()}.Float32(1.1), xw.Attr{Name: name()}.Float64(1e300), xw.Attr{Name: name()}.Bool(true), xw.Attr{Name: name()}.Int8(-128), xw.Attr{Name: name()}.Uint8(255)))
		say(w.WriteAttr(xw.Attr{}), w.WriteAttr(xw.Attr{Name: "a b"}), w.WriteRaw(" raw='1'"), w.Next(), w.WriteAttr(xw.Attr{Name: "late"}))
		say(w.WriteText(long), w.Write(xw.Text("x"), xw.Text("")), w.WriteCData(xw.CData{Content: "x<y"}), w.StartCData(xw.CData{Content: "a"}), w.WriteCDataContent("]]"), w.WriteCDataContent(">"), w.WriteCDataContent("]]>"), w.EndComment(), w.EndCData())
		say(w.StartComment(xw.Comment{Content: "a"}), w.WriteCommentContent("b-"), w.WriteCommentContent("-"), w.WriteCommentContent("c"), w.WriteText("no"), w.EndComment())
		say(w.Block(xw.Elem{Name: name(), Full: true}, xw.Text("t"), xw.Elem{Name: name(), Content: []xw.Writable{xw.Text("x"), xw.Elem{Name: name()}, xw.Comment{Content: "c"}, xw.PI{Target: name()}, xw.CData{Content: "z"}}}, xw.Raw("<raw/>")))
		for i := 0; i < 20; i++ {
			say(w.StartElem(xw.Elem{Name: name()}))
		}
		say(w.EndElem("wrong"), w.EndElem("a", "b"), w.EndElem("a", "b", "c"), w.End(xw.CDataNode, "x"), w.EndElemFull(), w.EndAny(), w.Flush())
		say(w.EndToDepth(d, xw.ElemNode), w.Depth(), w.EndDoc(), w.EndAllFlush())
		ec.Do(nil, w.EndAny(), nil)
		e := errors.Unwrap(ec)
		say(ec.Index, e)
		func() {
			defer func() { say(recover() != nil) }()
			ec.Panic()
		}()
		func() {
			defer func() { say(recover() != nil) }()
			(&xw.ErrCollector{}).Must(nil, errors.New("must"))
		}()
		var se error
		ec.Set(&se)
		say(se == ec)
		out.Write(b.Bytes())
	}
	for i := -3; i < 40; i++ {
		say(xw.NodeKind(i).Name(), xw.NodeKind(i).String(), xw.Event{State: xw.StateOpened, Node: xw.NodeKind(i), Children: i}.String())
	}
	say(xw.StateOpen.Name(), xw.StateOpened.Name(), xw.StateEnded.Name())
	for _, s := range []string{"", "a", "é", name(), "a b", "\x00", "\U0001fffe", "utf-8", "9", "-//x", "\xff", "\uFFFD", "\u0e01", "日本"} {
		say(xw.CheckName(s), xw.CheckChars(s, true), xw.CheckChars(s, false), xw.CheckPubID(s), xw.CheckEncoding(s))
	}
	return out.String()
}

func coldCheck(c *ColdCase, st *Stats) error {
	outs := make([]string, c.N)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range outs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					outs[i] = fmt.Sprintf("panic: %v", r)
				}
			}()
			<-start
			outs[i] = tour(c.Salt + uint64(i%2))
		}(i)
	}
	close(start)
	wg.Wait()
	for i := range outs {
		if alone := tour(c.Salt + uint64(i%2)); alone != outs[i] {
			return fmt.Errorf("goroutine %d of %d gets another output than alone: %s", i, c.N, diffAt(alone, outs[i]))
		}
	}
	st.Extra += c.N
	st.nontrivial(true)
	return nil
}
