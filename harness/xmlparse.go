package main

// A strict, non-validating XML 1.0 (fifth edition) parser, written from the
// specification and sharing nothing with the code under test. It reports the
// lexical structure the properties talk about (CDATA sections, empty-element
// tags, attribute order, DTD declarations), which encoding/xml hides.

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type KV struct{ K, V string }

// Ev is one item of a parsed document.
type Ev struct {
	T     string // decl doctype elemdecl entity attlist notation doctypeend start end text cdata comment pi
	Name  string `json:",omitempty"`
	S     string `json:",omitempty"`
	Pub   *KV    `json:",omitempty"` // external id: K = SYSTEM/PUBLIC/PUBLICONLY, see Sys
	A     []KV   `json:",omitempty"` // attributes in order, without namespace declarations
	NS    []KV   `json:",omitempty"` // namespace declarations, sorted by prefix
	Short bool   `json:",omitempty"` // empty-element tag
	Flag  string `json:",omitempty"`
}

func (e Ev) String() string {
	var b strings.Builder
	b.WriteString(e.T)
	if e.Name != "" {
		b.WriteString(" " + strconv.Quote(e.Name))
	}
	if e.S != "" {
		s := e.S
		if len(s) > 200 {
			s = s[:90] + fmt.Sprintf("...(%d bytes)...", len(s)) + s[len(s)-90:]
		}
		b.WriteString(" s=" + strconv.Quote(s))
	}
	if e.Pub != nil {
		fmt.Fprintf(&b, " id=%q/%q", e.Pub.K, e.Pub.V)
	}
	for _, a := range e.A {
		v := a.V
		if len(v) > 200 {
			v = v[:90] + "..." + v[len(v)-90:]
		}
		fmt.Fprintf(&b, " %s=%q", a.K, v)
	}
	for _, a := range e.NS {
		fmt.Fprintf(&b, " ns(%s)=%q", a.K, a.V)
	}
	if e.Short {
		b.WriteString(" short")
	}
	if e.Flag != "" {
		b.WriteString(" [" + e.Flag + "]")
	}
	return b.String()
}

func isChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

func isDiscouraged(r rune) bool {
	if r >= 0x7F && r <= 0x84 || r >= 0x86 && r <= 0x9F || r >= 0xFDD0 && r <= 0xFDEF {
		return true
	}
	return r >= 0x10000 && (r&0xFFFF == 0xFFFE || r&0xFFFF == 0xFFFF)
}

func isNameStart(r rune) bool {
	switch {
	case r == ':' || r == '_' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z':
		return true
	case r >= 0xC0 && r <= 0xD6, r >= 0xD8 && r <= 0xF6, r >= 0xF8 && r <= 0x2FF, r >= 0x370 && r <= 0x37D,
		r >= 0x37F && r <= 0x1FFF, r >= 0x200C && r <= 0x200D, r >= 0x2070 && r <= 0x218F, r >= 0x2C00 && r <= 0x2FEF,
		r >= 0x3001 && r <= 0xD7FF, r >= 0xF900 && r <= 0xFDCF, r >= 0xFDF0 && r <= 0xFFFD, r >= 0x10000 && r <= 0xEFFFF:
		return true
	}
	return false
}

func isNameCh(r rune) bool {
	return isNameStart(r) || r == '-' || r == '.' || r >= '0' && r <= '9' || r == 0xB7 || r >= 0x300 && r <= 0x36F || r >= 0x203F && r <= 0x2040
}

func isXMLName(s string) bool {
	if s == "" || !utf8.ValidString(s) {
		return false
	}
	for i, r := range s {
		if i == 0 && !isNameStart(r) || i > 0 && !isNameCh(r) {
			return false
		}
	}
	return true
}

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func isPubidChar(r rune) bool {
	return r == 0x20 || r == 0xD || r == 0xA || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' ||
		r < 0x80 && r > 0 && strings.ContainsRune("-'()+,./:=?;!*#@$_%", r)
}

func isEncName(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		al := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if al {
			continue
		}
		if i > 0 && (c >= '0' && c <= '9' || c == '.' || c == '_' || c == '-') {
			continue
		}
		return false
	}
	return true
}

type parser struct {
	s      string
	i      int
	evs    []Ev
	mode   int // 0 document, 1 fragment (any mix of constructs at top level)
	ents   []Str
	depth  int
	anyVer bool
	text   strings.Builder
	inText bool
}

type perr struct{ msg string }

func (p *parser) fail(f string, a ...interface{}) {
	lo, hi := p.i-40, p.i+40
	if lo < 0 {
		lo = 0
	}
	if hi > len(p.s) {
		hi = len(p.s)
	}
	at := p.i
	if at > hi {
		at = hi
	}
	panic(perr{fmt.Sprintf(f, a...) + fmt.Sprintf(" at byte %d, near %q^%q", p.i, p.s[lo:at], p.s[at:hi])})
}

// normEOL is the end-of-line handling of XML 1.0 section 2.11.
func normEOL(s string) string {
	if strings.IndexByte(s, '\r') < 0 {
		return s
	}
	s = strings.ReplaceAll(s, "\r\n", "\n")
	return strings.ReplaceAll(s, "\r", "\n")
}

// parseXML parses a document (mode 0) or a fragment (mode 1).
func parseXML(raw string, mode int) (evs []Ev, err error) {
	return parseXMLWith(raw, mode, nil)
}

// parseXMLWith takes references to the given entities for nothing.
func parseXMLWith(raw string, mode int, ents []Str) (evs []Ev, err error) {
	p := &parser{mode: mode, ents: ents}
	defer func() {
		if r := recover(); r != nil {
			pe, ok := r.(perr)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("not well-formed: %s", pe.msg)
			evs = p.evs
		}
	}()
	for i := 0; i < len(raw); {
		c := raw[i]
		if c < 0x80 {
			if c < 0x20 && c != 9 && c != 10 && c != 13 {
				p.s, p.i = raw, i
				p.fail("illegal character U+%04X", c)
			}
			i++
			continue
		}
		r, w := utf8.DecodeRuneInString(raw[i:])
		if r == utf8.RuneError && w == 1 {
			p.s, p.i = raw, i
			p.fail("invalid UTF-8")
		}
		if !isChar(r) {
			p.s, p.i = raw, i
			p.fail("illegal character U+%04X", r)
		}
		i += w
	}
	p.s = normEOL(raw)
	if mode == 0 {
		p.document()
	} else {
		p.fragment()
	}
	return p.evs, nil
}

func (p *parser) has(s string) bool { return strings.HasPrefix(p.s[p.i:], s) }
func (p *parser) eof() bool         { return p.i >= len(p.s) }

func (p *parser) expect(s string) {
	if !p.has(s) {
		p.fail("expected %q", s)
	}
	p.i += len(s)
}

func (p *parser) ws() bool {
	st := p.i
	for p.i < len(p.s) && isSpace(p.s[p.i]) {
		p.i++
	}
	return p.i > st
}

func (p *parser) needWS() {
	if !p.ws() {
		p.fail("expected whitespace")
	}
}

func (p *parser) name() string {
	st := p.i
	for p.i < len(p.s) {
		r, w := utf8.DecodeRuneInString(p.s[p.i:])
		if p.i == st && !isNameStart(r) || !isNameCh(r) {
			break
		}
		p.i += w
	}
	if p.i == st {
		p.fail("expected a name")
	}
	return p.s[st:p.i]
}

func (p *parser) nmtoken() string {
	st := p.i
	for p.i < len(p.s) {
		r, w := utf8.DecodeRuneInString(p.s[p.i:])
		if !isNameCh(r) {
			break
		}
		p.i += w
	}
	if p.i == st {
		p.fail("expected a name token")
	}
	return p.s[st:p.i]
}

func (p *parser) until(d string) string {
	k := strings.Index(p.s[p.i:], d)
	if k < 0 {
		p.fail("missing %q", d)
	}
	s := p.s[p.i : p.i+k]
	p.i += k + len(d)
	return s
}

func (p *parser) quoted() string {
	if p.eof() || p.s[p.i] != '"' && p.s[p.i] != '\'' {
		p.fail("expected a quoted literal")
	}
	q := p.s[p.i : p.i+1]
	p.i++
	return p.until(q)
}

func (p *parser) emit(e Ev) {
	p.flushText()
	p.evs = append(p.evs, e)
}

func (p *parser) flushText() {
	if p.inText {
		if p.text.Len() > 0 {
			p.evs = append(p.evs, Ev{T: "text", S: p.text.String()})
		}
		p.text.Reset()
		p.inText = false
	}
}

func (p *parser) addText(s string) { p.inText = true; p.text.WriteString(s) }

func (p *parser) xmlDecl() {
	// at "<?xml" followed by whitespace
	p.expect("<?xml")
	var a []KV
	order := 0
	p.needWS()
	for !p.has("?>") {
		st := p.i
		n := p.name()
		p.ws()
		p.expect("=")
		p.ws()
		v := p.quoted()
		pos := map[string]int{"version": 1, "encoding": 2, "standalone": 3}[n]
		if pos == 0 || pos <= order {
			p.i = st
			p.fail("unexpected %s in XML declaration", n)
		}
		order = pos
		switch n {
		case "version":
			if !versionNum.MatchString(v) {
				p.fail("bad version %q", v)
			}
		case "encoding":
			if !isEncName(v) {
				p.fail("bad encoding name %q", v)
			}
		case "standalone":
			if v != "yes" && v != "no" {
				p.fail("bad standalone %q", v)
			}
		}
		a = append(a, KV{n, v})
		if !p.ws() && !p.has("?>") {
			p.fail("expected whitespace in XML declaration")
		}
	}
	p.expect("?>")
	p.emit(Ev{T: "decl", A: a})
}

var versionNum = regexp.MustCompile(`^[0-9]+\.[0-9]+$`)

func (p *parser) isDecl() bool {
	return p.has("<?xml") && len(p.s) > p.i+5 && (isSpace(p.s[p.i+5]) || p.s[p.i+5] == '?')
}

func (p *parser) document() {
	if p.isDecl() {
		p.xmlDecl()
		if d := p.evs[len(p.evs)-1]; len(d.A) == 0 || d.A[0].K != "version" {
			p.fail("XML declaration without a version")
		}
	}
	roots, dtds := 0, 0
	for {
		p.ws()
		if p.eof() {
			break
		}
		switch {
		case p.has("<!--"):
			p.comment()
		case p.has("<!DOCTYPE"):
			if dtds > 0 || roots > 0 {
				p.fail("misplaced document type declaration")
			}
			dtds++
			p.doctype()
		case p.has("<?"):
			p.pi()
		case p.has("<"):
			if roots > 0 {
				p.fail("second root element")
			}
			roots++
			p.content(true)
		default:
			p.fail("text outside the root element")
		}
	}
	p.flushText()
	if roots == 0 {
		p.fail("no root element")
	}
}

func (p *parser) fragment() {
	for !p.eof() {
		switch {
		case p.isDecl():
			p.xmlDecl()
		case p.has("<!DOCTYPE"):
			p.doctype()
		case p.has("<!ENTITY"), p.has("<!ELEMENT"), p.has("<!ATTLIST"), p.has("<!NOTATION"):
			p.markupDecl()
		default:
			st := p.i
			p.content(false)
			if p.i == st {
				p.fail("unexpected markup")
			}
		}
	}
	p.flushText()
}

func (p *parser) comment() {
	p.expect("<!--")
	s := p.until("--")
	if !p.has(">") {
		p.fail("'--' inside a comment")
	}
	p.i++
	p.emit(Ev{T: "comment", S: s})
}

func (p *parser) pi() {
	p.expect("<?")
	n := p.name()
	if strings.EqualFold(n, "xml") {
		p.fail("processing instruction named %q", n)
	}
	d := ""
	if p.has("?>") {
		p.i += 2
	} else {
		p.needWS()
		d = p.until("?>")
	}
	p.emit(Ev{T: "pi", Name: n, S: d})
}

func (p *parser) reference() string {
	p.expect("&")
	if p.has("#") {
		body := p.until(";")
		base, digs := 10, body[1:]
		if strings.HasPrefix(digs, "x") {
			base, digs = 16, digs[1:]
		}
		if digs == "" || strings.ContainsAny(digs, "+-_") {
			p.fail("bad character reference %q", body)
		}
		v, err := strconv.ParseUint(digs, base, 32)
		if err != nil || !isChar(rune(v)) {
			p.fail("bad character reference %q", body)
		}
		return string(rune(v))
	}
	n := p.name()
	p.expect(";")
	switch n {
	case "lt":
		return "<"
	case "gt":
		return ">"
	case "amp":
		return "&"
	case "apos":
		return "'"
	case "quot":
		return `"`
	}
	for _, e := range p.ents {
		if n == string(e) {
			return ""
		}
	}
	p.fail("undeclared entity %q", n)
	return ""
}

func (p *parser) attValue() string {
	if p.eof() || p.s[p.i] != '"' && p.s[p.i] != '\'' {
		p.fail("expected an attribute value")
	}
	q := p.s[p.i]
	p.i++
	var b strings.Builder
	for {
		if p.eof() {
			p.fail("unterminated attribute value")
		}
		c := p.s[p.i]
		switch {
		case c == q:
			p.i++
			return b.String()
		case c == '<':
			p.fail("'<' in attribute value")
		case c == '&':
			b.WriteString(p.reference())
		case isSpace(c):
			b.WriteByte(' ')
			p.i++
		default:
			b.WriteByte(c)
			p.i++
		}
	}
}

// content parses one element (single=true) or content up to the end of input
// or the next construct the fragment parser handles itself.
func (p *parser) content(single bool) {
	var stack []string
	start := p.i
	for {
		if single && len(stack) == 0 && p.i > start {
			return
		}
		if p.eof() {
			if len(stack) > 0 {
				p.fail("element %q is not closed", stack[len(stack)-1])
			}
			return
		}
		switch {
		case p.has("<!--"):
			p.comment()
		case p.has("<![CDATA["):
			p.i += 9
			s := p.until("]]>")
			p.emit(Ev{T: "cdata", S: s})
		case p.has("<!"), p.isDecl():
			if len(stack) == 0 && !single {
				return
			}
			p.fail("unexpected markup")
		case p.has("<?"):
			p.pi()
		case p.has("</"):
			p.i += 2
			n := p.name()
			p.ws()
			p.expect(">")
			if len(stack) == 0 || stack[len(stack)-1] != n {
				p.fail("end tag %q does not match %v", n, stack)
			}
			stack = stack[:len(stack)-1]
			p.emit(Ev{T: "end", Name: n})
		case p.has("<"):
			p.i++
			e := Ev{T: "start", Name: p.name()}
			seen := map[string]bool{}
			for {
				sp := p.ws()
				if p.has("/>") {
					p.i += 2
					e.Short = true
					break
				}
				if p.has(">") {
					p.i++
					break
				}
				if !sp {
					p.fail("expected whitespace before an attribute")
				}
				n := p.name()
				p.ws()
				p.expect("=")
				p.ws()
				v := p.attValue()
				if seen[n] {
					p.fail("duplicate attribute %q", n)
				}
				seen[n] = true
				if n == "xmlns" {
					e.NS = append(e.NS, KV{"", v})
				} else if strings.HasPrefix(n, "xmlns:") {
					if n == "xmlns:" {
						p.fail("empty namespace prefix")
					}
					e.NS = append(e.NS, KV{n[6:], v})
				} else {
					e.A = append(e.A, KV{n, v})
				}
			}
			sort.Slice(e.NS, func(i, j int) bool { return e.NS[i].K < e.NS[j].K })
			p.emit(e)
			if e.Short {
				p.emit(Ev{T: "end", Name: e.Name})
			} else {
				stack = append(stack, e.Name)
			}
		case p.has("&"):
			p.addText(p.reference())
		default:
			k := strings.IndexAny(p.s[p.i:], "<&")
			var t string
			if k < 0 {
				t = p.s[p.i:]
			} else {
				t = p.s[p.i : p.i+k]
			}
			if j := strings.Index(t, "]]>"); j >= 0 {
				p.i += j
				p.fail("']]>' in text")
			}
			p.addText(t)
			p.i += len(t)
		}
	}
}

func (p *parser) externalID(publicOnly bool) *KV {
	switch {
	case p.has("SYSTEM"):
		p.i += 6
		p.needWS()
		return &KV{"SYSTEM", p.quoted()}
	case p.has("PUBLIC"):
		p.i += 6
		p.needWS()
		pub := p.quoted()
		for _, r := range pub {
			if !isPubidChar(r) {
				p.fail("bad public identifier %q", pub)
			}
		}
		st := p.i
		sp := p.ws()
		if p.has(`"`) || p.has("'") {
			if !sp {
				p.fail("expected whitespace before the system literal")
			}
			return &KV{"PUBLIC " + pub, p.quoted()}
		}
		if !publicOnly {
			p.fail("public identifier without a system identifier")
		}
		p.i = st
		return &KV{"PUBLIC " + pub, ""}
	}
	return nil
}

func (p *parser) doctype() {
	p.expect("<!DOCTYPE")
	p.needWS()
	e := Ev{T: "doctype", Name: p.name()}
	if p.ws() {
		e.Pub = p.externalID(false)
		p.ws()
	}
	subset := p.has("[")
	if subset {
		e.Flag = "subset"
	}
	p.emit(e)
	if subset {
		p.i++
		for {
			p.ws()
			if p.has("]") {
				p.i++
				break
			}
			switch {
			case p.eof():
				p.fail("unterminated internal subset")
			case p.has("<!--"):
				p.comment()
			case p.has("<?"):
				p.pi()
			case p.has("%"):
				p.i++
				n := p.name()
				p.expect(";")
				p.emit(Ev{T: "peref", Name: n})
			default:
				p.markupDecl()
			}
		}
		p.ws()
	}
	p.expect(">")
	p.emit(Ev{T: "doctypeend"})
}

func (p *parser) markupDecl() {
	switch {
	case p.has("<!ELEMENT"):
		p.i += 9
		p.needWS()
		n := p.name()
		p.needWS()
		p.emit(Ev{T: "elemdecl", Name: n, S: p.contentSpec()})
		p.ws()
		p.expect(">")
	case p.has("<!ATTLIST"):
		p.attlist()
	case p.has("<!ENTITY"):
		p.i += 8
		p.needWS()
		e := Ev{T: "entity"}
		if p.has("%") {
			p.i++
			e.Flag = "PE"
			p.needWS()
		}
		e.Name = p.name()
		p.needWS()
		if e.Pub = p.externalID(false); e.Pub != nil {
			sp := p.ws()
			if p.has("NDATA") {
				if e.Flag == "PE" || !sp {
					p.fail("misplaced NDATA")
				}
				p.i += 5
				p.needWS()
				e.Flag = "NDATA " + p.name()
			}
		} else {
			st := p.i
			v := p.quoted()
			p.checkEntityValue(v, st)
			e.S = v
			if v == "" {
				e.S = ""
			}
			e.Flag += " value"
		}
		p.ws()
		p.expect(">")
		p.emit(e)
	case p.has("<!NOTATION"):
		p.i += 10
		p.needWS()
		e := Ev{T: "notation", Name: p.name()}
		p.needWS()
		e.Pub = p.externalID(true)
		if e.Pub == nil {
			p.fail("notation without an identifier")
		}
		p.ws()
		p.expect(">")
		p.emit(e)
	default:
		p.fail("unexpected content in the document type declaration")
	}
}

// checkEntityValue applies the EntityValue production to the literal.
func (p *parser) checkEntityValue(v string, at int) {
	q := parser{s: v}
	for q.i < len(v) {
		switch v[q.i] {
		case '%':
			p.i = at
			p.fail("'%%' in an entity value of the internal subset")
		case '&':
			if strings.HasPrefix(v[q.i:], "&#") {
				func() {
					defer func() {
						if r := recover(); r != nil {
							p.i = at
							p.fail("bad reference in entity value %q", v)
						}
					}()
					q.reference()
				}()
				continue
			}
			q.i++
			func() {
				defer func() {
					if r := recover(); r != nil {
						p.i = at
						p.fail("bad reference in entity value %q", v)
					}
				}()
				q.name()
				q.expect(";")
			}()
		default:
			q.i++
		}
	}
}

func (p *parser) contentSpec() string {
	st := p.i
	switch {
	case p.has("EMPTY"):
		p.i += 5
	case p.has("ANY"):
		p.i += 3
	case p.has("("):
		save := p.i
		p.i++
		p.ws()
		if p.has("#PCDATA") {
			p.i += 7
			n := 0
			for {
				p.ws()
				if p.has("|") {
					p.i++
					p.ws()
					p.name()
					n++
					continue
				}
				p.expect(")")
				break
			}
			if p.has("*") {
				p.i++
			} else if n > 0 {
				p.fail("mixed content model without '*'")
			}
		} else {
			p.i = save
			p.cpGroup()
		}
	default:
		p.fail("bad content model")
	}
	return p.s[st:p.i]
}

func (p *parser) cpGroup() {
	p.expect("(")
	sep := byte(0)
	for {
		p.ws()
		if p.has("(") {
			p.cpGroup()
		} else {
			p.name()
			p.quant()
		}
		p.ws()
		if p.has(")") {
			p.i++
			break
		}
		if p.eof() || p.s[p.i] != '|' && p.s[p.i] != ',' || sep != 0 && p.s[p.i] != sep {
			p.fail("bad content model")
		}
		sep = p.s[p.i]
		p.i++
	}
	p.quant()
}

func (p *parser) quant() {
	if p.has("?") || p.has("*") || p.has("+") {
		p.i++
	}
}

func (p *parser) attlist() {
	p.expect("<!ATTLIST")
	p.needWS()
	e := Ev{T: "attlist", Name: p.name()}
	for {
		sp := p.ws()
		if p.has(">") {
			p.i++
			break
		}
		if !sp {
			p.fail("expected whitespace in attribute list")
		}
		n := p.name()
		p.needWS()
		st := p.i
		switch {
		case p.has("("):
			p.enumeration(false)
		case p.has("NOTATION"):
			p.i += 8
			p.needWS()
			p.enumeration(true)
		default:
			t := p.name()
			switch t {
			case "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS":
			default:
				p.i = st
				p.fail("bad attribute type")
			}
		}
		typ := p.s[st:p.i]
		p.needWS()
		d := ""
		switch {
		case p.has("#REQUIRED"):
			p.i += 9
			d = "#REQUIRED"
		case p.has("#IMPLIED"):
			p.i += 8
			d = "#IMPLIED"
		case p.has("#FIXED"):
			p.i += 6
			p.needWS()
			d = "#FIXED=" + p.attValue()
		default:
			d = "default=" + p.attValue()
		}
		e.A = append(e.A, KV{n, typ + " " + d})
	}
	p.emit(e)
}

func (p *parser) enumeration(names bool) {
	p.expect("(")
	for {
		p.ws()
		if names {
			p.name()
		} else {
			p.nmtoken()
		}
		p.ws()
		if p.has(")") {
			p.i++
			return
		}
		p.expect("|")
	}
}

// diffEvents returns a description of the first difference, or "".
func diffEvents(want, got []Ev) string {
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	for i := 0; i < n; i++ {
		if !evEq(want[i], got[i]) {
			return fmt.Sprintf("item %d: want %s\n              got  %s", i, want[i], got[i])
		}
	}
	if len(want) > n {
		return fmt.Sprintf("missing item %d: %s", n, want[n])
	}
	if len(got) > n {
		return fmt.Sprintf("unexpected item %d: %s", n, got[n])
	}
	return ""
}

func evEq(a, b Ev) bool {
	if a.T != b.T || a.Name != b.Name || a.S != b.S || a.Short != b.Short || a.Flag != b.Flag || len(a.A) != len(b.A) || len(a.NS) != len(b.NS) {
		return false
	}
	if (a.Pub == nil) != (b.Pub == nil) || a.Pub != nil && *a.Pub != *b.Pub {
		return false
	}
	for i := range a.A {
		if a.A[i] != b.A[i] {
			return false
		}
	}
	for i := range a.NS {
		if a.NS[i] != b.NS[i] {
			return false
		}
	}
	return true
}
