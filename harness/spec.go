package main

// An executable specification of the writer with enforcement on: which calls
// are accepted, what stays open, and what the output must say.

import (
	"fmt"
	"strings"
)

type rej struct {
	why    string
	atomic bool // the property "a rejected call leaves no trace" covers it
}

func atomic(f string, a ...interface{}) *rej { return &rej{fmt.Sprintf(f, a...), true} }
func fatal(f string, a ...interface{}) *rej  { return &rej{fmt.Sprintf(f, a...), false} }

type frame struct {
	n        *Node
	opened   bool
	kids     int
	full     bool
	ns       map[string]string
	nsAdd    []KV
	dash     bool
	tail     string // the last bytes of the CDATA content, for ']]>' across chunks
	content  []*Node
	pend     string
	ev       int // index of the start event
	buf      strings.Builder
	attrs    []KV
}

type model struct {
	strict bool
	stack  []*frame
	x      expect
	opaque bool   // the output is not a sequence of whole constructs
	excl   string // the program left the domain of the properties
	enc    string
	nl     string
	acts   int // nodes started, ended or written by the current call
}

func newModel(strict bool) *model {
	m := &model{strict: strict, enc: "UTF-8", nl: "\n"}
	m.x.enc = "UTF-8"
	return m
}

func (m *model) top() *frame {
	if len(m.stack) == 0 {
		return nil
	}
	return m.stack[len(m.stack)-1]
}

func (m *model) topKind() string {
	if t := m.top(); t != nil {
		return t.n.K
	}
	return ""
}

func (m *model) name(s string) bool {
	if isFindingName(s) {
		m.excl = "recorded finding about names"
		return true
	}
	return isXMLName(s)
}

func (m *model) parent(k string) *rej {
	if k != "raw" && !mayContain(m.topKind(), k) {
		return atomic("%s inside %q", k, m.topKind())
	}
	return nil
}

// next opens the innermost node because something follows inside it.
func (m *model) next() *rej {
	t := m.top()
	if t == nil {
		return nil
	}
	t.kids++
	return m.openTop(t)
}

func (m *model) openTop(t *frame) *rej {
	if t.opened {
		return nil
	}
	t.opened = true
	switch t.n.K {
	case "elem":
		m.finishStart(t)
		ks := t.content
		t.content = nil
		for _, k := range ks {
			switch k.K {
			case "text", "elem", "comment", "cdata", "pi":
			default:
				return fatal("%s in element content", k.K)
			}
			if r := m.write(k); r != nil {
				return fatal("%s", r.why)
			}
		}
	case "comment", "cdata":
		p := t.pend
		t.pend = ""
		if p != "" {
			k := &Node{K: "ccontent", S: Str(p)}
			if t.n.K == "cdata" {
				k.K = "dcontent"
			}
			if r := m.write(k); r != nil {
				return fatal("%s", r.why)
			}
		}
	case "attlist":
		ks := t.content
		t.content = nil
		for _, k := range ks {
			if r := m.write(k); r != nil {
				return fatal("%s", r.why)
			}
		}
	}
	return nil
}

func (m *model) finishStart(t *frame) {
	e := &m.x.evs[t.ev]
	e.A = t.attrs
	for _, kv := range t.nsAdd {
		e.NS = append(e.NS, kv)
	}
	sortKV(e.NS)
}

func (m *model) emit(e Ev) int { m.x.emit(e); return len(m.x.evs) - 1 }

func (m *model) sysOK(s string) *rej {
	if strings.Contains(s, `"`) && strings.Contains(s, "'") {
		return fatal("system ID with both quotes")
	}
	if !wantChars(s, false) {
		return fatal("system ID with illegal characters")
	}
	return nil
}

func (m *model) extID(pub, sys string) *rej {
	if pub == "" && sys == "" {
		return nil
	}
	if pub != "" {
		if sys == "" {
			return fatal("public ID without system ID")
		}
		if !wantPub(pub) {
			return fatal("bad public ID")
		}
	}
	return m.sysOK(sys)
}

func (m *model) start(n *Node) *rej {
	if r := m.parent(n.K); r != nil {
		return r
	}
	if r := m.next(); r != nil {
		return fatal("%s", r.why)
	}
	f := &frame{n: n, full: n.Full, ns: map[string]string{}}
	m.stack = append(m.stack, f)
	m.acts++
	switch n.K {
	case "doc":
		enc := m.enc
		if n.Enc != nil {
			enc = string(*n.Enc)
		}
		if !n.NoEnc && enc != "" && !isEncName(enc) {
			return fatal("bad encoding name")
		}
		if n.Ver != nil || n.NoVer {
			m.opaque = true
		}
		m.x.decl(n)
		m.x.has = true
		m.x.text.WriteString(m.nl)
	case "dtd":
		if !m.name(string(n.Name)) {
			return fatal("bad name")
		}
		if r := m.extID(string(n.Pub), string(n.Sys)); r != nil {
			return r
		}
		f.ev = m.emit(Ev{T: "doctype", Name: string(n.Name), Pub: extID(n)})
	case "attlist":
		if !m.name(string(n.Name)) {
			return fatal("bad name")
		}
		f.content = n.Attrs
		f.ev = m.emit(Ev{T: "attlist", Name: string(n.Name)})
	case "comment", "cdata":
		f.pend = n.content()
		m.x.flush()
	case "elem":
		if n.Prefix != "" && n.Name == "" {
			m.excl = "prefix without a name"
			f.ev = m.emit(Ev{T: "start"})
			return nil
		}
		if !m.name(n.fullName()) {
			return fatal("bad name")
		}
		if n.URI != "" {
			f.ns[string(n.Prefix)] = string(n.URI)
			f.nsAdd = append(f.nsAdd, KV{string(n.Prefix), representable(string(n.URI))})
		}
		f.ev = m.emit(Ev{T: "start", Name: n.fullName()})
		f.content = n.Kids
		for _, a := range n.Attrs {
			if r := m.write(a); r != nil {
				return fatal("%s", r.why)
			}
		}
	}
	return nil
}

func (m *model) endTop() *rej {
	t := m.top()
	wasOpened := t.opened
	if r := m.openTop(t); r != nil {
		return r
	}
	switch t.n.K {
	case "comment":
		if t.dash {
			return fatal("comment ends with '-'")
		}
		m.emit(Ev{T: "comment", S: normEOL(t.buf.String())})
	case "cdata":
		m.emit(Ev{T: "cdata", S: normEOL(t.buf.String())})
	case "attlist":
		m.x.evs[t.ev].A = t.attrs
	case "dtd":
		if t.kids > 0 {
			m.x.evs[t.ev].Flag = "subset"
		}
		m.emit(Ev{T: "doctypeend"})
	case "elem":
		m.x.evs[t.ev].Short = !wasOpened && t.kids == 0 && !t.full
		m.emit(Ev{T: "end", Name: t.n.fullName()})
	}
	m.stack = m.stack[:len(m.stack)-1]
	m.acts++
	return nil
}

func (m *model) write(n *Node) *rej {
	switch n.K {
	case "elem", "comment", "cdata", "attlist":
		if r := m.start(n); r != nil {
			return r
		}
		if r := m.endTop(); r != nil {
			return fatal("%s", r.why)
		}
		return nil
	}
	if r := m.parent(n.K); r != nil {
		return r
	}
	t := m.top()
	s := string(n.S)
	switch n.K {
	case "raw":
		m.opaque = true
		if t != nil && s != "" {
			t.dash, t.tail = false, ""
		}
	case "text":
		if r := m.next(); r != nil {
			return r
		}
		m.x.node(n)
	case "ccontent":
		if strings.Contains(s, "--") || !wantChars(s, m.strict) {
			return atomic("bad comment content")
		}
		if t == nil {
			m.opaque = true
			break
		}
		if r := m.next(); r != nil {
			return r
		}
		if s != "" {
			if t.dash && s[0] == '-' {
				return atomic("'--' across chunks")
			}
			t.dash = s[len(s)-1] == '-'
			t.buf.WriteString(s)
		}
	case "dcontent":
		if strings.Contains(s, "]]>") || !wantChars(s, m.strict) {
			return atomic("bad cdata content")
		}
		if t == nil {
			m.opaque = true
			break
		}
		if r := m.next(); r != nil {
			return r
		}
		if s != "" {
			all := t.tail + s
			if strings.Contains(all, "]]>") {
				return atomic("']]>' across chunks")
			}
			if len(all) > 2 {
				all = all[len(all)-2:]
			}
			t.tail = all
			t.buf.WriteString(s)
		}
	case "pi":
		if n.Name == "" {
			m.excl = "recorded finding about empty targets"
			return nil
		}
		if strings.EqualFold(string(n.Name), "xml") || !m.name(string(n.Name)) {
			return atomic("bad PI target")
		}
		if strings.Contains(s, "?>") || !wantChars(s, m.strict) {
			return atomic("bad PI content")
		}
		if r := m.next(); r != nil {
			return r
		}
		m.x.node(n)
	case "attr":
		if t != nil && t.opened {
			return atomic("attribute after the start tag")
		}
		if n.Name == "" {
			return atomic("attribute without a name")
		}
		if !m.name(n.fullName()) {
			return atomic("bad name")
		}
		if t == nil {
			m.opaque = true
			break
		}
		if n.URI != "" {
			u, ok := t.ns[string(n.Prefix)]
			if ok && u != string(n.URI) {
				return atomic("prefix bound twice")
			}
			if !ok {
				t.ns[string(n.Prefix)] = string(n.URI)
				t.nsAdd = append(t.nsAdd, KV{string(n.Prefix), representable(string(n.URI))})
			}
		}
		fn := n.fullName()
		for _, a := range t.attrs {
			if a.K == fn {
				m.opaque = true // the caller's to avoid
			}
		}
		if strings.HasPrefix(fn, "xmlns") || strings.HasPrefix(string(n.Prefix), "xmlns") {
			m.opaque = true
		}
		t.attrs = append(t.attrs, KV{fn, representable(s)})
	case "dtdelem":
		if !m.name(string(n.Name)) || s == "" {
			return atomic("bad element declaration")
		}
		if r := m.next(); r != nil {
			return r
		}
		m.x.node(n)
	case "entity":
		if !m.name(string(n.Name)) {
			return atomic("bad name")
		}
		if r := m.next(); r != nil {
			return r
		}
		if n.Sys != "" || n.Pub != "" {
			if s != "" {
				return fatal("both external ID and content")
			}
			if r := m.extID(string(n.Pub), string(n.Sys)); r != nil {
				return r
			}
			if n.NDat != "" && (n.PE || !m.name(string(n.NDat))) {
				return fatal("bad NDATA")
			}
		} else {
			if n.NDat != "" {
				return fatal("NDATA without external ID")
			}
			if strings.Contains(s, `"`) && strings.Contains(s, "'") || !wantChars(s, false) {
				return fatal("bad entity value")
			}
			if strings.ContainsAny(s, "&%") {
				m.opaque = true
			}
		}
		m.x.node(n)
	case "dtdattr":
		if !m.name(string(n.Name)) || n.Type == "" {
			return atomic("bad attribute declaration")
		}
		if r := m.next(); r != nil {
			return r
		}
		if (n.Def == 2 || n.Def == 3) && s != "" || n.Def < 0 || n.Def > 4 {
			return fatal("bad attribute default")
		}
		if t == nil {
			m.opaque = true
			break
		}
		var one expect
		one.node(&Node{K: "attlist", Name: "x", Attrs: []*Node{n}})
		t.attrs = append(t.attrs, one.evs[0].A[0])
	case "notation":
		if !m.name(string(n.Name)) || n.Pub == "" && n.Sys == "" {
			return atomic("bad notation")
		}
		if r := m.next(); r != nil {
			return r
		}
		if n.Pub != "" && !wantPub(string(n.Pub)) {
			return fatal("bad public ID")
		}
		if n.Sys != "" {
			if r := m.sysOK(string(n.Sys)); r != nil {
				return r
			}
		}
		m.x.node(n)
	default:
		harnessFail("model: %s", n.K)
	}
	m.acts++
	return nil
}

func (m *model) end(kind string, names []Str, full bool) *rej {
	t := m.top()
	if t == nil {
		return atomic("nothing is open")
	}
	switch len(names) {
	case 0:
	case 1:
		if kind != "elem" && kind != "dtd" && kind != "attlist" {
			return atomic("a %s has no name", kind)
		}
		if t.n.K != kind || t.n.Name != names[0] {
			return atomic("wrong name")
		}
	case 2:
		if kind != "elem" || t.n.K != kind || t.n.Prefix != names[0] || t.n.Name != names[1] {
			return atomic("wrong name")
		}
	default:
		return atomic("too many names")
	}
	if t.n.K != kind {
		return atomic("a %s is open, not a %s", t.n.K, kind)
	}
	if full {
		t.full = true
	}
	return m.endTop()
}

// step gives the verdict on one call and its effects. A rejection that is not
// atomic, or that came after part of a call was done, is marked by partial.
func (m *model) step(o *Op) (r *rej) {
	m.acts = 0
	switch o.Do {
	case "start":
		for _, n := range o.N {
			if r = m.start(n); r != nil || m.excl != "" {
				return
			}
		}
	case "write":
		for _, n := range o.N {
			if r = m.write(n); r != nil || m.excl != "" {
				return
			}
		}
	case "block":
		if r = m.start(o.N[0]); r != nil || m.excl != "" {
			return
		}
		for _, n := range o.N[1:] {
			if r = m.write(n); r != nil || m.excl != "" {
				return
			}
		}
		return m.end(o.N[0].K, nil, false)
	case "end":
		if o.Typed && o.Kind == "doc" {
			return m.endDoc()
		}
		return m.end(o.Kind, o.Names, false)
	case "endfull":
		return m.end("elem", o.Names, true)
	case "endany":
		if m.top() == nil {
			return atomic("nothing is open")
		}
		return m.endTop()
	case "endall", "endallflush":
		for len(m.stack) > 0 {
			if r = m.endTop(); r != nil {
				return
			}
		}
	case "enddoc":
		return m.endDoc()
	case "endto":
		if o.Depth >= len(m.stack) && len(m.stack) > 0 || o.Depth < 0 {
			m.excl = "ending to a depth that is not below the current one"
			return nil
		}
		for len(m.stack) > o.Depth+1 {
			if r = m.endTop(); r != nil {
				return
			}
		}
		return m.end(o.Kind, o.Names, false)
	case "next":
		r = m.next()
	case "flush":
	default:
		harnessFail("model: op %s", o.Do)
	}
	return
}

func (m *model) endDoc() *rej {
	if len(m.stack) > 0 && m.stack[0].n.K != "doc" {
		m.excl = "ending a document that is not open"
		return nil
	}
	for len(m.stack) > 1 {
		if r := m.endTop(); r != nil {
			return r
		}
	}
	return m.end("doc", nil, false)
}
