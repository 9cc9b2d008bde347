package main

import (
	"fmt"
	"strings"
)

// Doc is a generated document.
type Doc struct {
	Decl *Node   `json:",omitempty"` // nil: written without a Doc node
	Pre  []*Node `json:",omitempty"` // comments and PIs
	DTD  *Node   `json:",omitempty"`
	Mid  []*Node `json:",omitempty"`
	Root *Node
	Post []*Node `json:",omitempty"`
}

// Conf is the configuration of a writer.
type Conf struct {
	Indent    bool `json:",omitempty"`
	IndentStr Str  `json:",omitempty"` // with Indent; "" is the default indenter
	NoStep    bool `json:",omitempty"` // with Indent: the empty indent string
	NL        *Str `json:",omitempty"`
	Buf       int  `json:",omitempty"`
	NoEnforce bool `json:",omitempty"`
	Loose     bool `json:",omitempty"`
	Version   Str  `json:",omitempty"`
	After     bool `json:",omitempty"` // the settings are made on the open writer
}

// shape says what a generated document may contain.
type shape struct {
	next     bool // explicit Next calls
	ns       bool // prefixes and URIs
	dtd      bool
	raw      bool
	noText   bool // no text below elements (for the exact indenter)
	ascii    bool
	strs     func(g *G) string // text and attribute values
	cdata    func(g *G) string
	comment  func(g *G) string
	pi       func(g *G) string
	name     func(g *G) string
	noDecl   bool
	noPI     bool
	maxNodes int
	deep     int // maximum depth of the deep shape, default 40
	uris     []string
	anyURI   bool // also arbitrary strings
	prefixes []string
}

type docgen struct {
	g      *G
	sh     shape
	budget int
}

func (g *G) doc(sh shape) *Doc {
	if sh.strs == nil {
		sh.strs = func(g *G) string { return g.maybeLong(true) }
	}
	if sh.cdata == nil {
		sh.cdata = (*G).cdataText
	}
	if sh.comment == nil {
		sh.comment = (*G).commentText
	}
	if sh.pi == nil {
		sh.pi = (*G).piText
	}
	if sh.name == nil {
		sh.name = (*G).ncname
	}
	if sh.maxNodes == 0 {
		sh.maxNodes = 30
	}
	if sh.deep == 0 {
		sh.deep = 40
	}
	if sh.uris == nil {
		sh.uris = []string{"urn:a", "urn:b", "http://x/?a=1&b=\"<2>\"", "u", "a\tb\n\r'c "}
	}
	if sh.prefixes == nil {
		sh.prefixes = []string{"p", "q", "ns1", "é", "pq", "ns", "n"}
	}
	d := &docgen{g: g, sh: sh}
	switch g.n(4) {
	case 0:
		d.budget = g.in(0, 3)
	case 1, 2:
		d.budget = g.in(2, 10)
	case 3:
		d.budget = g.in(5, sh.maxNodes)
	}
	doc := &Doc{}
	if !sh.noDecl && g.chance(1, 2) {
		doc.Decl = g.declNode()
	}
	if g.chance(1, 4) {
		doc.Pre = d.misc()
	}
	if sh.dtd && g.chance(1, 3) {
		doc.DTD = d.dtd()
		doc.Mid = d.misc()
	}
	switch g.n(16) {
	case 0, 1: // deep chain, with things around it
		doc.Root = d.chain()
	case 2: // wide
		doc.Root = d.elemNode()
		for i, n := 0, g.in(5, 60); i < n; i++ {
			d.budget = 2
			doc.Root.Kids = append(doc.Root.Kids, d.kid())
		}
	default:
		doc.Root = d.elem(0)
	}
	if g.chance(1, 4) {
		doc.Post = d.misc()
	}
	return doc
}

func (g *G) declNode() *Node {
	n := &Node{K: "doc"}
	if g.chance(1, 4) {
		b := g.bit()
		n.Sta = &b
	}
	if g.chance(1, 6) {
		n.NoEnc = true
	}
	n.Full = g.bit() // given by assignment or fluently
	return n
}

func (d *docgen) misc() []*Node {
	var out []*Node
	for i, n := 0, d.g.few(3); i < n; i++ {
		if d.g.bit() || d.sh.noPI {
			out = append(out, d.comment())
		} else {
			out = append(out, d.pi())
		}
	}
	return out
}

func (d *docgen) comment() *Node {
	s := d.sh.comment(d.g)
	return &Node{K: "comment", Chunks: d.g.chunks(s)}
}

func (d *docgen) pi() *Node {
	n := d.sh.name(d.g)
	if strings.EqualFold(n, "xml") {
		n = "p" + n
	}
	if d.g.chance(1, 8) {
		n = pick(d.g, "xml-stylesheet", "xmlx", "x")
	}
	return &Node{K: "pi", Name: Str(n), S: Str(d.sh.pi(d.g))}
}

func (d *docgen) elemNode() *Node {
	g := d.g
	n := &Node{K: "elem", Name: Str(d.sh.name(g))}
	if d.sh.ns && g.chance(1, 3) {
		if g.chance(4, 5) {
			n.Prefix = Str(g.prefix(d.sh))
		}
		if g.bit() {
			n.URI = Str(d.uri())
		}
	} else if g.chance(1, 12) {
		n.Prefix = Str(g.prefix(d.sh))
	}
	n.Full = g.chance(1, 6)
	na := g.few(5)
	if g.chance(1, 40) {
		na = g.in(6, 40)
	}
	d.attrs(n, na)
	return n
}

func (d *docgen) uri() string {
	if d.sh.anyURI && d.g.chance(1, 6) {
		return d.sh.strs(d.g)
	}
	return d.sh.uris[d.g.n(len(d.sh.uris))]
}

func (g *G) prefix(sh shape) string {
	return sh.prefixes[g.n(len(sh.prefixes))]
}

// attrs adds n distinctly named attributes whose prefixes are bound consistently.
func (d *docgen) attrs(n *Node, cnt int) {
	g := d.g
	bound := map[string]string{}
	if n.URI != "" {
		bound[string(n.Prefix)] = string(n.URI)
	}
	seen := map[string]bool{}
	for i := 0; i < cnt; i++ {
		a := &Node{K: "attr", Name: Str(d.sh.name(g)), S: Str(d.sh.strs(g))}
		if d.sh.ns && g.chance(1, 3) {
			if g.chance(5, 6) {
				a.Prefix = Str(g.prefix(d.sh))
			}
			if g.bit() {
				u, ok := bound[string(a.Prefix)]
				if !ok {
					u = d.uri()
					bound[string(a.Prefix)] = u
				}
				a.URI = Str(u)
			}
		} else if g.chance(1, 12) {
			a.Prefix = Str(g.prefix(d.sh))
		}
		if i > 0 && g.chance(1, 8) { // another's name but for the case
			o := n.Attrs[g.n(i)]
			a.Name, a.Prefix, a.URI = Str(strings.Map(func(r rune) rune {
				if r|32 >= 'a' && r|32 <= 'z' {
					return r ^ 32
				}
				return r
			}, string(o.Name))), o.Prefix, o.URI
		}
		for k := 0; seen[a.fullName()]; k++ {
			a.Name = Str(fmt.Sprintf("%s%d", a.Name, k))
		}
		seen[a.fullName()] = true
		n.Attrs = append(n.Attrs, a)
	}
}

func (d *docgen) elem(depth int) *Node {
	n := d.elemNode()
	d.fill(n, depth)
	return n
}

func (d *docgen) fill(n *Node, depth int) {
	k := d.g.few(5)
	if depth == 0 {
		k = d.g.in(0, 5)
	}
	for i := 0; i < k && d.budget > 0; i++ {
		d.budget--
		if k := len(n.Kids); k > 0 && d.g.chance(1, 12) {
			// the same again
			same := *n.Kids[k-1]
			n.Kids = append(n.Kids, &same)
			continue
		}
		n.Kids = append(n.Kids, d.kidAt(depth+1))
	}
}

func (d *docgen) kid() *Node { return d.kidAt(3) }

func (d *docgen) kidAt(depth int) *Node {
	g := d.g
	switch g.n(10) {
	case 0, 1, 2:
		if d.sh.noText {
			return d.elem(depth)
		}
		return &Node{K: "text", S: Str(d.sh.strs(g))}
	case 3:
		return d.comment()
	case 4:
		if d.sh.noText {
			return d.comment()
		}
		return &Node{K: "cdata", Chunks: g.chunks(d.sh.cdata(g))}
	case 5:
		if d.sh.noPI {
			return d.elem(depth)
		}
		return d.pi()
	case 6:
		if d.sh.next && g.bit() {
			return &Node{K: "next"}
		}
		if d.sh.noText {
			return d.elem(depth)
		}
		return &Node{K: "text", S: ""}
	default:
		return d.elem(depth)
	}
}

// chain nests elements past the depth at which the writer's stack grows.
func (d *docgen) chain() *Node {
	g := d.g
	n := g.in(5, 14)
	if g.chance(1, 4) {
		n = g.in(10, d.sh.deep)
	}
	root := d.elemNode()
	cur := root
	for i := 0; i < n; i++ {
		if g.chance(1, 4) {
			d.budget = 1
			cur.Kids = append(cur.Kids, d.kid())
		}
		c := &Node{K: "elem", Name: Str(d.sh.name(g))}
		if g.chance(1, 3) {
			d.attrs(c, g.few(2))
		}
		cur.Kids = append(cur.Kids, c)
		cur = c
	}
	d.budget = 3
	d.fill(cur, 1)
	// siblings after the deep part, on the way back up
	cur = root
	for i := 0; i < n; i++ {
		var next *Node
		for _, k := range cur.Kids {
			if k.K == "elem" {
				next = k
			}
		}
		if g.chance(1, 6) {
			d.budget = 1
			cur.Kids = append(cur.Kids, d.kid())
		}
		if next == nil {
			break
		}
		cur = next
	}
	return root
}

// --- document type declarations

func (g *G) pubID() string {
	var b strings.Builder
	for i, n := 0, g.in(1, 5); i < n; i++ {
		b.WriteString(pick(g, "-//W3C//DTD XHTML 1.0//EN", "p", "ISO 8879:1986", "'", " ", "+(),./:=?;!*#@$_%", "A-Z", "\n", "z", "0", "pub"))
	}
	return b.String()
}

func (g *G) sysID() string {
	s := onlyChars(g.maybeLong(false), false)
	if g.bit() {
		s = pick(g, "http://example.com/x.dtd", "file.dtd", "a'b", "say \"hi\"", "x>y", "a&b", "]>", "%", "[", " ")
	}
	if strings.Contains(s, `"`) && strings.Contains(s, `'`) {
		s = strings.ReplaceAll(s, pick(g, `"`, `'`), "_")
	}
	if s == "" {
		s = "sys"
	}
	return s
}

// entityValue draws a literal that is valid as an entity value.
func (g *G) entityValue() string {
	var b strings.Builder
	for i, n := 0, g.few(5); i < n; i++ {
		b.WriteString(pick(g, "text", "&#62;", "&#x3c;", "&amp;", "&other;", "<b>", "</b>", "'", `"`, " ", "]>", "-->", "é", "\n", "日本", "]]>", "0", "👍"))
		if g.chance(1, 8) {
			b.WriteString(strings.NewReplacer("&", "+", "%", "+").Replace(onlyChars(g.maybeLong(false), false)))
		}
	}
	s := b.String()
	if strings.Contains(s, `"`) && strings.Contains(s, `'`) {
		s = strings.ReplaceAll(s, pick(g, `"`, `'`), "_")
	}
	return s
}

func (g *G) contentModel() string {
	switch g.n(6) {
	case 0:
		return "EMPTY"
	case 1:
		return "ANY"
	case 2:
		return "(#PCDATA)"
	case 3:
		s := "(#PCDATA"
		for i, n := 0, g.in(1, 4); i < n; i++ {
			s += "|" + pick(g, "a", "b", "c") + fmt.Sprint(i)
		}
		return s + ")*"
	}
	return g.cp(2) + pick(g, "", "?", "*", "+")
}

func (g *G) cp(depth int) string {
	sep := pick(g, "|", ",", " , ", " |")
	var parts []string
	for i, n := 0, g.in(1, 3); i < n; i++ {
		p := pick(g, "a", "b", "elem", "é")
		if depth > 0 && g.chance(1, 3) {
			p = g.cp(depth - 1)
		}
		parts = append(parts, p+pick(g, "", "?", "*", "+"))
	}
	return "(" + strings.Join(parts, sep) + ")"
}

func (d *docgen) dtdAttr(n *Node) *Node {
	g := d.g
	a := &Node{K: "dtdattr", Name: Str(d.sh.name(g) + fmt.Sprint(len(n.Attrs)))}
	a.Type = Str(pick(g, "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(a|b|c)", "(x)", "NOTATION (n|m)"))
	a.Def = g.n(5)
	if a.Def != 2 && a.Def != 3 && g.chance(2, 3) {
		a.S = Str(d.sh.strs(g))
	}
	return a
}

func (d *docgen) attList() *Node {
	n := &Node{K: "attlist", Name: Str(d.sh.name(d.g))}
	for i, k := 0, d.g.few(4); i < k; i++ {
		n.Attrs = append(n.Attrs, d.dtdAttr(n))
	}
	return n
}

func (d *docgen) entity() *Node {
	g := d.g
	n := &Node{K: "entity", Name: Str(d.sh.name(g)), PE: g.chance(1, 4)}
	switch g.n(3) {
	case 0:
		n.S = Str(g.entityValue())
	case 1:
		n.Sys = Str(g.sysID())
	case 2:
		n.Sys = Str(g.sysID())
		n.Pub = Str(g.pubID())
	}
	if n.Sys != "" && !n.PE && g.chance(1, 3) {
		n.NDat = Str(d.sh.name(g))
	}
	return n
}

func (d *docgen) notation() *Node {
	g := d.g
	n := &Node{K: "notation", Name: Str(d.sh.name(g))}
	switch g.n(3) {
	case 0:
		n.Sys = Str(g.sysID())
	case 1:
		n.Pub = Str(g.pubID())
	case 2:
		n.Sys = Str(g.sysID())
		n.Pub = Str(g.pubID())
	}
	return n
}

func (d *docgen) dtdKid() *Node {
	g := d.g
	switch g.n(6) {
	case 0:
		return d.attList()
	case 1, 2:
		return d.entity()
	case 3:
		return d.notation()
	case 4:
		return d.comment()
	}
	return &Node{K: "dtdelem", Name: Str(d.sh.name(g)), S: Str(g.contentModel())}
}

func (d *docgen) dtd() *Node {
	g := d.g
	n := &Node{K: "dtd", Name: Str(d.sh.name(g))}
	switch g.n(4) {
	case 0:
		n.Sys = Str(g.sysID())
	case 1:
		n.Sys = Str(g.sysID())
		n.Pub = Str(g.pubID())
	}
	for i, k := 0, g.in(0, 5); i < k; i++ {
		n.Kids = append(n.Kids, d.dtdKid())
	}
	return n
}

// --- expected events

type expect struct {
	evs  []Ev
	text strings.Builder
	has  bool
	conf Conf
	enc  string
}

func (x *expect) flush() {
	if x.has && x.text.Len() > 0 {
		x.evs = append(x.evs, Ev{T: "text", S: x.text.String()})
	}
	x.text.Reset()
	x.has = false
}

func (x *expect) emit(e Ev) { x.flush(); x.evs = append(x.evs, e) }

// piData is what a parser reports for the data of a PI.
func piData(s string) string { return strings.TrimLeft(normEOL(s), " \t\r\n") }

func (x *expect) misc(ns []*Node) {
	for _, n := range ns {
		x.node(n)
	}
}

func nsOf(n *Node) []KV {
	m := map[string]string{}
	if n.URI != "" {
		m[string(n.Prefix)] = string(n.URI)
	}
	for _, a := range n.Attrs {
		if a.URI != "" {
			m[string(a.Prefix)] = string(a.URI)
		}
	}
	var out []KV
	for k, v := range m {
		out = append(out, KV{k, representable(v)})
	}
	sortKV(out)
	return out
}

func (x *expect) node(n *Node) {
	switch n.K {
	case "text":
		x.has = true
		x.text.WriteString(representable(string(n.S)))
	case "next", "raw":
	case "comment":
		x.emit(Ev{T: "comment", S: normEOL(n.content())})
	case "cdata":
		x.emit(Ev{T: "cdata", S: normEOL(n.content())})
	case "pi":
		x.emit(Ev{T: "pi", Name: string(n.Name), S: piData(string(n.S))})
	case "elem":
		e := Ev{T: "start", Name: n.fullName(), NS: nsOf(n)}
		for _, a := range n.Attrs {
			e.A = append(e.A, KV{a.fullName(), representable(string(a.S))})
		}
		e.Short = len(n.Kids) == 0 && !n.Full
		x.emit(e)
		for _, k := range n.Kids {
			x.node(k)
		}
		x.emit(Ev{T: "end", Name: n.fullName()})
	case "dtd":
		e := Ev{T: "doctype", Name: string(n.Name), Pub: extID(n)}
		if len(n.Kids) > 0 {
			e.Flag = "subset"
		}
		x.emit(e)
		for _, k := range n.Kids {
			x.node(k)
		}
		x.emit(Ev{T: "doctypeend"})
	case "dtdelem":
		x.emit(Ev{T: "elemdecl", Name: string(n.Name), S: string(n.S)})
	case "entity":
		e := Ev{T: "entity", Name: string(n.Name)}
		if n.PE {
			e.Flag = "PE"
		}
		if n.Sys != "" {
			e.Pub = extID(n)
			if n.NDat != "" {
				e.Flag = "NDATA " + string(n.NDat)
			}
		} else {
			e.S = normEOL(string(n.S))
			e.Flag += " value"
		}
		x.emit(e)
	case "notation":
		x.emit(Ev{T: "notation", Name: string(n.Name), Pub: extID(n)})
	case "attlist":
		e := Ev{T: "attlist", Name: string(n.Name)}
		for _, a := range n.Attrs {
			d := ""
			def := a.Def
			if def == 0 {
				def = 3
				if a.S != "" {
					def = 1
				}
			}
			switch def {
			case 1:
				d = "default=" + representable(string(a.S))
			case 2:
				d = "#REQUIRED"
			case 3:
				d = "#IMPLIED"
			case 4:
				d = "#FIXED=" + representable(string(a.S))
			}
			e.A = append(e.A, KV{string(a.Name), string(a.Type) + " " + d})
		}
		x.emit(e)
	default:
		harnessFail("expect: %s", n.K)
	}
}

func extID(n *Node) *KV {
	switch {
	case n.Pub != "":
		return &KV{"PUBLIC " + normEOL(string(n.Pub)), normEOL(string(n.Sys))}
	case n.Sys != "":
		return &KV{"SYSTEM", normEOL(string(n.Sys))}
	}
	return nil
}

func (x *expect) decl(n *Node) {
	e := Ev{T: "decl"}
	if !n.NoVer {
		v := string(x.conf.Version)
		if n.Ver != nil {
			v = string(*n.Ver)
		} else if v == "" {
			v = "1.0"
		}
		e.A = append(e.A, KV{"version", v})
	}
	if !n.NoEnc {
		v := x.enc
		if n.Enc != nil {
			v = string(*n.Enc)
		}
		if v != "" {
			e.A = append(e.A, KV{"encoding", v})
		}
	}
	if n.Sta != nil {
		e.A = append(e.A, KV{"standalone", map[bool]string{true: "yes", false: "no"}[*n.Sta]})
	}
	x.emit(e)
}

// events are the items a parser must report for the document.
func (d *Doc) events(conf Conf) []Ev {
	x := &expect{conf: conf, enc: "UTF-8"}
	return x.doc(d)
}

func (x *expect) doc(d *Doc) []Ev {
	if d.Decl != nil {
		x.decl(d.Decl)
	}
	x.misc(d.Pre)
	if d.DTD != nil {
		x.node(d.DTD)
	}
	x.misc(d.Mid)
	x.node(d.Root)
	x.misc(d.Post)
	x.flush()
	return x.evs
}

// stats about a document
type docStats struct {
	nodes, depth, elems, attrs, texts, pis, comments, cdatas, chunks, nss, mixed, decls int
	maxStr                                                                              int
}

func (d *Doc) stats() docStats {
	var s docStats
	var walk func(n *Node, depth int)
	walk = func(n *Node, depth int) {
		s.nodes++
		if depth > s.depth {
			s.depth = depth
		}
		if l := len(n.S); l > s.maxStr {
			s.maxStr = l
		}
		for _, c := range n.Chunks {
			if len(c) > s.maxStr {
				s.maxStr = len(c)
			}
		}
		switch n.K {
		case "elem":
			s.elems++
			s.attrs += len(n.Attrs)
			if n.URI != "" {
				s.nss++
			}
			for _, a := range n.Attrs {
				if a.URI != "" {
					s.nss++
				}
				if len(a.S) > s.maxStr {
					s.maxStr = len(a.S)
				}
			}
			t, e := 0, 0
			for _, k := range n.Kids {
				if k.K == "text" {
					t++
				} else {
					e++
				}
			}
			if t > 0 && e > 0 {
				s.mixed++
			}
		case "text":
			s.texts++
		case "pi":
			s.pis++
		case "comment":
			s.comments++
			if len(n.Chunks) > 1 {
				s.chunks++
			}
		case "cdata":
			s.cdatas++
			if len(n.Chunks) > 1 {
				s.chunks++
			}
		case "dtdelem", "entity", "notation", "attlist", "dtd":
			s.decls++
		}
		for _, k := range n.Kids {
			walk(k, depth+1)
		}
	}
	for _, l := range [][]*Node{d.Pre, d.Mid, d.Post} {
		for _, n := range l {
			walk(n, 1)
		}
	}
	if d.DTD != nil {
		walk(d.DTD, 1)
	}
	if d.Root != nil {
		walk(d.Root, 1)
	}
	return s
}

func (s docStats) classify(st *Stats) {
	if s.depth > 8 {
		st.class("depth>8")
	}
	if s.elems > 3 {
		st.class("elements>3")
	}
	if s.mixed > 0 {
		st.class("mixed content")
	}
	if s.chunks > 0 {
		st.class("chunked content")
	}
	if s.maxStr > 2000 {
		st.class("string>2000")
	}
	if s.nss > 0 {
		st.class("namespaces")
	}
	if s.decls > 0 {
		st.class("dtd")
	}
	if s.attrs > 5 {
		st.class("attrs>5")
	}
}
