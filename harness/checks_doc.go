package main

// Checks on generated documents: well-formedness, round trip, styles, indenting.

import (
	"fmt"
	"strings"
)

// DocCase is a document with a way to write it.
type DocCase struct {
	Doc    *Doc
	Styles []int `json:",omitempty"`
	Conf   Conf
	Only   int `json:",omitempty"`
}

func (g *G) docCase(sh shape) *DocCase {
	c := &DocCase{Doc: g.doc(sh)}
	switch g.n(4) {
	case 0:
	case 1:
		c.Styles = g.styles(g.in(1, 12))
	default:
		c.Styles = g.styles(g.in(12, 60))
	}
	if g.chance(1, 6) {
		c.Only = g.in(1, 2)
	}
	if g.chance(1, 3) {
		c.Conf.Buf = g.bufSize()
	}
	return c
}

func (g *G) bufSize() int {
	return pick(g, 1, 2, 3, 5, 8, 15, 16, 17, 31, 64, 100, 255, 512, 2047, 2048, 4096, 70000)
}

func (g *G) indentConf(c *Conf) {
	c.Indent = true
	c.After = g.chance(1, 3)
	if g.bit() {
		c.IndentStr = Str(pick(g, " ", "  ", "\t", "    ", " \t", strings.Repeat(" ", 9)))
	} else if g.chance(1, 6) {
		c.NoStep = true
	}
	if g.chance(1, 3) {
		s := Str(pick(g, "\n", "\r\n", "\r", "\n\n", " \n"))
		c.NL = &s
	}
}

// accepted runs the case and requires every call to succeed.
func accepted(conf Conf, ops []*Op) (string, error) {
	r := runOps(conf, ops, true)
	if e := r.err(); e != nil {
		at := "flush"
		if r.first >= 0 {
			at = fmt.Sprintf("call %d (%s)", r.first, trunc(ops[r.first].String(), 400))
		}
		return r.out, fmt.Errorf("valid content was rejected at %s: %v\ncalls:\n%s", at, e, opsString(ops))
	}
	return r.out, nil
}

func ctxOf(ops []*Op, out string) string {
	return fmt.Sprintf("\noutput: %s\ncalls:\n%s", show(out), opsString(ops))
}

func formsOf(st *Stats, l *lower) {
	for f := range l.forms {
		st.class("form: %s", f)
	}
}

func roundTrip(c *DocCase, st *Stats) error {
	ops, l := c.Doc.ops(c.Styles, c.Only)
	out, err := accepted(c.Conf, ops)
	if err != nil {
		return err
	}
	got, err := parseXML(out, 0)
	if err != nil {
		return fmt.Errorf("%v%s", err, ctxOf(ops, out))
	}
	if d := diffEvents(c.Doc.events(c.Conf), got); d != "" {
		return fmt.Errorf("the output reads back differently: %s%s", d, ctxOf(ops, out))
	}
	ds := c.Doc.stats()
	ds.classify(st)
	formsOf(st, l)
	st.nontrivial(ds.elems >= 2 && ds.nodes >= 3)
	return nil
}

// wild turns a few fields of a valid document into arbitrary strings.
type wildEdit struct {
	Node  int // index in the walk
	Field int
	S     Str
}

type WildCase struct {
	DocCase
	Edits []wildEdit
}

func allNodes(d *Doc) []*Node {
	var out []*Node
	var walk func(n *Node)
	walk = func(n *Node) {
		out = append(out, n)
		for _, a := range n.Attrs {
			walk(a)
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	if d.Decl != nil {
		out = append(out, d.Decl)
	}
	for _, n := range d.Pre {
		walk(n)
	}
	if d.DTD != nil {
		walk(d.DTD)
	}
	for _, n := range d.Mid {
		walk(n)
	}
	walk(d.Root)
	for _, n := range d.Post {
		walk(n)
	}
	return out
}

func cloneNode(n *Node) *Node {
	if n == nil {
		return nil
	}
	c := *n
	c.Attrs, c.Kids = nil, nil
	for _, a := range n.Attrs {
		c.Attrs = append(c.Attrs, cloneNode(a))
	}
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, cloneNode(k))
	}
	c.Chunks = append([]Str(nil), n.Chunks...)
	return &c
}

func cloneDoc(d *Doc) *Doc {
	c := &Doc{Decl: cloneNode(d.Decl), DTD: cloneNode(d.DTD), Root: cloneNode(d.Root)}
	for _, n := range d.Pre {
		c.Pre = append(c.Pre, cloneNode(n))
	}
	for _, n := range d.Mid {
		c.Mid = append(c.Mid, cloneNode(n))
	}
	for _, n := range d.Post {
		c.Post = append(c.Post, cloneNode(n))
	}
	return c
}

// applyWild sets one field that the writer itself must check.
func applyWild(n *Node, field int, s Str) bool {
	switch n.K {
	case "elem":
		switch field % 3 {
		case 0, 1:
			n.Name = s
		case 2:
			n.Prefix = s
		}
	case "attr":
		switch field % 4 {
		case 0, 1:
			n.Name = s
		case 2:
			n.Prefix = s
		case 3:
			n.S = s
		}
	case "text":
		n.S = s
	case "comment", "cdata":
		if len(n.Chunks) == 0 {
			n.Chunks = []Str{""}
		}
		n.Chunks = append([]Str(nil), n.Chunks...)
		n.Chunks[field%len(n.Chunks)] = s
	case "pi":
		if field%2 == 0 {
			if s == "" { // an empty target is a recorded finding
				return false
			}
			n.Name = s
		} else {
			n.S = s
		}
	case "doc":
		n.Enc = &s
	case "dtd":
		switch field % 3 {
		case 0:
			n.Name = s
		case 1:
			n.Sys = s
		case 2:
			n.Pub = s
		}
	case "dtdelem", "attlist":
		n.Name = s
	case "dtdattr":
		if field%2 == 0 {
			n.Name = s
		} else {
			n.S = s
		}
	case "entity":
		switch field % 5 {
		case 0:
			n.Name = s
		case 1:
			if n.Sys == "" {
				n.S = Str(strings.NewReplacer("&", "+", "%", "+").Replace(string(s)))
			} else {
				n.Sys = s
			}
		case 2:
			n.Sys = s
		case 3:
			n.Pub = s
		case 4:
			if n.PE { // never valid; kept out because enforcement off rejects it too
				return false
			}
			n.NDat = s
		}
	case "notation":
		switch field % 3 {
		case 0:
			n.Name = s
		case 1:
			n.Sys = s
		case 2:
			n.Pub = s
		}
	default:
		return false
	}
	return true
}

func (g *G) wildCase() *WildCase {
	c := &WildCase{DocCase: *g.docCase(shape{ns: true, anyURI: true, dtd: true, next: true, maxNodes: 15, deep: 16})}
	for i, n := 0, g.in(1, 3); i < n; i++ {
		var s string
		switch g.n(4) {
		case 0:
			s = g.badName()
		default:
			s = g.str(true)
		}
		c.Edits = append(c.Edits, wildEdit{int(g.bits(8)), int(g.bits(4)), Str(s)})
	}
	return c
}

func wildCheck(c *WildCase, st *Stats) error {
	d := cloneDoc(c.Doc)
	ns := allNodes(d)
	for _, e := range c.Edits {
		n := ns[e.Node%len(ns)]
		applyWild(n, e.Field, e.S)
	}
	// what the caller must supply: distinct attribute names, no reserved prefix
	for _, n := range ns {
		if n.K == "elem" {
			seen := map[string]bool{}
			for _, a := range append([]*Node{n}, n.Attrs...) {
				if strings.Contains(string(a.Prefix), "xmlns") || a.Prefix == "xml" || strings.HasPrefix(string(a.Name), "xmlns") || strings.HasSuffix(string(a.Prefix), ":") {
					st.class("excluded: reserved names")
					return nil
				}
				if a.K == "elem" {
					if a.Prefix != "" && a.Name == "" {
						st.class("excluded: prefix without name")
						return nil
					}
					if a.URI != "" && a.Prefix != "" {
						seen["xmlns:"+string(a.Prefix)] = true
					}
					continue
				}
				if seen[a.fullName()] {
					st.class("excluded: duplicate attributes")
					return nil
				}
				seen[a.fullName()] = true
			}
		}
		if n.K == "pi" && n.Name == "" {
			return nil
		}
	}
	ops, _ := d.ops(c.Styles, c.Only)
	r := runOps(c.Conf, ops, true)
	if r.err() != nil {
		st.class("rejected")
		return nil
	}
	st.class("accepted")
	st.nontrivial(true)
	if _, err := parseXML(r.out, 0); err != nil {
		return fmt.Errorf("accepted, but %v%s", err, ctxOf(ops, r.out))
	}
	return nil
}

// --- C07

func stylesCheck(c *DocCase, st *Stats) error {
	ref, _ := c.Doc.ops(nil, 1)
	if len(c.Styles) == 0 {
		return nil
	}
	want, err := accepted(c.Conf, ref)
	if err != nil {
		return err
	}
	forms := map[string]bool{}
	for k := 0; k < 3; k++ {
		sty := append(append([]int{}, c.Styles[(k*5)%len(c.Styles):]...), c.Styles...)
		ops, l := c.Doc.ops(sty, []int{c.Only, 0, 2}[k])
		got, err := accepted(c.Conf, ops)
		if err != nil {
			return err
		}
		st.Extra++
		for f := range l.forms {
			forms[f] = true
		}
		if got != want {
			return fmt.Errorf("the same document written in two styles differs: %s\nstyle calls:\n%splain calls:\n%s", diffAt(want, got), opsString(ops), opsString(ref))
		}
	}
	for f := range forms {
		st.class("form: %s", f)
	}
	ds := c.Doc.stats()
	ds.classify(st)
	if c.Conf.Indent {
		st.class("indented")
	}
	st.nontrivial(ds.elems >= 2 && len(forms) >= 2)
	return nil
}

// --- C12

func blank(s string) bool { return strings.Trim(s, " \t\r\n") == "" }

func indentCheck(c *DocCase, st *Stats) error {
	ops, _ := c.Doc.ops(c.Styles, c.Only)
	pc := c.Conf
	pc.Indent = false
	plain, err := accepted(pc, ops)
	if err != nil {
		return err
	}
	ind, err := accepted(c.Conf, ops)
	if err != nil {
		return err
	}
	want, err := parseXML(plain, 0)
	if err != nil {
		return fmt.Errorf("without indenting: %v%s", err, ctxOf(ops, plain))
	}
	got, err := parseXML(ind, 0)
	if err != nil {
		return fmt.Errorf("indented: %v%s", err, ctxOf(ops, ind))
	}
	added, i := 0, 0
	var aligned []Ev
	for _, e := range got {
		if i < len(want) && evEq(want[i], e) {
			aligned = append(aligned, e)
			i++
			continue
		}
		if e.T == "text" && blank(e.S) && (i >= len(want) || want[i].T != "text") && i > 0 && want[i-1].T != "text" && want[i-1].T != "cdata" && (i >= len(want) || want[i].T != "cdata") {
			added++
			continue
		}
		aligned = append(aligned, e)
		i++
	}
	if d := diffEvents(want, aligned); d != "" {
		return fmt.Errorf("indenting changed the document: %s%s", d, ctxOf(ops, ind))
	}
	ds := c.Doc.stats()
	ds.classify(st)
	if len(ind) > len(plain) {
		st.class("whitespace added")
	}
	st.nontrivial(len(ind) > len(plain) && ds.elems >= 2)
	return nil
}

// --- C31

func renderIndent(c *DocCase) string {
	nl, is := c.Conf.nl(), string(c.Conf.IndentStr)
	if is == "" && !c.Conf.NoStep {
		is = " "
	}
	var b strings.Builder
	line := func(depth int) {
		b.WriteString(nl)
		for i := 0; i < depth; i++ {
			b.WriteString(is)
		}
	}
	// alone is what a declaration is by itself
	alone := func(n Node) string {
		n.Kids, n.Attrs = nil, nil
		op := &Op{Do: "write", N: []*Node{&n}}
		ops := []*Op{op}
		if startsOnly(n.K) {
			op.Do = "start"
			ops = append(ops, &Op{Do: "endany"})
		}
		out, err := accepted(Conf{}, ops)
		if err != nil {
			harnessFail("%v", err)
		}
		return out
	}
	dtd := func(n *Node) {
		head := strings.TrimSuffix(alone(*n), ">")
		b.WriteString(head)
		if len(n.Kids) > 0 {
			b.WriteString(" [")
			for _, k := range n.Kids {
				line(1)
				s := alone(*k)
				if k.K == "attlist" && len(k.Attrs) > 0 {
					b.WriteString(strings.TrimSuffix(s, ">"))
					for _, a := range k.Attrs {
						line(2)
						b.WriteString(alone(*a))
					}
					line(1)
					s = ">"
				}
				b.WriteString(s)
			}
			line(0)
			b.WriteString("]")
		}
		b.WriteString(">")
	}
	// lastBlock: what was written last is an element tag or a comment
	var node func(n *Node, depth int, lastBlock bool) bool
	node = func(n *Node, depth int, lastBlock bool) bool {
		switch n.K {
		case "next":
			return lastBlock
		case "comment":
			if lastBlock {
				line(depth)
			}
			b.WriteString("<!--" + n.content() + "-->")
			return true
		case "cdata":
			b.WriteString("<![CDATA[" + n.content() + "]]>")
			return false
		case "pi":
			b.WriteString("<?" + string(n.Name) + " " + string(n.S) + "?>")
			return false
		case "text":
			b.WriteString(string(n.S))
			return false
		}
		if lastBlock {
			line(depth)
		}
		b.WriteString("<" + n.fullName())
		for _, a := range n.Attrs {
			b.WriteString(" " + a.fullName() + `="` + string(a.S) + `"`)
		}
		if len(n.Kids) == 0 && !n.Full {
			b.WriteString("/>")
			return true
		}
		b.WriteString(">")
		lb, lines := true, false
		for _, k := range n.Kids {
			if lb && (k.K == "elem" || k.K == "comment") {
				lines = true
			}
			lb = node(k, depth+1, lb)
		}
		if lb && lines {
			line(depth)
		}
		b.WriteString("</" + n.fullName() + ">")
		return true
	}
	lb := false
	top := append([]*Node{}, c.Doc.Pre...)
	if c.Doc.DTD != nil {
		top = append(top, c.Doc.DTD)
	}
	top = append(append(append(top, c.Doc.Mid...), c.Doc.Root), c.Doc.Post...)
	if c.Doc.Decl != nil {
		b.WriteString("<?xml version=\"1.0\"")
		if !c.Doc.Decl.NoEnc {
			b.WriteString(" encoding=\"UTF-8\"")
		}
		if s := c.Doc.Decl.Sta; s != nil {
			b.WriteString(map[bool]string{true: " standalone=\"yes\"", false: " standalone=\"no\""}[*s])
		}
		b.WriteString("?>" + nl)
	}
	for _, n := range top {
		if n.K == "dtd" {
			if lb {
				line(0)
			}
			dtd(n)
			lb = true
			continue
		}
		lb = node(n, 0, lb)
	}
	if c.Doc.Decl != nil {
		b.WriteString(nl)
	}
	return b.String()
}

func indentExact(c *DocCase, st *Stats) error {
	ops, _ := c.Doc.ops(c.Styles, c.Only)
	got, err := accepted(c.Conf, ops)
	if err != nil {
		return err
	}
	want := renderIndent(c)
	if got != want {
		return fmt.Errorf("indentation differs from the rules: %s%s", diffAt(want, got), ctxOf(ops, got))
	}
	ds := c.Doc.stats()
	ds.classify(st)
	st.nontrivial(ds.depth >= 3 && ds.elems >= 3)
	return nil
}

// plainText is text that is written as it is, also in an attribute.
func (g *G) plainText() string { return pick(g, "", "a", "text", " ", "x y", "é", "  ", "longer text") }

func init() {
	full := shape{ns: true, anyURI: true, dtd: true, next: true}
	checks["C01"] = &propCheck{
		rule: "documents (trees) lowered to call sequences in drawn styles, and the same with one to three fields replaced by arbitrary strings; non-trivial: every call was accepted (wild documents), or the document has two or more elements and three or more nodes",
		assumptions: []string{"the strict parser in harness/xmlparse.go implements XML 1.0 well-formedness", "attribute names distinct, one root, declarations in order, valid free-form DTD fragments, no raw text, no reserved xmlns names; empty PI targets are a recorded finding under C04"},
		subs: []sub{
			gsub[*DocCase]{id: "valid", quick: 16000, deep: 600000, gen: func(g *G) *DocCase {
				c := g.docCase(full)
				if g.chance(1, 3) {
					g.indentConf(&c.Conf)
				}
				return c
			}, check: wellFormed},
			gsub[*WildCase]{id: "wild", quick: 40000, deep: 1600000, gen: func(g *G) *WildCase {
				c := g.wildCase()
				if g.chance(1, 3) {
					g.indentConf(&c.Conf)
				}
				return c
			}, check: wildCheck},
			gsub[*DocCase]{id: "deep", quick: 240, deep: 8000, gen: func(g *G) *DocCase {
				return g.docCase(shape{deep: 1500, maxNodes: 8, next: true})
			}, check: wellFormed},
			manySub(60, 3000, true, full, sometimesIndented, wellFormed),
		},
	}
	checks["C02"] = &propCheck{
		rule:        "documents lowered to call sequences in drawn styles; non-trivial: two or more elements and three or more nodes",
		assumptions: []string{"adjacent text is one text; XML end-of-line normalisation applies to comments, CDATA and PIs; leading blanks of PI data are not data"},
		subs: []sub{
			gsub[*DocCase]{id: "roundtrip", quick: 40000, deep: 2000000, gen: func(g *G) *DocCase { return g.docCase(full) }, check: roundTrip},
			gsub[*DocCase]{id: "deep", quick: 400, deep: 12000, gen: func(g *G) *DocCase { return g.docCase(shape{deep: 1000, maxNodes: 60, next: true}) }, check: roundTrip},
			manySub(100, 5000, true, full, sometimesIndented, func(c *DocCase, st *Stats) error {
				c.Conf.Indent = false
				return roundTrip(c, st)
			}),
		},
	}
	checks["C07"] = &propCheck{
		rule:        "documents, each written with plain streaming calls and in three drawn mixes of the other styles, half of them with the standard indenter; programs with calls for several nodes, compared with the same programs in single calls; non-trivial: two or more elements and two or more distinct style forms used, or a call that stands for several",
		assumptions: []string{"raw text in programs only, not in the documents"},
		subs: []sub{
			gsub[*DocCase]{id: "styles", quick: 20000, deep: 1000000, gen: func(g *G) *DocCase {
				c := g.docCase(full)
				if len(c.Styles) == 0 {
					c.Styles = g.styles(20)
				}
				c.Only = 0
				if g.bit() {
					g.indentConf(&c.Conf)
				}
				return c
			}, check: stylesCheck},
			gsub[*ProgCase]{id: "calls", quick: 60000, deep: 3000000, gen: func(g *G) *ProgCase {
				c := g.prog(progStyle{max: 20, invalid: 1, fields: 8, ends: 5, ns: true, deep: 10, raw: true})
				if g.bit() {
					g.indentConf(&c.Conf)
				}
				return c
			}, check: callsCheck},
			manySub(60, 3000, false, full, sometimesIndented, func(c *DocCase, st *Stats) error {
				if len(c.Styles) == 0 {
					c.Styles = []int{3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9}
				}
				c.Only = 0
				return stylesCheck(c, st)
			}),
		},
	}
	checks["C12"] = &propCheck{
		rule:        "documents written with and without the standard indenter, compared after parsing; added text items must be blank, between markup, and not next to text or CDATA; non-trivial: whitespace was added and there are two or more elements",
		assumptions: []string{"indent and newline strings consist of XML whitespace; no raw text"},
		subs: []sub{
			gsub[*DocCase]{id: "indent", quick: 30000, deep: 1500000, gen: func(g *G) *DocCase {
				c := g.docCase(full)
				g.indentConf(&c.Conf)
				return c
			}, check: indentCheck},
			manySub(80, 3000, true, full, (*G).indentConf, indentCheck),
		},
	}
	checks["C31"] = &propCheck{
		rule:        "element and comment trees (some with text, CDATA and PIs, or with a document type) compared byte for byte with an independent renderer of the stated rules; non-trivial: depth three or more and three or more elements",
		assumptions: []string{"content that needs no escaping"},
		subs: []sub{
			gsub[*DocCase]{id: "trees", quick: 30000, deep: 1500000, gen: func(g *G) *DocCase {
				sh := shape{strs: (*G).plainText, comment: (*G).plainText, cdata: (*G).plainText, pi: (*G).plainText, maxNodes: 40, deep: 60, next: g.chance(1, 4), dtd: g.bit()}
				if g.bit() {
					sh.noText = true
				}
				c := g.docCase(sh)
				g.indentConf(&c.Conf)
				return c
			}, check: indentExact},
			manySub(100, 4000, true, shape{strs: (*G).plainText, comment: (*G).plainText, cdata: (*G).plainText, pi: (*G).plainText}, (*G).indentConf, func(c *DocCase, st *Stats) error {
				if !c.Conf.Indent {
					return nil
				}
				return indentExact(c, st)
			}),
		},
	}
	checks["C16"] = &propCheck{
		rule:        "documents rich in empty and nearly empty elements, in drawn styles and endings; non-trivial: at least one element without children",
		assumptions: []string{"an explicit Next call counts as the start of content"},
		subs: []sub{
			gsub[*DocCase]{id: "empty", quick: 30000, deep: 1500000, gen: func(g *G) *DocCase {
				c := g.docCase(shape{next: true, strs: (*G).plainText, cdata: (*G).plainText, comment: (*G).plainText, pi: (*G).plainText, ns: g.chance(1, 4), maxNodes: 25})
				if g.chance(1, 3) {
					g.indentConf(&c.Conf)
				}
				return c
			}, check: emptyForm},
			manySub(100, 5000, true, shape{next: true, strs: (*G).plainText, cdata: (*G).plainText, comment: (*G).plainText, pi: (*G).plainText}, sometimesIndented, emptyForm),
		},
	}
}

// wellFormed only asks for well-formedness of what was accepted.
func wellFormed(c *DocCase, st *Stats) error {
	ops, l := c.Doc.ops(c.Styles, c.Only)
	r := runOps(c.Conf, ops, true)
	if r.err() != nil {
		st.class("rejected")
		return nil
	}
	evs, err := parseXML(r.out, 0)
	if err != nil {
		return fmt.Errorf("accepted, but %v%s", err, ctxOf(ops, r.out))
	}
	ds := c.Doc.stats()
	starts := 0
	for _, e := range evs {
		if e.T == "start" {
			starts++
		}
	}
	if starts != ds.elems {
		return fmt.Errorf("the parsed document has %d elements, %d were written%s", starts, ds.elems, ctxOf(ops, r.out))
	}
	ds.classify(st)
	formsOf(st, l)
	st.nontrivial(ds.elems >= 2 && ds.nodes >= 3)
	return nil
}

func emptyForm(c *DocCase, st *Stats) error {
	ops, l := c.Doc.ops(c.Styles, c.Only)
	out, err := accepted(c.Conf, ops)
	if err != nil {
		return err
	}
	got, err := parseXML(out, 0)
	if err != nil {
		return fmt.Errorf("%v%s", err, ctxOf(ops, out))
	}
	var want, have []string
	for _, e := range c.Doc.events(c.Conf) {
		if e.T == "start" || e.T == "end" {
			want = append(want, fmt.Sprintf("%s %s short=%v", e.T, e.Name, e.Short))
		}
	}
	for _, e := range got {
		if e.T == "start" || e.T == "end" {
			have = append(have, fmt.Sprintf("%s %s short=%v", e.T, e.Name, e.Short))
		}
	}
	for i := 0; i < len(want) && i < len(have); i++ {
		if want[i] != have[i] {
			return fmt.Errorf("tag %d: want %s, got %s%s", i, want[i], have[i], ctxOf(ops, out))
		}
	}
	if len(want) != len(have) {
		return fmt.Errorf("want %d tags, got %d%s", len(want), len(have), ctxOf(ops, out))
	}
	empty := false
	for _, n := range allNodes(c.Doc) {
		if n.K == "elem" && len(n.Kids) == 0 {
			empty = true
			if n.Full {
				st.class("empty, full")
			} else {
				st.class("empty, short")
			}
		}
		if n.K == "elem" && len(n.Kids) == 1 && n.Kids[0].K == "text" && n.Kids[0].S == "" {
			st.class("only an empty text")
		}
		if n.K == "elem" && len(n.Kids) == 1 && n.Kids[0].K == "next" {
			st.class("opened explicitly")
		}
	}
	formsOf(st, l)
	st.nontrivial(empty)
	return nil
}
