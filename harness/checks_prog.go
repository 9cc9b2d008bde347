package main

// Checks on call histories against the executable specification in spec.go.

import (
	"fmt"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

// ProgCase is a sequence of calls, valid and invalid.
type ProgCase struct {
	Ops  []*Op
	Conf Conf
}

// progStyle says how a program is made.
type progStyle struct {
	max     int  // calls
	invalid int  // chance in 16 that a call is meant to be rejected
	fields  int  // of the invalid ones, chance in 16 that a field is invalid (else the nesting or the end)
	ends    int  // chance in 16 of an ending call
	ns      bool // prefixes and URIs
	loose   bool // sometimes non-strict characters
	stop    bool // stop after the first rejection that is not traceless
	raw     bool // raw text
	deep    int  // leading starts of nested elements
}

type progGen struct {
	g  *G
	d  *docgen
	m  *model
	ps progStyle
	c  *ProgCase
}

func (g *G) prog(ps progStyle) *ProgCase {
	sh := shape{ns: ps.ns, dtd: true, strs: func(g *G) string { return g.str(true) }, cdata: shortCdata, comment: shortComment, deep: 12, uris: []string{"urn:a", "urn:b", "a\tb\n\"&<>'"}, prefixes: []string{"p", "q"}}
	tmp := &docgen{g: g, sh: sh}
	tmp.sh.pi, tmp.sh.name = (*G).piText, (*G).ncname
	p := &progGen{g: g, d: tmp, ps: ps, c: &ProgCase{}}
	if ps.loose && g.chance(1, 4) {
		p.c.Conf.Loose = true
		p.c.Conf.After = g.bit()
	}
	p.m = newModel(!p.c.Conf.Loose)
	for i, n := 0, p.deepStart(); i < n; i++ {
		if !p.add(&Op{Do: "start", N: []*Node{{K: "elem", Name: Str(g.ncname())}}}) {
			return p.c
		}
	}
	n := g.in(1, ps.max)
	if g.bit() {
		n = g.in(1, ps.max/3+1)
	}
	for i := 0; i < n; i++ {
		if !p.add(p.op()) {
			break
		}
	}
	return p.c
}

func (p *progGen) deepStart() int {
	if p.ps.deep > 0 && p.g.chance(1, 3) {
		return p.g.in(0, p.ps.deep)
	}
	return 0
}

func shortCdata(g *G) string {
	return strings.ReplaceAll(onlyChars(g.str(false), true), "]]>", "]]+>")
}

func shortComment(g *G) string {
	s := onlyChars(g.str(false), true)
	for strings.Contains(s, "--") {
		s = strings.ReplaceAll(s, "--", "-+")
	}
	if strings.HasSuffix(s, "-") {
		s += "."
	}
	return s
}

// add appends the call unless it leaves the domain; false ends the program.
func (p *progGen) add(o *Op) bool {
	if o == nil {
		return true
	}
	r := p.m.step(o)
	if p.m.excl != "" {
		return false
	}
	p.c.Ops = append(p.c.Ops, o)
	return r == nil || r.atomic && p.m.acts == 0
}

func (p *progGen) op() *Op {
	g := p.g
	if k := len(p.c.Ops); k > 0 && g.chance(1, 12) {
		// the same call again, whether it was accepted or not
		o := *p.c.Ops[k-1]
		return &o
	}
	if g.n(16) < p.ps.invalid {
		if g.n(16) < p.ps.fields {
			return p.child(true)
		}
		switch g.n(3) {
		case 0:
			return p.wrongEnd()
		case 1:
			return p.emit(p.node(allKinds[g.n(len(allKinds)-1)]))
		}
		return p.anyEnd()
	}
	if g.n(16) < p.ps.ends {
		return p.goodEnd()
	}
	if g.chance(1, 24) {
		return &Op{Do: pick(g, "next", "flush")}
	}
	return p.child(false)
}

// child writes or starts something the innermost node may contain.
func (p *progGen) child(bad bool) *Op {
	g := p.g
	top := p.m.topKind()
	var ks []string
	for _, k := range allKinds {
		if k == "raw" && !p.ps.raw {
			continue
		}
		if mayContain(top, k) {
			if k == "attr" && p.m.top() != nil && p.m.top().opened && !g.chance(1, 8) {
				continue
			}
			if top == "" && k != "elem" && k != "doc" && !g.chance(1, 4) {
				continue
			}
			ks = append(ks, k)
			if top == "elem" && k == "elem" {
				ks = append(ks, k)
			}
		}
	}
	if len(ks) == 0 {
		return p.goodEnd()
	}
	n := p.node(ks[g.n(len(ks))])
	if bad {
		p.spoil(n)
	}
	return p.emit(n)
}

func startsOnly(k string) bool { return k == "doc" || k == "dtd" }
func starts(k string) bool {
	for _, s := range startKinds {
		if s == k {
			return true
		}
	}
	return false
}

func (p *progGen) emit(n *Node) *Op {
	g := p.g
	if startsOnly(n.K) || starts(n.K) && g.bit() {
		if g.chance(1, 12) {
			var kids []*Node
			for i, k := 0, g.few(3); i < k; i++ {
				kids = append(kids, p.simpleChild(n.K))
			}
			h := *n
			return &Op{Do: "block", N: append([]*Node{&h}, kids...)}
		}
		o := &Op{Do: "start", Typed: g.bit(), N: []*Node{n}}
		if g.chance(1, 12) && (n.K == "elem" || n.K == "doc") {
			for k := g.few(6); k >= 0; k-- {
				o.N = append(o.N, p.node("elem"))
			}
		}
		return o
	}
	o := &Op{Do: "write", Typed: g.bit(), N: []*Node{n}}
	if g.chance(1, 8) {
		k := p.node(pick(g, "elem", "comment", "pi", "text", n.K))
		if g.chance(1, 3) {
			h := *n
			k = &h
		}
		if !startsOnly(k.K) && (n.K != "attr" || k.K == "attr") {
			if n.K == "attr" {
				o.Typed = true
			} else {
				o.Typed = false
			}
			o.N = append(o.N, k)
		}
	}
	return o
}

func (p *progGen) simpleChild(parent string) *Node {
	g := p.g
	var ks []string
	for _, k := range allKinds {
		if k != "raw" && !startsOnly(k) && mayContain(parent, k) {
			ks = append(ks, k)
		}
	}
	return p.node(ks[g.n(len(ks))])
}

// node draws a valid node.
func (p *progGen) node(k string) *Node {
	g, d := p.g, p.d
	switch k {
	case "doc":
		return g.declNode()
	case "dtd":
		n := d.dtd()
		n.Kids = nil
		return n
	case "attlist":
		return d.attList()
	case "elem":
		n := d.elemNode()
		if len(n.Attrs) > 4 {
			n.Attrs = n.Attrs[:4]
		}
		d.budget = g.few(3)
		if d.budget > 0 {
			d.fill(n, 2)
		}
		return n
	case "comment":
		return &Node{K: k, S: Str(shortComment(g))}
	case "cdata":
		return &Node{K: k, S: Str(shortCdata(g))}
	case "text":
		return &Node{K: k, S: Str(g.str(true))}
	case "raw":
		return &Node{K: k, S: Str(g.str(true))}
	case "ccontent":
		s := shortComment(g)
		if g.chance(1, 3) {
			s = pick(g, "-", "a-", "-a", "", "- ")
		}
		return &Node{K: k, S: Str(s)}
	case "dcontent":
		s := shortCdata(g)
		if g.chance(1, 3) {
			s = pick(g, "]", "]]", ">", "]>", "a]", "", ">a", "]]]")
		}
		return &Node{K: k, S: Str(s)}
	case "pi":
		return d.pi()
	case "attr":
		e := &Node{K: "elem"}
		d.attrs(e, 1)
		a := e.Attrs[0]
		if t := p.m.top(); t != nil {
			for i := 0; ; i++ {
				dup := false
				for _, x := range t.attrs {
					if x.K == a.fullName() {
						dup = true
					}
				}
				if !dup {
					break
				}
				a.Name = Str(fmt.Sprintf("%s%d", a.Name, i))
			}
		}
		return a
	case "dtdelem":
		return &Node{K: k, Name: Str(g.ncname()), S: Str(g.contentModel())}
	case "entity":
		n := d.entity()
		n.S = Str(strings.NewReplacer("&", "+", "%", "+").Replace(string(n.S)))
		return n
	case "dtdattr":
		return d.dtdAttr(&Node{K: "attlist"})
	case "notation":
		return d.notation()
	}
	harnessFail("node %s", k)
	return nil
}

// spoil makes a field invalid, or at least unusual.
func (p *progGen) spoil(n *Node) {
	g := p.g
	var s string
	switch g.n(4) {
	case 0:
		s = g.badName()
	case 1:
		s = pick(g, "", "--", "a-", "]]>", "?>", "\x00", "\xff", "\uFFFE", "xml", "XmL", "\"'", "'", "\"", "\x7f", "\u0085", "{", "é", "0a", "-a", "a b", "A\xc3", "\x1f", "a'b\"c", "a\"b'c", "'\"", "'a\"", "\"a'", "a--", "]]", "?", ">")
	default:
		s = g.str(true)
	}
	t := n
	if len(n.Attrs) > 0 && g.bit() {
		t = n.Attrs[g.n(len(n.Attrs))]
	} else if len(n.Kids) > 0 && g.bit() {
		t = n.Kids[g.n(len(n.Kids))]
		for len(t.Kids) > 0 && g.bit() {
			t = t.Kids[g.n(len(t.Kids))]
		}
	}
	switch t.K {
	case "ccontent", "dcontent", "raw":
		t.S = Str(s)
	case "comment", "cdata":
		t.S = Str(s)
		t.Chunks = nil
	case "dtdattr":
		switch g.n(4) {
		case 0:
			t.Def = g.in(-1, 6)
			t.S = Str(s)
		case 1:
			t.Type = ""
		default:
			applyWild(t, g.n(8), Str(s))
		}
	case "dtdelem":
		if g.bit() {
			t.S = ""
		} else {
			t.Name = Str(s)
		}
	case "entity":
		switch g.n(4) {
		case 0:
			t.NDat = Str(pick(g, "nd", s))
		case 1:
			t.PE = !t.PE
			t.NDat = "nd"
		default:
			applyWild(t, int(g.bits(4)), Str(s))
		}
		if t.Sys == "" {
			t.S = Str(strings.NewReplacer("&", "+", "%", "+").Replace(string(t.S)))
		}
	case "doc":
		x := Str(s)
		if g.bit() {
			x = Str(pick(g, "latin-1", "utf-16", "1a", "", "a b", "x_y.z-1", "é", "-x", "UTF_8"))
		}
		t.Enc = &x
	default:
		applyWild(t, int(g.bits(4)), Str(s))
	}
}

func (p *progGen) goodEnd() *Op {
	g := p.g
	t := p.m.top()
	if t == nil {
		return p.child(false)
	}
	o := &Op{Do: "end", Typed: g.bit(), Kind: t.n.K}
	switch g.n(12) {
	case 0:
		return &Op{Do: "endany"}
	case 1:
		if g.bit() {
			return &Op{Do: pick(g, "endall", "endallflush")}
		}
		return &Op{Do: "endany"}
	case 2:
		if p.m.stack[0].n.K == "doc" && g.bit() {
			return &Op{Do: "enddoc"}
		}
	case 3, 4:
		k := g.n(len(p.m.stack))
		if g.bit() && len(p.m.stack) > 1 {
			k = len(p.m.stack) - 2
		}
		if k < len(p.m.stack) {
			n := p.m.stack[k].n
			o = &Op{Do: "endto", Depth: k, Kind: n.K}
			p.endName(n, o)
			return o
		}
	case 5:
		if t.n.K == "elem" {
			o = &Op{Do: "endfull"}
		}
	}
	p.endName(t.n, o)
	if o.Typed && o.Kind == "doc" {
		o.Typed = false
	}
	return o
}

func (p *progGen) endName(n *Node, o *Op) {
	switch n.K {
	case "elem":
		switch p.g.n(3) {
		case 1:
			o.Names = []Str{n.Name}
		case 2:
			o.Names = []Str{n.Prefix, n.Name}
		}
	case "dtd", "attlist":
		if p.g.bit() {
			o.Names = []Str{n.Name}
		}
	}
}

// anyEnd ends by an arbitrary kind and names.
func (p *progGen) anyEnd() *Op {
	g := p.g
	o := &Op{Do: "end", Typed: g.bit(), Kind: startKinds[g.n(len(startKinds))]}
	if g.chance(1, 8) {
		o.Kind = allKinds[g.n(len(allKinds))]
	}
	if o.Kind == "doc" {
		o.Typed = false
	}
	for i, n := 0, g.few(3); i < n; i++ {
		o.Names = append(o.Names, Str(pick(g, "", "a", "p", "n", "elem")))
	}
	if o.Kind == "elem" && g.chance(1, 3) {
		o.Do = "endfull"
	}
	return o
}

// wrongEnd is a nearly right end.
func (p *progGen) wrongEnd() *Op {
	g := p.g
	t := p.m.top()
	if t == nil {
		return &Op{Do: pick(g, "endany", "enddoc", "endall")}
	}
	o := &Op{Do: "end", Typed: g.bit(), Kind: t.n.K}
	nm := t.n.Name
	full := t.n.fullName()
	switch g.n(8) {
	case 0:
		o.Names = []Str{nm + "x"}
	case 1:
		o.Names = []Str{t.n.Prefix + "x", nm}
	case 2:
		o.Names = []Str{t.n.Prefix, nm + "y"}
	case 3:
		o.Names = []Str{nm, t.n.Prefix}
	case 4:
		o.Names = []Str{t.n.Prefix, nm, ""}
	case 5:
		if len(p.m.stack) > 1 {
			below := p.m.stack[len(p.m.stack)-2].n
			o.Kind = below.K
			o.Names = []Str{below.Name}
			if g.bit() {
				o.Names = nil
			}
		} else {
			o.Names = []Str{Str(full)}
		}
	case 6: // the same full name, split elsewhere
		if k := strings.IndexByte(full, ':'); k >= 0 {
			if j := strings.LastIndexByte(full, ':'); g.bit() {
				k = j
			}
			o.Names = []Str{Str(full[:k]), Str(full[k+1:])}
		} else {
			o.Names = []Str{nm, ""}
		}
	case 7:
		o.Names = []Str{"", Str(full)}
		if g.bit() {
			o.Names = []Str{Str(full)}
		}
	}
	if o.Kind == "elem" && g.chance(1, 3) {
		o.Do = "endfull"
	}
	if g.chance(1, 5) {
		o.Do = "endto"
		o.Depth = len(p.m.stack) - 1
		if g.bit() {
			o.Depth = g.n(len(p.m.stack))
		}
	}
	if g.chance(1, 10) { // what is right for the innermost node, for another
		o = &Op{Do: "endto", Depth: g.n(len(p.m.stack)), Kind: t.n.K}
		p.endName(t.n, o)
	}
	if o.Do == "end" && o.Typed && o.Kind == "doc" {
		o.Typed = false
	}
	return o
}

// want selects what lockstep decides.
type want struct {
	verdicts bool
	depth    bool
	output   bool
	indenter bool
}

type lockRes struct {
	accepted, rejected, partial, ends, rejEnds, maxDepth int
	compared                                             bool
	kinds                                                map[string]bool
	rejKinds                                             map[string]bool
	nsDecls                                              int
}

// lockstep runs the calls on the writer and on the specification.
func lockstep(c *ProgCase, wt want) (*lockRes, error) {
	s := &sink{}
	w := c.Conf.open(s)
	m := newModel(!c.Conf.Loose)
	m.nl = c.Conf.nl()
	m.x.conf = c.Conf
	res := &lockRes{kinds: map[string]bool{}, rejKinds: map[string]bool{}}
	over := false
	for i, o := range c.Ops {
		before := len(m.stack)
		err := o.exec(w)
		r := m.step(o)
		if m.excl != "" {
			return res, nil
		}
		fail := func(f string, a ...interface{}) error {
			w.Flush()
			return fmt.Errorf("call %d %s: %s\noutput so far: %s\ncalls:\n%s", i, trunc(o.String(), 500), fmt.Sprintf(f, a...), show(string(s.b)), opsString(c.Ops))
		}
		if wt.verdicts {
			if err != nil && r == nil {
				return res, fail("was rejected (%v), but nothing forbids it", err)
			}
			if err == nil && r != nil {
				return res, fail("was accepted, but %s", r.why)
			}
		} else if (err != nil) != (r != nil) {
			return res, nil // decided by another property
		}
		kind := o.Kind
		if len(o.N) > 0 {
			kind = o.N[0].K
		}
		isEnd := strings.HasPrefix(o.Do, "end")
		if err == nil {
			res.accepted++
			res.kinds[o.Do+" "+kind] = true
			if isEnd {
				res.ends++
			}
		} else {
			res.rejected++
			res.rejKinds[o.Do+" "+kind] = true
			if isEnd {
				res.rejEnds++
			}
		}
		if r != nil && !(r.atomic && m.acts == 0) {
			res.partial++
			if !r.atomic {
				over = true
				break
			}
		}
		if wt.depth {
			if d := w.Depth() - freshDepth(); d != len(m.stack) {
				return res, fail("depth is %d, %d nodes should be open", d, len(m.stack))
			}
		}
		if r != nil && m.acts > 0 {
			over = true
			break
		}
		_ = before
		if len(m.stack) > res.maxDepth {
			res.maxDepth = len(m.stack)
		}
	}
	if over || !wt.output || m.opaque {
		return res, nil
	}
	o := &Op{Do: "endall"}
	err := o.exec(w)
	r := m.step(o)
	if m.excl != "" {
		return res, nil
	}
	if (err == nil) != (r == nil) {
		if !wt.verdicts {
			return res, nil
		}
		return res, fmt.Errorf("closing everything: error %v, expected %v\ncalls:\n%s", err, r, opsString(c.Ops))
	}
	if r != nil {
		return res, nil
	}
	if err := w.Flush(); err != nil {
		return res, fmt.Errorf("flush: %v", err)
	}
	if wt.depth {
		if d := w.Depth() - freshDepth(); d != 0 {
			return res, fmt.Errorf("depth is %d after ending everything\ncalls:\n%s", d, opsString(c.Ops))
		}
	}
	m.x.flush()
	if m.opaque {
		return res, nil
	}
	out := string(s.b)
	got, err := parseXML(out, 1)
	if err != nil {
		return res, fmt.Errorf("%v\noutput: %s\ncalls:\n%s", err, show(out), opsString(c.Ops))
	}
	if d := diffEvents(m.x.evs, got); d != "" {
		return res, fmt.Errorf("the output reads back differently: %s\noutput: %s\ncalls:\n%s", d, show(out), opsString(c.Ops))
	}
	for _, e := range got {
		res.nsDecls += len(e.NS)
	}
	res.compared = true
	return res, nil
}

func (r *lockRes) classify(st *Stats) {
	for k := range r.rejKinds {
		st.class("rejected: %s", k)
	}
	switch {
	case r.maxDepth > 8:
		st.class("depth>8")
	case r.maxDepth > 3:
		st.class("depth 4-8")
	}
	if r.compared {
		st.class("output compared")
	}
}

// FieldCase: one node with any field values under a parent that may hold it.
type FieldCase struct {
	Parent string
	Node   *Node
	Loose  bool `json:",omitempty"`
	Start  bool `json:",omitempty"`
	Typed  bool `json:",omitempty"`
}

func (c *FieldCase) prog() *ProgCase {
	p := &ProgCase{Conf: Conf{Loose: c.Loose}}
	if c.Parent != "" {
		p.Ops = append(p.Ops, &Op{Do: "start", N: []*Node{sampleNode(c.Parent)}})
	}
	o := &Op{Do: "write", Typed: c.Typed, N: []*Node{c.Node}}
	if startsOnly(c.Node.K) || c.Start && starts(c.Node.K) {
		o.Do = "start"
	}
	p.Ops = append(p.Ops, o)
	if o.Do == "start" {
		p.Ops = append(p.Ops, &Op{Do: "end", Kind: c.Node.K})
	}
	return p
}

// ChunkCase: one content split in two ways.
type ChunkCase struct {
	K     string
	S     Str
	Cuts  []int // positions, modulo length
	Loose bool  `json:",omitempty"`
	Mode  int
}

func (c *ChunkCase) split() []Str {
	s := string(c.S)
	cut := map[int]bool{}
	for _, k := range c.Cuts {
		k %= len(s) + 1
		for k < len(s) && k > 0 && s[k]&0xC0 == 0x80 {
			k++
		}
		cut[k] = true
	}
	var out []Str
	last := 0
	for i := 0; i <= len(s); i++ {
		if cut[i] {
			out = append(out, Str(s[last:i]))
			last = i
		}
	}
	return append(out, Str(s[last:]))
}

func (c *ChunkCase) run(parts []Str, upfront int) (ok bool, out string) {
	s := &sink{}
	conf := Conf{Loose: c.Loose}
	w := conf.open(s)
	if w.Start(xw.Elem{Name: "e"}) != nil {
		return false, ""
	}
	n := &Node{K: c.K}
	ck := "ccontent"
	if c.K == "cdata" {
		ck = "dcontent"
	}
	var errs []error
	do := func(o *Op) { errs = append(errs, o.exec(w)) }
	if upfront == 1 {
		n.S, parts = parts[0], parts[1:]
	}
	if upfront == 2 { // everything in one
		var b strings.Builder
		for _, p := range parts {
			b.WriteString(string(p))
		}
		n.S = Str(b.String())
		do(&Op{Do: "write", N: []*Node{n}})
	} else {
		do(&Op{Do: "start", N: []*Node{n}})
		for _, p := range parts {
			do(&Op{Do: "write", N: []*Node{{K: ck, S: p}}})
		}
		do(&Op{Do: "end", Kind: c.K})
	}
	for _, e := range errs {
		if e != nil {
			return false, ""
		}
	}
	if w.EndAllFlush() != nil {
		return false, ""
	}
	return true, string(s.b)
}

func chunkCheck(c *ChunkCase, st *Stats) error {
	s := string(c.S)
	valid := wantChars(s, !c.Loose)
	if c.K == "comment" {
		valid = valid && !strings.Contains(s, "--") && !strings.HasSuffix(s, "-")
	} else {
		valid = valid && !strings.Contains(s, "]]>")
	}
	parts := c.split()
	okWhole, outWhole := c.run(parts, 2)
	okSplit, outSplit := c.run(parts, c.Mode%2)
	if okWhole != valid {
		return fmt.Errorf("%s content %q: accepted=%v, allowed=%v", c.K, s, okWhole, valid)
	}
	if okSplit != valid {
		return fmt.Errorf("%s content %q split into %q: accepted=%v, allowed=%v", c.K, s, parts, okSplit, valid)
	}
	if valid && outWhole != outSplit {
		return fmt.Errorf("%s content %q split into %q is written differently: %q and %q", c.K, s, parts, outSplit, outWhole)
	}
	st.nontrivial(len(parts) > 1)
	if valid {
		st.class("%s valid", c.K)
	} else {
		st.class("%s invalid", c.K)
	}
	return nil
}

// ParentCase: a chain of open nodes, some history on the innermost, and a child.
type ParentCase struct {
	Chain []string
	Hist  int
	Child string
	Start bool
}

// chains are all ways to have up to four nodes open.
func chains() [][]string {
	out := [][]string{nil}
	last := [][]string{nil}
	for d := 0; d < 4; d++ {
		var next [][]string
		for _, c := range last {
			top := ""
			if len(c) > 0 {
				top = c[len(c)-1]
			}
			for _, k := range startKinds {
				if mayContain(top, k) {
					next = append(next, append(append([]string{}, c...), k))
				}
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func parentCases() []*ParentCase {
	var out []*ParentCase
	for _, c := range chains() {
		for h := 0; h < 5; h++ {
			for _, k := range allKinds {
				if !startsOnly(k) {
					out = append(out, &ParentCase{c, h, k, false})
				}
				if starts(k) {
					out = append(out, &ParentCase{c, h, k, true})
				}
			}
		}
	}
	return out
}

func (c *ParentCase) prog() *ProgCase {
	p := &ProgCase{}
	var all []*Node
	for _, k := range c.Chain {
		all = append(all, sampleNode(k))
		if k == "comment" || k == "cdata" {
			all[len(all)-1].S = ""
		}
	}
	if len(all) > 0 {
		p.Ops = append(p.Ops, &Op{Do: "start", N: all})
	}
	top := ""
	if len(c.Chain) > 0 {
		top = c.Chain[len(c.Chain)-1]
	}
	first := map[string]string{"": "comment", "doc": "comment", "dtd": "comment", "elem": "text", "comment": "ccontent", "cdata": "dcontent", "attlist": "dtdattr"}[top]
	switch c.Hist {
	case 1: // something simple was written inside
		p.Ops = append(p.Ops, &Op{Do: "write", N: []*Node{sampleNode(first)}})
	case 2: // opened explicitly
		p.Ops = append(p.Ops, &Op{Do: "next"})
	case 3: // a node was started and ended inside
		for _, k := range []string{"elem", "comment", "attlist"} {
			if mayContain(top, k) {
				n := sampleNode(k)
				n.S = ""
				p.Ops = append(p.Ops, &Op{Do: "start", N: []*Node{n}}, &Op{Do: "endany"})
				break
			}
		}
	case 4: // an attribute was written, or a rejected call made
		if top == "elem" {
			p.Ops = append(p.Ops, &Op{Do: "write", N: []*Node{{K: "attr", Name: "q", S: "v"}}})
		} else {
			p.Ops = append(p.Ops, &Op{Do: "end", Kind: "text"})
		}
	}
	o := &Op{Do: "write", N: []*Node{sampleNode(c.Child)}}
	if c.Start {
		o.Do = "start"
	}
	if c.Child == "raw" {
		o.N[0].S = ""
	}
	p.Ops = append(p.Ops, o)
	return p
}

// DeferCase: a document with one invalid item somewhere.
type DeferCase struct {
	Doc    *Doc
	At     int // which node of the walk receives it
	How    int
	Pos    int
	Styles []int
	Only   int `json:",omitempty"`
	Indent bool
}

var badKids = []*Node{
	{K: "elem", Name: "0"}, {K: "elem", Name: ""}, {K: "elem", Name: "a b"}, {K: "elem", URI: "u"}, {K: "comment", S: "a--b"}, {K: "comment", S: "x-"}, {K: "comment", S: "\x01"},
	{K: "cdata", S: "a]]>b"}, {K: "cdata", S: "\uFFFE"}, {K: "pi", Name: "xml", S: "x"}, {K: "pi", Name: "p", S: "?>"}, {K: "pi", Name: "a b"},
	{K: "elem", Name: "ok", Attrs: []*Node{{K: "attr", Name: "<", S: "v"}}}, {K: "elem", Name: "ok", Attrs: []*Node{{K: "attr", Name: "x", S: "v"}, {K: "attr", Name: "", S: "v"}}},
	{K: "elem", Name: "ok", Attrs: []*Node{{K: "attr", Prefix: "p", URI: "u", Name: "x"}, {K: "attr", Prefix: "p", URI: "v", Name: "y"}}},
	{K: "elem", Name: "ok", Prefix: "p", URI: "u", Attrs: []*Node{{K: "attr", Prefix: "p", URI: "v", Name: "y"}}},
	{K: "raw", S: "x"}, {K: "attr", Name: "a", S: "v"}, {K: "ccontent", S: "x"}, {K: "dcontent", S: "x"}, {K: "dtdelem", Name: "e", S: "EMPTY"}, {K: "entity", Name: "e", S: "v"},
	{K: "attlist", Name: "e"}, {K: "dtdattr", Name: "e", Type: "CDATA"}, {K: "notation", Name: "e", Sys: "s"},
	{K: "elem", Name: "ok", Kids: []*Node{{K: "elem", Name: "in", Kids: []*Node{{K: "comment", S: "--"}}}}},
	{K: "elem", Name: "ok", Kids: []*Node{{K: "text", S: "t"}, {K: "cdata", S: "]]>"}, {K: "text", S: "u"}}},
	{K: "elem", Name: "ok", Full: true, Kids: []*Node{{K: "pi", Name: "q", S: "?>"}}},
}

var badDTDAttrs = []*Node{
	{K: "dtdattr", Name: "", Type: "CDATA"}, {K: "dtdattr", Name: "a b", Type: "CDATA"}, {K: "dtdattr", Name: "x", Type: ""}, {K: "dtdattr", Name: "x", Type: "ID", Def: 2, S: "v"},
	{K: "dtdattr", Name: "x", Type: "ID", Def: 3, S: "v"}, {K: "dtdattr", Name: "x", Type: "ID", Def: 9},
	{K: "dtdattr"}, {K: "dtdattr", S: "v"}, {K: "dtdattr", Def: 1}, {K: "dtdattr", Type: "CDATA", Def: 4, S: "v"},
}

// inject puts the invalid item into a clone of the document.
func (c *DeferCase) inject() (*Doc, string) {
	d := cloneDoc(c.Doc)
	var hosts []*Node
	for _, n := range allNodes(d) {
		if n.K == "elem" || n.K == "attlist" || n.K == "comment" || n.K == "cdata" {
			hosts = append(hosts, n)
		}
	}
	h := hosts[c.At%len(hosts)]
	ins := func(list []*Node, n *Node) []*Node {
		k := c.Pos % (len(list) + 1)
		out := append([]*Node{}, list[:k]...)
		out = append(out, n)
		return append(out, list[k:]...)
	}
	switch h.K {
	case "elem":
		switch c.How % 8 {
		case 0:
			a := &Node{K: "attr", Name: Str([]string{"", "0", "a b", "x\x00", "é<"}[c.Pos%5]), S: "v"}
			switch c.How / 8 % 4 {
			case 0:
				a.S = ""
			case 1:
				a.URI = "u"
			}
			h.Attrs = ins(h.Attrs, a)
			return d, "attribute"
		case 1:
			h.Name = Str([]string{"", "0", "a b", "x\x00", "é<"}[c.Pos%5])
			if h.Name == "" {
				h.Prefix = ""
			}
			return d, "element name"
		}
		b := cloneNode(badKids[c.How%len(badKids)])
		h.Kids = ins(h.Kids, b)
		return d, "content: " + b.K
	case "attlist":
		h.Attrs = ins(h.Attrs, cloneNode(badDTDAttrs[c.How%len(badDTDAttrs)]))
		return d, "attribute list entry"
	case "comment":
		s := h.content()
		k := c.Pos % (len(s) + 1)
		h.Chunks, h.S = nil, Str(s[:k]+[]string{"--", "\x00", "\x7f", "\xff"}[c.How%4]+s[k:])
		return d, "comment content"
	}
	s := h.content()
	k := c.Pos % (len(s) + 1)
	h.Chunks, h.S = nil, Str(s[:k]+[]string{"]]>", "\x00", "\uFFFF", "\xff"}[c.How%4]+s[k:])
	return d, "cdata content"
}

func deferCheck(c *DeferCase, st *Stats) error {
	d, what := c.inject()
	// some items can only be given up front: keep those in content lists
	only := c.Only
	ops, l := d.ops(c.Styles, only)
	m := newModel(true)
	at := -1
	for i, o := range ops {
		r := m.step(o)
		if m.excl != "" {
			st.class("excluded: %s", m.excl)
			return nil
		}
		if r != nil {
			at = i
			break
		}
	}
	if at < 0 {
		st.class("valid where the drawn style puts it") // streamed attributes and raw text, a prefix that makes the name valid
		return nil
	}
	deadline := at
	switch o := ops[at]; {
	case o.Do == "write" || o.Do == "block" || strings.HasPrefix(o.Do, "end"):
	default:
		deadline = len(ops) - 1
	}
	conf := Conf{Indent: c.Indent}
	s := &sink{}
	w := conf.open(s)
	for i, o := range ops {
		if err := o.exec(w); err != nil {
			st.class("injected: %s", what)
			st.class("trigger: %s", ops[at].Do)
			formsOf(st, l)
			st.nontrivial(true)
			if i > deadline {
				return fmt.Errorf("invalid %s: no error until call %d (%v), call %d had to report it\ncalls:\n%s", what, i, err, at, opsString(ops))
			}
			return nil
		}
		if i == deadline {
			w.Flush()
			return fmt.Errorf("invalid %s: no call up to %d reported an error\noutput: %s\ncalls:\n%s", what, i, show(string(s.b)), opsString(ops))
		}
	}
	return fmt.Errorf("invalid %s: no call reported an error\ncalls:\n%s", what, opsString(ops))
}

// TraceCase: an accepted program and rejected calls to put into it.
type TraceCase struct {
	Ops  []*Op
	Conf Conf
}

// withoutRejected drops the calls the specification rejects without a trace.
func traceless(ops []*Op, loose bool) (kept []*Op, dropped []int, ok bool) {
	m := newModel(!loose)
	for i, o := range ops {
		r := m.step(o)
		if m.excl != "" {
			return nil, nil, false
		}
		if r == nil {
			kept = append(kept, o)
			continue
		}
		if !r.atomic || m.acts > 0 {
			return kept, dropped, true // the program ends before this call
		}
		kept = append(kept, nil)
		dropped = append(dropped, i)
	}
	return kept, dropped, true
}

func traceCheck(c *TraceCase, st *Stats) error {
	kept, dropped, ok := traceless(c.Ops, c.Conf.Loose)
	if !ok {
		return nil
	}
	s1, s2 := &sink{}, &sink{}
	w1, w2 := c.Conf.open(s1), c.Conf.open(s2)
	rej := 0
	for i, k := range kept {
		o := c.Ops[i]
		e1 := o.exec(w1)
		if k == nil {
			if e1 == nil {
				// decided by C04, C05 and C06; nothing to say about traces here
				return nil
			}
			rej++
			if w1.Depth() != w2.Depth() {
				return fmt.Errorf("call %d %s was rejected (%v) but changed the depth from %d to %d\ncalls:\n%s", i, trunc(o.String(), 400), e1, w2.Depth(), w1.Depth(), opsString(c.Ops))
			}
			kind := o.Kind
			if len(o.N) > 0 {
				kind = o.N[0].K
			}
			st.class("rejected: %s %s", o.Do, kind)
			continue
		}
		e2 := o.exec(w2)
		if (e1 == nil) != (e2 == nil) || w1.Depth() != w2.Depth() {
			return fmt.Errorf("call %d %s: error %v and depth %d with the rejected calls %v before it, error %v and depth %d without\ncalls:\n%s", i, trunc(o.String(), 400), e1, w1.Depth(), dropped, e2, w2.Depth(), opsString(c.Ops))
		}
	}
	e1, e2 := w1.EndAllFlush(), w2.EndAllFlush()
	if (e1 == nil) != (e2 == nil) {
		return fmt.Errorf("ending everything: error %v with the rejected calls %v, %v without\ncalls:\n%s", e1, dropped, e2, opsString(c.Ops))
	}
	w1.Flush()
	w2.Flush()
	if string(s1.b) != string(s2.b) {
		return fmt.Errorf("the rejected calls %v changed the output: %s\ncalls:\n%s", dropped, diffAt(string(s2.b), string(s1.b)), opsString(c.Ops))
	}
	st.nontrivial(rej > 0 && len(kept) > rej+1)
	st.Extra++
	return nil
}

func init() {
	all := want{verdicts: true, depth: true, output: true}
	pcs := parentCases()
	checks["C04"] = &propCheck{
		rule:        "every node kind with valid and invalid field values, content splits, and call sequences, each verdict compared with the specification's; non-trivial: a field is invalid, the content is split, or a sequence has a rejected and an accepted call",
		assumptions: []string{"free-form DTD fragments (types, content models, entity references), a forced version, duplicate attribute names and element prefixes without names are the caller's", "names beyond the basic multilingual plane, U+FFFD in names and empty PI targets are recorded findings"},
		known: []knownFinding{{"empty PI target", func() bool {
			return xw.Open(&sink{}).WritePI(xw.PI{Target: "", Content: "x"}) == nil
		}}},
		subs: []sub{
			gsub[*FieldCase]{id: "fields", quick: 200000, deep: 6000000, gen: func(g *G) *FieldCase {
				k := allKinds[g.n(len(allKinds)-1)]
				ps := parentsOf[k]
				c := &FieldCase{Parent: ps[g.n(len(ps))], Loose: g.chance(1, 3), Start: g.bit(), Typed: g.bit()}
				p := newProgGen(g)
				c.Node = p.node(k)
				for i, n := 0, g.in(0, 2); i < n; i++ {
					p.spoil(c.Node)
				}
				return c
			}, check: func(c *FieldCase, st *Stats) error {
				r, err := lockstep(c.prog(), want{verdicts: true, output: true})
				if err != nil {
					return err
				}
				if r.rejected > 0 {
					st.class("%s rejected", c.Node.K)
				} else {
					st.class("%s accepted", c.Node.K)
				}
				st.nontrivial(r.rejected > 0)
				return nil
			}},
			gsub[*ChunkCase]{id: "chunks", quick: 120000, deep: 6000000, gen: func(g *G) *ChunkCase {
				c := &ChunkCase{K: pick(g, "comment", "cdata"), Loose: g.chance(1, 4), Mode: g.n(2)}
				var b strings.Builder
				for i, n := 0, g.in(0, 7); i < n; i++ {
					if g.chance(1, 8) {
						b.WriteString(g.str(true))
					} else if c.K == "comment" {
						b.WriteString(pick(g, "-", "a", "--", "- ", "é", ">", "\n"))
					} else {
						b.WriteString(pick(g, "]", "]]", ">", "a", "]>", "]]>", "é", "[", "\n"))
					}
				}
				c.S = Str(b.String())
				for i, n := 0, g.few(5); i < n; i++ {
					c.Cuts = append(c.Cuts, int(g.bits(5)))
				}
				return c
			}, check: chunkCheck},
			esub[*ChunkCase]{id: "smallchunks", count: func(bool) int { return 2 * chunkEnum * 32 * 2 }, at: func(i int) *ChunkCase {
				c := &ChunkCase{K: []string{"comment", "cdata"}[i%2]}
				i /= 2
				c.Mode = i % 2
				i /= 2
				mask := i % 32
				i /= 32
				al := "-a>"
				if c.K == "cdata" {
					al = "]a>"
				}
				var s []byte
				for n := 0; n < 5; n++ { // base 4, zero ends the string
					x := i % 4
					i /= 4
					if x == 0 {
						break
					}
					s = append(s, al[x-1])
				}
				c.S = Str(s)
				for b := 0; b < 5; b++ {
					if mask>>b&1 == 1 && b <= len(s) {
						c.Cuts = append(c.Cuts, b)
					}
				}
				return c
			}, check: chunkCheck},
			gsub[*ProgCase]{id: "programs", quick: 40000, deep: 3000000, gen: func(g *G) *ProgCase {
				return g.prog(progStyle{max: 14, invalid: 5, fields: 12, ends: 4, ns: true, loose: true, deep: 10})
			}, check: func(c *ProgCase, st *Stats) error {
				r, err := lockstep(c, all)
				r.classify(st)
				st.nontrivial(r.rejected > 0 && r.accepted > 0)
				return err
			}},
		},
	}
	checks["C05"] = &propCheck{
		rule:        "every chain of up to four open nodes, five histories on the innermost, every child kind written or started (complete); random call sequences rich in misplaced nodes; non-trivial: the call under test is rejected, or the sequence has a rejected and an accepted call",
		assumptions: []string{"the table of parents in harness/checks_str.go is the documented hierarchy (doc.go), with anything allowed at the top level"},
		subs: []sub{
			esub[*ParentCase]{id: "matrix", count: func(bool) int { return len(pcs) }, at: func(i int) *ParentCase { return pcs[i] }, check: func(c *ParentCase, st *Stats) error {
				r, err := lockstep(c.prog(), all)
				st.nontrivial(r.rejected > 0)
				st.class("depth %d", len(c.Chain))
				return err
			}},
			gsub[*ProgCase]{id: "programs", quick: 60000, deep: 4000000, gen: func(g *G) *ProgCase {
				return g.prog(progStyle{max: 30, invalid: 5, fields: 0, ends: 4, ns: true, deep: 12, raw: g.chance(1, 4)})
			}, check: func(c *ProgCase, st *Stats) error {
				r, err := lockstep(c, all)
				r.classify(st)
				st.nontrivial(r.rejected > 0 && r.accepted > 0)
				return err
			}},
		},
	}
	checks["C06"] = &propCheck{
		rule:        "call sequences rich in starts and ends, right and wrong, with verdict and depth compared after every call and the output parsed at the end; non-trivial: two or more ends",
		assumptions: []string{"depth is compared as a difference from a fresh writer (recorded finding); ending a document when the bottom node is not one, and ending to a depth at or above the current one, are outside the property"},
		known: []knownFinding{{"absolute depth", func() bool {
			w := xw.Open(&sink{})
			return w.Depth() != 0
		}}},
		subs: []sub{
			gsub[*ProgCase]{id: "stack", quick: 60000, deep: 4000000, gen: func(g *G) *ProgCase {
				return g.prog(progStyle{max: 40, invalid: 4, fields: 0, ends: 8, ns: true, deep: 20})
			}, check: func(c *ProgCase, st *Stats) error {
				r, err := lockstep(c, all)
				r.classify(st)
				st.nontrivial(r.ends+r.rejEnds >= 2)
				return err
			}},
			gsub[*ProgCase]{id: "starts", quick: 30000, deep: 2000000, gen: func(g *G) *ProgCase { return g.stackProg() }, check: func(c *ProgCase, st *Stats) error {
				r, err := lockstep(c, all)
				r.classify(st)
				st.nontrivial(r.ends+r.rejEnds >= 2)
				return err
			}},
		},
	}
	checks["C10"] = &propCheck{
		rule:        "documents with one invalid item at a drawn place, lowered in drawn styles: an error is required no later than the call that ends its node; and valid documents written mostly up front, which must be written completely; non-trivial: the injected item made a call fail, or two or more elements",
		assumptions: []string{"items that are only invalid as content of a struct (raw text, attributes) are skipped when the drawn style streams them"},
		subs: []sub{
			gsub[*DeferCase]{id: "inject", quick: 60000, deep: 4000000, gen: func(g *G) *DeferCase {
				dc := g.docCase(shape{ns: true, dtd: true, next: g.chance(1, 8), maxNodes: 15, deep: 14, strs: (*G).plainText, comment: shortComment, cdata: shortCdata})
				return &DeferCase{Doc: dc.Doc, Styles: dc.Styles, Only: pick(g, 0, 0, 0, 2), At: int(g.bits(6)), How: int(g.bits(8)), Pos: int(g.bits(4)), Indent: g.chance(1, 4)}
			}, check: deferCheck},
			gsub[*DocCase]{id: "complete", quick: 16000, deep: 1000000, gen: func(g *G) *DocCase {
				c := g.docCase(shape{ns: true, dtd: true, maxNodes: 30, deep: 30})
				c.Only = pick(g, 0, 2)
				if len(c.Styles) == 0 {
					c.Styles = g.styles(20)
				}
				return c
			}, check: roundTrip},
		},
	}
	checks["C11"] = &propCheck{
		rule:        "documents and call sequences with prefixes and URIs drawn from a few values, consistent and conflicting; verdicts and parsed declarations compared with the specification; non-trivial: a namespace declaration is in the output or a conflict was rejected",
		assumptions: []string{"reserved prefixes are the caller's"},
		subs: []sub{
			gsub[*ProgCase]{id: "programs", quick: 40000, deep: 3000000, gen: func(g *G) *ProgCase { return g.nsProg() }, check: func(c *ProgCase, st *Stats) error {
				r, err := lockstep(c, all)
				r.classify(st)
				if r.rejected > 0 {
					st.class("conflict rejected")
				}
				st.class("declarations: %d", min(r.nsDecls, 6))
				st.nontrivial(r.nsDecls > 0 || r.rejected > 0)
				return err
			}},
			gsub[*DocCase]{id: "documents", quick: 30000, deep: 2000000, gen: func(g *G) *DocCase {
				c := g.docCase(shape{ns: true, anyURI: true, maxNodes: 12, deep: 12, strs: func(g *G) string { return g.str(true) }, uris: []string{"urn:a", "urn:b", "u&\"<", " a\tb\n'"}, prefixes: []string{"p", "q", "pp"}})
				if g.chance(1, 4) {
					g.indentConf(&c.Conf)
				}
				return c
			}, check: nsCheck},
		},
	}
	checks["C23"] = &propCheck{
		rule:        "call sequences with calls that must be rejected without a trace, run with and without them, with and without the standard indenter; verdicts, depth and output compared; non-trivial: at least one rejected and two accepted calls",
		assumptions: []string{"only rejections for a wrong parent, a mismatched end, bad comment or CDATA content, a bad processing instruction, a bad or misplaced attribute, or a bad or missing part of a single DTD declaration"},
		subs: []sub{
			gsub[*TraceCase]{id: "trace", quick: 80000, deep: 4000000, gen: func(g *G) *TraceCase {
				p := g.prog(progStyle{max: 30, invalid: 7, fields: 4, ends: 4, ns: true, loose: true, deep: 10, raw: g.chance(1, 4)})
				c := &TraceCase{Ops: p.Ops, Conf: p.Conf}
				if g.bit() {
					g.indentConf(&c.Conf)
				}
				return c
			}, check: traceCheck},
		},
	}
}

const chunkEnum = 4 * 4 * 4 * 4 * 4

func newProgGen(g *G) *progGen {
	sh := shape{ns: true, strs: func(g *G) string { return g.str(true) }, cdata: shortCdata, comment: shortComment, deep: 12, uris: []string{"urn:a", "urn:b", "a\tb\n\"&<>'"}, prefixes: []string{"p", "q"}}
	sh.pi, sh.name = (*G).piText, (*G).ncname
	return &progGen{g: g, d: &docgen{g: g, sh: sh}, m: newModel(true), c: &ProgCase{}}
}

// stackProg is mostly starts of several kinds and ends of several forms.
func (g *G) stackProg() *ProgCase {
	p := newProgGen(g)
	for i, n := 0, g.in(2, 40); i < n; i++ {
		var o *Op
		if g.chance(9, 16) {
			top := p.m.topKind()
			var ks []string
			for _, k := range startKinds {
				if mayContain(top, k) {
					ks = append(ks, k)
				}
			}
			if top == "elem" || top == "doc" {
				ks = append(ks, "elem", "elem", "elem")
			}
			if top == "" {
				ks = []string{"doc", "elem"}
			}
			if len(ks) > 0 {
				nd := sampleNode(ks[g.n(len(ks))])
				nd.S = ""
				if nd.K == "elem" {
					nd.Name = Str(pick(g, "a", "b", "a:b", "b:a", "a:a:b"))
					nd.Prefix = Str(pick(g, "", "", "p", "a", "a:b"))
				}
				o = &Op{Do: "start", N: []*Node{nd}}
			}
		}
		if o == nil {
			switch g.n(4) {
			case 0:
				o = p.anyEnd()
			case 1:
				o = p.wrongEnd()
			default:
				o = p.goodEnd()
			}
		}
		if !p.add(o) {
			break
		}
	}
	return p.c
}

// nsProg writes elements with many bindings.
func (g *G) nsProg() *ProgCase {
	p := newProgGen(g)
	pre := []string{"", "p", "q", "pp"}
	if g.chance(1, 4) {
		pre = []string{"", "p", "P", pick(g, "p.", "p-", "pP")}
	}
	uri := []string{"", "", "u", "v", "u&\"<\t\n\r>"}
	if g.chance(1, 3) {
		// nearly the same
		uri = []string{"", "urn:u", "urn:U", pick(g, "urn:u ", " urn:u", "urn:u/", "urn:u#", "urn:%75", "URN:u", "urn:\u00fc", "urn:u\u0308"), pick(g, "urn:uu", "urn:", "u", "urn:U/")}
	}
	cnt := 0
	attr := func(safe map[string]string) *Node {
		cnt++
		a := &Node{K: "attr", Name: Str(fmt.Sprintf("a%d", cnt)), S: "v", Prefix: Str(pre[g.n(4)]), URI: Str(uri[g.n(5)])}
		if u, ok := safe[string(a.Prefix)]; ok && a.URI != "" && !g.chance(1, 12) {
			a.URI = Str(u)
		} else if a.URI != "" {
			safe[string(a.Prefix)] = string(a.URI)
		}
		return a
	}
	safe := map[string]string{}
	for i, n := 0, g.in(1, 25); i < n; i++ {
		var o *Op
		t := p.m.top()
		switch {
		case t != nil && t.n.K == "elem" && !t.opened && g.chance(1, 2):
			o = &Op{Do: "write", Typed: g.bit(), N: []*Node{attr(safe)}}
			if o.Typed && g.bit() {
				o.N = append(o.N, attr(safe))
			}
		case t != nil && g.chance(1, 3):
			o = p.goodEnd()
			if len(p.m.stack) > 0 {
				safe = map[string]string{}
			}
		case t != nil && g.chance(1, 6):
			o = &Op{Do: "write", N: []*Node{{K: "text", S: "t"}}}
		default:
			safe = map[string]string{}
			e := &Node{K: "elem", Name: "e", Prefix: Str(pre[g.n(4)]), URI: Str(uri[g.n(5)])}
			if e.URI != "" {
				safe[string(e.Prefix)] = string(e.URI)
			}
			for k, m := 0, g.few(4); k < m; k++ {
				e.Attrs = append(e.Attrs, attr(safe))
			}
			if g.chance(1, 3) {
				e.Kids = []*Node{{K: "elem", Name: "k", Prefix: Str(pre[g.n(4)]), URI: Str(uri[g.n(5)])}}
				for k, m := 0, g.few(3); k < m; k++ {
					e.Kids[0].Attrs = append(e.Kids[0].Attrs, attr(map[string]string{string(e.Kids[0].Prefix): string(e.Kids[0].URI)}))
				}
			}
			o = &Op{Do: "start", N: []*Node{e}}
			if g.chance(1, 3) {
				o.Do = "write"
				safe = map[string]string{}
			}
		}
		if !p.add(o) {
			break
		}
	}
	return p.c
}

// nsCheck compares the declarations on every element, and that each binding is
// the one the parser would resolve.
func nsCheck(c *DocCase, st *Stats) error {
	ops, l := c.Doc.ops(c.Styles, c.Only)
	out, err := accepted(c.Conf, ops)
	if err != nil {
		return err
	}
	got, err := parseXML(out, 0)
	if err != nil {
		return fmt.Errorf("%v%s", err, ctxOf(ops, out))
	}
	var want, have []Ev
	decls := 0
	for _, e := range c.Doc.events(c.Conf) {
		if e.T == "start" {
			want = append(want, Ev{T: "start", Name: e.Name, NS: e.NS})
			decls += len(e.NS)
		}
	}
	for _, e := range got {
		if e.T == "start" {
			have = append(have, Ev{T: "start", Name: e.Name, NS: e.NS})
		}
	}
	if d := diffEvents(want, have); d != "" {
		return fmt.Errorf("namespace declarations: %s%s", d, ctxOf(ops, out))
	}
	st.class("declarations: %d", min(decls, 8))
	formsOf(st, l)
	st.nontrivial(decls > 0)
	return nil
}

// oneByOne lists the single calls that a call stands for, in the other spelling
// of each; closed is how many nodes an accepted end closed.
func (o *Op) oneByOne(closed int) []*Op {
	var l []*Op
	add := func(do string, n *Node) { l = append(l, &Op{Do: do, Typed: !o.Typed, N: []*Node{n}}) }
	switch o.Do {
	case "start", "write":
		for _, n := range o.N {
			add(o.Do, n)
		}
	case "block":
		add("start", o.N[0])
		for _, n := range o.N[1:] {
			add("write", n)
		}
		l = append(l, &Op{Do: "end", Kind: o.N[0].K})
	case "endfull":
		l = append(l, o)
	case "end", "endany", "endall", "endallflush", "enddoc", "endto":
		for i := 0; i < closed; i++ {
			l = append(l, &Op{Do: "endany"})
		}
	default:
		l = append(l, o)
	}
	return l
}

// callsCheck compares a program with the same program in single calls.
func callsCheck(c *ProgCase, st *Stats) error {
	s1, s2 := &sink{}, &sink{}
	w1, w2 := c.Conf.open(s1), c.Conf.open(s2)
	m := newModel(!c.Conf.Loose)
	several := 0
	for i, o := range c.Ops {
		before := len(m.stack)
		r := m.step(o)
		if m.excl != "" {
			return nil
		}
		e1 := o.exec(w1)
		if (e1 == nil) != (r == nil) {
			return nil // decided by C04, C05 and C06
		}
		if r != nil && strings.HasPrefix(o.Do, "end") {
			return nil // how many nodes were closed is not specified
		}
		var e2 error
		one := o.oneByOne(before - len(m.stack))
		for _, p := range one {
			if e2 = p.exec(w2); e2 != nil {
				break
			}
		}
		if (e1 == nil) != (e2 == nil) {
			return fmt.Errorf("call %d %s: error %v, but %v when made as %s\ncalls:\n%s", i, trunc(o.String(), 400), e1, e2, trunc(opsString(one), 600), opsString(c.Ops))
		}
		if e1 != nil {
			return nil
		}
		if d1, d2 := w1.Depth(), w2.Depth(); d1 != d2 {
			return fmt.Errorf("call %d %s: depth %d, but %d when made as %s\ncalls:\n%s", i, trunc(o.String(), 400), d1, d2, trunc(opsString(one), 600), opsString(c.Ops))
		}
		if len(one) > 1 {
			several++
			st.class("several: %s", o.Do)
		}
	}
	w1.Flush()
	w2.Flush()
	if string(s1.b) != string(s2.b) {
		return fmt.Errorf("the output differs when every call is made singly: %s\ncalls:\n%s", diffAt(string(s1.b), string(s2.b)), opsString(c.Ops))
	}
	st.nontrivial(several > 0 && len(c.Ops) > 3)
	return nil
}
