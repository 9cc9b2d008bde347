package main

// Documents with very many of something: counters wrap and tables grow at sizes
// which trees drawn node by node do not reach.

import "fmt"

// Many repeats one thing in a document, N times.
type Many struct {
	What  string
	N     int
	Unit  int
	Where int
	Pfx   bool `json:",omitempty"` // the element gets a prefix if it has none
}

var manySizes = []int{20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049}
var hugeSizes = []int{4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 65600}

// many draws a repetition; huge allows sizes beyond two thousand.
func (g *G) many(huge bool, whats ...string) Many {
	m := Many{What: pick(g, whats...), Unit: g.n(8), Where: int(g.bits(4))}
	m.N = manySizes[g.n(len(manySizes))]
	if huge && g.chance(1, 12) && m.What != "attrs" && m.What != "ns" { // finding duplicates is quadratic
		m.N = hugeSizes[g.n(len(hugeSizes))]
	}
	if m.What == "depth" && m.N > 4200 {
		m.N = 4096 // trees are walked recursively here
	}
	m.N += g.n(3)
	return m
}

// apply returns the document with the repetition in it.
func (m Many) apply(d *Doc) *Doc {
	d = cloneDoc(d)
	var els []*Node
	for _, n := range allNodes(d) {
		if n.K == "elem" {
			els = append(els, n)
		}
	}
	el := els[m.Where%len(els)]
	if m.Pfx && el.Prefix == "" && el.URI == "" {
		el.Prefix, el.URI = "many", "urn:many"
	}
	switch m.What {
	case "kids":
		add := make([]*Node, 0, m.N)
		for i := 0; i < m.N; i++ {
			add = append(add, m.unit(i))
		}
		k := len(el.Kids) * (m.Where & 3) / 3
		el.Kids = append(append(append([]*Node{}, el.Kids[:k]...), add...), el.Kids[k:]...)
	case "only":
		el.Kids = nil
		for i := 0; i < m.N; i++ {
			el.Kids = append(el.Kids, m.unit(i))
		}
	case "attrs", "ns":
		for i := 0; i < m.N; i++ {
			a := &Node{K: "attr", Name: Str(fmt.Sprintf("m.%d", i)), S: Str(fmt.Sprint(i))}
			if m.What == "ns" {
				a.Prefix, a.URI = Str(fmt.Sprintf("m%d", i)), Str(fmt.Sprintf("urn:%d", i))
			}
			el.Attrs = append(el.Attrs, a)
		}
	case "depth":
		for i := 0; i < m.N; i++ {
			c := &Node{K: "elem", Name: "d", Full: m.Unit == 1 && i&1 == 0}
			if m.Unit&4 != 0 && i%8 == 0 {
				el.Kids = append(el.Kids, m.unit(i))
			}
			if m.Unit == 2 && i%4 == 0 {
				el.Kids = append(el.Kids, c, &Node{K: "elem", Name: "s"})
			} else {
				el.Kids = append(el.Kids, c)
			}
			el = c
		}
	case "top":
		for i := 0; i < m.N; i++ {
			d.Pre = append(d.Pre, &Node{K: "comment", Chunks: []Str{Str(fmt.Sprint(i))}})
		}
	case "chunks":
		n := &Node{K: []string{"comment", "cdata"}[m.Unit&1]}
		for i := 0; i < m.N; i++ {
			n.Chunks = append(n.Chunks, []Str{"x", "]", "ab ", ""}[(i*(m.Unit+1))%4])
		}
		n.Chunks = append(n.Chunks, "end")
		el.Kids = append(el.Kids, n)
	case "dtd", "attlist":
		if d.DTD == nil {
			d.DTD = &Node{K: "dtd", Name: "d"}
		}
		if m.What == "attlist" {
			l := &Node{K: "attlist", Name: "dtd.m"}
			for i := 0; i < m.N; i++ {
				l.Attrs = append(l.Attrs, &Node{K: "dtdattr", Name: Str(fmt.Sprintf("m%d", i)), Type: "CDATA", Def: 1, S: Str(fmt.Sprint(i))})
			}
			d.DTD.Kids = append(d.DTD.Kids, l)
			break
		}
		if m.Where&1 == 0 {
			d.DTD.Kids = nil
		}
		for i := 0; i < m.N; i++ {
			d.DTD.Kids = append(d.DTD.Kids, m.decl(i))
		}
	default:
		harnessFail("many: %s", m.What)
	}
	return d
}

func (m Many) unit(i int) *Node {
	u := m.Unit
	if u == 7 {
		u = i % 7
	}
	switch u {
	case 0:
		return &Node{K: "elem", Name: "m"}
	case 1:
		return &Node{K: "elem", Name: "m", Kids: []*Node{{K: "text", S: "t"}}}
	case 2:
		return &Node{K: "comment", Chunks: []Str{"c"}}
	case 3:
		return &Node{K: "pi", Name: "p", S: "x"}
	case 4:
		return &Node{K: "cdata", Chunks: []Str{"d"}}
	case 5:
		return &Node{K: "text", S: Str([]string{"t", "", "u v"}[i%3])}
	}
	return &Node{K: "elem", Name: "m", Full: i&1 == 0, Attrs: []*Node{{K: "attr", Name: "a", S: "1"}}}
}

func (m Many) decl(i int) *Node {
	u := m.Unit
	if u == 7 {
		u = i % 5
	}
	switch u {
	case 0:
		return &Node{K: "comment", Chunks: []Str{"c"}}
	case 1:
		return &Node{K: "entity", Name: Str(fmt.Sprintf("me%d", i)), S: "v"}
	case 2:
		return &Node{K: "notation", Name: Str(fmt.Sprintf("mn%d", i)), Sys: "s"}
	case 3:
		return &Node{K: "attlist", Name: Str(fmt.Sprintf("dtd.l%d", i)), Attrs: []*Node{{K: "dtdattr", Name: "a", Type: "CDATA", Def: 3}}}
	}
	return &Node{K: "dtdelem", Name: Str(fmt.Sprintf("ml%d", i)), S: "EMPTY"}
}

// ManyCase is a document case with a repetition.
type ManyCase struct {
	DocCase
	M Many
}

// manySub runs check on documents of the shape with a repetition; no text is
// used below the shapes that have none.
func manySub(quick, deep int, huge bool, sh shape, indent func(g *G, c *Conf), check func(*DocCase, *Stats) error) sub {
	sh.maxNodes, sh.deep = 8, 16
	return gsub[*ManyCase]{id: "many", quick: quick, deep: deep, gen: func(g *G) *ManyCase {
		c := &ManyCase{DocCase: *g.docCase(sh)}
		if indent != nil {
			indent(g, &c.Conf)
		}
		whats := []string{"kids", "only", "attrs", "depth", "top", "chunks"}
		if sh.ns {
			whats = append(whats, "ns")
		}
		if sh.dtd {
			whats = append(whats, "dtd", "attlist")
		}
		c.M = g.many(huge, whats...)
		c.M.Pfx = sh.ns && c.M.Where&1 == 1
		if c.M.What == "depth" && c.M.N > 2100 {
			c.Conf.Indent = false
		}
		return c
	}, check: func(c *ManyCase, st *Stats) error {
		d := c.DocCase
		d.Doc = c.M.apply(c.Doc)
		if err := check(&d, st); err != nil {
			return fmt.Errorf("with %d %s: %v", c.M.N, c.M.What, err)
		}
		st.class("many %s", c.M.What)
		if c.M.N >= 256 {
			st.class("256 or more")
		}
		if c.M.N >= 65536 {
			st.class("65536 or more")
		}
		return nil
	}}
}

func sometimesIndented(g *G, c *Conf) {
	if g.chance(1, 3) {
		g.indentConf(c)
	}
}
