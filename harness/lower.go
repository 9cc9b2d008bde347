package main

// Lowering of a document to one of the many call sequences that write it.

type lower struct {
	styles []int
	pos    int
	ops    []*Op
	open   int // nodes open at this point
	only   int // 0: all styles; 1: streaming only (nothing deferred); 2: prefer structs
	noEnd  bool
	forms  map[string]bool
}

func (l *lower) pick(n int) int {
	if l.pos >= len(l.styles) {
		return 0
	}
	v := l.styles[l.pos] % n
	l.pos++
	return v
}

func (l *lower) op(o *Op) { l.ops = append(l.ops, o) }

func (l *lower) form(s string) {
	if l.forms == nil {
		l.forms = map[string]bool{}
	}
	l.forms[s] = true
}

func hasNext(n *Node) bool {
	for _, k := range n.Kids {
		if k.K == "next" || hasNext(k) {
			return true
		}
	}
	return false
}

func (l *lower) write(n *Node) { l.op(&Op{Do: "write", Typed: l.pick(2) == 1, N: []*Node{n}}) }

func (l *lower) start(n *Node) {
	l.op(&Op{Do: "start", Typed: l.pick(2) == 1, N: []*Node{n}})
	l.open++
}

// end writes one of the calls that end n; left says nodes above n are still open.
func (l *lower) end(n *Node, left int, last bool, fullByEnd bool) (leftOpen int) {
	if fullByEnd && left == 0 {
		o := &Op{Do: "endfull"}
		l.endName(n, o)
		l.op(o)
		l.open--
		l.form("end full")
		return 0
	}
	if last && !l.noEnd && l.pick(6) == 5 {
		l.form("left open")
		return left + 1
	}
	if left > 0 {
		o := &Op{Do: "endto", Depth: l.open - left - 1, Kind: n.K}
		l.endName(n, o)
		l.op(o)
		l.open -= left + 1
		l.form("end to depth")
		return 0
	}
	o := &Op{Do: "end", Typed: l.pick(2) == 1, Kind: n.K}
	switch l.pick(4) {
	case 0, 1:
		l.endName(n, o)
	case 2:
		o = &Op{Do: "endany"}
	case 3:
		if n.K == "elem" && len(n.Kids) > 0 {
			o = &Op{Do: "endfull"}
			l.endName(n, o)
		}
	}
	l.op(o)
	l.open--
	return 0
}

func (l *lower) endName(n *Node, o *Op) {
	switch n.K {
	case "elem":
		switch l.pick(3) {
		case 1:
			o.Names = []Str{n.Name}
		case 2:
			o.Names = []Str{n.Prefix, n.Name}
		}
	case "dtd", "attlist":
		if l.pick(2) == 1 {
			o.Names = []Str{n.Name}
		}
	}
}

// node writes n; last says that nothing follows it inside its parent. It
// returns how many nodes it left open.
func (l *lower) node(n *Node, last bool) int {
	switch n.K {
	case "text", "pi", "dtdelem", "entity", "notation", "dtdattr", "attr", "raw", "ccontent", "dcontent":
		l.write(n)
		return 0
	case "next":
		l.op(&Op{Do: "next"})
		return 0
	case "comment", "cdata":
		return l.section(n, last)
	case "attlist":
		return l.attlist(n, last)
	case "dtd":
		return l.streamed(n, n.Kids, nil, last, false)
	case "elem":
		return l.elem(n, last)
	}
	harnessFail("lower: %s", n.K)
	return 0
}

func (l *lower) section(n *Node, last bool) int {
	ck := "ccontent"
	if n.K == "cdata" {
		ck = "dcontent"
	}
	whole := &Node{K: n.K, S: Str(n.content())}
	var parts []*Node
	if len(n.Chunks) > 0 {
		for _, c := range n.Chunks {
			parts = append(parts, &Node{K: ck, S: c})
		}
	} else {
		parts = []*Node{{K: ck, S: n.S}}
	}
	st := l.pick(5)
	if l.only == 1 {
		st = 2 + st%3
	} else if l.only == 2 {
		st = st % 2
	}
	switch st {
	case 0:
		l.write(whole)
		return 0
	case 1:
		l.start(whole)
		return l.end(n, 0, last, false)
	case 2:
		l.start(&Node{K: n.K})
		for _, p := range parts {
			l.write(p)
		}
		l.form("chunks")
		return l.end(n, 0, last, false)
	case 3:
		l.start(&Node{K: n.K, S: parts[0].S})
		for _, p := range parts[1:] {
			l.write(p)
		}
		l.form("chunks")
		return l.end(n, 0, last, false)
	}
	l.op(&Op{Do: "block", N: append([]*Node{{K: n.K}}, parts...)})
	l.form("block")
	return 0
}

func (l *lower) attlist(n *Node, last bool) int {
	if l.only != 1 && (l.only == 2 || l.pick(2) == 0) {
		l.write(n)
		return 0
	}
	k := l.pick(len(n.Attrs) + 1)
	if l.only == 1 {
		k = 0
	}
	head := *n
	head.Attrs = n.Attrs[:k]
	l.start(&head)
	for _, a := range n.Attrs[k:] {
		l.write(a)
	}
	return l.end(n, 0, last, false)
}

func (l *lower) kids(ks []*Node, last bool) int {
	left := 0
	for i, k := range ks {
		left = l.node(k, last && i == len(ks)-1)
	}
	return left
}

// streamed starts head (n without what head leaves out), writes attrs and kids, and ends.
func (l *lower) streamed(n *Node, kids []*Node, head *Node, last bool, fullByEnd bool) int {
	if head == nil {
		h := *n
		h.Kids = nil
		head = &h
	}
	l.start(head)
	if n.K == "elem" {
		l.restAttrs(n.Attrs[len(head.Attrs):])
	}
	left := 0
	for i, k := range kids {
		left = l.node(k, i == len(kids)-1)
	}
	return l.end(n, left, last, fullByEnd)
}

func (l *lower) restAttrs(as []*Node) {
	for len(as) > 0 {
		k := 1
		typed := l.pick(2) == 1
		if typed {
			k += l.pick(len(as))
		}
		l.op(&Op{Do: "write", Typed: typed, N: as[:k]})
		as = as[k:]
	}
}

func (l *lower) elem(n *Node, last bool) int {
	nx := hasNext(n)
	st := l.pick(6)
	if l.only == 1 {
		st = 1
	} else if l.only == 2 && st != 3 {
		st = 0
	}
	if nx {
		st = 1
	}
	ka := l.pick(len(n.Attrs) + 1)
	if l.only == 1 {
		ka = 0
	}
	switch st {
	case 0:
		l.form("struct")
		l.write(n)
		return 0
	case 2:
		h := *n
		h.Attrs = n.Attrs[:ka]
		h.Kids = nil
		args := []*Node{&h}
		args = append(args, n.Attrs[ka:]...)
		args = append(args, n.Kids...)
		l.op(&Op{Do: "block", N: args})
		l.form("block")
		return 0
	case 3:
		h := *n
		h.Attrs = n.Attrs[:ka]
		k := 0
		if len(n.Kids) > 0 {
			k = 1 + l.pick(len(n.Kids))
		}
		h.Kids = n.Kids[:k]
		l.form("started with content")
		return l.streamed(n, n.Kids[k:], &h, last, false)
	}
	h := *n
	h.Attrs = n.Attrs[:ka]
	h.Kids = nil
	full := false
	if n.Full && !l.noEnd && l.pick(2) == 1 {
		h.Full = false
		full = true
		// the mark is then given by the ending call, which must be an explicit one
	}
	// a child left open would swallow the explicit end
	if full {
		l.start(&h)
		l.restAttrs(n.Attrs[ka:])
		save := l.noEnd
		l.noEnd = true
		l.kids(n.Kids, false)
		l.noEnd = save
		return l.end(n, 0, last, true)
	}
	return l.streamed(n, n.Kids, &h, last, false)
}

// ops lowers the document; the last call leaves nothing open.
func (d *Doc) ops(styles []int, only int) ([]*Op, *lower) {
	l := &lower{styles: styles, only: only}
	top := append(append([]*Node{}, d.Pre...), nil)
	top = top[:len(d.Pre)]
	if d.DTD != nil {
		top = append(top, d.DTD)
	}
	top = append(top, d.Mid...)
	top = append(top, d.Root)
	top = append(top, d.Post...)
	left := 0
	if d.Decl != nil {
		blk := d.DTD == nil && only != 1
		for _, n := range top {
			if hasNext(n) {
				blk = false
			}
		}
		if blk && l.pick(8) == 7 {
			l.op(&Op{Do: "block", N: append([]*Node{d.Decl}, top...)})
			l.form("block doc")
			return l.ops, l
		}
		l.start(d.Decl)
		for i, n := range top {
			left = l.node(n, i == len(top)-1)
		}
		k := l.pick(5)
		if left == 0 {
			switch k {
			case 0:
				l.op(&Op{Do: "enddoc"})
			case 1:
				l.op(&Op{Do: "end", Kind: "doc"})
			case 2:
				l.op(&Op{Do: "endall"})
			case 3:
				l.op(&Op{Do: "endany"})
			case 4:
				l.op(&Op{Do: "endallflush"})
			}
		} else {
			switch k {
			case 0, 1:
				l.op(&Op{Do: "enddoc"})
			case 2:
				l.op(&Op{Do: "endall"})
			case 3:
				l.op(&Op{Do: "endto", Depth: 0, Kind: "doc"})
			case 4:
				l.op(&Op{Do: "endallflush"})
			}
		}
	} else {
		for i, n := range top {
			left = l.node(n, i == len(top)-1)
		}
		if left > 0 {
			l.op(&Op{Do: []string{"endall", "endallflush"}[l.pick(2)]})
		}
	}
	l.ops = l.merge(l.ops)
	return l.ops, l
}

// merge joins neighbouring calls into calls with several nodes.
func (l *lower) merge(ops []*Op) []*Op {
	var out []*Op
	for _, o := range ops {
		if len(out) > 0 && !o.Typed && (o.Do == "write" || o.Do == "start") {
			p := out[len(out)-1]
			if p.Do == o.Do && !p.Typed && l.pick(3) == 2 {
				q := *p
				q.N = append(append([]*Node{}, p.N...), o.N...)
				out[len(out)-1] = &q
				l.form("several nodes per call")
				continue
			}
		}
		out = append(out, o)
	}
	return out
}
