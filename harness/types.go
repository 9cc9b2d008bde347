package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

// Str is a string that survives JSON even when it is not valid UTF-8.
type Str string

func (s Str) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(s))) }
func (s *Str) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(q)
	*s = Str(u)
	return err
}

// Node is both a node of a generated document and the argument of an Op.
type Node struct {
	K      string
	Prefix Str     `json:",omitempty"`
	URI    Str     `json:",omitempty"`
	Name   Str     `json:",omitempty"`
	S      Str     `json:",omitempty"` // text, comment, cdata, raw, PI content, attribute value, DTD attr value, entity content, element decl
	Attrs  []*Node `json:",omitempty"` // attr of elem, dtdattr of attlist
	Kids   []*Node `json:",omitempty"` // children of elem, dtd
	Chunks []Str   `json:",omitempty"` // how comment/cdata content is split in streaming style; concatenation is the content
	Full   bool    `json:",omitempty"`

	Pub  Str  `json:",omitempty"`
	Sys  Str  `json:",omitempty"`
	NDat Str  `json:",omitempty"`
	PE   bool `json:",omitempty"`
	Type Str  `json:",omitempty"`
	Def  int  `json:",omitempty"`

	NoVer bool  `json:",omitempty"`
	NoEnc bool  `json:",omitempty"`
	Ver   *Str  `json:",omitempty"`
	Enc   *Str  `json:",omitempty"`
	Sta   *bool `json:",omitempty"`
}

func (n *Node) content() string {
	if len(n.Chunks) == 0 {
		return string(n.S)
	}
	var b strings.Builder
	for _, c := range n.Chunks {
		b.WriteString(string(c))
	}
	return b.String()
}

func (n *Node) fullName() string {
	if n.Prefix != "" {
		return string(n.Prefix) + ":" + string(n.Name)
	}
	return string(n.Name)
}

func attrVal(n *Node) xw.Attr {
	return xw.Attr{Prefix: string(n.Prefix), URI: string(n.URI), Name: string(n.Name), Value: string(n.S)}
}

func elemVal(n *Node) xw.Elem {
	e := xw.Elem{Prefix: string(n.Prefix), URI: string(n.URI), Name: string(n.Name), Full: n.Full}
	for _, a := range n.Attrs {
		e.Attrs = append(e.Attrs, attrVal(a))
	}
	for _, c := range n.Kids {
		e.Content = append(e.Content, writable(c))
	}
	// No content may be nil or an empty slice.
	if len(n.Kids) == 0 && len(n.Name)%2 == 0 {
		e.Content = []xw.Writable{}
	}
	if len(n.Attrs) == 0 && len(n.Name)%3 == 0 {
		e.Attrs = []xw.Attr{}
	}
	return e
}

func docVal(n *Node) xw.Doc {
	d := xw.Doc{SuppressVersion: n.NoVer, SuppressEncoding: n.NoEnc}
	if n.Full { // by assignment
		d.Standalone = n.Sta
		if n.Ver != nil {
			v := string(*n.Ver)
			d.ForcedVersion = &v
		}
		if n.Enc != nil {
			v := string(*n.Enc)
			d.ForcedEncoding = &v
		}
		return d
	}
	if n.Ver != nil {
		d = d.ForceVersion(string(*n.Ver))
	}
	if n.Enc != nil {
		d = d.ForceEncoding(string(*n.Enc))
	}
	if n.Sta != nil {
		d = d.WithStandalone(*n.Sta)
	}
	return d
}

func dtdVal(n *Node) xw.DTD {
	return xw.DTD{Name: string(n.Name), PublicID: string(n.Pub), SystemID: string(n.Sys)}
}

func dtdAttrVal(n *Node) xw.DTDAttr {
	return xw.DTDAttr{Name: string(n.Name), Type: attrType(string(n.Type)), Default: attrDefault(n.Def), Value: string(n.S)}
}

// the exported constants are what a user writes, so the values go through
// them and not through what they happen to be equal to

var attrDefaults = [...]xw.DTDAttrDefaultType{xw.DTDAttrInfer, xw.DTDAttrDefault, xw.DTDAttrRequired, xw.DTDAttrImplied, xw.DTDAttrFixed}

func attrDefault(d int) xw.DTDAttrDefaultType {
	if d >= 0 && d < len(attrDefaults) {
		return attrDefaults[d]
	}
	lo, hi := attrDefaults[0], attrDefaults[0]
	for _, v := range attrDefaults {
		lo, hi = min(lo, v), max(hi, v)
	}
	if d < 0 {
		return lo + xw.DTDAttrDefaultType(d)
	}
	return hi + xw.DTDAttrDefaultType(d-len(attrDefaults)+1)
}

func attrType(t string) xw.DTDAttrType {
	switch t {
	case "CDATA":
		return xw.DTDAttrString
	case "ID":
		return xw.DTDAttrID
	case "IDREF":
		return xw.DTDAttrIDRef
	case "IDREFS":
		return xw.DTDAttrIDRefs
	case "ENTITY":
		return xw.DTDAttrEntity
	case "ENTITIES":
		return xw.DTDAttrEntities
	case "NMTOKEN":
		return xw.DTDAttrNmtoken
	case "NMTOKENS":
		return xw.DTDAttrNmtokens
	}
	return xw.DTDAttrType(t)
}

func elemDecl(d string) string {
	switch d {
	case "EMPTY":
		return xw.DTDElemEmpty
	case "ANY":
		return xw.DTDElemAny
	case "(#PCDATA)":
		return "(" + xw.DTDElemPCData + ")"
	}
	return d
}

func attListVal(n *Node) xw.DTDAttList {
	l := xw.DTDAttList{Name: string(n.Name)}
	for _, a := range n.Attrs {
		l.Attrs = append(l.Attrs, dtdAttrVal(a))
	}
	return l
}

func startable(n *Node) xw.Startable {
	switch n.K {
	case "doc":
		return docVal(n)
	case "dtd":
		return dtdVal(n)
	case "attlist":
		return attListVal(n)
	case "elem":
		return elemVal(n)
	case "comment":
		return xw.Comment{Content: n.content()}
	case "cdata":
		return xw.CData{Content: n.content()}
	}
	panic("harness: not startable: " + n.K)
}

func writable(n *Node) xw.Writable {
	switch n.K {
	case "attlist":
		return attListVal(n)
	case "elem":
		return elemVal(n)
	case "comment":
		return xw.Comment{Content: n.content()}
	case "cdata":
		return xw.CData{Content: n.content()}
	case "text":
		return xw.Text(n.S)
	case "raw":
		return xw.Raw(n.S)
	case "ccontent":
		return xw.CommentContent(n.S)
	case "dcontent":
		return xw.CDataContent(n.S)
	case "pi":
		return xw.PI{Target: string(n.Name), Content: string(n.S)}
	case "attr":
		return attrVal(n)
	case "dtdelem":
		return xw.DTDElem{Name: string(n.Name), Decl: elemDecl(string(n.S))}
	case "entity":
		return xw.DTDEntity{Name: string(n.Name), Content: string(n.S), IsPE: n.PE, PublicID: string(n.Pub), SystemID: string(n.Sys), NDataID: string(n.NDat)}
	case "dtdattr":
		return dtdAttrVal(n)
	case "notation":
		return xw.Notation{Name: string(n.Name), SystemID: string(n.Sys), PublicID: string(n.Pub)}
	}
	panic("harness: not writable: " + n.K)
}

var kindOf = map[string]xw.NodeKind{
	"none": xw.NoNode, "attr": xw.AttrNode, "cdata": xw.CDataNode, "dcontent": xw.CDataContentNode, "comment": xw.CommentNode,
	"ccontent": xw.CommentContentNode, "dtd": xw.DTDNode, "attlist": xw.DTDAttListNode, "dtdattr": xw.DTDAttrNode,
	"dtdelem": xw.DTDElemNode, "entity": xw.DTDEntityNode, "doc": xw.DocNode, "elem": xw.ElemNode, "notation": xw.NotationNode,
	"pi": xw.PINode, "raw": xw.RawNode, "text": xw.TextNode,
}

// Op is one call on the writer.
type Op struct {
	Do    string  // start write block end endfull endany endall enddoc endto next flush
	Typed bool    `json:",omitempty"` // the typed method rather than the generic one, where there is one
	N     []*Node `json:",omitempty"`
	Kind  string  `json:",omitempty"`
	Names []Str   `json:",omitempty"`
	Depth int     `json:",omitempty"` // endto: number of nodes that stay open
}

func strs(in []Str) []string {
	out := make([]string, len(in))
	for i, s := range in {
		out[i] = string(s)
	}
	return out
}

// exec performs one call and returns its error.
func (o *Op) exec(w *xw.Writer) error {
	switch o.Do {
	case "start":
		if o.Typed && len(o.N) == 1 {
			n := o.N[0]
			switch n.K {
			case "doc":
				return w.StartDoc(docVal(n))
			case "dtd":
				return w.StartDTD(dtdVal(n))
			case "attlist":
				return w.StartDTDAttList(attListVal(n))
			case "elem":
				return w.StartElem(elemVal(n))
			case "comment":
				return w.StartComment(xw.Comment{Content: n.content()})
			case "cdata":
				return w.StartCData(xw.CData{Content: n.content()})
			}
		}
		var ns []xw.Startable
		for _, n := range o.N {
			ns = append(ns, startable(n))
		}
		return w.Start(ns...)
	case "write":
		if o.Typed && len(o.N) == 1 {
			n := o.N[0]
			switch n.K {
			case "attlist":
				return w.WriteDTDAttList(attListVal(n))
			case "elem":
				return w.WriteElem(elemVal(n))
			case "comment":
				return w.WriteComment(xw.Comment{Content: n.content()})
			case "cdata":
				return w.WriteCData(xw.CData{Content: n.content()})
			case "text":
				return w.WriteText(string(n.S))
			case "raw":
				return w.WriteRaw(string(n.S))
			case "ccontent":
				return w.WriteCommentContent(string(n.S))
			case "dcontent":
				return w.WriteCDataContent(string(n.S))
			case "pi":
				return w.WritePI(writable(n).(xw.PI))
			case "attr":
				return w.WriteAttr(attrVal(n))
			case "dtdelem":
				return w.WriteDTDElem(writable(n).(xw.DTDElem))
			case "entity":
				return w.WriteDTDEntity(writable(n).(xw.DTDEntity))
			case "dtdattr":
				return w.WriteDTDAttr(dtdAttrVal(n))
			case "notation":
				return w.WriteNotation(writable(n).(xw.Notation))
			}
		}
		if o.Typed { // several attributes
			var as []xw.Attr
			for _, n := range o.N {
				as = append(as, attrVal(n))
			}
			return w.WriteAttr(as...)
		}
		var ns []xw.Writable
		for _, n := range o.N {
			ns = append(ns, writable(n))
		}
		return w.Write(ns...)
	case "block":
		var ns []xw.Writable
		for _, n := range o.N[1:] {
			ns = append(ns, writable(n))
		}
		return w.Block(startable(o.N[0]), ns...)
	case "end":
		if o.Typed {
			switch o.Kind {
			case "elem":
				return w.EndElem(strs(o.Names)...)
			case "doc":
				return w.EndDoc()
			case "dtd":
				if len(o.Names) == 0 {
					return w.EndDTD()
				}
			case "attlist":
				if len(o.Names) == 0 {
					return w.EndDTDAttList()
				}
			case "comment":
				if len(o.Names) == 0 {
					return w.EndComment()
				}
			case "cdata":
				if len(o.Names) == 0 {
					return w.EndCData()
				}
			}
		}
		return w.End(kindOf[o.Kind], strs(o.Names)...)
	case "endfull":
		return w.EndElemFull(strs(o.Names)...)
	case "endany":
		return w.EndAny()
	case "endall":
		return w.EndAll()
	case "endallflush":
		return w.EndAllFlush()
	case "enddoc":
		return w.EndDoc()
	case "endto":
		return w.EndToDepth(freshDepth()+o.Depth, kindOf[o.Kind], strs(o.Names)...)
	case "next":
		return w.Next()
	case "flush":
		return w.Flush()
	}
	panic("harness: unknown op " + o.Do)
}

func (n *Node) String() string {
	b, _ := json.Marshal(n)
	return string(b)
}

func (o *Op) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

func opsString(ops []*Op) string {
	var b strings.Builder
	for i, o := range ops {
		s := o.String()
		if len(s) > 600 {
			s = s[:400] + "..." + s[len(s)-150:]
		}
		fmt.Fprintf(&b, "  %d: %s\n", i, s)
		if i > 60 {
			fmt.Fprintf(&b, "  ... %d calls in all\n", len(ops))
			break
		}
	}
	return b.String()
}
