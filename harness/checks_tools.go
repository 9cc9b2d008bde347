package main

// Checks on the programs under tester/: the script runners, the script builder
// and the comparison tools. Each case runs the real programs.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding/charmap"
)

// --- building and running

func buildGotester(dir string) error {
	cmd := exec.Command("go", "build", "-o", filepath.Join(dir, "gotester"), "./tester/gotester")
	cmd.Dir = "/repo"
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("gotester does not build: %v\n%s", err, out)
	}
	return nil
}

// buildC builds the C programs in a copy of their directory.
func buildC(dir string, targets ...string) error {
	src := filepath.Join(dir, "csrc")
	if err := os.MkdirAll(src, 0o755); err != nil {
		return err
	}
	var files []string
	for _, p := range []string{"*.c", "*.h", "Makefile"} {
		m, _ := filepath.Glob(filepath.Join("/repo/tester/ctester", p))
		files = append(files, m...)
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(src, filepath.Base(f)), b, 0o644); err != nil {
			return err
		}
	}
	cmd := exec.Command("make", append([]string{"-s", "-B", "-j4"}, targets...)...)
	cmd.Dir = src
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("make %v: %v\n%s", targets, err, out)
	}
	for _, t := range targets {
		if strings.Contains(t, "=") {
			continue // a setting
		}
		if err := os.Rename(filepath.Join(src, t), filepath.Join(dir, t)); err != nil {
			return err
		}
	}
	return nil
}

func setupTools(goTool bool, targets ...string) func(string) error {
	return func(dir string) error {
		if goTool {
			if err := buildGotester(dir); err != nil {
				return err
			}
		}
		if len(targets) > 0 {
			return buildC(dir, targets...)
		}
		return nil
	}
}

// capped is a buffer that gives up after a size no correct output reaches.
type capped struct {
	bytes.Buffer
	over bool
}

func (c *capped) Write(p []byte) (int, error) {
	if c.Len()+len(p) > 64<<20 {
		c.over = true
		return 0, errors.New("output too long")
	}
	return c.Buffer.Write(p)
}

type toolRun struct {
	out  string
	err  string
	code int
}

// fatal tells a crash from an error exit.
func (r *toolRun) crashed() bool {
	return r.code < 0 || strings.Contains(r.err, "goroutine ") || strings.Contains(r.err, "panic:")
}

// tool runs one of the built programs on the input.
func tool(in string, name string, args ...string) (*toolRun, error) {
	return toolIn("", in, name, args...)
}

func toolIn(dir, in string, name string, args ...string) (*toolRun, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	bin := name
	if !filepath.IsAbs(bin) {
		bin = filepath.Join(toolDir, name)
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(in)
	var out, eb capped
	cmd.Stdout, cmd.Stderr = &out, &eb
	err := cmd.Run()
	r := &toolRun{out: out.String(), err: eb.String()}
	if ctx.Err() != nil {
		return r, fmt.Errorf("%s does not end on an input of %d bytes", name, len(in))
	}
	if out.over || eb.over {
		return r, fmt.Errorf("%s writes without end on an input of %d bytes", name, len(in))
	}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			if cmd.ProcessState == nil {
				harnessFail("cannot run %s: %v", name, err)
			}
			// the program did not read all of its input
			r.code = cmd.ProcessState.ExitCode()
			return r, nil
		}
		r.code = ee.ExitCode()
	}
	return r, nil
}

// must runs a program that has to succeed.
func must(in string, name string, args ...string) (string, error) {
	r, err := tool(in, name, args...)
	if err != nil {
		return "", err
	}
	if r.code != 0 {
		return "", fmt.Errorf("%s %v: exit status %d: %s", name, args, r.code, trunc(r.err, 800))
	}
	return r.out, nil
}

// --- scripts

// Cmd is one command of a test script.
type Cmd struct {
	A, K  string
	Name  *Str  `json:",omitempty"`
	Strip bool  `json:",omitempty"`
	P     []SKV `json:",omitempty"`
	C     Str   `json:",omitempty"`
}

type SKV struct {
	K string
	V Str
}

func (c *Cmd) name() string {
	if c.Name == nil {
		return ""
	}
	return string(*c.Name)
}

type Script struct {
	Cmds   []*Cmd
	Indent bool  `json:",omitempty"`
	Forms  []int `json:",omitempty"` // how the script is spelled
	Cut    int   `json:",omitempty"` // cut off: no well-formed script

	Root     string `json:",omitempty"` // another name for the root
	RootAttr string `json:",omitempty"` // further attributes of the root
	Junk     Str    `json:",omitempty"` // between the commands
	JunkAt   int    `json:",omitempty"`
}

func escAttr(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&#34;", "\n", "&#10;", "\r", "&#13;", "\t", "&#9;").Replace(s)
}

func escContent(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\r", "&#13;").Replace(s)
}

// xml spells the script.
func (s *Script) xml() string {
	var b strings.Builder
	p := 0
	form := func(n int) int {
		if p >= len(s.Forms) {
			return 0
		}
		p++
		return s.Forms[p-1] % n
	}
	if form(2) == 0 {
		b.WriteString(`<?xml version="1.0"?>` + "\n")
	}
	root := s.Root
	if root == "" {
		root = "script"
	}
	b.WriteString("<" + root)
	if form(2) == 1 {
		b.WriteString(` name="t"`)
	}
	b.WriteString(s.RootAttr + ">\n")
	for i, c := range s.Cmds {
		if i == s.JunkAt {
			b.WriteString(string(s.Junk))
		}
		as := []string{`action="` + escAttr(c.A) + `"`, `kind="` + escAttr(c.K) + `"`}
		if c.Name != nil {
			as = append(as, `name="`+escAttr(string(*c.Name))+`"`)
		}
		if c.Strip {
			as = append(as, `ws="strip"`)
		}
		for _, kv := range c.P {
			as = append(as, escAttr(kv.K)+`="`+escAttr(string(kv.V))+`"`)
		}
		if f := form(8); f > 0 {
			for i := range as {
				j := (i*7 + f) % len(as)
				as[i], as[j] = as[j], as[i]
			}
		}
		b.WriteString("<command " + strings.Join(as, " "))
		switch {
		case c.C == "" && form(2) == 0:
			b.WriteString("/>")
		case form(4) == 3 && !strings.Contains(string(c.C), "]]>") && !strings.Contains(string(c.C), "\r"):
			b.WriteString("><![CDATA[" + string(c.C) + "]]></command>")
		default:
			b.WriteString(">" + escContent(string(c.C)) + "</command>")
		}
		if form(2) == 0 {
			b.WriteString("\n  ")
		}
	}
	if s.JunkAt >= len(s.Cmds) {
		b.WriteString(string(s.Junk))
	}
	b.WriteString("</" + root + ">\n")
	out := b.String()
	if s.Cut > 0 {
		out = out[:strings.LastIndex(out, "</"+root)]
	}
	return out
}

func collapse(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }), " ")
}

func (c *Cmd) content() string {
	if c.Strip {
		return collapse(string(c.C))
	}
	return string(c.C)
}

var errScript = errors.New("invalid script")

// direct performs the script's calls on the writer.
func (s *Script) direct() (string, error) {
	dst := &sink{}
	var w *xw.Writer
	var opts []xw.Option
	if s.Indent {
		opts = append(opts, xw.WithIndent())
	}
	open := func(enc *string) error {
		if w != nil {
			return nil
		}
		if enc == nil || strings.EqualFold(*enc, "UTF-8") {
			w = xw.Open(dst, opts...)
			return nil
		}
		switch up := strings.ToUpper(*enc); up {
		case "ISO-8859-1":
			w = xw.OpenEncoding(dst, up, charmap.ISO8859_1.NewEncoder(), opts...)
		case "WINDOWS-1252":
			w = xw.OpenEncoding(dst, up, charmap.Windows1252.NewEncoder(), opts...)
		default:
			return errScript
		}
		return nil
	}
	for _, c := range s.Cmds {
		if err := c.direct(&w, open); err != nil {
			return "", err
		}
	}
	if w == nil {
		return "", errScript
	}
	if err := w.Flush(); err != nil {
		return "", err
	}
	return string(dst.b), nil
}

// params lets only the named parameters through.
func (c *Cmd) params(names ...string) (map[string]string, error) {
	m := map[string]string{}
	for _, kv := range c.P {
		if kv.K == "line" || kv.K == "pos" || kv.K == "fn" {
			continue
		}
		ok := false
		for _, n := range names {
			ok = ok || n == kv.K
		}
		if !ok {
			return nil, errScript
		}
		m[kv.K] = string(kv.V)
	}
	return m, nil
}

func yesNo(s string) (bool, error) {
	switch strings.ToLower(s) {
	case "yes", "true":
		return true, nil
	case "no", "false":
		return false, nil
	}
	return false, errScript
}

func boolParam(m map[string]string, k string) (bool, error) {
	if v, ok := m[k]; ok {
		return yesNo(v)
	}
	return false, nil
}

func (c *Cmd) direct(wp **xw.Writer, open func(*string) error) error {
	if c.A == "end" {
		w := *wp
		if w == nil {
			return errScript
		}
		want := []string{}
		if c.K == "elem" {
			want = []string{"full"}
		}
		m, err := c.params(want...)
		if err != nil {
			return err
		}
		switch c.K {
		case "all":
			return w.EndAll()
		case "cdata":
			return w.EndCData()
		case "comment":
			return w.EndComment()
		case "doc":
			return w.EndDoc()
		case "dtd":
			return w.EndDTD()
		case "dtd-att-list":
			return w.EndDTDAttList()
		case "elem":
			full, err := boolParam(m, "full")
			if err != nil {
				return err
			}
			if full {
				return w.EndElemFull()
			}
			return w.EndElem()
		}
		return errScript
	}
	if c.A == "start" && c.K == "doc" {
		m, err := c.params("version", "encoding", "standalone")
		if err != nil {
			return err
		}
		d := xw.Doc{SuppressEncoding: true}
		if v, ok := m["version"]; ok {
			d.ForcedVersion = &v
		}
		var enc *string
		if v, ok := m["encoding"]; ok {
			enc = &v
			d.ForcedEncoding = &v
			d.SuppressEncoding = false
		}
		if v, ok := m["standalone"]; ok {
			b, err := yesNo(v)
			if err != nil {
				return err
			}
			d.Standalone = &b
		}
		if err := open(enc); err != nil {
			return err
		}
		return (*wp).StartDoc(d)
	}
	if c.A != "start" && c.A != "write" {
		return errScript
	}
	if err := open(nil); err != nil {
		return err
	}
	w := *wp
	if c.A == "start" {
		switch c.K {
		case "cdata", "comment", "dtd-att-list":
			if _, err := c.params(); err != nil {
				return err
			}
			switch c.K {
			case "cdata":
				return w.StartCData(xw.CData{})
			case "comment":
				return w.StartComment(xw.Comment{})
			}
			return w.StartDTDAttList(xw.DTDAttList{Name: c.name()})
		case "dtd":
			m, err := c.params("public-id", "system-id")
			if err != nil {
				return err
			}
			return w.StartDTD(xw.DTD{Name: c.name(), PublicID: m["public-id"], SystemID: m["system-id"]})
		case "elem":
			m, err := c.params("prefix", "uri")
			if err != nil {
				return err
			}
			return w.StartElem(xw.Elem{Name: c.name(), Prefix: m["prefix"], URI: m["uri"]})
		}
		return errScript
	}
	var names []string
	switch c.K {
	case "attr":
		names = []string{"prefix", "uri"}
	case "dtd-attr":
		names = []string{"decl", "type", "required"}
	case "dtd-entity":
		names = []string{"is-pe", "ndata-id", "system-id", "public-id"}
	case "notation":
		names = []string{"system-id", "public-id"}
	case "pi":
		names = []string{"target"}
	case "raw":
		names = []string{"next"}
	}
	m, err := c.params(names...)
	if err != nil {
		return err
	}
	switch c.K {
	case "attr":
		return w.WriteAttr(xw.Attr{Name: c.name(), Value: c.content(), Prefix: m["prefix"], URI: m["uri"]})
	case "cdata":
		return w.WriteCData(xw.CData{Content: c.content()})
	case "cdata-content":
		return w.WriteCDataContent(c.content())
	case "comment":
		return w.WriteComment(xw.Comment{Content: c.content()})
	case "dtd-attr":
		decl, hasDecl := m["decl"]
		req, err := boolParam(m, "required")
		if err != nil {
			return err
		}
		a := xw.DTDAttr{Name: c.name(), Type: xw.DTDAttrType(m["type"]), Value: decl}
		switch {
		case hasDecl && req:
			a.Default = xw.DTDAttrFixed
		case hasDecl:
			a.Default = xw.DTDAttrDefault
		case req:
			a.Default = xw.DTDAttrRequired
		default:
			a.Default = xw.DTDAttrImplied
		}
		return w.WriteDTDAttr(a)
	case "dtd-elem":
		return w.WriteDTDElem(xw.DTDElem{Name: c.name(), Decl: c.content()})
	case "dtd-entity":
		pe, err := boolParam(m, "is-pe")
		if err != nil {
			return err
		}
		return w.WriteDTDEntity(xw.DTDEntity{Name: c.name(), Content: c.content(), IsPE: pe,
			NDataID: m["ndata-id"], SystemID: m["system-id"], PublicID: m["public-id"]})
	case "notation":
		return w.WriteNotation(xw.Notation{Name: c.name(), SystemID: m["system-id"], PublicID: m["public-id"]})
	case "pi":
		return w.WritePI(xw.PI{Target: m["target"], Content: c.content()})
	case "raw":
		next := true
		if v, ok := m["next"]; ok {
			if next, err = yesNo(v); err != nil {
				return err
			}
		}
		if next {
			if err := w.Next(); err != nil {
				return err
			}
		}
		return w.WriteRaw(c.content())
	case "text":
		return w.WriteText(c.content())
	}
	return errScript
}

// --- scripts from documents

type scripter struct {
	g     *G
	cmds  []*Cmd
	c26   bool // only what libxml2's runner supports as well
	inDTD bool
}

func (s *scripter) add(a, k string, name *Str, content string, params ...string) {
	c := &Cmd{A: a, K: k, Name: name, C: Str(content)}
	for i := 0; i < len(params); i += 2 {
		c.P = append(c.P, SKV{params[i], Str(params[i+1])})
	}
	s.cmds = append(s.cmds, c)
}

func nonEmpty(kv ...string) []string {
	var out []string
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] != "" {
			out = append(out, kv[i], kv[i+1])
		}
	}
	return out
}

func (s *scripter) node(n *Node) {
	g := s.g
	name := &n.Name
	switch n.K {
	case "next":
		s.add("write", "raw", nil, "", "next", "yes")
	case "raw":
		if g.bit() {
			s.add("write", "raw", nil, string(n.S))
		} else {
			s.add("write", "raw", nil, string(n.S), "next", "true")
		}
	case "text":
		s.add("write", "text", nil, string(n.S))
	case "comment":
		if n.content() == "" && !s.inDTD && g.bit() {
			s.add("start", "comment", nil, "")
			s.add("end", "comment", nil, "")
		} else {
			s.add("write", "comment", nil, n.content())
		}
	case "cdata":
		if g.bit() {
			s.add("write", "cdata", nil, n.content())
		} else {
			s.add("start", "cdata", nil, "")
			for _, c := range n.Chunks {
				s.add("write", "cdata-content", nil, string(c))
			}
			s.add("end", "cdata", nil, "")
		}
	case "pi":
		s.add("write", "pi", nil, string(n.S), "target", string(n.Name))
	case "elem":
		s.add("start", "elem", name, "", nonEmpty("prefix", string(n.Prefix), "uri", string(n.URI))...)
		for _, a := range n.Attrs {
			s.add("write", "attr", &a.Name, string(a.S), nonEmpty("prefix", string(a.Prefix), "uri", string(a.URI))...)
		}
		for _, k := range n.Kids {
			s.node(k)
		}
		var p []string
		if n.Full || g.chance(1, 8) {
			p = []string{"full", pick(g, "true", "false", "yes", "no")}
			if n.Full {
				p[1] = pick(g, "true", "yes")
			}
		}
		var en *Str
		if g.chance(1, 4) {
			en = name
		}
		s.add("end", "elem", en, "", p...)
	case "dtd":
		s.add("start", "dtd", name, "", nonEmpty("public-id", string(n.Pub), "system-id", string(n.Sys))...)
		s.inDTD = s.c26
		for _, k := range n.Kids {
			s.node(k)
		}
		s.inDTD = false
		s.add("end", "dtd", nil, "")
	case "dtdelem":
		s.add("write", "dtd-elem", name, string(n.S))
	case "entity":
		p := nonEmpty("system-id", string(n.Sys), "public-id", string(n.Pub), "ndata-id", string(n.NDat))
		if n.PE {
			p = append(p, "is-pe", pick(g, "true", "yes"))
		} else if g.chance(1, 4) {
			p = append(p, "is-pe", pick(g, "false", "no"))
		}
		s.add("write", "dtd-entity", name, string(n.S), p...)
	case "notation":
		s.add("write", "notation", name, "", nonEmpty("system-id", string(n.Sys), "public-id", string(n.Pub))...)
	case "attlist":
		s.add("start", "dtd-att-list", name, "")
		for _, a := range n.Attrs {
			p := []string{"type", string(a.Type)}
			if a.Def == 1 || a.Def == 4 || a.Def == 0 && a.S != "" {
				p = append(p, "decl", string(a.S))
			}
			if a.Def == 2 || a.Def == 4 {
				p = append(p, "required", pick(g, "true", "yes"))
			} else if g.chance(1, 4) {
				p = append(p, "required", pick(g, "false", "no"))
			}
			s.add("write", "dtd-attr", &a.Name, "", p...)
		}
		s.add("end", "dtd-att-list", nil, "")
	default:
		harnessFail("script: %s", n.K)
	}
}

func (s *scripter) doc(d *Doc, enc string) {
	if d.Decl != nil {
		var p []string
		if enc != "" {
			p = append(p, "encoding", enc)
		}
		if s.g.bit() {
			p = append(p, "version", "1.0")
		}
		if d.Decl.Sta != nil {
			v := map[bool]string{true: "yes", false: "no"}[*d.Decl.Sta]
			if !s.c26 && s.g.chance(1, 4) {
				v = map[bool]string{true: pick(s.g, "true", "True", "YES", "Yes"), false: pick(s.g, "false", "FALSE", "No", "fAlse")}[*d.Decl.Sta]
			}
			p = append(p, "standalone", v)
		}
		s.add("start", "doc", nil, "", p...)
	}
	for _, l := range [][]*Node{d.Pre, {d.DTD}, d.Mid, {d.Root}, d.Post} {
		for _, n := range l {
			if n != nil {
				s.node(n)
			}
		}
	}
	if s.c26 {
		if d.Decl != nil && s.g.bit() {
			s.add("end", "doc", nil, "")
		} else if s.g.bit() {
			s.trimEnds()
			s.add("end", "all", nil, "")
		}
		return
	}
	switch s.g.n(4) {
	case 0, 1:
		if d.Decl != nil {
			s.add("end", "doc", nil, "")
		}
	case 2:
		s.trimEnds()
		s.add("end", "all", nil, "")
	}
}

// trimEnds drops some of the trailing "end elem" commands, leaving them to "end all".
func (s *scripter) trimEnds() {
	for len(s.cmds) > 0 && s.g.bit() {
		c := s.cmds[len(s.cmds)-1]
		if c.A != "end" || c.K != "elem" || len(c.P) > 0 {
			return
		}
		s.cmds = s.cmds[:len(s.cmds)-1]
	}
}

func xmlStr(g *G) string { return onlyChars(g.maybeLong(false), false) }

// stripped draws content for ws=strip: runs of white space of all kinds.
func (g *G) spacey() string {
	var b strings.Builder
	for i, n := 0, g.in(0, 8); i < n; i++ {
		b.WriteString(pick(g, " ", "\n", "\t", "\r", "  ", " \n ", "\u00a0", "\u2003", "\u2028", "\u0085", "\u3000", "a", "bc", "é", "<", "&", "x y"))
	}
	return b.String()
}

func (g *G) script() *Script {
	s := &Script{Indent: g.chance(1, 4), Forms: g.styles(24)}
	var enc string
	sh := shape{ns: true, dtd: true, next: true, raw: true, strs: xmlStr, maxNodes: 25, deep: 25}
	if g.chance(1, 2) {
		enc = pick(g, "UTF-8", "utf-8", "ISO-8859-1", "iso-8859-1", "Windows-1252", "WINDOWS-1252", "Utf-8", "")
	}
	if strings.HasPrefix(strings.ToUpper(enc), "ISO") || strings.HasPrefix(strings.ToUpper(enc), "WIN") {
		latin := func(f func(g *G) string) func(g *G) string {
			return func(g *G) string {
				return mapRunes(f(g), func(r rune, w int) (string, bool) { return "~", r > 0x7E && r < 0xA0 || r > 0xFF })
			}
		}
		sh.cdata, sh.comment, sh.pi = latin((*G).cdataText), latin((*G).commentText), latin((*G).piText)
		sh.name = func(g *G) string { return pick(g, "a", "b", "é", "elem", "x-1") }
		sh.prefixes = []string{"p", "q", "é"}
		if g.chance(1, 2) {
			sh.strs = latin(xmlStr)
		}
	}
	if g.chance(7, 8) {
		sc := &scripter{g: g}
		sc.doc(g.doc(sh), enc)
		s.Cmds = sc.cmds
	} else {
		for i, n := 0, g.in(1, 10); i < n; i++ {
			s.Cmds = append(s.Cmds, g.anyCmd())
		}
	}
	for _, c := range s.Cmds {
		if c.A == "write" && g.chance(1, 12) {
			c.Strip = true
			if g.bit() && !strings.HasPrefix(c.K, "dtd-e") {
				c.C = Str(g.spacey())
			}
		}
		if g.chance(1, 24) {
			c.P = append(c.P, SKV{pick(g, "line", "pos", "fn"), Str(pick(g, "12", "", "xml_elem"))})
		}
		if c.A == "write" && c.K == "raw" && g.chance(1, 3) {
			c.P = []SKV{{"next", Str(pick(g, "yes", "no", "true", "false", "NO", "True"))}}
		}
	}
	if g.chance(1, 4) {
		g.spoil(s)
	}
	return s
}

var cmdParams = map[string][]string{
	"write attr": {"prefix", "uri"}, "write cdata": nil, "write cdata-content": nil, "write comment": nil, "write dtd-attr": {"decl", "type", "required"},
	"write dtd-elem": nil, "write dtd-entity": {"is-pe", "ndata-id", "system-id", "public-id"}, "write notation": {"system-id", "public-id"},
	"write pi": {"target"}, "write raw": {"next"}, "write text": nil, "start cdata": nil, "start comment": nil, "start doc": {"version", "encoding", "standalone"},
	"start dtd": {"public-id", "system-id"}, "start dtd-att-list": nil, "start elem": {"prefix", "uri"}, "end all": nil, "end cdata": nil, "end comment": nil,
	"end doc": nil, "end dtd": nil, "end dtd-att-list": nil, "end elem": {"full"},
}

var cmdNames = func() []string {
	var out []string
	for k := range cmdParams {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}()

// anyCmd draws a command without regard to where it stands.
func (g *G) anyCmd() *Cmd {
	ak := cmdNames[g.n(len(cmdNames))]
	a, k, _ := strings.Cut(ak, " ")
	c := &Cmd{A: a, K: k}
	if g.chance(2, 3) {
		n := Str(g.ncname())
		c.Name = &n
	}
	if g.bit() {
		c.C = Str(onlyChars(g.str(false), false))
	}
	for _, p := range cmdParams[ak] {
		if !g.bit() {
			continue
		}
		v := g.ncname()
		switch p {
		case "required", "is-pe", "full", "next", "standalone":
			v = pick(g, "true", "false", "yes", "no", "Yes", "FALSE", "True", "TRUE", "No")
		case "encoding":
			v = pick(g, "UTF-8", "ISO-8859-1")
		case "version":
			v = "1.0"
		case "type":
			v = pick(g, "CDATA", "ID", "(a|b)")
		}
		c.P = append(c.P, SKV{p, Str(v)})
	}
	return c
}

// spoil makes a script that may be wrong.
func (g *G) spoil(s *Script) {
	if len(s.Cmds) == 0 {
		return
	}
	i := g.n(len(s.Cmds))
	c := s.Cmds[i]
	set := func(k, v string) {
		for j := range c.P {
			if c.P[j].K == k {
				c.P[j].V = Str(v)
				return
			}
		}
		c.P = append(c.P, SKV{k, Str(v)})
	}
	switch g.n(10) {
	case 0:
		c.A = pick(g, "", "Start", "begin", "writes", "block", "finish", " start")
	case 1:
		c.K = pick(g, "", "Elem", "element", "comment-content", "all", "doc", "dtd_attr", "dtdattr", "attr", "cdata-content", "raw", "notation")
	case 2:
		k := pick(g, "foo", "Prefix", "prefix", "uri", "full", "next", "system-id", "target", "Version", "is-pe", "enforce")
		if g.chance(1, 3) {
			// a name next to a known one
			k = pick(g, "line", "pos", "fn", "prefix", "uri", "full", "next", "system-id", "public-id", "ndata-id", "target", "is-pe", "decl", "type", "required", "version", "encoding", "standalone")
			k = pick(g, k+"s", k+"1", "x"+k, k[1:], k[:len(k)-1], strings.ToUpper(k))
		}
		set(k, pick(g, "x", "", "true"))
	case 3:
		set(pick(g, "standalone", "next", "full", "required", "is-pe"), pick(g, "", "1", "y", "nope", "yes ", "TRUE"))
	case 4:
		set("encoding", pick(g, "", "UTF8", "utf-16", "latin1", "ISO-8859-15", "US-ASCII", "x"))
	case 5:
		s.Cmds = append(s.Cmds[:i:i], s.Cmds[i+1:]...)
	case 6:
		s.Cmds = append(s.Cmds[:i+1:i+1], s.Cmds[i:]...)
	case 7:
		j := g.n(len(s.Cmds))
		s.Cmds[i], s.Cmds[j] = s.Cmds[j], s.Cmds[i]
	case 8:
		s.Cmds = append(s.Cmds[:i:i], append([]*Cmd{g.anyCmd()}, s.Cmds[i:]...)...)
	case 9:
		if g.bit() {
			s.Cut = 1
		} else {
			n := Str(g.badName())
			n = Str(onlyChars(string(n), false))
			c.Name = &n
		}
	}
	if len(s.Cmds) == 0 {
		s.Cmds = []*Cmd{{A: "end", K: "all"}}
	}
}

func cmdsString(cs []*Cmd) string {
	var b strings.Builder
	for i, c := range cs {
		fmt.Fprintf(&b, "  %d: %s\n", i, trunc(string(jsonOf(c)), 400))
		if i > 60 {
			fmt.Fprintf(&b, "  ... %d commands in all\n", len(cs))
			break
		}
	}
	return b.String()
}

func scriptCheck(s *Script, st *Stats) error {
	want, werr := s.direct()
	if s.Cut > 0 {
		werr = errors.New("the script is not well-formed")
	}
	var args []string
	if s.Indent {
		args = []string{"-indent"}
	}
	r, err := tool(s.xml(), "gotester", args...)
	if err != nil {
		return err
	}
	ctx := func() string {
		return fmt.Sprintf("\ncommands (indent=%v):\n%s", s.Indent, cmdsString(s.Cmds))
	}
	if r.crashed() {
		return fmt.Errorf("the runner crashed: %s%s", trunc(r.err, 2000), ctx())
	}
	for _, c := range s.Cmds {
		st.class("%s %s", c.A, c.K)
	}
	if werr != nil {
		if r.code == 0 {
			return fmt.Errorf("the runner exits with success, but: %v%s", werr, ctx())
		}
		st.class("error exit")
		st.nontrivial(true)
		return nil
	}
	if r.code != 0 {
		return fmt.Errorf("the direct calls succeed, the runner exits with %d: %s%s", r.code, trunc(r.err, 500), ctx())
	}
	if r.out != want {
		return fmt.Errorf("the runner's output is not that of the direct calls: %s%s", diffAt(want, r.out), ctx())
	}
	st.class("output compared")
	st.nontrivial(len(s.Cmds) > 3)
	return nil
}

// --- C26

// sameDoc compares two outputs as documents. enc is the encoding of their bytes.
func sameDoc(a, b, enc string, relax func([]Ev) []Ev) error {
	ea, err := decodeParse(a, enc)
	if err != nil {
		return fmt.Errorf("the first does not parse: %v", err)
	}
	eb, err := decodeParse(b, enc)
	if err != nil {
		return fmt.Errorf("the second does not parse: %v", err)
	}
	if d := diffEvents(relax(relaxed(ea)), relax(relaxed(eb))); d != "" {
		return errors.New(d)
	}
	return nil
}

func noRelax(e []Ev) []Ev { return e }

func decodeParse(s, enc string) ([]Ev, error) {
	if enc != "" && !strings.EqualFold(enc, "UTF-8") { // both encodings agree on the characters the generator uses
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			b.WriteRune(rune(s[i]))
		}
		s = b.String()
	}
	return parseXML(s, 0)
}

var charRefs = regexp.MustCompile("&#x?[0-9a-fA-F]+;")

// relaxed drops what is not part of the document's meaning: the form of empty
// elements, the case of the encoding name, an empty internal subset, and the
// white space of content models and public identifiers.
func relaxed(evs []Ev) []Ev {
	out := make([]Ev, 0, len(evs))
	for _, e := range evs {
		e.Short = false
		switch e.T {
		case "decl":
			e.A = append([]KV{}, e.A...)
			for i := range e.A {
				if e.A[i].K == "encoding" {
					e.A[i].V = strings.ToUpper(e.A[i].V)
				}
			}
		case "doctype":
			e.Flag = ""
		case "elemdecl":
			e.S = strings.Map(func(r rune) rune {
				if r < 0x80 && isSpace(byte(r)) {
					return -1
				}
				return r
			}, e.S)
		case "entity": // the replacement text
			e.S = charRefs.ReplaceAllStringFunc(e.S, func(r string) string {
				d, base := r[2:len(r)-1], 10
				if d[0] == 'x' {
					d, base = d[1:], 16
				}
				n, _ := strconv.ParseInt(d, base, 32)
				return string(rune(n))
			})
		case "attlist":
			e.A = append([]KV{}, e.A...)
			for i := range e.A {
				e.A[i].V = strings.ReplaceAll(e.A[i].V, "NOTATION (", "NOTATION(")
			}
		}
		if e.Pub != nil && strings.HasPrefix(e.Pub.K, "PUBLIC ") {
			e.Pub = &KV{"PUBLIC " + collapse(e.Pub.K[7:]), e.Pub.V}
		}
		out = append(out, e)
	}
	return out
}

// libxmlDoc draws a document both writers can write.
func (g *G) libxmlDoc(enc string) *Doc {
	sh := shape{ns: true, dtd: true, strs: xmlStr, maxNodes: 25, deep: 25}
	latin := enc != "" && !strings.EqualFold(enc, "UTF-8")
	if latin {
		l := func(f func(g *G) string) func(g *G) string {
			return func(g *G) string {
				return mapRunes(f(g), func(r rune, w int) (string, bool) { return "~", r > 0x7E && r < 0xA0 || r > 0xFF })
			}
		}
		sh.strs, sh.cdata, sh.comment, sh.pi = l(xmlStr), l((*G).cdataText), l((*G).commentText), l((*G).piText)
		sh.name = func(g *G) string { return pick(g, "a", "b", "é", "elem", "x-1") }
		sh.prefixes = []string{"p", "q", "é"}
	}
	d := g.doc(sh)
	if d.DTD != nil {
		g.commonDTD(d.DTD, latin, false)
	}
	if d.Root != nil && g.chance(1, 4) {
		g.sprinkleRaw(d.Root)
	}
	return d
}

// sprinkleRaw adds well-formed raw fragments to elements.
func (g *G) sprinkleRaw(n *Node) {
	var kids []*Node
	for _, k := range n.Kids {
		if g.chance(1, 3) {
			kids = append(kids, &Node{K: "raw", S: Str(pick(g, "<r/>", "r &amp; r", "<r x='1'>t</r>", "<!--raw-->", "&#65;", ""))})
		}
		if k.K == "elem" {
			g.sprinkleRaw(k)
		}
		kids = append(kids, k)
	}
	if g.bit() {
		kids = append(kids, &Node{K: "raw", S: "<r/>"})
	}
	n.Kids = kids
}

// commonDTD restricts a DTD to what libxml2's runner can write: its literals
// are always in double quotes, and a public identifier needs a system identifier.
func (g *G) commonDTD(d *Node, latin, builder bool) {
	noq := func(s *Str) {
		*s = Str(strings.ReplaceAll(string(*s), `"`, "'"))
		if latin {
			*s = Str(mapRunes(string(*s), func(r rune, w int) (string, bool) { return "~", r > 0x7E }))
		}
	}
	var fix func(n *Node)
	fix = func(n *Node) {
		noq(&n.Pub)
		noq(&n.Sys)
		if n.Pub != "" && n.Sys == "" {
			n.Sys = "s"
		}
		switch n.K {
		case "entity", "dtdelem":
			if n.K == "dtdelem" {
				n.S = Str(strings.ReplaceAll(string(n.S), "é", "e"))
			}
			if n.K != "entity" || !builder {
				noq(&n.S)
			}
		}
		for _, a := range n.Attrs {
			a.S = Str(mapRunes(string(a.S), func(r rune, w int) (string, bool) {
				return "_", latin && r > 0x7E
			}))
		}
		for _, k := range n.Kids {
			fix(k)
		}
	}
	fix(d)
}

type LibxmlCase struct {
	S   *Script
	Enc Str `json:",omitempty"`
}

func (g *G) libxmlCase() *LibxmlCase {
	c := &LibxmlCase{S: &Script{Forms: g.styles(24)}}
	if g.bit() {
		c.Enc = Str(pick(g, "UTF-8", "UTF-8", "ISO-8859-1", "WINDOWS-1252"))
	}
	sc := &scripter{g: g, c26: true}
	d := g.libxmlDoc(string(c.Enc))
	if d.Decl == nil {
		c.Enc = ""
		if g.bit() {
			d.Decl = g.declNode()
		}
	}
	if g.chance(1, 16) {
		d = g.many(false, "kids", "only", "attrs", "ns", "depth", "top", "dtd", "attlist").apply(d)
	}
	sc.doc(d, string(c.Enc))
	c.S.Cmds = sc.cmds
	for _, k := range c.S.Cmds {
		if k.A == "write" && (k.K == "text" || k.K == "attr" || k.K == "comment" && !strings.HasSuffix(strings.TrimSpace(string(k.C)), "-")) && g.chance(1, 16) {
			k.Strip = true
		}
	}
	return c
}

func libxmlCheck(c *LibxmlCase, st *Stats) error {
	x := c.S.xml()
	a, err := tool(x, "gotester")
	if err != nil {
		return err
	}
	b, err := tool(x, "ctester")
	if err != nil {
		return err
	}
	ctx := func() string {
		return fmt.Sprintf("\ncommands:\n%s\nxmlwriter: %s\nlibxml2:   %s", cmdsString(c.S.Cmds), show(a.out), show(b.out))
	}
	if b.crashed() || a.crashed() {
		return fmt.Errorf("a runner crashed: %s %s%s", trunc(a.err, 500), trunc(b.err, 500), ctx())
	}
	if a.code != 0 || b.code != 0 {
		if a.code == 0 {
			return fmt.Errorf("libxml2's runner fails with %d on a script of the common subset: %s%s", b.code, trunc(b.err, 300), ctx())
		}
		if b.code == 0 {
			return fmt.Errorf("the Go runner fails on a script of the common subset: %s%s", trunc(a.err, 300), ctx())
		}
		st.class("both reject")
		return nil
	}
	if err := sameDoc(a.out, b.out, string(c.Enc), noRelax); err != nil {
		return fmt.Errorf("the two writers disagree: %v%s", err, ctx())
	}
	for _, k := range c.S.Cmds {
		st.class("%s %s", k.A, k.K)
	}
	if c.Enc != "" {
		st.class("encoding %s", c.Enc)
	}
	st.nontrivial(len(c.S.Cmds) > 3)
	return nil
}

// --- documents written by the harness itself

// spell serialises a document; forms drives the choices XML leaves open.
type spell struct {
	b     strings.Builder
	forms []int
	pos   int
	perm  int // rotation of attribute lists
	refs  int // base of all character references in the content, if not 0
	inDTD bool
	tight bool // no optional white space in the DTD
}

func (s *spell) form(n int) int {
	if len(s.forms) == 0 {
		return 0
	}
	s.pos++
	return (s.forms[s.pos%len(s.forms)] + s.pos/len(s.forms)) % n
}

func (s *spell) w(parts ...string) {
	for _, p := range parts {
		s.b.WriteString(p)
	}
}

func (s *spell) opt(ws string) string {
	if s.form(4) == 3 {
		return ws
	}
	return ""
}

func (s *spell) charRef(r rune) string {
	f := s.form(3)
	if s.refs != 0 && !s.inDTD {
		f = map[int]int{10: 0, 16: 1}[s.refs]
	}
	switch f {
	case 0:
		return fmt.Sprintf("&#%d;", r)
	case 1:
		return fmt.Sprintf("&#x%x;", r)
	}
	return fmt.Sprintf("&#x%05X;", r)
}

func (s *spell) text(t string) {
	for _, r := range t {
		switch {
		case r == '<':
			s.named("&lt;", r)
		case r == '&':
			s.named("&amp;", r)
		case r == '>':
			s.named("&gt;", r)
		case r == '\r' || s.form(23) == 7:
			s.w(s.charRef(r))
		default:
			s.b.WriteRune(r)
		}
	}
}

func (s *spell) named(ent string, r rune) {
	if s.form(2) == 0 {
		s.w(ent)
	} else {
		s.w(s.charRef(r))
	}
}

func (s *spell) attVal(t string) {
	q := []string{`"`, `'`}[s.form(2)]
	s.w(q)
	for _, r := range t {
		switch {
		case r == '<':
			s.w("&lt;")
		case r == '&':
			s.w("&amp;")
		case string(r) == q, r == '\n', r == '\r', r == '\t', s.form(23) == 7:
			s.w(s.charRef(r))
		default:
			s.b.WriteRune(r)
		}
	}
	s.w(q)
}

func (s *spell) literal(t string) {
	q := []string{`"`, `'`}[s.form(2)]
	if strings.Contains(t, `"`) {
		q = `'`
	} else if strings.Contains(t, `'`) {
		q = `"`
	}
	s.w(q, t, q)
}

func (s *spell) extID(n *Node) {
	switch {
	case n.Pub != "":
		s.w(" PUBLIC ")
		s.literal(string(n.Pub))
		if n.Sys != "" {
			s.w(" ")
			s.literal(string(n.Sys))
		}
	case n.Sys != "":
		s.w(" SYSTEM ")
		s.literal(string(n.Sys))
	}
}

func (s *spell) gap() {
	if !s.tight {
		s.w([]string{"\n", "", " ", "\n  "}[s.form(4)])
	}
}

func (s *spell) node(n *Node) {
	switch n.K {
	case "text":
		s.text(string(n.S))
	case "comment":
		s.w("<!--", n.content(), "-->")
	case "cdata":
		s.w("<![CDATA[", n.content(), "]]>")
	case "pi":
		s.w("<?", string(n.Name))
		if n.S != "" {
			s.w(" ", string(n.S))
		}
		s.w("?>")
	case "elem":
		s.w("<", n.fullName())
		var as []KV
		for _, kv := range nsOf(n) {
			name := "xmlns"
			if kv.K != "" {
				name += ":" + kv.K
			}
			as = append(as, KV{name, kv.V})
		}
		for _, a := range n.Attrs {
			as = append(as, KV{a.fullName(), string(a.S)})
		}
		for i := range as {
			kv := as[(i+s.perm)%len(as)]
			s.w([]string{" ", "\n", "  "}[s.form(3)], kv.K, s.opt(" "), "=", s.opt("\n"))
			s.attVal(kv.V)
		}
		s.w(s.opt(" "))
		if len(n.Kids) == 0 && !n.Full {
			s.w("/>")
			return
		}
		s.w(">")
		for _, k := range n.Kids {
			s.node(k)
		}
		s.w("</", n.fullName(), s.opt(" "), ">")
	case "dtd":
		s.inDTD = true
		defer func() { s.inDTD = false }()
		s.w("<!DOCTYPE ", string(n.Name))
		s.extID(n)
		s.w(s.opt(" "))
		if len(n.Kids) > 0 {
			s.w("[")
			for _, k := range n.Kids {
				s.gap()
				s.node(k)
			}
			s.gap()
			s.w("]")
		}
		s.w(">")
	case "dtdelem":
		s.w("<!ELEMENT ", string(n.Name), " ", string(n.S), s.opt(" "), ">")
	case "entity":
		s.w("<!ENTITY ")
		if n.PE {
			s.w("% ")
		}
		s.w(string(n.Name))
		if n.Sys != "" {
			s.extID(n)
			if n.NDat != "" {
				s.w(" NDATA ", string(n.NDat))
			}
		} else {
			s.w(" ")
			s.literal(string(n.S))
		}
		s.w(s.opt(" "), ">")
	case "notation":
		s.w("<!NOTATION ", string(n.Name))
		s.extID(n)
		s.w(">")
	case "attlist":
		s.w("<!ATTLIST ", string(n.Name))
		for _, a := range n.Attrs {
			s.w(" ", string(a.Name), " ", string(a.Type), " ")
			switch {
			case a.Def == 1 || a.Def == 0 && a.S != "":
				s.attVal(string(a.S))
			case a.Def == 2:
				s.w("#REQUIRED")
			case a.Def == 4:
				s.w("#FIXED ")
				s.attVal(string(a.S))
			default:
				s.w("#IMPLIED")
			}
		}
		s.w(">")
	default:
		harnessFail("spell: %s", n.K)
	}
}

// declForms are the spellings of the XML declaration's white space and quotes.
func (s *spell) decl(n *Node, enc string) {
	sp := func() string { return []string{" ", " ", "  ", "\n", "\t", "\r\n"}[s.form(6)] }
	eq := func() string { return []string{"=", "=", "=", " = ", "= ", "\n=", "=\t", "\r\n= ", "   =", "=\n\n"}[s.form(10)] }
	q := func(v string) string {
		if s.form(2) == 0 {
			return `"` + v + `"`
		}
		return `'` + v + `'`
	}
	version := string(n.Name)
	if version == "" {
		version = "1.0"
	}
	s.w("<?xml", sp(), "version", eq(), q(version))
	if enc != "" {
		s.w(sp(), "encoding", eq(), q(enc))
	}
	if n.Sta != nil {
		s.w(sp(), "standalone", eq(), q(map[bool]string{true: "yes", false: "no"}[*n.Sta]))
	}
	s.w([]string{"", "", " "}[s.form(3)], "?>")
}

func (s *spell) doc(d *Doc, enc string) string {
	if d.Decl != nil {
		s.decl(d.Decl, enc)
		s.w([]string{"", "\n"}[s.form(2)])
	}
	for _, l := range [][]*Node{d.Pre, {d.DTD}, d.Mid, {d.Root}, d.Post} {
		for _, n := range l {
			if n != nil {
				s.node(n)
				s.w([]string{"", "\n", "", " \n"}[s.form(4)])
			}
		}
	}
	return s.b.String()
}

// SrcCase is a document spelled as XML text.
type SrcCase struct {
	D     *Doc
	Enc   Str   `json:",omitempty"`
	Forms []int `json:",omitempty"`
	Tight bool  `json:",omitempty"`
	Debug bool  `json:",omitempty"`
	Perm  int   `json:",omitempty"`
	Args  int   `json:",omitempty"`
	Body  int   `json:",omitempty"`
	BOM   bool  `json:",omitempty"` // with a byte order mark
	Cut   int   `json:",omitempty"` // where to end the text early, counted from its end
	M     *Many `json:",omitempty"`
}

func (c *SrcCase) doc() *Doc {
	if c.M != nil {
		return c.M.apply(c.D)
	}
	return c.D
}

func (c *SrcCase) bom() string {
	if c.BOM {
		return "\ufeff"
	}
	return ""
}

func (c *SrcCase) text(perm int) string {
	s := &spell{forms: c.Forms, tight: c.Tight, perm: perm}
	return s.doc(c.doc(), string(c.Enc))
}

// expatName draws a name that older parsers accept as well.
func expatName(g *G) string {
	if g.chance(3, 4) {
		return pick(g, "a", "b", "c", "elem", "x1", "e", "row", "Item", "f-g", "h.i", "_j", "k0", "long-name_01")
	}
	return pick(g, "é", "ñandú", "名前", "ж", "élan-1", "Ω", "字") + pick(g, "", "1", "x", "é", "-", ".")
}

// srcDoc draws a document within what expat and the script builder support.
// entityLiteral makes a well-formed entity value, with references of all
// kinds, of a string.
func (g *G) entityLiteral(t string) string {
	if g.chance(1, 3) {
		t = pick(g, "\u00a0", "\u00a0kg", "x\u00a0", "\u00a0\u00a0", "&#160;", "&#38;#60;", "&#38;#38;", "&#60;b/>", "&#38;amp;", "<b>t</b>", `<b c="d"/>`, "<b c='d'/>", "a&#13;b", "a\nb", "&lt;&gt;&amp;", "&undefined;", "&#37;x;", "&#x22;&#x27;", "100&#37;", "&é.1;", "&#38;1;", "")
	} else {
		t = strings.NewReplacer("%", pick(g, "&#37;", "&#x25;"), "&", pick(g, "&amp;", "&#38;", "&x;", "&#x26;#38;"), "\r", "&#13;").Replace(t)
	}
	if strings.Contains(t, `"`) && strings.Contains(t, `'`) {
		t = strings.ReplaceAll(t, `"`, "&#34;")
	}
	return t
}

func (g *G) srcDoc(builder bool) *Doc {
	sh := shape{ns: true, dtd: true, strs: xmlStr, name: expatName, maxNodes: 25, deep: 25, prefixes: []string{"p", "q", "ns1", "é", "pq", "ns", "n", "xsi", "x"}}
	d := g.doc(sh)
	if d.DTD != nil {
		i := 0
		for _, k := range d.DTD.Kids {
			k.S = Str(k.content())
			k.Chunks = nil
			switch k.K {
			case "attlist":
				// declared defaults would be added to the elements of that name
				k.Name = Str(fmt.Sprintf("dtd.%s%d", expatName(g), i))
				i++
				if builder && len(k.Attrs) == 0 { // expat does not report an empty list
					k.Attrs = []*Node{{K: "dtdattr", Name: "x", Type: "CDATA"}}
				}
				for _, a := range k.Attrs {
					if a.Type != "CDATA" {
						a.S = Str(pick(g, "a", "x", "n", "tok")) // other types are normalised
					}
				}
			case "entity":
				k.S = Str(g.entityLiteral(string(k.S)))
			}
			if k.Pub != "" {
				k.Pub = Str(collapse(string(k.Pub)))
				if k.Pub == "" {
					k.Pub = "p"
				}
			}
		}
		if d.DTD.Pub != "" {
			d.DTD.Pub = Str(collapse(string(d.DTD.Pub)))
			if d.DTD.Pub == "" {
				d.DTD.Pub = "p"
			}
		}
		if builder {
			g.commonDTD(d.DTD, false, true)
		}
		// entities and notations are declared once
		seen := map[string]bool{}
		var kids []*Node
		for _, k := range d.DTD.Kids {
			id := k.K + "/" + string(k.Name)
			if k.K == "entity" && k.PE {
				id = "%" + id
			}
			if k.K == "comment" || k.K == "attlist" || !seen[id] {
				kids = append(kids, k)
			}
			seen[id] = true
		}
		d.DTD.Kids = kids
	}
	return d
}

func (g *G) srcCase(builder bool) *SrcCase {
	c := &SrcCase{D: g.srcDoc(builder), Forms: g.styles(g.in(1, 31)), Tight: g.chance(1, 3), Debug: g.chance(1, 4), Perm: g.n(6), Args: g.n(4), Body: g.n(4), BOM: g.chance(1, 10)}
	if c.D.Decl == nil && g.bit() {
		c.D.Decl = g.declNode()
	}
	if c.D.Decl != nil && g.chance(3, 4) {
		c.Enc = Str(pick(g, "UTF-8", "utf-8", "Utf-8"))
	}
	if g.chance(1, 8) { // a long text, across the read buffers
		c.D.Root.Kids = append(c.D.Root.Kids, &Node{K: "text", S: Str(onlyChars(g.long(false), false))})
	}
	if g.chance(1, 12) {
		m := g.many(false, "kids", "only", "attrs", "ns", "depth", "top", "dtd", "attlist")
		c.M = &m
	}
	if g.chance(1, 2) {
		c.Cut = g.in(1, 200)
		if g.chance(1, 6) {
			c.Cut = g.in(1, 20000)
		}
	}
	return c
}

// refusesBroken checks that a tool which parses its input ends with an error
// when that is not well-formed: ended early, or with something after the end.
func (c *SrcCase) refusesBroken(src string, st *Stats, name string, args ...string) error {
	if c.Cut == 0 {
		return nil
	}
	bad := src[:len(src)-min(c.Cut, len(src))]
	if c.Cut%4 == 0 {
		bad = src + pick4(c.Cut/4, "<z/>", "</z>", "z", "<z")
	}
	if _, err := parseXML(bad, 0); err == nil {
		return nil // what is missing came after the root
	}
	r, err := tool(c.bom()+bad, name, args...)
	if err != nil {
		return err
	}
	if r.code == 0 {
		return fmt.Errorf("%s ends without an error on a document that is not well-formed: %s\noutput: %s", name, show(bad), show(trunc(r.out, 400)))
	}
	st.class("input that is not well-formed")
	st.Extra++
	return nil
}

func pick4(i int, s ...string) string { return s[i%len(s)] }

// --- C27

func builderCheck(c *SrcCase, st *Stats) error {
	src := c.text(0)
	want, err := parseXML(src, 0)
	if err != nil {
		harnessFail("spell: %v in %s", err, show(src))
	}
	var args []string
	if c.Debug {
		args = []string{"-d"}
	}
	if c.Args == 3 { // only white space outside the root and between declarations
		args = append(args, "-s")
		st.class("-s")
	}
	script, err := must(c.bom()+src, "testbuilder", args...)
	if err != nil {
		return fmt.Errorf("%v\ndocument: %s", err, show(src))
	}
	for _, runner := range []string{"gotester", "ctester"} {
		out, err := must(script, runner)
		if err != nil {
			return fmt.Errorf("the built script does not run: %v\ndocument: %s\nscript: %s", err, show(src), show(script))
		}
		got, err := parseXML(out, 0)
		if err != nil {
			return fmt.Errorf("%s's output is not well-formed: %v\ndocument: %s\noutput: %s", runner, err, show(src), show(out))
		}
		if d := diffEvents(relaxed(want), relaxed(got)); d != "" {
			return fmt.Errorf("%s's output is another document: %s\ndocument: %s\noutput: %s\nscript: %s", runner, d, show(src), show(out), show(script))
		}
	}
	if err := c.refusesBroken(src, st, "testbuilder", args...); err != nil {
		return err
	}
	s := c.doc().stats()
	s.classify(st)
	if c.BOM {
		st.class("byte order mark")
	}
	if len(src) > 8192 {
		st.class("longer than the read buffer")
	}
	if c.D.Decl != nil {
		st.class("declaration")
	}
	st.nontrivial(s.elems > 1 || s.decls > 0)
	st.Extra += 2
	return nil
}

// --- C28

func normaliserCheck(c *SrcCase, st *Stats) error {
	src := c.text(0)
	want, err := parseXML(src, 0)
	if err != nil {
		harnessFail("spell: %v in %s", err, show(src))
	}
	out, err := must(c.bom()+src, "normaliser")
	if err != nil {
		return fmt.Errorf("%v\ndocument: %s", err, show(src))
	}
	got, err := parseXML(out, 0)
	if err != nil {
		return fmt.Errorf("the normaliser's output is not well-formed: %v\ndocument: %s\noutput: %s", err, show(src), show(out))
	}
	sortAttrs := func(evs []Ev) []Ev {
		for i := range evs {
			if evs[i].T == "start" {
				evs[i].A = append([]KV{}, evs[i].A...)
				sortKV(evs[i].A)
			}
		}
		return evs
	}
	if d := diffEvents(sortAttrs(relaxed(want)), sortAttrs(relaxed(got))); d != "" {
		return fmt.Errorf("the normaliser changes the document: %s\ndocument: %s\noutput: %s", d, show(src), show(out))
	}
	again, err := must(out, "normaliser")
	if err != nil {
		return fmt.Errorf("normalising again: %v\noutput: %s", err, show(out))
	}
	if again != out {
		return fmt.Errorf("normalising again changes the output: %s\ndocument: %s", diffAt(out, again), show(src))
	}
	max := 0
	for _, n := range allNodes(c.doc()) {
		if n.K == "elem" && len(n.Attrs) > max {
			max = len(n.Attrs)
		}
	}
	if c.Perm > 0 && max > 0 {
		// the same spelling with the attributes in another order
		d2 := cloneDoc(c.doc())
		for _, n := range allNodes(d2) {
			if n.K == "elem" && len(n.Attrs) > 1 {
				for i := range n.Attrs {
					j := (i*(c.Perm+1) + c.Perm) % len(n.Attrs)
					n.Attrs[i], n.Attrs[j] = n.Attrs[j], n.Attrs[i]
				}
			}
		}
		// forms are consumed per character, so spell both without choices
		plain := func(d *Doc) string { return (&spell{}).doc(d, string(c.Enc)) }
		o1, err := must(plain(c.doc()), "normaliser")
		if err != nil {
			return err
		}
		o2, err := must(plain(d2), "normaliser")
		if err != nil {
			return err
		}
		if o1 != o2 {
			return fmt.Errorf("the order of attributes shows in the normaliser's output: %s\ndocument: %s", diffAt(o1, o2), show(plain(c.doc())))
		}
		st.class("attributes permuted")
		st.Extra += 2
	}
	// the base of character references does not show
	var outs [2]string
	var srcs [2]string
	for i, base := range []int{10, 16} {
		s := &spell{forms: c.Forms, tight: c.Tight, refs: base}
		srcs[i] = s.doc(c.doc(), string(c.Enc))
	}
	if srcs[0] != srcs[1] {
		for i := range srcs {
			if outs[i], err = must(srcs[i], "normaliser"); err != nil {
				return err
			}
		}
		if outs[0] != outs[1] {
			return fmt.Errorf("the base of character references shows in the normaliser's output: %s\ndocument: %s", diffAt(outs[0], outs[1]), show(srcs[0]))
		}
		st.class("character references in both bases")
		st.Extra += 2
	}
	if err := c.refusesBroken(src, st, "normaliser"); err != nil {
		return err
	}
	s := c.doc().stats()
	s.classify(st)
	if c.BOM {
		st.class("byte order mark")
	}
	if len(src) > 8192 {
		st.class("longer than the read buffer")
	}
	st.nontrivial(s.elems > 1 || s.attrs > 0)
	st.Extra++
	return nil
}

// EncToolCase is an input for the encoding tools.
type EncToolCase struct {
	Decl  bool
	BOM   bool `json:",omitempty"` // the input starts with a byte order mark
	Forms []int
	Version Str `json:",omitempty"`
	Enc   Str   `json:",omitempty"`
	Sta   *bool `json:",omitempty"`
	Size  int   // length of the whole input, if longer than the parts
	Fill  Str
	Tail  Str
	Mode  int // 0 upper case, 1 replace, 2 delete
	To    Str
}

func (g *G) encToolCase() *EncToolCase {
	c := &EncToolCase{Decl: g.chance(3, 4), Forms: g.styles(g.in(1, 20)), Mode: g.n(3), Fill: Str(pick(g, "a", "=", "?", "é", "\n", "<!-- x -->", "<?xml version='1.0' encoding='q'?>", `encoding="x"`, "\xff"))}
	if g.chance(1, 4) {
		c.Version = Str(pick(g, "1.1", "1.01", "1.10", "1.2345678901", "1.0"))
	}
	if g.chance(3, 4) {
		c.Enc = Str(pick(g, "UTF-8", "utf-8", "iso-8859-1", "Windows-1252", "us-ascii", "Shift_JIS", "x.y_z-1", "e"))
	}
	if g.chance(1, 3) {
		b := g.bit()
		c.Sta = &b
	}
	c.To = Str(pick(g, "UTF-8", "utf-16le", "Q"))
	if g.bit() {
		c.Size = pick(g, 0, 100, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 20000, 24576, 32768, 40960, 50000, 65536, 70000, 140000) + g.n(3) - 1
	}
	c.Tail = Str(g.str(true))
	c.BOM = g.chance(1, 8)
	return c
}

func (c *EncToolCase) parts() (head, rest string) {
	if c.Decl {
		s := &spell{forms: c.Forms}
		s.decl(&Node{Name: c.Version, Sta: c.Sta}, string(c.Enc))
		head = s.b.String()
	}
	rest = "<e>"
	if !c.Decl && len(c.Forms)%2 == 0 {
		rest = ""
	}
	tail := string(c.Tail)
	if n := c.Size - len(head) - len(rest) - len(tail); n > 0 {
		rest += strings.Repeat(string(c.Fill), n/len(c.Fill)+1)[:n]
	}
	return head, rest + tail
}

func encToolsCheck(c *EncToolCase, st *Stats) error {
	head, rest := c.parts()
	bom := ""
	in := head + rest
	if !c.Decl && isDeclStart(in) {
		return nil // the filler happens to begin a declaration, perhaps a broken one
	}
	var args []string
	want := strings.ToUpper(string(c.Enc))
	switch c.Mode {
	case 1:
		args = []string{"-f", string(c.To)}
		if want != "" {
			want = string(c.To)
		}
	case 2:
		args = []string{"-d"}
		want = ""
	}
	if c.BOM {
		bom = "\ufeff"
		in = bom + in
		st.class("byte order mark")
	}
	out, err := must(in, "encfixer", args...)
	if err != nil {
		return fmt.Errorf("%v\ninput: %s", err, show(in))
	}
	if c.Decl {
		if !strings.HasPrefix(out, bom) {
			return fmt.Errorf("encfixer %v loses the byte order mark\ninput: %s\noutput: %s", args, show(in), show(out))
		}
		out = out[len(bom):]
	}
	if !c.Decl {
		if out != in {
			return fmt.Errorf("encfixer %v changes an input without a declaration: %s", args, diffAt(in, out))
		}
		st.class("no declaration")
	} else {
		if !strings.HasSuffix(out, "?>"+rest) {
			return fmt.Errorf("encfixer %v does not pass on what follows the declaration\ninput: %s\noutput: %s", args, show(in), show(out))
		}
		evs, err := parseXML(out[:len(out)-len(rest)]+"<e/>", 0)
		if err != nil {
			return fmt.Errorf("encfixer %v: the declaration is not well-formed: %v\ninput: %s\noutput: %s", args, err, show(in), show(out))
		}
		version := string(c.Version)
		if version == "" {
			version = "1.0"
		}
		kv := []KV{{"version", version}}
		if want != "" {
			kv = append(kv, KV{"encoding", want})
		}
		if c.Sta != nil {
			kv = append(kv, KV{"standalone", map[bool]string{true: "yes", false: "no"}[*c.Sta]})
		}
		if d := diffEvents([]Ev{{T: "decl", A: kv}}, evs[:1]); d != "" {
			return fmt.Errorf("encfixer %v: %s\ninput: %s\noutput: %s", args, d, show(in), show(out))
		}
		st.class("declaration, mode %d", c.Mode)
	}
	wantEnc := ""
	if c.Decl && c.Enc != "" {
		wantEnc = strings.ToUpper(string(c.Enc)) + "\n"
	}
	got, err := must(in, "encextractor")
	if err != nil {
		return fmt.Errorf("%v\ninput: %s", err, show(in))
	}
	if got != wantEnc {
		return fmt.Errorf("encextractor prints %q, want %q\ninput: %s", got, wantEnc, show(in))
	}
	st.nontrivial(c.Decl || len(in) > 4096)
	st.Extra++
	return nil
}

func isDeclStart(s string) bool { return strings.HasPrefix(s, "<?xml") && len(s) > 5 && isSpace(s[5]) }

// HighCase is an input for the high-byte detector.
type HighCase struct {
	Len int
	At  []int
	B   int
}

func highCheck(c *HighCase, st *Stats) error {
	in := bytes.Repeat([]byte("a\x00b\x7f"), c.Len/4+1)[:c.Len]
	for _, a := range c.At {
		if a < len(in) {
			in[a] = byte(c.B)
		}
	}
	want := 0
	for _, b := range in {
		if b > 127 {
			want = 1
		}
	}
	r, err := tool(string(in), "nohigh")
	if err != nil {
		return err
	}
	if r.code != want {
		return fmt.Errorf("nohigh exits with %d for an input of %d bytes with byte %#x at %v, want %d", r.code, c.Len, c.B, c.At, want)
	}
	st.class("exit %d", want)
	st.nontrivial(len(in) > 0)
	return nil
}

func init() {
	checks["C25"] = &propCheck{
		rule:        "scripts built from documents and from random commands, some spoilt, run by the real gotester program; exit status and bytes compared with the same calls made directly; non-trivial: an error exit was demanded, or the output of more than three commands compared",
		assumptions: []string{"what an empty script, an <enforce> element or a repeated attribute does is not specified"},
		setup:       setupTools(true),
		subs: []sub{
			gsub[*Script]{id: "scripts", quick: 6000, deep: 300000, gen: (*G).script, check: scriptCheck},
		},
	}
	checks["C26"] = &propCheck{
		rule:        "scripts of the subset both runners support, run by the real gotester and ctester programs; parsed outputs compared; non-trivial: more than three commands",
		assumptions: []string{"libxml2's text writer and ctester.c are the reference", "DTD literals without double quotes, a system identifier with every public one, no processing instructions inside a DTD: ctester cannot write the others"},
		setup:       setupTools(true, "ctester"),
		subs: []sub{
			gsub[*LibxmlCase]{id: "libxml2", quick: 4000, deep: 150000, gen: (*G).libxmlCase, check: libxmlCheck},
		},
	}
	checks["C27"] = &propCheck{
		rule:        "documents spelled by the harness in many forms, through testbuilder and both runners; parsed output compared with the parsed original; non-trivial: more than one element or a declaration in the DTD",
		assumptions: []string{"UTF-8, no entity references, names of XML 1.0 fourth edition (expat), no processing instructions in the DTD, attribute lists only for elements that do not occur (their defaults would be added), identifiers without double quotes (ctester)"},
		setup:       setupTools(true, "ctester", "testbuilder"),
		subs: []sub{
			gsub[*SrcCase]{id: "builder", quick: 3000, deep: 100000, gen: func(g *G) *SrcCase { return g.srcCase(true) }, check: builderCheck},
		},
	}
	checks["C28"] = &propCheck{
		rule:        "documents spelled by the harness through the normaliser (compared as documents, with permuted attributes, and normalised again); declarations in all forms before arbitrary bytes through encfixer and encextractor; byte strings of lengths around the read buffer through nohigh; non-trivial: more than one element or an attribute; a declaration or more than one buffer; a non-empty input",
		assumptions: []string{"UTF-8 documents, names of XML 1.0 fourth edition (expat), attribute lists only for elements that do not occur"},
		setup:       setupTools(false, "normaliser", "encfixer", "encextractor", "nohigh"),
		subs: []sub{
			gsub[*SrcCase]{id: "normaliser", quick: 2000, deep: 100000, gen: func(g *G) *SrcCase { return g.srcCase(false) }, check: normaliserCheck},
			gsub[*EncToolCase]{id: "encoding tools", quick: 4000, deep: 200000, gen: (*G).encToolCase, check: encToolsCheck},
			gsub[*HighCase]{id: "nohigh", quick: 1500, deep: 60000, gen: func(g *G) *HighCase {
				c := &HighCase{Len: pick(g, 0, 1, 8191, 8192, 8193, 16384, 20000, 100, 24576, 32768, 40960, 65536, 70000) + g.n(3), B: pick(g, 0x7F, 0x80, 0xFF, 0xC3, 0)}
				for i, n := 0, g.few(3); i < n; i++ {
					c.At = append(c.At, pick(g, 0, c.Len-1, 8191, 8192, 8193, g.n(c.Len+1), 16383))
				}
				for i := range c.At {
					if c.At[i] < 0 {
						c.At[i] = 0
					}
				}
				return c
			}, check: highCheck},
		},
	}
	_ = utf8.RuneError
}
