package main

// The check on the script that compares the writers over files (run.sh).

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/unicode"
)

// RunCase is a list of files to compare.
type RunCase struct {
	Files []*RunFile
	NoEOL bool // the list does not end with a newline
	Mode  int  // 0: list, 1: the first by -f and the others by a list, 2: each by -f, 3: an index
	Min   int  // with an index: only files with more elements
	Twice bool `json:",omitempty"` // with an index: and the list as well
}

type RunFile struct {
	Name  Str
	Src   *SrcCase `json:",omitempty"`
	Kind  int      // what the file is, see below
	Enc   int      // of runEncs
	Pad   int      `json:",omitempty"` // comments up to this length, in the prolog if negative
	Fault *Fault   `json:",omitempty"`
	Html  bool     `json:",omitempty"` // the root is called html, and nothing comes before it
	Copy  int      `json:",omitempty"` // 1-based: the document of an earlier file
}

const (
	fileDoc = iota
	fileCut
	fileJunk
	fileMissing
	fileDir
	fileBinary
	fileBadEnc
	fileEmpty
	fileBadBytes
	fileKinds
)

// Fault is something a stand-in for one of the programs does to its output.
type Fault struct {
	Tool  string
	Kind  string
	Place int // where the document holds the piece that is changed
}

type runEnc struct {
	name string
	enc  encoding.Encoding
}

var runEncs = []runEnc{
	{"", nil}, {"UTF-8", nil}, {"utf-8", nil}, {"ISO-8859-1", charmap.ISO8859_1}, {"iso-8859-15", charmap.ISO8859_15}, {"windows-1252", charmap.Windows1252}, {"KOI8-R", charmap.KOI8R},
	{"UTF-16", unicode.UTF16(unicode.LittleEndian, unicode.UseBOM)}, {"utf-16", unicode.UTF16(unicode.BigEndian, unicode.UseBOM)}, {"us-ascii", asciiOnly{}},
}

// asciiOnly encodes ASCII.
type asciiOnly struct{ encoding.Encoding }

// faultMark is found in the documents whose processing is to go wrong; the
// stand-ins look for it.
const (
	markFault = "zzfault."
	markOld   = "zzold"
	markNew   = "zznew"
	markCData = "<![CDATA[<" + markOld + "]]]]>"
	markDrop  = "<!--zzdrop-->"
	markOrder = `zz1="1" zz2="2"`
)

func (f *Fault) code() string { return markFault + f.Tool + "." + f.Kind + "." }

// wrapTool stands in for one of the tester's programs: it runs the real one
// and spoils what it writes, when the input asks for it.
func wrapTool(name string, args []string) int {
	dir := filepath.Dir(os.Args[0])
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		return 99
	}
	asked := func(kind string) bool {
		for _, t := range []string{name, "both"} {
			if t == "both" && name == "testbuilder" {
				continue
			}
			f := Fault{Tool: t, Kind: kind}
			if bytes.Contains(in, []byte(f.code())) {
				return true
			}
		}
		return false
	}
	if asked("refuse") {
		return 3
	}
	var out bytes.Buffer
	cmd := exec.Command(filepath.Join(dir, name), args...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(in), &out, os.Stderr
	rc := 0
	if err := cmd.Run(); err != nil {
		rc = 98
		if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() > 0 {
			rc = cmd.ProcessState.ExitCode()
		}
	}
	s := out.String()
	switch {
	case asked("exit"):
		rc = 4
	case asked("alter"):
		s = strings.Replace(s, markOld, markNew, 1)
	case asked("remove"):
		s = strings.Replace(s, markOld, "", 1)
	case asked("cut"):
		s = s[:len(s)*2/3]
	case asked("empty"):
		s = ""
	case asked("enc"):
		if i := strings.Index(s, "?>"); i > 0 {
			s = strings.NewReplacer("UTF-8", "US-ASCII", "utf-8", "US-ASCII").Replace(s[:i]) + s[i:]
		}
	case asked("cdata"):
		s = strings.Replace(s, markCData, "&lt;"+markOld+"]]", 1)
	case asked("drop"):
		s = strings.Replace(s, markDrop, "", 1)
	case asked("tags"): // which makes no difference
		s = strings.NewReplacer("<zztag/>", "<zztag></zztag>", "<zztag></zztag>", "<zztag/>").Replace(s)
	case asked("order"): // which makes no difference
		s = strings.Replace(s, markOrder, `zz2="2" zz1="1"`, 1)
	case asked("case"): // nor does this
		if i := strings.Index(s, "?>"); i > 0 {
			s = strings.NewReplacer("UTF-8", "utf-8").Replace(s[:i]) + s[i:]
		}
	}
	os.Stdout.WriteString(s)
	return rc
}

var (
	runFaults = []string{"refuse", "exit", "alter", "alter", "alter", "alter", "remove", "cut", "empty", "enc", "cdata", "drop"}
	runNone   = []string{"order", "case", "tags"}
)

func (f *Fault) harmless() bool { return f.Kind == "order" || f.Kind == "case" || f.Kind == "tags" }

func runSetup(dir string) error {
	if err := setupTools(true, "ctester", "testbuilder", "indexer")(dir); err != nil {
		return err
	}
	self, err := os.Executable()
	if err != nil {
		return err
	}
	// the stand-ins run the real programs next to this one
	if err := os.Link(self, filepath.Join(dir, "wrap")); err != nil {
		b, err := os.ReadFile(self)
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, "wrap"), b, 0o755); err != nil {
			return err
		}
	}
	return runTree(dir, filepath.Join(dir, "tester"))
}

// runTree makes a copy of the tester whose runners and builder are stand-ins.
func runTree(dir, to string) error {
	for _, p := range []string{"*.sh", "Makefile", "ctester/*.c", "ctester/*.h", "ctester/Makefile"} {
		m, _ := filepath.Glob(filepath.Join("/repo/tester", p))
		for _, f := range m {
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel("/repo/tester", f)
			mode := os.FileMode(0o644)
			if strings.HasSuffix(f, ".sh") {
				mode = 0o755
				// what it leaves behind stays in here
				b = bytes.ReplaceAll(b, []byte("/tmp/"), []byte(filepath.Join(to, "left")+"/"))
			}
			dst := filepath.Join(to, rel)
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				return err
			}
			if err := os.WriteFile(dst, b, mode); err != nil {
				return err
			}
		}
	}
	for _, d := range []string{"left", "gotester"} {
		if err := os.MkdirAll(filepath.Join(to, d), 0o755); err != nil {
			return err
		}
	}
	wrap := filepath.Join(dir, "wrap")
	for _, t := range []string{"ctester", "testbuilder"} {
		src := fmt.Sprintf("#include <unistd.h>\nint main(int c, char **v) { (void)c; char *a[20] = {%q, \"wrap\", %q}; for (int i = 1; v[i] && i < 10; i++) a[i + 2] = v[i]; execv(a[0], a); return 97; }\n", wrap, t)
		if err := os.WriteFile(filepath.Join(to, "ctester", t+".c"), []byte(src), 0o644); err != nil {
			return err
		}
	}
	src := fmt.Sprintf("package main\n\nimport (\n\t\"os\"\n\t\"syscall\"\n)\n\nfunc main() {\n\tsyscall.Exec(%q, append([]string{%q, \"wrap\", \"gotester\"}, os.Args[1:]...), os.Environ())\n\tos.Exit(97)\n}\n", wrap, wrap)
	if err := os.WriteFile(filepath.Join(to, "gotester", "main.go"), []byte(src), 0o644); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(to, "gotester", "go.mod"), []byte("module gotester\n\ngo 1.21\n"), 0o644); err != nil {
		return err
	}
	// built once, so that the runs find nothing to do
	cmd := exec.Command("bash", "-c", "(cd gotester && go build) && make -s -j4 -C ctester all")
	cmd.Dir = to
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("the tester does not build: %v\n%s", err, out)
	}
	return nil
}

// runDir is this process's own copy, as the script builds the programs again.
var runDir = sync.OnceValue(func() string {
	d := filepath.Join(toolDir, fmt.Sprintf("tester-%d", os.Getpid()))
	if out, err := exec.Command("cp", "-a", filepath.Join(toolDir, "tester"), d).CombinedOutput(); err != nil {
		harnessFail("cp: %v %s", err, out)
	}
	for _, n := range []string{"run.sh", "tools.sh"} {
		p := filepath.Join(d, n)
		b, err := os.ReadFile(p)
		if err != nil {
			harnessFail("%v", err)
		}
		os.WriteFile(p, bytes.ReplaceAll(b, []byte(filepath.Join(toolDir, "tester")), []byte(d)), 0o755)
	}
	return d
})

// --- generation

func (g *G) runFile(i int) *RunFile {
	f := &RunFile{Name: Str(pick(g, "f", "a b", " lead", "é", "x'y", `q"q`, "$x", "*", "[a]", "%s", "-n", "#", "a;b", "~", "$(id)", "`id`", "&", "|", "<", "a=b", "{a,b}", "!") + fmt.Sprint(i) + pick(g, "", "", ".xml", " ", "\t", ".xml  ")), Enc: g.n(len(runEncs))}
	if g.chance(1, 3) {
		f.Kind = 1 + g.n(fileKinds-1)
	}
	c := g.srcCase(true)
	c.Cut, c.Debug, c.Args = 0, false, 0
	if c.M != nil && (c.M.What == "depth" || g.chance(2, 3)) {
		c.M = nil // libxml2 has a limit
	}
	f.Src = c
	if f.Kind == fileCut {
		c.Cut = g.in(1, 200)
	}
	if f.Kind == fileDoc {
		switch {
		case g.chance(2, 5):
			f.Fault = &Fault{Tool: pick(g, "gotester", "ctester", "testbuilder", "both", "gotester", "ctester"), Kind: pick(g, runFaults...), Place: g.n(8)}
			if k := f.Fault.Kind; k == "enc" || k == "cdata" || k == "drop" {
				f.Fault.Tool = pick(g, "gotester", "ctester", "both") // a script does not look like this
			}
		case g.chance(1, 6):
			f.Fault = &Fault{Tool: pick(g, "gotester", "ctester", "both"), Kind: pick(g, runNone...)}
		}
	}
	if g.chance(1, 10) {
		f.Pad = -pick(g, 4000, 8192, 20000, 65536, 140000, 1100000)
	}
	if f.Html = g.chance(1, 8); f.Html {
		f.Enc = 0
	}
	if i > 0 && g.chance(1, 12) {
		f.Copy = 1 + g.n(i)
	}
	return f
}

func (g *G) runCase() *RunCase {
	c := &RunCase{NoEOL: g.chance(1, 4), Mode: pick(g, 0, 0, 0, 0, 1, 2, 3), Min: g.n(4), Twice: g.chance(1, 3)}
	for i, n := 0, g.in(1, 9); i < n; i++ {
		c.Files = append(c.Files, g.runFile(i))
	}
	return c
}

// doc gives the document of a file, with what the stand-ins look for.
func (f *RunFile) doc() *SrcCase {
	c := *f.Src
	d := *c.doc()
	c.D, c.M = &d, nil
	d.DTD = tameDTD(d.DTD)
	d.Pre, d.Mid, d.Post = tameKids(d.Pre), tameKids(d.Mid), tameKids(d.Post)
	if f.Html && f.Kind == fileDoc {
		d.Pre, d.Mid, d.DTD, d.Decl = nil, nil, nil, nil
		r := *d.Root
		r.Prefix, r.URI, r.Name = "", "", "html"
		d.Root = &r
	}
	d.Root = declared(d.Root, map[string]bool{"xml": true, "xmlns": true})
	root := d.Root
	if n := -f.Pad; n > 0 && f.Kind == fileDoc {
		k := &Node{K: "comment", S: Str(strings.Repeat("0123456789", 10))}
		d.Pre = append([]*Node{}, d.Pre...)
		for ; n > 0; n -= 100 {
			d.Pre = append(d.Pre, k)
		}
	}
	if f.Fault == nil {
		return &c
	}
	add := func(n *Node) { root.Kids = append(root.Kids[:len(root.Kids):len(root.Kids)], n) }
	add(&Node{K: "pi", Name: "z", S: Str(f.Fault.code())})
	switch f.Fault.Kind {
	case "enc":
		if d.Decl == nil {
			d.Decl = &Node{K: "decl", Name: "1.0"}
		}
	case "cdata":
		add(&Node{K: "cdata", S: "<" + markOld + "]]"})
		return &c
	case "drop":
		add(&Node{K: "comment", S: "zzdrop"})
	case "tags":
		add(&Node{K: "elem", Name: "zztag", Full: f.Fault.Place%2 == 0})
	}
	if f.Fault.Kind == "order" {
		add(&Node{K: "elem", Name: "z", Attrs: []*Node{{K: "attr", Name: "zz1", S: "1"}, {K: "attr", Name: "zz2", S: "2"}}})
	}
	switch f.Fault.Place {
	case 0:
		add(&Node{K: "elem", Name: "z", Kids: []*Node{{K: "text", S: markOld + "."}}})
	case 1:
		add(&Node{K: "elem", Name: "z", Attrs: []*Node{{K: "attr", Name: "a", S: markOld + "."}}})
	case 2:
		add(&Node{K: "elem", Name: "z", Attrs: []*Node{{K: "attr", Name: markOld + ".", S: "v"}}})
	case 3:
		add(&Node{K: "comment", S: " " + markOld + " "})
	case 4:
		add(&Node{K: "cdata", S: "<" + markOld + "]]"})
	case 5:
		add(&Node{K: "pi", Name: "z", S: markOld + "."})
	case 6:
		add(&Node{K: "elem", Name: markOld + "."}) // without a child, so that it stays well-formed
	case 7:
		add(&Node{K: "text", S: "\n " + markOld + " \n"})
	}
	return &c
}

// tameDTD leaves out what the writers are known to write in different ways,
// and identifiers that libxml2 does not take for a URI.
func tameDTD(n *Node) *Node {
	if n == nil {
		return nil
	}
	m := *n
	sys := func(s Str) Str {
		if s != "" {
			return "http://example.com/x.dtd"
		}
		return s
	}
	m.Sys = sys(m.Sys)
	m.Kids = nil
	notation := false
	for _, k := range n.Kids {
		if k.K == "entity" || k.K == "attlist" {
			continue
		}
		if k.K == "notation" {
			if notation { // libxml2 writes them in any order
				continue
			}
			notation = true
		}
		k2 := *k
		k2.Sys = sys(k.Sys)
		if k.K == "dtdelem" { // libxml2 simplifies the others, step by step
			k2.S = []Str{"EMPTY", "ANY", "(#PCDATA)", "(a,b?,c*)", "(#PCDATA|a|b)*"}[len(k.S)%5]
		}
		m.Kids = append(m.Kids, &k2)
	}
	return &m
}

// tameKids gives every processing instruction a content, as one without is
// written in two ways, and a target that libxml2 does not warn of.
func tameKids(ns []*Node) []*Node {
	var out []*Node
	for _, n := range ns {
		if n.K == "pi" {
			m := *n
			m.S = "." + n.S
			if strings.HasPrefix(strings.ToLower(string(n.Name)), "xml") {
				m.Name = "y" + n.Name
			}
			n = &m
		}
		if n.K == "text" {
			// white space alone may be dropped, and carriage returns are known to be lost
			m := *n
			m.S = Str(strings.ReplaceAll(string(n.S), "\r", "r"))
			if strings.Trim(string(m.S), " \n\t") == "" {
				m.S += "."
			}
			n = &m
		}
		out = append(out, n)
	}
	return out
}

// declared copies an element, with a namespace for every prefix in it and no
// prefix sharing its namespace with another.
func declared(n *Node, bound map[string]bool) *Node {
	m := *n
	uri := func(p Str) Str { return Str(fmt.Sprintf("urn:of%x-", string(p))) }
	in := map[string]bool{}
	for k := range bound {
		in[k] = true
	}
	m.URI = ""
	if n.URI != "" && !in[string(n.Prefix)] || n.Prefix != "" && !in[string(n.Prefix)] {
		m.URI = uri(n.Prefix)
		in[string(n.Prefix)] = true
	}
	m.Attrs = nil
	for _, a := range n.Attrs {
		b := *a
		b.URI = ""
		b.S = Str(strings.ReplaceAll(string(a.S), "\r", "r"))
		if a.Prefix != "" && !in[string(a.Prefix)] {
			b.URI = uri(a.Prefix)
			in[string(a.Prefix)] = true
		}
		m.Attrs = append(m.Attrs, &b)
	}
	m.Kids = tameKids(n.Kids)
	for i, k := range m.Kids {
		if k.K == "elem" {
			m.Kids[i] = declared(k, in)
		}
	}
	return &m
}

// verdicts of run.sh
const (
	vPass = iota
	vSkip
	vFail
	vAny
)

// write makes the file and tells what is to be said of it.
func (f *RunFile) write(path string, n int) (verdict int, note string) {
	switch f.Kind {
	case fileMissing:
		return vSkip, "missing"
	case fileDir:
		if err := os.Mkdir(path, 0o755); err != nil {
			harnessFail("%v", err)
		}
		return vSkip, "a directory"
	}
	put := func(b string) {
		if err := os.WriteFile(path, []byte(b), 0o644); err != nil {
			harnessFail("%v", err)
		}
	}
	switch f.Kind {
	case fileEmpty:
		put("")
		return vSkip, "an empty file"
	case fileBinary:
		put("\x7fELF\x02\x01\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x02\x03")
		return vSkip, "a binary file"
	}
	c := f.doc()
	e := runEncs[f.Enc%len(runEncs)]
	if f.Kind == fileBadEnc {
		c.BOM = false // which would tell the encoding
		e = runEnc{name: "x-no-such-encoding"}
	}
	if f.Kind == fileBadBytes {
		e = runEncs[9]
	}
	if f.Fault != nil && f.Fault.Kind == "enc" && e.name == "" {
		e = runEncs[1]
	}
	if e.name != "" && c.D.Decl == nil {
		c.D.Decl = &Node{K: "decl", Name: "1.0"}
	}
	c.Enc = Str(e.name)
	s := c.text(0)
	if e.enc != nil {
		out := s
		ok := true
		if _, ascii := e.enc.(asciiOnly); ascii {
			ok = strings.IndexFunc(s, func(r rune) bool { return r > 126 }) < 0
		} else {
			var err error
			out, err = e.enc.NewEncoder().String(s)
			if err != nil {
				ok = false
			} else if back, err := e.enc.NewDecoder().String(out); err != nil || back != s {
				ok = false
			}
		}
		if ok {
			s = out
		} else {
			c.Enc, e = "UTF-8", runEncs[1]
			s = c.text(0)
		}
	}
	switch f.Kind {
	case fileCut:
		if e.enc != nil {
			c.Enc = ""
			s = c.text(0)
		}
		s = strings.TrimRight(s[:len(s)-min(c.Cut, len(s)-1)], " \n\r\t")
		if _, err := parseXML(s, 0); err == nil {
			s += "<"
		}
		if isDeclStart(s+" ") && !strings.Contains(s, "?>") {
			return vAny, "" // the conversion fails on half a declaration
		}
		put(s)
		if fileMime(path) == "" || !utf8File(path) {
			return vAny, ""
		}
		return vSkip, "not well-formed"
	case fileBadBytes:
		c.BOM = false
		if !strings.Contains(s, "?>") {
			return vAny, ""
		}
		put(s + "<!--\xe9-->")
		if fileMime(path) == "" {
			return vSkip, "not a text for file"
		}
		if c.Enc == "UTF-8" {
			return vSkip, "not UTF-8"
		}
		return vFail, "bytes that are not of the encoding"
	case fileJunk:
		put("no document\n")
		return vSkip, "plain text"
	}
	if n := f.Pad - len(s); n > 0 && f.Kind == fileDoc && e.enc == nil {
		const c = "<!--0123456789012345678901234567890123456789012345678901234567890123456789-->\n" // not all in one piece, as libxml2 has a limit
		s += "\n" + strings.Repeat(c, n/len(c)+1)
	}
	if e.enc == nil {
		s = c.bom() + s
	}
	put(s)
	m := fileMime(path)
	if m == "" {
		return vSkip, "not a text for file"
	}
	if f.Kind == fileBadEnc {
		return vFail, "an unknown encoding"
	}
	if e.enc == nil && e.name == "" && !utf8File(path) {
		return vAny, ""
	}
	if strings.HasPrefix(strings.ToLower(e.name), "utf-16") && !strings.Contains(m, "charset=utf-16") {
		return vAny, ""
	}
	if f.Fault != nil && !f.Fault.harmless() {
		return vFail, f.Fault.Tool + " " + f.Fault.Kind
	}
	if f.Fault != nil {
		return vPass, "a difference without a meaning"
	}
	if e.enc != nil {
		return vPass, "to be converted"
	}
	return vPass, "a document"
}

// fileMime is the type and character set of a file that the script takes.
func fileMime(path string) string {
	out, err := exec.Command("file", "-b", "--mime", "--", path).Output()
	if err != nil {
		harnessFail("file: %v", err)
	}
	m := strings.TrimSpace(string(out))
	for _, t := range []string{"text/xml;", "application/xml;", "text/plain;", "text/html;"} {
		if strings.HasPrefix(m, t) {
			return m
		}
	}
	return ""
}

func utf8File(path string) bool {
	m := fileMime(path)
	return strings.HasSuffix(m, "charset=utf-8") || strings.HasSuffix(m, "charset=us-ascii")
}

// --- checking

var (
	runColour = regexp.MustCompile("\x1b\\[[0-9;]*m")
	runTotal  = regexp.MustCompile(`(?m)^(pass|fail|skip):\s*(\d+)\s*$`)
)

type runOut struct {
	out, err string
	code     int
	said     map[string]map[string]int // by name: FAIL and SKIP lines
	totals   map[string]int
}

func runScript(dir, tmp string, names []string, args ...string) (*runOut, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", append([]string{filepath.Join(dir, "run.sh")}, args...)...)
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var out, eb capped
	cmd.Stdout, cmd.Stderr = &out, &eb
	err := cmd.Run()
	if ctx.Err() != nil {
		return nil, fmt.Errorf("run.sh %q does not end", args)
	}
	if err != nil && cmd.ProcessState == nil {
		harnessFail("cannot run run.sh: %v", err)
	}
	r := &runOut{out: runColour.ReplaceAllString(out.String(), ""), err: eb.String(), code: cmd.ProcessState.ExitCode(), said: map[string]map[string]int{}, totals: map[string]int{}}
	for _, l := range strings.Split(r.out, "\n") {
		for _, tag := range []string{"FAIL", "SKIP"} {
			if !strings.HasPrefix(l, tag) {
				continue
			}
			for _, n := range names {
				if strings.Contains(l, "\t"+n+"\t") {
					if r.said[n] == nil {
						r.said[n] = map[string]int{}
					}
					r.said[n][tag]++
				}
			}
		}
	}
	for _, m := range runTotal.FindAllStringSubmatch(r.out, -1) {
		r.totals[m[1]], _ = strconv.Atoi(m[2])
	}
	return r, nil
}

func runCheckScript(c *RunCase, st *Stats) error {
	dir := runDir()
	work, err := os.MkdirTemp(toolDir, "files")
	if err != nil {
		harnessFail("%v", err)
	}
	defer os.RemoveAll(work)
	tmp := filepath.Join(work, "tmp")
	if err := os.Mkdir(tmp, 0o755); err != nil {
		harnessFail("%v", err)
	}
	type entry struct {
		name, note string
		verdict    int
		f          *RunFile
	}
	var all []entry
	for i, f := range c.Files {
		e := entry{name: filepath.Join(work, string(f.Name)), f: f}
		g := *f
		if f.Copy > 0 && f.Copy <= i {
			o := c.Files[f.Copy-1]
			g.Src, g.Kind, g.Enc, g.Fault, g.Pad, g.Html = o.Src, o.Kind, o.Enc, o.Fault, o.Pad, o.Html
		}
		e.verdict, e.note = g.write(e.name, i)
		if e.verdict == vAny {
			os.RemoveAll(e.name)
			continue
		}
		all = append(all, e)
	}
	if len(all) == 0 {
		return nil
	}
	var names []string
	for _, e := range all {
		names = append(names, e.name)
	}
	list := filepath.Join(work, "list")
	listOf := func(es []entry) {
		var l []string
		for _, e := range es {
			l = append(l, e.name)
		}
		s := strings.Join(l, "\n")
		if !c.NoEOL && s != "" {
			s += "\n"
		}
		if err := os.WriteFile(list, []byte(s), 0o644); err != nil {
			harnessFail("%v", err)
		}
	}
	check := func(es []entry, args ...string) error {
		r, err := runScript(dir, tmp, names, args...)
		if err != nil {
			return err
		}
		dump := func() string {
			var b strings.Builder
			for _, e := range es {
				s, _ := os.ReadFile(e.name)
				fmt.Fprintf(&b, "%q (%s): %s\n", e.name, e.note, show(trunc(string(s), 1500)))
			}
			m, _ := filepath.Glob(filepath.Join(dir, "left", "result-*"))
			for _, f := range m {
				d, _ := os.ReadFile(f)
				fmt.Fprintf(&b, "%s: %s\n", filepath.Base(f), trunc(string(d), 1500))
			}
			return b.String() + "arguments: " + fmt.Sprintf("%q", args) + "\noutput: " + trunc(r.out, 3000) + "\nerrors: " + trunc(r.err, 2000)
		}
		if r.code != 0 {
			return fmt.Errorf("run.sh ends with exit status %d\n%s", r.code, dump())
		}
		want := map[string]int{}
		fails := 0
		times := map[string]int{}
		for _, e := range es {
			times[e.name]++
		}
		for _, e := range es {
			said := map[string]int{}
			for k, v := range r.said[e.name] {
				said[k] = v / times[e.name]
				if v%times[e.name] != 0 {
					return fmt.Errorf("run.sh judges the same file in two ways: %q %v\n%s", e.name, r.said[e.name], dump())
				}
			}
			switch e.verdict {
			case vPass:
				want["pass"]++
				if len(said) > 0 {
					return fmt.Errorf("run.sh does not pass %q, which is %s: %v\n%s", e.name, e.note, said, dump())
				}
			case vSkip:
				want["skip"]++
				if said["SKIP"] != 1 || said["FAIL"] != 0 {
					return fmt.Errorf("run.sh does not skip %q, which is %s: %v\n%s", e.name, e.note, said, dump())
				}
			case vFail:
				if said["FAIL"] == 0 || said["SKIP"] != 0 {
					return fmt.Errorf("run.sh does not fail %q (%s): %v\n%s", e.name, e.note, said, dump())
				}
				fails += said["FAIL"]
			}
			st.class("%s", e.note)
		}
		want["fail"] = fails
		for _, k := range []string{"pass", "skip", "fail"} {
			n, ok := r.totals[k]
			if !ok || n != want[k] {
				return fmt.Errorf("run.sh reports a total of %d for %s (given: %v), want %d\n%s", n, k, ok, want[k], dump())
			}
		}
		left, err := os.ReadDir(tmp)
		if err != nil {
			harnessFail("%v", err)
		}
		for _, l := range left {
			if strings.HasPrefix(l.Name(), "tmp.") {
				return fmt.Errorf("run.sh leaves the temporary file %s\n%s", l.Name(), dump())
			}
		}
		st.Extra++
		return nil
	}
	defer func() {
		m, _ := filepath.Glob(filepath.Join(dir, "left", "*"))
		for _, f := range m {
			os.Remove(f)
		}
	}()
	mode := c.Mode
	switch mode {
	case 1: // -f and -l together
		listOf(all[1:])
		return check(all, "-f", all[0].name, "-l", list)
	case 3:
		st.class("from an index")
		var in []entry
		for _, e := range all {
			if k := e.f.Kind; k == fileMissing || k == fileDir || k == fileEmpty || k == fileBinary {
				continue
			}
			in = append(in, e)
		}
		listOf(in)
		b, _ := os.ReadFile(list)
		db := filepath.Join(work, "db")
		if _, err := must(string(b), "indexer", "index", db); err != nil {
			return err
		}
		clause := fmt.Sprintf("elems > %d", c.Min)
		args := []string{"-d", db, "-q", clause}
		sel, err := must("", "indexer", "query", db, clause)
		if err != nil {
			return err
		}
		var es []entry
		for _, l := range strings.Split(sel, "\n") {
			for _, e := range in {
				if e.name == l {
					es = append(es, e)
				}
			}
		}
		if c.Twice { // the listed ones come on top of it
			listOf(all)
			es = append(es, all...)
			args = append(args, "-l", list)
			return check(es, args...)
		}
		return check(es, args...)
	case 2:
		st.class("one by one")
		for _, e := range all[:min(3, len(all))] {
			if err := check([]entry{e}, "-f", e.name); err != nil {
				return err
			}
		}
	default:
		listOf(all)
		if err := check(all, "-l", list); err != nil {
			return err
		}
	}
	st.nontrivial(len(all) > 1)
	return nil
}

// RunArgs are arguments that run.sh refuses.
type RunArgs struct {
	Args []string
}

func runUsage(c *RunArgs, st *Stats) error {
	tmp, err := os.MkdirTemp(toolDir, "usage")
	if err != nil {
		harnessFail("%v", err)
	}
	defer os.RemoveAll(tmp)
	r, err := runScript(runDir(), tmp, nil, c.Args...)
	if err != nil {
		return err
	}
	if r.code == 0 || len(r.totals) > 0 {
		return fmt.Errorf("run.sh %q ends with exit status %d\noutput: %s\nerrors: %s", c.Args, r.code, trunc(r.out, 500), trunc(r.err, 500))
	}
	st.nontrivial(true)
	return nil
}

func init() {
	checks["C34"] = &propCheck{
		rule: "lists of files, most of them documents in several encodings, given to run.sh in a copy of the tester whose programs can be made to fail or to change their output; non-trivial: more than one file, or arguments to be refused",
		assumptions: []string{
			"documents stay within what both writers write in the same way: declared absolute namespaces, instructions with content, no entities or attribute lists, no carriage returns, no text of white space only",
			"what the file program takes for text, and for which character set, is taken from it",
			"xmllint, iconv and file are the installed ones",
		},
		setup:   runSetup,
		noLimit: true,
		subs: []sub{
			gsub[*RunCase]{id: "lists", quick: 120, deep: 8000, gen: (*G).runCase, check: runCheckScript},
			gsub[*RunCase]{id: "huge", quick: 2, deep: 100, gen: func(g *G) *RunCase {
				c := &RunCase{}
				for i, n := 0, g.in(1, 2); i < n; i++ {
					f := g.runFile(i)
					f.Pad = 10000000 + g.n(3)
					f.Enc = g.n(3)
					f.Kind = pick(g, fileDoc, fileDoc, fileDoc, fileCut)
					c.Files = append(c.Files, f)
				}
				return c
			}, check: runCheckScript},
			gsub[*RunArgs]{id: "usage", quick: 16, deep: 64, gen: func(g *G) *RunArgs {
				return &RunArgs{Args: pick(g, []string{}, []string{"-q", "elems > 0"}, []string{"-z"}, []string{"-l"}, []string{"-f"}, []string{"-d"}, []string{"-q"})}
			}, check: runUsage},
		},
	}
}
