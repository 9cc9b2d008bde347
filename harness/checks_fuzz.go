package main

// C33: no input breaks the programs under tester/. They are built with the
// address and undefined behaviour sanitizers and with their automatic
// variables filled, and run on generated and damaged inputs.

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

// Mut damages an input.
type Mut struct {
	Op int
	At int
	N  int `json:",omitempty"`
	S  Str `json:",omitempty"`
}

// FuzzCase is an input for one of the programs.
type FuzzCase struct {
	Tool   int
	Opt    int        `json:",omitempty"`
	Src    *SrcCase   `json:",omitempty"`
	Script *Script    `json:",omitempty"`
	Raw    Str        `json:",omitempty"`
	Many   *ManyBytes `json:",omitempty"`
	Laughs []int      `json:",omitempty"` // entities made of so many of the one before
	Muts   []Mut      `json:",omitempty"`
	Grow   []int      `json:",omitempty"` // elements with so many attributes, declarations and characters
	Pad    int        `json:",omitempty"` // length of the clause given to the indexer
	DB     int        `json:",omitempty"` // what the indexer is asked to read: 0 its index, 1 a directory, 2 nothing, 3 the file, 4 its index, damaged, 5 too few arguments
	DBMuts []Mut      `json:",omitempty"`
}

// ManyBytes repeats a part of the input.
type ManyBytes struct {
	Head, S, Tail Str
	N             int
}

var fuzzTools = []string{"ctester", "gotester", "testbuilder", "normaliser", "encfixer", "encextractor", "nohigh", "indexer"}

var fuzzOpts = map[string][][]string{
	"ctester":      {nil, nil, nil, {"x"}},
	"gotester":     {nil, {"-indent"}, {"-x"}},
	"testbuilder":  {nil, {"-d"}, {"-s"}, {"-s", "-d"}, {"-h"}, {"-x"}},
	"normaliser":   {nil},
	"encfixer":     {nil, {"-d"}, {"-f", "x"}, {"-f", ""}, {"-f", "a-rather-long-name-for-an-encoding"}, {"-d", "-f", "y"}, {"-f"}, {"-x"}},
	"encextractor": {nil},
	"nohigh":       {nil},
	"indexer":      {{"-a"}, {"-e"}, {"-d"}, nil},
}

var fuzzTokens = []string{
	"<", ">", "&", ";", "\"", "'", "=", "/", "/>", "</", "<!", "<?", "?>", "-->", "<!--", "--", "]]>", "<![CDATA[", "]", "[", "%", "%p;", "&#", "&#x", "&#65;", "&#x41;", "&#0;", "&#xFFFFFFFFFF;",
	"&e;", "&lt;", "&amp;", "<!DOCTYPE ", "<!DOCTYPE a [", "]>", "<!ENTITY e \"v\">", "<!ENTITY % p \"q\">", "<!ENTITY u SYSTEM \"s\" NDATA n>", "<!ELEMENT a (b|c)*>", "<!ELEMENT a (b,(c|d)?,e+)>", "<!ELEMENT a ANY>",
	"<!ELEMENT a (#PCDATA)>", "<!ATTLIST a b CDATA #IMPLIED>", "<!ATTLIST a b (x|y) \"x\" c ID #REQUIRED>", "<!ATTLIST a b CDATA #FIXED \"v\">", "<!ATTLIST a b NOTATION (n) #IMPLIED>", "<!NOTATION n PUBLIC \"p\">", " SYSTEM \"s\"", " PUBLIC \"p\" \"s\"",
	"<?xml version=\"1.0\"?>", "<?xml ", "<?xml version=\"1.0\" encoding=\"x\"?>", "<?xml encoding='x' ?>", " encoding=\"", " version='1.0'", " standalone=\"yes\"", "xmlns=\"u\"", "xmlns:p=\"u\"", "p:", ":", "xml:", "<a>", "</a>", "<a/>", "<p:a>", " a=\"\"", " a=\"b\"",
	" ", "\n", "\r", "\t", "\r\n", "\x00", "\xff", "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\xc3", "é", "\u2028", "\U0001F600", "\xed\xa0\x80",
	"<script>", "</script>", "<command", "</command>", " action=\"start\"", " action=\"end\"", " action=\"write\"", " kind=\"elem\"", " kind=\"attr\"", " kind=\"all\"", " kind=\"\"", " kind=\"dtd-attr\"", " name=\"\"", " prefix=\"p\"", " uri=\"\"", " ws=\"strip\"", " next=\"true\"", " target=\"\"", " full=\"x\"", " is-pe=\"\"", " standalone=\"\"",
	"<command action=\"end\" kind=\"all\"/>", "<command action=\"end\" kind=\"elem\"/>", "<command action=\"start\" kind=\"elem\" name=\"a\"/>", "<command action=\"write\" kind=\"text\">t</command>", "<command action=\"end\" kind=\"dtd\"/>", "<command/>", "<command></command>",
}

func (g *G) muts(max int) []Mut {
	var ms []Mut
	for i, n := 0, g.few(max); i < n; i++ {
		m := Mut{Op: g.n(6), At: int(g.bits(16))}
		switch m.Op {
		case 0, 3:
			m.N = g.few(60)
		case 1, 2:
			m.S = Str(fuzzTokens[g.n(len(fuzzTokens))])
		case 5:
			m.S = Str(fuzzTokens[g.n(len(fuzzTokens))])
			m.N = pick(g, 2, 10, 33, 64, 129, 1000, 5000)
		}
		ms = append(ms, m)
	}
	return ms
}

func (g *G) fuzzCase(indexer bool) *FuzzCase {
	c := &FuzzCase{Opt: g.n(8)}
	if indexer {
		c.Tool = 7
		c.Pad = pick(g, 0, 1, g.n(32), g.n(128), g.n(300), 2000+g.n(3000), 100000)
		if g.chance(1, 3) {
			if c.DB = g.in(1, 5); c.DB == 4 {
				c.DBMuts = g.muts(4)
			}
		}
	} else {
		c.Tool = pick(g, 0, 0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6)
	}
	kind := 2
	switch c.Tool {
	case 0, 1:
		kind = 0
	case 2, 3, 7:
		kind = pick(g, 1, 1, 1, 1, 5)
	}
	if g.chance(1, 8) {
		kind = g.n(6)
	}
	switch kind {
	case 0:
		c.Script = g.script()
		if g.chance(1, 8) { // a long parameter or content
			k := c.Script.Cmds[g.n(len(c.Script.Cmds))]
			s := Str(onlyChars(g.long(false), false))
			if len(k.P) > 0 && g.bit() {
				k.P[g.n(len(k.P))].V = s
			} else if g.bit() {
				k.C = s
			} else {
				k.Name = &s
			}
		}
		for i, n := 0, g.few(3); i < n; i++ {
			g.spoil(c.Script)
		}
		if g.chance(1, 4) {
			at := g.n(len(c.Script.Cmds) + 1)
			c.Script.Cmds = append(c.Script.Cmds[:at:at], append([]*Cmd{g.anyCmd()}, c.Script.Cmds[at:]...)...)
		}
	case 1:
		c.Src = g.srcCase(g.bit())
	case 2:
		e := g.encToolCase()
		h, r := e.parts()
		c.Raw = Str(h + r)
	case 3:
		m := &ManyBytes{N: pick(g, 10, 40, 100, 1000, 4000)}
		m.Head = Str(pick(g, "<a", "<a>", "<!DOCTYPE a [", "<!DOCTYPE a [<!ATTLIST a", "<!DOCTYPE a [<!ELEMENT a ", "<?xml version='1.0'", "<script>", "<script><command", "<"))
		m.S = Str(pick(g, " b%=\"c\"", "<b>", "<b/>", "<!ENTITY e% \"v\">", " b% CDATA #IMPLIED", "(", "x", " encoding=\"x\"", "<command action=\"start\" kind=\"elem\" name=\"a\"/>", "<command action=\"start\" kind=\"dtd\" name=\"a\"/>", " uri=\"x\"", "<!--c-->", " xmlns:n%=\"u\"", "(b|", "&#65;", "<![CDATA[]]>"))
		m.Tail = Str(pick(g, "", "/>", "</a>", "]><a/>", ">]><a/>", "?><a/>", "</script>"))
		c.Many = m
	case 5:
		n := g.n(20)
		for i, k := 0, g.in(1, 6); i < k; i++ {
			n = pick(g, n, n+1, n+1, n+2, n*2, g.n(70), 32, 33)
			c.Grow = append(c.Grow, n*8+g.n(8))
		}
	case 4:
		for i, n := 0, g.in(1, 8); i < n; i++ {
			c.Laughs = append(c.Laughs, g.in(1, 12))
		}
	}
	if c.Muts = g.muts(6); kind == 5 && g.chance(3, 4) {
		c.Muts = nil
	}
	return c
}

func (c *FuzzCase) input() string {
	s := string(c.Raw)
	switch {
	case c.Script != nil:
		s = c.Script.xml()
	case c.Src != nil:
		s = c.Src.text(0)
	case c.Grow != nil:
		var b strings.Builder
		b.WriteString("<a>")
		for _, k := range c.Grow {
			n := k / 8
			switch k % 8 {
			case 5:
				b.WriteString("<![CDATA[" + strings.Repeat("x", n) + "]]>")
				continue
			case 6:
				b.WriteString("<!--" + strings.Repeat("x", n*n) + "-->")
				continue
			}
			b.WriteString("<b")
			for i := 0; i < n; i++ {
				switch m := k % 8; {
				case m < 2 || m == 7 && i%2 == 0:
					fmt.Fprintf(&b, " xmlns:p%d=''", i)
				case m == 4:
					fmt.Fprintf(&b, " p%d:a=''", i)
				default:
					fmt.Fprintf(&b, " a%d=''", i)
				}
			}
			b.WriteString("/>")
		}
		b.WriteString("</a>")
		s = b.String()
	case c.Laughs != nil:
		s = `<!DOCTYPE a [<!ENTITY e0 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx">`
		for i, n := range c.Laughs {
			s += fmt.Sprintf("<!ENTITY e%d \"%s\">", i+1, strings.Repeat(fmt.Sprintf("&e%d;", i), n))
		}
		s += fmt.Sprintf(`]><a b="&e%d;">&e%d;</a>`, len(c.Laughs), c.Opt%(len(c.Laughs)+1))
	case c.Many != nil:
		var b strings.Builder
		b.WriteString(string(c.Many.Head))
		for i := 0; i < c.Many.N; i++ {
			b.WriteString(strings.ReplaceAll(string(c.Many.S), "%", fmt.Sprint(i)))
		}
		b.WriteString(string(c.Many.Tail))
		s = b.String()
	}
	return damage(s, c.Muts)
}

func damage(s string, muts []Mut) string {
	for _, m := range muts {
		at := m.At % (len(s) + 1)
		end := min(at+m.N, len(s))
		switch m.Op {
		case 0:
			s = s[:at] + s[end:]
		case 1:
			s = s[:at] + string(m.S) + s[at:]
		case 2:
			s = s[:at] + string(m.S) + s[min(at+len(m.S), len(s)):]
		case 3:
			s = s[:end] + s[at:]
		case 4:
			s = s[:at]
		case 5:
			s = s[:at] + strings.Repeat(string(m.S), m.N) + s[at:]
		}
		if len(s) > 1<<20 {
			s = s[:1<<20]
		}
	}
	return s
}

const sanExit = 86

var valgrind = sync.OnceValue(func() string {
	p, err := exec.LookPath("valgrind")
	noErr(err)
	return p
})

var sanEnv = []string{
	"ASAN_OPTIONS=detect_leaks=0:exitcode=86:max_malloc_fill_size=1073741824:malloc_fill_byte=190:detect_stack_use_after_return=1:strict_string_checks=0",
	"UBSAN_OPTIONS=halt_on_error=1:exitcode=86:print_stacktrace=1",
}

// broken tells how a run came to a bad end, if it did.
func (r *toolRun) broken() string {
	switch {
	case r.code == sanExit || strings.Contains(r.err, "ERROR: AddressSanitizer") || strings.Contains(r.err, "runtime error: "):
		return "touches memory it does not own"
	case r.crashed():
		return "crashes"
	}
	return ""
}

func fuzzCheck(c *FuzzCase, st *Stats) error { return fuzzRun(c, st, false) }

// memCheck runs the plain build under valgrind, which sees values that were
// never set wherever they come from.
func memCheck(c *FuzzCase, st *Stats) error {
	if len(c.input()) > 20000 || c.Pad > 5000 || c.Laughs != nil || fuzzTools[c.Tool%len(fuzzTools)] == "gotester" {
		st.class("left out: too long, or gotester")
		return nil
	}
	return fuzzRun(c, st, true)
}

func fuzzRun(c *FuzzCase, st *Stats, mem bool) error {
	name := fuzzTools[c.Tool%len(fuzzTools)]
	opts := fuzzOpts[name]
	args := opts[c.Opt%len(opts)]
	in := c.input()
	type result struct {
		r     *toolRun
		q     *toolRun
		extra string
	}
	run := func(dir string) (res result, err error) {
		toolIn := toolIn
		if mem {
			plain := toolIn
			toolIn = func(d, in, bin string, args ...string) (*toolRun, error) {
				return plain(d, in, valgrind(), append([]string{"-q", "--error-exitcode=86", filepath.Join(toolDir, bin)}, args...)...)
			}
		}
		if name != "indexer" {
			res.r, err = toolIn("", in, filepath.Join(dir, name), args...)
			return
		}
		d, err := os.MkdirTemp(toolDir, "fz")
		if err != nil {
			harnessFail("%v", err)
		}
		defer os.RemoveAll(d)
		list := "f\nmissing\nf2\nd\n\nf\n"
		if err := os.Mkdir(filepath.Join(d, "d"), 0o755); err != nil {
			harnessFail("%v", err)
		}
		if err := os.WriteFile(filepath.Join(d, "f"), []byte(in), 0o644); err != nil {
			harnessFail("%v", err)
		}
		if err := os.WriteFile(filepath.Join(d, "f2"), []byte("<a>"+in+"</a>"), 0o644); err != nil {
			harnessFail("%v", err)
		}
		if c.Opt&4 != 0 {
			list = in // no list of files at all
		}
		bin := filepath.Join(dir, name)
		if res.r, err = toolIn(d, list, bin, "index", "db"); err != nil {
			return
		}
		clause := "1=1" + strings.Repeat(" ", c.Pad)
		switch c.Pad % 8 {
		case 5:
			clause = strings.Repeat("(", c.Pad)
		case 7:
			clause = strings.Repeat("x", c.Pad)
		}
		db := "db"
		switch c.DB {
		case 1:
			db = "d"
		case 2:
			db = "none"
		case 3:
			db = "f"
		case 4:
			b, rerr := os.ReadFile(filepath.Join(d, "db"))
			if rerr != nil {
				return res, fmt.Errorf("the indexer leaves no index: %v", rerr)
			}
			noErr(os.WriteFile(filepath.Join(d, "db"), []byte(damage(string(b), c.DBMuts)), 0o644))
		case 5:
			few := [][]string{nil, {"index"}, {"query"}, {"query", "-a"}, {"x"}, {"query", "-x", "db"}, {"query", "db", "1=1", "x"}, {"index", "db"}}
			res.q, err = toolIn(d, "", bin, few[c.Pad%len(few)]...)
			return
		}
		res.q, err = toolIn(d, "", bin, append(append([]string{"query"}, args...), db, clause)...)
		return
	}
	fail := func(r *toolRun, how string) error {
		msg := r.err
		if i := strings.Index(msg, "ERROR: AddressSanitizer"); i > 0 {
			msg = msg[i:]
		}
		if mem {
			how += ", or uses values never set"
		}
		return fmt.Errorf("%s %q %s (exit status %d): %s\ninput of %d bytes: %s", name, args, how, r.code, trunc(msg, 2500), len(in), show(in))
	}
	plain, err := run("plain")
	if err != nil {
		return err
	}
	for _, r := range []*toolRun{plain.r, plain.q} {
		if r != nil {
			if how := r.broken(); how != "" && name != "gotester" && !mem {
				st.class("crash of the plain build") // told below, with the place
			} else if how != "" {
				return fail(r, how)
			}
		}
	}
	if name != "gotester" && !mem {
		san, err := run("san")
		if err != nil {
			return err
		}
		for _, p := range [][2]*toolRun{{plain.r, san.r}, {plain.q, san.q}} {
			a, b := p[0], p[1]
			if a == nil {
				continue
			}
			if how := b.broken(); how != "" {
				return fail(b, how)
			}
			if how := a.broken(); how != "" {
				return fail(a, how)
			}
			if a.code != b.code {
				return fmt.Errorf("%s %q ends with status %d, or %d where memory held something else before: it depends on more than its input\ninput of %d bytes: %s", name, args, a.code, b.code, len(in), show(in))
			}
			if a.out != b.out {
				return fmt.Errorf("%s %q writes something else when memory held something else before: %s\ninput of %d bytes: %s", name, args, diffAt(a.out, b.out), len(in), show(in))
			}
		}
	}
	st.class(name)
	if c.DB > 0 && plain.q != nil {
		st.class("query of what %d: status %d", c.DB, plain.q.code)
	}
	if plain.r.code == 0 {
		st.class(name + " accepts")
	} else {
		st.class(name + " refuses")
	}
	st.nontrivial(len(in) > 0 && (len(c.Muts) > 0 || c.Script != nil || c.Src != nil || c.Grow != nil))
	return nil
}

// setupFuzz builds the programs twice: as they are, and with sanitizers.
func setupFuzz(dir string) error {
	cs := []string{"ctester", "testbuilder", "normaliser", "encfixer", "encextractor", "nohigh", "indexer"}
	for _, v := range []struct{ dir, cc string }{
		{"plain", "gcc"},
		{"san", "gcc -fsanitize=address,bounds,null,object-size,vla-bound,integer-divide-by-zero -fno-sanitize-recover=all -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern"},
	} {
		d := filepath.Join(dir, v.dir)
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
		if err := buildC(d, append([]string{"CC=" + v.cc}, cs...)...); err != nil {
			return err
		}
	}
	for _, e := range sanEnv {
		k, v, _ := strings.Cut(e, "=")
		os.Setenv(k, v)
	}
	if err := buildGotester(filepath.Join(dir, "plain")); err != nil {
		return err
	}
	if out, err := exec.Command(filepath.Join(dir, "san", "nohigh")).CombinedOutput(); err != nil {
		return fmt.Errorf("the programs built with sanitizers do not run: %v\n%s", err, out)
	}
	return nil
}

func init() {
	checks["C33"] = &propCheck{
		rule:    "scripts, documents and declarations, most of them damaged (parts deleted, doubled, overwritten, tokens inserted or repeated thousands of times, ended early), given to each program with its options, as it is and built with sanitizers for memory and arithmetic faults and automatic variables and allocations filled; some also under valgrind; non-trivial: a damaged input, a script or a document",
		noLimit: true,
		setup:   setupFuzz,
		subs: []sub{
			gsub[*FuzzCase]{id: "programs", quick: 3000, deep: 300000, gen: func(g *G) *FuzzCase { return g.fuzzCase(false) }, check: fuzzCheck},
			gsub[*FuzzCase]{id: "memcheck", quick: 25, deep: 4000, gen: func(g *G) *FuzzCase { return g.fuzzCase(g.bit()) }, check: memCheck},
			gsub[*FuzzCase]{id: "indexer", quick: 300, deep: 30000, gen: func(g *G) *FuzzCase { return g.fuzzCase(true) }, check: fuzzCheck},
		},
	}
}
