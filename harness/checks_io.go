package main

// C38: faults of input and output around the programs under tester/.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// IOCase is an input for one of the programs and where it fails.
type IOCase struct {
	Tool   string
	Args   []string   `json:",omitempty"`
	Script *Script    `json:",omitempty"`
	Src    *SrcCase   `json:",omitempty"`
	Many   *ManyBytes `json:",omitempty"`
	Files  int        `json:",omitempty"` // indexer: so many files
	Name   int        `json:",omitempty"` // with names of this length
	Fault  string     // limit full readonly after append reset dir
	At     int        // limit and reset: byte
	Prior  Str        `json:",omitempty"` // after, append: what is there
}

var ioTools = []string{"ctester", "gotester", "testbuilder", "normaliser", "encfixer", "encextractor", "nohigh", "index", "query"}

func (g *G) ioCase() *IOCase {
	c := &IOCase{Tool: pick(g, ioTools...)}
	c.Fault = pick(g, "limit", "limit", "limit", "limit", "reset", "reset", "reset", "full", "readonly", "after", "append", "dir")
	long := g.chance(1, 3)
	switch c.Tool {
	case "ctester", "gotester":
		c.Script = g.libxmlCase().S
		if long {
			g.lengthen(c.Script)
		}
		if g.chance(1, 4) {
			c.Args = []string{"-indent"}
		}
	case "testbuilder", "normaliser":
		if long {
			c.Many = &ManyBytes{Head: Str(pick(g, "<a>", "<?xml version='1.0'?><!DOCTYPE a [<!ENTITY e 'x'>]><a>")), S: Str(pick(g, "<b/>", "<b c='%'>x</b>", "<!--%-->", "text % ", "<![CDATA[x]]>")), Tail: Str(pick(g, "</a>", "</a><!--end-->", "</a>\n", "</a><?pi?>\n\n")), N: pick(g, 10, 100, 1000, 3000) + g.n(100)}
		} else {
			c.Src = g.srcCase(false)
		}
		if c.Tool == "testbuilder" && g.chance(1, 3) {
			c.Args = []string{pick(g, "-d", "-s")}
		}
	case "encfixer", "encextractor", "nohigh":
		c.Many = &ManyBytes{Head: Str(pick(g, "", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n", "<?xml version='1.0' encoding='iso-8859-1' standalone='yes' ?>")), S: Str(pick(g, "a", "<b/>", "%\n", " ")), N: g.few(40)}
		if c.Tool != "nohigh" {
			c.Many.Tail = Str(pick(g, "", "", "é", "\n"))
		}
		if long {
			c.Many.N = pick(g, 1020, 1024, 2048, 4096, 8192, 16384) + g.in(-60, 60)
		}
		if c.Tool == "encfixer" && g.bit() {
			c.Args = pick(g, []string{"-d"}, []string{"-f", "UTF-8"})
		}
	case "index", "query":
		c.Files, c.Name = g.in(1, 8), g.in(4, 20)
		if long {
			c.Files, c.Name = g.in(20, 120), g.in(20, 200)
		}
	}
	c.At = int(g.bits(24))
	switch g.n(6) {
	case 0:
		c.At = g.n(8)
	case 1:
		c.At = -1 - g.n(3)
	case 2:
		c.At = pick(g, 4096, 8192, 16384, 4000) + g.in(-2, 2)
	}
	if c.Fault == "after" || c.Fault == "append" {
		c.Prior = Str(pick(g, "x", "<a/>\n", strings.Repeat("y", 5000)))
	}
	return c
}

// lengthen adds some text to the content of the root.
func (g *G) lengthen(s *Script) {
	for i, k := range s.Cmds {
		if k.A != "start" || k.K != "elem" {
			continue
		}
		for i++; i < len(s.Cmds) && s.Cmds[i].K == "attr"; i++ {
		}
		n := pick(g, 10, 500, 4000, 9000, 20000) + g.n(100)
		s.Cmds = append(s.Cmds[:i:i], append([]*Cmd{{A: "write", K: "text", C: Str(strings.Repeat(pick(g, "x", "ab ", "é"), n))}}, s.Cmds[i:]...)...)
		return
	}
}

func (c *IOCase) input() string {
	switch {
	case c.Script != nil:
		return c.Script.xml()
	case c.Src != nil:
		return c.Src.text(0)
	case c.Many != nil:
		return (&FuzzCase{Many: c.Many}).input()
	}
	return ""
}

var ignoreXFSZ = sync.OnceFunc(func() { signal.Ignore(syscall.SIGXFSZ) })

// ioRun runs a program on files as they are.
func ioRun(dir string, in, out *os.File, limit int, name string, args ...string) (*toolRun, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	bin := filepath.Join(toolDir, name)
	if limit >= 0 {
		ignoreXFSZ()
		p, err := exec.LookPath("prlimit")
		noErr(err)
		args = append([]string{fmt.Sprintf("--fsize=%d", limit), bin}, args...)
		bin = p
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Stdin, cmd.Stdout = in, out
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err := cmd.Run()
	r := &toolRun{err: eb.String()}
	if ctx.Err() != nil {
		return r, fmt.Errorf("%s does not end", name)
	}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			harnessFail("cannot run %s: %v", name, err)
		}
		r.code = ee.ExitCode()
	}
	return r, nil
}

// resetIn is an input that gives the bytes and then an error.
func resetIn(data string) (*os.File, func()) {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	noErr(err)
	// what is left unread at one end when it is closed resets the other
	_, err = syscall.Write(fds[1], []byte("x"))
	noErr(err)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for b := []byte(data); len(b) > 0; {
			n, err := syscall.Write(fds[0], b)
			if err == syscall.EINTR {
				continue
			}
			if err != nil {
				break
			}
			b = b[n:]
		}
		syscall.Close(fds[0])
	}()
	f := os.NewFile(uintptr(fds[1]), "input")
	return f, func() {
		f.Close()
		<-done
	}
}

func ioCheck(c *IOCase, st *Stats) error {
	d, err := os.MkdirTemp(toolDir, "ft")
	noErr(err)
	defer os.RemoveAll(d)
	in := c.input()
	name, args := c.Tool, c.Args
	var names []string
	switch name {
	case "index", "query":
		for i := 0; i < c.Files; i++ {
			n := fmt.Sprintf("%04d", i)
			n += strings.Repeat("f", max(c.Name-len(n), 0))
			names = append(names, n)
			noErr(os.WriteFile(filepath.Join(d, n), []byte(fmt.Sprintf("<a>%d</a>", i)), 0o644))
		}
		in = strings.Join(names, "\n") + "\n"
		args = []string{"index", "db"}
		if name == "query" {
			r, err := toolIn(d, in, "indexer", args...)
			if err != nil {
				return err
			}
			if r.code != 0 {
				return fmt.Errorf("indexer: exit status %d: %s", r.code, trunc(r.err, 500))
			}
			args, in = []string{"query", "-a", "db", ""}, ""
		}
		name = "indexer"
	}
	infile := filepath.Join(d, "in")
	noErr(os.WriteFile(infile, []byte(in), 0o644))
	open := func(p string, mode int) *os.File {
		f, err := os.OpenFile(p, mode, 0o644)
		noErr(err)
		return f
	}
	outfile := filepath.Join(d, "out")
	// what it writes when nothing fails, and elsewhere
	want := ""
	if c.Tool != "index" {
		r, err := toolIn(d, in, name, args...)
		if err != nil {
			return err
		}
		if r.code != 0 {
			st.class("%s: the input is refused", c.Tool)
			return nil
		}
		want = r.out
	}
	content := func() string {
		b, err := os.ReadFile(outfile)
		noErr(err)
		return string(b)
	}
	fault := c.Fault
	if name == "nohigh" && fault != "reset" && fault != "dir" {
		fault = "reset"
	}
	if c.Tool == "query" && (fault == "reset" || fault == "dir") {
		fault = "full"
	}
	if c.Tool == "index" && fault != "reset" && fault != "dir" {
		fault = "limit"
	}
	ctx := func(r *toolRun) string {
		return fmt.Sprintf("\nexit status %d, stderr: %s\ninput of %d bytes: %s", r.code, trunc(r.err, 400), len(in), show(in))
	}
	what := fmt.Sprintf("%s %q", name, args)
	switch fault {
	case "limit":
		at := c.At
		n := len(want)
		if c.Tool == "index" { // about the size of the index
			n = 2*c.Files*(c.Name+120) + 4096
			at = max(at%n, 0) + 16384
			n += at
		}
		if at < 0 {
			at = n + 2 + at // the length itself, or one off
		} else if n > 0 {
			at %= n + 1
		}
		at = max(at, 0)
		fi, fo := open(infile, os.O_RDONLY), open(outfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC)
		r, err := ioRun(d, fi, fo, at, name, args...)
		fi.Close()
		fo.Close()
		if err != nil {
			return err
		}
		if r.crashed() {
			return fmt.Errorf("%s crashes when it can write %d bytes%s", what, at, ctx(r))
		}
		if c.Tool == "index" {
			st.class("index: status %d", r.code)
			st.nontrivial(r.code != 0)
			if r.code != 0 {
				return nil
			}
			q, err := toolIn(d, "", "indexer", "query", "-a", "db")
			if err != nil {
				return err
			}
			got := strings.Fields(q.out)
			if q.code != 0 || len(got) != len(names) {
				return fmt.Errorf("%s, files limited to %d bytes, ends with success, and %d of %d files are in the index%s", what, at, len(got), len(names), ctx(r))
			}
			return nil
		}
		got := content()
		if at >= len(want) {
			st.class("%s: just enough room", c.Tool)
			if r.code != 0 || got != want {
				return fmt.Errorf("%s needs to write %d bytes, can write %d, and does not succeed: %s%s", what, len(want), at, diffAt(want, got), ctx(r))
			}
			return nil
		}
		st.class("%s: output fails", c.Tool)
		st.nontrivial(at > 0)
		if r.code == 0 {
			return fmt.Errorf("%s writes %d of %d bytes, cannot write more, and ends with success%s", what, at, len(want), ctx(r))
		}
		if !strings.HasPrefix(want, got) {
			return fmt.Errorf("%s, when it can write %d of %d bytes, writes something else: %s%s", what, at, len(want), diffAt(want[:at], got), ctx(r))
		}
	case "full", "readonly":
		fi := open(infile, os.O_RDONLY)
		fo := open("/dev/full", os.O_WRONLY)
		if fault == "readonly" {
			fo.Close()
			noErr(os.WriteFile(outfile, nil, 0o644))
			fo = open(outfile, os.O_RDONLY)
		}
		r, err := ioRun(d, fi, fo, -1, name, args...)
		fi.Close()
		fo.Close()
		if err != nil {
			return err
		}
		st.class("%s: output %s", c.Tool, fault)
		st.nontrivial(want != "")
		if r.crashed() || want != "" && r.code == 0 {
			return fmt.Errorf("%s cannot write (%s) and ends with success, or crashes%s", what, fault, ctx(r))
		}
	case "after", "append":
		noErr(os.WriteFile(outfile, []byte(c.Prior), 0o644))
		fi, fo := open(infile, os.O_RDONLY), open(outfile, os.O_WRONLY)
		if fault == "append" {
			fo.Close()
			fo = open(outfile, os.O_WRONLY|os.O_APPEND)
		} else if _, err := fo.Seek(0, 2); err != nil {
			noErr(err)
		}
		r, err := ioRun(d, fi, fo, -1, name, args...)
		fi.Close()
		fo.Close()
		if err != nil {
			return err
		}
		st.class("%s: output %s", c.Tool, fault)
		st.nontrivial(want != "")
		if r.code != 0 || content() != string(c.Prior)+want {
			return fmt.Errorf("%s writes behind %d bytes (%s): %s%s", what, len(c.Prior), fault, diffAt(string(c.Prior)+want, content()), ctx(r))
		}
	case "reset", "dir":
		at := c.At
		if at < 0 {
			at = len(in) + 1 + at
		} else {
			at %= len(in) + 1
		}
		at = max(at, 0)
		must := true
		switch c.Tool {
		case "encextractor": // reads no further
			must = at < 4096
		case "ctester", "gotester":
			must = at < strings.LastIndex(in, "</script")
		}
		fi, end := open(d, os.O_RDONLY), func() {}
		if fault == "reset" {
			fi.Close()
			fi, end = resetIn(in[:at])
		} else {
			at, must = 0, true
		}
		fo := open(outfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC)
		r, err := ioRun(d, fi, fo, -1, name, args...)
		fi.Close()
		end()
		fo.Close()
		if err != nil {
			return err
		}
		st.class("%s: input fails", c.Tool)
		st.nontrivial(at > 0 && must)
		if r.crashed() {
			return fmt.Errorf("%s crashes when its input fails after byte %d%s", what, at, ctx(r))
		}
		if must && r.code == 0 {
			return fmt.Errorf("the input of %s fails after %d of %d bytes, and it ends with success%s", what, at, len(in), ctx(r))
		}
		if c.Tool == "nohigh" && r.code == 1 {
			return fmt.Errorf("%s finds a high byte among none%s", what, ctx(r))
		}
	}
	return nil
}

func init() {
	checks["C38"] = &propCheck{
		rule:        "scripts, documents, declarations and lists of files, each given to one of the programs with a fault: output that accepts only so many bytes, every length drawn, or none; input that gives so many bytes and then an error; a directory for input; and output that goes behind what is there; non-trivial: the fault falls within the output or input",
		assumptions: []string{"the runners need not read behind the end of the script, nor the extractor of encodings behind its first 4096 bytes", "the content of an index that could not be completed is not specified"},
		setup:       setupTools(true, "ctester", "testbuilder", "normaliser", "encfixer", "encextractor", "nohigh", "indexer"),
		noLimit:     true,
		subs: []sub{
			gsub[*IOCase]{id: "faults", quick: 800, deep: 60000, gen: (*G).ioCase, check: ioCheck},
		},
	}
}
