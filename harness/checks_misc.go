package main

// Checks on what the repository ships beside the writer and its tester: the
// generator of the name table and the helpers of its tests.

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/shabbyrobe/xmlwriter/testtool"
)

// --- C35

// TableCase is what the generator finds when it starts.
type TableCase struct {
	Prior string // absent empty same cut byte tail other link dir
	At    int    // cut: bytes kept; byte: position; other: length
	Bytes Str    // byte, tail
	Mode  uint32 // permissions of the file
	Runs  int    // further runs
}

const tableFile = "tables_gen.go"

func noErr(err error) {
	if err != nil {
		harnessFail("%v", err)
	}
}

func tablesSetup(dir string) error {
	cmd := exec.Command("go", "build", "-o", filepath.Join(dir, "gentables"), "gentables.go")
	cmd.Dir = "/repo"
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("gentables.go does not build: %v\n%s", err, out)
	}
	return nil
}

// freshTable is what the generator makes in an empty directory.
var freshTable = sync.OnceValues(func() ([]byte, error) {
	d, err := os.MkdirTemp(toolDir, "fresh")
	if err != nil {
		harnessFail("%v", err)
	}
	defer os.RemoveAll(d)
	r, err := toolIn(d, "", "gentables")
	if err != nil {
		return nil, err
	}
	if r.code != 0 {
		return nil, fmt.Errorf("the generator fails in an empty directory: exit %d %s", r.code, r.err)
	}
	b, err := os.ReadFile(filepath.Join(d, tableFile))
	if err != nil {
		return nil, fmt.Errorf("the generator leaves no table: %v", err)
	}
	return b, nil
})

func tableCheck(c *TableCase, st *Stats) error {
	want, err := freshTable()
	if err != nil {
		return err
	}
	d, err := os.MkdirTemp(toolDir, "gen")
	if err != nil {
		harnessFail("%v", err)
	}
	defer os.RemoveAll(d)
	p := filepath.Join(d, tableFile)
	prior := []byte{}
	at := 0
	if len(want) > 0 {
		at = ((c.At % len(want)) + len(want)) % len(want)
	}
	switch c.Prior {
	case "same":
		prior = want
	case "cut":
		prior = want[:at]
	case "byte":
		prior = bytes.Clone(want)
		copy(prior[at:], c.Bytes)
	case "tail":
		prior = append(bytes.Clone(want), c.Bytes...)
	case "head":
		prior = append([]byte(c.Bytes), want...)
	case "other":
		prior = bytes.Repeat([]byte("x"), max(c.At, 0))
	}
	st.class("found " + c.Prior)
	mode := os.FileMode(c.Mode)
	target := p
	switch c.Prior {
	case "absent":
	case "dir":
		noErr(os.Mkdir(p, 0o755))
	case "link":
		target = filepath.Join(d, "target")
		noErr(os.Symlink(target, p))
		noErr(os.WriteFile(target, []byte("old"), 0o644))
	default:
		noErr(os.WriteFile(p, prior, mode))
		noErr(os.Chmod(p, mode))
	}
	same := bytes.Equal(prior, want) && c.Prior != "absent"
	old := time.Unix(1000000000, 0)
	if same {
		noErr(os.Chtimes(p, old, old))
	}
	if c.Prior != "absent" && c.Prior != "same" {
		st.nontrivial(true)
	}
	for i := 0; i <= c.Runs; i++ {
		if i > 0 && c.Prior != "dir" {
			noErr(os.Chtimes(target, old, old))
		}
		r, err := toolIn(d, "", "gentables")
		if err != nil {
			return err
		}
		if r.crashed() {
			return fmt.Errorf("run %d: the generator crashes: %s", i+1, trunc(r.err, 500))
		}
		if c.Prior == "dir" {
			if r.code == 0 {
				return fmt.Errorf("run %d: exit 0, and there is no table, as a directory is in its place", i+1)
			}
			continue
		}
		if r.code != 0 {
			return fmt.Errorf("run %d: exit %d: %s", i+1, r.code, trunc(r.err, 500))
		}
		got, err := os.ReadFile(p)
		if err != nil {
			return fmt.Errorf("run %d: %v", i+1, err)
		}
		if !bytes.Equal(got, want) {
			return fmt.Errorf("run %d: the table has %d bytes and is not the %d bytes made from nothing: %s", i+1, len(got), len(want), tableDiff(string(got), string(want)))
		}
		if i > 0 || same {
			if fi, err := os.Stat(p); err != nil || !fi.ModTime().Equal(old) {
				return fmt.Errorf("run %d: the table was right and has been written again", i+1)
			}
		}
	}
	names, _ := os.ReadDir(d)
	for _, n := range names {
		if n.Name() != tableFile && n.Name() != "target" {
			return fmt.Errorf("the generator leaves %q behind", n.Name())
		}
	}
	return nil
}

func tableDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("at byte %d %q, not %q", i, trunc(a[i:min(len(a), i+40)], 80), trunc(b[i:min(len(b), i+40)], 80))
}

// tableVerdicts compiles the writer with the generated table and returns what
// its CheckName says about every character: bit 0 for a name, bit 1 for the
// rest of a name.
var tableVerdicts = sync.OnceValues(func() ([]byte, error) {
	table, err := freshTable()
	if err != nil {
		return nil, err
	}
	if !regexp.MustCompile(`(?m)^// Code generated .* DO NOT EDIT\.$`).Match(table) {
		return nil, errors.New("the table is not marked as generated")
	}
	d := filepath.Join(toolDir, fmt.Sprintf("names-%d", os.Getpid()))
	defer os.RemoveAll(d)
	files, _ := filepath.Glob("/repo/*.go")
	noErr(os.MkdirAll(filepath.Join(d, "cmd"), 0o755))
	for _, f := range append(files, "/repo/go.mod", "/repo/go.sum") {
		b, err := os.ReadFile(f)
		if os.IsNotExist(err) {
			continue
		}
		noErr(err)
		base := filepath.Base(f)
		if strings.HasSuffix(base, "_test.go") || base == tableFile {
			continue
		}
		noErr(os.WriteFile(filepath.Join(d, base), b, 0o644))
	}
	noErr(os.WriteFile(filepath.Join(d, tableFile), table, 0o644))
	noErr(os.WriteFile(filepath.Join(d, "cmd", "main.go"), []byte(`package main

import (
	"os"

	xw "github.com/shabbyrobe/xmlwriter"
)

func main() {
	out := make([]byte, 0x110000)
	for r := range out {
		s := string(rune(r))
		if xw.CheckName(s) == nil {
			out[r] |= 1
		}
		if xw.CheckName("a"+s) == nil {
			out[r] |= 2
		}
		if xw.CheckName("a"+s+"b") == nil {
			out[r] |= 4
		}
	}
	os.Stdout.Write(out)
}
`), 0o644))
	cmd := exec.Command("go", "run", "./cmd")
	cmd.Dir = d
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	var out, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &eb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("the writer does not work with the generated table: %v: %s", err, trunc(eb.String(), 2000))
	}
	if out.Len() != 0x110000 {
		harnessFail("%d verdicts", out.Len())
	}
	return out.Bytes(), nil
})

// NameCase is a block of 256 characters.
type NameCase struct{ Block int }

func tableNames(c *NameCase, st *Stats) error {
	v, err := tableVerdicts()
	if err != nil {
		return err
	}
	for r := rune(c.Block) << 8; r < rune(c.Block+1)<<8; r++ {
		if r >= 0xD800 && r <= 0xDFFF || r == 0xFFFD || r > 0xFFFF {
			continue // not characters, or a recorded finding of C21
		}
		var want byte
		if isNameStart(r) {
			want |= 1
		}
		if isNameCh(r) {
			want |= 6
			st.nontrivial(true)
		}
		if v[r] != want {
			return fmt.Errorf("U+%04X with the generated table: first %v, last %v, inside %v; by the XML grammar first %v, later %v", r, v[r]&1 != 0, v[r]&2 != 0, v[r]&4 != 0, want&1 != 0, want&2 != 0)
		}
	}
	return nil
}

// --- C36

// fakeTB stands in for the test.
type fakeTB struct {
	testing.TB
	failed bool
	log    strings.Builder
}

type stopped struct{}

func (f *fakeTB) Helper()      {}
func (f *fakeTB) Name() string { return "Fake" }
func (f *fakeTB) Fail()        { f.failed = true }
func (f *fakeTB) Failed() bool { return f.failed }
func (f *fakeTB) FailNow() {
	f.failed = true
	panic(stopped{})
}
func (f *fakeTB) Log(a ...interface{})              { fmt.Fprintln(&f.log, a...) }
func (f *fakeTB) Logf(s string, a ...interface{})   { fmt.Fprintf(&f.log, s+"\n", a...) }
func (f *fakeTB) Error(a ...interface{})            { f.Log(a...); f.Fail() }
func (f *fakeTB) Errorf(s string, a ...interface{}) { f.Logf(s, a...); f.Fail() }
func (f *fakeTB) Fatal(a ...interface{})            { f.Log(a...); f.FailNow() }
func (f *fakeTB) Fatalf(s string, a ...interface{}) { f.Logf(s, a...); f.FailNow() }

// tbRun runs one helper call: did it fail the test, did it go on, and what did
// it say.
func tbRun(call func(tb testing.TB)) (failed, wentOn bool, said string) {
	tb := &fakeTB{}
	r, w, err := os.Pipe()
	noErr(err)
	out := os.Stdout
	os.Stdout = w
	text := make(chan string)
	go func() {
		var b bytes.Buffer
		b.ReadFrom(r)
		r.Close()
		text <- b.String()
	}()
	func() {
		defer func() {
			os.Stdout = out
			w.Close()
			said = <-text + tb.log.String()
			if p := recover(); p != nil {
				if _, ok := p.(stopped); !ok {
					panic(p)
				}
			}
		}()
		call(tb)
		wentOn = true
	}()
	return tb.failed, wentOn, said
}

// F64 is a float that JSON can hold, whichever it is.
type F64 float64

func (f F64) MarshalText() ([]byte, error) {
	return strconv.AppendFloat(nil, float64(f), 'g', -1, 64), nil
}

func (f *F64) UnmarshalText(b []byte) error {
	v, err := strconv.ParseFloat(string(b), 64)
	*f = F64(v)
	return err
}

// HelperCase is one call of a test helper.
type HelperCase struct {
	Helper  string // Assert Pattern FloatNear OK Equals
	Holds   bool
	Msg     []string // format and arguments
	Exp     *Val `json:",omitempty"`
	Act     *Val `json:",omitempty"`
	Pat, In Str
	Eps     F64
	A, B    F64
	Err     int
}

// Val is a value to compare: a tree built the same way twice is equal.
type Val struct {
	T    string // int int64 uint8 string bool float bytes ints strings map struct ptr nil err iface arr
	N    int64
	S    Str
	Kids []*Val
}

type valStruct struct {
	A    int
	B    string
	priv interface{}
	P    *valStruct
}

type helperErr struct{ s string }

func (e *helperErr) Error() string {
	if e == nil {
		return "a nil helperErr"
	}
	return e.s
}

func (v *Val) value() interface{} {
	kids := func() []interface{} {
		r := make([]interface{}, 0, len(v.Kids))
		for _, k := range v.Kids {
			r = append(r, k.value())
		}
		return r
	}
	switch v.T {
	case "int":
		return int(v.N)
	case "int64":
		return v.N
	case "uint8":
		return uint8(v.N)
	case "bool":
		return v.N&1 == 1
	case "float":
		return float64(v.N) / 4
	case "string":
		return string(v.S)
	case "bytes":
		return []byte(v.S + "")
	case "arr":
		return [3]int64{v.N, 1, v.N >> 8}
	case "list":
		return kids()
	case "map":
		m := map[string]interface{}{}
		for i, k := range v.Kids {
			m[fmt.Sprint(i)] = k.value()
		}
		return m
	case "struct":
		s := valStruct{A: int(v.N), B: string(v.S)}
		if len(v.Kids) > 0 {
			s.priv = v.Kids[0].value()
		}
		return s
	case "ptr":
		return &valStruct{A: int(v.N), B: string(v.S), P: &valStruct{priv: kids()}}
	case "err":
		return error(&helperErr{string(v.S)})
	}
	return nil
}

// key is the same for two values exactly when they are equal.
func (v *Val) key() string {
	k := v.T
	switch v.T {
	case "int", "int64":
		k += fmt.Sprint(v.N)
	case "uint8":
		k += fmt.Sprint(uint8(v.N))
	case "bool":
		k += fmt.Sprint(v.N&1 == 1)
	case "float":
		k += fmt.Sprint(float64(v.N) / 4)
	case "arr":
		k += fmt.Sprint(v.N, v.N>>8)
	case "string", "bytes", "err":
		k += fmt.Sprintf("%q", string(v.S))
	case "struct", "ptr":
		k += fmt.Sprintf("%d %q", int(v.N), string(v.S))
	}
	kids := v.Kids
	switch v.T {
	case "struct":
		kids = kids[:min(1, len(kids))]
		for len(kids) == 1 && kids[0].T == "nil" {
			kids = nil
		}
	case "list", "map", "ptr":
	default:
		kids = nil
	}
	k += "("
	for _, x := range kids {
		k += x.key() + ","
	}
	return k + ")"
}

func (g *G) val(depth int) *Val {
	v := &Val{T: pick(g, "int", "int64", "uint8", "bool", "float", "string", "bytes", "arr", "nil", "err", "struct", "ptr", "list", "map"), N: int64(g.n(4))}
	if g.chance(1, 4) {
		v.N = int64(g.bits(62)) >> g.n(50)
		if v.T == "float" {
			v.N >>= 14
		}
	}
	v.S = Str(pick(g, "", "a", "b", "é", "\x00", "a ", "A", "%d", "a\n"))
	if depth > 0 {
		for i, n := 0, g.n(4); i < n; i++ {
			v.Kids = append(v.Kids, g.val(depth-1))
		}
	}
	return v
}

func (v *Val) clone() *Val {
	w := *v
	w.Kids = nil
	for _, k := range v.Kids {
		w.Kids = append(w.Kids, k.clone())
	}
	return &w
}

// tweak changes one thing somewhere inside.
func (g *G) tweak(v *Val) {
	if len(v.Kids) > 0 && g.chance(3, 4) {
		g.tweak(v.Kids[g.n(len(v.Kids))])
		return
	}
	switch g.n(5) {
	case 0:
		v.N++
	case 1:
		v.S += "x"
	case 2:
		v.T = pick(g, "int", "int64", "uint8", "string", "bytes", "nil", "struct", "ptr", "list", "map", "err")
	case 3:
		v.Kids = append(v.Kids, &Val{T: "int"})
	default:
		if len(v.Kids) > 0 {
			v.Kids = v.Kids[1:]
		} else {
			v.N += 256
		}
	}
}

func (g *G) helperCase() *HelperCase {
	c := &HelperCase{Helper: pick(g, "Assert", "Pattern", "FloatNear", "OK", "Equals"), Holds: g.bit()}
	if g.chance(2, 3) {
		m := pick(g, "plain", "%d of %d", "%s", "100%%", "é %v", "", "%q", "a\nb", "%5.2f|", "%x")
		c.Msg = []string{m}
		for i, n := 0, strings.Count(strings.ReplaceAll(m, "%%", ""), "%"); i < n; i++ {
			c.Msg = append(c.Msg, pick(g, "7", "", "a%db", "é"))
		}
	}
	num := func() float64 {
		switch g.n(5) {
		case 0:
			return float64(g.n(9)-4) / 4
		case 1:
			return pick(g, 0.0, math.Copysign(0, -1), math.NaN(), 1e300, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, 1, -1, 0.1, 1e-9)
		case 2:
			return float64(int64(g.bits(62))>>g.n(60)) * pick(g, 1.0, -1.0)
		}
		return float64(g.n(2001)-1000) * pick(g, 1.0, 0.001, 0.5, 1e-12)
	}
	a, b := num(), num()
	eps := pick(g, 0, 0.25, 0.5, 1, 1e-9, 0.001, 1e-300, -1, 1e308, math.NaN(), math.Abs(a-b), math.Nextafter(math.Abs(a-b), math.Inf(1)))
	if g.chance(1, 3) {
		b = a + pick(g, 0, 1.0, -1, 0.5, -0.5, 2, -2)*eps
	}
	c.A, c.B, c.Eps = F64(a), F64(b), F64(eps)
	c.Pat, c.In = g.pattern()
	c.Err = g.n(5)
	c.Exp = g.val(3)
	c.Act = c.Exp.clone()
	if !c.Holds {
		if g.chance(3, 4) {
			g.tweak(c.Act)
		} else {
			c.Act = g.val(3)
		}
	}
	if c.Helper != "Equals" {
		c.Exp, c.Act = nil, nil
	}
	if c.Helper != "Pattern" {
		c.Pat, c.In = "", ""
	}
	return c
}

// pattern draws an expression whose meaning litMatch knows.
func (g *G) pattern() (Str, Str) {
	lit := pick(g, "", "a", "a.b", "[x]", "é", "\\", "(a)", "a+", "$", "ab", "^a")
	q := regexp.QuoteMeta(lit)
	p := pick(g, q, "^"+q, q+"$", "^"+q+"$", "(?:"+q+")", "^(?:"+q+")*$", "(?i)"+q)
	in := pick(g, "", "x", "\n", "a", "é") + pick(g, lit, lit, lit+lit, strings.ToUpper(lit), "axb", "", "a") + pick(g, "", "", "", "x", "\n", "a")
	return Str(p), Str(in)
}

// litMatch says whether the input matches, without the regexp package.
func litMatch(p, in string) bool {
	unq := func(q string) string {
		var b strings.Builder
		for i := 0; i < len(q); i++ {
			if q[i] == '\\' {
				i++
			}
			b.WriteByte(q[i])
		}
		return b.String()
	}
	if strings.HasPrefix(p, "^(?:") && strings.HasSuffix(p, ")*$") {
		lit := unq(p[4 : len(p)-3])
		return lit == "" && in == "" || lit != "" && strings.ReplaceAll(in, lit, "") == "" && len(in)%len(lit) == 0 && in == strings.Repeat(lit, len(in)/len(lit))
	}
	if strings.HasPrefix(p, "(?:") {
		return strings.Contains(in, unq(p[3:len(p)-1]))
	}
	if strings.HasPrefix(p, "(?i)") {
		return strings.Contains(strings.ToLower(in), strings.ToLower(unq(p[4:])))
	}
	start := strings.HasPrefix(p, "^")
	p = strings.TrimPrefix(p, "^")
	end := false
	if strings.HasSuffix(p, "$") {
		n := 0
		for i := len(p) - 2; i >= 0 && p[i] == '\\'; i-- {
			n++
		}
		if end = n%2 == 0; end {
			p = p[:len(p)-1]
		}
	}
	lit := unq(p)
	switch {
	case start && end:
		return in == lit
	case start:
		return strings.HasPrefix(in, lit)
	case end:
		return strings.HasSuffix(in, lit)
	}
	return strings.Contains(in, lit)
}

// near says whether the floats are within the epsilon; sure is false where the
// rounding of the difference decides.
func near(eps, a, b float64) (is, sure bool) {
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false, !math.IsInf(a, 0) && !math.IsInf(b, 0)
	}
	if a == b {
		return true, true
	}
	if math.IsNaN(eps) || eps <= 0 {
		return false, true
	}
	x := func(f float64) *big.Float { return new(big.Float).SetPrec(2200).SetFloat64(f) }
	if math.IsInf(eps, 0) {
		return true, !math.IsInf(a-b, 0)
	}
	d := x(a)
	d.Sub(d, x(b)).Abs(d)
	r := x(math.Abs(a - b))
	if math.IsInf(a-b, 0) {
		return false, false
	}
	return d.Cmp(x(eps)) < 0, r.Cmp(d) == 0 || (r.Cmp(x(eps)) < 0) == (d.Cmp(x(eps)) < 0)
}

func helperCheck(c *HelperCase, st *Stats) error {
	var file string
	var line int
	var msg []interface{}
	want := ""
	for i, m := range c.Msg {
		var a interface{} = m
		if i > 0 && (strings.Contains(c.Msg[0], "%d") || strings.Contains(c.Msg[0], "f|")) {
			if a = i * 7; strings.Contains(c.Msg[0], "f|") {
				a = float64(i) * 2.5
			}
		}
		msg = append(msg, a)
	}
	holds := c.Holds
	var run func(tb testing.TB)
	if c.Helper == "FloatNear" {
		is, sure := near(float64(c.Eps), float64(c.A), float64(c.B))
		if !sure {
			st.class("left to rounding")
			return nil
		}
		holds = is
	}
	if c.Helper == "Assert" || c.Helper == "FloatNear" {
		if len(msg) > 0 {
			want = ": " + fmt.Sprintf(msg[0].(string), msg[1:]...)
		}
	}
	switch c.Helper {
	case "Assert":
		run = func(tb testing.TB) {
			_, file, line, _ = runtime.Caller(0); testtool.Assert(tb, c.Holds, msg...)
		}
	case "FloatNear":
		run = func(tb testing.TB) {
			_, file, line, _ = runtime.Caller(0); testtool.FloatNear(tb, float64(c.Eps), float64(c.A), float64(c.B), msg...)
		}
	case "Pattern":
		holds = litMatch(string(c.Pat), string(c.In))
		want = fmt.Sprintf("%#v", string(c.In))
		run = func(tb testing.TB) {
			_, file, line, _ = runtime.Caller(0); testtool.Pattern(tb, string(c.Pat), string(c.In))
		}
	case "OK":
		var err error
		switch c.Err {
		case 1:
			err = errors.New("")
		case 2:
			err = errors.New("100%d é")
		case 3:
			err = (*helperErr)(nil)
		case 4:
			err = fmt.Errorf("wrapped: %w", os.ErrNotExist)
		}
		if holds = err == nil; !holds {
			want = err.Error()
		}
		run = func(tb testing.TB) {
			_, file, line, _ = runtime.Caller(0); testtool.OK(tb, err)
		}
	case "Equals":
		holds = c.Exp.key() == c.Act.key()
		exp, act := c.Exp.value(), c.Act.value()
		if s, ok := act.(string); ok {
			want = fmt.Sprintf("%#v", s)
		}
		run = func(tb testing.TB) {
			_, file, line, _ = runtime.Caller(0); testtool.Equals(tb, exp, act)
		}
	}
	st.class(fmt.Sprintf("%s %v", c.Helper, holds))
	if !holds || c.Helper == "Equals" && len(c.Exp.Kids) > 0 {
		st.nontrivial(true)
	}
	failed, wentOn, said := tbRun(run)
	switch {
	case holds && failed:
		return fmt.Errorf("%s fails the test, and its condition holds: %s", c.Helper, trunc(said, 500))
	case holds && !wentOn:
		return fmt.Errorf("%s ends the test, and its condition holds", c.Helper)
	case holds && said != "":
		return fmt.Errorf("%s says %q, and its condition holds", c.Helper, trunc(said, 500))
	case !holds && !failed:
		return fmt.Errorf("%s does not fail the test, and its condition does not hold", c.Helper)
	case !holds && wentOn:
		return fmt.Errorf("%s goes on after a failure", c.Helper)
	}
	if holds {
		return nil
	}
	if where := fmt.Sprintf("%s:%d", filepath.Base(file), line); !strings.Contains(said, where) {
		return fmt.Errorf("%s was called at %s and says %q", c.Helper, where, trunc(said, 500))
	}
	if !strings.Contains(said, want) {
		return fmt.Errorf("%s says %q, without %q", c.Helper, trunc(said, 500), want)
	}
	return nil
}

// --- C37

// RefuseCase is a script for the libxml2 runner with one thing in it that
// makes it no script, one it must not mind, or a command libxml2 rejects.
type RefuseCase struct {
	S    *Script
	Want string // refuse, fail or run
	What string
}

var ctKinds = []string{"all", "attr", "cdata", "cdata-content", "comment", "doc", "dtd", "dtd-attr", "dtd-att-list", "dtd-elem", "dtd-entity", "elem", "notation", "pi", "raw", "text"}

var ctTakes = map[string]string{
	"write": " attr cdata cdata-content comment dtd-elem dtd-attr dtd-entity notation pi raw text ",
	"start": " cdata comment doc dtd dtd-att-list elem ",
	"end":   " all cdata comment doc dtd dtd-att-list elem ",
}

func (g *G) refuseCase() *RefuseCase {
	c := &RefuseCase{S: g.libxmlCase().S, Want: "refuse"}
	s := c.S
	if len(s.Cmds) == 0 || len(s.Cmds) > 400 {
		s.Cmds = []*Cmd{{A: "write", K: "text", C: "x"}}
	}
	at := g.n(len(s.Cmds))
	insert := func(k *Cmd) {
		s.Cmds = append(s.Cmds[:at:at], append([]*Cmd{k}, s.Cmds[at:]...)...)
	}
	n := Str(pick(g, "a", "b"))
	switch g.n(14) {
	case 0:
		c.What = "cut off"
		s.Cut = 1
	case 1:
		c.What = "root"
		s.Root = pick(g, "scripts", "Script", "scrip", "command", "xml-script")
	case 2:
		c.What = "ctester"
		s.RootAttr = ` ctester="` + pick(g, "no", "false", "", "maybe", "1", "0", "yess", "tru") + `"`
	case 3:
		c.What = "ctester allowed"
		s.RootAttr = ` ctester="` + pick(g, "yes", "true") + `"`
		c.Want = "run"
	case 4:
		c.What = "junk"
		s.Junk = Str(pick(g, "x", " . ", "&#65;", "<comand action='end' kind='all'/>", "<x/>", "<Command action='end' kind='all'/>", "<?pi?>", "<script/>", "\u00a0"))
		s.JunkAt = g.n(len(s.Cmds) + 1)
	case 5:
		c.What = "comment or blank"
		s.Junk = Str(pick(g, "<!-- x -->", "<!--<command/>-->", "\n\n\t", " ", "<!----> <!--a-->\n", "&#10;"))
		s.JunkAt = g.n(len(s.Cmds) + 1)
		c.Want = "run"
	case 6:
		c.What = "action"
		s.Cmds[at].A = pick(g, "", "Start", "begin", "ends", "writ", "starts", "end ", "pop")
	case 7:
		c.What = "kind"
		s.Cmds[at].K = pick(g, "", "element", "Elem", "text ", "dtd-attlist", "CDATA", "attribute", "el", "none")
	case 8, 9:
		c.What = "pair"
		k := &Cmd{A: pick(g, "start", "end", "write"), Name: &n}
		for k.K == "" || strings.Contains(ctTakes[k.A], " "+k.K+" ") {
			k.K = ctKinds[g.n(len(ctKinds))]
		}
		insert(k)
	case 10, 11:
		c.What = "boolean"
		v := Str(pick(g, "", "1", "0", "y", "nope", "yes ", " true", "on", "falsee", "tru"))
		switch g.n(4) {
		case 0:
			insert(&Cmd{A: "write", K: "dtd-entity", Name: &n, P: []SKV{{"is-pe", v}}, C: "x"})
		case 1:
			insert(&Cmd{A: "write", K: "dtd-attr", Name: &n, P: []SKV{{"type", "CDATA"}, {"required", v}}})
		case 2:
			insert(&Cmd{A: "end", K: "elem", P: []SKV{{"full", v}}})
		default:
			insert(&Cmd{A: "write", K: "raw", P: []SKV{{"next", Str(pick(g, string(v), "no", "false"))}}, C: "x"})
		}
	default: // 12, 13
		c.What = "rejected by libxml2"
		c.Want = "fail"
		s.Cmds = append(s.Cmds, &Cmd{A: "end", K: "all"})
		s.Cmds = append(s.Cmds, g.rejected(n)...)
		for i := g.n(3); i > 0; i-- {
			s.Cmds = append(s.Cmds, &Cmd{A: "start", K: "elem", Name: &n})
		}
	}
	return c
}

// rejected draws commands of which libxml2's writer rejects the last, behind
// an end of everything.
func (g *G) rejected(n Str) []*Cmd {
	cmd := func(a, k string, p ...SKV) *Cmd { return &Cmd{A: a, K: k, Name: &n, P: p} }
	open := []*Cmd{cmd("start", "elem")}
	text := append(open, &Cmd{A: "write", K: "text", C: "x"})
	anywhere := []*Cmd{cmd("end", "comment"), cmd("end", "cdata"), cmd("end", "dtd-att-list"), cmd("write", "attr"), cmd("write", "attr", SKV{"prefix", "q"}), cmd("write", "attr", SKV{"prefix", "q"}, SKV{"uri", "u"}),
		cmd("write", "pi", SKV{"target", Str(pick(g, "xml", "XML", "xMl"))}), cmd("write", "pi"), {A: "start", K: "elem"}}
	bad := func(cs ...*Cmd) *Cmd { return cs[g.n(len(cs))] }
	switch g.n(6) {
	case 0:
		return []*Cmd{bad(append(anywhere, cmd("end", "elem"))...)}
	case 1, 2:
		return append(text, bad(append(anywhere, cmd("start", "doc"), cmd("start", "dtd"), cmd("write", "dtd-elem"), cmd("write", "dtd-entity"), cmd("write", "notation", SKV{"system-id", "s"}), cmd("start", "dtd-att-list"))...))
	case 3:
		return append(open, cmd("start", "comment"), bad(cmd("start", "comment"), cmd("end", "cdata"), cmd("end", "elem"), cmd("write", "attr"), cmd("end", "dtd-att-list")))
	case 4:
		return append(open, cmd("start", "cdata"), bad(cmd("start", "cdata"), cmd("start", "comment"), cmd("write", "comment"), cmd("end", "comment"), cmd("end", "elem"), cmd("write", "attr")))
	}
	return append(text, cmd("end", "elem"), bad(anywhere...))
}

func refuseCheck(c *RefuseCase, st *Stats) error {
	x := c.S.xml()
	r, err := tool(x, "ctester")
	if err != nil {
		return err
	}
	ctx := func() string {
		return fmt.Sprintf(" (%s)\nscript: %s\nstdout: %s\nstderr: %s", c.What, trunc(x, 1500), show(r.out), trunc(r.err, 500))
	}
	if r.crashed() {
		return fmt.Errorf("the runner crashes%s", ctx())
	}
	st.class("%s: %s", c.Want, c.What)
	st.nontrivial(len(c.S.Cmds) > 3)
	switch c.Want {
	case "refuse":
		if r.code == 0 {
			return fmt.Errorf("this is no script and the runner ends with status 0%s", ctx())
		}
		if r.out != "" {
			return fmt.Errorf("this is no script and the runner writes something%s", ctx())
		}
	case "fail":
		if r.code == 0 {
			return fmt.Errorf("libxml2 rejects a command and the runner ends with status 0%s", ctx())
		}
	case "run":
		s := *c.S
		s.Root, s.RootAttr, s.Junk = "", "", ""
		p, err := tool(s.xml(), "ctester")
		if err != nil {
			return err
		}
		if r.code != p.code || r.out != p.out {
			return fmt.Errorf("status %d, and %d with the plain script, which gives %s%s", r.code, p.code, show(p.out), ctx())
		}
		if r.code == 0 {
			st.class("run to the end")
		}
	}
	return nil
}

// pairCase is one action with one kind, alone in a script.
func pairCase(i int) *RefuseCase {
	acts := []string{"start", "end", "write"}
	kinds := append(append([]string{}, ctKinds...), "element", "att", "")
	k := &Cmd{A: acts[i%3], K: kinds[i/3%len(kinds)], Name: new(Str)}
	*k.Name = "a"
	c := &RefuseCase{S: &Script{Cmds: []*Cmd{{A: "start", K: "elem", Name: k.Name}, k}}, Want: "refuse", What: k.A + " " + k.K}
	if k.K != "" && strings.Contains(ctTakes[k.A], " "+k.K+" ") {
		c.Want = "run"
	}
	return c
}

func init() {
	checks["C37"] = &propCheck{
		rule:        "scripts both runners support with one change: cut off, another root, marked as not for this runner, something other than commands among them, an unknown action or kind, a kind the action does not take (every pair), a boolean that is none, a command libxml2's writer rejects; and with comments, blanks and a mark that change nothing; non-trivial: more than three commands",
		assumptions: []string{"booleans with upper-case letters, unknown parameters and modes, and what is written before a rejected command are not specified"},
		setup:       setupTools(false, "ctester"),
		subs: []sub{
			esub[*RefuseCase]{id: "pairs", count: func(bool) int { return 3 * 19 }, at: pairCase, check: refuseCheck},
			gsub[*RefuseCase]{id: "scripts", quick: 1500, deep: 100000, gen: (*G).refuseCase, check: refuseCheck},
		},
	}
	checks["C35"] = &propCheck{
		rule:        "the generator of the name table run where it finds nothing, the right table, one cut, changed or lengthened at a drawn place, something else, a link or a directory, once or several times; then every character of the basic plane in three places of a name against the XML grammar, with the writer compiled with the generated table; non-trivial: it finds something that is not the right table, or a block with name characters",
		assumptions: []string{"an existing table keeps its permissions; the generator may write", "names with characters outside the basic multilingual plane or U+FFFD are a recorded finding of C21 and are not compared"},
		setup:       tablesSetup,
		subs: []sub{
			esub[*NameCase]{id: "names", count: func(bool) int { return 256 }, at: func(i int) *NameCase { return &NameCase{i} }, check: tableNames},
			gsub[*TableCase]{id: "states", quick: 400, deep: 40000, gen: func(g *G) *TableCase {
				c := &TableCase{Prior: pick(g, "absent", "empty", "same", "cut", "cut", "byte", "byte", "byte", "tail", "head", "other", "link", "dir"), At: g.n(1 << 20), Mode: pick(g, uint32(0o644), 0o600, 0o444, 0o664), Runs: g.n(3)}
				switch g.n(4) {
				case 0:
					c.At = g.n(60)
				case 1:
					c.At = -1 - g.n(60)
				}
				c.Bytes = Str(pick(g, "\n", " ", "x", "2", "1", "\x00", "\n\n", "// more\n", "0"))
				return c
			}, check: tableCheck},
		},
	}
	checks["C36"] = &propCheck{
		rule:        "calls of the five helpers with conditions known by construction: values built twice from one description or from one changed in one place, expressions made of literals, floats around the epsilon, nil, typed nil and other errors, messages with and without arguments; non-trivial: the condition does not hold, or a nested value",
		assumptions: []string{"nil against empty slices, infinite differences, expressions that do not compile and differences where rounding decides are not drawn or not compared"},
		subs: []sub{
			gsub[*HelperCase]{id: "calls", quick: 30000, deep: 3000000, gen: (*G).helperCase, check: helperCheck},
		},
	}
}
