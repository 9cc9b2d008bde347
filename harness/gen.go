package main

import (
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// G draws from rapid. rapid's own ranges lean heavily towards small values, so
// choices are built from single unbiased bits; all zero bits is the simplest case.
type G struct{ t *rapid.T }

var boolGen = rapid.Bool()

func (g *G) bit() bool { return boolGen.Draw(g.t, "b") }

func (g *G) bits(n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v <<= 1
		if g.bit() {
			v |= 1
		}
	}
	return v
}

// n is nearly uniform in [0,k).
func (g *G) n(k int) int {
	if k <= 1 {
		return 0
	}
	b := 0
	for 1<<b < k {
		b++
	}
	if 1<<b == k {
		return int(g.bits(b))
	}
	return int(g.bits(b+2) % uint64(k))
}

// in is nearly uniform in [lo,hi].
func (g *G) in(lo, hi int) int { return lo + g.n(hi-lo+1) }

// chance is true about num times in den.
func (g *G) chance(num, den int) bool { return g.n(den) >= den-num }

// few is small most of the time: 0..max, halving odds.
func (g *G) few(max int) int {
	k := 0
	for k < max && g.bit() {
		k++
	}
	return k
}

func pick[T any](g *G, xs ...T) T { return xs[g.n(len(xs))] }

func (g *G) styles(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = int(g.bits(5))
	}
	return out
}

// dictionary of the literals in the code under test: constants a change makes
// special are likely to appear there.
var repoDict = sync.OnceValue(func() []string {
	seen := map[string]bool{}
	var files []string
	for _, p := range []string{"*.go", "tester/gotester/*.go"} {
		m, _ := filepath.Glob(filepath.Join("/repo", p))
		files = append(files, m...)
	}
	str := regexp.MustCompile("\"(?:[^\"\\\\\n]|\\\\.)*\"|`[^`\n]*`|'(?:[^'\\\\\n]|\\\\.[^'\n]*)'")
	hex := regexp.MustCompile(`\b0x[0-9A-Fa-f]{2,6}\b`)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, "tables_gen.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, m := range str.FindAllString(string(b), -1) {
			var s string
			var err error
			if m[0] == '\'' {
				var r rune
				r, _, _, err = strconv.UnquoteChar(m[1:len(m)-1], '\'')
				s = string(r)
			} else {
				s, err = strconv.Unquote(m)
			}
			if err == nil && s != "" && len(s) <= 16 && !strings.Contains(s, "xmlwriter") {
				seen[s] = true
			}
		}
		for _, m := range hex.FindAllString(string(b), -1) {
			if v, err := strconv.ParseUint(m[2:], 16, 32); err == nil && v >= 0x80 {
				for _, d := range []int64{-1, 0, 1} {
					seen[string(rune(int64(v)+d))] = true
				}
			}
		}
	}
	var out []string
	for s := range seen {
		out = append(out, s)
	}
	sort.Strings(out)
	if len(out) == 0 {
		out = []string{"x"}
	}
	return out
})

var specials = []string{
	"<", ">", "&", "\"", "'", "]]>", "]", "]]", ">", "--", "-", "->", "-->", "<!--", "<![CDATA[", "?>", "?", "<?", "</", "/>", "=", "%", ";",
	"&amp;", "&lt;", "&#10;", "&#x0;", "&x;", " ", "\t", "\n", "\r", "\r\n", "\n\r", "  ", "{", "}", "|", "\\", "\u0085", "\u2028", "`", "~", "^", "!", "xml", "xmlns", "CDATA",
}

var boundary = []rune{
	0x7E, 0x7F, 0x80, 0x84, 0x85, 0x86, 0x9F, 0xA0, 0xB7, 0xC0, 0xD7, 0xE9, 0xF7, 0xFF, 0x100, 0x2FF, 0x300, 0x36F, 0x370, 0x37D, 0x37E, 0x37F, 0x7FF, 0x800,
	0x1FFF, 0x2000, 0x200C, 0x200D, 0x200E, 0x203F, 0x2040, 0x2041, 0x206F, 0x2070, 0x218F, 0x2190, 0x2BFF, 0x2C00, 0x2FEF, 0x2FF0, 0x3000, 0x3001, 0x4E00, 0xD7FF,
	0xE000, 0xF8FF, 0xF900, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFEFF, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10348, 0x1F600, 0x1FFFD, 0x1FFFE, 0x1FFFF, 0x20000,
	0x2FFFE, 0x7FFFF, 0x80000, 0xEFFFF, 0xF0000, 0xFFFFD, 0xFFFFE, 0x100000, 0x10FFFD, 0x10FFFE, 0x10FFFF,
}

var invalidBytes = []string{"\xff", "\x80", "\xc0\x80", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xfe", "\xbf"}

var words = []string{"a", "b", "text", "x", "foo bar", "é", "日本", "0", "1.5", "z", "The quick", "👍"}

// str draws a string from fragments. wild adds characters XML cannot represent.
func (g *G) str(wild bool) string {
	var b strings.Builder
	for i, n := 0, g.frags(); i < n; i++ {
		switch g.n(8) {
		case 0, 1:
			b.WriteString(words[g.n(len(words))])
		case 2, 3:
			b.WriteString(specials[g.n(len(specials))])
		case 4:
			b.WriteRune(boundary[g.n(len(boundary))])
		case 5:
			d := repoDict()
			b.WriteString(d[g.n(len(d))])
		case 6:
			if wild {
				if g.bit() {
					b.WriteString(invalidBytes[g.n(len(invalidBytes))])
				} else {
					b.WriteByte(byte(g.n(0x20)))
				}
			} else {
				b.WriteByte(byte(0x20 + g.n(0x5F)))
			}
		case 7:
			switch g.n(4) {
			case 0:
				b.WriteByte(byte(0x20 + g.n(0x5F)))
			case 1:
				b.WriteRune(rune(g.n(0x3000)))
			case 2:
				r := rune(g.n(0x110000))
				if r >= 0xD800 && r < 0xE000 {
					r = 'q'
				}
				b.WriteRune(r)
			case 3:
				b.WriteString(strings.Repeat(pick(g, "a", "-", "]", "&", "<", "é", "👍", "\"", "ab "), g.in(1, 20)))
			}
		}
	}
	return b.String()
}

func (g *G) frags() int {
	switch g.n(8) {
	case 0:
		return 0
	case 1, 2, 3:
		return 1
	case 4, 5:
		return 2
	case 6:
		return g.in(3, 6)
	}
	return g.in(3, 14)
}

var longSizes = []int{100, 511, 512, 513, 1023, 1024, 1025, 2000, 2046, 2047, 2048, 2049, 2060, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 65535, 65536, 66000}

// long draws a long string around the sizes where buffers end.
func (g *G) long(wild bool) string {
	n := longSizes[g.n(len(longSizes))] + g.in(-4, 4)
	unit := pick(g, "a", "abcdefghij", "é", "日", "👍", "a&b<c>\"d", "-a", "] ", "\n", "x\r\n", "0123456789 ")
	if g.bit() {
		unit += g.str(wild)
	}
	if len(unit) == 0 {
		unit = "a"
	}
	s := strings.Repeat(unit, n/len(unit)+1)
	if g.bit() {
		s = s[:n]
	}
	if g.bit() {
		s = g.str(wild) + s
	}
	if g.bit() {
		s += g.str(wild)
	}
	return s
}

func mapRunes(s string, f func(r rune, width int) (string, bool)) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if o, ch := f(r, w); ch {
			b.WriteString(o)
		} else {
			b.WriteString(s[i : i+w])
		}
		i += w
	}
	return b.String()
}

// representable replaces what XML cannot represent by U+FFFD, as the writer must.
func representable(s string) string {
	return mapRunes(s, func(r rune, w int) (string, bool) { return "\uFFFD", !isChar(r) || r == utf8.RuneError && w == 1 })
}

// onlyChars drops what the character check rejects.
func onlyChars(s string, strict bool) string {
	return mapRunes(s, func(r rune, w int) (string, bool) {
		return "", !isChar(r) || r == utf8.RuneError && w == 1 || strict && isDiscouraged(r)
	})
}

func (g *G) commentText() string {
	s := onlyChars(g.maybeLong(false), true)
	for strings.Contains(s, "--") {
		s = strings.ReplaceAll(s, "--", "-+")
	}
	if strings.HasSuffix(s, "-") {
		s += "."
	}
	return s
}

func (g *G) cdataText() string {
	return strings.ReplaceAll(onlyChars(g.maybeLong(false), true), "]]>", "]]+>")
}

func (g *G) piText() string {
	s := onlyChars(g.str(false), true)
	for strings.Contains(s, "?>") {
		s = strings.ReplaceAll(s, "?>", "?+>")
	}
	return s
}

func (g *G) maybeLong(wild bool) string {
	if g.chance(1, 64) {
		return g.long(wild)
	}
	return g.str(wild)
}

// chunks splits s at arbitrary byte positions between runes.
func (g *G) chunks(s string) []Str {
	var out []Str
	for i, n := 0, g.few(4); i < n; i++ {
		k := 0
		if len(s) > 0 {
			k = g.n(len(s) + 1)
			for k < len(s) && !utf8.RuneStart(s[k]) {
				k++
			}
		}
		out = append(out, Str(s[:k]))
		s = s[k:]
	}
	return append(out, Str(s))
}

var nameStarts = []rune{'a', 'b', 'c', 'e', 'x', 'A', 'Z', '_', 'é', 0xC0, 0xD6, 0xD8, 0xF6, 0xF8, 0x2FF, 0x370, 0x37D, 0x37F, 0x3B1, 0x430, 0x5D0, 0x1FFF, 0x200C, 0x200D,
	0x2070, 0x218F, 0x2C00, 0x2FEF, 0x3001, 0x4E00, 0xAC00, 0xD7FF, 0xF900, 0xFDCF, 0xFDF0, 0xFFFC}
var nameRest = []rune{'a', 'd', 'z', 'Q', '0', '9', '-', '.', '_', 0xB7, 0x300, 0x36F, 0x203F, 0x2040, 'é', 0x4E00}

// ncname draws a valid name without a colon.
func (g *G) ncname() string {
	if g.chance(3, 4) {
		return pick(g, "a", "b", "c", "elem", "x1", "e", "row", "Item", "f-g", "h.i", "_j", "k0", "data", "n", "long-name_01", "t")
	}
	var b strings.Builder
	if g.chance(1, 3) {
		d := repoDict()
		for i := 0; i < 4; i++ {
			s := d[g.n(len(d))]
			if isWriterName(s) && !strings.Contains(s, ":") && !strings.HasPrefix(strings.ToLower(s), "xml") {
				return s
			}
		}
	}
	b.WriteRune(nameStarts[g.n(len(nameStarts))])
	for i, n := 0, g.few(6); i < n; i++ {
		b.WriteRune(nameRest[g.n(len(nameRest))])
	}
	if g.chance(1, 24) {
		b.WriteString(strings.Repeat(pick(g, "n", "é", "名"), g.in(20, 3000)))
	}
	s := b.String()
	if strings.HasPrefix(strings.ToLower(s), "xml") {
		return "n" + s
	}
	return s
}

// isWriterName is the writer's documented notion of a name: an XML name in the
// basic multilingual plane (see the recorded finding about the rest).
func isWriterName(s string) bool {
	if !isXMLName(s) {
		return false
	}
	for _, r := range s {
		if r > 0xFFFF || r == 0xFFFD {
			return false
		}
	}
	return true
}

// isFindingName: a valid XML name that the name check is known to reject.
func isFindingName(s string) bool { return isXMLName(s) && !isWriterName(s) }

// badName draws a non-empty string which is not an XML name.
func (g *G) badName() string {
	for i := 0; i < 8; i++ {
		n := g.ncname()
		bad := pick(g, " ", "<", ">", "\"", "'", "&", "=", "/", "\n", "\x00", "\xff", "\uFFFE", "\u2028", "\u00D7", "\u037E", "!", "\x7f", "\xc3", ",", "\u3000", "\u2190")
		switch g.n(4) {
		case 0:
			n = bad + n
		case 1:
			n += bad
		case 2:
			k := g.n(len(n) + 1)
			n = n[:k] + bad + n[k:]
		case 3:
			n = pick(g, "-", ".", "0", "9", "\u00B7", "\u0300", "\u203F") + n
		}
		if !isXMLName(n) && n != "" {
			return n
		}
	}
	return "0bad"
}

func sortKV(a []KV) { sort.Slice(a, func(i, j int) bool { return a[i].K < a[j].K }) }
