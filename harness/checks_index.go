package main

// The check on the tester's index of XML files.

import (
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// IndexCase is a list of files to index, and what to ask the index.
type IndexCase struct {
	Files []*IndexFile
	Field int // of the query that selects by a limit
	Limit int
	Flags int
	Gone  bool // a file that does not exist is listed as well
	Twice bool // the first file is listed again
	NoEOL bool // the list does not end with a newline
}

type IndexFile struct {
	Name  Str
	Src   *SrcCase `json:",omitempty"`
	Copy  int      `json:",omitempty"` // 1-based: the content of an earlier file
	Spoil int      `json:",omitempty"` // 1: cut off, 2: followed by junk
	Pad   int      `json:",omitempty"` // white space up to this length
	Ents  []Str    `json:",omitempty"` // instead of Src: references to these, declared entities
	Form  int      `json:",omitempty"` // and where they are
}

// entities spells a document with references to declared entities.
func (f *IndexFile) entities() string {
	var b strings.Builder
	b.WriteString("<!DOCTYPE r [")
	seen := map[Str]bool{}
	for _, n := range f.Ents {
		if !seen[n] && f.Form&32 == 0 && n != "amp" && n != "lt" {
			fmt.Fprintf(&b, "<!ENTITY %s \"%s\">", n, []string{"", "v", "&#60;b/&#62;"}[f.Form%3])
		}
		seen[n] = true
	}
	if f.Form&32 != 0 { // all are declared elsewhere
		b.Reset()
		b.WriteString("<!DOCTYPE r SYSTEM \"r.dtd\" [")
	}
	b.WriteString("]><r>")
	for i, n := range f.Ents {
		switch (f.Form/3 + i) % 5 {
		case 0:
			fmt.Fprintf(&b, "&%s;", n)
		case 1:
			fmt.Fprintf(&b, "text &%s; text", n)
		case 2:
			fmt.Fprintf(&b, "<b>&%s;</b>", n)
		case 3:
			fmt.Fprintf(&b, "<!--&%s;--><b/>", n)
		case 4:
			fmt.Fprintf(&b, "<?p &%s;?>;&%s;&#65;", n, n)
		}
	}
	b.WriteString("</r>")
	return b.String()
}

func (g *G) indexCase() *IndexCase {
	c := &IndexCase{Field: g.n(len(indexCounts)), Limit: g.n(4), Flags: g.n(8), Gone: g.chance(1, 6), Twice: g.chance(1, 6), NoEOL: g.chance(1, 4)}
	n := 1 + g.n(5)
	for i := 0; i < n; i++ {
		f := &IndexFile{Name: Str(pick(g, "f", "007", "1e3", "1.50", "a b", "é", "x'y", "<f>", "-d", "0x1F", "%s") + fmt.Sprint(i))}
		if g.chance(1, 3) {
			f.Name = Str(fmt.Sprintf("%03d", i+1))
		}
		if i > 0 && g.chance(1, 5) {
			f.Copy = 1 + g.n(i)
		} else if g.chance(1, 4) {
			f.Form = g.n(64)
			for j := g.n(6); j >= 0; j-- {
				f.Ents = append(f.Ents, Str(pick(g, "a", "b", "x", "x1", "_", "ent", "é", "amp", "lt", "long-entity.name")))
			}
		} else {
			f.Src = g.srcCase(false)
		}
		if g.chance(1, 8) {
			f.Spoil = 1 + g.n(2)
		}
		if g.chance(1, 8) {
			f.Pad = pick(g, 8190, 8191, 8192, 8193, 16383, 16384, 16385)
		}
		c.Files = append(c.Files, f)
	}
	return c
}

func (c *IndexCase) content(i int) string {
	f := c.Files[i]
	s := ""
	if f.Copy > 0 && f.Copy <= i {
		s = c.content(f.Copy - 1)
	} else if len(f.Ents) > 0 {
		s = f.entities()
	} else if f.Src != nil {
		s = f.Src.bom() + f.Src.text(0)
	} else {
		s = "<a/>"
	}
	switch f.Spoil {
	case 1:
		s = strings.TrimRight(s, " \n\t\r")
		s = s[:strings.LastIndex(s, "<")+1]
	case 2:
		s += "<"
	}
	if n := f.Pad - len(s); n > 0 {
		s += strings.Repeat("\n", n)
	}
	return s
}

// ents lists the entities that a file's text refers to.
func (c *IndexCase) ents(i int) []Str {
	if f := c.Files[i]; f.Copy > 0 && f.Copy <= i {
		return c.ents(f.Copy - 1)
	}
	return c.Files[i].Ents
}

// indexCounts are the numeric columns, in the order of indexRecord's counts.
var indexCounts = []string{"bytes", "elems", "nselems", "attrs", "nsattrs", "comments", "comment_bytes", "comment_max", "cdatas", "pis", "dtds_public", "dtds_system", "dtd_elems", "dtd_attlists", "dtd_entities", "entity_refs", "entity_refs_dec", "entity_refs_hex", "notations", "max_depth"}

type indexRecord struct {
	ok       bool
	counts   map[string]int
	encoding string
	version  string
	hash     string
}

// indexOf says what the index should hold about a file that refers to the
// given entities.
func indexOf(src string, ents []Str) *indexRecord {
	r := &indexRecord{counts: map[string]int{}, hash: fmt.Sprintf("%x", sha256.Sum256([]byte(src)))}
	evs, err := parseXMLWith(strings.TrimPrefix(src, "\ufeff"), 0, ents)
	if err != nil {
		return r
	}
	r.ok = true
	n := r.counts
	for _, k := range indexCounts {
		n[k] = 0
	}
	n["bytes"] = len(src)
	depth, marked := 0, false
	for _, e := range evs {
		switch e.T {
		case "decl":
			for _, a := range e.A {
				switch a.K {
				case "version":
					r.version = a.V
				case "encoding":
					r.encoding = a.V
				}
			}
		case "start":
			depth++
			n["max_depth"] = max(n["max_depth"], depth)
			n[nsPart("elems", e.Name)]++
			for _, a := range e.A {
				n[nsPart("attrs", a.K)]++
			}
			for _, a := range e.NS {
				if a.K == "" {
					n["attrs"]++
				} else {
					n["nsattrs"]++
				}
			}
		case "end":
			depth--
		case "comment":
			n["comments"]++
			n["comment_bytes"] += len(e.S)
			n["comment_max"] = max(n["comment_max"], len(e.S))
		case "cdata":
			n["cdatas"]++
			marked = marked || strings.Contains(e.S, "&")
		case "pi":
			n["pis"]++
		case "doctype":
			switch {
			case e.Pub == nil:
				delete(n, "dtds_system") // how one without identifiers counts is not specified
			case strings.HasPrefix(e.Pub.K, "PUBLIC"):
				n["dtds_public"]++
			default:
				n["dtds_system"]++
			}
		case "elemdecl":
			n["dtd_elems"]++
		case "attlist":
			n["dtd_attlists"] += len(e.A)
		case "entity":
			n["dtd_entities"]++
		case "notation":
			n["notations"]++
		}
	}
	for _, ref := range contentRefs(src) {
		switch {
		case strings.HasPrefix(ref, "&#x"):
			n["entity_refs_hex"]++
		case strings.HasPrefix(ref, "&#"):
			n["entity_refs_dec"]++
		default:
			n["entity_refs"]++
		}
	}
	if marked { // the text of a CDATA section may look like a reference
		delete(n, "entity_refs")
		delete(n, "entity_refs_dec")
		delete(n, "entity_refs_hex")
	}
	return r
}

func nsPart(k, name string) string {
	if strings.Contains(name, ":") {
		return "ns" + k
	}
	return k
}

// contentRefs lists the references in the text of a well-formed document.
func contentRefs(s string) []string {
	var refs []string
	to := func(end string) {
		i := strings.Index(s, end)
		if i < 0 {
			harnessFail("contentRefs: no %q", end)
		}
		s = s[i+len(end):]
	}
	for s != "" {
		switch {
		case strings.HasPrefix(s, "<!--"):
			s = s[4:]
			to("-->")
		case strings.HasPrefix(s, "<![CDATA["):
			to("]]>")
		case strings.HasPrefix(s, "<?"):
			to("?>")
		case strings.HasPrefix(s, "<"): // a tag or the document type
			level := 0
			for done := false; !done; {
				switch {
				case s[0] == '"' || s[0] == '\'':
					q := s[:1]
					s = s[1:]
					to(q)
					continue
				case level > 0 && strings.HasPrefix(s, "<!--"):
					s = s[4:]
					to("-->")
					continue
				case level > 0 && strings.HasPrefix(s, "<?"):
					to("?>")
					continue
				case s[0] == '<':
					level++
				case s[0] == '>':
					level--
					done = level == 0
				}
				s = s[1:]
			}
		case s[0] == '&':
			i := strings.Index(s, ";")
			refs = append(refs, s[:i+1])
			s = s[i+1:]
		default:
			s = s[1:]
		}
	}
	return refs
}

func sqlStr(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func sqlEq(col, v string) string {
	if v == "" {
		return col + " IS NULL"
	}
	return col + "=" + sqlStr(v)
}

// where selects the file's record.
func (r *indexRecord) where(name string) string {
	p := []string{"file=" + sqlStr(name)}
	if !r.ok {
		return strings.Join(append(p, "status<>0"), " AND ")
	}
	p = append(p, "hash="+sqlStr(r.hash), "status=0", "msg IS NULL", sqlEq("version", r.version), sqlEq("encoding", r.encoding), sqlEq("raw_encoding", r.encoding))
	for _, k := range indexCounts {
		if v, ok := r.counts[k]; ok {
			p = append(p, fmt.Sprintf("%s=%d", k, v))
		}
	}
	return strings.Join(p, " AND ")
}

func indexCheck(c *IndexCase, st *Stats) error {
	dir, err := os.MkdirTemp("", "index")
	if err != nil {
		harnessFail("%v", err)
	}
	defer os.RemoveAll(dir)
	run := func(in string, args ...string) (string, error) {
		r, err := toolIn(dir, in, "indexer", args...)
		if err != nil {
			return "", err
		}
		if r.code != 0 {
			return "", fmt.Errorf("indexer %q: exit status %d: %s", args, r.code, trunc(r.err, 800))
		}
		return r.out, nil
	}
	var names []string
	recs := map[string]*indexRecord{}
	srcs := map[string]string{}
	for i, f := range c.Files {
		src := c.content(i)
		if len(src) < 4 {
			continue // such a file is not taken for text
		}
		name := string(f.Name)
		if srcs[name] != "" {
			continue
		}
		if err := os.WriteFile(filepath.Join(dir, name), []byte(src), 0o644); err != nil {
			harnessFail("%v", err)
		}
		if !plainText(dir, name) {
			st.class("not a text for libmagic")
			continue
		}
		names = append(names, name)
		srcs[name] = src
		recs[name] = indexOf(src, c.ents(i))
		if recs[name].ok != (f.Spoil == 0 && !c.copiesSpoilt(i)) {
			harnessFail("spoil %d: parsed %v: %s", f.Spoil, recs[name].ok, show(src))
		}
	}
	if len(names) == 0 {
		return nil
	}
	list := append([]string{}, names...)
	if c.Gone {
		list = append(append([]string{}, list[0], "no-such-file"), list[1:]...)
	}
	if c.Twice {
		list = append(list, names[0])
	}
	in := strings.Join(list, "\n")
	if !c.NoEOL {
		in += "\n"
	}
	if _, err := run(in, "index", "db"); err != nil {
		return err
	}
	dump := func() string {
		var b strings.Builder
		for _, n := range names {
			fmt.Fprintf(&b, "%q: %s\n", n, show(srcs[n]))
		}
		return b.String()
	}
	query := func(args ...string) ([]string, error) {
		out, err := run("", append([]string{"query"}, args...)...)
		if err != nil {
			return nil, err
		}
		var got []string
		if out != "" {
			got = strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		}
		sort.Strings(got)
		return got, nil
	}
	sort.Strings(names)
	// every record, and no other
	var all []string
	for _, n := range names {
		all = append(all, "("+recs[n].where(n)+")")
	}
	got, err := query("-a", "db", strings.Join(all, " OR "))
	if err != nil {
		return err
	}
	if strings.Join(got, "\n") != strings.Join(names, "\n") {
		var bad []string
		for _, n := range names {
			for _, p := range strings.Split(recs[n].where(n), " AND ")[1:] {
				g, err := query("-a", "db", "file="+sqlStr(n)+" AND "+p)
				if err != nil {
					return err
				}
				if len(g) != 1 {
					bad = append(bad, fmt.Sprintf("%q: not %s", n, p))
				}
			}
		}
		return fmt.Errorf("the index does not describe the files: the records found are those of %q of %q\n%s\nfiles:\n%s", got, names, strings.Join(bad, "\n"), dump())
	}
	// a selection, with and without duplicates and files that do not parse
	args := []string{"query"}
	errs, dupes := false, false
	for i, f := range []string{"-a", "-e", "-d"} {
		if c.Flags>>i&1 == 1 {
			args = append(args, f)
			errs = errs || i != 2
			dupes = dupes || i != 1
		}
	}
	for _, n := range names {
		dupes = dupes || !recs[n].ok && errs // the hash of such a file is not specified
	}
	if dupes && len(args) > 1 && args[len(args)-1] == "-e" {
		args = append(args, "-d")
	}
	col := indexCounts[c.Field%len(indexCounts)]
	clause := fmt.Sprintf("%s > %d OR status <> 0", col, c.Limit)
	limit := c.Limit
	last := []string{"db", clause}
	if limit == 3 { // no clause selects everything
		limit, last, clause = -1, last[:1], ""
		st.class("query without a clause")
	}
	if got, err = query(append(args[1:], last...)...); err != nil {
		return err
	}
	groups := map[string][]string{} // what may be printed for each content
	for _, n := range names {
		r := recs[n]
		if !r.ok && !errs {
			continue
		}
		if r.ok {
			v, known := r.counts[col]
			if !known {
				return nil
			}
			if v <= limit {
				continue
			}
		}
		k := r.hash
		if dupes {
			k = n
		}
		groups[k] = append(groups[k], n)
	}
	left := map[string]bool{}
	for k := range groups {
		left[k] = true
	}
	for _, n := range got {
		r := recs[n]
		if r == nil {
			return fmt.Errorf("query %q %q prints %q, which is not a listed file\nfiles:\n%s", args, clause, n, dump())
		}
		k := r.hash
		if dupes {
			k = n
		}
		if !left[k] {
			return fmt.Errorf("query %q %q prints %q, which it should not (again)\nprinted: %q\nfiles:\n%s", args, clause, n, got, dump())
		}
		delete(left, k)
	}
	for k := range left {
		return fmt.Errorf("query %q %q does not print any of %q\nprinted: %q\nfiles:\n%s", args, clause, groups[k], got, dump())
	}
	st.Extra += 2
	st.class("files: %d", len(names))
	if len(got) > 0 && len(got) < len(names) {
		st.class("a query that selects")
	}
	for _, n := range names {
		if !recs[n].ok {
			st.class("a file that does not parse")
		}
		if len(srcs[n]) > 8192 {
			st.class("longer than the read buffer")
		}
	}
	st.nontrivial(len(names) > 1)
	return nil
}

// plainText reports whether libmagic's built-in tests, which the indexer
// consults, take the file for a text: not so with DEL, or what may be CSV.
func plainText(dir, name string) bool {
	cmd := exec.Command("file", "-b", "--mime-type", "-m", "/dev/null", "--", name)
	cmd.Dir = dir
	out, err := cmd.Output()
	if err != nil {
		harnessFail("file: %v", err)
	}
	m := strings.TrimSpace(string(out))
	return m == "text/plain" || m == "application/xml"
}

func (c *IndexCase) copiesSpoilt(i int) bool {
	f := c.Files[i]
	if f.Copy > 0 && f.Copy <= i {
		return c.Files[f.Copy-1].Spoil != 0 || c.copiesSpoilt(f.Copy-1)
	}
	return false
}

func init() {
	checks["C32"] = &propCheck{
		rule:        "lists of generated documents, some copied, cut off or padded to the read buffer's size, indexed by the real indexer program; its records and a selection are asked for with its query command; non-trivial: more than one file",
		assumptions: []string{"UTF-8 documents that libmagic takes for text, by `file` (not those with DEL, or that look like CSV)", "how a document type without identifiers is counted, which of several files of equal content is printed, and references in documents with CDATA sections that contain '&' are not specified"},
		setup:       setupTools(false, "indexer"),
		subs: []sub{
			gsub[*IndexCase]{id: "index", quick: 600, deep: 20000, gen: (*G).indexCase, check: indexCheck},
		},
	}
}
