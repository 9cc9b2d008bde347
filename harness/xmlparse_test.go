package main

// Compares the strict parser's verdict with libxml2's on generated documents
// and small mutations of them. Run by hand: go test -run XMLLint -rapid.checks=20000

import (
	"os/exec"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func lint(s string) (bool, string) {
	cmd := exec.Command("xmllint", "--noout", "--nonet", "--huge", "-")
	cmd.Stdin = strings.NewReader(s)
	out, err := cmd.CombinedOutput()
	return err == nil, string(out)
}

func TestXMLLint(t *testing.T) {
	n, bad := 0, 0
	rapid.Check(t, func(t *rapid.T) {
		g := &G{t}
		c := g.srcCase(false)
		if c.M != nil {
			c.M.N %= 50
		}
		s := c.text(0)
		if g.chance(2, 3) {
			for i, k := 0, 1+g.n(2); i < k && s != ""; i++ {
				at := g.n(len(s))
				to := at + g.n(3)
				if to > len(s) {
					to = len(s)
				}
				s = s[:at] + pick(g, "", "", "<", ">", "&", ";", "&#1;", "&#x10FFFF;", "&#xFFFE;", `"`, "'", "--", "-", "]]>", "]", "?>", "?", "!", "=", " ", "/", "x", "\x00", "\x01", "\xff", "\uFFFE", "\uD7FF", "<!--", "-->", "<![CDATA[", "<?p?>", "<?xml?>", "&amp;", "&a;", "%", ":", "1", "é", "SYSTEM", "PUBLIC", "NDATA", "(", ")", "|", ",", "*", "#PCDATA", "#IMPLIED", "EMPTY", "<!DOCTYPE a>", "<b/>", "<b>", "</b>", "</a>", " a=''") + s[to:]
			}
		}
		_, err := parseXML(s, 0)
		ok, msg := lint(s)
		n++
		if err != nil {
			bad++
		}
		if strings.Contains(s, "\x00") {
			return // which ends the document for libxml2
		}
		if i := strings.Index(s, "<!DOCTYPE"); i >= 0 && len(s) > i+9 && !isSpace(s[i+9]) {
			return // libxml2 does not ask for the space
		}
		if strings.Contains(msg, "Fragment not allowed") || strings.Contains(msg, "Invalid URI") || strings.Contains(msg, "Failed to parse QName") || strings.Contains(msg, "Unsupported encoding") || strings.Contains(msg, "Unsupported version") {
			return // an error, but not one of well-formedness
		}
		if err != nil && strings.Contains(err.Error(), "undeclared entity") && strings.Contains(s, "<!DOCTYPE") {
			return // which may be declared elsewhere
		}
		if ok != (err == nil) {
			t.Fatalf("strict parser: %v\nxmllint: %v %s\n%q", err, ok, msg, s)
		}
	})
	t.Log(n, "documents,", bad, "not well-formed")
}
