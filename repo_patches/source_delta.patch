From 5246e4924281210a25283337b322447d78a48968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 01/48] fix: do not use a stale node after Content grew the
 node stack

Ending an element whose deferred Content grew Writer.nodes read the child
count from the old backing array, so the closing tag was omitted.
---
 node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node.go b/node.go
index f26ee9e..6c23300 100644
--- a/node.go
+++ b/node.go
@@ -143,6 +143,8 @@ func (n *node) opened(w *Writer) error {
 		panic(nil)
 	}
 	if w.Indenter != nil {
+		// opening may have written children and reallocated the stack
+		n = &w.nodes[w.current]
 		w.last = Event{n.state, n.kind, n.children}
 	}
 	return err
@@ -156,6 +158,8 @@ func (n *node) end(w *Writer) error {
 		if err := w.nodes[w.current].opened(w); err != nil {
 			return err
 		}
+		// opening may have written children and reallocated the stack
+		n = &w.nodes[w.current]
 	}
 
 	n.state = StateEnded
-- 
2.43.0


From c92520e24d1298f136a2d91b02f9b27c7a84b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:15 +0000
Subject: [PATCH 02/48] fix: escape carriage returns in Text

An XML parser normalises a literal CR to LF, so it did not survive.
---
 printer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/printer.go b/printer.go
index cca62d5..3d3cc98 100644
--- a/printer.go
+++ b/printer.go
@@ -143,6 +143,9 @@ func (p printer) EscapeString(s string) error {
 			esc = escLt
 		case '>':
 			esc = escGt
+		case '\r':
+			// a literal CR would be normalised to LF by an XML parser
+			esc = escCr
 		default:
 			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
 				esc = escFffd
-- 
2.43.0


From dfe3dcef59b79bf9142976cebe83dfc5b10c4cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:17 +0000
Subject: [PATCH 03/48] fix: return the error from opening the parent node

Writing a child silently dropped any error raised by the deferred Content
or Attrs of its parent.
---
 writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/writer.go b/writer.go
index ee9c6dd..ee6037e 100644
--- a/writer.go
+++ b/writer.go
@@ -484,7 +484,9 @@ func (w *Writer) checkParent(nodeFlags nodeFlag) error {
 }
 
 func (w *Writer) writeBeginNext(kind NodeKind) error {
-	w.Next()
+	if err := w.Next(); err != nil {
+		return err
+	}
 	return w.writeBeginCur(kind)
 }
 
-- 
2.43.0


From 8708aef40ed4449e2e4dad9ebf065a4eddaf0743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 04/48] fix: keep the last indent event of deferred Content

Opening a node overwrote the last event recorded by the children in its
Content, so indentation was inserted next to text.
---
 node.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/node.go b/node.go
index 6c23300..a15eaf7 100644
--- a/node.go
+++ b/node.go
@@ -123,6 +123,7 @@ func (n *node) opened(w *Writer) error {
 		if err := w.writeIndent(ev); err != nil {
 			return err
 		}
+		w.last = ev
 	}
 
 	switch n.kind {
@@ -142,11 +143,6 @@ func (n *node) opened(w *Writer) error {
 		// FIXME
 		panic(nil)
 	}
-	if w.Indenter != nil {
-		// opening may have written children and reallocated the stack
-		n = &w.nodes[w.current]
-		w.last = Event{n.state, n.kind, n.children}
-	}
 	return err
 }
 
-- 
2.43.0


From 7266530dae2fa2f7c5241f4d38bf022bd66850dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:28 +0000
Subject: [PATCH 05/48] fix: reject '--' in a comment across content chunks and
 its closer

---
 node.go  |  3 +++
 nodes.go | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/node.go b/node.go
index a15eaf7..bac3bec 100644
--- a/node.go
+++ b/node.go
@@ -64,6 +64,9 @@ type node struct {
 	// of an element if the element only contains cdata or comments
 	hasIndenter bool
 
+	// the content of the comment written so far ends with '-'
+	endsWithDash bool
+
 	// bogus tagged union, this keeps things from escaping to the heap
 	kind       NodeKind
 	flag       nodeFlag
diff --git a/nodes.go b/nodes.go
index 2dd7fd0..1593e23 100644
--- a/nodes.go
+++ b/nodes.go
@@ -18,6 +18,9 @@ func (t Raw) write(w *Writer) error {
 		return err
 	}
 	w.printer.WriteString(string(t))
+	if w.current >= 0 && t != "" {
+		w.nodes[w.current].endsWithDash = false
+	}
 	if w.Indenter != nil {
 		w.last = Event{StateEnded, RawNode, 0}
 	}
@@ -78,6 +81,13 @@ func (c CommentContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CommentContentNode); err != nil {
 		return err
 	}
+	if w.current >= 0 && s != "" {
+		n := &w.nodes[w.current]
+		if w.Enforce && n.endsWithDash && s[0] == '-' {
+			return fmt.Errorf("xmlwriter: comment may not contain '--'")
+		}
+		n.endsWithDash = s[len(s)-1] == '-'
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
@@ -133,6 +143,9 @@ func (c Comment) opened(n *node, w *Writer, prev NodeState) error {
 }
 
 func (c Comment) end(n *node, w *Writer, prev NodeState) error {
+	if w.Enforce && n.endsWithDash {
+		return fmt.Errorf("xmlwriter: comment may not end with '-'")
+	}
 	w.printer.WriteString("-->")
 	return w.printer.cachedWriteError()
 }
-- 
2.43.0


From 970e92070bee087f7490bfb1551b7bbe5a810877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 06/48] fix: reject ']]>' in a cdata section across content
 chunks

---
 node.go  |  3 +++
 nodes.go | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/node.go b/node.go
index bac3bec..dda3361 100644
--- a/node.go
+++ b/node.go
@@ -67,6 +67,9 @@ type node struct {
 	// the content of the comment written so far ends with '-'
 	endsWithDash bool
 
+	// how many ']' the content of the cdata written so far ends with
+	endBrackets int
+
 	// bogus tagged union, this keeps things from escaping to the heap
 	kind       NodeKind
 	flag       nodeFlag
diff --git a/nodes.go b/nodes.go
index 1593e23..a4452ea 100644
--- a/nodes.go
+++ b/nodes.go
@@ -20,6 +20,7 @@ func (t Raw) write(w *Writer) error {
 	w.printer.WriteString(string(t))
 	if w.current >= 0 && t != "" {
 		w.nodes[w.current].endsWithDash = false
+		w.nodes[w.current].endBrackets = 0
 	}
 	if w.Indenter != nil {
 		w.last = Event{StateEnded, RawNode, 0}
@@ -174,6 +175,18 @@ func (c CDataContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CDataContentNode); err != nil {
 		return err
 	}
+	if w.current >= 0 && s != "" {
+		n := &w.nodes[w.current]
+		lead := len(s) - len(strings.TrimLeft(s, "]"))
+		if w.Enforce && n.endBrackets+lead >= 2 && strings.HasPrefix(s[lead:], ">") {
+			return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
+		}
+		if lead == len(s) {
+			n.endBrackets += lead
+		} else {
+			n.endBrackets = len(s) - len(strings.TrimRight(s, "]"))
+		}
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
-- 
2.43.0


From 843a381c803113dd8604d6e0ab3acd0d9bc592ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 07/48] fix: reject an attribute after its element's start tag
 has closed

It was written into the element's content as plain text.
---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index f81acbf..4157fbe 100644
--- a/attr.go
+++ b/attr.go
@@ -64,6 +64,9 @@ func (a Attr) write(w *Writer) error {
 		if err := w.checkParent(noNodeFlag | elemNodeFlag); err != nil {
 			return err
 		}
+		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
+			return fmt.Errorf("xmlwriter: attr must be written before the content of its element")
+		}
 	}
 
 	if w.Indenter != nil {
-- 
2.43.0


From 359270504a4768e6f4d0e1ece59f9f918051f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:18 +0000
Subject: [PATCH 08/48] fix: reject an attribute without a name

---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index 4157fbe..0e779a7 100644
--- a/attr.go
+++ b/attr.go
@@ -67,6 +67,9 @@ func (a Attr) write(w *Writer) error {
 		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
 			return fmt.Errorf("xmlwriter: attr must be written before the content of its element")
 		}
+		if a.Name == "" {
+			return fmt.Errorf("xmlwriter: attr name must not be empty")
+		}
 	}
 
 	if w.Indenter != nil {
-- 
2.43.0


From 39f8a155aa7aed9404457c2ce8d3bd80ee0a7964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 09/48] fix: exclude the discouraged characters when CheckChars
 is strict

The branch for them only ran for runes it could never match.
---
 check.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/check.go b/check.go
index 8163d50..3c24dfb 100644
--- a/check.go
+++ b/check.go
@@ -56,13 +56,8 @@ func CheckName(name string) error {
 // that unicode characters referenced in the note are also excluded.
 func CheckChars(chars string, strict bool) error {
 	for i, rn := range chars {
-		if rn == 0x9 || rn == 0xA || rn == 0xD ||
-			(rn >= 0x20 && rn <= 0xD7FF) ||
-			(rn >= 0xE000 && rn <= 0xFFFD) ||
-			(rn >= 0x10000 && rn <= 0x10FFFF) {
-			continue
-		}
-		if strict {
+		valid := isInCharacterRange(rn)
+		if valid && strict {
 			// Document authors are encouraged to avoid "compatibility
 			// characters", as defined in section 2.3 of [Unicode]. The
 			// characters defined in the following ranges are also discouraged.
@@ -76,9 +71,12 @@ func CheckChars(chars string, strict bool) error {
 				(rn >= 0xAFFFE && rn <= 0xAFFFF) || (rn >= 0xBFFFE && rn <= 0xBFFFF) || (rn >= 0xCFFFE && rn <= 0xCFFFF) ||
 				(rn >= 0xDFFFE && rn <= 0xDFFFF) || (rn >= 0xEFFFE && rn <= 0xEFFFF) || (rn >= 0xFFFFE && rn <= 0xFFFFF) ||
 				(rn >= 0x10FFFE && rn <= 0x10FFFF) {
-				continue
+				valid = false
 			}
 		}
+		if valid {
+			continue
+		}
 		return fmt.Errorf("xmlwriter: invalid chars at position %d: %c", i, rn)
 	}
 	return nil
-- 
2.43.0


From ab9b91c740a87422824316642e648fe963bf03b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 10/48] fix: reject invalid UTF-8 in CheckChars

---
 check.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/check.go b/check.go
index 3c24dfb..29307ab 100644
--- a/check.go
+++ b/check.go
@@ -2,6 +2,7 @@ package xmlwriter
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // CheckEncoding validates the characters in a Doc{} node's encoding="..."
@@ -57,6 +58,11 @@ func CheckName(name string) error {
 func CheckChars(chars string, strict bool) error {
 	for i, rn := range chars {
 		valid := isInCharacterRange(rn)
+		if rn == utf8.RuneError {
+			// distinguish U+FFFD itself from an invalid UTF-8 sequence
+			_, width := utf8.DecodeRuneInString(chars[i:])
+			valid = width > 1
+		}
 		if valid && strict {
 			// Document authors are encouraged to avoid "compatibility
 			// characters", as defined in section 2.3 of [Unicode]. The
-- 
2.43.0


From 3ae815afad8eb83c1a95394bdf343f7d67035c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 11/48] fix: retain the first error in ErrCollector.Do

A later Do call overwrote it.
---
 errs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errs.go b/errs.go
index fd50dc0..2788c81 100644
--- a/errs.go
+++ b/errs.go
@@ -112,6 +112,9 @@ func (e *ErrCollector) Set(err *error) {
 // that subsequent calls after the first error are safe to make.
 //
 func (e *ErrCollector) Do(errs ...error) {
+	if e.Err != nil {
+		return
+	}
 	for i, err := range errs {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
-- 
2.43.0


From ab3cba327d8e244668ddcdfec7663e94643c864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:25 +0000
Subject: [PATCH 12/48] fix: declare the default namespace for an Attr URI
 without a prefix

It was declared using the invalid name 'xmlns:'.
---
 elem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/elem.go b/elem.go
index eba5eb7..c26a8db 100644
--- a/elem.go
+++ b/elem.go
@@ -100,7 +100,11 @@ func (e Elem) opened(n *node, w *Writer, prev NodeState) error {
 	if len(e.namespaces) > 0 {
 		for i, ns := range e.namespaces {
 			if ns.written == false {
-				if err := w.printer.printAttr("xmlns:"+ns.prefix, ns.uri, w.Enforce); err != nil {
+				name := "xmlns"
+				if ns.prefix != "" {
+					name += ":" + ns.prefix
+				}
+				if err := w.printer.printAttr(name, ns.uri, w.Enforce); err != nil {
 					return err
 				}
 				n.elem.namespaces[i].written = true
-- 
2.43.0


From 0a071485198aa44e0faccd579bfb5238c668f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 13/48] fix: do not change the element when EndElemFull is
 rejected

---
 writer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/writer.go b/writer.go
index ee6037e..6e805d7 100644
--- a/writer.go
+++ b/writer.go
@@ -324,10 +324,17 @@ func (w *Writer) EndElem(name ...string) error { return w.End(ElemNode, name...)
 // the current node is not an Elem. It will always be closed using the full
 // element close style even if it contains no children: "<tag></tag>".
 func (w *Writer) EndElemFull(name ...string) error {
-	if w.current >= 0 {
-		w.nodes[w.current].elem.Full = true
+	if w.current < 0 {
+		return w.End(ElemNode, name...)
+	}
+	n := w.current
+	full := w.nodes[n].elem.Full
+	w.nodes[n].elem.Full = true
+	err := w.End(ElemNode, name...)
+	if err != nil {
+		w.nodes[n].elem.Full = full
 	}
-	return w.End(ElemNode, name...)
+	return err
 }
 
 // EndAny ends the current node, regardless of what kind of node it is.
-- 
2.43.0


From b076d83595458028a0d8c6ac5b760091ade917f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 14/48] fix: check the characters of PI content

---
 nodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodes.go b/nodes.go
index a4452ea..61031f7 100644
--- a/nodes.go
+++ b/nodes.go
@@ -397,6 +397,9 @@ func (p PI) write(w *Writer) error {
 		if strings.Index(p.Content, "?>") >= 0 {
 			return fmt.Errorf("xmlwriter: PI content may not contain '?>'")
 		}
+		if err := CheckChars(p.Content, w.StrictChars); err != nil {
+			return err
+		}
 	}
 
 	if err := w.writeBeginNext(PINode); err != nil {
-- 
2.43.0


From aef220bd4d17ad0542a681d136b3fc52970fa873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:30 +0000
Subject: [PATCH 15/48] fix: check the characters of system IDs and entity
 values

---
 printer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/printer.go b/printer.go
index 3d3cc98..b8d6f01 100644
--- a/printer.go
+++ b/printer.go
@@ -194,6 +194,9 @@ func (p printer) writeSystemID(systemID string, enforce bool) error {
 		if dq >= 0 && sq >= 0 {
 			return fmt.Errorf("xmlwriter: DTD system ID must only contain double or single quotes, not both")
 		}
+		if err := CheckChars(systemID, false); err != nil {
+			return err
+		}
 	}
 	var qc byte = '"'
 	if dq >= 0 {
@@ -220,6 +223,9 @@ func (p printer) writeEntityValue(value string, enforce bool) error {
 		if dq >= 0 && sq >= 0 {
 			return fmt.Errorf("xmlwriter: entity value must only contain double or single quotes, not both")
 		}
+		if err := CheckChars(value, false); err != nil {
+			return err
+		}
 	}
 
 	p.WriteByte(qc)
-- 
2.43.0


From cd4d549d372bddabbb541493d2d255cec9ce5df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:32 +0000
Subject: [PATCH 16/48] fix: allow a PI in Elem.Content

A PI is documented as a child of Elem and Writer.WritePI accepts it there.
---
 elem.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elem.go b/elem.go
index c26a8db..1ef17c4 100644
--- a/elem.go
+++ b/elem.go
@@ -129,6 +129,8 @@ func (e Elem) opened(n *node, w *Writer, prev NodeState) error {
 				err = w.WriteComment(t)
 			case CData:
 				err = w.WriteCData(t)
+			case PI:
+				err = w.WritePI(t)
 			default:
 				return fmt.Errorf("xmlwriter: unexpected child of element")
 			}
-- 
2.43.0


From 9ee7a32081a4f6752a6c9d089e51846db76c4b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 17/48] fix: check the public ID of a Notation that has no
 system ID

---
 printer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/printer.go b/printer.go
index b8d6f01..861a7eb 100644
--- a/printer.go
+++ b/printer.go
@@ -175,9 +175,6 @@ func (p printer) writeExternalID(publicID string, systemID string, enforce bool)
 			if systemID == "" {
 				return fmt.Errorf("xmlwriter: DTD public ID provided but system ID missing")
 			}
-			if err := CheckPubID(publicID); err != nil {
-				return err
-			}
 		}
 		return p.writePublicID(publicID, systemID, enforce)
 	}
@@ -236,8 +233,8 @@ func (p printer) writeEntityValue(value string, enforce bool) error {
 
 func (p printer) writePublicID(publicID string, systemID string, enforce bool) error {
 	if enforce {
-		if len(publicID) < 0 {
-			return fmt.Errorf("xmlwriter: public ID must not be empty")
+		if err := CheckPubID(publicID); err != nil {
+			return err
 		}
 	}
 	p.WriteString("PUBLIC ")
-- 
2.43.0


From e98b55e2ccf7193be5b763969026a8c797d955db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 18/48] fix: give PINode a name and do not panic naming a
 negative NodeKind

---
 nodekind.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodekind.go b/nodekind.go
index eda607c..646a0e4 100644
--- a/nodekind.go
+++ b/nodekind.go
@@ -12,7 +12,7 @@ type NodeKind int
 // the Name() will be empty. String() returns a human-readable representation
 // for information purposes; if a stable string is required, use this instead.
 func (n NodeKind) Name() string {
-	if int(n) < nodeKindLength {
+	if n >= 0 && int(n) < nodeKindLength {
 		return kindName[n]
 	}
 	return ""
@@ -70,6 +70,7 @@ var kindName = [nodeKindLength]string{
 	DocNode:            "document",
 	ElemNode:           "elem",
 	NotationNode:       "notation",
+	PINode:             "pi",
 	RawNode:            "raw",
 	TextNode:           "text",
 }
@@ -111,6 +112,7 @@ var kindFlag = [nodeKindLength]nodeFlag{
 	DocNode:            docNodeFlag,
 	ElemNode:           elemNodeFlag,
 	NotationNode:       notationNodeFlag,
+	PINode:             pINodeFlag,
 	RawNode:            rawNodeFlag,
 	TextNode:           textNodeFlag,
 }
-- 
2.43.0


From 848a0526a363c4cd978a5077d1fc0156800d53ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 19/48] fix: accept the NameStartChar ranges above U+037D in
 CheckName

The table stopped short of most of the basic multilingual plane.
---
 check.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/check.go b/check.go
index 29307ab..c3fd0e8 100644
--- a/check.go
+++ b/check.go
@@ -33,7 +33,7 @@ func CheckName(name string) error {
 	var rn rune
 	for start, rn = range name {
 		if start == 0 {
-			if rn > 0xFFFF || nameChar[uint16(rn)] != 1 {
+			if !isNameRange(rn) && (rn > 0xFFFF || nameChar[uint16(rn)] != 1) {
 				return fmt.Errorf("xmlwriter: invalid name at position %d: %c", 0, rn)
 			}
 
@@ -43,7 +43,7 @@ func CheckName(name string) error {
 	}
 
 	for i, rn := range name[start:] {
-		if rn > 0xFFFF || nameChar[uint16(rn)] == 0 {
+		if !isNameRange(rn) && (rn > 0xFFFF || nameChar[uint16(rn)] == 0) {
 			return fmt.Errorf("xmlwriter: invalid name at position %d: %c", start+i, rn)
 		}
 	}
@@ -51,6 +51,19 @@ func CheckName(name string) error {
 	return nil
 }
 
+// isNameRange covers the ranges of NameStartChar in the basic multilingual
+// plane which are not in the nameChar table. It leaves out U+FFFD, which is also
+// what an invalid UTF-8 sequence decodes to.
+func isNameRange(rn rune) bool {
+	return rn >= 0x37F && ((rn <= 0x1FFF) ||
+		(rn >= 0x200C && rn <= 0x200D) ||
+		(rn >= 0x2070 && rn <= 0x218F) ||
+		(rn >= 0x2C00 && rn <= 0x2FEF) ||
+		(rn >= 0x3001 && rn <= 0xD7FF) ||
+		(rn >= 0xF900 && rn <= 0xFDCF) ||
+		(rn >= 0xFDF0 && rn <= 0xFFFC))
+}
+
 // CheckChars ensures a string contains characters which are valid in a Text{}
 // node: https://www.w3.org/TR/xml/#NT-Char
 // The 'strict' argument (which xmlwriter should activate by default) ensures
-- 
2.43.0


From a8eab1ecc8bb006121543849f2a015b8c09c4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:29 +0000
Subject: [PATCH 20/48] fix: write the sorted attributes in the normaliser

They were sorted and then dropped.
---
 tester/ctester/normaliser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tester/ctester/normaliser.c b/tester/ctester/normaliser.c
index eae5255..9ff3611 100644
--- a/tester/ctester/normaliser.c
+++ b/tester/ctester/normaliser.c
@@ -168,6 +168,11 @@ void xml_elem_start(void *user_data, const expat_ch *name, const expat_ch **atts
     }
     
     qsort(ctx->attrs, attlen, sizeof(struct attr), attr_comp);
+
+    for (size_t i = 0; i < attlen; i++) {
+        xmlTextWriterWriteAttribute(ctx->writer,
+            (lxml_ch*)ctx->attrs[i].name, (lxml_ch*)ctx->attrs[i].value);
+    }
 }
 
 void xml_default(void *user_data, const expat_ch *s, int len) {
-- 
2.43.0


From 208ded54d44f6145ce1d36082d6cad007a57ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 21/48] fix: do not allocate when checking the target of a
 processing instruction

---
 nodes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodes.go b/nodes.go
index 61031f7..a8d3d2e 100644
--- a/nodes.go
+++ b/nodes.go
@@ -388,7 +388,7 @@ func (p PI) write(w *Writer) error {
 		if err := w.checkParent(noNodeFlag | docNodeFlag | elemNodeFlag); err != nil {
 			return err
 		}
-		if strings.ToLower(p.Target) == "xml" {
+		if strings.EqualFold(p.Target, "xml") {
 			return fmt.Errorf("xmlwriter: PI target may not be 'xml'")
 		}
 		if err := CheckName(p.Target); err != nil {
-- 
2.43.0


From cd0e63c8518ed3f8e12aede5adc7551bb1bd06e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 22/48] fix: do not panic when indenting after a failed write

---
 indenter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indenter.go b/indenter.go
index af51eb4..642d793 100644
--- a/indenter.go
+++ b/indenter.go
@@ -80,7 +80,8 @@ func (s *StandardIndenter) Indent(w *Writer, last Event, next Event) error {
 		if next.State == StateOpened {
 			s.stack = append(s.stack, indentLevel{e: last})
 			s.depth++
-		} else if next.State == StateEnded {
+		} else if next.State == StateEnded && s.depth > 0 {
+			// a node whose end failed to write may be ended again
 			isInline = s.stack[s.depth].indents == 0
 			s.depth--
 			s.stack = s.stack[:len(s.stack)-1]
-- 
2.43.0


From ac8287026a69e357ba1cb81d6961b33afb1956ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 23/48] fix: declare the default namespace given by an
 element's URI

---
 elem.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/elem.go b/elem.go
index 1ef17c4..a7bbf70 100644
--- a/elem.go
+++ b/elem.go
@@ -71,18 +71,22 @@ func (e Elem) open(n *node, w *Writer) error {
 		}
 	}
 
-	if e.Prefix != "" && e.URI != "" {
+	if e.URI != "" {
 		n.elem.namespaces = append(e.namespaces, ns{prefix: e.Prefix, uri: e.URI, elem: true})
 	}
 
 	w.printer.WriteByte('<')
 	w.printer.WriteString(name)
 
-	if e.Prefix != "" && e.URI != "" {
+	if e.URI != "" {
 		// we can assume the prefix has been enforced already by open running
 		// CheckName on elem.fullName()
 		n.elem.namespaces[0].written = true
-		if err := w.printer.printAttr("xmlns:"+e.Prefix, e.URI, w.Enforce); err != nil {
+		name := "xmlns"
+		if e.Prefix != "" {
+			name += ":" + e.Prefix
+		}
+		if err := w.printer.printAttr(name, e.URI, w.Enforce); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 784327e0c441f964dc1aa70ffd5f4600508c93d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 24/48] fix: do not fail on tokens that end beyond the read
 buffer

---
 tester/ctester/indexer.c     | 3 ++-
 tester/ctester/normaliser.c  | 3 ++-
 tester/ctester/testbuilder.c | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index a3bad95..96f3aae 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -353,7 +353,8 @@ enum idx_err xml_index(struct index_ctx *ctx, char *file) {
             enum XML_Status status = XML_Parse(parser, buffer, len, done);
 
             XML_Index idx = XML_GetCurrentByteIndex(parser);
-            if (idx < 0 || status != XML_STATUS_OK) {
+            // the index is -1 while a token is incomplete at the end of the buffer
+            if (status != XML_STATUS_OK || (done && idx < 0)) {
                 enum XML_Error err = XML_GetErrorCode(parser);
 
                 ctx_errf(&ctx->err, ERR_PARSE_FAIL, 
diff --git a/tester/ctester/normaliser.c b/tester/ctester/normaliser.c
index 9ff3611..97a9ed3 100644
--- a/tester/ctester/normaliser.c
+++ b/tester/ctester/normaliser.c
@@ -260,7 +260,8 @@ int main() {
             enum XML_Status status = XML_Parse(parser, buffer, len, done);
 
             XML_Index idx = XML_GetCurrentByteIndex(parser);
-            if (idx < 0 || status != XML_STATUS_OK) {
+            // the index is -1 while a token is incomplete at the end of the buffer
+            if (status != XML_STATUS_OK || (done && idx < 0)) {
                 enum XML_Error err = XML_GetErrorCode(parser);
 
                 ctx_errf(&ctx, N_ERR_PARSE_FAIL, 
diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index c4746ea..b6eb5a9 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -821,7 +821,8 @@ int main(int argc, char *argv[]) {
             enum XML_Status status = XML_Parse(parser, buffer, len, done);
 
             XML_Index idx = XML_GetCurrentByteIndex(parser);
-            if (idx < 0 || status != XML_STATUS_OK) {
+            // the index is -1 while a token is incomplete at the end of the buffer
+            if (status != XML_STATUS_OK || (done && idx < 0)) {
                 enum XML_Error err = XML_GetErrorCode(parser);
 
                 xml_ctx_errf(&ctx, TB_ERR_PARSE_FAIL, 
-- 
2.43.0


From 89585e7bf9abe756cc40fcb7711649960da59937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 25/48] fix: strip only XML white space from a script's content

---
 tester/gotester/xwrunner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/gotester/xwrunner.go b/tester/gotester/xwrunner.go
index 6a29cb3..ddc33e0 100644
--- a/tester/gotester/xwrunner.go
+++ b/tester/gotester/xwrunner.go
@@ -77,7 +77,7 @@ func (e ErrUnknownParam) Error() string {
 func (c Command) CleanContent() string {
 	r := c.Content
 	if c.WS == "strip" {
-		r = wsStrip.ReplaceAllString(strings.TrimSpace(r), " ")
+		r = wsStrip.ReplaceAllString(strings.Trim(r, "\n\r\t "), " ")
 	}
 	return r
 }
-- 
2.43.0


From cad3fa83d6c6422464ac71ed1364658dee6f13b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 26/48] fix: end a dtd-att-list before a comment or the list of
 another element

---
 tester/ctester/testbuilder.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index b6eb5a9..af61b80 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -65,6 +65,7 @@ struct xml_ctx {
     bool doc;
     bool in_dtd;
     bool in_attlist;
+    char *attlist; // name of the element, while in_attlist
 
     const expat_ch **ns; size_t nslen; size_t nssz;
     const expat_ch **as; size_t aslen; size_t assz;
@@ -98,6 +99,7 @@ void xml_ctx_deinit(struct xml_ctx *ctx) {
     }
     free(ctx->content);
     ctx->sz = 0;
+    free(ctx->attlist);
     free(ctx->ns);
     free(ctx->as);
 }
@@ -327,6 +329,10 @@ void xml_pi(void *user_data, const expat_ch *target, const expat_ch *data) {
 /* data is 0 terminated */
 void xml_comment (void *user_data, const expat_ch *data) {
     struct xml_ctx *ctx = user_data;
+    if (ctx->in_attlist) {
+        command_write(ctx, "end", "dtd-att-list", __FUNCTION__);
+        ctx->in_attlist = false;
+    }
     command_start(ctx, "write", "comment", __FUNCTION__);
     command_end_content(ctx, data);
 }
@@ -667,11 +673,18 @@ void xml_attlist_decl(
     int              isrequired
 ) {
     struct xml_ctx *ctx = user_data;
+    // the declarations of two elements may follow each other directly
+    if (ctx->in_attlist && strcmp(ctx->attlist, elname) != 0) {
+        command_write(ctx, "end", "dtd-att-list", __FUNCTION__);
+        ctx->in_attlist = false;
+    }
     if (!ctx->in_attlist) {
         command_start(ctx, "start", "dtd-att-list", __FUNCTION__);
         command_attr(ctx->writer, "name", elname);
         command_end(ctx);
         ctx->in_attlist = true;
+        free(ctx->attlist);
+        ctx->attlist = strdup(elname);
     }
     command_start(ctx, "write", "dtd-attr", __FUNCTION__);
     command_attr(ctx->writer, "name", attname);
-- 
2.43.0


From 4bd097b7678b36984a93ad38da75a76bf02bfa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 27/48] fix: keep the space after NOTATION in an attribute's
 type

---
 tester/ctester/testbuilder.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index af61b80..3e2f09c 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -688,7 +688,16 @@ void xml_attlist_decl(
     }
     command_start(ctx, "write", "dtd-attr", __FUNCTION__);
     command_attr(ctx->writer, "name", attname);
-    command_attr(ctx->writer, "type", att_type);
+    if (str_has_prefix(att_type, "NOTATION(")) {
+        // expat drops the space, which is required
+        size_t len = strlen(att_type) + 2;
+        char *type = malloc(len);
+        snprintf(type, len, "NOTATION %s", att_type + 8);
+        command_attr(ctx->writer, "type", type);
+        free(type);
+    } else {
+        command_attr(ctx->writer, "type", att_type);
+    }
     if (dflt != NULL) {
         command_attr(ctx->writer, "decl", dflt);
     }
-- 
2.43.0


From 6e8f891ec0d852e23d8f0880712e8ac6a6005547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 28/48] fix: accept all white space in the XML declaration

---
 tester/ctester/encfixer.c |  2 +-
 tester/ctester/xml.c      | 24 +++++++++++++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/tester/ctester/encfixer.c b/tester/ctester/encfixer.c
index 5a0cfd0..70dc04c 100644
--- a/tester/ctester/encfixer.c
+++ b/tester/ctester/encfixer.c
@@ -40,7 +40,7 @@ int main(int argc, char *argv[]) {
     }
     read += len;
 
-    if (len > 6 && strncmp(buffer, "<?xml ", 6) == 0) {
+    if (crap_has_decl(buffer, len)) {
         char **atts = NULL;
         char *bufptr = buffer + 6;
         int buflen = len;
diff --git a/tester/ctester/xml.c b/tester/ctester/xml.c
index 7cf2e5c..2caf267 100644
--- a/tester/ctester/xml.c
+++ b/tester/ctester/xml.c
@@ -54,6 +54,16 @@ char *expat_errors[] = {
 #define CRAP_NAME 1
 #define CRAP_QUOTE 2
 #define CRAP_VAL 3
+#define CRAP_EQ 4
+
+static bool crap_is_space(char c) {
+    return c == ' ' || c == '\t' || c == '\r' || c == '\n';
+}
+
+// does the buffer start with an XML declaration?
+bool crap_has_decl(const char *buffer, size_t len) {
+    return len > 6 && strncmp(buffer, "<?xml", 5) == 0 && crap_is_space(buffer[5]);
+}
 
 // dear lord we need our own attribute parser now?
 // turns out we don't, i just didn't see the XMLDeclHandler call,
@@ -82,20 +92,28 @@ int crap_atts_parse(const char *in, int len, char ***atts, int *read) {
         switch (state) {
         case CRAP_START:
             if (in[i] == '?') goto done;
-            if (in[i] == ' ') goto next;
+            if (crap_is_space(in[i])) goto next;
             nstart = i; nlen = 0;
             state = CRAP_NAME;
             goto repeat;
         break;
 
         case CRAP_NAME:
-            if (in[i] == ' ') { state = CRAP_START; goto repeat; }
+            if (crap_is_space(in[i])) { state = CRAP_EQ; goto next; }
             if (in[i] == '=') { state = CRAP_QUOTE; goto next; }
             if (in[i] == '?') { rc = 1; goto done; }
             nlen ++;
         break;
 
+        case CRAP_EQ:
+            if (crap_is_space(in[i])) goto next;
+            if (in[i] == '=') { state = CRAP_QUOTE; goto next; }
+            rc = 1;
+            goto done;
+        break;
+
         case CRAP_QUOTE:
+            if (crap_is_space(in[i])) goto next;
             if (in[i] == '"' || in[i] == '\'') {
                 qchar = in[i];
                 state = CRAP_VAL;
@@ -139,7 +157,7 @@ void crap_atts_free(char **atts) {
 char *raw_encoding_extract(char *buffer, size_t len) {
     char *ret = NULL;
 
-    if (len > 6 && strncmp(buffer, "<?xml ", 6) == 0) {
+    if (crap_has_decl(buffer, len)) {
         char **atts = NULL;
         char *bufptr = buffer + 5;
         int buflen = len;
-- 
2.43.0


From 8efadf996c1009e143d105b915c981b9aef46c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 29/48] fix: leave the text of CDATA sections alone in the
 normaliser

---
 tester/ctester/normaliser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tester/ctester/normaliser.c b/tester/ctester/normaliser.c
index 97a9ed3..c1e4a88 100644
--- a/tester/ctester/normaliser.c
+++ b/tester/ctester/normaliser.c
@@ -64,6 +64,7 @@ struct ctx {
     void (*error_free)(void *p);
 
     bool self_close;
+    bool in_cdata;
     struct attr *attrs;
     size_t attrs_cap;
 };
@@ -180,6 +181,14 @@ void xml_default(void *user_data, const expat_ch *s, int len) {
     ctx->self_close = false;
     lxml_ch *copy;
 
+    // the text of a CDATA section contains no references, whatever it looks like
+    if (!ctx->in_cdata && len == 9 && strncmp(s, "<![CDATA[", len) == 0) {
+        ctx->in_cdata = true;
+    } else if (ctx->in_cdata && len == 3 && strncmp(s, "]]>", len) == 0) {
+        ctx->in_cdata = false;
+    }
+    if (ctx->in_cdata) goto std;
+
     // expat seems to deserialise entities in discrete chunks, i.e.  not as
     // part of the character data stream. so we can (hopefully) assume that the
     // default handler gets them complete as a single unit.
-- 
2.43.0


From 6c7fe30145d6d90900ad43409b72642afff46d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 30/48] fix: normalise references to single digit code points
 too

---
 tester/ctester/normaliser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/ctester/normaliser.c b/tester/ctester/normaliser.c
index c1e4a88..b98a56a 100644
--- a/tester/ctester/normaliser.c
+++ b/tester/ctester/normaliser.c
@@ -194,7 +194,7 @@ void xml_default(void *user_data, const expat_ch *s, int len) {
     // default handler gets them complete as a single unit.
     // FIXME: it doesn't apear to do this inside entities, i.e.
     //   <!ENTITY pathpart "([\w_@.&#x25;*?+-]|\\ )">
-    if (ctx->ent_num_mode != ENT_NUM_LEAVE && len > 4 && s[0] == '&' && s[1] == '#' && s[len-1] == ';') {
+    if (ctx->ent_num_mode != ENT_NUM_LEAVE && len >= 4 && s[0] == '&' && s[1] == '#' && s[len-1] == ';') {
         int base = 10;
         const char *start = s + 2;
         if (s[2] == 'x') {
-- 
2.43.0


From 4752f8f34608fcd9fd058f1ca4ae8bb775ada286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 31/48] fix: keep the references an entity's value needs in
 testbuilder

---
 tester/ctester/testbuilder.c | 50 ++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index 3e2f09c..7a9d2cc 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -431,38 +431,32 @@ void xml_default(void *user_data, const expat_ch *s, int len) {
     }
 }
 
-// this is static in libxml and not visible to us, so 
-// of course that means copypasta!
+// expat gives us the value of an entity with its character references already
+// expanded but its entity references left as they were. The characters which
+// mean something else in an entity's literal have to become references again.
 void xmlDumpEntityContent(xmlBufferPtr buf, const xmlChar *content, int len) {
-    if (buf->alloc == XML_BUFFER_ALLOC_IMMUTABLE) return;
-    if (xmlStrchr(content, '%')) {
-        const xmlChar * base, *cur;
-
-        base = cur = content;
-        for (int i = 0; i < len; i++) {
-            if (*cur == '"') {
-                if (base != cur)
-                    xmlBufferAdd(buf, base, cur - base);
-                xmlBufferAdd(buf, BAD_CAST "&quot;", 6);
-                cur++;
-                base = cur;
-            } else if (*cur == '%') {
-                if (base != cur)
-                    xmlBufferAdd(buf, base, cur - base);
-                    xmlBufferAdd(buf, BAD_CAST "&#37;", 5);
-                    cur++;
-                    base = cur;
+    for (int i = 0; i < len; i++) {
+        switch (content[i]) {
+        case '%': xmlBufferAdd(buf, BAD_CAST "&#37;", 5); break;
+        case '"': xmlBufferAdd(buf, BAD_CAST "&#34;", 5); break;
+        case '\r': xmlBufferAdd(buf, BAD_CAST "&#13;", 5); break;
+        case '&': {
+            const xmlChar *end = memchr(&content[i], ';', len - i);
+            bool ref = false;
+            if (end != NULL) {
+                xmlChar *name = xmlStrndup(&content[i + 1], end - &content[i + 1]);
+                ref = xmlValidateName(name, 0) == 0;
+                xmlFree(name);
+            }
+            if (ref) {
+                xmlBufferAdd(buf, BAD_CAST "&", 1);
             } else {
-                cur++;
+                xmlBufferAdd(buf, BAD_CAST "&#38;", 5);
             }
+            break;
+        }
+        default: xmlBufferAdd(buf, &content[i], 1);
         }
-        if (base != cur)
-            xmlBufferAdd(buf, base, cur - base);
-    } else {
-        // content is not null terminated
-        lxml_ch *copy = xmlCharStrndup((char*)content, len);
-        xmlBufferWriteChar(buf, (char *)copy);
-        xmlFree(copy);
     }
 }
 
-- 
2.43.0


From 73cf5c3a61e67556445177d37b8f9f5c1c6ce3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 32/48] fix: escape the default values of attributes in ctester

---
 tester/ctester/ctester.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tester/ctester/ctester.c b/tester/ctester/ctester.c
index 75f098b..d7acc81 100644
--- a/tester/ctester/ctester.c
+++ b/tester/ctester/ctester.c
@@ -529,7 +529,23 @@ int params_write_dtd_attr_run(struct ct_ctx *ctx) {
                 return 1;
             }
         }
-        if ((ret = xmlTextWriterWriteString(ctx->writer, p->decl)) < 0) {
+        // the writer does not escape strings inside a DTD
+        xmlBufferPtr buf = xmlBufferCreate();
+        for (xmlChar *c = p->decl; *c; c++) {
+            switch (*c) {
+            case '<' : xmlBufferCat(buf, (xmlChar*)"&lt;");   break;
+            case '>' : xmlBufferCat(buf, (xmlChar*)"&gt;");   break;
+            case '&' : xmlBufferCat(buf, (xmlChar*)"&amp;");  break;
+            case '"' : xmlBufferCat(buf, (xmlChar*)"&quot;"); break;
+            case '\t': xmlBufferCat(buf, (xmlChar*)"&#9;");   break;
+            case '\n': xmlBufferCat(buf, (xmlChar*)"&#10;");  break;
+            case '\r': xmlBufferCat(buf, (xmlChar*)"&#13;");  break;
+            default  : xmlBufferAdd(buf, c, 1);
+            }
+        }
+        ret = xmlTextWriterWriteRaw(ctx->writer, xmlBufferContent(buf));
+        xmlBufferFree(buf);
+        if (ret < 0) {
             return 1;
         }
 		if ((ret = xmlTextWriterWriteRaw(ctx->writer, (xmlChar*)"\"")) < 0) {
-- 
2.43.0


From 705453dfc0534ab1f60b1256a9dc8b2440ccdacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 33/48] fix: tell attributes with a prefix by their own name in
 indexer

---
 tester/ctester/indexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index 96f3aae..7f07707 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -158,7 +158,7 @@ void xml_elem_start(void *user_data, const expat_ch *name, const expat_ch **atts
     }
 
     for (size_t i = 0; atts[i]; i+=2) {
-        if (strchr(name, ':') > name) {
+        if (strchr(atts[i], ':') > atts[i]) {
             ctx->current->nsattrs++;
         } else {
             ctx->current->attrs++;
-- 
2.43.0


From 5126d5a3b8c381d2f4e9a2412ba8619123ffab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 34/48] fix: store the text columns of the index as text

---
 tester/ctester/indexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index 7f07707..88e42df 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -443,8 +443,8 @@ int cmd_index(int cargc, char *cargv[]) {
     // TODO: capture total bytes, bytes read
     if ((sqlite3_exec(db, 
         "CREATE TABLE xml("
-            "file STRING PRIMARY KEY, hash STRING, status INT, msg TEXT, bytes INTEGER, raw_encoding STRING, "
-            "encoding STRING, version STRING, elems INTEGER, "
+            "file TEXT PRIMARY KEY, hash TEXT, status INT, msg TEXT, bytes INTEGER, raw_encoding TEXT, "
+            "encoding TEXT, version TEXT, elems INTEGER, "
             "nselems INTEGER, attrs INTEGER, nsattrs INTEGER, comments INTEGER, "
             "comment_bytes INTEGER, comment_max INTEGER, cdatas INTEGER, pis INTEGER, "
             "dtds_public INTEGER, dtds_system INTEGER, dtd_elems INTEGER, dtd_attlists INTEGER, "
-- 
2.43.0


From 43fcef474a5ce03a9d48f4eb9dfb3d32dea6b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 35/48] fix: forget the nodes ended by ctester's end all

---
 tester/ctester/ctester.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tester/ctester/ctester.c b/tester/ctester/ctester.c
index d7acc81..66230a6 100644
--- a/tester/ctester/ctester.c
+++ b/tester/ctester/ctester.c
@@ -255,6 +255,7 @@ void ctx_end(struct ct_ctx *ctx) {
         free(end);
         end = next;
     }
+    ctx->end = NULL;
 }
 
 void ctx_deinit(struct ct_ctx *ctx) {
-- 
2.43.0


From 54c03c462c0814c1087046b7cf55412afd70dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 36/48] fix: compare only the entity value expat hands over

---
 tester/ctester/testbuilder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index 7a9d2cc..043d528 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -536,7 +536,7 @@ void xml_entity_decl (
     // my hard drive looking for entities, then look at what the convention
     // is for encoding them. I suspect even in UTF-8 documents the convention
     // is to convert >127 chars to entities. Normaliser can have that as a rule.
-    if (value_length == 2 && strcmp(value, "\xC2\xA0") == 0) {
+    if (value_length == 2 && memcmp(value, "\xC2\xA0", 2) == 0) {
         xmlTextWriterWriteString(ctx->writer, (lxml_ch*)"&#160;");
         value_length = 6;
         raw = true;
-- 
2.43.0


From 28a590b7e6fe2bb0904d1dc817736a002c3b57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 37/48] fix: name the errors of newer versions of expat

---
 tester/ctester/indexer.c     | 4 ++--
 tester/ctester/normaliser.c  | 4 ++--
 tester/ctester/testbuilder.c | 4 ++--
 tester/ctester/xml.c         | 8 ++++++++
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index 88e42df..083b58d 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -359,7 +359,7 @@ enum idx_err xml_index(struct index_ctx *ctx, char *file) {
 
                 ctx_errf(&ctx->err, ERR_PARSE_FAIL, 
                     "expat error %s(%d) before completion %ld != %zu", 
-                    expat_errors[err], err, idx, read);
+                    expat_error_name(err), err, idx, read);
                 goto cleanup;
             }
 
@@ -369,7 +369,7 @@ enum idx_err xml_index(struct index_ctx *ctx, char *file) {
                     enum XML_Error err = XML_GetErrorCode(parser);
                     ctx_errf(&ctx->err, ERR_PARSE_STOPPED,
                         "expat stopped %s(%d) before completion %ld != %zu", 
-                        expat_errors[err], err, idx, read);
+                        expat_error_name(err), err, idx, read);
                     goto cleanup;
                 }
             }
diff --git a/tester/ctester/normaliser.c b/tester/ctester/normaliser.c
index b98a56a..899c121 100644
--- a/tester/ctester/normaliser.c
+++ b/tester/ctester/normaliser.c
@@ -275,7 +275,7 @@ int main() {
 
                 ctx_errf(&ctx, N_ERR_PARSE_FAIL, 
                     "expat error %s(%d) before completion %ld != %zu, byte %zu\n", 
-                    expat_errors[err], err, idx, len, read);
+                    expat_error_name(err), err, idx, len, read);
                 goto cleanup;
             }
 
@@ -285,7 +285,7 @@ int main() {
                     enum XML_Error err = XML_GetErrorCode(parser);
                     ctx_errf(&ctx, N_ERR_PARSE_STOPPED,
                         "expat stopped %s(%d) before completion %ld != %zu, byte %zu\n", 
-                        expat_errors[err], err, idx, len, read);
+                        expat_error_name(err), err, idx, len, read);
                     goto cleanup;
                 }
             }
diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index 043d528..3ab4a64 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -843,7 +843,7 @@ int main(int argc, char *argv[]) {
 
                 xml_ctx_errf(&ctx, TB_ERR_PARSE_FAIL, 
                     "expat error %s(%d) before completion %ld != %zu, byte %zu\n", 
-                    expat_errors[err], err, idx, len, read);
+                    expat_error_name(err), err, idx, len, read);
                 goto cleanup;
             }
 
@@ -853,7 +853,7 @@ int main(int argc, char *argv[]) {
                     enum XML_Error err = XML_GetErrorCode(parser);
                     xml_ctx_errf(&ctx, TB_ERR_PARSE_STOPPED,
                         "expat stopped %s(%d) before completion %ld != %zu, byte %zu\n", 
-                        expat_errors[err], err, idx, len, read);
+                        expat_error_name(err), err, idx, len, read);
                     goto cleanup;
                 }
             }
diff --git a/tester/ctester/xml.c b/tester/ctester/xml.c
index 2caf267..b8bb28b 100644
--- a/tester/ctester/xml.c
+++ b/tester/ctester/xml.c
@@ -50,6 +50,14 @@ char *expat_errors[] = {
   [XML_ERROR_RESERVED_NAMESPACE_URI] = "XML_ERROR_RESERVED_NAMESPACE_URI",
 };
 
+// expat may know more errors than the table
+const char *expat_error_name(enum XML_Error err) {
+    if ((size_t)err >= sizeof(expat_errors) / sizeof(expat_errors[0]) || expat_errors[err] == NULL) {
+        return "unknown";
+    }
+    return expat_errors[err];
+}
+
 #define CRAP_START 0
 #define CRAP_NAME 1
 #define CRAP_QUOTE 2
-- 
2.43.0


From 6aaab61deadd95fefa72dae9940d37955b451e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 38/48] fix: encfixer: see the declaration after a byte order
 mark

A document converted from UTF-16 kept its old encoding in the declaration,
as the declaration was only looked for in the first byte, so run.sh skipped
it as invalid XML.
---
 tester/ctester/encfixer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tester/ctester/encfixer.c b/tester/ctester/encfixer.c
index 70dc04c..018266b 100644
--- a/tester/ctester/encfixer.c
+++ b/tester/ctester/encfixer.c
@@ -40,11 +40,15 @@ int main(int argc, char *argv[]) {
     }
     read += len;
 
-    if (crap_has_decl(buffer, len)) {
+    // a byte order mark may come before the declaration
+    size_t bom = len >= 3 && memcmp(buffer, "\xEF\xBB\xBF", 3) == 0 ? 3 : 0;
+
+    if (crap_has_decl(buffer + bom, len - bom)) {
         char **atts = NULL;
-        char *bufptr = buffer + 6;
-        int buflen = len;
+        char *bufptr = buffer + bom + 6;
+        int buflen = len - bom;
         buflen -= 6;
+        fwrite(buffer, 1, bom, stdout);
         fwrite("<?xml", 1, 5, stdout);
 
         int att_read = 0;
-- 
2.43.0


From 5e2ec81b22f88e54ca4467c3e9fcaea113c009ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 39/48] fix: run.sh: compare the last file of a list without a
 final newline

read reports the end of the input for such a line, which left the file out.
It also stripped white space from both ends of the names.
---
 tester/run.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/run.sh b/tester/run.sh
index aebb664..8fa2181 100755
--- a/tester/run.sh
+++ b/tester/run.sh
@@ -100,7 +100,7 @@ pass=0
 skip=0
 fail=0
 
-while read -r line; do
+while IFS= read -r line || [[ -n "$line" ]]; do
     if [[ ! -f "$line" ]]; then
         skip "file does not exist"
         continue
-- 
2.43.0


From 7ea2a35b9dfa5eefe10412ddaff44e18a991e462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 40/48] fix: run.sh: remove the temporary files

They were only removed on an interrupt, and then not either: kill fails when
it is given no job, and the shell ended there.
---
 tester/run.sh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tester/run.sh b/tester/run.sh
index 8fa2181..f194184 100755
--- a/tester/run.sh
+++ b/tester/run.sh
@@ -71,7 +71,7 @@ xmllint() {
 
 cleanup() {
     local f
-    jobs -p | xargs kill >/dev/null 2>&1
+    jobs -p | xargs kill >/dev/null 2>&1 || true
     for f in "${cleanup_files[@]}"; do
         if [[ -n "$f" ]]; then
             rm -f "$f"
@@ -93,7 +93,8 @@ fail() {
     echo -e "\e[91mFAIL\e[0m\t$i\t$line\t$1"
 }
 
-trap cleanup INT TERM
+trap cleanup EXIT
+trap 'exit 1' INT TERM
 
 i=0
 pass=0
-- 
2.43.0


From 25308a4946f13fef5585f388fd39d8521acc1ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 41/48] fix: run.sh: do not take a document for ASCII by its
 start

file only reads the first part of it, and the conversion failed on what
came later.
---
 tester/run.sh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tester/run.sh b/tester/run.sh
index f194184..cea1374 100755
--- a/tester/run.sh
+++ b/tester/run.sh
@@ -122,6 +122,10 @@ while IFS= read -r line || [[ -n "$line" ]]; do
             #   unknown-8bit us-ascii utf-16be utf-16le utf-8
             enc="${BASH_REMATCH[1]}"
         fi
+        # file only looks at the start, what follows may be UTF-8
+        if [[ "$enc" == "us-ascii" ]]; then
+            enc="UTF-8"
+        fi
     fi
 
     # I give up. it's not worth wasting any more time trying to work out
-- 
2.43.0


From e6bb0f4cbf9e824ac4f0b78945d8839932cb1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 42/48] fix: see the encoding declared after a byte order mark

encextractor and indexer took such a document for one that declares none.
---
 tester/ctester/xml.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tester/ctester/xml.c b/tester/ctester/xml.c
index b8bb28b..03e46f6 100644
--- a/tester/ctester/xml.c
+++ b/tester/ctester/xml.c
@@ -165,6 +165,12 @@ void crap_atts_free(char **atts) {
 char *raw_encoding_extract(char *buffer, size_t len) {
     char *ret = NULL;
 
+    // a byte order mark may come before the declaration
+    if (len >= 3 && memcmp(buffer, "\xEF\xBB\xBF", 3) == 0) {
+        buffer += 3;
+        len -= 3;
+    }
+
     if (crap_has_decl(buffer, len)) {
         char **atts = NULL;
         char *bufptr = buffer + 5;
-- 
2.43.0


From 8eefad9ab4b67b11f2ce7a1689ba71597c810250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 43/48] fix: gotester: read required, is-pe and full like the
 other booleans

"yes" was taken as false, and anything that is no boolean was too. The
ctester accepts yes, no, true and false and refuses the rest.
---
 tester/gotester/xwrunner.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/tester/gotester/xwrunner.go b/tester/gotester/xwrunner.go
index ddc33e0..cf76e86 100644
--- a/tester/gotester/xwrunner.go
+++ b/tester/gotester/xwrunner.go
@@ -82,6 +82,17 @@ func (c Command) CleanContent() string {
 	return r
 }
 
+// parseBool reads a boolean parameter in the spellings the ctester accepts.
+func parseBool(v string) (bool, error) {
+	switch strings.ToLower(v) {
+	case "yes", "true":
+		return true, nil
+	case "no", "false":
+		return false, nil
+	}
+	return false, fmt.Errorf("invalid boolean value")
+}
+
 // XWRunner is an xwrunner.
 type XWRunner struct {
 	writer  io.Writer
@@ -175,7 +186,10 @@ var writers = map[string]func(r *XWRunner, command Command) error{
 				// TODO: validate
 				attr.Type = xw.DTDAttrType(p.Value)
 			case "required":
-				required = strings.ToLower(p.Value) == "true"
+				var err error
+				if required, err = parseBool(p.Value); err != nil {
+					return err
+				}
 			default:
 				return NewErrUnknownParam(command, p.Name.Local)
 			}
@@ -214,7 +228,10 @@ var writers = map[string]func(r *XWRunner, command Command) error{
 		for _, p := range command.Params {
 			switch p.Name.Local {
 			case "is-pe":
-				entity.IsPE = strings.ToLower(p.Value) == "true"
+				var err error
+				if entity.IsPE, err = parseBool(p.Value); err != nil {
+					return err
+				}
 			case "ndata-id":
 				entity.NDataID = p.Value
 			case "system-id":
@@ -432,15 +449,17 @@ var enders = map[string]func(r *XWRunner, command Command) error{
 	},
 	kindElem: func(r *XWRunner, command Command) error {
 		full := false
+		var err error
 		for _, param := range command.Params {
 			switch param.Name.Local {
 			case "full":
-				full = strings.ToLower(param.Value) == "true"
+				if full, err = parseBool(param.Value); err != nil {
+					return err
+				}
 			default:
 				return fmt.Errorf("unknown end element param")
 			}
 		}
-		var err error
 		if full {
 			err = r.xwriter.EndElemFull()
 		} else {
-- 
2.43.0


From eb0d3a3313554ffc7efaa27803d0795694124d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 44/48] fix: ctester: write to standard output itself, and end
 with an error when input or output fails

The programs opened /dev/stdout anew, which empties a file that output is
appended to, and ended with success when the output could not be written
or the input not be read.
---
 tester/ctester/ctester.c      |  6 +++++-
 tester/ctester/encextractor.c |  4 ++++
 tester/ctester/encfixer.c     |  6 ++++++
 tester/ctester/nohigh.c       |  4 ++++
 tester/ctester/normaliser.c   | 11 ++++++++++-
 tester/ctester/testbuilder.c  | 11 ++++++++++-
 6 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/tester/ctester/ctester.c b/tester/ctester/ctester.c
index 66230a6..3c11b9d 100644
--- a/tester/ctester/ctester.c
+++ b/tester/ctester/ctester.c
@@ -1416,7 +1416,7 @@ cleanup:
 }
 
 int script_run(struct script *script, bool indent) {
-    xmlTextWriterPtr writer = xmlNewTextWriterFilename("/dev/stdout", 0);
+    xmlTextWriterPtr writer = xmlNewTextWriter(xmlOutputBufferCreateFile(stdout, NULL));
     if (indent) {
         xmlTextWriterSetIndent(writer, true);
     }
@@ -1455,6 +1455,10 @@ int script_run(struct script *script, bool indent) {
 cleanup:;
     ctx_deinit(&ctx);
     xmlFreeTextWriter(writer);
+    if (rc == 0 && (fflush(stdout) != 0 || ferror(stdout))) {
+        fprintf(stderr, "Output failed\n");
+        rc = 1;
+    }
     return rc;
 }
 
diff --git a/tester/ctester/encextractor.c b/tester/ctester/encextractor.c
index 89deffa..e13035b 100644
--- a/tester/ctester/encextractor.c
+++ b/tester/ctester/encextractor.c
@@ -18,5 +18,9 @@ int main(void) {
         printf("%s\n", strtoupper(enc));
         free(enc);
     }
+    if (ferror(stdin) || fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "Input or output failed\n");
+        return 1;
+    }
     return 0;
 }
diff --git a/tester/ctester/encfixer.c b/tester/ctester/encfixer.c
index 018266b..a411e81 100644
--- a/tester/ctester/encfixer.c
+++ b/tester/ctester/encfixer.c
@@ -92,5 +92,11 @@ int main(int argc, char *argv[]) {
     passthrough:
         fwrite(&buffer, 1, len, stdout);
     }
+
+    if (ferror(stdin) || fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "Input or output failed\n");
+        return 1;
+    }
+    return 0;
 }
 
diff --git a/tester/ctester/nohigh.c b/tester/ctester/nohigh.c
index 6a1ee4b..76a770f 100644
--- a/tester/ctester/nohigh.c
+++ b/tester/ctester/nohigh.c
@@ -23,5 +23,9 @@ int main(void) {
             }
         }
     }
+    if (ferror(stdin)) {
+        fprintf(stderr, "Input failed\n");
+        return 2;
+    }
     return 0;
 }
diff --git a/tester/ctester/normaliser.c b/tester/ctester/normaliser.c
index 899c121..12fa8e0 100644
--- a/tester/ctester/normaliser.c
+++ b/tester/ctester/normaliser.c
@@ -27,6 +27,7 @@ enum n_err {
     N_ERR_ENCODING = 10,
     N_ERR_PARSE_FAIL = 11,
     N_ERR_PARSE_STOPPED = 12,
+    N_ERR_IO = 13,
 };
 
 enum ent_num_mode {
@@ -238,7 +239,7 @@ int xml_unknown_encoding(void *encoding_handler_data, const expat_ch *name, XML_
 
 int main() {
     int rc = 0;
-    xmlTextWriterPtr writer = xmlNewTextWriterFilename("/dev/stdout", 0);
+    xmlTextWriterPtr writer = xmlNewTextWriter(xmlOutputBufferCreateFile(stdout, NULL));
 
     XML_Parser parser = XML_ParserCreate(NULL);
 
@@ -266,6 +267,10 @@ int main() {
                 done = true;
             }
             read += len;
+            if (ferror(stdin)) {
+                ctx_errf(&ctx, N_ERR_IO, "input cannot be read after byte %zu", read);
+                goto cleanup;
+            }
             enum XML_Status status = XML_Parse(parser, buffer, len, done);
 
             XML_Index idx = XML_GetCurrentByteIndex(parser);
@@ -307,6 +312,10 @@ cleanup:
     ctx_deinit(&ctx);
     XML_ParserFree(parser);
     xmlFreeTextWriter(writer);
+    if (rc == 0 && (fflush(stdout) != 0 || ferror(stdout))) {
+        fprintf(stderr, "output failed\n");
+        rc = N_ERR_IO;
+    }
 
     return rc;
 }
diff --git a/tester/ctester/testbuilder.c b/tester/ctester/testbuilder.c
index 3ab4a64..e9e237f 100644
--- a/tester/ctester/testbuilder.c
+++ b/tester/ctester/testbuilder.c
@@ -22,6 +22,7 @@ enum tb_err {
     TB_ERR_UNHANDLED = 10,
     TB_ERR_PARSE_FAIL = 11,
     TB_ERR_PARSE_STOPPED = 12,
+    TB_ERR_IO = 13,
     TB_ERR_ARGS = 64, // I think this is EXIT_USAGE
 };
 
@@ -767,7 +768,7 @@ size_t stdin_read(char **buffer) {
 int main(int argc, char *argv[]) {
     int rc = 0;
 
-    xmlTextWriterPtr writer = xmlNewTextWriterFilename("/dev/stdout", 0);
+    xmlTextWriterPtr writer = xmlNewTextWriter(xmlOutputBufferCreateFile(stdout, NULL));
     xmlTextWriterSetIndent(writer, 1);
 
     XML_Parser parser = XML_ParserCreate(NULL);
@@ -834,6 +835,10 @@ int main(int argc, char *argv[]) {
                 done = true;
             }
             read += len;
+            if (ferror(stdin)) {
+                xml_ctx_errf(&ctx, TB_ERR_IO, "input cannot be read after byte %zu", read);
+                goto cleanup;
+            }
             enum XML_Status status = XML_Parse(parser, buffer, len, done);
 
             XML_Index idx = XML_GetCurrentByteIndex(parser);
@@ -882,6 +887,10 @@ cleanup:
     XML_ParserFree(parser);
     xml_ctx_deinit(&ctx);
     xmlFreeTextWriter(writer);
+    if (rc == 0 && (fflush(stdout) != 0 || ferror(stdout))) {
+        fprintf(stderr, "output failed\n");
+        rc = TB_ERR_IO;
+    }
     xmlCleanupParser();
 
     return rc;
-- 
2.43.0


From 297ea28ade1835cee86e5beb208c5e7b0123fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 45/48] fix: indexer: end with an error when records cannot be
 stored or listed

---
 tester/ctester/indexer.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index 083b58d..362a271 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -47,6 +47,8 @@ enum idx_err {
     ERR_DB_NOT_EXISTS = 13,
     ERR_DB_OPEN = 14,
     ERR_DB_SELECT = 15,
+    ERR_DB_INSERT = 16,
+    ERR_IO = 17,
     ERR_USAGE = 64,
 };
 
@@ -413,7 +415,12 @@ cleanup:;
     sqlite3_bind_int_name (ctx->pstmt, ":entity_refs_hex", ctx->current->entity_refs_hex);
     sqlite3_bind_int_name (ctx->pstmt, ":notations", ctx->current->notations);
     sqlite3_bind_int_name (ctx->pstmt, ":max_depth", ctx->current->max_depth);
-    sqlite3_step(ctx->pstmt);
+    int step = sqlite3_step(ctx->pstmt);
+    // a file may be listed twice
+    if (step != SQLITE_DONE && (step & 0xff) != SQLITE_CONSTRAINT) {
+        ctx_err_deinit(&ctx->err);
+        ctx_errf(&ctx->err, ERR_DB_INSERT, "%s", sqlite3_errstr(step));
+    }
 
     XML_ParserFree(parser);
     fclose(fp);
@@ -502,7 +509,9 @@ int cmd_index(int cargc, char *cargv[]) {
         }
     }
 
-    goto cleanup;
+    if (ferror(stdin)) {
+        rc = ERR_IO;
+    }
 
 cleanup:
     ctx_err_deinit(&ctx.err);
@@ -570,9 +579,15 @@ int cmd_query(int cargc, char *cargv[]) {
         rc = ERR_DB_SELECT; goto cleanup;
     }
 
-    while ((rc = sqlite3_step(stmt) == SQLITE_ROW)) {
+    int step;
+    while ((step = sqlite3_step(stmt)) == SQLITE_ROW) {
         printf("%s\n", sqlite3_column_text(stmt, 0));
     }
+    if (step != SQLITE_DONE) {
+        rc = ERR_DB_SELECT;
+    } else if (fflush(stdout) != 0 || ferror(stdout)) {
+        rc = ERR_IO;
+    }
 
 cleanup:
     sqlite3_finalize(stmt);
-- 
2.43.0


From 667a4c8f4cae60a24a83acbe9b7eddcf1c41e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 46/48] fix: indexer: do not free what was never allocated when
 a database does not open

---
 tester/ctester/indexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index 362a271..f456a8a 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -529,6 +529,7 @@ int cmd_query(int cargc, char *cargv[]) {
     int rc = OK;
     sqlite3 *db = NULL;
     sqlite3_stmt *stmt = NULL;
+    struct buf buf = {0};
     bool include_errors = false;
     bool include_dupes = false;
 
@@ -563,7 +564,6 @@ int cmd_query(int cargc, char *cargv[]) {
     }
 
     // TODO: status=0 should be disabled by a flag
-    struct buf buf = {0};
     buf_strappend(&buf, "SELECT file FROM xml WHERE ");
     if (!include_errors) {
         buf_strappend(&buf, "status=0 AND ");
-- 
2.43.0


From 3cfcfc944272c47cdcf2d39b74d8c0037b2b376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 47/48] fix: reject an attribute before it leaves a namespace
 behind

---
 attr.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/attr.go b/attr.go
index 0e779a7..46f23e6 100644
--- a/attr.go
+++ b/attr.go
@@ -72,17 +72,18 @@ func (a Attr) write(w *Writer) error {
 		}
 	}
 
-	if w.Indenter != nil {
-		if err := w.writeIndent(Event{StateOpen, AttrNode, 0}); err != nil {
-			return err
-		}
-	}
-
 	name := a.Name
 	if a.Prefix != "" {
 		name = a.Prefix + ":" + name
 	}
 
+	// reject the attribute before it leaves a namespace behind
+	if w.Enforce {
+		if err := CheckName(name); err != nil {
+			return err
+		}
+	}
+
 	if a.URI != "" && w.current >= 0 {
 		ns := ns{prefix: a.Prefix, uri: a.URI}
 		found := false
@@ -103,6 +104,12 @@ func (a Attr) write(w *Writer) error {
 		}
 	}
 
+	if w.Indenter != nil {
+		if err := w.writeIndent(Event{StateOpen, AttrNode, 0}); err != nil {
+			return err
+		}
+	}
+
 	if err := w.printer.printAttr(name, a.Value, w.Enforce); err != nil {
 		return err
 	}
-- 
2.43.0


From 5cff826bb70910df3ac5916da26f779719d1beef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 48/48] fix: indexer: count references to entities with
 one-letter names

---
 tester/ctester/indexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/ctester/indexer.c b/tester/ctester/indexer.c
index f456a8a..b7aa9ca 100644
--- a/tester/ctester/indexer.c
+++ b/tester/ctester/indexer.c
@@ -214,7 +214,7 @@ void xml_comment(void *user_data, const expat_ch *data) {
 
 void xml_default(void *user_data, const expat_ch *s, int len) {
     struct index_ctx *ctx = user_data;
-    if (len > 3 && s[0] == '&' && s[len-1] == ';') {
+    if (len > 2 && s[0] == '&' && s[len-1] == ';') {
         if (s[1] == '#' && s[2] == 'x') {
             ctx->current->entity_refs_hex++;
         } else if (s[1] == '#') {
-- 
2.43.0

