#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      observe_at=observe or ["bytes received by the io.Writer after Flush","errors returned by the calls"],hook_needed=None))
    P.append(d)

p("C01","Accepted documents are well-formed XML",
"With enforcement on, every document that the writer accepts without error and that is then ended and flushed is well-formed XML 1.0: tags balance, every delimiter is closed, every name and character is legal, and no content can break out of its text, attribute value, comment, CDATA section or processing instruction. The caller supplies only what the writer cannot check: distinct attribute names, one root, declarations in document order, valid free-form DTD fragments, and no raw text.",
["programs","inputs","configurations"],"all accepted call sequences that build one document, any depth, width and content, any calling style, indenting on or off",
"The tests compare a few dozen short hand-written calls with literal strings; they never nest past the writer's initial stack, never cross its buffer, and never parse what was written.",
["writer.go","node.go","elem.go","nodes.go","attr.go","dtd.go","printer.go","check.go"],
[("open/opened/ended transitions of each node","node.go: node.open, node.opened, node.end"),("escaping","printer.go: EscapeString, EscapeAttrString"),("content checks","nodes.go, check.go"),("parent checks","writer.go: checkParent")],
[("node stack","the started nodes and their states","writer.go: Writer.nodes, current")])

p("C02","A document reads back as it was written",
"Parsing the flushed output gives back exactly the sequence of declarations, start and end tags, attributes in order with their values, text, comments, CDATA sections and processing instructions that the calls asked for, with nothing lost, duplicated, reordered or invented. Adjacent text writes count as one text, and the line-end normalisation every XML parser applies to comments, CDATA and processing instructions is allowed for.",
["programs","inputs"],"all accepted document-building call sequences without raw text or indenting, including chunked content, deep nesting, many siblings and reused stack positions",
"Each test fixes one small tree; node state that leaks between siblings, depths or chunks only shows on histories they do not contain.",
["writer.go","node.go","elem.go","nodes.go","attr.go","printer.go"],
[("stack reuse and clearing","node.go: clear; nodes.go, elem.go, dtd.go: start"),("deferred opening of a parent before its child","writer.go: Next, writeBeginNext"),("escaping","printer.go")])

p("C03","Text and attribute strings survive escaping",
"Whatever Go string is written as text or as an attribute value, a parser reading the output gets the same string back, with each character XML cannot represent and each invalid UTF-8 byte replaced by U+FFFD, and the string never changes the markup around it. This includes quotes, angle brackets, ampersands, ']]>' , tabs, line feeds and carriage returns, at any position and length.",
["inputs"],"all byte strings, valid UTF-8 or not, for text and for attribute values",
"printer_test samples a handful of strings; the fast path, the rune table and the copy offsets depend on every position and rune.",
["printer.go","nodes.go","attr.go"],
[("text escaping","printer.go: EscapeString"),("attribute escaping with ASCII fast path","printer.go: EscapeAttrString, attrStringEscaped"),("legal character range","printer.go: isInCharacterRange")])

p("C04","Enforcement rejects invalid content and accepts valid content",
"With enforcement on, a call returns an error exactly when what it would write is not allowed: an empty or malformed name, '--' in a comment or a comment ending in '-', ']]>' in CDATA, '?>' or a target of 'xml' in a processing instruction, an illegal character (or, in strict mode, a discouraged one), a malformed public ID or encoding name, a quoted literal with both kinds of quote, or a DTD declaration with missing or contradictory parts. The verdict does not depend on how the content is split into chunks or where it is placed, and content that breaks no rule is accepted.",
["inputs","programs","configurations"],"every node kind with valid and invalid field values, strict and non-strict characters, any split of comment and CDATA content into chunks",
"Existing tests try one or two bad values for a few node kinds, and no chunked content.",
["nodes.go","dtd.go","attr.go","elem.go","printer.go","check.go"],
[("per-node checks under Enforce","nodes.go, dtd.go, elem.go, attr.go"),("literal quoting","printer.go: writeSystemID, writeEntityValue, writeExternalID"),("character and name checks","check.go")])

p("C05","Each node kind is only accepted under its documented parents",
"With enforcement on, starting or writing a node succeeds only at the top level or when the innermost open node is one of the parents documented for its kind, and an attribute only before the first content of its element; anywhere else the call returns an error. Raw text is accepted everywhere.",
["programs","histories"],"every node kind against every chain of open nodes, whatever was written before",
"A few parent/child pairs are tested, each on a fresh writer.",
["writer.go","nodes.go","dtd.go","elem.go","attr.go","nodekind.go","doc.go"],
[("parent flags","writer.go: checkParent, pushBegin"),("flag of each open node","nodekind.go; the start methods")])

p("C06","Ending nodes follows strict stack discipline",
"Starts and ends match like a stack: an end call closes the innermost open node, and succeeds only if that node has the requested kind and, where given, name or prefix and name; ending all closes every node innermost first, ending the document closes everything down to it, and ending to a depth remembered earlier closes exactly what was opened since and checks the last one. The reported depth rises by one per start and falls by one per end, and an end with nothing open is an error.",
["histories"],"all sequences of starts, writes and ends of every kind, valid and invalid, at any depth",
"Each ending form has one or two examples at depth one or two.",
["writer.go","node.go"],
[("pop","writer.go: pop, End, EndAny, EndAll, EndDoc, EndToDepth"),("stack","writer.go: nodes, current")])

p("C07","All calling styles produce the same bytes",
"The same document written with streaming calls, with typed or generic start and write calls, with several nodes per call, with blocks, with attributes given in the element or written afterwards, with nested element content, or with comment and CDATA content given up front or in chunks produces the same bytes, with or without the standard indenter.",
["programs","configurations"],"all documents and all ways of splitting them into calls",
"Tests exercise each style on its own example and never compare them on the same document.",
["writer.go","elem.go","nodes.go","dtd.go","attr.go"],
[("structured content","elem.go: Elem.open, Elem.opened"),("generic and typed entry points","writer.go: Start, Write, Block, Start*, Write*"),("indent events of deferred content","node.go: opened")])

p("C08","Buffering is invisible in the output",
"Whatever the initial buffer size and wherever the caller flushes, the bytes delivered to the underlying writer concatenate to the same output, in order and without loss or duplication. After a successful flush everything written so far has been delivered.",
["configurations","histories"],"all buffer sizes and flush placements over all accepted call sequences, including content larger than the buffer",
"All tests use the default buffer, short documents and one final flush.",
["writer.go","printer.go"],
[("buffered writer","writer.go: newWriter, Flush; printer.go: printer")])

p("C09","A failing destination is always reported",
"If the underlying writer fails at any point, what it has received is a prefix of the correct output, nothing more is delivered after the failure, and the failure is returned by the flush at the latest and by every later flush. A write it takes only in part without an error never loses bytes silently either: the flush reports it or the rest follows. No fault is swallowed and none causes a panic.",
["fault_sequences","crash_points"],"a failure or short write at every byte offset of the output, for any accepted call sequence and buffer size",
"No test injects a failing writer.",
["writer.go","printer.go","nodes.go","elem.go","dtd.go"],
[("sticky buffered error","printer.go: cachedWriteError; bufio.Writer")],None,["bytes received by a faulty io.Writer","errors returned by calls and by Flush"])

p("C10","Deferred content never fails silently",
"With enforcement on, if anything given up front inside a node (nested element content, element attributes, comment or CDATA content, attribute-list entries) is invalid, then some call up to and including the end of that node returns an error, whichever call triggers the deferred writing. A sequence in which every call succeeded has written all of its content.",
["programs","inputs"],"any placement and depth of one invalid item in otherwise valid deferred content, triggered by any following call",
"No test puts invalid content in a deferred position.",
["writer.go","node.go","elem.go","nodes.go","dtd.go"],
[("deferred opening","writer.go: Next, writeBeginNext; node.go: opened"),("content loop","elem.go: Elem.opened")])

p("C11","Namespace prefixes are declared once and consistently",
"Every prefix given with a URI on an element or on its attributes is declared on that element exactly once with that URI, before its start tag closes, and a URI without a prefix declares the default namespace. Giving one prefix two different URIs on the same element is rejected, and elements do not inherit or leak each other's bindings.",
["inputs","histories"],"all combinations of prefixes and URIs on an element and its attributes, over any sequence of siblings and descendants",
"Tests cover one or two prefixes on a single element.",
["elem.go","attr.go"],
[("binding list","elem.go: Elem.open, Elem.opened; attr.go: Attr.write")],
[("namespaces","bindings seen on the open element","elem.go: Elem.namespaces")])

p("C12","Indenting only adds whitespace between markup",
"With the standard indenter the output is still well-formed and carries the same tags, attributes, values, comments, CDATA sections, processing instructions and declarations in the same order as without it. Whitespace is added only between two pieces of markup: existing text, CDATA, comments and attribute values are never changed, and never gain whitespace at either end.",
["programs","configurations"],"all documents, indent strings and newline strings made of whitespace, and calling styles",
"The indenter tests compare five small fixed trees with literals.",
["indenter.go","node.go","nodes.go","writer.go"],
[("indent decisions","indenter.go: StandardIndenter.Indent"),("last event","writer.go: Writer.last")],
[("indent stack","levels that received an indent","indenter.go: StandardIndenter.stack, depth")])

p("C13","Other encodings carry the same document",
"Opened with an encoder, the bytes produced decode in that encoding to the same document as the UTF-8 output, the declaration names the given encoding, and characters of text and attribute values that the encoding lacks appear as character references with the same value. Buffer boundaries never split or lose a character.",
["inputs","configurations"],"all documents whose markup the encoding can represent, single-byte, multi-byte and UTF-16 encoders, any buffer size",
"encoding_test writes two short strings in two encodings.",
["writer.go","nodes.go"],
[("encoder wrapping","writer.go: OpenEncoding"),("declared encoding","nodes.go: Doc.open")])

p("C14","The XML declaration reflects the document options",
"A started document emits exactly one XML declaration, first, with version, encoding and standalone in that order: the version is the forced one, else the writer's, else 1.0; the encoding is the forced one, else the one the writer was opened with; suppressed or unset parts are absent, and the standalone value is yes or no as given. The declaration is followed by the writer's newline string, and a malformed encoding name is rejected.",
["inputs","configurations"],"all combinations of declaration options, writer version, opened encoding and newline string",
"Five of the several hundred combinations are tested.",
["nodes.go","check.go"],
[("declaration","nodes.go: Doc.open")])

p("C15","DTD declarations read back as given",
"Document type, entity (general, parameter, external, unparsed), element, attribute-list and notation declarations appear in the order written, and parsing each one gives back the name, identifiers, value, type, content model and default it was given, quoted so that the literal is intact. An inferred attribute default is implied when the value is empty and an ordinary default otherwise.",
["inputs","programs"],"all valid combinations of declaration fields, and any sequence of declarations in a document type, with and without indenting",
"Each declaration form has one fixed example.",
["dtd.go","printer.go"],
[("declarations","dtd.go"),("literals","printer.go: writeExternalID, writeSystemID, writePublicID, writeEntityValue")])

p("C16","Empty elements use the short form exactly when empty",
"An element that is ended with nothing written inside it is written in the short form, unless it was marked to be written in full or ended with the full-end call; an element with any content has a start tag and an end tag carrying its full name. Whether the content was streamed, given up front, or consisted of an empty text makes no difference, and a rejected full-end call does not affect the element.",
["programs","histories"],"all elements with any content, marking and ending call, at any depth",
"Two or three fixed examples near the top of the stack.",
["elem.go","writer.go","node.go"],
[("closing style","elem.go: Elem.opened, Elem.end; writer.go: EndElemFull"),("child count","writer.go: Next")])

p("C17","Raw text is passed through untouched",
"Raw strings appear in the output byte for byte at the point where they were written, at any stage and in any node: inside the start tag if the element is still open, or in its content once it has been opened explicitly or by earlier content. Writing raw text never opens, closes or counts as content of a node, so everything around it is written as it would have been without it.",
["inputs","programs"],"all raw byte strings at all positions of all call sequences",
"Two fixed strings at two positions.",
["nodes.go","writer.go"],
[("raw write","nodes.go: Raw.write"),("explicit opening","writer.go: Next")])

p("C18","Turning enforcement off changes no accepted output",
"Any call sequence accepted with enforcement on produces the same bytes with enforcement off or with non-strict characters, and with enforcement off names, characters, parents and content are not validated, so such calls are not rejected. Text and attribute values are escaped either way.",
["programs","configurations"],"all accepted call sequences, and invalid names, characters, nesting and content with enforcement off",
"Two tests turn enforcement off, for one node each.",
["writer.go","nodes.go","elem.go","attr.go","dtd.go","printer.go"],
[("guards","every `if w.Enforce` block; printer.go enforce parameters")])

p("C19","Typed attribute values read back as the same value",
"An attribute assigned from a boolean, a signed or unsigned integer of any width, or a float of either width is written with a value that parses back to exactly the same value of that type, in plain decimal notation for integers and true or false for booleans, leaving name, prefix and URI unchanged.",
["inputs"],"all values of every supported primitive type, including extremes, negative zero, infinities and NaN",
"No test covers extremes or any value of most widths.",
["attr.go"],
[("formatting","attr.go: Attr.Bool ... Attr.Float64")])

p("C20","The error collector keeps the first error",
"After any sequence of collecting calls, the collector holds the first non-nil error passed to it, with its one-based position in that call and the file and line of the call, and later errors never replace it. Setting, panicking, unwrapping and formatting all expose that error, do nothing when none was collected, and the collect-or-panic form panics exactly when it is given an error, with the first error it was given.",
["histories","inputs"],"all sequences of collecting calls with any mix of nil and non-nil errors",
"Tests use one error, in one call.",
["errs.go"],
[("collecting","errs.go: Do, Must, Set, Panic, Unwrap, Error")],None,["ErrCollector fields and returned errors"])

p("C21","The exported checks agree with the XML productions",
"For every string, the character, public identifier and encoding-name checks accept exactly the strings the XML 1.0 productions allow (strict characters also excluding the discouraged ranges), and the name check accepts exactly the names whose characters are legal name characters in the basic multilingual plane and whose first character may start a name. Empty strings are accepted by all four.",
["inputs"],"all Unicode code points in every position, invalid UTF-8, and arbitrary strings",
"check_test samples ten names and nothing else.",
["check.go","tables_gen.go","gentables.go"],
[("checks","check.go: CheckName, CheckChars, CheckPubID, CheckEncoding"),("name table","tables_gen.go")],None,["errors returned by the exported check functions"])

p("C22","Writers and node values are independent",
"Writers share nothing: interleaving or running them concurrently gives each the output it would produce alone. Node values passed to a writer, including their attribute and content slices, are never modified and can be written again any number of times with the same result. A document value made from another leaves that one as it was.",
["schedules","histories","inputs"],"all sets of documents written by interleaved or concurrent writers, with shared and reused node values",
"No test uses two writers or reuses a node value.",
["writer.go","elem.go","node.go","printer.go"],
[("value copies on the stack","elem.go, nodes.go, dtd.go: start"),("no package-level mutable state","printer.go, nodekind.go")])

p("C23","A rejected call leaves no trace",
"With enforcement on, a call rejected because of its parent, because of a mismatched end, because of the chunk of comment or CDATA content or the processing instruction it writes, because of the name, the conflicting prefix or the place of an attribute, or because of the name or a missing part of a single element, entity, attribute or notation declaration leaves depth, later verdicts and output exactly as if it had not been made.",
["histories"],"any rejected calls of these kinds inserted at any points of any accepted call sequence",
"Tests stop at the first rejection and never look at what follows.",
["writer.go","nodes.go","dtd.go"],
[("checks before effects","writer.go: pushBegin, pop, End; nodes.go; dtd.go")])

p("C24","Custom indenters see a consistent event stream",
"A custom indenter is called once for every state change of every node, in document order: each started node is reported open, then opened, then ended, nested like the document, with its number of children so far, and each simple node is reported when it is about to be written. The previous event passed in is the latest one, what the indenter writes appears exactly at that point of the output, and the text wrapper is applied once to each text and comment content and its result is what is written.",
["programs","configurations"],"all documents and calling styles, with indenters that record, inject and rewrite",
"Only the standard indenter is tested.",
["node.go","writer.go","nodes.go","indenter.go","misc.go"],
[("event calls","node.go: open, opened, end; writer.go: writeIndent, writeBeginCur"),("wrap","nodes.go: Text.write, CommentContent.write")],None,["arguments of the Indenter callbacks","bytes received by the io.Writer"])

p("C25","The script runner performs exactly the scripted calls",
"Running a test script writes the bytes that the corresponding direct calls write, for every command kind and parameter, content whitespace mode, indenting option and supported encoding. A script with an unknown action, kind or parameter, or with a command the writer rejects, exits with an error.",
["inputs","programs"],"all scripts over the documented commands and parameters",
"The runner has no tests.",
["tester/gotester/main.go","tester/gotester/xwrunner.go"],
[("command handlers","tester/gotester/xwrunner.go: writers, starters, enders"),("content cleaning","tester/gotester/xwrunner.go: CleanContent")],None,["stdout and exit status of the script runner"])

p("C26","The writer agrees with libxml2's writer",
"For every script that both can run, the output of this writer and the output of libxml2's text writer parse to the same document: the same elements, attributes, namespace declarations, text, CDATA sections, comments, processing instructions and document type declarations.",
["programs","inputs"],"all scripts restricted to commands and content that the libxml2 runner supports",
"The comparison is only made by a manual shell script over files found on the author's disk.",
["writer.go","elem.go","nodes.go","dtd.go","tester/ctester/ctester.c","tester/gotester/xwrunner.go"],
[("reference runner","tester/ctester/ctester.c"),("Go runner","tester/gotester/xwrunner.go")],None,["stdout of both runners"])

p("C27","A script built from a document reproduces that document",
"Turning a UTF-8 XML document into a test script and running the script gives a document that parses to the same elements, attributes, text, CDATA sections, comments, processing instructions, declaration and document type as the original, with either runner; a document that is not well-formed (ended early, or with more after its end) makes the builder end with an error status.",
["inputs"],"all well-formed UTF-8 documents within the features the script builder supports",
"The script builder has no automated tests.",
["tester/ctester/testbuilder.c","tester/gotester/xwrunner.go","tester/ctester/ctester.c"],
[("event to command translation","tester/ctester/testbuilder.c")],None,["stdout of the script builder and runners"])

p("C28","The comparison tools do not change what a document means",
"The normaliser's output parses to the same document as its input, is the same for inputs that differ only in attribute order, and is unchanged by normalising again; the encoding fixer changes only the encoding name of the declaration, upper-casing, replacing or deleting it as asked, and passes everything else through; the encoding extractor prints the declared encoding and the high-byte detector reports exactly whether a byte above 127 occurs. The normaliser ends with an error status on a document that is not well-formed (ended early, or with more after its end).",
["inputs"],"all well-formed UTF-8 documents, any attribute order, any length across the tools' read buffers",
"The tools have no automated tests.",
["tester/ctester/normaliser.c","tester/ctester/encfixer.c","tester/ctester/encextractor.c","tester/ctester/nohigh.c","tester/ctester/xml.c"],
[("attribute sorting","tester/ctester/normaliser.c: xml_elem_start"),("declaration rewriting","tester/ctester/encfixer.c, xml.c: crap_atts_parse")],None,["stdout and exit status of each tool"])

p("C29","Streaming uses memory for the depth only",
"Writing through the streaming calls allocates nothing once the writer has reached the depth it needs, however many nodes, attributes and bytes are written, so memory does not grow with the length of the document, and the buffer never withholds more than its size from the destination.",
["programs","configurations"],"all streamed documents of any length and mix of node kinds, after warm-up, without namespaces or errors",
"One benchmark-like test checks one fixed call mix for allocations.",
["writer.go","node.go","nodes.go","elem.go","printer.go"],
[("stack reuse","writer.go: pushBegin"),("no boxing of nodes","node.go: node")],None,["process allocation counters","bytes delivered before Flush"])

p("C30","Node kinds and states have stable distinct names",
"Every node kind, the none kind included, keeps its own fixed, non-empty name (such as elem, attr, cdata or none), which also appears in its printed form, and every other value, negative or too large, has an empty name and prints as unknown without panicking; the three node states keep their distinct names open, opened and ended. Error messages about a wrong parent or a wrong end name the kinds involved.",
["inputs"],"all integer values of the kind type, and every rejected parent/child and end combination",
"No test covers naming.",
["nodekind.go","node.go","misc.go","writer.go"],
[("name tables","nodekind.go: kindName, kindFlag, names; node.go: stateName")],None,["names and error strings"])

p("C31","Indentation depth is exact",
"Each line break that the standard indenter adds consists of the writer's newline string followed by the indent string once per open level at that point: elements and comments that directly follow other elements or comments inside an element start on their own line one level deeper than their parent, and an end tag that follows such a child stands on its own line at its element's level; each declaration of an internal subset, and each attribute of an attribute list, starts on its own line one level deeper than what holds it. Elements holding text are closed on the same line, and the document ends with one newline when the document node is ended.",
["programs","configurations"],"all element and comment trees of any depth and width, indent and newline strings, and calling styles",
"Five fixed trees at most three levels deep.",
["indenter.go"],
[("depth tracking","indenter.go: StandardIndenter.Indent")])

p("C32","The tester's index describes the files it was given",
"For every listed UTF-8 XML file that parses, the indexer records its size, SHA-256, declared version and encoding, the numbers of elements and of attributes without and with a prefix, comments (with their total and longest length in bytes), CDATA sections, processing instructions, declarations in the document type, references in the text by kind, and the greatest depth; a listed file that does not parse is recorded as such. Its query command prints exactly the names of the files whose record satisfies the clause, leaving out those that do not parse unless asked with -e, and all but one of those with equal content unless asked with -d.",
["inputs"],"all lists of files, well-formed or not, of any length across the read buffer, and their names",
"The indexer has no automated tests.",
["tester/ctester/indexer.c","tester/ctester/sha256.c","tester/ctester/xml.c"],
[("counting","tester/ctester/indexer.c: the expat handlers"),("record and query","tester/ctester/indexer.c: xml_index, cmd_query")],None,["stdout of indexer query"])

p("C33","No input breaks the programs",
"Whatever it is given on standard input (or, for the indexer, as files), and with whichever of its options, each program of the tester (both script runners, the script builder, the normaliser, the encoding fixer and extractor, the high-byte detector and the indexer) ends by itself, without crashing or panicking and without touching memory it does not own. What it writes and its exit status depend on its input and options alone, not on what memory held before.",
["inputs","configurations"],"all inputs, well-formed or not, of any length and with any bytes, and all combinations of options",
"The programs have no automated tests.",
["tester/ctester/ctester.c","tester/ctester/testbuilder.c","tester/ctester/normaliser.c","tester/ctester/encfixer.c","tester/ctester/encextractor.c","tester/ctester/nohigh.c","tester/ctester/indexer.c","tester/ctester/xml.c","tester/ctester/string.c","tester/gotester/main.go","tester/gotester/xwrunner.go"],
[("stack of nodes to end","tester/ctester/ctester.c: ctx_end_push, ctx_end_pop, ctx_end"),("growing buffers","tester/ctester/testbuilder.c, string.c: buf_append; normaliser.c: xml_elem_start"),("declaration scanner","tester/ctester/xml.c: crap_atts_parse")],None,["exit status, stdout and stderr of each program, built as it is and with sanitizers"])

p("C34","The comparison run gives each file its right verdict",
"For every file named by a list, by -f or by an index query, the comparison script passes it exactly when it is a well-formed document and the builder and both runners succeed and both writers give the document back (attribute order and the case of the encoding name set aside), skips it when it is missing, not text or not well-formed, and fails it otherwise; the totals it prints count every file once, and once more for every further difference reported. This holds for names with any characters, for files in other encodings and for files too large for intermediate files; no temporary file is left behind, and wrong arguments end it with an error status.",
["inputs","configurations"],"all lists of files, of any content, name, encoding and size, and all failures of the programs it runs",
"The script has no automated tests; it is what the writers are judged by.",
["tester/run.sh","tester/tools.sh","tester/ctester/Makefile"],
[("the loop over files","tester/run.sh"),("normalising for comparison","tester/tools.sh: xmlclean")],None,["output, exit status and temporary files of run.sh"])

p("C35","The table generator restores the name table from any state",
"Whatever it finds in place of tables_gen.go (nothing, the right table, one cut, altered or lengthened, something else), the generator either leaves there the one table it makes from nothing or, if it cannot, ends with an error status; a table that is already right is not written again. The writer compiled with that table accepts in the first and the later places of a name exactly the characters of the basic multilingual plane that the XML grammar allows there.",
["crash_points","inputs"],"all prior contents of the file, such as an interrupted write leaves, and all characters of the basic plane",
"Nothing runs the generator; the tests use the table as it was committed, and a handful of names.",
["gentables.go","tables_gen.go","check.go"],
[("the table","gentables.go: run"),("comparison with what is there","gentables.go: run"),("use of the table","check.go: CheckName")],None,["tables_gen.go and the exit status after a run","errors returned by CheckName"])

p("C36","A test helper fails its test exactly when its condition does not hold",
"Assert, Pattern, FloatNear, OK and Equals end the calling test as failed exactly when, respectively, the condition is false, the string does not match, the floats differ by the epsilon or more (and are not equal), there is an error, the values are not deeply equal. When they fail a test they name the file and line of the call and what was found or the caller's formatted message; otherwise they say nothing and the test goes on.",
["inputs"],"all conditions, values, expressions, floats, errors and messages",
"The existing tests are written with these helpers: one that passes too much hides every other failure, and passing tests never exercise the failing side.",
["testtool/testtool.go"],
[("verdicts","testtool/testtool.go: Assert, Pattern, FloatNear, OK, Equals"),("place of the call","testtool/testtool.go: runtime.Caller")],None,["calls on the testing.TB, standard output"])

p("C37","The libxml2 runner refuses what it cannot run",
"A script that is not well-formed, whose root is not script or which is marked as not for this runner, which holds anything but commands, comments and blanks, or a command with an unknown action or kind, a kind its action does not take, or a boolean parameter that is none, makes the runner end with an error status before anything is written. A command that libxml2's writer rejects ends the run with an error status. Comments, blanks and the mark that allows this runner change nothing.",
["inputs"],"all scripts with such a fault at any place among their commands",
"The cases in the repository are all valid; a runner that skips what it does not understand agrees with the other runner by accident and hides differences.",
["tester/ctester/ctester.c"],
[("reading a script","tester/ctester/ctester.c: script_parse"),("reading a command","tester/ctester/ctester.c: command_parse"),("booleans","tester/ctester/ctester.c: bool_from_xml"),("errors of the writer","tester/ctester/ctester.c: script_run")],None,["exit status and standard output of ctester"])

p("C38","The testing programs end with success only if input and output succeeded",
"When reading the input of gotester, ctester, testbuilder, normaliser, encfixer, encextractor, nohigh or indexer fails at any byte they still need, or any byte of their output or of the index cannot be written, they end with an error status, and what they have written by then is a beginning of what they write otherwise. Their output goes to standard output as it stands, behind what a file already holds.",
["fault_sequences"],"all positions of a failure of reading or writing",
"Nothing injects failures around the programs, and with comparisons of their outputs a truncated one decides a verdict; the usage text of testbuilder promises that its output is usable when the status is 0.",
["tester/gotester/main.go","tester/gotester/xwrunner.go","tester/ctester/ctester.c","tester/ctester/testbuilder.c","tester/ctester/normaliser.c","tester/ctester/encfixer.c","tester/ctester/indexer.c"],
[("flushing","tester/gotester/xwrunner.go: Script.Run, flush"),("status","tester/gotester/main.go: main"),("status","tester/ctester/ctester.c: script_run"),("reading and writing","tester/ctester/testbuilder.c: main; normaliser.c: main; encfixer.c: main"),("storing and listing","tester/ctester/indexer.c: xml_index, cmd_index, cmd_query")],None,["exit status and bytes written of the programs under limits of file size, failing inputs and full devices"])

with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import re
for d in P:
    n=len([x for x in re.split(r'(?<=[.])\s+(?=[A-Z])',d['statement']) if x])
    if n>3: print(d['id'],'sentences',n)
print(len(P))
