#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks below."""
import json,subprocess,sys,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have=set()
for f in ['checks_doc.go','checks_str.go','checks_prog.go','checks_env.go','checks_tools.go','checks_index.go','checks_fuzz.go','checks_run.go','checks_misc.go','checks_io.go']:
    try: have|=set(re.findall(r'checks\["(C\d+)"\] = ',open('/verif/harness/'+f).read()))
    except FileNotFoundError: pass
T={
'C01':('property-based testing: generated documents and call styles, strict XML parser as oracle','Every accepted output of tens of thousands of generated documents, with and without spoiled fields, is parsed by an independent strict XML 1.0 parser. Assumes that parser; does not establish absence.'),
'C02':('property-based testing: round trip of generated documents through an independent parser','Parsed output is compared item by item with a walk of the generated tree, over drawn calling styles and depths past the stack and buffer sizes.'),
'C03':('property-based testing with complete enumeration of code points and short strings','Every code point in several positions and every short string over a critical alphabet, plus random and long strings, round-tripped through the parser.'),
'C04':('model-based testing: generated fields, splits and call sequences against an executable specification','Verdict of every call compared with an independent statement of the rules; recorded findings are excluded and re-demonstrated.'),
'C05':('model-based testing: complete parent/child matrix to depth four and random histories','Complete for chains of up to four open nodes and five histories each; random beyond that.'),
'C06':('stateful model-based testing of starts and ends against a reference stack','Verdict and depth after every call and the parsed output at the end; depth is compared relative to a fresh writer (recorded finding).'),
'C07':('metamorphic property-based testing: same document in several calling styles','Byte equality of generated documents over drawn mixes of calling styles, with and without indenting.'),
'C08':('metamorphic property-based testing: buffer sizes and flush placements against a cumulative reference','Delivered bytes compared after every flush and at the end, for drawn buffer sizes around and below the content.'),
'C09':('fault injection enumerated over byte offsets, on generated documents','For each generated document every (quick: many) offset fails in three ways; prefix, stickiness and reporting are asserted.'),
'C10':('property-based testing: injected invalid items in generated documents, specification as oracle','One invalid item per document in a drawn deferred or streamed place; an error is required by the end of its node.'),
'C11':('model-based testing of namespace bindings, parsed output compared with the specification','Consistent and conflicting bindings over few prefixes and URIs.'),
'C12':('metamorphic property-based testing: parsed output with and without indenting','Added text items must be blank and lie between markup.'),
'C13':('property-based testing: output decoded with independent codec tables, compared with the UTF-8 run','Single-byte, multi-byte and UTF-16 encoders at drawn buffer sizes; markup the encoding lacks is a recorded finding.'),
'C14':('property-based testing with enumeration of declaration options','Declaration bytes compared with an independent rendering of the options.'),
'C15':('property-based testing with enumeration of declaration fields, parsed back','Each declaration parsed by the strict parser and compared field by field.'),
'C16':('property-based testing: short or full form of every element against the generated tree','Endings, marks and content drawn; parsed tags compared.'),
'C17':('property-based testing: raw strings spliced at predicted offsets of the raw-free output','The expected output is the raw-free output with the raw bytes inserted at the offset reached by the calls before them.'),
'C18':('metamorphic property-based testing: enforcing, loose and non-enforcing writers on the same calls','Accepted sequences give equal bytes; invalid input is not rejected with enforcement off.'),
'C19':('property-based testing with enumeration of narrow types, strconv as inverse','All 8-bit and 16-bit values, extremes and random values of the others.'),
'C20':('stateful model-based testing of the error collector','Random sequences of collecting calls against a trivial model, including file and line.'),
'C21':('property-based testing with complete enumeration of code points against the XML productions','Every code point in three positions, invalid UTF-8 and random strings.'),
'C22':('property-based testing of interleaved and concurrent writers, with the race detector','Interleavings are drawn; concurrent runs add the race detector but do not own the schedule.'),
'C23':('metamorphic property-based testing: call sequences with and without their rejected calls','Verdicts, depth and bytes are equal with and without the rejected calls.'),
'C24':('model-based testing: recording, injecting and rewriting indenters against an event automaton','Callbacks checked against the generated document; injected text located in the output.'),
'C25':('differential property-based testing: generated scripts run by the script runner and by direct calls','Scripts over all commands, parameters and options, run as a process.'),
'C26':('differential property-based testing against the libxml2 writer','Generated scripts in the common subset, both outputs parsed and compared.'),
'C27':('property-based testing: generated documents turned into scripts and back','Round trip through script builder and both runners, compared after parsing.'),
'C28':('metamorphic property-based testing of the C tools','Normaliser, encoding fixer, extractor and high-byte detector on generated documents and declarations.'),
'C29':('property-based testing of allocation counters and delivered bytes over streamed programs','Allocation counts of repeated generated programs after warm-up, and bytes withheld per call.'),
'C30':('property-based testing with enumeration of kinds and rejected combinations','Names of all kinds and of arbitrary integers; messages of every rejected combination.'),
'C32':('property-based testing: generated documents indexed and queried, independent counts as oracle','Real index and query runs over lists of generated files; records compared with counts made from the parsed documents.'),
'C33':('fuzzing: generated and structurally damaged inputs to the real programs under sanitizers, plain against filled-memory builds','Crashes, hangs, memory faults and output that depends on uninitialised memory are found by running each program twice per input; bounded by input size (1 MB) and number of cases. Leaks are not looked for.'),
'C34':('property-based testing with injected faults in the programs the script runs','Generated lists of files given to the real script; the programs it runs are stand-ins that run the real ones and spoil their output or status on demand, so the right verdict of every file is known.'),
'C35':('property-based testing of the generator over damaged states, with enumeration of characters against the XML grammar','Runs of the real generator in scratch directories; every character of the basic plane in three places of a name with the writer compiled with the generated table.'),
'C36':('property-based testing of the helpers on a stand-in for the test, conditions known by construction','Verdict, message and place of hundreds of thousands of helper calls. Differences decided by rounding are not compared.'),
'C37':('property-based testing of the runner on scripts with one planted fault, with enumeration of actions and kinds','Generated scripts with a single fault at a drawn place, run as a process; the same scripts with harmless additions as control.'),
'C38':('property-based testing with injected faults of reading and writing at drawn bytes','Every program under limits of file size, full and unwritable outputs, inputs that fail at a byte and outputs with a prior content; the undisturbed run is the oracle for the bytes.'),
'C31':('model-based testing: bytes compared with an independent renderer of the indent rules','Trees of drawn depth and width, indent and newline strings.'),
}
m=dict(version=1,setup_cmd="./setup.sh",checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i in have:
        t,n=T[i]
        m['checks'].append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t,level='fault_enumeration' if i=='C09' else 'exploration',level_note=n))
    else:
        m['not_applicable'].append(dict(property=i,reason='check not built yet'))
m['notes']='All checks are sub-commands of one program, harness/, built from /repo by each check. Replay a failure with ./check.sh replay FILE.'
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(m['checks']),'checks')
