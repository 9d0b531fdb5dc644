#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here, once)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["Parse and ParseFile results"], hook_needed=None)))

p("C01", "The outcome of a parse does not depend on how the bytes arrive",
  "For the same bytes and error mode, Parse returns the same document, the same error and logs the same warnings however the io.Reader hands the bytes over. Short reads of any size, reads that return no data, the end reported together with or after the last bytes, slow delivery, a reader that uses the buffer as scratch space and any concrete reader type (byte reader, seeker not at its start, limited, section, multi, buffered, in-memory) make no difference.",
  ["inputs", "schedules", "fault_sequences"], "every document (UTF-8 and legacy encodings, valid or not), every error mode, every split of its bytes into reads and every reader type",
  "The tests parse whole files from disk, which arrive in a few full-buffer reads; no split, empty read, early end or other reader type is ever exercised.",
  ["svg.go"], [("Parse hands the stream to the XML decoder and consumes tokens, never bytes", "svg.go Parse"), ("charset conversion of declared encodings", "svg.go Parse, decoder.CharsetReader")])
p("C02", "A read failure is never mistaken for the end of the document",
  "If the stream fails with any error other than io.EOF before its end, at any byte (also behind the root element), Parse returns a non-nil error from which the stream's error can be recovered with errors.Is; where the failure falls inside a multi-byte character a non-nil error of any kind is enough. A failure is surfaced even if a retry of the read would have succeeded.",
  ["inputs", "fault_sequences"], "every document that parses when intact, every mode, every offset and every kind of error value, with or after data, sticky or transient",
  "No test reads from a failing stream.",
  ["svg.go"], [("any token error but io.EOF is returned to the caller", "svg.go Parse")])
p("C03", "A truncated document is never reported as complete",
  "If the stream ends cleanly before the end of the root element, Parse returns a non-nil error in every error mode. If it ends before any element, no document is returned either.",
  ["inputs", "fault_sequences"], "every well-formed document, every mode, every cut before the end of its root element and every delivery of the remaining bytes",
  "TestInvalidXML covers one document; the guarantee quantifies over every cut of every document.",
  ["svg.go"], [("the XML decoder runs in strict mode, so an end of file inside an element is an error", "svg.go Parse"), ("seenTag: end of file without any element is an error without document", "svg.go Parse")])
p("C04", "What is returned beside an error is exactly what had arrived",
  "When the stream ends or fails inside the root element, Parse still returns a document, and it holds exactly what had arrived: the paths of all elements whose start tag was complete, with the same styles in the same order, the view box and size, the masks whose end tag had arrived, and titles and descriptions (the last of which may hold part of the text still arriving). It is the beginning of what the whole document would have given: no path appears or changes because of the failure.",
  ["inputs", "crash_points", "fault_sequences"], "every document, mode, delivery and crash offset inside the root element, as clean end or any failure",
  "The tests never look at the document returned beside an error.",
  ["svg.go", "parse.go", "svg_elements.go"], [("errors return the document built so far", "svg.go Parse"), ("an element is added when its start tag is complete", "parse.go readStartElement")])
p("C05", "A parse ends when its stream does",
  "Parse returns within a number of steps bounded by the size of the input whatever the stream does: slow, dribbling, interleaved with empty reads, ending early or failing, sticky or transient. After the stream has reported its end or a failure, Parse asks it at most a handful of times more and consumes no byte delivered after a failure. A stream that only goes on returning nothing, without error, is given up after a bounded number of reads (in documents without a legacy encoding). When it has returned, nothing it started keeps running.",
  ["schedules", "fault_sequences", "inputs"], "every document, mode, delivery and end of the stream (clean or failing, sticky or transient)",
  "Termination and absence of retries under failing streams cannot be sampled by tests that read intact files.",
  ["svg.go", "parse.go", "parse_path.go"], [("the token loop ends at the first error", "svg.go Parse"), ("every scanning loop advances", "parse_path.go, parse.go")])
p("C06", "Corrupted input never crashes or hangs the parser",
  "For every sequence of bytes, Parse returns a document or an error in every error mode: it never panics, never overflows the stack, ends within a number of steps bounded by the size of the input and takes no memory out of proportion to it (whatever numbers the document holds). In particular this holds for any document damaged in storage or transit: flipped, lost, repeated, zeroed, swapped or spliced bytes, lost or repeated tags and attributes, truncated or replaced values.",
  ["inputs", "fault_sequences"], "every document and every sequence of storage faults applied to it, every mode and delivery",
  "The tests parse about two dozen well-formed files; damage is unbounded in kind and place.",
  ["svg.go", "parse.go", "svg_elements.go", "parse_path.go", "shapes.go", "patterns.go", "units.go", "styles.go", "mask.go"],
  [("length checks before indexing of points, colours and parameters", "parse.go, patterns.go, parse_path.go"), ("style stack balanced by start and end elements", "svg.go, svg_elements.go useF")])
p("C07", "Concurrent parses do not affect each other",
  "Parse and ParseFile may be called from any number of goroutines at once (also from inside the reader of another parse): each call returns the document, error and warnings it would have returned alone, without data races. What a caller does with its own result, including overwriting all of it, is invisible to every other call and result.",
  ["schedules", "inputs", "fault_sequences"], "every interleaving of any parses of any documents, including failing streams, crashing readers, nested parses and callers that modify their results",
  "The tests parse sequentially; an interleaving that breaks isolation has no reason to occur in them.",
  ["svg.go", "parse.go", "svg_elements.go", "styles.go", "patterns.go"], [("all parse state lives in a cursor made per call", "svg.go Parse"), ("package variables (element table, default style, colour names) are only read after initialisation", "svg_elements.go drawFuncs, styles.go DefaultStyle")],
  state=[dict(name="drawFuncs, DefaultStyle", meaning="shared by all parses", where="svg_elements.go, styles.go")])
p("C08", "Earlier calls leave no trace in later ones",
  "The outcome of a parse depends only on its input and mode, and of a drawing only on document, options and target: both are the same in a process that has just started and after any history of other parses and drawings, including ones that failed, panicked in their reader or painter, or whose results the caller modified. Results returned earlier never change because of later calls. What belongs to the whole program (the standard logger's flags, prefix and output, the working directory, the environment) stays as the program set it.",
  ["histories", "inputs", "fault_sequences"], "every history of operations in a process and every following operation",
  "Each test makes one pass over a fixed list; no test compares an outcome after a history with a fresh one.",
  ["svg.go", "parse.go", "styles.go", "svg_elements.go", "renderer/options.go", "renderer/gg/draw.go", "renderer/draw2d/draw.go", "renderer/rasterx/draw.go"], [("no mutable package state", "all packages"), ("documents own their slices and maps", "svg.go, parse.go")])
p("C09", "Drawing leaves the document unchanged and may run concurrently",
  "The Draw functions of all three renderers only read the document and the options they are given: after any number of drawings, also ones abandoned when a painter panicked, it is equal to what it was before and draws the same picture. Any number of goroutines may draw one document at once, each on its own target, also while the same content is being parsed again, without data races and with the pixels each drawing would have produced alone.",
  ["schedules", "inputs", "fault_sequences"], "every document, every mix of renderers, targets and opacities, every interleaving and every point at which a painter crashes",
  "No test draws anything.",
  ["renderer/gg/draw.go", "renderer/draw2d/draw.go", "renderer/rasterx/draw.go", "renderer/options.go", "patterns.go", "matrix.go"], [("paths, styles and gradients are passed by value", "renderer/*/draw.go drawTransformed"), ("gradient bounds are set on a copy", "renderer/rasterx/draw.go, patterns.go ApplyPathExtent")], observe=["pixels", "the document before and after"])
p("C10", "What a target drew before does not change how the next path is drawn",
  "When several paths, or several documents one after the other, are drawn on one graphic context, every path has exactly the effect on the pixels that it would have if it were drawn with a fresh graphic context over the same pixels: no colour, gradient, opacity, line width, cap, join, dash pattern, fill rule, mask or pending path outline carries over from one path or drawing to the next, nor from what the caller drew on the context himself before (leaving no unfinished path, clip or transformation).",
  ["histories", "inputs"], "every sequence of paths and drawings on one context of each renderer, every document, target and opacity",
  "No test draws anything; state carried between paths only shows in particular sequences of styles.",
  ["renderer/gg/draw.go", "renderer/draw2d/draw.go", "renderer/rasterx/draw.go"], [("each path sets every parameter it uses before painting", "renderer/*/draw.go drawTransformed"), ("the mask is reset for paths without one", "renderer/gg/draw.go drawTransformed")], observe=["pixels"])
p("C11", "ParseFile reads the file as it is now and gives it back",
  "ParseFile returns exactly what Parse returns for the file's current contents, however the disk delivers them (also from a named pipe, whose size is not known beforehand) and whatever was parsed from that name before. A file that cannot be opened gives no document and an error that matches the cause with errors.Is; a read error part-way gives a non-nil error (matching the cause with errors.Is unless the content is in error itself). Every file it opened is closed when it returns, in every case, and it never writes, creates or truncates a file.",
  ["inputs", "fault_sequences", "histories"], "every file, mode, open failure, read error at any offset, short reads, truncation while reading, replacement or removal between calls",
  "The tests open existing readable files; none sees an I/O error, counts descriptors or changes a file between calls.",
  ["svg.go"], [("open error returned as is", "svg.go ParseFile"), ("deferred close", "svg.go ParseFile")], observe=["ParseFile results", "open, read and close calls"])
p("C12", "Error modes change reporting, never the result",
  "Ignore and warn mode return the same document and error for every input; warn mode additionally logs at least one warning for every unsupported element outside a defs element, ignore and strict mode log nothing, and a log sink that fails changes neither results nor warnings. Strict mode behaves like ignore mode when warn mode would log nothing, and otherwise returns an error beside the paths that precede the problem.",
  ["inputs", "configurations", "fault_sequences"], "every document, delivery and mode, and every behaviour of the log's output",
  "The tests use one mode per file and never look at what is logged; the relation between modes quantifies over all inputs.",
  ["svg.go", "parse.go", "svg_elements.go", "types.go"], [("handleError and the unknown element branch", "parse.go handleError, readStartElement")], observe=["results in all modes", "the log's output"])
p("C13", "The caller's stream stays the caller's",
  "Parse uses the stream it is given only by reading forward from its current position. Whether it succeeds, refuses the content or meets a failing or panicking reader, it never closes the stream, writes to it, changes its deadlines or moves it backwards, and does not touch it after returning; the bytes behind a buffer or in-memory reader stay as they were.",
  ["inputs", "fault_sequences"], "every document, mode, stream type and end of the stream",
  "The tests never pass a stream they go on using.",
  ["svg.go"], [("Parse only hands the stream to the XML decoder; only ParseFile closes, and only what it opened", "svg.go Parse, ParseFile")], observe=["calls on the stream"])
p("C21", "Whatever Parse returns can be drawn",
  "Whatever document Parse returns, from intact bytes, from bytes damaged in storage, or beside an error because the stream ended or failed part-way or the content was refused, the Draw functions of all three renderers return for it: they do not panic, do not block, do not recurse endlessly and end within a number of steps bounded by the size of the document. Excepted are time spent and failures inside the painting libraries when shapes reach more than 1,000 pixels beyond the picture or dashes are microscopic.",
  ["inputs", "crash_points", "fault_sequences"], "every document, storage fault, crash point of the stream and mode, every renderer, target and opacity",
  "No test draws anything, and the documents that break a renderer are the half-finished or damaged ones nobody writes by hand.",
  ["renderer/gg/draw.go", "renderer/draw2d/draw.go", "renderer/rasterx/draw.go", "renderer/options.go", "patterns.go", "parse.go"],
  [("Draw walks paths, gradients and masks and must cope with missing and empty ones", "renderer/*/draw.go"), ("gradient colours without stops", "patterns.go GetColor")], observe=["Draw returns"])
p("C23", "Elements leave no trace on what follows them",
  "In a document with one svg element, an element outside of definitions (defs, gradients) that holds none itself (nor masks) adds its own paths, titles and descriptions and nothing else: if it is lost, those are missing, if it is repeated, they are repeated, and everything else in the document is the same. Comments, processing instructions and unknown attributes, and in ignore and warn mode unsupported elements outside of definitions, titles and descriptions, change nothing at all; a definition that nothing refers to changes nothing but the list of masks. The same holds for what is returned beside an error when the stream ends or fails later on.",
  ["inputs", "histories", "fault_sequences"], "every sequence and nesting of elements, every element lost or repeated and every place where foreign content arrives, every mode, every end of the stream behind it",
  "The parser carries its state (style stack, numbers read last, open title, mask and definition flags) from element to element; tests parse a few fixed sequences and never compare one with another.",
  ["parse.go", "parse_path.go", "svg.go", "svg_elements.go"],
  [("cursor state is reset for each element", "parse_path.go init, svg_elements.go"), ("one style pushed per start tag, popped per end tag", "parse.go pushStyle, svg.go Parse"), ("flags cleared by end tags and after use", "svg.go Parse, svg_elements.go useF")], observe=["documents returned"])

NA = []
def na(id, title, statement, why, files, mech, reason):
    p(id, title, statement, ["inputs"], "every input", why, files, mech)
    NA.append(dict(property=id, reason=reason))
pure = "A pure function of the document: no schedule, stream fault, clock, storage or second party can change it. Deciding it needs input generation against an independent model of SVG, not a simulator; it is only exercised (not judged) by the claimed checks."
na("C14", "Path data is compiled to the geometry SVG defines",
   "Every path data string that SVG accepts compiles to the sequence of moves, lines, curves and closes that the SVG grammar and its rules for relative, smooth, shorthand and repeated commands and arcs define.",
   "A few strings are tested; the grammar is infinite.", ["parse_path.go", "path.go", "shapes.go"], [("command interpreter", "parse_path.go compilePath")], pure)
na("C15", "Transforms compose as SVG defines",
   "Lists of transforms and nested groups give the matrix that SVG's rules of composition define, and applying it to a point gives SVG's coordinates.",
   "Not tested.", ["parse.go", "matrix.go"], [("parseTransform", "parse.go"), ("Matrix2D", "matrix.go")], pure)
na("C16", "Lengths, units and percentages resolve as SVG defines",
   "Every length with every unit, and percentages against the view box, resolve to the user units SVG defines.",
   "Some values are tested.", ["units.go"], [("parseUnit, resolveUnit", "units.go")], pure)
na("C17", "Styles are inherited and overridden as SVG defines",
   "Presentation and style attributes of an element override those inherited from its ancestors, and nothing leaks to siblings.",
   "Not tested beyond a few files.", ["parse.go", "styles.go"], [("style stack", "parse.go pushStyle")], pure + " (That siblings do not influence each other is claimed as C23, and that a path already delivered does not change as C04.)")
na("C18", "Colours and gradients are parsed as SVG defines",
   "Every colour notation and gradient definition gives the colour, stops, units, spread and matrix that SVG defines.",
   "Not tested.", ["patterns.go", "svg_elements.go"], [("parseSVGColor, readGradURL", "patterns.go")], pure)
na("C19", "References to defs and masks resolve to the referenced content",
   "Every use element draws the referenced content at the given offset, and every mask reference names the mask with that id.",
   "One mask file is tested.", ["svg_elements.go", "mask.go", "parse.go"], [("useF, maskF", "svg_elements.go")], pure)
na("C20", "The renderers draw what the document says",
   "Each renderer paints every path of the document in order with its style, fitted into the target, so that the three pictures agree with SVG up to antialiasing and documented limits.",
   "Not tested.", ["renderer/gg/draw.go", "renderer/draw2d/draw.go", "renderer/rasterx/draw.go", "renderer/options.go"], [("Draw", "renderer/*/draw.go")],
   "A pure function of document and options: fidelity to SVG has no schedule, fault or history in it and needs an independent renderer as oracle. What does depend on history, concurrency and painter faults is claimed as C08, C09 and C10.")
na("C22", "Render options are applied as given",
   "Target and Opacity scale, place and fade the picture as documented, in any order and combination.",
   "Not tested.", ["renderer/options.go", "matrix.go"], [("Options", "renderer/options.go")], "A pure function of the options and the view box, without schedule, fault or history.")

with open("properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

T = "deterministic simulation with fault injection: "
TECH = dict(
 C01=T+"seeded stream deliveries against the whole-read outcome",
 C02=T+"seeded read failures injected at any byte of simulated streams",
 C03=T+"seeded truncation of simulated streams",
 C04=T+"seeded stream crashes, partial result against the completed prefix as reference model",
 C05=T+"bounded progress under slow, failing and ending streams",
 C06=T+"seeded storage corruption with a step budget",
 C07=T+"statement-level seeded scheduling of concurrent parses under the race detector, outcomes against a fresh process",
 C08=T+"seeded operation histories with faults, probes against a process just started",
 C09=T+"seeded scheduling of concurrent drawings with painter crashes under the race detector",
 C10=T+"seeded drawing histories on one context against a fresh context per path",
 C11=T+"simulated disk faults below ParseFile",
 C12=T+"all modes under seeded deliveries with a failing log sink",
 C13=T+"stream ownership under seeded deliveries, failures and reader crashes",
 C21=T+"documents left by storage damage and stream crashes are drawn under step and recursion budgets",
 C23=T+"elements lost, repeated or foreign at seeded places of the element history, with stream crashes behind them, against the history without the fault")
COMMON = " Sampling, not proof: a clean run says that no violation was found in the runs counted in the evidence. Real code: the whole library, built from /repo's working tree with a yield point or step counter before each statement, plus encoding/xml, x/net charset, x/text and (where drawn) the painters. Trusted: the harness, the Go toolchain, and the patched seams in sync, os, time and runtime map order (overlay only)."
NOTE = dict(
 C01="Same document, error text and warnings for each of 1-3 deliveries (12 reader types) as for one whole read of the same build.",
 C02="30 kinds of error value at byte offsets biased to markup, character and buffer boundaries.",
 C03="Cuts before the end of the root element of documents that parse when intact; the root's end is found by an independent XML scan.",
 C04="The reference model is the same build's parse of the delivered prefix completed with end tags, plus a prefix check against the whole document.",
 C05="Bounds: 2,000,000 + 1000 x length statements, 16 reads after the end. A stream that never ends and never delivers is not claimed (x/text loops on it).",
 C06="1-6 storage faults per document; stack overflow is observed as the death of the worker process; documents that nest or repeat one thing 500,000 times run with a 16 MB stack.",
 C07="2-4 tasks, 1-3 parses each. Tasks switch only where the seeded scheduler says; the hand-over is hidden from the race detector, so unsynchronised sharing is reported whatever the interleaving.",
 C08="Histories of up to 8 operations; every probe is compared with a process started for it. State that only shows after longer histories is out of reach.",
 C09="2-4 tasks; painters are the real libraries, draw2d and rasterx wrapped to yield and crash.",
 C10="1-3 drawings per context on canvases of 16-28 pixels; rasterx with its own scanner and with one that knows fill rules. Paths on which the painter itself panics or loops alone are skipped and counted.",
 C11="Faults at package os: refused opens, short reads, EIO and others at an offset, truncation while reading, files replaced between calls.",
 C12="Unsupported elements are counted by an independent XML scan.",
 C13="A stream with every method of a connection or file, and real files; reads after return are looked for after yielding to other goroutines.",
 C21="0-3 storage faults, stream crash in a third of the runs. Two defects inside the painting libraries are known findings; painters are not judged on coordinates beyond 1,000 pixels.",
 C23="One fault in the element sequence per run; what an element adds is found by parsing the document up to its start and up to its end. Elements inside definitions are not judged.")
checks = [dict(property=k, quick_cmd="./check.sh %s quick" % k, thorough_cmd="./check.sh %s thorough" % k,
               evidence_file="evidence/%s.json" % k, technique=TECH[k], level="exploration", level_note=NOTE[k] + COMMON) for k in sorted(TECH)]
json.dump(dict(version=1, setup_cmd="./check.sh setup", checks=checks, not_applicable=NA,
  notes="No hooks in /repo: all seams are inserted at build time through go build -overlay (see DESIGN.md). check.sh replay FILE reproduces a violation; check.sh hashes PROPERTY RUNS WORKERS BATCH prints event hashes for the determinism test. Commits in /repo are fixes of genuine defects, listed in known_findings.txt."),
  open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
for x in P: assert len(x["title"]) <= 80, x["id"]
