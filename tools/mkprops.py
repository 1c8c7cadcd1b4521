#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because the JSON lines are unreadable to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

SC="src/scanner.rs"; PA="src/parser.rs"; EM="src/emitter.rs"; RD="src/reader.rs"; DO="src/document.rs"; ER="src/error.rs"; MA="src/macros.rs"; LI="src/lib.rs"; EV="src/event.rs"

p("P01","Every character stream is cut into exactly the YAML 1.1 token sequence",
  "For every input, the scanner delivers exactly the sequence of token kinds that the YAML 1.1 tokenisation rules (as documented for libyaml) assign to it: stream start/end, directives, document markers, block and flow collection starts/ends derived from indentation and brackets, entries, keys (including retroactively inserted simple keys), values, aliases, anchors, tags and scalars. Block openings and closings are balanced, and the stream ends exactly once.",
  ["inputs"],"all character streams (any length, any nesting of block and flow contexts, any indentation)",
  "The suite scans one ten-token document; tokenisation depends on indentation stacks, pending simple keys and context, an unbounded input space.",
  [SC,"src/token.rs"],[("fetch_next_token dispatch, simple-key table and indentation stack",SC),("roll_indent/unroll_indent",SC)],
  ["Scanner::scan / Iterator for Scanner: token kinds and order"],
  [("simple_keys/indents/flow_level","possible keys per flow level; open block collections",SC)])
p("P02","Scalar contents are recovered exactly as YAML 1.1 prescribes",
  "For every plain, single-quoted, double-quoted, literal and folded scalar, the delivered value is exactly the one YAML 1.1 prescribes: line folding, preserved and stripped blanks, chomping and indentation indicators, auto-detected indentation, comments ended, and every escape sequence decoded; and its style is reported as written. Nothing is lost, added or reordered in the content.",
  ["inputs"],"all scalars in all contexts (block/flow, key/value, any indentation, any mixture of line breaks CR, LF, CRLF, NEL, LS, PS)",
  "Tests contain no multi-line scalar assertions; folding/chomping/escape behaviour is a product of many local conditions.",
  [SC,MA],[("scan_plain_scalar, scan_flow_scalar, scan_block_scalar, scan_block_scalar_breaks",SC)],
  ["Token/Event Scalar value and style"])
p("P03","Anchors, aliases, tags and directives reach the user resolved and in scope",
  "Every anchor, alias, tag and directive written in the input is reported with exactly its written content: names unchanged, tag handle and suffix split correctly, URI escapes decoded, shorthand tags expanded with the handle's prefix from the current document's %TAG directives or the built-in defaults, verbatim and non-specific tags kept. Directives apply only to the document they precede.",
  ["inputs","histories"],"all node property combinations, all %YAML/%TAG directive sequences, all sequences of documents",
  "No test contains a tag or directive; scoping needs multi-document streams.",
  [SC,PA],[("scan_tag*, scan_anchor, scan_directive",SC),("process_directives, parse_node tag resolution, default_tag_directives",PA)],
  ["Token TagDirective/VersionDirective/Anchor/Alias/Tag; Event anchor/tag/tag_directives/version_directive"])
p("P04","Event streams follow the YAML grammar, with exact implicit flags and styles",
  "For every input the parser produces exactly the event sequence of the YAML 1.1 grammar: balanced collection and document events between one stream start and one stream end, empty nodes where keys, values or entries are omitted, single-pair flow mappings, implicit and explicit document boundaries. The implicit/plain-implicit/quoted-implicit flags and the block/flow styles are those of the text.",
  ["inputs"],"all inputs",
  "Tests compare a handful of streams from yaml-test-suite at best (not available offline); the grammar is recursive.",
  [PA,EV],[("the 24-state push-down parser",PA)],["Parser::parse / Iterator for Parser: event kinds, flags, styles"],
  [("state/states","parser continuation stack",PA)])
p("P05","Malformed input is rejected, at the right place and with the right message",
  "An input that violates YAML 1.1 is reported as a scanner, parser or reader error after exactly the tokens or events that precede the violation, and a conforming input is never rejected. The error's message, its context and both reported positions are those of the violation found.",
  ["inputs"],"all malformed inputs: bad indentation, unterminated quotes and flow collections, bad directives, tags, escapes, duplicate directives, undefined handles, misplaced indicators, stale keys",
  "Only two error displays are tested.",
  [SC,PA,RD,ER],[("error constructors in scanner and parser; stale_simple_keys",SC)],["Err values of scan/parse/load and their Display text"])
p("P06","No input and no call sequence makes the library panic or hang",
  "Whatever bytes are read and whatever public operations are invoked in whatever order, including continuing after an error, every call of the scanner, parser, loader, emitter, dumper and document API returns in bounded time with a value or an error. Not meant are uses the API asserts against: setting an input, output or encoding twice, reading or emitting before one is set, loading with a parser that parse has advanced into a document, and dumping node tables edited by hand to refer to nodes that do not exist. An input of n bytes yields a number of tokens and events bounded by a linear function of n.",
  ["inputs","histories","fault_sequences"],"all byte strings; all call sequences on the public API; all reader and writer failures",
  "Panics sit on rare paths (end of input inside a construct, empty values, multi-byte characters at slice boundaries).",
  [SC,PA,EM,RD,DO],[("bounds checks, cache/lookahead discipline",MA)],["catch_unwind around each public call; step budget"])
p("P07","Positions of tokens, events and nodes are exact",
  "The start and end positions (index in UTF-8 bytes, line, and column in characters) of every token, event and document node are exactly those of the text it was read from, and line breaks of every kind count once. Implied tokens and events, which have no text of their own, are placed where libyaml documents them: at the key they belong to, or at the token that implies them.",
  ["inputs"],"all inputs, with multi-byte characters and every kind of line break",
  "One test checks the marks of one ASCII document.",
  [SC,PA,RD,MA],[("mark updates in skip/skip_line/read",MA),("start_mark/end_mark of every construct",SC)],["Token/Event/Node start_mark and end_mark"])
p("P08","The character stream is decoded exactly, in every supported encoding",
  "UTF-8, UTF-16LE and UTF-16BE inputs, detected from the byte-order mark or set explicitly, are decoded to exactly the characters they encode, and the detected encoding is reported at the start of the stream. Malformed sequences (truncated, overlong, lone surrogates, out of range) and characters YAML does not allow are rejected with an error naming the offending byte offset, and nothing but what the valid text before them calls for is delivered first.",
  ["inputs","configurations"],"all byte strings in all encodings, with and without byte-order mark, with and without explicit encoding",
  "Tests only read ASCII/UTF-8 from byte slices; decoders are only wrong on rare sequences.",
  [RD,PA,SC],[("yaml_parser_determine_encoding, read_utf8_buffered, read_utf16_buffered, push_char",RD)],["StreamStart encoding; tokens; ReaderError"])
p("P09","Results do not depend on how the input is delivered",
  "For every way of splitting the same bytes into successive reads and of buffering them, and with interrupted reads retried, the same tokens, events, positions and errors are produced as when all bytes come at once. An I/O failure or undecodable input is reported as such after some unaltered prefix of those results (reading ahead may cut them short), and is never turned into a normal end of stream.",
  ["inputs","schedules","fault_sequences"],"all chunkings of all inputs (including cuts inside a multi-byte character, a surrogate pair, CRLF or a byte-order mark), all positions of an I/O error or interruption",
  "Tests feed whole strings.",
  [RD,SC,PA],[("fill_buf/consume handling and the lookahead buffer",RD)],["results of scan/parse with BufRead sources of chosen chunk schedules"])
p("P10","The stream protocol: one end, nothing after it, documents in order",
  "Parsing delivers stream start first and stream end last, exactly once; afterwards and after any error, parse keeps reporting the end, iterators keep returning nothing, and load keeps reporting no document. Loading a stream document by document yields its documents in order, each once, and then reports the end.",
  ["histories","inputs"],"all sequences of parse, load and iterator calls over all inputs, including calls past the end and past errors",
  "Tests stop at the first end of stream.",
  [PA,SC,DO,LI],[("stream_end_produced, ParserState::End, load loop",PA)],["Parser::parse, Parser as Iterator, Scanner as Iterator, Document::load, documents()"])
p("P11","A loaded document is the node graph of the text",
  "Loading builds exactly the graph the events describe: one node per scalar or collection in reading order with value, tag and style, every item and key/value pair attached to its parent in order, every alias resolved to the node of that document that carries the anchor, missing tags replaced by the defaults for their kind, and document directives and implicit flags retained. Undefined aliases and duplicate anchors are composer errors at the right position.",
  ["inputs","histories"],"all documents with any nesting and alias structure, including self-referential collections; all multi-document streams",
  "No test loads a document with aliases.",
  [DO],[("load_document, load_alias, register_anchor, load_*_end",DO)],["Document::load: nodes, tags, children, directives, errors"],
  [("aliases","anchor table of the current document",DO)])
p("P12","Emitting then parsing gives back the same events",
  "For every grammatical sequence of events and every emitter setting, the text produced parses back without error to the same sequence of events: same structure, scalar values, anchors, aliases, resolved tags, and document directives, with tags omitted only where the event says they are implicit. Presentation (styles, explicit markers) may differ, content may not.",
  ["inputs","configurations","histories"],"all event sequences, all scalar values and styles in all positions, all combinations of canonical, indent, width, unicode, line break and encoding",
  "Emitter round trips in the upstream suite need data files that are not available; no test emits anything but one document.",
  [EM,SC,PA],[("scalar analysis and style selection, simple-key checks, indicator/whitespace state",EM)],["bytes written by the emitter; events parsed from them"])
p("P13","Emitter output text and layout follow the event styles and the settings",
  "The text written for an event sequence is exactly the documented libyaml presentation: requested flow or block collection style, indentation by the configured step, lines folded at the configured width, chosen line break, canonical form, document markers, directives and separators, each appearing exactly where required.",
  ["inputs","configurations"],"all event sequences with all settings (indent 1-10 and out of range, width negative/small/large, canonical, unicode, line breaks)",
  "Tests check one fixed output.",
  [EM,MA],[("emitter state machine, write_indent, write_indicator, process_*",EM)],["text written"])
p("P14","Scalar style selection and escaping are faithful and minimal as documented",
  "For every scalar value, requested style and context, the emitter keeps the requested style when it can represent the value there and otherwise falls back to the documented next style; plain and quoted text, folded and literal blocks with their indentation and chomping hints, and every escape sequence are exactly those that denote the value.",
  ["inputs","configurations"],"all string values (control, non-ASCII, surrogate-range, BOM, blanks, breaks, indicators) x styles x contexts (root, key, value, sequence item, flow/block) x settings",
  "No test emits a multi-line or non-ASCII scalar.",
  [EM,MA],[("yaml_emitter_analyze_scalar, select_scalar_style, write_*_scalar, write_block_scalar_hints",EM)],["text written for Scalar events"])
p("P15","The emitter accepts exactly well-formed event sequences",
  "Emitting accepts every grammatical event sequence with valid node properties, buffering only as many events as needed, and rejects at the first offending event, with the documented message, any event out of place, an empty or ill-formed anchor or tag, an invalid or duplicate directive, an unsupported version, and a scalar whose tag is absent where it is not implicit.",
  ["histories","inputs"],"all sequences over the ten event kinds and all property values",
  "No test emits an invalid sequence.",
  [EM],[("emitter state machine, analyze_event, need_more_events",EM)],["results of Emitter::emit"])
p("P16","Everything emitted reaches the sink, in the right encoding, exactly once",
  "The bytes given to the output are exactly the encoding (UTF-8, or UTF-16LE/BE with byte-order mark) of the emitted text, in order, without loss or duplication, whatever the buffer boundaries, and are complete once a document end, stream end or flush has been processed. A failing write or flush is reported as an error by the operation that meets it, never swallowed.",
  ["histories","configurations","fault_sequences"],"all event sequences, output lengths around the buffer size, encodings, and every position of a write failure or short write",
  "Tests write to a Vec/String only.",
  [EM,MA],[("flush, buffer/raw_buffer handling, FLUSH threshold",EM)],["bytes and errors seen by the io::Write sink"])
p("P17","Dumping a document and loading it back preserves its graph",
  "Dumping any document and loading the output yields the graph reachable from its root: same shape, tags and values, with every node reachable more than once, or through a cycle, emitted once with a generated anchor (id001, id002, ... in the order in which a depth-first walk meets nodes a second time) and referred to by aliases elsewhere. Unshared nodes carry no anchor, and an empty document only ends the stream.",
  ["inputs","histories"],"all document graphs including shared and self-containing collections, and sequences of dumped documents",
  "No test dumps a document.",
  [DO,EM],[("anchor_node, generate_anchor, dump_node",DO)],["Document::dump output; reloaded document"])
p("P18","The document builder and node accessors keep a consistent node table",
  "Nodes added to a document get consecutive 1-based ids, keep their tag (default tag when none is given), style and content, and items and pairs are attached in call order to the collection named; a node is found under exactly its id, no node under any other id, and the first node added is the root.",
  ["histories"],"all sequences of document construction and access operations",
  "No test builds a document.",
  [DO],[("add_scalar/add_sequence/add_mapping/append_*; get_node/get_root_node",DO)],["Document API results and public fields"])
p("P19","Errors can be read: kinds, positions and text agree",
  "Every error carries the kind of the layer that failed, its problem and context positions through the accessors, and a rendered text that contains the message, context and 1-based line and column of those positions exactly once; I/O errors are passed through and recoverable as such, and other errors are not mistaken for them.",
  ["inputs"],"all errors from all layers",
  "Two renderings are tested.",
  [ER,LI],[("Display/Error impls, kind/problem accessors",ER)],["Error::kind, accessors, Display, TryFrom<Error> for io::Error"])
p("P20","A reset object behaves like a new one",
  "After reset, a scanner, parser or emitter that was used in any way and stopped at any point, finished, failed or in mid-stream, behaves with its next input or output exactly like a newly created one, apart from the settings documented to be kept.",
  ["histories","inputs"],"all usage histories before reset, all uses after it",
  "No test calls reset.",
  [SC,PA,EM],[("reset",SC),("reset",PA),("reset",EM)],["results after reset compared with the specification of a fresh object"])
p("P21","The event-notation tools are faithful to the text and to the notation",
  "For every valid text, run-parser-test-suite writes exactly one line per event in the yaml-test-suite notation: explicit document markers, anchors, tags, scalar style and the escaped value, then succeeds; on an error it stops after the events before it and reports it. run-emitter-test-suite emits exactly the events its lines denote, whatever characters their values contain, and fails at the first line that is unknown or is refused.",
  ["inputs"],"all texts given to the parser tool; all well-formed event notations, with lines out of place or unknown, given to the emitter tool",
  "The suites that would drive the tools need data files that are not available offline; no test runs either tool.",
  ["src/bin/run-parser-test-suite.rs","src/bin/run-emitter-test-suite.rs"],[("test_main, print_escaped","src/bin/run-parser-test-suite.rs"),("test_main, get_properties, get_value","src/bin/run-emitter-test-suite.rs")],
  ["standard output, standard error and exit status of both binaries"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
