#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

CLI = "src/main/c/xmq-cli.c"; LIB = "src/main/c/xmq.c"; PT = "src/main/c/parts/"

p("C01", "What is read does not depend on how the bytes arrive",
  "For every input (XMQ, HTMQ, XML, HTML, JSON, lines, or text under a grammar) the same bytes give the same document, or the same rejection, whether they come from a file, from standard input, from a pipe that cannot be seeked, or from a caller's buffer. This holds however the operating system splits, delays or interrupts the reads, for every input size including the ones around internal block sizes, and for auxiliary inputs (grammars, replacement files, stylesheets, schemas) as well as the main one.",
  ["inputs", "schedules", "fault_sequences"],
  "for all input bytes and sizes, all splits of the byte stream into reads, all points at which a read is interrupted or delayed, and all kinds of source",
  "The tests read regular files in one piece through an uninterrupted kernel; they never see a short read, an interrupted read or a non-seekable file, and only a few sizes.",
  [CLI, LIB, PT + "membuffer.c"],
  [("load_stdin read loop", "src/main/c/xmq.c load_stdin"), ("load_file / xmqParseFile block loop", "src/main/c/xmq.c load_file, xmqParseFileWithType"), ("auxiliary file loading", "src/main/c/xmq-cli.c load_file_into_buffer, --with-text-file in handle_option")],
  ["stdout and exit status of the xmq command", "xmqParseBuffer/xmqParseFile results"])

p("C02", "An input that cannot be read in full is an error, never a partial document",
  "Whenever opening or reading any input (the main document, standard input, a grammar, a replacement file, a stylesheet or schema, a document loaded by a stylesheet) fails or ends before the promised size, the command exits with a non-zero status and a diagnostic, and prints or saves nothing derived from the partial bytes. (For document() inside a stylesheet, libxslt defines a failed load as an empty node-set; there the diagnostic is what is promised.) The library call likewise reports failure with an error code and message and leaves no usable half document.",
  ["fault_sequences", "inputs"],
  "for all inputs, all commands that read a file, and all positions at which an open or a read fails (missing, permission, is-a-directory, I/O error at any offset, file shrinking while it is read)",
  "The tests never make a read fail; at most they name a file that does not exist.",
  [CLI, LIB],
  [("read error checks", "src/main/c/xmq.c load_stdin, load_file, xmqParseFileWithType"), ("exit status computed from the load result", "src/main/c/xmq-cli.c main, cmd_load"), ("auxiliary loads", "src/main/c/xmq-cli.c load_file_into_buffer, handle_option")],
  ["exit status, stderr, stdout, saved files", "return value, xmqDocErrno, xmqDocError"])

p("C03", "Success is reported only when every output byte was delivered",
  "When the command exits with status 0, standard output, every file it was asked to save and the page it wrote for the browser hold exactly the bytes of the rendered result, however writes were shortened or interrupted. If any byte could not be delivered (disk full, I/O error, closed pipe, open refused), the command exits with a non-zero status and a diagnostic.",
  ["fault_sequences", "inputs", "configurations"],
  "for all rendered results (formats, sizes), all destinations, and all sequences of short writes, interruptions and write, flush and close failures at any byte",
  "The tests write small outputs to healthy disks and pipes; no write ever fails or is shortened.",
  [CLI, LIB],
  [("console_write", "src/main/c/xmq-cli.c console_write, cmd_output"), ("save-to", "src/main/c/xmq-cli.c cmd_output"), ("browse page", "src/main/c/xmq-cli.c browse"), ("exit status", "src/main/c/xmq-cli.c main")],
  ["bytes that reached stdout / the file", "exit status", "stderr"])

p("C04", "Only the save target is touched, and only after all earlier steps succeeded",
  "Running any command line creates, truncates, writes, renames or removes no file except the targets of its save steps (and the page of its browse step), and it first touches a target only when every earlier step of the pipeline has succeeded. So if any earlier step fails, or the process dies before that moment, every file, including one that is both input and target, still has its old content; if it dies later, only the target is affected and it holds its old content or a prefix of the new one.",
  ["crash_points", "fault_sequences", "programs"],
  "for all pipelines, all file system contents, all points at which the process is killed and all input faults",
  "The tests never kill the process, never look at files other than the one they expect, and do not fail a step that precedes a save.",
  [CLI],
  [("commands run in order, stop at first failure", "src/main/c/xmq-cli.c main, perform_command"), ("save opens its target only in the output step", "src/main/c/xmq-cli.c cmd_output")],
  ["the simulated file system at the crash point and after exit"])

p("C05", "A saved document reads back as the same document, along any conversion chain",
  "A document saved as XMQ (pretty or compact), as XML, or, when it came from JSON, as JSON, and then loaded by another process has the same elements, attributes with their values, text, comments, processing instructions, entities and document type, in the same order. This holds along any chain of conversions and restarts in any combination of these formats and print settings, and a document that has reached its printed form once is printed byte for byte the same when it is loaded and saved again.",
  ["histories", "inputs", "configurations"],
  "for all documents (arbitrary unicode text, quotes, newlines, leading/trailing space, mixed content, namespaces, entities, deep and wide trees, any JSON value) and all chains of save and load steps in separate processes",
  "The tests pin a few hundred fixed documents, each through one conversion; losslessness is claimed for every document and every chain.",
  [LIB, PT + "xmq_parser.c", PT + "xmq_printer.c", PT + "json.c", PT + "xml.c", PT + "text.c", PT + "entities.c"],
  [("quoting and escaping of text", PT + "xmq_printer.c, " + PT + "utf8.c"), ("XMQ parsing of quotes/comments/entities", PT + "xmq_parser.c, " + PT + "text.c"), ("JSON mapping", PT + "json.c")],
  ["saved files", "infoset seen by an independent XML / JSON parser"])

p("C06", "A pipeline does what its commands say, in order, wherever it is cut",
  "A pipeline of commands (delete and select by XPath, add, add-root, replacement with a text, a text file or a document file, deletion and substitution of entities, load of another document, transform with a stylesheet and its parameters, validate), starting from a file, from stdin, from an argument or from nothing, transforms the document exactly as applying each command in turn to an ordered tree does: everything matching, also in attribute values, is changed and nothing else is, a selection keeps its matches in document order, and a match within a match is moved out of it. The result is the same when the pipeline is cut at any point into several processes that hand the document over through saved files.",
  ["histories", "programs"],
  "for all documents, all sequences of edit commands, and all ways of cutting the sequence into processes",
  "The tests run one or two fixed commands on fixed documents; the claim is about every sequence, document and cut.",
  [CLI, LIB],
  [("command list execution", "src/main/c/xmq-cli.c main, perform_command"), ("edit commands", "src/main/c/xmq-cli.c delete_xpath, delete_entity, cmd_replace, cmd_substitute, cmd_add, cmd_add_root, cmd_select, cmd_load, cmd_transform, cmd_validate")],
  ["saved / printed document after every process"])

p("C07", "Documents used by different threads do not influence each other",
  "When several threads use the library at the same time, each on its own document, every call returns exactly the result (document, printed bytes, error code and message, values, callback sequence) that it returns when its thread runs alone, in every interleaving.",
  ["schedules", "programs"],
  "for all sets of per-thread programs over the public API and all interleavings of them, preempting at any basic block of the library",
  "The tests are single threaded.",
  [LIB, PT + "yaep.c", PT + "ixml.c", PT + "json.c", PT + "xmq_parser.c"],
  [("all state hangs off the document / parse state", "src/main/c/xmq.c XMQParseState, XMQDoc"), ("grammar parser error jump", PT + "yaep.c error_longjump_buff")],
  ["return values of every public call"],
  state=[("parse state", "per call state of a parse", "src/main/c/parts/xmq_internals.h")])

p("C08", "A call's result does not depend on the calls made before it",
  "Every library call on a fresh document gives the same result (document, printed bytes, error code and message, values, callbacks) in a long-lived process, after any history of other calls, including failed parses, aborted iterations and freed documents, as it gives in a new process.",
  ["histories"],
  "for all histories of public API calls, successful or failing, and all final calls",
  "Each test is one short process; state left behind by earlier, especially failing, calls is never exercised.",
  [LIB, PT + "yaep.c", PT + "ixml.c", PT + "json.c"],
  [("parse state created and destroyed per call", "src/main/c/xmq.c xmqNewParseState, xmqFreeParseState"), ("error unwinding", "src/main/c/xmq.c setjmp/longjmp error handlers")],
  ["return values of every public call"])

p("C09", "Results do not depend on the contents of uninitialised memory",
  "Running the same command on the same files gives the same standard output, saved files, diagnostics and exit status whatever the heap and stack contained before, wherever memory blocks are placed, and whether they are reused or fresh.",
  ["inputs", "schedules"],
  "for all inputs and commands and all initial contents and placements of allocated memory",
  "A test sees one memory layout whose contents are usually zero; a read of uninitialised memory mostly gives the expected result there.",
  [CLI, LIB, PT + "ixml.c", PT + "yaep.c", PT + "membuffer.c", PT + "hashmap.c", PT + "vector.c"],
  [("explicit initialisation of every structure", "src/main/c/xmq.c, parts/*.c (calloc/memset after allocation)")],
  ["stdout, stderr, exit status, files"])

p("C10", "Running out of memory never yields a silently wrong result",
  "If a memory request of the program fails at any point, the command either still completes with the full correct result, or stops with a non-zero status (or a signal) without having acknowledged success; it never exits with status 0 having printed or saved a truncated or altered document, and it never runs a command of a for-each with an altered text or value, or leaves one out unnoticed.",
  ["fault_sequences", "inputs"],
  "for all commands and inputs and every single or repeated failing memory request made by the program itself",
  "No test makes an allocation fail.",
  [PT + "always.c", PT + "membuffer.c", LIB, CLI, PT + "json.c", PT + "ixml.c", PT + "yaep.c"],
  [("check_malloc", PT + "always.c check_malloc"), ("fail-stop on NULL", "allocation sites")],
  ["exit status, stdout, saved files"])

p("C11", "Everything acquired for a document is released, on success and on failure",
  "Once the caller has freed its documents, settings and parse states, the library holds no memory and no open file on their behalf, whether the calls succeeded, met malformed input, or met failing opens, reads or writer callbacks; repeating a sequence of calls any number of times does not grow memory or open files.",
  ["histories", "fault_sequences"],
  "for all sequences of library calls that end by freeing what was created, all inputs including malformed ones, and all input faults",
  "Tests are one-shot processes that exit right after use, so nothing notices memory or files that are not given back.",
  [LIB, PT + "membuffer.c", PT + "ixml.c", PT + "json.c", PT + "yaep.c", PT + "hashmap.c"],
  [("free functions", "src/main/c/xmq.c xmqFreeDoc, xmqFreeParseState, xmqFreeOutputSettings"), ("fclose on all paths", "src/main/c/xmq.c xmqParseFileWithType, load_file")],
  ["allocator and file table of the simulator"])

p("C12", "Torn or corrupted stored bytes give a document or an error, nothing worse",
  "Whatever bytes an input holds (a document, grammar or replacement file that was torn, truncated, partly zeroed, bit-flipped or spliced) and whatever format is assumed, the command and the library calls finish in bounded work with either a document or a reported error; they never crash, never access memory outside their buffers, and never loop.",
  ["fault_sequences", "inputs"],
  "for all stored documents and all corruptions of their bytes, loaded under every input format and printed in every output format",
  "The tests contain a few dozen malformed inputs; the claim is about every corruption of every file.",
  [LIB, PT + "xmq_parser.c", PT + "json.c", PT + "text.c", PT + "utf8.c", PT + "ixml.c", PT + "yaep.c", PT + "xmq_printer.c"],
  [("bounds checks against buffer end", PT + "xmq_parser.c, " + PT + "text.c, " + PT + "json.c"), ("error unwinding", "src/main/c/xmq.c")],
  ["termination status, sanitizer reports, step count"])

p("C13", "for-each runs its command exactly once per match, in order, one at a time",
  "for-each starts the given shell command exactly once for each matching node, in document order, each only after the previous one has finished, with the node's content in the environment variables named in the command; this holds when waits are interrupted by signals. If a command cannot be started or waited for (a child's exit status 127 counts as not started), xmq reports it, starts no further command and exits non-zero, and at no time does a failed start make a second copy of xmq continue the work.",
  ["schedules", "fault_sequences", "inputs"],
  "for all documents, queries and commands, all child run times and exit codes, and all failures or interruptions of fork, exec and wait",
  "The tests run two fixed commands on tiny documents in a healthy system; no fork, exec or wait ever fails or is interrupted.",
  [CLI],
  [("invoke_shell", "src/main/c/xmq-cli.c invoke_shell"), ("grab_name / grab_content / make_shell_safe_name", "src/main/c/xmq-cli.c")],
  ["sequence of started and finished commands with their argument and environment", "exit status"])

p("C14", "The pager always quits, restores the terminal and shows only the document",
  "In the pager every sequence of keys, terminal sizes, slow or interrupted key input and hang-ups is handled in bounded work: it leaves on q and at end of input or read failure, it restores the terminal mode it found, and each screen it draws is a piece of the rendered document starting at a line (or wrapped line) start. One step down or up moves by exactly one row (a line or a wrapped part of it), a page by one screenful, within the document; so moving down or to the end always reaches the last line, and moving up or to the start always reaches the first.",
  ["schedules", "inputs", "fault_sequences"],
  "for all documents, all key sequences and timings, all terminal sizes, and a hang-up, end of input or interrupted read at any moment",
  "The pager has no test at all: it needs a terminal.",
  [CLI],
  [("page loop", "src/main/c/xmq-cli.c page"), ("key reading", "src/main/c/xmq-cli.c get_char, read_key"), ("raw mode", "src/main/c/xmq-cli.c enable_stdout_raw_input_mode, disable_stdout_raw_input_mode"), ("line motion", "src/main/c/xmq-cli.c find_next_line, find_prev_line, find_next_page, find_prev_page")],
  ["screens written to the terminal, terminal mode at exit, number of steps"])

p("C15", "The terminal background query ends in bounded time and follows the reply",
  "When xmq asks the terminal for its background colour, it is done with the question within about a second, whatever the terminal answers, stays silent, or hangs up, and it puts back the terminal mode and the alarm handling it found. A complete reply, however it is split, interrupted or delayed within that time, decides between the dark and the light theme by its brightness. An unusable reply, a read failure or a hang-up means the dark theme and the full document; silence for a second ends the run with a diagnostic and a non-zero status, without partial output.",
  ["schedules", "fault_sequences", "configurations"],
  "for all replies (any colour, any split and delay of its bytes, garbage, silence, hang-up, interruption) and all environments (terminal type, theme variable, terminal or not)",
  "The tests run without a terminal, so the query never runs.",
  [CLI],
  [("query with alarm", "src/main/c/xmq-cli.c query_xterm_bgcolor"), ("theme choice", "src/main/c/xmq-cli.c terminal_render_theme")],
  ["simulated time, terminal mode, rendered output"])

p("C16", "Every destination receives the same bytes, in order and exactly once",
  "For every document and every output format and setting, printing to memory, to standard output, through a caller's writer callback, or into a saved file delivers the same sequence of bytes, independent of how many or how large the pieces are. The piece boundaries passed to a callback are valid ranges and the concatenation of the pieces is the whole output.",
  ["configurations", "inputs", "schedules"],
  "for all documents, all output formats and settings, and all destinations",
  "The tests print each document to one destination only (the command's standard output); the callback and library stdout paths are untested.",
  [LIB, CLI, PT + "xmq_printer.c", PT + "json.c"],
  [("writer indirection", "src/main/c/xmq.c xmqSetupPrint*, xmqPrint"), ("memory buffer writer", PT + "membuffer.c"), ("stdout writer", "src/main/c/xmq.c write_print_stdout")],
  ["bytes at each destination"])

p("C17", "A run reads only what its command line names and depends on nothing else",
  "No file is opened for reading but those the command line names (or a stylesheet or schema it names refers to), and none is written but those it names, whatever a document's content points at: external entities and subsets, inclusions, stylesheet and schema hints, links. Standard input is not read when a file is named, no command is started unless one is asked for, and the terminal is left alone when standard output is not one. The same command line and named inputs give the same output, diagnostics, exit status and files whatever the environment variables, the clock, chance, the process number, the unread standard input and the other files hold; only the variables that describe a terminal's colours matter, and only to commands that render.",
  ["inputs", "configurations"],
  "for all documents pointing at other files, all command lines, and all pairs of environments",
  "The tests run in one environment, and none has a document that points at a file that is there.",
  [LIB, CLI, PT + "xml.c"],
  [("parser options", "src/main/c/xmq.c xmlReadMemory/xmlReadIO options"), ("theme variables", "src/main/c/xmq-cli.c terminal_render_theme")],
  ["opened files, output, diagnostics, exit status"])

p("C18", "A logged line is one line of XMQ and a log reads back as the values logged",
  "For every key and every formatted value, xmqLinePrintf and xmqLineVPrintf (and --log-xmq in the tool) produce one XMQ element without any line break in it, in the order the pairs were given, and a value of any length, with any quotes, newlines, spaces or syntax characters, is neither cut nor changed: the lines that several threads wrote to one log, also one that a crash cut short, load as a document whose elements and texts are the keys and values logged, one element per line. xmqCompactQuote gives such a value for every text. When memory runs out a line is missing or the process ends; no wrong line is produced.",
  ["inputs", "schedules", "crash points", "histories"],
  "for all texts, lengths, threads and cuts of the log",
  "One test prints three fixed lines.",
  [LIB, PT + "xmq_printer.c", PT + "text.c", CLI],
  [("line printing", "src/main/c/xmq.c xmqLinePrintf, xmq_line_vprintf_xmq, buf_vsnprintf"), ("compact quotes", "src/main/c/xmq.c xmqCompactQuote"), ("value printing", PT + "xmq_printer.c print_value, quote_needs_compounded")],
  ["logged lines, the log read back"])

p("C19", "The work for a document grows in proportion to its size",
  "Loading a document in any format (except with a grammar), editing it with a command, printing, rendering, tokenising or paging it takes steps, memory and calls to the system in proportion to its size, for documents of one depth, in whatever pieces its bytes arrive or leave: a document whose parts are there n times as often takes about n times as much, never n squared, and it ends in the same way.",
  ["inputs", "schedules"],
  "for all parts that a document can be a repetition of, all commands, and all ways of delivering the bytes",
  "The tests use small documents, for which a cost that grows with the square of the size does not show.",
  [LIB, CLI, PT + "membuffer.c", PT + "xmq_parser.c", PT + "xmq_printer.c", PT + "json.c", PT + "text.c", PT + "hashmap.c"],
  [("buffer growth", PT + "membuffer.c pick_buffer_new_size"), ("joining the parts of a text", "src/main/c/xmq.c create_quote, create_entity, do_comment_continuation"), ("scanning of quotes, comments and lines", PT + "xmq_parser.c, " + PT + "text.c"), ("names of an object", PT + "json.c json_print_object_nodes")],
  ["steps, peak memory and calls of a simulated run"])

# --- not addressed by this technique -------------------------------------------------
p("C20", "Grammar driven parsing accepts exactly the language of the grammar",
  "For every invisible-XML grammar and text, the parse tree delivered is one the grammar derives for that text with marks and insertions applied, and a text outside the language is rejected with its position.",
  ["inputs", "programs"], "for all grammars and texts",
  "The tests pin a fixed set of grammars and texts.",
  [PT + "ixml.c", PT + "yaep.c"], [("ixml to earley grammar", PT + "ixml.c"), ("earley parser", PT + "yaep.c")], ["printed document"])
p("C21", "Stylesheets and queries see the document XML tools would see",
  "XPath selection, XSLT transformation and schema validation give on a document loaded from XMQ, HTMQ or JSON the result they give on the equivalent XML.",
  ["inputs", "programs"], "for all documents, queries, stylesheets and schemas",
  "The tests pin fixed triples.", [CLI, LIB], [("libxml2/libxslt on the loaded tree", "src/main/c/xmq-cli.c cmd_transform, cmd_validate, cmd_select")], ["stdout"])
p("C22", "Typed getters return the number written in the document or report an error",
  "The integer, long, double and string getters return exactly the value written at the queried place, in each accepted notation, and report an error for anything else or out of range.",
  ["inputs"], "for all documents and notations", "The tests pin a few values.", [LIB],
  [("xmqGetInt, xmqGetLong, xmqGetDouble, xmqGetString", LIB)], ["return value and errno"])
p("C23", "Colouring only adds colour",
  "Removing the colour codes or tags from a coloured rendering gives the uncoloured rendering of the same document.",
  ["inputs", "configurations"], "for all documents, themes and render targets", "Fixed documents and themes only.",
  [PT + "xmq_printer.c", PT + "colors.c", PT + "default_themes.c"], [("colour pre/post strings", PT + "colors.c")], ["stdout"])
p("C24", "Tokenising covers the input",
  "The tokens reported for an XMQ text are, concatenated, the text itself, with correct line and column numbers.",
  ["inputs"], "for all XMQ texts", "Fixed texts only.", [LIB, PT + "xmq_parser.c"], [("token callbacks", "src/main/c/xmq.c xmqTokenizeBuffer")], ["callbacks"])
p("C25", "Whitespace trimming and C quoting are exact",
  "Incidental indentation removal restores exactly the quoted text, and C quoting followed by unquoting is the identity on every byte string.",
  ["inputs"], "for all byte strings", "Fixed strings only.", [LIB, CLI, PT + "text.c"], [("xmqTrimWhitespace, xmqCompactQuote, quote-c, unquote-c", LIB)], ["return value"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
