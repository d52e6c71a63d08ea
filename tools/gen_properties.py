#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
S = "src/log_surgeon/"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            mechanism=[dict(name=n, where=S + w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Every input byte is returned exactly once, in order",
  "When a reader-driven parse of an input runs to completion, concatenating the raw text of the returned log events reproduces the input byte for byte: nothing is lost, duplicated, reordered or invented. This holds for any schema, any event and line length (including events many times larger than the parser's internal buffer) and however the reader splits the bytes over its calls.",
  ["inputs", "schedules", "configurations"],
  "all schemas, all byte inputs (the reserved bytes 0xFD-0xFF excepted), all ways a reader may split the input over read calls, all positions of the input relative to the internal buffer",
  "No existing test parses a log at all; losing bytes needs a particular alignment of an event, token or short read with the refill and growth boundaries of a 48000-byte ring buffer.",
  ["ParserInputBuffer.cpp", "Buffer.hpp", "Lexer.tpp", "LogParser.cpp", "ReaderParser.cpp", "LogParserOutputBuffer.cpp", "LogEvent.cpp"],
  [("half-buffer refill only when the other half is consumed", "ParserInputBuffer.cpp"), ("doubling with un-flipping copy and state remapping", "Lexer.tpp"), ("output token buffer growth", "LogParserOutputBuffer.cpp")],
  [("consumed position", "bytes before it may be overwritten", "ParserInputBuffer.hpp"), ("start/match/last-match positions", "the token being lexed, as buffer offsets", "Lexer.hpp")],
  ["ReaderParser::parse_next_event", "LogEventView::to_string"],
  "static buffer size override (guarded) so that runs can reach every boundary alignment cheaply; the shipped size is simulated as well")

p("C02", "Results do not depend on how the reader delivers the bytes",
  "The sequence of log events a reader-driven parser returns - their boundaries, tokens, token types, variables, timestamps, log types and multi-line flags - is a function of the input bytes and the schema only. It does not depend on how many bytes each read call delivers, on what the reader leaves in the unused rest of the destination, on how end of input is signalled, or on where the bytes fall relative to the parser's internal buffers.",
  ["schedules", "inputs", "configurations"],
  "all delivery schedules of one input (sizes of every read, end-of-input form, dirty destination tails) and all internal buffer alignments",
  "A unit test fixes one delivery schedule; the quantifier is over all schedules, and the interesting ones (short read, event ending exactly on a half-buffer boundary, a token wrapping around) are rare.",
  ["ParserInputBuffer.cpp", "Lexer.tpp", "LogParser.cpp", "Token.cpp", "ReaderParser.cpp", "Reader.hpp"],
  [("read/refill protocol", "ParserInputBuffer.cpp"), ("lexer suspension and resumption when data runs out", "Lexer.tpp"), ("wrap-around tokens", "Token.cpp")],
  [], ["ReaderParser::parse_next_event", "LogEventView accessors"],
  "static buffer size override (guarded)")

p("C03", "Log events begin exactly where the documentation says",
  "If the input starts with a timestamp, or once a timestamp has followed a newline, an event extends up to and including the newline right before the next line that starts with a timestamp; before any timestamp has been seen every newline ends an event. A timestamp match must end at a delimiter or at end of input, the longest match counts, timestamp text elsewhere in a line never splits an event, and the final event extends to the end of the input.",
  ["inputs", "schedules", "configurations"],
  "all schemas whose delimiters include the newline, with and without timestamps (several timestamp rules, timestamps with delimiters, near-miss timestamps), all inputs, all delivery schedules",
  "No test exercises segmentation; the state machine carries a pending start-of-event token from one call to the next and its special cases depend on what preceded and on buffer wrap.",
  ["LogParser.cpp", "Lexer.tpp", "LogParser.hpp"],
  [("firstTimestamp / newLineTimestamp rules", "LogParser.cpp"), ("start-of-log token carried across calls", "LogParser.cpp")],
  [("pending start of log", "first token of the next event, already lexed", "LogParser.hpp")],
  ["ReaderParser::parse_next_event", "LogEventView::get_timestamp", "LogEventView::to_string"],
  "static buffer size override (guarded)")

p("C04", "A token is a variable exactly when it matches a variable pattern",
  "Every maximal run of non-delimiter characters that fully matches one or more variable patterns is reported as a variable, once, with the names of exactly those rules in schema order, the first deciding the list it is reported in; every other run and all delimiters are static text. The recognised variables do not depend on what was scanned before the token: failed timestamp candidates, earlier events or buffer boundaries.",
  ["inputs", "configurations", "schedules"],
  "all schemas over the documented pattern syntax (literals, groups, negated groups, alternation, +, *, {n}, {n,m}, \\d, '.', overlapping and repeated rules; no pattern matches the empty string), all inputs, all delivery schedules",
  "Tests never run the lexer; overlapping rules, backtracking after a failed timestamp and suspension in mid-token combine in ways a handful of samples cannot cover.",
  ["Lexer.tpp", "LogParser.cpp", "finite_automata/RegexAST.hpp", "finite_automata/RegexNFA.hpp", "finite_automata/RegexDFA.tpp", "finite_automata/RegexDFA.hpp", "SchemaParser.cpp"],
  [("DFA built from delimiter-prefixed rules, longest match ending at a delimiter", "Lexer.tpp"), ("rule ids collected per DFA state", "finite_automata/RegexDFA.tpp")],
  [], ["LogEventView::get_variables", "Token::m_type_ids_ptr", "LogParser::get_id_symbol"],
  "static buffer size override (guarded)")

p("C05", "A failing reader is reported, and retrying loses nothing",
  "An error code returned by the user's reader (other than end of file) is returned unchanged by the parse call that met it, and no event is returned or marked finished because of it. Calling the parser again continues where it stopped, so whatever finite sequence of transient errors occurs, at whatever points and whether or not bytes were delivered before them, the events finally returned are exactly those of a fault-free run.",
  ["fault_sequences", "schedules", "inputs"],
  "all placements and kinds of transient reader errors over all inputs and delivery schedules, including errors in the middle of an event larger than the buffer",
  "Needs fault injection at every read call, including the reads issued in the middle of an event; the tests have no failing reader.",
  ["ReaderParser.cpp", "ParserInputBuffer.cpp", "LogParser.cpp", "Lexer.tpp", "Reader.hpp"],
  [("error propagation from the reader", "ReaderParser.cpp"), ("lexer and parser resumption", "LogParser.cpp")],
  [("bytes already delivered for the half being filled", "must survive an error", "ParserInputBuffer.hpp")],
  ["ReaderParser::parse_next_event return value", "ReaderParser::done", "events"],
  "static buffer size override (guarded)")

p("C06", "Parsing always progresses within bounded steps and memory",
  "Once faults stop, every parse call on a finite input returns, consumes at least one byte of input per returned event (only the last may be empty) and completion is reported within one call per input byte plus two. The parser never asks a reader for zero bytes or reads again after end of input was signalled, and its buffer memory stays within a constant factor of the longest event plus the fixed buffers, however long the input is.",
  ["inputs", "schedules", "fault_sequences"],
  "all inputs and delivery schedules, including events ending exactly on internal buffer boundaries and long inputs made of short events",
  "Non-termination and runaway growth only show at specific alignments or after many buffer revolutions; tests never revolve the buffer once.",
  ["ParserInputBuffer.cpp", "LogParser.cpp", "Lexer.tpp", "ReaderParser.cpp", "Buffer.hpp"],
  [("read_if_safe / increase_capacity decision", "ParserInputBuffer.cpp"), ("consumed position updates", "LogParser.cpp")],
  [], ["number of parse and read calls", "simulated allocator's live and peak bytes"],
  "static buffer size override (guarded)")

p("C07", "A reset parser behaves exactly like a new one",
  "Resetting a parser - at any point: between events, with an event pending, after a reader error, after a failed or out-of-data call, after the end of input - and giving it new input yields exactly the events a newly constructed parser would return for that input. Nothing of the abandoned input (tokens, timestamps mode, line position, grown buffers) is visible afterwards, for any number of resets.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of parse / abandon / fail / reset operations over several inputs on one parser object",
  "State left behind depends on the exact point of abandonment; the tests never reuse a parser.",
  ["LogParser.cpp", "ReaderParser.cpp", "BufferParser.cpp", "Lexer.tpp", "ParserInputBuffer.cpp", "LogParserOutputBuffer.hpp"],
  [("reset chain through lexer, input buffer and event view", "LogParser.cpp")],
  [], ["ReaderParser::reset_and_set_reader", "BufferParser::reset", "events"],
  "static buffer size override (guarded)")

p("C08", "The buffer parser's offset protocol loses and repeats nothing",
  "A caller that feeds a buffer parser as documented - parse from the returned offset, on out-of-bounds keep the bytes from the offset on, append more (moving or growing the buffer) and call again, finally declaring input finished - gets every event of the input exactly once with the same text and tokens, for every refill size. After a successful call the offset is the start of the next unparsed event and after an out-of-data call it is where the incomplete event starts; the parser never looks at bytes beyond the given size and never changes the buffer.",
  ["schedules", "inputs", "histories"],
  "all refill schedules (sizes from one byte to everything at once, moves, reallocations), all inputs and schemas, with and without timestamps",
  "Needs many refill schedules per input; the example programs use one and nothing checks them.",
  ["BufferParser.cpp", "BufferParser.hpp", "LogParser.cpp", "ParserInputBuffer.cpp"],
  [("offset computation and internal reset on out-of-bounds", "BufferParser.cpp"), ("user storage adoption", "ParserInputBuffer.cpp")],
  [], ["BufferParser::parse_next_event (return value, offset)", "events", "guard bytes around the buffer"])

p("C09", "Both parser styles return the same events",
  "For the same schema and the same bytes, the reader parser (under any delivery schedule) and the buffer parser (given the whole input, in a buffer of any size) return the same sequence of events: text, tokens and types, variables, timestamps, log types and multi-line flags.",
  ["inputs", "schedules", "configurations"],
  "all schemas and inputs, all delivery schedules on the reader side",
  "The two drive the same lexer through different buffer set-ups (ring with growth versus flat user buffer); no test compares them.",
  ["ReaderParser.cpp", "BufferParser.cpp", "LogParser.cpp", "ParserInputBuffer.cpp"],
  [("shared LogParser", "LogParser.cpp")], [], ["events of ReaderParser and BufferParser"],
  "static buffer size override (guarded)")

p("C10", "A copied event is an independent, faithful snapshot",
  "A log event copied out of a parser has, at the time of copying and ever after, the same text, timestamp, variables with their types, log type and multi-line flag as the view it was taken from. It stays so while the parser continues, fails, is reset or reads other input, while the source buffer is overwritten or freed, and when the copy is moved into or around containers.",
  ["histories", "inputs"],
  "all non-empty events (with and without timestamp, wrapping around the buffer end, larger than the buffer), all later operations on the parser, which outlives its copies, and on the copies",
  "Needs copies taken at arbitrary points of a run and inspected after arbitrary later operations; tests never copy an event.",
  ["LogEvent.cpp", "LogEvent.hpp", "Token.cpp"],
  [("deep copy of tokens into an owned buffer", "LogEvent.cpp")], [], ["LogEventView::deep_copy", "LogEvent accessors"],
  "static buffer size override (guarded)")

p("C11", "Views stay valid, and no memory is touched out of bounds",
  "Everything reachable from the current event view (tokens, string views, variable lists) stays readable and unchanged until the next parse or reset call on that parser. Whatever the sequence of operations, deliveries and reader errors, the parser hands the reader only memory it owns for the full requested size, never reads uninitialised, freed or foreign memory, and releases everything it allocated when destroyed.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of construction, parsing, copying, resetting, failing and destruction",
  "Memory errors surface only at specific buffer growth points and orders of operations, and only with instrumentation.",
  ["Buffer.hpp", "LogEvent.hpp", "LogEvent.cpp", "Token.cpp", "LogParserOutputBuffer.cpp", "ParserInputBuffer.cpp", "LALR1Parser.hpp", "LALR1Parser.tpp"],
  [("superseded dynamic buffers are kept until reset", "Buffer.hpp")], [], ["AddressSanitizer / UBSan in the simulated process", "re-reads of recorded string views", "simulated allocator's live-byte balance"],
  "static buffer size override (guarded)")

p("C12", "A schema that cannot be read completely is never accepted",
  "Loading a schema from a file either yields the schema described by the file's whole content or throws; a failed open, a read error at any point (with or without some bytes delivered first) or a failed allocation never yields a parser or schema built from part of the file. Reads that deliver less than asked for have no effect on the result.",
  ["fault_sequences", "inputs"],
  "all placements of open failures, read errors and short reads over schema files of all sizes, including larger than the schema parser's buffer",
  "Needs a disk that fails at chosen reads; a truncated schema often still parses, so nothing would notice.",
  ["SchemaParser.cpp", "LALR1Parser.tpp", "FileReader.cpp", "ParserInputBuffer.cpp"],
  [("file reader error reporting", "FileReader.cpp"), ("reader lambda and parse loop", "SchemaParser.cpp")], [],
  ["SchemaParser::try_schema_file", "LogParser / ReaderParser / BufferParser constructors"],
  None)

p("C13", "A schema means the same however it is supplied",
  "The same schema text gives the same schema - rule names, order, patterns and delimiters, hence the same parsing of every log - whether read from a file (under any split of the file into reads) or from a string, used through any of the parser classes, or assembled rule by rule through the schema object with positions. Size does not matter: long comments, many rules and texts larger than the internal buffer are accepted alike.",
  ["inputs", "configurations", "schedules"],
  "all schema texts of the documented syntax (every documented operator, negated classes included) and of any size, with comments of any length, all read splits",
  "Tests use one-line schema strings only; texts beyond the internal buffer and read splits are out of reach.",
  ["SchemaParser.cpp", "Schema.cpp", "Schema.hpp", "LALR1Parser.tpp", "LALR1Parser.cpp", "ParserInputBuffer.cpp"],
  [("string and file readers", "SchemaParser.cpp"), ("priority insertion", "SchemaParser.hpp")], [],
  ["SchemaAST (names, order, serialized patterns)", "parsers built from it"])

p("C14", "Schema loading does not depend on what was loaded before",
  "Parsing a schema gives the same result - the same rules or the same error - whatever the process did earlier: any number of previous schemas, rules added one by one, syntax errors, I/O errors or failed allocations at any point in earlier loads. In particular the number of schemas a process can load is not limited.",
  ["histories", "fault_sequences"],
  "all histories of schema loads, good and bad, before the one observed",
  "Shared state inside the schema parser only shows after long or failing histories; each test process loads a few schemas.",
  ["LALR1Parser.cpp", "LALR1Parser.hpp", "LALR1Parser.tpp", "SchemaParser.cpp", "SchemaParser.hpp"],
  [("shared child-symbol storage", "LALR1Parser.hpp")],
  [("shared child-symbol storage position", "static, advances with every reduction", "LALR1Parser.cpp")],
  ["SchemaParser::try_schema_string", "Schema::add_variable", "thrown messages"])

p("C15", "Results do not depend on where memory is allocated",
  "With the same schema and input, every run returns identical events, type lists and log types whatever addresses the allocator hands out. In particular the order of the names of a token matching several rules is the schema order on every run.",
  ["schedules", "configurations"],
  "all assignments of addresses to allocations, for all schemas and inputs",
  "Ordinary allocators return increasing addresses in small tests, hiding any dependence on pointer order; it takes an allocator that shuffles.",
  ["Lexer.tpp", "finite_automata/RegexDFA.tpp", "finite_automata/RegexNFA.hpp", "LALR1Parser.tpp"],
  [("sets of NFA states keyed by pointer", "Lexer.tpp")], [], ["token type lists", "log types", "events under a layout-shuffling simulated allocator"])

p("C16", "Running out of memory is survivable",
  "If any allocation fails while a schema is loaded, a parser constructed, an event parsed or copied, std::bad_alloc reaches the caller (or the operation succeeds): no crash, no leak, no wrong result. A parser that threw can be reset or destroyed, after reset it parses correctly, and other parsers are unaffected.",
  ["fault_sequences", "histories"],
  "a failure of any one allocation, or of every allocation from some point on for a while, in any operation of any history",
  "Needs an allocator that fails at chosen points; every allocation site is a distinct fault point.",
  ["Buffer.hpp", "LogEvent.cpp", "LogParser.cpp", "Lexer.tpp", "SchemaParser.cpp", "LALR1Parser.tpp", "ReaderParser.cpp", "FileReader.cpp", "finite_automata/RegexAST.hpp"],
  [("RAII ownership throughout", "LogParser.hpp"), ("documented std::bad_alloc", "ReaderParser.hpp")], [],
  ["exceptions", "live bytes of the simulated allocator", "events after reset"],
  "static buffer size override (guarded)")

p("C17", "Parsers used by different threads do not influence each other",
  "Distinct parser, schema and event objects may be constructed, used and destroyed by different threads at the same time: each thread gets exactly the results it would get alone, for every interleaving.",
  ["schedules", "histories"],
  "all interleavings of the threads' steps, with construction, parsing, copying, errors and destruction overlapping",
  "Depends on the interleaving of schema loads and parses; the tests are single-threaded.",
  ["LALR1Parser.hpp", "LALR1Parser.cpp", "SchemaParser.hpp", "SchemaParser.cpp", "Lexer.hpp", "LogParser.cpp"],
  [("no shared mutable state between objects", "LALR1Parser.hpp")],
  [("static child-symbol storage", "would be shared between concurrent loads", "LALR1Parser.hpp")],
  ["events and schemas per simulated thread"])

p("C18", "The file reader reports exactly what the disk did",
  "Reading a file through the file reader delivers its bytes in order and exactly once, whatever sizes are requested and however the operating system splits the reads; end of file is reported only at the end, and an I/O error or failed open is reported as an error and never as success, end of file or data that is not in the file. The reader can be reopened or closed at any time, releases its handle, and using it unopened is reported as an error.",
  ["fault_sequences", "histories", "inputs"],
  "all sequences of open / read / read-to-delimiter / close, all file contents, all placements of short reads, interrupted reads, read errors, open errors and failed allocations",
  "No test touches the file reader; error paths need a failing disk.",
  ["FileReader.cpp", "FileReader.hpp"],
  [("fread/getdelim result checking", "FileReader.cpp")], [], ["FileReader return codes, buffers and strings", "open handle count on the simulated disk"])

p("C19", "Capture registers keep every tag's position history",
  "After any sequence of adding, setting, copying and appending register operations, each register reports exactly the sequence of positions recorded for it (latest first), sharing structure with the registers it was copied from only where the interface says so; invalid indices throw and change nothing. A failed allocation leaves all registers as they were.",
  ["histories", "fault_sequences"],
  "all operation sequences (including invalid indices and negative positions) and all placements of allocation failures",
  "Tests use a few fixed sequences of at most a handful of operations and no failures.",
  ["finite_automata/PrefixTree.hpp", "finite_automata/PrefixTree.cpp", "finite_automata/RegisterHandler.hpp"],
  [("prefix tree nodes with parent links", "finite_automata/PrefixTree.hpp")], [], ["RegisterHandler::get_reversed_positions", "PrefixTree::get_reversed_positions", "exceptions"])

p("C20", "What an event reports about itself agrees with its text",
  "For every returned event: its tokens concatenated are its text; each variable list holds exactly the event's tokens whose first type is that variable, in order; the timestamp is the leading timestamp text or absent; it is multi-line exactly if, having a timestamp, some character follows a newline in it; and the log type is the text after the timestamp with each variable (but not the delimiter before it) replaced by its bracketed name, and a newline token by a newline or its bracketed name. Token accessors (text, length, character, delimiter) agree with each other even when the token wraps around the end of the internal buffer.",
  ["inputs", "schedules", "configurations"],
  "all events of all inputs and delivery schedules, including tokens that wrap around the buffer end and variables without a preceding delimiter",
  "Wrapped tokens and variables at the start of an event need particular alignments; no test looks at an event.",
  ["LogEvent.cpp", "LogEvent.hpp", "LogParser.cpp", "Token.cpp", "Token.hpp"],
  [("metadata generation", "LogParser.cpp"), ("wrap-around accessors", "Token.cpp"), ("log type construction", "LogEvent.cpp")], [],
  ["LogEventView and Token accessors"],
  "static buffer size override (guarded)")

p("C21", "Queries on a shared automaton are exact in any history, environment and schedule",
  "The automaton built from a set of schema rules (RegexNFA from the rules' syntax trees or from clones of them, then nfa_to_dfa) accepts, for each rule, exactly the strings its documented pattern describes, and lists the rules in their order; get_intersect gives exactly the ids of the rules that share at least one string with the query. This holds whatever was asked of the automaton before, for queries of several rules and either way round, wherever the heap places the states, however many threads query the one automaton at the same time, and after construction or queries that failed for lack of memory; a query changes nothing, leaks nothing, and a clone of a syntax tree stands on its own once the original is gone.",
  ["inputs", "histories", "schedules", "fault_sequences", "configurations"],
  "all rule sets and queries of the documented pattern syntax, all histories of queries on one automaton, all heap address assignments, all failed allocations, all interleavings of threads that share it",
  "Tests check the textual form of one automaton and no query at all; the search runs over pairs of states ordered by their addresses, which differ from run to run.",
  ["finite_automata/RegexAST.hpp", "finite_automata/RegexNFA.hpp", "finite_automata/RegexNFAState.hpp", "finite_automata/RegexDFA.hpp", "finite_automata/RegexDFA.tpp", "Lexer.tpp", "LexicalRule.hpp"],
  [("Thompson construction", "finite_automata/RegexAST.hpp"), ("subset construction", "Lexer.tpp"), ("reachable pairs of states", "finite_automata/RegexDFA.tpp")],
  [("visited and unvisited pairs", "search frontier, ordered by state addresses", "finite_automata/RegexDFA.tpp")],
  ["RegexDFA::get_intersect", "RegexDFAState::next", "RegexNFA::serialize"])

p("C22", "Schema rules that cannot work are rejected when the parser is built",
  "A parser is built from a schema exactly if every line of it is a rule or a comment (with ranges and repetition bounds in ascending order), it has a delimiters rule, and no variable pattern can match a delimiter; otherwise loading or construction throws. The error names the place: the line of the mistake, or the variable with a delimiter it can match and the file and line of its rule - with the text of that line if the schema file can still be read. That holds whatever happens to the schema file between loading it and reporting the error (removed, unreadable, shortened, replaced, read in pieces): the schema is never accepted, and nothing crashes, hangs, or leaks memory or a file handle.",
  ["inputs", "fault_sequences", "configurations"],
  "all schema texts, valid and invalid, all ways of supplying them, all sizes of the schema parser's buffer, and all faults and changes of the schema file when it is opened again to report an error",
  "Invalid schemas are sampled nowhere in the tests, and the error report reads the schema file a second time, which fails or finds other content only with a disk under control.",
  ["LogParser.cpp", "SchemaParser.cpp", "LALR1Parser.tpp", "FileReader.cpp", "finite_automata/RegexAST.hpp"],
  [("rule checking", "LogParser.cpp"), ("characters a pattern can match", "finite_automata/RegexAST.hpp"), ("error reporting", "LALR1Parser.tpp")], [],
  ["exceptions of the constructors", "open handle count on the simulated disk", "live blocks of the simulated allocator"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
