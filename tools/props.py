"""What check.py needs to know about each property's simulation."""

BUDGET = {"quick": 32.0, "thorough": 900.0}

ASSUME = [
    "Delimiters include the newline; inputs and schemas do not contain the reserved bytes "
    "0xFD-0xFF.",
    "Explored by seeded random sampling: a clean batch is evidence, not proof.",
    "The library is compiled by g++ 13 with assertions on (no NDEBUG) and -D_GLIBCXX_ASSERTIONS.",
]

PARSE_REAL = ["all of src/log_surgeon (lexer, buffers, parsers, automata, schema parser), "
              "compiled from /repo's working tree with LOG_SURGEON_SIM"]
PARSE_STUB = ["the reader (scripted deliveries and errors)",
              "the heap (deterministic arena with canaries)",
              "fopen/getdelim (simulated disk)"]
SCHEMA_REAL = PARSE_REAL
SCHEMA_STUB = ["the disk behind fopen/getdelim (scripted short reads, EINTR, EIO, open errors)",
               "the heap (deterministic arena with canaries and planned failures)"]
W = ("A world is a random schema (delimiters, timestamps, overlapping variable patterns) with a "
     "random size of the parser's static buffers (the shipped sizes in a part of the worlds); ")


NOTE = ("Seeded random search over worlds, inputs, schedules and faults: evidence that no violation "
        "is common in the sampled space, not a proof. Every violation is minimised and replayed "
        "twice in fresh processes before it is reported. Trusted: the simulator and its oracle, "
        "g++ 13.")


def d(rule, **k):
    k.setdefault("tech", "oracle: see DESIGN.md")
    k["note"] = k.get("note", "") + (" " if k.get("note") else "") + NOTE
    k.setdefault("real", PARSE_REAL)
    k.setdefault("stub", PARSE_STUB)
    k["rule"] = rule
    return k


PROPS = {
    "C01": d(W + "a run parses one random input delivered by a random schedule of reads and "
             "compares the concatenated events with the input. Non-trivial: at least two events "
             "or two reads.",
             tech="oracle: conservation of input bytes under every delivery schedule"),
    "C02": d(W + "a run parses one input several times under different delivery schedules, dirty "
             "destinations, end forms and alignments and compares every observable. Non-trivial: "
             "at least two deliveries that differ.",
             tech="oracle: equality of runs under different delivery schedules and buffer alignments"),
    "C03": d(W + "a run compares the boundaries and timestamps of the returned events with a "
             "reference model written from the documentation. Non-trivial: two or more events.",
             tech="oracle: refinement of a reference model of event segmentation"),
    "C04": d(W + "a run compares the variables, their types and the log types with a reference "
             "model that has its own pattern compiler. Non-trivial: at least one variable.",
             tech="oracle: refinement of a reference model of tokens with its own pattern compiler"),
    "C05": d(W + "a run injects reader errors at random reads, retries, and compares with the "
             "fault-free run. Non-trivial: at least one error fired.",
             tech="oracle: equality of the run with reader faults and the fault-free run"),
    "C06": d(W + "a run bounds calls, reads and the simulated heap. Non-trivial: two or more "
             "reads.",
             tech="oracle: bounds on calls, reads and simulated heap once faults stop"),
    "C07": d(W + "a run is a history of parse, abandon, fault and reset operations on one parser; "
             "after each reset every call is compared with that of a parser that is new. "
             "Non-trivial: at least two inputs on the same parser.",
             tech="oracle: equality of a reset parser and a new one over operation histories"),
    "C08": d(W + "a run feeds an input through buffers that end at an inaccessible page, with "
             "random refill sizes, growing or moved buffers, early or late end of input, and "
             "checks the offset after every call and the events at the end. Non-trivial: at "
             "least one out-of-data result and two events.",
             tech="oracle: offsets and events of a simulated buffer feeder against the whole-input run"),
    "C09": d(W + "a run gives one input to a reader parser under a random delivery schedule and "
             "to a buffer parser whole and compares the events. Non-trivial: at least two "
             "events.",
             tech="oracle: equality of the two parser styles"),
    "C10": d(W + "a run takes copies of random events of a random parse, shallow and deep, moves "
             "them, reads them after further parsing, resets and faults and compares with what "
             "the event was. Non-trivial: at least one copy read after the parser moved on.",
             tech="oracle: a copied event is equal to the recorded original over operation histories",
             variants={"fast": 0.7, "asan": 0.3}),
    "C11": d(W + "a run parses an input and follows the views and copies of its events in an "
             "instrumented heap (canaries, double frees, leaks, two fill patterns for fresh "
             "memory that must not change any result). Non-trivial: at least two events.",
             tech="oracle: memory invariants of a simulated heap, AddressSanitizer, fill differential",
             variants={"fast": 0.5, "asan": 0.5}),
    "C12": d("A world is a schema text (comments, blank lines, CR LF, superseded delimiters, sizes "
             "around the schema parser's buffer) in a simulated file whose open and reads fail, "
             "stall or come short at scheduled points; a run loads it through one of the loading "
             "entries and requires the whole schema or an exception. Non-trivial: a fault fired.",
             tech="oracle: under disk faults a load gives the fault-free schema or throws",
             real=SCHEMA_REAL, stub=SCHEMA_STUB),
    "C13": d("A world is a schema text as for C12, without faults but with short reads; a run "
             "supplies it as file, string or rule by rule through the Schema object, to any of the "
             "parser classes, and compares the syntax tree and the parsing of a log with the "
             "reference model. Non-trivial: a rule and an event.",
             tech="oracle: equality of the schema over supply routes, reference model of its parsing",
             real=SCHEMA_REAL, stub=SCHEMA_STUB),
    "C14": d("A run is a history of good and bad schema loads from strings, files with disk faults, "
             "Schema objects and parsers, with allocation failures at random points; every load is "
             "compared with the same load in a pristine process. Non-trivial: at least two loads.",
             tech="oracle: equality of a load after a history and in a pristine simulated process",
             real=SCHEMA_REAL, stub=SCHEMA_STUB),
    "C15": d(W + "a run parses one input with parsers whose schema was loaded and whose events are "
             "parsed under five different heap layouts (ascending, descending, scattered, "
             "immediate reuse) and compares every observable exactly, including the order of the "
             "types of a token. Non-trivial: a rule and an event.",
             tech="oracle: equality of runs under simulated heaps that hand out different addresses"),
    "C16": d(W + "a run is a history of parsing, copying, resetting, schema loading and parser "
             "construction with one or many failed allocations at random points; what does not "
             "throw bad_alloc must be right, what threw must work after a reset, a bystander "
             "parser must not notice, and the heap must balance at the end. Non-trivial: at least "
             "one bad_alloc survived.",
             tech="oracle: bad_alloc or the fault-free result, heap balance, over fault sequences",
             variants={"fast": 0.75, "asan": 0.25}),
    "C17": d(W + "a run gives two to four threads their own scripts (schema loads, rejected "
             "schemas, parsing with both parser classes, copies); the simulated scheduler decides "
             "at every library function (fine variant) or allocation, read and lock (tsan variant) "
             "who runs; each thread's results are compared with those of a process in which it "
             "runs alone, and ThreadSanitizer, to which the scheduler's hand-overs are invisible, "
             "must not report a race. Non-trivial: at least two switches.",
             tech="oracle: each thread's results equal those it gets alone; race detector under the "
                  "simulated scheduler",
             variants={"fine": 0.5, "tsan": 0.5},
             stub=PARSE_STUB + ["the thread scheduler (one thread runs at a time, seeded switches)"]),
    "C18": d("A run is a history of open, read, read-to-delimiter, close and destroy operations of "
             "two file readers on a simulated disk (short reads, read errors, EINTR, open errors, "
             "failed getdelim allocations), each result compared with a model of the file. "
             "Non-trivial: bytes were read and a fault fired.",
             tech="oracle: refinement of a file model over operation and disk fault histories",
             variants={"fast": 0.7, "asan": 0.3}, quick=16.0,
             real=["src/log_surgeon/FileReader.*", "glibc stdio above the simulated read"],
             stub=["the disk (fopencookie streams behind fopen)", "getdelim's allocation failure"]),
    "C19": d("A run is a history of register and prefix tree operations with invalid indices and "
             "failed allocations, checked after every operation against a model with an explicit "
             "tree. Non-trivial: at least three changes.",
             tech="oracle: refinement of a register model over histories with allocation failures",
             variants={"fast": 0.7, "asan": 0.3}, quick=16.0,
             real=["src/log_surgeon/finite_automata/RegisterHandler.hpp, PrefixTree.*"],
             stub=["the heap (deterministic arena with canaries and planned failures)"]),
    "C20": d(W + "a run checks every public view of each returned event against each other. "
             "Non-trivial: at least one event.",
             tech="oracle: consistency invariants of every returned event"),
    "C21": d("A world is a set of rules and a set of queries; a run builds the rules' automaton from "
             "clones of their syntax trees (the originals may be gone), compares it with an own "
             "pattern compiler state by state, and puts a history of queries to it - one or several "
             "threads at once, queries turned round or joined, automata built anew, every "
             "allocation from another heap layout, allocations failing at chosen places - each "
             "answer compared with the intersection computed by the model. Non-trivial: an answer "
             "with some but not all rules, or at least two thread switches.",
             tech="oracle: intersections by an own pattern compiler, over query histories, simulated "
                  "heaps, allocation failures and thread schedules",
             variants={"fast": 0.5, "asan": 0.15, "tsan": 0.35},
             real=["finite_automata/* (RegexAST, RegexNFA, RegexDFA), Lexer::nfa_to_dfa, the schema "
                   "parser, compiled from /repo's working tree with LOG_SURGEON_SIM"],
             stub=["the heap (deterministic arena with canaries and planned failures)",
                   "the thread scheduler (one thread runs at a time, seeded switches)"]),
    "C22": d("A run supplies one schema - valid, without delimiters, with delimiters that a pattern "
             "can match, or with a line that is no rule - through one of six entries, in short "
             "reads and with a random size of the schema parser's buffer; when the file is opened "
             "again for the error message it may be gone, changed or unreadable. Whether it must "
             "be rejected comes from an own pattern compiler. Non-trivial: it must be rejected.",
             tech="oracle: independent judgement of the schema, handle and heap balance, under disk "
                  "faults during error reporting",
             real=SCHEMA_REAL, stub=SCHEMA_STUB),
}

NOT_APPLICABLE = {}
