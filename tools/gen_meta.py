#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place so they stay in step)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MET = "cmd/metrics/metrics.go"; DATA = "cmd/metrics/data.go"
Q = "promq/prom/query.go"; IDX = "promq/prom/indexer.go"; POST = "promq/prom/postings.go"; MULTI = "promq/prom/multi.go"; MAP = "promq/prom/map.go"; PARSE = "promq/prom/parse.go"; OUT = "promq/prom/output.go"
RUN = "promq/term/runner.go"; PROMPT = "promq/term/prompt.go"; KEYS = "promq/term/keytobytes.go"; WRAP = "promq/term/wrapper.go"; SPLIT = "promq/term/split.go"; TB = "promq/term/textbox.go"; GR = "promq/term/graph.go"; WP = "promq/term/withprompt.go"
PLOT = "promq/term/plot/plot.go"; AXES = "promq/term/plot/axes.go"
EAR = ["promq/autocomplete/completer.go", "promq/autocomplete/filter.go"] + ["promq/autocomplete/earley/%s.go" % n for n in "chart completer completion_context earley grammar item luthor promql stateset".split()]

P = []
def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), claim=True, note="", reason=""):
    P.append(dict(rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)), claim=claim, note=note, reason=reason))

prop("P01", "A scrape round takes effect completely or not at all",
  "A scrape of all targets stores every sample the targets served, each under the labels it was served with plus the address of its target, exactly when every target answered with a complete, well-formed, successful reply; otherwise the round fails and neither stored data, index nor output changes. Samples without a timestamp of their own carry one common timestamp per round, taken when the round started. Every target is asked once per round and every response is read to its end or closed.",
  ["schedules", "fault_sequences", "inputs"], "All numbers of targets, interleavings of their concurrent replies with each other and with readers, and all network faults (refusal, reset, truncation, error status, malformed or slow bodies, cancellation).",
  "The tests scrape one or two fixed sources once, without failures in the middle of a reply and without concurrent readers; the combinations of faults and interleavings are unbounded.",
  [DATA, MULTI, PARSE, Q], [("fan-out and joint failure", DATA), ("parse then commit", MULTI), ("two-phase insert under the write lock", Q)], [("series and samples", "what the rounds stored", Q)], ["query results over the data", "the error a scrape returns", "requests and bodies seen by the targets"],
  note="Seeded search over schedules, replies and network faults of the real scrape path against a reference that knows what every target served.")

prop("P02", "Queries see exactly the stored samples, in time order",
  "Whatever order, batches and timestamps samples arrive in, every stored sample stays available under its labels with its timestamp and value until it is trimmed, each series is served in increasing time order, and a query returns exactly what the Prometheus language defines over those samples at the time of evaluation. A query that runs while samples are being added sees each batch entirely or not at all.",
  ["histories", "schedules", "inputs"], "All histories of batches (in order, out of order, explicit timestamps, vanishing and returning series, special values), queries of every shape, and interleavings of queries with insertions.",
  "The tests insert a handful of samples in order into one storage and run a few queries with nobody else using it.",
  [Q, MAP, PARSE, MULTI], [("ordered insertion", Q), ("read and write lock held by queriers", Q), ("label hash map with collision lists", MAP)], [("sample lists", "time-ordered points per series", Q)], ["results of queries", "series iterators"],
  note="Results are compared with the Prometheus engine run over an independent reference storage fed with what was served.")

prop("P03", "Every accepted query and every scrape finishes",
  "Every query the language accepts, run once or repeatedly and alongside any number of scrapes, listings and completions, ends with a result or an error in bounded time, and afterwards new queries and scrapes can still be made. Cancelling a scrape that waits for a slow target makes it return promptly. Nothing ever waits for itself or for something that already finished.",
  ["schedules", "inputs", "fault_sequences", "histories"], "All query texts, interleavings of queries with scrapes and index readers, slow or hanging targets and points of cancellation.",
  "Lock and wait cycles need a particular query shape or a writer that arrives between two reads; the tests run single queries without concurrent scrapes.",
  [Q, DATA, MULTI, MET], [("querier lifetime and read lock", Q), ("engine timeout and context", DATA), ("error group context", MULTI)], [], ["return of Scrape and SetQuery", "progress after faults stop"],
  note="Deadlock, stuck work and endless loops are decided by the simulator: a run in which the work is not finished when nothing can run any more, or within the time bound after faults stop, is a violation.")

prop("P04", "Each successful scrape publishes one result of the accepted query",
  "Every scrape round that succeeds while a query is set hands its consumer exactly one result, and a round that fails, or runs with no query set, hands over none; results are handed over one at a time. A result is the value of a query that was accepted and current at some moment during that round, over the data including that round's samples. A query that is rejected is reported as an error and leaves the previous query in force.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of scrapes, changes of the query and consumers of any speed, with accepted and rejected queries and failing rounds.",
  "The tests use a single scrape and a single query; replacing the query while rounds run is never exercised.",
  [DATA, MET], [("query swap under lock", DATA), ("callback after execution", DATA)], [("current query", "the accepted query results are made for", DATA)], ["arguments of the callback", "error of SetQuery"],
  note="Each delivered result is matched against the reference value of every query current during its round.")

prop("P05", "The index of names, labels and values is complete, exact and stable",
  "After a successful scrape the metric names, the label names of a metric and the values of a label of a metric are exactly those of the series ever stored, without duplicates, and they never disappear. Each lookup answers from one consistent moment, and what it returned is not altered by later scrapes, nor does altering it alter the index.",
  ["schedules", "histories", "inputs"], "All histories of stored series and all interleavings of lookups with scrapes.",
  "The tests index a few series sequentially and never read while samples arrive or modify what a lookup returned.",
  [IDX, POST, MULTI, "notstdlib/sets/string.go"], [("index rebuilt on insertion", POST), ("read lock per lookup", IDX)], [("postings", "names to series", POST)], ["metric names", "label names", "label values"],
  note="Lookups are checked against the model states between invocation and return.")

prop("P06", "Trimming old samples removes exactly those, for every history",
  "Trimming removes exactly the samples older than the kept window and nothing else, and a series that lost all its samples disappears from queries and appears again, complete, as soon as it gets a sample, no matter how often and in which order samples are added, trimmed and added again. Trimming never disturbs concurrent queries and scrapes.",
  ["histories", "schedules", "inputs"], "All histories of insertion, trimming with any window, and querying, and interleavings of them.",
  "The tests never trim; the defects this property excludes need a series to empty and come back.",
  [Q, MAP], [("clean", Q), ("series map removal", MAP)], [("series map", "labels to series", Q)], ["query results after trimming"],
  note="Histories of add, trim and query are compared with a model of the kept samples.")

prop("P07", "Completion depends only on the text, the cursor and the index",
  "Asking for completions never fails and always ends, whatever text is in the line, however it was edited and wherever the cursor stands. The suggestions are the same as a fresh session would make for that text, cursor and current index: they do not depend on what was typed or suggested before. No suggestion is made twice, and each continues the word at the cursor (a unit of time the number there). Every suggested metric name, label name or value is in the index and fits its context, and where the text is the start of a query that completion's grammar covers, every metric, label or value the index has for that context and that continues the word is suggested.",
  ["histories", "inputs", "schedules"], "All edit histories of the line (insert, delete, cursor moves, any runes), interleaved with scrapes that extend the index.",
  "The tests complete a few fixed texts from a fresh completer; the incremental parser's state after backspacing and jumping is a history property.",
  ["cmd/metrics/autocompleter.go"] + EAR, [("incremental Earley chart reuse", "promq/autocomplete/earley/earley.go"), ("contextual completion", "promq/autocomplete/earley/completer.go")], [("chart and tokens", "parser state kept between keystrokes", "promq/autocomplete/earley/earley.go")], ["suggestions returned"],
  note="A long-lived completer is compared with a fresh one after every step of a random edit history, and with the index.")

prop("P08", "Keystrokes reach the prompt exactly once and in order",
  "Every key event that has a byte form and every string entered programmatically is passed to the line editor as the bytes of that key, exactly once and in the order entered, whatever the speed of either side; a special key is delivered on its own, never merged with other input. What the user submits is handed over exactly once per submission, in order.",
  ["schedules", "inputs", "histories"], "All sequences of keys, pastes and programmatic input, and all interleavings of the keyboard, the reader and the redraw.",
  "The tests push a few keys and read them back from one goroutine.",
  [PROMPT, KEYS, WP, RUN], [("key queue", PROMPT), ("chunking of runes and special keys", PROMPT), ("key translation", KEYS)], [("pending key queue", "what is not read yet", PROMPT)], ["bytes the prompt reads", "submitted lines"],
  note="The byte stream is compared with the reference translation of the keys sent; submitted lines with an editor model.")

prop("P09", "The display converges to the latest requested state",
  "Every requested update or repaint is followed by a redraw that shows it or something newer, at the current size of the terminal; once requests and resizes stop, the display shows the latest of them, and it never goes back to an older one. Views are drawn one at a time and are told their box before being drawn, and asking for an update never waits for a view being drawn. (If the terminal dropped the notice of a resize, the new size takes effect with the next requested paint.)",
  ["schedules", "histories", "fault_sequences"], "All interleavings of updates, repaints, keys, resizes, and a screen whose event queue fills up.",
  "The tests drive the runner with one event at a time on a simulated screen that never drops events.",
  [RUN, SPLIT, WP], [("event loop", RUN), ("update events", RUN)], [("current view", "what is drawn", RUN)], ["contents of the screen"],
  note="Updaters, repainters and resizes race with the event loop; the visible cells are compared with the newest request at quiescence.")

prop("P10", "Every view stays inside its area, at every size and content",
  "Whatever the size of the terminal, the text and the plotted data (including negative, constant, enormous, infinite or missing values), every view draws only inside the area it was given, places the cursor inside it, and finishes without failing. The areas of different views never overlap and together stay within the screen; a docked view gets the size it asks for where there is room, and the other view always keeps at least one row or column. A text box shows its text wrapped to its area, or the last lines of it. Control output of the prompt leaves the same text on the screen as a terminal of that size would show.",
  ["inputs", "histories", "schedules"], "All sizes and sequences of resizes, texts with wide and combining characters, data values, and interleavings of prompt output with resizing and drawing.",
  "The tests render a few texts and graphs at comfortable sizes with ordinary values.",
  [WRAP, SPLIT, TB, GR, PROMPT, PLOT, AXES], [("box clamping", WRAP), ("split layout", SPLIT), ("scaling to cells", PLOT), ("axis ticks", AXES)], [("box and cursor", "area of a view and where it writes", WRAP)], ["cells written", "cursor position"],
  note="All cell writes are checked against the box in force.")

prop("P11", "Shutdown is prompt and restores the terminal exactly once",
  "However and whenever the session is ended (quit command, cancellation, failed start, at any load and with input pending), it ends within a bounded time, the terminal is restored exactly once, and nothing is drawn afterwards. Shortly after the end no part of the session is left running or waiting.",
  ["schedules", "crash_points", "fault_sequences"], "All points in time at which the end is requested, with any pending keys, updates, submissions and scrapes.",
  "The tests stop the runner once from an idle state.",
  [RUN, PROMPT, MET], [("context and quit", RUN), ("prompt stop", PROMPT)], [("screen", "owned by the runner until it ends", RUN)], ["return of Run", "calls on the screen", "goroutines left"],
  note="The end is requested at a random point of every run; leftover goroutines and screen calls are counted.")

prop("P12", "Start-up works in every order of its steps",
  "Requests that arrive before or while the terminal or the prompt starts never fail; updates, repaints, keys and completed scrapes among them are not lost: they take effect once it has started. A terminal that cannot be opened is reported as an error and nothing is left running. The start-up notification comes exactly once, after the terminal is usable.",
  ["schedules", "crash_points", "fault_sequences"], "All orders of the start-up steps of runner, prompt and scraping, and start-up failures.",
  "The tests wait for the runner to be up before using it.",
  [RUN, PROMPT, MET], [("start-up hook", RUN), ("prompt set-up hook", PROMPT)], [("screen and reader", "unset until started", RUN)], ["effects after start", "error of Run"],
  note="Requests are issued before and during start-up; screens that fail to open or to initialise are injected.")

prop("P13", "A one-shot command prints exactly one complete result or fails",
  "A query or list command prints exactly one complete result in the requested format, for the data of its last scrape, of exactly the targets it was given on the command line (or of the one the kubeconfig names), and succeeds; or it returns an error and prints no result. A failure of the last scrape or of writing the output is always reported as an error. Nothing is printed or scraped after it has returned.",
  ["schedules", "fault_sequences", "inputs"], "All interleavings, network faults and output failures, all queries and formats.",
  "The tests never run the command, neither by itself nor from an argument list; they format prepared values.",
  [MET, DATA, OUT, "cmd/promq.go", "cmd/cli/flags.go"], [("one-shot path", MET), ("output writers", OUT)], [], ["standard output", "returned error", "requests after return"],
  note="The output is parsed back and compared with the reference value of the query.")

prop("P14", "A continuous session survives faults and recovers",
  "A continuous session keeps running through failing scrapes, odd data, rejected queries and any user input, keeps scraping every target once per period, and within a few periods after the faults stop shows the current data of the query the user entered last. A bad query or an unknown command is reported to the user and changes nothing else. It holds no more goroutines or open responses the longer it runs.",
  ["schedules", "fault_sequences", "histories"], "All schedules of scrapes, user input, resizes and network faults.",
  "The session is never run as a whole by the tests.",
  [MET, DATA, RUN, PROMPT, GR], [("periodic scrape", MET), ("query input handling", MET)], [], ["screen contents", "requests at the targets", "goroutines alive"],
  note="The whole command runs against a simulated terminal, network and user.")

prop("P15", "Concurrent parts never access shared data without synchronisation",
  "Whenever two concurrent activities of the program (scrapes, queries, listings, completion, prompt, key input, drawing, shutdown) access the same data and at least one of them changes it, the accesses are ordered by synchronisation. No combination of the documented concurrent uses is a data race.",
  ["schedules", "histories"], "All interleavings of all concurrent activities of the program.",
  "The race detector sees only the accesses the tests happen to make, and the tests hardly run anything concurrently.",
  [Q, IDX, MULTI, DATA, MET, RUN, PROMPT, WRAP, SPLIT, TB, GR], [("locks and channels", Q), ("locks of the prompt", PROMPT)], [], ["happens-before order of accesses"],
  note="A vector-clock happens-before detector inside the simulator checks the instrumented accesses of every run.")

prop("P16", "The graph shows every sample at its place",
  "Whatever the data, the size of the terminal and the history of refreshes and changes of the query, every graph drawn shows each finite sample of the result it displays at the height and time that its axis labels give it (within one character; samples of a series that share a column at their average; as far as the spread of the values is itself a finite number), joins successive samples of a series by a line, gives each series the colour of its entry in the key and keeps it from one refresh to the next, and draws nothing else. The axes cover all the data shown and carry labels at both ends, and while the query stays the same the range of values never shrinks; entering a query starts it anew, from the values that query shows.",
  ["inputs", "histories", "schedules"], "All data (any values, gaps, counts of samples and series), sizes of the area, refreshes, resizes and changes of the query.",
  "The tests draw a few series with tame values on one size of screen and compare with a stored picture; scaling errors depend on the relation of spread, size and label width.",
  [PLOT, AXES, GR, MET], [("scaling to cells and averaging", PLOT), ("line drawing", PLOT), ("ticks and margins", AXES), ("range kept over refreshes", PLOT)], [("last graph", "range the next one must include", MET)], ["cells and colours of the graph", "axis labels", "key"],
  note="Every drawn graph is read back cell by cell and compared with the places the data must have by the axis labels the drawing itself asked for; three known defects of the line and tick drawing, which the existing tests pin, and one of the range after a change of the query are listed in known-findings.txt.")

TODO = set(sys.argv[1:])  # properties whose check is not built yet
tech = "deterministic simulation with fault injection: seeded schedule and fault search over the real code"
man = dict(version=1, setup_cmd="sh setup.sh", hooks=dict(guard="verif", enable="none needed: /repo has no hooks; the checks rewrite a copy of /repo's working tree in a scratch directory (sim/rewrite) so that its synchronisation, time, goroutines and shared accesses go through the simulator", source_commits=[]), checks=[], not_applicable=[], notes="run.sh PROPERTY quick|thorough; run.sh replay FILE re-executes a recorded violation.")
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["rec"], ensure_ascii=False) + "\n")
for p in P:
    i = p["rec"]["id"]
    if i in TODO or not p["claim"]:
        man["not_applicable"].append(dict(property=i, reason=p["reason"] or "the check of this property is not built yet"))
    else:
        man["checks"].append(dict(property=i, quick_cmd="sh run.sh %s quick" % i, thorough_cmd="sh run.sh %s thorough" % i, technique=tech, level="exploration",
            level_note=p["note"] + " Assurance is that of a search: it covers the runs counted in the evidence, at goroutine switches on synchronisation, channel, timer and inserted preemption points."))
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
