import json
S="rust/src/api/server.rs"; J="rust/src/api/json_rpc.rs"; A="rust/src/api/booking/accumulator.rs"; B="rust/src/api/booking.rs"
BT="rust/src/api/booking/types.rs"; T="rust/src/api/types.rs"; PC="rust/src/api/types/parser_type_conversions.rs"; BC="rust/src/api/types/booking_type_conversions.rs"
RAW="rust/src/api/types/raw.rs"; BK="rust/src/api/types/booked.rs"; SER="rust/src/api/types/serializers.rs"
M="rust/src/bin/limabean-pod/main.rs"; LR="rust/src/bin/limabean/run.rs"; LM="rust/src/bin/limabean/main.rs"; LH="rust/src/bin/limabean/health.rs"
TESTS="The only tests that run are two in-process unit tests of one balance tolerance boundary"
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=TESTS+"; "+why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p("C01","Exactly one response per request line, in order, carrying its id",
 "Every line a client writes to the server's standard input is answered by exactly one line of JSON-RPC 2.0 on standard output, in request order, holding either a result or an error and echoing the request's id (a string or an integer) unchanged. The answer is completely written before the server waits for more input, so a client that waits for each answer never deadlocks, and one that pipelines requests loses none.",
 ["schedules","histories","inputs"],"all request sequences over all methods (ledgers that parse, fail to parse, fail to book or cannot be read), all id forms, all interleavings of client writes with server reads and writes (lockstep, pipelined, split lines, final line without newline)",
 "no test starts the server, so no request history or read/write interleaving is exercised.",
 [S,J],[("read line, dispatch, write one response line",S),("id carried from request to response",S+", "+J)],["stdin/stdout of `limabean-pod serve`"],
 [("line buffer","the request being assembled from partial reads",S)])
p("C02","Bad requests are answered with an error and disturb nothing",
 "A text line that is not a valid request (malformed or truncated JSON, wrong protocol version, unknown method, missing or ill-typed parameters, an empty line) is answered with a JSON-RPC error - parse error -32700, or invalid request -32600 for a wrong version - and performs nothing. The session carries on: every other request of the session gets the same answer it gets without the bad line.",
 ["histories","inputs","schedules"],"all positions of all kinds of bad lines in all sessions, under all fragmentations of the byte stream",
 "no test sends a request, good or bad.",
 [S,J,SER],[("deserialise request or answer with ERROR_PARSE",S),("version check before dispatch",S)],["stdin/stdout of `limabean-pod serve`"])
p("C03","How bytes are split or interrupted in transit never shows",
 "The bytes the server writes and its exit status depend only on the bytes it was sent and the files it read: partial reads, several requests in one read, requests split anywhere (also inside a multi-byte character), short writes, and interrupted system calls on standard input, standard output and ledger files change nothing.",
 ["schedules","fault_sequences"],"all segmentations of input and output and all placements of EINTR and short transfers on stdin, stdout and ledger file reads",
 "no test performs any of the server's I/O.",
 [S,M],[("buffered line reader on stdin",S),("line-buffered stdout, writeln per response",S)],["system-call boundary of limabean-pod"])
p("C04","Sessions end cleanly; transport failures never yield a wrong answer",
 "When its input ends, the server answers every request already received and exits with status 0. When reading requests or writing answers fails for good (input which breaks off within a character counts as such), it stops promptly with a non-zero status, and what it had written is a prefix of what it would have written without the failure: never an altered, reordered, duplicated or skipped answer.",
 ["crash_points","fault_sequences","histories"],"all points at which end of input, a read error, a write error (EPIPE, EIO, ENOSPC, zero-length write) or process death can fall in any session",
 "no test reaches process exit or an I/O error.",
 [S],[("EOF -> exit(0), read error -> exit(1)",S),("write failure aborts the process",S)],["exit status and stdout of `limabean-pod serve`"])
p("C05","A ledger that cannot be read completely is reported, never half-used",
 "If the ledger file or any file it includes cannot be opened or read completely, is missing, or is not valid text, every query about the ledger is answered with an error that names the file, and none with directives or bookings built from only part of the ledger; the server itself keeps answering. If all files are read, the ledger consists of all of them, each included file once.",
 ["fault_sequences","inputs","configurations"],"all file trees with nested and glob includes, and all placements of open, read and directory-listing errors (ENOENT, EACCES, EIO, EMFILE, EISDIR, ELOOP), truncated UTF-8 and mid-file read errors",
 "no test reads a ledger from a file at all.",
 [S],[("unreadable root turns the server into one that answers every request with the I/O error",S),("errors of included files become parse errors",S)],["answers of status, parser.* and book"])
p("C06","Ledger files are only ever read",
 "Whatever requests are made and whatever fails, the server never creates, writes, truncates, renames, removes or changes the attributes of any file, except for creating (with its directory) and appending to the log file the user asked for; existing log contents are kept.",
 ["histories","fault_sequences","crash_points"],"all sessions and fault sequences, with and without logging",
 "tests never observe the file-system effects of the server.",
 [S,M],[("sources are opened read-only",S),("log appender",M)],["file-system calls of limabean-pod"])
p("C07","A session has no memory: the same question always gets the same answer",
 "Within one session, repeating a request gives the same answer, whatever other requests - successful, failing or malformed, including bookings of other directives - came in between; the only thing a session remembers is the synthetic sources it was asked to create (which also show as surroundings in rendered reports about them). A session is about the ledger as it was when the server started: what becomes of the ledger's files afterwards does not show.",
 ["histories"],"all interleavings of all requests within a session, over ledgers that parse, fail to parse or fail to book, with ledger files changed, spoilt or removed at any point of the session",
 "no test issues two requests to one server.",
 [S,B,A],[("parsed ledger is computed once and borrowed immutably by every handler",S),("booking state lives in one accumulator per request",B)],["answers of repeated requests"])
p("C08","Answers do not depend on the run",
 "Two servers started on the same ledger and asked the same questions give the same answers, up to the order of members of unordered collections (tags, links, currencies, metadata keys, syntax errors of one ledger): hash seeds, memory layout, the time of day, clock jumps, process restarts and logging do not show, neither in results nor in which errors are reported, nor in the order of booking errors.",
 ["schedules","configurations","crash_points"],"all hash seeds, memory layouts and clock readings, and restarts at any point of a session",
 "a test runs under one hash seed and looks at one boolean.",
 [S,A,PC],[("ordered processing of directives; hash maps only for lookup",A)],["answers of all methods across runs"],
 [("hash maps of accounts","iterated when looking for unused pads",A)])
p("C09","A location always resolves to exactly the text it stands for",
 "The location attached to each directive and posting resolves to the file it was written in, the lines it spans, and its exact source text (that of a directive may take in comments which follow it; white space at the end is left out). A synthetic source location is distinct from every other location handed out, and resolves for the rest of the session to the name and text it was created with, whatever other synthetic sources are created.",
 ["histories","inputs"],"all ledgers spread over several files (also with multi-byte text), and all interleavings of creating and resolving synthetic sources",
 "no test resolves a location.",
 [S,PC,T],[("span conversions",PC),("synthetic sources accumulate for the session",S)],["parser.directives, parser.resolve-spans, parser.create-synthetic-spans"],
 [("synthetic sources","name -> accumulated text",S)])
p("C10","Booking what the server handed out equals booking the ledger itself",
 "Sending the directives the server returned back to be booked gives exactly the booking the server makes of the ledger by itself, however the client re-encodes them (order of keys and of set members, with or without locations). When booking fails, both report the same errors, in the one case by the index of the directive or posting at fault and in the other by its location, and these correspond one to one.",
 ["histories","inputs"],"all sessions in which a client passes (re-encoded, filtered or extended) answers back as booking requests",
 "no test round-trips directives through the wire format.",
 [S,SER,RAW,PC,BK],[("symmetric serialisation of directives",SER+", "+RAW),("index to location mapping of booking errors",PC)],["parser.directives and book with and without parameters"])
p("C11","Parsed directives say exactly what the ledger says",
 "The directives the server returns are exactly those of the ledger and its includes, in date order with opens first and balances next within a day and file order otherwise; every date, account, currency, string, tag, link, flag, metadata value, cost, price, tolerance and number - with its written number of decimal places - is what the ledger states, nothing is dropped, altered or invented.",
 ["inputs","schedules","configurations"],"all ledgers over all directive types and fields spread over included files, under all hash seeds and read fragmentations",
 "no test looks at a converted or serialised directive.",
 [PC,RAW,SER,S],[("conversion from parser types",PC),("serialisation",SER+", "+RAW)],["answer of parser.directives"])
p("C12","Options and plugins are reported as declared",
 "The server reports every plugin in declaration order with its exact name and configuration (or none), and every option it understands with exactly the declared value, defaulting only those not declared; options that govern booking and tolerances take effect in booking.",
 ["inputs","configurations","schedules"],"all sets of options and plugins, spread over included files, under all hash seeds",
 "no test sets or reads an option or plugin.",
 [PC,RAW,T,B],[("option conversion",PC),("options feed booking defaults and tolerances",B)],["answers of parser.options, parser.plugins and book"])
p("C13","Every booked transaction balances and keeps what the user wrote",
 "In every booking the server returns, the weights of each transaction's postings sum to zero in every currency within the tolerance; every value the user wrote is kept, missing amounts, currencies, costs and prices are filled in so as to balance, and every posting, flag, metadata value, tag and link of the ledger reappears on the posting it belongs to (except that a price beside a cost carries no weight and need not be repeated). A transaction that cannot be balanced so is reported, never booked.",
 ["histories","inputs","schedules"],"all transaction histories (with elided amounts, currencies, costs, prices; several currencies) under all hash seeds that order currency groups",
 "no test inspects a booked transaction.",
 [A,BC,BT,BK],[("booking of postings against inventory and tolerance",A)],["answer of book"])
p("C14","Reductions consume exactly the lots the booking method selects",
 "A posting that reduces a position held at cost is booked against existing lots only, chosen by its cost specification and the account's booking method (strict, strict with size, first-in, last-in or highest-cost first; method as declared for the account or else by the ledger's option), one booked posting per lot with that lot's cost, date and label, and never more than the lot holds; what remains is available to later postings, and an ambiguous or oversized reduction is reported.",
 ["histories","schedules"],"all histories of augmentations and reductions over all booking methods, in any session history, under all hash seeds",
 "no test books a cost.",
 [A,B,BT,BC],[("inventory threaded from transaction to transaction",A),("composite costs expanded to one posting per lot",A)],["answer of book"],
 [("positions per account","lots left after each transaction",A)])
p("C15","Balance assertions are judged exactly",
 "A balance assertion succeeds if and only if the asserted amount differs from the sum of what the account and all its sub-accounts hold in that currency at that point by no more than the tolerance: the one written, else twice the tolerance multiplier at the precision of the asserted amount (none for whole amounts). A failed assertion is reported at that assertion with the exact discrepancy and the contributing postings since the account's previous assertion, and later assertions are judged as if it had held.",
 ["histories","inputs"],"all histories of transactions, pads and assertions over account trees, at and around the tolerance boundary, for all tolerance options",
 "the two tests sample one boundary with one account, one currency and default options.",
 [A],[("rollup over sub-accounts, tolerance, margin",A),("account adjusted after a failed assertion",A)],["answer of book"],
 [("balance window","directives since the previous assertion",A)])
p("C16","Pads insert exactly the missing amount, once",
 "A pad followed by an assertion on its account that it does not already meet inserts, at the pad, one transaction moving exactly the missing amount from the source account to the padded account, so that the assertion holds and the source account bears the opposite; a pad serves at most the next assertion on its account. A pad that is not needed or never followed by an assertion is reported.",
 ["histories"],"all histories of pads, transactions and assertions over padded and source accounts, including unopened, closed and shared sources",
 "no test uses a pad.",
 [A],[("placeholder transaction filled by the next balance",A),("unused pads reported",A)],["answer of book"],
 [("pending pad","pad awaiting an assertion",A)])
p("C17","Only open accounts and permitted currencies can be used",
 "Between its open and its close an account may be used, only in the currencies its open permits (all if none are named); a posting, assertion or pad on an account not open or already closed, a second open or close, a reopen after close, or a currency not permitted is reported at the offending directive or posting with the open or close it conflicts with, and is never booked.",
 ["histories"],"all histories of opens, closes and uses over several accounts in any order",
 "no test opens an account twice, closes one or restricts its currencies.",
 [A],[("open/closed account maps",A),("currency validation",A)],["answer of book"],
 [("open and closed accounts","lifecycle state of each account",A)])
p("C18","Booking is all or nothing and reports every error where it is",
 "A booking either succeeds, with every directive booked in order, or returns no booking and reports every directive at fault exactly once, in an order fixed by the ledger alone, each at the directive or posting at fault. A rejected directive has no effect on balances, lots, pads or account lifecycles: everything else is judged as if it were absent from the ledger.",
 ["histories","schedules"],"all histories with any number and placement of faulty directives, under all hash seeds",
 "the tests only see whether booking failed, never what was reported.",
 [A,PC,S],[("errors collected per directive; inventory updated only after validation",A),("validate at end",A)],["answer of book"])
p("C19","Rendered reports show the message at the right place",
 "Formatting a list of errors or warnings returns, for each in order, its kind, message and reason, the file and line of its location with the text there, its contexts and related locations, and its annotation, for locations in ledger files and in synthetic sources alike; a bad location never breaks the session.",
 ["histories","inputs"],"all reports the server handed out or a client made up, over real, synthetic and invalid locations, at any point of a session",
 "no test formats a report.",
 [S,PC,T],[("report rendering per kind with annotation",S),("report conversion",PC)],["answer of parser.format-errors and parser.format-warnings"])
p("C20","Logging is invisible to the client",
 "Switching on the log, at any level or with a level setting that makes no sense, changes nothing the client sees; a log whose writes fail (full disk, I/O error, interrupted or short writes) and clock jumps change nothing either, and whatever is logged is appended in order; at level debug (the default) and finer, that includes every request in full.",
 ["configurations","fault_sequences"],"all sessions with logging at all levels under all placements of log write errors and clock readings",
 "no test enables logging.",
 [M,S],[("log file appender configured from the environment",M),("debug events around each request",S)],["stdout, exit status and log file of limabean-pod"])
p("C21","The launcher runs the right program with the user's arguments, or fails",
 "The launcher replaces itself with the runtime selected by the environment (local Clojure sources, else the uberjar of the environment, else the one chosen as the launcher was built, else the published version of its own release, with extra dependencies for Clojure runtimes), passing every user argument verbatim and in order, and the environment unchanged; if that cannot be executed it says so and exits with status 1; a setting which is ignored is named, the command is shown when asked for, and otherwise nothing is said. Its health command shows what the runtime says of itself, reports a missing or failing runtime or a missing uberjar with status 1 and otherwise exits with status 0.",
 ["configurations","fault_sequences","inputs"],"all environments and argument lists, and all failures of program execution and of the runtime's version command",
 "no test runs the launcher.",
 [LR,LM,LH],[("runtime selection and exec",LR),("health probes",LH)],["exec and spawn calls, exit status and stderr of `limabean`"])
p("C22","Tabulation consumes all of its input or fails",
 "The tabulate command prints the table for the whole of its input, however that input arrives and however its output is accepted, and exits with status 0; input that is malformed or incomplete, cannot be read, or output that cannot be written leads to a non-zero status and no table made from part of the input.",
 ["schedules","fault_sequences","inputs"],"all inputs, segmentations, interrupted calls, read errors and write errors",
 "no test runs the tabulate command.",
 [M],[("read all of stdin, decode, print",M)],["stdin, stdout, exit status of `limabean-pod tabulate`"])
p("C25","Every mistake in the ledger is reported, where it is",
 "If the text of the ledger or of any file it includes has mistakes, every question about the ledger is answered by the same list, with one report for each: its reason, its exact place (file, line and text), what it is part of, and for a repeated option or inclusion the place of the first; nothing which is right is reported. Mistakes which show only when the files are read together (inclusions, pushed and popped tags) may be left out while single files have mistakes.",
 ["inputs","fault_sequences","histories"],"all ledgers over several files with any number and placement of mistakes separated by directives: unknown or misspelt directives, dates, accounts, currencies, options, repeated options and inclusions, tags, and files which are missing, unreadable, or fail while read",
 "no test parses a ledger with mistakes.",
 [S,PC,T],[("errors of the parser converted to reports",PC),("every query answered by the reports",S)],["answers of parser.* and book"])
p("C26","A session does not wear out",
 "However long a session lasts, repeating the same requests, valid or not, under the same or new ids, costs no more than before: once they have been answered, answering them again leaves the server with no more memory, open files or threads than it had, and takes no more allocations or system calls each time. Only synthetic sources add to what is kept, in proportion to what was created.",
 ["histories"],"all sessions that repeat any mix of requests, successful, failing or malformed, any number of times",
 "no test issues two requests to one server, and none looks at what the server holds.",
 [S,B,A],[("the request loop keeps nothing from one request to the next",S),("booking state lives in one accumulator per request",B)],["memory in use, open files, threads and system calls between requests"])
p("C23","Plugins and user code in the front end see and may replace all directives",
 "The Clojure front end applies the plugins the ledger declares, in order, to the parsed directives before booking and to the booked ones after, and reports an error raised by a plugin instead of dropping directives.",
 ["programs","histories"],"all plugin pipelines over all ledgers",
 "the Clojure tests compare a handful of golden files and cannot run here.",
 ["clj/src/limabean/adapter/loader.clj","clj/src/limabean/adapter/plugins.clj","clj/src/limabean/plugin.clj"],[("plugin pipeline","clj/src/limabean/adapter/loader.clj, clj/src/limabean/plugin.clj")],["front-end results"])
p("C24","Reports derived from a booked ledger agree with it",
 "Inventories, journals, rollups and balances computed by the front end are those implied by the booked directives they are computed from, for every filter.",
 ["inputs"],"all booked ledgers and filters",
 "the Clojure tests compare a handful of golden files and cannot run here.",
 ["clj/src/limabean/core/inventory.clj","clj/src/limabean/core/journal.clj","clj/src/limabean/core/rollup.clj"],[("inventory, journal and rollup","clj/src/limabean/core")],["front-end results"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
