NOTE_SEEDS = """Each was written from the property and the code, confirmed in a scratch copy (builds, stable tests pass, demo
fails with it and passes without), and kept whether or not it was caught."""
D["C01"] = """Monitor: generated data (every integer and float32 width including extremes and subnormals, strings over awkward
alphabets, symbols, nested proper and dotted lists, quote forms, byte arrays, frames) is built both through the Go API and by
the reader, printed, read back, and compared *structurally by the harness* (not by the interpreter's own equality);
the second printing must be identical. ~0.5 M data per quick run. The tests print a few dozen fixed literals."""
D["C02"] = """Monitor: data rendered to a known token sequence under random layout, comments, number spellings and adjacency are read one
by one, all at once, and evaluated in order; every delivered datum is compared; some lists and texts have thousands of elements. Truncated, mutated and arbitrary texts run under a
crash, runaway and deadlock monitor, and everything before the damage must still be delivered."""
ref = """Oracle: `ref.go`, a separately written interpreter for the language core (lexical scopes, all special forms, macros, quasiquote,
errors) working on its own data type. Every operand records an event; value, success/failure and the complete event
sequence must agree, form by form."""
D["C03"] = ref + " Workload: programs of nested scopes, shadowing, captured and assigned variables, named lets, do loops, internal defines, closures escaping through lists and higher-order functions. A second phase (c_scope.go, \"cells\") keeps many named cells, some created by the same code, captured by closures, frames and methods, and compares every one after each assignment."
D["C04"] = ref + " Workload: compositions of the control forms with operands of every truth value; the trace shows which sub-expression ran, how often and in which order."
D["C05"] = ref + " Workload: functions, macros, closures and host built-ins of every parameter shape and arity string called with 0..8 (some with up to 45) arguments over every route (direct, apply, map, fold, ->, returned closure, Go API)."
D["C06"] = ref + " Workload: templates with unquotes and splices at every nesting level and position, dotted tails and empty lists; macros that use each parameter 0..3 times, compared by expand, by eval of the expansion and by the call."
D["C07"] = ref + " Fault injection: a failing primitive is placed at each evaluation point of a program in turn, with and without on-error; the same environment is used afterwards."
D["C08"] = """Monitor: structural snapshots (made by the harness through the Go API) of the parsed forms, of quoted constants and of every
argument before and after evaluation; the same parsed form is evaluated again from an equal state and must give the same value and trace. Workload: all program
generators above, and every built-in without ! on arbitrary shared arguments."""
D["C09"] = "Oracle: `math/big` reduced to 64 bit two's complement. Operands cluster at 0, +-1, powers of two, 2^24, 2^53 and the int64 limits, with near-equal pairs; calls go by text, apply, variable and higher-order function."
D["C10"] = "Oracle: float32 arithmetic of Go, folded left to right. Operands mix int64 and float32 with NaN, infinities, signed zero, subnormals and neighbours; literals lie next to the midpoints between two floats."
D["C11"] = "Oracle: sequence model (Go slices) for each operation; lists are built by random compositions of constructors, positions lie inside, at and beyond the limits; sort is judged as an ordered permutation; mutators against a mutable-cell model with aliases, and against a heap model in which lists are stored in lists, tails are atoms or other lists, values are long, and changes are made from inner scopes."
D["C12"] = ref + " Workload: every higher-order function over lists of 0..12 elements (some of up to a thousand), up to fifteen lists, missing results, with recording functions, functions failing at the k-th call, predicates true at chosen positions."
D["C13"] = "Oracle: structural comparison in the harness. Pairs and families of values, most of them near copies that differ in one element, tail, slot, key or type; every equality operation in both orders and all searching operations must agree with it. Sizes reach lists of several hundred elements, deep nesting, frames and alists of many keys, differing late or deep."
D["C14"] = "Oracle: mutable model in which original and copy are separate; after each mutation at a random depth both sides are compared. Copies of copies and clones included."
D["C15"] = "Oracle: finite-map model for every live association list of a history (they share structure); each is compared after every step; one phase has maps of up to 450 keys."
D["C16"] = "Oracle: rune and byte-wise models of each operation written without package strings; split/join inverse; in-place histories over aliases and copies."
D["C17"] = "Oracle: an independent formatter. Random control strings with all directives, widths and modifiers, malformed and truncated directives, missing and surplus arguments; output to a port and to standard output compared with the file."
D["C18"] = "Oracle: byte slices; histories over several live arrays with aliases, all arrays compared after each step, errors must change nothing."
D["C19"] = "Oracle: a model of frames with parent slots; histories of slot operations through functions and shortcuts over graphs of frames, cycles included; every visible slot compared after every step."
D["C20"] = "Oracle: a dispatch model; methods record self, arguments and the frame that holds them; nested sends, send-super over several levels, apply-slot, shortcuts, methods shared between frames."
D["C21"] = "Oracle: `encoding/json` with exact numbers. Random documents over awkward keys and strings go JSON -> lisp -> JSON and lisp -> JSON -> lisp. The same documents go through the older association-list functions (without empty arrays and objects: both are nil there). Random struct types (`reflect.StructOf`, with name, `-`, `omitempty` and `string` tags and unexported fields) are filled at random and their frame's JSON compared with what `encoding/json` writes for the same value; where the two deliberately differ (nil slices, pointers to zero values with omitempty, empty containers with omitempty, floats with `string`, embedded structs) nothing is generated. Damaged documents must give an empty frame that takes slots."
D["C22"] = "Oracle: a tree of maps; histories of define, set!, environment-define, environment-assign!, eval in an environment, lets, calls and host bindings over trees of environments; every name in every environment compared after each step. Some histories have hundreds of names, odd or very long ones, nil values and many macros."
D["C23"] = "Monitor: for each restricted operation an observable effect (private file, binding in an outer environment, flag) that must never appear while attack programs run in a restricted environment and in scopes made from it, over every calling route."
D["C24"] = "Oracle: file contents and delivered data of a model; several ports at once, interleaved reads, append, data larger than a buffer, closed and wrong-direction ports. Directory listings by random patterns are compared with an independent matcher. Everything happens in a private directory."
D["C25"] = """Monitor: every built-in and special form is called with generated argument tuples over all value types (also values of the wrong type
behind each tagged accessor). Watched: panics, runtime faults with checkptr instrumentation, runaways, deadlocks, and that shared values (booleans, nil, constants, other bindings)
are unchanged. Built-ins that block, exit or touch the system are excluded or run against stand-ins and a private directory."""
D["C26"] = "Race detector build; histories of concurrent operations recorded by host primitives at call and return, checked with porcupine against a sequential int64 cell, and totals for long runs of additions."
D["C27"] = "Race detector build; unique values; exactly-once, per-writer order, capacity and close rules checked on complete histories, small histories with porcupine."
D["C28"] = "Race detector build; process events (start, argument, end, join result, wake result) recorded in a log, judged by an order and exactly-once checker; timing appears only as 'not before'. Some processes run for seconds."
D["C29"] = "Race detector build; per-slot histories checked with porcupine; whole-frame operations run concurrently over frames that contain or inherit from each other; deadlock monitor."
D["C30"] = "Race detector build; the programs of the other generators run in many goroutines and forks over one shared global environment, and each result must equal its sequential result."
D["C31"] = "Identity oracle over the symbols delivered by reader, intern, host API and gensym, sequentially and from many goroutines, with the race detector."
D["C32"] = """Trace checker over the profile (to a file and to standard output, by the form and by the host API). Every record is judged against
three observers that know nothing of the profiler: the bodies of all built-ins and forms are wrapped and log each call with its times; the reference interpreter lists the
calls a program makes; functions emit marker events as they begin and end, called in some 40 ways. Results, effects and errors are compared with an unprofiled run; several threads at once are checked per thread."""
D["C33"] = """Values of twenty kinds, each made by several expressions (literals, constructors, results of built-ins), go through random chains of constructs that must not change them
(calls, rest parameters, lists, frames, channels, processes, loops, error handlers) and are given to every predicate directly, by apply and by map. The oracle is the table of
kinds, so a predicate, a constructor and a carrier that change the kind are all seen."""
D["C34"] = """A table gives the accepted kinds per argument of some 170 built-ins. Each case calls one with exactly one argument of a wrong kind (about 18 kinds, made in several ways), directly or by
apply: it must be an error, and what is visible of every argument (contents, bindings, counters) must be unchanged; calls with only right arguments must succeed. Arguments where the
code deliberately accepts anything (`(car 5)` is `()`, `(length 5)`, the index of set-nth!, interval bounds) are not in the table."""
D["C35"] = """Random programs (the generator of C03, with failing forms, and with texts cut inside a form) run form by form and again through one of 13 routes: host functions on text and files, ParseAll, ports and
read, eval, parse, global-eval, load (also called through a function). Random separators and comments; a third of the runs have lisp-trace, debug-trace or interactive mode on, with standard output
going to a file. Compared are results, the end of the error text, marker events in order and what is bound afterwards. The global environment is shared, so names get a unique suffix.
Further phases judge the trace text, definition-of (evaluated and printed-read-evaluated, then called with the same arguments), console output captured at file descriptors 1 and 2, sleep, time, millis, random-byte."""
D["C36"] = """A Go model of lazy lists with memoised tails is built beside every random stream expression and emits an event where the Lisp text has a marker. After each access the value and the multiset of events
must agree, so both missing laziness and missing memoisation are seen; delay/force are compared in order, nothing may be evaluated before it is forced."""
D["C37"] = """The generator writes test files whose assertions have a chosen outcome, runs them through run-test or run-all-tests (with a helper file that must not be run) and compares counters, the context and clause of every
message, the result, the printed summary and how often the asserted expressions were evaluated; tests use variables named like the ones of the framework."""
D["C38"] = """Random call trees are written as profiles; call-trees, by-function (parsed from its table) and print-tree are compared with the tree. Random programs with a known list of findings go through lint."""
D["C39"] = """A model of the evaluator with the debugger's stops (single step, up, entry, error, (debug)) makes up sessions as it evaluates them: at each stop it chooses what to type, and knows which prompt reads each line and what is printed. `vh repl` runs golisp.Repl() in a process of its own on these lines; the oracle compares prompts and output line by line (error messages by their beginning, lists of variables in any order). What a built-in does after `:c` from its own error is left open: there the sessions use :r."""
D["C40"] = """Random histories of calls of the exported Go functions run against a pool of lists that share cells and strings (model: linked cells), of alists (maps), of frames (graphs of slots, cycles included) and of environments with and without frames; after every call each element of the pool is compared with its model, so that a wrong copy or a lost sharing shows. Values of every type are stored and read back with every accessor and predicate. Host functions are registered with random argument count descriptions and called with 0 to 17 arguments through Eval, Apply and ApplyWithoutEval, as special forms and restricted. Functions and macros of random shapes, whose free names have different values in the defining environment, its frame, the frame given and the calling environment, are called in all eleven ways the API has; result, markers and what the bindings and slots hold afterwards are predicted."""
D["C41"] = """The command is built from the tree and run in processes of its own in scratch directories. Files: one to five random files that define, change and print variables, define and call functions, load one another, handle errors, fail, quit or end in the middle of a form, with comments, blank lines and strings that look like code; named in any order, repeatedly, missing or directories; then a session of up to twelve lines. A model of the global and the session variables says every line of the output (error texts are skipped). Tests: files of assertions with known outcomes (the generator of C37) run with -t, with -v in several spellings, as file or directory, next to files that are not tests; markers, summary and report are compared. About 5500 processes in 7 s."""
EX = """
* Cyclic lists (made with set-cdr!) given to operations on lists; `(quote)` without operand; strings that are not valid UTF-8; NaN inside containers.
* An explicit unquote nested in an unquoted expression at level 1; stray closers at top level (a pinned test reads them as symbols).
* `(pow int negative)`, one-operand - and /, negative shift counts, binary-not above 32 bits, number->string of floats, trailing garbage in string->number, NaN in min/max/sign.
* Requests whose only fault is their size (make-list, interval, format widths, channels of gigabytes): they exhaust memory by construction.
* JSON null, NaN and infinities; floats with zero fraction may come back as integers.
* The same function object stored in two frames of one hierarchy together with send-super; several parents with conflicting slots.
* Plain variables shared by processes without channel, atomic, frame or join between them (Binding.Val is unsynchronised by design); the profiler under the race detector.
"""
