HOOKS = []
NA = {}
REF = "Trusts the independent reference interpreter in the harness (ref.go) as the statement of the semantics."
MOD = "Trusts the small executable model of the operations in the harness."
T["C01"] = ("runtime monitoring: round-trip oracle over generated data", "Print-read-compare on generated data of every kind, structural comparison made by the harness, not by the interpreter.")
T["C02"] = ("runtime monitoring: reference token renderer, crash and progress monitor on hostile text", "Known token sequences under random layout, plus truncated, mutated and arbitrary text.")
T["C03"] = ("runtime monitoring: event trace and result against a reference interpreter", REF)
T["C04"] = ("runtime monitoring: event trace of every sub-expression against a reference interpreter", REF)
T["C05"] = ("runtime monitoring: values seen by callees against the reference binding rule", REF)
T["C06"] = ("runtime monitoring: expansions and event traces against a reference expander", REF)
T["C07"] = ("runtime monitoring with injected failures: traces against a reference interpreter", REF)
T["C08"] = ("runtime monitoring: snapshots of code and data before and after evaluation", "Structural snapshots made by the harness through the Go API.")
T["C09"] = ("runtime monitoring: results against big-integer arithmetic", "math/big is the oracle.")
T["C10"] = ("runtime monitoring: results against IEEE single precision arithmetic", "The Go float32 arithmetic of the harness is the oracle.")
T["C11"] = ("runtime monitoring: results against a sequence model", MOD)
T["C12"] = ("runtime monitoring: recorded call sequence against a reference", REF)
T["C13"] = ("runtime monitoring: agreement of all equality operations with structural comparison", MOD)
T["C14"] = ("runtime monitoring: model-based mutation histories after copying", MOD)
T["C15"] = ("runtime monitoring: model-based histories against finite maps", MOD)
T["C16"] = ("runtime monitoring: results against a character model", MOD)
T["C17"] = ("runtime monitoring: output against an independent formatter", MOD)
T["C18"] = ("runtime monitoring: model-based histories against byte sequences", MOD)
T["C19"] = ("runtime monitoring: model-based histories against a prototype-inheritance model", MOD)
T["C20"] = ("runtime monitoring: method call traces against a dispatch model", MOD)
T["C21"] = ("runtime monitoring: round trips compared with an independent JSON reader", "encoding/json with UseNumber is the oracle for JSON text.")
T["C22"] = ("runtime monitoring: model-based histories over trees of environments", MOD)
T["C23"] = ("runtime monitoring: attack programs with effect monitors for every restricted operation", "Effects of restricted operations are watched through stand-ins and private files.")
T["C24"] = ("runtime monitoring: file contents and delivered data against a model", MOD)
T["C25"] = ("runtime monitoring: argument fuzzing of every built-in with checkptr, panic, progress and invariant monitors", "Go runtime checks and checkptr instrumentation observe memory misuse; shared values are compared after each call.")
T["C26"] = ("race detector plus linearizability checking of recorded histories (porcupine)", "Sequential int64 cell model; histories recorded at the caller's boundary.")
T["C27"] = ("race detector plus history checking (exactly-once, order, capacity; porcupine on small histories)", "Histories recorded at the caller's boundary, unique values.")
T["C28"] = ("race detector plus history monitors over process events", "Decides on logical events; time limits only as watchdogs.")
T["C29"] = ("race detector, per-slot linearizability (porcupine) and deadlock monitor", "Deadlock verdict only when every goroutine is blocked with no pending input.")
T["C30"] = ("race detector over concurrent evaluations, results compared with sequential runs", "ThreadSanitizer-based Go race detector; results must equal a sequential run.")
T["C31"] = ("runtime monitoring: identity oracle over interned and generated symbols, race detector", "Pointer identity observed through the Go API.")
T["C32"] = ("runtime monitoring: profile file checked against the recorded trace of calls", "A trace checker over the profile file.")
T["C33"] = ("runtime monitoring: predicate answers compared with the known kind of each value", "A table of kinds is the oracle; values are produced and passed on by the language itself.")
T["C34"] = ("runtime monitoring: calls with wrongly typed arguments, monitored for errors and side effects", "A table of argument kinds is the oracle; arguments are compared before and after.")
T["C35"] = ("runtime monitoring: every way of running a program compared with evaluating it form by form", "Differential monitoring of results, effects, definitions and output; C03 judges the baseline.")
T["C36"] = ("runtime monitoring: stream accesses compared with lazy memoised lists, evaluation events counted", "A Go model of lazy lists emits the same events.")
T["C37"] = ("runtime monitoring: test runs with known outcomes, counters and events compared", "The generator of test files knows every outcome.")
T["C38"] = ("runtime monitoring: reports on generated inputs compared with their known content", "The generators of profiles and programs know what has to be reported.")
T["C39"] = ("runtime monitoring: transcripts of REPL and debugger sessions compared with a model", "The model evaluates the same lines and debugger commands.")
T["C41"] = ("runtime monitoring: processes of the built command compared with a model of what they must print", "The model keeps global and session variables, functions and files.")
T["C40"] = ("runtime monitoring: random histories of API calls compared with models after every call", "The models are linked cells, maps, graphs of slots and chains of scopes.")
