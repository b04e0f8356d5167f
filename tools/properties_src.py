prop("C01", "Printing then reading a datum gives back an equal datum",
 "For every datum built from integers, finite floats, booleans, strings, ordinary symbols, proper and dotted lists, quoted forms, byte arrays and literal frames (strings of valid text), reading its printed representation succeeds and yields a datum of the same types that is equal to it (for a frame: the make-frame form that evaluates to it). Printing the datum that was read produces exactly the same text again, and printing never changes the datum.",
 ["inputs"], "All data values of the listed kinds, nested to any depth, with any string content and any int64 / float32.",
 "printing_test.go and parsing_test.go check a few dozen fixed literals; none has backslashes, control characters, exponents, extreme integers or nested quote forms.",
 ["data.go", "parser.go", "tokenizer.go"],
 [("String / PrintString", "data.go"), ("parseExpression and the Tokenizer", "parser.go, tokenizer.go"), ("escapeQuotes", "data.go")],
 ["golisp.String", "golisp.Parse", "golisp.IsEqual", "write / read primitives"])
prop("C02", "Reading source text depends only on its tokens and never crashes",
 "Reading a text yields the data its tokens spell, one after the other in order, whatever white space and comments separate the tokens, and reading a sequence of expressions gives the same data as reading each expression alone. In a string literal \\n is a new line and a backslash before any other character stands for that character. Any text at all, including truncated, unbalanced or illegal input, is either read or rejected with an error: the reader terminates, and never crashes or drops expressions that follow a complete one.",
 ["inputs"], "All source texts: well-formed token sequences under every layout, and arbitrary or mutated byte strings.",
 "tokenizer_test.go and parsing_test.go use short fixed strings with one layout each.",
 ["tokenizer.go", "parser.go"],
 [("Tokenizer.readNextToken with one rune of look-ahead", "tokenizer.go"), ("parseConsCell / parseBytearray / parseFrame", "parser.go"), ("ParseAll, ParseAndEvalAll", "parser.go")],
 ["golisp.Parse", "golisp.ParseAll", "golisp.ParseAndEvalAllInEnvironment", "golisp.NewTokenizerFromString"])
prop("C03", "Lexical scoping: names resolve by program text, closures keep their variables",
 "A name refers to the innermost enclosing binding in the program text (parameter, let/let*/letrec/do/named-let variable, local define, or global), independent of who calls the code, and a closure keeps access to exactly those variables after their scope has been left. set! changes the one variable that the name refers to, is seen by every closure sharing that variable and by no other instance of the same scope; set! of an undefined name is an error and define creates or changes a binding only in the innermost scope.",
 ["programs"], "All programs built from nested scopes, shadowing, captured and mutated variables, recursion and higher-order calls.",
 "scope_test.lsp, let_test.lsp and lambda_test.lsp check a handful of hand-written scopes one or two levels deep.",
 ["symbol_table_frame.go", "function.go", "prim_special_forms.go", "prim_mutators.go", "binding.go"],
 [("environment chain (Parent) vs caller chain (Previous)", "symbol_table_frame.go"), ("Function.Env captured at lambda evaluation", "function.go"), ("bindLetLocals, rebindDoLocals, namedLetImpl", "prim_special_forms.go")],
 ["result and effect trace of an evaluated program"],
 [("SymbolTableFrame.Bindings", "variables of one scope instance", "symbol_table_frame.go")])
prop("C04", "Control forms evaluate exactly the right expressions, once each, in order",
 "Operands are evaluated left to right exactly once before a call; if, cond, case, when, unless, and, or, begin, let forms, do loops, named let, -> and => evaluate only the expressions their semantics selects, each exactly once and in textual/iteration order, and return the value of the form their semantics names. Only #f and the empty list count as false, and a loop whose test, body or step does not fail runs exactly the number of iterations its test allows.",
 ["programs"], "All programs composed of these forms, nested arbitrarily, with effects in every position.",
 "if_test.lsp, cond_test.lsp, do_test.lsp etc. look only at results of single forms, not at which sub-expressions ran, how often and in which order.",
 ["prim_special_forms.go", "prim_relative_logical.go", "primitive_function.go", "function.go", "data.go"],
 [("special forms receive unevaluated operands", "primitive_function.go"), ("CondImpl, CaseImpl, DoImpl, ChainImpl, TapImpl", "prim_special_forms.go"), ("BooleanAndImpl / BooleanOrImpl", "prim_relative_logical.go")],
 ["trace of marker events emitted by every sub-expression", "result value"])
prop("C05", "Calls bind every argument to its parameter and reject wrong argument counts",
 "A call of a user function, macro, or built-in binds or passes its arguments to the parameters positionally with none lost, duplicated, reordered or re-evaluated, and a rest parameter receives exactly the list of the remaining arguments (empty if there are none), whether called directly, through apply, map, or a stored function value. A call whose argument count does not match the definition is an error, and then the body does not run.",
 ["programs", "inputs"], "All parameter-list shapes (fixed, rest-only, fixed plus rest), argument counts, and ways of calling.",
 "lambda_test.lsp and builtins_test.go call functions with one or two correct counts; argument-count errors of most built-ins and rest-only parameters are never exercised.",
 ["function.go", "macro.go", "primitive_function.go", "prim_special_forms.go"],
 [("makeLocalBindings, computeRequiredArgumentCount", "function.go, macro.go"), ("checkArgumentCount / parseNumArgs", "primitive_function.go"), ("ApplyImpl, QuoteAll", "prim_special_forms.go, data.go")],
 ["values seen by the body", "errors returned by Eval / Apply / ApplyWithoutEval"])
prop("C06", "Macro expansion and quasiquotation build exactly the described code",
 "A quasiquoted template yields its literal structure with every unquote at its own nesting level replaced by the value of its expression and every unquote-splicing by the elements of its list, everything else unchanged. A macro call evaluates, in the caller's scope, exactly the expansion its body computes from the unevaluated argument forms (so expand followed by eval gives the same as the call), and each argument form is evaluated only as often as the expansion contains it.",
 ["programs"], "All templates (nested lists, splices of any length and position, nested quasiquotes) and all macros built from them.",
 "macros_test.go and macro_test.lsp have about ten fixed templates, with no nested quasiquote inside splices, no empty splice in the middle, and no effect counting.",
 ["macro.go", "prim_macros.go", "data.go"],
 [("processQuasiquoted with nesting level", "prim_macros.go"), ("Macro.Expand / internalApply", "macro.go"), ("Flatten", "data.go")],
 ["value of quasiquote forms", "expand results", "effect trace of macro calls"])
prop("C07", "Errors stop evaluation at the failing point and on-error handles them exactly",
 "When an expression fails, nothing that would have been evaluated after it inside the same form runs, the failure reaches the caller as an error (never as an ordinary value), and everything already done stays done. on-error runs its error handler exactly when its expression failed (with the error text), runs the success handler exactly when it succeeded, returns the respective value, and the interpreter and all data remain usable afterwards.",
 ["programs", "fault_sequences"], "All programs with a failure injected at any evaluation point, at any nesting of forms and handlers.",
 "Tests check that a few primitives raise errors; they never inject a failure at each position of a form and look at what ran before and after.",
 ["prim_special_forms.go", "prim_system.go", "function.go", "primitive_function.go", "util.go"],
 [("err checked and returned after each sub-evaluation", "prim_special_forms.go and every primitive"), ("OnErrorImpl", "prim_system.go")],
 ["error value of Eval", "trace of marker events", "later evaluations in the same environment"])
prop("C08", "Evaluating code never changes the code or the data given to it",
 "Evaluating a program leaves the program text (the parsed forms, quoted constants and macro arguments included) unchanged, so evaluating the same parsed form again from the same state gives the same result and effects. Only operations whose name ends in ! (and Go-level mutators) may change an existing list, string, byte array, frame or association list; every other operation leaves its arguments as they were.",
 ["programs", "histories"], "All forms and all non-mutating built-ins applied to arbitrary (shared, nested, literal) arguments, evaluated repeatedly.",
 "Every test evaluates freshly parsed text once, so corruption of the parsed form or of an argument is invisible.",
 ["data.go", "prim_list_manipulation.go", "prim_list_functions.go", "prim_special_forms.go", "prim_alist.go", "prim_bytearray.go", "prim_string.go"],
 [("postProcessShortcuts builds new cells", "data.go"), ("AppendList / Copy before destructive splice", "data.go, prim_list_manipulation.go"), ("ArrayToList copies", "list_access.go")],
 ["printed form and structure of code and arguments before and after"])
prop("C09", "Integer arithmetic, comparison and bit operations are exact 64-bit",
 "On integers, +, -, *, quotient, %, succ, pred, abs, sign, min, max, pow (with an exponent that is not negative), comparisons (<, >, <=, >=, ==, !=), zero?/positive?/negative?/even?/odd?, the binary-* and shift operations and interval agree with exact arithmetic on 64-bit two's-complement integers (wrapping on overflow, truncating division). Division or remainder by zero is an error, and number->string and string->number are mutually inverse in every supported base.",
 ["inputs"], "All tuples of int64 operands, with emphasis on 0, ±1, powers of two and their neighbours, 2^24, 2^53 and the int64 limits.",
 "math_test.lsp and builtins_test.go use one-digit operands.",
 ["prim_math.go", "prim_binary.go", "prim_relative_logical.go"],
 [("addInts, subtractInts, multiplyInts, quotientInts", "prim_math.go"), ("comparison primitives", "prim_relative_logical.go"), ("BinaryAndImpl, LeftShiftImpl ...", "prim_binary.go")],
 ["values returned by the primitives"])
prop("C10", "Mixed and float arithmetic follows single-precision contagion rules",
 "An arithmetic operation with at least one float operand gives the float32 result of the operation on the operands converted to float32, with operations folded left to right, and one with integer operands only gives an integer; float predicates (zero?, positive?, negative?, nan?, inf?), comparisons, floor, ceiling, integer, float, abs, sign, min, max, pow, the elementary functions (sqrt, exp, log, sin, ...), the named constants, float->bits and bits->float agree with IEEE single precision for every value including infinities, NaN, negative zero and subnormals. float->bits and bits->float are mutually inverse for every non-NaN bit pattern.",
 ["inputs"], "All operand tuples mixing int64 and float32 values, special values included.",
 "float_math_test.go and float_test.lsp check small exact values such as 1.5.",
 ["prim_math.go", "prim_relative_logical.go", "data.go"],
 [("anyFloats dispatch", "prim_math.go"), ("FloatValue / IntegerValue coercion", "data.go")],
 ["values and types returned by the primitives"])
prop("C11", "List operations agree with the mathematical sequence model",
 "Constructing, accessing, slicing, joining, reversing, flattening, partitioning, sorting and set-combining lists (cons, list, cons*, make-list, append, reverse, length, car...cddddr, first..tenth, nth, list-ref, list-head, list-tail, last-pair, take, drop, sublist, flatten, flatten*, partition, sort, union, intersection, complement, memq/member, list mutators such as append!, set-car!, set-cdr!, set-nth!) return what the same operation on mathematical sequences gives, for lists of every length however they were built. sort returns a permutation of its input that is ordered under the given predicate, and out-of-range positions are errors or the documented empty result, never wrong elements. Constructing operations (take, list-head, sublist, append, reverse, flatten, sort, copy, map, ...) return new lists that later changes in place of their arguments do not reach and that can be changed without changing the arguments; drop, list-tail, cons, memq and their like continue in their argument.",
 ["inputs"], "All lists (any length, nested, with duplicates, nil elements, built by any constructor) and all index arguments.",
 "list_access_test.lsp, list_manipulation_test.lsp and list_set_test.lsp try lists of at most ten elements built from literals.",
 ["prim_list_access.go", "prim_list_manipulation.go", "prim_list_set.go", "list_access.go", "data.go", "prim_mutators.go"],
 [("ArrayToList / ToArray / Length / NilP list conventions", "list_access.go, data.go"), ("SortImpl merge", "prim_list_manipulation.go"), ("SublistImpl, PartitionImpl", "prim_list_manipulation.go")],
 ["values returned by the primitives"])
prop("C12", "Higher-order functions call their function on the right elements, in order",
 "map, for-each, any, every, filter, remove, find, find-tail/memp, partition with a predicate, reduce(-left/-right), fold-left and fold-right call the given function (user-defined or built-in) with exactly the elements the definition prescribes, in the prescribed order and number of times (stopping where the definition says so, and at the shortest list when several are given), and combine the results accordingly. A failure in the function stops the operation and is reported.",
 ["programs", "inputs"], "All functions with effects and all argument lists of any length, number and content, nil elements included.",
 "map_test.lsp, reduce_test.lsp and filter_test.lsp look at results on short lists, never at the call sequence.",
 ["prim_list_functions.go", "prim_list_manipulation.go"],
 [("MapImpl, ForEachImpl, AnyImpl, EveryImpl", "prim_list_functions.go"), ("ReduceLeftImpl, ReduceRightImpl, FoldLeftImpl, FoldRightImpl", "prim_list_functions.go"), ("ApplyWithoutEval", "data.go")],
 ["trace of calls made to the supplied function", "result"])
prop("C13", "Equality is structural, consistent everywhere and an equivalence relation",
 "==, eq?, eqv? and equal? (and != / neq? as their exact negation) hold between two values exactly when they have the same type and structurally the same content - lists element by element including improper tails, frames slot by slot, byte arrays byte by byte, association lists as key-value maps. The relation is symmetric and transitive, reflexive on everything but NaN, and member, assoc, case, union, intersection and complement use the same notion.",
 ["inputs"], "All pairs and triples of values, near-equal ones (one element, tail, slot or type changed) especially.",
 "equality_test.lsp checks selected pairs of short literals in one order.",
 ["data.go", "prim_relative_logical.go"],
 [("IsEqual", "data.go"), ("EqualToImpl / NotEqualImpl", "prim_relative_logical.go")],
 ["results of the predicates and of the lookup functions"])
prop("C14", "Copies are equal to the original and independent of it",
 "copy of a list, association list, byte array or frame yields an equal value of the same kind, and afterwards no mutation of the original or of the copy (in-place changes of strings, lists, alists and byte arrays at any depth) is visible through the other. clone of a frame gives a frame with the same slots whose later slot additions, changes and removals do not affect the original, and vice versa.",
 ["histories"], "All values of these kinds and all sequences of mutations applied to either side.",
 "copy_test.lsp mutates one element of one short list.",
 ["data.go", "frame.go", "prim_list_manipulation.go", "prim_frame.go"],
 [("Copy", "data.go"), ("FrameMap.Clone", "frame.go")],
 ["printed value of both sides after every mutation"])
prop("C15", "Association lists behave as finite maps",
 "acons, pairlis, alist, assq/assv/assoc, rassoc, dissoc and the printed form behave as operations on a finite map: a lookup returns the pair with the key most recently given to acons (or the empty list if absent), dissoc removes exactly that key and keeps all other pairs, rassoc finds a pair by value, and pairlis adds all its pairs. Operations without ! leave other keys' pairs untouched.",
 ["histories", "inputs"], "All sequences of alist operations with any keys and values, duplicate and absent keys included.",
 "alist_test.lsp performs single operations on two- or three-pair lists.",
 ["prim_alist.go", "data.go"],
 [("Acons, Assoc, Dissoc, Alist", "data.go"), ("PairlisImpl, RassocImpl", "prim_alist.go")],
 ["values returned by the primitives"])
prop("C16", "String operations agree with the character-sequence model",
 "string-length, substring, substring?, string-prefix?/suffix?, case conversion, trimming, splitting, joining, str, string comparison (plain and ci) and conversions to and from symbols and numbers return what the same operation on the strings' contents gives; joining the pieces of a split with the separator restores the string, the comparisons are consistent with one total order, and bang versions change exactly the string they are given. Positions count bytes of the (UTF-8) string, and positions outside the string are errors.",
 ["inputs"], "All strings (empty, long, with quotes, separators, line breaks, non-ASCII) and all positions and separators.",
 "string_test.go and string_test.lsp use short ASCII words.",
 ["prim_string.go", "prim_system.go"],
 [("SubstringImpl, StringSplitImpl, StringTrim*", "prim_string.go"), ("MakeStringImpl", "prim_system.go")],
 ["values returned by the primitives"])
prop("C17", "format produces exactly the text its directives describe",
 "format's output is its control string with ~a/~s replaced by the displayed/written form of successive arguments, ~~ by a tilde and ~% by a newline (as many as its count), a tilde at the end of a line by nothing (skipping the white space that follows), arguments padded (on the side selected by @) to at least the width given as a number, by # (the number of arguments left) or by V (an argument), directives independent of each other; too few or too many arguments, an unknown directive or a wrongly typed argument is an error and never a crash. The first argument selects whether the text is returned or written.",
 ["inputs"], "All control strings (including malformed ones) and argument lists.",
 "system_test.lsp formats about a dozen single-directive strings.",
 ["prim_io.go"], [("FormatImpl", "prim_io.go")], ["returned text, text written to standard output, errors"])
prop("C18", "Byte arrays behave as sequences of bytes 0-255",
 "Creation from lists and literals, conversion back, extract-byte(s), replace-byte (copying) and replace-byte! (in place), append-bytes (copying) and append-bytes! (in place), take, drop, length and equality behave as on mathematical byte sequences; elements outside 0-255, wrong types, an empty list given for conversion and out-of-range positions are errors that change nothing. The copying variants never change or share storage with their arguments.",
 ["histories", "inputs"], "All sequences of byte array operations on shared and unshared arrays of any length with any arguments.",
 "bytearray_builtins_test.go checks single calls on arrays of up to six bytes, with no aliasing.",
 ["prim_bytearray.go", "data.go", "parser.go", "prim_list_access.go"],
 [("ListToBytesImpl, ReplaceByteImpl, AppendBytesImpl, internalAppendBytes", "prim_bytearray.go")],
 ["contents of every live array after every operation"])
prop("C19", "Frame slots follow prototype inheritance",
 "get-slot, get-slot-or-nil, has-slot?, set-slot!, remove-slot! and the slot shortcuts read a slot from the frame itself or else from its (transitive) parents held in slots whose name ends in *, write and remove only in the frame itself, and so changes to a parent are visible in its children unless overridden, and cycles of parents terminate. frame-keys, frame-values, clone, printing and equality consider the frame's own slots only, a missing slot is an error for get-slot and the empty list for get-slot-or-nil.",
 ["histories"], "All frame graphs (chains, diamonds, cycles, any depth) and operation sequences on them.",
 "frame_test.lsp uses one parent level and a few operations.",
 ["frame.go", "prim_frame.go", "data.go"],
 [("hasSlotHelper / getHelper with visited set", "frame.go"), ("postProcessShortcuts", "data.go")],
 ["results of slot operations against a model of the frame graph"])
prop("C20", "Methods run with the receiving frame as self at every call depth",
 "Sending a message (send, the :> shortcut, apply-slot) runs the function found in the receiver or its parents with self bound to the receiver, its own slots readable and assignable by bare name within the method and slot functions callable by name, while parameters and locals shadow slots and other names resolve lexically. send-super and apply-slot-super run the parents' version with the same receiver; a function called normally, even when it is also stored in a slot, sees no frame, and nested sends to other frames restore the caller's frame.",
 ["programs"], "All combinations of frame hierarchies, methods calling slots, supers, closures and other objects.",
 "frame_test.lsp covers single-level methods; no nested receivers, multi-level super or shared function values.",
 ["function.go", "prim_frame.go", "symbol_table_frame.go", "data.go"],
 [("ApplyWithoutEvalWithFrame, env.Frame", "function.go"), ("ValueOfWithFunctionSlotCheck, SlotFunction", "symbol_table_frame.go"), ("getSuperFunction", "prim_frame.go")],
 ["results and effect traces of method calls"])
prop("C21", "JSON conversion preserves documents",
 "Converting JSON text to lisp data and back yields an equivalent JSON document for every document of objects, arrays, strings, booleans and numbers that single-precision/64-bit values represent exactly (a number written with a zero fraction may come back as the integer), and converting lisp data made of frames, lists, strings, numbers and booleans to JSON text yields valid JSON that converts back to equal data. Objects map to frames with one slot per member, arrays to lists in order, and all strings survive unchanged whatever characters they contain. The older conversion, to lists and association lists (JsonStringToLisp, LispToJsonString), does the same for documents without empty arrays and objects. A Go value of the host - structs with their json tags, pointers, slices, arrays, maps - becomes the frame whose JSON is the one encoding/json gives for that value. Text that is not JSON gives json->lisp an empty frame which can be used like any other, and makes JsonStringToLisp panic. TransformJson applies the function to the node and parent it is given.",
 ["inputs"], "All such JSON documents and lisp data, any nesting, key and string content; all Go struct types of basic, pointer, slice, array, map and struct fields; all damaged documents.",
 "json_support_test.go converts a dozen fixed documents of depth at most three with plain ASCII keys.",
 ["json_frame_support.go", "json_support.go", "prim_frame.go"],
 [("JsonToLispWithFrames / LispWithFramesToJson", "json_frame_support.go"), ("JsonToLisp / LispToJson", "json_support.go")],
 ["golisp.JsonStringToLispWithFrames", "golisp.LispWithFramesToJsonString", "json->lisp, lisp->json"])
prop("C22", "Environments isolate bindings and first-class operations act on exactly one",
 "A definition or assignment made in one environment is visible in it and its descendants (unless shadowed) and in no other, for eval with an explicit environment, environment-define, environment-assign!, let/lambda scopes and host-created top-level environments alike. environment-bound?, environment-assigned?, environment-lookup, environment-reference-type, environment-bound-names, environment-bindings, environment-parent and environment-has-parent? report exactly the bindings that exist, and built-in bindings can never be changed by any route.",
 ["histories"], "All sequences of definitions, assignments and queries over trees of environments.",
 "environment_test.lsp inspects two environments with two or three bindings.",
 ["prim_environment.go", "symbol_table_frame.go", "prim_special_forms.go", "prim_system.go"],
 [("BindTo, SetTo, BindLocallyTo, Protected", "symbol_table_frame.go"), ("Environment*Impl", "prim_environment.go"), ("EvalImpl", "prim_system.go")],
 ["values and errors of lookups in every environment after every operation"])
prop("C23", "A restricted environment can never execute a restricted primitive",
 "Once an environment is restricted, code evaluated in it, or in any scope created from it afterwards, cannot run a restricted primitive (file access, process execution, global evaluation, loading, parent or top-level environment access, debugging, panic) by any route: direct call, alias, apply, higher-order functions, macros, closures, eval, on-error handlers, fork, or frames. Such an attempt is reported as an error and has no effect, while unrestricted primitives keep working and code outside the restricted environment is not restricted.",
 ["programs"], "All ways of reaching a primitive from restricted code, nested arbitrarily.",
 "environment_test.lsp tries a direct call only.",
 ["primitive_function.go", "symbol_table_frame.go", "prim_environment.go"],
 [("IsRestricted checked in PrimitiveFunction.Apply and inherited by child environments", "primitive_function.go, symbol_table_frame.go")],
 ["errors and recorded side effects (files, global bindings)"])
prop("C24", "Ports write and read back data faithfully",
 "Data written to an output port with write, write-string, write-bytes and newline appear in the file in order and byte for byte, open with append keeps the old content, and reading the file's expressions through an input port yields equal data in order and then an end-of-file object. Ports are independent: operations on one port, including interleaved reads from several, never affect what another port delivers. list-directory gives the path of each entry of a directory that matches the pattern (every entry when there is none), once.",
 ["histories"], "All sequences of writes and reads over several ports, with any data.",
 "No test reads from two ports, appends, or reads back more than one datum.",
 ["prim_io.go", "tokenizer.go", "parser.go"],
 [("NewTokenizerFromFile", "tokenizer.go"), ("OpenOutputFileImpl, WriteImpl, ReadImpl", "prim_io.go")],
 ["file contents, values delivered by read"])
prop("C25", "Built-ins reject bad arguments with an error, never by crashing",
 "Every built-in function and special form, applied to any number of arguments of any types and values, returns a value or an error in bounded time: it never panics, dereferences a value as a different type, reads or writes outside its data, or leaves shared built-in values (booleans, nil, constants, other bindings) changed.",
 ["inputs"], "All built-ins (other than those documented to block, exit or panic) and all argument tuples over every value type and boundary value.",
 "Tests call built-ins with well-typed arguments and a few type errors.",
 ["primitive_function.go", "data.go", "list_access.go", "prim_alist.go", "prim_binary.go", "prim_bytearray.go", "prim_channel.go", "prim_concurrency.go", "prim_environment.go", "prim_frame.go", "prim_io.go", "prim_list_access.go", "prim_list_functions.go", "prim_list_manipulation.go", "prim_list_set.go", "prim_math.go", "prim_mutators.go", "prim_special_forms.go", "prim_string.go", "prim_system.go"],
 [("type checks at the head of each primitive", "prim_*.go"), ("tagged accessors over unsafe.Pointer", "data.go")],
 ["panics, checkptr/race instrumentation reports, invariants of shared values after each call"])
prop("C26", "Atomic values are linearizable across processes",
 "Operations on one atomic value (atomic-load, atomic-store!, atomic-add!, atomic-swap!, atomic-compare-and-swap!) issued by any number of concurrent processes take effect one at a time, each at some moment between its call and its return, with the values a sequential 64-bit integer cell would return. In particular no addition is lost, and exactly one of several competing compare-and-swaps from the same value succeeds.",
 ["schedules", "histories"], "All interleavings of operations of any number of processes on shared atomics.",
 "concurrency_test.lsp performs the operations from a single process.",
 ["prim_concurrency.go"], [("sync/atomic operations on the boxed int64", "prim_concurrency.go")],
 ["call/return history of concurrent operations"],
 [("Atomic box", "shared int64", "prim_concurrency.go")])
prop("C27", "Channels deliver every value exactly once, in order, with close semantics",
 "Every value successfully written to a channel is read exactly once (or still buffered), unchanged, values from one writer are read in the order written, a channel never holds more than its capacity, and an unbuffered write completes only when its value has been taken. After close, buffered values are still delivered, then reads report closed without blocking, writes and a second close are errors, and the try- variants never block and report truthfully whether they succeeded.",
 ["schedules", "histories"], "All interleavings of readers, writers and closers on channels of any capacity.",
 "channel_test.lsp uses one goroutine at a time and capacity 0 or 1.",
 ["prim_channel.go"], [("ChannelWriteImpl, ChannelReadImpl, ChannelTry*", "prim_channel.go")],
 ["call/return history with unique values"])
prop("C28", "Processes run once, and join, wake, abandon and reset act on that process only",
 "fork and schedule run the function exactly once with the process and the given arguments, concurrently with the caller (schedule not before its delay, and not at all if abandoned in time; reset-timeout restarts the delay), join waits for the process and returns its result, a second join is an error, and a join from inside the process itself returns without waiting. wake makes the current or next proc-sleep of that process return true before its time, an error or panic inside a process ends only that process and leaves join working, and no operation on one process affects another, even when both run the same function.",
 ["schedules", "histories"], "All interleavings of several processes, including many running the same function value.",
 "concurrency_test.lsp forks one process per function and relies on sleeps.",
 ["prim_concurrency.go", "function.go"],
 [("Process channels Wake/Abort/Restart/ReturnValue, Joined flag", "prim_concurrency.go"), ("callWithPanicProtection", "prim_concurrency.go")],
 ["history of process events", "values returned by join / proc-sleep"],
 [("Function.ParentProcess", "process in whose context the function runs", "function.go")])
prop("C29", "Frames shared between processes stay consistent and never deadlock",
 "Concurrent slot operations on shared frames behave, slot by slot, as if executed one at a time between call and return: no update is lost or invented, a slot that exists throughout is always found with a value that was actually stored in it, and copies, clones, key lists, equality tests and printing of a frame under modification complete. No combination of such operations, including on frames that are each other's parents or contain each other, ever blocks forever.",
 ["schedules", "histories"], "All interleavings of slot operations by any number of processes on frame graphs of any shape.",
 "No test accesses a frame from two goroutines.",
 ["frame.go", "data.go", "prim_frame.go"],
 [("FrameMap.Mutex (RWMutex) taken per frame", "frame.go"), ("lock order across frames in IsEqual, String, getSuperFunction", "data.go, prim_frame.go")],
 ["call/return history per slot", "progress of all processes"],
 [("FrameMap.Data", "slots", "frame.go")])
prop("C30", "Concurrent evaluations are free of data races and do not influence each other",
 "Programs evaluated concurrently - by the host in separate goroutines or by fork, sharing the global environment, function values, macros, symbols and environments and communicating only through channels, atomics, frames and join - produce the results they would produce alone, and the interpreter itself performs no unsynchronised conflicting memory access, concurrent map access or crash. Interning one name from any number of goroutines always yields the one same symbol.",
 ["schedules"], "All interleavings of concurrently running evaluations, including first use of names, calls of shared functions, definitions of distinct names in a shared environment, and environment inspection.",
 "All tests run evaluations sequentially in one goroutine; go test is run without the race detector.",
 ["symbol_table_frame.go", "function.go", "data.go", "primitive_function.go", "profiling.go", "prim_environment.go", "tokenizer.go"],
 [("mutexes in SymbolTableFrame, symbolsTable, environmentsTable", "symbol_table_frame.go"), ("atomic SlotFunction, ProfileGUID", "function.go")],
 ["race detector reports, runtime fatal errors, results compared with a sequential run"],
 [("internedSymbols", "symbol table shared by all goroutines", "symbol_table_frame.go"), ("Function.SlotFunction", "per-call mode stored in a shared function", "function.go")])
prop("C31", "Symbols are unique per name and generated symbols are fresh",
 "Reading, intern and the host API give the identical symbol object for the same name and different symbols for different names, for the life of the interpreter. gensym and gensym-naked never return a symbol that was returned before, also when called from many processes at once.",
 ["schedules", "inputs", "histories"], "All names, prefixes, call counts and interleavings.",
 "gensym_test.lsp compares two consecutive calls.",
 ["symbol_table_frame.go", "prim_system.go"],
 [("Intern", "symbol_table_frame.go"), ("GensymImpl counters", "prim_system.go")],
 ["identity and names of returned symbols"])
prop("C32", "The profiler reports matched, properly nested, correctly labelled calls",
 "While profiling is on, the profile contains for every call of a function, built-in or special form exactly one enter and one exit record, with the same kind, name and id, properly nested per thread of evaluation and in time order, also when calls fail. Profiling does not change the result, effects or errors of the profiled expression.",
 ["programs"], "All expressions, including failing ones, and names with any characters.",
 "No test reads a profile.",
 ["profiling.go", "function.go", "primitive_function.go", "prim_system.go"],
 [("ProfileEnter / ProfileExit, ProfileGUID", "profiling.go")],
 ["contents of the profile file against the trace of calls"])
prop("C33", "Type predicates classify every value exactly",
 "Every value belongs to the kind its origin says (integer, float, string, symbol, list, association list, function, macro, frame, byte array, environment, port, boolean, empty list, ...), and every type predicate answers true for exactly the values of its kinds, however the value was computed, passed, stored, sent or retrieved, and however the predicate is called.",
 ["programs"], "All values of all kinds, through all constructs that pass values on unchanged.",
 "Tests call each predicate on a few literals.",
 ["prim_type_predicates.go", "data.go"],
 [("type predicates", "prim_type_predicates.go"), ("TypeOf and the XxxP functions", "data.go")],
 ["results of all type predicates on values of known kind"])
prop("C34", "Built-ins reject arguments of the wrong type with an error and without effect",
 "A call of a built-in with an argument of a kind that the built-in does not accept in that position is reported as an error (not a panic, not a made-up value) and leaves all its arguments as they were; with arguments of the accepted kinds the call is no error. This holds for every position, every wrong kind, and also through apply.",
 ["programs"], "All built-ins with typed arguments x argument positions x kinds of values.",
 "Tests try one or two wrong arguments for a few built-ins.",
 ["prim_*.go", "data.go"],
 [("argument checks of the built-ins", "prim_*.go")],
 ["error or result of each call, and the arguments before and after it"])
prop("C35", "Programs have the same results and effects however they are run",
 "Evaluating a program's forms one by one, as one text, from a file, through load, read, parse, eval or global-eval gives the same results, definitions and effects in the same order, whatever white space and comments separate the forms; where the program is given as a whole, it stops at the first error, whose effects before it remain, and forms that precede a syntax error are evaluated. Tracing and interactive mode change neither results nor effects, and the trace shows each expression and its result. definition-of gives code that defines an equal function. The printing built-ins print the text of their arguments exactly, sleep waits at least as long as told, time and millis report the real time, exec starts the named program with exactly the given arguments.",
 ["programs"], "All programs, all ways to run them, failing and syntactically broken ones included.",
 "Tests run fixed files in one way only.",
 ["parser.go", "prim_system.go", "prim_debug.go", "prim_special_forms.go", "prim_io.go", "data.go"],
 [("ParseAndEvalAllInEnvironment, ProcessFileInEnvironment, ParseAll", "parser.go"), ("LoadFileImpl, EvalImpl, GlobalEvalImpl, TimeImpl, SleepImpl, WriteLineImpl", "prim_system.go"), ("evalHelper, logEval, logResult", "data.go"), ("DefinitionOfImpl", "prim_special_forms.go")],
 ["results, errors, marker events, definitions, console output"])
prop("C36", "Streams are lazy, memoised lists",
 "With lisp/streams.lsp, a delayed expression is evaluated when first forced and never again; the elements of every stream built from stream-cons, stream-map, stream-filter, add-streams, scale-stream, merge, partial-sums, stream-enumerate-interval and the named infinite streams are those of the corresponding list, and looking at an element evaluates only the delayed parts in front of it.",
 ["programs"], "All stream expressions, infinite ones included, and all histories of accesses.",
 "No test loads the library.",
 ["lisp/streams.lsp", "function.go", "macro.go"],
 [("memo-proc, delay, force, stream-cons ...", "lisp/streams.lsp")],
 ["values of elements and marker events of delayed expressions"])
prop("C37", "The test framework counts every assertion once with its true outcome",
 "Running test files with lisp/testing.lsp evaluates every asserted expression exactly once, counts each assertion as exactly one of pass, failure or error according to its outcome, stops an it clause at its first error but no other clause, attributes every message to the context and clause it occurred in, and reports success exactly if nothing failed, for single files and whole directories, verbose or not.",
 ["programs"], "All test files made of contexts, clauses and assertions of all kinds.",
 "The framework runs the tests; nothing tests the framework.",
 ["lisp/testing.lsp", "prim_system.go", "prim_io.go", "macro.go"],
 [("context, it, assert-*, run-test, run-all-tests, dump-summary", "lisp/testing.lsp"), ("OnErrorImpl", "prim_system.go"), ("ListDirectoryImpl", "prim_io.go")],
 ["counters, messages, summary and marker events"])
prop("C38", "The profile analyser and the linter report exactly what their input contains",
 "With lisp/profiling.lsp, the call trees built from a well formed profile have every call once, below its caller, with its duration; by-function shows the number of calls and the total and average time of every function of the kind asked for, and print-tree every call with the time in it and in nested calls. With lisp/linting.lsp, lint reports exactly the mutators, the bindings of let and do that refer to earlier ones, and the one-armed conditionals of a file.",
 ["inputs"], "All profiles and all source files.",
 "No test loads these tools.",
 ["lisp/profiling.lsp", "lisp/linting.lsp", "prim_io.go"],
 [("load-profile, by-function, print-tree", "lisp/profiling.lsp"), ("lint", "lisp/linting.lsp")],
 ["call trees, printed tables and lists of reports"])

prop("C39", "The REPL and the debugger run programs as they are and stop where they must",
 "In the REPL each line is read and evaluated in one environment that lasts for the session; its value is printed after ==>, or its failure is reported, and a line that is malformed, fails or was debugged leaves the session and earlier definitions usable, until (quit), :q or the end of input. A function marked with add-debug-on-entry or :(+ stops in the debugger at every call that is evaluated, until it is unmarked, and no other function does; (debug) stops where it stands, and with debug-on-error an error opens the debugger instead of ending the evaluation. At a stop, expressions are evaluated in the environment where the program stopped, :c continues, :r makes the value of its expression that of the stopped evaluation, :s stops at the next evaluation, :u at the next one in the caller's environment, and :b, :d, :f and :( show the frames, their variables and the marked functions. Apart from what is typed, the program has the results and effects it has without the debugger.",
 ["inputs", "histories"], "All programs and all sequences of lines and debugger commands.",
 "No test runs the REPL or the debugger.",
 ["repl.go", "prim_debug.go", "data.go", "symbol_table_frame.go", "goreadline.go"],
 [("Repl", "repl.go"), ("DebugRepl, ProcessError, add-debug-on-entry", "prim_debug.go"), ("evalHelper", "data.go"), ("DumpHeaders, DumpSingleFrame", "symbol_table_frame.go")],
 ["the transcript of the session"])

prop("C40", "The Go functions for data, frames and environments do what their operations say",
 "A host program that uses the exported Go functions gets back exactly what it put in. Lists built, appended to (copying or in place), reversed, flattened, quoted, copied, changed with SetNth or RemoveFromListBang and taken apart with ToArray, Nth and the cxr functions behave like linked cells: the copying functions leave their arguments as they are and are independent of them, the others change exactly the cells they say. Alists are finite maps whose operations leave the given alist alone. FrameMap finds a slot in the frame or else its parents, also in cyclic graphs; SymbolTableFrame binds, assigns, protects, deletes and finds variables in the environment or slot the scoping rules say. A value stored in a datum is read back under its type only. A function registered by the host is called, with its arguments and environment, exactly when the number of arguments fits its description and the environment permits it, and its result or error is that of the call. A function or macro of a program that the host calls, with or without evaluation of the arguments, with a frame of the host's choosing or in another environment, evaluates its arguments once each where the call is, finds its free names where the call's kind says and gives back its own result or error.",
 ["inputs", "histories"], "All histories of calls and all argument count descriptions.",
 "Tests call a few of the functions on single fixed values.",
 ["data.go", "util.go", "list_access.go", "frame.go", "symbol_table_frame.go", "primitive_function.go"],
 [("Append, AppendBang, RemoveFromListBang, Copy, Flatten", "data.go"), ("ArrayToList, ToArray", "util.go"), ("Nth, SetNth, WalkList", "list_access.go"), ("FrameMap", "frame.go"), ("SymbolTableFrame", "symbol_table_frame.go"), ("parseNumArgs, checkArgumentCount", "primitive_function.go")],
 ["results of the calls and the contents of all data after each"])

prop("C41", "The golisp command runs the files, tests and typed lines it is given",
 "golisp FILE... announces and evaluates each file it is given, in the order given and as often as named, every form of it in the global environment up to the first that fails or cannot be read; a file that fails or cannot be opened is reported and the remaining ones are still loaded, with all effects up to the failure kept. Then the session begins: its definitions belong to the session's own environment and its other effects to the environment the scoping rules say, load puts definitions into the global environment wherever it is called, a failing line is reported and the session goes on, and quit or the end of the input ends it with status 0; quit in a file loaded before the session does nothing. golisp -t FILE.lsp runs the tests of that file, golisp -t DIRECTORY those of every *_test.lsp in it and of no other file, -v lists what is run, and the summary counts and names every failure and error; no session follows.",
 ["inputs", "histories"], "All sets of files, orders on the command line and typed sessions.",
 "Tests run inside the Go test binary and never start the command.",
 ["main/golisp.go", "repl.go", "parser.go", "lisp/testing.lsp"],
 [("main, test", "main/golisp.go"), ("Repl", "repl.go"), ("ProcessFile, ParseAndEvalAllInEnvironment", "parser.go"), ("LoadFileImpl, QuitImpl", "prim_system.go"), ("run-test, run-all-tests", "lisp/testing.lsp")],
 ["standard output and exit status of the process"])
