GEN = "Generated-input search: a passing run covers the cases counted in the evidence file, not all inputs. "

prop("C01", "syntaxp", "Parsing is total, lossless and finds the structure written",
 "Parsing any text whatever terminates without a crash and gives a tree whose text is exactly the source and errors whose positions lie within it; the same text always gives the same tree. A text written by the rules of the syntax (declarations of every form, metadata, operators, brackets, strings with interpolation, comments, any layout) is accepted and the tree has exactly the declarations, heads, metadata, elements and nesting written; whitespace, comments and optional commas change nothing. A text with an unclosed, unbalanced or ill-formed construct is reported as an error rather than silently accepted, a broken declaration does not take its neighbours with it, and whatever the parser accepts goes through the rest of the pipeline to a value or a reported error, never a crash.",
 ["inputs"], "all texts: generated units of every syntactic form in any layout, arbitrary characters, mutated source files, unbalanced and unclosed constructs, deep nesting",
 "The tests parse some hundred hand-written snippets; combinations of forms, layout, nesting and damage are unbounded.",
 ["src/syntax/rowan/lex.rs", "src/syntax/rowan/parse.rs", "src/syntax/rowan/string_lex.rs", "src/syntax/rowan/ast.rs", "src/syntax/rowan/validate.rs", "src/syntax/rowan/brackets.rs"],
 [("event-based lossless parser and its block sink", "src/syntax/rowan/parse.rs"), ("lexers for source and string patterns", "src/syntax/rowan/lex.rs, string_lex.rs"), ("post-parse validation", "src/syntax/rowan/validate.rs")],
 ["syntax tree, its text and structure", "parse errors and their positions", "value or error of evaluating the text"],
 "grammar-based generation with the structure as oracle; mutation fuzzing with invariants",
 GEN + "The model of the syntax is a restatement of the documented grammar.")

prop("C02", "syntaxp,eu", "Formatting never changes what a source file says",
 "Formatting any valid source, at any width and indent, in conservative or full mode, as a file, a declaration or through the command, gives valid source with the same structure and the same tokens, every comment kept in order and at the same place among the tokens, and evaluating to the same result; formatting the output again changes nothing. Conservative mode changes nothing but tabs, carriage returns and the final newline, and leaves strings alone. The check mode reports (with exit status 1, changing no file) exactly the files that writing would change, writing changes exactly those, and a file that does not parse is reported and left untouched.",
 ["inputs"], "all valid units x widths x indents x modes; invalid texts; sets of files given to the command",
 "The tests format some dozen one-line snippets and check a substring; combinations of layout, comments and constructs are unbounded.",
 ["src/syntax/export/format.rs", "src/driver/format.rs"],
 [("full reformatting and its spacing and single-line decisions", "src/syntax/export/format.rs"), ("command driver", "src/driver/format.rs")],
 ["formatted text and the tree it parses to", "exit status, output and files left by eu fmt", "value of a program before and after formatting"],
 "metamorphic property testing: structure, token, comment and meaning preservation, idempotence",
 GEN + "Compares trees found by the parser under test (C01).")

prop("C09", "evalp", "Arithmetic is exact or reported, never silently wrong",
 "Addition, subtraction, multiplication, powers, floor division and modulus, truncating quot/rem, exact division, comparisons, min/max, rounding and the bitwise operations give the mathematically correct result for every pair of numbers: exact over integers, nearest-float otherwise. A result that cannot be represented, a zero divisor, a fractional bit operand or a shift outside 0..63 is reported as an error and never wraps, truncates or yields a wrong number. Every spelling of an operation (operator, section, named function, pipeline, curried, through a binding) gives the same result, and sums, products, extrema and differences of lists agree with folding the operation; numbers read from source or text are the nearest representable value.",
 ["inputs"], "all operations x all pairs of numbers (signed and unsigned 64-bit integers, floats) x call spellings, and lists of numbers",
 "The tests evaluate a few small operands; boundary, mixed-sign and mixed-representation combinations are unbounded.",
 ["src/eval/stg/arith.rs", "src/eval/stg/eq.rs", "src/common/number.rs", "lib/prelude.eu"],
 [("checked integer operations with float fallback", "src/eval/stg/arith.rs"), ("floor corrections for negative operands", "src/eval/stg/arith.rs:floor_div_i64, floor_mod_i64")],
 ["rendered value or error of an expression using the standard prelude"],
 "property-based testing against an exact arithmetic model",
 GEN + "Trusts Rust's i128 and f64 arithmetic as the oracle.")

prop("C12", "evalp", "List functions agree with a list model and stay lazy",
 "Every list function (taking, dropping, splitting, indexing, appending, zipping, windows, transposing, mapping, filtering, folding, scanning, grouping, updating, deduplicating) gives exactly the elements, in the order, that its documented meaning gives, for every list and functional argument, and reports an error where an element it needs does not exist. Sorting returns the same elements in order, keeps equal elements in their original order, and keeps every number exactly as it was. Only what is demanded is evaluated: infinite lists can be consumed in part and a failing element or tail that is not needed raises nothing.",
 ["inputs"], "all list functions x lists (short and of many hundreds of elements, infinite, with failing parts) x functional arguments x call spellings",
 "The tests exercise a handful of short literal lists; lengths, ties, positions past the end and partial demand are unbounded.",
 ["lib/prelude.eu", "src/eval/stg/list.rs", "src/eval/stg/running.rs", "src/eval/stg/support.rs"],
 [("list functions in the standard prelude", "lib/prelude.eu"), ("native sorts and running aggregates", "src/eval/stg/list.rs")],
 ["rendered value or error of an expression using the standard prelude"],
 "property-based testing against a reference list model",
 GEN + "The model is an independent restatement of the documented behaviour.")

prop("C11", "evalp", "Block operations agree with an ordered-map model",
 "Merging, deep merging, lookup in all its forms (dotted, by symbol, with a default, along a path, null-safe), and every function that edits, selects, renames, maps, filters, sorts or searches the entries of a block gives exactly the entries an insertion-ordered map would give: a later entry overrides an earlier one in the earlier one's place, new keys go at the end, nothing else changes, and a missing key is reported. This holds however the block was written or computed, for any sequence of edits and any size, and merging never changes what an already bound value refers to. Values that are not demanded are not evaluated.",
 ["inputs", "histories"], "all block functions x generated blocks (nested, large, computed keys, failing values) x spellings, and sequences of edits",
 "The tests use a few small blocks; key overlap, nesting, order and long edit histories are unbounded.",
 ["lib/prelude.eu", "src/eval/stg/block.rs", "src/core/analyse_demand.rs"],
 [("merge and lookup intrinsics", "src/eval/stg/block.rs"), ("block functions in the standard prelude", "lib/prelude.eu")],
 ["rendered value or error of an expression using the standard prelude"],
 "model-based property testing (ordered map), with edit histories",
 GEN + "The model is an independent restatement of the documented behaviour.")

prop("C10", "evalp", "Text functions, formats and encodings give exactly the documented text",
 "Splitting, matching, extracting, replacing and testing with regular expressions, and joining, trimming, case conversion, comparison, escaping, letters, length, symbols and conversion of strings give exactly the result the regex engine and Unicode text semantics define, for every text (any Unicode, empty, multi-line) and pattern; a bad pattern or a non-string operand is reported. String literals denote exactly the characters written: escapes, literal braces, interpolated names and paths, formats and placeholders in any combination; printf formats of integers, fixed-precision floats and strings print as C's printf does and malformed or unsuitable formats are reported. Base64 encoding and decoding are inverse, invalid input is reported, and SHA-256 is the standard digest.",
 ["inputs"], "all string functions x generated texts and patterns x call spellings; all literal forms x contents; all format specifications x values",
 "The tests use a few ASCII samples; texts, patterns, format combinations and computed operands are unbounded.",
 ["src/eval/stg/string.rs", "src/eval/stg/printf.rs", "src/eval/stg/encoding.rs", "src/syntax/rowan/string_lex.rs", "src/core/desugar/escape.rs", "lib/prelude.eu"],
 [("string intrinsics", "src/eval/stg/string.rs"), ("format specifications", "src/eval/stg/printf.rs:parse_format, write_numeric"), ("string literal lexing", "src/syntax/rowan/string_lex.rs")],
 ["rendered value or error of an expression using the standard prelude"],
 "property-based testing against the regex engine, C printf and hand-written encoders",
 GEN + "Trusts the regex and sha2 crates and libc printf as oracles.")

prop("C13", "evalp", "Sets, vecs, arrays and graph functions agree with their models",
 "Sets behave as mathematical sets of numbers, strings and symbols: construction, adding, removing, membership, size, union, intersection and `a set.diff(b)` (a without b), listed sorted and without duplicates however the set and its elements were computed. Vecs index and slice as the list they were made from; n-dimensional arrays of any rank get, set, reshape, transpose, slice, map, fold, list neighbours and indices and combine element-wise (with arrays or numbers) as row-major arrays do; an index, shape or operand that does not fit is reported, and no operation changes a value already made. Connected components, topological order and edge merge history are correct for every graph, cycles and repeated edges included.",
 ["inputs", "histories"], "all set, vec, arr and graph functions x generated contents, shapes, graphs x spellings; histories of versions read back in any order",
 "The tests use a few tiny values; element mixes, ranks, empty axes, computed elements, graphs and version histories are unbounded.",
 ["src/eval/stg/set.rs", "src/eval/stg/vec.rs", "src/eval/stg/array.rs", "src/eval/stg/graph.rs", "src/eval/memory/set.rs", "src/eval/memory/ndarray.rs", "lib/prelude.eu"],
 [("set elements", "src/eval/memory/set.rs:Primitive"), ("row-major arrays", "src/eval/memory/ndarray.rs"), ("graph algorithms", "src/eval/stg/graph.rs")],
 ["rendered value or error of an expression using the standard prelude"],
 "model-based property testing with version histories",
 GEN + "Numbers in sets, vecs and arrays are modelled as floats, as the system holds them.")

prop("C14", "evalp", "Random draws are reproducible, threaded and unbiased",
 "Every random action is a function of its stream alone: the same seed gives the same floats in [0,1) and integers in [0,n) (those of the SplitMix64 sequence), however the action is written (nested, sequenced, mapped, bound, filtered, as a monadic block) and in whatever order results are demanded, and each action leaves the stream advanced by exactly its own draws. Shuffles are permutations, samples are sub-collections without replacement of the size asked for or all there is, for lists, vecs and sets, empty ones included. Over many seeds every outcome comes up about equally often.",
 ["inputs", "histories"], "all random actions and combinators nested x seeds (all 64-bit) x bounds x contents x stream states",
 "The tests check a few seeds and ranges; nesting, bounds, seeds and stream threading are unbounded, and bias needs many draws.",
 ["src/eval/stg/stream_prng.rs", "src/eval/stg/prng.rs", "src/eval/stg/vec.rs", "src/eval/stg/set.rs", "lib/prelude.eu"],
 [("stream steps and draws", "src/eval/stg/stream_prng.rs"), ("state-monad actions", "lib/prelude.eu:random"), ("Fisher-Yates sampling", "src/eval/stg/vec.rs, src/eval/stg/set.rs")],
 ["rendered value of a random action and of the stream it leaves"],
 "property-based testing against a reference generator and statistical bounds",
 GEN + "Trusts the published SplitMix64 recurrence as the reference.")

prop("C03", "evalp", "Operators group by their declared precedence and associativity",
 "In any expression, infix, prefix, postfix and nullary operators, calls, lookups and catenation group as the documented table and the operators' own declarations (named or numeric precedence, left or right associativity, defaults, nearest declaration in scope) say, whatever their order, spacing or nesting. A missing operand makes a section whose parameters fill the gaps from left to right; operators can be passed and called as functions.",
 ["inputs"], "all runs of user-declared operators (any levels and fixities, redeclared in inner scopes) with calls, catenation and sections; all expression trees over the prelude's operators",
 "The tests fix a few operator pairs; which operators meet, at which levels and with which gaps is unbounded.",
 ["src/core/cook/shunt.rs", "src/core/cook/fill.rs", "src/core/cook/fixity.rs", "src/core/cook/mod.rs", "src/core/metadata.rs", "src/syntax/rowan/lex.rs", "lib/prelude.eu"],
 [("precedence resolution", "src/core/cook/shunt.rs"), ("gap filling", "src/core/cook/fill.rs"), ("fixity distribution through scopes", "src/core/cook/fixity.rs")],
 ["rendered value of an expression whose operators build the text of their own grouping"],
 "property-based testing against a precedence-climbing reference parser; metamorphic (fewest against all parentheses)",
 GEN + "Operators of one level share an associativity, and unary operators have levels of their own.")

prop("C04", "evalp", "Shorthand means what its documented long form means",
 "Expression, block and string placeholders (numbered or not) define functions of the parameters they mention in order; juxtaposed calls and declarations, destructuring parameters (nested), currying, pipelines, generalised lookup and user-defined brackets mean their documented long forms. A monadic block, in every documented form, means the chain of binds it abbreviates: each name in scope for later steps only, names shadowing earlier ones, and an explicit or implicit return (leaving out names that start with an underscore).",
 ["inputs"], "all uses of each shorthand over generated bodies, patterns, arguments, names, bracket pairs, monads and forms",
 "The tests show one or two uses of each form; placeholder order, pattern shapes, shadowing and the combination of forms are unbounded.",
 ["src/core/desugar/rowan_ast.rs", "src/core/desugar/desugarer.rs", "src/core/cook/mod.rs", "src/core/anaphora.rs", "src/syntax/rowan/parse.rs", "src/syntax/rowan/brackets.rs"],
 [("placeholder scoping", "src/core/cook/mod.rs, src/core/anaphora.rs"), ("patterns, brackets and monadic blocks", "src/core/desugar/rowan_ast.rs")],
 ["rendered value of an expression using the shorthand"],
 "property-based testing against direct substitution and a model of bind chains",
 GEN + "The values are texts recording how they were made, so a misplaced argument shows.")

prop("C05", "evalp", "Programs mean what lexical scope and call-by-need say",
 "Every well-scoped program of functions, blocks, lists, operators and sections gives the value lexical scoping and call-by-need define: a name means its nearest enclosing binding whatever the order of declarations, also through destructuring parameters (blocks, lists, head and tail), local scopes, recursion and mutual recursion, partial and over-application, pipelines and composition, metadata and the standard list functions. An expression whose value is not needed is never evaluated, so a failure or an infinite value in an unneeded place changes nothing, and one whose value is needed fails the program. A value that is bound to a name, passed to a parameter, captured by a function or held in a list or block is worked out at most once, however often and in whatever way it is used.",
 ["inputs"], "all well-scoped programs (generated with types, up to about 160 expression nodes) with failing expressions in needed and unneeded places, and with costly values held in every kind of place",
 "The tests run a fixed set of hand-written programs; shadowing, capture, laziness and their combinations are unbounded.",
 ["src/core/desugar/rowan_ast.rs", "src/core/cook/mod.rs", "src/core/binding.rs", "src/core/analyse_demand.rs", "src/core/inline", "src/eval/stg/compiler.rs", "src/eval/bytecode", "lib/prelude.eu"],
 [("demand analysis chooses what is evaluated early", "src/core/analyse_demand.rs"), ("scope resolution and desugaring", "src/core/desugar"), ("code generation and lazy evaluation", "src/eval/stg/compiler.rs, src/eval/bytecode")],
 ["rendered value or error of a program run with the standard prelude", "machine steps taken"],
 "property-based testing against a reference call-by-need interpreter; metamorphic cost relation",
 GEN + "The interpreter is an independent restatement of the language's documented meaning.")

prop("C06", "evalp", "No optimisation pass changes what a program means",
 "A program gives the same value, or fails just the same, whichever of the optional passes run over it: scope splitting, hoisting, inlining, destructuring fusion, dead-code elimination, demand analysis, reflattening, code-level inlining and optimisation and source annotation, in any combination. This holds for user code alone and for user code compiled together with the whole standard prelude.",
 ["inputs", "configurations"], "all programs (generated typed programs and every library function's generated uses) x combinations of passes",
 "Tests compare a few hand-written terms before and after one pass; the interaction of passes over arbitrary programs is unbounded.",
 ["src/core/inline", "src/core/simplify", "src/core/transform", "src/core/analyse_demand.rs", "src/core/reflatten.rs", "src/eval/stg/optimiser.rs", "src/eval/stg/compiler.rs"],
 [("core passes over let scopes, lambdas and destructuring", "src/core"), ("code optimiser and strictness-driven code generation", "src/eval/stg")],
 ["rendered value or failure under each configuration of passes"],
 "differential property-based testing (passes on against passes off)",
 GEN + "Two failing runs agree whichever of several failures each reports first.")

prop("C07", "evalp", "Prelude image, source prelude and both dispatchers agree",
 "A program gives the same value, or fails just the same, whether the standard prelude is compiled from source with it or taken from the compiled image, and whether instructions are pre-decoded or dispatched byte by byte. The image read back from its written form is complete, and one that is cut short is refused.",
 ["inputs", "configurations"], "all programs (generated typed programs and every library function's generated uses) x {image, source} x {pre-decoded, byte}",
 "Tests run the default configuration on fixed programs; agreement must hold for every program and every prelude function.",
 ["src/eval/stg/blob.rs", "src/eval/bytecode", "src/driver/source.rs", "src/eval/stg/runtime.rs", "xtask"],
 [("image encoding and prelude globals", "src/eval/stg/blob.rs"), ("instruction encoding, decoding and dispatch", "src/eval/bytecode")],
 ["rendered value or failure under each configuration"],
 "differential property-based testing across configurations; corruption of the image",
 GEN)

prop("C08", "evalp", "Garbage collection never changes a result",
 "A program gives the same value or the same failure whenever collections happen and whatever they move: never, at every step, every few hundred steps, or by the collector's own policy in the smallest heap, with ordinary or total evacuation. This holds for every kind of value (lists, blocks, closures, strings, sets, vecs, arrays, streams), for data far larger than a heap block, and for deep recursion.",
 ["inputs", "schedules"], "all programs x collection schedules x evacuation choices, with freed memory overwritten and the marked heap verified",
 "Tests collect at a few fixed points over hand-made objects; which objects are live, shared and moved at each step of a real program is unbounded.",
 ["src/eval/memory", "src/eval/bytecode/machine.rs", "src/eval/bytecode/closure.rs", "src/eval/bytecode/cont.rs", "src/eval/machine/env.rs"],
 [("marking, evacuation and pointer update", "src/eval/memory/collect.rs"), ("roots of the machine", "src/eval/bytecode/machine.rs"), ("block and large-object allocation", "src/eval/memory/heap.rs")],
 ["rendered value or failure of a program under a forced collection schedule"],
 "differential property-based testing under injected collection schedules",
 GEN + "Collections are forced through a hook compiled only with --cfg eucalypt_check.")

prop("C15", "clip,eu", "Parallel combinators are their sequential forms, whatever the workers do",
 "`par-map`, `par-sum`, `par-max`, `par-min` and `par-concat` give exactly what `map` followed by `sum`, `max-of`, `min-of` or `concat` gives, for every list (empty and of one element included), every function (one that renders text within a worker aside), and every kind of result that may cross between processes (numbers, text, symbols, times, null, nested lists and blocks however built, metadata, hidden declarations), with any number of workers and any threshold, nested in each other, and over streams. The first element in the list that fails or gives what cannot cross is reported as it would be with one worker, and nothing is output. When workers are killed at any moment the result is still the right one (or, in strict mode, an error), the run ends, and no worker outlives it.",
 ["inputs", "configurations", "fault_sequences", "schedules"], "all lists and functions x kinds of results x numbers of workers and thresholds x workers killed at chosen moments",
 "Tests run a few lists with undisturbed workers; the kinds of values that cross, the ways of splitting them and the moments at which workers die are unbounded.",
 ["src/eval/stg/parallel", "src/eval/stg/tags.rs", "lib/prelude.eu"],
 [("splitting, workers and their results", "src/eval/stg/parallel"), ("documented meaning", "docs/reference")],
 ["rendered value or failure of the command-line tool with the combinator and with its sequential form", "processes left over"],
 "differential property-based testing (parallel against sequential) with injected worker faults",
 GEN + "Results which do not fit a worker's room fall back to the sequential path by design.")

prop("C16", "datap", "Imported data means what its format says",
 "Every CSV, TOML, EDN, XML, plain-text or JSON-lines document, however it is spelled (quoting, escapes, number bases, comments, references, tables, line ends), gives exactly the data its format says it holds: text unchanged, integers and floats apart, times as their instant, keys and elements in order; it does so whichever way it comes in (named or unnamed import, command-line input, format named or inferred, parsed from a string, streamed lazily), except that parsing a string leaves times as text. A document that is malformed, cut short, ragged or not UTF-8 is refused with an error, never hung on or silently altered, and all ways in agree on which those are. The names at the top of an unnamed TOML or EDN document are in scope from there on.",
 ["inputs"], "all documents of the six formats (generated in every spelling, damaged, and with bytes that are not text) x ways in",
 "The tests import a handful of small documents; spellings, awkward text, nesting and the damage a document can suffer are unbounded.",
 ["src/import/csv.rs", "src/import/toml.rs", "src/import/edn.rs", "src/import/xml.rs", "src/import/text.rs", "src/import/stream.rs", "src/eval/stg/json_to_stg.rs", "src/eval/stg/parse_string.rs", "src/eval/stg/stream_intrinsic.rs", "src/syntax/input.rs", "src/driver/source.rs"],
 [("readers for each format", "src/import"), ("lazy streams", "src/import/stream.rs, src/eval/stg/stream_intrinsic.rs"), ("format choice and loading", "src/syntax/input.rs, src/driver/source.rs")],
 ["rendered value or error of a program that imports the document"],
 "property-based testing against the document model the text was generated from",
 GEN + "YAML and eager JSON import are not covered: their library is not part of this build. Two known findings of the libraries used are recorded.")

prop("C17", "datap,eu", "Output says exactly what was evaluated, or is refused",
 "For every value, output as JSON, TOML, EDN or eucalypt syntax reads back as that value (every number exactly, integers and floats kept apart, text with any characters, times as the same instant, every key and element, functions and suppressed declarations alone left out), text output is its scalars one per line, and HTML output is the document a markup list describes, escaped and closed as HTML requires, wherever the output goes: standard output, a file, a string within the program. What a format cannot carry (a key that is not text in JSON, TOML or eucalypt syntax, null or an integer above the signed 64-bit range in TOML, a symbol EDN or eucalypt syntax cannot spell, a shape that is not markup in HTML) is reported as an error with no output, never altered or dropped. A destination that fails part-way is always noticed: a closed pipe is distinguished from any other failure, and what was written is the beginning of the right output.",
 ["inputs", "fault_sequences"], "all values without functions as data x output formats x ways of asking for them x failure points of the destination",
 "The tests render a few short documents and drive each writer with an immediately failing sink; awkward text, number boundaries, nesting shapes and failure points are unbounded.",
 ["src/export/json.rs", "src/export/toml.rs", "src/export/edn.rs", "src/export/eu.rs", "src/export/text.rs", "src/export/markup.rs", "src/export/html.rs", "src/eval/stg/emit.rs", "src/eval/stg/render_to_string.rs"],
 [("writers for each format", "src/export"), ("rendering of values and refusals", "src/eval/stg/emit.rs")],
 ["bytes written, in memory, to a file or standard output", "error reported and exit status"],
 "property-based round-trip testing with independent readers, and fault injection into the sink",
 GEN + "JSON is read by a reader of our own, EDN and TOML by their libraries, eucalypt syntax by evaluation. YAML output is not covered: its library is not part of this build.")

prop("C25", "clip,eu", "Files, imports and command-line inputs compose as documented",
 "A program of several files (command-line inputs and named, unnamed, scoped and git imports, of any format, nested and repeated to any depth) gives what its parts say: every reference means its nearest enclosing declaration or visible import, a path is looked for from the importing file's directory and then along the library path, a later input sees the earlier ones, a name gives a file's contents under that name only, and `:internal` and `:suppress` declarations are hidden from importers and from output respectively and from nothing else. The evaluand, a chosen target, the `main` target, a collection of inputs or the last input is what is output, the same on every run, and arguments and seed reach the program unaltered. Circular imports, missing files and unknown targets are refused with an error that says which, and a git import gives the named commit's content, with relative imports resolved there, and works again from the cache.",
 ["inputs", "configurations"], "all sets of files importing one another x directories and library paths x command lines",
 "The tests import a few fixed files from one directory; which names are visible where depends on every import, name, directory and visibility in a set of files.",
 ["src/driver/source.rs", "src/driver/prepare.rs", "src/driver/options.rs", "src/core/desugar/desugarer.rs", "src/core/desugar/rowan_ast.rs", "src/core/unit.rs", "src/core/target.rs", "src/core/expr.rs", "src/syntax/import.rs", "src/syntax/input.rs", "src/import/git.rs"],
 [("finding and loading of imports", "src/driver/source.rs, src/syntax/import.rs"), ("scope of imports and targets", "src/core/desugar"), ("merging of units", "src/core/expr.rs, src/core/unit.rs")],
 ["output, error and exit status of the command on a directory of files"],
 "property-based testing against a reference model of scope and file resolution",
 GEN + "The model evaluates the generated files itself while generating them. References whose meaning is not documented (names that an imported file itself imports) are not generated.")

prop("C26", "clip,eu", "IO actions run exactly when, as often and in the order the program says",
 "An IO program built with the `io` combinators, monadic blocks and named functions runs its commands one after the other in the order its binds say, once for each time an action is reached and never for an action which is only passed about, chosen against or not the value asked for; the result of each step is what later steps see, and a failure (`io.fail`, `io.check` on a non-zero exit code, a timeout) stops everything after it, keeps what went before, and is reported with its message and exit code 1. A command gets exactly the arguments and input the program computes, of any size, and its result block has its exact output, errors and exit code (127 and 126 for one that is missing or not executable), while one that exceeds its timeout is ended. Without `--allow-io` no command ever runs, in any mode of the tool, and a program whose value is an action is refused with exit code 1.",
 ["programs", "inputs", "histories"], "all terms over the io combinators x ways of asking for them x commands, arguments and inputs",
 "The tests run a dozen fixed chains; order, repetition and containment of effects depend on how the combinators nest and on what the collector does between steps.",
 ["src/driver/bytecode_io_run.rs", "src/driver/io_common.rs", "src/driver/eval.rs", "src/eval/bytecode/machine.rs", "src/core/desugar/rowan_ast.rs", "src/core/desugar/desugarer.rs", "src/driver/options.rs", "lib/prelude.eu"],
 [("the loop which interprets actions", "src/driver/bytecode_io_run.rs"), ("execution of commands", "src/driver/io_common.rs"), ("monadic blocks", "src/core/desugar/rowan_ast.rs")],
 ["the log which the commands leave in a scratch directory, and the output, error and exit status of the tool"],
 "property-based testing against a reference interpreter of the io monad with an effect log",
 GEN + "Commands only append to a log in a scratch directory or copy their input and arguments. Each facet runs the command-line tool itself.")

prop("C18", "evalp", "A type means the same written, reflected, enforced and checked",
 "A type written with any spacing, parentheses or spelling the notation allows denotes one type: as a spec, as the data `to-data` gives, as rendered and as named by `type-str` it reads back as that same type, and `from-data` undoes `to-data`. A contract (`validate`, `ensure`, and `match?` on the spec's shape) reports exactly the places where a value departs from the type, with their path, kind, expectation and finding, forcing nothing the type does not mention, and leaves a conforming value as it was. The type checker warns about a literal (or a block or list of literals) declared, returned, nested, passed or aliased (recursively too) under an annotation exactly when it does not have that type, reading records as open, an empty list as any list and `any` as no demand.",
 ["inputs", "programs"], "all types of the notation (unions, tuples, records, dictionaries, functions, literals, partials, aliases, foralls) x values that do or do not fit",
 "The tests pin a few dozen types; agreement of the parser, printer, reflection, contracts and checker is a relation between five independent traversals of the type grammar.",
 ["src/core/typecheck/parse.rs", "src/core/typecheck/types.rs", "src/core/typecheck/subtype.rs", "src/core/typecheck/check.rs", "src/core/typecheck/unify.rs", "src/eval/stg/typedata.rs", "src/core/typecheck/resolve_typedata.rs", "lib/contract.eu", "lib/reflect.eu", "lib/prelude.eu", "src/driver/check.rs"],
 [("parser and printer of types", "src/core/typecheck/parse.rs"), ("consistency and subtyping", "src/core/typecheck/subtype.rs"), ("reflection", "lib/reflect.eu"), ("contracts", "lib/contract.eu")],
 ["the data, text, violations and warnings which the real parser, contracts and checker give for the generated types and values"],
 "property-based testing against a reference model of types (speller, printer, conformance, literal acceptance) and round trips",
 GEN + "Arguments are held to the model only on the fragment where unification and annotation agree (scalars, literals, unions, lists and tuples).")

prop("C19", "evalp", "The type checker only advises: total, repeatable, truthful, and without effect",
 "Whatever annotations a program carries (right, wrong, malformed, recursive, deeply nested or not even strings) and whatever its text, type checking ends without a crash and says the same each time, from the compiled prelude as from its source; the program's output and exit code are those of the program without the annotations, with or without `--suppress-type-warnings` (which silences every warning), while `--strict` refuses exactly the programs that have a warning before evaluating anything. `eu check` reports the very warnings a run reports and fails exactly for a malformed annotation or, when strict, for a warning. In a program whose constants and functions are annotated, each use of a value of one type where another is demanded (applied, curried, piped, through a record field or another call) is warned about at its place, and right uses and uses through `any` are not.",
 ["programs", "inputs", "configurations"], "all programs x annotations x modes of the tool; all flows of values between annotated definitions",
 "The tests pin single messages; that checking never crashes, never alters results and never differs between the compiled and the source prelude is a statement about every program.",
 ["src/driver/check.rs", "src/bin/eu.rs", "src/core/typecheck/check.rs", "src/core/typecheck/unify.rs", "src/core/typecheck/subtype.rs", "src/core/typecheck/parse.rs", "src/core/typecheck/resolve_typedata.rs", "src/driver/prepare.rs"],
 [("the paths into the checker", "src/driver/check.rs"), ("inference and application", "src/core/typecheck/check.rs"), ("aliases in type literals", "src/core/typecheck/resolve_typedata.rs")],
 ["warnings with their places from both paths of the checker, and output, warnings and exit status of the tool in each mode"],
 "property-based testing: differential (paths, modes, with and without annotations) and a reference typing of generated programs",
 GEN + "Each advisory case runs the command-line tool six times.")

prop("C21", "clip,eu", "The language server's view of a document is the document's text",
 "After any history of opening, changing (the whole text or ranges of it, in UTF-16 positions) and closing documents, every answer of the language server is the one it gives for a newly opened document with the same text, also when it was still at work on an earlier text; answers depend on places and not on how many bytes the characters before them take. Every request about any text, valid or broken, at any place is answered, with ranges that lie in that text, nest where they are nested, never overlap where they are edits or tokens, and begin and end where the thing they are about does. Formatting gives what `eu fmt` gives (for a range: the same program, with changes to declarations in the range only), and the diagnostics settle on the parse errors, and on the warnings of `eu check` when there are none, at their places in the document, with nothing of an imported file placed in it.",
 ["histories", "inputs", "schedules"], "all histories of documents (texts valid and broken, of characters of any width, edits, closes, timing of changes) x requests x places",
 "The tests ask single questions about fixed ASCII texts; staleness, offsets among wide characters and agreement with the command-line tool are relations over every history, text and place.",
 ["src/driver/lsp/mod.rs", "src/driver/lsp/query.rs", "src/driver/lsp/diagnostics.rs", "src/driver/lsp/symbols.rs", "src/driver/lsp/folding.rs", "src/driver/lsp/selection.rs", "src/driver/lsp/semantic.rs", "src/driver/lsp/references.rs", "src/driver/lsp/rename.rs", "src/driver/lsp/navigation.rs", "src/driver/lsp/formatting.rs", "src/driver/lsp/hover.rs", "src/driver/lsp/inlay_hints.rs", "src/driver/lsp/actions.rs"],
 [("documents and their changes", "src/driver/lsp/mod.rs"), ("caches", "src/driver/lsp/query.rs"), ("positions", "src/driver/lsp/diagnostics.rs")],
 ["answers and published diagnostics of the server, spoken to over its protocol"],
 "stateful property-based testing: replay against a freshly opened document, metamorphic width changes, invariants on answers, differential against `eu fmt` and `eu check`",
 GEN + "Code actions are only held to make edits within the document; completions are compared as sets.")

prop("C23", "evalp", "A time denotes the instant and the calendar fields it says",
 "A time, whether a literal, parsed from any accepted text, made from components (any left out at its default, fractional seconds included) in a numeric or named zone (by the offset in force there on that date, the earlier of two, none in a gap), or from epoch seconds, is the right instant with the right calendar fields and offset, in any year; formatting and parsing undo each other, and taking fields and making a time from them do, to the millisecond. Comparisons, equality, `max`, `min` and sorting of times go by the instant whatever the offsets. What is not a date, time, zone or representable epoch is reported as an error, never adjusted and never a crash.",
 ["inputs"], "all dates (leap days, month ends, negative and five-digit years), clock times, fractions, offsets and zones x spellings",
 "The tests use a dozen dates, mostly in UTC; leap years, offsets that cross midnight or a year, changes of summer time and round trips hold or fail over the whole calendar.",
 ["src/eval/stg/time.rs", "src/eval/stg/arith.rs", "src/eval/stg/eq.rs", "lib/prelude.eu", "src/core/desugar/desugarer.rs"],
 [("components, parsing and formatting", "src/eval/stg/time.rs"), ("calendar functions", "lib/prelude.eu")],
 ["the time, fields, text, comparison or error each generated expression gives"],
 "property-based testing against a calendar of our own (days counted by year and month, hand-written zone rules) and round trips",
 GEN + "Named zones are held to the rules in force from 2008 to 2036.")

prop("C27", "evalp", "Lenses reach just their foci; monads run their steps in order",
 "A composition of lenses and traversals (keys, indices, first or all matching elements or entries, paths, parts of a traversal), grouped and spelled in any way, focuses on exactly the places in the data it names: `view` gives the one focus, or reports a place that is missing or an optic with many, `to-list-of` lists all in order, and `over` changes each focus by the function and nothing else, `parts-of` as one list given back to the places it came from. An action of a monad (state, list, identity, or one made with `monad{bind, return}`), written as a monadic block or with `bind`, `return`, `map`, `then`, `and-then`, `join`, `sequence`, `map-m` and `filter-m` in any nesting, means the chain of its binds, so that state, logs, choices and failures are threaded through the steps in order, once each. `get`, `put`, `query`, `lift`, `modify`, `=!` and `%!` read and change the state at just the key or focus they name.",
 ["programs", "inputs"], "all optics over nested blocks and lists x operations; all actions of five monads built from primitives and combinators",
 "The tests and examples show each optic and combinator once or twice on small data; composition, regrouping, empty and repeated foci and the threading of effects through nested combinators are laws over all of them.",
 ["lib/lens.eu", "lib/state.eu", "lib/prelude.eu", "src/core/desugar/rowan_ast.rs", "src/core/cook", "src/eval/stg/block.rs", "src/eval/stg/list.rs"],
 [("optics", "lib/lens.eu"), ("state", "lib/state.eu"), ("derived combinators", "lib/prelude.eu")],
 ["the value each optic operation gives; the value, state, log or list of outcomes each action gives"],
 "property-based testing against a model of foci (get, list, set) and an interpreter of state, log, choice and failure",
 GEN + "Changing a place that is missing is not claimed.")
