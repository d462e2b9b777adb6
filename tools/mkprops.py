#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
    P.append(d)

WASP="wasp-compiler/src/"
p("W01","A compiled aspect lists exactly the advices the source declares, in order",
 "Compiling a well-formed aspect yields one entry per declared advice, in source order, each with exactly the kind, qualifier, parameter names and parameter types written in the source. Blanks, tabs, line ends and #| |# comments between tokens never change the result.",
 ["inputs","programs"],"every aspect: any number, order and mix of the 15 advice forms, any parameter names and types, any legal layout between any two tokens",
 "The tests compile a handful of fixed aspects with one layout; the set of (advice mix, order, names, arity, layout) is unbounded and mis-attribution shows only for particular combinations.",
 [WASP+"lib.rs","wasp-compiler/wasp.pest",WASP+"ast/pest/mod.rs",WASP+"ast/wasp.rs"],
 [("grammar","wasp-compiler/wasp.pest"),("parse-tree conversion",WASP+"ast/pest/mod.rs"),("typed AST conversion",WASP+"ast/wasp.rs: TryFrom impls")],
 observe=["wasp_compiler::compile result (wasp_root)"])
p("W02","Guest code is carried through byte for byte",
 "The guest code attached to every advice of a compiled aspect is exactly the text between that advice's own opening and first following closing guest delimiter, byte for byte, whatever characters it contains. No guest text, wherever it stands, changes, swallows or splits another advice.",
 ["inputs"],"every guest text without the closing delimiter: empty, leading/trailing blanks, comment-like text, delimiters' prefixes, multi-byte characters, quotes, parentheses, aspect syntax",
 "Tests use a few tame bodies; bodies containing comment markers, partial delimiters or leading whitespace interact with the grammar's implicit layout rules and are not sampled.",
 ["wasp-compiler/wasp.pest",WASP+"ast/pest/mod.rs",WASP+"ast/wasp.rs"],
 [("guest block rule","wasp-compiler/wasp.pest: GUEST_BLOCK"),("delimiter stripping",WASP+"ast/pest/mod.rs: drop_guest_delimiter")],
 observe=["body field of every advice in the compiled aspect"])
p("W03","Exactly the aspect language is accepted; all else is an error, never a crash",
 "A text is accepted if and only if the whole of it is one well-formed aspect; every other text yields an error value that says why. No input, however hostile, makes compilation panic, overflow or fail to return.",
 ["inputs"],"every text: valid aspects, aspects with a token removed, duplicated, swapped, truncated or replaced, trailing garbage, unterminated comments and guest blocks, random bytes, very large inputs",
 "Tests contain one malformed input; acceptance boundaries and absence of panics quantify over all strings.",
 ["wasp-compiler/wasp.pest",WASP+"lib.rs",WASP+"ast/pest/mod.rs",WASP+"error.rs"],
 [("grammar","wasp-compiler/wasp.pest"),("error mapping",WASP+"lib.rs: compile")],
 observe=["Result of wasp_compiler::compile, panics caught at the call"])
p("W04","Apply advices are accepted only with consistent parameters",
 "A generic apply advice is accepted exactly when its argument and result kinds match (both high-level, both dynamic or both mutable dynamic) and its three parameter names differ; a specialised one exactly when every parameter type is one of the four numeric types and no name occurs twice among its arguments and results. A rejected advice rejects the whole aspect with an error naming the offending kind, type or parameter, and read-only and mutable specialised forms stay distinguishable.",
 ["inputs","programs"],"every combination of kinds, parameter counts, names (equal, differing in case, prefixes of each other) and types, at any position in the aspect",
 "Unit tests probe one duplicate and one wrong type at fixed positions; a missed position or pair (argument/result, last parameter) is only visible to a sweep.",
 [WASP+"ast/wasp.rs",WASP+"error.rs"],
 [("generic apply validation",WASP+"ast/wasp.rs: TryFrom<ApplyGen>"),("specialised apply validation",WASP+"ast/wasp.rs: WasmParameterVec")],
 observe=["Ok/Err variant and payload of compile"])
p("W05","Join points summarise exactly the advices present",
 "The join points reported for an aspect contain an instrumentation target if and only if some advice of the aspect asks for it, independently of order, repetition and of the other advices; specialised targets are the set of distinct signatures requested. The yes/no questions answered by a compiled aspect (does it instrument generic application, branches, calls) agree with the same advices.",
 ["inputs","programs"],"every multiset and order of advices, including repeated and pre/post pairs and many specialised signatures",
 "Tests check single-advice aspects and one aspect with everything; interactions (two advices sharing or overwriting a flag) need combinations.",
 [WASP+"joinpoints.rs",WASP+"ast/wasp.rs"],
 [("accumulation",WASP+"joinpoints.rs: JoinPoints::include"),("classification",WASP+"joinpoints.rs: join_point"),("predicates",WASP+"ast/wasp.rs: instruments_*")],
 observe=["join_points of the compilation result and instruments_* answers"])
p("W06","Compiling an aspect is a pure function of its text",
 "Compiling the same text always gives the same result, regardless of what was compiled before, of how often, and of other compilations running at the same time.",
 ["histories","schedules"],"all interleavings of concurrent compilations and all compile histories",
 "The tests compile every text once in one thread; hidden state or interference needs repetition and concurrency.",
 [WASP+"lib.rs"],[("compile entry point",WASP+"lib.rs: compile")],
 observe=["results of repeated and concurrent compile calls"])

M="wasm-merge/src/"
p("M01","The merger is run on exactly the requested modules, namespaces and options",
 "A merge runs the wasm-merge tool once, handing it the primary module first (when there is one) and then every input module in order, each as a file holding exactly the given bytes and directly followed by its own namespace, taken literally. The options passed are exactly those enabled, each under the tool's documented spelling, and nothing else.",
 ["inputs","configurations"],"any number of modules of any bytes and size, any namespace text, with or without primary, all 2^23 option combinations",
 "The only merge test needs the real tool and one option pair; a mixed-up option, order or namespace for other combinations is invisible.",
 [M+"lib.rs",M+"options.rs"],
 [("command construction",M+"lib.rs: merge"),("option spelling",M+"options.rs"),("option selection",M+"lib.rs: as_bash_arguments")],
 observe=["argument vector, input file bytes seen by a stand-in wasm-merge on PATH"])
p("M02","A merge returns the tool's output, or an error when the tool fails",
 "When the tool succeeds, the merge returns exactly the bytes it wrote as output, of any size. When the tool is missing, cannot run, reports diagnostics, exits with failure or is killed, the merge returns an error (carrying the diagnostics, if any) and never presents missing, empty or partial output as a result.",
 ["fault_sequences","inputs"],"every failure mode of the external tool: absent, not executable, diagnostics before/after/without output, non-zero exit with or without diagnostics, death by signal, partial output, huge diagnostics",
 "Needs a tool that fails in controlled ways; the tests use only the real tool with one malformed input.",
 [M+"lib.rs",M+"error.rs"],
 [("tool execution and result handling",M+"lib.rs: merge"),("errors",M+"error.rs")],
 observe=["Result of merge under injected tool faults"])
p("M03","Merges do not interfere and leave nothing behind",
 "Any number of merges running at the same time each get the result of their own inputs. After every merge, successful or not, the temporary files it created are gone, and the given modules are unchanged.",
 ["schedules","fault_sequences"],"all interleavings of concurrent merges, with tool delays and failures at any point",
 "Tests merge sequentially once; collisions and leaks appear only under concurrency and faults.",
 [M+"lib.rs"],[("temporary files",M+"lib.rs: merge")],
 observe=["results of concurrent merges with unique payloads; the temp directory's content afterwards"])

C="wastrumentation/src/instrument/"
p("C01","Instrumentation with a forwarding analysis does not change program behaviour",
 "For any valid program and any selection of hooks, the instrumented program linked with an analysis that forwards every operation unchanged computes the same results, traps in the same cases, makes the same host calls and ends with the same memories, globals and tables as the original.",
 ["programs","inputs","configurations"],"all programs over the supported instruction set (control flow, locals, globals, memory, tables, imports, multi-value), all subsets of hooks, all inputs",
 "The tests run a few hand-written modules; any instruction/nesting/hook combination can be woven wrongly.",
 [C+"mod.rs",C+"simple_operations.rs",C+"branch_if.rs",C+"block_loop.rs",C+"memory.rs",C+"function_application.rs",C+"function_call_indirect.rs","wastrumentation/src/parse_nesting/high_level_body.rs"],
 [("weaving","wastrumentation/src/instrument/*"),("body lifting/lowering","wastrumentation/src/parse_nesting")],
 observe=["results, traps, host calls and final state of original vs instrumented run"])
p("C02","Requested hooks fire exactly at their events, in order, with the actual values",
 "In every execution of an instrumented program the analysis is called once for each executed occurrence of each requested event, in execution order, with the values that occurrence actually operated on (operands, constants, targets, arities, memory offsets, operator codes), and for nothing else.",
 ["programs","inputs","histories"],"all programs, all executions, all hook selections, including nested and repeated events, untaken paths and traps between events",
 "Tests assert a few short call sequences; a wrong or missing event depends on nesting, operator, branch path and hook combination.",
 [C+"simple_operations.rs",C+"branch_if.rs",C+"branch_if/generate_branch_table.rs",C+"block_loop.rs",C+"memory.rs",C+"function_call_indirect.rs"],
 [("hook insertion","wastrumentation/src/instrument/*"),("operator codes",C+"simple_operations.rs and memory.rs")],
 observe=["sequence of calls received by a recording analysis vs the event trace of a reference interpreter"])
p("C03","Events are reported with the source location they come from",
 "The function and instruction numbers passed to a hook identify the function and instruction of the original program at which the event happened, whatever other hooks are woven in and however deep the instruction is nested.",
 ["programs","configurations"],"all instructions of all programs, all hook subsets (which transform the code before each other)",
 "Tests look at locations of a few instructions in small functions with few hooks; drift appears after nesting, else-branches and with several hooks combined.",
 ["wastrumentation/src/parse_nesting/high_level_body.rs","wastrumentation/src/parse_nesting/typed_indexed_instr.rs",C+"mod.rs"],
 [("instruction indexing","wastrumentation/src/parse_nesting/high_level_body.rs"),("location arguments",C+"*.rs")],
 observe=["last two arguments of every recorded hook call vs reference positions"])
p("C04","Only the selected functions are instrumented",
 "When a set of target functions is given, events are reported for those functions only and every other function behaves and runs as in the original; without a selection every defined function is instrumented except those whose signature mentions references.",
 ["programs","configurations"],"all programs and all selections, including imports, functions that call unselected ones, and reference-typed functions",
 "Tests use one selection on one module.",
 [C+"mod.rs",C+"function_application.rs"],
 [("target selection",C+"mod.rs: instrument")],
 observe=["function numbers in recorded events; code of unselected functions"])
p("C05","What the analysis answers is what the program uses",
 "Where a hook can intercede (operator results, constants, local and global values, conditions and branch targets, call targets, memory results, returned values), the program continues exactly as if the original operation had produced the analysis' answer, once, and nothing else changes.",
 ["programs","inputs","histories"],"all programs, all interceding hooks, all answers (equal to, or different from, the original)",
 "Tests check a few fixed intercessions; applying the answer at a wrong place or to the wrong value needs varied programs and answers.",
 [C+"simple_operations.rs",C+"branch_if.rs",C+"memory.rs",C+"function_application.rs",C+"function_call_indirect.rs"],
 [("hook result used in place of the operation","wastrumentation/src/instrument/*")],
 observe=["execution of the instrumented program under an interceding analysis vs reference interpretation with the same answers"])
p("C06","Instrumented modules are valid and keep the program's interface",
 "For every valid input program and every analysis interface the instrumented module is a valid WebAssembly module that keeps all original imports and all original exports with their names and types, and only adds the imports the analysis interface asks for and the documented helper exports. A program whose own exports already use a helper's name is refused with an error.",
 ["programs","configurations"],"all valid modules in the supported feature set, all analysis interfaces",
 "Tests instrument a few modules; validity of generated code depends on every operand type, block type, and nesting.",
 [C+"mod.rs",C+"memory.rs",C+"function_application.rs"],
 [("module assembly",C+"mod.rs: instrument")],
 observe=["validation of the output; import/export lists before and after"])
p("C07","Generic function application sees and controls every call of a target function",
 "With a generic application hook every call of a target function, direct, indirect, exported, imported or recursive, reaches the analysis exactly once with the function's number, its arity, the actual arguments and their types, and whether it is imported; asking for the base call runs the original function with the arguments as left by the analysis, and the caller receives the results as left by the analysis. Calls nest to any depth without disturbing each other, and all working storage is released.",
 ["programs","inputs","histories"],"all signatures (any arity and mix of numeric types, arguments and results), call paths and nesting, all analysis behaviours (zero, one or many base calls, changed arguments/results)",
 "Tests cover a few signatures and one nesting; slot arithmetic and dispatch errors appear for particular mixes and nestings.",
 [C+"function_application.rs","wastrumentation/src/stack_library.rs"],
 [("application wrapper",C+"function_application.rs: instrument"),("base dispatch","apply table, call_base export"),("value store","instrumentation stack library")],
 observe=["calls of the application hook, stored values and results, allocation balance"])
p("C08","The base operations offered to an analysis behave like the original instructions",
 "The helper operations an instrumented module exports to its analysis (loads, stores, memory size and growth) have the semantics of the instructions they stand for at every address, offset and value, including traps for out-of-bounds accesses, and act on the program's own memory. In a program without a memory the reported size is zero and growing by any amount fails.",
 ["inputs"],"all addresses, offsets, widths, signedness and values, near and across the memory bounds and the 32-bit wrap-around",
 "Tests only use small in-bounds offsets.",
 [C+"memory.rs"],[("helper injection",C+"memory.rs: inject_memory_*")],
 observe=["results/traps and memory of the helper exports vs the original instruction"])
p("C09","Lifting a function body and lowering it again preserves the code",
 "For every valid function body, turning it into the nested form and back gives the same instructions in the same order, the nested form records the exact position and type of every instruction, and bodies that cannot be represented are reported as errors instead of crashing.",
 ["programs"],"all valid function bodies: any nesting, else branches, unreachable code, empty blocks, multi-value blocks",
 "Tests round-trip a few bodies; unreachable code and odd nestings are rare.",
 ["wastrumentation/src/parse_nesting/high_level_body.rs","wastrumentation/src/parse_nesting/typed_high_level_body.rs"],
 [("lift","wastrumentation/src/parse_nesting/typed_high_level_body.rs"),("lower","wastrumentation/src/parse_nesting/high_level_body.rs")],
 observe=["instruction sequences before and after the round trip; indices and types in the nested form"])
G="supported-languages/"
p("G01","The WebAssembly stack library stores and returns every value unchanged",
 "For any set of function signatures over the number types, the generated WebAssembly library compiles, offers for each signature exactly the operations the instrumented program links against, and every value stored in an argument or result slot is read back bit-identical, typed or untyped, with the type codes of the signature. Live frames never overlap, freeing never disturbs live frames, and memory grows as needed.",
 ["inputs","histories"],"all sets of signatures over the numeric types, all interleavings of allocate, store, load, bulk store and free, nested to any depth",
 "Tests generate code for a few signatures and compare text; slot offsets and overlap depend on arity and mix.",
 [G+"webassembly/src/generate/instrumentation/mod.rs","wastrumentation/src/stack_library.rs"],
 [("library generation",G+"webassembly/src/generate/instrumentation/mod.rs: generate_lib"),("linked names","wastrumentation/src/stack_library.rs")],
 observe=["the generated library executed against a reference frame store"])
p("G02","The Rust stack library stores and returns every value unchanged",
 "For any set of function signatures over the number types, the generated Rust library compiles, offers for each signature exactly the operations the instrumented program links against, and every value stored in an argument or result slot is read back bit-identical, typed or untyped, with the type codes of the signature. Live frames never overlap and freeing releases exactly the frame that was allocated.",
 ["inputs","histories"],"all sets of signatures over the numeric types, all interleavings of allocate, store, load, bulk store and free",
 "Tests run a few signatures.",
 [G+"rust/src/generate/instrumentation/mod.rs","wastrumentation/src/stack_library.rs"],
 [("library generation",G+"rust/src/generate/instrumentation/mod.rs: generate_lib")],
 observe=["the generated library compiled and executed against a reference frame store"])
p("G03","The AssemblyScript stack library stores and returns every value unchanged",
 "For any set of function signatures over the number types, the generated AssemblyScript library offers for each signature exactly the operations the instrumented program links against, and every value stored in an argument or result slot is read back bit-identical, typed or untyped, with the type codes of the signature. Live frames never overlap.",
 ["inputs","histories"],"all sets of signatures over the numeric types, all interleavings of allocate, store, load, bulk store and free",
 "Tests compare a few generated texts.",
 [G+"assemblyscript/src/generate/instrumentation/mod.rs","wastrumentation/src/stack_library.rs"],
 [("library generation",G+"assemblyscript/src/generate/instrumentation/mod.rs: generate_lib")],
 observe=["the generated library executed (AssemblyScript builtins modelled) against a reference frame store"])
p("G04","Every analysis front end asks for exactly the hooks its analysis defines",
 "For any set of hooks, the Rust, WebAssembly and aspect front ends derive an analysis interface that enables exactly those hooks, under the one export name and one signature that the instrumentation and the analysis libraries share, and the same for every front end. Names and sets of hooks read from configuration mean the same hooks, and what cannot be expressed is refused, not a crash.",
 ["configurations","inputs"],"all subsets of hooks, for every front end",
 "Tests look at single hooks; a swapped field, name or type appears only when comparing front ends across all hooks.",
 ["wastrumentation/src/analysis/mod.rs",G+"rust/src/generate/analysis/mod.rs",G+"webassembly/src/generate/analysis/mod.rs",G+"assemblyscript/src/generate/analysis/wasp.rs"],
 [("interface construction",G+"*/src/generate/analysis"),("interface definition","wastrumentation/src/analysis/mod.rs")],
 observe=["analysis interface per hook subset and front end; exported symbols of a compiled analysis"])
p("G05","The generated AssemblyScript analysis contains every advice, wired to its event",
 "The analysis program generated from an aspect exports, for every advice, exactly the function the instrumentation calls for that event; calling it runs that advice's guest code once with each declared parameter bound to the event value of its role, and the guest's global code appears unchanged.",
 ["inputs","programs"],"all aspects without specialised apply advice, all parameter names and guest bodies",
 "Tests compare the generated text for a few aspects.",
 [G+"assemblyscript/src/generate/analysis/mod.rs",G+"assemblyscript/src/generate/analysis/wasp.rs"],
 [("program generation",G+"assemblyscript/src/generate/analysis")],
 observe=["the generated program executed (AssemblyScript builtins modelled) with recording guest bodies"])
p("S01","Functions reported immutable never touch memory, globals or tables",
 "A function reported as immutable by the static analysis never, in any execution, directly or through the functions it calls, reads or changes a memory, a global or a table or calls an imported function; what it returns depends only on its arguments.",
 ["programs","inputs"],"all modules: any call graph (recursion, mutual recursion, indirect calls, imports), all inputs",
 "Tests check a few call graphs; soundness quantifies over all programs and executions.",
 ["wastrumentation-static-analysis/src/lib.rs"],
 [("purity fixpoint","wastrumentation-static-analysis/src/lib.rs: immutable_functions")],
 observe=["effects of executed functions vs the reported set"])
p("S02","Functions that only compute are reported immutable",
 "A function whose body, and the bodies of all functions it can call directly without mutual recursion, contain no instruction that reads or writes globals, memory or tables, or calls through a table or an import, is reported as immutable (direct self-recursion allowed), and no function that can reach such an instruction by direct calls is; the answer does not depend on the order of functions in the module.",
 ["programs"],"all modules and all orders of their functions",
 "Tests check a few call graphs; missing results depend on order and depth of the call chain.",
 ["wastrumentation-static-analysis/src/lib.rs"],
 [("purity fixpoint","wastrumentation-static-analysis/src/lib.rs: immutable_functions")],
 observe=["reported set vs reference computation, over permutations of the module"])
p("E01","The pipeline links target, analysis and library and reports every failure",
 "Wastrumenting a program compiles the given analysis, instruments the program for that analysis' interface and merges target, analysis and (only if needed) instrumentation library under the namespaces their imports use, with the selected part as primary and the others as inputs. A failure in any stage is returned as that stage's error and no later stage runs.",
 ["configurations","fault_sequences","programs"],"all primary selections, analyses with and without application hooks, target selections, and failures of every stage",
 "The tests need external compilers and tools and run a few success paths only.",
 ["wastrumentation/src/lib.rs","wastrumentation/src/error.rs","wastrumentation/src/compiler/mod.rs"],
 [("pipeline","wastrumentation/src/lib.rs: wastrument, merge")],
 observe=["calls of recording compilers and a stand-in merge tool; the linked result executed"])
p("E02","The command line instruments exactly the hooks and functions it names",
 "The module the command-line tool writes is the merge of the analysis at the given manifest with the given program, woven for exactly the hooks named (all when none are named) in exactly the functions named (all when none are): its executions show the same results and the same events of those hooks as the program has. If reading, compiling, instrumenting or merging fails, the tool ends with a failure status and writes no module.",
 ["configurations","programs","fault_sequences"],"all hook and target selections, argument orders, programs, and failures of every stage",
 "There are no tests of the command-line tool.",
 ["cli/src/main.rs","supported-languages/rust/src/generate/analysis/mod.rs"],
 [("command line","cli/src/main.rs: main, From<&Hook>")],
 observe=["processes of the tool: requests to the compilers, exit status, the written module executed"])
p("S03","The static-analysis tool writes exactly the immutable functions asked for",
 "The static-analysis command writes one complete JSON list with the index of every immutable function of the program, once, or with a minimum size of those whose body has at least that many instructions (its final end included); a program it cannot read makes it fail without output.",
 ["programs","configurations","fault_sequences"],"all programs, minimum sizes, and outputs that accept only part of a write",
 "There are no tests of the command-line tool.",
 ["wastrumentation-static-analysis/src/main.rs"],
 [("command line","wastrumentation-static-analysis/src/main.rs: main")],
 observe=["processes of the tool and the file they leave, with short writes injected"])
RA="benchmarking-node/input-analyses/rust/"
p("A01","An analysis written with the Rust library sees and controls every event",
 "An analysis written in Rust against the analysis library, compiled to WebAssembly and linked with an instrumented program, sees in every advice exactly what the event is: operands, operators by name, operator applied to operands, memory and global accesses performed, indices, conditions, locations, and in applications the arguments, results and their types. What it answers - changed values, arguments and results, applications made once, never or several times - is what the program continues with, and what it leaves alone stays as it was.",
 ["programs","inputs"],"all programs, all hooks at once, every operator on every interesting operand, all answers",
 "The tests run fixed analyses on fixed programs through external tools and look at a few values.",
 ["wastrumentation-instr-lib/tests/analyses/rust/wastrumentation-rs-stdlib/src/lib.rs","supported-languages/rust/src","wastrumentation-instr-lib/src","wastrumentation/src"],
 [("analysis library","wastrumentation-instr-lib/tests/analyses/rust/wastrumentation-rs-stdlib/src/lib.rs: advice!, apply"),("operators and memory","wastrumentation-instr-lib/tests/analyses/rust/wastrumentation-rs-stdlib/src/lib.rs: UnaryOperator, BinaryOperator, LoadOperation, StoreOperation")],
 observe=["calls the compiled recording analysis makes to the host, and results of the program linked with it"])
p("A02","The shipped Rust analyses leave programs alone and report what happened",
 "Every Rust analysis under benchmarking-node/input-analyses compiles and has the advices it is about. Linked with any program it leaves results, traps, memory, globals and tables as they are without it (denan replaces NaN inputs of what it watches by zero, safe-heap stops the program at an unaligned access). Everything it can be asked afterwards - counts, coverage, edges, depths, addresses - equals what the run did, for every function, place, address and kind, from the first event on.",
 ["programs","inputs"],"all programs and all entries of what an analysis can be asked",
 "There are no tests of these analyses; counts are wrong for the first event or one kind only.",
 [RA+n+"/src/lib.rs" for n in ("block-profiling","branches","call-graph","call-stack-eq-wasabi","call-stack-wastrumentation","coverage-branch","coverage-instruction","cryptominer-detection","denan","forward","globals","icount","loops","memory-tracing","memstats","opcodes","safe-heap","taint")],
 [("analyses",RA+"*/src/lib.rs")],
 observe=["the linked program executed next to the unlinked one; every query export of the analysis"])
p("A03","The shipped JavaScript analyses end up with what the events said",
 "Given any sequence of the events Wasabi tells, every JavaScript analysis under benchmarking-node/input-analyses takes all of them without an exception and ends up with exactly what they say: how often each branch, instruction, operator, global, loop, block or byte was taken, executed, read or written and where, which places and branches were covered, which calls and memory accesses there were. The taint analysis, told an execution that takes no branch and whose blocks have no results, reports exactly the calls of a sink with an argument that a value marked by a source has flowed into through operands, locals, globals, memory, arguments and results.",
 ["inputs","histories"],"all event sequences, places, operators, table indices (past the table's end too), addresses, more accesses than the trace holds",
 "There are no tests of these analyses, and they only run on the outputs of another tool.",
 ["benchmarking-node/input-analyses/javascript/"+n+".cjs" for n in ("block-profiling","branches","call-graph","coverage-branch","coverage-instruction","cryptominer-detection","globals","icount","loops","memory-tracing","memstats","opcodes","taint","forward","empty_monitor")],
 [("analyses","benchmarking-node/input-analyses/javascript/*.cjs")],
 observe=["calls of Wasabi.analysis.*, then Wasabi.analysisResult"])
BD="benchmarking-node/wasmr3-python/"
p("B01","The benchmark driver measures what it says and records what it measured",
 "The benchmark driver runs every configured program of the suite once plain and once under the forward analysis of each platform, and records for each whether it succeeded, ran out of time or failed and why. It then measures, as often as configured, exactly the combinations of analysis and program whose platform got through and has such an analysis; gives one up after a failure or the configured number of timeouts; and records sizes, times and memory of every iteration as the run printed them, under the right names. What is run under an analysis' name is the program woven for exactly that analysis' hooks, never the plain program; a failure of a tool or an unknown error stops the driver. A rerun repeats exactly the single executions that a larger time limit may complete and keeps the other records.",
 ["configurations","histories","fault_sequences"],"all suites, analyses, outcomes of runs, figures and orders of output lines, failures of the tools, repeated and resumed campaigns",
 "There are no tests of the driver; a wrong record looks like any other.",
 [BD+n for n in ("bench.py","rebench.py","execute_benchmarks.py","report_executes_once.py","report_code_size.py","setup_benchmarks_wastrumentation.py","setup_benchmarks_wasabi.py","setup_benchmarks_regular.py","identify_input_benchmarks.py","target_analyses.py","allowed_failures.py","node-wasm-wrap.cjs")],
 [("campaign",BD+"bench.py, rebench.py"),("measuring",BD+"execute_benchmarks.py, report_executes_once.py"),("weaving",BD+"setup_benchmarks_*.py"),("wrapper",BD+"node-wasm-wrap.cjs")],
 observe=["log of the tools the driver starts, and the tables it leaves"])
WD="benchmarking-node/wasmtime-benchmarks/"
p("B02","The wasmtime benchmarks record every run they make, as it went",
 "The wasmtime benchmarks execute every configured program plain and woven for every configured analysis, first with one run and then with the configured number, each time the program of that name and analysis. Every completed run leaves one record, in order, with the time its start function took (setting it up aside) under the right platform, analysis and program; an execution that fails, is killed or runs out of time keeps the records of its completed runs and adds one that says so, with the reason or its own limit. Earlier records stay, and no outcome of one execution stops or changes the others.",
 ["configurations","fault_sequences"],"all outcomes of executions: success, traps, failed assertions, kills and hangs at any of their runs, slow set-ups, records of earlier campaigns",
 "There are no tests of these programs; a wrong record looks like any other.",
 [WD+n for n in ("wrapper.py","allowed_stderr.py","src/main.rs")],
 [("campaign",WD+"wrapper.py"),("failures",WD+"allowed_stderr.py"),("measuring",WD+"src/main.rs")],
 observe=["what the program asks of wasmtime, with times, what the campaign starts, and the records it leaves"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for d in P:
    if len(d["title"])>80: print(d["id"],len(d["title"]))
open(out,"w").write("".join(json.dumps(d)+"\n" for d in P))
