import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]); a.update(kw)
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
W='wasp-compiler/'
p('L01','Guest code is passed through verbatim and never interpreted',
 "The text between the guest delimiters of any advice or global section reaches the compiled program unchanged, byte for byte, whatever it contains: comment markers, quotes, parentheses, partial delimiters or characters of any width. It ends at the first end delimiter after its start delimiter and never affects how the rest of the program is read.",
 ['inputs','programs'],"for every guest text and every kind of advice carrying it, and for whatever follows it","Tests use a handful of short bodies made of one emoji; no body contains comment markers or delimiter fragments, and the text is unbounded.",
 [W+'wasp.pest',W+'src/ast/pest/mod.rs',W+'src/ast/wasp.rs'],[('guest block rule','wasp-compiler/wasp.pest: GUEST_BLOCK'),('delimiter stripping','wasp-compiler/src/ast/pest/mod.rs: drop_guest_delimiter'),('conversion to the program','wasp-compiler/src/ast/wasp.rs: TryFrom impls')],observe_at='result of compile()')
p('L02','The compiler accepts exactly the language and translates it faithfully',
 "A text is accepted exactly when it is a program of the advice language; any other text is rejected with an error that applies to it, and no text makes the compiler panic or report an internal error. An accepted program yields one advice per advice of the text, in the same order, of the same kind, with the same parameter names, types, counts and qualifiers.",
 ['inputs','programs'],"for every input text and every program","Tests parse a few dozen fixed programs; rejections, near-miss texts and combinations of advices are not sampled.",
 [W+'wasp.pest',W+'src/lib.rs',W+'src/ast/pest/mod.rs',W+'src/ast/wasp.rs'],[('grammar','wasp-compiler/wasp.pest'),('parse tree to typed tree','wasp-compiler/src/ast/pest/mod.rs'),('typed tree to program','wasp-compiler/src/ast/wasp.rs: TryFrom/From impls')],observe_at='result of compile()')
p('L03','Ill-formed apply parameters are rejected, well-formed ones accepted',
 "An apply advice is accepted only if its parameter names do not clash (all three names of a generic apply are distinct; the argument and result names of a specialised apply are pairwise distinct within and across the two lists), its argument and result kinds belong together, and its types are among the four numeric types. Every such advice is accepted with its names, types and mutability as written, and a rejection names the offending parameter or type.",
 ['inputs','programs'],"for every choice of parameter names, kinds, types and list lengths","Tests check one clash of each sort with fixed names; the position of the clash, the names and the list lengths range over unbounded sets.",
 [W+'src/ast/wasp.rs',W+'src/error.rs'],[('generic apply checks','wasp-compiler/src/ast/wasp.rs: TryFrom<ApplyGen>'),('distinctness','wasp-compiler/src/ast/wasp.rs: WasmParameterVec::distinct_arguments and TryFrom impls'),('types','wasp-compiler/src/ast/wasp.rs: WasmType conversion')],observe_at='result of compile()')
p('L04','Reported join points are exactly those the program asks for',
 "The join points reported for a program contain a kind of join point if and only if some advice of the program targets it, and contain a specialised signature if and only if some specialised advice has exactly that list of argument types and that list of result types. The questions whether a program instruments generic application, conditionals or calls are answered consistently with its advices.",
 ['programs'],"for every program, that is every multiset and order of advices and every signature","Tests compile programs with one advice at a time; interactions between several advices, repeated signatures and longer signatures are not covered.",
 [W+'src/joinpoints.rs',W+'src/ast/wasp.rs',W+'src/lib.rs'],[('collection','wasp-compiler/src/joinpoints.rs: Root::join_points, JoinPoints::include'),('per-advice join point','wasp-compiler/src/joinpoints.rs: TrapSignature::join_point, ApplySpe::join_point'),('predicates','wasp-compiler/src/ast/wasp.rs: instruments_generic_apply, instruments_if, instruments_call')],observe_at='compile().join_points and the predicates on the program')
p('L05','Layout and comments do not change the meaning of a program',
 "Blanks, tabs, line breaks and comments may appear in any number between any two tokens of a program, before it and after it, without changing whether it is accepted or what it compiles to. A comment may contain anything but its own end marker, and an unterminated comment is an error.",
 ['inputs','programs'],"for every program, every gap between tokens and every separator text","One test places blanks at a few positions of the empty program; comments are not tested at all.",
 [W+'wasp.pest'],[('implicit whitespace and comments','wasp-compiler/wasp.pest: WHITESPACE, COMMENT and the non-atomic rules')],observe_at='result of compile()')
M='wasm-merge/'
p('M01','The merger is given exactly the enabled options',
 "A merge runs the external merger exactly once, with precisely the command-line switches of the options that are enabled: an enabled option always contributes its own switch, a disabled one never does, and no combination of options interferes with another.",
 ['configurations'],"for every setting of the 23 options","The one passing test formats a default configuration; merging itself needs the external tool and is not exercised, and 2^23 settings cannot be sampled.",
 [M+'src/lib.rs',M+'src/options.rs'],[('option rendering','wasm-merge/src/options.rs: AsOption impls'),('assembling the switches','wasm-merge/src/lib.rs: as_bash_arguments')],observe_at='the command line of the external merger')
p('M02','Every module reaches the merger verbatim, in order, under its namespace',
 "The merger is handed every module exactly once, the primary module first and the others in the given order, each as a file holding exactly the bytes of that module and each under exactly its own namespace. This holds for any module contents, any namespace text (quotes, blanks, shell syntax) and any location of the temporary directory, and the output file is never one of the inputs.",
 ['inputs','configurations'],"for every list of modules, contents, namespaces and temporary directory","The merge tests need the external tool, use two fixed modules with plain namespaces, and do not run here.",
 [M+'src/lib.rs'],[('writing the inputs','wasm-merge/src/lib.rs: MergeOptions::merge, NamedTempFile writes'),('command construction','wasm-merge/src/lib.rs: MergeOptions::merge, Command')],observe_at='the command line and input files of the external merger')
p('M03','The merger\'s result is returned exactly and every failure is reported',
 "A merge succeeds exactly when the merger started, ended with status zero and printed no error, and no file operation failed; it then returns exactly the bytes the merger wrote. In every other case an error is returned, and what the merger printed as error is contained in it in full.",
 ['fault_sequences','inputs'],"for every exit status, error text, output and every single I/O fault or short transfer at any point","Tests cannot make the external tool fail in chosen ways, nor inject I/O faults; the two tests that run it fail here because it is absent.",
 [M+'src/lib.rs',M+'src/error.rs'],[('judging the run','wasm-merge/src/lib.rs: MergeOptions::merge after output()'),('error texts','wasm-merge/src/error.rs')],observe_at='the returned value')
p('M04','A merge leaves no temporary file or open descriptor behind',
 "When a merge returns, whether with a result or with an error raised at any point, every temporary file it created has been removed and every file descriptor it opened has been closed.",
 ['fault_sequences','inputs'],"for every outcome of the merger and every single I/O fault at any point","No test looks at the temporary directory after a merge, and faults cannot be injected.",
 [M+'src/lib.rs'],[('ownership of the temporary files','wasm-merge/src/lib.rs: MergeOptions::merge, NamedTempFile values')],observe_at='the file system after the merge')

I='wastrumentation/src/instrument/'
FILES=[I+'mod.rs',I+'branch_if.rs',I+'branch_if/generate_branch_table.rs',I+'block_loop.rs',I+'function_call_indirect.rs',I+'memory.rs',I+'simple_operations.rs','wastrumentation/src/parse_nesting/high_level_body.rs','wastrumentation/src/parse_nesting/typed_high_level_body.rs','wastrumentation/src/parse_nesting/typed_indexed_instr.rs']
MECH=[('choice and order of transformations',I+'mod.rs: instrument'),('control flow',I+'branch_if.rs: TransformationStrategy, reify_br_table'),('blocks, loops, select',I+'block_loop.rs'),('calls',I+'function_call_indirect.rs'),('memory',I+'memory.rs: transform'),('other instructions',I+'simple_operations.rs'),('body to tree and back','wastrumentation/src/parse_nesting/high_level_body.rs, typed_high_level_body.rs')]
p('I01','Every selected instruction is reported exactly once, in order, as it happens',
 "Running an instrumented program reports to the analysis exactly the events of the instructions its original would execute on the same path that the analysis asked for: one event per execution (or the documented pair around it), in execution order, with the operands, immediate values, operator identity, function index and instruction position of the original. Instructions not asked for, and functions not selected, report nothing, and the positions refer to the original program whatever else was instrumented.",
 ['programs','inputs','configurations'],"for every valid program, every input, every selection of events and every answer of the analysis","The integration tests log a handful of small programs under a few analyses, and need tools that are absent; combinations of hooks, control structures and instruction kinds are unbounded.",
 FILES,MECH,observe_at='calls the instrumented program makes to the analysis')
p('I02','The analysis decides: its answers, and only they, change what happens',
 "Where an event lets the analysis answer, the program continues exactly as the original would with that answer in place of the value, condition, target or operation in question; everything else (results, traps, globals, memory, tables, calls of other functions) is as in the original. This holds for any answer, any program and any selection of events.",
 ['programs','inputs','configurations'],"for every valid program, input, selection of events and sequence of answers","The tests use analyses that return what they were given, so a rewritten program that ignores or misplaces an answer passes.",
 FILES,MECH,observe_at='results, traps and final state of the instrumented program')
p('I03','An analysis that forwards every event leaves the program unchanged',
 "Under an analysis that answers every event with what the instruction would have done, using the operations the platform offers for it, the instrumented program behaves as the original: same results, same traps, same final memory, globals and tables and the same calls of imported functions in the same order. The instrumented program is valid and links with the analysis and the support library.",
 ['programs','inputs','configurations'],"for every valid program, input and selection of events","Forwarding is tested on a few programs with ordinary values; boundary addresses, traps, special values and combinations are not.",
 FILES+[I+'function_application.rs','wastrumentation/src/stack_library.rs','supported-languages/webassembly/src/generate/instrumentation/mod.rs'],MECH+[('memory helpers',I+'memory.rs: inject_memory_loads, inject_memory_stores, inject_memory_grow, inject_memory_size'),('function application',I+'function_application.rs: instrument')],observe_at='results, traps, final state and imported calls')
p('I04','Only selected functions change; the interface of the program is kept',
 "Only the selected functions that exist and have no reference types in their signature are changed: the others report nothing and behave as before, whatever calls them, and indices always refer to the original program. The instrumented program keeps every import, export, memory, table, global, segment and the start function of the original, and adds nothing but what the requested observation needs: the requested events, the support library if function application is observed, and the operations offered to the analysis.",
 ['programs','configurations','inputs'],"for every program, every list of function indices and every selection of events","Tests select no functions explicitly and never compare the interface of the instrumented program with that of the original.",
 [I+'mod.rs',I+'function_application.rs',I+'memory.rs'],[('selection of functions',I+'mod.rs: instrument, uses_reference_types'),('added imports',I+'mod.rs: Instrumentable::install'),('added functions, table and segment',I+'function_application.rs: instrument'),('added operations',I+'memory.rs: inject_*')],observe_at='the instrumented module and its behaviour')
p('I05','Every application of a selected function is offered to the analysis',
 "Whenever a selected function is applied, by a direct or indirect call, from outside or as the start function, the analysis is told exactly once which function it is, how many arguments and results it has, their types in order and their values, and whether the function has a body in the program. It can read and replace each argument and each result independently, apply the function or not, and what it leaves behind is exactly what the function receives and its caller gets; nested and recursive applications do not disturb each other, and functions that are not selected are not reported.",
 ['programs','inputs','configurations'],"for every program, signature, selection of functions, argument and answer of the analysis","Tests apply a few functions with one fixed analysis that forwards; replacing single values, imported functions and nested applications are hardly touched, and the tools to run them are absent.",
 [I+'function_application.rs','wastrumentation/src/stack_library.rs','wastrumentation/src/lib.rs','supported-languages/webassembly/src/generate/instrumentation/mod.rs'],[('wrapping',I+'function_application.rs: instrument'),('dispatch of the original',I+'function_application.rs: call_base'),('argument frames','supported-languages/webassembly/src/generate/instrumentation/mod.rs: generate_lib')],observe_at='what the analysis sees and what functions and callers receive')
p('I06','Argument and result frames hold exactly what is put into them',
 "The support library generated for a set of signatures is valid and offers, with the right types, every operation the instrumented program asks for. A frame holds the arguments it was created with and each argument and result stored into it later, readable by name and by position, with the types of results and arguments listed in order; frames that are in use at the same time never share storage, whatever their number and size, and a released frame's storage is used again.",
 ['programs','inputs','histories'],"for every set of signatures, all values, and all nestings of frames","Tests compare the generated text with a stored one, or use one signature with the tools that are absent here; memory growth and nested frames of different signatures are not covered.",
 ['supported-languages/webassembly/src/generate/instrumentation/mod.rs','wastrumentation/src/stack_library.rs','wastrumentation/src/wasm_constructs.rs'],[('generation','supported-languages/webassembly/src/generate/instrumentation/mod.rs: generate_lib'),('allocation','supported-languages/webassembly/src/generate/instrumentation/mod.rs: WAT_BOILERPLATE'),('names of the operations','wastrumentation/src/wasm_constructs.rs: Signature'),('imports of the operations','wastrumentation/src/stack_library.rs: ModuleLinkedStackHooks')],observe_at='operations of the generated library')
p('I07','The memory operations offered to the analysis are the program\'s own',
 "Every operation the platform offers to the analysis for reading, writing, growing or measuring the memory of the program does exactly what the corresponding instruction does at the sum of address and offset: same value, same bytes changed, same trap when that sum or any accessed byte is out of bounds, whatever the sizes involved. They are offered whatever was selected for instrumentation and wherever the memory comes from; on a program without memory they exist, change nothing and give zero, except that growing gives -1.",
 ['inputs','programs','histories'],"for every address, offset, value, memory size, contents and order of operations","The operations are only used by forwarding analyses on a few in-bounds addresses; address sums beyond 32 bits and bounds are never tried.",
 [I+'memory.rs'],[('loads',I+'memory.rs: inject_memory_loads, effective_address'),('stores',I+'memory.rs: inject_memory_stores'),('size and growth',I+'memory.rs: inject_memory_size, inject_memory_grow')],observe_at='exported operations of the instrumented program')
p('I08','The merger gets the program, the analysis and the support library, and its word counts',
 "The merger is run exactly once, on the compiled analysis, the instrumented program and, only when function application is observed, the compiled support library, each unchanged and under the name the others import it by, with the selected one first (the program when none is selected or the selected one does not exist), several memories and bulk memory allowed, clashing exports renamed and validation off; the result is what the merger wrote. The support library is generated for the signatures of the selected functions and for no others. When compiling, instrumenting or merging fails, that failure is what is reported, with its reason, and no merge is attempted after a failed step.",
 ['inputs','configurations','fault_sequences'],"for every program, interface, selection, compiler and merger outcome","The end-to-end tests never choose another lead, never compare what is handed over, and never let a step fail.",
 ['wastrumentation/src/lib.rs','wastrumentation/src/stack_library.rs','wastrumentation/src/error.rs','wasm-merge/src/lib.rs'],[('order of the steps','wastrumentation/src/lib.rs: Wastrumenter::wastrument'),('hand-over','wastrumentation/src/lib.rs: Wastrumenter::merge'),('signatures','wastrumentation/src/stack_library.rs: StackLibrary::from_module')],observe_at='merger invocation and result of the instrumenter')
p('S01','Functions reported as free of side effects are',
 "A function reported by the purity analysis gives the same result, or the same trap, for the same arguments whatever memory, tables and globals hold; it leaves them alone and calls no imported function, directly or through others. A function that only computes on its arguments and locals, and calls only itself and reported functions, is reported. A binary that is no valid program yields no report.",
 ['inputs','programs'],"for every program, every graph of calls between its functions and every place of an instruction in them","The analysis has no tests at all; that it is sound depends on every instruction, every nesting and every order of functions.",
 ['wastrumentation-static-analysis/src/lib.rs','wastrumentation/src/parse_nesting/high_level_body.rs'],[('one function','wastrumentation-static-analysis/src/lib.rs: is_pure'),('iteration','wastrumentation-static-analysis/src/lib.rs: immutable_functions')],observe_at='set of reported functions')

p('R01','Frames of the Rust support library hold exactly what is put into them',
 "The support library generated in Rust for a set of signatures compiles and offers, with the right types, every operation the instrumented program asks for. A frame holds the arguments it was created with and each argument and result stored into it later, readable by name and by position, with the types of results and arguments listed in order; frames in use at the same time never share storage, and storage is given back exactly as it was obtained.",
 ['programs','inputs','histories'],"for every set of signatures, all values, and all nestings of frames","Tests use three signatures of at most two arguments and one result, in one order, with concrete values, and need tools that are absent here; frames that are alive at once and signatures that agree in their lengths but not in their types are not covered.",
 ['supported-languages/rust/src/generate/instrumentation/mod.rs','wastrumentation/src/wasm_constructs/mod.rs','wastrumentation/src/stack_library.rs'],[('generation','supported-languages/rust/src/generate/instrumentation/mod.rs: generate_lib'),('allocation and access','supported-languages/rust/src/generate/instrumentation/mod.rs: LIB_BOILERPLATE'),('names of the operations','wastrumentation/src/wasm_constructs/mod.rs: Signature')],observe_at='operations of the generated library')
p('R02','An analysis in Rust observes exactly the kinds of events it selects',
 "For an analysis given in Rust, each selected kind of event reports every occurrence in the program (for each of the value types the kind covers) with its operands, under the names and types the Rust library of advices is written for; kinds that are not selected report nothing, and selecting everything selects each of them.",
 ['programs','inputs','configurations'],"for every program, all arguments, and every selection of kinds of events","Tests of the Rust analyses run one forwarding analysis with all kinds selected, on a few programs; no test selects a single kind and looks for what is missing or too much.",
 ['supported-languages/rust/src/generate/analysis/mod.rs','wastrumentation/src/analysis/mod.rs'],[('kinds and their events','supported-languages/rust/src/generate/analysis/mod.rs: interface_from'),('everything','supported-languages/rust/src/generate/analysis/mod.rs: Hook::all_hooks'),('analysis to interface','supported-languages/rust/src/generate/analysis/mod.rs: From<RustAnalysisSpec>')],observe_at='events reported to the analysis')
p('R03','Rust analyses are compiled as given, for release, and failures are reported',
 "The source and manifest (or the manifest's path) of an analysis in Rust and its choice of operating-system support reach the Rust compiler unchanged, the default being a release build, and what the compiler produces is what is merged. The generated support library is compiled for release without operating-system support. A failing compilation fails the instrumentation, naming the part that failed and the compiler's reason.",
 ['inputs','configurations','fault_sequences'],"for all source texts, manifests and paths, both profiles, and any outcome of the compilations","Tests compile two fixed analyses that compile, with a tool that is absent here; failures, other profiles and unusual texts are not tried.",
 ['supported-languages/rust/src/compile/compiler.rs','supported-languages/rust/src/compile/options.rs','supported-languages/rust/src/generate/analysis/mod.rs','supported-languages/rust/src/generate/instrumentation/mod.rs'],[('compilation','supported-languages/rust/src/compile/compiler.rs: Compiles'),('defaults','supported-languages/rust/src/compile/compiler.rs: DefaultCompilerOptions'),('support library','supported-languages/rust/src/generate/instrumentation/mod.rs: LibGeneratable')],observe_at='calls of the Rust compiler and modules handed to the merger')
p('A01','Frames of the AssemblyScript support library hold exactly what is put into them',
 "The support library generated in AssemblyScript for a set of signatures compiles and offers, with the right types, every operation the instrumented program asks for. A frame holds the arguments it was created with and each argument and result stored into it later, readable by name and by position, with the types of results and arguments listed in order; frames in use at the same time never share storage, and storage is used again once given back.",
 ['programs','inputs','histories'],"for every set of signatures, all values, and all nestings of frames","Tests compare the text generated for four signatures with a fixed text; what the text computes, other signatures, and frames alive at once are not covered.",
 ['supported-languages/assemblyscript/src/generate/instrumentation/mod.rs','supported-languages/assemblyscript/src/generate/instrumentation/lib_boilerplate.ts','wastrumentation/src/wasm_constructs/mod.rs'],[('generation','supported-languages/assemblyscript/src/generate/instrumentation/mod.rs: generate_lib'),('allocation and access','supported-languages/assemblyscript/src/generate/instrumentation/lib_boilerplate.ts'),('names of the operations','wastrumentation/src/wasm_constructs/mod.rs: Signature')],observe_at='operations of the generated library')
p('A02','Advices in WASP see what happens and decide what happens next',
 "An advice of an analysis in WASP runs exactly when the event it advises happens and is shown the event's condition, label, target, function, table, index, arguments or results. What it returns is how the program continues; if it returns nothing the program continues as it would have. Arguments and results it reads and writes by position are those of the function applied, in their types, and a position that does not exist ends in a trap.",
 ['programs','inputs','configurations'],"for every program and all its inputs, every selection of advices, and whatever the advices decide","Tests compare fragments of generated text; the end-to-end tests need the AssemblyScript compiler and run a few fixed analyses on a few inputs.",
 ['supported-languages/assemblyscript/src/generate/analysis/mod.rs','supported-languages/assemblyscript/src/generate/analysis/std_analysis_lib_gen_apply.ts','supported-languages/assemblyscript/src/generate/analysis/std_analysis_lib_if.ts','supported-languages/assemblyscript/src/generate/analysis/std_analysis_lib_call.ts'],[('advice to function','supported-languages/assemblyscript/src/generate/analysis/mod.rs: Display of ASTrap*'),('conditions and labels','supported-languages/assemblyscript/src/generate/analysis/std_analysis_lib_if.ts'),('arguments and results','supported-languages/assemblyscript/src/generate/analysis/std_analysis_lib_gen_apply.ts')],observe_at='calls made by the advices and behaviour of the instrumented program')
p('A03','WASP analyses are compiled as written, and ask for what they advise',
 "The guest code of an analysis in WASP reaches the AssemblyScript compiler unchanged, and what the compiler produces is what is merged; the support library is compiled exactly when function application is advised. The instrumented program asks the analysis for exactly the events that are advised. A malformed analysis or a failing compilation is an error that names the part that failed and the compiler's reason.",
 ['inputs','configurations','fault_sequences'],"for all guest code, every selection of advices, and any outcome of the compilations","Tests build the interface of two advices from a hand-made tree; guest code, other selections, and failures are not tried.",
 ['supported-languages/assemblyscript/src/generate/analysis/mod.rs','supported-languages/assemblyscript/src/generate/analysis/wasp.rs','supported-languages/assemblyscript/src/compile/compiler.rs','supported-languages/assemblyscript/src/compile/options.rs'],[('analysis','supported-languages/assemblyscript/src/generate/analysis/mod.rs: TryInto<ProcessedAnalysis>'),('interface','supported-languages/assemblyscript/src/generate/analysis/wasp.rs: From<&WaspRoot>'),('compilation','supported-languages/assemblyscript/src/compile/compiler.rs: Compiles')],observe_at='calls of the AssemblyScript compiler and modules handed to the merger')
p('C01','The command line instruments the program with what it names',
 "Given a program, an analysis and an output path, the instrumenting executable applies to exactly the functions named (all if none) exactly the hooks named (all if none), has the analysis named compiled for release without an operating system, and leaves at the output path exactly the result of the merge, whatever the transfers took. Whatever goes wrong (a broken program, a missing file, an unknown hook, a failing compilation or merge) ends in failure, never in success.",
 ['inputs','configurations','fault_sequences'],"for every command line, whatever the compilers and the merger produce, and any outcome of file operations","The executable has no tests at all; each hook passes through two hand-written tables, and no run names targets, fails, or transfers partially.",
 ['cli/src/main.rs','supported-languages/rust/src/generate/analysis/mod.rs'],[('arguments','cli/src/main.rs: Args, Hook'),('hooks named to hooks applied','cli/src/main.rs: From<&Hook> for AnalysisHook'),('run','cli/src/main.rs: main'),('all hooks','supported-languages/rust/src/generate/analysis/mod.rs: Hook::all_hooks')],observe_at='files, requests to the compiler and the merger, and exit status')
p('C02','The static analysis executable reports exactly what was found',
 "The static analysis executable leaves at its output path, as a list of numbers, exactly the functions found to be free of side effects; with a minimum, those whose body has at least as many instructions, its closing end included. This holds whatever the transfers took, and whatever goes wrong ends in failure, never in success.",
 ['inputs','programs','fault_sequences'],"for every program, every minimum, and any outcome of file operations","The executable has no tests; minima, partial transfers and failures are never tried.",
 ['wastrumentation-static-analysis/src/main.rs','wastrumentation-static-analysis/src/lib.rs'],[('arguments','wastrumentation-static-analysis/src/main.rs: Args'),('filter and report','wastrumentation-static-analysis/src/main.rs: main'),('search','wastrumentation-static-analysis/src/lib.rs: immutable_functions')],observe_at='file at the output path and exit status')
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
