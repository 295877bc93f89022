"""What each property's check runs, within which bounds, under which assumptions."""
ASSUME = [
    'the compiled code is what `rustc --release --target wasm32-unknown-unknown` (overflow checks on, panic=abort) makes of /repo\'s current sources; usize is 32 bits wide',
    'std is the installed rust-src with a hash function of the keys of a table alone (each hash table iterates in a rotation of the order of insertion, another one for each table and case), and processes and files forwarded to the harness model',
    'the symbolic executor wsym (WebAssembly semantics, z3 bit-vectors) is trusted; path models are replayed on V8 as a cross-check, and every counterexample must reproduce on V8 before it is reported',
    'memory allocation does not fail below 256 MB',
]
ASSUME_RUSTLIB = 'the generated library is compiled with the installed rustc for wasm32-unknown-unknown, opt-level 3, without link-time optimisation'
def g(crate, func, witnesses=(), **kw): return dict(crate=crate, func=func, witnesses=list(witnesses), **kw)
T = ('thorough',)
PROPS = {}

# ---- the advice language (wasp-compiler) --------------------------------------------------------
WASP = dict(crates=['wasp_compiler'])
PROPS['L01'] = dict(WASP, groups=[
    g('wasp', 'guest', ['accepted']), g('wasp', 'guest2', ['accepted', 'rejected']), g('wasp', 'guest3', ['accepted']), g('wasp', 'guest_long', ['accepted'], cost=9),
], bounds=['guest code = any ASCII text of 0..4 characters, in each of 22 advice forms, with a second advice behind it',
           'guest code = fixed text (comment openers/closers, partial delimiters, quotes, multi-byte characters, parentheses) on both sides of any ASCII text of 0..3 characters, with two further advices behind it',
           'guest code = one arbitrary 2-, 3- or 4-byte character', 'guest code of 63, 257, 1025, 4097 and 66000 bytes with 2 arbitrary characters at the start, middle or end'],
   outside=['guest code with more than 4 arbitrary characters at once'])
PROPS['L02'] = dict(WASP, groups=[
    g('wasp', 'edit', ['accepted', 'rejected']), g('wasp', 'edit2', ['accepted', 'rejected'], cost=3), g('wasp', 'edit3', ['accepted', 'rejected'], cost=8), g('wasp', 'drop', ['rejected']),
    g('wasp', 'short', ['accepted', 'rejected'], cost=7), g('wasp', 'name', ['accepted', 'rejected'], cost=2), g('wasp', 'seq', ['accepted']), g('wasp', 'seq3', ['accepted']), g('wasp', 'many', ['accepted']),
    g('wasp', 'name_long', ['accepted', 'rejected'], cost=2), g('wasp', 'spe_count', ['accepted', 'rejected']), g('wasp', 'foreign', ['accepted', 'rejected'], cost=2), g('wasp', 'again', ['accepted']),
], bounds=['11 programs covering every advice form, with 1, 2 or 3 consecutive characters replaced by, or 1, 2 or 3 inserted, arbitrary ASCII characters at every position; 1..4 characters deleted at every position',
           'any ASCII text of 0..6 characters, bare and inside (aspect ...)', 'any ASCII name of 1..4 characters in every form; 21 words of the language and names of 9..260 letters, with one arbitrary character before, inside, behind or none', 'specialised apply with 0..3 arguments and 0..3 results, changeable or not on either side',
           'every sequence of 1..3 advices out of 22 forms (two arbitrary letters of guest code for pairs), and programs of 12, 40 and 100 advices', 'every form compiled after any other form or after one of 6 rejected texts', 'any character outside ASCII anywhere in four programs covering every kind of token'],
   outside=['texts further than 3 adjacent characters from the templates', 'more than one character outside ASCII outside of guest code'],
   assume=['the reference reading of the language is harness/wasp/src/reference.rs, an independent recursive-descent parser'])
PROPS['L03'] = dict(WASP, groups=[
    g('wasp', 'unique', ['distinct names accepted', 'clash reported'], cost=2), g('wasp', 'modes', ['accepted', 'rejected'], cost=2), g('wasp', 'spe', ['distinct parameters accepted', 'clash reported'], cost=3),
    g('wasp', 'spe_ty', ['types accepted', 'type rejected'], cost=9), g('wasp', 'spe_long', ['accepted', 'rejected']), g('wasp', 'unique_long', ['distinct names accepted', 'clash reported']),
], bounds=['generic apply: any three names of 1..2 letters; all 36 pairings of the known argument/result kinds, and any 4-character type name on either or both sides',
           'specialised apply: 1..3 arguments and 1..3 results, each with any name a..f; any 3-character type name at any one of up to 4 positions; lists of 7, 16, 17 and 33 parameters a side with one arbitrary letter at any position', 'names of 8..65 letters that differ in their last one at most'],
   outside=['clashes between the function name and parameters of a specialised apply, and between the parameters of other advices: the compiler does not define them'])
PROPS['L04'] = dict(WASP, groups=[
    g('wasp', 'join', ['join points compared']), g('wasp', 'join_spe', ['join points compared']), g('wasp', 'join_spe2', ['join points compared']), g('wasp', 'join_long', ['join points compared']), g('wasp', 'join_spe3', ['join points compared'], cost=2), g('wasp', 'join_many', ['join points compared']), g('wasp', 'again', ['join points compared']),
], bounds=['every program of 1..3 advices out of 22 forms', 'every pair of specialised signatures with up to 2 arguments and 2 results (one of the pair with exactly 2 and 1)', 'any three signatures of one argument and one result', 'pairs of signatures of 10 and 24 types differing at any one position', 'every form compiled after any other form or after one of 6 rejected texts', 'all forms or all but one, from any of them on, forward and backward, each once or twice'],
   outside=['other programs of four or more advices'])
PROPS['L05'] = dict(WASP, groups=[g('wasp', 'layout', ['accepted', 'rejected']), g('wasp', 'comment', ['accepted', 'rejected']), g('wasp', 'mixed', ['accepted', 'rejected'])],
   bounds=['four programs covering every kind of token, the same separator (8 families: whitespace, comments, comments with 2 arbitrary characters, 1..2 arbitrary characters, unterminated comments) at every gap', 'a comment with 0..3 arbitrary characters at each single gap, and no separator where none is needed', 'six kinds of separators (long comments and characters outside ASCII among them; one with 2 arbitrary characters) taking turns'],
   outside=['different arbitrary separators at several gaps at once'])

# ---- the merge driver (wasm-merge) ----------------------------------------------------------------
MERGE = dict(crates=['wasm_merge'], assume=['the external merger is modelled: it may fail to start, end with any exit code or by a signal, print any text within the bound, and writes any output within the bound; a spawned one acts when it is first waited for or read from',
             'temporary files live in an in-memory file system behind a stand-in for the tempfile crate'])
PROPS['M01'] = dict(MERGE, groups=[g('merge', 'flags', ['flags'], cost=9), g('merge', 'pairs', ['pairs']), g('merge', 'shapes', ['modules handed over']), g('merge', 'again', ['modules handed over'])],
   bounds=['all 2^12 settings of options 0..11, of options 11..22, with the others all off and all on', 'every pair of the 23 options on with all others off, and off with all others on', 'no option, all, each alone, all but each, with and without primary module, with 0..3 further modules', 'three merges in a row, the first under other or the same options and with any outcome'],
   outside=['option triples across the two windows'])
PROPS['M02'] = dict(MERGE, groups=[g('merge', 'modules', ['modules handed over'], cost=3), g('merge', 'modules3', ['modules handed over'], cost=20, quick=[0]), g('merge', 'many', ['modules handed over']), g('merge', 'tmpdir', ['modules handed over']), g('merge', 'large', ['modules handed over']), g('merge', 'names', ['modules handed over']), g('merge', 'shapes', ['modules handed over']), g('merge', 'crowd', ['modules handed over']), g('merge', 'again', ['modules handed over'])],
   bounds=['with and without primary module, 0..2 further modules (3 in thorough; 3 without primary in quick), each of 0..3 arbitrary bytes with a namespace of 0..3 arbitrary ASCII characters (no NUL, no leading dash)', '4..6 modules of 1 byte; 9, 17 and 40 modules, some under the same namespace, any one of them arbitrary', 'with and without primary module and 0..3 further modules of 1 byte under no option, all, each alone, and all but each', 'temporary directory with any name of 1..2 bytes',
           'modules of 255, 4096, 8191, 8192, 8193, 16385, 65536 and 70001 bytes with 5 arbitrary bytes', 'namespaces with quotes, blanks, backslashes, slashes, characters outside ASCII around 1..2 arbitrary characters', 'three merges in a row, the first under other or the same options and with any outcome'],
   outside=['namespaces containing NUL (not expressible as an argument) or starting with a dash (read as an option by the merger)'])
PROPS['M03'] = dict(MERGE, groups=[g('merge', 'outcome', ['ok', 'err', 'stderr'], cost=3), g('merge', 'faults', ['ok', 'err', 'fault'], cost=3), g('merge', 'modules_result', ['result returned'], cost=3), g('merge', 'large_result', ['result returned']), g('merge', 'stderr', ['long report']), g('merge', 'words', ['stderr', 'err']), g('merge', 'shapes_told', ['ok', 'err', 'stderr']), g('merge', 'chatter', ['ok', 'err']), g('merge', 'foreign', ['foreign report']), g('merge', 'again_told', ['ok', 'err', 'stderr']), g('merge', 'faults2', ['fault'])],
   bounds=['any exit code, death by signal, or failure to start; 0..2 arbitrary bytes of error text, 0..1 of standard output, 0..3 of result', 'one short or interrupted read/write at any point', 'one failing file operation at any point; up to two, and one short or interrupted transfer, in one merge', 'results of 255..70001 bytes with 5 arbitrary bytes', 'error texts of 40..5000 bytes; reports that look like warnings, notes or blank lines around 0..2 arbitrary characters; any character outside ASCII', 'standard output that looks like an error around 0..2 arbitrary bytes', 'any outcome under no option, all, each alone, all but each, with and without primary module and 0..3 further modules', 'three merges in a row, the first under other or the same options and with any outcome'],
   outside=['three or more failing file operations in one merge'])
PROPS['M04'] = dict(MERGE, groups=[g('merge', 'modules_clean', ['cleaned up'], cost=3), g('merge', 'tmpdir_clean', ['cleaned up']), g('merge', 'many_clean', ['cleaned up']), g('merge', 'outcome_clean', ['cleaned up'], cost=3), g('merge', 'faults_clean', ['cleaned up'], cost=3), g('merge', 'shapes_clean', ['cleaned up']), g('merge', 'again_clean', ['cleaned up']), g('merge', 'faults2', ['cleaned up'])],
   bounds=['the inputs of M02 (up to 2 modules and a primary; 4..6 modules) and the outcomes and faults of M03', 'three merges in a row, the first under other or the same options and with any outcome'], outside=['a process killed in the middle of a merge'])

# ---- the instrumentation platform (wastrumentation) -----------------------------------------------
CORE_GROUPS = [('numeric', ['returned', 'trapped'], 1), ('memory', ['returned', 'trapped'], 2), ('vars', ['returned'], 1), ('misc', ['returned', 'trapped'], 1),
               ('calls', ['returned', 'trapped'], 2), ('selections', ['returned', 'trapped'], 4), ('control', ['returned', 'trapped'], 6), ('control3', ['returned', 'trapped'], 5), ('tables', ['returned'], 1), ('large', ['returned', 'trapped'], 8)]
def core(suffix): return [g('core', n + suffix, w, cost=c) for n, w, c in CORE_GROUPS]
CORE = dict(crates=['wastrumentation', 'wastrumentation_lang_webassembly'], assume=[
    'the program library (wasabi_wasm) and the text assembler (wat) are external crates that are not installed here: stand-ins with the same interface decode, type and encode the programs',
    'the pieces handed to the external merger are linked by namespace, which stands for merging them',
    'floating-point comparison, min, max, sign operations and conversion traps are exact; the other floating-point operators are uninterpreted on symbolic operands, and models are refined until they agree with the real operators; NaN payloads are not distinguished on replay',
    'the executed programs have at most one memory'])
CORE_BOUNDS = [
    'every one of the 136 numeric operators, 14 loads, 9 stores (arbitrary address, offset, alignment, value and memory contents at both ends), memory.size and memory.grow, local and global access of every type, constants, drop, both selects, reference and table instructions: arbitrary operands, each in 9 surroundings (in and behind blocks, loops, conditionals, unreachable code, above other operands) and 3 selections of hooks (own, all, all but own)',
    'direct calls of imported and local functions, indirect calls through two tables with arbitrary slot (null, mismatching and outside ones included), three signatures, self and mutual recursion to depth 3; 7 selections of hooks',
    'one function with every kind of instruction under every single hook, every complement of one, none, all and every pair of the 27 hooks',
    'every nesting and sequence of up to 2 control statements (block, loop, if, if-else, br, br_if, br_table, return, unreachable, call, call_indirect with all label choices) and every one of 3 without the second br_table and call_indirect, under 3 typings (none, one result, parameters and two results) and 7 selections of hooks, arbitrary conditions, up to 14 (12) marks per run (a loop round takes 2 or more)',
    'every jump table of 0..4 entries over three labels (loop or block, block, function), and 100 tables of 5..40 entries with a single deviating entry or a repeating pattern; with and without carried values, any index, 3 selections of hooks',
    'the function with every kind of instruction behind 140 imports, 140 functions, globals and locals, 280 table slots and 300 instructions, behind 66000 instructions, and after one or more other programs (one that is turned down among them) were instrumented; 140 nested blocks or conditionals left to any (br_table) or many (br, br_if) depths; 1 to 3 selections of hooks']
PROPS['I01'] = dict(CORE, groups=core(''), bounds=CORE_BOUNDS, outside=['programs with more than 3 control statements in one function', 'bulk memory, SIMD and threads', 'what the analysis answers is arbitrary within the type of the answer'],
   reference='what has to be reported is written down in wsym/src/reference.rs against the WebAssembly instructions, independently of the rewriting')
PROPS['I02'] = dict(CORE, groups=core('_o'), bounds=CORE_BOUNDS + ['answers are arbitrary and move with the first argument of the event (where the types agree), so that what the program passes on and what it continues with are told apart'], outside=['programs with more than 3 control statements in one function', 'bulk memory, SIMD and threads'])
PROPS['I03'] = dict(CORE, groups=core('_f'), bounds=CORE_BOUNDS + ['the forwarding analysis performs for every event what the instruction would have done, through the helpers the instrumented program offers; "all hooks" includes generic function application'],
   outside=['programs with more than 3 control statements in one function', 'bulk memory, SIMD and threads', 'exhaustion of the call stack'])
PROPS['I04'] = dict(CORE, groups=[g('core', 'interface', ['interface compared']), g('core', 'scope', ['returned', 'trapped'], cost=3), g('core', 'scope_o', ['returned', 'trapped'], cost=3), g('core', 'scope_f', ['returned', 'trapped'], cost=9), g('core', 'reach', ['returned', 'trapped'], cost=2)], bounds=[
    'a program of 15 functions (3 imported, one exported twice, one only in the table, four with reference types at different places of their signature, one with a reference local, a start function, one never called) in 4 variants: own or imported memory, table and globals, neither memory nor table, passive and declarative segments and an imported start function',
    '10 selections by indices around and beyond 255 and 65535 in a program of 282 functions', 'selections: all, none, only indices that do not exist, with repetitions, far too many, every single function, all but every single function; all hooks, none, function application alone, and each hook alone for the interface'],
   outside=['programs whose own names collide with the names the platform adds (call_base, instrumented_*)', 'custom sections'])
PROPS['I05'] = dict(CORE, groups=[g('core', 'apply', ['returned', 'trapped', 'start'])], bounds=[
    'a program of 15 functions (3 imported) with 0..4 parameters and 0..3 results over all four types, calling each other directly and indirectly, with a start function; selected: all, an index that does not exist, each single one, all but each one; hooks: function application alone, or all hooks',
    'every argument and result arbitrary and replaced by an arbitrary value of its type, the function applied or not as the analysis decides; ten ways in, two successive calls among them; for two of them also with an imported table, alone or before its own, and with further tables', 'functions of 9, 19 and 140 parameters and 8, 11 and 17 results of mixed types, one of them imported'],
   outside=['functions with reference types in their signature (they are never selected)', 'other signatures'])
PROPS['I06'] = dict(CORE, groups=[g('core', 'stack', ['frame used']), g('core', 'stack2', ['frames nested']), g('core', 'stack_deep', ['deep frames'])], bounds=[
    'the library generated in WebAssembly for every signature of up to 3 arguments and 3 results over the four numeric types (arbitrary positions in the frame among the ways of reading and writing), and for lists of up to 33 arguments and 40 results; arbitrary values',
    'two nested frames for every pair out of 20 x 26 signatures in one library, in both orders', 'thousands of nested frames across several memory pages'],
   outside=['the libraries generated in Rust and AssemblyScript (see R01 and A01)', 'signatures with reference types', 'libraries for more than two signatures at once'])
PROPS['I07'] = dict(CORE, groups=[g('core', 'helpers', ['performed', 'out of bounds', 'without memory'])], bounds=[
    'every one of the 25 operations followed by one of 5 others, any 32-bit addresses, offsets, values and growth, arbitrary memory contents; memory own (1..2 pages), own and empty (no limit), imported (2..3 pages), or absent; with nothing and with everything observed'],
   outside=['three or more operations in a row', 'several memories (rejected by the platform)'])
PROPS['I08'] = dict(CORE, groups=[g('core', 'handover', ['handed over']), g('core', 'signatures', ['signatures compared']), g('core', 'failure', ['failure reported'], cost=2)], bounds=[
    'the 4 variants of the program of I04, nothing, all but function application, function application alone or everything observed; each of the 4 choices of the lead; analysis, support library and merged module of 0, 1 or 3 arbitrary bytes',
    'every selection of I04 for the signatures', 'each combination of a failing analysis compiler, a failing support compiler, 6 kinds of broken programs (8 arbitrary bytes among them) and a merger ending with any exit code, an error text of 2 arbitrary bytes, or by a signal'],
   outside=['which of several failures is reported', 'the merger itself'])

# ---- the purity analysis (wastrumentation-static-analysis) -----------------------------------------
PROPS['S01'] = dict(crates=['wastrumentation_static_analysis', 'wastrumentation'], assume=[CORE['assume'][0]], groups=[
    g('purity', 'steps', ['reported', 'not reported', 'returned', 'trapped']), g('purity', 'graph', ['none', 'some', 'all'], cost=5, quick=[c + 36 * k for k in (0, 3, 5, 6) for c in range(36)]),
    g('purity', 'graph2', ['none', 'some', 'all'], cost=2), g('purity', 'chain', ['chain']), g('purity', 'large', ['large'], cost=4), g('purity', 'broken', ['turned down'])], bounds=[
    '65 instructions and instruction groups (every load and store, every table and bulk memory instruction, direct and indirect calls, globals, control, arithmetic) at each of 12 places of a function, called by a second, which is called by a third, self-recursive one; what is reported is run with arbitrary arguments from two different states, one with arbitrary memory and globals',
    'every program of 2 and of 3 functions with two steps each out of nothing, reading a global, calling the imported or any of the functions, at 12 pairs of places (3 functions: 4 of them in quick)', 'chains and cycles of 12 functions in either order with one tainted function anywhere', 'chains of 140 functions, a function calling 30 others behind 200 imports, 140 nested control statements, a body of 66000 instructions, each with the taint at several places or none; analyses in a row'],
   outside=['programs of 4 or more functions with arbitrary calls', 'the command line around the analysis', 'non-termination and exhaustion of the call stack'])

# ---- analyses and support libraries in Rust ---------------------------------------------------------
RUST = dict(crates=['wastrumentation_lang_rust', 'wastrumentation'])
PROPS['R01'] = dict(crates=['wastrumentation'], assume=[ASSUME_RUSTLIB, 'the allocator (wee_alloc, not installed) is replaced by one that hands out disjoint aligned blocks, uses released ones again, and traps when a block is released with another size or alignment, or twice'],
    groups=[g('rustlang', 'stack', ['frame used']), g('rustlang', 'stack2', ['frames nested'], cost=2), g('rustlang', 'stack_deep', ['deep frames'])], bounds=[
    'the library generated in Rust, compiled (opt-level 3) for every signature of up to 3 arguments and 3 results over the four numeric types (85 libraries of 85 signatures each), and for lists of up to 33 arguments and 40 results; arbitrary values, every way of reading and writing them, at any position',
    'two nested frames for every pair out of 20 x 26 signatures in one library, in both orders', 'hundreds to thousands of nested frames over several memory pages'],
   outside=['signatures with reference types', 'the manifest the library is compiled with', 'other allocators'])
PROPS['R02'] = dict(RUST, assume=CORE['assume'], groups=[g('core', 'rust_' + n, w, cost=c) for n, w, c in CORE_GROUPS if n in ('numeric', 'memory', 'vars', 'misc', 'calls', 'selections', 'large')], bounds=CORE_BOUNDS[:3] + CORE_BOUNDS[-1:],
   outside=['control structures beyond those of the function with every kind of instruction (the events do not depend on the language of the analysis)'])
PROPS['R03'] = dict(RUST, assume=CORE['assume'] + ['the external crate that invokes cargo is modelled: it answers any bytes or fails with any text within the bound'], groups=[g('core', 'rust_handover', ['compiled', 'compiled and merged', 'failure reported'])], bounds=[
    'source texts of 0..3 and manifests (or manifest paths) of 0..2 arbitrary ASCII characters, some with further characters around them; with and without support for an operating system; both profiles; compiled modules and reasons for failing of 0 or 2 arbitrary bytes; the analysis, the support library or both failing'],
   outside=['the external compiler itself'])

# ---- analyses and support libraries in AssemblyScript -----------------------------------------------
ASSUME_ASC = 'the AssemblyScript compiler (asc, not installed) is replaced by a translator of the part of the language the generated programs and the advices here use (typed expressions with its implicit conversions, functions, generics with static conditions, classes); it was compared with hand-computed results on a test program'
WASPLANG = dict(crates=['wastrumentation_lang_assemblyscript', 'wasp_compiler', 'wastrumentation'])
PROPS['A01'] = dict(crates=['wastrumentation'], assume=[ASSUME_ASC],
    groups=[g('aslang', 'stack', ['frame used']), g('aslang', 'stack2', ['frames nested']), g('aslang', 'stack_deep', ['deep frames'])], bounds=[
    'the library generated in AssemblyScript, compiled for every signature of up to 3 arguments and 3 results over the four numeric types (85 libraries of 85 signatures each), and for lists of up to 33 arguments and 40 results; arbitrary values, every way of reading and writing them, at any position',
    'two nested frames for every pair out of 20 x 26 signatures in one library, in both orders', 'hundreds to thousands of nested frames over several memory pages'],
   outside=['signatures with reference types', 'the code asc generates, and its optimisations'])
PROPS['A02'] = dict(WASPLANG, assume=CORE['assume'] + [ASSUME_ASC], groups=[g('core', n, w, cost=c) for n, w, c in [
    ('as_misc', ['returned', 'trapped'], 1), ('as_calls', ['returned', 'trapped'], 1), ('as_selections', ['returned', 'trapped'], 1), ('as_control', ['returned', 'trapped'], 1), ('as_tables', ['returned'], 1),
    ('as_misc_q', ['returned', 'trapped'], 1), ('as_calls_q', ['returned', 'trapped'], 1), ('as_selections_q', ['returned', 'trapped'], 1), ('as_control_q', ['returned', 'trapped'], 1), ('as_tables_q', ['returned'], 1), ('as_large', ['returned', 'trapped'], 4), ('as_large_q', ['returned', 'trapped'], 4),
    ('as_apply', ['returned', 'trapped', 'start'], 4)]], bounds=[
    'advices that pass everything they are told to imported functions and decide as those answer (arbitrary answers), and advices that only look and return nothing; compared with the same analysis written by hand as WebAssembly, on the programs of I01 for calls, selects, jump tables, up to 2 control statements, and its large programs and sequences of programs',
    'function application: the functions of I05 under the same selections; every argument and result read by its type, passed on and replaced by the arbitrary answer, the function applied or not; and an arbitrary position of arguments or results asked for, read, written, existing or not'],
   outside=['advice for one signature (the generator does not support it and says so by panicking)', 'advice parameters named like the variables the generator declares around them', 'advices using other AssemblyScript features than the ones above'],
   reference='the same analysis written by hand as WebAssembly; for function application the program rewritten by hand')
PROPS['A03'] = dict(WASPLANG, assume=CORE['assume'] + ['the external crate that invokes the AssemblyScript compiler is modelled: it answers any bytes or fails with any text within the bound'], groups=[g('core', 'as_handover', ['compiled', 'compiled and merged', 'failure reported']), g('core', 'as_interface', ['asked', 'turned down'])], bounds=[
    'guest code of 0..2 arbitrary ASCII characters in an analysis with and without function application; compiled modules and reasons for failing of 0..2 arbitrary bytes; the analysis, the support library or both failing', 'every advice alone, none, every two and every three of the 14 advices in every order, and all of them or all but one in 28 orders, on the function with every kind of instruction', '4 damaged analyses'],
   outside=['the external compiler itself'])

# ---- the two executables (cli, wastrumentation-static-analysis) ------------------------------------
EXE = dict(assume=CORE['assume'] + [
    'clap (arguments), clio (input and output files) are not installed: stand-ins written from their documentation; the executables and their argument declarations are compiled as they are',
    'reads and writes of files may be partial, be interrupted, or fail, within the bounds below'])
PROPS['C01'] = dict(EXE, crates=['w_cli', 'wastrumentation', 'wastrumentation_lang_rust'], groups=[
    g('cli', 'hooks', ['instrumented']), g('cli', 'targets', ['instrumented'], cost=3), g('cli', 'files', ['instrumented', 'failure reported'], cost=2), g('cli', 'refused', ['failure reported'])], bounds=[
    'no hook named, each of the 28 alone, all but each, two in a row in either order and spelling, one of them twice; a program with every kind of instruction',
    '1 to 3 target functions of arbitrary digits (numbers 0..5 and 00..55), at either end of the command line, alone or together with hooks',
    'the 4 ways to write an option; manifest paths of 2 arbitrary letters; analysis, library and result of 3, 2 and 9 arbitrary bytes; 2 partial transfers or 1 interruption or failure of any file operation; a longer older result',
    '14 kinds of failure: broken programs (3 or 8 arbitrary bytes, a truncated one), analysis, library or merger failing, unknown hooks, ill-formed targets, missing files and options'],
   outside=['standard input and output in place of files', 'help texts', 'the Rust compiler and the merger themselves'],
   reference='the library called with the hooks and functions named')
PROPS['C02'] = dict(EXE, crates=['w_cli_static', 'wastrumentation_static_analysis'], groups=[
    g('cli', 'reported', ['reported']), g('cli', 'report_files', ['reported', 'failure reported']), g('cli', 'report_refused', ['failure reported'])], bounds=[
    'programs of pure and impure functions of several lengths, with and without imports; no minimum, or one of any 1 or 2 digits', '2 partial transfers or 1 interruption or failure of any file operation; a longer older result', '5 kinds of failure: broken programs, ill-formed or too large minima, missing files and options'],
   outside=['standard input and output in place of files', 'the order in which functions are listed'])

NOT_APPLICABLE = {}
HOOKS = dict(guard='none', enable='no hooks are needed: the harnesses use public interfaces, and std and external crates are replaced when the harnesses are built', source_commits=[])
