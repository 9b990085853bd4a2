prop("I01", "The workspace index converges to the files on disk",
 "Whatever sequence of creations, writes, deletions and renames happens under the roots, before, during or after the start of the index, once the changes stop the index holds exactly one entry for every matching, indexable file, computed from its current content, and nothing else. It gets there within a bounded time and keeps following later changes.",
 ["schedules", "histories", "fault_sequences"], "every edit history by several writers, every interleaving of watcher, notification thread, writers and queries, every delay, short or interrupted read, disk stall and overflow of the notification queue",
 "The only test walks a directory once and renames one file with sleeps in between; lost events depend on when a change lands relative to the walk and the watch registration, which a test does not control.",
 ["indxr/src/lib.rs"], [("watcher loop", "indxr/src/lib.rs watch"), ("applying one changed path", "indxr/src/lib.rs FileIndexImpl::change"), ("initial walk", "indxr/src/lib.rs watch")],
 "Seeded search, not exhaustive. Deadline: 90 simulated seconds after the last change. Directory renames happen in quiet periods (see DESIGN.md: limits of the notify dependency).", observe=["FileIndex::process_files"])
prop("I02", "Index queries only ever show true, whole and unrepeated entries",
 "At every moment a query reports each file at most once, only matching files under the roots, each with a value that was really computed from that file. A file once shown with newer content is never shown again with older content, and a file nobody touches never drops out of the answers.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of queries with the watcher's updates, for every edit history, including directories renamed at any moment",
 "The test queries once the index is at rest; half-applied updates exist only for an instant between two steps of the watcher.",
 ["indxr/src/lib.rs"], [("replacement of a subtree in one step", "indxr/src/lib.rs FileIndexImpl::change"), ("query under the lock", "indxr/src/lib.rs FileIndex::process_files")],
 "Seeded search. Every answer of 1-3 concurrent clients is judged against a log of everything the mapper computed.", observe=["FileIndex::process_files"])
prop("I03", "Unreadable files, directories or roots do not spoil the rest of the index",
 "When some files, directories or a whole root cannot be read, do not exist, or cannot be watched for a while, every other file under every other root is still indexed and still followed. No such condition stops the index or makes a query fail.",
 ["fault_sequences", "schedules", "histories"], "every placement of unreadable files and directories and missing roots, transient failures of watch registration and overflowing notification queues, with every edit history and interleaving",
 "No test has a file that cannot be read or a root that is missing; errors on a background thread end it silently.",
 ["indxr/src/lib.rs"], [("walk that skips errors", "indxr/src/lib.rs FileIndexImpl::change"), ("retry of failed watches", "indxr/src/lib.rs watch")],
 "Seeded search with injected EIO/EACCES, ENOSPC on watches, IN_Q_OVERFLOW, missing roots.", observe=["FileIndex::process_files"])
prop("I04", "Queries never wait for the disk or for a file being processed",
 "A query, and the creation of the index itself, returns promptly however long the disk stalls and however long the processing of any one file takes, including during the first walk of the roots.",
 ["schedules", "fault_sequences"], "every interleaving of queries with indexing work that takes seconds and disk operations that stall",
 "The test has two tiny files on a fast disk; holding the lock a moment too long cannot be seen there.",
 ["indxr/src/lib.rs"], [("mapping outside of the lock", "indxr/src/lib.rs FileIndexImpl::change"), ("background thread", "indxr/src/lib.rs FileIndex::new")],
 "Seeded search on the simulated clock: bound 60 ms against delays of 0.2 s to 40 s.", observe=["FileIndex::process_files", "FileIndex::new"])
prop("I05", "Workspace symbol search finds exactly the matching definitions",
 "Once the tree is at rest a symbol query returns exactly the functions, types, traits and modules defined in the current files whose name contains the letters of the query in order, ignoring case, each with its own kind, place and line; only types unless the query has a '#' or no type matches. When more than 512 match it may stop after whole files, and a query made while files change returns only definitions that match.",
 ["histories", "inputs", "schedules", "fault_sequences"], "every set of source files reached by every edit history, every query, every interleaving with the indexing thread",
 "No test queries the symbol index at all; its parts are tested on single strings.",
 ["lang/rust/src/editor/symbol_index.rs", "lang/rust/src/editor/fst_subseq.rs", "lang/rust/src/editor/file_symbols.rs", "lang/rust/src/editor/line_index.rs"],
 [("query", "lang/rust/src/editor/symbol_index.rs SymbolIndex::query"), ("subsequence automaton", "lang/rust/src/editor/fst_subseq.rs"), ("line numbers", "lang/rust/src/editor/line_index.rs")],
 "Seeded search over generated sources whose symbols are known by construction. Columns are counted in bytes, as the code does.", observe=["SymbolIndex::query"])

prop("A01", "A grammar's answers do not depend on who else asks, when, or in what order",
 "Resolved references, calls, operators, accessors and traits, usages, highlighting, structure, context actions and formatting of one version of a grammar are a function of its text alone. However many clients ask concurrently, in whatever order and whatever was asked before, each gets the answer a newly opened copy of the text would give.",
 ["schedules", "histories", "inputs"], "every interleaving of concurrent requests to one analysed grammar, every history of earlier requests, over generated (mostly faulty) grammars",
 "Tests ask one question of one fresh analysis on one thread; the shared caches, their locks and the order in which queries fill them never matter there.",
 ["lang/fall/src/analysis/db.rs", "lang/fall/src/analysis/query/mod.rs", "lang/fall/src/analysis/mod.rs"], [("query cache", "lang/fall/src/analysis/db.rs DB::get"), ("locking the analysis", "lang/fall/src/analysis/mod.rs FileWithAnalysis::analyse")],
 "Seeded search; the oracle is a fresh instance asked only that question.", observe=["FileWithAnalysis::analyse", "EditorFileImpl"])
prop("A02", "Every problem of a grammar is reported exactly once, whatever was asked before",
 "The diagnostics of a grammar are the same list, in the same order, no matter which requests were made before or are being made at the same time: none is lost and none is repeated. Every measured request is recorded once.",
 ["schedules", "histories", "inputs"], "every interleaving and history of requests to one analysed grammar, over generated grammars with several problems each",
 "Diagnostics are a side effect of whichever query first computes a fact; tests compute all of them in one fixed order on one thread.",
 ["lang/fall/src/analysis/db.rs", "lang/fall/src/analysis/diagnostics.rs", "lang/fall/src/analysis/mod.rs"], [("collecting diagnostics", "lang/fall/src/analysis/db.rs DB::get"), ("all diagnostics", "lang/fall/src/analysis/mod.rs Analysis::collect_all_diagnostics")],
 "Seeded search.", observe=["FileWithAnalysis::diagnostics"])
prop("A03", "Typing a grammar never breaks the analysis, and every version answers for itself",
 "While a grammar is typed, whatever unfinished text that leaves, every request to every version ends with an answer and never crashes. A version that is still being asked while newer versions are made keeps answering for its own text.",
 ["histories", "inputs", "schedules"], "every sequence of edits (mostly leaving definitions unfinished) with requests to current and older versions, interleaved with the making of newer ones",
 "The tests analyse complete grammars, and a handful of fragments chosen for one message each.",
 ["lang/fall/src/analysis/query/mod.rs", "lang/fall/src/editor/mod.rs", "lang/fall/syntax/src/ast_ext.rs"], [("analysis of one version", "lang/fall/src/analysis/mod.rs FileWithAnalysis"), ("a new version", "lang/fall/src/editor/mod.rs edit")],
 "Seeded search. Nesting is kept below the depth at which the recursive descent would exhaust the stack.", observe=["FileWithAnalysis::edit", "EditorFileImpl"])
prop("A04", "Every editor service of a grammar means what the grammar says",
"For any grammar, finished or not, and any position or selection, the editor's answers are right: a name resolves to the rule, parameter or token it stands for, usages are exactly the references to a definition, every problem of the grammar is reported and nothing else, and highlighting, structure, actions, selection and formatting fit the text. An action that is offered can be applied and changes exactly what it says.",
["inputs", "histories", "schedules"], "every text of a grammar, every position in it, every history of edits and concurrent requests before the question",
"Tests ask one question each of a handful of small grammars at hand-picked positions.",
["lang/fall/src/analysis/query/mod.rs", "lang/fall/src/editor/actions.rs", "lang/fall/src/editor/mod.rs", "fall/editor/src/lib.rs", "fall/editor/src/actions.rs"], [("resolution and diagnostics", "lang/fall/src/analysis/query/mod.rs"), ("all diagnostics", "lang/fall/src/analysis/mod.rs Analysis::collect_all_diagnostics"), ("navigation and actions", "lang/fall/src/editor"), ("shared actions and selection", "fall/editor/src")],
"Seeded search; the oracle is an independent reading of the syntax tree.", observe=["FileWithAnalysis::analyse", "EditorFileImpl"])

prop("E01", "Reparsing after an edit gives the tree a fresh parse would give",
 "Whatever text is open, in any of the languages, and whatever edits are made to it - one or several pieces at once, from the latest or from an older version - the syntax tree of every version is the tree that parsing its text from scratch gives.",
 ["histories", "inputs", "schedules"], "every history of edits to every text, valid or not, with versions branching off older versions while other threads read",
 "A stale token or subtree needs an edit next to a cached piece whose meaning depends on something further away; tests sample a few dozen edits of one text.",
 ["fall/parse/src/lex_engine.rs", "fall/parse/src/syn_engine/mod.rs", "fall/parse/src/syn_engine/parser.rs", "fall/tree/src/lang.rs"], [("reuse of tokens", "fall/parse/src/lex_engine.rs relex"), ("reuse of parsed pieces", "fall/parse/src/syn_engine/mod.rs salvage_segments"), ("cache lookup", "fall/parse/src/syn_engine/parser.rs get_from_cache")],
 "Seeded search over the seven shipped languages and over random grammars full of nested cached rules; the oracle is a parse from scratch.", observe=["File::edit", "EditorFileImpl::edit"])
prop("E02", "Any text gets a complete tree which can be searched by position",
 "Parsing never fails: every text, however broken, gets a tree whose leaves spell the text exactly, in which the children of a node cover it without gaps or overlaps and know their parent. Looking up leaves, enclosing nodes, ancestors, neighbours and node texts by position agrees with the ranges of the nodes, also from several threads.",
 ["inputs", "histories", "schedules"], "every text reached by every history of edits, read by concurrent threads",
 "Tests parse mostly valid texts and compare the printed tree, in which ranges and parents do not show.",
 ["fall/parse/src/syn_engine/convert.rs", "fall/tree/src/node/tree_builder.rs", "fall/tree/src/search.rs", "fall/parse/src/syn_engine/expr.rs"], [("tree construction", "fall/parse/src/syn_engine/convert.rs convert"), ("ranges", "fall/tree/src/node/tree_builder.rs"), ("search by position", "fall/tree/src/search.rs")],
 "Seeded search over the seven shipped languages and random grammars. Nesting is kept below the depth at which the recursive descent would exhaust the stack.", observe=["Language::parse", "File::edit", "fall_tree::search"])
prop("E03", "Every version of a document keeps its own text and tree",
 "An edit, given as pieces of text or as nodes to delete, replace or insert after, makes a new version whose text is the old text with exactly the edited pieces replaced. The version it started from, and every other version, keeps showing its own text and tree to every thread that still reads it, and the measurements recorded for a version are recorded once and fit it: no more time than passed, no more text read again than there is.",
 ["histories", "schedules", "inputs"], "every history of edits with undo and branches, with concurrent readers of old versions, on a clock that may jump",
 "Tests hold one version at a time and never read an old one, let alone from another thread.",
 ["fall/text/src/text_edit.rs", "fall/tree/src/edit.rs", "fall/tree/src/node/mod.rs", "fall/tree/src/metrics.rs", "fall/editor/src/lib.rs"], [("applying an edit", "fall/text/src/text_edit.rs TextEdit::apply"), ("building an edit", "fall/text/src/text_edit.rs TextEditBuilder"), ("editing nodes", "fall/tree/src/edit.rs FileEdit"), ("a new version", "fall/tree/src/node/mod.rs File::edit")],
 "Seeded search; the oracle is a string model of every version.", observe=["TextEdit", "FileEdit", "File::edit", "File::metrics"])
prop("E04", "Editor requests for Rust are answered as the tree says, at any position",
"For any Rust text, however broken, and any position or selection, the editor's answers are right and never crash: structure, highlighting, breadcrumbs, the semicolon after `let`, debug expansion, growing selections and context actions. An action that is offered can be applied and changes exactly what it says; one that is not offered changes nothing.",
["inputs", "histories", "schedules"], "every text reached by every history of edits, every position in it, with requests asked while newer versions are made",
"Tests ask about a few valid texts at hand-picked positions.",
["lang/rust/src/editor/mod.rs", "lang/rust/src/editor/actions.rs", "lang/rust/src/editor/file_symbols.rs", "fall/editor/src/lib.rs", "fall/editor/src/actions.rs"], [("requests", "lang/rust/src/editor/mod.rs RustEditorFile"), ("Rust actions", "lang/rust/src/editor/actions.rs"), ("shared actions and selection", "fall/editor/src")],
"Seeded search; the oracle is an independent reading of the syntax tree.", observe=["RustEditorFile", "EditorFileImpl"])

prop("E05", "An edit in a block costs the block, not the file",
 "Parsing a version made by an edit never takes more steps than parsing its text anew, and never looks at more text than there is. An edit inside one item of a file, valid or not, once or again and again and from older versions, is parsed in the same number of steps however large the other items of the file are, and the same number of bytes is lexed again however long the rest of the text is. Parsing a Rust, fall, JSON or BNF text, however deeply nested or broken, takes a number of steps at most in proportion to the square of the number of its tokens.",
 ["histories", "inputs", "schedules"], "every history of edits in one item of any file, with any items around it, two files being edited at once",
 "One test counts the steps after one edit at the end of one file; that nothing is lost from version to version, in any place and after errors, is not tested.",
 ["fall/parse/src/syn_engine/mod.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/lex_engine.rs", "fall/parse/src/lib.rs"], [("reuse of parsed pieces", "fall/parse/src/syn_engine/mod.rs salvage_segments"), ("cache lookup", "fall/parse/src/syn_engine/parser.rs get_from_cache"), ("reuse of tokens", "fall/parse/src/lex_engine.rs relex"), ("counting", "fall/tree/src/metrics.rs")],
 "Seeded search; work is counted in the steps and bytes that the metrics of a version report, so it does not depend on the clock. Items are the top-level items of Rust and fall files, the pieces these grammars cache; JSON has none, so only its lexing is compared. What the file is compared with is the same file with smaller items. The bound for a parse anew is 1000 steps times the square of the tokens and 20 (the worst text met takes a third of that).", observe=["File::edit", "File::metrics"])
prop("P01", "A generated parser parses what its grammar says",
 "For any grammar the generator accepts in which no rule calls itself and no loop repeats without consuming a token, and any text, valid or not, parsed at once or reached by edits, the generated parser gives the tree that the meaning of the grammar's constructs prescribes: sequence, ordered choice, repetition, commit and error recovery, predicates, layers, parameters, contexts, caching, pratt expressions, replacing and injecting rules, contextual tokens.",
 ["inputs", "histories"], "every grammar, every text in its language or near it, every history of edits that leads to the text",
 "The tests run the parsers of the few grammars that are shipped, over small valid examples; combinations of constructs that no shipped grammar uses are never executed.",
 ["fall/gen/src/generate/codegen.rs", "fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/pratt.rs", "fall/parse/src/syn_engine/convert.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/lex_engine.rs"],
 [("compiling expressions", "fall/gen/src/generate/codegen.rs"), ("interpreting expressions", "fall/parse/src/syn_engine/expr.rs parse_expr"), ("pratt parsing", "fall/parse/src/syn_engine/pratt.rs parse_pratt"), ("events to tree", "fall/parse/src/syn_engine/convert.rs convert")],
 "Seeded search: random grammars, random histories of edits; the oracle is a small independent interpreter of the grammar. The generator's output is loaded, not compiled; P02 compiles it.", observe=["fall_gen::generate", "Language::parse", "File::edit"])
prop("P02", "A generated parser compiles and its typed view follows the ast section",
 "For any grammar the generator accepts, whatever it names its rules, tokens, nodes and accessors, what it writes compiles against the runtime. However many threads ask for its language first, they get one language, which parses as the grammar says. Over every tree, valid or not, fresh or edited, a node is wrapped by exactly the structs and classes the ast section declares for it, and an accessor returns exactly what its selector says: the first, an optional or all direct children of that rule, class or token, or the child's text; only an accessor that requires a child may panic, and only if there is none.",
 ["inputs", "schedules", "histories"], "every grammar with any ast section, every tree its parser can make, every order in which threads use the language for the first time",
 "The tests compile the parsers of the shipped grammars only, and call their accessors on small valid files.",
 ["fall/gen/src/generate/mod.rs", "fall/gen/src/generate/codegen.rs", "lang/fall/src/analysis/query/resolve_method.rs", "fall/tree/src/ast.rs", "fall/tree/src/search.rs", "fall/parse/src/lib.rs"],
 [("template", "fall/gen/src/generate/mod.rs TEMPLATE"), ("accessors", "fall/gen/src/generate/codegen.rs Codegen::generate_method"), ("selectors", "lang/fall/src/analysis/query/resolve_method.rs"), ("children by type", "fall/tree/src/ast.rs AstChildren")],
 "Seeded search: a sample of random grammars (80 quick, 400 thorough) is compiled by rustc per check; the schedules, texts and edits of each are searched. The oracle is an independent reading of the ast section.", observe=["generated language()", "generated structs, enums and traits"])
prop("G01", "The generator writes exactly the grammar's parser or fails cleanly",
 "Generating a parser is a function of the grammar's text. When the generator succeeds, the output file holds exactly the parser of a grammar that was in the file while it ran; a grammar that cannot be read or has no meaning (an unresolved name, a call with the wrong arguments, a pattern for a contextual token, a malformed pratt rule, a name no identifier can be made of, a class of nothing, a token that matches nothing, ...) is an error, not a crash and not a parser, and leaves the old output as it is. Whatever the disk does and whenever the process is killed, the grammar and all other files stay as they are, and the next undisturbed run puts the right output in place.",
 ["fault_sequences", "inputs", "schedules"], "every placement of disk errors, full disks and kills, any grammar, with generators running beside each other and an editor that saves grammars",
 "The tests generate from grammars that are right, on a disk that works, one process at a time.",
 ["fall/gen/src/lib.rs", "fall/gen/src/generate/codegen.rs", "fall/gen/src/bin/gen.rs"], [("the task", "fall/gen/src/lib.rs process"), ("code generation", "fall/gen/src/generate/codegen.rs"), ("writing only what changed", "fall/gen/src/lib.rs put_text_if_changed")],
 "Seeded search with injected read and write errors, full disk, process kill at any call.", observe=["fall_gen::process"])
prop("G02", "Rendered examples are what the parser says, or the reason why not",
 "The rendering of a grammar's examples holds exactly what the grammar's own parser printed for them; when the parser cannot be generated, built or run, the rendering says why in the words of the tool that failed. One document's rendering never shows another's, and rendering never crashes and touches only its own output. Wherever a run was killed or failed, once everything works again the next run renders every example as the parser says.",
 ["fault_sequences", "schedules", "inputs"], "every placement of disk errors, a full disk, failing or crashing cargo, lost pipes and kills, with several documents rendered through one renderer",
 "Rendering runs cargo in a temporary directory; no test does that at all, let alone with a build that fails.",
 ["fall/gen/src/lib.rs", "lang/fall/src/editor/mod.rs"], [("rendering", "fall/gen/src/lib.rs TestRenderer::render_one"), ("running cargo", "fall/gen/src/lib.rs TestRenderer::render_all")],
 "Seeded search. cargo is a stub process of the simulator that reads the generated project and answers from it; processes that share the temporary directory of one another are out of scope.", observe=["TestRenderer", "fall_gen::process"])

NA = []
