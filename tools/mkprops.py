#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe)))

prop("C01", "Hash tables behave as finite maps",
 "For every sequence of hash-table operations (create, insert, lookup, remove, clear, copy, deep copy, map, fold, iterate, cancel, count, delete), on string, integer, pointer and user-defined keys and with any number of buckets including one, each result equals that of a finite map that received the same operations: insert overwrites, remove returns the stored value or NULL for an absent key, iteration and mapping visit every entry exactly once, the count is the number of distinct keys. Copies are independent of their source. No operation reads or writes memory outside live objects, and deleting the table releases everything it allocated.",
 ["histories"], "all operation histories over small and large key universes, all bucket counts, colliding and adversarial hash functions",
 "palm has an empty test program; only the access patterns of the code generator's own symbol table are ever executed, with no removal, clearing or chain collisions checked against an oracle.",
 ["palm/src/hash_table.c", "palm/include/palm/hash_table.h"],
 [("bucket chains: insert/remove/relink", "palm/src/hash_table.c Insert, HTremove"), ("iterator cursor", "palm/src/hash_table.c HTiterate*")],
 ["HTlookup", "HTremove", "HTelementCount", "HTiterate/HTiterateNext", "HTmap*", "HTfold"])

prop("C02", "String utilities agree with their documented meaning on every input",
 "Every string utility (copy, bounded copy, concatenation, formatting, comparison, case conversion, prefix/suffix/substring tests, tokenizing, sub-string extraction, token substitution, number formatting) returns, for every argument in its documented domain including NULL and empty strings, exactly the value its documentation describes. Results that are documented as newly allocated are distinct allocations that the caller owns, arguments documented as not consumed are left unchanged, and no call reads or writes outside the strings it was given.",
 ["inputs"], "all strings (length 0 to several kB, all byte values), NULLs, all lengths and offsets including zero, negative and past-the-end",
 "no test calls these functions directly; the generator only exercises a few of them on short ASCII identifiers.",
 ["palm/src/str.c", "palm/include/palm/str.h"],
 [("length arithmetic before allocation", "palm/src/str.c STRsubStr, STRsubstToken, STRcatn"), ("tokenizer static state", "palm/src/str.c STRtok")],
 ["return values of STR*"])

prop("C03", "Every diagnostic is counted, labelled and printed in full",
 "Every error and every warning that is reported increases its own counter by exactly one, and notes and state messages change neither. The text of each message appears on standard error under the label of its severity with no word lost, changed or reordered (only white space may become a line break, and it does before a line gets longer than the documented useful length), followed, when a source location is given, by that location and a marker under the reported columns. Aborting compilation prints both totals and exits with status 1, and the conditional abort exits exactly when at least one error was reported.",
 ["inputs", "histories"], "all sequences of messages of all four kinds, message lengths from 0 to several line lengths, all location shapes, interleaved with aborts",
 "the tests only look at the exit status of a complete run of the generator.",
 ["palm/src/ctinfo.c", "palm/include/palm/ctinfo.h"],
 [("message buffer growth and line folding", "palm/src/ctinfo.c Format2Buffer, ProcessMessage, PrintMessage"), ("counters and abort", "palm/src/ctinfo.c HandleCtiCall, AbortCompilation, CTIabortOnError")],
 ["stderr", "CTIgetErrors", "CTIgetWarnings", "exit status"])

prop("C04", "Every well-formed specification yields a complete program",
 "For every specification that satisfies the documented rules of the language, the generator exits with status 0 without reporting an error, and everything it writes compiles as C. Together with the runtime and the skeleton files it generates for passes, traversal functions and attribute equations, the result links with no undefined or duplicate symbol and runs to completion when those skeletons are completed only by the functions the user must supply. The generated names (node constructors, access macros, enum constants in declaration order after the NULL value, traversal, pass and gate functions) are those the documentation describes.",
 ["programs"], "all well-formed specifications: any combination of enums, nodes, node sets, traversals, passes, phases, cycles, lifetimes, attributes of every type and equations",
 "eight hand-written specifications are run through the generator; the code generated from them is never compiled, and only the generator's own specification is ever compiled.",
 ["cocogen/dynamic_backend", "cocogen/phase_driver", "cocogen/frontend/scanAndParse/dsl-parser.y"],
 [("C emitters", "cocogen/dynamic_backend/*.c"), ("action table emitters", "cocogen/phase_driver/*.c"), ("grammar", "cocogen/frontend/scanAndParse/dsl-parser.y")],
 ["generator exit status and stderr", "C compiler and linker diagnostics", "exit status of the linked program"])

prop("C05", "Every ill-formed specification is rejected with a diagnostic",
 "For every specification that breaks a documented rule (duplicate or reserved or C-keyword names, undefined references to nodes, node sets, actions, types or attributes, missing or repeated root node, missing traversal uid, node sets that end up empty or misuse attributes, lifetimes on wrong targets, missing or ill-typed or repeated equations, syntax errors), the generator prints at least one error and exits with status 1. It neither crashes, hangs, is killed by a signal, nor reports success.",
 ["programs"], "all single and multiple violations of the documented rules, placed anywhere in otherwise well-formed specifications of any size",
 "eighteen fixed bad specifications are tried, each with one violation in one place; the runner accepts any failure, including a crash, as rejection.",
 ["cocogen/frontend/buildsymboltable.c", "cocogen/frontend/check_existance.c", "cocogen/frontend/check_attributes.c", "cocogen/frontend/check_product_rules.c", "cocogen/frontend/lifetimes", "cocogen/frontend/nodesets"],
 [("symbol table construction", "cocogen/frontend/buildsymboltable.c"), ("existence and type checks", "cocogen/frontend/check_existance.c"), ("equation checks", "cocogen/frontend/check_product_rules.c")],
 ["generator exit status", "generator stderr"])

prop("C06", "The generator is memory-safe and terminates on every input",
 "Whatever bytes the input file holds and whatever options are given, the generator terminates by itself with status 0 or 1, and while running never reads uninitialised or freed memory, writes out of bounds, dereferences NULL, aborts on an assertion or executes other undefined behaviour. A rejected input always comes with an error message, and a failure to read the input or create the output is reported the same way.",
 ["inputs", "configurations"], "all byte strings (mutated specifications, random bytes, truncations, huge identifiers, deep nesting) and all option combinations",
 "the tests feed 26 valid-syntax files and build without sanitizers.",
 ["cocogen/frontend/scanAndParse/dsl-lexer.l", "cocogen/frontend/scanAndParse/dsl-parser.y", "cocogen/commandline.c", "cocogen/frontend"],
 [("line saving for diagnostics", "cocogen/frontend/scanAndParse/dsl-lexer.l"), ("option handling", "cocogen/commandline.c")],
 ["exit status / signal", "ASan, UBSan reports", "stderr"])

prop("C07", "Constructed nodes hold exactly what they were given",
 "A node built by its generated constructor has the requested node type, holds each argument in the child or attribute named in the constructor at its documented position (children first, then attributes, in declaration order), and has every other child NULL and every other attribute zero, false or NULL. Every write through an access macro is read back unchanged by the same macro and disturbs no other field or node. This holds for every attribute type over its full value range.",
 ["programs", "histories"], "all specifications, all constructor argument values over the full range of each type, all sequences of field writes",
 "no test constructs a user-defined node; only the generator's own specification is exercised.",
 ["cocogen/dynamic_backend/gen_node_constructor.c", "cocogen/dynamic_backend/gen_node_init_funcs.c", "cocogen/dynamic_backend/gen_node_structs.c", "cocogen/dynamic_backend/gen_node_macros.c"],
 [("struct layout and field names", "cocogen/dynamic_backend/gen_node_structs.c"), ("constructor emission", "cocogen/dynamic_backend/gen_node_constructor.c")],
 ["AST<node>() results read through access macros"])

prop("C08", "Copying a tree yields an equal and fully independent tree",
 "Copying any tree yields a tree of the same shape and node types whose plain attributes equal the original's, whose strings are equal but separately allocated, and whose references to other nodes are the same references. The copy shares no node and no string with the original, so changing or freeing either one leaves the other unchanged; copying NULL yields NULL. The original is not modified, and running the copy takes part in no other traversal that is active.",
 ["programs", "inputs"], "all specifications and all trees over them, with any subset of optional children and strings absent, copied at the root or at any sub-tree, outside or inside a running traversal",
 "no test copies a user-defined tree.",
 ["cocogen/dynamic_backend/gen_copy_traversal.c", "copra/src/phase_driver.c"],
 [("generated copy functions", "cocogen/dynamic_backend/gen_copy_traversal.c"), ("copy entry point", "copra/src/phase_driver.c CCNcopy")],
 ["CCNcopy result", "dump of both trees", "allocator events"])

prop("C09", "Freeing a tree releases exactly what the tree owns",
 "Freeing any tree releases every node of the tree, every string attribute it holds and nothing else: nodes that are only referenced by an attribute, user-typed attributes and everything outside the tree stay valid. Nothing is released twice, nothing the tree owns remains allocated afterwards, and freeing returns NULL. After a complete run of the compiler the tree has been freed in the same way.",
 ["programs", "inputs"], "all specifications and all trees over them, with shared references and absent children and strings, freed as a whole, by sub-tree, or at the end of a run",
 "no test frees a user-defined tree or checks for leaks.",
 ["cocogen/dynamic_backend/gen_free_traversal.c", "copra/src/phase_driver.c"],
 [("generated free functions", "cocogen/dynamic_backend/gen_free_traversal.c"), ("end-of-run release", "copra/src/phase_driver.c CCNrun, CCNfree")],
 ["allocator events", "ASan/LSan reports"])

prop("C10", "Traversals visit exactly the target nodes, in order",
 "A traversal calls the user's function for every node of a targeted type that is reached, with that node, in depth-first order of the children as declared, and calls no function for other nodes. Sub-trees below untargeted nodes are still searched whenever they can contain a target, and visiting a child replaces that child by the value the called function returned. Skipped or absent children, and the functions that visit all children, one named child, an arbitrary node or an optional node, behave the same at any nesting depth and for recursive tree types.",
 ["programs", "inputs", "histories"], "all specifications and target sets, all trees, all choices of which children the user's functions visit, skip or replace, including nested starts of other traversals",
 "no test runs a generated traversal on a user-defined tree.",
 ["copra/src/dynamic_core.c", "cocogen/dynamic_backend/gen_trav_v_table.c", "cocogen/dynamic_backend/gen_traversal_functions.c", "cocogen/frontend/reachability.c"],
 [("dispatch tables", "cocogen/dynamic_backend/gen_trav_v_table.c"), ("reachability of targets", "cocogen/frontend/reachability.c"), ("dispatch", "copra/src/dynamic_core.c TRAVdo, TRAVchildren, TRAVopt")],
 ["log of calls made to user functions", "resulting tree"])

prop("C11", "Traversal data belongs to exactly one traversal activation",
 "Every time a traversal with data starts, it gets fresh data with every field zero or NULL, its initialisation function runs once before any of its node functions and its finalisation function runs once after the last of them. Values written during an activation are seen by all its later functions, are untouched by traversals started inside it, including the same traversal again, and the enclosing activation's data is current again as soon as an inner one ends. All of it is released when the activation ends.",
 ["programs", "histories"], "all nesting and interleaving histories of traversal starts, pushes and pops, over traversals with and without data",
 "no test executes nested traversals with data; the data of the generator's own traversals is not compared with an oracle.",
 ["copra/src/dynamic_core.c", "cocogen/dynamic_backend/gen_trav_data_ctors.c", "cocogen/dynamic_backend/gen_trav_data_tables.c", "cocogen/dynamic_backend/gen_trav_data_getters.c"],
 [("activation stack", "copra/src/dynamic_core.c TRAVpush, TRAVpop, TRAVstart"), ("init/fini and allocation tables", "cocogen/dynamic_backend/gen_trav_data_tables.c")],
 ["log of init/fini and node functions with data values", "LSan"])

prop("C12", "Actions run in the specified order; gates and cycles work as documented",
 "Running the compiler executes the actions of the start phase in the order they are listed, entering sub-phases in place, and passes each action the tree the previous one returned. A phase runs only if its gate function returns true, the gate being asked once per encounter. A cycle repeats its actions until an iteration in which no change was notified or until the configured maximum number of iterations, whichever comes first, and sub-phases or other cycles nested inside it do not influence that decision except through the notifications made in them.",
 ["programs", "histories"], "all phase trees, all gate answers that may differ per encounter, all histories of change notifications, all maxima, nested phases and cycles to any depth",
 "the generator's own driver has one never-executed cycle and no nested cycles; no test observes execution order.",
 ["copra/src/phase_driver.c", "cocogen/phase_driver/gen_action_array.c"],
 [("phase and cycle loop", "copra/src/phase_driver.c"), ("action tables", "cocogen/phase_driver/gen_action_array.c")],
 ["log of calls to passes, traversals and gates"])

prop("C13", "An error stops compilation at the point the documentation states",
 "When an action asks for an error to take effect after the current action, no further action runs; when it asks for it after the current phase, the remaining actions of the innermost running phase run and nothing after them. In both cases the compilation ends with a failure exit status and the error totals, and a compilation in which no error was reported never ends this way. Errors reported without such a request do not change which actions run.",
 ["programs", "histories"], "all phase trees, every action (pass or traversal, at any depth, inside cycles) as the point where the error is raised",
 "no test raises an error inside a running action.",
 ["copra/src/phase_driver.c"],
 [("error checks after actions and phases", "copra/src/phase_driver.c CCNerrorAction, CCNerrorPhase")],
 ["log of executed actions", "exit status", "stderr"])

prop("C14", "Action numbers, breakpoints and the printed phase tree agree",
 "Every action has a number: the start phase has 1 and all others follow in depth-first order of listing, whether or not a gate skips them and in every iteration of a cycle; the number reported while an action runs is its own. A breakpoint given by number or by dotted path, in any letter case, runs everything up to and including that action, then hands the current tree to the breakpoint handler once and ends the program with status 0; a breakpoint that names no executed action changes nothing. Printing the phase tree lists every action below the start phase exactly once with that number, indented by its depth.",
 ["programs", "configurations"], "all phase trees, every action as breakpoint target, by number and by path in any letter case, with and without gates and cycles before it",
 "no test sets a breakpoint or prints the tree.",
 ["copra/src/phase_driver.c", "cocogen/phase_driver/gen_ids_table.c", "cocogen/phase_driver/gen_action_array.c", "cocogen/frontend/lifetimes/assign_id_to_action.c"],
 [("id counter during execution", "copra/src/phase_driver.c"), ("path resolution", "copra/src/phase_driver.c CCNsetBreakpoint")],
 ["log of action numbers", "breakpoint handler call", "stdout of the phase tree", "exit status"])

prop("C15", "Lifetimes are enforced exactly in the stated range of actions",
 "If a node, child or attribute violates one of its declared lifetimes (a disallowed node, child or attribute present inside the range, an allowed one present outside it, a mandatory one missing inside it, or an optional one missing outside it), the check that precedes an action reports an error exactly at the actions in that range and compilation stops there. While no lifetime is violated no error is reported. Inclusive and exclusive brackets, open ends, namespaced actions and repeated action names select the range as documented, and every lifetime in a list is enforced.",
 ["programs", "inputs"], "all lifetime declarations over all phase trees, all bracket kinds and ends, all trees, violations introduced at any action",
 "no test runs a tree check at all; only acceptance of the syntax is tested.",
 ["cocogen/dynamic_backend/gen_check_traversal.c", "cocogen/frontend/lifetimes", "copra/src/phase_driver.c"],
 [("mapping of ranges to action numbers", "cocogen/frontend/lifetimes"), ("generated checks", "cocogen/dynamic_backend/gen_check_traversal.c"), ("check before each action", "copra/src/phase_driver.c")],
 ["log of executed actions", "stderr", "exit status"])

prop("C16", "Set expressions denote exactly the set algebra they are written in",
 "The value of a set expression in a node set or traversal (inline sets, references to node sets in any declaration order, union, intersection, difference and grouping, any nesting) is exactly the set of nodes that mathematical set algebra gives, with operators of equal precedence grouping to the left. A traversal targets exactly the nodes in its set, and a child declared with a node set accepts exactly the nodes in that set. An empty value is a legal node set as long as nothing needs a member of it; a child or a traversal whose set is empty is rejected, and so is an expression that refers to itself or to something that is not a node or node set.",
 ["programs"], "all set expressions to any depth over all universes of nodes and node sets, any declaration order",
 "two small fixed specifications use set expressions and only their acceptance is tested.",
 ["cocogen/sets", "cocogen/frontend/unwrap_setexpr.c", "cocogen/frontend/nodesets"],
 [("set tree operations", "cocogen/sets/*.c"), ("reference unfolding", "cocogen/frontend/unwrap_setexpr.c")],
 ["generated membership (dispatch and child checks)", "generator exit status"])

prop("C17", "Node set attributes reach every member exactly once",
 "Every attribute of a node set is available, with its declared type, default and kind, on every node that is a member directly or through nested node sets, readable and writable through the node's own accessor and, for grammar attributes, through the set's, both showing the same value. A member that repeats the attribute with the same signature has one single field, which then follows the repeated declaration; a different signature is rejected. Nodes that are not members do not get it.",
 ["programs"], "all hierarchies of node sets with attributes, overlapping sets, members repeating declarations, all attribute types",
 "three fixed specifications, whose generated code is never compiled or run.",
 ["cocogen/frontend/nodesets/propagate_attributes.c", "cocogen/dynamic_backend/gen_nodeset_access_funcs.c", "cocogen/frontend/check_attributes.c"],
 [("propagation to members", "cocogen/frontend/nodesets/propagate_attributes.c"), ("set accessors", "cocogen/dynamic_backend/gen_nodeset_access_funcs.c")],
 ["values read through macros in the generated program", "generator exit status"])

prop("C18", "Attribute evaluation computes every attribute once, after its dependencies",
 "For every accepted attribute grammar and every tree over it, evaluating attributes calls the equation of each synthesized and inherited attribute of each reachable node exactly once, and only when all attributes it declares as dependencies have been evaluated in that tree. The value stored is the one its equation function returned and the function receives the values of exactly its declared dependencies, in order, with the absent-child form chosen exactly when an optional child is absent. The result therefore equals that of evaluating each attribute on demand.",
 ["programs", "inputs"], "all accepted attribute grammars (cross dependencies between siblings, multiple visits, inherited and synthesized chains, node set children, optional children) and all trees",
 "no test evaluates an attribute grammar.",
 ["cocogen/frontend/attribute_scheduler", "cocogen/dynamic_backend/gen_visit_source.c", "cocogen/dynamic_backend/gen_ag_source.c", "cocogen/dynamic_backend/gen_equation_functions.c"],
 [("dependency graph and interface partition", "cocogen/frontend/attribute_scheduler"), ("generated visits", "cocogen/dynamic_backend/gen_visit_source.c")],
 ["log of equation calls with arguments", "attribute values after evaluation"])

prop("C19", "Circular attribute grammars are rejected, plain ones are accepted",
 "An attribute grammar in which some tree reachable from the root node makes an attribute depend on itself is rejected with an error naming the problem, and the generator never emits an evaluator for it, never hangs and never crashes. A grammar that can be evaluated on every tree by visiting each node's children once, in one fixed order per node type, with every node's inherited attributes computed before its synthesized ones, is accepted. (Between these two classes both verdicts are allowed, but an accepted grammar is evaluated correctly.) The verdict does not depend on the order in which nodes, children, attributes or equations are declared.",
 ["programs"], "all attribute grammars: cycles of any length through equations, children and parents, node sets; and all L-attributed grammars",
 "no test contains a circular grammar or more than one visit.",
 ["cocogen/frontend/attribute_scheduler"],
 [("cycle detection on the induced dependency graphs", "cocogen/frontend/attribute_scheduler")],
 ["generator exit status", "generator stderr"])

prop("C20", "Generation is reproducible and the generator reproduces itself",
 "Running the generator again on the same specification, in a different directory, process or environment, produces byte-identical files. Output of an earlier run in the same directory does not influence the result. The generator built from the sources it generates from its own specification behaves identically to the generator that produced them: on every specification both produce the same files and verdicts.",
 ["programs", "configurations"], "all specifications, all memory layouts (address randomisation, allocator behaviour), working directories, environments and stale output directories",
 "the self-generation test compares one specification in one environment, and determinism across runs is not tested on any other.",
 ["cocogen", "cocogen/main.ccn", "cocogen/ccngen"],
 [("iteration over hash tables while emitting", "cocogen/dynamic_backend, cocogen/frontend/attribute_scheduler"), ("bootstrapped sources", "cocogen/ccngen")],
 ["generated files byte by byte"])

prop("C21", "Layout, comments, declaration order and letter case do not change meaning",
 "Changing white space, line breaks or comments of a specification, or adding the optional semicolon of the last declaration, leaves every generated source and header byte-identical. Reordering top-level declarations, writing actions inline or as references, using the short or long form of a node set, and changing the letter case in which names are referred to leave the behaviour of the generated program unchanged. Two names that differ only in letter case are treated as the same name and rejected when both are declared as the same kind of thing.",
 ["programs"], "all semantics-preserving rewrites of all well-formed specifications",
 "each fixed specification is tried in one spelling.",
 ["cocogen/frontend/scanAndParse/dsl-lexer.l", "cocogen/frontend/scanAndParse/dsl-parser.y", "cocogen/frontend/buildsymboltable.c", "cocogen/frontend/symboltable.c"],
 [("lexer states", "cocogen/frontend/scanAndParse/dsl-lexer.l"), ("case folding of names", "cocogen/frontend/symboltable.c")],
 ["generated files", "trace of the generated program"])

prop("C22", "Ill-typed trees are reported before the next action, well-typed ones never",
 "Before each action the whole tree is checked: if some child holds a node of a type its declaration does not admit, an error naming the mismatch is reported and compilation stops before that action runs. A tree in which every child has an admitted type or is absent where it may be is never reported, whatever its shape. Switching the check off suppresses it, and the check itself changes neither the tree nor traversal data.",
 ["programs", "inputs"], "all specifications, all well-typed trees, and every placement of an ill-typed child at any depth, introduced by any action",
 "no test runs the generated check on any tree except well-typed trees of the generator itself.",
 ["cocogen/dynamic_backend/gen_check_traversal.c", "copra/src/phase_driver.c"],
 [("generated type checks", "cocogen/dynamic_backend/gen_check_traversal.c"), ("check before each action", "copra/src/phase_driver.c CCNdispatchAction")],
 ["stderr", "log of executed actions", "exit status"])

prop("C23", "Allocation helpers never return unusable memory",
 "Memory obtained from the allocation helpers is usable for its full requested size, growing a block keeps its contents, copying a block yields an equal separate block, and releasing a block, including NULL, returns NULL. A request of size zero yields NULL and never touches memory. When the system runs out of memory at any point, the program prints the out-of-memory message with the requested size and the error totals and exits with status 1 instead of crashing.",
 ["inputs", "fault_sequences"], "all request sizes and sequences; every single allocation made by the library as the one that fails",
 "no test makes an allocation fail.",
 ["palm/src/memory.c", "palm/src/ctinfo.c", "palm/src/hash_table.c"],
 [("allocation wrappers", "palm/src/memory.c"), ("out-of-memory abort", "palm/src/ctinfo.c CTIabortOutOfMemory")],
 ["return values", "exit status and stderr under failing allocations"])

prop("C24", "Generation touches nothing outside its output directory",
 "The generator creates and writes files only below the chosen output directory, creating the directory when it is missing, and reads but never changes its input. Every path it can be given (absolute, relative, with or without trailing separator, existing or not) yields the same set of files with the same content. Files already in that directory that it does not generate are left alone. When the directory or a file cannot be created or not be written completely, it says so and exits with a failure status.",
 ["configurations", "fault_sequences"], "all output path spellings, existing or missing or unwritable directories, all specifications",
 "the runner uses the default output directory only.",
 ["cocogen/commandline.c", "cocogen/filesystem/utils.c", "cocogen/generator/generator.c", "palm/src/filesystem.c"],
 [("directory creation and path joining", "cocogen/commandline.c, cocogen/filesystem/utils.c"), ("file opening", "cocogen/generator/generator.c")],
 ["file system snapshots before and after", "exit status"])

prop("C25", "Progress messages report exactly what runs and change nothing else",
 "At verbosity 1 and above every phase (and cycle) announces its start and its end exactly when it starts and ends, properly nested; at verbosity 2 and above every action that runs is announced just before it runs; at verbosity 3 every phase that is skipped by its gate is reported as skipped. Nothing else is announced, lower levels print none of it, and results, order of actions, errors and exit status do not depend on the verbosity.",
 ["programs", "configurations"], "all phase structures, gates, cycles, breakpoints and errors, at every verbosity",
 "no test runs a generated compiler with a verbosity other than the default and checks what is printed.",
 ["copra/src/phase_driver.c"],
 [("announcements", "copra/src/phase_driver.c CCNdispatchAction, startPhase, endPhase"), ("skipped phases", "copra/src/phase_driver.c CCNdispatchAction")],
 ["stderr lines of the driver interleaved with the log of actions"])

prop("C26", "Diagnostics point at the text they are about",
 "Every location printed with a diagnostic of the generator designates a token of the specification: the line number and columns are those of that token in the file, the shown source line is that line of the file, and the marker lies below that token. Where the message names something of the specification, the location is at one of the names. The same specification laid out differently (line breaks, tabs and spaces, comments, texts of several lines) gets the same diagnostics, pointing at the same tokens.",
 ["inputs"], "all ill-formed specifications in all layouts",
 "the tests on ill-formed specifications only look at the exit status.",
 ["cocogen/frontend/scanAndParse/dsl-lexer.l", "cocogen/frontend/scanAndParse/dsl-parser.y", "cocogen/frontend/ctihelp.c", "palm/src/ctinfo.c"],
 [("locations of tokens", "cocogen/frontend/scanAndParse/dsl-lexer.l token_action"), ("locations of names", "cocogen/frontend/scanAndParse/dsl-parser.y"), ("printed location", "palm/src/ctinfo.c CTIobj")],
 ["stderr of cocogen"])

prop("C27", "Accessors refuse nodes of another type and attributes without a value",
 "In a build with assertions, reading or writing a child or attribute through the accessor of a node type, of a node set, or a TRAV<child> function, on a node that is not of that type, not a member of that set, or has no such child, and reading a grammar attribute that has not been evaluated, aborts before memory is touched, with a message that names the accessor and, for node and node set accessors, the expected type and the file, line and function of the access. On nodes of the right type no accessor ever aborts or prints anything, with assertions and without (NDEBUG).",
 ["programs", "inputs"], "all accessors of all specifications applied to nodes of every type",
 "no test applies an accessor to a node of another type.",
 ["cocogen/dynamic_backend/gen_node_access_funcs.c", "cocogen/dynamic_backend/gen_nodeset_access_funcs.c", "cocogen/dynamic_backend/gen_node_access_funcs_error.c", "cocogen/dynamic_backend/gen_nodeset_access_funcs_error.c", "cocogen/dynamic_backend/gen_traversal_functions.c", "palm/src/dbug.c"],
 [("type checks in accessors", "cocogen/dynamic_backend/gen_node_access_funcs.c, cocogen/dynamic_backend/gen_nodeset_access_funcs.c"), ("messages", "cocogen/dynamic_backend/gen_node_access_funcs_error.c, palm/src/dbug.c DBUGprintAssert"), ("TRAV<child>", "cocogen/dynamic_backend/gen_traversal_functions.c")],
 ["exit status and stderr of a process per access"])

prop("C28", "Diagrams, printed trees and visit sequences agree with the specification",
 "The diagram of the AST shows exactly the nodes and node sets of the specification as declared, an edge for every child and link with its name and an edge for every member of a node set, and is a well-formed dot file whatever the names are. The diagrams of the attribute grammar show for every production exactly the attributes of its node and of its children, a direct dependency exactly for those the equations state, and partitions consistent with them. The tree printed by --show-ast shows the children, attributes, equations and members of every node and node set; its reachability table contains exactly the types that can occur below each type, and its visit sequences evaluate every attribute of a production once, after all it depends on, with the inputs and outputs the partitions give each visit.",
 ["inputs"], "all specifications with and without attribute grammars, in every order and letter case",
 "no test looks at the diagrams or the printed tree.",
 ["cocogen/dot/gen_dot.c", "cocogen/dot/gen_dot_ag.c", "cocogen/print/print.c", "cocogen/frontend/reachability.c", "cocogen/frontend/attribute_scheduler"],
 [("diagram of the AST", "cocogen/dot/gen_dot.c"), ("diagrams of the attribute grammar", "cocogen/dot/gen_dot_ag.c"), ("reachability", "cocogen/frontend/reachability.c"), ("visit sequences", "cocogen/frontend/attribute_scheduler, cocogen/print/print.c")],
 ["ast.dot, pre_induce.dot and partitioned.dot in the output directory, stdout of cocogen --show-ast"])

prop("C29", "Assertions, debug messages, interrupt handlers and directories act as documented",
 "An assertion of the support library evaluates its expression exactly once; one that holds has no other effect, one that fails prints the file, the line, the function and the formatted message to stderr and aborts. A debug message is printed to stdout exactly as formatted, behind the module name where the source defines one, and not at all after debug output was turned off; its arguments are evaluated once. With NDEBUG neither assertions nor debug messages evaluate or print anything, and both are single statements wherever a statement may stand. After the interrupt handlers were installed a segmentation fault or bus error ends the process with a message that the compiler crashed and exit status 1, and an interrupt by the user ends it silently with exit status 0. Ensuring a directory creates a missing one with the requested mode under the umask, leaves an existing one (or a link to one) and everything else as it was, and ends the process with status 1 and a message that names it when that is impossible.",
 ["inputs", "histories"], "all messages, arguments, placements of assertions and messages, signals, directory trees and sequences of requests",
 "no test fails an assertion, turns off debug output, raises a signal or asks for a directory that cannot be made.",
 ["palm/include/palm/dbug.h", "palm/src/dbug.c", "palm/src/ctinfo.c:380", "palm/src/filesystem.c"],
 [("assertions and debug messages", "palm/include/palm/dbug.h, palm/src/dbug.c"), ("interrupt handlers", "palm/src/ctinfo.c CTIinstallInterruptHandlers"), ("directories", "palm/src/filesystem.c FSensureDirExists")],
 ["stdout, stderr and exit status of a process; directory tree before and after"])

prop("C30", "The command line of the generator does what its help says",
 "Options of the generator that concern progress messages, debugging, consistency checks, printing of the tree, limits of the attribute scheduler or the default backend change neither the generated files nor the diagnostics nor the exit status, in whatever order, spelling or place they are given, and wherever the output goes. Verbose mode (in all its spellings) reports the actions in the order of the printed structure of the generator, with properly nested phases. A breakpoint stops the generator successfully after the named action: what was generated until then is exactly what the actions up to it generate. Help, version and structure are printed with a successful exit and nothing else happens. An unknown option, a missing or unusable argument, a backend that does not exist and any number of specifications other than one are refused with a message, a failure exit status and no file touched.",
 ["inputs"], "all command lines and all specifications",
 "the tests only use --gen-dir and the name of the specification.",
 ["cocogen/commandline.c", "cocogen/main.c", "copra/src/phase_driver.c"],
 [("options", "cocogen/commandline.c CLprocessArgs"), ("output directories", "cocogen/main.c"), ("breakpoints and verbosity", "copra/src/phase_driver.c")],
 ["stdout, stderr and exit status of cocogen; files below the working directory"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
