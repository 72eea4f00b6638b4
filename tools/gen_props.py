#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property: the source of truth."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Formatting never changes what a file means",
  "For every file that parses, the formatted output denotes the same program as the input: the same statements in the same order with the same expressions, literal values and grouping. The only permitted differences are the documented rewrites: named arguments reordered in BUILD-like files, argument groups reordered positional/named/*args/**kwargs, label spellings shortened or joined, sortable lists sorted and deduplicated, load statements moved/merged/sorted, docstring indentation, octal/float spelling and redundant parentheses.",
  ["inputs", "programs", "configurations"], "all syntactically valid BUILD, .bzl, WORKSPACE, MODULE.bazel and plain Starlark files, in any layout",
  "The golden files sample a few dozen inputs; meaning preservation must hold for every combination of expression, layout, comment position and rewrite.",
  ["build/print.go", "build/rewrite.go", "build/parse.y", "build/lex.go", "build/quote.go"],
  [("Format/FormatWithRewriting", "build/print.go"), ("Rewrite", "build/rewrite.go")], ["bytes returned by the formatter"])
p("C02", "Formatting is idempotent and its output is always valid",
  "For every file that parses, the formatted output parses again as the same file type and formatting it a second time returns exactly the same bytes.",
  ["inputs", "programs"], "all valid files of all five file types, any layout, comments anywhere",
  "Golden tests check a second format only on their own outputs; idempotence breaks on unusual combinations of comments, line breaks and rewrites.",
  ["build/print.go", "build/rewrite.go"], [("Format", "build/print.go"), ("Rewrite", "build/rewrite.go")])
p("C03", "Formatting keeps every comment, attached to the same code",
  "Every comment in the input appears in the formatted output exactly once with its text unchanged (apart from trailing white space; the comments of merged duplicates may share a line), and nothing becomes a comment that was not one. A comment stays with the statement, or list element, call argument or dictionary entry, it was written on or directly above; comments of a removed duplicate stay in the list, next to the remaining one or the following element.",
  ["inputs", "programs"], "all valid files with comments next to statements, list elements, arguments, parameters, loaded symbols and dictionary entries, and before closing brackets",
  "Comments may appear between any two tokens; tests cover a few placements only.",
  ["build/lex.go", "build/print.go", "build/rewrite.go"], [("assignComments", "build/lex.go"), ("comment flushing", "build/print.go")])
p("C04", "Parsing any bytes ends in a tree or a positioned error",
  "For every byte sequence and every file type, parsing terminates and returns either a tree or an error that names the file and a line and column inside the input; it never crashes, and never modifies the caller's bytes (nor the memory after them).",
  ["inputs"], "all byte strings, including invalid UTF-8, unbalanced brackets, odd indentation, CRLF, BOM and deep nesting",
  "Tests parse a fixed list of valid files and a handful of invalid ones.",
  ["build/lex.go", "build/parse.y", "build/parse.y.go"], [("ParseBuild/ParseBzl/ParseDefault...", "build/lex.go"), ("input.readToken", "build/lex.go")])
p("C05", "The parsed structure agrees with the Starlark language",
  "For every program that the Starlark language accepts, the parser accepts it and produces the tree the language prescribes: same statements and nesting by indentation, same operator precedence and associativity, same call arguments, same numbers, and same decoded string values.",
  ["programs", "inputs"], "all Starlark programs within the common subset of both grammars, in any layout",
  "Unit tests compare a few hand-written trees; precedence, indentation and escapes have unbounded combinations. An independent Starlark parser is the oracle.",
  ["build/parse.y", "build/lex.go", "build/quote.go"], [("yacc grammar", "build/parse.y"), ("indentation and tokens", "build/lex.go")])
p("C06", "Positions of syntax nodes identify their source text exactly",
  "For every parsed file, each node's start and end positions have consistent line, column and byte offset, lie within the span of the enclosing node, follow source order among siblings without overlap, and cut out of the input exactly the text of that node; the same holds for comments.",
  ["inputs", "programs"], "all valid files, including multi-byte characters, triple-quoted strings, continuations and CRLF",
  "Tests check positions for a few fixed snippets; lint output and editor replacements depend on all of them.",
  ["build/syntax.go", "build/lex.go", "build/parse.y"], [("Span methods", "build/syntax.go"), ("Position bookkeeping", "build/lex.go")])
p("C07", "String literal values survive decoding, quoting and printing",
  "For every string value, quoting it (single- or triple-quoted) and decoding the literal yields the same value, and the literal means that value to a Starlark interpreter. Decoding any literal agrees with Starlark, and formatting never changes the value of a literal whatever its quotes, prefix and escapes.",
  ["inputs"], "all byte strings as values and all literal spellings",
  "A table of about thirty literals is tested.",
  ["build/quote.go", "build/print.go"], [("Unquote/quote", "build/quote.go")])
p("C08", "Sortable lists are sorted, deduplicated permutations; opt-outs obeyed",
  "In BUILD-like files a list of strings under a sortable attribute comes out with the same set of values, each once, in the documented order (plain, ':', '//', '@', then component-wise), separately within runs broken by non-strings or comments. Lists under attributes that are not sortable, or marked 'do not sort' or inside a 'buildifier: leave-alone' call, keep their order, and lists marked 'keep sorted' are sorted in every file type. Repository names in use_repo calls of MODULE files are sorted likewise.",
  ["inputs", "configurations"], "all lists of strings and expressions, attributes, rule kinds, comment placements, tables",
  "Golden files contain a few sorted lists; ordering, chunking and deduplication interact over all contents.",
  ["build/rewrite.go", "tables/tables.go"], [("sortStringLists", "build/rewrite.go"), ("byStringExpr", "build/rewrite.go")])
p("C09", "Load clean-up keeps every binding; opt-outs and WORKSPACE order obeyed",
  "After formatting, the file binds exactly the same local names to the same (module, symbol) pairs by load statements, and no non-load statement changes order. Loads are moved only up to the top of the file (never in WORKSPACE files), loads of one module are merged, loads and their symbols come out sorted as documented, and the comments disable=load-on-top, disable=same-origin-load and disable=out-of-order-load switch the respective rewrite off.",
  ["inputs", "programs"], "all sequences of loads (aliases, duplicates, repeated modules, comments) mixed with other statements",
  "A handful of golden files; order, merging and aliasing multiply.",
  ["build/rewrite.go"], [("moveLoadOnTop, compressSameOriginLoads, sortLoadStatements, sortAllLoadArgs", "build/rewrite.go")])
p("C10", "Printing any syntax tree yields source that parses back to that tree",
  "For every well-formed syntax tree, including trees built or edited by a program with no positions and no recorded parentheses, the printed text parses and yields an equal tree: parentheses are inserted wherever precedence needs them and nothing is dropped.",
  ["programs"], "all well-formed expression and statement trees",
  "Tests print parsed files and a few hand-made nodes; tools print edited trees of arbitrary shape.",
  ["build/print.go", "build/rule.go"], [("printer.expr with precedence", "build/print.go"), ("FormatString", "build/print.go")])
p("C11", "Tree traversal visits every node exactly once with its true ancestors",
  "Every traversal entry point visits every node of the tree exactly once, parents before children and children in source order, passing the true chain of ancestors; stopping a traversal at a node skips exactly its subtree. Editing a tree through a traversal replaces exactly the nodes the callback replaces, and a traversal that changes nothing leaves the tree unchanged.",
  ["programs"], "all syntax trees and all callbacks that stop or replace at arbitrary nodes",
  "Traversals are only tested on one or two small trees; a missed child silently disables rewrites and lints.",
  ["build/walk.go"], [("Walk/WalkPointers/WalkInterruptable/WalkStatements/Edit/WalkOnce", "build/walk.go")])
p("C12", "buildifier writes only the files its mode allows and says so in its exit code",
  "For every mode and set of files: check and diff modes never modify a file; fix mode rewrites exactly the parsable files whose formatting (or lint fixes) differs and leaves the others untouched, byte for byte and modification time; a file with a syntax error is never modified and does not stop the others from being processed. The exit status is 0, 1 (syntax error), 2 (usage), 3 (runtime failure) or 4 (check mode needs changes) as documented.",
  ["inputs", "configurations"], "all modes, lint options, file sets with any mix of clean, unformatted and broken files, standard input or paths",
  "The integration script runs a fixed scenario.",
  ["buildifier/buildifier.go", "buildifier/utils/utils.go"], [("processFile/processFiles", "buildifier/buildifier.go")], ["file contents, mtimes, exit status"])
p("C13", "All buildifier modes agree on formatting and diagnostics",
  "For every file, the bytes written by fix mode, printed from standard input, printed by print_if_changed mode and implied by the diff are identical, and check mode reports a file exactly when fix mode would change it. Text and JSON output report the same files, formatted flags, warnings, categories and positions, and the overall JSON success flag is true exactly when every file is valid, formatted and free of warnings.",
  ["inputs", "configurations"], "all files, types, and mode/format/lint combinations",
  "The integration test compares literal output for a few files.",
  ["buildifier/buildifier.go", "buildifier/utils/diagnostics.go", "differ/diff.go"], [("processFile modes", "buildifier/buildifier.go"), ("Diagnostics", "buildifier/utils/diagnostics.go")])
p("C14", "I/O failures are reported and never leave a half-processed success",
  "When reading an input, writing a result file or writing standard output fails, buildifier and buildozer finish with a non-zero exit status and still process the other files; the file that failed is not reported as done, and no temporary files are left behind.",
  ["fault_sequences", "crash_points"], "each read, write or output call failing (missing, unreadable, read-only, directory, full device, broken output)",
  "Tests never make I/O fail.",
  ["buildifier/buildifier.go", "edit/buildozer.go", "file/file.go", "differ/diff.go", "buildifier/utils/tempfile.go"], [("error handling around file.ReadFile/WriteFile and stdout", "buildifier/buildifier.go, edit/buildozer.go")])
p("C15", "Recursive runs process exactly the build files; types follow file names",
  "With -r, buildifier processes exactly the files whose names are recognised build, .bzl, module, workspace or Starlark file names below the given directories, each once, skipping .git directories, plus files named explicitly. The file type decides the rewrites and is a function of the base name only, including BUILD.*, *.BUILD, WORKSPACE variants and .bzl/.sky files, unless -type overrides it.",
  ["inputs", "configurations"], "all directory trees and file names",
  "Only a few names are tested.",
  ["buildifier/utils/utils.go", "build/lex.go"], [("ExpandDirectories/isStarlarkFile", "buildifier/utils/utils.go"), ("getFileType", "build/lex.go")])
p("C16", "Flags and config files select warnings and modes as documented",
  "The set of enabled warnings is exactly the set described by the -warnings value (an explicit list, 'all', 'default', or +/- modifications of the default), with no duplicates; mixed styles, unknown modes, formats, types or lint modes and contradictory modes or formats are rejected with usage status 2. Flags override the configuration file, which overrides defaults, and an example configuration round-trips.",
  ["configurations"], "all warning lists, flag combinations and config files",
  "Tests check some thirty combinations.",
  ["buildifier/config/config.go", "buildifier/config/validation.go"], [("ValidateWarnings, ValidateModes, ValidateInputType, LoadFile", "buildifier/config")])
p("C17", "Linting is pure, deterministic and independent across categories",
  "Running the linter in report mode never changes the tree or what the formatter prints, and gives the same findings in the same order on every run. Findings are sorted by position, every finding lies inside the file, the findings for a set of categories are exactly the union of those for each category alone, and inserting blank lines or a statement-free prefix only shifts positions.",
  ["inputs", "programs", "configurations"], "all valid files of all types, all subsets of warning categories",
  "Each warning is tested alone on small snippets, in a single run.",
  ["warn/warn.go", "warn/warn_bazel_api.go", "warn/warn_control_flow.go"], [("FileWarnings/runWarningsFunction", "warn/warn.go")])
p("C18", "Automatic lint fixes converge to valid formatted files without findings",
  "Applying lint fixes to any valid file yields a file that parses, is unchanged by formatting, and in which no automatically fixable warning of the applied categories remains; applying the fixes again changes nothing. Replacements suggested individually describe edits inside the file, and applying one gives a file that still parses and no longer has that finding.",
  ["inputs", "programs", "configurations"], "all valid files and all subsets of fixable categories",
  "Per-warning snippets never combine several fixes in one file.",
  ["warn/warn.go", "warn/warn_bazel_api.go", "warn/warn_cosmetic.go", "warn/warn_operation.go"], [("FixWarnings, suggestReplacement", "warn/warn.go")])
p("C19", "Automatic lint fixes preserve program behaviour",
  "For every program, after automatic fixes the program computes the same results and makes the same calls with equivalent arguments as before, where the deprecated forms a warning targets are interpreted according to the documented equivalence of the old and new API; code without such forms is not changed.",
  ["programs", "inputs"], "all programs using the deprecated constructs in any combination, shadowing, aliasing and nesting",
  "Snippets compare the fixed text, not what it does.",
  ["warn/warn_bazel_api.go", "warn/warn_bazel.go", "warn/warn_cosmetic.go", "warn/warn_operation.go", "warn/warn_bazel_operation.go", "warn/warn_control_flow.go"], [("LinterReplacement per warning", "warn/*.go")])
p("C20", "Suppression comments hide exactly the named findings in their scope",
  "A comment 'buildifier: disable=<category>' (or 'buildozer: disable=<category>') removes precisely the findings of the named category within what it is attached to: the statement, with its block, or the line or argument it stands before, or the line it ends; every other finding stays, with its text, and shifts only as lines are added. A comment standing alone, or naming another category (also one whose name merely extends it), hides nothing else, and statements with a suppressed finding are not changed by the fix of that category.",
  ["inputs", "programs"], "all files, categories, and comment placements and spellings",
  "Tests cover about a dozen placements.",
  ["warn/warn.go"], [("DisabledWarning, hasDisablingComment", "warn/warn.go")])
p("C21", "Control-flow and scope warnings agree with what execution can do",
  "A statement reported as unreachable is never executed; wherever some execution reads a local variable of the function before it is assigned, that read is reported as possibly uninitialized; a function that in some execution returns a value and in another falls off the end or returns nothing is reported; and a variable, parameter or function reported as unused can be renamed where it is bound, and a symbol reported as loaded in vain dropped, without any execution noticing.",
  ["programs", "inputs"], "all Starlark programs and all executions of them",
  "Tests state expected findings for hand-written snippets; the relation to real executions is never checked.",
  ["warn/warn_control_flow.go", "bzlenv/bzlenv.go", "edit/edit.go"], [("findUnreachableStatements, findUninitializedVariables, missingReturnValueWarning, unusedVariableWarning, unusedLoadWarning", "warn/warn_control_flow.go")])
p("C22", "Cross-file warnings follow the real chain of loads and aliases",
  "The deprecated-function warning is reported exactly for the loaded names whose definition in the loaded file is a function documented as deprecated, and the unnamed-macro warning exactly for the public functions that accept neither a parameter name nor keyword arguments and that reach a rule by following calls, aliases and load statements through the workspace's files. Missing and broken files, cycles, the order of definitions and repeated runs never change the result, crash or hang.",
  ["programs", "inputs"], "all acyclic and cyclic load graphs over packages of .bzl files",
  "Tests use graphs of at most three files.",
  ["warn/warn_macro.go", "warn/warn_deprecated.go", "warn/multifile.go"], [("macroAnalyzer.IsMacro", "warn/warn_macro.go"), ("FileReader", "warn/multifile.go")])
p("C23", "buildozer attribute commands do exactly what their documentation says",
  "For every rule and every documented attribute command (add, remove, replace, substitute, set, set_if_absent, remove with no values, move, rename, copy, copy_no_overwrite, remove_if_equal, dict_*, set_select, comment and its variants, new, delete, rename of kinds), the rule afterwards has exactly the attribute values the documentation prescribes, judged against a reference model, and running a sequence of commands equals composing their effects.",
  ["inputs", "histories"], "all rules (lists, selects, concatenations, dicts, strings, absent attributes) and all command sequences",
  "Each command is tested on one to five fixed files.",
  ["edit/buildozer.go", "edit/edit.go"], [("AllCommands", "edit/buildozer.go"), ("ListReplace, AddValueToList, DictionarySet...", "edit/edit.go")])
p("C24", "buildozer edits touch nothing but their target",
  "Every buildozer command leaves all rules, statements, attributes and comments other than the addressed ones unchanged in value and order, and the only other textual change in the file is standard formatting. A command that finds nothing to change leaves a formatted file's bytes alone.",
  ["inputs", "histories"], "all files and all commands",
  "Test files are tiny, with few neighbouring rules and comments.",
  ["edit/buildozer.go", "edit/edit.go"], [("rewrite", "edit/buildozer.go")])
p("C25", "buildozer exit codes and writes tell the truth",
  "buildozer exits 0 when a file changed (or only read-only commands ran, or -stdout is given) and all commands succeeded, 3 when nothing changed, 2 on failure and 1 on bad usage (wrong argument counts, empty commands); it writes a file exactly when its content changes, read-only commands and -stdout never write, and repeating an idempotent command immediately afterwards exits 3 without touching the file.",
  ["histories", "configurations"], "all command sequences, flags and targets",
  "The shell tests check the status of a few invocations.",
  ["edit/buildozer.go", "buildozer/main.go"], [("Buildozer, rewrite", "edit/buildozer.go")], ["exit status, file bytes and mtime"])
p("C26", "A failing command never leaves its file half edited",
  "If any command for a file fails and -k is not given, that file is left exactly as it was; with -k, all other commands for it are still applied and written. In both cases the other files' commands take full effect, the failure is reported on standard error with the target's name, and the exit status is 2.",
  ["histories", "fault_sequences"], "all command lists with failing commands at any position, over one or many files",
  "One or two failure cases are tested.",
  ["edit/buildozer.go"], [("rewrite, -k handling", "edit/buildozer.go")])
p("C27", "buildozer results do not depend on concurrency",
  "For every command list over any number of files, the resulting files, messages (as a multiset), printed records and exit status are the same for every degree of parallelism and every schedule, each file is read and written by one worker only, and no data races occur.",
  ["schedules", "histories"], "all schedules, all values of -P and -numio, many files and repeated or overlapping targets",
  "Tests run with tiny inputs, one schedule, without the race detector.",
  ["edit/buildozer.go"], [("worker pool in Buildozer", "edit/buildozer.go")])
p("C28", "Command files are equivalent to command lines",
  "Running commands from a file or standard input, with |-separated fields, escapes, comments and blank lines and any number of lines and files, has the same effect as passing the same commands on the command line, and commands for one file are applied in the order given.",
  ["inputs", "histories"], "all command lists, escapes, line lengths and splits between files",
  "A few short files are tested.",
  ["edit/buildozer.go"], [("appendCommandsFromReader, SplitOnSpaces", "edit/buildozer.go, edit/edit.go")])
p("C29", "buildozer targets select exactly the rules they describe",
  "For every file and target pattern (name, __pkg__, all, *, %kind, %line) and -types filter, a command is applied to exactly the rules the documentation assigns to the pattern, and a pattern that matches nothing is an error for a specific name and otherwise changes nothing.",
  ["inputs"], "all files (nested calls, implicit names, duplicate names, macros, exports_files) and patterns",
  "Tests cover one file per pattern.",
  ["edit/edit.go", "edit/buildozer.go", "build/rule.go"], [("FindRuleByName, expandTargets", "edit/buildozer.go, edit/edit.go")])
p("C30", "Labels resolve to the right build file from anywhere in the workspace",
  "For every workspace layout, working directory, -root_dir and label spelling (absolute, relative, repository-qualified, file-qualified, '...' recursion), the tools edit exactly the build file of the addressed package, preferring BUILD.bazel over BUILD, and '...' addresses every package below exactly once.",
  ["inputs", "configurations"], "all directory layouts, label spellings and working directories",
  "A few fixed layouts are tested.",
  ["edit/edit.go", "edit/buildozer.go", "wspace/workspace.go"], [("InterpretLabelForWorkspaceLocation, getGlobalVariables, targetExpansion", "edit/edit.go, edit/buildozer.go"), ("FindWorkspaceRoot", "wspace/workspace.go")])
p("C31", "use_repo edits keep exactly the intended repositories imported",
  "After use_repo_add or use_repo_remove on a MODULE.bazel file, the set of repositories imported per extension usage (extension, dev-ness, isolation, proxy) is the previous set plus or minus exactly the given ones, none added twice, and all other usages and statements are untouched; a use_repo call is created after the last use of the extension when there is none, and naming an extension the file does not use is an error that changes nothing.",
  ["inputs", "histories"], "all MODULE.bazel files and sequences of use_repo commands",
  "A dozen fixed examples exist.",
  ["edit/bzlmod/bzlmod.go", "edit/buildozer.go"], [("Proxies, UseRepos, AddRepoUsages, RemoveRepoUsages, NewUseRepo", "edit/bzlmod/bzlmod.go")])
p("C32", "Load-editing commands keep bindings consistent",
  "new_load, replace_load and substitute_load leave the file with exactly the requested (module, symbol) bindings added, redirected or renamed, all other bindings unchanged, no symbol loaded twice and no empty load statement; fix unusedLoads removes exactly the loads whose names are never used.",
  ["inputs", "histories"], "all sets of load statements, aliases and command arguments",
  "A few fixed files exist.",
  ["edit/edit.go", "edit/buildozer.go", "edit/fix.go"], [("AppendToLoad, ReplaceLoad, InsertLoad", "edit/edit.go"), ("cleanUnusedLoads", "edit/fix.go")])
p("C33", "buildozer fix commands preserve what rules depend on",
  "Running any 'fix' (alone or in combination) leaves every rule with the same set of resolved labels in each label attribute and the same non-label attributes, except for the entries the named fix is documented to move, drop or normalise; running it again changes nothing.",
  ["inputs", "histories"], "all BUILD files and all fix names",
  "Each fix has a couple of examples.",
  ["edit/fix.go"], [("AllRuleFixes/AllFileFixes", "edit/fix.go")])
p("C34", "print reports the real attribute values in every output format",
  "For every rule and field, 'print' (and print_comment) reports the value present in the file, or (missing), with names and labels resolved as documented; proto and JSON output carry the same records as the text output, in target order, and printing never changes a file.",
  ["inputs", "configurations"], "all rules, attribute shapes and field lists",
  "Some fixed prints are compared literally.",
  ["edit/buildozer.go", "build/rule.go"], [("cmdPrint, printRecord", "edit/buildozer.go")])
p("C35", "Label parsing, formatting and shortening preserve identity",
  "For every label, formatting what was parsed gives a label that parses to the same repository, package and target; two spellings are equal exactly when they denote the same target; and shortening a label relative to a package gives a spelling that, read from that package, denotes the same target and is never longer.",
  ["inputs"], "all label strings and packages",
  "A table of some twenty labels is tested.",
  ["labels/labels.go"], [("Parse, ParseRelative, Format, FormatRelative, Equal, Shorten", "labels/labels.go")])
p("C36", "unused_deps reports exactly the declared deps that were not used",
  "For every java/kotlin/android rule and its compilation records, unused_deps suggests, for each element of the lists in the rule's deps (outside selects) that is a direct dependency in the Javac params file and that the jdeps record does not use explicitly, a buildozer command that removes it after one that adds what it exports, or, for an element with an end-of-line comment that mentions runtime, a command that moves it to runtime_deps; it suggests nothing else, nothing for rules whose records are missing or unreadable, and running the printed script does exactly that. The extra action mode writes exactly the unused direct dependencies.",
  ["inputs", "histories"], "all dependency records, params files and BUILD files",
  "Only the helper that reads a params file and one list filter are tested.",
  ["unused_deps/unused_deps.go", "unused_deps/jar_manifest.go", "deps_proto"], [("unusedDeps, directDepParams, depsOfTarget", "unused_deps/unused_deps.go")])
p("C37", "Jar manifests are read as the jar specification prescribes",
  "For every manifest, an attribute's value is found under its exact name in the main section with continuation lines joined, independent of other headers, line endings and where lines are split.",
  ["inputs"], "all manifests and jar files", "One jar is tested.",
  ["unused_deps/jar_manifest.go"], [("jarManifestValue", "unused_deps/jar_manifest.go")])
p("C38", "Custom tables replace or extend the built-in tables exactly",
  "Definitions loaded with -tables replace every built-in table and those loaded with -add_tables are merged into them key by key; formatting, sorting, label shortening and buildozer list handling afterwards follow the resulting tables, and invalid files are rejected with no partial update.",
  ["configurations", "inputs"], "all table files", "One table file is tested.",
  ["tables/jsonparser.go", "tables/tables.go", "build/rewrite.go"], [("ParseAndUpdateJSONDefinitions, OverrideTables, MergeTables", "tables")])
p("C39", "Name resolution follows Starlark scoping",
  "For every program, the scope analysis resolves an identifier to a parameter, local, comprehension or lambda variable, global, import or builtin exactly as the Starlark language does, and to the same binding for exactly the same uses.",
  ["programs"], "all nestings of functions, comprehensions, lambdas, assignments and loads",
  "Two small programs are tested.",
  ["bzlenv/bzlenv.go"], [("WalkOnceWithEnvironment, Environment", "bzlenv/bzlenv.go")])
p("C40", "Converted foreign syntax trees mean the same program",
  "Converting a tree produced by the reference Starlark parser gives a tree that prints as source denoting the same program as the original source.",
  ["programs"], "all Starlark programs the converter supports", "A few snippets are tested.",
  ["convertast/convert_ast.go"], [("ConvFile", "convertast/convert_ast.go")])
p("C41", "Library calls may run concurrently on different files",
  "Parsing, formatting, rewriting, traversing and linting different files from many goroutines, including input buffers that share memory, gives the same results as running them one after another and performs no unsynchronised access to shared memory.",
  ["schedules", "inputs"], "all interleavings of library calls on different inputs",
  "No test runs library calls concurrently or under a race detector.",
  ["build/lex.go", "build/print.go", "build/rewrite.go", "warn/warn.go"], [("no shared mutable state between calls", "build, warn")])
p("C42", "The workspace root and package of a path are determined correctly",
  "For every absolute path, the workspace root found is the nearest enclosing directory with a workspace boundary file, and the package and in-package name are split at the deepest directory of that workspace containing a build file (the root if there is none); results do not depend on the spelling of the path (trailing or doubled slashes, '.', '..').",
  ["inputs", "configurations"], "all directory layouts and paths", "One layout is tested.",
  ["wspace/workspace.go"], [("FindWorkspaceRoot, SplitFilePath", "wspace/workspace.go")])
p("C43", "The rule API finds and edits exactly the rules it is asked for",
  "For every file, Rules, RuleNamed and RuleAt find exactly the rules of the given kind, name (explicit or implicit) and line, the accessors of a rule report its kind, names and attribute values, and after any sequence of SetAttr, DelAttr, SetKind and DelRules, also through rules obtained before earlier edits, the file prints as exactly the edited one.",
  ["inputs", "histories"], "all files and sequences of edits", "Each function is tested on one or two files.",
  ["build/rule.go"], [("File.Rules, RuleNamed, RuleAt, DelRules, Rule", "build/rule.go")])
p("C44", "Formatting erases incidental spelling and puts arguments in canonical order",
  "Two files that differ only in blanks, blank lines where they carry no meaning, indentation width, quote characters, spellings of octal and float literals, trailing commas, redundant parentheses (BUILD-like files) or the order of arguments format to the same bytes. Arguments come out positional, named, *args, **kwargs; named arguments of calls in BUILD-like files by the documented priorities, then by name, except under a leave-alone comment.",
  ["inputs"], "all spellings of all programs", "Golden files fix one spelling each.",
  ["build/print.go", "build/rewrite.go", "tables/tables.go"], [("Rewrite passes and printer", "build")])
p("C45", "Style and convention warnings are reported exactly as documented",
  "For every file, each warning about style, naming, docstrings, positional or starred arguments, deprecated APIs, iteration over strings and depsets, visibility of loaded files, statements without effect and the like is reported once for each construct its documentation describes, at the line of that construct, in the file types it applies to, however the construct is nested, and for nothing that merely resembles it.",
  ["inputs"], "all files of all types", "Each warning is tested on a few snippets.",
  ["warn/warn_docstring.go", "warn/warn_cosmetic.go", "warn/warn_bazel_api.go", "warn/warn_control_flow.go", "warn/warn_naming.go", "warn/warn_visibility.go"], [("FileWarnings and the check functions", "warn")])
p("C46", "Rules that left Bazel are loaded from where they live now",
  "For every file and workspace, each use of a rule or symbol that moved out of Bazel, bare or through native, is reported in its category unless the name is bound to something else there; the message and the automatic fix name the file the rule lives in, in the repository's apparent name as the root module and its included files configure it; the fix adds exactly the missing loads ahead of the uses and changes nothing else.",
  ["inputs", "configurations"], "all files and root modules", "Each category is tested on one or two snippets.",
  ["warn/warn_bazel_api.go", "edit/bzlmod/bzlmod.go", "tables/tables.go"], [("notLoadedUsageCheck, getApparentRepoName, ExtractModuleToApparentNameMapping", "warn, edit/bzlmod")])
p("C47", "Buildozer's options change exactly what they document",
  "For every BUILD file, list of commands and combination of -shorten_labels, -delete_with_comments, -edit-variables, -eol-comments, -quiet, -stdout and -types: labels are shortened or kept, commented items deleted or kept, the assignment a rule's value comes from is edited instead of the rule, comments go to the end of the line or in front, nothing is printed or nothing is written, rules of other kinds are left alone; every attribute, variable and comment is as the commands under these options mean, and no option changes anything else.",
  ["inputs", "configurations"], "all files, commands and combinations of options", "Most options are tested with one value on one file, never together.",
  ["buildozer/main.go", "edit/buildozer.go", "edit/edit.go"], [("Buildozer, rewrite, getGlobalVariables, cmdMove, ListDelete", "edit")])
p("C48", "Control-flow and unused-name findings are complete and exact",
  "For every file, unreachable marks exactly the first statement of each block that follows a return, break, continue, fail() or an if all of whose branches end; return-value exactly the bare returns and the unreturned end of functions that return values elsewhere; uninitialized exactly the reads of local variables some path has not assigned; unused-variable and load exactly the bound and loaded names nothing reads, unless documented prefixes or @unused comments keep them. Each is reported once, at its place, and fixing load keeps the other loads.",
  ["inputs"], "all programs: branches, loops, nested scopes, comprehensions, defaults, comments",
  "Each warning is tested on a few functions; C21 judges soundness by execution, not completeness.",
  ["warn/warn_control_flow.go", "edit/edit.go", "bzlenv/bzlenv.go"], [("findUnreachableStatements, findUninitializedVariables, unusedVariableCheck, unusedLoadWarning", "warn/warn_control_flow.go")])
p("C49", "Line breaks and blank lines follow the layout rules exactly",
  "For every file of every type, the formatted text is the one the layout rules prescribe: between statements a blank line or none, by kind of statement, nesting, comments, distance in the source and, in MODULE.bazel, by what the directives refer to; inside brackets, one line or one element per line, by bracket kind, number and form of elements, comments and where the source breaks; comments at their statement or element, at the margin of their block or two spaces after the line; loads on top of files that are not WORKSPACE; indentation by four.",
  ["inputs", "configurations"], "all programs, line breaks, blank lines, comments and file types",
  "Golden files hold a few hundred combinations; the rules interact (kinds, gaps, comments, nesting, neighbours).",
  ["build/print.go", "build/lex.go", "build/rewrite.go"], [("compactStmt, useCompactMode, useSameModuleExtensionProxy, statements, seq, assignComments, reorganizeLoads/load-on-top", "build")])
p("C50", "No file that parses makes a tool crash, hang or write broken code",
  "For every file the parser accepts, however nonsensical its calls and values are to the tools, formatting, all warnings with their suggestions and automatic fixes, buildozer's fixes and every buildozer command end in reasonable time with a result or a reported error, never with a panic; what formatting and fixes produce parses again.",
  ["inputs"], "all files the grammar admits, of all types, and all buildozer commands", "Tests hand the tools well-formed rules; the tools index and assert on arguments any file may lack.",
  ["build", "warn", "edit", "buildozer/main.go"], [("Format, FileWarnings, FixWarnings, FixFile, Buildozer", "build, warn, edit")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
