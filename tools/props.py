SAMPLES = "Unit tests compare a few dozen hand-written inputs with golden outputs; the claim quantifies over every input, and the interesting ones (escapes, blank/comment placement, odd nesting, name coincidences) are combinations no golden file lists."

prop("F01", "Formatting is idempotent",
 "For every file that parses, under every file type, formatting the formatter's own output yields exactly the same bytes. A second run of the formatter never finds anything left to change.",
 ["inputs"], "every accepted source text and every file type (BUILD, WORKSPACE, MODULE.bazel, .bzl, generic)",
 SAMPLES, ["build/print.go", "build/rewrite.go", "build/lex.go", "build/parse.y"],
 [("printer", "build/print.go"), ("rewrites run before printing", "build/rewrite.go Rewrite")], ["bytes returned by formatting; buildifier -mode=check exit status after -mode=fix"])

prop("F02", "Formatting preserves program meaning",
 "For every file that parses, the formatted output parses again and denotes the same program: the same statements and expressions with the same operators, grouping, identifiers, string values and numbers, with the same positional argument order and the same value bound to each keyword argument, parameter and dictionary key. The only differences allowed are the documented normalisations (layout, quote style, trailing commas, redundant parentheses, keyword-argument order, order and duplicates in lists the tables declare sortable, label shortening, load grouping/sorting, docstring indentation, numeric spelling).",
 ["inputs"], "every accepted source text and every file type",
 SAMPLES, ["build/print.go", "build/rewrite.go", "build/parse.y", "build/lex.go"],
 [("printer parenthesisation and layout", "build/print.go"), ("rewrites", "build/rewrite.go")], ["abstract program read back from the formatted text"])

prop("F03", "Formatting never loses or invents comments",
 "For every file that parses, every comment of the input appears in the formatted output with its text unchanged (apart from surrounding blanks), as often as it appeared in the input, and no other comment appears. This holds for whole-line, end-of-line, and closing-bracket comments, wherever the formatter moves, merges or reorders code; the only exception is the documented dropping of end-of-line comments on a duplicate list element that is itself removed.",
 ["inputs"], "every accepted source text with comments in any position, every file type",
 SAMPLES, ["build/lex.go", "build/print.go", "build/rewrite.go"],
 [("comment assignment", "build/lex.go assignComments"), ("comment printing", "build/print.go"), ("comment transfer in rewrites", "build/rewrite.go")], ["multiset of comment texts in input and output"])

prop("F04", "Parsing is total: a tree or a located error, never a crash",
 "For every byte string and every file type, parsing terminates and returns either a tree or an error whose position lies inside the input; it never panics and never reports an internal error. A successfully parsed tree can always be printed.",
 ["inputs"], "every byte string, every file type",
 "Tests feed valid files and a handful of broken ones; totality is about all byte strings, including truncated escapes, unbalanced brackets and stray indentation.",
 ["build/lex.go", "build/parse.y", "build/parse.y.go", "build/quote.go"],
 [("lexer", "build/lex.go Lex"), ("parser actions", "build/parse.y"), ("recover in parse", "build/lex.go parse")], ["result of Parse/ParseBuild/ParseBzl/... on raw bytes"])

prop("F05", "Tree positions describe the source text",
 "In every parsed tree, each node's start does not come after its end, both lie inside the file, line/column/byte agree with the text, a child's span lies inside its parent's and siblings are in source order. For leaf nodes (identifiers, literals, strings) the text between start and end is exactly the token.",
 ["inputs"], "every accepted source text",
 "position tests check a few literal trees; warnings, line-based target selection (%LINE) and comment attachment depend on positions of every node of every file.",
 ["build/syntax.go", "build/lex.go", "build/parse.y"],
 [("Span methods", "build/syntax.go"), ("position tracking", "build/lex.go readRune")], ["Span() of every node against the text"])

prop("F06", "String values survive quoting, unquoting and formatting",
 "Writing any string value as a literal and reading it back gives the same value, in single-line and in triple-quoted form; and for every string literal the parser accepts (raw, single-, double- or triple-quoted, with any escapes) the formatted literal denotes the same value. Reading a literal decodes exactly the documented escape sequences.",
 ["inputs"], "every string value and every literal token, at any position",
 "quote tests list about fifty literals; escapes interact with quote kind, neighbours and raw prefixes byte by byte.",
 ["build/quote.go", "build/print.go", "build/lex.go"],
 [("Unquote", "build/quote.go"), ("quote", "build/quote.go"), ("literal printing", "build/print.go")], ["value of the literal before and after formatting"])

prop("F07", "Printing a constructed tree preserves its grouping",
 "For every expression tree built or edited by a tool out of operators, unary operators, attribute access, calls, indexing, conditionals and lambdas, the printed text parses back to an equivalent tree: parentheses are added wherever precedence would otherwise regroup it.",
 ["programs"], "every expression tree over the language's operators, whether or not it came from the parser",
 "print tests only print trees the parser produced, where the source parentheses are still present; edited trees are sampled by two or three cases.",
 ["build/print.go", "build/parse.y"],
 [("precedence-driven parentheses", "build/print.go expr")], ["parse(print(tree)) compared with tree"])

prop("F08", "Sorting a string list is a safe, canonical permutation",
 "Where the formatter sorts a list of strings, the result contains the same distinct strings, in the documented order (plain, ':', '//', '@'; then by '.'/':'-separated components, then by value), with each non-string element and each comment-introduced block staying in place relative to its neighbours and each element keeping its own comments; the order does not depend on the original order of the elements. Lists opted out with 'do not sort' or in attributes not declared sortable are not reordered.",
 ["inputs"], "every list of strings and non-strings, with and without comments and opt-outs",
 "golden files sort a few lists; ordering must be a strict weak order and stable for every pair and triple of strings.",
 ["build/rewrite.go", "tables/tables.go"],
 [("SortStringList, byStringExpr", "build/rewrite.go"), ("sortable attribute tables", "tables/tables.go")], ["list elements after formatting"])

prop("F09", "Load statements keep every binding",
 "Moving, merging, sorting and de-duplicating load statements leaves the file with the same set of loaded names: every local name is bound to the same module and symbol as before, nothing is bound that was not, and statements other than loads keep their relative order. In WORKSPACE files a load is not moved across other statements, except to join an earlier load of the same file.",
 ["inputs"], "every file with any number of load statements in any order, with aliases, duplicates and comments",
 SAMPLES, ["build/rewrite.go"],
 [("loadTop, sameOriginLoad, sortLoadStatements, loadsort", "build/rewrite.go")], ["local name -> (module, symbol) map of the formatted file"])

prop("F10", "Call arguments keep their bindings and get a canonical order",
 "Formatting a call keeps every argument: the values passed positionally stay in the same order, each keyword keeps its value, and the arguments end up grouped as positional, keyword, '*' and '**' ones; in BUILD-like files the keyword arguments of calls without star arguments end up ordered by the documented priority then name, independently of the order they were written in. Calls marked 'leave-alone' keep the order of their keyword arguments.",
 ["inputs"], "every call with any mix of positional, keyword, *args and **kwargs arguments",
 SAMPLES, ["build/rewrite.go", "tables/tables.go"],
 [("callsort", "build/rewrite.go sortCallArgs"), ("reorderarguments", "build/rewrite.go reorderArguments"), ("NamePriority", "tables/tables.go")], ["argument list of the formatted call"])

prop("F11", "Number literals keep their value",
 "The formatter's respelling of numbers (octal prefix, leading zero of a fraction, exponent case and zeros) never changes the value of a literal and never produces an invalid literal, for every integer and floating-point literal.",
 ["inputs"], "every numeric literal token",
 "golden files show four or five numbers; the rewriting is string surgery on arbitrary digit strings.",
 ["build/rewrite.go", "build/parse.y", "build/lex.go"],
 [("editOctals, editFloats", "build/rewrite.go")], ["numeric literal in the formatted output"])

prop("F12", "File type follows the documented naming rules",
 "For every file name, the automatic choice of file type follows the documented rules: BUILD, WORKSPACE, MODULE.bazel and .bzl names, with their optional prefixes/suffixes (.bazel, .oss, .MODULE.bazel and so on), case-insensitively and regardless of directory; anything else is a generic Starlark file.",
 ["inputs"], "every path",
 "a table test lists a few names; the rule combines suffix stripping, extension and prefix tests.",
 ["build/lex.go", "buildifier/utils/utils.go"],
 [("file type detection", "build/lex.go getFileType")], ["Type of the parsed file"])

prop("F13", "Tree traversal and copying are faithful",
 "Traversing a tree visits every node exactly once, parents before children and in source order, with the right ancestor stack; editing with the identity function changes nothing, and an edit function that replaces nodes replaces exactly those nodes. A copied node equals its original and shares no node-level fields with it.",
 ["programs"], "every parsed tree",
 "walk tests check one small file; every rewrite, lint check and edit command relies on every node kind being traversed.",
 ["build/walk.go", "build/syntax.go"],
 [("WalkOnce/Walk/Edit", "build/walk.go"), ("Copy methods", "build/syntax.go")], ["sequence of visited nodes"])

prop("L01", "Labels parse, format and compare consistently",
 "Formatting a parsed absolute label and parsing it again gives the same label; shortening a label relative to a package never changes what it refers to; label equality is reflexive, symmetric and transitive, agrees with comparing the parsed labels, and treats the short and long spellings of a label as equal. None of these operations fails on any string.",
 ["inputs"], "every string and every package name",
 "the label tests are a table of about thirty strings; edits of dependency lists rely on label equality for all of them.",
 ["labels/labels.go"], [("Parse, Format, FormatRelative, Shorten, Equal", "labels/labels.go")], ["labels API results"])

prop("L02", "Label rewriting in formatted files never retargets a label",
 "When the formatter joins or shortens labels in label attributes, the label written out refers to the same repository, package and target as the one read, and strings that are not such labels, or sit in attributes that do not hold labels, are left untouched.",
 ["inputs"], "every string in a label attribute and every attribute name",
 SAMPLES, ["build/rewrite.go", "tables/tables.go"], [("fixLabels", "build/rewrite.go")], ["string values in the formatted file"])

prop("Z01", "Adding a value makes it present exactly once and disturbs nothing",
 "After adding a value to a list attribute, the value (up to label spelling) is present; if it was already there the list is unchanged; every other value and every other attribute stays as it was, in order. Adding the same value twice is the same as adding it once.",
 ["inputs", "histories"], "every attribute value (absent, list, concatenation, select), every value and package",
 "buildozer tests run fixed commands on fixed files; the guarantee covers any list contents and label spellings.",
 ["edit/edit.go", "edit/buildozer.go"], [("AddValueToList", "edit/edit.go"), ("cmdAdd", "edit/buildozer.go")], ["attribute values after the command"])

prop("Z02", "Removing values removes exactly those values",
 "After removing values from a list attribute (or from all attributes), no list or select branch of the attribute contains a value equal to them up to label spelling, every other value stays in order, an attribute whose list becomes empty disappears, and a command that matches nothing leaves the file unchanged.",
 ["inputs"], "every attribute value and every value to remove",
 "fixed examples only; see Z01.",
 ["edit/edit.go", "edit/buildozer.go"], [("ListDelete", "edit/edit.go"), ("cmdRemove", "edit/buildozer.go")], ["attribute values after the command"])

prop("Z03", "Replace and substitute touch exactly the matching values",
 "The replace command changes exactly the list elements equal to the old value (up to label spelling) to the new value and the substitute command changes exactly the strings matching the pattern according to the template; all other values, the number and order of values and attached comments stay as they were.",
 ["inputs"], "every list, old/new value and pattern",
 "fixed examples only; see Z01.",
 ["edit/edit.go", "edit/buildozer.go"], [("ListReplace, ListSubstitute, stringSubstitute", "edit/edit.go")], ["attribute values after the command"])

prop("Z04", "Set, set_if_absent, rename, copy and move behave like map updates",
 "Seen as a map from attribute names to values, a rule after set/set_if_absent/rename/copy/copy_no_overwrite/move/remove holds exactly what that map operation says: the named attribute gets the given value (or keeps the old one), values moved or copied arrive unchanged and at most once, and no other attribute changes. What was set can be read back with print.",
 ["inputs", "histories"], "every rule with attributes in any order and every short command sequence",
 "fixed examples only, one command at a time.",
 ["edit/buildozer.go", "edit/edit.go", "build/rule.go"], [("cmdSet, cmdRename, cmdCopy, cmdMove", "edit/buildozer.go"), ("SetAttr/DelAttr", "build/rule.go")], ["attributes after the command"])

prop("Z05", "Dictionary commands behave like map updates",
 "dict_add, dict_set, dict_remove, dict_replace_if_equal and dict_list_add change exactly the entries they name, as the corresponding map operation would: add never overwrites, set overwrites, remove deletes only the named keys, and entries with other keys (including keys that are not string literals) keep their values and order.",
 ["inputs", "histories"], "every dictionary attribute, key and value, and short command sequences",
 "fixed examples only.",
 ["edit/edit.go", "edit/buildozer.go"], [("DictionarySet/Get/Delete", "edit/edit.go"), ("cmdDict*", "edit/buildozer.go")], ["dictionary attribute after the command"])

prop("Z06", "Edit commands affect exactly the selected rules",
 "A target pattern selects exactly the rules it names: by name, by kind, by line, all rules, or the package pseudo-target; a command then changes those rules and no other statement of the file. Deleting a rule removes only that rule and creating one adds exactly one rule and refuses an existing name.",
 ["inputs"], "every file and target pattern",
 "fixed examples only.",
 ["edit/buildozer.go", "edit/edit.go", "build/rule.go"], [("expandTargets", "edit/buildozer.go"), ("FindRuleByName, DeleteRule", "edit/edit.go"), ("Rules, RuleAt", "build/rule.go")], ["statements of the file after the command"])

prop("Z07", "Command text is split as documented",
 "Commands split into words at unescaped blanks and line breaks only, with the escapes removed and nothing else altered; a command-file line splits at unescaped '|' only; empty and comment lines are ignored, and '*' stands for the command-line targets. Joining escaped words and splitting again gives the words back.",
 ["inputs"], "every command string and command-file line",
 "a table of about ten strings.",
 ["edit/buildozer.go"], [("SplitOnSpaces", "edit/buildozer.go"), ("appendCommandsFromReader", "edit/buildozer.go")], ["commands and targets executed"])

prop("Z08", "Buildozer writes a file exactly when its content changes and reports it",
 "Running commands writes a file if and only if the formatted result differs from what was read and no command failed fatally, writes each file at most once with all its commands applied in order, never writes for print commands, and exits with the documented code (0 changed or read-only, 2 failure, 3 nothing changed).",
 ["inputs", "configurations", "schedules"], "every set of files, commands, options and worker interleavings",
 "end-to-end tests cover single files and single outcomes.",
 ["edit/buildozer.go"], [("rewrite", "edit/buildozer.go"), ("Buildozer", "edit/buildozer.go")], ["file writes, exit code, output"])

prop("Z09", "Load editing commands bind exactly the requested symbols",
 "After new_load or replace_load, every requested name is loaded from the requested module under the requested local name exactly once, and (for replace_load) no longer from anywhere else; all other loaded names keep their binding, the other statements stay as they are and a docstring stays at the top of the file. The unused-load fix removes a name only if the file does not use it.",
 ["inputs"], "every set of existing loads, requested symbols and aliases",
 "fixed examples only.",
 ["edit/edit.go", "edit/fix.go", "build/rewrite.go"], [("InsertLoad, ReplaceLoad, AppendToLoad", "edit/edit.go"), ("cleanUnusedLoads", "edit/fix.go")], ["local name -> (module, symbol) map after the command"])

prop("Z10", "use_repo commands import exactly the requested repositories",
 "After use_repo_add every requested repository of the extension is imported exactly once, after use_repo_remove none of them is; imports of other repositories and other extensions are unchanged. Proxies of an extension are matched up to label spelling and by dev-dependency mode, ignoring isolated usages.",
 ["inputs"], "every MODULE.bazel with any number of usages of any extensions",
 "fixed examples only.",
 ["edit/bzlmod/bzlmod.go", "edit/buildozer.go"], [("Proxies, AddRepoUsages, RemoveRepoUsages", "edit/bzlmod/bzlmod.go")], ["use_repo calls after the command"])

prop("Z11", "Comment commands change only the comment they name",
 "After the comment command the named rule, attribute or list value (selects included) carries the given comment, above it or, for one-line comments on attributes and values when end-of-line comments are preferred, at the end of its line; print_comment gives its text back and changes nothing; after remove_comment it has no comment. The code and the comments of all other places stay as they were.",
 ["inputs"], "every rule with comments at any places, every comment text and either placement",
 "Tests attach comments to rules without other comments; a comment that moves to a neighbour when the file is read again only shows with several.",
 ["edit/buildozer.go", "edit/edit.go"],
 [("cmdComment, cmdPrintComment, cmdRemoveComment", "edit/buildozer.go"), ("listOrSelectFind", "edit/edit.go")], ["comments of each place in the file read back, output of print_comment"])

prop("W01", "Linting in warn mode only reads, and reports sensibly",
 "For every parsable file and every set of enabled checks, linting in warn mode terminates without crashing, leaves the tree (as printed) unchanged, reports only enabled categories, sorted by line, with every position inside the file, and gives the same findings in the same order when run again (the iteration order of maps never matters).",
 ["inputs", "configurations"], "every parsable file and every set of enabled warnings",
 "warning tests run one check on one snippet each.",
 ["warn/warn.go", "warn/warn_bazel.go", "warn/warn_control_flow.go"], [("FileWarnings", "warn/warn.go"), ("all checks", "warn/")], ["findings and the tree after linting"])

prop("W02", "Disabling comments silence exactly the named warning",
 "A 'buildifier: disable=<warning>' comment on a statement suppresses the findings of that category on the lines of the commented node and nothing else: findings of other categories and on other statements are reported as if the comment were an ordinary one.",
 ["inputs"], "every placement of a disabling comment and every category name",
 "a few placements are tested.",
 ["warn/warn.go", "edit/edit.go"], [("DisabledWarning, HasDisablingComment", "warn/warn.go")], ["findings with and without the comment"])

prop("W03", "Automatic fixes converge and keep the file valid",
 "For every parsable file, after the automatic fixes have been applied the file still parses after printing, no finding marked fixable that was fixed is reported again for the category, and applying the fixes a second time changes nothing.",
 ["inputs", "configurations"], "every parsable file and every fixable category",
 "fix tests compare one before/after pair per case and never re-run the linter on the result.",
 ["warn/warn.go", "warn/warn_cosmetic.go", "warn/warn_bazel_api.go"], [("FixWarnings", "warn/warn.go"), ("replacements of each check", "warn/")], ["file after FixWarnings; findings of a second run"])

prop("W04", "A suggested replacement reproduces the fix exactly",
 "In suggest mode, replacing the reported byte range of the formatted file by the reported text gives exactly the file with that fix applied, the range lies within the file, and after linting the tree is what it was before.",
 ["inputs"], "every parsable file with fixable findings; every pair of old and new contents",
 "the difference calculation is tested on a handful of pairs, where overlapping prefixes and suffixes matter.",
 ["warn/warn.go"], [("calculateDifference, formatWithFix", "warn/warn.go")], ["Finding.Replacement applied to the formatted file"])

prop("W05", "Control-flow checks agree with the execution paths of the code",
 "For every function body built from assignments, returns, fail, loops and branches: the unreachable check reports a statement only if no execution path reaches it, the missing-return check reports a function without unreachable statements exactly when some paths return a value and another path ends without one, and the uninitialised check reports a use of a local variable exactly when some path reaches it without an assignment.",
 ["programs"], "every nesting of the control-flow statements",
 "each check is tested on hand-picked shapes; its correctness is a statement about all paths of all programs.",
 ["warn/warn_control_flow.go"], [("missingReturnValueWarning, unreachableStatementWarning, uninitializedVariableWarning", "warn/warn_control_flow.go")], ["findings compared with path semantics"])

prop("W06", "Unused-symbol checks never condemn a used symbol",
 "A load or variable reported as unused is not referenced anywhere in its scope, and an unreferenced one without an opt-out is reported; removing what the check reports as unused never leaves a dangling reference.",
 ["programs"], "every file with loads, assignments, functions, comprehensions and nested scopes",
 "hand-picked snippets only.",
 ["warn/warn_control_flow.go", "edit/edit.go", "bzlenv/bzlenv.go"], [("unusedVariableWarning, unusedLoadWarning", "warn/warn_control_flow.go"), ("UsedSymbols", "edit/edit.go")], ["findings and the fixed file"])

prop("W07", "Loads added by fixes use the repository names of MODULE.bazel",
 "A module is known under the repo_name its bazel_dep (or module) gives it in MODULE.bazel or any file included from it, directly or not, and under its own name otherwise; findings about missing loads and the load statements fixes add use that name (the WORKSPACE name if the module is not a dependency), whichever files of other workspaces were processed before. Only included files are read and include cycles end.",
 ["inputs", "configurations"], "every graph of included files and every combination of names",
 "a few fixed MODULE.bazel files.",
 ["edit/bzlmod/bzlmod.go", "warn/warn_bazel_api.go", "warn/multifile.go"], [("ExtractModuleToApparentNameMapping", "edit/bzlmod/bzlmod.go"), ("useApparentRepoNameIfExternal", "warn/warn_bazel_api.go")], ["findings and added load statements"])

prop("I01", "Buildifier's modes write only what they promise and exit as documented",
 "For every file content and mode: check, diff, print_if_changed and lint=warn never modify a file; fix writes a file exactly when formatting changes it, with the formatted content; the exit code is the documented one (0 ok, 1 syntax error, 3 I/O error, 4 check or lint findings), and one bad file does not stop the others from being processed.",
 ["inputs", "configurations", "fault_sequences"], "every list of files, contents, modes and read/write failures",
 "one integration script with a handful of files.",
 ["buildifier/buildifier.go", "buildifier/utils/utils.go", "buildifier/utils/diagnostics.go"], [("run, processFiles, processFile", "buildifier/buildifier.go")], ["files, stdout and exit status after a run"])

prop("I02", "Configuration is validated and warning lists are computed as documented",
 "Every combination of mode, lint, format, type, -d and warnings settings is either accepted with its documented meaning or rejected; '+x'/'-x' modifiers applied to the default warnings give the defaults plus and minus exactly the named ones, and an unmodified list selects exactly the listed warnings, each once and in a fixed order. A setting in a configuration file has the effect of the flag of that name, and a flag overrides it.",
 ["configurations", "inputs"], "every combination of flag values and every warnings string",
 "a table of combinations is tested; the product is larger.",
 ["buildifier/config/config.go", "buildifier/config/validation.go"], [("ValidateModes, ValidateFormat, ValidateWarnings", "buildifier/config/validation.go")], ["result of Config.Validate"])

prop("I03", "Diagnostics output reports the findings and overall success",
 "The diagnostics of a run contain, in order, one entry for each file that can be read, with all its findings in order; overall success is true exactly when every file can be read, is formatted, valid and free of findings; text output has one line per finding and per unformatted file.",
 ["inputs", "configurations"], "every list of files, findings and formats",
 "one example per format.",
 ["buildifier/utils/diagnostics.go"], [("NewDiagnostics, Format", "buildifier/utils/diagnostics.go")], ["Diagnostics value and text"])

prop("O01", "Workspace discovery splits every path consistently",
 "For every path, the workspace root found is the nearest enclosing directory with a workspace marker file, and root, package and label joined together give the path back; the package is the nearest enclosing directory inside the workspace with a BUILD file, or the workspace root.",
 ["inputs", "configurations"], "every path and every placement of marker files",
 "a few layouts in temporary directories.",
 ["wspace/workspace.go"], [("FindWorkspaceRoot, SplitFilePath, Find", "wspace/workspace.go")], ["wspace API results over a file system"])

prop("O02", "Table definitions merge or override as requested",
 "Loading custom table definitions with merge keeps every built-in entry not mentioned and adds or replaces exactly the mentioned ones; loading them with override leaves exactly the given entries.",
 ["configurations", "inputs"], "every set of definitions",
 "one JSON file is tested.",
 ["tables/tables.go", "tables/jsonparser.go"], [("OverrideTables, MergeTables", "tables/tables.go")], ["table contents after loading"])

prop("O03", "Scopes resolve names to the innermost definition",
 "Walking a file with the environment, at every identifier the environment resolves each name to its innermost enclosing definition: parameters and local variables hide globals inside functions, comprehension variables are visible only inside the comprehension, and leaving a block restores the outer definitions.",
 ["programs"], "every nesting of functions, comprehensions and assignments",
 "two example files.",
 ["bzlenv/bzlenv.go"], [("WalkOnceWithEnvironment, Get", "bzlenv/bzlenv.go")], ["Environment.Get at each node"])

prop("O04", "Converting the Starlark interpreter's tree gives the same program",
 "Converting a file parsed by the Starlark interpreter's own parser yields a tree that prints to the same program as buildtools' own parser gives for that text.",
 ["programs"], "every program both parsers accept",
 "a few golden snippets.",
 ["convertast/convert_ast.go"], [("ConvFile", "convertast/convert_ast.go")], ["printed form of the converted tree"])
