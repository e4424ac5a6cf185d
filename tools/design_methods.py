# How each property is decided: (harness entry points are taken from checks.json) oracle, and why this reaches what the tests cannot.
M = {
"F01": "Generates the source text symbolically, formats it with `build.Format` as the given file type, parses and formats the output again, and asserts that the two byte strings are equal. No oracle is needed beyond the formatter itself.",
"F02": "Parses the text, canonicalises the tree (harness/ast/canon.go: an own definition of the meaning of a program, independent of build/, that drops only the documented normalisations), formats it, parses the output, canonicalises again and asserts equality of the two canonical strings. String values are decoded by the harness itself.",
"F03": "Collects the comment texts of the input with a lexer of the harness' own, and of the formatted output, and asserts that the multisets are equal, except for the suffix comments of removed duplicates (recomputed by harness/ast/dups.go).",
"F04": "Runs the parsers on arbitrary bytes and templates: any panic, step-bound overrun, 'internal error', or error position outside the input is a violation. An accepted tree is printed.",
"F05": "Walks the parsed tree with a traversal of the harness' own and asserts start<=end, inside the file, line/column/byte consistency (recomputed from the text), nesting, order of siblings, and leaf text equality.",
"F06": "Value: quotes an arbitrary value (both forms) and compares `Unquote` and a re-parse with it. Literal/Escapes: compares `Unquote` and the formatted literal with a decoder of the harness' own written from the documented escape table.",
"F07": "Builds trees bottom-up from node constructors (never from text), prints them inside several statements, parses the text and compares the canonical form of the re-read tree with that of the built one.",
"F08": "Predicts the sorted order and the duplicates with an own comparison written from the documentation, chunked at comments and non-strings, and compares; formats a permutation of the same list and asserts the same result; checks the lists that must not be sorted stay as they were.",
"F09": "Reads the binding map local name -> (module, symbol) off the statements generated (not off the tree) and compares it with the one of the formatted output; the order of the other statements likewise.",
"F10": "Reads positional values, keyword bindings and star arguments off the generated call and compares them with the formatted call; predicts the keyword order from the priority table; formats a permutation and asserts the same text; ManyArgs covers calls long enough for the unstable sorting algorithms.",
"F11": "Every literal over the alphabet that the parser accepts is formatted; the value of the formatted literal (computed by the harness with exact integers, floats as mantissa and exponent) must be that of the source literal.",
"F12": "A classifier of the harness' own, written from the documented naming rules, is compared with `build.getFileType` (through Parse) for each name.",
"F13": "A traversal of the harness' own that lists the children of each node type is compared with Walk, WalkPointers, WalkStatements, Edit and EditChildren (visit order, stack, effect of nil, replacement); copies are compared field by field and by identity.",
"L01": "Own parser and printer of labels on symbolic components, compared with ParseLabel/Format/ParseRelative/LabelsEqual/ShortenLabel; equivalence laws are asserted on triples.",
"L02": "Generates the label's parts, writes it whole or as a sum, formats, and parses what is written out: it must denote the same target (own resolution).",
"Z01": "A model of attributes (harness/hedit/model.go: lists with spans of values, each value with its canonical label) predicts the values after add; the command runs on the parsed file and the result is read back with the model's own reader.",
"Z02": "The same model for remove: the expected sequence of values of each list and branch, and whether the attribute exists at all; a command that matches nothing leaves the text as it was.",
"Z03": "The same model for replace and substitute, comments included.",
"Z04": "The rule is seen as a map from attribute names to values (text of the formatted values); the expected map after each command is computed by the harness, compared with that of the edited file, other attributes included.",
"Z05": "The dictionary is seen as a sequence of (key, value, comments); the sequence after each dict_ command is computed by the harness and compared.",
"Z06": "Whole buildozer runs over a modelled file system; an own resolution of the target says which statements are selected; every other statement must be unchanged, the selected ones changed as the command says.",
"Z07": "An own splitter, written from the documentation, is compared with SplitOnSpaces and with what a whole run with a command file does to the files.",
"Z08": "Whole runs over the modelled file system: which files are written, how often and with what, what is printed and the exit code are predicted from the contents and commands and compared, over every interleaving of the two workers (the engine explores schedules of goroutines, channels and locks).",
"Z09": "Reads bindings off the generated loads; the expected bindings after new_load / replace_load / substitute_load / fix unusedLoads are computed by the harness and compared with those of the file written.",
"Z10": "The usages, their labels, flags and imports are generated; the expected imports per usage after use_repo_add / use_repo_remove are computed by the harness (an own matching of extension labels) and compared.",
"Z11": "The comments of each place of the file before and after (read with the parser) are compared: those of other places as sequences, the new one at its place; the code without comments must be the same; print_comment's output is compared with the text.",
"W01": "Runs the linter in warn mode: tree text unchanged, categories enabled, order by line, positions inside the file, same result on a second run, under every iteration order of small maps, and when each category runs alone.",
"W02": "Lints the file with and without the disabling comment (replaced by an ordinary one of the same length) and compares the findings: exactly those of the named category inside the node's lines disappear.",
"W03": "Fixes, prints, parses; lints again (no fixed finding of the category is left) and fixes again (nothing changes).",
"W04": "Applies the replacement of each finding to the formatted text and compares it with the file fixed for that category; the tree printed before and after is the same.",
"W05": "An own interpreter of control flow (harness/hwarn/flow.go) enumerates the execution paths of the generated function symbolically and computes reachable statements, ways to end and variables possibly unassigned; compared with the findings.",
"W06": "An own resolution of names of the generated file says which symbols are referenced; compared with the findings of unused-variable and load; after the fix no reference dangles.",
"W07": "An own traversal of the generated graph of module files gives the name of every module; compared with the mapping the library returns and with the load a fix adds, after a file of another workspace has been processed.",
"I01": "Whole runs of buildifier over the modelled file system; writes, outputs and exit code are predicted from the contents (formatted and linted by the library in the harness) and compared, with write faults and every interleaving of reader and processor.",
"I02": "Validation of the option combinations against a table written from the documentation; warning lists against set operations; whole runs with a configuration file against runs with the same settings as flags.",
"I03": "Diagnostics of generated findings: the text and JSON outputs are decoded by the harness and compared with what was put in; whole runs with -format=json likewise.",
"O01": "A modelled file system with symbolic markers; an own search upwards is compared with FindWorkspaceRoot and SplitFilePath.",
"O02": "The tables are seen as maps; the expected maps after each file of definitions are computed by the harness and compared.",
"O03": "An own resolution of names (innermost definition) is compared with the environment handed to the callback at each identifier.",
"O04": "Parses with go.starlark.net's parser, converts, prints, parses with buildtools' parser, and compares canonical forms with that of parsing the text directly.",
}
