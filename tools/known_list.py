open_("F01", "comment-in-joined-label", "a comment line between the two halves of a label written as a sum in an argument outside a list (`visibility = \"//x\" <newline># c<newline> + \":x\"`): the comment ends up after the = and is only indented on the second pass; the two outputs differ in blanks and line breaks only")
open_("F01", "blank-line-after-one-line-suite", "a compound statement written on one line (`def f(): return 1`) followed by a comment line: the blank line before the comment only appears on the second pass; the two outputs differ in blank lines only")
open_("F01", "parens-around-call-of-multiline-callee", "parentheses around a call whose callee spans several lines, `z = (foo(<newline>)(a))`: the first pass keeps them and joins the lines, so the second pass removes them; the two outputs differ in parentheses and blanks only")
open_("F01", "comment-in-comprehension-header", "comments before the loop variables of a comprehension (`for # c`): the second pass lays them out differently; the two outputs differ in blanks and line breaks only")
open_("F01", "comment-in-index-brackets", "comments next to index or slice brackets (`a[b # c<newline>][ # d<newline>1:2]`): the second pass moves line breaks; the two outputs differ in blanks and line breaks only")
open_("F01", "comments-in-lambda-header", "line breaks and comments inside the header of a lambda: two end-of-line comments end up on the statement and the second pass adds a blank line; the two outputs differ in blank lines only")
open_("F13", "type-annotations-not-visited", "Walk, Edit and the other traversals don't visit type annotations: the children of TypedIdent and DefStmt.Type")
fixed('F11', '1b84678', "don't turn floats with leading zeros into octal literals")
fixed('F11', 'f556691', 'keep the exponent of a float when it is zero')
fixed('F02', 'fedf67d', "don't print a trailing comma after a tuple without brackets")
fixed('F03', '82a5a81', "keep a comment between a key and its value apart from the key's own")
fixed('F03', '76745ce', 'keep the comments of load statements that get merged')
fixed('F03', 'b42460a', 'print a multi-line load if a comment is inside a renamed symbol')
fixed('F03', 'c78ae7b', 'keep the comments of a duplicate at the end of a list')
fixed('L02', 'fd111e6', "don't shorten strings with several colons as labels")
fixed('F01', '5388e93', 'indent all end-of-line comments of the last element')
fixed('F03', '6bcf0f0', 'print comments at the end of the file on lines of their own')
fixed('F01', '9bc1048', "don't print an extra blank line before comments moved out of brackets")
fixed('F13', '06a8274', 'keep edits of dictionary entries and comprehension clauses')
fixed('F05', '6bdba7d', 'correct the positions of files and of a bare asterisk')
fixed('F01', 'a91926c', 'print comments pending before an empty list on lines of their own')
fixed('L02', 'e92dad7', "don't shorten a string that is only a part of a label")
fixed('F01', '5cc8ecc', 'join all parts of a label at once')
fixed('F06', 'bbffc2a', 'reject signs in the digits of escape sequences')
fixed('F06', '08093bd', "don't crash on a backslash before a non-Latin-1 character")
fixed('O04', '7b8a3de', 'parse chained conditional expressions right to left')
fixed('F07', '34c6f1e', 'print parentheses around conditional expressions where they are needed')
fixed('O04', 'e949eb4', 'parse not with its precedence below comparisons')
fixed('F07', '8b99f5d', 'print parentheses around conditional expressions in comprehension clauses')
fixed('F01', '20cd5d5', 'group the arguments of a call before sorting them')
fixed('Z01', 'e76cffd', "do not repeat non-string elements of single-branch selects")
fixed('Z01', '749b55b', "keep comments when adjacent lists are merged")
fixed('Z02', '59efeb3', "leave lists without the removed values as they are")
fixed('Z03', '80fe216', "replace strings in place")
fixed('Z04', 'c331726', "keep values moved within one attribute")
fixed('Z05', 'f3cce19', "keep entries with computed keys when removing from a dictionary")
fixed('Z05', '6b7968a', "don't overwrite attributes that are not dictionaries in dict commands")
fixed('Z07', '27a7281', "apply every command of a command-file line to the targets '*' stands for")
fixed('Z08', 'f9a21d1', 'group targets by absolute file names when a root directory is given')
fixed('Z08', 'd4ce3d6', 'edit only one build file per directory for target patterns')
fixed('Z06', 'bc16461', 'keep the package of a file when statements are added or removed')
fixed('Z09', '6663280', 'keep the arguments of replace_load for the next file')
fixed('Z09', '2b5cfc1', 'remove all replaced symbols from a load statement')
fixed('Z09', '145ad5b', 'keep loads that are used in type annotations only')
fixed('Z09', '612d97c', 'find the names in types with several arguments, unions and members')
fixed('Z10', 'c2c2ae4', 'add a repository that is requested twice only once')
fixed('Z10', '1f8dadc', 'report a missing extension name of use_repo commands')
fixed('Z10', '370ba0c', 'recognize labels of extensions in the main repository')
fixed('W05', 'a0e7db6', 'report augmented assignments to uninitialized variables')
fixed('W05', '45a81e3', 'report uninitialized variables in arguments of fail')
fixed('W05', '3a11dce', 'respect scopes of lambda parameters, their defaults and the first iterable of comprehensions')
fixed('W06', 'd981962', 'default values of parameters use variables of the outer scope')
fixed('W06', 'e6cfe97', 'variables that are used in type annotations are not unused')
fixed('W05', '36d8858', 'keyword arguments in defaults of nested functions are not variables')
fixed('W05', '8b2e5d3', 'names in parentheses can be assigned')
fixed('W01', '8f83409', 'report findings of the same line in a fixed order')
fixed('W01', '78a4c0c', 'find macros independently of the order of calls and definitions')
fixed('W02', 'f07c4cb', 'a disabling comment only applies to the category it names')
fixed('W04', 'ac6bdc4', 'suggestions leave the file unchanged')
fixed('W03', '588f11d', 'replace calls of native rules in top-level statements')
fixed('W03', '8ab308c', 'attach the fix of a load statement to a finding that it fixes')
fixed('W03', 'f549acf', 'apply fixes to nested expressions')
fixed('O03', '22ffd95', 'resolve names of nested scopes to their innermost definition')
fixed('O02', 'e239593', 'merge definitions into overridden tables')
fixed('I02', '831c520', 'list every selected warning once and in a fixed order')
fixed('I03', '9905fc3', 'a run with unreadable files is not successful')
fixed('O01', 'c8ef445', 'find the workspace of a path with superfluous elements')
fixed('O04', '512946e', 'print the step of slices without positions')
fixed('O04', '4bdd9ef', "convert integers that don't fit into 64 bits")
fixed('O04', '7dc52b3', 'convert dictionary comprehensions')
fixed('O04', '9cf59cc', 'convert tuples in brackets to tuples in brackets')
fixed('Z11', '8b1dbfd', 'replace the end-of-line comment of an attribute instead of adding another one')
open_("O04", "comment-above-parenthesis", "a comment line above the closing parenthesis of the left operand of a binary operator (`x = (a + b<newline># c<newline>) * (c)`): the interpreter's parser attaches it to the right operand and the converted tree prints it, with a line break, outside the brackets, which does not parse")
fixed('W07', 'c1ed8eb', 'compute the names of modules for every workspace')
fixed('F08', '0b5a32f', 'sort the chunk that follows removed duplicates')
fixed('F11', 'd8a0f44', 'a sign after a hexadecimal number is an operator')
