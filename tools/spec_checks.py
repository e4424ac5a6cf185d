SRC = ("source files from the template families of harness/gen (every construct of the grammar; rules, loads, sorted lists, MODULE.bazel files, numbers), where "
       "the kind of layout and comment at up to H places (H=1 quick, 2 thorough) between any two tokens, the file type and the marked bytes (drawn from an alphabet) are symbolic")
RAW = "and every file of at most %s arbitrary bytes"
OUT = "files that are not an instance of a template: longer files, more than H unusual layouts at once, non-ASCII text beyond the raw-byte runs"

def fam(extra=None, q1=1, t0=2, directive=True):
    e = extra or {}
    quick = [dict(e, family=3, holes=q1), dict(e, family=4, holes=q1), dict(e, family=2, holes=q1)]
    th = [dict(e, family=f, holes=1) for f in (0, 1, 2, 3, 4)] + [dict(e, family=0, holes=t0, type=t) for t in range(5)]
    if directive:
        quick += [dict(e, family=3, holes=1, directive=1, type=0), dict(e, family=2, holes=1, directive=1, type=1)]
        th += [dict(e, family=f, holes=1, directive=1) for f in (0, 2, 3, 4)] + [dict(e, family=3, holes=2, type=0), dict(e, family=2, holes=2, type=1)]
    return quick + [dict(e, family=1, holes=0), dict(e, family=0, holes=1)], th

def raw(e, q, t): 
    return [dict(e, family=-1, len=l) for l in q], [dict(e, family=-1, len=l) for l in t]

for pid, h in (("F01", "hfmt.Idem"), ("F02", "hfmt.Meaning"), ("F03", "hfmt.Comments")):
    q, t = fam()
    rq, rt = raw({"type": 0}, (1, 2), (1, 2, 3))
    num = [{"family": 5, "holes": 0, "type": 1}]
    check(pid, [run(h, rq + q + (num if pid == "F02" else []), rt + t + num, must=["accepted"])],
          SRC + " " + RAW % "2 (thorough 3)", OUT, quick=50, thorough=1500)
q, t = fam({"type": 0}, directive=False)
rq, rt = raw({"type": 0}, (0, 1, 2), (0, 1, 2, 3, 4))
check("F04", [run("hfmt.Total", rq + q, rt + t + [{"family": 5, "holes": 1, "type": 0}], must=["accepted", "rejected"])],
      SRC + " " + RAW % "2 (thorough 4, as far as the time goes)", OUT, quick=45, thorough=1200)
check("F05", [run("hfmt.Spans", rq + q, rt + t, must=["accepted"])], SRC + " " + RAW % "2 (thorough 4)", OUT, quick=40, thorough=1200)
q, t = fam({"type": 0}, directive=False)
check("F13", [run("hfmt.Walk", q, t, must=["accepted"])],
      SRC + "; the set of nodes stopped at or replaced is one of five kinds", OUT, quick=40, thorough=900)
check("F11", [run("hfmt.Meaning", [{"family": 5, "holes": 0, "type": 0}, {"family": 5, "holes": 0, "type": 1}], [{"family": 5, "holes": 0}, {"family": 5, "holes": 1}], must=["accepted"]),
              run("hfmt.Numbers", [{"family": 5, "holes": 0, "type": 0}, {"family": 5, "holes": 0, "type": 1}], [{"family": 5, "holes": 0}], must=["compared"])],
      "number literals: any 4 bytes of 019.eE+-xob, ?.?e??? over 0159+-, any 5 bytes of 07.e+x (in an argument), every file type (quick: BUILD and .bzl)", "longer literals, other digits", quick=30, thorough=400)

check("L01", [run("hlabel.Any", [{"len": n} for n in range(0, 6)], [{"len": n} for n in range(0, 10)]),
              run("hlabel.Parse", [{"repo": 3, "pkg": 6, "target": 4, "cur": 5}], [{"repo": 4, "pkg": 8, "target": 5, "cur": 7}]),
              run("hlabel.Relative", [{"repo": 2, "pkg": 5, "target": 4, "cur": 5}], [{"repo": 3, "pkg": 7, "target": 5, "cur": 6}]),
              run("hlabel.Equal", [{"repo": 3, "pkg": 5, "target": 4}], [{"repo": 3, "pkg": 6, "target": 4}])],
      "absolute labels whose repository, package and target have up to 3, 5, 4 symbolic bytes (thorough 4, 7, 5) with every spelling (@repo, @@repo, //pkg, :target, shorthand); and every string of up to 5 (9) arbitrary bytes for totality",
      "longer components, strings with two or more colons (only totality is decided for them)", quick=30, thorough=600)
check("L02", [run("hlabel.Format", [{"repo": 1, "pkg": 2, "target": 1}], [{"repo": 1, "pkg": 2, "target": 1}, {"repo": 1, "pkg": 3, "target": 2}, {"repo": 2, "pkg": 4, "target": 3}], must=["joined", "rewritten"]), run("hlabel.Format", [{"shorten": 1, "repo": 1, "pkg": 0, "target": 0, "rest": 3}], [{"shorten": 1, "repo": 1, "pkg": 0, "target": 0, "rest": 4}], must=["joined", "rewritten"])],
      "a label of up to 1+2+1 symbolic bytes (thorough 2+4+3), whole or written as a sum of two or three parts, in an attribute that holds labels, lists of labels, or none; with labels of the own package made relative, labels that begin with the name of the package followed by up to 3 (4) bytes of :/pg", "longer labels; labels without slashes (StripLabelLeadingSlashes)", quick=45, thorough=900)
check("F06", [run("hq.Value", [{"len": n} for n in range(0, 4)], [{"len": n} for n in range(0, 6)]),
              run("hq.Escapes", [{"kind": 0, "x": 2}, {"kind": 0}, {"kind": 2}, {"kind": 3, "o": 3}, {"kind": 1, "u": 3}], [{"kind": k} for k in range(4)] + [{"kind": 0, "x": 2}, {"kind": 1, "u": 3}, {"kind": 1, "u": 5}, {"kind": 3, "o": 5}]),
              run("hq.Literal", [{"len": 0}], [{"len": 0}]), run("hq.Literal", [{"len": 1}, {"len": 2}, {"len": 3, "alpha": 1, "forms": 1}], [{"len": n} for n in range(1, 4)] + [{"len": n, "alpha": 1} for n in (3, 4)] + [{"len": 5, "alpha": 1, "forms": 1}], must=["accepted", "rejected"])],
      "string values of up to 3 (thorough 5) arbitrary bytes in both quoting forms; literals with every prefix and quote around up to 2 (thorough 3) arbitrary bytes or 3 (5) bytes of \\\"' newline x0n, in five syntactic places, BUILD and .bzl; \\x, \\u, \\U and octal escapes with symbolic digits",
      "longer strings; docstrings (their indentation is normalised)", quick=45, thorough=900)
check("F07", [run("hbuild.Grouping", [{"depth": 1}, {"depth": 2, "leaves": 1, "stmts": 1, "types": 1}, {"pair": 1, "stmts": 1, "types": 1}],
                  [{"depth": 1, "ops": 1}, {"depth": 2, "ops": 1, "leaves": 1}, {"pair": 1}, {"depth": 3, "leaves": 1, "stmts": 1, "types": 1}])],
      "trees in which one operand of a node is itself such a tree, 2 levels deep (thorough 3 and every operator), and operators whose both operands are nodes; 24 ways to be an operand; used as a call argument and in an assignment, augmented assignment, if, for and return, printed as BUILD and as generic file",
      "deeper trees; statements nested in expressions, tuples without brackets inside expressions, attributes of number literals, the operator 'is'", quick=45, thorough=1200)
check("F08", [run("hbuild.Sort", [{"kmax": 1, "comments": 1, "n": 2}, {"kmin": 1, "n": 2}, {"kmin": 1, "n": 3, "words": 2}, {"kmax": 1, "n": 3, "comments": 1, "place": 0, "len": 1}, {"kmin": 1, "kmax": 2, "n": 3, "words": 5, "comments": 1, "place": 5}, {"kmin": 1, "kmax": 2, "n": 4, "words": 3, "comments": 2, "place": 6}, {"kmin": 1, "n": 4, "words": 2, "comments": 2, "place": 6}],
                  [{"kmax": 1, "comments": 1, "n": 2, "len": 3}, {"kmin": 1, "n": 2, "words": 7}, {"kmin": 1, "n": 3, "words": 4}, {"kmax": 1, "n": 3, "comments": 1, "place": 0, "len": 2}, {"kmin": 1, "n": 4, "words": 7, "comments": 1, "place": 0}, {"kmin": 1, "n": 4, "words": 3, "comments": 2, "place": 6}, {"kmin": 1, "kmax": 2, "n": 5, "words": 3, "comments": 2, "place": 6}], must=["sorted"])],
      "lists of 2 to 4 (thorough 5) elements, strings of up to 2 (3) symbolic bytes of :/@.a-b, fixed words, names; comments above or beside any element; 17 places for the list (attributes, select, +, glob, keep sorted, do not sort, leave-alone), BUILD and .bzl",
      "longer lists (except those of F10), lists in other attributes", quick=50, thorough=900)
check("F09", [run("hbuild.Loads", [{"n": 2}, {"n": 3, "others": 2, "mods": 2, "symbols": 4}], [{"n": 2}, {"n": 3, "others": 3, "mods": 3, "symbols": 6}, {"n": 3}, {"n": 4, "others": 1, "mods": 1, "symbols": 4}], must=["loads"])],
      "files of 2 or 3 (thorough 4) statements, each a load (symbolic module label, up to 2 symbols with and without new names) or one of 7 other statements and comments, every file type",
      "more statements; files in which one name is loaded from two places", quick=40, thorough=900)
check("F10", [run("hbuild.ManyArgs", [{"type": 0}, {"n": 23, "type": 1}], [{"n": n} for n in (8, 14, 22, 35)]),
              run("hbuild.Args", [{"n": 2, "type": 0}, {"n": 3, "comments": 1, "kmax": 2, "words": 3}, {"n": 3, "kmin": 1, "words": 3, "comments": 1, "type": 0}],
                  [{"n": 2}, {"n": 3, "comments": 1}, {"n": 3, "words": 2, "type": 0}, {"n": 4, "comments": 1, "words": 3, "type": 0, "call": 0}], must=["sorted"])],
      "calls with up to 3 (thorough 4) arguments, each positional, keyword (known names and symbolic ones), * or **, with comments; calls with 14 and 23 (thorough 35) arguments, positional, keyword, * and ** in seven patterns, in which some names repeat; 8 places for the call including leave-alone, every file type",
      "more arguments with free structure", quick=45, thorough=900)
check("F12", [run("hbuild.FileType", [{"len": n} for n in range(0, 5)] + [{"exts": 1, "cases": 2}, {"exts": 2, "cases": 1}], [{"len": n} for n in range(0, 7)] + [{"exts": 1, "cases": 9}, {"exts": 2, "cases": 2}, {"exts": 3, "cases": 1}])],
      "paths built from 6 directories, 8 stems and up to 2 (thorough 3) of 11 extensions with the case of up to 2 (9) letters of each symbolic, and every path of up to 4 (6) bytes of ./bBzZlLx and 0xc3",
      "other names", quick=40, thorough=400)

EDITED = ("the attribute is absent, a list, one of 18 other shapes (concatenations, selects of one and two branches, glob, string, name, conditional), lists of up to 1 element (2 for a plain list; thorough 2), "
          "each a string spelled in up to 6 ways with symbolic letters or a name, with a comment above or beside it")
EOUT = "longer lists, nested selects, other characters in labels"
def P(**kw): return kw
one = P(n=1, spell=1, comments=1, nonstrings=0)
def E(base=one, **kw): d = dict(base); d.update(kw); return d
check("Z01", [run("hedit.Add", [E(spell=2, slo=0, shi=4), E(values=2, attr=0), E(n=2, spell=3, attr=0, slo=1, shi=2), E(spell=6, nonstrings=1, slo=1, shi=2), E(nonstrings=1, attr=0), E(comments=2, attr=0), E(n=2, nonstrings=1, slo=1, shi=2, attr=0)],
                  [E(spell=2), E(spell=3, nonstrings=1, slo=0, shi=6), E(values=2, attr=0, comments=3), E(n=2, attr=0, shi=7), E(n=3, spell=3, attr=0, slo=1, shi=2), E(comments=3, nonstrings=1)]),
              run("hedit.AddVar", [E(slo=0, shi=6)], [E(), E(comments=3, nonstrings=1, shi=8)])],
      EDITED + "; add with one or two values, and add of a value that is not a string", EOUT, quick=50, thorough=900)
check("Z02", [run("hedit.Remove", [E(spell=2, slo=0, shi=4), E(values=2, attr=0), E(n=2, spell=3, attr=0, slo=1, shi=2), E(spell=6, nonstrings=1, slo=1, shi=2), E(nonstrings=1, attr=0, all=1), E(comments=2, attr=0), E(n=2, nonstrings=1, slo=1, shi=2, attr=0)],
                  [E(spell=2, all=1), E(spell=3, nonstrings=1, slo=0, shi=6), E(values=2, attr=0, comments=3), E(n=2, attr=0, shi=7), E(n=3, spell=3, attr=0, slo=1, shi=2), E(comments=3, nonstrings=1)], must=["removed"])],
      EDITED + "; remove of one or two values from one attribute or from all", EOUT, quick=50, thorough=900)
check("Z03", [run(h, [E(nonstrings=1, attr=0, news=2), E(comments=3, attr=0, news=1, shi=8, subs=2), E(n=2, spell=3, attr=0, slo=1, shi=2, news=2), E(spell=6, slo=1, shi=2, attr=1), E(attr=1, all=1, slo=0, shi=5), E(n=2, nonstrings=1, slo=1, shi=2, attr=0, news=1, subs=1)],
                  [E(nonstrings=1), E(comments=3, spell=2, attr=0), E(n=2, attr=0, shi=7), E(n=3, spell=3, attr=0, slo=1, shi=2), E(spell=6, slo=0, shi=5)], must=["changed"]) for h in ("hedit.Replace", "hedit.Substitute")],
      EDITED + "; replace of one value by one of 5 and substitute with one of the patterns of harness/hedit/lists.go, in one attribute or all", EOUT, quick=50, thorough=900)
check("Z04", [run("hedit.Set", [E(args=1, spell=2, slo=0, shi=4), E(args=2, slo=1, shi=2, attrs=2)], [E(args=2, spell=3), E(args=2, spell=6, slo=0, shi=2)], must=["set"]), run("hedit.Kind", [{}]),
              run("hedit.SetSelect", [E(slo=0, shi=3)], [E(spell=3, n=2), E()]),
              run("hedit.Rename", [E()], [E(n=2), E(comments=3, nonstrings=1)], must=["renamed"]),
              run("hedit.Copy", [E(slo=0, shi=8)], [E(comments=3, nonstrings=1), E(n=2)], must=["copied"]),
              run("hedit.Move", [E(slo=0, shi=5), E(slo=0, shi=5, back=1)], [E(comments=2), E(n=2, shi=7), E(back=1, nonstrings=1), E(values=2)], must=["moved"]),
              run("hedit.RemoveAttr", [E(shi=8)], [E(comments=3, spell=2), E(n=2)]),
              run("hmain.Print", [P(fields=1), P(fields=2, values=3)], [P(fields=2), P(fields=3, values=2)], must=["printed"]),
              run("hmain.ReadBack", [P(values=2)], [P()], must=["read back", "same run"])],
      EDITED + "; set, set_if_absent with up to 2 values for attributes of each kind, set kind, set_select, rename, copy, copy_no_overwrite, move and move back, remove of a whole attribute, remove_if_equal; print of up to 2 (thorough 3) of ten fields for 11 shapes of values, and print after set, as whole runs", EOUT, quick=50, thorough=900)
check("Z05", [run("hedit.Dict", [P(cmd=c, n=2, spell=1, comments=1, kinds=2) for c in range(5)] + [P(cmd=c, n=1, spell=2, comments=2) for c in range(5)] + [P(cmd=c, n=1, spell=1, comments=1, kinds=5, keys=5, what=1) for c in range(5)] + [P(cmd=3, n=1, spell=3, comments=1, kinds=5, what=1)], [P(cmd=c, n=2, spell=2, comments=3) for c in range(5)] + [P(cmd=c, n=3, spell=1, comments=1) for c in range(5)], must=["changed", "replaced"])],
      "dictionaries of up to 2 (thorough 3) entries whose keys are strings with a symbolic letter or expressions and whose values are strings, lists, names or calls, with comments; attributes that are absent or not dictionaries; commands naming one or two keys", "longer dictionaries", quick=45, thorough=600)
check("Z06", [run("hmain.Targets", [P(n=1), P(n=2, targets=1), P(n=2, stmts=9), P(n=3, targets=1, stmts=9)], [P(n=2), P(n=3, targets=1), P(n=3, stmts=9)], must=["changed", "removed", "new"]),
              run("hmain.Ellipsis", [P()], [P()])],
      "BUILD files of up to 3 statements, each a rule (of several kinds, with and without names, on one or several lines), a load, a package call, an assignment or a comment; every target form of the documentation (name, kind, %line, all, *, __pkg__, package, ellipsis); set, remove, new before and after, delete, as whole buildozer runs over a modelled file system",
      "more statements, rules inside macros", quick=50, thorough=900)
check("Z07", [run("hmain.Split", [P(len=0), P(len=1, any=1), P(len=2, any=1), P(len=3), P(len=4)], [P(len=5), P(len=6), P(len=3, any=1), P(len=4, any=1)]),
              run("hmain.Join", [P(words=1, len=2), P(words=2, len=1), P(words=2, len=2)], [P(words=1, len=3), P(words=3, len=1), P(words=2, len=3)]),
              run("hmain.CommandFile", [P(lines=1, parts=2, kinds=1), P(lines=1, parts=3, kinds=1, labels=1, len=1), P(lines=2, parts=2, kinds=3, labels=1, len=0), P(lines=1, parts=3, kinds=1, labels=1, len=0, stdin=1), P(lines=1, parts=2, kinds=1, labels=1, len=0, shapes=3)],
                  [P(lines=1, parts=3, kinds=1), P(lines=2, parts=2, kinds=3, labels=1, len=1), P(lines=2, parts=3, kinds=3, labels=1, len=0, stdin=1)], must=["changed"])],
      "command strings of up to 4 (thorough 6) characters of letters, blanks, backslash, newline, | and # and up to 2 (4) arbitrary bytes; joining of up to 2 words of up to 2 (3) bytes; command files of up to 2 lines of up to 3 parts, each symbolic text, from a file and from standard input, as whole buildozer runs",
      "longer commands, more lines", quick=50, thorough=900)
check("Z08", [run("hmain.Outcome", [P(cmds=1, targets=1, options=0), P(cmds=1, targets=2, contents=1), P(cmds=1, targets=1), P(cmds=2, targets=1, options=0, contents=2), P(bazel=1, cmds=1, targets=1, options=0), P(sched=1, cmds=1, targets=1, options=0, contents=1, kinds=1)],
                  [P(cmds=2, targets=2, options=0, contents=2), P(cmds=1, targets=2, options=0), P(cmds=2, targets=1, options=0), P(sched=1, cmds=1, targets=1, options=0, contents=1)], must=["changed"])],
      "two build files with one of 5 contents each (formatted, unformatted, malformed, missing), up to two targets (wildcards included) and two commands (changing, read-only, failing, unknown), the options that decide writing (-quiet, -stdout, -k, -P, -eol-comments, -root_dir …), BUILD and BUILD.bazel present, and every interleaving of two workers with one file each",
      "more files and commands; failures of the write itself; more workers", quick=50, thorough=900)
S = P(sym=1, heads=1)
check("Z09", [run("hmain.Loads", [E(S, cmd=0, n=1, tails=1), E(S, cmd=1, n=1, tails=1), E(S, cmd=3, n=1), P(cmd=3, n=1, heads=2, comments=4), P(cmd=0, n=1, tails=2, heads=4), P(cmd=1, n=2, tails=1, heads=1, modules=2, symbols=5), P(cmd=1, n=1, heads=1, second=1, tails=2), E(S, cmd=2, n=2, tails=1), P(cmd=0, n=1, mid=1, tails=1, heads=2, modules=2)],
                  [E(S, cmd=0, n=2, tails=1), E(S, cmd=1, n=2, tails=1), E(S, cmd=3, n=2), P(cmd=0, n=2, tails=1), P(cmd=1, n=2, tails=2), P(cmd=1, n=2, mid=1, tails=1), P(cmd=3, n=2, heads=2, comments=4), P(cmd=1, n=2, heads=1, second=1, tails=1), P(cmd=0, n=2, heads=1, second=1, tails=1)], must=["changed"])],
      "BUILD files with a head (comments, docstring, package, workspace), up to 2 (thorough 2, and one after other statements) loads of up to 3 names from modules and names with symbolic letters, and one of 31 statements that do or do not use the names; new_load, replace_load of one to three names, substitute_load with one pattern, fix unusedLoads; one file, or two files edited by the same command", "files in which a name is loaded from two places", quick=50, thorough=900)
check("Z10", [run("hmain.UseRepo", [P(usages=1, uses=1, reqs=2, labels=1, flags=3, modules=1), P(usages=1, uses=2, reqs=2, labels=1, flags=1, modules=1, tags=1), P(usages=2, uses=1, tags=1, reqs=1, labels=2, flags=3, repos=1, modules=2), P(usages=1, uses=1, tags=1, reqs=1, labels=12, flags=2, repos=1), P(usages=1, uses=0, reqs=1, flags=6, modules=1, labels=2)],
                  [P(usages=2, uses=2, reqs=2, labels=2, flags=3, modules=2, tags=1), P(usages=2, uses=1, reqs=1, flags=3, tags=1, repos=1), P(usages=1, uses=2, reqs=2, labels=4, flags=2, modules=2), P(usages=3, uses=1, reqs=1, tags=1, flags=2, labels=2, repos=1, modules=1), P(usages=2, uses=0, reqs=2, labels=3)], must=["changed"])],
      "MODULE.bazel files with or without name and repo_name, up to 2 (thorough 3) use_extension assignments whose extension label is one of 12 spellings and whose name has a symbolic letter, dev and isolate flags, tags between them, up to 2 use_repo calls with positional and keyword repositories with symbolic letters; use_repo_add and use_repo_remove of one or two repositories, by proxy and by extension, with and without dev", "repositories imported twice or through **kwargs", quick=50, thorough=900)
check("Z11", [run("hmain.Comment", [P(old=1), P(shapes=1, places=3), P()], [P()], must=["commented"])],
      "a rule with a list of two values, one value in a select, or a list on one line, a comment above or beside any of its name, attribute, values, brackets and itself; new comments of one line, with a blank, and of two lines with symbolic characters, for the rule, two attributes and two values, with end-of-line comments preferred or not; the file read back after comment, print_comment and remove_comment",
      "longer lists, comments in other places of the rule, replacing a comment by a second command in the same run", quick=45, thorough=600)
M = P(files=1)
check("I01", [run("hmain.Modes", [E(M, opts=0), E(M, opts=0, writefails=1), P(files=2, opts=0, lints=3, faults=1, contents=4), P(files=2, opts=0, lints=1, contents=3, sched=1), E(M, opts=0, names=4, lints=1), P(files=3, opts=0, lints=1, faults=1, contents=3), M],
                  [M, E(M, names=4), E(M, writefails=1), P(files=2, faults=1), P(files=2, opts=0, faults=1, sched=1, contents=4, lints=2), P(files=3, faults=1, contents=4, lints=3), P(files=2, opts=0, lints=3, faults=1, writefails=1)], must=["changed"]),
              run("hmain.Recurse", [P()], [P()], must=["changed"])],
      "whole runs of buildifier over a modelled file system: up to 3 files, each with one of 9 contents (formatted, unformatted, malformed, with findings with and without fixes, with symbolic bytes), missing or a directory; every mode, lint mode, -v, -r, -d, -format=text, -type, -path, standard input; failing writes; every interleaving of the reader with two files; 6 warning categories; -r over 616 file names",
      "what the diff program prints; more than one reading worker (eleven files or more); one file named twice", quick=50, thorough=900)
check("W05", [run("hwarn.Flow", [P(vars=0, n=3), P(vars=0, n=4, len=1), P(vars=1, n=3, len=1, kinds=8, names=2, params=1), P(vars=1, n=2, exprs=1, names=2), P(vars=1, n=1, exprs=8, names=2), P(vars=1, n=2, exprs=8), P(vars=1, n=3, len=1, kinds=12, exprs=1)],
                  [P(vars=0, n=4), P(vars=0, n=5, len=1, depth=1), P(vars=1, n=3, exprs=1), P(vars=1, n=2, exprs=8, names=3), P(vars=1, n=2, exprs=8, params=1), P(vars=1, n=4, len=2, kinds=8, exprs=1), P(vars=1, n=3, exprs=8)], must=["unreachable", "missing", "uninitialized"])],
      "functions of up to 3-4 (thorough 5) statements nested up to 3 levels out of assignments, augmented and unpacking assignments, calls, fail, return, break, continue, for, if, elif, else, nested functions; names are symbolic letters out of 2 or 3; 8 kinds of expressions (keyword arguments, comprehensions, lambdas with defaults and stars, members, conditions)", "return-value in functions with unreachable statements; nested functions' own bodies; while loops do not exist in the language", quick=50, thorough=900)
H0 = P(holes=0)
SNIP = "63 pieces of code with findings of every category, each with a symbolic byte out of its own alphabet and one (thorough: two) of its layout points varied (blank, line break, comment), read as BUILD, .bzl, MODULE.bazel or WORKSPACE file, alone and (thorough) followed by a second one"
SOUT = "other code; files that are loaded have one fixed content"
check("W01", [run("hwarn.Reads", [H0, P(holes=1)], [P(holes=1), P(holes=0, pair=1), P(holes=2)], must=["finding"]), run("hwarn.Order", [H0], [H0, P(holes=1), P(holes=0, pair=1)], must=["finding"], w=2)],
      SNIP + "; all categories at once and each one on its own; every order in which maps of two to four entries are iterated", SOUT, quick=50, thorough=900)
check("W02", [run("hwarn.Disable", [H0], [H0, P(holes=1), P(holes=0, pair=1)], must=["disabled"])],
      SNIP + "; a disabling comment with either prefix, naming any of the categories found, another one or a longer name, at each statement or expression of the file, before it or beside it", SOUT, quick=50, thorough=900)
check("W03", [run("hwarn.Fix", [H0, P(holes=0, one=1), P(holes=1), P(holes=0, pair=1)], [P(holes=1), P(holes=1, one=1), P(holes=0, pair=1), P(holes=0, pair=1, one=1), P(holes=2)], must=["fixable"])],
      SNIP + " and (quick, too) pairs; fixes of all categories at once and of one category", SOUT, quick=50, thorough=900)
check("W04", [run("hwarn.Suggest", [H0, P(holes=1)], [P(holes=1), P(holes=0, pair=1), P(holes=2)], must=["replacement"]), run("hwarn.Difference", [P(n=2, len=5)], [P(n=2, len=9), P(n=3, len=9)])],
      SNIP + "; for the difference itself, every pair of contents made of a common head and tail of up to 5 (9) and a middle of up to 2 (3) symbolic bytes", SOUT, quick=50, thorough=900)
check("W06", [run("hwarn.Unused", [P(n=1, exprs=8), P(n=2), P(n=2, under=1, kinds=7, params=4), P(n=3, kinds=4, len=1, files=1, params=3)],
                  [P(n=2, exprs=8), P(n=3, len=2), P(n=3, exprs=2, kinds=7), P(n=3, under=1, kinds=7, params=4), P(n=4, kinds=4, len=1, files=1, params=3)], must=["unused"]),
              run("hwarn.Loaded", [P(loads=1, n=1, files=4), P(loads=2, symbols=1, n=1, kinds=4), P(loads=2, symbols=2, n=0, files=1)], [P(loads=1, n=1, files=4), P(loads=2, symbols=2, n=1, kinds=4), P(loads=2, symbols=1, n=2), P(loads=1, n=2)], must=["unused", "fixed"])],
      "files of up to 3 (thorough 4) statements out of assignments, unpacking, loops, conditions, nested functions with parameters and defaults, comprehensions, lambdas, with names out of two symbolic letters and underscores and @unused comments; files with up to 2 loads of up to 2 symbols under symbolic names, with @unused comments, in 4 file types, followed by such statements; the file after fixing the loads", "files that load one name twice from one module under different symbols; names that are both a variable and a function with an @unused comment on one of them", quick=50, thorough=900)
check("W07", [run("hwarn.Apparent", [P(files=2, n=1), P(files=3, n=1), P(files=2, n=2, kinds=4), P(files=3, n=2, kinds=3)], [P(files=3, n=1), P(files=2, n=2), P(files=3, n=2, kinds=4), P(files=3, n=2)], must=["mapped"])],
      "MODULE.bazel and up to 2 more files of up to 2 statements each, out of include of any of the files (cycles too), bazel_dep and module with a symbolic repo_name of 2 letters, without one or with an empty one, and others; three modules; a C++ and a proto rule without a load; after a file of another workspace",
      "included files that do not exist, modules declared twice (Bazel rejects both); loads of other rule sets", quick=40, thorough=600)
check("O02", [run("hcfg.Tables", [P(tables=1, files=1), P(tables=1, files=2, faults=1), P(tables=1, files=3, faults=1, keys=1)], [P(tables=2, files=1), P(tables=1, files=2), P(tables=2, files=2, faults=1), P(tables=1, files=3, faults=1, keys=2), P(tables=1, files=2, faults=1, len=4)], must=["loaded"]),
              run("hcfg.Settings", [P(tables=1, faults=1), P(tables=0)], [P(tables=1), P(tables=2, faults=1)], must=["loaded"])],
      "sequences of up to 3 files of definitions, each replacing or merged, with any of the seven tables (thorough: two of them) holding up to 2 entries whose key is symbolic, existing or new and whose value is either, the two switches, unknown fields, and malformed files; directly and through -tables and -add_tables with the file in the current directory or above it",
      "more tables in one file; the built-in tables themselves are replaced by small ones", quick=40, thorough=600)
check("O03", [run("hwarn.Scopes", [P(n=1, exprs=8), P(n=2, exprs=8), P(n=3, exprs=1, load=1)], [P(n=2, exprs=8), P(n=2, exprs=8, load=1), P(n=3, exprs=8), P(n=4, exprs=1, load=1)], must=["local", "outer"])],
      "files of up to 3 (thorough 4) statements out of assignments, unpacking, loops, conditions, nested functions with parameters and defaults, comprehensions, lambdas, loads, with names out of two symbolic letters; at every name of the file", "names bound in more than 4 statements; assignments to attributes", quick=45, thorough=900)
check("I02", [run("hcfg.Flags", [P(free=f) for f in range(4)], [P(free=f) for f in range(4)], must=["accepted", "rejected"]),
              run("hcfg.Warnings", [P(items=1), P(items=2), P(items=3, len=1)], [P(items=1, len=4), P(items=3), P(items=4, len=1)], must=["modified"]),
              run("hcfg.WarningOrder", [P()], [P()]),
              run("hmain.Config", [P(knobs=1), P(knobs=2, at=1, names=1), P(knobs=2)], [P(knobs=2), P(knobs=3, at=1)], must=["changed"])],
      "every combination of -type, -mode, -lint, -format, -d, -path and the number of files, where each of the four texts in turn is any string of the lengths of the valid ones; lists of up to 3 (thorough 4) warnings, each with + or - or neither and a known or a symbolic name; whole runs in which up to 2 (thorough 3) of 12 settings come from a configuration file, from flags or from both, with the file in the current directory, above it, named by -config, missing or malformed, compared with the same settings given as flags",
      "the environment variable BUILDIFIER_CONFIG; one name with both + and -, empty names; -diff_command and -multi_diff", quick=50, thorough=900)
check("I03", [run("hcfg.Diagnostics", [P(files=1, findings=1), P(files=1, findings=2, len=0), P(files=2, findings=1, len=0, names=1)], [P(files=1, findings=1, len=2), P(files=1, findings=2), P(files=2, findings=2, len=0), P(files=3, findings=1, len=0, names=1)], must=["success", "json"]),
              run("hmain.Modes", [E(M, option=9), P(files=2, option=9, faults=1, contents=4), P(files=3, option=9, contents=3, faults=1)], [E(M, option=9, names=4), P(files=2, option=9, faults=1), P(files=3, option=9, contents=4, faults=1)], must=["json"])],
      "diagnostics of up to 2 (thorough 3) files with up to 2 findings each, with symbolic lines, flags and message characters (those with escapes in JSON), valid or not, formatted or not, as text, JSON and indented JSON; and whole runs of buildifier -format=json over up to 3 files with the contents, faults and lint modes of I01, whose output is decoded and compared with the findings of each file",
      "more files and findings; non-ASCII messages", quick=50, thorough=900)
check("O01", [run("hcfg.Split", [P(depth=2, spellings=1, names=1), P(depth=3, markers=1, spellings=1, names=1), P(depth=1, marks=2), P(depth=3)], [P(depth=3, markers=2), P(depth=4, markers=1, spellings=1, names=1), P(depth=2, marks=2), P(depth=4)], must=["workspace", "package"]),
              run("hcfg.Root", [P(depth=2), P(depth=3, markers=1)], [P(depth=3), P(depth=4, markers=1)], must=["workspace"]),
              run("hcfg.External", [P(rules=1), P(rules=2)], [P(rules=2), P(rules=3)], must=["found"])],
      "directories nested up to 3 deep (thorough 4), each with any of the six workspace markers and two build files, as a file, an executable file, a directory or under a similar name; every directory, existing or not, spelled in 5 ways; the current directory; WORKSPACE files with up to 2 (3) rules of 6 kinds with symbolic names and build files",
      "relative paths, markers in the root directory of the file system, symbolic links, other operating systems", quick=50, thorough=900)
check("O04", [run("hconv.Convert", [P(family=6, holes=0), P(family=0, holes=1), P(len=2), P(family=1, holes=0), P(family=5, holes=0), P(family=3, holes=0), P(family=2, holes=0), P(family=4, holes=0), P(family=6, holes=1)],
                  [P(family=6, holes=1), P(family=0, holes=2), P(len=3), P(len=4), P(family=5, holes=1), P(family=1, holes=1), P(family=2, holes=1), P(family=3, holes=1), P(family=4, holes=1)], must=["accepted"])],
      SRC + " and 20 pieces of code with up to 5 symbolic characters for the constructs the two trees represent differently; and every text of 2 (thorough 4) of 38 characters; all as far as both parsers accept them", "comments (they are not compared); files with tabs; number literals with symbolic digits are split by digit", quick=50, thorough=900)
