package gen

// Syntax exercises every construct of the grammar with comments and line breaks
// at every boundary.
var Syntax = []T{
	{Text: "$a$ = $1\n$b$ = $'x'\n"},
	{Text: "$foo($a$,$ b$ = $2$,$ *$c$,$ **$d$)$\n"},
	{Text: "x = [$1$,$ 2$,$ 3$,$]$\n"},
	{Text: "x = {$1$:$ 2$,$ \"b\"$:$ c$}$\n"},
	{Text: "x = ($1$,$ 2$)$\ny = ($1$,$)\nz = ($)\n"},
	{Text: "x = $1$,$ 2\n$y$,$ z = x\n"},
	{Text: "x = {$1$,$ 2$,$}$\n"},
	{Text: "x = ($a$ +$ b$)$ * ($c$)\n"},
	{Text: "x = [$a$ for$ a$ in$ b$ if$ c$ for d in e$]$\n"},
	{Text: "x = {$a$:$ b$ for$ a$,$ b$ in$ c$ if d if e$}$\n"},
	{Text: "def f($a$,$ b$ = $1$,$ *$args$,$ **$kw$)$:$\n    pass\nx = 1\n"},
	{Text: "def f($a$:$ int$,$ b$:$ str$ = $1$,$ *$,$ c$)$ -> $list[int]$:\n    return a\n"},
	{Text: "def f():\n    \"\"\"Doc\n\n      more\n    \"\"\"\n    x = 1\n    return x\n"},
	{Text: "def f():\n  if a:\n    b\n  elif c:\n    d\n  else:\n    e\n  f()\n"},
	{Text: "def f(x):\n    for$ a$,$ b$ in$ x$:\n        if a:\n            continue\n        break\n    return\n"},
	{Text: "if a:\n    b = 1\nelse:\n    if c:\n        d = 1\n    e = 2\n"},
	{Text: "if a:\n  b\nelif c:\n  d\nelse:\n  if e:\n    f\n"},
	{Text: "x = lambda$ a$,$ b$ = 1$,$ *c$:$ a$ + b\ny = lambda: 1\n"},
	{Text: "x = a$ if$ b$ else$ c\ny = ($a$ if$ b$ else$ c$)\n"},
	{Text: "x = a$.b$.c($d$).e$[$f$]$[$1$:$2$]$\n"},
	{Text: "x = a[$:$]\ny = a[$1$:$2$:$3$]\nz = a[::$2]\nw = a[1::]\n"},
	{Text: "x = not$ a and$ b or$ not c in$ d\n"},
	{Text: "x = a$ not in$ b\ny = -$a$ + +$b$ - (-c)\n"},
	{Text: "x = a == b\ny = a != b\nz = a < b\nw = a <= b\nv = a > b\nu = a >= b\n"},
	{Text: "x += 1\ny -= 2\nz *= 3\nw /= 4\nv //= 5\nu %= 6\nt |= 7\ns &= 8\nr ^= 9\nq <<= 1\np >>= 1\n"},
	{Text: "x = a | b ^ c & d << e >> f + g - h * i / j // k % ~l\n"},
	{Text: "x = ($\"a\"$ \"b\"$ 'c'$)\ny = \"a\" + \\\n  \"b\"\n"},
	{Text: "x = a +$ b +$ [$c$]$ +$ d($[$e$]$)\n"},
	{Text: "foo(a)$(b)($)\nfoo($ a = [$], b = {$}, c = ($)$)\n"},
	{Text: "load($\"//a:b.bzl\"$,$ \"x\"$,$ y$ = $\"z\"$)$\nfoo()\n"},
	{Text: "\"\"\"Module doc.\"\"\"\nload(\"a\", \"b\")\nfoo(1)\nload(\"c\", \"d\")\n"},
	{Text: "a; b; c = 1;\nd\n"},
	{Text: "def f(): return 1\ndef g(): pass; x\n"},
	{Text: "x = r\"a\\b\"\ny = r'''c'''\nz = 'it\"s'\nw = \"it's\"\nv = '''a\nb'''\n"},
	{Text: "x = [$[$1$]$,$ {$2$: 3}$,$ ($4$,)$]\n"},
	{Text: "foo($x$ for$ x in y$)\nbar([$a$ for a in b$]$,$)\n"},
	{Text: "foo(\n  a = 1$,\n\n  b = 2,\n  # c\n  c = 3, # d\n)\nbar(a = 1, b = 2)\n"},
	{Text: "cc_library(\n  name = \"n\"$,\n  srcs = [$\"b\"$,$ \"a\"$]$,$\n  deps$ = $[$\":z\"$,$ \"//y\"$,\n]$ + select({$\"c\"$:$ [$\"d\"$]})$,\n)\n"},
	{Text: "x = (a$ and\n  b)\ny = foo(a)[\n 0]\nz = (foo(\n)(a))\n"},
	{Text: "for x in [$1$]:\n  foo(x)\nif x: pass\nelse: foo()\n"},
	{Text: "def f(\n    a,\n    b):\n  pass\n\n\ndef g(a,\n      b): return (\n  1,\n  2)\n"},
	{Text: "x = a is$ b\nprint(a)\nreturn\n"},
	{Text: "x = (lambda$ a:$ a)(1)\ny = [lambda: 1, 2]\nz = (a if b else c) if d else (e if f else g)\n"},
	{Text: "x = -(-a)\ny = not (not a)\nz = (a)\nw = ((a))\nv = (a.b)\nu = (\"s\")\nt = ([1])\n"},
	{Text: "x = (a = b)\nfoo(**{$\"a\"$:$ 1$})\nfoo(*[$1$])\n"},
	{Text: "def f():\n    def g():\n        x\n\n        y\n    z\n    # end\n\n# after\nw\n"},
	{Text: "def f():\n  # before\n  a  # suffix\n\n  # own\n\n  b\n  # tail\nc\n"},
	{Text: "if a:  # sa\n  # sb\n  b\n# sc\nelif d:  # sd\n  e\n# se\nelse:  # sf\n  f\n# sg\n"},
	{Text: "# first\n\n# second\nfoo()  # third\n# fourth\n"},
	{Text: "\n\nfoo()\n\n\n\nbar()\n\n"},
	{Text: "foo(a = \"b\" %$ c$, d = \"e\".format($f$))\n"},
	{Text: "x = [\n  1,  # one\n  2,\n  # before end\n]  # end\ny = [ # open\n  1]\n"},
	{Text: "foo(c1, k1 = 1, c2, k2 = 2, c3, k3 = 3, c4, k4 = 4, c5, k5 = 5, c6, k6 = 6, c7, k7 = 7, *c8, **c9)$\n"},
	{Text: "x = a or b and c and not d == e\ny = a + b * c - d % e / f\nz = (a + b) * c << (d | e) & f ^ g\nw = a if b or c else lambda: d if e else f\n"},
	{Text: "foo(a, # ca\n  b = c, # cb\n  *d, # cc\n  **e # cd\n) # ce\n"},
	{Text: "x = {\n  \"a\": 1, # ca\n  # cb\n  \"b\": # cc\n    2,\n  # cd\n} # ce\n"},
	{Text: "def f(a, # ca\n  b = 1, # cb\n  # cc\n  *c): # cd\n  pass # ce\n"},
	{Text: "load(\"a\", # ca\n  \"b\", # cb\n  # cc\n  c = \"d\", # cd\n) # ce\n"},
	{Text: "x = (# ca\n  a + # cb\n  b # cc\n) # cd\n"},
	{Text: "x = [a # ca\n  for a in b # cb\n  if c # cc\n] # cd\n"},
	{Text: "x = a.b( # ca\n  c).d( # cb\n  e) # cc\n"},
}

// Rules are BUILD-style calls whose values are partly symbolic.
var Rules = []T{
	{Text: "r(name = \"n\", deps = [\"?\", \"??\"])\n", Alpha: ":/@a.\""},
	{Text: "r(srcs = [\"?b\", \"??\", \"a?\"])\n", Alpha: ":/@.a-"},
	{Text: "r(deps = [\"//?/?:?\"], x = \"//a:a\")\n", Alpha: "ab/:"},
	{Text: "r(deps = \"//?\" + \":?\")\nr(deps = \"@?//:?\")\n", Alpha: "ab/"},
	{Text: "?? = 1\n??(1)\n", Alpha: "ab_1 ("},
	{Text: "r(?b = 1, ?a = 2, name = 3)\n", Alpha: "ab_n"},
	{Text: "r(?b = 1, c, ?a = 2, *d)\nr(?b = 1, c, ?a = 2)\n", Alpha: "ab_n"},
	{Text: "load(\"?\", \"??\")\nload(\"?\", ?= \"c\")\n", Alpha: "ab:/"},
	{Text: "x = \"??\"\ny = '??'\n", Alpha: "a\\\"'nr0x\n"},
	{Text: "x = r\"??\"\ny = r'??'\n", Alpha: "a\\\"'\n"},
	{Text: "x = \"\"\"??\"\"\"\ny = '''??'''\n", Alpha: "a\\\"'\n "},
	{Text: "x = ???\n", Alpha: "01.eE+-xo89"},
	{Text: "def f():\n    \"\"\"a?\n?? b?\n??c\"\"\"\n", Alpha: " \na"},
	{Text: "x = a??b\n", Alpha: "+-*/%<>=!|&^.,:;() "},
	{Text: "x = (a??b)\n", Alpha: "+-*/%<>=!|&^.,:;()[]\n "},
	{Text: "foo(a??b)\n", Alpha: "=*+,()\n #"},
	{Text: "x = [a??b]\n", Alpha: ",()\n #["},
	{Text: "if a:??b\n?c\n", Alpha: " \n#"},
	{Text: "def f():\n??a\n??b\n", Alpha: " \n#\t"},
	{Text: "if a:\n ?if b:\n   ? c\n??d\n?e\n", Alpha: " \n#"},
	{Text: "x = 1 #??\n?y\n", Alpha: "#\\ a\n\""},
	{Text: "#?\n?\n#?\nx\n", Alpha: "# \na"},
}

// Loads are files with several load statements.
var Loads = []T{
	{Text: "load(\"?\", \"a\", \"b\")\nload(\"?\", \"c\")\nload(\"?\", d = \"e\")\nfoo()\n", Alpha: "xyz"},
	{Text: "foo()\nload(\"?\", \"a\")\nbar()\nload(\"?\", \"b\")\n", Alpha: "xy"},
	{Text: "\"doc\"\nload(\"//?:?\", \"b\", \"a\")\nx = 1\nload(\"@?//:?\", \"c\")\nload(\":?\", \"d\")\n", Alpha: "ab"},
	{Text: "load(\"m\", \"?\", \"?\", ?= \"x\", ?= \"y\")\n", Alpha: "abxy"},
	{Text: "load(\"m\"$,$ \"b\"$,$ \"a\"$)$\nload(\"m\"$,$ \"c\"$,$ d$ = $\"e\"$)$\nfoo()\n"},
	{Text: "load(\"b\"$, \"x\"$)$\nload(\"a\"$, \"y\"$)$\nfoo()\nload(\"a\"$, \"z\"$)$\n"},
	{Text: "workspace(name = \"w\")\nfoo()\nload(\"b\", \"x\")\n\n# own\n\nload(\"a\", \"y\")\n"},
	{Text: "load(\"m\", $\"a\"$,$ \"a\"$, $\"a\"$)$\nfoo(a)\n"},
	{Text: "def f():\n  x\n\nload(\"b\", \"x\")\nload(\"a\", \"y\") # c\n\nif a:\n  b\n"},
	{Text: "# h\n\nload(\"b\", \"x\") # s\n# u\nload(\"a\", \"y\")\n# v\n\nload(\"b\", \"z\")\n# t\n"},
	{Text: "load(\"?/?\", \"a\")\nload(\"?/?\", \"b\")\n", Alpha: "aAbB/"},
}

// Lists are lists the formatter sorts.
var Lists = []T{
	{Text: "r($srcs$ = $[$\"b\"$,$ \"a\"$,$ \"c\"$,$ \"a\"$]$)\n"},
	{Text: "r(deps = [\n  \"b\",\n  \"a\",\n\n  # mid\n  \"d\",\n  \"c\", # s\n  x,\n  \"f\",\n  \"e\",\n])\n"},
	{Text: "# keep sorted\nx = [\"b\"$,$ \"a\"$,$ \"b\"$]$\ny = {\n  # keep sorted\n  \"k\": [\"d\", \"c\"],\n}\n"},
	{Text: "x = [\n  # keep sorted\n  \"b\",\n  \"a\",\n  \"b\",\n  # more\n  \"d\",\n  \"c\",\n]\n"},
	{Text: "r(\n  # do not sort\n  srcs = [\"b\", \"a\", \"b\"],\n  deps = [ # do not sort\n    \"b\", \"a\"],\n  data = [\"b\",\"a\"], # do not sort\n)\n"},
	{Text: "r(srcs = glob([$\"b\"$,$ \"a\"$]$)$ + [$\"d\"$,$ \"c\"$]$)\n"},
	{Text: "r(deps = select({$\"b\"$:$ [$\"d\"$,$ \"c\"$]$,$ \"a\"$:$ [$]$})$)\n"},
	{Text: "r(srcs = (\"b\", \"a\"), args = [\"b\", \"a\"], other = [\"b\", \"a\"])\n"},
	{Text: "r(deps = [$\"//a\"$ +$ \":b\"$,$ \"c\"$]$)\nr(visibility = $\"//x\"$ +$ \":x\"$)\n"},
	{Text: "r(deps = [\n  \"//a\" + # one\n    \":b\", # two\n  # three\n  \"c\" # four\n], # five\n  name = \"x\", # six\n  # seven\n)  # eight\n"},
	{Text: "r(deps = [$\"//a\"$ +$ \"b\"$ +$ \":c\"$, (\"//d\" + \"/e\") + (\"f\" + \":e\")])\nr(visibility = \"//x\" +$ \"y\"$ + \":xy\"$)\n"},
	{Text: "# buildifier: leave-alone\nr(srcs = [\"b\", \"a\"], deps = [\"//a:a\"], name = \"x\")\n\nr(\n  # buildifier: leave-alone\n  srcs = [\"b\", \"a\"],\n  deps = [\"b\", \"//a:a\"],\n)\n"},
}

// Modules are MODULE.bazel files.
var Modules = []T{
	{Text: "bazel_dep(name = \"a\"$,$ version = \"1\"$)$\nbazel_dep(name = \"b\")\nbazel_dep(name = \"c\", dev_dependency = True)\narchive_override(module_name = \"c\")\n"},
	{Text: "x = use_extension($\"//:x.bzl\"$,$ \"x\"$)$\nx.tag(a = 1)\nuse_repo($x$,$ \"b\"$,$ \"a\"$,$ c$ = $\"d\"$)$\n"},
	{Text: "use_repo(x,\n  \"b\", # cb\n  # ca\n  \"a\",\n  \"b\",\n)\ninclude(\"a\")\ninclude(\"b\")\n"},
	{Text: "use_repo(\n  # do not sort\n  x, \"b\", \"a\", \"b\")\nuse_repo(x, \"?\", \"?\", \"?\")\n", Alpha: "ab."},
}

// Numbers are numeric literals.
var Numbers = []T{
	{Text: "x = ????\n", Alpha: "019.eE+-xob"},
	{Text: "x = ?.?e???\n", Alpha: "0159+-"},
	{Text: "x = f(?????)\n", Alpha: "07.e+x"},
}
