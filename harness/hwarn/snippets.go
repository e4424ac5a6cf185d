package hwarn

import "github.com/bazelbuild/buildtools/zzverif/gen"

// Snippets are pieces of code that the checks have findings in.
var Snippets = []gen.T{
	{Text: "rule(\n    attrs = {\"foo\": attr.label_list(mandatory = True, cfg = \"data\"), \"b\": attr.label(cfg = \"host\", single_file = True)},\n)\n"},
	{Text: "a = attr.label_list(non_empty = ?ot foo, cfg = \"exec\", allow_files = b)\nb = attr.label(single_file = ?rue, allow_files = [a])\n", Alpha: "nNT"},
	{Text: "attr.string_list(non_empty = (not a), x = attr.label(non_empty = False))\nattr.label(allow_files = True, single_file = False)\n"},
	{Text: "a = attr.output(default = \"foo\")\nb = [attr.license(), attr.license(a)]\nfoo(name = \"a\", licenses = [], applicable_licenses = b, package_metadata = a)\n"},
	{Text: "foo(*args, **kwargs)\nfoo(\"a\", *args, name = \"b\")\n[bar(*x) for x in y]\n"},
	{Text: "load(\"//foo/?rivate:a.bzl\", \"a\", _b = \"b\")\nload(\"@r//x/internal/y:c.bzl\", \"c\")\na(c)\n", Alpha: "pq"},
	{Text: "l = 1\nO = 2\n\ndef f(I, x):\n    ? = [l for l in x]\n    for O in x:\n        print(O, I)\n", Alpha: "lOIx"},
	{Text: "foo(srcs = glob([\"a.?\"]), x = glob([\"b\", \"*.c\"], exclude = [\"d\"]), y = native.glob(include = [\"e\"]))\n", Alpha: "*b"},
	{Text: "def impl(ctx):\n    ctx.new_file(foo, \"a %s\" % bar)\n    ctx.new_file(foo, name = bar)\n    ctx.new_file(ctx.new_file(foo), bar)\n    ctx.file_action(foo, executable = True)\n    ctx.?ction(a, command = ctx.new_file(x))\n    ctx.action(a)\n", Alpha: "ab"},
	{Text: "def impl(ctx):\n    ctx.experimental_new_directory(ctx.empty_action(a))\n    ctx.template_action(x, executable = y)\n    ctx.new_file(a, b, c)\n    return ctx.new_file\n"},
	{Text: "def impl(ctx):\n    args = ctx.actions.args()\n    args.add(foo, bar, before_each = a)\n    args.add(foo, bar, join_with = b, map_fn = c)\n    args.add(foo, bar, before_each = \"?\", join_with = d)\n    args.add(foo)\n    args.add(args.add(x, map_fn = y), before_each = z)\n", Alpha: "a%"},
	{Text: "def f(x):\n    depset(items = foo)\n    a = depset()\n    b = depset([1])\n    depset(a)\n    for y in a:\n        print(y)\n    max(a + b)\n    c = [d for d in a | b if d in a]\n    return len(a.to_list()), all(depset(x)), x ?n b, c\n", Alpha: "i"},
	{Text: "d = {}\nd + foo\nfoo + d + {\"?\": 1}\nd += foo + bar\n", Alpha: "ab"},
	{Text: "d = dict()\nd.get(\"a\", default = \"?\")\n{}.pop(\"a\", default = d.setdefault(\"x\", default = 1))\n", Alpha: "ab"},
	{Text: "foo(name = \"?\")\nbar(name = \"a\")\nif x:\n    baz(name = \"b\")\nelse:\n    qux(name = \"b\")\n", Alpha: "abc"},
	{Text: "a = FileType([\".cc\"])\n\ndef f():\n    FileType = 1\n    return FileType(1)\n"},
	{Text: "def f(x, *y, z = 1, **k):\n    \"\"\"Foo.\n\n    Args:\n      x: the ?\n      q: the other\n      *y: more\n\n    Returns:\n      a value\n    \"\"\"\n    return x\n", Alpha: "xy:"},
	{Text: "def f(x):\n    \"\"\"Foo\n    bar\n\n    Deprecated:\n      use ?\n\n    Arg:\n      x: y\n    \"\"\"\n    pass\n    pass\n    pass\n    pass\n    pass\n    return 1\n\ndef g(a, b, c):\n    a()\n    b()\n    c()\n    a()\n    b()\n", Alpha: "f"},
	{Text: "def f(a):\n    \"\"\"\n\n    Args:\n      a?\n        b: c\n      d (str): e\n    Returns: f\n    \"\"\"\n    return a\n", Alpha: ": b"},
	{Text: "a = 1\nb = a ? 2 ? a\nc = (a / b) / len(d)\na /= 3 / b\nd = 1.0 / a\n", Alpha: "/*"},
	{Text: "foo(x = a / (1 / b), y = [2 / 1 for z in 4 / 2])\n"},
	{Text: "all(elements = x)\nmax(a, key = b)\nhasattr(x = a, name = \"?\")\n\ndef f(x):\n    getattr(x = x, name = hasattr(x = 1, name = 2), default = 3)\n", Alpha: "ab"},
	{Text: "x = []\nx += [?]\nx += [a, b]\nx += [\n    # comment\n    a,\n]\nx += [c]  # comment\n\ndef f(y):\n    y += [[1]]\n    x += [a for a in y]\n", Alpha: "1a"},
	{Text: "load(\":a.bzl\", \"a\", \"b\", c = \"?\")\nload(\":a.bzl\", \"b\")\nload(\":b.bzl\", \"c\", \"e\")\na(c)\n", Alpha: "abc"},
	{Text: "def Foo(Bar, baz_):\n    BAZ = 1\n    Qux? = BAZ\n    _x, aB = Qux_\n    FooInfo = aB\n    return Bar + baz_\n\nfooBar = 1\n_FOO_BAR, X = 1, provider()\n", Alpha: "_z"},
	{Text: "native.cc_library(name = \"a\")\nfoo(x = native.glob([\"?*\"]), y = native.package_name())\nnative.existing_rules\n", Alpha: "a*"},
	{Text: "def f():\n    native.package(name = native.package())\n    native.? = 1\n", Alpha: "a"},
	{Text: "\"\"\"Doc.\"\"\"\na == b\n[x for x in y]\n[x() for x in y]\n\"?\"\n\ndef f():\n    1\n    a.b\n    foo(a)\n    -x\n    a if b else c\n", Alpha: "ab"},
	{Text: "def impl(ctx):\n    a = ctx.attr.my_dep.output_group.bin\n    b = ctx.attr.output_group\n    return ctx.attr.?.output_group.output_group, a, b, foo.attr.a.output_group\n", Alpha: "ab"},
	{Text: "depset([a], transitive = [depset(x)])\n\ndef f(l):\n    x = depset()\n    for a in l:\n        x = depset(transitive = [x, a])\n    y = depset()\n    for b in l:\n        y = depset(transitive = [b] + [y.foo, y])\n    return ?\n", Alpha: "xy"},
	{Text: "foo(a = PACKAGE_NAME, b = REPOSITORY_NAME)\n\ndef f(PACKAGE_NAME, x = PACKAGE_NAME):\n    return PACKAGE_NAME, [PACKAGE_NAME for PACKAGE_NAME in REPOSITORY_NAME], ?\n", Alpha: "x"},
	{Text: "foo(name = \"a\")\nload(\":a.bzl\", \"foo\")\npackage_group(name = \"b\")\nlicenses([\"?\"])\npackage(default_visibility = [])\nbar()\n", Alpha: "ab"},
	{Text: "load(\":a.bzl\", \"foo\")\n\n# comment\nfoo(1)\n\n# other\npackage()  # last\n\nx = ?\n", Alpha: "12"},
	{Text: "my_rule(\"a\", srcs = [])\n[foo(x, name = \"?\") for x in y]\n", Alpha: "ab"},
	{Text: "def f(x):\n    print(x)\n    if x:\n        print(\"?\")  # debug\n        fail(print)\n", Alpha: "ab"},
	{Text: "A = provider()\nB = provider(doc = \"a\")\nC = provider(fields = [\"?\"])\nD, _ = provider(fields = {}, init = f)\n", Alpha: "ab"},
	{Text: "x = []\ny = 1\nx += a\ny ?= 2\ny = 3\nx = x\nz, y = 1, 2\n", Alpha: "+-"},
	{Text: "def f(x):\n    if x:\n        return 1\n    elif y:\n        return\n    for a in x:\n        return ?\n        x = 1\n    fail()\n    return\n", Alpha: "1a"},
	{Text: "def _impl(ctx):\n    if a:\n        return struct(x = 1)\n    return [struct()]\n\nrule(implementation = _impl)\nrepository_rule(_impl)\n"},
	{Text: "\"\"\"Skylark and skylark.\"\"\"\n\n# SKYLARK skylark.io Skylark\nfoo(a = \"skylark\")  # the Sky?ark\n\ndef f():\n    \"\"\"Foo Skylark\n    http://skylark.com\"\"\"\n    pass\n", Alpha: "lx"},
	{Text: "s = \"foo\" + bar\nmax(s)\nzip(s, a)\n[x for x in s]\nfor x in s:\n    len(s)\n? = 1\nreversed(\"a\")\n", Alpha: "sx"},
	{Text: "def f(x):\n    if x:\n        a = 1\n    else:\n        ? = 2\n    for b in a:\n        foo(b, c)\n        c = b\n    return b, [a for b in a]\n", Alpha: "abx"},
	{Text: "def macro(name, x):\n    cc_library(name = name)\n    ?acro2()\n\ndef macro2(x):\n    native.cc_library(name = \"a\")\n\ndef macro3(**kwargs):\n    macro2(**kwargs)\n    my_rule(name = \"b\")\n\nmy_rule = rule(implementation = f)\n", Alpha: "mx"},
	{Text: "d = {\n    \"b\": 1,\n    \"?\": 2,\n    # comment\n    \"a\": {\"y\": 1, \"x\": 2},\n    1: \"one\",\n    \"B\": 3,\n}\n", Alpha: "abc"},
	{Text: "# @unsorted-dict-items\nd = {\"b\": 1, \"a\": {\"d\": 1, \"c\": 2}}\ne = select({\"y\": 1, \"//x\": {\"b\": 1, \"?\": 2}})\n", Alpha: "ab"},
	{Text: "? = 1\n_b, c = x\n(_d, _e) = x\n\ndef f(a, _b, c = b, *d, **e):\n    x = 1\n    for i, _j in a:\n        k = [l for m in i]\n", Alpha: "ab"},
	{Text: "git_repository(name = \"a\")\nnew_git_repository(name = \"b\")\nhttp_archive(name = \"?\")\nnative.http_file(name = \"c\")\n", Alpha: "ab"},
	{Text: "load(\"@rules_cc//cc:cc_binary.bzl\", \"cc_binary\")\ncc_library(name = \"a\")\ncc_binary(name = \"?\")\nnative.cc_test(name = \"b\")\ncc_common.foo(CcInfo)\n", Alpha: "ab"},
	{Text: "def f(cc_info, JavaInfo = JavaInfo):\n    java_library(name = \"?\")\n    native.java_binary(name = \"b\")\n    java_common.foo(x = JavaInfo)\n    JavaPluginInfo = 1\n    return JavaPluginInfo\n", Alpha: "ab"},
	{Text: "load(\":x.bzl\", \"py_library\")\npy_library()\npy_binary(name = \"?\")\n\ndef py_test():\n    native.py_test()\n    py_runtime()\n", Alpha: "ab"},
	{Text: "proto_library()\njava_proto_library(name = \"?\")\ncc_proto_library()\nproto_lang_toolchain()\nx = ProtoInfo(proto_common, ProtoLangToolchainInfo)\n", Alpha: "ab"},
	{Text: "\"\"\"Doc\"\"\"\n\nsh_binary()\nnative.sh_test()\nsh_library = 1\nsh_library()\naar_import()\nnative.android_binary(name = \"?\")\n", Alpha: "ab"},
	{Text: "def f():\n    cc_toolchain()\n    native.cc_toolchain_suite()\n    fdo_profile()\n    objc_library(objc_import())\n    cc_import(DebugPackageInfo)\n    return CcSharedLibraryInfo, CcSharedLibraryHintInfo, java_toolchain, java_runtime()\n"},
	{Text: "load(\":a.bzl\", \"old\", \"new\")\nold()\n? = old\nnew(old)\n", Alpha: "xy"},
	{Text: "x = 1\nif x:\n    y = 2\nfor z in y:\n    x = z\nfoo(lambda a, b = x, *c: a)\n{a: b for a, b in ? if a}\n", Alpha: "xy"},
	{Text: "?\n", Alpha: "a1("},
	{Text: "foo(\n    bar? baz,\n    # comment\n    *a,\n    b = [c for c in d],\n)\n", Alpha: ",=+"},
	{Text: "load(\"//x/internal:y.bzl\", \"a\")\nload(\"//p/?rivate:z.bzl\", \"b\")\na(attrs = {\"licenses\": b, \"package_metadata\": a, \"?pplicable_licenses\": 1})\n", Alpha: "pa"},
	{Text: "def f():\n    native.java_import()\n    ?\n    java_lite_proto_library(JavaInfo, JavaPluginInfo)\n    return cc_binary, native.cc_shared_library(x = fdo_prefetch_hints(), y = memprof_profile()), propeller_optimize()\n", Alpha: "ax"},
	{Text: "java_toolchain()\njava_package_configuration(name = \"?\")\nnative.java_plugin(deps = java_test())\nsh_library(name = cc_binary())\n", Alpha: "ab"},
	{Text: "load(\":a.bzl\", \"new\", ?ew = \"old\")\n\ndef macro(name):\n    new(name)\n\ndef macro2():\n    macro(\"a\")\n    new(\"b\")\n\nmacro2()\n", Alpha: "nm"},
	{Text: "def f():\n    g()\n    h()\n\ndef g():\n    f()\n\ndef h(name):\n    native.foo(name)\n    ?()\n", Alpha: "gx"},
	{Text: "load(\":a.bzl\", \"new\", \"old\", x = \"thing\")\n\ndef f():\n    old()\n    ?()\n    new()\n    g()\n\ndef g():\n    g()\n    f()\n", Alpha: "xn"},
}
