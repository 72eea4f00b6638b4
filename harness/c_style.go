package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/warn"
)

func init() { checks["C45"] = checkC45 }

// ---- C45: convention warnings, exactly where they belong ----
//
// Files are put together from pieces that break a convention at a known place
// (marked §category§) and from pieces that only look like it. ¶ is a place
// inside of brackets where the line may be broken.

type styleGen struct {
	r    *rand.Rand
	kind FileKind
	num  int
	conf map[string]bool // confusing names used at the top level
	pkg  string
}

// styleKinds tells which kinds of files a category is about, all if it is missing.
var styleKinds = map[string][]FileKind{
	"constant-glob": {KBuild, KWorkspace, KBzl}, "native-build": {KBuild}, "native-package": {KBzl},
	"print": {KBuild, KWorkspace, KBzl, KModule}, "build-args-kwargs": {KBuild}, "provider-params": {KBzl},
	"package-name": {KBzl}, "repository-name": {KBzl}, "rule-impl-return": {KBzl}, "duplicated-name": {KBuild, KWorkspace},
	"positional-args": {KBuild}, "module-docstring": {KBzl, KDefault}, "package-on-top": {KBuild, KBzl, KDefault},
	"attr-cfg": {KBzl}, "attr-non-empty": {KBzl}, "attr-output-default": {KBzl}, "attr-license": {KBzl},
	"ctx-actions": {KBzl}, "ctx-args": {KBzl}, "attr-single-file": {KBzl}, "filetype": {KBzl}, "output-group": {KBzl}, "attr-licenses": {KBzl},
}

// styleCats are the categories that are judged.
var styleCats = []string{
	"constant-glob", "native-build", "native-package", "print", "build-args-kwargs", "provider-params", "package-name",
	"repository-name", "rule-impl-return", "duplicated-name", "positional-args", "module-docstring", "package-on-top",
	"attr-cfg", "attr-non-empty", "attr-output-default", "attr-license", "attr-single-file", "attr-licenses", "filetype",
	"depset-items", "confusing-name", "name-conventions", "no-effect", "redefined-variable", "dict-method-named-arg",
	"unsorted-dict-items", "keyword-positional-params", "list-append", "integer-division", "dict-concatenation",
	"depset-union", "depset-iteration", "string-iteration", "overly-nested-depset", "function-docstring",
	"function-docstring-header", "function-docstring-args", "function-docstring-return", "skylark-comment",
	"skylark-docstring", "bzl-visibility", "ctx-actions", "ctx-args",
}

func (g *styleGen) fresh(p string) string { g.num++; return fmt.Sprintf("%s%d", p, g.num) }
func (g *styleGen) pick(s ...string) string {
	return s[g.r.Intn(len(s))]
}

func styleApplies(cat string, k FileKind) bool {
	l, ok := styleKinds[cat]
	if !ok {
		return true
	}
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

// expr is an expression with known findings.
func (g *styleGen) expr() string {
	r := g.r
	switch r.Intn(32) {
	case 30:
		return g.pick(`§ctx-actions§ctx.new_file("x")`, `§ctx-actions§ctx.new_file(¶x, "y")`, `§ctx-actions§ctx.new_file(a, b,¶ "c")`, `f(¶a = §ctx-actions§ctx.experimental_new_directory(x))`, `§ctx-actions§ctx.file_action(output = x,¶ content = "", executable = True)`, `[§ctx-actions§ctx.action(¶command = "x"), §ctx-actions§ctx.action(executable = §ctx-actions§ctx.new_file("y"))]`, `§ctx-actions§ctx.empty_action(mnemonic = "M")`, `§ctx-actions§ctx.template_action(¶template = x)`, `§ctx-actions§ctx.action(§build-args-kwargs§**kw)`, `§ctx-actions§ctx.new_file(§build-args-kwargs§*a).path`)
	case 31:
		return g.pick(`ctx.actions.declare_file("x")`, `x.ctx.new_file("y")`, `my_ctx.action(command = "x")`, `ctx.new_file`, `new_file("x")`, `ctx.actions.run(executable = x)`, `ctx.attr.action(1)`, `f(action = ctx.action)`, `ctx.files.template_action`, `"ctx.new_file()"`)
	case 0:
		return g.pick(`glob([§constant-glob§"a.cc"])`, `glob([¶"*.cc", ¶§constant-glob§"b.h", ¶"c.h"])`, `glob(¶include = [¶"**/*.cc", X,¶ §constant-glob§"x"])`,
			`glob(exclude = ["a"],¶ include = [§constant-glob§"b", "*"])`, `glob(¶[§constant-glob§""], allow_empty = True)`)
	case 1:
		return g.pick(`glob(["*.cc"], exclude = ["x.cc"])`, `globs(["a"])`, `glob(x)`, `glob([])`, `glob([X, "a*b"])`, `x.glob(["a"])`, `glob(["a/**"], include = ["b"])`)
	case 2:
		return g.pick(`§print§print("x")`, `§print§print()`, `[§print§print(1),¶ §print§print(2)]`)
	case 3:
		return g.pick(`x.print("x")`, `printf("x")`, `f(print = 1)`, `"print(1)"`)
	case 4:
		return g.pick(`§native-build§native.existing_rules()`, `§native-build§native.x`, `f(¶a = §native-build§native.y,¶ b = §native-build§native.z())`, `§native-build§native.a.b`)
	case 5:
		return g.pick(`x.native.foo`, `natives.y()`, `f(native = 1)`, `"native.x"`, `native_x`)
	case 6:
		if g.kind == KBuild {
			return "x"
		}
		return g.pick(`§native-package§native.package(¶default_visibility = [])`, `native.package_name()`, `package_x()`, `x.native.package()`, `natives.package()`)
	case 7:
		return g.pick(`f2(a = 1, ¶§build-args-kwargs§*args)`, `f2(§build-args-kwargs§**kw)`, `f2(¶§build-args-kwargs§*a,¶ §build-args-kwargs§**b)`)
	case 8:
		return g.pick(`(2 * x)`, `f2(a = 2 * x)`, `"*args"`, `(2 * -x)`)
	case 9:
		return g.pick(`§provider-params§provider()`, `§provider-params§provider("doc")`, `§provider-params§provider(¶fields = ["a"])`, `§provider-params§provider(doc = "x")`, `§provider-params§provider(init = x)`, `§provider-params§provider(¶init = x,¶ fields = [])`)
	case 10:
		return g.pick(`provider("doc", fields = [])`, `provider(doc = "d", fields = {"a": "b"})`, `provider(fields = None, doc = "d")`, `providers()`, `x.provider()`, `provider("d",¶ init = x, fields = [])`)
	case 11:
		return g.pick(`§package-name§PACKAGE_NAME`, `f(a = §repository-name§REPOSITORY_NAME)`, `[§package-name§PACKAGE_NAME,¶ §repository-name§REPOSITORY_NAME]`, `{¶§package-name§PACKAGE_NAME: 1}`, `(§repository-name§REPOSITORY_NAME + "/" + §package-name§PACKAGE_NAME)`, `§package-name§PACKAGE_NAME[1:]`)
	case 12:
		return g.pick(`"PACKAGE_NAME"`, `x.PACKAGE_NAME`, `f(PACKAGE_NAME = 1)`, `PACKAGE_NAMES`, `(lambda PACKAGE_NAME: PACKAGE_NAME)`, `[REPOSITORY_NAME for REPOSITORY_NAME in x]`)
	case 13:
		return g.pick(`{"a": 1}.get("a", ¶§dict-method-named-arg§default = 1)`, `dict(a = 1).pop("a",¶ §dict-method-named-arg§default = x)`, `{}.setdefault(¶"k",¶ §dict-method-named-arg§default = [])`, `{k: 1 for k in x}.get(1, §dict-method-named-arg§default = 2)`)
	case 14:
		return g.pick(`x.get("a", default = 1)`, `{"a": 1}.get("a", 1)`, `{}.update(default = 1)`, `get({}, default = 1)`, `{}.pop(x, key = 2)`, `[1].pop(default = 1)`)
	case 15:
		return g.dictExpr()
	case 16:
		fn := g.pick("tuple", "repr", "dir", "type", "select")
		if r.Intn(2) == 0 {
			return fn + "(¶§keyword-positional-params§x = y)"
		}
		return g.pick(`getattr(§keyword-positional-params§x = a,¶ §keyword-positional-params§name = b)`, `getattr(a,¶ §keyword-positional-params§name = b,¶ §keyword-positional-params§default = c)`, `hasattr(a, §keyword-positional-params§name = b)`, `any(§keyword-positional-params§elements = x)`, `all(¶§keyword-positional-params§elements = [y])`, `§native-build§native.select(§keyword-positional-params§x = y)`)
	case 17:
		return g.pick(`repr(y)`, `foo(x = y)`, `y.repr(x = y)`, `hasattr(a, "b")`, `tuple(y = x)`, `any(x = y)`, `reprs(x = 1)`, `(lambda repr: repr(x = 1))`, `[tuple(x = 1) for tuple in y]`, `getattr(a, "b", c)`)
	case 18:
		return g.pick(`(§integer-division§5 / 2)`, `[§integer-division§10 / 3]`, `f(a = §integer-division§int(x) / 2)`, `(§integer-division§1 / (2))`, `(§integer-division§8 * 2 / 4)`)
	case 19:
		return g.pick(`(x / 2)`, `(5.0 / 2)`, `(5 // 2)`, `(2 / 1.5)`, `("a" / 2)`, `(5 % 2)`)
	case 20:
		return g.pick(`(§dict-concatenation§{"a": 1} + x)`, `(§dict-concatenation§dict(a = 1) + y)`, `(§dict-concatenation§x + {})`, `f(§dict-concatenation§{k: 1 for k in x} + x)`)
	case 21:
		return g.pick(`([1] + x)`, `("a" + "b")`, `(x + y)`, `({"a": 1} | {"b": 2})`, `({"a": 1} == x)`)
	case 22:
		return g.pick(`(§depset-union§depset([1]) + x)`, `(§depset-union§x | depset(y))`, `§depset-union§depset(x).union(y)`, `§depset-union§x.union(¶depset(y))`, `(§depset-union§depset() + depset())`)
	case 23:
		return g.pick(`depset(transitive = [x])`, `x.union(y)`, `(depset(x) == y)`, `(depset(x) and y)`, `(x | y)`, `depset(direct = [x], order = "default")`)
	case 24:
		return g.pick(`[a for a in §depset-iteration§depset(x)]`, `len(§depset-iteration§depset(x))`, `(y in §depset-iteration§depset(x))`, `zip(§depset-iteration§depset(x),¶ y,¶ §depset-iteration§depset(y))`, `(y not in §depset-iteration§depset(x))`, `sorted(¶§depset-iteration§depset(x))`, `{a: 1 for b in x for a in §depset-iteration§depset(b)}`)
	case 25:
		return g.pick(`len(depset(x).to_list())`, `[depset(a) for a in x]`, `f(depset(x))`, `x.len(depset(x))`, `(depset(x) in y)`, `sorted(depset(x), key = y)`)
	case 26:
		return g.pick(`[a for a in §string-iteration§"abc"]`, `max(§string-iteration§"abc")`, `zip(¶§string-iteration§"ab", ¶x)`, `[a for b in x for a in §string-iteration§str(b)]`, `reversed(§string-iteration§("a" + x))`, `min(¶§string-iteration§"%s" % x)`)
	case 27:
		return g.pick(`"abc".elems()`, `max("a", "b")`, `[a for a in "a b".split(" ")]`, `len("abc")`, `x.max("abc")`, `[a for a in ["abc"]]`, `min(["a"])`, `("a" in "abc")`)
	case 28:
		return g.pick(`attr.label(§attr-cfg§cfg = "data")`, `attr.label_list(¶§attr-cfg§cfg = "host")`, `attr.string_list(§attr-non-empty§non_empty = True)`, `attr.output(¶§attr-output-default§default = "x")`, `§attr-license§attr.license()`, `attr.label(§attr-single-file§single_file = True)`, `§filetype§FileType([".cc"])`, `§attr-licenses§{"licenses": x}`, `depset(¶§depset-items§items = x)`, `depset(§depset-items§depset(x), transitive = [])`)
	default:
		return g.pick(`attr.label(cfg = "exec")`, `attr.label(cfg = x)`, `attrs.label(cfg = "data")`, `attr.string_list(allow_empty = x)`, `attr.outputs(default = "x")`, `attr.label(default = "x")`, `attr.licenses()`, `x.license()`, `attr.label(allow_single_file = x)`, `FileTypes([])`, `x.FileType()`, `{"license": x}`, `{licenses: x}`, `["licenses"]`, `depset([x], transitive = [])`, `depsets(items = x)`)
	}
}

// dictExpr is a dictionary with some items out of order.
func (g *styleGen) dictExpr() string {
	keys := []string{`"a"`, `"b"`, `"c"`, `"B"`, `"_p"`, `"_q"`, `"//conditions:default"`, `"//x:y"`, "KEY", `"a/b"`, `"ab"`, `"é"`}
	g.r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	keys = keys[:g.r.Intn(5)]
	if g.r.Intn(2) == 0 {
		sort.Slice(keys, func(i, j int) bool { return dictRank(keys[i]) < dictRank(keys[j]) })
	}
	s, last := "{", ""
	for i, k := range keys {
		if i > 0 {
			s += ", "
		}
		s += "¶"
		if strings.HasPrefix(k, `"`) {
			if last != "" && dictRank(k) < dictRank(last) {
				s += "§unsorted-dict-items§"
			}
			last = k
		}
		s += k + ": 1"
	}
	return s + "}"
}

// dictRank orders keys: plain ones, the default condition, private ones.
func dictRank(k string) string {
	k = strings.Trim(k, `"`)
	switch {
	case strings.HasPrefix(k, "_"):
		return "2" + k
	case k == "//conditions:default":
		return "1"
	}
	return "0" + k
}

// indent moves a piece into a block.
func styleIndent(s, ind string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if l != "" {
			lines[i] = ind + l
		}
	}
	return strings.Join(lines, "\n")
}

// stmt is a statement with known findings; top: at the top level of the file.
func (g *styleGen) stmt(top bool) string {
	r := g.r
	v := g.fresh("v")
	conf := func() string {
		n := g.pick("l", "I", "O")
		if top && g.conf[n] {
			return g.fresh("n")
		}
		if top {
			g.conf[n] = true
		}
		return "§confusing-name§" + n
	}
	switch k := r.Intn(31); k {
	case 30:
		if !top {
			return "f(ctx.actions.args())"
		}
		bad := g.pick("§ctx-args§"+v+".add(x, before_each = \"-a\")", "if x:\n    §ctx-args§"+v+".add(\"-x\", x,¶ join_with = \",\")", "§ctx-args§"+v+".add(¶map_fn = f, value = x)",
			"f(§ctx-args§"+v+".add(x, map_fn = f))", "for a in x:\n    §ctx-args§"+v+".add(x, join_with = \",\",¶ before_each = \"-a\")", "§ctx-args§ctx.actions.args().add(¶x, map_fn = y)", "a = [§ctx-args§"+v+".add(i, map_fn = f) for i in x]")
		good := g.pick(v+".add(x)", v+".add(\"-a\", x, format = \"%s\")", v+"b.add(x, map_fn = f)", v+".x.add(x, map_fn = f)", v+".add_all(x, map_each = f)", v+".add_joined(x, join_with = \",\")", "ctx.actions.add(x, map_fn = f)", "ctx.args().add(x, map_fn = f)", "x.actions.args().add(x, map_fn = f)", "add(x, map_fn = f)")
		s := v + " = ctx.actions.args()\n" + bad + "\n" + good
		params := g.pick("ctx", "ctx, x", "x, ctx", "ctx = None")
		if r.Intn(4) == 0 { // some other ctx, or some other arguments
			s = strings.ReplaceAll(g.pick(v+" = f(ctx.actions.args())\n"+strings.ReplaceAll(bad, "ctx.actions.args()", "ctx.actions.args"), s), "§ctx-args§", "")
			params = "x"
		}
		return "def _" + v + "f(" + params + "):\n" + styleIndent(s, "    ")
	case 0:
		c := conf()
		return g.pick(c+" = 1", v+", "+c+" = x", "["+c+", "+v+"] = x", "("+v+", ("+c+", "+v+"b)) = x")
	case 1:
		return "for " + g.pick(conf(), "a, "+conf(), "(a, "+conf()+")") + " in x:\n    f(it)"
	case 2:
		return v + " = " + g.pick("[l for §confusing-name§l in x]", "[a for a, §confusing-name§O in x]", "{k: 1 for k in x for §confusing-name§I in k}")
	case 3:
		if !top {
			return "f(l = 1)"
		}
		return "def " + g.pick("_", "") + g.fresh("g") + "(" + g.pick("§confusing-name§l", "a, §confusing-name§I = 1", "*§confusing-name§O", "a, **§confusing-name§l", "a, *, §confusing-name§I", "§confusing-name§O: x") + "):\n    return 1"
	case 4:
		return g.pick("x.l = 1", "x[l] = 1", "f(l = 1, O = 2)", v+" = l", "ll"+v+" = O", "i"+v+" = 1")
	case 5:
		bad := g.pick("fooBar", "Foo", "FooBar_Info", "foo_Bar", "fooInfo", "Foo_info", "_Foo", "FOO_b", "FooInfos", "_fooBar") + ""
		n := strings.Replace(bad, "o", fmt.Sprintf("o%d", g.num), 1)
		if !strings.Contains(bad, "o") {
			n = bad + v
		}
		if strings.HasSuffix(n, "Info") && !strings.Contains(n, "_") && n[0] == 'F' {
			return "pass"
		}
		n = "§name-conventions§" + n
		return g.pick(n+" = 1", v+", "+n+" = x", "["+n+", "+v+"] = x", "("+n+") = f()")
	case 6:
		return g.pick("foo_bar"+v, "FOO_"+strings.ToUpper(v), "Foo"+v+"Info", "_Foo"+v+"Info", "_x"+v, "INFO"+strings.ToUpper(v), "x.fooBar", `x["Foo"]`) + " = f(fooBar = 1)"
	case 7:
		if top {
			return g.pick("f(a = 1)", "[f(a = x) for x in y]", "pass", "§no-effect§{k: 1 for k in x}", "§no-effect§{k: v for k in x for v in k if v}", "[f(a = x) for x in y for z in x if z]", "§no-effect§({k: 1 for k in x})", "[f(x), g(y)][0](a)")
		}
		return g.pick("§no-effect§[f(a = x) for x in y]", "§no-effect§{k: 1 for k in x}", "§no-effect§{k: v for k in x for v in k if v}", "§no-effect§[f(a = x) for x in y for z in x if z]", "f(x)", "x += 1", "pass")
	case 8, 9:
		return g.pick("§no-effect§x", "§no-effect§x.y", "§no-effect§x == 1", "§no-effect§[1,¶ 2]", "§no-effect§-x", "§no-effect§1", "§no-effect§x if y else z", "§no-effect§x[1]", "§no-effect§lambda: 1", "f(a = 1)\n§no-effect§\"text\"", "§no-effect§f(a = 1).b", "§no-effect§x, y", "§no-effect§not x", "if x:\n    §no-effect§\"text\"", "for a in x:\n    §no-effect§\"text\"", "if x:\n    pass\nelse:\n    §no-effect§x.z")
	case 10:
		if top {
			w := g.fresh("w")
			return g.pick(
				w+" = 1\n§redefined-variable§"+w+" = 2",
				w+" = 1\nf(a = "+w+")\n§redefined-variable§"+w+" += 2\n§redefined-variable§"+w+" = 3",
				w+" = [x]\n"+w+" += [y, z]",
				w+" = [x]\n"+w+" += y",
				w+" = x\n"+w+" += [y, z]",
				w+" = {}\n"+w+"[\"a\"] = 1\n"+w+"[\"a\"] = 2\nx."+w+" = 1",
				w+" = 1\ndef _"+w+"f():\n    "+w+" = 2\n    return "+w,
			)
		}
		return v + " = 1\n" + v + " = 2"
	case 11:
		if top {
			return "def _" + v + "(p):\n    " + g.pick("§list-append§p += [1]", "p += [1, 2]", "p += x", "p = p + [1]", "p += []", "p -= [1]", "§list-append§p.x += [y]", "§list-append§p[0] += [[]]")
		}
		return v + " = []\n" + g.pick("§list-append§"+v+" += [1]", v+" += [1, 2]", v+" += x")
	case 12:
		d := g.fresh("d")
		e := g.pick("§dict-method-named-arg§")
		return d + " = {}\n" + v + " = " + d + ".get(1, " + e + "default = 2)"
	case 13:
		return g.pick("for a in §string-iteration§\"abc\":\n    f(a)", "for a in §depset-iteration§depset(x):\n    f(a)", "for a in x:\n    f(a)", "for a in [\"abc\"]:\n    f(a)")
	case 14:
		s := "s" + v
		return s + " = \"abc\"\n" + v + " = [a for a in §string-iteration§" + s + "]"
	case 15:
		loop := g.pick("§overly-nested-depset§"+v+" = depset([a], transitive = ["+v+"])", "§overly-nested-depset§"+v+" = depset(transitive = [a,¶ "+v+"], order = x)",
			v+" = depset(transitive = [a])", v+" = depset(["+v+"])", v+" = depset([a], transitive = a."+v+")", v+" = depsets(transitive = ["+v+"])", "b = depset(transitive = ["+v+"])",
			v+".x = depset([a], transitive = ["+v+"])", v+"[0] = depset([a], transitive = ["+v+"])", v+", b = depset(transitive = ["+v+"])", v+" = x.depset(transitive = ["+v+"])", v+" = depset([a], transitive = ["+v+"] + x)", "f(a = depset(transitive = ["+v+"]))", v+" = [depset(transitive = ["+v+"])]")
		s := "for a in x:\n    " + loop
		if r.Intn(6) == 0 {
			return strings.ReplaceAll(pick(r, loop, "if x:\n    "+loop), "§overly-nested-depset§", "")
		}
		if r.Intn(3) == 0 {
			s = "for a in x:\n    if a:\n        " + loop
		}
		return s
	case 16:
		return v + " = depset(x)\n" + g.pick("u"+v+" = depset([a], transitive = ["+v+"])", "u"+v+" = len(§depset-iteration§"+v+")", "u"+v+" = (§depset-union§"+v+" + y)")
	case 17:
		if !top || g.kind != KBzl {
			return "pass"
		}
		i := g.fresh("_impl")
		body := g.pick("    return §rule-impl-return§struct(a = 1)", "    if x:\n        return §rule-impl-return§struct()\n    return [Info()]", "    return [struct(a = 1)]", "    return structs()", "    return x.struct()", "    f(struct(a = 1))\n    return None", "    s = struct()\n    return s")
		body = strings.ReplaceAll(body, "return §rule-impl-return§", "§rule-impl-return§return ")
		use := v + " = rule(" + g.pick("implementation = "+i, i, "attrs = {},¶ implementation = "+i, i+", attrs = {}") + ")"
		if r.Intn(4) == 0 {
			use = v + " = " + g.pick("rules("+i+")", "x.rule(implementation = "+i+")", "rule(implementation = \""+i+"\")", "aspect(implementation = "+i+")", "rule(implementation = _o, attrs = "+i+")")
			body = strings.ReplaceAll(body, "§rule-impl-return§", "")
		}
		return "def " + i + "(ctx):\n" + body + "\n\n" + use
	case 18, 19:
		if top {
			return g.docFunc()
		}
		return "pass"
	case 20:
		c := g.pick("# uses §skylark-comment§Skylark", "# a §skylark-comment§skylark rule", "# see /skylark/foo", "# starlark", "# §skylark-comment§SKYLARK-like", "# //skylark/x §skylark-comment§skylark", "# x/skylark", "# skylark/x", "#§skylark-comment§skylark")
		return g.pick(c+"\n"+v+" = 1", v+" = 1  "+c, v+" = [\n    "+c+"\n    1,\n]", c+"\n# more\n"+v+" = 1")
	case 21:
		if !top {
			return "pass"
		}
		a := g.pick("§positional-args§\"foo\"", "§positional-args§\"a\",¶ \"b\", name = \"n"+v+"\"", "name = \"n"+v+"\",¶ §positional-args§§build-args-kwargs§*args", "§positional-args§f(x)", "§positional-args§§build-args-kwargs§**kw")
		call := g.pick("my_rule", "cc_library") + "(" + a + ")"
		return g.pick(call, "[¶"+call+" for x in y]")
	case 22:
		if top && r.Intn(6) == 0 {
			return "[f(a = g(x)) for x in y]"
		}
		return g.pick("exports_files([x])", "licenses([\"notice\"])", "register_toolchains(x)", "vardef(\"a\", \"b\")", "f(a = g(\"x\"))", v+" = f(\"a\", \"b\")", "f()")
	case 23:
		if !top {
			return "pass"
		}
		n := g.fresh("dup")
		val := "\"" + n + "\""
		second := g.pick("§duplicated-name§"+val, val+" + \"x\"", "\"x"+n+"\"", "§duplicated-name§"+val)
		one := "f(name = " + val + ")"
		two := g.pick("my_rule(", "f(") + g.pick("", "a = 1,¶ ") + "name = " + second + g.pick("", ",¶ b = 2") + ")"
		return one + "\n\n" + g.pick(two, v+" = "+two, "[¶"+two+" for x in y]", "if x:\n    "+two, v+" = ["+two+"]", "native_x."+two,
			"g(a = "+strings.ReplaceAll(two, "§duplicated-name§", "")+")")
	case 24:
		e := g.expr()
		return "# @unsorted-dict-items\n" + v + " = " + strings.ReplaceAll(e, "§unsorted-dict-items§", "")
	default:
		e := g.expr()
		switch r.Intn(14) {
		case 0:
			return "rule_x(\n    name = \"n" + v + "\",\n    a = " + e + ",\n)"
		case 1:
			return "if " + e + ":\n    pass"
		case 2:
			return v + " = [x,¶ " + e + "]"
		case 3:
			return v + " = {¶\"k\": " + e + "}"
		case 4:
			return v + " = x if " + e + " else y"
		case 5:
			return v + " = lambda q: " + e
		case 6:
			if top {
				return "def _" + v + "(p = " + e + "):\n    return " + g.expr()
			}
			return v + " = (x, " + e + ")"
		case 7:
			if top {
				return "[f(a = " + e + ") for q in x]"
			}
			return v + " = not " + e
		case 8:
			return v + " = x[" + e + "]"
		case 9:
			return "f(a = g(" + e + "))"
		case 10:
			return v + " = (x and " + e + ")"
		case 11:
			return v + " = [q for q in x if " + e + "]"
		default:
			return v + " = " + e
		}
	}
}

// docFunc is a function with or without a docstring.
func (g *styleGen) docFunc() string {
	r := g.r
	name := g.fresh(g.pick("fun", "_fun", "fun"))
	public := !strings.HasPrefix(name, "_")
	params := []string{}
	for _, p := range []string{"a", "b_c", "*args", "**kw"} {
		if r.Intn(2) == 0 {
			params = append(params, p)
		}
	}
	sig := []string{}
	for i, p := range params {
		if i > 0 && !strings.HasPrefix(p, "*") && r.Intn(2) == 0 {
			p += " = 1"
		}
		sig = append(sig, p)
	}
	head := "def " + name + "(" + strings.Join(sig, ", ") + "):\n"
	// statements of the body
	long := r.Intn(2) == 0
	returns := r.Intn(2) == 0
	hasDoc := r.Intn(4) > 0
	body, n := "", 0
	add := func(s string, c int) { body += s; n += c }
	want := 4
	if hasDoc {
		want = 2
	}
	if long {
		want = 5
		if hasDoc {
			want = 6
		}
	}
	if returns {
		want--
	}
	for n < want {
		switch k := r.Intn(5); {
		case k == 0 && want-n >= 2:
			add("    if x:\n        f()\n", 2)
		case k == 1 && want-n >= 3:
			add("    for i in x:\n        f()\n        f()\n", 3)
		case k == 2 && want-n >= 3:
			add("    if x:\n        f()\n    else:\n        f()\n", 3)
		case k == 3:
			add("    def inner(z):\n        f()\n        f()\n        f()\n        f()\n        return 1\n", 1)
		default:
			add("    f()\n", 1)
		}
	}
	if returns {
		add("    return x\n", 1)
	} else if r.Intn(2) == 0 && long {
		add("    return\n", 1)
	}
	if body == "" {
		body = "    pass\n"
	}
	if !hasDoc {
		if public && long {
			head = "§function-docstring§" + head
		}
		if r.Intn(3) == 0 {
			head += "    # a comment\n"
		}
		return strings.TrimRight(head+body, "\n")
	}
	required := public && long
	marks := ""
	doc := ""
	header := r.Intn(4) > 0
	text := "Does it."
	if r.Intn(8) == 0 {
		text = g.pick("For Skylark.", "skylark rules", "Skylark/x and skylark.")
		marks += "§skylark-docstring§"
	}
	if r.Intn(4) == 0 {
		doc = "\n    "
	}
	doc += text + "\n"
	if !header {
		doc += "    And more.\n"
		marks += "§function-docstring-header§"
	}
	doc += "\n"
	documented := map[string]bool{}
	var args []string
	for _, p := range params {
		if r.Intn(4) > 0 {
			args = append(args, p)
			documented[p] = true
		}
	}
	if r.Intn(4) == 0 {
		args = nil
		documented = map[string]bool{}
	}
	extra := ""
	if len(args) > 0 && r.Intn(4) == 0 {
		extra = g.pick("zz", "x_y", "arg")
	}
	if len(args) > 0 {
		if r.Intn(6) == 0 {
			doc += "    §function-docstring-args§Arguments:\n"
		} else {
			doc += "    Args:\n"
		}
		ind := "    " + g.pick(" ", "  ", "    ")
		for i, a := range args {
			if extra != "" && i == len(args)-1 {
				doc += ind + "§function-docstring-args§" + extra + ": text\n"
			}
			doc += ind + a + g.pick("", " (unused)", " (a, b)") + ": " + g.pick("text", "") + "\n"
			if r.Intn(3) == 0 {
				doc += ind + "  " + g.pick("continued", "more: text") + "\n"
			}
			if r.Intn(8) == 0 {
				doc += "\n"
			}
		}
		doc += "\n"
	}
	if required || len(args) > 0 {
		for _, p := range params {
			if !documented[p] {
				marks += "§function-docstring-args§"
				break
			}
		}
	}
	ret := r.Intn(2) == 0
	if ret {
		doc += "    Returns:\n      the value\n        sub: x\n"
	} else {
		if required && returns {
			marks += "§function-docstring-return§"
		}
		if r.Intn(3) == 0 {
			doc += "    Deprecated:\n      use it not\n"
		}
	}
	if r.Intn(4) == 0 {
		head += "    # a comment\n"
	}
	return strings.TrimRight(head+"    "+marks+`"""`+doc+"    \"\"\"\n"+body, "\n")
}

// loads gives load statements with known visibility findings.
func (g *styleGen) loads() (out []string) {
	own := g.pkg
	for n := g.r.Intn(3); n > 0; n-- {
		base := g.pick("dir/foo", "dir", "dir/foo/bar", "dir/fo", "dir/foobar", "java/dir", "other", "")
		dir := g.pick("internal", "private", "internals", "my_private", "public", "internal/sub", "private/sub", "internal/internal")
		repo := g.pick("", "", "@r", "@@r+")
		mod := repo + "//" + strings.TrimPrefix(base+"/"+dir, "/") + ":x.bzl"
		hidden := dir != "internals" && dir != "my_private" && dir != "public"
		inside := base == "" || own == base || strings.HasPrefix(own+"/", base+"/")
		if j := strings.Replace("/"+own, "/javatests/", "/java/", 1)[1:]; strings.HasPrefix(j+"/", base+"/") {
			inside = true
		}
		m := ""
		if hidden && !inside {
			m = "§bzl-visibility§"
		}
		out = append(out, "load("+m+"\""+mod+"\", \"s"+g.fresh("")+"\")")
	}
	return
}

func (g *styleGen) file() string {
	r := g.r
	var parts []string
	first := ""
	if r.Intn(2) == 0 {
		parts = append(parts, g.pick(`"""Module docs."""`, `"""About §S§Skylark."""`, "# comment\n\n\"docs\""))
		if strings.Contains(parts[0], "§S§") {
			parts[0] = "§skylark-docstring§" + strings.Replace(parts[0], "§S§", "", 1)
		}
	} else {
		first = "§module-docstring§"
		if r.Intn(3) == 0 {
			parts = append(parts, "# only a comment\n")
		}
	}
	mark := func(s string) string {
		if first == "" {
			return s
		}
		// the first line that is no comment
		lines := strings.Split(s, "\n")
		for i, l := range lines {
			if l != "" && !strings.HasPrefix(l, "#") {
				lines[i] = first + l
				first = ""
				break
			}
		}
		return strings.Join(lines, "\n")
	}
	for _, l := range g.loads() {
		parts = append(parts, mark(l))
	}
	if r.Intn(4) == 0 {
		// package() before or after rules, no assignments in front of it
		call := "package(¶default_visibility = [])"
		pre := []string{}
		late := ""
		for n := r.Intn(4); n > 0; n-- {
			switch r.Intn(5) {
			case 0:
				pre = append(pre, "# a block\n")
			case 1:
				pre = append(pre, "licenses([\"notice\"])")
			case 2:
				pre = append(pre, "package_group(name = \"pg"+g.fresh("")+"\")")
			case 3:
				pre = append(pre, "my_rule(name = \"r"+g.fresh("")+"\")")
				late = "§package-on-top§"
			default:
				pre = append(pre, "if x:\n    f()")
				late = "§package-on-top§"
			}
		}
		for _, p := range append(pre, late+call) {
			parts = append(parts, mark(p))
		}
	}
	for n := 1 + r.Intn(7); n > 0; n-- {
		switch r.Intn(8) {
		case 0: // in a function
			s := g.stmt(false)
			for k := r.Intn(2); k > 0; k-- {
				s += "\n" + g.stmt(false)
			}
			parts = append(parts, mark("def _"+g.fresh("w")+"():\n    f()\n"+styleIndent(s, "    ")))
		case 1: // in a branch of a function
			s := g.stmt(false)
			parts = append(parts, mark("def _"+g.fresh("w")+"():\n    if x:\n        f()\n"+styleIndent(s, "        ")+"\n    else:\n        f()"))
		default:
			parts = append(parts, mark(g.stmt(true)))
		}
	}
	return strings.Join(parts, g.pick("\n\n", "\n\n", "\n\n\n")) + "\n"
}

// styleSplit takes the marks out and tells the expected findings.
func styleSplit(r *rand.Rand, s string, kind FileKind) (src string, want []string) {
	for strings.Contains(s, "¶") {
		nl := ""
		if r.Intn(3) == 0 {
			nl = "\n        "
		}
		s = strings.Replace(s, "¶", nl, 1)
	}
	parts := strings.Split(s, "§")
	line := 1
	var sb strings.Builder
	for i, p := range parts {
		if i%2 == 1 {
			if styleApplies(p, kind) {
				want = append(want, fmt.Sprintf("%d %s", line, p))
			}
			continue
		}
		sb.WriteString(p)
		line += strings.Count(p, "\n")
	}
	sort.Strings(want)
	return sb.String(), want
}

func checkC45(c *Ctx) {
	c.Rule("files of every type put together from pieces that break a convention at a marked place and pieces that only look like it, alone, nested in each other's contexts, in functions and branches, on one line or several; the findings of 42 categories (category and line, each as often as expected) against the marks. Distinct non-trivial: distinct files with an expected finding.")
	one := func(i int) {
		r := rand.New(rand.NewSource(c.Seed*4583 + int64(i)*6977 + 45))
		g := &styleGen{r: r, kind: FileKind(r.Intn(5)), conf: map[string]bool{}}
		if r.Intn(2) == 0 {
			g.kind = []FileKind{KBuild, KBzl}[r.Intn(2)]
		}
		g.pkg = g.pick("dir/foo", "dir", "dir/foobar", "dir/foo/internal", "javatests/dir", "other/javatests/dir", "", "internal", "dir/foo/bar/private")
		src, want := styleSplit(r, g.file(), g.kind)
		log := fmt.Sprintf("%v in package %q\n%s", g.kind, g.pkg, src)
		c.Case(log)
		c.Guard("lint", log, func() {
			f, err := parseKind(g.kind, src)
			if err != nil {
				c.Violate("parse", err.Error(), log)
				return
			}
			f.WorkspaceRoot, f.Pkg, f.Label = "/ws", g.pkg, "file"
			var got []string
			for _, x := range warn.FileWarnings(f, styleCats, nil, warn.ModeWarn, warn.NewFileReader(func(string) ([]byte, error) { return nil, nil })) {
				got = append(got, fmt.Sprintf("%d %s", x.Start.Line, x.Category))
			}
			sort.Strings(got)
			if miss, extra := multiDiff(want, got); len(miss)+len(extra) > 0 {
				sig := "missing"
				var names []string
				if len(miss) > 0 {
					names = miss
				} else {
					sig, names = "extra", extra
				}
				sig += ":" + strings.Fields(names[0])[1]
				c.Violate(sig, fmt.Sprintf("expected but not reported: %q\nreported but not expected: %q", miss, extra), log)
			}
			for _, w := range want {
				c.Count("expected "+strings.Fields(w)[1], 1)
			}
		})
		key := ""
		if len(want) > 0 {
			key = log
		}
		c.Eval(key)
		c.Sample(log)
	}
	for i, n := 0, c.N(12000, 250000); i < n && !c.Failed(); i++ {
		one(i)
	}
}

// multiDiff compares two sorted lists.
func multiDiff(a, b []string) (onlyA, onlyB []string) {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	for _, x := range a {
		if m[x] > 0 {
			onlyA = append(onlyA, x)
			m[x] = 0
		}
	}
	for _, x := range b {
		if m[x] < 0 {
			onlyB = append(onlyB, x)
			m[x] = 0
		}
	}
	return
}
