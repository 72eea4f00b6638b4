package main

import (
	_ "embed"
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"github.com/bazelbuild/buildtools/build"
)

// Generator of programs that make the linter work: snippets that the warnings are about (see
// lint_corpus.txt), spliced, renamed and nested, and programs built from the constructs each
// warning looks for.

//go:embed lint_corpus.txt
var lintCorpusText string

var lintCorpus = func() (out []string) {
	for _, s := range strings.Split(lintCorpusText, "=====\n") {
		if strings.TrimSpace(s) == "" {
			continue
		}
		if _, err := build.ParseBzl("x.bzl", []byte(s)); err == nil {
			out = append(out, strings.TrimRight(s, "\n")+"\n")
		}
	}
	return
}()

type lintGen struct {
	r     *rand.Rand
	kind  FileKind
	names []string // variables
	fn    int      // depth of functions
	loop  int
	nc    int
	com   bool // generate comments
}

func newLintGen(r *rand.Rand, kind FileKind) *lintGen {
	return &lintGen{r: r, kind: kind, com: r.Intn(2) == 0, names: []string{"x", "y", "foo", "bar", "d", "dep", "ctx", "l", "I", "_p", "args"}}
}

func (g *lintGen) p(f float64) bool { return g.r.Float64() < f }
func (g *lintGen) v() string        { return pick(g.r, g.names...) }

func (g *lintGen) comment() string {
	g.nc++
	if g.p(0.15) {
		return "# buildifier: disable=" + pick(g.r, lintCats...)
	}
	if g.p(0.05) {
		return pick(g.r, "# Skylark macro", "# the skylark rules", "# see skylark.md and Skylark", "# Skylarkish", "# skylark_lib")
	}
	return fmt.Sprintf("# c%dz", g.nc)
}

// nativeRules are names that have to be loaded.
var nativeRules = []string{"cc_library", "cc_binary", "cc_test", "cc_import", "py_library", "py_binary", "java_library", "java_test", "java_import", "proto_library", "sh_binary", "sh_test", "android_binary", "aar_import", "cc_toolchain", "java_runtime", "proto_lang_toolchain", "java_proto_library", "cc_proto_library", "java_lite_proto_library", "objc_import"}
var nativeSyms = []string{"CcInfo", "JavaInfo", "ProtoInfo", "cc_common", "java_common", "proto_common", "ProtoLangToolchainInfo", "JavaPluginInfo", "DebugPackageInfo"}

func (g *lintGen) str() string {
	return pick(g.r, `"a"`, `"b"`, `"foo"`, `"//x:y"`, `":z"`, `"a.txt"`, `"*.cc"`, `"%s"`, `""`, `'q'`, `"""m"""`)
}

func (g *lintGen) attrArgs(n int) string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, pick(g.r, `cfg = "data"`, `cfg = "host"`, `cfg = "exec"`, "cfg = "+g.v(), "non_empty = True", "non_empty = False", "non_empty = not "+g.v(), "non_empty = "+g.v(), "non_empty = ("+g.e(1)+")",
			"single_file = True", "single_file = False", "single_file = "+g.v(), "allow_files = True", "allow_files = ["+g.str()+"]", "allow_files = "+g.v(), "mandatory = True", "default = "+g.e(1), `doc = "x"`, "allow_empty = True"))
	}
	seen := map[string]bool{}
	var res []string
	for _, s := range out {
		k := strings.SplitN(s, " ", 2)[0]
		if !seen[k] {
			seen[k] = true
			res = append(res, s)
		}
	}
	return g.join(res)
}

// join puts arguments together, in one line or several, with comments now and then.
func (g *lintGen) join(a []string) string {
	if len(a) == 0 {
		return ""
	}
	if g.p(0.7) {
		return strings.Join(a, ", ")
	}
	var sb strings.Builder
	sb.WriteString("\n")
	for i, s := range a {
		if g.com && g.p(0.15) {
			sb.WriteString("      " + g.comment() + "\n")
		}
		sb.WriteString("      " + s)
		if i < len(a)-1 || g.p(0.8) && !strings.HasPrefix(s, "*") {
			sb.WriteString(",")
		}
		if g.com && g.p(0.15) {
			sb.WriteString("  " + g.comment())
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func (g *lintGen) es(n, d int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, g.e(d))
	}
	return out
}

func (g *lintGen) kwargs(n, d int, names ...string) []string {
	var out []string
	for _, i := range g.r.Perm(len(names)) {
		if len(out) < n {
			out = append(out, names[i]+" = "+g.e(d))
		}
	}
	return out
}

// e is an expression that can be an operand or argument.
func (g *lintGen) e(d int) string {
	if d <= 0 {
		switch g.r.Intn(12) {
		case 0:
			return pick(g.r, "1", "0x1F", "None", "True", "False", "[]", "{}", "()")
		case 1, 2:
			return g.str()
		case 3:
			return pick(g.r, nativeSyms...)
		case 4:
			return pick(g.r, "PACKAGE_NAME", "REPOSITORY_NAME")
		case 5:
			return pick(g.r, "ctx.attr.dep.output_group", "ctx.attr.x.files", "dep.output_group", "ctx.label")
		default:
			return g.v()
		}
	}
	switch g.r.Intn(44) {
	case 0:
		return "(" + g.e(d-1) + " / " + g.e(d-1) + ")"
	case 1:
		return g.e(d-1) + " // " + g.e(d-1)
	case 2:
		return "[" + g.join(g.es(g.r.Intn(4), d-1)) + "]"
	case 3:
		return g.dict(d)
	case 4:
		return "(" + g.dict(d) + " + " + pick(g.r, g.dict(d), g.v()) + ")"
	case 5:
		return "(" + g.depset(d) + pick(g.r, " + ", " | ") + pick(g.r, g.depset(d), g.v()) + ")"
	case 6:
		return g.depset(d)
	case 7:
		return g.v() + ".union(" + g.e(d-1) + ")"
	case 8, 9:
		m := pick(g.r, "new_file", "experimental_new_directory", "file_action", "action", "empty_action", "template_action")
		a := g.es(g.r.Intn(3), d-1)
		if m == "new_file" && g.p(0.3) {
			a = append(a, "sibling = "+g.v())
		} else if m == "new_file" && g.p(0.2) {
			a = g.kwargs(2, d-1, "filename", "sibling")
		} else {
			a = append(a, g.kwargs(g.r.Intn(3), d-1, "executable", "command", "inputs", "outputs", "content", "output")...)
		}
		return pick(g.r, "ctx", "ctx", "ctx", "foo", "ctx.x") + "." + m + "(" + g.join(a) + ")"
	case 10, 11:
		return "attr." + pick(g.r, "label", "label_list", "string", "output", "license", "int_list", "string_dict") + "(" + g.attrArgs(g.r.Intn(4)) + ")"
	case 12:
		a := append([]string{}, pick(g.r, "_impl", "implementation = _impl", "implementation = foo", g.v()))
		if g.p(0.6) {
			a = append(a, `attrs = {"srcs": attr.label_list(`+g.attrArgs(2)+`), "`+pick(g.r, "licenses", "license", "deps", "applicable_licenses")+`": attr.label()}`)
		}
		return pick(g.r, "rule", "rule", "aspect", "repository_rule") + "(" + g.join(a) + ")"
	case 13:
		return pick(g.r, "provider()", "provider(fields = [])", `provider("doc")`, `provider(doc = "x")`, `provider("d", fields = ["a"])`)
	case 14:
		return "FileType([" + g.str() + "])"
	case 15:
		return pick(g.r, "glob", "native.glob") + "(" + pick(g.r, `["a.txt"]`, `["*.txt"]`, `["a", "b*", "c"]`, `include = ["a"], exclude = ["b"]`, `["a"] + ["b"]`, `[`+g.str()+`]`) + ")"
	case 16:
		return pick(g.r, "d", "foo", g.v()) + "." + pick(g.r, "get", "pop", "setdefault") + "(" + pick(g.r, "key = "+g.e(d-1), "k = "+g.e(d-1), g.e(d-1)+", default = "+g.e(d-1), "key = "+g.e(d-1)+", default = "+g.e(d-1), g.e(d-1), "default = "+g.e(d-1), g.e(d-1)+", **d") + ")"
	case 17:
		f := pick(g.r, "all", "any", "tuple", "list", "len", "str", "repr", "bool", "int", "dir", "type", "hasattr", "getattr", "select", "native.len", "len", "list")
		switch g.r.Intn(4) {
		case 0:
			return f + "(" + pick(g.r, "x", "elements") + " = " + g.e(d-1) + ")"
		case 1:
			return f + "(" + g.e(d-1) + pick(g.r, ", name = ", ", x = ", ", default = ") + g.e(d-1) + ")"
		case 2:
			return f + "(" + g.depset(d-1) + ")"
		}
		return f + "(" + g.join(g.es(1+g.r.Intn(3), d-1)) + ")"
	case 18:
		return "[" + g.e(d-1) + " for " + g.v() + " in " + pick(g.r, g.e(d-1), g.depset(d-1), g.str()) + pick(g.r, "", " if "+g.e(d-1)) + "]"
	case 19:
		return "{" + g.v() + ": " + g.e(d-1) + " for " + g.v() + ", " + g.v() + " in " + g.e(d-1) + "}"
	case 20:
		return "(" + g.e(d-1) + " if " + g.e(d-1) + " else " + g.e(d-1) + ")"
	case 21:
		return "(not " + g.e(d-1) + ")"
	case 22:
		return "(lambda " + g.v() + ": " + g.e(d-1) + ")"
	case 23:
		return "(" + g.e(d-1) + pick(g.r, " in ", " not in ") + pick(g.r, g.depset(d-1), g.e(d-1)) + ")"
	case 24:
		return g.v() + "[" + g.e(d-1) + "]"
	case 25:
		return "(" + g.e(d-1) + pick(g.r, " == ", " + ", " % ", " and ", " or ", " | ") + g.e(d-1) + ")"
	case 26, 27:
		return g.rule(d)
	case 28:
		return pick(g.r, "http_archive", "git_repository", "new_git_repository", "native.http_archive", "native.git_repository") + "(name = " + g.str() + ")"
	case 29:
		return pick(g.r, nativeSyms...) + pick(g.r, "", ".compile", "(x = 1)", ".x(foo)")
	case 30:
		return "ctx.actions.args().add(" + g.argsArgs(d) + ")"
	case 31:
		return "args.add(" + g.argsArgs(d) + ")"
	case 32:
		return "native." + pick(g.r, "package_name()", "repository_name()", "existing_rules()", "package(x = 1)", "workspace()")
	case 33:
		return "ctx.attr." + pick(g.r, "x", "dep", "deps") + ".output_group" + pick(g.r, "", ".foo", "[x]")
	case 34:
		return "print(" + g.e(d-1) + ")"
	case 35:
		return "fail(" + g.e(d-1) + ")"
	case 36:
		return pick(g.r, "f", "g", "_impl", "my_macro", "m2") + "(" + g.join(append(g.es(g.r.Intn(3), d-1), g.kwargs(g.r.Intn(3), d-1, "name", "a", "b")...)) + ")"
	case 37:
		return g.str() + pick(g.r, ".format(", ".join(") + g.e(d-1) + ")"
	case 38:
		return g.v() + "." + pick(g.r, "append", "extend", "update", "x", "files", "output_group", "to_list", "attr")
	default:
		return g.e(0)
	}
}

func (g *lintGen) argsArgs(d int) string {
	a := g.es(g.r.Intn(3), d-1)
	return g.join(append(a, g.kwargs(g.r.Intn(3), d-1, "before_each", "join_with", "map_fn", "format", "x")...))
}

func (g *lintGen) dict(d int) string {
	n := g.r.Intn(4)
	var it []string
	for i := 0; i < n; i++ {
		v := g.e(d - 1)
		if g.p(0.2) {
			v = g.dict(d - 1)
		}
		it = append(it, pick(g.r, `"a"`, `"b"`, `"c"`, `"aa"`, `"//x:y"`, `":z"`, g.str(), g.v())+": "+v)
	}
	return "{" + g.join(it) + "}"
}

func (g *lintGen) depset(d int) string {
	switch g.r.Intn(6) {
	case 0:
		return "depset()"
	case 1:
		return "depset([" + g.join(g.es(g.r.Intn(3), d-1)) + "])"
	case 2:
		return "depset(items = " + g.e(d-1) + ")"
	case 3:
		return "depset(" + g.e(d-1) + ", transitive = [" + g.e(d-1) + "])"
	case 4:
		return "depset(" + g.depset(d-1) + ")"
	}
	return "depset(direct = " + g.e(d-1) + ", order = " + g.str() + ")"
}

func (g *lintGen) rule(d int) string {
	k := pick(g.r, nativeRules...)
	if g.p(0.4) {
		k = pick(g.r, "native.", "native.", "foo.") + k
	}
	if g.p(0.1) {
		k = pick(g.r, "my_rule", "native.my_rule", "my_macro")
	}
	var a []string
	if g.p(0.1) {
		a = append(a, g.e(0))
	}
	if g.p(0.8) {
		a = append(a, "name = "+pick(g.r, `"a"`, `"b"`, `"c"`, "x", `"x" + y`, "name"))
	}
	a = append(a, g.kwargs(g.r.Intn(3), d-1, "srcs", "deps", "copts", "visibility", "tags")...)
	if g.p(0.1) {
		a = append(a, pick(g.r, "*args", "**d", "**kwargs"))
	}
	return k + "(" + g.join(a) + ")"
}

func (g *lintGen) target() string {
	switch g.r.Intn(10) {
	case 0:
		return g.v() + ", " + g.v()
	case 1:
		return "(" + g.v() + ", " + g.v() + ")"
	case 2:
		return "[" + g.v() + ", (" + g.v() + ", " + pick(g.r, "O", "l", "q") + ")]"
	case 3:
		return g.v() + "[" + g.e(0) + "]"
	case 4:
		return g.v() + ".x"
	case 5:
		return "(" + g.v() + ")"
	case 6:
		return pick(g.r, "_", "_a", "__b", "fooBar", "FooInfo", "FOO", "_FOO_BAR", "X_y", "O", "l", "I")
	}
	return g.v()
}

func (g *lintGen) docstring() string {
	body := pick(g.r,
		"Summary.", "Summary.\n\nMore.", "Summary.\nno blank", "\nSummary", "Summary.\n\nArgs:\n  x: the x\n  y: the y", "Summary.\n\nArgs:\n  x: the x\n\nReturns:\n  nothing", "Summary.\n\nArgs:\n x: bad indent\n  *args: a\n  **kwargs: b", "Summary.\n\nReturns:\n  a", "Summary.\n\nYields:\n  a\n\nDeprecated:\n  use b", "Summary.\n\nArgument:\n  x: a\n\nReturn:\n  z", "a skylark function in Skylark", "Summary.\n\nDeprecated: do not use", "", "Summary.\n\nArgs:\n  x (int): a\n  z: unknown\n    more\n\n    a: more")
	q := pick(g.r, `"""`, `"""`, `"""`, `"`)
	if q == `"` && strings.Contains(body, "\n") {
		q = `"""`
	}
	return q + body + q
}

func (g *lintGen) stmts(ind, n int, sb *strings.Builder) {
	for i := 0; i < n; i++ {
		g.stmt(ind, sb)
	}
}

func (g *lintGen) line(ind int, s string, sb *strings.Builder) {
	pad := strings.Repeat("    ", ind)
	if g.com && g.p(0.12) {
		sb.WriteString(pad + g.comment() + "\n")
		if g.p(0.2) {
			sb.WriteString("\n")
		}
	}
	sb.WriteString(pad + s)
	if g.com && g.p(0.12) && !strings.HasSuffix(s, "\n") {
		sb.WriteString("  " + g.comment())
	}
	sb.WriteString("\n")
	if g.p(0.15) {
		sb.WriteString("\n")
	}
}

func (g *lintGen) stmt(ind int, sb *strings.Builder) {
	top := ind == 0
	k := g.r.Intn(30)
	d := 1 + g.r.Intn(2)
	switch {
	case k < 4:
		g.line(ind, g.target()+" = "+g.e(d), sb)
	case k < 6:
		v := g.v()
		g.line(ind, pick(g.r, v+" += ["+g.e(d)+"]", v+" += ["+g.e(d)+"]", v+" += "+g.e(d), v+" = "+v+" + ["+g.e(1)+"]", v+" /= "+g.e(1), v+" += "+g.dict(1), v+" += "+g.depset(1), v+" -= 1", v+" += ["+g.e(0)+", "+g.e(0)+"]", v+" += ["+g.e(0)+" for "+g.v()+" in "+g.v()+"]", v+" |= "+g.depset(1)), sb)
	case k < 8:
		g.line(ind, g.e(d+1), sb)
	case k < 10:
		g.line(ind, g.rule(d), sb)
	case k < 12 && ind < 3 && g.kind != KBuild && g.kind != KWorkspace && g.kind != KModule && (top || g.p(0.3)):
		g.def(ind, sb)
	case k < 15 && ind < 4 && (g.fn > 0 || g.p(0.3)):
		g.line(ind, "if "+g.e(1)+":", sb)
		g.block(ind+1, sb)
		for g.p(0.25) {
			g.line(ind, "elif "+g.e(1)+":", sb)
			g.block(ind+1, sb)
		}
		if g.p(0.5) {
			g.line(ind, "else:", sb)
			g.block(ind+1, sb)
		}
	case k < 17 && ind < 4 && (g.fn > 0 || g.p(0.3)):
		g.line(ind, "for "+pick(g.r, g.v(), g.v()+", "+g.v(), "("+g.v()+", _)", "_")+" in "+pick(g.r, g.e(1), g.depset(1), g.str(), "range(3)")+":", sb)
		g.loop++
		g.block(ind+1, sb)
		g.loop--
	case k < 20 && g.fn > 0:
		g.line(ind, pick(g.r, "return", "return "+g.e(1), "return struct(x = "+g.e(1)+")", "fail("+g.e(0)+")", "return None", "pass"), sb)
	case k < 21 && g.loop > 0:
		g.line(ind, pick(g.r, "break", "continue"), sb)
	case k < 22 && top:
		g.line(ind, "load("+pick(g.r, `":a.bzl"`, `"//x:b.bzl"`, `"@rules_cc//cc:cc_library.bzl"`, `"@rules_java//java:java_library.bzl"`, `"//a/internal:x.bzl"`, `"//x/private:y.bzl"`, `"@r//internal:y.bzl"`, `"@rules_python//python:defs.bzl"`)+", "+pick(g.r, `"foo"`, `"cc_library"`, `bar = "foo"`, `"x", "y"`, `"java_library", d = "z"`, `"_p"`, `"py_library"`)+")", sb)
	case k < 23 && top:
		g.line(ind, pick(g.r, "package(default_visibility = "+g.e(1)+")", `licenses(["notice"])`, `package()`, `workspace(name = "w")`, `package_group(name = "g")`, `exports_files([`+g.str()+`])`, `module(name = "m")`, `bazel_dep(name = "rules_cc", repo_name = "my_cc")`), sb)
	case k < 24:
		g.line(ind, g.docstring(), sb)
	case k < 25 && g.com:
		g.line(ind, g.comment(), sb)
		if g.p(0.5) {
			sb.WriteString("\n")
		}
	case k < 26 && top:
		g.line(ind, "["+g.rule(1)+" for "+g.v()+" in "+g.e(1)+"]", sb)
	case k < 27:
		g.line(ind, pick(g.r, "x", "foo.bar", "[1, 2]", "x == y", "(x, y)", "-x", "pass", "None"), sb)
	default:
		g.line(ind, g.v()+" = "+g.e(d), sb)
	}
}

func (g *lintGen) block(ind int, sb *strings.Builder) {
	n := 1 + g.r.Intn(3)
	g.stmts(ind, n, sb)
	// a block of comments only is no block
	sb.WriteString(strings.Repeat("    ", ind) + pick(g.r, "pass", "x = 1", "y = x", "f(y)") + "\n")
}

func (g *lintGen) def(ind int, sb *strings.Builder) {
	name := pick(g.r, "f", "g", "_impl", "my_macro", "m2", "_h", "cc_library", "fooBar", "foo")
	perm := g.r.Perm(len(g.names))
	var ps []string
	n := g.r.Intn(4)
	for i := 0; i < n; i++ {
		ps = append(ps, g.names[perm[i]])
	}
	if g.p(0.3) {
		ps = append(ps, "name")
	}
	for i := range ps {
		if g.p(0.2) {
			for j := i; j < len(ps); j++ {
				ps[j] += " = " + g.e(1)
			}
			break
		}
	}
	if g.p(0.2) {
		ps = append(ps, "*args2")
	}
	if g.p(0.2) {
		ps = append(ps, "**kwargs")
	}
	s := "def " + name + "(" + g.join(ps) + ")"
	g.line(ind, s+":", sb)
	loop := g.loop
	g.loop = 0
	g.fn++
	if g.p(0.5) {
		sb.WriteString(strings.Repeat("    ", ind+1) + indentDoc(g.docstring(), ind+1) + "\n")
	}
	g.block(ind+1, sb)
	if g.p(0.3) {
		sb.WriteString(strings.Repeat("    ", ind+1) + "return " + g.e(1) + "\n")
	}
	g.fn--
	g.loop = loop
}

func indentDoc(s string, ind int) string {
	l := strings.Split(s, "\n")
	for i := 1; i < len(l); i++ {
		if l[i] != "" {
			l[i] = strings.Repeat("    ", ind) + l[i]
		}
	}
	return strings.Join(l, "\n")
}

var lintIdentRe = regexp.MustCompile(`\b(foo|bar|baz|x|y|z|dep|deps|args|s|a|b|c|d|native)\b`)

// snippet is a snippet of the corpus, perhaps with names exchanged.
func (g *lintGen) snippet() string {
	s := lintCorpus[g.r.Intn(len(lintCorpus))]
	if g.p(0.3) {
		m := map[string]string{}
		t := lintIdentRe.ReplaceAllStringFunc(s, func(w string) string {
			if w == "native" {
				return w
			}
			if m[w] == "" {
				m[w] = pick(g.r, "foo", "bar", "x", "y", "dep", "args", "q")
			}
			return m[w]
		})
		if _, err := build.ParseBzl("x.bzl", []byte(t)); err == nil {
			return t
		}
	}
	return s
}

// file gives a file that parses as one of g.kind.
func (g *lintGen) file() string {
	for try := 0; ; try++ {
		var sb strings.Builder
		if g.p(0.2) {
			sb.WriteString(g.docstring() + "\n")
		}
		if g.p(0.3) && g.com {
			sb.WriteString(g.comment() + "\n")
			if g.p(0.5) {
				sb.WriteString("\n")
			}
		}
		n := 1 + g.r.Intn(6)
		for i := 0; i < n; i++ {
			switch g.r.Intn(4) {
			case 0, 1:
				s := g.snippet()
				if g.p(0.2) && g.kind == KBzl {
					pad := "def " + pick(g.r, "f", "g", "h") + "(" + pick(g.r, "", "x", "ctx", "name, **kwargs") + "):\n"
					if g.p(0.3) {
						pad += "    " + indentDoc(g.docstring(), 1) + "\n"
					}
					if !strings.Contains(s, "load(") {
						s = pad + "    " + strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", "\n    ") + "\n"
					}
				}
				sb.WriteString(s)
				if g.p(0.5) {
					sb.WriteString("\n")
				}
			default:
				g.stmts(0, 1+g.r.Intn(3), &sb)
			}
		}
		s := sb.String()
		if _, err := parseKind(g.kind, s); err == nil {
			return s
		}
		if try > 50 {
			return "x = 1\n"
		}
	}
}
