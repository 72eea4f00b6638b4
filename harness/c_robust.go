package main

import (
	_ "embed"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/bzlenv"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/edit/bzlmod"
	"github.com/bazelbuild/buildtools/warn"
)

func init() { checks["C50"] = checkC50 }

// ---- C50: no file that parses makes a tool crash ----
//
// The parser accepts much more than the language: programs are generated from
// the grammar alone, with the names the tools look for in all places.

//go:embed names.txt
var namesTxt string
var toolNames = strings.Fields(namesTxt)

type rbGen struct {
	r     *rand.Rand
	kind  FileKind
	names []string // a few names, so that they meet again
	depth int
	fns   int
}

func (g *rbGen) name() string { return pick(g.r, g.names...) }

func (g *rbGen) ident() string {
	n := g.name()
	if i := strings.IndexByte(n, '.'); i >= 0 {
		n = n[:i]
	}
	for _, k := range []string{"and", "or", "not", "in", "is", "if", "else", "elif", "for", "def", "load", "lambda", "return", "pass", "break", "continue", "while"} {
		if n == k {
			return "x"
		}
	}
	if n == "" {
		return "x"
	}
	return n
}

func (g *rbGen) str() string {
	r := g.r
	s := pick(r, g.name(), g.name(), "", ":x", "//a:b", "//a", "@r//a:b", "@r", "//visibility:public", ":a.bzl", "//p:q.bzl", "a b", "Args:\n  x: y", "Args:\n\n    f: z\n\nReturns:\n  1", "Deprecated: no", "%s", "{}")
	switch r.Intn(8) {
	case 0:
		return "'" + strings.ReplaceAll(s, "\n", "\\n") + "'"
	case 1, 2:
		return `"""` + s + `"""`
	case 3:
		return `r"` + strings.ReplaceAll(s, "\n", " ") + `"`
	}
	return `"` + strings.ReplaceAll(s, "\n", "\\n") + `"`
}

func (g *rbGen) brk() string {
	return pick(g.r, "", "", "", "", "", " ", "\n", "\n  ", " # c\n", "\n# c\n", "\n\n# c\n\n# d\n", " # buildifier: disable="+pick(g.r, "all", "load", "unsorted-dict-items")+"\n")
}

func (g *rbGen) list(n, d int, item func(d int) string) string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, g.brk()+item(d))
	}
	s := strings.Join(l, ",")
	if n > 0 && g.r.Intn(4) == 0 {
		s += ","
	}
	return s + g.brk()
}

func (g *rbGen) size() int { return []int{0, 1, 1, 2, 2, 3}[g.r.Intn(6)] }

func (g *rbGen) expr(d int) string {
	r := g.r
	if d <= 0 {
		switch r.Intn(7) {
		case 0, 1, 2:
			return g.ident()
		case 3:
			return pick(r, "0", "1", "017", "0x1f", "1.5", ".5", "1e3", "0o7", "1.", "00")
		case 4:
			return pick(r, "[]", "{}", "()", "f()", "None", "True", "False")
		}
		return g.str()
	}
	e := func() string { return g.expr(d - 1 - r.Intn(2)) }
	switch r.Intn(22) {
	case 0, 1:
		return "[" + g.list(g.size(), d-1, g.expr) + "]"
	case 2:
		n := g.size()
		if n == 1 {
			return "(" + e() + ",)"
		}
		return "(" + g.list(n, d-1, g.expr) + ")"
	case 3:
		return "{" + g.list(g.size(), d-1, func(d int) string { return g.expr(d-1) + ":" + g.brk() + g.expr(d-1) }) + "}"
	case 4:
		return "{" + g.list(1+r.Intn(2), d-1, g.expr) + "}"
	case 5, 6, 7, 8, 9:
		return g.call(d)
	case 10:
		return e() + "." + g.ident()
	case 11:
		return e() + "[" + e() + "]"
	case 12:
		return e() + "[" + pick(r, "", e()) + ":" + pick(r, "", e()) + pick(r, "", ":", ":"+e()) + "]"
	case 13:
		return pick(r, "-", "+", "~", "not ", "*", "-", "not ") + e()
	case 14, 15, 16:
		return e() + " " + pick(r, "+", "+", "+", "-", "*", "/", "//", "%", "%", "|", "&", "^", "<<", ">>", "and", "or", "==", "!=", "<", ">=", "in", "not in", "is", "is not") + " " + e()
	case 17:
		return e() + " if " + e() + " else " + e()
	case 18:
		return "(lambda " + g.params(d-1, false) + ": " + e() + ")"
	case 19:
		return "(" + g.brk() + e() + g.brk() + ")"
	case 20:
		body, b := e(), pick(r, "[]", "()", "{}")
		if b == "{}" && r.Intn(3) > 0 {
			body += ": " + e()
		}
		s := b[:1] + g.brk() + body
		for n := 1 + r.Intn(2); n > 0; n-- {
			s += g.brk() + " for " + g.target(d-1) + " in " + g.expr(0)
			if r.Intn(3) == 0 {
				s += " if " + g.expr(0)
			}
		}
		return s + g.brk() + b[1:]
	}
	return g.expr(0)
}

func (g *rbGen) call(d int) string {
	r := g.r
	f := g.name()
	switch r.Intn(6) {
	case 0:
		f = g.expr(d - 2)
	case 1:
		f = g.expr(d-2) + "." + g.ident()
	case 2:
		f = g.ident() + "." + g.ident()
	}
	return f + "(" + g.list(r.Intn(5), d-1, func(d int) string {
		switch r.Intn(12) {
		case 0:
			return "*" + g.expr(d-1)
		case 1:
			return "**" + g.expr(d-1)
		case 2, 3, 4, 5:
			return g.ident() + pick(r, " = ", "=") + g.expr(d-1)
		case 6:
			return "name = " + g.str()
		case 7:
			return g.expr(d-1) + " = " + g.expr(d-1)
		}
		return g.expr(d - 1)
	}) + ")"
}

func (g *rbGen) target(d int) string {
	switch g.r.Intn(6) {
	case 0:
		return g.ident() + ", " + g.ident()
	case 1:
		return "(" + g.ident() + ", [" + g.ident() + "])"
	case 2:
		return g.expr(d - 1)
	}
	return g.ident()
}

func (g *rbGen) typ() string {
	return pick(g.r, "int", "list[int]", "list[int | str]", "x.y", "a[b, c]", "dict[str, list[int]]", "callable[[], int]", "None")
}

func (g *rbGen) params(d int, types bool) string {
	r := g.r
	return g.list(r.Intn(4), d, func(d int) string {
		p := g.ident()
		if types && r.Intn(5) == 0 {
			p += ": " + g.typ()
		}
		switch r.Intn(9) {
		case 0:
			return "*" + p
		case 1:
			return "**" + p
		case 2:
			return "*"
		case 3, 4:
			return p + " = " + g.expr(d-1)
		case 5:
			return g.expr(d-1) + pick(r, "", " = 1")
		}
		return p
	})
}

func (g *rbGen) stmts(d int, ind string) string {
	r := g.r
	var b strings.Builder
	for n := 1 + r.Intn(4); n > 0; n-- {
		if r.Intn(6) == 0 {
			b.WriteString(ind + pick(r, "# c", "# buildifier: disable=load", "# buildifier: leave-alone", "# do not sort", "# keep sorted", "# @unused", "#", "# buildozer: disable=all") + "\n")
		}
		if r.Intn(6) == 0 {
			b.WriteString("\n")
		}
		b.WriteString(ind)
		in := ind + "  "
		line := func(s string) {
			// no line break outside of brackets
			b.WriteString(s + pick(r, "", "", "", "", "", "  # c", " # @unused") + "\n")
		}
		x := func(d int) string { return "(" + g.expr(d) + ")" }
		switch k := r.Intn(16); {
		case k < 4:
			line(g.call(3))
		case k < 6:
			line(pick(r, g.ident(), g.ident(), g.target(2), g.expr(1)) + " " + pick(r, "=", "=", "+=", "-=", "/=", "|=", "//=") + " " + g.expr(3))
		case k == 6:
			line(g.expr(3))
		case k == 7:
			line(g.str())
		case k == 8 || k == 9 && d > 0:
			fmt.Fprintf(&b, "def %s(%s)%s:\n", g.ident(), g.params(2, true), pick(r, "", "", " -> "+g.typ()))
			if r.Intn(3) == 0 {
				b.WriteString(in + `"""` + strings.ReplaceAll(pick(r, "Doc.\n\nArgs:\n  "+g.ident()+": x\n\nReturns:\n  y\n", "Doc\n", "", "Args:", "Returns", " Deprecated:\n  "+g.ident(), "D.\nArgs:\n  *"+g.ident()+": q"), "\n", "\n"+in) + `"""` + "\n")
			}
			b.WriteString(g.stmts(d-1, in))
		case k == 10 && d > 0:
			fmt.Fprintf(&b, "for %s in %s:\n%s", g.target(1), x(1), g.stmts(d-1, in))
		case (k == 11 || k == 9) && d > 0:
			fmt.Fprintf(&b, "if %s:\n%s", x(2), g.stmts(d-1, in))
			if r.Intn(3) == 0 {
				fmt.Fprintf(&b, "%selif %s:\n%s", ind, x(1), g.stmts(d-1, in))
			}
			if r.Intn(2) == 0 {
				fmt.Fprintf(&b, "%selse:\n%s", ind, g.stmts(d-1, in))
			}
		case k == 12:
			line("load(" + g.list(1+r.Intn(4), 0, func(int) string {
				return pick(r, g.str(), g.str(), g.ident()+" = "+g.str(), `":`+g.ident()+`.bzl"`)
			}) + ")")
		case k == 13:
			line(pick(r, "return", "return "+g.expr(2), "pass", "break", "continue", "return "+g.expr(1)+", "+g.expr(1)))
		case k == 14:
			line(g.ident() + " = " + g.ident())
		case k == 15:
			line(g.ident() + pick(r, "", ": "+g.typ()+" = 1") + pick(r, "", "; "+g.call(1)))
		default:
			line(g.call(2))
		}
	}
	return b.String()
}

func (g *rbGen) file() string {
	r := g.r
	for i := 0; i < 6+r.Intn(6); i++ {
		g.names = append(g.names, toolNames[r.Intn(len(toolNames))])
	}
	common := []string{"name", "deps", "srcs", "visibility", "select", "glob", "native", "ctx", "attr", "rule", "depset", "package", "x", "y", "f", "bazel_dep", "use_repo", "use_extension", "module", "kwargs", "doc", "attrs", "macro", "provider", "fail", "_x", "licenses", "struct"}
	for i := 0; i < 5; i++ {
		g.names = append(g.names, common[r.Intn(len(common))])
	}
	var b strings.Builder
	for n := 1 + r.Intn(5); n > 0; n-- {
		// keep what the parser accepts
		for try := 0; try < 8; try++ {
			if t := g.stmts(2, ""); parses(g.kind, t) {
				b.WriteString(t)
				break
			}
		}
	}
	return b.String()
}

// value is an attribute value as commands edit them, with parts missing or of the wrong kind.
func (g *rbGen) value(d int) string {
	r := g.r
	lit := func() string {
		return pick(r, `":x"`, `"x"`, `"//a:b"`, `"a.cc"`, `"q"`, `"v"`, `""`, `"1"`, `["v"]`, `"//visibility:public"`, g.str())
	}
	if d <= 0 {
		return pick(r, lit(), lit(), lit(), g.ident(), "[]", "{}", "()", "select()", "glob()", "1", "None", "-1", "x.y", "*[]", "[[]]")
	}
	v := func() string { return g.value(d - 1) }
	dict := func() string {
		return "{" + g.list(g.size(), d, func(int) string {
			return pick(r, `"k"`, `"//conditions:default"`, lit(), g.value(0)) + ": " + v()
		}) + "}"
	}
	switch r.Intn(12) {
	case 0, 1, 2:
		return "[" + g.list(g.size(), d, func(int) string { return pick(r, lit(), lit(), v()) }) + "]"
	case 3, 4:
		return "select(" + pick(r, "", dict(), dict(), dict(), dict()+", "+v(), v(), "**"+dict(), "x = "+dict(), "*"+v(), dict()+", no_match_error = "+v()) + ")"
	case 5, 6:
		return v() + " + " + v()
	case 7, 8:
		return dict()
	case 9:
		return pick(r, "glob", "list", "depset", "x.y", "select", "dict") + "(" + g.list(g.size(), d, func(int) string { return pick(r, "", "", "x = ", "*", "exclude = ") + v() }) + ")"
	case 10:
		return pick(r, "("+v()+")", "("+v()+",)", "["+v()+" for x in "+v()+"]", v()+" if x else "+v(), v()+" % "+v(), v()+" | "+v(), v()+"[0]")
	}
	return lit()
}

// rules is a file of rules whose attributes are such values.
func (g *rbGen) rules() string {
	r := g.r
	g.names = []string{"name", "deps", "srcs", "visibility", "x", "y", "a", "testonly", "licenses", "tags", toolNames[r.Intn(len(toolNames))]}
	var b strings.Builder
	for n := 1 + r.Intn(4); n > 0; n-- {
		for try := 0; try < 8; try++ {
			kind := pick(r, "cc_library", "cc_library", "genrule", "package", "exports_files", "x", "use_repo", "bazel_dep", "licenses", g.ident(), "x.y", "load", "use_extension", "override_dep")
			name := ""
			if r.Intn(4) > 0 {
				name = pick(r, `name = "a",`, `name = "x",`, `name = "y",`, `"x",`)
			}
			t := kind + "(" + name + g.list(r.Intn(4), 0, func(int) string {
				return pick(r, "deps = ", "deps = ", "deps = ", "srcs = ", "srcs = ", "visibility = ", "", "**", "*", "testonly = ", "licenses = ", "cmd = ", "x = ", "name = ", g.ident()+" = ") + g.value(1+r.Intn(3))
			}) + ")\n"
			if r.Intn(4) == 0 {
				t = g.ident() + pick(r, " = ", " += ", " = ") + pick(r, g.value(3)+"\n", t)
			}
			if r.Intn(5) == 0 {
				t = pick(r, "# c\n", "# buildozer: disable=all\n", "if x:\n  ", "[", "for x in []:\n  ", "def f():\n  ") + t
				if t[0] == '[' {
					t = t[:len(t)-1] + " for x in " + g.value(1) + "]\n"
				}
			}
			if parses(g.kind, t) {
				b.WriteString(t)
				break
			}
		}
	}
	return b.String()
}

// what the fixes rewrite; @ stands for an expression with comments and line
// breaks around it (all of them inside of brackets), $ for a name.
var fixTemplates = []string{
	`attr.label(cfg = "data", default = @)`, `attr.label(cfg = @)`, `attr.label_list(non_empty = @)`, `attr.label_list(@, non_empty = @)`,
	`attr.label(single_file = @)`, `attr.label(allow_files = @, single_file = @)`, `attr.output(default = @)`, `attr.output_list(default = @)`, `attr.label(default = @, cfg = "host")`,
	`ctx.new_file(@)`, `ctx.new_file(@, @)`, `ctx.new_file(@, @, @)`, `ctx.experimental_new_directory(@, sibling = @)`, `ctx.file_action(@)`, `ctx.file_action(output = @, content = @, executable = @)`,
	`ctx.action(@)`, `ctx.action(command = @, executable = @)`, `ctx.action(executable = @)`, `ctx.action(command = @)`, `ctx.empty_action(@)`, `ctx.template_action(@)`, `ctx.template_action(template = @, substitutions = @)`,
	`args = ctx.actions.args()\n    args.add(@)\n    args.add(@, @, before_each = @)\n    args.add(@, join_with = @)\n    args.add([@], format = @, map_fn = @)\n    args.add_all(@, map_each = @)`,
	`[x for x in depset(@)]`, `for x in depset(@) + @:\n        pass`, `x = depset(@)\n    y = [z for z in x]\n    y in x\n    len(x)\n    list(x)\n    x + x`,
	`depset(items = @)`, `depset(@) + @`, `depset(@) | depset(@)`, `depset(@).union(@)`, `x = depset(@)\n    x += @`, `x = depset()\n    for y in z:\n        x = depset(@, transitive = [x, @])`,
	`{@: @} + {@: @}`, `dict(@) + {}`, `x = {}\n    x += {@: @}`, `d.has_key(@)`, `(@) / (@)`, `x = (@)\n    x /= (@)`, `(@) // @`, `(@).has_key(@)`,
	`git_repository(@)`, `new_git_repository(name = @)`, `http_archive(name = @)`, `native.http_archive(@)`, `native.cc_library(@)`, `native.glob(@)`, `native.package(@)`, `cc_library(@)`, `py_library(@, name = @)`, `proto_library(@)`,
	`ctx.attr.x.output_group`, `ctx.attr.x.output_group[@]`, `PACKAGE_NAME + @`, `REPOSITORY_NAME + @`, `[@][PACKAGE_NAME]`, `$(@, @)`, `native.$(@)`,
	`FileType(@)`, `FileType([@])`, `x += [@]`, `x += [@, @]`, `x += [@ for y in @]`, `x = []\n    x += [@]`, `for c in "abc":\n        x += [@]`,
	`glob([@])`, `glob(include = [@], exclude = @)`, `glob(@)`, `"a\d" + (@)`, `'a"b' + 'c'`, `{"b": @, "a": @}`, `{@: @, @: @}`, `$({"b": @, "a": @})`,
	`rule(implementation = @)`, `rule(implementation = $, attrs = {"$": @, "x": attr.label(@)})`, `rule(@)`, `repository_rule(attrs = @)`, `provider(@)`, `provider(doc = @)`, `aspect(@)`, `macro(@)`, `macro(implementation = $, attrs = @)`,
	`len(@)`, `[x for x in "abc"]`, `enumerate(@)`, `zip(@, @)`, `max(@)`, `fail(@)`, `fail(msg = @)`, `print(@)`, `return struct(@)`, `return struct(x = @)`, `dep.java`, `$.to_list()`, `range(len(@))`, `x = (@) if (@) else (@)`,
	`if x == None:\n        return @`, `$ = lambda: (@)`, `$ = lambda x: (@)`, `[$ for $ in @ if @]`, `[[$ for x in @] for $ in @]`,
	`x.extend(@)`, `x.append(@)`, `x.extend([@])`, `x.y.extend(@)`, `varref(@)`, `[varref("x"), @]`, `cc_library(name = @, visibility = [@], testonly = @, copts = ["a b", @])`, `genrule(name = "x", deps = [@], cmd = "$(location x) y")`,
	`package(@)`, `package(default_visibility = @)`, `licenses(@)`, `licenses([@])`, `exports_files(@)`, `exports_files([@], visibility = @)`, `load(":a.bzl", "x", y = "z")`, `load("//a:a.bzl", "$")`, `cc_library(deps = [@] + [@])`, `cc_library(deps = [@] + [@] + select({@: [@]}))`,
	`module(@)`, `bazel_dep(name = @, version = @)`, `bazel_dep(@)`, `$ = use_extension("//:e.bzl", "e", @)`, `use_repo($, @)`, `use_repo(@)`, `$.tag(@)`, `archive_override(@)`, `use_repo_rule(@)`, `include(@)`, `include("//:x")\ninclude("//a:y.MODULE.bazel")`, `inject_repo(@)`,
	`select({@: [@]})`, `select({"a": @}, @)`, `Label(@)`, `native.existing_rules(@)`, `attr.string(@)`, `DefaultInfo(@)`, `OutputGroupInfo(@)`, `set(@)`, `$.split(@)[0]`, `not (@)`, `-(@)`, `(@).$`, `(@)[@]`, `(@)(@)`,
}

func (g *rbGen) fixable() string {
	r := g.r
	var b strings.Builder
	for n := 2 + r.Intn(5); n > 0; n-- {
		t := strings.ReplaceAll(fixTemplates[r.Intn(len(fixTemplates))], `\n`, "\n")
		for try := 0; try < 8; try++ {
			var s strings.Builder
			for _, ch := range t {
				switch ch {
				case '@':
					if r.Intn(12) > 0 {
						s.WriteString(pick(r, "", "", "\n# c\n", " # c\n", "\n") + g.expr(r.Intn(3)) + pick(r, "", "", "", " # d\n", "\n# e\n", "\n", ","))
					}
				case '$':
					s.WriteString(g.ident())
				default:
					s.WriteRune(ch)
				}
			}
			x := s.String()
			switch r.Intn(8) {
			case 0, 1, 2, 3:
				x = "def " + g.ident() + "(" + pick(r, "ctx", "", "x", "name", "x, *args, **kwargs") + "):\n    " + x
			case 4:
				if !strings.Contains(t, "\n") {
					x = pick(r, "x = ", "x += ", "y = ") + x
				}
			case 5:
				if !strings.Contains(t, "\n") {
					x = pick(r, "f(", "[", "(", "-(", "{", "f(x = ", "f(*", "not (") + x
					x += strings.Map(func(c rune) rune {
						return map[rune]rune{'(': ')', '[': ']', '{': '}'}[c]
					}, string(x[strings.IndexAny(x, "([{")]))
				}
			}
			if !strings.Contains(t, "\n") {
				x += pick(r, "", "", "", "  # f")
			}
			if x += "\n"; r.Intn(6) == 0 {
				x = "# g\n" + x
			}
			if parses(g.kind, x) {
				b.WriteString(x)
				break
			}
		}
	}
	return b.String()
}

func parses(kind FileKind, s string) bool {
	_, err := parseKind(kind, s)
	return err == nil
}

// crashSite names the function of the repository a panic came from.
func crashSite() string {
	pc := make([]uintptr, 60)
	fr := runtime.CallersFrames(pc[:runtime.Callers(3, pc)])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "bazelbuild/buildtools") {
			return f.Function[strings.LastIndex(f.Function, "/")+1:]
		}
		if !more {
			return "?"
		}
	}
}

func checkC50(c *Ctx) {
	c.Rule("random files of every type made of all the parser accepts, far beyond what the language means (arbitrary keywords, targets, parameters and callees; the names the tools look for in any place; comments anywhere); each goes through formatting, all warnings (report, suggest, fix), the rule and name APIs and buildozer. Monitored: panics, hangs, internal errors, output that doesn't parse. Distinct non-trivial: distinct files that parse and have at least three lines.")
	all := append([]string{}, warn.AllWarnings...)
	run := func(kind FileKind, s string, stage *string) (string, string) {
		parse := func() *build.File {
			f, err := parseKind(kind, s)
			if err != nil {
				return nil
			}
			f.Pkg, f.Label = "a", filepath.Base(kindFile[kind])
			return f
		}
		f := parse()
		if f == nil {
			return "", ""
		}
		reader := func() *warn.FileReader {
			return warn.NewFileReader(func(n string) ([]byte, error) {
				if strings.HasSuffix(n, "none.bzl") {
					return nil, os.ErrNotExist
				}
				return []byte(s), nil
			})
		}
		*stage = "walk"
		build.Walk(f, func(x build.Expr, stk []build.Expr) {
			if x != nil {
				x.Span()
				x.Comment()
			}
		})
		build.WalkStatements(f, func(build.Expr, []build.Expr) error { return nil })
		bzlenv.WalkOnceWithEnvironment(f, bzlenv.NewEnvironment(), func(*build.Expr, *bzlenv.Environment) {})
		*stage = "rules"
		for _, r := range append(f.Rules(""), f.Rules("bazel_dep")...) {
			r.Name()
			r.Kind()
			r.ExplicitName()
			r.ImplicitName = "n"
			for _, k := range append(r.AttrKeys(), "deps") {
				r.Attr(k)
				r.AttrDefn(k)
				r.AttrLiteral(k)
				r.AttrString(k)
				r.AttrStrings(k)
				edit.AllLists(r.Attr(k))
				edit.AllSelects(r.Attr(k))
				edit.ListFind(r.Attr(k), ":x", "a")
			}
		}
		*stage = "names"
		edit.UsedSymbols(f)
		edit.UsedTypes(f)
		edit.IndexOfLast(f.Stmt, "x")
		edit.PackageDeclaration(parse())
		edit.FindRuleByName(f, "x")
		for i := 1; i < 12; i++ {
			edit.FindRuleByName(f, fmt.Sprintf("%%%d", i))
		}
		bzlmod.Proxies(f, "//:x.bzl", "ext", false)
		bzlmod.AllProxies(f, "x")
		bzlmod.UseRepos(f, []string{"x", "y"})
		*stage = "print"
		build.FormatWithoutRewriting(f)
		*stage = "lint"
		warn.FileWarnings(f, all, nil, warn.ModeWarn, reader())
		*stage = "suggest"
		warn.FileWarnings(parse(), all, nil, warn.ModeSuggest, reader())
		*stage = "fix"
		g := parse()
		warn.FixWarnings(g, all, false, reader())
		if out := string(build.Format(g)); !parses(kind, out) {
			return "fixed file doesn't parse", out
		}
		*stage = "editfix"
		g = parse()
		edit.FixFile(g, "a", nil)
		if out := string(build.Format(g)); !parses(kind, out) {
			return "file fixed by buildozer doesn't parse", out
		}
		*stage = "format"
		if out := string(build.Format(f)); !parses(kind, out) {
			return "formatted file doesn't parse", out
		}
		*stage = "format again"
		build.Format(f)
		return "", ""
	}
	one := func(i int) {
		r := rand.New(rand.NewSource(c.Seed*8831 + int64(i)*6007 + 50))
		kind := FileKind(r.Intn(5))
		g := &rbGen{r: r, kind: kind}
		src := g.file()
		switch r.Intn(8) {
		case 0:
			src = g.rules()
		case 1, 2, 3, 4:
			src = g.fixable()
		}
		c.Case(src)
		if _, err := parseKind(kind, src); err != nil {
			c.Count("rejected_by_the_parser", 1)
			return
		}
		key := ""
		if strings.Count(src, "\n") > 2 {
			key = kindNames[kind] + src
		}
		c.Eval(key)
		if i%500 == 0 {
			c.Sample(src)
		}
		c.pureCheck(src, func(s string) (sig, detail string) {
			stage := "parse"
			defer func() {
				if p := recover(); p != nil {
					sig, detail = "panic:"+crashSite(), fmt.Sprintf("%s of a %s file: %v", stage, kindNames[kind], p)
				}
			}()
			return run(kind, s, &stage)
		})
	}
	for i := 0; i < c.N(6000, 100000) && !c.Failed(); i++ {
		one(i)
	}
	var fixes []string
	for _, f := range edit.AllRuleFixes {
		fixes = append(fixes, f.Name)
	}
	for _, f := range edit.FileLevelFixes {
		fixes = append(fixes, f.Name)
	}
	fixes = fixes[:len(fixes):len(fixes)]
	c.parallel(c.N(2000, 25000), 8, 50, func(i int, r *rand.Rand) {
		kind := []FileKind{KBuild, KBuild, KModule}[r.Intn(3)]
		g := &rbGen{r: r, kind: kind}
		src := ""
		if r.Intn(3) == 0 {
			src = g.file()
		} else {
			src = g.rules()
		}
		if !parses(kind, src) {
			return
		}
		name, targets := "a/BUILD", []string{"//a:%1", "//a:%2", "//a:*", "//a:all", "//a:__pkg__", "//a:x", "//a:a", "//a:%cc_library", "//a:all", "//a:all", "//a:all", "//a:all", "//a:all", "//a:%" + g.ident(), "//a:" + g.ident(), "//a:%" + g.ident() + "." + g.ident()}
		if kind == KModule {
			name, targets = "MODULE.bazel", []string{"//MODULE.bazel:all", "//MODULE.bazel:all", "//MODULE.bazel:%1", "//MODULE.bazel:%bazel_dep", "//MODULE.bazel:%use_repo", "//MODULE.bazel:" + g.ident()}
		}
		args := []string{"-k", pick(r, "-quiet=false", "-shorten_labels=false", "-edit-variables", "-eol-comments=false", "-delete_with_comments=false")}
		attr := func() string {
			return pick(r, g.ident(), g.ident(), "name", "deps", "deps", "deps", "deps", "srcs", "srcs", "visibility")
		}
		val := func() string {
			return pick(r, g.ident(), ":x", "//a:b", "[]", "1", "x y", "'q'", "a.cc", "//visibility:public", "\"s\"", "{}", "None")
		}
		for n := 2 + r.Intn(5); n > 0; n-- {
			w := []string{}
			switch r.Intn(24) {
			case 0, 1, 23:
				w = []string{"add", attr(), val()}
			case 2:
				w = []string{pick(r, "new_load", "replace_load"), ":" + g.ident() + ".bzl", g.ident(), g.ident() + "=" + g.ident()}
			case 3:
				w = []string{"substitute_load", pick(r, ".*", "(.).*", ":(.*)"), pick(r, "${1}x", ":y.bzl")}
			case 4:
				w = [][]string{{"comment", "c"}, {"comment", attr(), "c"}, {"comment", attr(), val(), "c"}}[r.Intn(3)]
			case 5:
				w = [][]string{{"print_comment"}, {"print_comment", attr()}, {"print_comment", attr(), val()}}[r.Intn(3)]
			case 6:
				w = []string{"fix", pick(r, append(fixes, "all")...)}
			case 7:
				w = []string{"move", attr(), attr(), pick(r, "*", val())}
			case 8:
				w = []string{"new", g.ident(), g.ident()}
				if r.Intn(2) == 0 {
					w = append(w, pick(r, "before", "after"), g.ident())
				}
			case 9, 10:
				w = []string{"print", pick(r, "kind", "label", "name", "rule", "startline", "endline", "path", "attrs", attr()), attr()}
			case 11, 12:
				w = []string{"remove", attr()}
				if r.Intn(2) == 0 {
					w = append(w, val())
				}
			case 13:
				w = [][]string{{"remove_comment"}, {"remove_comment", attr()}, {"remove_comment", attr(), val()}}[r.Intn(3)]
			case 14:
				w = []string{"remove_if_equal", attr(), val()}
			case 15:
				w = []string{"rename", attr(), attr()}
			case 16:
				w = []string{"replace", attr(), val(), val()}
			case 17:
				w = []string{"substitute", attr(), pick(r, ".*", "(.).*", ":(.*)"), pick(r, "${1}x", "y")}
			case 18:
				w = []string{pick(r, "set", "set_if_absent"), attr(), val()}
			case 19:
				w = []string{"set_select", attr(), val(), val()}
			case 20:
				w = []string{pick(r, "copy", "copy_no_overwrite"), attr(), g.ident()}
			case 21:
				w = [][]string{{"dict_add", attr(), "k:v"}, {"dict_set", attr(), "k:v"}, {"dict_remove", attr(), "k"}, {"dict_replace_if_equal", attr(), "k", "v", "w"}, {"dict_list_add", attr(), "k", "v"}}[r.Intn(5)]
			case 22:
				w = []string{pick(r, "use_repo_add", "use_repo_remove"), g.ident(), g.ident()}
				if r.Intn(2) == 0 {
					w = []string{w[0], pick(r, "dev", "//:e.bzl"), "//:e.bzl", "e", "r"}
				}
			default:
				w = []string{pick(r, "delete", "format")}
			}
			switch {
			case r.Intn(12) == 0:
				w = append(w, val())
			case r.Intn(15) == 0 || w[0] == "set" && r.Intn(3) == 0:
				w = w[:len(w)-1]
			}
			if len(w) > 1 && r.Intn(20) == 0 {
				w[1] = "kind"
			}
			for j := range w {
				w[j] = strings.ReplaceAll(w[j], " ", "\\ ")
			}
			args = append(args, strings.Join(w, " "))
		}
		for n := 1 + r.Intn(2); n > 0; n-- {
			args = append(args, targets[r.Intn(len(targets))])
		}
		in := fmt.Sprintf("buildozer %q in %s\n%s", args, name, src)
		c.Case(in)
		dir, tmp, done := c.scratchWS(r, map[string]string{"WORKSPACE": "", "MODULE.bazel": "", name: src})
		defer done()
		res := c.runBin(dir, tmp, "", nil, "buildozer", args...)
		c.Eval(in)
		c.Count("buildozer_runs", 1)
		c.Count(fmt.Sprintf("buildozer_exit_%d", res.code), 1)
		if x := res.crashed(); x != "" {
			c.Violate("buildozer:"+x, res.String(), in)
		}
	})
}
