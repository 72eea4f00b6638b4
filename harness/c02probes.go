package main

import (
	"regexp"

	"github.com/bazelbuild/buildtools/build"
)

// a sorting directive after an element that may be a removed duplicate takes effect one pass later
var suffixDirective = regexp.MustCompile(`(?m)^[^#\n]*[^#\s][^#\n]*#.*(do not sort|keep sorted)`)

// a triple-quoted string whose escaped line breaks become real ones when it is requoted
var escDocstring = regexp.MustCompile(`'''[^']*\\[n\n]`)

// callOfMultilineCallee reports whether the file has a parenthesised call of a callee that spans lines.
func callOfMultilineCallee(f *build.File) bool {
	found := false
	build.Walk(f, func(e build.Expr, _ []build.Expr) {
		if p, ok := e.(*build.ParenExpr); ok {
			if call, ok := p.X.(*build.CallExpr); ok {
				a, b := call.X.Span()
				found = found || a.Line != b.Line
			}
		}
	})
	return found
}

// c02Probes are the recorded findings: constructs that take two passes to settle or whose output is invalid.
var c02Probes = []struct {
	name string
	kind FileKind
	src  string
}{
	{"oneline-then-comment", KBzl, "def f(): x\n# c\n"},
	{"oneline-nested-comment", KBzl, "def f():\n    for x in y: z\n# c\n\n    if x: z\n"},
	{"header-comment", KBzl, "if foo(\n  a): # c\n  b\n"},
	{"params-comment", KBzl, "def f(\n\n# c\n):\n  x\n"},
	{"paren-callee", KBuild, "x = (f(\n)())\n"},
	{"suffix-directive", KModule, "use_repo(ext,\"a\",\"a\", # do not sort\n# c\n\"b\", \"a\")\n"},
	{"binary-comment", KBuild, "cc_library(name=\"a\"+\n# c\n\"b\")\n"},
	{"index-comment", KBzl, "x = a[\n# c\nb]\n"},
	{"index-end-comment", KBzl, "x = a[b\n# c\n]\n"},
	{"callee-comment", KBzl, "x = (a\n# c\n(b))\n"},
	{"comp-comment", KBzl, "x = [a for b in c\n# c\n]\n"},
	{"dep-dict", KModule, "bazel_dep({\"\": [\"\",\"\"]}, {\"\": \"\"})\n"},
	{"docstring-escape", KBzl, "def f():\n  '''a\\nb \\n'''\n"},
	{"loopvar-comment", KBzl, "x = [a for (b,\n# c\nd) in c]\n"},
	{"cond-comment", KBzl, "x = (a if b\n# c\nelse d)\n"},
	{"lambda-comment", KBzl, "x = (lambda\n# c\na: d)\n"},
	{"unary-comment", KBzl, "x = (not\n# c\na)\n"},
	{"dot-comment", KBzl, "x = (a.\n# c\nb)\n"},
	{"assign-comment", KBuild, "f(a =\n# c\nb)\n"},
	{"key-comment", KBzl, "x = {a:\n# c\nb}\n"},
	{"two-closers", KBzl, "x = [\n    f()[g()],  # a\n# b\n]\n"},
}
