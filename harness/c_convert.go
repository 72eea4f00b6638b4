package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/convertast"
	"go.starlark.net/syntax"
)

func init() { checks["C40"] = checkConvert }

// Trees of the reference parser, converted, printed, and read by the reference parser again.

var (
	slPosType = reflect.TypeOf(syntax.Position{})
	slComType = reflect.TypeOf(&syntax.Comments{})
)

// slDump writes the program a tree denotes: everything but positions, comments, parentheses and the
// spelling of literals.
func slDump(sb *strings.Builder, v reflect.Value) {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		switch x := v.Interface().(type) {
		case *syntax.ParenExpr:
			v = reflect.ValueOf(x.X)
			continue
		case *syntax.Literal:
			fmt.Fprintf(sb, "%v:%q", x.Token, fmt.Sprint(x.Value))
			return
		case *syntax.Ident:
			sb.WriteString(x.Name)
			return
		case *syntax.LoadStmt:
			// the order of the names does not matter
			var l []string
			for i := range x.From {
				l = append(l, x.To[i].Name+"="+x.From[i].Name)
			}
			sort.Strings(l)
			fmt.Fprintf(sb, "load(%v %q)", x.Module.Value, l)
			return
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Struct:
		sb.WriteString(v.Type().Name() + "(")
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" || f.Type == slPosType || f.Type == slComType || f.Name == "Module" || f.Name == "Function" || f.Name == "Path" || f.Name == "commentsRef" {
				continue
			}
			slDump(sb, v.Field(i))
			sb.WriteString(" ")
		}
		sb.WriteString(")")
	case reflect.Slice:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			slDump(sb, v.Index(i))
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	default:
		fmt.Fprint(sb, v.Interface())
	}
}

func slProgramText(f *syntax.File) string {
	var sb strings.Builder
	for _, s := range f.Stmts {
		slDump(&sb, reflect.ValueOf(s))
		sb.WriteString("\n")
	}
	return sb.String()
}

func slParse(text string, mode syntax.Mode) (f *syntax.File, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("parser: %v", e)
		}
	}()
	return syntax.Parse("p.star", text, mode)
}

func slComments(f *syntax.File) (out []string) {
	add := func(n syntax.Node) {
		if c := n.Comments(); c != nil {
			for _, l := range [][]syntax.Comment{c.Before, c.Suffix, c.After} {
				for _, x := range l {
					out = append(out, strings.TrimRight(x.Text, " \t\r"))
				}
			}
		}
	}
	add(f)
	seen := map[syntax.Node]bool{}
	syntax.Walk(f, func(n syntax.Node) bool {
		if n != nil && !seen[n] {
			seen[n] = true
			if _, ok := n.(*syntax.File); !ok {
				add(n)
			}
		}
		return true
	})
	sort.Strings(out)
	return
}

func convertOne(c *Ctx, text string, mode syntax.Mode, rewrite bool) (sig, detail string) {
	f, err := slParse(text, mode)
	if err != nil {
		return
	}
	want := slProgramText(f)
	var g *build.File
	if p := func() (p interface{}) {
		defer func() { p = recover() }()
		g = convertast.ConvFile(f)
		return nil
	}(); p != nil {
		return "panic", fmt.Sprintf("the conversion panics: %.200v", p)
	}
	if s := slProgramText(f); s != want {
		return "mutated", "the converted tree is changed:\n" + around(want, s)
	}
	var out string
	if p := func() (p interface{}) {
		defer func() { p = recover() }()
		if rewrite {
			out = string(build.Format(g))
		} else {
			out = string(build.FormatWithoutRewriting(g))
		}
		return nil
	}(); p != nil {
		return "print-panic", fmt.Sprintf("printing the converted tree panics: %.200v", p)
	}
	h, err := slParse(out, mode)
	if err != nil && strings.Contains(err.Error(), "non-ASCII octal escape") {
		// The printer spells bytes of Bazel's Latin-1 strings, which the reference parser has not.
		if c != nil {
			c.Count("octal escapes, not judged", 1)
		}
		return
	}
	if err != nil {
		return "unparsable", fmt.Sprintf("the converted program is not accepted: %v\n%s", err, out)
	}
	if got := slProgramText(h); got != want {
		return "different", "the converted program is another one:\n" + around(want, got) + "\n" + out
	}
	if c != nil {
		c.Count("programs", 1)
		c.Count("statements", len(f.Stmts))
		if mode == syntax.RetainComments {
			all := slComments(f)
			c.Count("comments", len(all))
		}
	}
	return
}

var convertExtra = []string{
	"x = 99999999999999999999999", "x = 0xffffffffffffffffffff", "x = 1e100", "x = 0o17", "x = {k: v for k, v in y}", "x = {k: v for k in y for v in z if k}",
	"def f(*args, **kwargs):\n    return", "def f(*, a = 1):\n    pass", "def f(a, *args, b, c = 2, **k):\n    return", "x = lambda *a, b = 1, **k: (a, b)",
	"x = y[::2]", "x = y[a::2]", "x = y[:b:]", "x = y[a:b:c]", "x = y[:]", "x = a[1:][2]", "x, = y", "x = 1,", "(x, y), [z] = w", "for x, in y:\n    pass",
	"x = 'a\\'b'", "x = \"a\\\"b\"", "x = r'\\d'", "x = '''a\nb'''", "x = r\"\"\"a\\n\"\"\"", "x = '\\xff'", "x = '\\377'", "x = '\\u1234'", "x = '\\0'", "x = '\\a\\b\\f\\v\\r\\t'", "x = 'a\\\nb'",
	"x = a if b else c if d else e", "x = (a if b else c) if d else e", "x = not not a", "x = -(-a)", "x = - -a", "x = ~a", "x = +a", "x = a - (b - c)", "x = (a, (b,), ())",
	"if a:\n    x\nelif b:\n    y\nelif c:\n    z\nelse:\n    w", "if a:\n    x\nelse:\n    if b:\n        y\n    else:\n        z", "if a:\n    x\nelse:\n    if b:\n        y\n    z",
	"load('a', 'b')", "load('a', 'b', c = 'd')", "load(\n    'a',\n    c = 'd',\n    # c\n    'e',\n)", "f(*a, **k)", "f(a, b = c, *d, **e)", "f(a)(b).c[d]", "f(\n    a)", "[a, ]", "{}", "{'a': b, }",
	"x = a + \\\n    b", "x = (a +\n    b)", "x = (\n    a)", "x = [a for a in b if c if d]", "x = [[a for a in b] for c in d]", "x += 1", "x //= 2", "x |= y", "x.y = z", "x[0] = y", "pass", "a; b", "x = 1; y = 2",
	"for x in y:\n    if x: break\n    continue", "'''doc'''", "x = a not in b", "x = not a in b", "x = (not a) in b", "x = a and b or c", "x = a and (b or c)", "x = a == (b == c)", "x = lambda: lambda: 1", "x = (lambda: 1)()", "x = [lambda x: x]",
	"x = 1 .real", "x = (1).real", "x = 1.0", "x = 1.", "x = .5", "x = 1e5", "x = 10 % 3", "x = a << b >> c", "x = a & b | c ^ d", "x = 0X1F", "x = 0b101", "x = 0B11", "x = 0O7", "x = ''''a'''", "x = '\"\"\"'", "x = \"\"\"a\\\"\"\"\"",
}

// The reference parser attaches a comment before a closing bracket to what follows the bracket: a known finding.
const convertProbe = "x = a if (\n    # c\n) else b\n"

var convertOwnLine = regexp.MustCompile(`(?m)^\s*#`)

func convertDangling(text string) bool {
	comment := false
	// ... or to the condition of a conditional expression, which it takes to come before the other operands
	if f, err := slParse(text, 0); err != nil || strings.Contains(slProgramText(f), "CondExpr(") && convertOwnLine.MatchString(text) {
		return true
	}
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "":
		case l[0] == '#':
			comment = true
		default:
			if comment && strings.ContainsAny(l[:1], ")]}") {
				return true
			}
			comment = false
		}
	}
	return false
}

func checkConvert(c *Ctx) {
	c.Rule("programs accepted by the reference parser (go.starlark.net): the converted tree, printed with and without rewriting, is accepted by the reference parser and gives the same tree up to positions, comments, parentheses and spelling of literals; with and without retained comments; conversion does not panic or change its input")
	n := c.N(60000, 1500000)
	one := func(text string, mode syntax.Mode, rewrite bool) {
		if sig, detail := convertOne(c, text, mode, rewrite); sig != "" {
			small := shrink(text, func(s string) bool {
				if mode != 0 && convertDangling(s) {
					return false
				}
				g, _ := convertOne(nil, s, mode, rewrite)
				return g == sig
			})
			if _, d := convertOne(nil, small, mode, rewrite); d != "" {
				detail = d
			}
			c.Violate(sig, fmt.Sprintf("comments %v, rewriting %v: %s", mode == syntax.RetainComments, rewrite, detail), small)
		}
	}
	for _, s := range convertExtra {
		s += "\n"
		if _, err := slParse(s, 0); err != nil {
			c.Count("rejected snippets", 1)
			c.Sample("rejected: " + s)
			continue
		}
		c.Eval(s)
		one(s, 0, false)
		one(s, syntax.RetainComments, !strings.Contains(s, "load("))
	}
	if sig, detail := convertOne(nil, convertProbe, syntax.RetainComments, false); sig != "" {
		c.Violate(sig+":probe-comment-before-bracket", detail, convertProbe)
	}
	c.parallel(n, 8, 40, func(i int, r *rand.Rand) {
		var text string
		switch r.Intn(8) {
		case 0:
			text = flowProgram(r)
		case 1:
			text = apiProgram(r, pick(r, KBzl, KBuild), r.Intn(2) == 0)
		case 2:
			text = scopeProgram(r)
		case 3:
			text = newLintGen(r, KBzl).file()
		case 4:
			for i := 1 + r.Intn(4); i > 0; i-- {
				text += convertExtra[r.Intn(len(convertExtra))] + "\n"
			}
		default:
			text, _ = texts(NewGen(r, pick(r, KBzl, KBuild, KDefault)).File(1 + r.Intn(5)))
		}
		c.Case(text)
		if _, err := slParse(text, 0); err != nil {
			c.Count("rejected", 1)
			if i < 60 {
				c.Sample("rejected: " + err.Error())
			}
			return
		}
		c.Eval(text)
		mode := syntax.Mode(0)
		if r.Intn(2) == 0 && !convertDangling(text) {
			mode = syntax.RetainComments
		}
		one(text, mode, false)
	})
}
