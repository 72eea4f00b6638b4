package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"go.starlark.net/syntax"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
	checks["C05"] = checkC05
}

// genCase draws one generated file; the stream is determined by seed and index.
func (c *Ctx) genCase(i int, salt int64) *Gen {
	r := rand.New(rand.NewSource(c.Seed*7919 + salt*104729 + int64(i)*15485863 + 11))
	kind := FileKind(r.Intn(5))
	g := NewGen(r, kind)
	switch r.Intn(10) {
	case 0:
		g.comProb, g.layout = 0, 0
	case 1:
		g.comProb, g.layout = 3, 3
	case 2:
		g.comProb = 0
	case 3:
		g.layout = 0.2
	}
	return g
}

func errClass(err error) string {
	if pe, ok := err.(build.ParseError); ok {
		m := pe.Message
		if strings.HasPrefix(m, "syntax error near ") {
			rest := m[len("syntax error near "):]
			if len(rest) > 0 && (rest[0] == '"' || rest[0] == '\'' || rest[0] == 'r') {
				return "near string"
			}
			if !strings.ContainsAny(rest, " ") && len(rest) < 7 {
				return "near " + rest
			}
			return "near token"
		}
		return m
	}
	return "other"
}

func (c *Ctx) goodKey(n *N) string {
	s := n.String()
	if strings.Count(s, "(") >= 5 {
		return s
	}
	return ""
}

// ---- C05 ----

var c05Probes = []struct{ name, src string }{
	{"1.E5", "x = 1.E5\n"}, {"1.e5", "x = [1.e-5]\n"},
	{"notcmp", "x = not a == b\n"}, {"condchain", "x = a if b else c if d else e\n"},
	{"tuplecond", "x = a, b if c else d\n"}, {"hexE", "x = 0x1E+5\n"}, {"augshift", "x <<= 1\n"}, {"augand", "x &= 1\n"},
	{"lambdatuple", "x = f(lambda: a, b)\n"}, {"slicestep", "x = a[::2]\n"}, {"neg", "x = -a.b[0](1) ** 1\n"},
	{"nestedcond", "x = a if b if c else d else e\n"}, {"compcond", "x = [a for b in c if d if e]\n"},
	{"compelse", "x = [a if p else q for b in c if (d if e else f)]\n"}, {"starargs", "f(a, *b, c = 1, **d)\n"},
	{"trailing", "x = (1,)\n"}, {"emptytuple", "x = ()\n"}, {"rawstr", "x = r'\\d'\n"}, {"minus", "x = a - -b\n"},
	{"if1line", "def f():\n  if x: return 1\n  else: return 2\n"},
	{"dedent", "def f():\n    if x:\n        y()\n\n# c\n    z()\n"},
	{"semis", "a = 1; b = 2; c()\n"},
	{"forelif", "def f():\n  for x in y:\n    if a: pass\n    elif b:\n      continue\n    else:\n      break\n"},
	{"lastnonl", "x = 1"}, {"lastcomment", "x = 1 # c"}, {"crlf", "def f():\r\n    x = 1\r\n    return x\r\n"},
	{"crlfcont", "x = 1 + \\\r\n  2\r\n"}, {"contstr", "x = 'a\\\nb'\n"},
	{"dictcomp", "x = {a: b for a, b in c for d in e if f}\n"},
	{"loadalias", "load(':a.bzl', 'b', c = 'd')\n"}, {"defs", "def f(a, b = 1, *args, c, d = 2, **kw):\n    pass\n"},
	{"kwonly", "def f(a, *, b = 1):\n    pass\n"}, {"lamdef", "f = lambda a, b = 1, *c, **d: a\n"},
	{"parlhs", "(a, b) = c\n[a, b] = c\na, b = c\n"}, {"notin", "x = a not in b\n"}, {"notinparen", "x = not (a in b)\n"},
	{"andor", "x = a or b and not c\n"}, {"shift", "x = a << b + c & d ^ e | f\n"}, {"unary", "x = ~-+a * b\n"},
}

func dropCR(n *N) {
	if n == nil {
		return
	}
	n.S = strings.ReplaceAll(n.S, "\r\n", "\n")
	for _, x := range n.C {
		dropCR(x)
	}
}

func checkC05(c *Ctx) {
	c.Rule("random Starlark programs with hostile layout, plus fixed probes; each is parsed by the code under test and by go.starlark.net's independent parser and the two canonical trees (statements, nesting, operators, arguments, decoded numbers and strings) are compared. Distinct non-trivial: distinct reference trees with at least 5 nodes.")
	c.Assume("go.starlark.net's parser is the reference for the Starlark grammar; tabs as indentation are excluded because Bazel rejects them")
	one := func(kind FileKind, in, ref, tag string) {
		c.Case(in)
		want, err := starParse(ref)
		if err != nil {
			c.Count("reference_rejects", 1)
			return
		}
		c.Guard("parse", in, func() {
			f, err := parseKind(kind, in)
			if err != nil {
				c.Violate("rejects:"+errClass(err)+tag, "valid Starlark rejected: "+err.Error(), in)
				return
			}
			got := bFile(f)
			if strings.Contains(in, "\r\n") {
				// the reference reads a Windows line ending inside a string as \n; Bazel keeps it
				dropCR(want)
				dropCR(got)
			}
			c.Eval(c.goodKey(want))
			c.Count("nodes_compared", strings.Count(want.String(), "("))
			if d := firstDiff(want, got, ""); d != "" {
				c.Violate("tree:"+diffSig(want, got)+tag, "reference tree differs from parsed tree "+d, in)
			}
		})
	}
	for _, p := range c05Probes {
		for k := FileKind(0); k < 5; k++ {
			one(k, p.src, p.src, ":probe-"+p.name)
		}
	}
	n := c.N(12000, 400000)
	for i := 0; i < n && !c.Failed(); i++ {
		g := c.genCase(i, 5)
		if g.r.Intn(15) == 0 {
			g.crlf = true
		}
		in, ref := texts(g.File(1 + g.n(5)))
		one(g.kind, in, ref, "")
		if i%(n/6) == 0 {
			c.Sample(in)
		}
	}
}

// ---- C01 ----

var directives = []string{" keep sorted", " do not sort", " buildifier: leave-alone", " buildifier: disable=load-on-top", " buildifier: disable=same-origin-load", " buildifier: disable=out-of-order-load"}

func withDirectives(g *Gen, p float64) {
	g.comText = func(g *Gen) string {
		if g.p(p) {
			return g.pick(directives)
		}
		return g.pick([]string{"", "", " text", "  two  ", " \"q' [", " é世"})
	}
}

// meaningSig compares the meaning of a file with that of its formatted text.
func meaningSig(kind FileKind, raw string, c *Ctx) (string, string) {
	in, ref := texts(raw)
	want, err := starParse(ref)
	if err != nil {
		if c != nil {
			c.Count("reference_rejects", 1)
		}
		return "", ""
	}
	out, _, err := formatKind(kind, in)
	if err != nil {
		if c != nil {
			c.Count("rejected", 1)
		}
		return "", ""
	}
	got, err := starParse(out)
	if err != nil {
		// a spelling only the code under test accepts (lone backslash)
		f, err2 := parseKind(kind, out)
		if err2 != nil {
			return "output-invalid:" + errClass(err2), "formatted output does not parse: " + err2.Error() + "\n" + out
		}
		if in == ref {
			return "output-rejected", "formatted output is rejected by the reference parser: " + err.Error() + "\n" + out
		}
		got = bFile(f)
	}
	o := normOpts{kind: kind, keepSorted: strings.Contains(strings.ToLower(in), "keep sorted"), loads: true}
	a, b := norm(want, o, false), norm(got, o, false)
	if c != nil {
		c.Eval(c.goodKey(a))
		if out != in {
			c.Count("inputs_changed_by_formatting", 1)
		}
	}
	if d := firstDiff(a, b, ""); d != "" {
		return "meaning:" + diffSig(a, b), "meaning changed " + d + "\n== output ==\n" + out
	}
	return "", ""
}

func checkC01(c *Ctx) {
	c.Rule("random files of every type with hostile layout, comments and directives; the meaning (canonical tree by the independent parser, modulo the documented rewrites) of the formatted output is compared with that of the input. Distinct non-trivial: distinct normalised input trees with at least 5 nodes.")
	c.Assume("go.starlark.net's parser defines the meaning of a file; label, list, argument, load and docstring rewrites are normalised on both sides")
	one := func(kind FileKind, raw, tag string) {
		c.Case(raw)
		first := true
		c.pureCheck(raw, func(s string) (string, string) {
			x := c
			if !first {
				x = nil
			}
			first = false
			sig, d := meaningSig(kind, s, x)
			if sig != "" {
				sig += tag
			}
			return sig, d
		})
	}
	for _, p := range c05Probes {
		for k := FileKind(0); k < 5; k++ {
			one(k, p.src, "")
		}
	}
	for _, num := range []string{"0755", "012.5", "00", "0.0", "1.0e0", "1.5e00", "1E+00", "0e0", "09.5", "01e5", "1e-07", "0X1F", "0xE", "0XE5", "1.", ".5", "1.50", "0.10e10", "007.25E-03", "1e1", "00.5", "0o17", "0O17"} {
		for k := FileKind(0); k < 5; k++ {
			one(k, "x = ["+num+", "+num+"]\n", ":num-"+num)
		}
	}
	n := c.N(8000, 300000)
	for i := 0; i < n && !c.Failed(); i++ {
		g := c.genCase(i, 1)
		if g.p(0.4) {
			withDirectives(g, 0.4)
		}
		g.wild = g.p(0.3)
		raw := g.File(1 + g.n(6))
		one(g.kind, raw, "")
		if i%(n/6) == 0 {
			c.Sample(raw)
		}
	}
}

// ---- C02 ----

var corpus []string

// loadCorpus reads the repository's own sample files as mutation seeds.
func loadCorpus() []string {
	if corpus != nil {
		return corpus
	}
	for _, pat := range []string{"/repo/build/testdata/*", "/repo/build/rewrite_test_files/*", "/repo/*/BUILD.bazel", "/repo/*.bzl", "/repo/WORKSPACE", "/repo/MODULE.bazel", "/repo/*/*.bzl"} {
		fs, _ := filepath.Glob(pat)
		sort.Strings(fs)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err == nil && len(b) < 20000 {
				corpus = append(corpus, string(b))
			}
		}
	}
	if corpus == nil {
		corpus = []string{"x = 1\n"}
	}
	return corpus
}

// mutKinds is the number of mutation kinds in use; the last two insert comments anywhere.
var mutKinds = 9

// mutate makes random line, span and character edits.
func mutate(r *rand.Rand, s string, other string) string {
	b := []byte(s)
	for k := 1 + r.Intn(4); k > 0; k-- {
		if len(b) == 0 {
			b = []byte("x")
		}
		switch r.Intn(mutKinds) {
		case 0:
			i := r.Intn(len(b))
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			i := r.Intn(len(b) + 1)
			ins := []string{"\n", " ", "#", "(", ")", "[", "]", "{", "}", ",", ":", "\"", "'", "\\", "=", "\t", "not ", "if ", "\r", "\x00", "é", "\xff", "0", ".", "\"\"\"", "load(", "\n\n", "    "}[r.Intn(28)]
			b = []byte(string(b[:i]) + ins + string(b[i:]))
		case 2:
			lines := strings.Split(string(b), "\n")
			i := r.Intn(len(lines))
			lines = append(lines[:i], lines[i+1:]...)
			b = []byte(strings.Join(lines, "\n"))
		case 3:
			lines := strings.Split(string(b), "\n")
			i, j := r.Intn(len(lines)), r.Intn(len(lines))
			lines[i], lines[j] = lines[j], lines[i]
			b = []byte(strings.Join(lines, "\n"))
		case 4:
			i := r.Intn(len(b))
			j := i + r.Intn(len(b)-i)
			if j-i > 60 {
				j = i + 60
			}
			b = append(b[:i:i], b[j:]...)
		case 5:
			if len(other) > 0 {
				ol := strings.Split(other, "\n")
				i := r.Intn(len(ol))
				j := i + r.Intn(len(ol)-i)
				if j > i+6 {
					j = i + 6
				}
				lines := strings.Split(string(b), "\n")
				k := r.Intn(len(lines) + 1)
				nl := append(append(append([]string{}, lines[:k]...), ol[i:j]...), lines[k:]...)
				b = []byte(strings.Join(nl, "\n"))
			}
		case 6:
			i := r.Intn(len(b))
			b[i] = byte(r.Intn(256))
		case 7:
			lines := strings.Split(string(b), "\n")
			i := r.Intn(len(lines))
			lines[i] = lines[i] + "  # c1z"
			b = []byte(strings.Join(lines, "\n"))
		case 8:
			lines := strings.Split(string(b), "\n")
			i := r.Intn(len(lines))
			lines[i] = strings.Repeat(" ", r.Intn(6)) + "# c2z\n" + lines[i]
			b = []byte(strings.Join(lines, "\n"))
		}
	}
	return string(b)
}

func checkC02(c *Ctx) {
	c.Rule("random files of every type, and mutated sample files of the repository; whatever parses is formatted, the output must parse as the same type and format to itself. Distinct non-trivial: distinct inputs with at least 3 lines.")
	one := func(kind FileKind, raw string, tag string) bool {
		c.Case(raw)
		good := false
		first := true
		c.pureCheck(raw, func(s string) (string, string) {
			if tag == ":valid" {
				_, ref := texts(s)
				if _, err := syntax.Parse("x", ref, 0); err != nil || !argOrderOK(ref) || suffixDirective.MatchString(ref) || escDocstring.MatchString(ref) {
					return "", ""
				}
				s, _ = texts(s)
			}
			out, _, err := formatKind(kind, s)
			if err != nil {
				if first {
					c.Count("rejected_inputs", 1)
				}
				return "", ""
			}
			if first {
				good = true
				key := ""
				if strings.Count(s, "\n") >= 3 {
					key = kindNames[kind] + s
				}
				c.Eval(key)
			}
			first = false
			if tag == ":valid" {
				if f, _ := parseKind(kind, s); f != nil && callOfMultilineCallee(f) {
					return "", ""
				}
			}
			out2, _, err := formatKind(kind, out)
			if err != nil {
				return "output-invalid:" + errClass(err) + tag, "formatted output does not parse: " + err.Error() + "\n== output ==\n" + out
			}
			if out2 != out {
				return "not-idempotent:" + lineDiffClass(out, out2) + tag, "formatting twice differs:\n" + lineDiff(out, out2) + "\n== output ==\n" + out
			}
			return "", ""
		})
		return good
	}
	for _, p := range c02Probes {
		one(p.kind, p.src, ":probe-"+p.name)
	}
	n := c.N(8000, 300000)
	for i := 0; i < n && !c.Failed(); i++ {
		g := c.genCase(i, 2)
		if g.p(0.4) {
			withDirectives(g, 0.3)
		}
		raw := g.File(1 + g.n(6))
		one(g.kind, raw, ":valid")
		if i%(n/6) == 0 {
			c.Sample(raw)
		}
	}
	mutKinds = 7
	cp := loadCorpus()
	r := c.R
	for i, f := range cp {
		for k := FileKind(0); k < 5; k++ {
			if c.Failed() {
				return
			}
			one(k, f, fmt.Sprintf(":corpus"))
		}
		_ = i
	}
	for i := 0; i < c.N(6000, 200000) && !c.Failed(); i++ {
		in := mutate(r, cp[r.Intn(len(cp))], cp[r.Intn(len(cp))])
		if one(FileKind(r.Intn(5)), in, "") {
			c.Count("mutated_corpus_accepted", 1)
		}
	}
}

func lineDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	i := 0
	for i < len(la) && i < len(lb) && la[i] == lb[i] {
		i++
	}
	ja, jb := len(la), len(lb)
	for ja > i && jb > i && la[ja-1] == lb[jb-1] {
		ja--
		jb--
	}
	cut := func(l []string) string {
		if len(l) > 12 {
			l = l[:12]
		}
		return strings.Join(l, "\n")
	}
	return fmt.Sprintf("@@ line %d\n--- first\n%s\n+++ second\n%s", i+1, cut(la[i:ja]), cut(lb[i:jb]))
}

func lineDiffClass(a, b string) string {
	f := func(s string) string { return strings.Join(strings.Fields(s), "") }
	if f(a) == f(b) {
		return "whitespace"
	}
	return "text"
}

// argOrderOK reports whether every call lists its arguments in an order the language allows.
func argOrderOK(src string) bool {
	f, err := syntax.Parse("x", src, 0)
	if err != nil {
		return false
	}
	ok := true
	syntax.Walk(f, func(n syntax.Node) bool {
		if call, is := n.(*syntax.CallExpr); is {
			named, star, kw := false, false, false
			for _, a := range call.Args {
				switch x := a.(type) {
				case *syntax.BinaryExpr:
					if x.Op == syntax.EQ {
						named = true
						ok = ok && !kw
						continue
					}
				case *syntax.UnaryExpr:
					if x.Op == syntax.STAR {
						ok = ok && !star && !kw
						star = true
						continue
					}
					if x.Op == syntax.STARSTAR {
						ok = ok && !kw
						kw = true
						continue
					}
				}
				ok = ok && !named && !star && !kw
			}
		}
		return true
	})
	return ok
}
