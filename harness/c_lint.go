package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
)

func init() { checks["C17"] = checkLintPure }

var lintCats = warn.AllWarnings

// dump writes the whole tree: every field of every node, comments and positions included.
func dump(v reflect.Value, sb *strings.Builder) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil ")
			return
		}
		dump(v.Elem(), sb)
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil ")
			return
		}
		sb.WriteString("&")
		dump(v.Elem(), sb)
	case reflect.Slice:
		fmt.Fprintf(sb, "[%d ", v.Len())
		for i := 0; i < v.Len(); i++ {
			dump(v.Index(i), sb)
		}
		sb.WriteString("]")
	case reflect.Struct:
		t := v.Type()
		sb.WriteString(t.Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(t.Field(i).Name + "=")
			dump(v.Field(i), sb)
		}
		sb.WriteString("}")
	default:
		fmt.Fprintf(sb, "%v ", v)
	}
}

func dumpFile(f *build.File) string {
	var sb strings.Builder
	dump(reflect.ValueOf(f), &sb)
	return sb.String()
}

// lintWS is the rest of the workspace.
type lintWS map[string]string

func (w lintWS) reader() *warn.FileReader {
	return warn.NewFileReader(func(p string) ([]byte, error) {
		if s, ok := w[p]; ok {
			return []byte(s), nil
		}
		return nil, errors.New("no such file " + p)
	})
}

func lintParse(k FileKind, text string) *build.File {
	f, err := parseKind(k, text)
	if err != nil {
		return nil
	}
	f.Pkg = "pkg"
	f.Label = kindFile[k]
	return f
}

func findingStr(f *warn.Finding) string {
	s := fmt.Sprintf("%d:%d-%d:%d %s %v %v %s %s", f.Start.Line, f.Start.LineRune, f.End.Line, f.End.LineRune, f.Category, f.Actionable, f.AutoFixable, f.URL, f.Message)
	if f.Replacement != nil {
		s += fmt.Sprintf(" [%d,%d) %q", f.Replacement.Start, f.Replacement.End, f.Replacement.Content)
	}
	return s
}

func findingStrs(l []*warn.Finding) []string {
	var out []string
	for _, f := range l {
		out = append(out, findingStr(f))
	}
	return out
}

func diffLists(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "-", "-"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("finding %d: %s | %s", i, x, y)
		}
	}
	return ""
}

var lintWorkspace = lintWS{
	"pkg/a.bzl":          "def foo(name):\n    \"\"\"Foo.\n\n    Deprecated:\n      Use bar.\n    \"\"\"\n    native.cc_library(name = name)\n\ndef bar():\n    foo(name = \"x\")\n\ny = rule()\n\ndef x(name):\n    y(name = name)\n",
	"x/b.bzl":            "load(\"//pkg:a.bzl\", \"foo\", z = \"bar\")\ncc_library = foo\nx = z\ny = macro()\n",
	"MODULE.bazel":       "module(name = \"m\")\n\nbazel_dep(name = \"rules_cc\", version = \"1\", repo_name = \"my_cc\")\nbazel_dep(name = \"rules_java\", version = \"1\")\ninclude(\"//:extra.MODULE.bazel\")\n",
	"extra.MODULE.bazel": "bazel_dep(name = \"rules_shell\", repo_name = \"sh\")\n",
}

// lintWorkspaces differ in the names their root modules give to other modules.
var lintWorkspaces = []struct {
	files lintWS
	repo  map[string]string // module: name in this workspace
}{
	{lintWorkspace, map[string]string{"rules_cc": "my_cc", "rules_java": "rules_java", "rules_shell": "sh", "protobuf": "com_google_protobuf"}},
	{lintWS{}, map[string]string{"rules_cc": "rules_cc", "protobuf": "com_google_protobuf", "rules_shell": "rules_shell"}},
	{lintWS{"MODULE.bazel": "module(name = \"rules_java\", repo_name = \"jj\")\nbazel_dep(name = \"protobuf\")\nbazel_dep(name = \"rules_cc\", repo_name = \"cc2\")\n", "pkg/a.bzl": "def foo():\n    pass\n"},
		map[string]string{"rules_cc": "cc2", "rules_java": "jj", "protobuf": "protobuf"}},
}

var loadFromRe = regexp.MustCompile(`needs to be loaded from "@([^/"]*)//(\w*)`)

// wrongRepo looks for a load path that is not one of the workspace.
func wrongRepo(msg string, repo map[string]string) string {
	m := loadFromRe.FindStringSubmatch(msg)
	if m == nil {
		return ""
	}
	mod := map[string]string{"cc": "rules_cc", "java": "rules_java", "shell": "rules_shell", "bazel": "protobuf"}[m[2]]
	if want := repo[mod]; want != "" && want != m[1] {
		return "@" + want
	}
	return ""
}

var lineMsgRe = regexp.MustCompile(`(line |lines |\w\.bzl:|BUILD:|:)(\d+)`)

// shiftMsg moves the line numbers mentioned in a message.
func shiftMsg(s string, k int) string {
	return lineMsgRe.ReplaceAllStringFunc(s, func(m string) string {
		p := lineMsgRe.FindStringSubmatch(m)
		n, _ := strconv.Atoi(p[2])
		return p[1] + strconv.Itoa(n+k)
	})
}

func catOf(s string) string {
	p := strings.SplitN(s, " ", 3)
	if len(p) > 1 {
		return p[1]
	}
	return s
}

func lintPureOne(k FileKind, text string, r *rand.Rand) (sig, detail string) {
	f := lintParse(k, text)
	if f == nil {
		return
	}
	before := dumpFile(f)
	fmt0 := string(build.FormatWithoutRewriting(f))
	wsi := lintWorkspaces[r.Intn(len(lintWorkspaces))]
	ws := wsi.files
	all := warn.FileWarnings(f, lintCats, nil, warn.ModeWarn, ws.reader())
	as := findingStrs(all)
	if d := dumpFile(f); d != before {
		return "tree-changed:" + culprit(k, text, warn.ModeWarn), "reporting findings changed the tree:\n" + around(before, d)
	}
	if s := string(build.FormatWithoutRewriting(f)); s != fmt0 {
		return "print-changed", "reporting findings changed what is printed:\n" + s
	}
	// determinism
	for i := 0; i < 3; i++ {
		g := f
		if i > 0 {
			g = lintParse(k, text)
		}
		bs := findingStrs(warn.FileWarnings(g, lintCats, nil, warn.ModeWarn, ws.reader()))
		if d := diffLists(as, bs); d != "" {
			return "nondeterministic", "a second run reports other findings: " + d
		}
	}
	// order, positions
	lines := strings.Split(text, "\n")
	for i, x := range all {
		if i > 0 && all[i-1].Start.Line > x.Start.Line {
			return "unsorted", "findings are not sorted by line: " + as[i-1] + " before " + as[i]
		}
		if w := wrongRepo(x.Message, wsi.repo); w != "" {
			return "repo-name", "the workspace calls this repository " + w + ": " + as[i]
		}
		if x.Start.Line < 1 || x.End.Line < x.Start.Line || x.End.Line > len(lines) && x.Start.Line > 1 {
			return "position:" + x.Category, fmt.Sprintf("finding outside the file (%d lines): %s", len(lines), as[i])
		}
		if x.End.Line == x.Start.Line && x.End.LineRune < x.Start.LineRune {
			return "position:" + x.Category, "the end is before the start: " + as[i]
		}
		for _, p := range []build.Position{x.Start, x.End} {
			if p.Line-1 < len(lines) && p.LineRune > len([]rune(lines[p.Line-1]))+1 || p.LineRune < 1 {
				return "column:" + x.Category, fmt.Sprintf("finding outside its line %q: %s", lines[p.Line-1], as[i])
			}
			if p.Byte < 0 || p.Byte > len(text) {
				return "byte:" + x.Category, fmt.Sprintf("finding at byte %d of a file of %d bytes: %s", p.Byte, len(text), as[i])
			}
		}
	}
	// categories are independent
	var union []string
	for _, c := range lintCats {
		g := f
		if r.Intn(2) == 0 {
			g = lintParse(k, text)
		}
		for _, x := range warn.FileWarnings(g, []string{c}, nil, warn.ModeWarn, ws.reader()) {
			if x.Category != c {
				return "category", "finding of another category: " + findingStr(x)
			}
			union = append(union, findingStr(x))
		}
	}
	a2 := append([]string{}, as...)
	sort.Strings(a2)
	sort.Strings(union)
	if d := diffLists(a2, union); d != "" {
		return "union:" + catDiff(a2, union), "all categories together | each alone: " + d
	}
	// a subset in any order
	perm := r.Perm(len(lintCats))
	n := r.Intn(len(lintCats))
	var sub []string
	in := map[string]bool{}
	for _, i := range perm[:n] {
		sub = append(sub, lintCats[i])
		in[lintCats[i]] = true
	}
	given := strings.Join(sub, ",")
	var want []string
	for i, x := range all {
		if in[x.Category] {
			want = append(want, as[i])
		}
	}
	ss := findingStrs(warn.FileWarnings(f, sub, nil, warn.ModeWarn, ws.reader()))
	if d := diffLists(want, ss); d != "" {
		return "subset", "a subset of the categories | filtered findings of all: " + d
	}
	if strings.Join(sub, ",") != given {
		return "list-changed", "the list of categories was changed"
	}
	// blank lines in front shift positions only
	sh := 1 + r.Intn(3)
	t2 := strings.Repeat("\n", sh) + text
	g := lintParse(k, t2)
	if g == nil {
		return "shift-parse", "with blank lines in front the file does not parse"
	}
	shifted := warn.FileWarnings(g, lintCats, nil, warn.ModeWarn, ws.reader())
	var want2, got2 []string
	for _, x := range all {
		y := *x
		y.Start.Line += sh
		y.End.Line += sh
		y.Message = shiftMsg(y.Message, sh)
		if x.Category == "module-docstring" {
			y.Start, y.End = build.Position{}, build.Position{}
		}
		want2 = append(want2, findingStr(&y))
	}
	for _, x := range shifted {
		y := *x
		if x.Category == "module-docstring" {
			y.Start, y.End = build.Position{}, build.Position{}
		}
		got2 = append(got2, findingStr(&y))
	}
	sort.Strings(want2)
	sort.Strings(got2)
	if d := diffLists(want2, got2); d != "" {
		return "shift:" + catDiff(want2, got2), fmt.Sprintf("with %d blank lines in front, expected | reported: %s", sh, d)
	}
	return
}

func catDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) {
			return catOf(b[i])
		}
		if i >= len(b) {
			return catOf(a[i])
		}
		if a[i] != b[i] {
			return catOf(a[i])
		}
	}
	return ""
}

// culprit is the first category that alone changes the tree.
func culprit(k FileKind, text string, mode warn.LintMode) string {
	for _, c := range lintCats {
		f := lintParse(k, text)
		b := dumpFile(f)
		warn.FileWarnings(f, []string{c}, nil, mode, lintWorkspace.reader())
		if dumpFile(f) != b {
			return c
		}
	}
	return "several"
}

// around shows where two dumps differ.
func around(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+100
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return "was " + cut(a) + "\nis  " + cut(b)
}

var lintKinds = []FileKind{KBzl, KBzl, KBzl, KBzl, KBuild, KBuild, KWorkspace, KModule, KDefault}

func checkLintPure(c *Ctx) {
	c.Rule("reporting mode leaves the tree (all fields, comments, positions) and the printed text as they were; findings equal over repeated runs, sorted, inside the file; union over categories; subsets; shifts")
	n := c.N(1500, 30000)
	c.parallel(n, 8, 17, func(i int, r *rand.Rand) {
		k := lintKinds[r.Intn(len(lintKinds))]
		text := newLintGen(r, k).file()
		seed := r.Int63()
		f := func(s string) (sig, detail string) {
			defer func() {
				if e := recover(); e != nil {
					sig, detail = "panic", fmt.Sprint(e)
				}
			}()
			return lintPureOne(k, s, rand.New(rand.NewSource(seed)))
		}
		c.Case(text)
		c.Eval(text)
		if sig, detail := f(text); sig != "" {
			small := shrink(text, func(s string) bool { g, _ := f(s); return g == sig })
			_, detail2 := f(small)
			if detail2 != "" {
				detail = detail2
			}
			c.Violate(sig, kindFile[k]+": "+detail, small)
		}
		if fl := lintParse(k, text); fl != nil && i < 2000 {
			for _, x := range warn.FileWarnings(fl, lintCats, nil, warn.ModeWarn, lintWorkspace.reader()) {
				c.Count("findings_"+x.Category, 1)
			}
		}
	})
}
