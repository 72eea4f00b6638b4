package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/tables"
)

// ---- labels, independently of the code under test ----

// refParse splits an absolute or relative label read in package pkg.
func refParse(s, pkg string) (repo, p, t string) {
	if strings.HasPrefix(s, "@") {
		rest := strings.TrimLeft(s, "@")
		i := strings.Index(rest, "//")
		if i < 0 {
			return rest, "", rest
		}
		repo = rest[:i]
		s = rest[i:]
	}
	if strings.HasPrefix(s, "//") {
		s = s[2:]
		if i := strings.Index(s, ":"); i >= 0 {
			return repo, s[:i], s[i+1:]
		}
		return repo, s, s[strings.LastIndex(s, "/")+1:]
	}
	return "", pkg, strings.TrimPrefix(s, ":")
}

func refNorm(s, pkg string) string {
	r, p, t := refParse(s, pkg)
	return "@" + r + "//" + p + ":" + t
}

// refShorten is the documented canonical spelling of an added label.
func refShorten(s, pkg string) string {
	if !strings.HasPrefix(s, "//") && !strings.HasPrefix(s, "@") {
		return s
	}
	r, p, t := refParse(s, pkg)
	if strings.Contains(p, "//") || strings.HasPrefix(p, "/") || strings.HasPrefix(t, ":") {
		return s // not a label
	}
	if r == "" && p == pkg {
		return ":" + t
	}
	if r != "" && p == "" && r == t {
		return "@" + r
	}
	pre := "//"
	if r != "" {
		pre = "@" + r + "//"
	}
	if p[strings.LastIndex(p, "/")+1:] == t {
		return pre + p
	}
	return pre + p + ":" + t
}

// ---- generated BUILD files ----

var bzListAttrs = []string{"deps", "srcs", "hdrs", "data", "visibility", "copts", "tags", "args", "features", "outs", "exports", "runtime_deps", "distribs", "output_licenses"}
var bzStrAttrs = []string{"cmd", "deprecation", "size", "timeout", "actual", "main", "licence_text"}
var bzRawAttrs = []string{"testonly", "linkstatic", "flaky", "shard_count", "my_attr", "my_list"}
var bzDictAttrs = []string{"values", "define_values", "my_dict"}

func bzIsList(a string) bool {
	for _, x := range bzListAttrs {
		if a == x {
			return true
		}
	}
	return a == "default_visibility"
}

func bzIsString(a string) bool {
	for _, x := range bzStrAttrs {
		if a == x && a != "licence_text" {
			return true
		}
	}
	return false
}

func bzLabelAttr(a string) bool {
	switch a {
	case "deps", "srcs", "hdrs", "data", "visibility", "default_visibility", "exports", "runtime_deps":
		return true
	}
	return false
}

type bzGen struct {
	r   *rand.Rand
	pkg string
	com int
	// p of a comment at each place
	pc float64
}

func (g *bzGen) p(x float64) bool { return g.r.Float64() < x }

func (g *bzGen) comment() string {
	g.com++
	return fmt.Sprintf("# n%d %s", g.com, pick(g.r, "note", "see //x:y", "TODO(me): fix", "keep", "x = [1]", "a, b"))
}

func (g *bzGen) label() string {
	// b/123
	l := []string{":a", ":b", "a", "c", "//x:y", "//x:x", "//x", "//x/y", "//x/y:z", "@r//p:t", "@r//p", "@r", ":d", "//" + g.pkg + ":b", "//" + g.pkg + ":e", "//" + g.pkg + "/sub:s", "sub/c.cc", "a.cc", "b.cc", ":gen.cc"}
	return l[g.r.Intn(len(l))]
}

func (g *bzGen) strVal() string {
	return pick(g.r, "-O2", "-DX=1", "-Wall", "tag1", "manual", "no_x", "a b", "$(location)", "zz", "B", "-g", "x=y", `q"q`, "ü", `back\slash`)
}

func (g *bzGen) elem(attr string) string {
	if bzLabelAttr(attr) || attr == "my_list" && g.p(0.5) {
		if attr == "visibility" {
			return pick(g.r, "//visibility:public", "//x:__pkg__", "//x/y:__subpackages__", ":friends", "//"+g.pkg+":__pkg__", "//x")
		}
		return g.label()
	}
	return g.strVal()
}

func bzQuote(s string) string {
	s = strings.ReplaceAll(s, `\`, `\\`)
	s = strings.ReplaceAll(s, `"`, `\"`)
	s = strings.ReplaceAll(s, "\n", `\n`)
	return `"` + s + `"`
}

// list renders a list of strings; ind is the indentation of the line it starts on.
func (g *bzGen) list(attr string, ind string, n int) string {
	seen := map[string]bool{}
	var el []string
	for i := 0; i < n; i++ {
		e := g.elem(attr)
		k := refNorm(e, g.pkg)
		if seen[k] && !g.p(0.1) {
			continue
		}
		seen[k] = true
		el = append(el, bzQuote(e))
	}
	if g.p(0.06) {
		el = append(el, pick(g.r, "SOME_VAR", `"a" + "b"`, `"%s_x" % NAME`, "3"))
	}
	return g.seq("[", "]", el, ind)
}

func (g *bzGen) seq(op, cl string, el []string, ind string) string {
	if len(el) == 0 && g.p(0.9) {
		return op + cl
	}
	multi := g.p(0.75)
	if !multi && !(g.pc > 0 && g.p(0.05)) {
		return op + strings.Join(el, ", ") + cl
	}
	var sb strings.Builder
	sb.WriteString(op + "\n")
	in := ind + "    "
	for i, e := range el {
		if g.p(g.pc * 0.5) {
			sb.WriteString(in + g.comment() + "\n")
		}
		sb.WriteString(in + e)
		if i < len(el)-1 || g.p(0.9) {
			sb.WriteString(",")
		}
		if g.p(g.pc * 0.5) {
			sb.WriteString("  " + g.comment())
		}
		sb.WriteString("\n")
	}
	if g.p(g.pc * 0.3) {
		sb.WriteString(in + g.comment() + "\n")
	}
	sb.WriteString(ind + cl)
	return sb.String()
}

func (g *bzGen) sel(attr, ind string) string {
	var el []string
	n := 1 + g.r.Intn(3)
	keys := []string{":c1", "//conf:c2", "//conf:c3"}
	if g.p(0.3) {
		keys = []string{"//conf:k1", ":k2", ":k3"}
	}
	for i := 0; i < n; i++ {
		k := keys[i]
		if i == n-1 && g.p(0.7) {
			k = "//conditions:default"
		}
		v := g.list(attr, ind+"        ", g.r.Intn(4))
		if g.p(0.05) {
			v = pick(g.r, "None", "SEL_VAR")
		}
		el = append(el, bzQuote(k)+": "+v)
	}
	d := g.seq("{", "}", el, ind)
	if g.p(0.08) {
		return "select(" + d + `, no_match_error = "none")`
	}
	return "select(" + d + ")"
}

func (g *bzGen) value(attr, ind string) string {
	switch {
	case bzIsList(attr) || attr == "my_list":
		switch k := g.r.Intn(20); {
		case k < 11:
			return g.list(attr, ind, 1+g.r.Intn(5))
		case k == 11:
			return g.sel(attr, ind)
		case k < 15:
			return g.list(attr, ind, 1+g.r.Intn(4)) + " + " + g.sel(attr, ind)
		case k == 15:
			return g.sel(attr, ind) + " + " + g.list(attr, ind, 1+g.r.Intn(3))
		case k == 16:
			return "SOME_VAR"
		case k == 17:
			return pick(g.r, "SOME_VAR", `glob(["*.x"])`, `glob(["**/*"], exclude = ["a.cc"])`) + " + " + g.list(attr, ind, 1+g.r.Intn(3))
		case k == 18:
			return g.list(attr, ind, 1+g.r.Intn(3)) + " + " + pick(g.r, "SOME_VAR", `glob(["*.x"])`, g.list(attr, ind, 2))
		}
		return g.sel(attr, ind) + " + " + g.sel(attr, ind)
	case bzIsString(attr) || attr == "licence_text":
		switch attr {
		case "actual":
			return bzQuote(g.label())
		case "size", "timeout":
			return bzQuote(pick(g.r, "small", "medium", "short", "long"))
		}
		return bzQuote(pick(g.r, "foo bar", "x", "//x:x", "$(location :a) > $@", "it's", "a\nb", ":b"))
	}
	switch attr {
	case "testonly", "linkstatic", "flaky":
		return pick(g.r, "1", "0", "True", "False")
	case "shard_count":
		return pick(g.r, "3", "50", "SHARDS")
	case "my_attr":
		return pick(g.r, "True", "5", `"str"`, `["p", "q"]`, "None", "SOME_VAR", "foo(1, bar = 2)", `"//x:x"`)
	}
	// dicts
	var el []string
	for i, k := range []string{"k1", "//x:k2", "k 3", "cpu"} {
		if g.p(0.6) {
			v := bzQuote(pick(g.r, "v1", "v2", "//x:x", ":a", "a:b"))
			if attr == "my_dict" && g.p(0.6) {
				v = g.list("deps", ind+"    ", g.r.Intn(3))
			} else if g.p(0.08) {
				v = "SOME_VAR"
			}
			el = append(el, bzQuote(k)+": "+v)
		}
		if i == 1 && g.p(0.12) {
			el = append(el, pick(g.r, "KEY_VAR", `"a" + "b"`, "7")+`: "kv"`)
		}
	}
	return g.seq("{", "}", el, ind)
}

func (g *bzGen) rule(kind, name string) string {
	attrs := map[string]bool{}
	for i := g.r.Intn(6); i > 0; i-- {
		switch k := g.r.Intn(10); {
		case k < 5:
			attrs[bzListAttrs[g.r.Intn(len(bzListAttrs))]] = true
		case k < 6:
			attrs[bzStrAttrs[g.r.Intn(len(bzStrAttrs))]] = true
		case k < 8:
			attrs[bzRawAttrs[g.r.Intn(len(bzRawAttrs))]] = true
		default:
			attrs[bzDictAttrs[g.r.Intn(len(bzDictAttrs))]] = true
		}
	}
	var l []string
	for a := range attrs {
		l = append(l, a)
	}
	sort.Strings(l)
	g.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	if name != "" {
		pos := 0
		if g.p(0.15) {
			pos = g.r.Intn(len(l) + 1)
		}
		l = append(l[:pos], append([]string{"name"}, l[pos:]...)...)
	}
	var sb strings.Builder
	if g.p(g.pc * 0.6) {
		sb.WriteString(g.comment() + "\n")
	}
	oneLine := g.p(0.08)
	var args []string
	for _, a := range l {
		v := bzQuote(name)
		if a != "name" {
			v = g.value(a, "    ")
		}
		args = append(args, a+" = "+v)
	}
	if oneLine {
		sb.WriteString(kind + "(" + strings.Join(args, ", ") + ")")
	} else {
		sb.WriteString(kind + "(\n")
		for _, a := range args {
			if g.p(g.pc * 0.4) {
				sb.WriteString("    " + g.comment() + "\n")
			}
			sb.WriteString("    " + a + ",")
			if g.p(g.pc * 0.3) {
				sb.WriteString("  " + g.comment())
			}
			sb.WriteString("\n")
		}
		if g.p(g.pc * 0.15) {
			sb.WriteString("    " + g.comment() + "\n")
		}
		sb.WriteString(")")
	}
	if g.p(g.pc * 0.15) {
		sb.WriteString("  " + g.comment())
	}
	return sb.String() + "\n"
}

var bzKinds = []string{"cc_library", "cc_library", "java_library", "py_test", "genrule", "my_rule", "native.filegroup", "alias"}

// file makes a BUILD file with rules r0.. and other statements.
func (g *bzGen) file(nr int) string {
	g.pc = []float64{0, 0.15, 0.5}[g.r.Intn(3)]
	var st []string
	if g.p(0.2) {
		st = append(st, "# Copyright header\n"+pick(g.r, "", "# more\n"))
	}
	if g.p(0.15) {
		st = append(st, "\"\"\"Docstring.\"\"\"\n")
	}
	if g.p(0.5) {
		st = append(st, fmt.Sprintf("load(%s, %s)\n", bzQuote(pick(g.r, "//rules:defs.bzl", ":local.bzl", "@r//a:b.bzl")), pick(g.r, `"my_rule"`, `"my_rule", x = "y"`, `"z", "my_rule"`)))
	}
	if g.p(0.3) {
		st = append(st, pick(g.r, "package(default_visibility = [\"//visibility:public\"])\n", "package(features = [\"a\"], default_visibility = [\"//x:__pkg__\"])\n"))
	}
	if g.p(0.6) {
		st = append(st, "SOME_VAR = "+g.list("deps", "", 1+g.r.Intn(3))+"\n")
	}
	for i := 0; i < nr; i++ {
		st = append(st, g.rule(bzKinds[g.r.Intn(len(bzKinds))], fmt.Sprintf("r%d", i)))
		if g.p(0.12) {
			st = append(st, pick(g.r, "exports_files([\"f.txt\", \"g.txt\"])\n", "[foo(name = \"g%d\" % i) for i in range(3)]\n", "licenses([\"notice\"])\n", "some_macro()\n", "X = {\"a\": 1}\n"))
		}
		if g.p(g.pc * 0.3) {
			st = append(st, g.comment()+"\n")
		}
	}
	if g.p(0.15) {
		st = append(st, g.comment()+"\n")
	}
	return strings.Join(st, "\n")
}

// ---- running buildozer in process ----

type bzRun struct {
	code     int
	out, err string
	panicked string
}

func runBz(opts *edit.Options, args []string) (res bzRun) {
	var o, e bytes.Buffer
	opts.OutWriter, opts.ErrWriter = &o, &e
	defer func() {
		if r := recover(); r != nil {
			res.panicked = fmt.Sprint(r)
		}
		res.out, res.err = o.String(), e.String()
	}()
	res.code = edit.Buildozer(opts, args)
	return
}

// bzWS is one workspace on disk, reused by one worker for many cases.
type bzWS struct {
	root string
}

func newBzWS(dir string) *bzWS {
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, "WORKSPACE"), nil, 0o644)
	return &bzWS{dir}
}

func (w *bzWS) put(pkg, name, text string) string {
	d := filepath.Join(w.root, pkg)
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, name)
	os.WriteFile(p, []byte(text), 0o644)
	return p
}

// esc escapes one argument of a buildozer command.
func bzEsc(s string) string {
	s = strings.ReplaceAll(s, " ", `\ `)
	return strings.ReplaceAll(s, "\n", "\\\n")
}

// ---- reference semantics on canonical trees ----

type bzStmt struct {
	n     *N
	isNew bool
	after string // adjacency demanded of a new rule: "before:NAME" or "after:NAME"
	id    int
}

type bzModel struct {
	pkg      string
	st       []*bzStmt
	loose    map[string]bool // "id/attr/value" whose position in the list is free
	touched  map[int]map[string]bool
	added    map[string]string // "id/attr/norm" -> demanded spelling
	dupOK    map[int]bool
	dictSet  map[string]bool // "id/attr" whose dict holds lists grown by dict_list_add
	strict   map[string]bool // "id/attr" whose emptiness matters
	kindSet  map[int]bool
	comments map[int][]string // comment tokens that must be in the rule
	dropped  map[int]map[string]bool
}

func newBzModel(pkg, text string) (*bzModel, error) {
	n, err := starParse(text)
	if err != nil {
		return nil, err
	}
	m := &bzModel{pkg: pkg, dupOK: map[int]bool{}, dictSet: map[string]bool{}, loose: map[string]bool{}, touched: map[int]map[string]bool{}, added: map[string]string{}, strict: map[string]bool{}, kindSet: map[int]bool{}, comments: map[int][]string{}, dropped: map[int]map[string]bool{}}
	for i, s := range n.C {
		m.st = append(m.st, &bzStmt{n: s, id: i})
	}
	return m, nil
}

func callKind(n *N) string {
	if n.K != "Call" {
		return ""
	}
	f := n.C[0]
	name := ""
	for f.K == "Dot" {
		name = "." + f.S + name
		f = f.C[0]
	}
	if f.K != "Id" {
		return ""
	}
	return f.S + name
}

func kindExpr(kind string) *N {
	l := strings.Split(kind, ".")
	e := nn("Id", l[0])
	for _, x := range l[1:] {
		e = nn("Dot", x, e)
	}
	return e
}

func attrOf(n *N, a string) *N {
	for _, c := range n.C[1:] {
		if c != nil && c.K == "Named" && c.S == a {
			return c.C[0]
		}
	}
	return nil
}

func attrNames(n *N) []string {
	var l []string
	for _, c := range n.C[1:] {
		if c != nil && c.K == "Named" {
			l = append(l, c.S)
		}
	}
	return l
}

func withAttr(n *N, a string, v *N) {
	for _, c := range n.C[1:] {
		if c != nil && c.K == "Named" && c.S == a {
			c.C[0] = v
			return
		}
	}
	n.C = append(n.C, nn("Named", a, v))
}

func delAttr(n *N, a string) bool {
	for i, c := range n.C {
		if i > 0 && c != nil && c.K == "Named" && c.S == a {
			n.C = append(append([]*N{}, n.C[:i]...), n.C[i+1:]...)
			return true
		}
	}
	return false
}

func clone(n *N) *N {
	if n == nil {
		return nil
	}
	m := &N{K: n.K, S: n.S}
	for _, c := range n.C {
		m.C = append(m.C, clone(c))
	}
	return m
}

// terms flattens a chain of concatenations.
func terms(n *N) []*N {
	if n == nil {
		return nil
	}
	if n.K == "Bin" && n.S == "+" {
		return append(terms(n.C[0]), terms(n.C[1])...)
	}
	return []*N{n}
}

func isSelect(n *N) bool {
	return n.K == "Call" && n.C[0].K == "Id" && n.C[0].S == "select" && len(n.C) > 1 && n.C[1].K == "Dict"
}

// eachList calls f with every list literal of the value: terms and select branches.
func eachList(n *N, f func(l *N)) {
	for _, t := range terms(n) {
		if t.K == "List" {
			f(t)
		} else if isSelect(t) {
			for _, kv := range t.C[1].C {
				if kv.C[1].K == "List" {
					f(kv.C[1])
				}
			}
		}
	}
}

func selSig(t *N) string {
	var l []string
	for _, kv := range t.C[1].C {
		l = append(l, kv.C[0].String())
	}
	for _, x := range t.C[2:] {
		l = append(l, x.String())
	}
	return strings.Join(l, "|")
}

func elemKey(n *N, pkg string) string {
	if n.K == "Str" {
		return "s:" + refNorm(n.S, pkg)
	}
	return "x:" + n.String()
}

// effective gives the elements of the value under one choice of select branches.
func effective(n *N, pkg string, cfg map[string]int) (set map[string]bool, opaque []string) {
	set = map[string]bool{}
	for _, t := range terms(n) {
		switch {
		case t.K == "List":
			for _, e := range t.C {
				set[elemKey(e, pkg)] = true
			}
		case isSelect(t):
			br := t.C[1].C
			if len(br) == 0 {
				continue
			}
			k := cfg[selSig(t)]
			if k >= len(br) {
				k = 0
			}
			v := br[k].C[1]
			if v.K == "List" {
				for _, e := range v.C {
					set[elemKey(e, pkg)] = true
				}
			} else {
				set["branch:"+normStr(v, pkg)] = true
			}
		default:
			opaque = append(opaque, normStr(t, pkg))
		}
	}
	sort.Strings(opaque)
	return
}

// occurrences counts the elements of the value under one choice of select branches.
func occurrences(n *N, pkg string, cfg map[string]int) map[string]int {
	count := map[string]int{}
	for _, t := range terms(n) {
		var l *N
		if t.K == "List" {
			l = t
		} else if isSelect(t) && len(t.C[1].C) > 0 {
			k := cfg[selSig(t)]
			if k >= len(t.C[1].C) {
				k = 0
			}
			l = t.C[1].C[k].C[1]
		}
		if l != nil && l.K == "List" {
			for _, e := range l.C {
				count[elemKey(e, pkg)]++
			}
		}
	}
	return count
}

// normStr renders a value with the strings of its label-like parts normalised.
func normStr(n *N, pkg string) string {
	m := clone(n)
	var w func(n *N)
	w = func(n *N) {
		if n == nil {
			return
		}
		if n.K == "Str" {
			n.S = refNorm(n.S, pkg)
		}
		for _, c := range n.C {
			w(c)
		}
	}
	w(m)
	return m.String()
}

func listLike(n *N) bool {
	for _, t := range terms(n) {
		if t.K == "List" || isSelect(t) {
			return true
		}
	}
	return false
}

func bzConfigs(vals ...*N) []map[string]int {
	sigs := map[string]int{}
	var order []string
	for _, v := range vals {
		for _, t := range terms(v) {
			if isSelect(t) {
				s := selSig(t)
				if _, ok := sigs[s]; !ok {
					order = append(order, s)
				}
				sigs[s] = len(t.C[1].C)
			}
		}
	}
	out := []map[string]int{{}}
	for _, s := range order {
		var next []map[string]int
		for _, m := range out {
			for b := 0; b < sigs[s]; b++ {
				x := map[string]int{}
				for k, v := range m {
					x[k] = v
				}
				x[s] = b
				next = append(next, x)
			}
			if sigs[s] == 0 {
				next = append(next, m)
			}
		}
		out = next
		if len(out) > 64 {
			break
		}
	}
	return out
}

func setStr(m map[string]bool) string { return strings.Join(sortedKeys(m), " ") }

// sameValue compares the demanded value of an attribute with the one found.
func (m *bzModel) sameValue(id int, attr string, want, got *N) string {
	pkg := m.pkg
	if (want == nil) != (got == nil) {
		w, g := want, got
		if w == nil {
			w = g
		}
		empty := listLike(w)
		for _, cfg := range bzConfigs(w) {
			s, o := effective(w, pkg, cfg)
			if len(s)+len(o) > 0 {
				empty = false
			}
		}
		if empty && !m.strict[fmt.Sprintf("%d/%s", id, attr)] {
			return ""
		}
		if want == nil {
			return "attribute should be gone, is " + got.String()
		}
		return "attribute is missing, should be " + want.String()
	}
	if want == nil {
		return ""
	}
	if m.dictSet[fmt.Sprintf("%d/%s", id, attr)] {
		want, got = sortDictLists(want), sortDictLists(got)
	}
	if !listLike(want) && !listLike(got) {
		if normStr(want, pkg) != normStr(got, pkg) {
			return "is " + got.String() + ", should be " + want.String()
		}
		if want.K == "Str" && got.K == "Str" && got.S != want.S && got.S != refShorten(want.S, pkg) && absLabel(got.S) != absLabel(want.S) && !labelJoin(want.S, got.S) {
			return "is spelled " + got.S + ", should be " + want.S
		}
		return ""
	}
	for _, cfg := range bzConfigs(want, got) {
		ws, wo := effective(want, pkg, cfg)
		gs, gop := effective(got, pkg, cfg)
		if setStr(ws) != setStr(gs) || strings.Join(wo, " ") != strings.Join(gop, " ") {
			return fmt.Sprintf("under %v elements are [%s] %v, should be [%s] %v", cfg, setStr(gs), gop, setStr(ws), wo)
		}
	}
	// No element appears more often than it has to.
	for _, cfg := range bzConfigs(want, got) {
		w, g := occurrences(want, pkg, cfg), occurrences(got, pkg, cfg)
		for e, n := range g {
			if n > 1 && n > w[e] {
				return fmt.Sprintf("under %v the element %s appears %d times, should be %d", cfg, e, n, w[e])
			}
		}
	}
	// Spelling of what was added.
	bad := ""
	eachList(got, func(l *N) {
		for _, e := range l.C {
			if e.K != "Str" {
				continue
			}
			if sp, ok := m.added[fmt.Sprintf("%d/%s/%s", id, attr, refNorm(e.S, pkg))]; ok && sp != e.S {
				bad = "added value is spelled " + e.S + ", should be " + sp
			}
		}
	})
	if bad != "" {
		return bad
	}
	// Order and multiplicity in lists that formatting does not sort.
	if !tables.IsSortableListArg[attr] && allLists(want) && allLists(got) {
		w, g := m.flat(id, attr, want), m.flat(id, attr, got)
		if m.dupOK[id] {
			w, g = dedupe(w), dedupe(g)
		}
		if strings.Join(w, " ") != strings.Join(g, " ") {
			return fmt.Sprintf("elements are in order %v, should be %v", g, w)
		}
	}
	return ""
}

func sortDictLists(d *N) *N {
	if d.K != "Dict" {
		return d
	}
	d = clone(d)
	for _, kv := range d.C {
		if l := kv.C[1]; l.K == "List" {
			sort.Slice(l.C, func(i, j int) bool { return l.C[i].String() < l.C[j].String() })
		}
	}
	return d
}

func dedupe(l []string) (out []string) {
	seen := map[string]bool{}
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return
}

func labelJoin(a, b string) bool {
	return strings.TrimPrefix(a, ":") == strings.TrimPrefix(b, ":") && false
}

func allLists(n *N) bool {
	for _, t := range terms(n) {
		if t.K != "List" {
			return false
		}
	}
	return true
}

func (m *bzModel) flat(id int, attr string, n *N) []string {
	var l []string
	for _, t := range terms(n) {
		for _, e := range t.C {
			k := elemKey(e, m.pkg)
			if !m.loose[fmt.Sprintf("%d/%s/%s", id, attr, k)] {
				l = append(l, k)
			}
		}
	}
	return l
}

var errSkip = fmt.Errorf("outside the documented behaviour")
var errBz = fmt.Errorf("command fails")

func unq(s string) string {
	if len(s) >= 2 && (s[0] == '"' || s[0] == '\'') && s[len(s)-1] == s[0] {
		n, err := starParse("x = " + s + "\n")
		if err == nil && n.C[0].C[1].K == "Str" {
			return n.C[0].C[1].S
		}
	}
	return s
}

func strN(s string) *N { return nn("Str", s) }

func (m *bzModel) touch(id int, a string) {
	if m.touched[id] == nil {
		m.touched[id] = map[string]bool{}
	}
	m.touched[id][a] = true
	delete(m.strict, fmt.Sprintf("%d/%s", id, a))
}

// addTo is the union of the value with one string.
func (m *bzModel) addTo(id int, attr string, v *N, s *N) *N {
	if s.K == "Str" {
		for _, t := range terms(v) {
			if t.K == "List" {
				for _, e := range t.C {
					if e.K == "Str" && refNorm(e.S, m.pkg) == refNorm(s.S, m.pkg) {
						return v
					}
				}
			}
		}
		if v != nil {
			eachList(v, func(l *N) { l.C = without(l.C, s.S, m.pkg) })
		}
	}
	if attr != "args" {
		m.loose[fmt.Sprintf("%d/%s/%s", id, attr, elemKey(s, m.pkg))] = true
	}
	if v == nil {
		return nn("List", "", s)
	}
	for _, t := range terms(v) {
		if t.K == "List" {
			t.C = append(t.C, s)
			return v
		}
	}
	return nn("Bin", "+", v, nn("List", "", s))
}

func without(l []*N, val, pkg string) []*N {
	var out []*N
	for _, e := range l {
		if e.K == "Str" && refNorm(e.S, pkg) == refNorm(val, pkg) {
			continue
		}
		out = append(out, e)
	}
	return out
}

func contains(v *N, val, pkg string) bool {
	found := false
	eachList(v, func(l *N) {
		for _, e := range l.C {
			if e.K == "Str" && refNorm(e.S, pkg) == refNorm(val, pkg) {
				found = true
			}
		}
	})
	return found
}

func isEmptyValue(v *N) bool {
	if !listLike(v) {
		return false
	}
	empty := true
	for _, t := range terms(v) {
		if t.K != "List" && !isSelect(t) {
			empty = false
		}
	}
	if !empty {
		return false
	}
	for _, t := range terms(v) {
		if t.K == "List" && len(t.C) > 0 {
			empty = false
		}
		if isSelect(t) {
			for _, kv := range t.C[1].C {
				if kv.C[1].K != "List" || len(kv.C[1].C) > 0 {
					empty = false
				}
			}
		}
	}
	return empty
}

func rawN(s string) *N {
	n, err := starParse("x = " + s + "\n")
	if err != nil || len(n.C) != 1 || n.C[0].K != "Assign" {
		return nn("Id", s)
	}
	return n.C[0].C[1]
}

func (m *bzModel) setValue(id int, attr string, args []string) *N {
	switch {
	case bzIsList(attr) && !(len(args) == 1 && strings.HasPrefix(args[0], "glob(")):
		l := nn("List", "")
		for _, a := range args {
			l.C = append(l.C, strN(refShorten(unq(a), m.pkg)))
		}
		return l
	case len(args) == 0:
		return nn("Id", "None")
	case bzIsString(attr):
		return strN(refShorten(unq(args[0]), m.pkg))
	}
	return rawN(args[0])
}

func dictFind(d *N, key string) *N {
	for _, kv := range d.C {
		if kv.C[0].K == "Str" && kv.C[0].S == key {
			return kv
		}
	}
	return nil
}

func refSubst(re *regexp.Regexp, tmpl, v string) (string, bool) {
	ix := re.FindStringSubmatchIndex(v)
	if ix == nil {
		return v, false
	}
	return v[:ix[0]] + string(re.ExpandString(nil, tmpl, v, ix)) + v[ix[1]:], true
}

func (m *bzModel) find(name string) *bzStmt {
	for _, s := range m.st {
		if s.n.K == "Call" {
			if v := attrOf(s.n, "name"); v != nil && v.K == "Str" && v.S == name {
				return s
			}
			if name == "__pkg__" && callKind(s.n) == "package" {
				return s
			}
		}
	}
	return nil
}

// apply performs one command on one rule (nil for file commands).
func (m *bzModel) apply(s *bzStmt, cmd string, a []string) error {
	pkg := m.pkg
	var n *N
	id := -1
	if s != nil {
		n, id = s.n, s.id
	}
	attrsFor := func(p string) []string {
		m.touch(id, p)
		if p == "*" {
			return attrNames(n)
		}
		return []string{p}
	}
	switch cmd {
	case "add":
		m.touch(id, a[0])
		for _, v := range a[1:] {
			v = unq(v)
			old := attrOf(n, a[0])
			if old == nil || !contains(old, v, pkg) {
				m.added[fmt.Sprintf("%d/%s/%s", id, a[0], refNorm(v, pkg))] = refShorten(v, pkg)
			}
			withAttr(n, a[0], m.addTo(id, a[0], old, strN(refShorten(v, pkg))))
		}
	case "remove":
		if len(a) == 1 {
			for _, k := range attrsFor(a[0]) {
				if k != "name" || a[0] == "name" {
					delAttr(n, k)
				}
			}
			return nil
		}
		for _, k := range attrsFor(a[0]) {
			v := attrOf(n, k)
			if v == nil {
				continue
			}
			hit := false
			for _, x := range a[1:] {
				if contains(v, unq(x), pkg) {
					hit = true
				}
				eachList(v, func(l *N) { l.C = without(l.C, unq(x), pkg) })
			}
			if hit && isEmptyValue(v) {
				delAttr(n, k)
			}
		}
	case "replace":
		for _, k := range attrsFor(a[0]) {
			v := attrOf(n, k)
			if v == nil {
				continue
			}
			o, nw := unq(a[1]), refShorten(unq(a[2]), pkg)
			if v.K == "Str" {
				if refNorm(v.S, pkg) == refNorm(o, pkg) {
					withAttr(n, k, strN(nw))
				}
				continue
			}
			eachList(v, func(l *N) {
				for i, e := range l.C {
					if e.K == "Str" && refNorm(e.S, pkg) == refNorm(o, pkg) {
						m.sameLoose(id, k, e, strN(nw))
						l.C[i] = strN(nw)
					}
				}
			})
		}
	case "substitute":
		re, err := regexp.Compile(a[1])
		if err != nil {
			return errBz
		}
		for _, k := range attrsFor(a[0]) {
			v := attrOf(n, k)
			if v == nil {
				continue
			}
			if v.K == "Str" {
				if x, ok := refSubst(re, a[2], v.S); ok {
					withAttr(n, k, strN(refShorten(x, pkg)))
				}
				continue
			}
			eachList(v, func(l *N) {
				for i, e := range l.C {
					if e.K == "Str" {
						if x, ok := refSubst(re, a[2], e.S); ok {
							m.sameLoose(id, k, e, strN(x))
							l.C[i] = strN(x)
						}
					}
				}
			})
		}
	case "set", "set_if_absent":
		if a[0] == "kind" {
			if cmd == "set_if_absent" {
				return errBz
			}
			n.C[0] = kindExpr(a[1])
			m.kindSet[id] = true
			return nil
		}
		if cmd == "set_if_absent" && attrOf(n, a[0]) != nil {
			return nil
		}
		m.touch(id, a[0])
		m.overwritten(id, a[0])
		m.strict[fmt.Sprintf("%d/%s", id, a[0])] = true
		withAttr(n, a[0], m.setValue(id, a[0], a[1:]))
	case "rename":
		if attrOf(n, a[1]) != nil || attrOf(n, a[0]) == nil {
			return errBz
		}
		m.touch(id, a[0])
		m.touch(id, a[1])
		m.dupOK[id] = true // formatting drops duplicates by the name of the attribute
		for _, c := range n.C[1:] {
			if c != nil && c.K == "Named" && c.S == a[0] {
				c.S = a[1]
				break
			}
		}
		m.moved(id, a[0], a[1])
	case "move":
		old, new := attrOf(n, a[0]), attrOf(n, a[1])
		if len(a) == 3 && a[2] == "*" {
			if old == nil {
				return errBz
			}
			if new == nil {
				return m.apply(s, "rename", []string{a[0], a[1]})
			}
			if old.K != "List" {
				return errSkip // lists and selects that merge or not
			}
			m.touch(id, a[0])
			m.touch(id, a[1])
			for _, e := range old.C {
				if m.loose[fmt.Sprintf("%d/%s/%s", id, a[0], elemKey(e, pkg))] {
					m.loose[fmt.Sprintf("%d/%s/%s", id, a[1], elemKey(e, pkg))] = true
				}
				withAttr(n, a[1], m.addTo(id, a[1], attrOf(n, a[1]), clone(e)))
			}
			delAttr(n, a[0])
			return nil
		}
		if old == nil {
			return nil
		}
		for _, x := range a[2:] {
			old = attrOf(n, a[0])
			if old == nil {
				break
			}
			x = unq(x)
			if !contains(old, x, pkg) {
				continue
			}
			m.touch(id, a[0])
			m.touch(id, a[1])
			var last string
			eachList(old, func(l *N) {
				for _, e := range l.C {
					if e.K == "Str" && refNorm(e.S, pkg) == refNorm(x, pkg) {
						last = e.S
					}
				}
				l.C = without(l.C, x, pkg)
			})
			if isEmptyValue(old) {
				delAttr(n, a[0])
			}
			withAttr(n, a[1], m.addTo(id, a[1], attrOf(n, a[1]), strN(last)))
		}
	case "remove_if_equal":
		v := attrOf(n, a[0])
		if v == nil {
			return nil
		}
		if v.K == "Str" && refNorm(v.S, pkg) == refNorm(a[1], pkg) || v.K == "Id" && v.S == a[1] || v.K == "Num" && rawN(a[1]).K == "Num" && rawN(a[1]).S == v.S {
			m.touch(id, a[0])
			delAttr(n, a[0])
		}
	case "copy", "copy_no_overwrite":
		if cmd == "copy_no_overwrite" && attrOf(n, a[0]) != nil {
			return nil
		}
		f := m.find(a[1])
		if f == nil || attrOf(f.n, a[0]) == nil {
			return errBz
		}
		m.touch(id, a[0])
		m.dupOK[id] = true
		if f.id != id {
			m.overwritten(id, a[0])
		}
		m.strict[fmt.Sprintf("%d/%s", id, a[0])] = true
		v := clone(attrOf(f.n, a[0]))
		if m.dictSet[fmt.Sprintf("%d/%s", f.id, a[0])] {
			defer func() { m.dictSet[fmt.Sprintf("%d/%s", id, a[0])] = true }()
		}
		for k := range m.loose {
			pre := fmt.Sprintf("%d/%s/", f.id, a[0])
			if strings.HasPrefix(k, pre) {
				m.loose[fmt.Sprintf("%d/%s/", id, a[0])+k[len(pre):]] = true
			}
		}
		withAttr(n, a[0], v)
	case "dict_add", "dict_set":
		d := attrOf(n, a[0])
		if d == nil {
			d = nn("Dict", "")
		}
		d = clone(d)
		for _, x := range a[1:] {
			i := strings.Index(x, ":")
			if i < 0 {
				return errBz
			}
			v := strN(refShorten(unq(x[i+1:]), pkg))
			if kv := dictFind(d, x[:i]); kv == nil {
				d.C = append(d.C, nn("KV", "", strN(x[:i]), v))
			} else if cmd == "dict_set" {
				kv.C[1] = v
			}
		}
		m.touch(id, a[0])
		withAttr(n, a[0], d)
	case "dict_remove":
		d := attrOf(n, a[0])
		if d == nil || d.K != "Dict" {
			return nil
		}
		hit := false
		for _, x := range a[1:] {
			var out []*N
			for _, kv := range d.C {
				if kv.C[0].K == "Str" && kv.C[0].S == unq(x) {
					hit = true
					continue
				}
				out = append(out, kv)
			}
			d.C = out
		}
		if hit {
			m.touch(id, a[0])
		}
		if len(d.C) == 0 {
			m.touch(id, a[0])
			delAttr(n, a[0])
		}
	case "dict_replace_if_equal":
		d := attrOf(n, a[0])
		if d == nil || d.K != "Dict" {
			return nil
		}
		kv := dictFind(d, a[1])
		if kv == nil {
			return errBz
		}
		v := kv.C[1]
		if v.K == "Str" && refNorm(v.S, pkg) == refNorm(unq(a[2]), pkg) || v.K == "Id" && v.S == unq(a[2]) {
			m.touch(id, a[0])
			kv.C[1] = strN(refShorten(unq(a[3]), pkg))
		}
	case "dict_list_add":
		d := attrOf(n, a[0])
		if d == nil {
			d = nn("Dict", "")
		}
		m.touch(id, a[0])
		m.dictSet[fmt.Sprintf("%d/%s", id, a[0])] = true
		kv := dictFind(d, a[1])
		if kv == nil {
			kv = nn("KV", "", strN(a[1]), nn("List", ""))
			d.C = append(d.C, kv)
		}
		if kv.C[1].K != "List" {
			return errSkip
		}
		for _, x := range a[2:] {
			if !contains(kv.C[1], unq(x), pkg) {
				kv.C[1].C = append(kv.C[1].C, strN(refShorten(unq(x), pkg)))
			}
		}
		withAttr(n, a[0], d)
	case "set_select":
		if (len(a)-1)%2 != 0 {
			return errBz
		}
		d := nn("Dict", "")
		for i := 1; i < len(a); i += 2 {
			v := strN(refShorten(unq(a[i+1]), pkg))
			kv := dictFind(d, a[i])
			switch {
			case kv == nil && bzIsList(a[0]):
				d.C = append(d.C, nn("KV", "", strN(a[i]), nn("List", "", v)))
			case kv == nil:
				d.C = append(d.C, nn("KV", "", strN(a[i]), v))
			case bzIsList(a[0]):
				if !contains(kv.C[1], v.S, pkg) {
					kv.C[1].C = append(kv.C[1].C, v)
				}
			default:
				kv.C[1] = v
			}
		}
		m.touch(id, a[0])
		m.overwritten(id, a[0])
		withAttr(n, a[0], nn("Call", "", nn("Id", "select"), d))
	case "delete":
		var out []*bzStmt
		for _, x := range m.st {
			if x != s {
				out = append(out, x)
			}
		}
		m.st = out
	case "new":
		if m.find(a[1]) != nil {
			return errBz
		}
		ns := &bzStmt{n: nn("Call", "", kindExpr(a[0]), nn("Named", "name", strN(a[1]))), isNew: true, id: 1000 + len(m.st)*7 + len(m.touched)}
		ns.id = 1000 + int(h64(a[1])%100000)
		if len(a) == 4 {
			if rel := m.find(a[3]); rel != nil {
				if a[2] != "before" && a[2] != "after" {
					return errBz
				}
				ns.after = fmt.Sprintf("%s:%d", a[2], rel.id)
				for i, x := range m.st {
					if x == rel {
						if a[2] == "after" {
							i++
						}
						m.st = append(m.st[:i], append([]*bzStmt{ns}, m.st[i:]...)...)
						break
					}
				}
				return nil
			}
		}
		m.st = append(m.st, ns)
	case "comment", "remove_comment":
		// The values stay as they are; comments are judged separately.
	case "format", "print", "print_comment":
	default:
		panic("no reference for " + cmd)
	}
	return nil
}

// sameLoose: an element that replaces one without a fixed place has none either.
func (m *bzModel) sameLoose(id int, attr string, old, new *N) {
	delete(m.added, fmt.Sprintf("%d/%s/%s", id, attr, refNorm(new.S, m.pkg)))
	if m.loose[fmt.Sprintf("%d/%s/%s", id, attr, elemKey(old, m.pkg))] {
		m.loose[fmt.Sprintf("%d/%s/%s", id, attr, elemKey(new, m.pkg))] = true
	}
}

// overwritten forgets how the earlier value came about.
func (m *bzModel) overwritten(id int, attr string) {
	delete(m.strict, fmt.Sprintf("%d/%s", id, attr))
	delete(m.dictSet, fmt.Sprintf("%d/%s", id, attr))
	p := fmt.Sprintf("%d/%s/", id, attr)
	for k := range m.loose {
		if strings.HasPrefix(k, p) {
			delete(m.loose, k)
		}
	}
	for k := range m.added {
		if strings.HasPrefix(k, p) {
			delete(m.added, k)
		}
	}
}

func (m *bzModel) moved(id int, from, to string) {
	p1, p2 := fmt.Sprintf("%d/%s/", id, from), fmt.Sprintf("%d/%s/", id, to)
	for k := range m.loose {
		if strings.HasPrefix(k, p1) {
			m.loose[p2+k[len(p1):]] = true
		}
	}
	for k, v := range m.added {
		if strings.HasPrefix(k, p1) {
			m.added[p2+k[len(p1):]] = v
		}
	}
	if m.dictSet[p1[:len(p1)-1]] {
		m.dictSet[p2[:len(p2)-1]] = true
	}
	if m.strict[p1[:len(p1)-1]] {
		m.strict[p2[:len(p2)-1]] = true
	}
}

// formatBuild is the standard formatting of a BUILD file, by the code under test.
func formatBuild(path, text string) (string, error) {
	f, err := build.ParseBuild(path, []byte(text))
	if err != nil {
		return "", err
	}
	return string(build.Format(f)), nil
}
