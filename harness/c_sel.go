package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	apipb "github.com/bazelbuild/buildtools/api_proto"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/golang/protobuf/proto"
	"go.starlark.net/syntax"
)

func init() {
	checks["C29"] = checkTargets
	checks["C34"] = checkPrint
}

// refRule is a rule as the reference parser sees it.
type refRule struct {
	kind, name string // name "" without a literal name
	start, end int
	nested     bool // the body of a comprehension
	call       *syntax.CallExpr
}

func dotted(e syntax.Expr) string {
	switch x := e.(type) {
	case *syntax.Ident:
		return x.Name
	case *syntax.DotExpr:
		if l := dotted(x.X); l != "" {
			return l + "." + x.Name.Name
		}
	}
	return ""
}

func refRules(text string) ([]*refRule, error) {
	f, err := syntax.Parse("ref", highEscapes(text), 0)
	if err != nil {
		return nil, err
	}
	var l []*refRule
	add := func(e syntax.Expr, nested bool) {
		c, ok := e.(*syntax.CallExpr)
		if !ok {
			return
		}
		r := &refRule{kind: dotted(c.Fn), nested: nested, call: c}
		s, _ := c.Fn.Span()
		r.start, r.end = int(s.Line), int(c.Rparen.Line)
		for _, a := range c.Args {
			if b, ok := a.(*syntax.BinaryExpr); ok && b.Op == syntax.EQ {
				if id, ok := b.X.(*syntax.Ident); ok && id.Name == "name" {
					if s, ok := b.Y.(*syntax.Literal); ok {
						if v, ok := s.Value.(string); ok {
							r.name = v
						}
					}
				}
			}
		}
		l = append(l, r)
	}
	for _, st := range f.Stmts {
		es, ok := st.(*syntax.ExprStmt)
		if !ok {
			continue
		}
		switch x := es.X.(type) {
		case *syntax.CallExpr:
			add(x, false)
		case *syntax.Comprehension:
			add(x.Body, true)
		}
	}
	return l, nil
}

func (r *refRule) arg(name string) syntax.Expr {
	for _, a := range r.call.Args {
		if b, ok := a.(*syntax.BinaryExpr); ok && b.Op == syntax.EQ {
			if id, ok := b.X.(*syntax.Ident); ok && id.Name == name {
				return b.Y
			}
		}
	}
	return nil
}

func (r *refRule) argNames() (l []string) {
	for _, a := range r.call.Args {
		if b, ok := a.(*syntax.BinaryExpr); ok && b.Op == syntax.EQ {
			if id, ok := b.X.(*syntax.Ident); ok {
				l = append(l, id.Name)
			}
		}
	}
	return
}

// selectRef lists the rules a target stands for; specific tells that having
// none is an error.
func selectRef(rules []*refRule, t string) (l []*refRule, found bool) {
	for _, r := range rules {
		if !r.nested && (t != "__pkg__" && r.name == t || t == "__pkg__" && r.kind == "package") {
			return []*refRule{r}, true
		}
	}
	for _, r := range rules {
		if r.kind == "exports_files" && !r.nested && len(r.call.Args) > 0 {
			if li, ok := r.call.Args[0].(*syntax.ListExpr); ok {
				for _, e := range li.List {
					if s, ok := e.(*syntax.Literal); ok && s.Value == t {
						return []*refRule{r}, true
					}
				}
			}
		}
	}
	switch {
	case t == "all" || t == "*":
		return rules, true
	case strings.HasPrefix(t, "%"):
		if n, err := strconv.Atoi(t[1:]); err == nil {
			for _, r := range rules {
				if r.start == n {
					return []*refRule{r}, true
				}
			}
			return nil, false
		}
		for _, r := range rules {
			if r.kind == t[1:] {
				l = append(l, r)
			}
		}
		return l, true
	}
	return nil, false
}

// selFile makes a file with all sorts of statements that are rules or are not.
func selFile(r *rand.Rand, pkg string) string {
	g := &bzGen{r: r, pkg: pkg}
	st := []string{}
	n := 2 + r.Intn(6)
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("r%d", i)
		switch r.Intn(17) {
		case 16:
			odd := func() string {
				return pick(r, " b", "b ", " b ", " ", "", "a\\tb", "a\\nb", "a  b", "\\\"q\\\" x", "é x")
			}
			st = append(st, fmt.Sprintf("my_rule(\n    name = %q,\n    srcs = \"%s\",\n    visibility = \"%s\",\n    deps = [\"%s\"],\n)\n", name, odd(), odd(), odd()))
		case 0:
			st = append(st, pick(r, "package(default_visibility = [\"//visibility:public\"])\n", "package(\n    features = [\"x\"],\n)\n"))
		case 1:
			st = append(st, pick(r, "exports_files([\"f.txt\", \"g.txt\"])\n", "exports_files(\n    [\n        \"data.bin\",\n        \"f.txt\",\n    ],\n    visibility = [\"//x\"],\n)\n", "exports_files([\"r1\", \"r2\"])\n"))
		case 2:
			st = append(st, pick(r, "[cc_library(name = \"c%d\" % i) for i in range(3)]\n", "[\n    java_library(\n        name = \"c\" + n,\n        deps = [\":x\"],\n    )\n    for n in NAMES\n    if n\n]\n"))
		case 3:
			st = append(st, pick(r, "licenses([\"notice\"])\n", "some_macro()\n", "cc_library()\n", "java_library(srcs = [\"a\"])\n"))
		case 4:
			st = append(st, "X"+name+" = [\"a\", \"b\"]\n")
		case 5:
			st = append(st, fmt.Sprintf("cc_library(name = \"r%d\" + SUFFIX, testonly = 0)\n", i))
		case 6:
			st = append(st, fmt.Sprintf("%s(\n    name = %q,\n    deps = [],\n)\n", pick(r, "cc_library", "py_test", "package_group"), pick(r, "all", "r0", "r1", "a/b.c", "x-y_z+1", "f.txt", "%lib", "__pkg", "package")))
		case 7:
			st = append(st, pick(r, "# only a comment\n", "\"\"\"doc\"\"\"\n", "# one\n\n# two\n"))
		case 8:
			st = append(st, fmt.Sprintf("native.cc_library(name = %q)\n", name), fmt.Sprintf("a.b.cc_library(deps = [select({\"x\": []})], name = %q)\n", name+"x"))
		default:
			st = append(st, g.rule(bzKinds[r.Intn(len(bzKinds))], name))
		}
	}
	text := strings.Join(st, "\n")
	if r.Intn(3) == 0 {
		text = "\n\n" + text
	}
	if r.Intn(2) == 0 {
		if fb, err := formatBuild("BUILD", text); err == nil {
			text = fb
		}
	}
	return text
}

func selTarget(r *rand.Rand, rules []*refRule) string {
	x := rules[r.Intn(len(rules))]
	switch r.Intn(12) {
	case 0:
		return "*"
	case 1:
		return "all"
	case 2:
		return "__pkg__"
	case 3, 4:
		if x.kind != "" {
			return "%" + x.kind
		}
		return "%cc_library"
	case 5:
		return "%" + pick(r, "cc_library", "package", "exports_files", "cc_lib", "library", "no_such_rule", "native.cc_library", "cc_library ", "CC_LIBRARY")
	case 6, 7:
		return fmt.Sprintf("%%%d", x.start)
	case 8:
		return fmt.Sprintf("%%%d", pick(r, x.start+1, x.end, x.start-1, 1+r.Intn(40), 0, 9999))
	case 9:
		return pick(r, "f.txt", "data.bin", "g.txt", "nosuch", "r", "r1 ", "R1", "-r1", "c0", "c%d", "**", "r*")
	}
	if x.name != "" {
		return x.name
	}
	return fmt.Sprintf("r%d", r.Intn(8))
}

func checkTargets(c *Ctx) {
	c.Rule("distinct = (targets, kinds of statements in the file, rules selected)")
	c.Assume("rules are calls at the top level and in the body of top-level comprehensions; the nameless rule that may answer to the directory's name is not addressed by it; %LINE of a line where no rule begins may fail or select nothing")
	c.parallel(c.N(16000, 400000), 8, 2900, func(i int, r *rand.Rand) {
		pkg := pick(r, "pkg", "a/b", "zz")
		ws := newBzWS(filepath.Join(c.Scratch, fmt.Sprintf("ws%d", r.Int63())))
		defer os.RemoveAll(ws.root)
		text := selFile(r, pkg)
		rules, err := refRules(text)
		if err != nil || len(rules) == 0 {
			return
		}
		nt := 1
		if r.Intn(4) == 0 {
			nt = 2 + r.Intn(2)
		}
		var targets []string
		for len(targets) < nt {
			t := selTarget(r, rules)
			if t != strings.TrimSpace(t) || t == path.Base(pkg) {
				continue
			}
			targets = append(targets, t)
		}
		var types []string
		if r.Intn(4) == 0 {
			for j := 1 + r.Intn(2); j > 0; j-- {
				types = append(types, pick(r, "cc_library", "java_library", "package", "my_rule", "exports_files", rules[r.Intn(len(rules))].kind))
			}
		}
		in := fmt.Sprintf("targets %q, -types %q\n%s", targets, types, text)
		c.Case(in)
		// What the documentation selects.
		want := map[*refRule]bool{}
		newPkg, wantErr, mayErr := false, false, false
		shape := ""
		for _, t := range targets {
			l, found := selectRef(rules, t)
			if t == "__pkg__" && !found {
				ok := len(types) == 0
				for _, k := range types {
					ok = ok || k == "package"
				}
				newPkg = newPkg || ok
				continue
			}
			if !found && strings.HasPrefix(t, "%") {
				mayErr = true
				continue
			}
			if !found {
				wantErr = true
				break
			}
			n := 0
			for _, x := range l {
				ok := len(types) == 0
				for _, k := range types {
					ok = ok || x.kind == k
				}
				if ok {
					want[x] = true
					n++
				}
			}
			shape += fmt.Sprintf("%.2s%d of %d;", t, n, len(rules))
		}
		if newPkg && (mayErr || len(targets) > 1) {
			return // the statement added shifts nothing, but wildcards may see it
		}
		file := ws.put(pkg, pick(r, "BUILD", "BUILD.bazel"), text)
		opts := edit.NewOpts()
		opts.RootDir = ws.root
		opts.FilterRuleTypes = types
		args := []string{"set zz_mark 77"}
		for _, t := range targets {
			args = append(args, "//"+pkg+":"+t)
		}
		res := runBz(opts, args)
		b, _ := os.ReadFile(file)
		after := string(b)
		out := fmt.Sprintf("exit %d\nstderr: %s\nfile after:\n%s", res.code, res.err, after)
		if res.panicked != "" {
			c.Violate("panic", res.panicked, in)
			return
		}
		if wantErr || mayErr && res.code == 2 {
			if res.code != 2 {
				c.Violate("no-error", "a target does not exist\n"+out, in)
			} else if after != text {
				c.Violate("edited-on-error", out, in)
			}
			c.Count("unknown targets", 1)
			c.Eval("unknown" + shape)
			return
		}
		if res.code == 2 || res.code == 1 {
			c.Violate("error", "all targets exist\n"+out, in)
			return
		}
		got, err := refRules(after)
		if err != nil {
			c.Violate("invalid", err.Error()+"\n"+out, in)
			return
		}
		gi := 0
		if newPkg {
			var keep []*refRule
			n := 0
			for _, x := range got {
				if x.kind == "package" && x.arg("zz_mark") != nil && n == 0 {
					n++
					continue
				}
				keep = append(keep, x)
			}
			if n != 1 {
				c.Violate("package-not-added", out, in)
				return
			}
			got = keep
		}
		// Empty package() calls may be dropped by any change.
		expect := rules
		if len(got) != len(expect) {
			c.Violate("rules-lost", fmt.Sprintf("%d rules before, %d after\n%s", len(expect), len(got), out), in)
			return
		}
		n := 0
		for _, x := range expect {
			y := got[gi]
			gi++
			marked := y.arg("zz_mark") != nil
			if marked != want[x] {
				sig := "missed"
				if marked {
					sig = "extra"
				}
				c.Violate(sig, fmt.Sprintf("the rule of kind %q, name %q, line %d: selected %v, should be %v\n%s", x.kind, x.name, x.start, marked, want[x], out), in)
				return
			}
			if marked {
				n++
			}
		}
		wantCode := 0
		if n == 0 && !newPkg {
			wantCode = 3
			if after != text && formatted(text) {
				c.Violate("changed", "nothing was selected\n"+out, in)
				return
			}
		}
		if res.code != wantCode && !(wantCode == 3 && after != text) {
			c.Violate("exit", fmt.Sprintf("want %d\n%s", wantCode, out), in)
			return
		}
		c.Count("rules selected", n)
		c.Count("rules not selected", len(rules)-n)
		c.Eval(shape + fmt.Sprint(types))
		if i < 3 {
			c.Sample(in)
		}
		// print reaches the same rules, in the order of the targets.
		ws.put(pkg, filepath.Base(file), text)
		o2 := edit.NewOpts()
		o2.RootDir, o2.FilterRuleTypes = ws.root, types
		res2 := runBz(o2, append([]string{"print kind endline"}, args[1:]...))
		var wl []string
		for _, t := range targets {
			l, found := selectRef(rules, t)
			if t == "__pkg__" && !found {
				return
			}
			for _, x := range l {
				if want[x] {
					wl = append(wl, fmt.Sprintf("%s %d", x.kind, x.end))
				}
			}
		}
		if g, w := strings.TrimSpace(res2.out), strings.Join(wl, "\n"); g != w || res2.code != 0 {
			c.Violate("print", fmt.Sprintf("exit %d, want lines\n%s\ngot\n%s", res2.code, w, g), in)
		}
	})
}

func formatted(text string) bool {
	fb, err := formatBuild("BUILD", text)
	return err == nil && fb == text
}

// ---- C34 ----

type printField struct {
	Text   *string `json:"text"`
	Number *int    `json:"number"`
	Error  *string `json:"error"`
	List   *struct {
		Strings []string `json:"strings"`
	} `json:"list"`
	Quote bool `json:"quoteWhenPrinting"`
}

func (f printField) String() string {
	switch {
	case f.Text != nil:
		return fmt.Sprintf("text %q", *f.Text)
	case f.Number != nil:
		return fmt.Sprintf("number %d", *f.Number)
	case f.Error != nil:
		return "error " + *f.Error
	case f.List != nil:
		return fmt.Sprintf("list %q", f.List.Strings)
	}
	return "empty"
}

// wantField is what the documentation prescribes for one field.
type wantField struct {
	text   *string
	number *int
	list   []string
	isList bool
	miss   bool
	expr   string // the source of any other expression
	rule   string
	any    []string // one of several texts
}

func srcOf(text string, e syntax.Node) string {
	s, t := e.Span()
	lines := strings.SplitAfter(text, "\n")
	off := func(p syntax.Position) int {
		n := 0
		for i := 0; i < int(p.Line)-1; i++ {
			n += len(lines[i])
		}
		c := 0
		for i := range lines[p.Line-1] {
			if c == int(p.Col)-1 {
				return n + i
			}
			c++
		}
		return n + len(lines[p.Line-1])
	}
	return text[off(s):off(t)]
}

func wantOf(text string, x *refRule, field, pkg, file string, unnamed []string) (w wantField, drop bool) {
	str := func(s string) wantField { return wantField{text: &s} }
	num := func(n int) wantField { return wantField{number: &n} }
	switch field {
	case "kind":
		return str(x.kind), false
	case "name":
		if x.name == "" {
			return wantField{any: append([]string{""}, unnamed...)}, false
		}
		return str(x.name), false
	case "label":
		if x.name == "" {
			return w, true
		}
		l := "//" + pkg + ":" + x.name
		if path.Base(pkg) == x.name && pkg != "" {
			l = "//" + pkg
		}
		return str(l), false
	case "rule":
		return wantField{rule: srcOf(text, x.call)}, false
	case "startline":
		return num(x.start), false
	case "endline":
		return num(x.end), false
	case "path":
		return str(file), false
	case "attrs":
		return wantField{isList: true, list: x.argNames()}, false
	}
	e := x.arg(field)
	switch v := e.(type) {
	case nil:
		return wantField{miss: true}, false
	case *syntax.Ident:
		return str(v.Name), false
	case *syntax.Literal:
		if s, ok := v.Value.(string); ok {
			return str(s), false
		}
		return str(v.Raw), false
	case *syntax.ListExpr:
		l := []string{}
		for _, y := range v.List {
			s, ok := y.(*syntax.Literal)
			if !ok {
				return wantField{expr: srcOf(text, e)}, false
			}
			if _, ok := s.Value.(string); !ok {
				return wantField{expr: srcOf(text, e)}, false
			}
			l = append(l, s.Value.(string))
		}
		return wantField{isList: true, list: l}, false
	}
	return wantField{expr: srcOf(text, e)}, false
}

func sameSource(a, b string) bool {
	x, e1 := starParse("x = (" + a + "\n)\n")
	y, e2 := starParse("x = (" + b + "\n)\n")
	return e1 == nil && e2 == nil && x.String() == y.String()
}

func (w wantField) match(f printField) string {
	bad := func() string { return fmt.Sprintf("got %v, want %v", f, w) }
	switch {
	case w.miss:
		if f.Error == nil || *f.Error != "MISSING" {
			return bad()
		}
	case w.text != nil:
		if f.Text == nil || *f.Text != *w.text {
			return fmt.Sprintf("got %v, want %q", f, *w.text)
		}
	case w.number != nil:
		n := 0
		if f.Number != nil {
			n = *f.Number
		}
		if n != *w.number {
			return fmt.Sprintf("got %v, want %d", f, *w.number)
		}
	case w.isList:
		if f.List == nil || strings.Join(f.List.Strings, "\x00") != strings.Join(w.list, "\x00") || len(f.List.Strings) != len(w.list) {
			return fmt.Sprintf("got %v, want %q", f, w.list)
		}
	case w.expr != "":
		if f.Text == nil || !sameSource(*f.Text, w.expr) {
			return fmt.Sprintf("got %v, want the source %s", f, w.expr)
		}
	case w.rule != "":
		if f.Text == nil || !sameSource(*f.Text, w.rule) {
			return fmt.Sprintf("got %v, want the source %s", f, w.rule)
		}
	case w.any != nil:
		for _, s := range w.any {
			if f.Text != nil && *f.Text == s {
				return ""
			}
		}
		return bad()
	}
	return ""
}

// textOf renders a field as the text output documents it.
func (f printField) textOf() string {
	switch {
	case f.Text != nil:
		if f.Quote && strings.Contains(*f.Text, " ") {
			return fmt.Sprintf("%q", *f.Text)
		}
		return *f.Text
	case f.Number != nil:
		return strconv.Itoa(*f.Number)
	case f.Error != nil && *f.Error != "UNKNOWN":
		return "(missing)"
	case f.Error != nil:
		return "(unknown)"
	case f.List != nil:
		return "[" + strings.Join(f.List.Strings, " ") + "]"
	}
	return ""
}

func protoFields(p *apipb.Output) (all [][]printField) {
	for _, rec := range p.Records {
		var l []printField
		for _, f := range rec.Fields {
			pf := printField{Quote: f.QuoteWhenPrinting}
			switch v := f.Value.(type) {
			case *apipb.Output_Record_Field_Text:
				pf.Text = &v.Text
			case *apipb.Output_Record_Field_Number:
				n := int(v.Number)
				pf.Number = &n
			case *apipb.Output_Record_Field_Error:
				s := v.Error.String()
				pf.Error = &s
			case *apipb.Output_Record_Field_List:
				pf.List = &struct {
					Strings []string `json:"strings"`
				}{v.List.GetStrings()}
			}
			l = append(l, pf)
		}
		all = append(all, l)
	}
	return
}

func checkPrint(c *Ctx) {
	c.Rule("distinct = (commands, targets, kinds of values printed)")
	c.Assume("the nameless rule's name may be shown as empty or as the directory's name; records that show a label are omitted for rules without a name; line breaks in printed expressions are the formatter's")
	c.parallel(c.N(9000, 250000), 8, 3400, func(i int, r *rand.Rand) {
		ws := newBzWS(filepath.Join(c.Scratch, fmt.Sprintf("ws%d", r.Int63())))
		defer os.RemoveAll(ws.root)
		pkgs := []string{pick(r, "pkg", "a/r1", "r2", ""), "other/b"}[:1+r.Intn(2)]
		texts := map[string]string{}
		files := map[string]string{}
		ref := map[string][]*refRule{}
		fieldNames := []string{"name", "kind", "label", "rule", "startline", "endline", "path", "attrs", "deps", "srcs", "visibility", "testonly", "nosuch"}
		for _, p := range pkgs {
			texts[p] = selFile(r, p)
			rules, err := refRules(texts[p])
			if err != nil || len(rules) == 0 {
				return
			}
			ref[p] = rules
			for _, x := range rules {
				fieldNames = append(fieldNames, x.argNames()...)
			}
			files[p] = ws.put(p, pick(r, "BUILD", "BUILD.bazel"), texts[p])
		}
		var cmds [][]string
		for j := 1 + r.Intn(2); j > 0; j-- {
			cmd := []string{}
			for k := r.Intn(5); k > 0; k-- {
				cmd = append(cmd, pick(r, fieldNames...))
			}
			cmds = append(cmds, cmd)
		}
		type tgt struct{ pkg, t string }
		var targets []tgt
		for _, p := range pkgs {
			for j := 1 + r.Intn(2); j > 0; j-- {
				t := selTarget(r, ref[p])
				l, found := selectRef(ref[p], t)
				if !found || len(l) == 0 || strings.TrimSpace(t) != t || t == path.Base(p) {
					continue
				}
				targets = append(targets, tgt{p, t})
			}
		}
		if len(targets) == 0 {
			return
		}
		if len(targets) > 1 && r.Intn(4) == 0 && len(pkgs) == 1 {
			targets = append(targets, targets[0])
		}
		var args []string
		for _, cm := range cmds {
			args = append(args, strings.Join(append([]string{"print"}, cm...), " "))
		}
		for _, t := range targets {
			args = append(args, "//"+t.pkg+":"+t.t)
		}
		in := fmt.Sprintf("%q\n", args)
		for _, p := range pkgs {
			in += "--- " + files[p] + "\n" + texts[p] + "\n"
		}
		c.Case(in)
		// Expected records.
		var want [][]wantField
		var wantMiss []string
		for _, t := range targets {
			l, _ := selectRef(ref[t.pkg], t.t)
			for _, cm := range cmds {
				fields := cm
				if len(fields) == 0 {
					fields = []string{"name", "kind"}
				}
				for _, x := range l {
					var rec []wantField
					skip := false
					for _, fn := range fields {
						base := t.pkg
						if base == "" {
							base = filepath.Base(ws.root)
						}
						w, drop := wantOf(texts[t.pkg], x, fn, t.pkg, files[t.pkg], []string{path.Base(base)})
						if drop {
							// With the convention for nameless rules the label may be there.
							skip = true
						}
						if w.miss && !skip {
							wantMiss = append(wantMiss, fn)
						}
						rec = append(rec, w)
					}
					if skip {
						rec = nil
					}
					want = append(want, rec)
				}
			}
		}
		opts := func() *edit.Options {
			o := edit.NewOpts()
			o.RootDir = ws.root
			return o
		}
		before := snapshot(ws.root)
		oj := opts()
		oj.IsPrintingJSON = true
		rj := runBz(oj, args)
		rt := runBz(opts(), args)
		op := opts()
		op.IsPrintingProto = true
		rp := runBz(op, args)
		if d := snapDiff(before, snapshot(ws.root)); len(d) > 0 {
			c.Violate("wrote", fmt.Sprint(d), in)
			return
		}
		for _, x := range []bzRun{rj, rt, rp} {
			if x.panicked != "" {
				c.Violate("panic", x.panicked, in)
				return
			}
			if x.code != 0 {
				c.Violate("exit", fmt.Sprintf("exit %d: %s", x.code, x.err), in)
				return
			}
		}
		var js struct {
			Records []struct {
				Fields []printField `json:"fields"`
			} `json:"records"`
		}
		if err := json.Unmarshal([]byte(rj.out), &js); err != nil {
			c.Violate("json", err.Error()+"\n"+rj.out, in)
			return
		}
		pb := &apipb.Output{}
		if err := proto.Unmarshal([]byte(rp.out), pb); err != nil {
			c.Violate("proto", err.Error(), in)
			return
		}
		pf := protoFields(pb)
		// Each record matches; label records of nameless rules may be absent.
		k := 0
		for _, rec := range want {
			if rec == nil {
				if k < len(js.Records) && len(js.Records[k].Fields) > 0 && !recMatches(want, js.Records[k].Fields) {
					k++ // printed under the convention for nameless rules
				}
				continue
			}
			if k >= len(js.Records) {
				c.Violate("record-missing", fmt.Sprintf("%d records, more expected\n%s", len(js.Records), rj.out), in)
				return
			}
			got := js.Records[k].Fields
			k++
			if len(got) != len(rec) {
				c.Violate("fields", fmt.Sprintf("record %d has %d fields, want %d\n%s", k, len(got), len(rec), rj.out), in)
				return
			}
			for j := range rec {
				c.Count("fields", 1)
				if d := rec[j].match(got[j]); d != "" {
					c.Violate("value", fmt.Sprintf("record %d, field %d: %s\n%s", k, j+1, d, rt.out), in)
					return
				}
			}
		}
		if k != len(js.Records) {
			c.Violate("record-extra", fmt.Sprintf("%d records, want %d\n%s", len(js.Records), k, rj.out), in)
			return
		}
		// The formats agree.
		var tl strings.Builder
		for ri, rec := range js.Records {
			var l []string
			for _, f := range rec.Fields {
				l = append(l, f.textOf())
			}
			tl.WriteString(strings.Join(l, " ") + "\n")
			if ri >= len(pf) || fmt.Sprint(pf[ri]) != fmt.Sprint(rec.Fields) {
				c.Violate("proto-json", fmt.Sprintf("record %d: proto %v, json %v", ri+1, pf, rec.Fields), in)
				return
			}
		}
		if len(pf) != len(js.Records) {
			c.Violate("proto-json", fmt.Sprintf("%d and %d records", len(pf), len(js.Records)), in)
			return
		}
		if tl.String() != rt.out {
			c.Violate("text", fmt.Sprintf("from the records:\n%s\nprinted:\n%s", tl.String(), rt.out), in)
			return
		}
		sort.Strings(wantMiss)
		for _, fn := range wantMiss {
			if !strings.Contains(rt.err, fmt.Sprintf("has no attribute %q", fn)) {
				c.Violate("no-warning", fn+"\n"+rt.err, in)
				return
			}
		}
		if len(wantMiss) == 0 && strings.Contains(rt.err, "has no attribute") && !hasNil(want) {
			c.Violate("warning", rt.err, in)
			return
		}
		c.Count("records", len(js.Records))
		c.Eval(strings.Join(args, " ") + fmt.Sprint(len(js.Records)))
		if i < 3 {
			c.Sample(in + rt.out)
		}
	})
	c.parallel(c.N(2500, 60000), 8, 3401, func(i int, r *rand.Rand) { printComments(c, i, r) })
}

func hasNil(w [][]wantField) bool {
	for _, r := range w {
		if r == nil {
			return true
		}
	}
	return false
}

func recMatches(want [][]wantField, got []printField) bool {
	for _, rec := range want {
		if rec == nil || len(rec) != len(got) {
			continue
		}
		ok := true
		for j := range rec {
			ok = ok && rec[j].match(got[j]) == ""
		}
		if ok {
			return true
		}
	}
	return false
}

// printComments checks print_comment on files whose comments are known.
func printComments(c *Ctx, i int, r *rand.Rand) {
	ws := newBzWS(filepath.Join(c.Scratch, fmt.Sprintf("ws%d", r.Int63())))
	defer os.RemoveAll(ws.root)
	n := 0
	com := func(p float64) (lines []string) {
		for r.Float64() < p {
			n++
			lines = append(lines, pick(r, fmt.Sprintf("c%d", n), fmt.Sprintf("see b/%d # x", n), fmt.Sprintf("a  b%d", n), fmt.Sprintf("#c%d", n)))
			p /= 2
		}
		return
	}
	text := ""
	type what struct {
		args []string
		text string
	}
	var all []what
	norm := func(l ...string) string { // each without its leading # and outer spaces
		return strings.Join(l, " ")
	}
	emit := func(ind string, l []string) {
		for _, x := range l {
			text += ind + "# " + x + "\n"
		}
	}
	suffix := func(s []string) string {
		if len(s) == 0 {
			return "\n"
		}
		return "  # " + s[0] + "\n"
	}
	for k := 0; k < 2; k++ {
		name := fmt.Sprintf("r%d", k)
		b := com(0.5)
		emit("", b)
		text += "cc_library(\n"
		all = append(all, what{[]string{name}, norm(b...)})
		ab, as := com(0.4), com(0.4)
		emit("    ", ab)
		text += "    name = \"" + name + "\"," + suffix(as)
		if len(as) > 1 {
			as = as[:1]
		}
		all = append(all, what{[]string{name, "name"}, norm(append(ab, as...)...)})
		lb := com(0.4)
		emit("    ", lb)
		text += "    deps = [\n"
		all = append(all, what{[]string{name, "deps"}, norm(lb...)})
		for _, v := range []string{":a", "//x/y:z", "@r//p:q"} {
			vb, vs := com(0.4), com(0.4)
			emit("        ", vb)
			text += "        \"" + v + "\"," + suffix(vs)
			if len(vs) > 1 {
				vs = vs[:1]
			}
			all = append(all, what{[]string{name, "deps", v}, norm(append(vb, vs...)...)})
		}
		text += "    ],\n)\n\n"
		all = append(all, what{[]string{name, "nosuch"}, "\x00"}, what{[]string{name, "deps", "nosuch"}, "\x00"}, what{[]string{name, "nosuch", "x"}, "\x00"})
	}
	file := ws.put("pkg", "BUILD", text)
	w := all[r.Intn(len(all))]
	in := fmt.Sprintf("print_comment %q\n%s", w.args, text)
	c.Case(in)
	o := edit.NewOpts()
	o.RootDir = ws.root
	res := runBz(o, []string{strings.Join(append([]string{"print_comment"}, w.args[1:]...), " "), "//pkg:" + w.args[0]})
	b, _ := os.ReadFile(file)
	switch {
	case res.panicked != "":
		c.Violate("print_comment:panic", res.panicked, in)
	case string(b) != text:
		c.Violate("print_comment:wrote", string(b), in)
	case w.text == "\x00":
		if strings.TrimSpace(res.out) != "(missing)" || res.code != 2 {
			c.Violate("print_comment:missing", fmt.Sprintf("exit %d, printed %q", res.code, res.out), in)
		}
	case res.code != 0 || strings.TrimSuffix(res.out, "\n") != w.text:
		c.Violate("print_comment:text", fmt.Sprintf("exit %d, printed %q, want %q", res.code, res.out, w.text), in)
	}
	c.Count("print_comment runs", 1)
	c.Eval(fmt.Sprint("comment", w))
}
