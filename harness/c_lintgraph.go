package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/warn"
)

func init() { checks["C22"] = checkLintGraph }

// A load graph: files of definitions that call, alias and load each other.

type lgDef struct {
	name       string
	kind       string // def, rule, alias, value
	target     string // alias
	calls      []lgCall
	params     string
	named      bool // accepts "name"
	deprecated bool
	line       int
}

type lgCall struct {
	name string // native.x or a name
	line int
}

type lgLoad struct {
	label  string // as written
	file   string // pkg/file, "" if external
	from   []string
	to     []string
	line   int
	fromLn []int
}

type lgFile struct {
	pkg, name string // package, name in the package
	loads     []lgLoad
	defs      []*lgDef
	text      string
	broken    bool
}

func (f *lgFile) path() string {
	if f.pkg == "" {
		return f.name
	}
	return f.pkg + "/" + f.name
}

var lgNotRules = map[string]bool{"glob": true, "existing_rule": true, "existing_rules": true, "package_name": true, "repository_name": true, "exports_files": true}

type lgWorld struct {
	files map[string]*lgFile
	order []string
}

type lgNode struct{ file, name string }

// succ gives the nodes a node leads to, and whether it is a rule itself.
func (w *lgWorld) succ(n lgNode) (out []lgNode, rule bool) {
	f := w.files[n.file]
	if f == nil || f.broken {
		return
	}
	for _, d := range f.defs {
		if d.name != n.name {
			continue
		}
		switch d.kind {
		case "rule":
			return nil, true
		case "alias":
			if m, ok := w.resolve(f, d.target); ok {
				out = append(out, m)
			}
		case "def":
			for _, c := range d.calls {
				if strings.HasPrefix(c.name, "native.") {
					if !lgNotRules[c.name[7:]] {
						rule = true
					}
					continue
				}
				if m, ok := w.resolve(f, c.name); ok {
					out = append(out, m)
				}
			}
		}
	}
	return
}

func (w *lgWorld) resolve(f *lgFile, name string) (lgNode, bool) {
	for i := len(f.loads) - 1; i >= 0; i-- {
		for j := len(f.loads[i].to) - 1; j >= 0; j-- {
			if f.loads[i].to[j] == name && f.loads[i].file != "" {
				return lgNode{f.loads[i].file, f.loads[i].from[j]}, true
			}
		}
	}
	return lgNode{f.path(), name}, true
}

// isMacro: a rule can be reached.
func (w *lgWorld) isMacro(n lgNode) bool {
	seen := map[lgNode]bool{n: true}
	todo := []lgNode{n}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		next, rule := w.succ(x)
		if rule {
			return true
		}
		for _, y := range next {
			if !seen[y] {
				seen[y] = true
				todo = append(todo, y)
			}
		}
	}
	return false
}

func lgGen(r *rand.Rand) *lgWorld {
	w := &lgWorld{files: map[string]*lgFile{}}
	pkgs := []string{"", "a", "a/b", "c"}
	names := []string{"x.bzl", "y.bzl", "z.bzl", "BUILD", "sub/s.bzl"}
	nf := 1 + r.Intn(6)
	for i := 0; i < nf; i++ {
		f := &lgFile{pkg: pick(r, pkgs...), name: pick(r, names...)}
		if f.name == "sub/s.bzl" && r.Intn(3) > 0 {
			f.name = "x.bzl"
		}
		if w.files[f.path()] != nil {
			continue
		}
		w.files[f.path()] = f
		w.order = append(w.order, f.path())
	}
	pool := []string{"f0", "f1", "f2", "f3", "_g", "m", "r0", "al"}
	big := r.Intn(3)
	for _, p := range w.order {
		f := w.files[p]
		f.broken = r.Intn(15) == 0
		taken := map[string]bool{}
		build := strings.HasSuffix(f.name, "BUILD")
		// loads
		nl := r.Intn(3 + big)
		for i := 0; i < nl; i++ {
			var l lgLoad
			var target *lgFile
			if r.Intn(8) > 0 {
				target = w.files[w.order[r.Intn(len(w.order))]]
			}
			switch {
			case target == nil:
				l.label = pick(r, "//missing:x.bzl", ":missing.bzl", "@repo//a:x.bzl", "@repo//:x.bzl", "@a//b:y.bzl", "@repo//c:z.bzl")
				switch l.label {
				case "//missing:x.bzl":
					l.file = "missing/x.bzl"
				case ":missing.bzl":
					l.file = f.pkg + "/missing.bzl"
				}
			case target.pkg == f.pkg && r.Intn(2) == 0:
				l.label, l.file = pick(r, ":", ":", "")+target.name, target.path()
			default:
				l.label, l.file = "//"+target.pkg+":"+target.name, target.path()
			}
			n := 1 + r.Intn(3)
			for j := 0; j < n; j++ {
				from := pool[r.Intn(len(pool))]
				to := from
				if r.Intn(3) == 0 {
					to = pool[r.Intn(len(pool))]
				}
				if taken[to] {
					continue
				}
				taken[to] = true
				l.from = append(l.from, from)
				l.to = append(l.to, to)
			}
			if len(l.to) > 0 {
				f.loads = append(f.loads, l)
			}
		}
		if build {
			f.emit(r)
			continue
		}
		for _, i := range r.Perm(len(pool)) {
			name := pool[i]
			if taken[name] || r.Intn(3) == 0 {
				continue
			}
			d := &lgDef{name: name}
			switch r.Intn(8) {
			case 0:
				d.kind = "rule"
				if r.Intn(2) == 0 {
					d.kind = "value"
				}
			case 1, 2:
				d.kind, d.target = "alias", pool[r.Intn(len(pool))]
			default:
				d.kind = "def"
				d.params = pick(r, "", "", "x", "x, y = 1", "name", "x, name = None", "**kwargs", "*args", "*, name", "naming", "x, *args, **kw", "*name")
				d.named = regexp.MustCompile(`(^|[ ,])name\b|\*\*`).MatchString(d.params)
				if d.params == "*name" {
					d.named = false
				}
				d.deprecated = r.Intn(3) == 0
				nc := r.Intn(3)
				for j := 0; j < nc; j++ {
					c := pool[r.Intn(len(pool))]
					if r.Intn(9) == 0 {
						c = "native." + pick(r, "cc_library", "py_test", "glob", "existing_rule", "existing_rules", "package_name", "repository_name", "exports_files", "genrule")
					}
					if r.Intn(12) == 0 {
						c = "unknown"
					}
					d.calls = append(d.calls, lgCall{name: c})
				}
			}
			f.defs = append(f.defs, d)
		}
		f.emit(r)
	}
	return w
}

func (f *lgFile) emit(r *rand.Rand) {
	var sb strings.Builder
	line := 1
	put := func(s string) {
		sb.WriteString(s + "\n")
		line += 1 + strings.Count(s, "\n")
	}
	if r.Intn(2) == 0 {
		put(`"""Module."""`)
	}
	for i := range f.loads {
		l := &f.loads[i]
		l.line = line
		var a []string
		for j := range l.to {
			if l.from[j] == l.to[j] {
				a = append(a, strconv.Quote(l.from[j]))
			} else {
				a = append(a, l.to[j]+" = "+strconv.Quote(l.from[j]))
			}
		}
		if r.Intn(3) > 0 {
			put(`load("` + l.label + `", ` + strings.Join(a, ", ") + ")")
			for range a {
				l.fromLn = append(l.fromLn, l.line)
			}
			continue
		}
		put("load(\n    \"" + l.label + "\",")
		for _, s := range a {
			l.fromLn = append(l.fromLn, line)
			put("    " + s + ",")
		}
		put(")")
	}
	for _, d := range f.defs {
		if r.Intn(2) == 0 {
			put("")
		}
		d.line = line
		switch d.kind {
		case "rule":
			put(d.name + " = rule(" + pick(r, "", "implementation = _impl", "_impl") + ")")
		case "value":
			put(d.name + " = " + pick(r, "1", "struct()", "repository_rule()", "[rule]", `"rule()"`, "provider()", "foo.rule()"))
		case "alias":
			put(d.name + " = " + d.target)
		case "def":
			put("def " + d.name + "(" + d.params + "):")
			if d.deprecated {
				put("    \"\"\"Does.\n\n    " + pick(r, "Args:\n      x: y\n\n    ", "") + "Deprecated:\n      Use something else.\n    \"\"\"")
			} else if r.Intn(3) == 0 {
				put("    \"\"\"" + pick(r, "Does.", "Deprecated: not a block.", "Does.\n\n    This is not\n      Deprecated:\n    ", "Deprecated") + "\"\"\"")
			}
			for i := range d.calls {
				c := &d.calls[i]
				switch r.Intn(6) {
				case 0:
					put("    if x:")
					c.line = line
					put("        " + c.name + "()")
				case 1:
					put("    for i in [1]:")
					c.line = line
					put("        y = [" + c.name + "(a = i)]")
				case 2:
					c.line = line
					put("    z = foo(bar = " + c.name + "(1) if x else 2)")
				case 3:
					put("    def inner():")
					c.line = line
					put("        return " + c.name + "()")
				case 4:
					c.line = line
					put("    [" + c.name + "(name = i) for i in x]")
				default:
					c.line = line
					put("    " + c.name + "(" + pick(r, "", "1", "name = \"a\"", "**x") + ")")
				}
			}
			put("    " + pick(r, "pass", "return x", "x.m()", "m"))
		}
	}
	if f.broken {
		sb.WriteString("def (:\n")
	}
	f.text = sb.String()
}

var lgMsgRe = regexp.MustCompile(`because it calls a rule or another macro "([^"]*)" on line (\d+)`)

func (w *lgWorld) describe() string {
	var sb strings.Builder
	for _, p := range w.order {
		fmt.Fprintf(&sb, "=== %s\n%s", p, w.files[p].text)
	}
	return sb.String()
}

// expected gives the findings a file has to have.
func (w *lgWorld) expected(f *lgFile) (out []string, macros map[string]*lgDef) {
	macros = map[string]*lgDef{}
	if !strings.HasSuffix(f.name, "BUILD") {
		for _, d := range f.defs {
			if d.kind == "def" && !strings.HasPrefix(d.name, "_") && !d.named && w.isMacro(lgNode{f.path(), d.name}) {
				out = append(out, fmt.Sprintf("%d unnamed-macro %s", d.line, d.name))
				macros[d.name] = d
			}
		}
	}
	for _, l := range f.loads {
		t := w.files[l.file]
		if t == nil || t.broken {
			continue
		}
		for j, from := range l.from {
			for _, d := range t.defs {
				if d.name == from && d.kind == "def" && d.deprecated {
					out = append(out, fmt.Sprintf("%d deprecated-function %s //%s", l.fromLn[j], from, t.path()))
				}
			}
		}
	}
	sort.Strings(out)
	return
}

var (
	lgMacroRe = regexp.MustCompile(`^The macro "([^"]*)" should have`)
	lgDeprRe  = regexp.MustCompile(`^The function "([^"]*)" defined in "([^"]*)" is deprecated`)
)

// actual puts findings in the form of expected; it also checks the reason of a macro.
func (w *lgWorld) actual(f *lgFile, line int, cat, msg string) (string, string) {
	if m := lgMacroRe.FindStringSubmatch(msg); m != nil && cat == "unnamed-macro" {
		why := ""
		if q := lgMsgRe.FindStringSubmatch(msg); q != nil {
			ln, _ := strconv.Atoi(q[2])
			ok := false
			for _, d := range f.defs {
				if d.name != m[1] {
					continue
				}
				for _, c := range d.calls {
					if c.name != q[1] || c.line != ln {
						continue
					}
					if strings.HasPrefix(c.name, "native.") {
						ok = ok || !lgNotRules[c.name[7:]]
					} else if t, _ := w.resolve(f, c.name); w.isMacro(t) {
						ok = true
					}
				}
			}
			if !ok {
				why = "the reason given is wrong: " + q[0]
			}
		}
		return fmt.Sprintf("%d unnamed-macro %s", line, m[1]), why
	}
	if m := lgDeprRe.FindStringSubmatch(msg); m != nil && cat == "deprecated-function" {
		return fmt.Sprintf("%d deprecated-function %s %s", line, m[1], m[2]), ""
	}
	return fmt.Sprintf("%d %s %s", line, cat, msg), ""
}

func checkLintGraph(c *Ctx) {
	c.Rule("unnamed-macro findings = public functions without a name parameter from which a rule can be reached (reference: breadth-first search of the load, alias and call graph); the call given as the reason reaches one; deprecated-function findings = loaded names defined in the loaded file by a function documented as deprecated")
	n := c.N(12000, 200000)
	work := c.subdir("graph")
	c.parallel(n, 8, 22, func(i int, r *rand.Rand) {
		w := lgGen(r)
		desc := w.describe()
		c.Case(desc)
		cats := []string{"unnamed-macro", "deprecated-function"}
		reads := map[string]int{}
		read := func(p string) ([]byte, error) {
			reads[p]++
			if f := w.files[p]; f != nil {
				return []byte(f.text), nil
			}
			return nil, errors.New("not found")
		}
		shared := warn.NewFileReader(read)
		for _, p := range w.order {
			f := w.files[p]
			if f.broken {
				continue
			}
			k := KBzl
			if strings.HasSuffix(f.name, "BUILD") {
				k = KBuild
			}
			file, err := parseKind(k, f.text)
			if err != nil {
				c.Violate("generator", err.Error(), f.text)
				return
			}
			file.Pkg, file.Label, file.Path = f.pkg, f.name, f.path()
			want, macros := w.expected(f)
			c.Eval(desc + p)
			c.Count("macros", len(macros))
			c.Count("deprecated_uses", len(want)-len(macros))
			for run := 0; run < 3; run++ {
				fr := shared
				if run == 1 {
					fr = warn.NewFileReader(read)
				}
				var got []string
				for _, x := range warn.FileWarnings(file, cats, nil, warn.ModeWarn, fr) {
					s, bad := w.actual(f, x.Start.Line, x.Category, x.Message)
					if bad != "" {
						c.Violate("reason", p+": "+bad, desc)
						return
					}
					got = append(got, s)
				}
				sort.Strings(got)
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					d := diffLists(want, got)
					c.Violate("findings:"+strings.Fields(strings.TrimPrefix(d, "finding "))[0], fmt.Sprintf("%s (run %d): expected | reported: %s", p, run, d), desc)
					return
				}
			}
			// without files to read, nothing of other files is known, but nothing breaks
			warn.FileWarnings(file, cats, nil, warn.ModeWarn, nil)
		}
		for p, n := range reads {
			if n > 1+2*len(w.order) {
				c.Violate("reads", fmt.Sprintf("%s was read %d times", p, n), desc)
			}
		}
		if i%60 == 0 {
			w.cli(c, filepath.Join(work, strconv.Itoa(i)), desc)
		}
	})
}

// cli runs the binary over the files on disk.
func (w *lgWorld) cli(c *Ctx, dir, desc string) {
	files := map[string]string{"WORKSPACE": ""}
	var args []string
	want := map[string][]string{}
	for _, p := range w.order {
		f := w.files[p]
		files[p] = f.text
		if f.name == "sub/s.bzl" && w.files[f.pkg+"/sub/BUILD"] != nil {
			return
		}
		bp := "BUILD.bazel"
		if f.pkg != "" {
			bp = f.pkg + "/BUILD.bazel"
		}
		if w.files[strings.TrimSuffix(bp, ".bazel")] == nil {
			files[bp] = ""
		}
		if !f.broken {
			args = append(args, p)
			want[p], _ = w.expected(f)
		}
	}
	if len(args) == 0 {
		return
	}
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	writeFiles(dir, files)
	res := c.runBin(dir, dir, "", nil, "buildifier", append([]string{"-mode=check", "-format=json", "-lint=warn", "-warnings=unnamed-macro,deprecated-function"}, args...)...)
	var out struct {
		Files []struct {
			Filename string
			Warnings []struct {
				Start             struct{ Line int }
				Category, Message string
			}
		}
	}
	if err := json.Unmarshal([]byte(res.out), &out); err != nil {
		c.Violate("cli-json", fmt.Sprintf("%v\n%s", err, res), desc)
		return
	}
	for _, x := range out.Files {
		f := w.files[x.Filename]
		if f == nil {
			c.Violate("cli-file", "unknown file "+x.Filename, desc)
			return
		}
		var got []string
		for _, y := range x.Warnings {
			s, _ := w.actual(f, y.Start.Line, y.Category, y.Message)
			got = append(got, s)
		}
		sort.Strings(got)
		if strings.Join(got, "\n") != strings.Join(want[x.Filename], "\n") {
			c.Violate("cli-findings", x.Filename+": expected | reported: "+diffLists(want[x.Filename], got), desc)
		}
		delete(want, x.Filename)
	}
	if len(want) > 0 {
		c.Violate("cli-missing", fmt.Sprint(want), desc)
	}
	c.Count("cli_runs", 1)
}
