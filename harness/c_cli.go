package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"github.com/bazelbuild/buildtools/wspace"
)

func init() {
	checks["C12"] = checkC12
	checks["C13"] = checkC13
	checks["C15"] = checkC15
}

// refType is the documented file type of a name: 0 BUILD, 1 bzl, 2 WORKSPACE, 3 MODULE, 4 default.
func refType(path string) FileKind {
	n := strings.ToLower(path[strings.LastIndex(path, "/")+1:])
	if n == "" {
		return KDefault
	}
	n = strings.TrimSuffix(n, ".oss")
	if n == "module.bazel" || strings.HasSuffix(n, ".module.bazel") {
		return KModule
	}
	i := strings.LastIndex(n, ".")
	base, ext := n, ""
	if i >= 0 {
		base, ext = n[:i], n[i:]
	}
	switch {
	case ext == ".bzl":
		return KBzl
	case ext == ".sky":
		return KDefault
	case ext == ".build", base == "build", strings.HasPrefix(base, "build."):
		return KBuild
	case ext == ".workspace", base == "workspace", strings.HasPrefix(base, "workspace."):
		return KWorkspace
	}
	return KDefault
}

var lintSnips = []string{
	"x = 1 / 2\n", "def f(x):\n    return\n", "load(\":a.bzl\", \"unused\")\n", "cc_library(\n    \"a\",\n    srcs = glob([\"a.cc\"]),\n)\n",
	"foo(name = \"same\")\n\nfoo(name = \"same\")\n", "def f():\n    a = 1\n    for i in range(3):\n        pass\n", "d = {\"b\": 1, \"a\": 2, \"b\": 3}\n",
	"def _impl(ctx):\n    return struct(a = depset([1]) + [2])\n", "\"doc\"\n\ndef g(a, b):\n    \"\"\"x\n\n    Args:\n      a: x\n    \"\"\"\n    return a\n", "x = [a for a in b]\nprint(x)\n",
	"package(default_visibility = [\"//visibility:public\"])\n\npackage()\n", "native.cc_library(name = \"x\")\n", "s = \"\\d\"\n", "if x == None:\n    pass\n", "for l in y:\n    y.append(l)\n", "z = set([1])\n",
}

// userFile returns text for a file of a kind, in one of several states.
func userFile(r *rand.Rand, k FileKind, state string) string {
	var s string
	for try := 0; ; try++ {
		g := NewGen(r, k)
		g.uniqueID = false
		if r.Intn(3) == 0 {
			g.comProb = 0
		}
		s, _ = texts(g.File(1 + r.Intn(4)))
		if r.Intn(2) == 0 {
			s += "\n" + lintSnips[r.Intn(len(lintSnips))]
		}
		out, _, err := formatKind(k, s)
		if err != nil {
			continue
		}
		switch state {
		case "formatted":
			again, _, err := formatKind(k, out)
			if err != nil || again != out {
				continue
			}
			return out
		case "unformatted":
			if out == s {
				s = "x=[1,\n2]\n" + s
				if o, _, err := formatKind(k, s); err != nil || o == s {
					continue
				}
			}
			return s
		case "invalid":
			return s + []string{"\n)\n", "\nx = (\n", "\n  y\n z = 3\n", "\n\"abc\n", "\ndef\n", "\n$\n", "\nx = = 2\n"}[r.Intn(7)]
		}
		return s
	}
}

// libFix gives what lint=fix does to a file through the library.
func libFix(path string, k FileKind, data, root string, lint string) (out string, nwarn int, warns []*warn.Finding, err error) {
	f, err := parseAs(k, path, data)
	if err != nil {
		return "", 0, nil, err
	}
	abs := path
	if !filepath.IsAbs(path) {
		abs = filepath.Join(root, path)
	}
	f.WorkspaceRoot, f.Pkg, f.Label = wspace.SplitFilePath(abs)
	var fr *warn.FileReader
	if f.WorkspaceRoot != "" {
		wr := f.WorkspaceRoot
		fr = warn.NewFileReader(func(n string) ([]byte, error) { return os.ReadFile(filepath.Join(wr, n)) })
	}
	switch lint {
	case "warn":
		warns = warn.FileWarnings(f, warn.DefaultWarnings, nil, warn.ModeWarn, fr)
		nwarn = len(warns)
	case "fix":
		warn.FixWarnings(f, warn.DefaultWarnings, false, fr)
	}
	return string(build.Format(f)), nwarn, warns, nil
}

func parseAs(k FileKind, path, data string) (*build.File, error) {
	switch k {
	case KBuild:
		return build.ParseBuild(path, []byte(data))
	case KBzl:
		return build.ParseBzl(path, []byte(data))
	case KWorkspace:
		return build.ParseWorkspace(path, []byte(data))
	case KModule:
		return build.ParseModule(path, []byte(data))
	}
	return build.ParseDefault(path, []byte(data))
}

var cliNames = []string{"BUILD", "pkg/BUILD.bazel", "pkg/defs.bzl", "a/b/x.star", "a/b/BUILD", "lib.sky", "script.txt", "MODULE.bazel", "WORKSPACE.bazel", "third_party/foo.BUILD", "a/c.bzl.oss", "ext.MODULE.bazel"}

func checkC12(c *Ctx) {
	c.Rule("the real binary runs over directories of formatted, unformatted, invalid, empty, missing and lint-triggering files, in every mode, lint mode and format; the monitor snapshots content, mode and modification time of the whole tree and of TMPDIR around each run and recomputes the expected rewrites and exit status. Distinct non-trivial: distinct (flags, file states) with a run that had something to rewrite or to report.")
	c.Assume("with several kinds of trouble the exit status is that of one of them; a directory as an input file is a runtime failure")
	n := c.N(1200, 30000)
	c.parallel(n, 8, 12, func(i int, r *rand.Rand) {
		base := c.subdir(fmt.Sprintf("c12-%d", i))
		defer os.RemoveAll(base)
		dir, tmp := filepath.Join(base, "w"), filepath.Join(base, "tmp")
		os.MkdirAll(tmp, 0o755)
		files := map[string]string{}
		if r.Intn(2) == 0 {
			files["WORKSPACE"] = ""
		}
		names := append([]string{}, cliNames...)
		r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
		nf := 1 + r.Intn(6)
		if r.Intn(12) == 0 {
			nf = 12
		}
		state := map[string]string{}
		var args []string
		for _, p := range names[:nf] {
			st := []string{"formatted", "unformatted", "any", "invalid", "empty", "missing"}[[]int{0, 0, 1, 1, 2, 2, 3, 4, 5}[r.Intn(9)]]
			if st == "missing" && r.Intn(2) == 0 {
				st = "unformatted"
			}
			state[p] = st
			switch st {
			case "missing":
			case "empty":
				files[p] = []string{"", "\n", "# c\n"}[r.Intn(3)]
			default:
				files[p] = userFile(r, refType(p), st)
			}
			args = append(args, p)
		}
		writeFiles(dir, files)
		os.MkdirAll(filepath.Join(dir, "other"), 0o755)
		os.WriteFile(filepath.Join(dir, "other", "BUILD"), []byte("x=1\n"), 0o640)
		age(dir)
		mode := []string{"", "fix", "check", "diff", "-d", "print_if_changed", "stdin"}[r.Intn(7)]
		var flags []string
		lint := []string{"", "off", "warn", "fix"}[r.Intn(4)]
		format := ""
		switch mode {
		case "", "fix":
			if mode != "" {
				flags = append(flags, "-mode=fix")
			}
		case "-d":
			flags = append(flags, "-d")
		case "stdin":
			args = args[:1]
		case "print_if_changed":
			flags = append(flags, "-mode="+mode)
			args = args[:1]
		default:
			flags = append(flags, "-mode="+mode)
		}
		if lint == "fix" && mode != "" && mode != "fix" {
			lint = "warn"
		}
		if lint != "" {
			flags = append(flags, "-lint="+lint)
		}
		if mode == "check" && r.Intn(2) == 0 {
			format = []string{"text", "json"}[r.Intn(2)]
			flags = append(flags, "-format="+format)
		}
		if r.Intn(4) == 0 {
			flags = append(flags, "-v")
		}
		force := -1
		if r.Intn(5) == 0 || mode == "stdin" {
			force = r.Intn(5)
			flags = append(flags, "-type="+[]string{"build", "bzl", "workspace", "module", "default"}[force])
		}
		// the model
		codes := map[int]bool{}
		want := map[string]string{}
		interesting := false
		for _, p := range args {
			k := refType(p)
			if force >= 0 {
				k = FileKind(force)
			}
			data, ok := files[p]
			if mode == "stdin" && !ok {
				data, ok = "", true
			}
			if !ok {
				codes[3] = true
				interesting = true
				continue
			}
			path := p
			if mode == "stdin" {
				path = ""
			}
			out, nw, _, err := libFix(path, k, data, dir, lint)
			if err != nil {
				codes[1] = true
				interesting = true
				continue
			}
			if nw > 0 {
				codes[4] = true
				interesting = true
			}
			if out != data {
				interesting = true
				switch mode {
				case "", "fix":
					want[p] = out
				case "check", "diff", "-d":
					codes[4] = true
				}
			}
			if mode == "stdin" {
				want["\x00stdout"] = out
			}
		}
		before, beforeTmp := snapshot(dir), snapshot(tmp)
		var res result
		if mode == "stdin" {
			a := flags
			if r.Intn(2) == 0 {
				a = append(append([]string{}, flags...), "-")
			}
			res = c.runBin(dir, tmp, files[args[0]], nil, "buildifier", a...)
		} else {
			res = c.runBin(dir, tmp, "", nil, "buildifier", append(append([]string{}, flags...), args...)...)
		}
		after, afterTmp := snapshot(dir), snapshot(tmp)
		key := ""
		var states []string
		for _, p := range args {
			states = append(states, state[p])
		}
		if interesting {
			key = strings.Join(flags, " ") + "|" + strings.Join(states, ",") + fmt.Sprint(len(want)) + fmt.Sprint(h64(describeFiles(files)))
		}
		c.Eval(key)
		c.Count("runs_mode_"+mode+"_lint_"+lint, 1)
		c.Count("files_rewritten", len(want))
		input := describeFiles(files) + "\n" + res.String()
		if x := res.crashed(); x != "" {
			c.Violate("crash:"+x, res.String(), input)
			return
		}
		// exit status
		if format != "" {
			if codes[3] { // a failure, the output is incomplete
				codes = map[int]bool{3: true}
			} else {
				codes = map[int]bool{} // documented: 0, so that tools can read the output
			}
		}
		if len(codes) == 0 {
			codes[0] = true
		}
		if !codes[res.code] {
			var l []int
			for k := range codes {
				l = append(l, k)
			}
			sort.Ints(l)
			c.Violate(fmt.Sprintf("exit:%s:%d-for-%v", mode, res.code, l), fmt.Sprintf("exit status %d, expected %v", res.code, l), input)
		}
		// files
		for _, d := range snapDiff(beforeTmp, afterTmp) {
			c.Violate("temp:"+mode, "left in TMPDIR: "+d, input)
		}
		for _, d := range snapDiff(before, after) {
			f := strings.SplitN(d, " ", 2)
			if _, ok := want[f[1]]; ok && f[0] == "content" {
				continue
			}
			c.Violate("write:"+mode+":"+f[0]+":"+state[f[1]], d+" must not happen in this run", input)
		}
		for p, s := range want {
			if p == "\x00stdout" {
				if res.out != s {
					c.Violate("stdout:stdin", fmt.Sprintf("expected output\n%s", s), input)
				}
				continue
			}
			if after[p].data != s {
				c.Violate("content:"+mode+":lint-"+lint, fmt.Sprintf("%s has to become\n%s\nbut is\n%s", p, s, after[p].data), input)
			}
		}
		if i < 4 {
			c.Sample(res.cmd + fmt.Sprintf("  (%v) exit %d", states, res.code))
		}
	})
	// usage errors change nothing
	for i, a := range [][]string{{"-mode=bogus", "BUILD"}, {"-lint=bogus", "BUILD"}, {"-type=bogus", "BUILD"}, {"-format=json", "BUILD"}, {"-format=bogus", "-mode=check", "BUILD"}, {"-d", "-mode=fix", "BUILD"}, {"-lint=fix", "-mode=check", "BUILD"}, {"-lint=fix", "-d", "BUILD"}, {"-nosuchflag", "BUILD"}, {"-path=x/BUILD", "BUILD", "b.bzl"}, {"-mode=print_if_changed", "BUILD", "b.bzl"}, {"-config=/nonexistent.json", "BUILD"}, {"-tables=nonexistent.json", "BUILD"}, {"-add_tables=nonexistent.json", "BUILD"}, {"-warnings=+a,b", "BUILD"}, {"-lint=fix", "-mode=print_if_changed", "BUILD"}, {"-mode=pipe", "BUILD"}} {
		base := c.subdir(fmt.Sprintf("c12u-%d", i))
		writeFiles(base+"/w", map[string]string{"BUILD": "x=1\n", "b.bzl": "y=2\n"})
		os.MkdirAll(base+"/t", 0o755)
		age(base)
		before := snapshot(base)
		res := c.runBin(base+"/w", base+"/t", "", nil, "buildifier", a...)
		c.Eval("usage " + strings.Join(a, " "))
		if res.code != 2 {
			c.Violate("usage-status:"+a[0], fmt.Sprintf("exit status %d, expected 2", res.code), res.String())
		}
		for _, d := range snapDiff(before, snapshot(base)) {
			c.Violate("usage-write:"+a[0], d, res.String())
		}
	}
}

// ---- C13 ----

// applyUnified applies the output of diff -u for one file.
func applyUnified(old, diff string) (string, error) {
	lines := strings.SplitAfter(old, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	d := strings.SplitAfter(diff, "\n")
	var out []string
	pos := 0
	i := 0
	for i < len(d) && !strings.HasPrefix(d[i], "@@") {
		i++
	}
	lastOut := -1
	for i < len(d) && d[i] != "" {
		var a, an, b, bn int
		h := strings.Fields(d[i])
		if len(h) < 3 || h[0] != "@@" {
			return "", fmt.Errorf("bad hunk %q", d[i])
		}
		an, bn = 1, 1
		if _, err := fmt.Sscanf(h[1], "-%d,%d", &a, &an); err != nil {
			fmt.Sscanf(h[1], "-%d", &a)
			an = 1
		}
		if _, err := fmt.Sscanf(h[2], "+%d,%d", &b, &bn); err != nil {
			bn = 1
		}
		start := a - 1
		if an == 0 {
			start = a
		}
		for pos < start && pos < len(lines) {
			out = append(out, lines[pos])
			pos++
		}
		i++
		for i < len(d) && d[i] != "" && !strings.HasPrefix(d[i], "@@") {
			l := d[i]
			switch l[0] {
			case ' ':
				if pos >= len(lines) || lines[pos] != l[1:] && lines[pos]+"\n" != l[1:] {
					return "", fmt.Errorf("context does not match at line %d", pos+1)
				}
				out = append(out, lines[pos])
				lastOut = len(out) - 1
				pos++
			case '-':
				if pos >= len(lines) || lines[pos] != l[1:] && lines[pos]+"\n" != l[1:] {
					return "", fmt.Errorf("removed line does not match at line %d", pos+1)
				}
				pos++
				lastOut = -1
			case '+':
				out = append(out, l[1:])
				lastOut = len(out) - 1
			case '\\':
				if lastOut >= 0 {
					out[lastOut] = strings.TrimSuffix(out[lastOut], "\n")
				}
			default:
				return "", fmt.Errorf("bad line %q", l)
			}
			i++
		}
	}
	out = append(out, lines[pos:]...)
	return strings.Join(out, ""), nil
}

type jsonDiag struct {
	Success *bool `json:"success"`
	Files   []struct {
		Filename  string `json:"filename"`
		Formatted *bool  `json:"formatted"`
		Valid     *bool  `json:"valid"`
		Warnings  []struct {
			Start, End struct{ Line, Column int }
			Category   string
			Actionable bool
			Message    string
			URL        string
		} `json:"warnings"`
	} `json:"files"`
}

func checkC13(c *Ctx) {
	c.Rule("each generated set of files is run through fix, standard input with and without '-', print_if_changed, diff (the unified diff is applied), multi-diff, check as text and as JSON, plain and verbose, with and without lint, and the outputs are compared. Distinct non-trivial: distinct unformatted or warned-about file sets.")
	n := c.N(220, 6000)
	c.parallel(n, 8, 13, func(i int, r *rand.Rand) {
		base := c.subdir(fmt.Sprintf("c13-%d", i))
		defer os.RemoveAll(base)
		tmp := filepath.Join(base, "tmp")
		os.MkdirAll(tmp, 0o755)
		files := map[string]string{}
		names := append([]string{}, cliNames...)
		r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
		args := names[:1+r.Intn(4)]
		hasBad := false
		for _, p := range args {
			st := []string{"formatted", "unformatted", "any", "any", "invalid"}[r.Intn(5)]
			if st == "invalid" {
				hasBad = true
			}
			files[p] = userFile(r, refType(p), st)
			if r.Intn(8) == 0 && st != "invalid" {
				files[p] = strings.TrimRight(files[p], "\n")
			}
			if r.Intn(10) == 0 {
				files[p] = strings.ReplaceAll(files[p], "\n", "\r\n")
			}
		}
		root := "x"
		if r.Intn(2) == 0 {
			root = "WORKSPACE"
		}
		fresh := func(sub string) string {
			d := filepath.Join(base, sub)
			writeFiles(d, files)
			writeFiles(d, map[string]string{root: ""})
			return d
		}
		lint := []string{"off", "warn"}[r.Intn(2)]
		wflag := "-warnings=all"
		if r.Intn(2) == 0 {
			wflag = "-warnings=default"
		}
		lintFlags := []string{"-lint=" + lint, wflag}
		run := func(d, in string, a ...string) result {
			return c.runBin(d, tmp, in, nil, "buildifier", append(append([]string{}, lintFlags...), a...)...)
		}
		input := describeFiles(files)
		bad := func(sig, format string, a ...interface{}) {
			c.Violate(sig, fmt.Sprintf(format, a...), input)
		}
		// fix
		d1 := fresh("fix")
		fixRes := run(d1, "", args...)
		if x := fixRes.crashed(); x != "" {
			bad("crash:"+x, "%s", fixRes)
			return
		}
		fixed := map[string]string{}
		changed := map[string]bool{}
		valid := map[string]bool{}
		for _, p := range args {
			b, _ := os.ReadFile(filepath.Join(d1, p))
			fixed[p] = string(b)
			changed[p] = string(b) != files[p]
		}
		// check: json
		d2 := fresh("check")
		js := run(d2, "", append([]string{"-mode=check", "-format=json"}, args...)...)
		jsv := run(d2, "", append([]string{"-mode=check", "-format=json", "-v"}, args...)...)
		txt := run(d2, "", append([]string{"-mode=check", "-format=text"}, args...)...)
		plain := run(d2, "", append([]string{"-mode=check"}, args...)...)
		var jd, jdv jsonDiag
		if err := json.Unmarshal([]byte(js.out), &jd); err != nil || jd.Success == nil {
			bad("json", "no JSON: %v\n%s", err, js)
			return
		}
		if err := json.Unmarshal([]byte(jsv.out), &jdv); err != nil {
			bad("json-v", "no JSON: %v\n%s", err, jsv)
			return
		}
		a1, _ := json.Marshal(jd)
		a2, _ := json.Marshal(jdv)
		if string(a1) != string(a2) {
			bad("json-v", "verbose JSON differs\n%s", lineDiff(strings.ReplaceAll(string(a1), "{", "\n{"), strings.ReplaceAll(string(a2), "{", "\n{")))
		}
		if len(jd.Files) != len(args) {
			bad("json-files", "%d files in the report for %d\n%s", len(jd.Files), len(args), js)
			return
		}
		ok := true
		var text strings.Builder
		nw := 0
		for k, f := range jd.Files {
			p := args[k]
			if f.Filename != p {
				bad("json-name", "file %d is %q, expected %q", k, f.Filename, p)
			}
			if f.Formatted == nil || f.Valid == nil || f.Warnings == nil {
				bad("json-fields", "missing fields: %s", js)
				return
			}
			valid[p] = *f.Valid
			wantValid := true
			if _, err := parseAs(refType(p), p, files[p]); err != nil {
				wantValid = false
			}
			if *f.Valid != wantValid {
				bad("json-valid", "%s: valid=%v", p, *f.Valid)
			}
			if *f.Valid && *f.Formatted != !changed[p] {
				bad("check-vs-fix", "%s: formatted=%v but fix mode changes it: %v\n%s", p, *f.Formatted, changed[p], js)
			}
			if !*f.Valid && *f.Formatted {
				bad("json-invalid-formatted", "%s is invalid but formatted", p)
			}
			if !*f.Formatted || !*f.Valid || len(f.Warnings) > 0 {
				ok = false
			}
			for _, w := range f.Warnings {
				nw++
				br := "()"
				if !w.Actionable {
					br = "[]"
				}
				fmt.Fprintf(&text, "%s:%d: %s: %s %c%s%c\n", f.Filename, w.Start.Line, w.Category, w.Message, br[0], w.URL, br[1])
				nl := strings.Count(files[p], "\n") + 1
				if w.Start.Line < 1 || w.Start.Line > nl || w.End.Line > nl+1 || w.Start.Column < 1 {
					bad("warning-position:"+w.Category, "%s: %+v outside of the file of %d lines", p, w, nl)
				}
			}
			if !*f.Formatted {
				fmt.Fprintf(&text, "%s # reformat\n", f.Filename)
			}
		}
		if *jd.Success != ok {
			bad("json-success", "success=%v\n%s", *jd.Success, js)
		}
		if txt.out != text.String() {
			bad("text-vs-json", "text output\n%s\nexpected from JSON\n%s", txt.out, text.String())
		}
		// plain check prints the same to standard error, after the syntax errors
		errs := func(s string) string {
			for _, p := range args {
				if _, err := parseAs(refType(p), p, files[p]); err != nil {
					s = strings.Replace(s, err.Error()+"\n", "", 1)
				}
			}
			return s
		}
		if errs(plain.err) != text.String() || plain.out != "" {
			bad("plain-vs-json", "%s\nexpected\n%s", plain, text.String())
		}
		if (plain.code == 0) != ok {
			bad("check-status", "%s\nsuccess=%v", plain, ok)
		}
		// the same for a file on standard input
		p0 := args[0]
		in := run(d2, files[p0], "-mode=check", "-format=json", "-type="+map[FileKind]string{KBuild: "build", KBzl: "bzl", KWorkspace: "workspace", KModule: "module", KDefault: "default"}[refType(p0)])
		var jin jsonDiag
		if err := json.Unmarshal([]byte(in.out), &jin); err != nil || len(jin.Files) != 1 {
			bad("json-stdin", "%v\n%s", err, in)
			return
		}
		if f := jin.Files[0]; f.Filename != "<stdin>" || f.Valid == nil || *f.Valid != valid[p0] || *jin.Success && !*f.Formatted {
			bad("json-stdin", "standard input holds %s\n%s", p0, in)
		}
		// verbose fix names the changed files
		d3 := fresh("fixv")
		fv := run(d3, "", append([]string{"-v"}, args...)...)
		for _, p := range args {
			b, _ := os.ReadFile(filepath.Join(d3, p))
			if string(b) != fixed[p] {
				bad("fix-v", "fix -v gives other content for %s", p)
			}
			if n := strings.Count("\n"+fv.err, "\nfixed "+p+"\n"); (n == 1) != changed[p] || n > 1 {
				bad("fixed-message", "%s changed=%v\n%s", p, changed[p], fv)
			}
		}
		// one file at a time
		d4 := fresh("one")
		snap := snapshot(d4)
		for _, p := range args {
			k := refType(p)
			typ := "-type=" + []string{"build", "bzl", "workspace", "module", "default"}[k]
			for v, a := range [][]string{{typ}, {"-path=" + p}, {typ, "-"}, {typ, "-mode=print_if_changed"}, {"-path=" + p, "-mode=print_if_changed"}, {"-mode=print_if_changed", p}} {
				in := files[p]
				if v == 5 {
					in = ""
				}
				res := run(d4, in, a...)
				if x := res.crashed(); x != "" {
					bad("crash:"+x, "%s", res)
					continue
				}
				want := fixed[p]
				if v >= 3 && !changed[p] || !valid[p] {
					want = ""
				}
				if res.out != want {
					bad(fmt.Sprintf("stdout:%s", []string{"pipe", "pipe-path", "pipe-dash", "print_if_changed", "print_if_changed-path", "print_if_changed-file"}[v]), "%s\nexpected output\n%s", res, want)
				}
				c.Count("single_file_runs", 1)
			}
			for v, a := range [][]string{{"-mode=diff", p}, {"-d", "-path=" + p}, {"-mode=diff", "-diff_command=diff -u", p}, {"-mode=diff", "-multi_diff", "-diff_command=cat_args", p}} {
				in := ""
				if v == 1 {
					in = files[p]
				}
				var res result
				if v == 3 {
					sh := filepath.Join(base, "show.sh")
					os.WriteFile(sh, []byte("#!/bin/bash\nwhile [ $# -gt 0 ]; do [ \"$1\" = : ] && shift; diff -u \"$1\" \"$2\"; shift 2; done; true\n"), 0o755)
					a[2] = "-diff_command=" + sh
				}
				res = run(d4, in, a...)
				if !valid[p] || !changed[p] {
					if res.out != "" {
						bad(fmt.Sprintf("diff%d:unexpected", v), "%s", res)
					}
					continue
				}
				got, err := applyUnified(files[p], res.out)
				if err != nil {
					bad(fmt.Sprintf("diff%d:apply", v), "%v\n%s", err, res)
				} else if got != fixed[p] {
					bad(fmt.Sprintf("diff%d:content", v), "%s\napplied:\n%s\nfix mode gives:\n%s", res, got, fixed[p])
				}
				c.Count("diffs_applied", 1)
			}
		}
		// warnings are the same in every mode
		if lint == "warn" {
			for _, a := range [][]string{{"-mode=diff"}, {"-mode=fix"}} {
				d5 := fresh("w" + a[0])
				res := run(d5, "", append(a, args...)...)
				var got []string
				for _, l := range strings.Split(res.err, "\n") {
					if strings.Contains(l, "WARNINGS.md") {
						got = append(got, l)
					}
				}
				var want []string
				for _, l := range strings.Split(text.String(), "\n") {
					if strings.Contains(l, "WARNINGS.md") {
						want = append(want, l)
					}
				}
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					bad("warnings:"+a[0], "%s", lineDiff(strings.Join(want, "\n"), strings.Join(got, "\n")))
				}
			}
		}
		if d := snapDiff(snap, snapshot(d4)); len(d) > 0 {
			bad("writes", "modes that only print changed files: %v", d)
		}
		if len(snapshot(tmp)) > 1 {
			bad("temp", "files left in TMPDIR: %v", snapDiff(map[string]fstate{".": {}}, snapshot(tmp)))
		}
		key := ""
		if nw > 0 || !ok {
			key = input
		}
		c.Count("warnings_compared", nw)
		_ = hasBad
		c.Eval(key)
		if i < 3 {
			c.Sample(fmt.Sprintf("%v lint=%s: %s", args, lint, js.out))
		}
	})
}

// ---- C15 ----

func refRecursive(name string) bool {
	for _, s := range []string{".bzl", ".sky", ".star"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	if name == "BUILD" || name == "WORKSPACE" {
		return true
	}
	for _, p := range []string{"BUILD.", "WORKSPACE.", "MODULE."} {
		if strings.HasPrefix(name, p) && (strings.HasSuffix(name, ".bazel") || strings.HasSuffix(name, ".oss")) {
			return true
		}
	}
	return false
}

var nameParts = []string{"BUILD", "build", "Build", "WORKSPACE", "workspace", "MODULE", "module", "foo", "x", "bazel", "bzl", "oss", "sky", "star", "BUILD", "BZL", "txt", "py", "OSS", "Bazel", "", "builder", "BUILDX"}

func randName(r *rand.Rand) string {
	fixed := []string{"BUILD", "BUILD.bazel", "WORKSPACE", "WORKSPACE.bazel", "MODULE.bazel", "defs.bzl", "a.sky", "b.star", "foo.BUILD", "BUILD.foo", "BUILD.foo.bazel", "BUILD.oss", "MODULE.bazel.lock", "ext.MODULE.bazel", "REPO.bazel", "x.bzl.oss", "WORKSPACE.bzlmod", "WORKSPACE.foo.oss", "foo.workspace", "MODULE.foo.bazel", "Makefile", ".bzl", "BUILD.bazel.oss", "module.bazel", "build"}
	if r.Intn(3) > 0 {
		return fixed[r.Intn(len(fixed))]
	}
	var l []string
	for n := 1 + r.Intn(3); n > 0; n-- {
		l = append(l, nameParts[r.Intn(len(nameParts))])
	}
	s := strings.Join(l, ".")
	if s == "" || s == "." || s == ".." {
		return "BUILD"
	}
	return s
}

// typeProbe formats differently for every pair of file types that formatting distinguishes.
const typeProbe = "foo(b = 1, name = 2)\nload(\":x.bzl\", \"x\")\nuse_repo(e, \"b\", \"a\")\ny=1\n"

func typeProbeOut(k FileKind) string {
	call, load, use := "foo(\n    name = 2,\n    b = 1,\n)\n", "load(\":x.bzl\", \"x\")\n", "use_repo(e, \"b\", \"a\")\n"
	switch k {
	case KModule:
		return load + "\n" + call + "\nuse_repo(e, \"a\", \"b\")\n\ny = 1\n"
	case KBuild:
		return load + "\n" + call + "\n" + use + "\ny = 1\n"
	case KWorkspace:
		return call + "\n" + load + "\n" + use + "\ny = 1\n"
	}
	return load + "\nfoo(b = 1, name = 2)\n\n" + use + "y = 1\n"
}

func checkC15(c *Ctx) {
	c.Rule("random directory trees with recognised, near-miss and unrelated file names, .git directories, symbolic links and nested directories; the binary runs over files and directories, recursively or not; the set of processed files is read from check mode and from the rewritten files, and each file's type from how a probe text is rewritten, both compared with a reference model of the documentation. Distinct non-trivial: distinct trees with both processed and skipped files.")
	n := c.N(500, 15000)
	c.parallel(n, 8, 15, func(i int, r *rand.Rand) {
		base := c.subdir(fmt.Sprintf("c15-%d", i))
		defer os.RemoveAll(base)
		dir, tmp := filepath.Join(base, "w"), filepath.Join(base, "tmp")
		os.MkdirAll(dir, 0o755)
		os.MkdirAll(tmp, 0o755)
		dirs := []string{""}
		for n := r.Intn(7); n > 0; n-- {
			d := filepath.Join(dirs[r.Intn(len(dirs))], []string{"a", "b", "sub", ".git", ".github", "git", "BUILD", "x.bzl", ".hidden", "bazel-out", ".git.bzl", "dir.star"}[r.Intn(12)])
			dirs = append(dirs, d)
			os.MkdirAll(filepath.Join(dir, d), 0o755)
		}
		var files []string
		have := map[string]bool{}
		for _, d := range dirs {
			have[d] = true
		}
		for n := 1 + r.Intn(12); n > 0; n-- {
			p := filepath.Join(dirs[r.Intn(len(dirs))], randName(r))
			if have[p] {
				continue
			}
			have[p] = true
			files = append(files, p)
			os.WriteFile(filepath.Join(dir, p), []byte(typeProbe), 0o644)
		}
		if len(files) == 0 {
			return
		}
		link := ""
		if r.Intn(3) == 0 { // links below a directory: a linked file counts, a linked directory is not followed
			link = "linked.bzl"
			if !have[link] {
				os.WriteFile(filepath.Join(base, "target.txt"), []byte(typeProbe), 0o644)
				os.Symlink(filepath.Join(base, "target.txt"), filepath.Join(dir, link))
				os.MkdirAll(filepath.Join(base, "outside"), 0o755)
				os.WriteFile(filepath.Join(base, "outside", "BUILD"), []byte(typeProbe), 0o644)
				os.Symlink(filepath.Join(base, "outside"), filepath.Join(dir, "linkdir"))
			} else {
				link = ""
			}
		}
		// arguments: files and disjoint directories
		var args []string
		want := map[string]int{}
		recursive := r.Intn(4) > 0
		pickedDir := ""
		hasDir := false
		if recursive {
			d := dirs[r.Intn(len(dirs))]
			if r.Intn(2) == 0 {
				d = ""
			}
			pickedDir = d
			hasDir = true
			arg := d
			if d == "" {
				arg = []string{".", "./", dir}[r.Intn(3)]
			} else if r.Intn(3) == 0 {
				arg = d + "/"
			}
			args = append(args, arg)
		}
		under := func(p, d string) bool { return d == "" || strings.HasPrefix(p, d+"/") }
		inGit := func(p, d string) bool {
			rel := strings.TrimPrefix(strings.TrimPrefix(p, d), "/")
			for _, x := range strings.Split(filepath.Dir(rel), "/") {
				if x == ".git" {
					return true
				}
			}
			return false
		}
		gitRoot := hasDir && filepath.Base("/"+pickedDir) == ".git"
		for _, p := range files {
			if hasDir && under(p, pickedDir) && !inGit(p, pickedDir) && !gitRoot && refRecursive(filepath.Base(p)) {
				want[p]++
			}
		}
		if link != "" && hasDir && pickedDir == "" {
			want[link]++
		}
		for n := r.Intn(4); n > 0 || len(args) == 0; n-- {
			p := files[r.Intn(len(files))]
			if want[p] > 0 || hasDir && under(p, pickedDir) && false {
				if len(args) == 0 || n > 0 {
					continue
				}
				break
			}
			want[p]++
			args = append(args, p)
		}
		force := -1
		flags := []string{}
		if recursive {
			flags = append(flags, "-r")
		}
		if r.Intn(4) == 0 {
			force = r.Intn(5)
			flags = append(flags, "-type="+[]string{"build", "bzl", "workspace", "module", "default"}[force])
		}
		input := fmt.Sprintf("files %v dirs %v link %q", files, dirs, link)
		run := c.runBin(dir, tmp, "", nil, "buildifier", append(append(append([]string{}, flags...), "-mode=check"), args...)...)
		input += "\n" + run.String()
		if x := run.crashed(); x != "" {
			c.Violate("crash:"+x, run.String(), input)
			return
		}
		got := map[string]int{}
		for _, l := range strings.Split(run.err, "\n") {
			if strings.HasSuffix(l, " # reformat") {
				p := strings.TrimSuffix(l, " # reformat")
				p = strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(p), dir), "/")
				got[p]++
			} else if l != "" {
				c.Violate("stderr", "unexpected message "+l, input)
			}
		}
		diffMaps := func(sig string, got map[string]int) {
			for p, n := range want {
				if got[p] != n {
					c.Violate(fmt.Sprintf("%s:missed", sig), fmt.Sprintf("%s was processed %d times, expected %d", p, got[p], n), input)
				}
			}
			for p, n := range got {
				if want[p] == 0 {
					c.Violate(fmt.Sprintf("%s:extra", sig), fmt.Sprintf("%s was processed %d times, expected none", p, n), input)
				}
			}
		}
		diffMaps("check", got)
		age(base)
		before := snapshot(dir)
		if recursive && r.Intn(5) == 0 {
			// A path that does not exist is reported and nothing is touched.
			bad := append(append([]string{}, flags...), args...)
			k := len(flags) + r.Intn(len(args)+1)
			bad = append(bad[:k], append([]string{pick(r, "missing", "no/such/BUILD", args[0]+"/nothing")}, bad[k:]...)...)
			run := c.runBin(dir, tmp, "", nil, "buildifier", bad...)
			if x := run.crashed(); x != "" {
				c.Violate("crash:"+x, run.String(), input)
			} else if run.code == 0 || run.err == "" {
				c.Violate("missing-path", run.String(), input)
			}
			if d := snapDiff(before, snapshot(dir)); len(d) > 0 {
				c.Violate("missing-path-writes", fmt.Sprint(d)+"\n"+run.String(), input)
			}
			c.Count("runs with a missing path", 1)
		}
		fix := c.runBin(dir, tmp, "", nil, "buildifier", append(append([]string{}, flags...), args...)...)
		if fix.code != 0 {
			c.Violate("fix-status", fix.String(), input)
		}
		after := snapshot(dir)
		gotFix := map[string]int{}
		for p := range after {
			if after[p].mode.IsRegular() && (!after[p].mtime.Equal(before[p].mtime) || after[p].data != before[p].data) {
				gotFix[p] = 1
			}
		}
		if link != "" {
			b, _ := os.ReadFile(filepath.Join(base, "target.txt"))
			if string(b) != typeProbe {
				gotFix[link] = 1
			}
			if b, _ := os.ReadFile(filepath.Join(base, "outside", "BUILD")); string(b) != typeProbe {
				c.Violate("linked-dir", "a linked directory was followed", input)
			}
		}
		diffMaps("fix", gotFix)
		for p := range gotFix {
			k := refType(p)
			if force >= 0 {
				k = FileKind(force)
			}
			b, _ := os.ReadFile(filepath.Join(dir, p))
			if string(b) != typeProbeOut(k) {
				c.Violate("type:"+kindNames[k], fmt.Sprintf("%s is a %s file; it became\n%s\nexpected\n%s", p, kindNames[k], b, typeProbeOut(k)), input)
			}
			c.Count("type_"+kindNames[k], 1)
		}
		key := ""
		if len(want) > 0 && len(want) < len(files) {
			key = input
		}
		c.Eval(key)
		c.Count("files_processed", len(gotFix))
		if i < 3 {
			c.Sample(input)
		}
	})
	// type detection in process: names sampled densely
	r := c.R
	m := c.N(40000, 1000000)
	for i := 0; i < m && !c.Failed(); i++ {
		name := randName(r)
		if r.Intn(2) == 0 {
			name = []string{"a/", "/x/y/", "BUILD/", "a.bzl/"}[r.Intn(4)] + name
		}
		f, err := build.Parse(name, []byte(typeProbe))
		if err != nil {
			c.Violate("parse", err.Error(), name)
			return
		}
		if f.Type != typeOf[refType(name)] {
			c.Violate("type-of-name", fmt.Sprintf("%q has type %v, expected %s", name, f.Type, kindNames[refType(name)]), name)
		}
		c.Eval("name " + name)
	}
	_ = time.Now
}
