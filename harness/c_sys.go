package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/bazelbuild/buildtools/edit"
)

func init() {
	checks["C25"] = checkExits
	checks["C26"] = checkAtomic
	checks["C27"] = checkSchedules
	checks["C28"] = checkCommandFiles
}

// ---- scenarios: several build files, several groups of commands ----

type sysFile struct {
	dir, name string
	text      string
	broken    string // "", "missing" or "syntax"
	m         *bzModel
}

func (f *sysFile) path() string { return filepath.Join(f.dir, f.name) }

// sysOp applies commands to the rules of one target.
type sysOp struct {
	file   int
	target string // the part after the colon
	cmds   [][]string
	fails  map[string]bool // "command index/rule" that must fail, rule "" for the target itself
	rules  []string        // for patterns: names of the rules it stands for
	style  int             // how the label is spelled
}

type sysScn struct {
	files []*sysFile
	ops   []*sysOp
}

func (s *sysScn) label(o *sysOp) string {
	f := s.files[o.file]
	switch o.style {
	case 1:
		return "//" + f.path() + ":" + o.target
	case 2:
		if f.dir != "" {
			return f.dir + ":" + o.target
		}
		return ":" + o.target
	case 3:
		return "@//" + f.dir + ":" + o.target
	}
	return "//" + f.dir + ":" + o.target
}

func (o *sysOp) failing() bool { return len(o.fails) > 0 }

// line is the op as a line of a command file.
func (s *sysScn) line(o *sysOp) string {
	return strings.ReplaceAll(strings.Join(opArgs(o), "|"), "\x00", `\|`) + "|" + s.label(o)
}

// opArgs returns the commands as arguments, | marked by a NUL.
func opArgs(o *sysOp) (l []string) {
	for _, c := range o.cmds {
		l = append(l, strings.ReplaceAll(cmdString(c), "|", "\x00"))
	}
	return
}

func (s *sysScn) script(ops []*sysOp) string {
	var sb strings.Builder
	for _, o := range ops {
		sb.WriteString(s.line(o) + "\n")
	}
	return sb.String()
}

// tree gives the files of the workspace.
func (s *sysScn) tree() map[string]string {
	m := map[string]string{"WORKSPACE": "", "other/BUILD": "java_library(name='o',\n deps=[\"b\",\"a\"])\n", "nobuild/x.txt": "x\n"}
	for _, f := range s.files {
		if f.broken != "missing" {
			m[f.path()] = f.text
		} else {
			m[filepath.Join(f.dir, "src.txt")] = "x\n"
		}
	}
	return m
}

func (s *sysScn) String() string {
	return "commands:\n" + s.script(s.ops) + describeFiles(s.tree())
}

func (s *sysScn) shape() string {
	var sb strings.Builder
	for _, o := range s.ops {
		fmt.Fprintf(&sb, "%d", o.file)
		for _, c := range o.cmds {
			sb.WriteString(c[0] + ",")
		}
		if o.failing() {
			sb.WriteString("!")
		}
		sb.WriteString(";")
	}
	return sb.String()
}

// sureFailure returns a command that fails on the rule without an effect.
func sureFailure(r *rand.Rand, m *bzModel, st *bzStmt) []string {
	var names, attrs []string
	for _, x := range m.st {
		if x.n.K == "Call" {
			if v := attrOf(x.n, "name"); v != nil && v.K == "Str" {
				names = append(names, v.S)
			}
		}
	}
	for _, a := range attrNames(st.n) {
		if a != "name" {
			attrs = append(attrs, a)
		}
	}
	l := [][]string{
		{"rename", "zzz_missing", "zzz_new"},
		{"copy", "zzz_missing", names[0]},
		{"copy", "deps", "zzz_no_rule"},
		{"copy_no_overwrite", "zzz_missing", names[0]},
		{"new", "java_library", names[r.Intn(len(names))]},
		{"substitute", "*", "(unclosed", "x"},
		{"dict_add", "zzz_dict", "nocolon"},
		{"dict_set", "zzz_dict", "nocolon"},
		{"set_if_absent", "kind", "foo"},
		{"use_repo_add", "ext", "repo"},
		{"new", "cc_library", "brand_new", "beside", names[0]},
	}
	if len(attrs) > 1 {
		l = append(l, []string{"rename", attrs[0], attrs[1]})
	}
	return l[r.Intn(len(l))]
}

// Commands that fit every rule.
func safeCmd(r *rand.Rand, m *bzModel) []string {
	return pick(r,
		[]string{"set", "testonly", "1"},
		[]string{"set", "zz_text", "\"some text\""},
		[]string{"remove", "deps"},
		[]string{"remove", "tags"},
		[]string{"comment", fmt.Sprintf("note %d", r.Intn(9))},
		[]string{"rename", "tags", "features"},
		[]string{"rename", "deps", "zz_deps"},
		[]string{"rename", "srcs", "zz_srcs"},
		[]string{"set_if_absent", "zz_flag", "True"},
		[]string{"print", "name", "kind"},
		[]string{"print", "deps"},
		[]string{"add", "zz_list", "x", "y|z"},
		[]string{"dict_set", "zz_dict", "k:v"},
	)
}

var sysReadonly = map[string]bool{"print": true, "print_comment": true}

// genScn makes a scenario. pf is the chance of an op to fail. It returns nil
// when a command left the domain of the model.
func genScn(r *rand.Rand, maxFiles, maxOps int, pf float64, simple bool) *sysScn {
	s := &sysScn{}
	dirs := []string{"pkg", "a", "a/b", "c/d-e/f", "lib", "x.y", "zz", "a/b/c"}
	r.Shuffle(len(dirs), func(i, j int) { dirs[i], dirs[j] = dirs[j], dirs[i] })
	nf := 1 + r.Intn(maxFiles)
	for i := 0; i < nf && i < len(dirs); i++ {
		f := &sysFile{dir: dirs[i], name: pick(r, "BUILD", "BUILD", "BUILD.bazel")}
		if i == 0 && r.Intn(6) == 0 {
			f.dir = ""
		}
		g := &bzGen{r: r, pkg: f.dir}
		f.text = g.file(1 + r.Intn(3))
		if fb, err := formatBuild(f.name, f.text); err == nil && r.Intn(2) == 0 {
			f.text = fb
		}
		m, err := newBzModel(f.dir, f.text)
		if err != nil {
			return nil
		}
		f.m = m
		if r.Float64() < pf/3 {
			f.broken = pick(r, "missing", "syntax")
			if f.broken == "syntax" {
				f.text += "\nfoo(name = \"x\"\n"
			}
		}
		s.files = append(s.files, f)
	}
	no := 1 + r.Intn(maxOps)
	for len(s.ops) < no {
		fi := r.Intn(len(s.files))
		f := s.files[fi]
		o := &sysOp{file: fi, fails: map[string]bool{}, style: pick(r, 0, 0, 0, 1, 2, 3)}
		if f.broken != "" {
			o.target = "r0"
			o.cmds = [][]string{safeCmd(r, f.m)}
			o.fails["0/"] = true
			s.ops = append(s.ops, o)
			continue
		}
		g := &bzGen{r: r, pkg: f.dir}
		if r.Float64() < pf/3 {
			o.target = pick(r, "zzz_absent", "r77", "R0", "%777")
			o.cmds = [][]string{safeCmd(r, f.m)}
			o.fails["0/"] = true
			s.ops = append(s.ops, o)
			continue
		}
		o.target = fmt.Sprintf("r%d", r.Intn(3))
		multi := r.Intn(4) == 0
		if multi {
			o.target = pick(r, "*", "all", "%cc_library", "%java_library", "%py_test")
			for _, x := range f.m.st {
				if strings.Contains(x.n.K, "Comp") || x.n.K == "Call" && attrOf(x.n, "name") == nil {
					multi = false
				}
			}
			if !multi {
				o.target = "r0"
			}
		}
		ss, ok := f.m.targetStmts(o.target)
		if !ok || len(ss) == 0 {
			if multi {
				continue
			}
			o.cmds = [][]string{safeCmd(r, f.m)}
			o.fails["0/"] = true
			s.ops = append(s.ops, o)
			continue
		}
		for _, x := range ss {
			if v := attrOf(x.n, "name"); v != nil {
				o.rules = append(o.rules, v.S)
			}
		}
		for j := 1 + r.Intn(3); j > 0; j-- {
			var cmd []string
			sure := false
			switch {
			case multi || simple:
				cmd = safeCmd(r, f.m)
			case r.Float64() < pf:
				cmd = sureFailure(r, f.m, ss[0])
				sure = true
			default:
				cmd = g.cmd(f.m, ss[0])
			}
			if !usageOK([][]string{cmd}) || strings.Contains(strings.Join(cmd, ""), "\n") {
				continue
			}
			ci := len(o.cmds)
			o.cmds = append(o.cmds, cmd)
			if sure {
				o.fails[fmt.Sprintf("%d/%s", ci, o.rules[0])] = true
				continue
			}
			list := ss
			if perFile[cmd[0]] {
				list = []*bzStmt{nil}
			}
			for i, x := range list {
				switch err := f.m.apply(x, cmd[0], cmd[1:]); {
				case err == errSkip:
					return nil
				case err != nil && (strings.HasPrefix(cmd[0], "dict_") || cmd[0] == "set_select"):
					return nil // may fail half way through its arguments
				case err != nil:
					o.fails[fmt.Sprintf("%d/%s", ci, o.rules[i])] = true
				}
			}
			if cmd[0] == "delete" {
				break
			}
			renamed := false
			for i, x := range ss {
				if v := attrOf(x.n, "name"); v == nil || i < len(o.rules) && v.S != o.rules[i] {
					renamed = true
				}
			}
			if n := o.cmds[len(o.cmds)-1]; renamed || n[0] == "set" && n[1] == "name" || n[0] == "rename" || n[0] == "set" && n[1] == "kind" {
				break // the rule may answer to another name now
			}
		}
		if len(o.cmds) > 0 {
			s.ops = append(s.ops, o)
		} else {
			return nil
		}
	}
	return s
}

// refail judges the target alone, on the file as it is before any command.
func (s *sysScn) refail(o *sysOp) {
	f := s.files[o.file]
	o.fails = map[string]bool{}
	if f.broken == "" {
		m, err := newBzModel(f.dir, f.text)
		if err != nil {
			return
		}
		if ss, ok := m.targetStmts(o.target); ok && len(ss) > 0 || strings.HasPrefix(o.target, "%c") || strings.HasPrefix(o.target, "%j") || strings.HasPrefix(o.target, "%p") {
			return
		}
	}
	o.fails["0/"] = true
}

// good returns the ops of a file without the commands that must fail.
func (s *sysScn) good(file int) (l []*sysOp) {
	for _, o := range s.ops {
		if o.file != file || o.fails["0/"] {
			continue
		}
		multi := strings.ContainsAny(o.target, "*%") || o.target == "all"
		if !o.failing() {
			l = append(l, o)
			continue
		}
		for ci, c := range o.cmds {
			for _, n := range o.rules {
				if o.fails[fmt.Sprintf("%d/%s", ci, n)] {
					continue
				}
				t := o.target
				if multi && !perFile[c[0]] {
					t = n
				}
				l = append(l, &sysOp{file: o.file, target: t, cmds: [][]string{c}})
				if perFile[c[0]] {
					break
				}
			}
		}
	}
	return
}

func (s *sysScn) fileFails(file int) bool {
	for _, o := range s.ops {
		if o.file == file && o.failing() {
			return true
		}
	}
	return false
}

// runOps runs buildozer with the ops given in a command file.
func (c *Ctx) runOps(s *sysScn, ops []*sysOp, dir, tmp string, flags ...string) result {
	os.MkdirAll(tmp, 0o755)
	f := filepath.Join(tmp, "commands.txt")
	os.WriteFile(f, []byte(s.script(ops)), 0o644)
	return c.runBin(dir, tmp, "", nil, "buildozer", append(flags, "-f", f)...)
}

func (c *Ctx) scratchWS(r *rand.Rand, files map[string]string) (dir, tmp string, done func()) {
	base := filepath.Join(c.Scratch, fmt.Sprintf("s%d", r.Int63()))
	dir, tmp = filepath.Join(base, "ws"), filepath.Join(base, "tmp")
	os.MkdirAll(tmp, 0o755)
	os.MkdirAll(dir, 0o755)
	writeFiles(dir, files)
	age(dir)
	return dir, tmp, func() { os.RemoveAll(base) }
}

// ---- C26 ----

func checkAtomic(c *Ctx) {
	c.Rule("distinct = (files and commands with the ones that fail, mode)")
	c.Assume("failing commands: unknown rules, packages without a build file, unparsable files, commands documented to fail, a failing external formatter; a command that fails half way through its own arguments is not used with -k")
	c.parallel(c.N(2200, 60000), 8, 2600, func(i int, r *rand.Rand) {
		s := genScn(r, 4, 7, pick(r, 0.15, 0.3, 0.5), r.Intn(4) == 0)
		if s == nil {
			return
		}
		keep := r.Intn(2) == 0
		var flags []string
		if keep {
			flags = append(flags, "-k")
		}
		if r.Intn(3) == 0 {
			flags = append(flags, "-numio", pick(r, "1", "2", "7"))
		}
		if r.Intn(4) == 0 {
			flags = append(flags, "-quiet")
		}
		in := strings.Join(flags, " ") + "\n" + s.String()
		c.Case(in)
		dir, tmp, done := c.scratchWS(r, s.tree())
		defer done()
		before := snapshot(dir)
		var res result
		if len(s.ops) == 1 && r.Intn(2) == 0 {
			var args []string
			for _, a := range opArgs(s.ops[0]) {
				args = append(args, strings.ReplaceAll(a, "\x00", "|"))
			}
			res = c.runBin(dir, tmp, "", nil, "buildozer", append(append(flags, args...), s.label(s.ops[0]))...)
		} else {
			res = c.runOps(s, s.ops, dir, tmp, flags...)
		}
		after := snapshot(dir)
		anyFail := false
		c.Count("runs", 1)
		if x := res.crashed(); x != "" {
			c.Violate(x, res.String(), in)
			return
		}
		for fi, f := range s.files {
			fails := s.fileFails(fi)
			anyFail = anyFail || fails
			ref := f.text
			p := f.path()
			used := false
			for _, o := range s.ops {
				used = used || o.file == fi
			}
			if f.broken == "" && used && (!fails || keep) {
				rd, rt, rdone := c.scratchWS(r, s.tree())
				rr := result{}
				good := s.good(fi)
				if len(good) > 0 {
					rr = c.runOps(s, good, rd, rt)
				}
				b, _ := os.ReadFile(filepath.Join(rd, p))
				ref = string(b)
				rdone()
				if len(good) > 0 && rr.code != 0 && rr.code != 3 {
					c.Violate("unexpected-failure", "a command that should succeed failed:\n"+rr.String()+"\ncommands:\n"+s.script(good), in)
					return
				}
				c.Count("reference runs", 1)
			}
			got, ok := after[p]
			if f.broken == "missing" {
				if ok {
					c.Violate("created", "a build file appeared: "+p+"\n"+res.String(), in)
				}
				continue
			}
			mode := "other-file"
			if fails && keep {
				mode = "keep-going"
			} else if fails {
				mode = "half-edited"
			}
			c.Count(mode+" files", 1)
			if !ok || got.data != ref {
				c.Violate(mode, fmt.Sprintf("%s should be\n%s\nbut is\n%s\n%s", p, ref, got.data, res), in)
				return
			}
			if ref == f.text && (!got.mtime.Equal(before[p].mtime) || got.ino != before[p].ino) {
				c.Violate(mode+":written", p+" was written\n"+res.String(), in)
				return
			}
			if fails && !keep && strings.Contains(res.err, "fixed "+filepath.Join(dir, p)) {
				c.Violate("false-report", p+" is reported as fixed\n"+res.String(), in)
				return
			}
		}
		for _, d := range snapDiff(before, after) {
			p := d[strings.Index(d, " ")+1:]
			mine := false
			for _, f := range s.files {
				mine = mine || f.path() == p
			}
			if !mine {
				c.Violate("stray", d+"\n"+res.String(), in)
				return
			}
		}
		want := 2
		if !anyFail {
			want = -1
		}
		if want == 2 && res.code != 2 || want < 0 && res.code == 2 {
			c.Violate("exit-status", fmt.Sprintf("failing commands: %v\n%s", anyFail, res), in)
			return
		}
		// Every failure that had to happen is reported with its target.
		stopped := map[int]bool{}
		for _, o := range s.ops {
			if !o.failing() || stopped[o.file] {
				continue
			}
			if !keep {
				stopped[o.file] = true
			}
			f := s.files[o.file]
			want := "on target " + s.label(o) + ": "
			if f.broken != "" {
				want = filepath.Join(dir, f.dir)
			} else {
				for ci, cmd := range o.cmds {
					for _, n := range append([]string{""}, o.rules...) {
						if o.fails[fmt.Sprintf("%d/%s", ci, n)] && keep && !strings.Contains(res.err, cmd[0]) {
							c.Violate("unreported", "nothing on standard error about "+cmd[0]+"\n"+res.String(), in)
							return
						}
					}
				}
			}
			if !strings.Contains(res.err, want) {
				c.Violate("unreported", fmt.Sprintf("standard error does not contain %q\n%s", want, res), in)
				return
			}
			if keep && f.broken == "" {
				n := 0
				for _, p := range s.ops {
					if s.files[p.file] == f && s.label(p) == s.label(o) {
						n += len(p.fails)
					}
				}
				if g := strings.Count(res.err, want); g != n {
					c.Violate("unreported", fmt.Sprintf("%d failures on %s, %d reports\n%s", n, s.label(o), g, res), in)
					return
				}
			}
		}
		key := ""
		if anyFail {
			key = fmt.Sprint(keep, s.shape())
		}
		c.Eval(key)
		if i < 3 {
			c.Sample(in)
		}
	})
	// A formatter that fails leaves the file alone.
	c.parallel(c.N(120, 1500), 8, 2601, func(i int, r *rand.Rand) {
		s := genScn(r, 3, 3, 0, true)
		if s == nil {
			return
		}
		dir, tmp, done := c.scratchWS(r, s.tree())
		defer done()
		fm := filepath.Join(tmp, "fmt.sh")
		script := pick(r, "#!/bin/sh\ncat >/dev/null\nexit 3\n", "#!/bin/sh\ncat; exit 1\n", "#!/bin/sh\ncat\necho broken >&2\n", "#!/bin/sh\nhead -c 10\nkill -9 $$\n")
		os.WriteFile(fm, []byte(script), 0o755)
		before := snapshot(dir)
		var flags []string
		if r.Intn(2) == 0 {
			flags = append(flags, "-k")
		}
		in := "external formatter:\n" + script + s.String()
		c.Case(in)
		ops := append([]*sysOp{}, s.ops...)
		for fi := range s.files {
			ops = append(ops, &sysOp{file: fi, target: "r0", cmds: [][]string{{"set", "zz_new", "1"}}})
		}
		res := c.runOps(s, ops, dir, tmp, append(flags, "-buildifier", fm)...)
		c.Count("failing formatter runs", 1)
		if d := snapDiff(before, snapshot(dir)); len(d) > 0 {
			c.Violate("half-edited:formatter", fmt.Sprint(d)+"\n"+res.String(), in)
		} else if res.code != 2 {
			c.Violate("exit-status:formatter", res.String(), in)
		}
		c.Eval("formatter" + s.shape())
	})
}

// ---- C25 ----

var idempotent = map[string]bool{"set": true, "set_if_absent": true, "add": true, "remove": true, "dict_set": true, "dict_remove": true,
	"remove_comment": true, "remove_if_equal": true, "format": true, "print": true, "print_comment": true, "comment": true}

const hostileBuild = `load(":a.bzl", "x", "y")
load(":b.bzl", "z")

package(default_visibility = ["//visibility:public"])

V = ["q"]

x(
    name = "a",
    size = "s",
    srcs = ["a", "b"] + select({"k": ["c"], "d": V}),
    dict = {"k": "v", "l": ["m"]},
    deps = [":b", "//p:c"],
    **kw
)

x(name = V, n = None)

y(name = "b", attr = x if y else z, srcs = glob(["x"]), deps = select({"k": ":a"}))  # c

[z(name = n) for n in V]

z.q(name = "dots", k = -1)

x("pos", "arg")

x()

exports_files(["q"])

def f():
    x(name = "in")
`

const hostileModule = `module(name = "m")

bazel_dep(name = "a")

dev = use_extension("//x:y.bzl", "e", dev_dependency = True)
proxy = use_extension("@r//:z.bzl", "e")
use_repo(proxy, "a", b = "c", **d)
use_repo(dev)
use_repo()
proxy.tag(name = "a")
use_extension("//x:y.bzl")
use_extension()
a = use_extension(x, "e")
`

func checkExits(c *Ctx) {
	c.Rule("distinct = (files and commands, mode, exit status)")
	c.Assume("modification times and inode numbers show every write; flags unknown to the flag parser are not bad usage in the sense of the property")
	c.parallel(c.N(2600, 60000), 8, 2500, func(i int, r *rand.Rand) {
		s := genScn(r, 3, 4, pick(r, 0.0, 0, 0.2), r.Intn(2) == 0)
		if s == nil {
			return
		}
		switch r.Intn(6) {
		case 0: // only read
			for _, o := range s.ops {
				var l [][]string
				for range o.cmds {
					l = append(l, pick(r, []string{"print", "name"}, []string{"print", "name", "kind"}, []string{"print", "label", "deps"}))
				}
				o.cmds = l
				s.refail(o)
			}
		case 1: // nothing to change
			for _, o := range s.ops {
				s.refail(o)
				if !o.fails["0/"] {
					o.cmds = [][]string{pick(r, []string{"remove", "zzz_none"}, []string{"remove_if_equal", "zzz_none", "1"}, []string{"set_if_absent", "name", "q"}, []string{"remove", "tags", "zzz_none"})}
				}
			}
		}
		var flags []string
		stdout := r.Intn(4) == 0
		if stdout {
			flags = append(flags, "-stdout")
			for _, o := range s.ops {
				for ci, cm := range o.cmds {
					if sysReadonly[cm[0]] {
						o.cmds[ci] = []string{"set", "zz_s", "1"}
						delete(o.fails, fmt.Sprintf("%d/%s", ci, o.target))
					}
				}
			}
		}
		quiet := r.Intn(4) == 0
		if quiet {
			flags = append(flags, "-quiet")
		}
		keep := r.Intn(4) == 0
		if keep {
			flags = append(flags, "-k")
		}
		in := strings.Join(flags, " ") + "\n" + s.String()
		c.Case(in)
		dir, tmp, done := c.scratchWS(r, s.tree())
		defer done()
		before := snapshot(dir)
		res := c.runOps(s, s.ops, dir, tmp, flags...)
		after := snapshot(dir)
		c.Count("runs", 1)
		if x := res.crashed(); x != "" {
			c.Violate(x, res.String(), in)
			return
		}
		fails, readonly := false, true
		for _, o := range s.ops {
			fails = fails || o.failing()
			for _, cm := range o.cmds {
				readonly = readonly && sysReadonly[cm[0]]
			}
		}
		changed := map[string]bool{}
		for _, d := range snapDiff(before, after) {
			p := d[strings.Index(d, " ")+1:]
			if before[p].data == after[p].data {
				c.Violate("needless-write", d+"\n"+res.String(), in)
				return
			}
			changed[p] = true
		}
		if (stdout || readonly) && len(changed) > 0 {
			c.Violate("wrote", fmt.Sprint(changed)+"\n"+res.String(), in)
			return
		}
		want := 0
		switch {
		case fails:
			want = 2
		case stdout || len(changed) > 0 || readonly:
		default:
			want = 3
		}
		if res.code != want {
			c.Violate(fmt.Sprintf("exit-%d-for-%d", res.code, want), fmt.Sprintf("changed files: %v\n%s", sortedKeys(changed), res), in)
			return
		}
		// The messages name the files written.
		for _, f := range s.files {
			p := f.path()
			said := regexp.MustCompile(`(?m)^fixed ` + regexp.QuoteMeta(filepath.Join(dir, p)) + `$`).MatchString(res.err)
			if said != (changed[p] && !quiet) {
				c.Violate("fixed-message", fmt.Sprintf("%s changed: %v, quiet: %v\n%s", p, changed[p], quiet, res), in)
				return
			}
		}
		c.Count(fmt.Sprintf("exit %d", res.code), 1)
		c.Count("files written", len(changed))
		if stdout {
			rd, rt, rdone := c.scratchWS(r, s.tree())
			rr := c.runOps(s, s.ops, rd, rt, pick(r, []string{}, []string{"-quiet"})...)
			if keep {
				rdone()
				rd, rt, rdone = c.scratchWS(r, s.tree())
				rr = c.runOps(s, s.ops, rd, rt, "-k")
			}
			final := snapshot(rd)
			rdone()
			rest := res.out
			for _, fi := range s.order() {
				p := s.files[fi].path()
				got := final[p].data
				switch {
				case got != before[p].data && strings.HasPrefix(rest, got):
					rest = rest[len(got):]
				case got != before[p].data:
					c.Violate("stdout-content", fmt.Sprintf("the new contents of %s are missing or not in the order of the targets:\n%s\n%s\nwithout -stdout: %s", p, got, res, rr), in)
					return
				case got != "" && strings.HasPrefix(rest, got):
					rest = rest[len(got):]
				}
			}
			if rest != "" {
				c.Violate("stdout-content", fmt.Sprintf("unexpected output %q\n%s", rest, res), in)
				return
			}
			c.Count("stdout runs", 1)
		}
		// Once more: idempotent commands have nothing left to do.
		idem := !fails && !stdout
		for _, o := range s.ops {
			for _, cm := range o.cmds {
				if !idempotent[cm[0]] || cm[0] == "set" && (cm[1] == "name" || cm[1] == "kind") {
					idem = false
				}
			}
		}
		if idem && s.conflictFree() {
			stable := true
			for p := range changed {
				if fb, err := formatBuild(filepath.Join(dir, p), after[p].data); err != nil || fb != after[p].data {
					stable = false // the formatter itself is not stable here
				}
			}
			if stable {
				age(dir)
				b2 := snapshot(dir)
				r2 := c.runOps(s, s.ops, dir, tmp, flags...)
				w2 := 3
				if readonly {
					w2 = 0
				}
				if d := snapDiff(b2, snapshot(dir)); len(d) > 0 || r2.code != w2 {
					c.Violate("not-idempotent", fmt.Sprintf("running the commands again: %v\n%s\nfirst run:\n%s", d, r2, describeFiles(map[string]string{"after": after[s.files[0].path()].data})), in)
					return
				}
				c.Count("repeated runs", 1)
			}
		}
		c.Eval(fmt.Sprint(flags, res.code, s.shape()))
		if i < 2 {
			c.Sample(in)
		}
	})
	// Bad usage: exit status 1 and nothing written.
	c.parallel(c.N(150, 1500), 8, 2501, func(i int, r *rand.Rand) {
		s := genScn(r, 1, 1, 0, true)
		if s == nil {
			return
		}
		dir, tmp, done := c.scratchWS(r, s.tree())
		defer done()
		before := snapshot(dir)
		label := "//" + s.files[0].dir + ":r0"
		args := pick(r,
			[]string{"add deps", label}, []string{"delete x", label}, []string{"rename a", label}, []string{"rename a b c", label},
			[]string{"set testonly 1", "replace deps a", label}, []string{"", label}, []string{"set testonly 1", "  ", label},
			[]string{"new java_library", label}, []string{"dict_replace_if_equal a b c", label}, []string{"-numio", "0", "set testonly 1", label},
			[]string{"use_repo_add x", label}, []string{"copy deps", label}, []string{"format x", label}, []string{"new_load", label},
			[]string{"set testonly 1", label, "remove_if_equal a"}, []string{"-numio", "-3", "format", label},
		)
		in := fmt.Sprintf("%q", args)
		c.Case(in)
		var res result
		if len(args) > 1 && r.Intn(2) == 0 && !strings.HasPrefix(args[0], "-") && strings.TrimSpace(args[0]) != "" {
			f := filepath.Join(tmp, "cmds")
			os.WriteFile(f, []byte("set testonly 1|"+label+"\n"+strings.Join(args, "|")+"\n"), 0o644)
			res = c.runBin(dir, tmp, "", nil, "buildozer", "-f", f)
			in = "-f: " + in
		} else {
			res = c.runBin(dir, tmp, "", nil, "buildozer", args...)
		}
		if d := snapDiff(before, snapshot(dir)); len(d) > 0 {
			c.Violate("usage:written", fmt.Sprint(d)+"\n"+res.String(), in)
		} else if res.code != 1 {
			c.Violate("usage:exit-status", res.String(), in)
		} else if strings.TrimSpace(res.err) == "" {
			c.Violate("usage:silent", res.String(), in)
		}
		c.Eval("usage" + in)
		c.Count("bad usage runs", 1)
	})
	// Odd arguments: whatever they are, the run ends with a verdict, and the commands for other
	// files are carried out.
	hostile := []string{"name", "deps", "srcs", "dev", "//x:y.bzl", "@r//:z.bzl", "*", "a", "b", "//p:a", ":a", "", "k:v", "k", "'q'", "\"q", "\"q\"", "(", "$1", "x=y", "=", "x=", "=x", "-", "[", "]", "{", "#", "# c", " ", "before", "after", "all", "visibility", "None", "True", "1", "proxy", "use_extension", "e", "//", "@", "@r", ":", "//:", "@@", "%", "%1", "a\nb", "\u00e9", "select", "unusedLoads", "movePackageToTop", "removeEmptyPkg", "label", "rule", "kind", "path", "startline", "attr:", "name:", "lambda", "load", "def", "\t", "../x", "...", "size", "dict", "x:y:z"}
	attrs := []string{"name", "deps", "srcs", "dict", "size", "n", "attr", "k", "visibility"}
	repoArgs := []string{"dev", "dev", "proxy", "//x:y.bzl", "//x:y.bzl", "@r//:z.bzl", "e", "a", "b=c", "a", "nope"}
	var names []string
	for name := range edit.AllCommands {
		names = append(names, name)
	}
	sort.Strings(names)
	c.parallel(c.N(160, 4000), 8, 2503, func(i int, r *rand.Rand) {
		files := map[string]string{"WORKSPACE": "", "w/BUILD": "x(name = \"w\")\n", "MODULE.bazel": hostileModule}
		if r.Intn(4) == 0 {
			// The command addresses the first extension with or without usages.
			files["MODULE.bazel"] = "module(name = \"m\")\n\nproxy = use_extension(\"//x:y.bzl\", \"e\")\n"
		}
		var script strings.Builder
		for k := 0; k < 12; k++ {
			pkg := fmt.Sprintf("q%d", k)
			files[pkg+"/BUILD"] = hostileBuild
			name := names[(i*12+k)%len(names)]
			info := edit.AllCommands[name]
			max := info.MaxArg
			if max < 0 {
				max = info.MinArg + 2
			}
			n := info.MinArg + r.Intn(max-info.MinArg+1)
			words := []string{name}
			for len(words) <= n {
				switch {
				case strings.HasPrefix(name, "use_repo"):
					words = append(words, pick(r, repoArgs...))
				case r.Intn(2) == 0:
					words = append(words, pick(r, attrs...))
				default:
					words = append(words, pick(r, hostile...))
				}
			}
			for w := range words {
				if words[w] == "" || strings.ContainsAny(words[w], "|\n\t#") {
					words[w] = "zz"
				}
				words[w] = strings.ReplaceAll(words[w], " ", `\ `)
			}
			target := "//" + pkg + ":" + pick(r, "a", "b", "all", "*", "__pkg__", "%x", "%1", "%0", "%99", "dots", "%", "nope", "%z.q", "q", "1", "%-5")
			if strings.HasPrefix(name, "use_repo") && r.Intn(4) > 0 {
				target = "//MODULE.bazel:all"
			}
			fmt.Fprintf(&script, "%s|%s\n", strings.Join(words, " "), target)
		}
		script.WriteString("set witness 1|//w:w\n")
		in := script.String()
		c.Case(in)
		dir, tmp, done := c.scratchWS(r, files)
		defer done()
		os.WriteFile(filepath.Join(tmp, "cmds"), []byte(in), 0o644)
		args := []string{"-f", filepath.Join(tmp, "cmds")}
		if r.Intn(3) == 0 {
			args = append([]string{pick(r, "-k", "-quiet", "-edit-variables", "-shorten_labels=false", "-delete_with_comments=false")}, args...)
		}
		res := c.runBin(dir, tmp, "", nil, "buildozer", args...)
		c.Count("odd argument runs", 1)
		if x := res.crashed(); x != "" {
			c.Violate("odd-arguments:"+x, res.String(), in)
			return
		}
		if res.code != 0 && res.code != 2 {
			c.Violate(fmt.Sprintf("odd-arguments:exit-%d", res.code), res.String(), in)
			return
		}
		if res.code == 2 && strings.TrimSpace(res.err) == "" {
			c.Violate("odd-arguments:silent", res.String(), in)
			return
		}
		if got := snapshot(dir)["w/BUILD"].data; !strings.Contains(got, "witness = 1") {
			c.Violate("odd-arguments:other-file", got+"\n"+res.String(), in)
			return
		}
		c.Eval("odd" + in)
	})
	// The package "-": standard input to standard output.
	c.parallel(c.N(200, 2500), 8, 2502, func(i int, r *rand.Rand) {
		s := genScn(r, 1, 1, 0, true)
		if s == nil || s.files[0].m == nil {
			return
		}
		text := pick(r, "java_library(\n    name = \"r0\",\n    srcs = [\"b.java\", \"a.java\"],\n)\n", "# top\n\ncc_library(name=\"r0\")\n", "load(\":x.bzl\", \"y\")\n\ny(\n    name = \"r0\",\n    tags = [\"x\"],\n)\n\nfoo(name = \"r1\")\n")
		cmds := [][]string{pick(r, []string{"set", "testonly", "1"}, []string{"set", "zz", "\"a b\""}, []string{"comment", "x y"}, []string{"remove", "srcs"}, []string{"remove", "zzz"}, []string{"print", "name"}, []string{"new", "foo", "zz"}, []string{"add", "tags", "q"}, []string{"delete"})}
		target := pick(r, "r0", "r0", "r0", "*", "nosuch")
		if target == "nosuch" && cmds[0][0] == "new" {
			target = "r0"
		}
		fs := s.tree()
		fs["q/BUILD"] = text
		dir, tmp, done := c.scratchWS(r, fs)
		defer done()
		before := snapshot(dir)
		in := fmt.Sprintf("%v on -:%s\n%s", cmds, target, text)
		c.Case(in)
		res := c.runBin(dir, tmp, text, nil, "buildozer", cmdString(cmds[0]), "-:"+target)
		if d := snapDiff(before, snapshot(dir)); len(d) > 0 {
			c.Violate("stdin:written", fmt.Sprint(d)+"\n"+res.String(), in)
			return
		}
		ref := c.runBin(dir, tmp, "", nil, "buildozer", cmdString(cmds[0]), "//q:"+target)
		b, _ := os.ReadFile(filepath.Join(dir, "q/BUILD"))
		switch {
		case (res.code == 2) != (ref.code == 2) || res.code == 1:
			c.Violate("stdin:exit-status", res.String()+"\nas a file: "+ref.String(), in)
		case cmds[0][0] == "print":
			if res.out != ref.out || res.code != ref.code {
				c.Violate("stdin:output", res.String()+"\nas a file: "+ref.String(), in)
			}
		case string(b) != text && res.out != string(b):
			c.Violate("stdin:output", res.String()+"\nas a file:\n"+string(b), in)
		case string(b) == text && res.out != "" && res.out != text:
			c.Violate("stdin:output", res.String()+"\nas a file:\n"+string(b), in)
		}
		c.Eval(fmt.Sprint("stdin", cmds[0], target, text, res.code))
		c.Count("stdin runs", 1)
	})
}

// conflictFree tells whether no command undoes another one.
func (s *sysScn) conflictFree() bool {
	seen := map[string]bool{}
	for _, o := range s.ops {
		for _, cm := range o.cmds {
			k := fmt.Sprint(o.file)
			if seen[k] {
				return false
			}
			seen[k] = true
			_ = cm
		}
	}
	return true
}

// order lists the files in the order they are first addressed.
func (s *sysScn) order() (l []int) {
	seen := map[int]bool{}
	for _, o := range s.ops {
		if !seen[o.file] {
			seen[o.file] = true
			l = append(l, o.file)
		}
	}
	return
}

// ---- C27 ----

func checkSchedules(c *Ctx) {
	c.Rule("distinct = (files and commands, schedule parameters)")
	c.Assume("buildozer and the monitors are built with the Go race detector; schedules differ in -numio, -P, GOMAXPROCS, file sizes and delays in an external formatter")
	orders := map[string]bool{}
	c.parallel(c.N(70, 1500), 4, 2700, func(i int, r *rand.Rand) {
		s := genScn(r, 8, 24, pick(r, 0.0, 0.1, 0.2), r.Intn(3) == 0)
		if s == nil {
			return
		}
		for _, f := range s.files { // sizes differ, so that files finish out of order
			if f.broken == "" && r.Intn(2) == 0 {
				var sb strings.Builder
				for j := r.Intn(400); j > 0; j-- {
					fmt.Fprintf(&sb, "\nfoo_bar(\n    name = \"pad%d\",\n)\n", j)
				}
				f.text += sb.String()
			}
		}
		dots := r.Intn(4) == 0
		keep := r.Intn(2) == 0
		mode := pick(r, "", "", "-stdout", "-output_json", "-output_proto")
		extra := ""
		if dots {
			for n := 1 + r.Intn(3); n > 0; n-- {
				extra += pick(r, "print label kind|//a/...:*", "set zz_all 1|//...:%cc_library", "print name|//...:all", "comment seen|//a/...:%java_library", "print name deps|a/b/...:*") + "\n"
			}
		}
		script := s.script(s.ops) + extra
		in := fmt.Sprintf("%s -k=%v\ncommands:\n%s%s", mode, keep, script, describeFiles(s.tree()))
		c.Case(in)
		type outT struct {
			files map[string]string
			out   string
			msgs  string
			code  int
			how   string
		}
		var first *outT
		for v := 0; v < c.N(6, 12); v++ {
			dir, tmp, done := c.scratchWS(r, s.tree())
			cf := filepath.Join(tmp, "cmds")
			os.WriteFile(cf, []byte(script), 0o644)
			args := []string{"-numio", pick(r, "1", "2", "3", "8", "200")}
			if v == 0 {
				args[1] = "1"
			}
			if keep {
				args = append(args, "-k")
			}
			if mode != "" {
				args = append(args, mode)
			}
			if r.Intn(2) == 0 {
				args = append(args, "-P", pick(r, "1", "2", "4", "8", "32"))
			}
			fmtr := filepath.Join(tmp, "fmt.sh")
			// The formatter reports who runs it and when, and takes its time.
			os.WriteFile(fmtr, []byte(fmt.Sprintf("#!/bin/sh\nf=$(mktemp %s/in.XXXXXX)\ncat >$f\nn=$(( ($(wc -c <$f) * %d) %% 7 ))\nsleep 0.0$n\necho $(wc -c <$f) >>%s/order\ncat $f\n", tmp, 1+r.Intn(1000), tmp)), 0o755)
			delayed := v%3 == 2
			if delayed {
				args = append(args, "-buildifier", fmtr)
			}
			env := []string{"GOMAXPROCS=" + pick(r, "1", "2", "8", "16")}
			if i%10 == 0 && v == 1 {
				env = append(env, "GODEBUG=asyncpreemptoff=1")
			}
			res := c.runBin(dir, tmp, "", env, "buildozer", append(args, "-f", cf)...)
			c.Count("runs", 1)
			o := &outT{files: map[string]string{}, code: res.code, how: res.String()}
			for p, st := range snapshot(dir) {
				o.files[p] = st.data
			}
			clean := func(x string) string { return strings.ReplaceAll(x, dir, "WS") }
			o.out = clean(res.out)
			ml := strings.Split(strings.TrimSpace(clean(res.err)), "\n")
			sort.Strings(ml)
			o.msgs = strings.Join(ml, "\n")
			if b, err := os.ReadFile(filepath.Join(tmp, "order")); err == nil {
				c.mu.Lock()
				orders[fmt.Sprint(i, string(b))] = true
				c.mu.Unlock()
			}
			done()
			if x := res.crashed(); x != "" {
				c.Violate(x, res.String(), in)
				return
			}
			if res.code == 66 || strings.Contains(res.err, "DATA RACE") {
				c.Violate("data-race", res.String(), in)
				return
			}
			if delayed && first != nil {
				// External formatting goes through a second parse: same result on these files.
			}
			if first == nil {
				first = o
				continue
			}
			sig := ""
			switch {
			case o.code != first.code:
				sig = "exit-status"
			case o.msgs != first.msgs:
				sig = "messages"
			case fmt.Sprint(mapDiff(o.files, first.files)) != "[]" && !(delayed && c.sameModuloFormat(o.files, first.files)):
				sig = "files"
			case o.out != first.out && !(delayed && mode == "-stdout"):
				sig = "output"
			}
			if sig != "" {
				c.Violate("differs:"+sig, fmt.Sprintf("files that differ: %v\none run: %s\nfiles:\n%s\nanother: %s\nfiles:\n%s", mapDiff(o.files, first.files), first.how, describeFiles(first.files), o.how, describeFiles(o.files)), in)
				return
			}
			c.Eval(fmt.Sprint(i, args, env))
		}
		if i < 2 {
			c.Sample(in)
		}
	})
	c.Count("completion orders seen", len(orders))
	// In process, under the race detector, with the buffers shared by all workers.
	for i := 0; i < c.N(25, 300) && !c.Failed(); i++ {
		r := rand.New(rand.NewSource(c.Seed*7907 + int64(i)))
		s := genScn(r, 8, 24, pick(r, 0.0, 0.1), r.Intn(3) == 0)
		if s == nil {
			continue
		}
		script := s.script(s.ops) + "print name zz_missing deps|//...:*\nprint label nosuch|//a/...:all\n"
		in := "in process:\n" + script + describeFiles(s.tree())
		c.Case(in)
		first := ""
		for v := 0; v < 5; v++ {
			dir, tmp, done := c.scratchWS(r, s.tree())
			cf := filepath.Join(tmp, "cmds")
			var sb strings.Builder
			for _, l := range strings.SplitAfter(script, "\n") {
				sb.WriteString(l)
			}
			os.WriteFile(cf, []byte(sb.String()), 0o644)
			opts := edit.NewOpts()
			opts.RootDir = dir
			opts.KeepGoing = true
			opts.CommandsFiles = []string{cf}
			opts.NumIO = []int{1, 2, 8, 200, 3}[v]
			// Delays before files are written, and a count of the writers of each file.
			var mu sync.Mutex
			writers := map[string]int{}
			delay := r.Int63()
			edit.EditFile = func(fi os.FileInfo, name string) error {
				mu.Lock()
				writers[name]++
				mu.Unlock()
				time.Sleep(time.Duration((int64(h64(name))^delay)&0xfff) * time.Microsecond)
				return nil
			}
			wd, _ := os.Getwd()
			os.Chdir(dir)
			res := runBz(opts, nil)
			os.Chdir(wd)
			for n, k := range writers {
				if k > 1 {
					c.Violate("written-twice", fmt.Sprintf("%s was written %d times", n, k), in)
				}
			}
			if res.panicked != "" {
				c.Violate("panic", res.panicked, in)
				done()
				return
			}
			l := strings.Split(strings.ReplaceAll(res.err, dir, "WS"), "\n")
			sort.Strings(l)
			fs := map[string]string{}
			for p, st := range snapshot(dir) {
				fs[p] = st.data
			}
			got := fmt.Sprintf("exit %d\n%s\n%s\n%s", res.code, strings.ReplaceAll(res.out, dir, "WS"), strings.Join(l, "\n"), describeFiles(fs))
			done()
			c.Count("runs in process", 1)
			c.Count("files written", len(writers))
			if v == 0 {
				first = got
			} else if got != first {
				c.Violate("differs:in-process", "one worker:\n"+first+"\nseveral:\n"+got, in)
				return
			}
			c.Eval(fmt.Sprint("in process", i, v))
		}
	}
}

func mapDiff(a, b map[string]string) (l []string) {
	for k := range a {
		if b[k] != a[k] {
			l = append(l, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

func (c *Ctx) sameModuloFormat(a, b map[string]string) bool {
	for _, p := range mapDiff(a, b) {
		x, e1 := formatBuild(p, a[p])
		y, e2 := formatBuild(p, b[p])
		if e1 != nil || e2 != nil || x != y {
			return false
		}
	}
	return true
}

// ---- C28 ----

// addNewRules adds commands which create rules and edit them further.
func (s *sysScn) addNewRules(r *rand.Rand) {
	kind := pick(r, "cc_library", "java_library", "my_rule")
	fi := r.Intn(len(s.files))
	if s.files[fi].broken != "" {
		return
	}
	var ops []*sysOp
	add := func(target string, cmd ...string) {
		ops = append(ops, &sysOp{file: fi, target: target, fails: map[string]bool{}, cmds: [][]string{cmd}})
	}
	n := 2 + r.Intn(3)
	for i := 0; i < n; i++ {
		k := kind
		if r.Intn(4) == 0 {
			k = "genrule"
		}
		cmd := []string{"new", k, fmt.Sprintf("nn%d", i)}
		if i > 0 && r.Intn(3) == 0 {
			cmd = append(cmd, pick(r, "before", "after"), fmt.Sprintf("nn%d", r.Intn(i)))
		}
		add("__pkg__", cmd...)
	}
	gone := map[int]bool{}
	for k := 1 + r.Intn(5); k > 0; k-- {
		i := r.Intn(n)
		if gone[i] {
			continue
		}
		t := fmt.Sprintf("nn%d", i)
		switch r.Intn(6) {
		case 0, 1:
			add(t, "delete")
			gone[i] = true
		case 2:
			add(t, "set", "size", pick(r, "small", "large"))
		case 3:
			add(t, "add", "deps", pick(r, ":a", ":b", "//x:y"), pick(r, ":c", "//x:y"))
		case 4:
			add(t, "comment", "word")
		case 5:
			add(t, "set", "kind", "other_rule")
		}
	}
	at := r.Intn(len(s.ops) + 1)
	s.ops = append(append(append([]*sysOp{}, s.ops[:at]...), ops...), s.ops[at:]...)
}

func checkCommandFiles(c *Ctx) {
	c.Rule("distinct = (commands, how they are written in the file, how they are passed)")
	c.Assume("commands without line breaks; the label * stands alone for the labels of the command line")
	c.parallel(c.N(1500, 40000), 8, 2800, func(i int, r *rand.Rand) {
		s := genScn(r, 3, 5, pick(r, 0.0, 0, 0.15), r.Intn(3) == 0)
		if s == nil {
			return
		}
		for _, f := range s.files { // values with the characters of the syntax
			if f.broken == "" && r.Intn(2) == 0 {
				for fi := range s.files {
					if s.files[fi] == f {
						s.ops = append(s.ops, &sysOp{file: fi, target: "*", cmds: [][]string{pick(r,
							[]string{"set", "zz_pipe", "\"a|b\""}, []string{"add", "zz_pipes", "||", "x|", "|y"}, []string{"comment", "one | two"},
							[]string{"set", "zz_hash", "\"#x\""}, []string{"comment", "#| x"}, []string{"set", "zz_star", "\"*\""}, []string{"print", "name"},
							[]string{"set", "zz_long", "\"" + strings.Repeat("v", pick(r, 4000, 5000, 66000, 130000)) + "\""}, []string{"add", "zz_bs", `a\b`, `c\d`})}})
					}
				}
			}
		}
		keep := []string{}
		if r.Intn(2) == 0 {
			keep = []string{"-k"}
		}
		arg := func(a string) string { return strings.ReplaceAll(a, "\x00", "|") }
		// The reference: the arguments of each line on a command line of their own.
		// Lines for one file are grouped so that runs are equal without formatting between them.
		same := map[int]bool{}
		var ops []*sysOp
		for _, o := range s.ops {
			if same[o.file] {
				continue
			}
			same[o.file] = true
			ops = append(ops, o)
		}
		type line struct {
			fields []string // NUL for an escaped |
			star   bool
		}
		var lines []line
		star := r.Intn(4) == 0 && len(ops) == 1
		for _, o := range ops {
			f := opArgs(o)
			l := line{}
			// Several targets of the file, labels and commands in any order.
			labels := []string{s.label(o)}
			if r.Intn(3) == 0 {
				labels = append(labels, "//"+s.files[o.file].dir+":"+pick(r, "r0", "r1", "%cc_library", "*"))
			}
			if star {
				l.star = true
				l.fields = append(f, labels...)
			} else {
				all := append([]string{}, f...)
				for _, lb := range labels {
					p := r.Intn(len(all) + 1)
					if r.Intn(2) == 0 {
						p = len(all)
					}
					all = append(all[:p], append([]string{lb}, all[p:]...)...)
				}
				// Labels keep their order.
				j := 0
				for k, x := range all {
					isL := false
					for _, lb := range labels {
						isL = isL || lb == x
					}
					if isL {
						all[k] = labels[j]
						j++
					}
				}
				l.fields = all
			}
			lines = append(lines, l)
		}
		in := ""
		d1, t1, done1 := c.scratchWS(r, s.tree())
		defer done1()
		refCode, refOut, refErr := 3, "", ""
		ro := true
		for _, l := range lines {
			var args []string
			for _, f := range l.fields {
				args = append(args, arg(f))
			}
			res := c.runBin(d1, t1, "", nil, "buildozer", append(append([]string{}, keep...), args...)...)
			refOut += res.out
			refErr += strings.ReplaceAll(res.err, d1, "WS")
			in += fmt.Sprintf("%q\n", args)
			switch {
			case res.code == 2:
				refCode = 2
			case res.code == 0 && refCode == 3:
				refCode = 0
			}
			for _, f := range l.fields {
				w := strings.Fields(f)
				if !strings.Contains(f, "//") && len(w) > 0 && !sysReadonly[w[0]] {
					ro = false
				}
			}
		}
		_ = ro
		want := snapshot(d1)
		// The command file.
		var sb strings.Builder
		var trail []string
		for k, l := range lines {
			for r.Intn(4) == 0 {
				sb.WriteString(pick(r, "\n", "# comment | set x 1|//pkg:r0\n", "   \n", "  # indented\n", "\t\n", "#\n"))
			}
			f := l.fields
			if l.star {
				var cs, ls []string
				for _, x := range f {
					if strings.Contains(x, "//") && !strings.Contains(x, " ") || strings.Contains(x, ":") && !strings.Contains(x, " ") {
						ls = append(ls, x)
					} else {
						cs = append(cs, x)
					}
				}
				f = append(cs, "*")
				for _, x := range ls {
					trail = append(trail, arg(x))
				}
			}
			sb.WriteString(pick(r, "", "", "  ", "\t"))
			var esc []string
			for _, x := range f {
				esc = append(esc, strings.ReplaceAll(x, "\x00", `\|`))
			}
			sb.WriteString(strings.Join(esc, "|"))
			if k < len(lines)-1 || r.Intn(2) == 0 {
				sb.WriteString(pick(r, "\n", "\n", "\r\n", "  \n"))
			}
		}
		text := sb.String()
		d2, t2, done2 := c.scratchWS(r, s.tree())
		defer done2()
		how := pick(r, "file", "stdin", "two files")
		in = fmt.Sprintf("command lines %v:\n%s\ncommand file (%s, labels %v):\n%s\n%s", keep, in, how, trail, text, describeFiles(s.tree()))
		if len(in) > 20000 {
			in = in[:20000]
		}
		c.Case(in)
		var res result
		switch how {
		case "file":
			os.WriteFile(t2+"/c", []byte(text), 0o644)
			res = c.runBin(d2, t2, "", nil, "buildozer", append(append(append([]string{}, keep...), "-f", t2+"/c"), trail...)...)
		case "stdin":
			res = c.runBin(d2, t2, text, nil, "buildozer", append(append(append([]string{}, keep...), "-f", "-"), trail...)...)
		default:
			ls := strings.SplitAfter(text, "\n")
			n := r.Intn(len(ls) + 1)
			os.WriteFile(t2+"/c1", []byte(strings.Join(ls[:n], "")), 0o644)
			os.WriteFile(t2+"/c2", []byte(strings.Join(ls[n:], "")), 0o644)
			res = c.runBin(d2, t2, "", nil, "buildozer", append(append(append([]string{}, keep...), "-f", t2+"/c1", "-f", t2+"/c2"), trail...)...)
		}
		c.Count("command files", 1)
		c.Count("lines", len(lines))
		got := snapshot(d2)
		for p := range want {
			if want[p].data != got[p].data {
				c.Violate("files", fmt.Sprintf("%s by command lines:\n%s\nby the command file:\n%s\n%s\nerrors of the command lines:\n%s", p, clip(want[p].data), clip(got[p].data), res, refErr), in)
				return
			}
		}
		if x := res.crashed(); x != "" {
			c.Violate(x, res.String(), in)
			return
		}
		ml := func(x string) string {
			l := strings.Split(x, "\n")
			sort.Strings(l)
			return strings.Join(l, "\n")
		}
		if res.out != refOut {
			c.Violate("output", fmt.Sprintf("by command lines %q\n%s", refOut, res), in)
			return
		}
		if a, b := ml(refErr), ml(strings.ReplaceAll(res.err, d2, "WS")); a != b {
			c.Violate("messages", fmt.Sprintf("by command lines:\n%s\nby the command file:\n%s", a, b), in)
			return
		}
		if res.code == 3 && refCode == 0 && len(lines) > 1 {
			// Some command lines only read, the others changed nothing.
		} else if res.code != refCode {
			c.Violate("exit-status", fmt.Sprintf("by command lines %d\n%s", refCode, res), in)
			return
		}
		key := how + text
		if i < 3 {
			c.Sample(in)
		}
		c.Eval(key)
	})
	// Lines for one file are applied in the order given.
	c.parallel(c.N(1200, 20000), 8, 2801, func(i int, r *rand.Rand) {
		s := genScn(r, 2, 6, 0, r.Intn(3) == 0)
		if s == nil {
			return
		}
		for _, o := range s.ops {
			for _, cm := range o.cmds {
				if cm[0] == "move" || strings.HasPrefix(cm[0], "copy") || cm[0] == "rename" {
					return // values formatted under one attribute end up in another
				}
			}
		}
		if r.Intn(2) == 0 {
			s.addNewRules(r)
		}
		in := s.String()
		c.Case(in)
		d1, t1, done1 := c.scratchWS(r, s.tree())
		defer done1()
		stable := true
		for _, o := range s.ops {
			var args []string
			for _, a := range opArgs(o) {
				args = append(args, strings.ReplaceAll(a, "\x00", "|"))
			}
			res := c.runBin(d1, t1, "", nil, "buildozer", append(args, s.label(o))...)
			if res.code == 2 || res.code == 1 {
				return // judged by C23
			}
		}
		d2, t2, done2 := c.scratchWS(r, s.tree())
		defer done2()
		res := c.runOps(s, s.ops, d2, t2)
		a, b := snapshot(d1), snapshot(d2)
		for _, f := range s.files {
			p := f.path()
			if a[p].data == b[p].data {
				continue
			}
			// Formatting between the runs may move things; the meaning is the same.
			x, e1 := newBzModel(f.dir, a[p].data)
			y, e2 := newBzModel(f.dir, b[p].data)
			if e1 != nil || e2 != nil || !sameFileValues(x, y) {
				c.Violate("sequence", fmt.Sprintf("%s after separate runs:\n%s\nafter one run of the command file:\n%s\n%s", p, a[p].data, b[p].data, res), in)
				return
			}
			stable = false
		}
		c.Count("sequences", 1)
		if stable {
			c.Count("sequences equal to the byte", 1)
		}
		c.Eval("seq" + s.shape())
	})
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:1500] + " ... " + s[len(s)-1500:]
	}
	return s
}

// sameFileValues compares two files rule by rule, attribute values as sets.
func sameFileValues(x, y *bzModel) bool {
	var a, b []*bzStmt
	for _, s := range x.st {
		if s.n.K == "Call" {
			a = append(a, s)
		}
	}
	for _, s := range y.st {
		if s.n.K == "Call" {
			b = append(b, s)
		}
	}
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if callKind(a[i].n) != callKind(b[i].n) {
			return false
		}
		an, bn := attrNames(a[i].n), attrNames(b[i].n)
		sort.Strings(an)
		sort.Strings(bn)
		if strings.Join(an, ",") != strings.Join(bn, ",") {
			return false
		}
		for _, k := range an {
			if d := x.sameValue(a[i].id, k, attrOf(a[i].n, k), attrOf(b[i].n, k)); d != "" {
				return false
			}
		}
	}
	return true
}
