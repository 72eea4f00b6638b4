package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() { checks["C14"] = checkC14 }

// scenario is one command over one set of files.
type scenario struct {
	tool    string
	args    []string
	files   map[string]string
	stdin   string
	targets []string // files the command reads
	mode    string
	stdoutM bool // something is written to standard output when all is well
	json    bool
	special string // a file without which nothing can be done (command file, tables)
}

func buildifierScenario(r *rand.Rand) scenario {
	s := scenario{tool: "buildifier", files: map[string]string{"WORKSPACE": ""}}
	nf := 1 + r.Intn(4)
	if r.Intn(6) == 0 {
		nf = 8 + r.Intn(20)
	}
	var names []string
	for i := 0; i < nf; i++ {
		name := cliNames[r.Intn(len(cliNames))]
		if i >= len(cliNames) || r.Intn(2) == 0 {
			name = fmt.Sprintf("d%d/%s", i%5, pick(r, "BUILD", "x.bzl", fmt.Sprintf("y%d.bzl", i)))
		}
		if _, ok := s.files[name]; ok {
			continue
		}
		st := pick(r, "unformatted", "unformatted", "unformatted", "formatted", "invalid")
		if r.Intn(3) > 0 && st == "invalid" {
			st = "unformatted"
		}
		s.files[name] = userFile(r, refType(name), st)
		names = append(names, name)
	}
	sort.Strings(names)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	s.targets = names
	s.mode = pick(r, "fix", "fix", "fix", "check", "diff", "check-json", "check-text", "print", "pipe")
	lint := pick(r, "off", "off", "warn", "fix")
	switch s.mode {
	case "fix":
		s.args = []string{"-mode=fix", "-v", "-lint=" + lint}
	case "check", "diff":
		s.args = []string{"-mode=" + s.mode}
		if lint == "warn" {
			s.args = append(s.args, "-lint=warn")
		}
		s.stdoutM = s.mode == "diff"
	case "check-json":
		s.args = []string{"-mode=check", "-format=json", "-lint=" + pick(r, "off", "warn")}
		s.stdoutM, s.json = true, true
	case "check-text":
		s.args = []string{"-mode=check", "-format=text", "-lint=warn"}
	case "print":
		s.args = []string{"-mode=print_if_changed"}
		s.targets = names[:1]
		s.stdoutM = true
	case "pipe":
		s.args = []string{}
		s.stdin = s.files[names[0]]
		if r.Intn(2) == 0 {
			s.args = append(s.args, "-path="+names[0])
		}
		s.targets = nil
		s.stdoutM = true
	}
	if r.Intn(6) == 0 {
		s.files["conf.json"] = `{"verbose": true}`
		s.args = append(s.args, "-config=conf.json")
		s.special = "conf.json"
	} else if r.Intn(6) == 0 {
		s.files["tab.json"] = `{"IsSortableListArg": {"zz": true}}`
		s.args = append(s.args, "-add_tables=tab.json")
		s.special = "tab.json"
	}
	s.args = append(s.args, s.targets...)
	return s
}

func buildozerScenario(r *rand.Rand) scenario {
	s := scenario{tool: "buildozer", files: map[string]string{"WORKSPACE": ""}}
	nf := 1 + r.Intn(5)
	var names, labels []string
	for i := 0; i < nf; i++ {
		name := fmt.Sprintf("p%d/%s", i, pick(r, "BUILD", "BUILD.bazel"))
		body := fmt.Sprintf("cc_library(\n    name = \"a%d\",\n    srcs = [\"x.cc\"],\n    deps = [\":q\"],\n)\n", i)
		if r.Intn(6) == 0 {
			body = "cc_library(name = \"a\n"
		}
		s.files[name] = body
		names = append(names, name)
		labels = append(labels, fmt.Sprintf("//p%d:a%d", i, i))
	}
	s.targets = names
	s.mode = pick(r, "edit", "edit", "edit", "stdout", "print", "json", "file", "proto", "mix")
	cmds := []string{"add deps //z:z"}
	switch s.mode {
	case "stdout":
		s.args = append(s.args, "-stdout")
		s.stdoutM = true
	case "print":
		cmds = []string{"print name kind deps"}
		s.stdoutM = true
	case "json":
		s.args = append(s.args, "-output_json")
		cmds = []string{"print name deps"}
		s.stdoutM = true
	case "proto":
		s.args = append(s.args, "-output_proto")
		cmds = []string{"print name deps"}
		s.stdoutM = true
	case "mix":
		cmds = []string{"print name", "set x 1"}
		s.stdoutM = true
	case "file":
		s.files["cmds.txt"] = "add deps //z:z|" + strings.Join(labels, "|") + "\n# c\nset x 1|" + strings.Join(labels, "|") + "\n"
		s.args = append(s.args, "-f", "cmds.txt")
		s.special = "cmds.txt"
		cmds, labels = nil, nil
	}
	if r.Intn(3) == 0 {
		s.args = append([]string{"-k"}, s.args...)
	}
	if r.Intn(2) == 0 {
		s.args = append([]string{"-numio=" + pick(r, "1", "2", "50")}, s.args...)
	}
	s.args = append(append(s.args, cmds...), labels...)
	return s
}

type fault struct {
	kind string // strace, full, perm-read, perm-write, missing, dir, loop, tmp-missing, tmp-write, tmp-unlink
	path string // "" = standard output
	op   string
	err  string
	when string
}

func (f fault) String() string {
	return fmt.Sprintf("%s %s on %q error %s when %s", f.kind, f.op, f.path, f.err, f.when)
}

var reInjected = regexp.MustCompile(`(?m)^.*\(INJECTED\).*$`)

type faultRun struct {
	result
	hits  []string
	left  []string // files left in TMPDIR
	after map[string]fstate
}

// execFault runs the scenario below dir, with or without a fault.
func (c *Ctx) execFault(s scenario, f *fault, base string) faultRun {
	dir, tmp := filepath.Join(base, "w"), filepath.Join(base, "t")
	os.MkdirAll(tmp, 0o777)
	os.Chmod(base, 0o755)
	os.Chmod(tmp, 0o777)
	writeFiles(dir, s.files)
	age(dir)
	outPath := filepath.Join(base, "out")
	tmpEnv := tmp
	name := filepath.Join(c.Bin, s.tool)
	args := s.args
	log := filepath.Join(base, "log")
	cred := false
	if f != nil {
		p := filepath.Join(dir, f.path)
		switch f.kind {
		case "strace":
			st := []string{"-f", "-y", "-o", log, "-e", "trace=" + f.op, "-e", "inject=" + f.op + ":error=" + f.err + ":when=" + f.when}
			if f.path == "" {
				st = append(st, "-P", outPath)
			} else {
				st = append(st, "-P", f.path, "-P", p, "-P", "./"+f.path)
			}
			args = append(append(st, name), args...)
			name = "strace"
		case "tmp-write":
			st := []string{"-f", "-y", "-o", log, "-e", "trace=write", "-e", "inject=write:error=" + f.err + ":when=" + f.when}
			args = append(append(st, name), args...)
			name = "strace"
		case "tmp-unlink":
			st := []string{"-f", "-y", "-o", log, "-e", "trace=unlinkat,unlink", "-e", "inject=unlinkat,unlink:error=EIO:when=" + f.when}
			args = append(append(st, name), args...)
			name = "strace"
		case "perm-read":
			os.Chmod(p, 0)
			cred = true
		case "perm-write":
			os.Chmod(p, 0o444)
			cred = true
		case "missing":
			os.Remove(p)
		case "dir":
			os.Remove(p)
			os.Mkdir(p, 0o755)
		case "loop":
			os.Remove(p)
			os.Symlink(filepath.Base(p), p)
		case "tmp-missing":
			tmpEnv = filepath.Join(base, "nosuch")
		}
	}
	if f != nil && strings.HasPrefix(f.kind, "perm") {
		filepath.Walk(base, func(p string, info os.FileInfo, err error) error {
			if err == nil {
				os.Lchown(p, 65534, 65534)
				if info.IsDir() {
					os.Chmod(p, 0o755)
				}
			}
			return nil
		})
		if f.kind == "perm-write" { // owner may not write it either
			os.Chmod(filepath.Join(dir, f.path), 0o444)
		}
	}
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(s.stdin)
	cmd.Env = []string{"HOME=" + tmpEnv, "TMPDIR=" + tmpEnv, "PATH=" + os.Getenv("PATH"), "PWD=" + dir, "LC_ALL=C"}
	if cred {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	var out *os.File
	if f != nil && f.kind == "full" {
		out, _ = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	} else {
		out, _ = os.Create(outPath)
	}
	var errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = out, &errb
	r := faultRun{result: result{cmd: s.tool + " " + strings.Join(s.args, " ")}}
	if err := cmd.Start(); err != nil {
		r.code, r.err = -1, err.Error()
		out.Close()
		return r
	}
	t := time.AfterFunc(120*time.Second, func() { r.hang = true; cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	out.Close()
	r.code = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.signal = ws.Signal().String()
	}
	if f == nil || f.kind != "full" {
		b, _ := os.ReadFile(outPath)
		r.out = string(b)
	}
	r.err = errb.String()
	if b, err := os.ReadFile(log); err == nil {
		r.hits = reInjected.FindAllString(string(b), -1)
	}
	filepath.Walk(tmp, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			r.left = append(r.left, filepath.Base(p))
		}
		return nil
	})
	if cred {
		filepath.Walk(base, func(p string, info os.FileInfo, err error) error {
			if err == nil && info.Mode().IsRegular() {
				os.Chmod(p, 0o644)
			}
			return nil
		})
	}
	r.after = snapshot(dir)
	return r
}

func checkC14(c *Ctx) {
	c.Rule("a distinct command with one failing operation, where the failure took place")
	c.Assume("faults: system calls failed by strace on one path (stat, open, read, write, close after writing), /dev/full, missing files, directories and symlink loops in place of files, files an unprivileged user may not read or write, missing or full TMPDIR; standard error itself works; directories to recurse into are readable")
	os.Chmod(c.Scratch, 0o755)
	os.Chmod(c.Bin, 0o755)
	strace := exec.Command("strace", "-o", filepath.Join(c.Scratch, "probe"), "-e", "inject=openat:error=EIO:when=500", "/bin/true").Run() == nil
	if !strace {
		c.Count("strace_not_usable", 1)
	}
	n := c.N(420, 12000)
	c.parallel(n, 8, 14, func(i int, r *rand.Rand) {
		var s scenario
		if r.Intn(5) < 3 {
			s = buildifierScenario(r)
		} else {
			s = buildozerScenario(r)
		}
		base := c.subdir(fmt.Sprintf("c14-%d", i))
		defer os.RemoveAll(base)
		good := c.execFault(s, nil, filepath.Join(base, "good"))
		if cr := good.crashed(); cr != "" {
			c.Violate("crash:"+cr, good.String(), describeFiles(s.files))
			return
		}
		if len(good.left) > 0 {
			c.Violate("temp-left-normally", good.String()+"\n"+strings.Join(good.left, " "), describeFiles(s.files))
		}
		// choose faults
		var faults []fault
		target := ""
		if len(s.targets) > 0 {
			target = s.targets[r.Intn(len(s.targets))]
		}
		writes := func(p string) bool { x := good.after[p]; return x.data != s.files[p] }
		var written []string
		for _, p := range s.targets {
			if writes(p) {
				written = append(written, p)
			}
		}
		sort.Strings(written)
		errs := func() string { return pick(r, "EIO", "EIO", "ENOSPC", "EACCES", "EPERM", "EINVAL") }
		if target != "" {
			faults = append(faults, fault{kind: pick(r, "missing", "dir", "loop", "perm-read"), path: target})
			if strace {
				faults = append(faults, fault{"strace", target, "read", pick(r, "EIO", "EISDIR"), pick(r, "1", "1+", "2")})
				faults = append(faults, fault{"strace", target, "openat", errs(), "1+"})
				if s.tool == "buildozer" {
					faults = append(faults, fault{"strace", target, "newfstatat", "EIO", "1+"})
				}
			}
		}
		if len(written) > 0 {
			w := written[r.Intn(len(written))]
			faults = append(faults, fault{kind: "perm-write", path: w})
			if strace {
				faults = append(faults, fault{"strace", w, "write", pick(r, "EIO", "ENOSPC", "EDQUOT", "EFBIG"), "1+"})
				faults = append(faults, fault{"strace", w, "openat", errs(), "2+"})
				faults = append(faults, fault{"strace", w, "close", pick(r, "EIO", "ENOSPC"), "1+"})
			}
		}
		if s.stdoutM && len(good.out) > 0 {
			faults = append(faults, fault{kind: "full"})
			if strace {
				faults = append(faults, fault{"strace", "", "write", pick(r, "EIO", "ENOSPC", "EPIPE"), "1+"})
			}
		}
		if s.special != "" {
			faults = append(faults, fault{kind: pick(r, "missing", "dir", "loop", "perm-read"), path: s.special})
			if strace {
				faults = append(faults, fault{"strace", s.special, pick(r, "openat", "read"), "EIO", "1+"})
			}
		}
		if s.mode == "diff" && s.tool == "buildifier" && good.out != "" {
			faults = append(faults, fault{kind: "tmp-missing"})
			if strace {
				faults = append(faults, fault{"tmp-write", "", "", "ENOSPC", fmt.Sprint(1 + r.Intn(4))}, fault{"tmp-unlink", "", "", "", fmt.Sprint(1 + r.Intn(2))})
			}
		}
		if !c.Thorough && len(faults) > 3 {
			r.Shuffle(len(faults), func(i, j int) { faults[i], faults[j] = faults[j], faults[i] })
			faults = faults[:3]
		}
		for k, f := range faults {
			f := f
			c.faultCase(s, f, good, filepath.Join(base, fmt.Sprint(k)))
		}
	})
}

func (c *Ctx) faultCase(s scenario, f fault, good faultRun, base string) {
	run := c.execFault(s, &f, base)
	in := fmt.Sprintf("fault: %s\n$ %s\nstdin %q\n%s", f, run.cmd, s.stdin, describeFiles(s.files))
	hit := true
	op := f.op
	readFail := true
	switch f.kind {
	case "strace":
		hit = false
		for _, h := range run.hits {
			if f.op == "close" && f.path != "" {
				// closing after reading may fail without harm
				hit = hit || len(run.hits) > 1
				continue
			}
			hit = true
			if f.op == "write" || f.op == "openat" && strings.Contains(h, "O_WRONLY") || f.path == "" {
				readFail = false
			}
		}
		if f.op == "close" {
			readFail = false
		}
		if f.op == "openat" && f.when == "2+" {
			readFail = false
			hit = len(run.hits) > 0
			for _, h := range run.hits {
				if !strings.Contains(h, "O_WRONLY") {
					// Some other reader of the file (linting a module reads its root file), the first one may be either.
					c.Count("fault_ambiguous_reader", 1)
					return
				}
			}
		}
	case "tmp-write":
		hit = false
		for _, h := range run.hits {
			if strings.Contains(h, "buildifier-tmp-") {
				hit = true
			} else {
				c.Count("fault_elsewhere", 1)
				return // standard error or an internal descriptor
			}
		}
		readFail = false
	case "tmp-unlink":
		if len(run.hits) == 0 {
			return
		}
		if len(run.left) > len(run.hits) {
			c.Violate("temp-left-after-unlink", fmt.Sprintf("%d removals failed, left: %v\n%s", len(run.hits), run.left, run), in)
		}
		c.Eval("unlink:" + in)
		c.Count("fault_temp_unlink", 1)
		return
	case "perm-write", "full", "tmp-missing":
		readFail = false
	}
	if !hit {
		c.Count("fault_not_reached", 1)
		if f.kind == "strace" && (run.code != good.code) {
			c.Count("exit_differs_without_fault", 1)
		}
		return
	}
	c.Count("fault_"+s.tool+"_"+f.kind+"_"+op, 1)
	c.Eval(in)
	if c.R != nil && f.kind == "strace" {
		c.Sample(fmt.Sprintf("%s; %s -> exit %d", f, run.cmd, run.code))
	}
	if cr := run.crashed(); cr != "" && run.signal != "broken pipe" {
		c.Violate("crash:"+cr, run.String(), in)
		return
	}
	id := s.tool + ":" + f.kind + ":" + f.op
	if f.path == "" && f.kind == "strace" {
		id += ":stdout"
	}
	if run.code == 0 {
		c.Violate("exit-zero:"+id+":"+s.mode, run.String()+"\n"+strings.Join(run.hits, "\n"), in)
	}
	if run.err == "" && run.signal == "" {
		c.Violate("silent:"+id+":"+s.mode, run.String(), in)
	}
	if len(run.left) > 0 {
		c.Violate("temp-left:"+id, strings.Join(run.left, " ")+"\n"+run.String(), in)
	}
	// the other files are processed as usual
	for p, before := range s.files {
		got, want := run.after[p], good.after[p]
		if p == f.path || s.special == f.path && f.path != "" {
			want = fstate{data: before}
			switch f.kind {
			case "missing", "dir", "loop":
				if p == f.path {
					continue
				}
			}
			if p == f.path && !readFail {
				continue // writing it failed: its content is not specified
			}
		}
		if run.signal == "broken pipe" {
			continue
		}
		if got.data != want.data {
			cl := "other-file:"
			if p == f.path {
				cl = "failed-file-written:"
			}
			c.Violate(cl+id+":"+s.mode, p+":\n"+lineDiff(want.data, got.data)+"\n"+run.String(), in)
		}
	}
	for p := range run.after {
		if _, ok := good.after[p]; !ok {
			c.Violate("file-created:"+id, p+"\n"+run.String(), in)
		}
	}
	// the failed file is not reported as done
	if f.path != "" && f.path != s.special {
		for _, l := range strings.Split(run.err, "\n") {
			if l == "fixed "+f.path || strings.HasPrefix(l, "fixed ") && strings.HasSuffix(l, "/w/"+f.path) {
				c.Violate("reported-fixed:"+id, run.String(), in)
			}
		}
		if !strings.Contains(run.err, filepath.Base(filepath.Dir(f.path))) && !strings.Contains(run.err, f.path) {
			c.Violate("name-not-reported:"+id, run.String(), in)
		}
		// messages about the other files are the same
		if s.mode == "fix" || s.mode == "edit" || s.mode == "file" {
			for _, l := range strings.Split(good.err, "\n") {
				if strings.HasPrefix(l, "fixed ") && !strings.HasSuffix(l, f.path) {
					l = strings.ReplaceAll(l, "/good/w/", "/"+filepath.Base(base)+"/w/")
					if !strings.Contains(run.err, l+"\n") {
						c.Violate("other-not-fixed:"+id, l+"\n"+run.String(), in)
					}
				}
			}
		}
		if s.json {
			var d struct {
				Success bool
				Files   []struct {
					Filename         string
					Formatted, Valid bool
				}
			}
			if err := json.Unmarshal([]byte(run.out), &d); err != nil {
				c.Violate("json-broken:"+id, err.Error()+"\n"+run.String(), in)
				return
			}
			if d.Success {
				c.Violate("json-success:"+id, run.String(), in)
			}
			seen := 0
			for _, x := range d.Files {
				if x.Filename == f.path && x.Valid {
					c.Violate("json-done:"+id, run.String(), in)
				}
				if x.Filename != f.path {
					seen++
				}
			}
			if seen != len(s.targets)-1 {
				c.Violate("json-others:"+id, run.String(), in)
			}
		}
		// output of the others is complete
		if s.stdoutM && (s.mode == "print" && s.tool == "buildozer" || s.mode == "stdout" || s.mode == "mix") {
			for _, l := range strings.Split(good.out, "\n") {
				if strings.Contains(l, "name = \"a") || strings.HasPrefix(l, "a") {
					me := strings.TrimPrefix(strings.Split(f.path, "/")[0], "p")
					if strings.Contains(l, "a"+me) {
						continue
					}
					if !strings.Contains(run.out, l) {
						c.Violate("other-output:"+id+":"+s.mode, l+"\n"+run.String(), in)
					}
				}
			}
		}
	}
}
