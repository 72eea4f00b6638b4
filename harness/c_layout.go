package main

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/wspace"
)

func init() {
	checks["C30"] = checkLayouts
	checks["C42"] = checkWorkspaceRoot
}

// layout is a directory tree with workspaces and packages.
type layout struct {
	root  string // absolute
	dirs  []string
	files map[string]string // relative path -> contents
	odd   map[string]bool   // directories that have the name of a marker or build file
	exec  map[string]bool
	links map[string]string
}

var wsMarkers = []string{"WORKSPACE", "WORKSPACE.bazel", "MODULE.bazel", "REPO.bazel", ".buckconfig"}

func buildText(dir string) string {
	base := path.Base(dir)
	if dir == "" {
		base = "rootrule"
	}
	return fmt.Sprintf("cc_library(\n    name = \"t\",\n    deps = [],\n)\n\ncc_library(name = %q)\n", base)
}

func genLayout(r *rand.Rand, root string, forWspace bool) *layout {
	l := &layout{root: root, files: map[string]string{}, odd: map[string]bool{}, exec: map[string]bool{}, links: map[string]string{}}
	names := []string{"a", "b", "a.b", "pkg", "x-y", "BUILDS", "src"}
	if r.Intn(3) == 0 {
		names = append(names, "bazel-x", "bazel-out", ".hid", "_p", "node_modules", "external", "testdata", "vendor", "third_party", ".git", "BAZEL-bin", "a~")
	}
	l.dirs = []string{""}
	for n := 2 + r.Intn(8); n > 0; n-- {
		d := path.Join(l.dirs[r.Intn(len(l.dirs))], pick(r, names...))
		if strings.Count(d, "/") < 4 {
			l.dirs = append(l.dirs, d)
		}
	}
	l.dirs = setOfList(l.dirs)
	l.files[pick(r, wsMarkers...)] = ""
	for _, d := range l.dirs {
		p := func(n string) string { return path.Join(d, n) }
		switch r.Intn(7) {
		case 0, 1:
			l.files[p("BUILD")] = buildText(d)
		case 2, 3:
			l.files[p("BUILD.bazel")] = buildText(d)
		case 4, 5:
			l.files[p("BUILD")] = buildText(d)
			l.files[p("BUILD.bazel")] = buildText(d)
		}
		if d != "" && r.Intn(7) == 0 { // a nested workspace
			m := pick(r, wsMarkers...)
			if forWspace && r.Intn(4) == 0 {
				l.odd[p(m)] = true
			} else {
				l.files[p(m)] = ""
			}
		}
		if forWspace && r.Intn(8) == 0 {
			l.files[p("pants")] = "#!/bin/sh\n"
			l.exec[p("pants")] = r.Intn(2) == 0
		}
		if r.Intn(8) == 0 {
			n := pick(r, "BUILD", "BUILD.bazel")
			if _, ok := l.files[p(n)]; !ok {
				l.odd[p(n)] = true
			}
		}
		if r.Intn(4) == 0 {
			l.files[p(pick(r, "foo.BUILD", "defs.bzl", "BUILD.tpl", "WORKSPACE.old"))] = buildText(d)
		}
		l.files[p("src.txt")] = "x\n"
	}
	return l
}

func setOfList(l []string) []string {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return sortedKeys(m)
}

func (l *layout) write() {
	for _, d := range l.dirs {
		os.MkdirAll(filepath.Join(l.root, d), 0o755)
	}
	for d := range l.odd {
		os.MkdirAll(filepath.Join(l.root, d), 0o755)
	}
	writeFiles(l.root, l.files)
	for f, x := range l.exec {
		if x {
			os.Chmod(filepath.Join(l.root, f), 0o755)
		}
	}
	age(l.root)
}

func (l *layout) String() string {
	var s []string
	for f := range l.files {
		if !strings.HasSuffix(f, "src.txt") {
			if l.exec[f] {
				f += "*"
			}
			s = append(s, f)
		}
	}
	for d := range l.odd {
		s = append(s, d+"/")
	}
	for d, t := range l.links {
		s = append(s, d+" -> "+t)
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// wsRoot is the nearest enclosing workspace of a directory, relative to the
// tree; ok is false outside of any workspace.
func (l *layout) wsRoot(dir string) (string, bool) {
	for {
		for _, m := range wsMarkers {
			if _, ok := l.files[path.Join(dir, m)]; ok {
				return dir, true
			}
		}
		if _, ok := l.files[path.Join(dir, "pants")]; ok && l.exec[path.Join(dir, "pants")] {
			return dir, true
		}
		if dir == "" {
			return "", false
		}
		dir = path.Dir(dir)
		if dir == "." {
			dir = ""
		}
	}
}

// buildFileOf is the build file of a package directory.
func (l *layout) buildFileOf(dir string) string {
	for _, n := range []string{"BUILD.bazel", "BUILD"} {
		if _, ok := l.files[path.Join(dir, n)]; ok {
			return path.Join(dir, n)
		}
	}
	return ""
}

func relTo(base, dir string) (string, bool) {
	switch {
	case base == "":
		return dir, true
	case dir == base:
		return "", true
	case strings.HasPrefix(dir, base+"/"):
		return dir[len(base)+1:], true
	}
	return "", false
}

// ---- C30 ----

func checkLayouts(c *Ctx) {
	c.Rule("distinct = (layout, working directory, labels)")
	c.Assume("relative labels are relative to the working directory, absolute ones to the workspace enclosing it or -root_dir; a label naming one of the build files of a package addresses the package; symbolic links are not used")
	c.parallel(c.N(5000, 120000), 8, 3000, func(i int, r *rand.Rand) {
		base := filepath.Join(c.Scratch, fmt.Sprintf("l%d", r.Int63()))
		defer os.RemoveAll(base)
		l := genLayout(r, filepath.Join(base, "w"), false)
		repos := map[string]string{}
		if r.Intn(3) == 0 { // external repositories with build files of this workspace
			ws := ""
			for k, d := range []string{"a", "a.b", ""} {
				f := path.Join(d, "ext.BUILD")
				name := fmt.Sprintf("ext%d", k)
				kind := pick(r, "new_local_repository", "new_git_repository", "new_http_archive", "git_repository", "other_repository")
				ws += fmt.Sprintf("%s(\n    name = %q,\n    build_file = %q,\n)\n\n", kind, name, pick(r, "//", "//", "@//")+d+":ext.BUILD")
				l.files[f] = buildText(d)
				if kind != "other_repository" {
					repos[name] = f
				}
				if d != "" {
					l.dirs = append(l.dirs, d)
				}
			}
			l.files["WORKSPACE"] = ws
			l.dirs = setOfList(l.dirs)
		}
		l.write()
		tmp := filepath.Join(base, "t")
		os.MkdirAll(tmp, 0o755)
		cwd := l.dirs[r.Intn(len(l.dirs))]
		start := cwd
		var flags []string
		if r.Intn(4) == 0 {
			start = l.dirs[r.Intn(len(l.dirs))]
			rd := filepath.Join(l.root, start)
			if r.Intn(3) == 0 {
				rd, _ = filepath.Rel(filepath.Join(l.root, cwd), rd)
				if r.Intn(2) == 0 {
					rd += "/"
				}
			}
			flags = append(flags, "-root_dir="+rd)
		}
		root, _ := l.wsRoot(start)
		relOK := len(flags) == 0
		cmds := []string{"add tags zz_mark"}
		fail := false
		want := map[string]string{} // build file -> package
		var labels []string
		rule := "t"
		for n := 1 + r.Intn(3)/2; n > 0; n-- {
			d := l.dirs[r.Intn(len(l.dirs))]
			switch k := r.Intn(14); {
			case k < 4: // absolute
				p, ok := relTo(root, d)
				if !ok {
					continue
				}
				pre := pick(r, "//", "//", "//", "@//", "@@//")
				if r.Intn(4) == 0 && p != "" {
					labels = append(labels, pre+p) // the rule named like the package
					rule = ""
				} else {
					labels = append(labels, pre+p+":t")
				}
				if f := l.buildFileOf(d); f != "" {
					want[f] = p
				} else {
					fail = true
				}
			case k < 7 && relOK: // relative to the working directory
				p, ok := relTo(cwd, d)
				if !ok {
					if r.Intn(2) == 0 {
						continue
					}
					p, _ = filepath.Rel("/"+cwd, "/"+d)
				} else if r.Intn(5) == 0 && p != "" {
					p = "./" + p
				}
				wp, ok := relTo(root, d)
				if !ok {
					continue
				}
				lab := p + ":t"
				if p == "" && r.Intn(3) == 0 {
					lab = "t"
				}
				labels = append(labels, lab)
				if f := l.buildFileOf(d); f != "" {
					want[f] = wp
				} else {
					fail = true
				}
			case k < 10: // a file
				var fs []string
				for f := range l.files {
					if !strings.HasSuffix(f, "src.txt") && l.files[f] != "" && !strings.HasPrefix(path.Base(f), "WORKSPACE") {
						fs = append(fs, f)
					}
				}
				sort.Strings(fs)
				if len(fs) == 0 {
					continue
				}
				f := fs[r.Intn(len(fs))]
				fd := path.Dir(f)
				if fd == "." {
					fd = ""
				}
				pk, ok := relTo(root, fd)
				if !ok {
					continue
				}
				p, _ := relTo(root, f)
				lab := "//" + p
				if relOK && r.Intn(3) == 0 {
					q, ok := relTo(cwd, f)
					if !ok {
						continue
					}
					lab = q
				}
				if b := path.Base(f); b == "BUILD" || b == "BUILD.bazel" {
					f = l.buildFileOf(fd)
					if r.Intn(4) == 0 && strings.Contains(lab[1:], "/") && strings.HasPrefix(lab, "//") && lab != "//BUILD" && lab != "//BUILD.bazel" && len(labels) == 0 && n == 1 {
						// Without a rule: the package declaration.
						cmds = []string{"set default_visibility zz_mark"}
						labels = append(labels, lab)
						want[f] = pk
						rule = "__pkg__"
						continue
					}
				}
				labels = append(labels, lab+":t")
				want[f] = pk
			case k < 12: // everything below
				p, ok := relTo(root, d)
				if !ok {
					continue
				}
				lab := "//" + path.Join(p, "...") + ":*"
				if relOK && r.Intn(3) == 0 {
					q, ok := relTo(cwd, d)
					if !ok {
						continue
					}
					lab = path.Join(q, "...") + ":*"
				}
				labels = append(labels, lab)
				for _, e := range l.dirs {
					if _, ok := relTo(d, e); ok {
						if f := l.buildFileOf(e); f != "" {
							sub, _ := l.wsRoot(e)
							want[f], _ = relTo(sub, e)
							if sub != root {
								want[f] = "\x00" // another workspace
							}
						}
					}
				}
				rule = ""
			case k == 12 && len(repos) > 0 && root == "":
				name := fmt.Sprintf("ext%d", r.Intn(3))
				labels = append(labels, pick(r, "@", "@@")+name+"//"+pick(r, "", "sub", "x/y")+":t")
				if f := repos[name]; f != "" {
					want[f] = "\x00"
				} else {
					fail = true
				}
			default:
				p, ok := relTo(root, d)
				if !ok {
					continue
				}
				labels = append(labels, pick(r, "//"+path.Join(p, "nodir")+":t", "@nosuchrepo//"+p+":t", "//"+path.Join(p, "src.txt2")+":t", "//"+path.Join(p, "BUILD.tmpl")+":t"))
				fail = true
			}
		}
		if len(labels) == 0 {
			return
		}
		in := fmt.Sprintf("in %q: buildozer %s %q %q\nfiles:\n%s", cwd, strings.Join(flags, " "), cmds, labels, l)
		if x := l.files["WORKSPACE"]; x != "" {
			in += "\nWORKSPACE:\n" + x
		}
		c.Case(in)
		before := snapshot(l.root)
		// The package shows in labels.
		if len(labels) == 1 && len(want) == 1 && rule == "t" && !fail {
			for f, p := range want {
				if p != "\x00" {
					res := c.runBin(filepath.Join(l.root, cwd), tmp, "", nil, "buildozer", append(flags, "print label path", labels[0])...)
					if w := "//" + p + ":t " + filepath.Join(l.root, f); strings.TrimSpace(res.out) != w {
						c.Violate("package", fmt.Sprintf("want %q\n%s", w, res), in)
						return
					}
					cmds = append(cmds, "add deps //"+p+":zz_dep")
				}
			}
		}
		res := c.runBin(filepath.Join(l.root, cwd), tmp, "", nil, "buildozer", append(append(flags, cmds...), labels...)...)
		after := snapshot(l.root)
		c.Count("runs", 1)
		if x := res.crashed(); x != "" {
			c.Violate(x, res.String(), in)
			return
		}
		got := map[string]bool{}
		for _, d := range snapDiff(before, after) {
			got[d[strings.Index(d, " ")+1:]] = true
		}
		for f := range got {
			if _, ok := want[f]; !ok {
				c.Violate("wrong-file", fmt.Sprintf("%s was edited, should be %q\n%s", f, sortedKeys(setOfMap(want)), res), in)
				return
			}
		}
		for f := range want {
			if !got[f] {
				c.Violate("not-edited", fmt.Sprintf("%s was not edited\n%s", f, res), in)
				return
			}
			marks := strings.Count(after[f].data, "zz_mark")
			if n := strings.Count(before[f].data, "cc_library"); strings.Contains(fmt.Sprint(labels), "...") && marks > n {
				c.Violate("twice", fmt.Sprintf("%s: %d marks\n%s", f, marks, after[f].data), in)
				return
			}
			if len(cmds) == 2 && !strings.Contains(after[f].data, "\":zz_dep\"") {
				c.Violate("package", "the label of the own package was not shortened:\n"+after[f].data, in)
				return
			}
		}
		code := 0
		if fail {
			code = 2
		}
		if res.code != code {
			c.Violate("exit", fmt.Sprintf("want %d\n%s", code, res), in)
			return
		}
		c.Count("files edited", len(got))
		c.Eval(in)
		if i < 3 {
			c.Sample(in)
		}
	})
}

func setOfMap(m map[string]string) map[string]bool {
	s := map[string]bool{}
	for k := range m {
		s[k] = true
	}
	return s
}

// ---- C42 ----

func checkWorkspaceRoot(c *Ctx) {
	c.Rule("distinct = (layout, path)")
	c.Assume("paths are absolute (as the tools pass them); without a build file between the file and its workspace root, the package is the root's; nothing above the scratch directory is a workspace")
	c.parallel(c.N(9000, 200000), 8, 4200, func(i int, r *rand.Rand) {
		base := filepath.Join(c.Scratch, fmt.Sprintf("l%d", r.Int63()))
		defer os.RemoveAll(base)
		l := genLayout(r, filepath.Join(base, "w"), true)
		if r.Intn(4) == 0 { // no workspace at the top
			for _, m := range wsMarkers {
				delete(l.files, m)
			}
			delete(l.exec, "pants")
			delete(l.files, "pants")
		}
		if r.Intn(3) == 0 {
			d := l.dirs[r.Intn(len(l.dirs))]
			f := path.Join(d, pick(r, "WORKSPACE", "BUILD", "MODULE.bazel"))
			_, used := l.files[f]
			if !used && !l.odd[f] {
				l.links[f] = "src.txt" // a link to a file counts as a file
				l.files[f] = "\x00"
			}
		}
		files := map[string]string{}
		for f, s := range l.files {
			if s != "\x00" {
				files[f] = s
			}
		}
		all := l.files
		l.files = files
		l.write()
		l.files = all
		for f, t := range l.links {
			os.Symlink(t, filepath.Join(l.root, f))
		}
		for k := 0; k < 6; k++ {
			d := l.dirs[r.Intn(len(l.dirs))]
			name := pick(r, "src.txt", "BUILD", "BUILD.bazel", "defs.bzl", "new.bzl", "WORKSPACE", "MODULE.bazel", "nodir/x.bzl")
			rel := path.Join(d, name)
			// Another spelling of the same path.
			sp := filepath.Join(l.root, rel)
			switch r.Intn(5) {
			case 0:
				sp = l.root + "/./" + rel
			case 1:
				sp = l.root + "//" + strings.ReplaceAll(rel, "/", "/./")
			case 2:
				sp = l.root + "/../" + filepath.Base(l.root) + "/" + rel
			}
			in := fmt.Sprintf("path %s (%s)\nfiles:\n%s", rel, sp, l)
			c.Case(in)
			fd := path.Dir(rel)
			if fd == "." {
				fd = ""
			}
			root, ok := l.wsRoot(fd)
			wroot, wpkg, wlabel := "", "", ""
			if ok {
				wroot = filepath.Join(l.root, root)
				pd := fd
				for pd != root && l.buildFileOf(pd) == "" {
					pd = path.Dir(pd)
					if pd == "." {
						pd = ""
					}
				}
				if l.buildFileOf(pd) == "" {
					pd = root
				}
				wpkg, _ = relTo(root, pd)
				wlabel, _ = relTo(pd, rel)
			}
			g1, g2, g3 := wspace.SplitFilePath(sp)
			if filepath.Clean(g1) != filepath.Clean(wroot) || g2 != wpkg || g3 != wlabel {
				c.Violate("split", fmt.Sprintf("got root %q, package %q, label %q; want %q, %q, %q", g1, g2, g3, wroot, wpkg, wlabel), in)
				return
			}
			// The root from a directory.
			if st, err := os.Stat(filepath.Join(l.root, fd)); err == nil && st.IsDir() {
				ds := filepath.Join(l.root, fd) + pick(r, "", "", "/", "/.", "//")
				r1, r2 := wspace.FindWorkspaceRoot(ds)
				wrest := ""
				if ok {
					wrest, _ = relTo(root, fd)
				}
				if ok {
					r1, r2 = filepath.Clean(r1), path.Clean("/" + r2)[1:]
				}
				if r1 != wroot || r2 != wrest {
					c.Violate("root", fmt.Sprintf("FindWorkspaceRoot(%q) = %q, %q; want %q, %q", ds, r1, r2, wroot, wrest), in)
					return
				}
			}
			c.Count("paths", 1)
			if ok {
				c.Count("paths in a workspace", 1)
			}
			c.Eval(in)
		}
		if i < 2 {
			c.Sample(l.String())
		}
	})
}
