package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/edit"
)

func init() { checks["C31"] = checkUseRepo }

// modUsage is one use_extension assignment.
type modUsage struct {
	proxy    string
	ext      string // normalised label + name
	dev, iso bool
	index    int
}

// modImport is one repository of a use_repo call.
type modImport struct{ local, repo string }

type modModel struct {
	name    string
	usages  []modUsage
	imports map[string][]modImport // by proxy
	calls   map[string][]int       // use_repo statements by proxy
	st      []*N

	repeated []string
}

func (m *modModel) key(u modUsage) string {
	k := fmt.Sprintf("%s dev=%v", u.ext, u.dev)
	if u.iso {
		k += " isolated " + u.proxy
	}
	return k
}

// extNorm gives a label one spelling; the module's own name is an alias of its
// own repository.
func extNorm(s, module string) string {
	repo, p, t := refParse(s, "")
	if repo == "" {
		repo = module
	}
	return repo + "//" + p + ":" + t
}

func modRead(text string) (*modModel, error) {
	n, err := starParse(text)
	if err != nil {
		return nil, err
	}
	m := &modModel{imports: map[string][]modImport{}, calls: map[string][]int{}, st: n.C}
	str := func(n *N) string {
		if n != nil && n.K == "Str" {
			return n.S
		}
		return ""
	}
	for _, s := range n.C {
		if callKind(s) == "module" {
			if v := str(attrOf(s, "repo_name")); v != "" {
				m.name = v
			} else if v := str(attrOf(s, "name")); v != "" {
				m.name = v
			}
		}
	}
	for i, s := range n.C {
		if s.K == "Assign" && s.C[0].K == "Id" && callKind(s.C[1]) == "use_extension" {
			a := s.C[1].C[1:]
			if len(a) < 2 || a[0].K != "Str" || a[1].K != "Str" {
				continue
			}
			is := func(k string) bool {
				v := attrOf(s.C[1], k)
				return v != nil && !(v.K == "Id" && v.S == "False")
			}
			m.usages = append(m.usages, modUsage{s.C[0].S, extNorm(a[0].S, m.name) + "%" + a[1].S, is("dev_dependency"), is("isolate"), i})
		}
		if callKind(s) == "use_repo" && len(s.C) > 1 && s.C[1].K == "Id" {
			p := s.C[1].S
			m.calls[p] = append(m.calls[p], i)
			named := false
			for _, a := range s.C[2:] {
				if a.K == "Named" {
					named = true
				} else if named {
					return nil, fmt.Errorf("a positional argument follows a named one in %s", s)
				}
			}
			seen := map[string]bool{} // formatting drops what is repeated in a call
			for _, a := range s.C[2:] {
				if seen[a.String()] {
					if a.K == "Str" {
						m.repeated = append(m.repeated, a.S)
					}
					continue
				}
				seen[a.String()] = true
				switch {
				case a.K == "Str":
					m.imports[p] = append(m.imports[p], modImport{a.S, a.S})
				case a.K == "Named" && a.C[0].K == "Str":
					m.imports[p] = append(m.imports[p], modImport{a.S, a.C[0].S})
				default:
					m.imports[p] = append(m.imports[p], modImport{"?" + a.String(), "?" + a.String()})
				}
			}
		}
	}
	return m, nil
}

// state lists what each extension usage imports, sorted.
func (m *modModel) state() map[string][]string {
	r := map[string][]string{}
	seen := map[string]bool{}
	for _, u := range m.usages {
		k := m.key(u)
		if r[k] == nil {
			r[k] = []string{}
		}
		if !seen[u.proxy] {
			seen[u.proxy] = true
			for _, im := range m.imports[u.proxy] {
				r[k] = append(r[k], im.local+"="+im.repo)
			}
		}
	}
	for p, l := range m.imports {
		if !seen[p] {
			for _, im := range l {
				r["? "+p] = append(r["? "+p], im.local+"="+im.repo)
			}
		}
	}
	for _, l := range r {
		sort.Strings(l)
	}
	return r
}

func stateStr(s map[string][]string) string {
	var l []string
	for k, v := range s {
		if strings.HasPrefix(k, "? ") && len(v) == 0 {
			continue
		}
		l = append(l, k+": "+strings.Join(v, " "))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

var modComment = regexp.MustCompile(`#c\d+`)

type modGen struct {
	r    *rand.Rand
	nc   int
	mod  string
	exts [][2]string
}

func (g *modGen) com() string {
	g.nc++
	return fmt.Sprintf("#c%d", g.nc)
}

// spell gives another spelling of an extension label.
func (g *modGen) spell(l string) string {
	r := g.r
	repo, p, t := refParse(l, "")
	pre := "@" + repo
	if repo == "" {
		pre = pick(g.r, "", "@")
		if g.mod != "" && g.r.Intn(2) == 0 {
			pre = "@" + g.mod
		}
	}
	if p == t && r.Intn(2) == 0 {
		return pre + "//" + p
	}
	if p == "" && repo == t && repo != "" && r.Intn(2) == 0 {
		return "@" + repo
	}
	return pre + "//" + p + ":" + t
}

func (g *modGen) repos(n int) (l []string) {
	for ; n > 0; n-- {
		l = append(l, pick(g.r, "r1", "r2", "r3", "com_foo", "b", "a", "zed.x", "R-4", "my_repo", "r1x"))
	}
	return
}

func (g *modGen) useRepo(proxy string) string {
	r := g.r
	var args []string
	seen := map[string]bool{}
	for _, x := range g.repos(r.Intn(5)) {
		if seen[x] && r.Intn(8) > 0 {
			continue
		}
		seen[x] = true
		if r.Intn(4) == 0 {
			args = append(args, fmt.Sprintf("l_%d = %q", r.Intn(9), x))
		} else {
			args = append(args, fmt.Sprintf("%q", x))
		}
	}
	sort.SliceStable(args, func(i, j int) bool { return args[i][0] == '"' && args[j][0] != '"' })
	pre := ""
	if r.Intn(4) == 0 {
		pre = g.com() + "\n"
	}
	if r.Intn(10) == 0 {
		pre += "# do not sort\n"
	}
	if r.Intn(3) > 0 {
		return pre + "use_repo(" + strings.Join(append([]string{proxy}, args...), ", ") + ")"
	}
	s := pre + "use_repo(\n    " + proxy + ",\n"
	for _, a := range args {
		if r.Intn(6) == 0 {
			s += "    " + g.com() + "\n"
		}
		s += "    " + a + ","
		if r.Intn(6) == 0 {
			s += "  " + g.com()
		}
		s += "\n"
	}
	if r.Intn(8) == 0 {
		s += "    " + g.com() + "\n"
	}
	return s + ")"
}

func (g *modGen) file() string {
	r := g.r
	var st []string
	switch r.Intn(5) {
	case 0:
	case 1:
		g.mod = "mymod"
		st = append(st, `module(name = "mymod", version = "1")`)
	case 2:
		g.mod = "apparent"
		st = append(st, `module(name = "mymod", repo_name = "apparent")`)
	default:
		g.mod = "mymod"
		st = append(st, `module(name = "mymod")`)
	}
	exts := [][2]string{{"//:ext.bzl", "ext"}, {"//:ext.bzl", "ext2"}, {"@rules_go//go:extensions.bzl", "go_deps"}, {"@other//:ext.bzl", "ext"}, {"//tools:ext.bzl", "ext"}, {"@mymod//:ext.bzl", "ext"}, {"//tools:tools", "ext"}, {"@other//:other", "ext"}}
	for i := 1 + r.Intn(3); i > 0; i-- {
		g.exts = append(g.exts, exts[r.Intn(len(exts))])
	}
	np := 1 + r.Intn(4)
	var proxies []string
	for i := 0; i < np; i++ {
		e := g.exts[r.Intn(len(g.exts))]
		p := pick(r, "ext", "go_deps", "dev", "p") + fmt.Sprint(i)
		proxies = append(proxies, p)
		kw := ""
		if r.Intn(3) == 0 {
			kw += ", dev_dependency = " + pick(r, "True", "True", "False")
		}
		if r.Intn(5) == 0 {
			kw += ", isolate = " + pick(r, "True", "True", "False")
		}
		if r.Intn(12) == 0 {
			kw = ", " + pick(r, "True", "x", "f(1)") + kw
		}
		s := fmt.Sprintf("%s = use_extension(%q, %q%s)", p, g.spell(e[0]), e[1], kw)
		if r.Intn(4) == 0 {
			s += "  " + g.com()
		}
		st = append(st, s)
		for j := r.Intn(3); j > 0; j-- {
			p := proxies[r.Intn(len(proxies))]
			st = append(st, fmt.Sprintf("%s.%s(name = %q)", p, pick(r, "from_file", "tag", "use_repo"), pick(r, "x", "y")))
		}
		for j := []int{0, 1, 1, 1, 2}[r.Intn(5)]; j > 0; j-- {
			st = append(st, g.useRepo(proxies[r.Intn(len(proxies))]))
		}
		if r.Intn(4) == 0 {
			if r.Intn(2) == 0 { // look-alikes
				st = append(st, pick(r, fmt.Sprintf("dec%d = load_extension(%q, %q)", i, g.spell(e[0]), e[1]), fmt.Sprintf("override_repo(%s, a = \"b\")", p), fmt.Sprintf("inject_repo(%s, \"a\", c = \"d\")", p),
					fmt.Sprintf("dec%d = use_repo_rule(%q, %q)", i, g.spell(e[0]), e[1]), fmt.Sprintf("use_repo_rule(%s, \"a\")", p)))
				continue
			}
			st = append(st, pick(r, `bazel_dep(name = "rules_go", version = "1.2")`, `bazel_dep(name = "x", dev_dependency = True)`, `register_toolchains("//:all")`, `v = 1`, `include("//:x.MODULE.bazel")`, `foo = use_repo_rule("//:x.bzl", "foo")`))
		}
	}
	s := ""
	for i, x := range st {
		if i > 0 && r.Intn(3) == 0 {
			s += "\n"
		}
		if r.Intn(12) == 0 {
			s += g.com() + "\n\n"
		}
		s += x + "\n"
	}
	return s
}

func checkUseRepo(c *Ctx) {
	c.Rule("distinct = (commands, forms of address, number of proxies and use_repo calls of the usage, outcome)")
	c.Assume("use_extension with the .bzl file and the name as literal positional arguments, use_repo with literal strings; extension labels on the command line begin with @ or //")
	c.parallel(c.N(16000, 400000), 8, 3100, func(i int, r *rand.Rand) {
		g := &modGen{r: r}
		text := g.file()
		m, err := modRead(text)
		if err != nil {
			c.Inconclusive("generator: %v\n%s", err, text)
			return
		}
		want := m.state()
		touched := map[string]bool{}
		removed := false
		var cmds []string
		fail := false
		shape := ""
		added := map[string]map[string]bool{}
		for n := 1 + r.Intn(3); n > 0 && !fail; n-- {
			verb := pick(r, "use_repo_add", "use_repo_add", "use_repo_remove")
			w := []string{verb}
			var key string
			ok := false
			if r.Intn(2) == 0 && len(m.usages) > 0 {
				u := m.usages[r.Intn(len(m.usages))]
				p := u.proxy
				if r.Intn(25) == 0 {
					p = "nosuch"
				} else {
					key, ok = m.key(u), true
				}
				w = append(w, p)
				shape += "p"
			} else {
				e := g.exts[r.Intn(len(g.exts))]
				dev := r.Intn(3) == 0
				if dev {
					w = append(w, "dev")
				}
				w = append(w, g.spell(e[0]), e[1])
				shape += "l"
				for _, u := range m.usages {
					if u.ext == extNorm(e[0], m.name)+"%"+e[1] && u.dev == dev && !u.iso {
						key, ok = m.key(u), true
					}
				}
			}
			repos := g.repos(1 + r.Intn(3))
			w = append(w, repos...)
			cmds = append(cmds, strings.Join(w, " "))
			if !ok {
				fail = true
				break
			}
			touched[key] = true
			have := map[string]bool{}
			for _, x := range want[key] {
				have[x[strings.Index(x, "=")+1:]] = true
			}
			if verb == "use_repo_add" {
				for _, x := range repos {
					if !have[x] {
						want[key] = append(want[key], x+"="+x)
						have[x] = true
						if added[key] == nil {
							added[key] = map[string]bool{}
						}
						added[key][x] = true
					}
				}
				shape += "+"
			} else {
				rm := map[string]bool{}
				for _, x := range repos {
					rm[x] = true
					delete(added[key], x)
				}
				keep := []string{}
				for _, x := range want[key] {
					if !rm[x[strings.Index(x, "=")+1:]] {
						keep = append(keep, x)
					} else {
						removed = true
					}
				}
				want[key] = keep
				shape += "-"
			}
			sort.Strings(want[key])
		}
		name := pick(r, "MODULE.bazel", "MODULE.bazel", "MODULE.bazel", "x.MODULE.bazel")
		in := fmt.Sprintf("%s, commands %q\n%s", name, cmds, text)
		c.Case(in)
		ws := newBzWS(filepath.Join(c.Scratch, fmt.Sprintf("ws%d", r.Int63())))
		defer os.RemoveAll(ws.root)
		run := func(cmds []string) (bzRun, string) {
			opts := edit.NewOpts()
			opts.RootDir = ws.root
			res := runBz(opts, append(append([]string{}, cmds...), "//"+name+":"+pick(r, "all", "__pkg__", "all")))
			b, _ := os.ReadFile(filepath.Join(ws.root, name))
			return res, string(b)
		}
		ws.put(".", name, text)
		res, after := run(cmds)
		out := fmt.Sprintf("exit %d\nstderr: %s\nfile after:\n%s", res.code, res.err, after)
		if res.panicked != "" {
			c.Violate("panic", res.panicked, in)
			return
		}
		if fail {
			if res.code != 2 {
				c.Violate("no-error", "the extension usage does not exist\n"+out, in)
			} else if after != text {
				c.Violate("edited-on-error", out, in)
			}
			c.Count("unknown usages", 1)
			c.Eval("unknown" + shape)
			return
		}
		if res.code == 2 || res.code == 1 {
			c.Violate("error", out, in)
			return
		}
		got, err := modRead(after)
		if err != nil {
			c.Violate("invalid", err.Error()+"\n"+out, in)
			return
		}
		if a, b := stateStr(want), stateStr(got.state()); a != b {
			c.Violate("imports", fmt.Sprintf("wanted imports\n%s\ngot\n%s\n%s", a, b, out), in)
			return
		}
		for _, x := range got.repeated {
			for _, l := range added {
				if l[x] && !contains1(m.repeated, x) {
					c.Violate("added-twice", x+"\n"+out, in)
					return
				}
			}
		}
		// All other statements stay, in order; a new use_repo follows the
		// assignment of its proxy.
		other := func(m *modModel) (l []string) {
			for _, s := range m.st {
				if callKind(s) != "use_repo" {
					l = append(l, s.String())
				}
			}
			return
		}
		if a, b := strings.Join(other(m), "\n"), strings.Join(other(got), "\n"); a != b {
			c.Violate("other-statements", fmt.Sprintf("before\n%s\nafter\n%s\n%s", a, b, out), in)
			return
		}
		newCalls := 0
		for _, u := range got.usages {
			for _, x := range got.calls[u.proxy] {
				if x < u.index && len(m.calls[u.proxy]) == 0 {
					c.Violate("before-assignment", out, in)
					return
				}
			}
			if !touched[got.key(u)] {
				// use_repo calls of untouched usages stay as they were
				var a, b []string
				for _, x := range m.calls[u.proxy] {
					if s := m.st[x]; len(s.C) > 2 {
						a = append(a, sortedCall(s))
					}
				}
				for _, x := range got.calls[u.proxy] {
					if s := got.st[x]; len(s.C) > 2 {
						b = append(b, sortedCall(s))
					}
				}
				if strings.Join(a, "\n") != strings.Join(b, "\n") {
					c.Violate("other-usage", fmt.Sprintf("use_repo calls of %s\n%q\n%q\n%s", u.proxy, a, b, out), in)
					return
				}
			} else if len(m.calls[u.proxy]) == 0 && len(got.calls[u.proxy]) > 0 {
				newCalls++
			}
		}
		if !removed {
			for _, x := range modComment.FindAllString(text, -1) {
				if strings.Count(after, x) < strings.Count(text, x) {
					// an empty use_repo call goes away with its comments
					ok := false
					for _, l := range m.calls {
						for _, j := range l {
							ok = ok || len(m.st[j].C) == 2
						}
					}
					if !ok {
						c.Violate("comment-lost", x+"\n"+out, in)
						return
					}
				}
			}
		}
		// Nothing is left to do for a second run of a single command.
		if len(cmds) == 1 {
			res2, again := run(cmds)
			if res2.panicked != "" || res2.code != 3 && again != after {
				c.Violate("not-idempotent", fmt.Sprintf("exit %d, panic %q\n%s\nfile after the second run\n%s", res2.code, res2.panicked, out, again), in)
				return
			}
			c.Count("second runs", 1)
		}
		// Removing what was added restores the imports.
		for k, l := range added {
			if len(l) > 0 && len(touched) == 1 && r.Intn(2) == 0 && !removed {
				for _, u := range m.usages {
					if m.key(u) == k {
						run([]string{"use_repo_remove " + u.proxy + " " + strings.Join(sortedKeys(l), " ")})
						b, _ := os.ReadFile(filepath.Join(ws.root, name))
						back, err := modRead(string(b))
						if err != nil || stateStr(back.state()) != stateStr(m.state()) {
							c.Violate("remove-added", fmt.Sprintf("%v: after removing what was added again\n%s\n%s", err, b, out), in)
							return
						}
						c.Count("undone additions", 1)
						break
					}
				}
			}
		}
		c.Count("use_repo calls created", newCalls)
		nc, np := 0, 0
		for _, u := range m.usages {
			if touched[m.key(u)] {
				np++
				nc += len(m.calls[u.proxy])
			}
		}
		c.Eval(fmt.Sprintf("%s proxies=%d calls=%d added=%d changed=%v", shape, np, nc, len(added), after != text))
	})
}

func sortedCall(s *N) string {
	l := []string{}
	for _, a := range s.C[2:] {
		if !contains1(l, a.String()) {
			l = append(l, a.String())
		}
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func contains1(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
