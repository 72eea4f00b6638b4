package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/edit"
	"go.starlark.net/resolve"
	"go.starlark.net/syntax"
)

func init() { checks["C32"] = checkLoads }

// binding is one name a load statement binds.
type binding struct{ mod, from, to string }

func (b binding) String() string { return b.mod + " " + b.to + "=" + b.from }

type loadsOf struct {
	stmts [][]binding // load statements in order
	index []int       // their positions
	all   []binding
	other []string // the other statements
	st    []*N
}

func readLoads(text string) (*loadsOf, error) {
	n, err := starParse(text)
	if err != nil {
		return nil, err
	}
	l := &loadsOf{st: n.C}
	for i, s := range n.C {
		if s.K != "Load" {
			l.other = append(l.other, s.String())
			continue
		}
		var bs []binding
		for _, x := range s.C {
			j := strings.Index(x.S, "=")
			bs = append(bs, binding{s.S, x.S[j+1:], x.S[:j]})
		}
		l.stmts = append(l.stmts, bs)
		l.index = append(l.index, i)
		l.all = append(l.all, bs...)
	}
	return l, nil
}

func bindSet(l []binding) map[string]bool {
	m := map[string]bool{}
	for _, b := range l {
		m[b.String()] = true
	}
	return m
}

// readNames tells which global or loaded names the statements of the file read
// (by the scoping of the reference implementation) and which occur at all.
func readNames(text string) (read, occur map[string]bool, err error) {
	f, err := syntax.Parse("ref", highEscapes(text), 0)
	if err != nil {
		return nil, nil, err
	}
	read, occur = map[string]bool{}, map[string]bool{}
	resolve.AllowGlobalReassign = true
	loaded := map[string]bool{}
	var body []syntax.Stmt
	for _, s := range f.Stmts {
		if l, ok := s.(*syntax.LoadStmt); ok {
			for _, t := range l.To {
				loaded[t.Name] = true
			}
			continue
		}
		body = append(body, s)
	}
	f.Stmts = body
	// All names are predeclared, so those a program does not bind itself
	// resolve to that.
	resolve.File(f, func(string) bool { return true }, func(string) bool { return false })
	kw := map[*syntax.Ident]bool{}
	syntax.Walk(f, func(n syntax.Node) bool {
		if call, ok := n.(*syntax.CallExpr); ok {
			for _, a := range call.Args {
				if b, ok := a.(*syntax.BinaryExpr); ok && b.Op == syntax.EQ {
					kw[b.X.(*syntax.Ident)] = true
				}
			}
		}
		if d, ok := n.(*syntax.DotExpr); ok {
			kw[d.Name] = true
		}
		id, ok := n.(*syntax.Ident)
		if !ok || kw[id] {
			return true
		}
		occur[id.Name] = true
		if b, ok := id.Binding.(*resolve.Binding); ok && b.Scope == resolve.Predeclared {
			read[id.Name] = true
		}
		return true
	})
	return read, occur, nil
}

type loadGen struct {
	r    *rand.Rand
	nc   int
	syms []string
	mods []string
}

func (g *loadGen) com() string {
	g.nc++
	return fmt.Sprintf("#c%dz", g.nc)
}

var ldSyms = []string{"a", "b", "my_rule", "foo_library", "x1", "_p", "zed", "glob2", "name", "deps", "aa"}
var leMods = []string{"//:defs.bzl", "//tools:a.bzl", ":local.bzl", "@rules_foo//foo:defs.bzl", "@rules_foo//bar:defs.bzl", "@other//:x.bzl", "//a/b:c.bzl"}

// load writes a load statement of symbols not bound so far.
func (g *loadGen) load(free *[]string) string {
	r := g.r
	n := 1 + r.Intn(4)
	var args []string
	var dup []string
	for ; n > 0 && len(*free) > 0; n-- {
		s := (*free)[0]
		*free = (*free)[1:]
		a := fmt.Sprintf("%q", s)
		if r.Intn(3) == 0 {
			a = fmt.Sprintf("%s = %q", s, pick(r, ldSyms...))
		}
		args = append(args, a)
		if r.Intn(12) == 0 {
			dup = append(dup, a)
		}
	}
	if len(args) == 0 {
		return ""
	}
	args = append(args, dup...)
	sort.SliceStable(args, func(i, j int) bool { return args[i][0] == '"' && args[j][0] != '"' })
	s := ""
	if r.Intn(5) == 0 {
		s += g.com() + "\n"
	}
	mod := pick(r, g.mods...)
	q := fmt.Sprintf("%q", mod)
	if r.Intn(8) == 0 {
		q = "'" + mod + "'"
	}
	unused := ""
	if r.Intn(10) == 0 {
		unused = "  # @unused"
	}
	if r.Intn(3) > 0 {
		return s + "load(" + q + ", " + strings.Join(args, ", ") + ")" + unused + "\n"
	}
	if unused != "" {
		s += "# @unused\n"
	}
	s += "load(\n    " + q + ",\n"
	for _, a := range args {
		if r.Intn(8) == 0 {
			s += "    " + g.com() + "\n"
		}
		s += "    " + a + ","
		if r.Intn(8) == 0 {
			s += "  " + g.com()
		}
		s += "\n"
	}
	return s + ")\n"
}

func (g *loadGen) use() string {
	r := g.r
	s := func() string { return pick(r, ldSyms...) }
	switch r.Intn(12) {
	case 0, 1, 2:
		return fmt.Sprintf("%s(name = \"n%d\", deps = [\":x\"])\n", s(), r.Intn(9))
	case 3:
		return fmt.Sprintf("%s(\n    name = \"n%d\",\n    srcs = %s(\"x\"),\n)\n", s(), r.Intn(9), s())
	case 4:
		return fmt.Sprintf("cc_library(name = \"n%d\", %s = 1)\n", r.Intn(9), s())
	case 5:
		return fmt.Sprintf("[%s(name = i) for i in %s]\n", s(), s())
	case 6:
		return fmt.Sprintf("V%d = %s.%s\n", r.Intn(9), s(), s())
	case 7:
		return fmt.Sprintf("[%s for %s in [1]]\n", pick(r, "a", "b"), pick(r, "a", "b"))
	case 8:
		return fmt.Sprintf("%s[%q] = %s\n", s(), "k", s())
	case 9:
		return fmt.Sprintf("V%d = [%s, %q] if %s else {%q: %s}\n", r.Intn(9), s(), s(), s(), s(), s())
	case 10:
		return fmt.Sprintf("f(lambda %s: %s)\n", pick(r, "a", "q"), s())
	default:
		return fmt.Sprintf("%s.%s(x = %s)\n", s(), s(), s())
	}
}

func (g *loadGen) file(workspace bool) string {
	r := g.r
	g.mods = append([]string{}, leMods...)
	r.Shuffle(len(g.mods), func(i, j int) { g.mods[i], g.mods[j] = g.mods[j], g.mods[i] })
	g.mods = g.mods[:1+r.Intn(4)]
	free := append([]string{}, ldSyms...)
	r.Shuffle(len(free), func(i, j int) { free[i], free[j] = free[j], free[i] })
	free = free[:r.Intn(len(free)+1)]
	s := ""
	if r.Intn(5) == 0 {
		s += g.com() + "\n\n"
	}
	if r.Intn(6) == 0 && !workspace {
		s += "\"\"\"Doc.\"\"\"\n\n"
	}
	if workspace && r.Intn(2) == 0 {
		s += "workspace(name = \"w\")\n"
	}
	for n := r.Intn(4); n > 0; n-- {
		s += g.load(&free)
		if r.Intn(6) == 0 {
			s += "\n" + g.com() + "\n\n"
		}
	}
	if r.Intn(3) == 0 && !workspace {
		s += "package(default_visibility = [\"//visibility:public\"])\n"
	}
	for n := r.Intn(5); n > 0; n-- {
		if r.Intn(8) == 0 {
			s += g.load(&free)
		}
		if r.Intn(6) == 0 {
			s += g.com() + "\n"
		}
		s += g.use()
	}
	return s
}

func checkLoads(c *Ctx) {
	c.Rule("distinct = (commands, numbers of load statements and bindings before and after, how the requested symbols were bound before)")
	c.Assume("new_load is not asked for a name that is loaded from another file; names shadowed everywhere or used as parameter names only may or may not count as used")
	re := regexp.MustCompile(`#c\d+z`)
	c.parallel(c.N(16000, 400000), 8, 3200, func(i int, r *rand.Rand) {
		g := &loadGen{r: r}
		wsFile := r.Intn(5) == 0
		text := g.file(wsFile)
		l, err := readLoads(text)
		if err != nil {
			c.Inconclusive("generator: %v\n%s", err, text)
			return
		}
		read, occur, err := readNames(text)
		if err != nil {
			c.Inconclusive("generator: %v\n%s", err, text)
			return
		}
		// want is the set of bindings; may those of which no judgement is made.
		want := map[string]binding{} // by name bound
		for _, b := range l.all {
			want[b.to] = b
		}
		repeated := len(want) < len(l.all)
		keepUnused := map[string]bool{}
		{
			// loads marked @unused stay as they are; merging may extend the mark
			if strings.Contains(text, "@unused") {
				for _, b := range l.all {
					keepUnused[b.to] = true
				}
			}
		}
		may := map[string]bool{}
		gone := false
		newMods := map[string]bool{}
		var cmds []string
		shape := ""
		fixes := false
		for n := 1 + r.Intn(3); n > 0; n-- {
			switch r.Intn(6) {
			case 0, 1: // new_load
				mod := pick(r, append(leMods, g.mods...)...)
				w := []string{"new_load", mod}
				seen := map[string]bool{}
				var add []binding
				for k := 1 + r.Intn(3); k > 0; k-- {
					s := pick(r, ldSyms...)
					if b, ok := want[s]; ok && b.mod != mod || seen[s] || may[s] {
						continue
					}
					seen[s] = true
					from := s
					if r.Intn(3) == 0 {
						from = pick(r, ldSyms...)
						w = append(w, s+"="+from)
					} else {
						w = append(w, s)
					}
					if _, ok := want[s]; !ok {
						add = append(add, binding{mod, from, s})
						shape += "n"
					} else {
						shape += "o"
					}
				}
				if len(w) == 2 {
					continue
				}
				for _, b := range add {
					want[b.to] = b
					newMods[b.mod] = true
				}
				cmds = append(cmds, strings.Join(w, " "))
				shape += "new;"
			case 2, 3: // replace_load
				mod := pick(r, append(leMods, g.mods...)...)
				w := []string{"replace_load", mod}
				seen := map[string]bool{}
				for k := 1 + r.Intn(3); k > 0; k-- {
					s := pick(r, ldSyms...)
					if seen[s] || may[s] {
						continue
					}
					seen[s] = true
					from := s
					if r.Intn(3) == 0 {
						from = pick(r, ldSyms...)
						w = append(w, s+"="+from)
					} else {
						w = append(w, s)
					}
					if _, ok := want[s]; ok {
						gone = true
						shape += "r"
					} else {
						shape += "n"
					}
					want[s] = binding{mod, from, s}
					newMods[mod] = true
				}
				if len(w) == 2 {
					continue
				}
				cmds = append(cmds, strings.Join(w, " "))
				shape += "replace;"
			case 4: // substitute_load
				sub := [][2]string{
					{`^@([^/]*)//([^:].*)$`, `//third_party/${1}/${2}`},
					{`^@rules_foo//foo:(?P<f>.*)$`, `@rules_foo//new:$f`},
					{`//tools:a.bzl`, `//tools:b.bzl`},
					{`^//(.*)$`, `@main//$1`},
					{`defs`, `definitions`},
					{`^(.*):defs\.bzl$`, `$0`},
					{`nothing`, `x`},
					{`^:local.bzl$`, `//tools:a.bzl`},
				}[r.Intn(8)]
				rx := regexp.MustCompile(sub[0])
				cmds = append(cmds, "substitute_load "+bzEsc(sub[0])+" "+bzEsc(sub[1]))
				for k, b := range want {
					if v, ok := refSubst(rx, sub[1], b.mod); ok {
						if newMods[b.mod] {
							newMods[v] = true
						}
						b.mod = v
						want[k] = b
						shape += "s"
					}
				}
				shape += "subst;"
			default:
				fixes = true
				gone = gone || repeated
				cmds = append(cmds, "fix unusedLoads")
				for k := range want {
					switch {
					case read[k]:
					case occur[k] || keepUnused[k] || strings.Contains(text, "@unused"):
						may[k] = true
					default:
						delete(want, k)
						delete(may, k)
						gone = true
						shape += "u"
					}
				}
				shape += "fix;"
			}
		}
		if len(cmds) == 0 {
			return
		}
		pkg, name := pick(r, "pkg", "a/b"), "BUILD"
		if wsFile {
			pkg, name = ".", "WORKSPACE"
		}
		target := "//" + pkg + ":__pkg__"
		if wsFile {
			target = "//WORKSPACE:__pkg__"
			if !fixes {
				target = "//WORKSPACE:" + pick(r, "__pkg__", "all")
			}
		} else if r.Intn(4) == 0 {
			target = "//" + pkg + "/BUILD:__pkg__"
		}
		in := fmt.Sprintf("%s, commands %q\n%s", target, cmds, text)
		c.Case(in)
		ws := newBzWS(filepath.Join(c.Scratch, fmt.Sprintf("ws%d", r.Int63())))
		defer os.RemoveAll(ws.root)
		file := ws.put(pkg, name, text)
		run := func() (bzRun, string) {
			opts := edit.NewOpts()
			opts.RootDir = ws.root
			res := runBz(opts, append(append([]string{}, cmds...), target))
			b, _ := os.ReadFile(file)
			return res, string(b)
		}
		res, after := run()
		out := fmt.Sprintf("exit %d\nstderr: %s\nfile after:\n%s", res.code, res.err, after)
		if res.panicked != "" {
			c.Violate("panic", res.panicked, in)
			return
		}
		if res.code == 1 || res.code == 2 {
			c.Violate("error", out, in)
			return
		}
		got, err := readLoads(after)
		if err != nil {
			c.Violate("invalid", err.Error()+"\n"+out, in)
			return
		}
		count := map[string]int{}
		for _, b := range got.all {
			count[b.to]++
			w, ok := want[b.to]
			if !ok || w != b {
				c.Violate("binding-extra", fmt.Sprintf("%v is bound, wanted %v %v\n%s", b, ok, w, out), in)
				return
			}
			// What the file had twice may stay.
			if count[b.to] > 1 {
				n := 0
				for _, o := range l.all {
					if o.to == b.to {
						n++
					}
				}
				if n < count[b.to] {
					c.Violate("loaded-twice", b.to+"\n"+out, in)
					return
				}
			}
		}
		for k, b := range want {
			if count[k] == 0 && !may[k] {
				c.Violate("binding-missing", fmt.Sprintf("%v\n%s", b, out), in)
				return
			}
		}
		for _, s := range got.stmts {
			if len(s) == 0 {
				c.Violate("empty-load", out, in)
				return
			}
		}
		if a, b := strings.Join(l.other, "\n"), strings.Join(got.other, "\n"); a != b && strings.Join(normOthers(l.st, wsFile), "\n") != strings.Join(normOthers(got.st, wsFile), "\n") {
			c.Violate("other-statements", fmt.Sprintf("before\n%s\nafter\n%s\n%s", a, b, out), in)
			return
		}
		// A load of a file not loaded before comes before all uses, but after
		// workspace() and a docstring.
		had := map[string]bool{}
		for _, s := range l.stmts {
			for _, b := range s {
				had[b.mod] = true
			}
		}
		for k, s := range got.stmts {
			b := s[0]
			if had[b.mod] || !newMods[b.mod] {
				continue
			}
			subst := false
			for _, x := range cmds {
				subst = subst || strings.HasPrefix(x, "substitute_load")
			}
			if subst {
				continue
			}
			for j, st := range got.st[:got.index[k]] {
				if st.K != "Load" && !(j == 0 && st.K == "Str") && callKind(st) != "workspace" {
					c.Violate("load-position", fmt.Sprintf("the new load of %s comes after %s\n%s", b.mod, st, out), in)
					return
				}
			}
		}
		if wsFile && len(l.st) > 0 && callKind(l.st[0]) == "workspace" && callKind(got.st[0]) != "workspace" {
			c.Violate("before-workspace", out, in)
			return
		}
		if !gone && len(may) == 0 {
			for _, x := range re.FindAllString(text, -1) {
				if !strings.Contains(after, x) {
					c.Violate("comment-lost", x+"\n"+out, in)
					return
				}
			}
		}
		if len(cmds) == 1 && !strings.HasPrefix(cmds[0], "subst") && !fixes {
			res2, again := run()
			if res2.panicked != "" || again != after {
				c.Violate("not-idempotent", fmt.Sprintf("%s\nafter the second run (exit %d %s)\n%s", out, res2.code, res2.panicked, again), in)
				return
			}
			c.Count("second runs", 1)
		}
		c.Count("bindings compared", len(want))
		c.Eval(fmt.Sprintf("%s %d/%d %d/%d", shape, len(l.stmts), len(l.all), len(got.stmts), len(got.all)))
	})
}

// normOthers lists the statements that are no loads with named arguments sorted.
func normOthers(st []*N, ws bool) (l []string) {
	k := KBuild
	if ws {
		k = KWorkspace
	}
	for _, s := range st {
		if s.K != "Load" {
			l = append(l, norm(nn("File", "", clone(s)), normOpts{kind: k}, false).String())
		}
	}
	return
}
