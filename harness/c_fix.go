package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
)

func init() { checks["C33"] = checkFixes }

var ruleFixes = []string{"sortGlob", "splitOptions", "shortenLabels", "removeVisibility", "removeTestOnly", "genruleRenameDepsTools", "genruleFixHeuristicLabels", "sortExportsFiles", "varref", "mergeLiteralLists"}
var fileFixes = []string{"movePackageToTop", "usePlusEqual", "unusedLoads", "moveLicenses"}

type fixGen struct {
	r   *rand.Rand
	pkg string
	nc  int
}

func (g *fixGen) com() string {
	g.nc++
	return fmt.Sprintf("#c%dz", g.nc)
}

func (g *fixGen) label() string {
	return pick(g.r, ":a", ":b", "a.txt", "b.cc", "//"+g.pkg+":a", "//"+g.pkg, "//x/y", "//x/y:y", "//x/y:z", "@repo//p:t", "@repo//p:p", "@repo", "@repo//:repo", ":gen", "gen.sh", "//"+g.pkg+":c/d", "c/d")
}

func (g *fixGen) option() string {
	return pick(g.r, "-Wall", "-Dfoo -Dbar", "-DX", "-I a", " -x", "-DN='a b'", `-DQ="c d"`, "-include $(location :a)", "-T $(execpath b.cc)", "$(FLAGS) -O2", `-Da\ b`, "-lfoo -lbar -lfoo", "-DM=\\'x y\\'")
}

func (g *fixGen) list(elem func() string, n int) string {
	r := g.r
	var l []string
	for ; n > 0; n-- {
		l = append(l, bzQuote(elem()))
	}
	if r.Intn(3) > 0 {
		return "[" + strings.Join(l, ", ") + "]"
	}
	s := "[\n"
	for _, x := range l {
		if r.Intn(10) == 0 {
			s += "        " + g.com() + "\n"
		}
		s += "        " + x + ","
		if r.Intn(10) == 0 {
			s += "  " + g.com()
		}
		s += "\n"
	}
	return s + "    ]"
}

func (g *fixGen) value(elem func() string) string {
	r := g.r
	var t []string
	for n := 1 + r.Intn(10)/7 + r.Intn(10)/7; n > 0; n-- {
		switch r.Intn(12) {
		case 0:
			t = append(t, "VAR")
		case 1, 2:
			t = append(t, fmt.Sprintf("select({%q: %s, \"//conditions:default\": %s})", ":cfg", g.list(elem, r.Intn(3)), g.list(elem, r.Intn(3))))
		case 3:
			t = append(t, "glob("+g.list(func() string { return pick(r, "*.cc", "b.cc", "a/**", "*.cc") }, 1+r.Intn(3))+pick(r, "", ", exclude = [\"z\", \"y\"]")+")")
		case 4:
			t = append(t, "["+"varref(\"v"+fmt.Sprint(r.Intn(3))+"\"), "+bzQuote(elem())+"]")
		default:
			t = append(t, g.list(elem, r.Intn(4)))
		}
	}
	return strings.Join(t, " + ")
}

func (g *fixGen) visibility() string {
	return pick(g.r, `["//visibility:private"]`, `["//visibility:public"]`, `["//x:__pkg__", "//y:__subpackages__"]`, `["//y:__subpackages__", "//x:__pkg__"]`, `["//x:__pkg__"]`, `VIS`, `["//visibility:private"] + VIS`, `[]`, `["//`+g.pkg+`:__pkg__"]`)
}

func (g *fixGen) rule(i int) string {
	r := g.r
	kind := pick(r, "cc_library", "cc_test", "java_library", "genrule", "genrule", "my_rule", "test_suite", "sh_test")
	var a []string
	put := func(k, v string) {
		s := "    " + k + " = " + v + ","
		if r.Intn(12) == 0 && k != "visibility" && k != "testonly" {
			s = "    " + g.com() + "\n" + s
		}
		a = append(a, s)
	}
	put("name", fmt.Sprintf("%q", fmt.Sprintf("n%d", i)))
	if r.Intn(2) == 0 {
		put("srcs", g.value(g.label))
	}
	if r.Intn(2) == 0 {
		put("deps", g.value(g.label))
	}
	if kind == "genrule" {
		if r.Intn(2) == 0 {
			put("tools", g.value(g.label))
		}
		cmd := func() string {
			var w []string
			for n := 1 + r.Intn(4); n > 0; n-- {
				w = append(w, pick(r, g.label(), g.label(), g.label(), "$(location "+g.label()+")", "$(execpath "+g.label()+")", "$(locations "+g.label()+")", "$(rootpaths "+g.label()+")", "cat", ">", "$@", "$(SRCS)", "&&", "location", "--in="+g.label(), "$<"))
			}
			return bzQuote(strings.Join(w, " "))
		}
		s := cmd()
		if r.Intn(3) == 0 {
			s += " + " + pick(r, cmd(), "VAR", "varref(\"v1\")")
		}
		put("cmd", s)
	} else if r.Intn(2) == 0 {
		put("copts", g.value(g.option))
		if r.Intn(3) == 0 {
			put("linkopts", g.value(g.option))
		}
	}
	if r.Intn(3) == 0 {
		put("visibility", g.visibility())
	}
	if r.Intn(4) == 0 {
		put("testonly", pick(r, "0", "1", "True", "False", "VAR"))
	}
	if r.Intn(5) == 0 {
		put("my_attr", pick(r, "1 + 2", `["x"] + ["y"]`, `varref("v2")`, `"//`+g.pkg+`:a"`, `{"k": ["a"] + ["b"]}`, `glob(["z", "a"])`, `("t",)`, `[VAR] + []`))
	}
	if r.Intn(8) == 0 {
		put("data", g.value(g.label))
	}
	s := ""
	if r.Intn(6) == 0 {
		s += g.com() + "\n"
	}
	return s + kind + "(\n" + strings.Join(a, "\n") + "\n)\n"
}

func (g *fixGen) file() string {
	r := g.r
	s := ""
	if r.Intn(3) == 0 {
		s += "load(\"//:defs.bzl\", \"my_rule\", \"unused1\")\n"
	}
	if r.Intn(6) == 0 {
		s += "load(\"//:defs2.bzl\", \"unused2\")\n"
	}
	pk := []string{}
	if r.Intn(2) == 0 {
		pk = append(pk, "default_visibility = "+pick(r, `["//visibility:public"]`, `["//visibility:private"]`, `["//x:__pkg__", "//y:__subpackages__"]`, `VIS`, `[]`))
	}
	if r.Intn(3) == 0 {
		pk = append(pk, "default_testonly = "+pick(r, "1", "0", "True", "VAR"))
	}
	if r.Intn(6) == 0 {
		pk = append(pk, `features = ["a"] + ["b"]`)
	}
	pkg := "package(" + strings.Join(pk, ", ") + ")\n"
	if len(pk) == 0 {
		pkg = ""
	} else if r.Intn(5) == 0 {
		pkg = g.com() + "\n" + pkg
	}
	at := r.Intn(6)
	n := 0
	s += "VAR = [\"v\"]\n"
	if r.Intn(2) == 0 {
		s += "VIS = [\"//v:__pkg__\"]\n"
	}
	if r.Intn(5) == 0 {
		s = "\"\"\"Doc.\"\"\"\n" + s
	}
	if at == 0 {
		s += pkg
		pkg = ""
	}
	if r.Intn(4) == 0 {
		if r.Intn(3) == 0 {
			s += g.com() + "\n"
		}
		s += "licenses([" + pick(r, `"notice"`, `"notice", "restricted"`, ``) + "])\n"
	}
	if at == 1 {
		s += pkg
		pkg = ""
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		switch r.Intn(9) {
		case 0:
			s += "exports_files(" + g.list(func() string { return pick(r, "z", "b", "a", "z") }, r.Intn(4)) + pick(r, "", ", visibility = "+g.visibility()) + ")\n"
		case 1:
			if r.Intn(3) == 0 {
				s += g.com() + "\n"
			}
			s += pick(r, `VAR.append("w")`, `VAR.extend(["w", "x"])`, `VAR.extend(OTHER)`, `VAR.extend([] if OTHER else ["b"])`, `a.b.append("c")`, `VAR.append(x = 1)`, `VAR.append("a", "b")`, `VAR.extend(*OTHER)`, `VAR.append(*OTHER)`) + pick(r, "", "  "+g.com()) + "\n"
		case 3:
			s += fmt.Sprintf("package_group(\n    name = \"g%d\",\n    packages = %s,\n)\n", k, g.list(func() string {
				return pick(r, "//x/y", "//x/y:y", "//"+pick(r, g.pkg, "x")+":a", "//x/...", "-//x/z", "public", "//"+g.pkg)
			}, 1+r.Intn(3)))
		case 2:
			s += pick(r, `X = ["a"] + ["b"]`, `[my_rule(name = n, deps = ["//x/y:y"] + [n]) for n in ["p", "q"]]`, `my_macro("pos", ["a"] + ["b"])`, `x.y(name = "dotted", deps = ["//x/y:y"], visibility = ["//visibility:private"])`) + "\n"
		default:
			s += g.rule(n)
			n++
		}
		if at == 2 {
			s += pkg
			pkg = ""
		}
	}
	return s + pkg
}

// fixCanon replaces in an attribute of a rule what the named fixes may rewrite
// by one form.
type fixCanon struct {
	f   map[string]bool
	pkg string
}

func mergeN(n *N) *N {
	if n == nil {
		return nil
	}
	m := &N{K: n.K, S: n.S}
	for _, c := range n.C {
		m.C = append(m.C, mergeN(c))
	}
	if m.K == "Bin" && m.S == "+" && m.C[0].K == "List" && m.C[1].K == "List" {
		return nn("List", "", append(append([]*N{}, m.C[0].C...), m.C[1].C...)...)
	}
	return m
}

func mapN(n *N, f func(*N) *N) *N {
	if n == nil {
		return nil
	}
	m := &N{K: n.K, S: n.S}
	for _, c := range n.C {
		m.C = append(m.C, mapN(c, f))
	}
	return f(m)
}

func sortedSet(l []*N) (out []*N) {
	seen := map[string]bool{}
	for _, x := range l {
		if s := x.String(); !seen[s] {
			seen[s] = true
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return
}

var makeFunc = regexp.MustCompile(`\$\(\w+\s[^)]*\)`)

// shellWords splits an option as Bazel does.
func shellWords(s string) (l []string) {
	var ex []string
	s = makeFunc.ReplaceAllStringFunc(s, func(m string) string {
		ex = append(ex, m)
		return "\x00"
	})
	cur, any, q := "", false, byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == 0 {
			cur += ex[0]
			ex = ex[1:]
			any = true
			continue
		}
		switch {
		case q == '\'' && c == '\'', q == '"' && c == '"':
			q = 0
		case q == '\'':
			cur += string(c)
		case c == '\\' && i+1 < len(s):
			i++
			cur += string(s[i])
			any = true
		case q == '"':
			cur += string(c)
		case c == '\'' || c == '"':
			q, any = c, true
		case c == ' ' || c == '\t' || c == '\n':
			if any {
				l = append(l, cur)
			}
			cur, any = "", false
		default:
			cur += string(c)
			any = true
		}
	}
	if any {
		l = append(l, cur)
	}
	return
}

// topLists applies f to the literal lists of a concatenation.
func topLists(n *N, f func(*N) *N) *N {
	switch {
	case n.K == "List":
		return f(n)
	case n.K == "Bin" && n.S == "+":
		return nn("Bin", "+", topLists(n.C[0], f), topLists(n.C[1], f))
	}
	return n
}

var heurTok = regexp.MustCompile(`[a-zA-Z0-9:/_.+-]+|[^a-zA-Z0-9:/_.+-]+`)

func (x *fixCanon) cmd(n *N, labels map[string]bool) *N {
	switch {
	case n.K == "Bin" && n.S == "+":
		return nn("Bin", "+", x.cmd(n.C[0], labels), x.cmd(n.C[1], labels))
	case n.K != "Str":
		return n
	}
	var out strings.Builder
	plain := func(s string) {
		for _, t := range heurTok.FindAllString(s, -1) {
			k := t
			if !strings.HasPrefix(t, "//") && !strings.HasPrefix(t, ":") {
				k = ":" + t
			}
			if labels[refNorm(k, x.pkg)] {
				t = "<" + refNorm(k, x.pkg) + ">"
			}
			out.WriteString(t)
		}
	}
	s := n.S
	for {
		m := makeFunc.FindStringIndex(s)
		if m == nil {
			break
		}
		plain(s[:m[0]])
		e := s[m[0]:m[1]]
		if strings.HasPrefix(e, "$(location ") {
			e = "<" + refNorm(strings.TrimSpace(e[len("$(location "):len(e)-1]), x.pkg) + ">"
		}
		out.WriteString(e)
		s = s[m[1]:]
	}
	plain(s)
	return nn("Str", out.String())
}

func (x *fixCanon) call(st *N, rule bool) *N {
	kind := callKind(st)
	m := &N{K: st.K, S: st.S}
	m.C = append(m.C, st.C[0])
	labels := map[string]bool{}
	if kind == "genrule" {
		for _, a := range []string{"srcs", "tools", "deps"} {
			v := attrOf(st, a)
			if v == nil || a == "deps" && (!x.f["genruleRenameDepsTools"] || attrOf(st, "tools") != nil) {
				continue
			}
			topLists(v, func(l *N) *N {
				for _, e := range l.C {
					if e.K == "Str" {
						labels[refNorm(e.S, x.pkg)] = true
					}
				}
				return l
			})
		}
	}
	for _, a := range st.C[1:] {
		if a.K != "Named" {
			m.C = append(m.C, x.val("", a))
			continue
		}
		name, v := a.S, a.C[0]
		if (name == "copts" || name == "linkopts") && x.f["splitOptions"] {
			v = topLists(v, func(l *N) *N {
				o := nn("List", "")
				for _, e := range l.C {
					if e.K != "Str" {
						o.C = append(o.C, e)
						continue
					}
					for _, w := range shellWords(e.S) {
						o.C = append(o.C, nn("Str", w))
					}
				}
				return o
			})
		}
		if kind == "genrule" && name == "deps" && x.f["genruleRenameDepsTools"] && attrOf(st, "tools") == nil {
			name = "tools"
		}
		if kind == "genrule" && name == "cmd" && x.f["genruleFixHeuristicLabels"] {
			v = x.cmd(v, labels)
		}
		m.C = append(m.C, nn("Named", name, x.val(name, v)))
	}
	if kind == "exports_files" && len(m.C) > 1 && m.C[1].K == "List" {
		m.C[1] = nn("List", "", sortedSet(m.C[1].C)...)
	}
	sort.SliceStable(m.C[1:], func(i, j int) bool {
		a, b := m.C[1+i], m.C[1+j]
		return a.K != "Named" && b.K == "Named" || a.K == "Named" && b.K == "Named" && a.S < b.S
	})
	return m
}

// val canonicalises a value of the attribute.
func (x *fixCanon) val(name string, v *N) *N {
	if x.f["varref"] {
		v = mapN(v, func(n *N) *N {
			if n.K == "Call" && len(n.C) == 2 && n.C[0].K == "Id" && n.C[0].S == "varref" && n.C[1].K == "Str" {
				return nn("Str", "$("+n.C[1].S+")")
			}
			return n
		})
	}
	if x.f["mergeLiteralLists"] {
		v = mergeN(v)
	}
	v = mapN(v, func(n *N) *N {
		if n.K == "Call" && n.C[0].K == "Id" && n.C[0].S == "glob" && len(n.C) > 1 && n.C[1].K == "List" {
			n.C[1] = nn("List", "", sortedSet(n.C[1].C)...)
		}
		return n
	})
	if bzLabelAttr(name) || name == "tools" {
		v = mapN(v, func(n *N) *N {
			if n.K != "List" {
				return n
			}
			var l []*N
			for _, e := range n.C {
				if e.K == "Str" && x.f["shortenLabels"] {
					e = nn("Str", refNorm(e.S, x.pkg))
				}
				l = append(l, e)
			}
			return nn("List", "", sortedSet(l)...)
		})
	}
	return v
}

func checkFixes(c *Ctx) {
	c.Rule("distinct = (fixes, kinds of statements, what changed)")
	c.Assume("rules may depend on labels, options and commands as Bazel reads them (Bourne shell splitting of options, heuristic location expansion in cmd); visibility and testonly removed only where they equal the default computed from package(); order in label lists and globs is free, in options it is not")
	re := regexp.MustCompile(`#c\d+z`)
	c.parallel(c.N(14000, 400000), 8, 3300, func(i int, r *rand.Rand) {
		pkg := pick(r, "pkg", "x/y", "javatests/p")
		g := &fixGen{r: r, pkg: pkg}
		text, err := formatBuild("BUILD", g.file())
		if err != nil {
			c.Inconclusive("generator: %v", err)
			return
		}
		before, err := starParse(text)
		if err != nil {
			c.Inconclusive("generator: %v\n%s", err, text)
			return
		}
		rules, _ := refRules(text)
		var fixes []string
		if r.Intn(3) > 0 {
			for n := 1 + r.Intn(2)*r.Intn(4); n > 0; n-- {
				fixes = append(fixes, pick(r, append(append([]string{}, ruleFixes...), fileFixes...)...))
			}
		}
		on := map[string]bool{}
		for _, f := range append(append([]string{}, ruleFixes...), fileFixes...) {
			on[f] = len(fixes) == 0
		}
		for _, f := range fixes {
			on[f] = true
		}
		target := "__pkg__"
		one := ""
		if r.Intn(4) == 0 {
			for _, x := range rules {
				if x.name != "" && !x.nested && x.kind != "package" {
					one = x.name
				}
			}
			if one != "" {
				target = one
				for _, f := range fileFixes {
					on[f] = false
				}
			}
		}
		cmd := strings.TrimSpace("fix " + strings.Join(fixes, " "))
		library := one == "" && r.Intn(4) == 0
		in := fmt.Sprintf("library %v, buildozer %q //%s:%s\n%s", library, cmd, pkg, target, text)
		c.Case(in)
		ws := newBzWS(filepath.Join(c.Scratch, fmt.Sprintf("ws%d", r.Int63())))
		defer os.RemoveAll(ws.root)
		file := ws.put(pkg, "BUILD", text)
		run := func() (res bzRun, after string) {
			if library {
				defer func() {
					if p := recover(); p != nil {
						res.panicked = fmt.Sprint(p)
					}
				}()
				b, _ := os.ReadFile(file)
				f, err := build.ParseBuild("BUILD", b)
				if err != nil {
					return bzRun{code: 2, err: err.Error()}, ""
				}
				orig := f
				f = edit.FixFile(f, pkg, fixes)
				if f == nil {
					// Nothing to write: nothing may have changed.
					return bzRun{code: 3}, string(build.Format(orig))
				}
				out := build.Format(f)
				os.WriteFile(file, out, 0o644)
				return bzRun{}, string(out)
			}
			opts := edit.NewOpts()
			opts.RootDir = ws.root
			res = runBz(opts, []string{cmd, "//" + pkg + ":" + target})
			b, _ := os.ReadFile(file)
			return res, string(b)
		}
		res, after := run()
		if library {
			if res.code == 3 && after != text {
				c.Violate("silent-fix", "nothing reported as fixed, but the tree is now\n"+after, in)
				return
			}
			// The same through the command.
			opts := edit.NewOpts()
			opts.RootDir = ws.root
			ws.put(pkg, "BUILD", text)
			cr := runBz(opts, []string{cmd, "//" + pkg + ":__pkg__"})
			b, _ := os.ReadFile(file)
			if res.panicked == "" && (cr.panicked != "" || string(b) != after) {
				c.Violate("command-and-library", fmt.Sprintf("the command gave (exit %d, %s)\n%s\nthe library gave\n%s", cr.code, cr.panicked, b, after), in)
				return
			}
			c.Count("command and library compared", 1)
		}
		out := fmt.Sprintf("exit %d\nstderr: %s\nfile after:\n%s", res.code, res.err, after)
		if res.panicked != "" {
			c.Violate("panic", res.panicked, in)
			return
		}
		if res.code == 1 || res.code == 2 {
			c.Violate("error", out, in)
			return
		}
		got, err := starParse(after)
		if err != nil {
			c.Violate("invalid", err.Error()+"\n"+out, in)
			return
		}
		bad := func(sig, f string, a ...interface{}) {
			c.Violate(sig, fmt.Sprintf(f, a...)+"\n"+out, in)
		}
		var pkgCall *N
		for _, s := range before.C {
			if callKind(s) == "package" && pkgCall == nil {
				pkgCall = s
			}
		}
		// Split the files: package (with licenses), loads, the rest in order.
		type parts struct {
			pkg   []*N
			lic   []*N
			loads []string
			rest  []*N
		}
		split := func(n *N) (p parts) {
			for _, s := range n.C {
				switch {
				case callKind(s) == "package":
					p.pkg = append(p.pkg, s)
				case callKind(s) == "licenses" && on["moveLicenses"]:
					p.lic = append(p.lic, s)
				case s.K == "Load":
					for _, x := range s.C {
						p.loads = append(p.loads, s.S+" "+x.S)
					}
				default:
					p.rest = append(p.rest, s)
				}
			}
			sort.Strings(p.loads)
			return
		}
		a, b := split(before), split(got)
		on["sort"] = !strings.Contains(text, "#c") // comments divide lists
		same := strings.Count(text, fmt.Sprintf("name = %q", one))
		// loads
		if on["unusedLoads"] {
			var keep []string
			for _, l := range a.loads {
				if strings.Contains(l, "my_rule") && strings.Contains(strings.Join(strs(a.rest), " "), `(Id "my_rule")`) {
					keep = append(keep, l)
				}
			}
			a.loads = keep
		}
		if x, y := strings.Join(a.loads, ","), strings.Join(b.loads, ","); x != y {
			bad("loads", "wanted loads %s, got %s", x, y)
			return
		}
		// package and licenses
		pk := nn("Call", "", nn("Id", "package"))
		if len(a.pkg) > 0 {
			pk = clone(a.pkg[0])
		}
		if len(a.lic) > 0 && len(a.lic[0].C) == 2 {
			withAttr(pk, "licenses", a.lic[0].C[1])
		}
		canon := &fixCanon{on, pkg}
		canonOff := &fixCanon{map[string]bool{}, pkg}
		cp := canon
		if one != "" {
			cp = canonOff
		}
		gotPk := nn("Call", "", nn("Id", "package"))
		if len(b.pkg) > 0 {
			gotPk = b.pkg[0]
		}
		if len(b.pkg) > 1 || len(b.lic) > 0 {
			bad("package", "%d package calls, %d licenses calls", len(b.pkg), len(b.lic))
			return
		}
		if x, y := cp.call(pk, false).String(), cp.call(gotPk, false).String(); x != y {
			bad("package", "wanted\n%s\ngot\n%s", x, y)
			return
		}
		if on["movePackageToTop"] && len(b.pkg) > 0 {
			for _, s := range got.C {
				if callKind(s) == "package" {
					break
				}
				if s.K == "Call" {
					bad("package-not-first", "package comes after %s", s)
					return
				}
			}
		} else {
			// it stays where it is
			idx := func(n *N) int {
				k := 0
				for _, s := range n.C {
					if callKind(s) == "package" {
						return k
					}
					if s.K != "Load" && callKind(s) != "licenses" {
						k++
					}
				}
				return -1
			}
			if len(a.pkg) > 0 && idx(before) != idx(got) {
				bad("package-moved", "from %d to %d", idx(before), idx(got))
				return
			}
		}
		if len(a.rest) != len(b.rest) {
			bad("statements", "%d statements, then %d", len(a.rest), len(b.rest))
			return
		}
		shape := ""
		for k := range a.rest {
			s, t := a.rest[k], b.rest[k]
			kind := callKind(s)
			name := ""
			if kind == "" {
			} else if v := attrOf(s, "name"); v != nil && v.K == "Str" {
				name = v.S
			}
			isRule := kind != ""
			x := canon
			if one != "" && name != one {
				x = canonOff
			}
			if on["usePlusEqual"] && s.K == "Call" && s.C[0].K == "Dot" && s.C[0].C[0].K == "Id" && (s.C[0].S == "append" || s.C[0].S == "extend") && len(s.C) == 2 && s.C[1].K != "Named" && s.C[1].K != "Un" {
				v := s.C[1]
				if s.C[0].S == "append" {
					v = nn("List", "", v)
				}
				if one == "" && t.K != "Assign" {
					bad("undone-usePlusEqual", "%s", t)
					return
				}
				if t.K == "Assign" {
					s = nn("Assign", "+=", s.C[0].C[0], v)
				}
				isRule = false
				shape += "+="
			}
			if isRule && one == "" || isRule && name == one {
				if callKind(t) != kind {
					bad("kind", "%s became %s", kind, callKind(t))
					return
				}
				s = clone(s)
				for _, at := range []string{"visibility", "testonly"} {
					v := attrOf(s, at)
					if v == nil || attrOf(t, at) != nil {
						continue
					}
					if !isDefault(at, v, s, pkgCall, pkg) || !on[map[string]string{"visibility": "removeVisibility", "testonly": "removeTestOnly"}[at]] {
						bad("removed-"+at, "of %s %s", kind, name)
						return
					}
					delAttr(s, at)
					shape += "-" + at[:3]
				}
				if why := fixUndone(t, on, pkg); why != "" && same < 2 {
					bad("undone-"+strings.Fields(why)[0], "%s in %s", why, t)
					return
				}
				if v := attrOf(t, "visibility"); v != nil && len(v.C) > 0 && on["removeVisibility"] && same < 2 && isDefault("visibility", v, t, pkgCall, pkg) {
					bad("undone-removeVisibility", "%s", t)
					return
				}
				if v := attrOf(t, "testonly"); v != nil && v.K == "Num" && on["removeTestOnly"] && same < 2 && (pkgCall == nil || attrOf(pkgCall, "default_testonly") == nil || attrOf(pkgCall, "default_testonly").K == "Num") && isDefault("testonly", v, t, pkgCall, pkg) {
					bad("undone-removeTestOnly", "%s", t)
					return
				}
				s, t = x.call(s, true), x.call(t, true)
			} else if s.K == "ListComp" && s.C[0].K == "Call" && t.K == "ListComp" && t.C[0].K == "Call" && one == "" {
				s, t = clone(s), clone(t)
				s.C[0], t.C[0] = x.call(s.C[0], true), x.call(t.C[0], true)
			}
			if p, q := s.String(), t.String(); p != q {
				sig := "rule"
				if !isRule {
					sig = "statement"
				}
				for _, at := range append(attrNamesC(s), attrNamesC(t)...) {
					if s.K != "Call" || t.K != "Call" {
						continue
					}
					v, w := attrOf(s, at), attrOf(t, at)
					if v == nil || w == nil || v.String() != w.String() {
						sig = "attr-" + at
						break
					}
				}
				bad(sig, "wanted (canonically)\n%s\ngot\n%s", p, q)
				return
			}
			if p, q := a.rest[k].String(), b.rest[k].String(); p != q {
				shape += " " + kind
			}
		}
		// comments
		for _, x := range re.FindAllString(text, -1) {
			if !strings.Contains(after, x) {
				bad("comment-lost", "%s", x)
				return
			}
		}
		res2, again := run()
		if res2.panicked != "" || again != after {
			bad("not-idempotent", "the second run gave (exit %d %s)\n%s\nfirst run:", res2.code, res2.panicked, again)
			return
		}
		c.Count("statements compared", len(a.rest))
		c.Eval(fmt.Sprintf("%s one=%v %s changed=%v", cmd, one != "", shape, after != text))
	})
}

// fixUndone tells what a fix should have changed in the rule.
func fixUndone(rule *N, on map[string]bool, pkg string) (why string) {
	kind := callKind(rule)
	isStrs := func(n *N) (l []string, ok bool) {
		if n.K != "List" {
			return nil, false
		}
		for _, e := range n.C {
			if e.K != "Str" {
				return nil, false
			}
			l = append(l, e.S)
		}
		return l, true
	}
	mapN(rule, func(n *N) *N {
		switch {
		case n.K == "Call" && callKind(n) == "varref" && len(n.C) == 2 && n.C[1].K == "Str" && on["varref"]:
			why = "varref"
		case n.K == "Bin" && n.S == "+" && n.C[0].K == "List" && n.C[1].K == "List" && on["mergeLiteralLists"]:
			why = "mergeLiteralLists"
		case n.K == "Call" && callKind(n) == "glob" && on["sortGlob"] && on["sort"] && len(n.C) > 1:
			if l, ok := isStrs(n.C[1]); ok && !sort.StringsAreSorted(l) {
				why = "sortGlob"
			}
		}
		return n
	})
	if why != "" {
		return why
	}
	for _, a := range rule.C[1:] {
		if a.K != "Named" {
			continue
		}
		name := a.S
		if (name == "srcs" || name == "deps" || name == "data") && on["shortenLabels"] || (name == "copts" || name == "linkopts") && on["splitOptions"] {
			topLists(a.C[0], func(l *N) *N {
				for _, e := range l.C {
					if e.K != "Str" {
						continue
					}
					if name == "copts" || name == "linkopts" {
						if strings.Contains(e.S, " ") && !strings.ContainsAny(e.S, "'\"\\") && !strings.Contains(e.S, "$(") {
							why = "splitOptions of " + e.S
						}
						continue
					}
					if strings.HasPrefix(e.S, "//"+pkg+":") || e.S == "//x/y:y" || e.S == "@repo//p:p" || e.S == "@repo//:repo" {
						why = "shortenLabels of " + e.S
					}
				}
				return l
			})
		}
	}
	if kind == "exports_files" && on["sortExportsFiles"] && on["sort"] && len(rule.C) > 1 {
		if l, ok := isStrs(rule.C[1]); ok && !sort.StringsAreSorted(l) {
			return "sortExportsFiles"
		}
	}
	if kind == "genrule" {
		if on["genruleRenameDepsTools"] && attrOf(rule, "deps") != nil && attrOf(rule, "tools") == nil {
			return "genruleRenameDepsTools"
		}
		labels := map[string]bool{}
		for _, a := range []string{"srcs", "tools"} {
			if v := attrOf(rule, a); v != nil {
				topLists(v, func(l *N) *N {
					for _, e := range l.C {
						labels[e.S] = labels[e.S] || e.K == "Str"
					}
					return l
				})
			}
		}
		if v := attrOf(rule, "cmd"); v != nil && v.K == "Str" && on["genruleFixHeuristicLabels"] && !strings.Contains(v.S, "location") && !strings.Contains(v.S, "path") {
			for _, t := range heurTok.FindAllString(v.S, -1) {
				if labels[t] || labels[":"+t] {
					return "genruleFixHeuristicLabels of " + t
				}
			}
		}
	}
	return why
}

func strs(l []*N) (out []string) {
	for _, n := range l {
		out = append(out, n.String())
	}
	return
}

// isDefault tells whether removing the attribute gives the rule the same value.
func isDefault(at string, v, rule, pkgCall *N, pkg string) bool {
	kind := callKind(rule)
	var def *N
	if pkgCall != nil {
		def = attrOf(pkgCall, "default_"+at)
	}
	if at == "visibility" {
		if kind == "exports_files" {
			return false // public by default
		}
		if def == nil {
			def = nn("List", "", nn("Str", "//visibility:private"))
		}
		if v.K != "List" || def.K != "List" {
			return false
		}
		return nn("", "", sortedSet(v.C)...).String() == nn("", "", sortedSet(def.C)...).String()
	}
	num := func(n *N) string {
		if n.K == "Num" || n.K == "Id" && (n.S == "True" || n.S == "False") {
			return strings.NewReplacer("True", "1", "False", "0").Replace(n.S)
		}
		return "?"
	}
	d := "0"
	switch {
	case strings.HasSuffix(kind, "_test") || kind == "test_suite":
		d = "1"
	case def != nil:
		d = num(def)
	case strings.HasPrefix(pkg, "javatests/"):
		d = "1"
	}
	return d != "?" && num(v) == d
}

func attrNamesC(n *N) []string {
	if n.K != "Call" {
		return nil
	}
	return attrNames(n)
}
