package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/warn"
)

func init() { checks["C19"] = checkLintAPI }

// Programs written in deprecated forms, executed before and after the automatic fixes.

type apiGen struct {
	r       *rand.Rand
	kind    FileKind
	modern  bool // no deprecated forms
	types   []map[string]byte
	fn      int
	hasCtx  bool
	lambdas int
	loads   []string
	fnames  []string
}

func (g *apiGen) p(f float64) bool { return g.r.Float64() < f }

// old chooses a deprecated form.
func (g *apiGen) old(f float64) bool { return !g.modern && g.p(f) }

func (g *apiGen) typ(name string) byte {
	for i := len(g.types) - 1; i >= 0; i-- {
		if t, ok := g.types[i][name]; ok {
			return t
		}
	}
	return 0
}

func (g *apiGen) set(name string, t byte) { g.types[len(g.types)-1][name] = t }
func (g *apiGen) push()                   { g.types = append(g.types, map[string]byte{}) }
func (g *apiGen) pop()                    { g.types = g.types[:len(g.types)-1] }

func (g *apiGen) vars(t byte) (out []string) {
	for _, n := range apiVarNames {
		if g.typ(n) == t {
			out = append(out, n)
		}
	}
	return
}

var apiVarNames = []string{"x0", "x1", "n0", "n1", "q0", "d0", "d1", "l0", "a0", "PACKAGE_NAME", "REPOSITORY_NAME", "y", "z", "len", "list", "str", "select", "cc_library", "java_library", "name", "a", "b"}

var apiShadow = []string{"x0", "n0", "q0", "d0", "l0", "y", "z", "PACKAGE_NAME", "REPOSITORY_NAME", "d1", "name"}

// v gives an expression of the type ('x' for any).
func (g *apiGen) v(t byte, d int) string {
	if l := g.vars(t); len(l) > 0 && g.p(0.8) {
		return l[g.r.Intn(len(l))]
	}
	switch t {
	case 'd':
		switch g.r.Intn(4) {
		case 0:
			return "depset(" + g.list(d-1) + ")"
		case 1:
			return "depset(" + g.list(d-1) + ", transitive = [" + g.v('d', d-1) + "])"
		case 2:
			return "depset()"
		}
		return "depset([" + g.e(d-1) + "])"
	case 'n':
		return pick(g.r, "5184000", "0x4F1A00", "(2592000)", "1296000")
	case 'q':
		return pick(g.r, "1.5", "2.25", "(0.5)", "1e3", ".5")
	case 'l':
		return g.list(d - 1)
	}
	return g.atom()
}

func (g *apiGen) atom() string {
	if g.old(0.12) {
		if g.kind != KBuild && g.fn > 0 {
			return pick(g.r, "PACKAGE_NAME", "REPOSITORY_NAME")
		}
	}
	if g.modern && g.kind != KBuild && g.fn > 0 && g.p(0.1) {
		return pick(g.r, "native.package_name()", "native.repository_name()")
	}
	if l := g.vars('x'); len(l) > 0 && g.p(0.6) {
		return l[g.r.Intn(len(l))]
	}
	return pick(g.r, "f", "g", "h", "\"s\"", "\"k\"", "True", "None", "f.attr", "conf", "\"%s\"")
}

func (g *apiGen) list(d int) string {
	if d > 0 && g.p(0.15) {
		return g.comp(d)
	}
	n := g.r.Intn(3)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, g.e(d-1))
	}
	return "[" + strings.Join(l, ", ") + "]"
}

func (g *apiGen) iter(d int) string {
	switch g.r.Intn(5) {
	case 0, 1:
		if g.modern {
			return g.v('d', d-1) + ".to_list()"
		}
		return g.v('d', d-1)
	case 2:
		if g.old(0.4) {
			return g.v('d', d-1) + pick(g.r, " + ", " | ") + g.v('d', d-1)
		}
		return g.list(d - 1)
	case 3:
		return "f(" + g.e(d-1) + ")"
	}
	return "f"
}

func (g *apiGen) comp(d int) string {
	it := g.iter(d)
	g.push()
	v := pick(g.r, apiShadow...)
	g.set(v, 'x')
	vs := v
	if g.p(0.1) {
		vs = "(" + v + ")"
	}
	cl := "for " + vs + " in " + it
	if g.p(0.3) {
		cl += " if " + g.e(d-1)
	}
	if g.p(0.2) {
		w := pick(g.r, apiShadow...)
		it2 := g.iter(d - 1)
		g.set(w, 'x')
		cl += " for " + w + " in " + it2
	}
	body := g.e(d - 1)
	g.pop()
	return "[" + body + " " + cl + "]"
}

func (g *apiGen) num(d int) string {
	if d <= 0 {
		return g.v('n', 0)
	}
	div := "/"
	if g.modern {
		div = "//"
	}
	switch g.r.Intn(8) {
	case 0, 1, 2:
		return g.v('n', d-1) + " " + div + " " + pick(g.r, "2", "3", "4", "(2)", "0x4")
	case 3:
		return "(" + g.v('n', d-1) + " + " + g.v('q', d-1) + ") / 7"
	case 4:
		return "(" + g.v('q', d-1) + " - " + g.v('n', d-1) + ") / 7"
	case 5:
		return "7 / " + g.v('q', d-1) + " / 4"
	case 6:
		return g.v('q', d-1) + " / 3"
	}
	return "(" + g.v('n', d-1) + " " + div + " 2 " + pick(g.r, "+", "-") + " 2) * 3"
}

func (g *apiGen) kwargs(d int, names ...string) []string {
	var l []string
	for _, n := range names {
		if g.p(0.5) {
			l = append(l, n+" = "+g.bare(d-1))
		}
	}
	return l
}

// bare is an expression that may be without the parentheses it has elsewhere.
func (g *apiGen) bare(d int) string {
	if d > 0 && g.p(0.2) {
		return pick(g.r, g.e(d-1)+" if "+g.e(d-1)+" else "+g.e(d-1), g.atom()+" or "+g.e(d-1), g.atom()+" and "+g.e(d-1), "lambda: "+g.e(d-1))
	}
	return g.e(d)
}

func (g *apiGen) shuffle(l []string) []string {
	g.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

// ctxCall is a call of an action; statements only contain one each.
// decoy sends a call to another object, where its deprecated form means nothing.
func (g *apiGen) decoy(s, base string) string {
	if !g.p(0.12) {
		return s
	}
	other := pick(g.r, "f.", "g.", "conf.", "f."+base+".", "f(1).", "g.x.", "f[0].")
	if base != "" {
		return strings.Replace(s, base+".", other, 1)
	}
	return other + s
}

func (g *apiGen) ctxCall(d int) string { return g.decoy(g.ctxCall0(d), "ctx") }

func (g *apiGen) ctxCall0(d int) string {
	o := g.old(0.8)
	e := func() string { return g.e(d - 1) }
	sel := func(old, new string) string {
		if o {
			return "ctx." + old
		}
		return "ctx.actions." + new
	}
	switch g.r.Intn(8) {
	case 0:
		if !o {
			if g.p(0.5) {
				return "ctx.actions.declare_file(" + e() + ", sibling = " + e() + ")"
			}
			return "ctx.actions.declare_file(" + e() + ")"
		}
		switch g.r.Intn(5) {
		case 0:
			return "ctx.new_file(" + e() + ")"
		case 1:
			if g.p(0.3) {
				return pick(g.r, "ctx.new_file(*[f, g])", "ctx.new_file(f, *[g])", "ctx.new_file(*[g])", "ctx.new_file(f, *[])")
			}
		}
		return "ctx.new_file(" + e() + ", " + e() + ")"
	case 1:
		return sel("experimental_new_directory", "declare_directory") + "(" + pick(g.r, "", "filename = ") + e() + ")"
	case 2:
		l := []string{"output = " + e(), "content = " + e()}
		if g.p(0.6) {
			n := "is_executable"
			if o {
				n = "executable"
			}
			l = append(l, n+" = "+pick(g.r, "True", e()))
			if o && g.p(0.1) {
				l = l[:2]
				l[0], l[1] = e(), e()
				l = append(l, e())
				return sel("file_action", "write") + "(" + strings.Join(l, ", ") + ")"
			}
		}
		return sel("file_action", "write") + "(" + strings.Join(g.shuffle(l), ", ") + ")"
	case 3, 4:
		l := g.kwargs(d, "outputs", "inputs", "arguments", "env")
		new := "run"
		if g.p(0.5) {
			new = "run_shell"
			l = append(l, "command = "+e())
		} else {
			l = append(l, "executable = "+e())
		}
		l = g.shuffle(l)
		if g.p(0.15) {
			last := l[len(l)-1]
			kv := strings.SplitN(last, " = ", 2)
			l[len(l)-1] = "**{\"" + kv[0] + "\": " + kv[1] + "}"
		}
		return sel("action", new) + "(" + strings.Join(l, ", ") + ")"
	case 5:
		return sel("empty_action", "do_nothing") + "(" + strings.Join(g.kwargs(d, "mnemonic", "inputs"), ", ") + ")"
	case 6:
		l := append(g.kwargs(d, "substitutions"), "template = "+e(), "output = "+e())
		if g.p(0.5) {
			n := "is_executable"
			if o {
				n = "executable"
			}
			l = append(l, n+" = "+e())
		}
		return sel("template_action", "expand_template") + "(" + strings.Join(g.shuffle(l), ", ") + ")"
	}
	// args
	a := "a0"
	if g.typ("a0") != 'a' {
		a = "ctx.actions.args()"
	}
	l := []string{e()}
	if g.p(0.5) {
		l = append(l, e())
	}
	if !g.modern {
		return a + ".add(" + strings.Join(append(l, g.shuffle(g.kwargs(d, "before_each", "join_with", "map_fn"))...), ", ") + ")"
	}
	return a + ".add_all(" + strings.Join(append(l, g.kwargs(d, "before_each", "map_each")...), ", ") + ")"
}

func (g *apiGen) attrDef(d int) string {
	l := g.kwargs(d, "mandatory", "doc", "default")
	b := func() string {
		return pick(g.r, "True", "False", "True", "False", "conf", "not conf", "f(conf)", "(conf)", "conf and f.a", "f.b or conf", g.e(d-1), "not (conf and f.c)", "f.a if conf else f.b", "(f.c if conf else not f.d)", "conf == f", "f.x in conf", "not f.a or f.b", "not conf and f.b")
	}
	ch := func(old, new string) {
		if g.p(0.5) {
			if !g.modern {
				l = append(l, old)
			} else {
				l = append(l, new)
			}
		}
	}
	ch("non_empty = "+b(), "allow_empty = "+b())
	ch("cfg = "+pick(g.r, `"data"`, `"host"`, `"target"`, `"exec"`, "conf.out", `("data")`), `cfg = "exec"`)
	if g.p(0.5) {
		if !g.modern {
			l = append(l, "single_file = "+b())
			if g.p(0.5) {
				l = append(l, "allow_files = "+pick(g.r, "[\".c\"]", "f.types", g.e(d-1)))
			}
		} else {
			l = append(l, "allow_single_file = "+b())
		}
	}
	g.shuffle(l)
	if g.p(0.1) {
		l = append(l, "executable = "+b())
	}
	return g.decoy("attr."+pick(g.r, "label", "label_list", "string_list")+"("+strings.Join(l, ", ")+")", "attr")
}

// e is any expression without effects.
func (g *apiGen) e(d int) string {
	if d <= 0 {
		return g.atom()
	}
	switch g.r.Intn(22) {
	case 0, 1:
		return g.atom()
	case 2:
		return "f(" + g.e(d-1) + ", k = " + g.e(d-1) + ")"
	case 3:
		return "(" + g.e(d-1) + " if " + g.e(d-1) + " else " + g.e(d-1) + ")"
	case 4:
		return "(" + g.e(d-1) + pick(g.r, " and ", " or ", " == ", " != ") + g.e(d-1) + ")"
	case 5:
		return g.comp(d)
	case 6:
		g.push()
		n := pick(g.r, apiShadow...)
		g.set(n, 'x')
		def := ""
		if g.p(0.3) {
			g.pop()
			def = " = " + g.e(d-1)
			g.push()
			g.set(n, 'x')
		}
		b := g.e(d - 1)
		g.pop()
		return "h(lambda " + n + def + ": " + b + ")"
	case 7, 8:
		return g.num(d)
	case 9:
		return "{" + strings.Join(g.dictItems(d), ", ") + "}"
	case 10:
		return g.list(d)
	case 11:
		if g.hasCtx {
			if g.modern {
				return "ctx.attr.dep[OutputGroupInfo].out"
			}
			return pick(g.r, "ctx.attr.dep.output_group", "ctx.attr.dep.output_group.out", "ctx.attr.output_group.out", "ctx.attr.attr.output_group", "f(ctx.attr.dep.output_group)", "f.attr.x.output_group", "ctx.attr.dep.output_group.output_group")
		}
		return g.atom()
	case 12, 13:
		return g.builtin(d)
	case 14:
		if g.kind != KBuild {
			return g.attrDef(d)
		}
		return g.atom()
	case 15:
		n := pick(g.r, "PACKAGE_NAME", "REPOSITORY_NAME", "CcInfo", "k", "len", "cc_library")
		return "struct(" + n + " = " + g.e(d-1) + ", other = " + g.e(d-1) + ")"
	case 16:
		if g.old(0.7) {
			return "(" + g.e(d-1) + pick(g.r, " in ", " not in ") + g.v('d', d-1) + ")"
		}
		return "(" + g.e(d-1) + " in " + g.list(d-1) + ")"
	case 17:
		return "\"%s\" % (" + g.atom0() + ",)"
	case 18:
		if g.kind == KBuild {
			return g.atom()
		}
		n := pick(g.r, "CcInfo", "ProtoInfo", "JavaInfo")
		if g.modern {
			return g.atom()
		}
		return pick(g.r, n, "f["+n+"]", "("+n+" in f)")
	}
	return "not " + g.e(d-1)
}

func (g *apiGen) atom0() string { return strconv.Quote(pick(g.r, "p", "q")) }

func (g *apiGen) dictItems(d int) []string {
	keys := []string{"b", "a", "_c", "//conditions:default", "//x:y", "k"}
	g.shuffle(keys)
	var l []string
	for _, k := range keys[:g.r.Intn(4)] {
		l = append(l, strconv.Quote(k)+": "+g.e(d-1))
	}
	if g.p(0.2) {
		l = append(l, "f.key: "+g.e(d-1))
		g.shuffle(l)
	}
	return l
}

func (g *apiGen) builtin(d int) string {
	ok := func(n string) bool { return g.typ(n) == 0 }
	n := pick(g.r, "all", "any", "list", "tuple", "len", "str", "repr", "bool", "int", "dir", "type", "getattr", "hasattr", "select", "sorted", "max", "min", "depset", "my_len")
	kw := g.old(0.5)
	arg := func(name, e string) string {
		if kw {
			return name + " = " + e
		}
		return e
	}
	if !ok(n) {
		return n + "(" + arg("x", g.e(d-1)) + ")"
	}
	it := func() string { return g.iter(d) }
	switch n {
	case "all", "any":
		return n + "(" + arg("elements", it()) + ")"
	case "list", "tuple", "len":
		return n + "(" + arg("x", it()) + ")"
	case "sorted", "max", "min", "depset":
		return n + "(" + it() + ")"
	case "getattr":
		l := []string{arg("x", g.e(d-1)), arg("name", "\"n\""), arg("default", g.e(d-1))}
		if kw && g.p(0.3) {
			l[0] = strings.TrimPrefix(l[0], "x = ")
		}
		if kw && g.p(0.3) {
			g.shuffle(l)
			for i, x := range l { // positional first
				if !strings.Contains(strings.SplitN(x, "(", 2)[0], " = ") {
					l[0], l[i] = l[i], l[0]
				}
			}
			if !strings.HasPrefix(l[0], "x =") && !strings.HasPrefix(l[0], "name =") && !strings.HasPrefix(l[0], "default =") && (strings.HasPrefix(l[1], "x =") || strings.HasPrefix(l[2], "x =")) {
				return g.atom()
			}
		}
		return n + "(" + strings.Join(l, ", ") + ")"
	case "hasattr":
		return n + "(" + g.e(d-1) + ", " + arg("name", "\"n\"") + ")"
	case "my_len":
		return "f.len(" + arg("x", g.e(d-1)) + ")"
	case "select":
		return n + "(" + arg("x", "{"+strings.Join(g.dictItems(d), ", ")+"}") + ")"
	}
	return n + "(" + arg("x", g.e(d-1)) + ")"
}

func (g *apiGen) ruleCall(d int) string {
	var names []string
	for n := range apiRules {
		if !strings.HasSuffix(n, "Info") {
			names = append(names, n)
		}
	}
	sortStrings(names)
	n := names[g.r.Intn(len(names))]
	if g.p(0.4) {
		n = pick(g.r, "cc_library", "java_library")
	}
	if g.modern {
		n = "genrule"
	}
	if g.kind == KBzl && (g.p(0.6) || g.modern) || g.kind == KBuild && g.old(0.15) && g.typ(n) == 0 {
		n = "native." + n
	}
	l := append([]string{"name = " + pick(g.r, `"t"`, g.e(d-1))}, g.kwargs(d, "srcs", "deps", "tags")...)
	return n + "(" + strings.Join(l, ", ") + ")"
}

func sortStrings(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

type apiOut struct {
	strings.Builder
}

func (o *apiOut) line(ind int, s string) { o.WriteString(strings.Repeat("    ", ind) + s + "\n") }

func (g *apiGen) block(o *apiOut, ind, n int) {
	for i := 0; i < n; i++ {
		g.stmt(o, ind)
	}
}

func (g *apiGen) stmt(o *apiOut, ind int) {
	d := 2
	switch g.r.Intn(13) {
	case 0, 1, 2:
		if g.hasCtx {
			c := g.ctxCall(d)
			if g.p(0.4) && strings.HasPrefix(c, "ctx.") {
				c = "z = " + c
			} else if g.p(0.3) {
				c = "f(" + c + ")"
			}
			o.line(ind, c)
			return
		}
		o.line(ind, g.ruleCall(d))
	case 3:
		o.line(ind, g.ruleCall(d))
	case 4:
		if !g.modern && g.p(0.2) {
			o.line(ind, "z = [[], {\"k\": []}]")
			o.line(ind, pick(g.r, "z[0]", "z[f.z != h]", "z[1][\"k\"]", "(z[0])")+" += ["+g.bare(d)+"]")
			o.line(ind, "h(z)")
		} else if l := g.vars('l'); len(l) > 0 {
			x := l[g.r.Intn(len(l))]
			if g.modern {
				o.line(ind, x+".append("+g.e(d)+")")
			} else {
				o.line(ind, x+" += ["+g.bare(d)+"]")
			}
		}
	case 5:
		o.line(ind, "if "+g.e(d)+":")
		g.block(o, ind+1, 1+g.r.Intn(2))
		o.line(ind+1, "pass")
		if g.p(0.4) {
			o.line(ind, "else:")
			g.block(o, ind+1, 1)
			o.line(ind+1, "pass")
		}
	case 6:
		o.line(ind, "for z in "+g.iter(d)+":")
		g.block(o, ind+1, 1+g.r.Intn(2))
		o.line(ind+1, "pass")
	case 7:
		o.line(ind, "z = "+g.e(d))
	case 8:
		o.line(ind, "f.field["+g.e(1)+"] = "+g.e(d))
	case 9:
		if g.fn < 3 {
			g.def(o, ind, pick(g.r, "_in0", "_in1"))
			o.line(ind, "h("+pick(g.r, "_in0", "_in1")+")")
			// both names have to exist
			return
		}
		o.line(ind, "return "+g.e(d))
	case 10:
		if g.p(0.3) {
			o.line(ind, "return "+g.e(d))
		}
	case 11:
		o.line(ind, "h("+g.num(d)+")")
	case 12:
		o.line(ind, "z = f("+g.e(d)+", "+g.e(d)+")")
	}
}

func (g *apiGen) def(o *apiOut, ind int, name string) {
	hadCtx := g.hasCtx
	var ps []string
	g.push()
	local := map[string]byte{}
	if g.p(0.5) && ind == 0 {
		ps = append(ps, "ctx")
		local["ctx"] = 'c'
	}
	for i := g.r.Intn(3); i > 0; i-- {
		n := pick(g.r, apiShadow...)
		if local[n] == 0 {
			ps = append(ps, n)
			local[n] = 'x'
		}
	}
	if g.p(0.2) {
		ps = append(ps, "k0 = "+g.e(1))
	}
	if g.p(0.1) {
		ps = append(ps, "**kwargs")
	}
	for n, t := range local {
		g.set(n, t)
		if n == "ctx" {
			g.hasCtx = true
		}
	}
	g.fn++
	o.line(ind, "def "+name+"("+strings.Join(ps, ", ")+"):")
	ind++
	if g.p(0.2) {
		o.line(ind, `"""Doc."""`)
	}
	o.line(ind, "z = 0")
	o.line(ind, "z = f.z")
	g.set("z", 'x')
	decl := func(n string, t byte, val string) {
		if local[n] == 0 {
			o.line(ind, n+" = "+val)
			g.set(n, t)
			local[n] = t
		}
	}
	if g.p(0.4) {
		decl("n0", 'n', pick(g.r, "5184000", "(2592000)"))
		for i := 0; i < 2 && g.typ("n0") == 'n' && local["n0"] == 'n'; i++ {
			if g.p(0.3) {
				if g.modern {
					o.line(ind, "n0 //= 2")
				} else {
					o.line(ind, "n0 /= "+pick(g.r, "2", "3"))
				}
			}
		}
	}
	if g.p(0.3) {
		decl("q0", 'q', pick(g.r, "1.5", "0.25"))
	}
	if g.p(0.5) {
		decl("d0", 'd', "depset("+g.list(1)+")")
	}
	if g.p(0.3) {
		decl("d1", 'd', g.v('d', 1))
	}
	if g.p(0.5) {
		decl("l0", 'l', g.list(1))
	}
	if g.hasCtx && local["ctx"] != 0 && g.p(0.4) {
		decl("a0", 'a', "ctx.actions.args()")
	}
	if !g.modern && g.p(0.08) {
		decl("PACKAGE_NAME", 'x', "f.pkg")
	}
	if g.p(0.3) {
		decl("x1", 'x', g.e(2))
	}
	// nested functions exist before they are used
	if g.fn < 3 {
		o.line(ind, "_in0 = f")
		o.line(ind, "_in1 = g")
	}
	g.block(o, ind, 1+g.r.Intn(4))
	if g.p(0.6) {
		o.line(ind, "return "+pick(g.r, g.e(2), "z", "[z]"))
	}
	g.fn--
	g.pop()
	g.hasCtx = hadCtx
}

func apiProgram(r *rand.Rand, k FileKind, modern bool) string {
	g := &apiGen{r: r, kind: k, modern: modern}
	g.push()
	o := &apiOut{}
	if g.p(0.2) {
		o.line(0, `"""Doc."""`)
		o.line(0, "")
	}
	load := func(m string, names ...string) {
		o.line(0, "load("+strconv.Quote(m)+", "+strings.Join(names, ", ")+")")
	}
	if g.p(0.3) {
		n := pick(g.r, "cc_library", "java_library")
		if g.p(0.5) && !modern {
			load(":defs.bzl", strconv.Quote(n))
			g.set(n, 'x')
		} else {
			load(apiRules[n], strconv.Quote(n))
		}
	}
	if g.p(0.2) && !modern {
		load(":defs.bzl", `"my_rule"`, pick(g.r, `"a"`, `"b"`, `"PACKAGE_NAME"`, `y = "PACKAGE_NAME"`, `"len"`, `"str"`, `"select"`, `"list"`, `y = "d0"`))
		for _, n := range []string{"PACKAGE_NAME", "len", "str", "select", "list"} {
			if strings.Contains(o.String(), `, "`+n+`"`) {
				g.set(n, 'x')
			}
		}
	}
	if k == KBuild {
		n := 2 + r.Intn(5)
		pk := r.Intn(2 * n)
		for i := 0; i < n; i++ {
			if i == pk {
				o.line(0, "package(default_visibility = "+g.e(1)+")")
			}
			switch r.Intn(6) {
			case 0:
				v := pick(r, "x0", "x1", "n0", "d0", "l0", "q0")
				t := v[0]
				if g.typ(v) == 0 {
					o.line(0, v+" = "+map[byte]string{'x': g.e(2), 'n': "5184000", 'd': "depset(" + g.list(1) + ")", 'l': g.list(1), 'q': "1.5"}[t])
					g.set(v, t)
				}
			case 1:
				if l := g.vars('l'); len(l) > 0 && !modern {
					o.line(0, l[0]+" += ["+g.e(1)+"]")
				}
			default:
				o.line(0, g.ruleCall(2))
			}
		}
		return o.String()
	}
	if g.p(0.3) {
		o.line(0, "x0 = "+g.e(2))
		g.set("x0", 'x')
	}
	if g.p(0.2) {
		o.line(0, "n1 = 5184000")
		g.set("n1", 'n')
	}
	if g.p(0.2) {
		o.line(0, "d1 = depset("+g.list(1)+")")
		g.set("d1", 'd')
	}
	if !modern && g.p(0.15) {
		n := pick(r, "cc_library", "java_library", "my_lib", "len", "select", "str")
		if g.typ(n) == 0 {
			if strings.HasSuffix(n, "library") {
				o.line(0, "def "+n+"(name, **kwargs):")
				o.line(1, "native."+n+"(name = name, **kwargs)")
			} else {
				o.line(0, "def "+n+"(y = 1, x = 2):")
				o.line(1, "return f.shadow(x, y)")
			}
			g.set(n, 'x')
		}
	}
	for i := 0; i < 1+r.Intn(3); i++ {
		g.def(o, 0, "fn"+strconv.Itoa(i))
	}
	if g.p(0.5) {
		o.line(0, "my_rule"+strconv.Itoa(r.Intn(2))+" = rule(implementation = fn0, attrs = {"+strings.Join(func() (l []string) {
			for i := 0; i < 1+r.Intn(3); i++ {
				l = append(l, strconv.Quote(pick(r, "c", "b", "a", "_z")+strconv.Itoa(i))+": "+g.attrDef(2))
			}
			return
		}(), ", ")+"})")
	}
	return o.String()
}

var apiCosmetic = map[string]bool{"unsorted-dict-items": true, "load": true, "load-on-top": true, "same-origin-load": true, "out-of-order-load": true, "package-on-top": true, "skylark-comment": true, "skylark-docstring": true}

func apiModernCats() (out []string) {
	for _, c := range lintCats {
		if !apiCosmetic[c] {
			out = append(out, c)
		}
	}
	return
}

func apiOne(c *Ctx, k FileKind, text string, cats []string, modern bool) (sig, detail string) {
	f := lintParse(k, text)
	if f == nil {
		return
	}
	text = string(build.Format(f))
	before, err := slCompile(text, apiNames)
	if err != nil {
		return
	}
	if lintParse(k, text) == nil {
		return
	}
	out, _ := lintFixed(k, text, cats, lintWorkspaces[0].files)
	if modern {
		if out != text {
			return "modern-changed", "a program without deprecated forms is changed:\n" + lineDiff(text, out)
		}
		return
	}
	if out == text {
		return
	}
	after, err := slCompile(out, apiNames)
	if err != nil {
		return "broken", "the fixed program is not accepted: " + err.Error() + "\n" + lineDiff(text, out)
	}
	for seed := int64(1); seed <= 4; seed++ {
		a, refs := apiExec(before, seed)
		b, left := apiExec(after, seed)
		if c != nil {
			c.Count("runs", 1)
			c.Count("functions", len(a))
			c.Count("deprecated calls", refs)
			if left < refs {
				c.Count("deprecated calls replaced", refs-left)
			}
		}
		res := map[string]apiRun{}
		for _, x := range b {
			res[x.name] = x
		}
		for _, x := range a {
			if x.err != "" {
				if c != nil {
					c.Count("functions failing before", 1)
					if strings.Contains(x.err, "unexpected") || seed == 1 {
						c.Sample("fails before: " + x.err)
					}
				}
				if x.name == "<toplevel>" {
					return
				}
				continue
			}
			y, ok := res[x.name]
			switch {
			case y.err != "":
				return "fails", fmt.Sprintf("%s fails after the fixes: %s\n%s", x.name, y.err, lineDiff(text, out))
			case !ok:
				return "gone", x.name + " is gone\n" + lineDiff(text, out)
			}
			la, lb := apiOrder(x.log), apiOrder(y.log)
			for i := 0; i < len(la) || i < len(lb); i++ {
				p, q := "nothing", "nothing"
				if i < len(la) {
					p = la[i]
				}
				if i < len(lb) {
					q = lb[i]
				}
				if p != q {
					return "different", fmt.Sprintf("%s, event %d: before the fixes\n  %s\nafter\n  %s\n%s", x.name, i, p, q, lineDiff(text, out))
				}
			}
			if c != nil {
				c.Count("events compared", len(la))
			}
		}
	}
	return
}

// apiOrder puts package declarations first.
func apiOrder(log []string) (out []string) {
	for _, l := range log {
		if strings.HasPrefix(l, "package(") {
			out = append(out, l)
		}
	}
	for _, l := range log {
		if !strings.HasPrefix(l, "package(") {
			out = append(out, l)
		}
	}
	return
}

func checkLintAPI(c *Ctx) {
	c.Rule("programs run in an interpreter whose world has the deprecated and the new API with their documented equivalence: after FixWarnings the program compiles and, for every seed of the world, each function and the top level make the same normalised calls in the same order with the same results; programs without deprecated forms are not changed")
	n := c.N(6000, 100000)
	c.parallel(n, 8, 19, func(i int, r *rand.Rand) {
		if i%4 == 0 {
			if sig, detail, text := typedLoads(c, r); sig != "" {
				c.Violate(sig, detail, text)
			}
		}
		k := pick(r, KBzl, KBzl, KBzl, KBuild)
		modern := r.Intn(8) == 0
		text := apiProgram(r, k, modern)
		cats := lintSubset(r)
		if modern {
			cats = apiModernCats()
		}
		c.Case(text)
		if _, err := slCompile(text, apiNames); err != nil {
			c.Count("rejected", 1)
			if i < 200 {
				c.Sample("rejected: " + err.Error())
			}
			return
		}
		c.Eval(text + strings.Join(cats, ","))
		f := func(c *Ctx, s string) (sig, detail string) {
			defer func() {
				if e := recover(); e != nil {
					sig, detail = "panic", fmt.Sprint(e)
				}
			}()
			return apiOne(c, k, s, cats, modern)
		}
		if sig, detail := f(c, text); sig != "" {
			small := text
			if !modern && !strings.Contains(text, " / ") {
				small = shrink(text, func(s string) bool { g, _ := f(nil, s); return g == sig })
			}
			if _, d := f(nil, small); d != "" {
				detail = d
			}
			for _, cat := range cats {
				if g, _ := apiOne(nil, k, small, []string{cat}, modern); g != "" {
					sig += ":" + cat
					break
				}
			}
			c.Violate(sig, kindFile[k]+": "+detail, small)
		}
	})
}

// ---- loads used as types ----

// typeExpr writes a type annotation; names are taken from the pool.
func typeExpr(r *rand.Rand, name func() string, depth int) string {
	sub := func() string { return typeExpr(r, name, depth-1) }
	if depth <= 0 {
		return pick(r, name, name, func() string { return pick(r, "int", "str", "None", "list") })()
	}
	switch r.Intn(9) {
	case 0:
		return sub() + " | " + sub()
	case 1:
		if r.Intn(3) == 0 {
			return name() + "[" + sub() + "]"
		}
		return pick(r, "list", "tuple") + "[" + sub() + "]"
	case 2:
		return "dict[" + sub() + ", " + sub() + "]"
	case 3:
		return name() + ".type"
	case 4:
		return name() + "." + pick(r, "Info", "a.b")
	case 5:
		return pick(r, "list", "Callable") + "[[" + sub() + "], " + sub() + "]"
	case 6:
		return "(" + sub() + ")"
	case 7:
		return "tuple[" + sub() + ", " + sub() + ", " + sub() + "]"
	}
	return sub()
}

// typedLoads: names that are loaded and used in annotations stay loaded, names used nowhere are reported and go.
func typedLoads(c *Ctx, r *rand.Rand) (sig, detail, text string) {
	n := 2 + r.Intn(5)
	used := map[string]bool{}
	name := func() string {
		s := fmt.Sprintf("T%d", r.Intn(n))
		used[s] = true
		return s
	}
	var body strings.Builder
	for i := 1 + r.Intn(2); i > 0; i-- {
		var ps []string
		for j := r.Intn(3); j > 0; j-- {
			p := fmt.Sprintf("p%d: %s", j, typeExpr(r, name, r.Intn(3)))
			if len(ps) > 0 && strings.Contains(ps[len(ps)-1], "=") || r.Intn(4) == 0 {
				p += " = " + pick(r, "1", "None")
			}
			ps = append(ps, p)
		}
		if r.Intn(3) == 0 {
			ps = append(ps, "*args: "+typeExpr(r, name, 1))
		}
		if r.Intn(3) == 0 {
			ps = append(ps, "**kwargs: "+typeExpr(r, name, 1))
		}
		ret := ""
		if r.Intn(2) == 0 {
			ret = " -> " + typeExpr(r, name, r.Intn(3))
		}
		fmt.Fprintf(&body, "\ndef f%d(%s)%s:\n    pass\n", i, strings.Join(ps, ", "), ret)
	}
	var names []string
	for i := 0; i < n; i++ {
		x := fmt.Sprintf("T%d", i)
		if r.Intn(3) == 0 {
			names = append(names, x+" = \"U\"")
		} else {
			names = append(names, strconv.Quote(x))
		}
	}
	text = "load(\":a.bzl\", " + strings.Join(names, ", ") + ")\n" + body.String()
	f := lintParse(KBzl, text)
	if f == nil {
		c.Count("typed programs rejected", 1)
		return
	}
	c.Count("typed programs", 1)
	reported := map[string]bool{}
	for _, x := range warn.FileWarnings(f, []string{"load"}, nil, warn.ModeWarn, lintWS{}.reader()) {
		if m := regexp.MustCompile(`Loaded symbol "(\w+)" is unused`).FindStringSubmatch(x.Message); m != nil {
			reported[m[1]] = true
		}
	}
	warn.FixWarnings(f, []string{"load"}, false, lintWS{}.reader())
	left := map[string]bool{}
	for _, s := range f.Stmt {
		if l, ok := s.(*build.LoadStmt); ok {
			for _, x := range l.To {
				left[x.Name] = true
			}
		}
	}
	for i := 0; i < n; i++ {
		x := fmt.Sprintf("T%d", i)
		if used[x] == reported[x] || used[x] != left[x] {
			return "typed-load", fmt.Sprintf("%s: used %v, reported as unused %v, loaded after the fix %v", x, used[x], reported[x], left[x]), text
		}
	}
	// buildozer's clean-up
	g := lintParse(KBzl, text)
	edit.FixFile(g, "pkg", []string{"unusedLoads"})
	left = map[string]bool{}
	for _, s := range g.Stmt {
		if l, ok := s.(*build.LoadStmt); ok {
			for _, x := range l.To {
				left[x.Name] = true
			}
		}
	}
	for i := 0; i < n; i++ {
		if x := fmt.Sprintf("T%d", i); used[x] && !left[x] {
			return "typed-load-buildozer", fmt.Sprintf("%s is used, but no longer loaded after fix unusedLoads", x), text
		}
	}
	return
}
