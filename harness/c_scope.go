package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/bzlenv"
	"go.starlark.net/resolve"
	"go.starlark.net/syntax"
)

func init() { checks["C39"] = checkScope }

// Name resolution: every identifier that the reference implementation of the language resolves is
// looked up in the environment the walk gives at that place.

type scopeGen struct {
	r     *rand.Rand
	sb    strings.Builder
	fn    int
	loop  int
	loads []string
}

func (g *scopeGen) p(f float64) bool { return g.r.Float64() < f }
func (g *scopeGen) n() string        { return pick(g.r, "a", "b", "c", "d", "x", "y", "len") }

func (g *scopeGen) target(d int) string {
	switch {
	case d <= 0 || g.p(0.6):
		return g.n()
	case g.p(0.3):
		return "(" + g.target(d-1) + ")"
	case g.p(0.3):
		return "[" + g.target(d-1) + ", " + g.target(d-1) + "]"
	}
	return "(" + g.target(d-1) + ", " + g.target(d-1) + ")"
}

func (g *scopeGen) params(d int) string {
	seen := map[string]bool{}
	var l []string
	def := false
	for i := g.r.Intn(4); i > 0; i-- {
		n := g.n()
		if seen[n] {
			continue
		}
		seen[n] = true
		if def = def || g.p(0.3); def {
			n += " = " + g.e(d-1)
		}
		l = append(l, n)
	}
	if n := g.n(); g.p(0.15) && !seen[n] {
		seen[n] = true
		l = append(l, "*"+n)
		if n := g.n(); g.p(0.4) && !seen[n] {
			seen[n] = true
			l = append(l, n+pick(g.r, "", " = "+g.e(d-1)))
		}
	} else if n := g.n(); g.p(0.1) && !seen[n] {
		seen[n] = true
		l = append(l, "*", n)
	}
	if n := g.n(); g.p(0.15) && !seen[n] {
		l = append(l, "**"+n)
	}
	return strings.Join(l, ", ")
}

func (g *scopeGen) e(d int) string {
	if d <= 0 {
		return pick(g.r, g.n(), g.n(), g.n(), "1", "None", "\"a\"")
	}
	switch g.r.Intn(14) {
	case 0, 1:
		return g.n()
	case 2:
		return "lambda " + g.params(d) + ": " + g.e(d-1)
	case 3, 4:
		s := g.e(d-1) + " for " + pick(g.r, g.n(), g.target(1), g.n()+", "+g.n()) + " in " + "(" + g.e(d-1) + ")"
		for i := g.r.Intn(3); i > 0; i-- {
			if g.p(0.5) {
				s += " if (" + g.e(d-1) + ")"
			} else {
				s += " for " + g.target(1) + " in (" + g.e(d-1) + ")"
			}
		}
		if g.p(0.3) {
			return "{" + g.e(d-1) + ": " + s + "}"
		}
		return "[" + s + "]"
	case 5:
		return g.n() + "(" + g.e(d-1) + ", " + g.n() + " = " + g.e(d-1) + pick(g.r, "", ", *"+g.n(), ", **"+g.n()) + ")"
	case 6:
		return g.n() + "." + g.n()
	case 7:
		return g.n() + "[" + g.e(d-1) + pick(g.r, "", ":", ":"+g.n()) + "]"
	case 8:
		return "(" + g.e(d-1) + " if " + g.e(d-1) + " else " + g.e(d-1) + ")"
	case 9:
		return "{" + g.e(d-1) + ": " + g.e(d-1) + "}"
	case 10:
		return "(" + g.e(d-1) + ", " + g.e(d-1) + ")"
	case 11:
		return "[" + g.e(d-1) + "]"
	case 12:
		return "(" + g.e(d-1) + pick(g.r, " + ", " and ", " not in ", " == ") + g.e(d-1) + ")"
	}
	return pick(g.r, "not ", "-") + "(" + g.e(d-1) + ")"
}

func (g *scopeGen) line(ind int, s string) {
	g.sb.WriteString(strings.Repeat("    ", ind) + s + "\n")
}

func (g *scopeGen) block(ind, d int) {
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		g.stmt(ind, d)
	}
}

func (g *scopeGen) stmt(ind, d int) {
	switch n := g.r.Intn(12); {
	case n < 2:
		g.line(ind, g.e(2))
	case n < 5:
		g.line(ind, pick(g.r, g.target(2), g.n(), g.n()+", "+g.n(), g.n()+"[0]", g.n()+"."+g.n())+" = "+g.e(2))
	case n == 5:
		g.line(ind, g.n()+pick(g.r, " += ", " |= ")+g.e(2))
	case n == 6 && d > 0:
		g.line(ind, "if "+g.e(1)+":")
		g.block(ind+1, d-1)
		if g.p(0.3) {
			g.line(ind, "elif "+g.e(1)+":")
			g.block(ind+1, d-1)
		}
		if g.p(0.5) {
			g.line(ind, "else:")
			g.block(ind+1, d-1)
		}
	case n == 7 && d > 0:
		g.line(ind, "for "+pick(g.r, g.n(), g.target(2), g.n()+", "+g.n())+" in "+g.e(2)+":")
		g.block(ind+1, d-1)
	case n < 10 && d > 0:
		g.line(ind, "def "+g.n()+"("+g.params(2)+"):")
		g.fn++
		g.block(ind+1, d-1)
		if g.p(0.5) {
			g.line(ind+1, "return "+g.e(2))
		}
		g.fn--
	default:
		if g.fn > 0 {
			g.line(ind, "return "+g.e(2))
		} else {
			g.line(ind, g.e(1))
		}
	}
}

func scopeProgram(r *rand.Rand) string {
	g := &scopeGen{r: r}
	if g.p(0.4) {
		g.line(0, `load(":m.bzl", `+pick(r, `"l", y = "a"`, `"a"`, `d = "b"`, `"len"`, `x = "x"`)+")")
	}
	for i := 2 + r.Intn(4); i > 0; i-- {
		if g.p(0.4) {
			g.line(0, "def "+g.n()+"("+g.params(2)+"):")
			g.fn++
			g.block(1, 3)
			g.fn--
		} else {
			g.stmt(0, 3)
		}
	}
	return g.sb.String()
}

type scopePos struct{ line, col int }

type scopeUse struct {
	name  string
	class *syntax.Ident // first identifier of the binding, nil for names that are not defined in the file
	early bool          // a use at the top level before a definition there
}

// scopeOracle resolves the names of the program with the reference implementation.
func scopeOracle(text string) (uses map[scopePos]scopeUse, kinds map[*syntax.Ident]map[bzlenv.ValueKind]bool, err error) {
	f, err := syntax.Parse("p.star", text, 0)
	if err != nil {
		return nil, nil, err
	}
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("resolver: %v", e)
		}
	}()
	if err := resolve.File(f, func(string) bool { return true }, func(string) bool { return false }); err != nil {
		return nil, nil, err
	}
	uses = map[scopePos]scopeUse{}
	kinds = map[*syntax.Ident]map[bzlenv.ValueKind]bool{}
	class := func(id *syntax.Ident) (*syntax.Ident, bool) {
		b, ok := id.Binding.(*resolve.Binding)
		if !ok || b == nil {
			return nil, false
		}
		if b.Scope == resolve.Predeclared || b.Scope == resolve.Universal || b.Scope == resolve.Undefined {
			return nil, true
		}
		return b.First, true
	}
	loaded := map[*syntax.Ident]bool{}
	kind := func(id *syntax.Ident, k bzlenv.ValueKind) {
		c, _ := class(id)
		if c == nil {
			return
		}
		if kinds[c] == nil {
			kinds[c] = map[bzlenv.ValueKind]bool{}
		}
		if b := id.Binding.(*resolve.Binding); k == bzlenv.Local && b.Scope == resolve.Global {
			k = bzlenv.Global
		}
		kinds[c][k] = true
	}
	var mark func(e syntax.Expr, k bzlenv.ValueKind)
	mark = func(e syntax.Expr, k bzlenv.ValueKind) {
		switch e := e.(type) {
		case *syntax.Ident:
			kind(e, k)
		case *syntax.ParenExpr:
			mark(e.X, k)
		case *syntax.TupleExpr:
			for _, x := range e.List {
				mark(x, k)
			}
		case *syntax.ListExpr:
			for _, x := range e.List {
				mark(x, k)
			}
		case *syntax.BinaryExpr: // parameter with a default value
			mark(e.X, k)
		case *syntax.UnaryExpr: // *args
			if e.X != nil {
				mark(e.X, k)
			}
		}
	}
	syntax.Walk(f, func(n syntax.Node) bool {
		switch n := n.(type) {
		case *syntax.LoadStmt:
			for i := range n.To {
				kind(n.To[i], bzlenv.Imported)
				loaded[n.To[i]], loaded[n.From[i]] = true, true
			}
		case *syntax.AssignStmt:
			if _, ok := n.LHS.(*syntax.BinaryExpr); !ok {
				mark(n.LHS, bzlenv.Local)
			}
		case *syntax.ForStmt:
			mark(n.Vars, bzlenv.Local)
		case *syntax.Comprehension:
			for _, cl := range n.Clauses {
				if fc, ok := cl.(*syntax.ForClause); ok {
					mark(fc.Vars, bzlenv.Local)
				}
			}
		case *syntax.DefStmt:
			kind(n.Name, bzlenv.Function)
			for _, p := range n.Params {
				mark(p, bzlenv.Parameter)
			}
		case *syntax.LambdaExpr:
			for _, p := range n.Params {
				mark(p, bzlenv.Parameter)
			}
		case *syntax.Ident:
			if c, ok := class(n); ok && !loaded[n] {
				uses[scopePos{int(n.NamePos.Line), int(n.NamePos.Col)}] = scopeUse{name: n.Name, class: c}
			}
		}
		return true
	})
	// The resolver is set up to allow statements that Bazel does not allow at the top level, and
	// then takes names used there before their definition for predeclared ones.
	global := map[string]bool{}
	for c, ks := range kinds {
		if ks[bzlenv.Imported] && len(ks) > 1 {
			return nil, nil, fmt.Errorf("%s is loaded and defined", c.Name)
		}
		if b := c.Binding.(*resolve.Binding); b.Scope == resolve.Global || ks[bzlenv.Imported] {
			if global[c.Name] {
				return nil, nil, fmt.Errorf("%s is loaded and defined", c.Name)
			}
			global[c.Name] = true
		}
	}
	for at, u := range uses {
		if u.class == nil && global[u.name] {
			u.early = true
			uses[at] = u
		}
	}
	return
}

func scopeOne(c *Ctx, k FileKind, text string) (sig, detail string) {
	uses, kinds, err := scopeOracle(text)
	if err != nil {
		return
	}
	f := lintParse(k, text)
	if f == nil {
		return
	}
	ids := map[int]*syntax.Ident{}
	classes := map[*syntax.Ident]int{}
	seen := map[scopePos]bool{}
	fail := func(s, format string, a ...interface{}) {
		if sig == "" {
			sig, detail = s, fmt.Sprintf(format, a...)
		}
	}
	look := func(name string, at scopePos, env *bzlenv.Environment) {
		use, ok := uses[at]
		info := env.Get(name)
		where := fmt.Sprintf("%s at %d:%d", name, at.line, at.col)
		if !ok {
			if info != nil {
				fail("not-a-variable", "%s is not a variable but resolved to %v %v", where, info.Kind, info.ID)
			}
			return
		}
		if seen[at] {
			fail("visited-twice", "%s is visited twice", where)
		}
		seen[at] = true
		if c != nil {
			c.Count("names", 1)
		}
		if use.early {
			return
		}
		if use.class == nil {
			if info != nil {
				fail("bound", "%s is not defined in the file but resolved to a %v", where, info.Kind)
			}
			return
		}
		at0 := fmt.Sprintf("the one of %d:%d", use.class.NamePos.Line, use.class.NamePos.Col)
		if info == nil {
			fail("unbound", "%s is %s but has no binding", where, at0)
			return
		}
		if info.Name != name {
			fail("name", "%s resolved to a binding of the name %s", where, info.Name)
		}
		if o, ok := ids[info.ID]; ok && o != use.class {
			fail("merged", "%s is %s but has the identifier of the one of %d:%d", where, at0, o.NamePos.Line, o.NamePos.Col)
		}
		if o, ok := classes[use.class]; ok && o != info.ID {
			fail("split", "%s is %s, which has been resolved to another binding elsewhere", where, at0)
		}
		ids[info.ID], classes[use.class] = use.class, info.ID
		if want := kinds[use.class]; !want[info.Kind] {
			fail("kind", "%s is %s, of kind %v, but resolved to a %v", where, at0, want, info.Kind)
		} else if c != nil {
			c.Count("resolved_"+info.Kind.String(), 1)
		}
	}
	var fns []*build.DefStmt
	var walk func(e *build.Expr, env *bzlenv.Environment)
	walk = func(e *build.Expr, env *bzlenv.Environment) {
		if *e == nil {
			return
		}
		switch x := (*e).(type) {
		case *build.Ident:
			if len(env.Stack) > 0 {
				if _, ok := env.Stack[len(env.Stack)-1].(*build.LoadStmt); ok {
					if info := env.Get(x.Name); info == nil || info.Kind != bzlenv.Imported {
						fail("load", "the loaded name %s resolved to %v", x.Name, info)
					}
					return
				}
			}
			look(x.Name, scopePos{x.NamePos.Line, x.NamePos.LineRune}, env)
		case *build.DefStmt:
			look(x.Name, scopePos{x.StartPos.Line, x.StartPos.LineRune + len("def ")}, env)
		}
		// the enclosing function
		if _, ok := (*e).(*build.File); !ok {
			want := (*build.DefStmt)(nil)
			if len(fns) > 0 {
				want = fns[len(fns)-1]
			}
			outer := want
			if len(fns) > 1 {
				outer = fns[len(fns)-2]
			} else {
				outer = nil
			}
			if env.Function != want && env.Function != outer {
				s, _ := (*e).Span()
				fail("function", "at %d:%d the enclosing function is %v", s.Line, s.LineRune, env.Function)
			}
			if want != nil && env.Function == outer && !inDefault(env.Stack, *e, want) {
				s, _ := (*e).Span()
				fail("function", "at %d:%d the enclosing function is not %s", s.Line, s.LineRune, want.Name)
			}
		}
		if d, ok := (*e).(*build.DefStmt); ok {
			fns = append(fns, d)
			defer func() { fns = fns[:len(fns)-1] }()
		}
		depth, blocks := len(env.Stack), len(env.Blocks)
		bzlenv.WalkOnceWithEnvironment(*e, env, walk)
		if len(env.Stack) != depth || len(env.Blocks) != blocks {
			fail("unbalanced", "the environment after %T has %d blocks and %d parents, %d and %d before", *e, len(env.Blocks), len(env.Stack), blocks, depth)
		}
	}
	var e build.Expr = f
	walk(&e, bzlenv.NewEnvironment())
	if sig != "" {
		return
	}
	for at, u := range uses {
		if !seen[at] {
			return "not-visited", fmt.Sprintf("%s at %d:%d is not visited", u.name, at.line, at.col)
		}
	}
	return
}

// inDefault tells whether the expression is in a default value of a parameter of the function.
func inDefault(stack []build.Expr, e build.Expr, f *build.DefStmt) bool {
	path := append(append([]build.Expr{}, stack...), e)
	for i, x := range path {
		if x == build.Expr(f) && i+2 < len(path) {
			as, ok := path[i+1].(*build.AssignExpr)
			if !ok {
				return false
			}
			for _, p := range f.Params {
				if p == build.Expr(as) {
					return path[i+2] == as.RHS
				}
			}
		}
	}
	return false
}

func checkScope(c *Ctx) {
	c.Rule("every identifier resolved by the reference resolver (go.starlark.net) is visited once and looked up in the environment given there: defined in the file or not, same binding exactly for the same uses, kind of the binding, enclosing function, blocks and parents balanced")
	n := c.N(20000, 400000)
	c.parallel(n, 8, 39, func(i int, r *rand.Rand) {
		var text string
		k := pick(r, KBzl, KBzl, KDefault, KBuild)
		switch r.Intn(6) {
		case 0:
			text = flowProgram(r)
		case 1:
			text = apiProgram(r, KBzl, r.Intn(2) == 0)
		default:
			text = scopeProgram(r)
		}
		c.Case(text)
		if _, _, err := scopeOracle(text); err != nil {
			c.Count("rejected", 1)
			if i < 100 {
				c.Sample("rejected: " + err.Error())
			}
			return
		}
		if lintParse(k, text) == nil {
			c.Count("not parsed", 1)
			return
		}
		c.Eval(text)
		f := func(c *Ctx, s string) (sig, detail string) {
			defer func() {
				if e := recover(); e != nil {
					sig, detail = "panic", fmt.Sprint(e)
				}
			}()
			return scopeOne(c, k, s)
		}
		if sig, detail := f(c, text); sig != "" {
			small := shrink(text, func(s string) bool { g, _ := f(nil, s); return g == sig })
			if _, d := f(nil, small); d != "" {
				detail = d
			}
			c.Violate(sig, kindFile[k]+": "+strconv.Quote(sig)+" "+detail, small)
		}
	})
}
