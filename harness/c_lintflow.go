package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"go.starlark.net/resolve"
	"go.starlark.net/starlark"
	"go.starlark.net/syntax"
)

func init() { checks["C21"] = checkLintFlow }

// flowGen generates programs of functions with scopes, branches and loops, all of whose values and
// decisions are drawn at run time.
type flowGen struct {
	r     *rand.Rand
	names []string
	k     int // markers
	defs  int
	lines []string
	fn    int
	loop  int
}

var flowNames = []string{"a", "b", "c", "x", "y", "_u"}
var flowLoads = []string{"l1", "l2", "l3", "x"}

func (g *flowGen) p(f float64) bool { return g.r.Float64() < f }
func (g *flowGen) n() string        { return pick(g.r, g.names...) }
func (g *flowGen) mark() string     { g.k++; return strconv.Itoa(g.k) }

func (g *flowGen) call(d int) string {
	a := []string{g.mark()}
	for i := g.r.Intn(3); i > 0; i-- {
		a = append(a, g.e(d-1))
	}
	if g.p(0.2) {
		a = append(a, g.n()+" = "+g.e(d-1))
	}
	if g.p(0.1) {
		a = append(a, pick(g.r, "q1", "q2")+" = "+g.e(d-1))
	}
	if len(a) > 1 && g.p(0.1) {
		return "v(\n        " + strings.Join(a, ",\n        ") + ",\n    )"
	}
	return "v(" + strings.Join(a, ", ") + ")"
}

func (g *flowGen) builtin() string {
	return pick(g.r, "range", "enumerate", "sorted", "list", "len") + "(" + g.e(pick(g.r, 0, 0, 1)) + ")"
}

func (g *flowGen) e(d int) string {
	if d <= 0 {
		return g.n()
	}
	switch g.r.Intn(24) {
	case 0:
		return "(" + g.e(d-1) + pick(g.r, " + ", " // ", " % ", " * ", " - ", " | ") + g.e(d-1) + ")"
	case 1:
		return "(" + g.e(d-1) + pick(g.r, " and ", " or ") + g.e(d-1) + ")"
	case 2:
		return "(not " + g.e(d-1) + ")"
	case 3:
		return "(" + g.e(d-1) + " if " + g.e(d-1) + " else " + g.e(d-1) + ")"
	case 4:
		return "[" + g.e(d-1) + ", " + g.e(d-1) + "]"
	case 5:
		return "(" + g.e(d-1) + ", " + g.e(d-1) + ")"
	case 6:
		return g.e(d-1) + "[" + g.e(d-1) + "]"
	case 7:
		return g.e(d-1) + "." + pick(g.r, "f", g.n())
	case 8, 9:
		return g.comp(d)
	case 10:
		var ps []string
		seen := map[string]bool{}
		for i := g.r.Intn(3); i > 0; i-- {
			n := g.n()
			if seen[n] {
				continue
			}
			seen[n] = true
			if g.p(0.3) || len(ps) > 0 && strings.Contains(ps[len(ps)-1], "=") {
				n += " = " + g.e(d-1)
			}
			ps = append(ps, n)
		}
		if len(ps) == 0 {
			return "(lambda: " + g.e(d-1) + ")()"
		}
		l := "(lambda " + strings.Join(ps, ", ") + ": " + g.e(d-1) + ")"
		if g.p(0.7) {
			var as []string
			for _, p := range ps {
				if !strings.Contains(p, "=") || g.p(0.5) {
					as = append(as, g.e(d-1))
				}
			}
			l += "(" + strings.Join(as, ", ") + ")"
		}
		return l
	case 11:
		return "{" + g.call(d-1) + ": " + g.e(d-1) + "}"
	case 12:
		return "(" + g.e(d-1) + ")"
	case 13:
		return g.n() + "(" + g.e(d-1) + pick(g.r, "", ", "+g.n()+" = "+g.e(d-1), ", *"+g.call(0)) + ")"
	case 14:
		return g.e(d-1) + "[" + g.e(d-1) + ":" + "]"
	case 15, 16, 17, 18:
		return g.call(d)
	case 19:
		return g.builtin()
	}
	return g.n()
}

func (g *flowGen) comp(d int) string {
	s := " for " + g.target(1, true) + " in " + g.e(d-1)
	if strings.Contains(s, ",") || g.p(0.2) {
		s = " for " + g.n() + " in " + g.e(d-1)
	}
	for g.p(0.3) {
		if g.p(0.5) {
			s += " if " + g.e(d-1)
		} else {
			s += " for " + g.n() + " in " + g.e(d-1)
		}
	}
	if g.p(0.3) {
		return "{" + g.call(d-1) + ": " + g.e(d-1) + s + "}"
	}
	return "[" + g.e(d-1) + s + "]"
}

// target is the left side of an assignment with the given number of values.
func (g *flowGen) target(d int, simple bool) string {
	if !simple && g.p(0.12) {
		return pick(g.r, g.n()+"["+g.e(1)+"]", g.n()+".f", g.call(0)+"["+g.n()+"]")
	}
	if g.p(0.08) {
		return "(" + g.n() + ")"
	}
	return g.n()
}

func (g *flowGen) line(ind int, s string) {
	g.lines = append(g.lines, strings.Repeat("    ", ind)+s)
}

func (g *flowGen) block(ind, d int) {
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		g.stmt(ind, d)
	}
}

func (g *flowGen) stmt(ind, d int) {
	if g.p(0.05) {
		g.line(ind, "# comment "+pick(g.r, "", "@unused"))
	}
	k := g.r.Intn(30)
	switch {
	case k < 8:
		switch g.r.Intn(8) {
		case 0:
			g.line(ind, g.target(1, false)+", "+g.target(1, false)+" = pair("+g.mark()+")")
		case 1:
			g.line(ind, "["+g.target(1, false)+", "+g.target(1, false)+"] = pair("+g.mark()+", "+g.e(1)+")")
		case 2:
			g.line(ind, g.target(1, false)+", ("+g.target(1, false)+", "+g.target(1, true)+") = ("+g.call(1)+", pair("+g.mark()+"))")
		default:
			g.line(ind, g.target(1, false)+" = "+pick(g.r, g.call(2), g.e(2)))
		}
	case k < 10:
		g.line(ind, pick(g.r, g.n(), g.n(), g.n()+"["+g.e(1)+"]", g.n()+".f")+pick(g.r, " += ", " += ", " -= ", " |= ")+g.call(1))
	case k < 15:
		g.line(ind, pick(g.r, g.call(2), g.call(2), g.e(2), g.comp(2)))
	case k < 20 && d > 0 && g.fn > 0:
		g.line(ind, "if "+g.e(1)+":")
		g.block(ind+1, d-1)
		for g.p(0.2) {
			g.line(ind, "elif "+g.e(1)+":")
			g.block(ind+1, d-1)
		}
		if g.p(0.5) {
			g.line(ind, "else:")
			g.block(ind+1, d-1)
		}
	case k < 23 && d > 0 && g.fn > 0:
		g.line(ind, "for "+pick(g.r, g.n(), g.n(), g.target(1, true))+" in "+pick(g.r, g.e(1), g.call(1), g.builtin())+":")
		g.loop++
		g.block(ind+1, d-1)
		g.loop--
	case k < 25 && g.fn < 3 && d > 0:
		g.def(ind, d-1)
	case k < 28 && g.fn > 0:
		switch g.r.Intn(6) {
		case 0, 1:
			g.line(ind, "return "+g.call(1))
		case 2:
			g.line(ind, "return")
		case 3:
			if g.p(0.5) {
				g.line(ind, "fail("+g.e(1)+")")
			}
		default:
			if g.loop > 0 {
				g.line(ind, pick(g.r, "break", "continue"))
			} else {
				g.line(ind, "return "+g.call(1))
			}
		}
	case k < 29:
		g.line(ind, "pass")
	default:
		g.line(ind, g.call(1))
	}
	if len(g.lines) == 0 || strings.HasPrefix(strings.TrimSpace(g.lines[len(g.lines)-1]), "#") || strings.HasSuffix(g.lines[len(g.lines)-1], ":") {
		g.line(ind, g.call(1))
	}
}

func (g *flowGen) def(ind, d int) {
	g.defs++
	name := "f" + strconv.Itoa(g.defs)
	if g.p(0.1) {
		name = g.n()
	}
	var ps []string
	seen := map[string]bool{}
	star := false
	for i := g.r.Intn(4); i > 0; i-- {
		n := g.n()
		if seen[n] {
			continue
		}
		seen[n] = true
		switch {
		case g.p(0.15) && !star && i == 1:
			ps = append(ps, "*"+n)
			star = true
		case g.p(0.1) && i == 1:
			ps = append(ps, "**"+n)
		case g.p(0.3) || len(ps) > 0 && strings.Contains(ps[len(ps)-1], "="):
			ps = append(ps, n+" = "+g.e(1))
		default:
			ps = append(ps, n)
		}
	}
	g.line(ind, "def "+name+"("+strings.Join(ps, ", ")+"):")
	loop := g.loop
	g.loop = 0
	g.fn++
	if g.p(0.1) {
		g.line(ind+1, `"""Doc."""`)
	}
	if g.p(0.6) {
		for _, n := range g.names {
			if !seen[n] && g.p(0.8) {
				g.line(ind+1, n+" = "+g.call(0))
			}
		}
	}
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		g.stmt(ind+1, d)
	}
	g.fn--
	g.loop = loop
	if ind > 0 && g.p(0.8) {
		g.line(ind, "reg("+name+")")
	}
}

func flowProgram(r *rand.Rand) string {
	g := &flowGen{r: r, names: flowNames}
	if g.p(0.5) {
		g.names = flowNames[:3+g.r.Intn(4)]
	}
	if g.p(0.5) {
		g.names = append(append([]string{}, g.names...), flowLoads[:3]...)
		for i := 1 + g.r.Intn(2); i > 0; i-- {
			var as []string
			for _, j := range g.r.Perm(len(flowLoads))[:1+g.r.Intn(3)] {
				n := flowLoads[j]
				as = append(as, pick(g.r, `"`+n+`"`, n+` = "z`+n+`"`))
			}
			sort.Slice(as, func(i, j int) bool { return strings.HasPrefix(as[i], `"`) && !strings.HasPrefix(as[j], `"`) })
			g.line(0, `load(":`+pick(g.r, "m", "n")+`.bzl", `+strings.Join(as, ", ")+")")
		}
	}
	for i := 2 + g.r.Intn(4); i > 0; i-- {
		if g.p(0.6) {
			g.def(0, 3)
		} else {
			g.stmt(0, 3)
		}
	}
	return strings.Join(g.lines, "\n") + "\n"
}

var flowPre = func() map[string]bool {
	m := map[string]bool{"v": true, "pair": true, "reg": true, "range": true, "enumerate": true, "sorted": true, "len": true, "list": true}
	for _, n := range append(append([]string{"fail"}, flowNames...), flowLoads...) {
		m[n] = true
	}
	return m
}()

var flowPreNames = append(append([]string{}, flowNames...), flowLoads...)

func flowModule(w *slWorld, name string) starlark.StringDict {
	d := starlark.StringDict{}
	for i, n := range flowLoads {
		d[n] = &slU{w, -10*len(name) - i}
		d["z"+n] = &slU{w, -1000 - 10*len(name) - i}
	}
	return d
}

var flowMark = regexp.MustCompile(`\b(?:v|pair)\(\s*(\d+)`)

// markerLines tells the line each marker is on.
func markerLines(text string) map[int]int {
	m := map[int]int{}
	for _, x := range flowMark.FindAllStringSubmatchIndex(text, -1) {
		k, _ := strconv.Atoi(text[x[2]:x[3]])
		m[k] = 1 + strings.Count(text[:x[2]], "\n")
	}
	return m
}

var quotedRe = regexp.MustCompile(`"([^"]*)"`)

func quotedName(s string) string {
	if m := quotedRe.FindStringSubmatch(s); m != nil {
		return m[1]
	}
	return ""
}

type flowPos struct{ line, col int }

// bindings lists the occurrences of the variable bound at pos, or nil if there is none.
func bindings(p *slProgram, pos flowPos) (idents []*syntax.Ident, binding map[*syntax.Ident]bool) {
	find := func(id *syntax.Ident) *syntax.Ident {
		b, _ := id.Binding.(*resolve.Binding)
		if b == nil {
			return nil
		}
		return b.First
	}
	var target *syntax.Ident
	var all []*syntax.Ident
	seen := map[*syntax.Ident]bool{}
	syntax.Walk(p.file, func(n syntax.Node) bool {
		if id, ok := n.(*syntax.Ident); ok && !seen[id] {
			seen[id] = true
			all = append(all, id)
			if int(id.NamePos.Line) == pos.line && int(id.NamePos.Col) == pos.col {
				target = id
			}
		}
		return true
	})
	if target == nil || find(target) == nil {
		return nil, nil
	}
	binding = map[*syntax.Ident]bool{}
	for _, id := range all {
		if find(id) == find(target) {
			idents = append(idents, id)
		}
	}
	var mark func(e syntax.Expr)
	mark = func(e syntax.Expr) {
		switch e := e.(type) {
		case *syntax.Ident:
			binding[e] = true
		case *syntax.ParenExpr:
			mark(e.X)
		case *syntax.TupleExpr:
			for _, x := range e.List {
				mark(x)
			}
		case *syntax.ListExpr:
			for _, x := range e.List {
				mark(x)
			}
		}
	}
	param := func(e syntax.Expr) {
		switch e := e.(type) {
		case *syntax.Ident:
			binding[e] = true
		case *syntax.BinaryExpr:
			mark(e.X)
		case *syntax.UnaryExpr:
			if e.X != nil {
				mark(e.X)
			}
		}
	}
	syntax.Walk(p.file, func(n syntax.Node) bool {
		switch n := n.(type) {
		case *syntax.AssignStmt:
			mark(n.LHS)
		case *syntax.ForStmt:
			mark(n.Vars)
		case *syntax.DefStmt:
			binding[n.Name] = true
			for _, x := range n.Params {
				param(x)
			}
		}
		return true
	})
	return
}

// keywordParam tells whether the variable is a parameter that calls may pass by name.
func keywordParam(p *slProgram, ids []*syntax.Ident, name string) bool {
	kw, param := false, false
	syntax.Walk(p.file, func(n syntax.Node) bool {
		switch n := n.(type) {
		case *syntax.CallExpr:
			for _, a := range n.Args {
				switch a := a.(type) {
				case *syntax.BinaryExpr:
					if id, ok := a.X.(*syntax.Ident); ok && a.Op == syntax.EQ && id.Name == name {
						kw = true
					}
				case *syntax.UnaryExpr:
					kw = kw || a.Op == syntax.STARSTAR
				}
			}
		case *syntax.DefStmt:
			for _, x := range n.Params {
				syntax.Walk(x, func(m syntax.Node) bool {
					for _, id := range ids {
						if m == syntax.Node(id) {
							param = true
						}
					}
					return true
				})
			}
		}
		return true
	})
	return kw && param
}

// renameAt replaces identifiers of the text.
func renameAt(text, to string, at []flowPos) string {
	lines := strings.Split(text, "\n")
	sort.Slice(at, func(i, j int) bool {
		return at[i].line > at[j].line || at[i].line == at[j].line && at[i].col > at[j].col
	})
	for i, p := range at {
		if i > 0 && at[i-1] == p {
			continue
		}
		l := lines[p.line-1]
		end := p.col - 1
		for end < len(l) && (l[end] == '_' || l[end] >= 'a' && l[end] <= 'z' || l[end] >= '0' && l[end] <= '9') {
			end++
		}
		lines[p.line-1] = l[:p.col-1] + to + l[end:]
	}
	return strings.Join(lines, "\n")
}

var flowCats = []string{"unreachable", "uninitialized", "return-value", "unused-variable", "load"}

// flowOne compares the findings for a program with what its executions do.
func flowOne(c *Ctx, k FileKind, text string, seeds int) (sig, detail string) {
	p, err := slCompile(text, flowPre)
	if err != nil {
		return
	}
	f := lintParse(k, text)
	if f == nil {
		return
	}
	// a name may be loaded only once
	loaded := map[string]bool{}
	for _, s := range f.Stmt {
		if l, ok := s.(*build.LoadStmt); ok {
			for _, to := range l.To {
				if loaded[to.Name] {
					return
				}
				loaded[to.Name] = true
			}
		}
	}
	clash := false
	if len(loaded) > 0 {
		var walk func(l []syntax.Stmt)
		var lhs func(e syntax.Expr)
		lhs = func(e syntax.Expr) {
			syntax.Walk(e, func(n syntax.Node) bool {
				if id, ok := n.(*syntax.Ident); ok && loaded[id.Name] {
					clash = true
				}
				return true
			})
		}
		walk = func(l []syntax.Stmt) {
			for _, s := range l {
				switch s := s.(type) {
				case *syntax.AssignStmt:
					lhs(s.LHS)
				case *syntax.DefStmt:
					lhs(s.Name)
				case *syntax.ForStmt:
					lhs(s.Vars)
					walk(s.Body)
				case *syntax.IfStmt:
					walk(s.True)
					walk(s.False)
				}
			}
		}
		walk(p.file.Stmts)
	}
	if clash {
		return // neither may it be defined as well
	}
	ws := lintWorkspace
	by := map[string][]*warn.Finding{}
	for _, x := range warn.FileWarnings(f, flowCats, nil, warn.ModeWarn, ws.reader()) {
		by[x.Category] = append(by[x.Category], x)
	}
	count := func(s string, n int) {
		if c != nil {
			c.Count(s, n)
		}
	}
	run := func(p *slProgram, i int) (*slWorld, []slCall) { return p.run(int64(i), flowPreNames, flowModule) }
	where := markerLines(text)
	var logs []string
	valued, empty := map[syntax.Position]string{}, map[syntax.Position]bool{}
	for i := 0; i < seeds; i++ {
		w, calls := run(p, i)
		count("executions", 1)
		count("markers_reached", len(w.hit))
		logs = append(logs, strings.Join(w.log, "\n"))
		// nothing reported as unreachable is executed
		for _, x := range by["unreachable"] {
			for m := range w.hit {
				if l := where[m]; l >= x.Start.Line && l <= x.End.Line && !(l == x.Start.Line && len(strings.Split(text, "\n")[l-1][:x.Start.LineRune-1]) > 0 && strings.TrimSpace(strings.Split(text, "\n")[l-1][:x.Start.LineRune-1]) != "") {
					return "executed", fmt.Sprintf("line %d is reported as unreachable, but v(%d) on line %d is executed", x.Start.Line, m, l)
				}
			}
		}
		for _, cl := range calls {
			if name, ok := strings.CutPrefix(cl.err, "local variable "); ok {
				name, _, _ = strings.Cut(name, " ")
				if cl.name == "<toplevel>" {
					continue
				}
				// find the identifier: reads of variables of enclosing functions are not judged
				local := false
				syntax.Walk(p.file, func(n syntax.Node) bool {
					if id, ok := n.(*syntax.Ident); ok && id.NamePos.Line == cl.at.Line && id.NamePos.Col == cl.at.Col && id.Name == name {
						if b, ok := id.Binding.(*resolve.Binding); ok && b.Scope == resolve.Local || ok && b.Scope == resolve.Cell {
							local = true
						}
					}
					return true
				})
				// nor are variables of comprehensions
				ids, binding := bindings(p, flowPos{int(cl.at.Line), int(cl.at.Col)})
				assigned := false
				for _, id := range ids {
					assigned = assigned || binding[id]
				}
				if !local || !assigned {
					count("uninitialized_other", 1)
					continue
				}
				count("uninitialized_reads", 1)
				found := false
				for _, x := range by["uninitialized"] {
					if x.Start.Line == int(cl.at.Line) && x.Start.LineRune == int(cl.at.Col) && quotedName(x.Message) == name {
						found = true
					}
				}
				if !found {
					return "uninitialized", fmt.Sprintf("%q is read before it is assigned on %d:%d, which is not reported", name, cl.at.Line, cl.at.Col)
				}
			}
			if cl.err == "" && cl.name != "<toplevel>" && cl.name != "lambda" {
				if cl.value {
					valued[cl.fn] = cl.name
				} else {
					empty[cl.fn] = true
				}
			}
		}
	}
	for pos, name := range valued {
		if !empty[pos] {
			continue
		}
		count("mixed_returns", 1)
		found := false
		end := 0
		syntax.Walk(p.file, func(n syntax.Node) bool {
			if d, ok := n.(*syntax.DefStmt); ok && d.Name.NamePos.Line == pos.Line && (d.Def == pos || d.Name.NamePos == pos) {
				_, e := d.Span()
				end = int(e.Line)
			}
			return true
		})
		for _, x := range by["return-value"] {
			if x.Start.Line >= int(pos.Line) && x.Start.Line <= end && quotedName(x.Message) == name {
				found = true
			}
		}
		if !found {
			return "return-value", fmt.Sprintf("function %q on line %d returns a value in some executions and none in others, which is not reported", name, pos.Line)
		}
	}
	same := func(p2 *slProgram, rename string) (int, bool) {
		for i := 0; i < seeds; i++ {
			w, _ := run(p2, i)
			if strings.ReplaceAll(strings.Join(w.log, "\n"), rename, "") != logs[i] {
				return i, false
			}
		}
		return 0, true
	}
	// renaming where an unused variable is bound changes nothing
	for _, x := range by["unused-variable"] {
		name := quotedName(x.Message)
		pos := flowPos{x.Start.Line, x.Start.LineRune}
		if strings.HasPrefix(x.Message, "Function") {
			pos.col += 4
		}
		ids, binding := bindings(p, pos)
		if ids == nil {
			return "unused-position", fmt.Sprintf("no variable %q is bound on %d:%d", name, pos.line, pos.col)
		}
		if ids[0].Name != name {
			return "unused-name", fmt.Sprintf("%q is on %d:%d, not %q", ids[0].Name, pos.line, pos.col, name)
		}
		var at []flowPos
		for _, id := range ids {
			if binding[id] {
				at = append(at, flowPos{int(id.NamePos.Line), int(id.NamePos.Col)})
			}
		}
		if keywordParam(p, ids, name) {
			// calls with the name as keyword may reach it
			count("unused_skipped", 1)
			continue
		}
		t2 := renameAt(text, name+"zzq", at)
		p2, err := slCompile(t2, flowPre)
		if err != nil {
			return "unused-read", fmt.Sprintf("%q (%d:%d) is reported as unused, but without it the program is rejected: %v", name, pos.line, pos.col, err)
		}
		count("unused_renamed", 1)
		if i, ok := same(p2, "zzq"); !ok {
			return "unused-read", fmt.Sprintf("%q (%d:%d) is reported as unused, but execution %d differs without it", name, pos.line, pos.col, i)
		}
	}
	// removing unused loads changes nothing
	if len(by["load"]) > 0 {
		g := lintParse(k, text)
		warn.FixWarnings(g, []string{"load"}, false, ws.reader())
		t2 := string(build.FormatWithoutRewriting(g))
		p2, err := slCompile(t2, flowPre)
		if err != nil {
			return "unused-load", "without the loads reported as unused the program is rejected: " + err.Error() + "\n" + t2
		}
		count("loads_removed", len(by["load"]))
		if i, ok := same(p2, "zzq"); !ok {
			return "unused-load", fmt.Sprintf("execution %d differs without the loads reported as unused:\n%s", i, t2)
		}
	}
	return
}

func checkLintFlow(c *Ctx) {
	c.Rule("executions (every value and decision random) against findings: no reported unreachable statement runs, every local read before assignment is reported where it happens, functions seen both with and without a value are reported, renaming the bindings of unused variables and removing unused loads leaves every execution as it was")
	n := c.N(6000, 120000)
	c.parallel(n, 8, 21, func(i int, r *rand.Rand) {
		text := flowProgram(r)
		k := pick(r, KBzl, KBzl, KDefault, KBuild)
		c.Case(text)
		if _, err := slCompile(text, flowPre); err != nil {
			c.Count("rejected", 1)
			if i < 5 {
				c.Sample("rejected: " + err.Error())
			}
			return
		}
		c.Eval(text)
		if sig, detail := flowOne(c, k, text, 14); sig != "" {
			small := shrink(text, func(s string) bool { g, _ := flowOne(nil, k, s, 14); return g == sig })
			if _, d := flowOne(nil, k, small, 14); d != "" {
				detail = d
			}
			c.Violate(sig, kindFile[k]+": "+detail, small)
		}
	})
}
