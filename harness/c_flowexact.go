package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"go.starlark.net/resolve"
	"go.starlark.net/syntax"
)

func init() { checks["C48"] = checkFlowExact }

// ---- C48: the findings about control flow and unused names are those the documentation describes ----

// fxWant is a finding that has to be there, or may be.
type fxWant struct {
	cat       string
	line, col int
}

// fxRef derives the findings of a program from its resolved syntax tree.
type fxRef struct {
	lines []string
	must  map[fxWant]string // with the name it has to mention
	may   map[fxWant]bool
	top   bool // names bound at the top level may be used elsewhere
	file  *syntax.File
	free  map[string]bool // read where nothing binds it yet
}

func fxPos(p syntax.Position) (int, int) { return int(p.Line), int(p.Col) }

func (x *fxRef) add(cat string, p syntax.Position, name string, sure bool) {
	l, c := fxPos(p)
	if sure {
		x.must[fxWant{cat, l, c}] = name
	} else {
		x.may[fxWant{cat, l, c}] = true
	}
}

func fxStart(n syntax.Node) syntax.Position { s, _ := n.Span(); return s }

func fxFail(s syntax.Stmt) bool {
	if e, ok := s.(*syntax.ExprStmt); ok {
		if c, ok := e.X.(*syntax.CallExpr); ok {
			id, ok := c.Fn.(*syntax.Ident)
			return ok && id.Name == "fail"
		}
	}
	return false
}

// unreachable reports the first statement of each block that cannot be reached, and tells whether the
// end of the block can.
func (x *fxRef) unreachable(l []syntax.Stmt, sure bool, n *int) (ends bool) {
	for _, s := range l {
		if ends {
			x.add("unreachable", fxStart(s), "", sure)
			*n++
			return
		}
		switch s := s.(type) {
		case *syntax.ReturnStmt:
			ends = true
		case *syntax.BranchStmt:
			ends = s.Token != syntax.PASS
		case *syntax.ExprStmt:
			ends = fxFail(s)
		case *syntax.ForStmt:
			x.unreachable(s.Body, sure, n)
		case *syntax.IfStmt:
			a := x.unreachable(s.True, sure, n)
			b := x.unreachable(s.False, sure, n)
			ends = a && b
		}
	}
	return
}

// returns collects the returns of a function and tells whether its end can be reached.
func fxReturns(l []syntax.Stmt, bare, valued *[]*syntax.ReturnStmt) (ends bool) {
	for _, s := range l {
		switch s := s.(type) {
		case *syntax.ReturnStmt:
			if s.Result == nil {
				*bare = append(*bare, s)
			} else {
				*valued = append(*valued, s)
			}
			ends = true
		case *syntax.ExprStmt:
			ends = ends || fxFail(s)
		case *syntax.ForStmt:
			fxReturns(s.Body, bare, valued)
		case *syntax.IfStmt:
			a := fxReturns(s.True, bare, valued)
			b := fxReturns(s.False, bare, valued)
			ends = ends || a && b
		}
	}
	return
}

func fxFirst(id *syntax.Ident) *syntax.Ident {
	if b, ok := id.Binding.(*resolve.Binding); ok && b != nil {
		return b.First
	}
	return nil
}

// fxTargets lists the names an expression on the left of an assignment binds, and whether it has
// others parts.
func fxTargets(e syntax.Expr) (l []*syntax.Ident, other bool) {
	switch e := e.(type) {
	case *syntax.Ident:
		return []*syntax.Ident{e}, false
	case *syntax.ParenExpr:
		return fxTargets(e.X)
	case *syntax.TupleExpr:
		for _, x := range e.List {
			a, o := fxTargets(x)
			l, other = append(l, a...), other || o
		}
		return
	case *syntax.ListExpr:
		for _, x := range e.List {
			a, o := fxTargets(x)
			l, other = append(l, a...), other || o
		}
		return
	}
	return nil, true
}

func fxParam(e syntax.Expr) (id *syntax.Ident, def syntax.Expr) {
	switch e := e.(type) {
	case *syntax.Ident:
		return e, nil
	case *syntax.BinaryExpr:
		id, _ = e.X.(*syntax.Ident)
		return id, e.Y
	case *syntax.UnaryExpr:
		id, _ = e.X.(*syntax.Ident)
		return id, nil
	}
	return nil, nil
}

// fxFlow is the definite assignment of the variables of one function.
type fxFlow struct {
	x    *fxRef
	vars map[*syntax.Ident]bool
	skip map[*syntax.Ident]bool // names that are assigned, not read
}

// read checks the variables that an expression reads.
func (g *fxFlow) read(e syntax.Node, have map[string]bool, sure bool) {
	if e == nil {
		return
	}
	syntax.Walk(e, func(n syntax.Node) bool {
		switch n := n.(type) {
		case *syntax.LambdaExpr:
			for _, p := range n.Params {
				if _, d := fxParam(p); d != nil {
					g.read(d, have, sure)
				}
			}
			g.read(n.Body, have, false)
			return false
		case *syntax.Ident:
			if g.vars[fxFirst(n)] && !have[n.Name] && !g.skip[n] {
				g.x.add("uninitialized", n.NamePos, n.Name, sure)
			}
		}
		return true
	})
}

func fxCopy(m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		r[k] = true
	}
	return r
}

// block returns the variables that have values at the end of the statements, or nil if it is not
// reached.
func (g *fxFlow) block(l []syntax.Stmt, have map[string]bool, sure bool) map[string]bool {
	for _, s := range l {
		after := have
		switch s := s.(type) {
		case *syntax.ReturnStmt:
			if s.Result != nil {
				g.read(s.Result, have, sure)
			}
			after = nil
		case *syntax.BranchStmt:
			if s.Token != syntax.PASS {
				after = nil
			}
		case *syntax.ExprStmt:
			g.read(s.X, have, sure)
			if fxFail(s) {
				after = nil
			}
		case *syntax.AssignStmt:
			g.read(s.RHS, have, sure)
			ids, _ := fxTargets(s.LHS)
			if s.Op == syntax.EQ {
				for _, id := range ids {
					g.skip[id] = true
				}
			}
			g.read(s.LHS, have, sure)
			have = fxCopy(have)
			for _, id := range ids {
				have[id.Name] = true
			}
			after = have
		case *syntax.DefStmt:
			for _, p := range s.Params {
				if _, d := fxParam(p); d != nil {
					g.read(d, have, sure)
				}
			}
			have = fxCopy(have)
			have[s.Name.Name] = true
			after = have
		case *syntax.ForStmt:
			g.read(s.X, have, sure)
			in := fxCopy(have)
			ids, _ := fxTargets(s.Vars)
			for _, id := range ids {
				in[id.Name] = true
			}
			g.block(s.Body, in, sure)
		case *syntax.IfStmt:
			g.read(s.Cond, have, sure)
			a, b := g.block(s.True, fxCopy(have), sure), g.block(s.False, fxCopy(have), sure)
			switch {
			case a == nil:
				after = b
			case b == nil:
				after = a
			default:
				after = map[string]bool{}
				for k := range a {
					if b[k] {
						after[k] = true
					}
				}
			}
		}
		if after == nil {
			if sure {
				sure = false // what follows cannot be reached
				continue
			}
			continue
		}
		have = after
	}
	if len(l) > 0 && fxEnds(l) {
		return nil
	}
	return have
}

func fxEnds(l []syntax.Stmt) bool {
	n := 0
	t := &fxRef{must: map[fxWant]string{}, may: map[fxWant]bool{}}
	return t.unreachable(l, false, &n)
}

// fxBound is a name bound in a scope.
type fxBound struct {
	name       string
	pos        syntax.Position
	first      *syntax.Ident
	suppressed bool
	unsure     bool
	fn         bool
}

// unusedComment tells whether a statement carries a comment with @unused.
func (x *fxRef) unusedComment(n syntax.Node) bool {
	s, e := n.Span()
	if _, ok := n.(*syntax.DefStmt); !ok && strings.Contains(x.lines[e.Line-1], "# @unused") {
		return true
	}
	for l := int(s.Line) - 2; l >= 0 && strings.HasPrefix(strings.TrimSpace(x.lines[l]), "#"); l-- {
		if strings.Contains(x.lines[l], "@unused") {
			return true
		}
	}
	return false
}

// bound lists the names that statements bind.
func (x *fxRef) bound(l []syntax.Stmt) (r []fxBound) {
	for _, s := range l {
		switch s := s.(type) {
		case *syntax.AssignStmt:
			ids, other := fxTargets(s.LHS)
			all := true
			for _, id := range ids {
				all = all && strings.HasPrefix(id.Name, "_")
			}
			for _, id := range ids {
				under := strings.HasPrefix(id.Name, "_")
				r = append(r, fxBound{id.Name, id.NamePos, fxFirst(id), x.unusedComment(s) || under && !all, other && under, false})
			}
		case *syntax.ForStmt:
			ids, _ := fxTargets(s.Vars)
			for _, id := range ids {
				r = append(r, fxBound{id.Name, id.NamePos, fxFirst(id), strings.HasPrefix(id.Name, "_"), x.unusedComment(s), false})
			}
			r = append(r, x.bound(s.Body)...)
		case *syntax.IfStmt:
			r = append(r, x.bound(s.True)...)
			r = append(r, x.bound(s.False)...)
		case *syntax.DefStmt:
			r = append(r, fxBound{s.Name.Name, s.Def, fxFirst(s.Name), x.unusedComment(s), false, true})
		}
	}
	return
}

// unused reports the names of a scope that nothing reads.
func (x *fxRef) unused(l []fxBound, read map[*syntax.Ident]bool, top bool) {
	type state struct {
		first              *fxBound
		vars, fns          int
		suppressed, unsure bool
	}
	m := map[string]*state{}
	for i := range l {
		b := &l[i]
		s := m[b.name]
		if s == nil {
			s = &state{first: b, suppressed: b.suppressed, unsure: b.unsure}
			m[b.name] = s
		}
		if b.fn {
			s.fns++
			s.suppressed = s.suppressed || b.suppressed
		} else {
			s.vars++
		}
	}
	for name, s := range m {
		if read[s.first.first] || top && x.top && !strings.HasPrefix(name, "_") {
			continue
		}
		if s.vars > 0 && s.fns > 0 {
			for _, b := range l {
				if b.name == name {
					x.add("unused-variable", b.pos, name, false)
				}
			}
			continue
		}
		if s.suppressed {
			continue
		}
		x.add("unused-variable", s.first.pos, name, !s.unsure && !(top && x.free[name]))
	}
}

// fxReference derives the findings of a program.
func fxReference(k FileKind, text string, file *syntax.File) *fxRef {
	x := &fxRef{lines: strings.Split(text, "\n"), must: map[fxWant]string{}, may: map[fxWant]bool{}, file: file, free: map[string]bool{}}
	x.top = k == KBzl || k == KDefault
	// which variables are read, and which names occur at all
	assigned, read := map[*syntax.Ident]bool{}, map[*syntax.Ident]bool{}
	names := map[string]bool{}
	quiet := map[*syntax.Ident]bool{}
	var all []*syntax.Ident
	var defs []*syntax.DefStmt
	var loads []*syntax.LoadStmt
	syntax.Walk(file, func(n syntax.Node) bool {
		switch n := n.(type) {
		case *syntax.Ident:
			all = append(all, n)
		case *syntax.AssignStmt:
			ids, _ := fxTargets(n.LHS)
			for _, id := range ids {
				assigned[id] = true
			}
		case *syntax.ForStmt:
			ids, _ := fxTargets(n.Vars)
			for _, id := range ids {
				assigned[id] = true
			}
		case *syntax.DefStmt:
			defs = append(defs, n)
			assigned[n.Name] = true
			quiet[n.Name] = true // a string in the other tree
			for _, p := range n.Params {
				if id, _ := fxParam(p); id != nil {
					assigned[id] = true
				}
			}
		case *syntax.CallExpr:
			for _, a := range n.Args {
				if b, ok := a.(*syntax.BinaryExpr); ok && b.Op == syntax.EQ {
					if id, ok := b.X.(*syntax.Ident); ok {
						quiet[id] = true
					}
				}
			}
		case *syntax.DotExpr:
			quiet[n.Name] = true
		case *syntax.LoadStmt:
			loads = append(loads, n)
			for i := range n.To {
				quiet[n.From[i]], quiet[n.To[i]] = true, true
				assigned[n.From[i]], assigned[n.To[i]] = true, true
			}
		}
		return true
	})
	for _, id := range all {
		if !quiet[id] {
			names[id.Name] = true
		}
		if !assigned[id] && fxFirst(id) != nil {
			read[fxFirst(id)] = true
		} else if !assigned[id] && !quiet[id] {
			x.free[id.Name] = true
		}
	}
	for _, l := range loads {
		for _, to := range l.To {
			if !read[fxFirst(to)] && !x.unusedComment(l) {
				x.add("load", to.NamePos, to.Name, !names[to.Name])
			}
		}
	}
	x.unused(x.bound(file.Stmts), read, true)
	for _, d := range defs {
		// unreachable
		dead := 0
		x.unreachable(d.Body, true, &dead)
		// return-value
		var bare, valued []*syntax.ReturnStmt
		ends := fxReturns(d.Body, &bare, &valued)
		if len(valued) > 0 {
			for _, r := range bare {
				x.add("return-value", r.Return, d.Name.Name, dead == 0)
			}
			if !ends {
				x.add("return-value", d.Def, d.Name.Name, dead == 0)
			}
		}
		// uninitialized
		g := &fxFlow{x: x, vars: map[*syntax.Ident]bool{}, skip: map[*syntax.Ident]bool{}}
		body := x.bound(d.Body)
		for _, b := range body {
			g.vars[b.first] = true
		}
		var params []fxBound
		for _, p := range d.Params {
			if id, _ := fxParam(p); id != nil {
				delete(g.vars, fxFirst(id))
				sup := id.Name == "name" || strings.HasPrefix(id.Name, "_") || strings.Contains(x.lines[fxStart(p).Line-1], "# @unused") && !strings.Contains(x.lines[fxStart(p).Line-1], "def ")
				at := id.NamePos
				params = append(params, fxBound{id.Name, at, fxFirst(id), sup, false, false})
			}
		}
		delete(g.vars, nil)
		g.block(d.Body, map[string]bool{}, true)
		// unused-variable
		x.unused(append(params, body...), read, false)
	}
	return x
}

// fxCompare tells the first difference between the findings and the reference.
func fxCompare(c *Ctx, k FileKind, text string, ref *fxRef) (sig, detail string) {
	f := lintParse(k, text)
	if f == nil {
		return
	}
	got := map[fxWant]string{}
	for _, w := range warn.FileWarnings(f, flowCats, nil, warn.ModeWarn, lintWorkspace.reader()) {
		key := fxWant{w.Category, w.Start.Line, w.Start.LineRune}
		if _, ok := got[key]; ok {
			return "twice " + w.Category, fmt.Sprintf("%d:%d is reported more than once: %s", w.Start.Line, w.Start.LineRune, w.Message)
		}
		got[key] = w.Message
	}
	var keys []fxWant
	for w := range ref.must {
		keys = append(keys, w)
	}
	for w := range got {
		if _, ok := ref.must[w]; !ok {
			keys = append(keys, w)
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		return a.line < b.line || a.line == b.line && (a.col < b.col || a.col == b.col && a.cat < b.cat)
	})
	for _, w := range keys {
		name, must := ref.must[w]
		msg, has := got[w]
		switch {
		case must && !has:
			return "missing " + w.cat, fmt.Sprintf("%s (%s) is not reported on %d:%d", w.cat, name, w.line, w.col)
		case !must && !ref.may[w]:
			return "unfounded " + w.cat, fmt.Sprintf("%d:%d: %s: %s", w.line, w.col, w.cat, msg)
		case must && name != "" && quotedName(msg) != name:
			return "name " + w.cat, fmt.Sprintf("%d:%d: %s: %s (about %q)", w.line, w.col, w.cat, msg, name)
		}
		if c != nil {
			if must {
				c.Count("expected "+w.cat, 1)
			} else {
				c.Count("left open "+w.cat, 1)
			}
		}
	}
	return
}

var fxDefLine = regexp.MustCompile(`^(\s*)def (\w+)\((.*)\):$`)

// fxSplit splits at commas outside brackets.
func fxSplit(s string) (l []string) {
	d, at := 0, 0
	for i, ch := range s {
		switch ch {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				l = append(l, strings.TrimSpace(s[at:i]))
				at = i + 1
			}
		}
	}
	return append(l, strings.TrimSpace(s[at:]))
}

// fxVary adds comments with @unused and names with underscores to a program.
func fxVary(r *rand.Rand, text string) string {
	for _, n := range []string{"a", "x", "y"} {
		if r.Intn(4) == 0 {
			text = regexp.MustCompile(`\b`+n+`\b`).ReplaceAllString(text, pick(r, "_"+n, "_"+n, "name", "_"))
		}
	}
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		if m := fxDefLine.FindStringSubmatch(l); m != nil && m[3] != "" && !strings.Contains(m[3], ":") && r.Intn(3) == 0 {
			var sb strings.Builder
			fmt.Fprintf(&sb, "%sdef %s(\n", m[1], m[2])
			ps := fxSplit(m[3])
			for j, p := range ps {
				comma := ","
				if strings.HasPrefix(p, "*") && j == len(ps)-1 {
					comma = ""
				}
				fmt.Fprintf(&sb, "%s        %s%s%s\n", m[1], p, comma, pick(r, "", "", "  # @unused", "  # other"))
			}
			fmt.Fprintf(&sb, "%s):", m[1])
			lines[i] = sb.String()
			continue
		}
		t := strings.TrimSpace(l)
		if strings.Contains(t, " = ") && !strings.HasPrefix(t, "#") && !strings.HasSuffix(t, ":") && !strings.HasSuffix(t, "(") && !strings.HasSuffix(t, ",") && r.Intn(15) == 0 {
			lines[i] += pick(r, "  # @unused", "  # unused", "  # @unused (kept)")
		}
	}
	return strings.Join(lines, "\n")
}

// fxOne compares one program.
func fxOne(c *Ctx, k FileKind, text string) (sig, detail string) {
	p, err := slCompile(text, flowPre)
	if err != nil {
		return
	}
	if f := lintParse(k, text); f == nil || fxLoadClash(f) {
		return
	}
	return fxCompare(c, k, text, fxReference(k, text, p.file))
}

// fxLoadClash tells whether a name is loaded more than once or loaded and defined at the top level.
func fxLoadClash(f *build.File) bool {
	loaded, clash := map[string]bool{}, false
	for _, s := range f.Stmt {
		if l, ok := s.(*build.LoadStmt); ok {
			for _, to := range l.To {
				clash = clash || loaded[to.Name]
				loaded[to.Name] = true
			}
		}
	}
	for _, s := range f.Stmt {
		switch s := s.(type) {
		case *build.AssignExpr:
			build.Walk(s.LHS, func(e build.Expr, _ []build.Expr) {
				if id, ok := e.(*build.Ident); ok && loaded[id.Name] {
					clash = true
				}
			})
		case *build.DefStmt:
			clash = clash || loaded[s.Name]
		}
	}
	return clash
}

func checkFlowExact(c *Ctx) {
	c.Rule("programs of functions with branches, loops, nested functions, comprehensions and lambdas; the findings of unreachable, uninitialized, return-value, unused-variable and load are compared, position by position and with the name they mention, with those an independent analysis of the resolved syntax tree derives from the documentation: none missing, none unfounded, none twice")
	c.Assume("left open: names read in the body of a lambda before they are assigned, names bound both as variables and as functions, returns next to unreachable code, and whether a loaded name that only other scopes bind is unused")
	fxLoads(c)
	n := c.N(30000, 900000)
	c.parallel(n, 8, 48, func(i int, r *rand.Rand) {
		text := fxVary(r, flowProgram(r))
		k := pick(r, KBzl, KBzl, KDefault, KBuild)
		c.Case(text)
		if _, err := slCompile(text, flowPre); err != nil {
			c.Count("rejected", 1)
			return
		}
		c.Eval(text)
		if sig, detail := fxOne(c, k, text); sig != "" {
			small := shrink(text, func(s string) bool { g, _ := fxOne(nil, k, s); return g == sig })
			if _, d := fxOne(nil, k, small); d != "" {
				detail = d
			}
			c.Violate(sig, kindFile[k]+": "+detail, small)
		}
	})
}

// ---- loads ----

// fxLoad is one loaded symbol of a generated file.
type fxLoad struct {
	module, from, to string
	line, col        int
	keep             bool // marked with @unused
	repeats          int  // line of the earlier load of the same name, 0 without
	same             bool // of the same symbol
	unused           bool
}

// fxLoadFile makes a file of loads and uses and the findings it calls for.
func fxLoadFile(r *rand.Rand) (text string, loads []*fxLoad) {
	var lines []string
	names := []string{"aa", "bb", "cc", "dd", "ee"}
	names = names[:2+r.Intn(4)]
	line := func(f string, a ...interface{}) { lines = append(lines, fmt.Sprintf(f, a...)) }
	used := map[string]bool{}
	var uses []string
	for _, n := range names {
		switch r.Intn(16) {
		case 0:
			used[n], uses = true, append(uses, n+"(name = \"t\")")
		case 1:
			used[n], uses = true, append(uses, "X_"+n+" = [f("+n+") for i in range(3)]")
		case 2:
			used[n], uses = true, append(uses, "def f_"+n+"(p = "+n+"):\n    return p")
		case 3:
			used[n], uses = true, append(uses, "def g_"+n+"(p):\n    return p."+n+"["+n+".q]")
		case 4:
			used[n], uses = true, append(uses, "h(k = {"+n+": 1})")
		case 5:
			used[n], uses = true, append(uses, "def t_"+n+"(p: "+n+") -> None:\n    return p")
		case 6:
			used[n], uses = true, append(uses, n+".method(1)")
		case 7:
			used[n], uses = true, append(uses, "S = \"%s\" % "+n)
		case 8:
			used[n], uses = true, append(uses, "def w(p):\n    if p:\n        for q in p:\n            "+n+"["+"q] = 1")
		case 9:
			uses = append(uses, "h("+n+" = 1)") // a keyword
		case 10:
			uses = append(uses, "h(k."+n+")") // a field
		case 11:
			uses = append(uses, "h(\""+n+"\")  # "+n)
		}
	}
	r.Shuffle(len(uses), func(i, j int) { uses[i], uses[j] = uses[j], uses[i] })
	type earlier struct {
		module, from string
		line         int
	}
	have := map[string]*earlier{}
	stmts := 1 + r.Intn(4)
	for s := 0; s < stmts; s++ {
		module := pick(r, ":m.bzl", ":n.bzl", "//x:y.bzl", "@r//x:y.bzl")
		var l []*fxLoad
		in := map[string]bool{}
		for k := 1 + r.Intn(3); k > 0; k-- {
			to := pick(r, names...)
			if in[to] && r.Intn(2) == 0 {
				continue
			}
			in[to] = true
			from := to
			if r.Intn(3) == 0 {
				from = pick(r, "z"+to, "other", "aa")
			}
			l = append(l, &fxLoad{module: module, from: from, to: to})
		}
		multi := r.Intn(2) == 0
		all := false
		if r.Intn(8) == 0 {
			line("# %s", pick(r, "@unused", "kept: @unused here"))
			all = true
		} else if r.Intn(8) == 0 {
			line("# unused")
		}
		first := len(lines) + 1
		tail := ""
		if r.Intn(10) == 0 {
			tail, all = "  # @unused", true
		}
		arg := func(x *fxLoad) string {
			if x.from == x.to {
				return fmt.Sprintf("%q", x.to)
			}
			return fmt.Sprintf("%s = %q", x.to, x.from)
		}
		if multi {
			line("load(")
			line("    %q,", module)
			for _, x := range l {
				c := ""
				switch r.Intn(8) {
				case 0:
					c, x.keep = "  # @unused", true
				case 1:
					line("    # @unused")
					x.keep = true
				case 2:
					c = "  # other"
				}
				x.line, x.col = len(lines)+1, 5
				if x.from == x.to {
					x.col++
				}
				line("    %s,%s", arg(x), c)
			}
			line(")%s", tail)
		} else {
			t := fmt.Sprintf("load(%q", module)
			for _, x := range l {
				x.line, x.col = first, len(t)+3
				if x.from == x.to { // the name begins after the quote
					x.col++
				}
				t += ", " + arg(x)
			}
			line("%s)%s", t, tail)
		}
		if r.Intn(3) == 0 {
			line("")
		}
		for _, x := range l {
			x.keep = x.keep || all
			if e := have[x.to]; e != nil {
				x.repeats, x.same = e.line, e.module == x.module && e.from == x.from
				have[x.to] = &earlier{x.module, x.from, x.line}
			} else if !used[x.to] && !x.keep {
				x.unused = true
			} else {
				have[x.to] = &earlier{x.module, x.from, x.line}
			}
		}
		loads = append(loads, l...)
	}
	line("")
	return strings.Join(append(lines, uses...), "\n") + "\n", loads
}

// fxLoadOne compares the findings about the loads of a file, and what fixing them leaves.
func fxLoadOne(c *Ctx, k FileKind, text string, loads []*fxLoad) (sig, detail string) {
	f := lintParse(k, text)
	if f == nil {
		return "parse", "the file is not parsed"
	}
	var got, want []string
	for _, w := range warn.FileWarnings(f, []string{"load"}, nil, warn.ModeWarn, lintWorkspace.reader()) {
		m, _, _ := strings.Cut(w.Message, "\n")
		got = append(got, fmt.Sprintf("%d:%d %s", w.Start.Line, w.Start.LineRune, m))
	}
	var left, have []string
	for _, x := range loads {
		at := fmt.Sprintf("%d:%d ", x.line, x.col)
		switch {
		case x.repeats > 0 && x.same:
			want = append(want, at+fmt.Sprintf("Symbol %q has already been loaded on line %d. Please remove it.", x.to, x.repeats))
			c.Count("loaded twice", 1)
			continue
		case x.repeats > 0:
			want = append(want, at+fmt.Sprintf("A different symbol %q has already been loaded on line %d. Please use a different local name.", x.to, x.repeats))
			c.Count("loaded over another", 1)
		case x.unused:
			want = append(want, at+fmt.Sprintf("Loaded symbol %q is unused. Please remove it.", x.to))
			c.Count("unused loads", 1)
			continue
		default:
			c.Count("loads in use", 1)
		}
		left = append(left, fmt.Sprintf("%s %s=%s", x.module, x.to, x.from))
	}
	sort.Strings(got)
	sort.Strings(want)
	if a, b := strings.Join(got, "\n"), strings.Join(want, "\n"); a != b {
		return "load findings", "got:\n" + a + "\nwant:\n" + b
	}
	for _, x := range loads {
		if x.repeats > 0 && !x.same {
			return // Bazel rejects it, and formatting may merge or reorder the loads
		}
	}
	c.Count("files of loads fixed", 1)
	g := lintParse(k, text)
	warn.FixWarnings(g, []string{"load"}, false, lintWorkspace.reader())
	for _, s := range g.Stmt {
		if l, ok := s.(*build.LoadStmt); ok {
			for i := range l.To {
				have = append(have, fmt.Sprintf("%s %s=%s", l.Module.Value, l.To[i].Name, l.From[i].Name))
			}
		}
	}
	sort.Strings(left)
	sort.Strings(have)
	if a, b := strings.Join(have, "\n"), strings.Join(left, "\n"); a != b {
		return "load fix", "after the fix:\n" + a + "\nwant:\n" + b
	}
	return
}

func fxLoads(c *Ctx) {
	c.parallel(c.N(12000, 200000), 8, 4801, func(i int, r *rand.Rand) {
		text, loads := fxLoadFile(r)
		k := pick(r, KBzl, KDefault, KBuild)
		c.Case(text)
		c.Eval(text)
		if sig, detail := fxLoadOne(c, k, text, loads); sig != "" {
			c.Violate(sig, kindFile[k]+": "+detail, text)
		}
	})
}
