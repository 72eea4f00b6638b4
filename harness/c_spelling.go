package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

func init() { checks["C44"] = checkC44 }

// ---- C44: incidental spelling does not survive formatting ----

// namePrio is the documented order of named arguments of rules (0 for all others).
var namePrio = map[string]int{
	"name": -99, "archive_override.module_name": -99, "git_override.module_name": -99,
	"local_path_override.module_name": -99, "multiple_version_override.module_name": -99,
	"single_version_override.module_name": -99, "bazel_dep.version": -98, "module.version": -98,
	"gwt_name": -98, "package_name": -97, "visible_node_name": -96, "size": -95, "timeout": -94,
	"testonly": -93, "src": -92, "srcdir": -91, "srcs": -90, "out": -89, "outs": -88, "hdrs": -87,
	"has_services": -86, "include": -85, "of": -84, "baseline": -83,
	"destdir": 1, "exports": 2, "runtime_deps": 3, "deps": 4, "implementation": 5, "implements": 6, "alwayslink": 7,
}

var argNames = []string{"name", "module_name", "version", "gwt_name", "package_name", "visible_node_name", "size", "timeout", "testonly", "src", "srcdir", "srcs", "out", "outs", "hdrs", "has_services", "include", "of", "baseline", "destdir", "exports", "runtime_deps", "deps", "implementation", "implements", "alwayslink", "a", "zz", "visibility", "tags", "Name", "copts", "data", "_x", "names", "dep"}
var argCallees = []string{"cc_library", "glob", "f", "a.b", "module", "bazel_dep", "git_override", "archive_override", "x.module", "native.cc_test", "local_path_override", "single_version_override"}

// fx is a piece of program whose spelling is open.
type fx struct {
	k     string // id int float str list set dict call paren bin not idx dot comp cond lambda tuple
	s     string
	kids  []*fx
	multi bool
	alone bool // leave-alone comment above
	bare  bool // a comment would stick to parentheses around it
}

type fxGen struct {
	r    *rand.Rand
	kind FileKind
	sets bool // sets occur, which the reference parser doesn't know
}

func (g *fxGen) expr(d int) *fx {
	r := g.r
	if d <= 0 {
		switch r.Intn(4) {
		case 0:
			return &fx{k: "id", s: []string{"x", "y", "True", "None", "abc"}[r.Intn(5)]}
		case 1:
			if r.Intn(3) == 0 {
				return &fx{k: "float", s: []string{"1.5|3", "0.5|", "0.25|-2", "10.0|0", "1.0|12", "1.|", "2.5|10"}[r.Intn(7)]}
			}
			if r.Intn(3) == 0 {
				return &fx{k: "oct", s: []string{"17", "755", "0", "01"}[r.Intn(4)]}
			}
			return &fx{k: "int", s: fmt.Sprint(r.Intn(100))}
		default:
			return &fx{k: "str", s: []string{"", "a", "b c", "#", "e", `\n`, `x\\y`, "[", "::"}[r.Intn(9)]}
		}
	}
	kids := func(n int) (l []*fx, multi bool) {
		for i := 0; i < n; i++ {
			e := g.expr(d - 1 - r.Intn(2))
			l = append(l, e)
			multi = multi || e.hasMulti()
		}
		return
	}
	e := &fx{}
	switch r.Intn(14) {
	case 0, 1, 2:
		e.k = "list"
		e.kids, e.multi = kids(r.Intn(4))
		for i, k := range e.kids {
			if k.k == "str" {
				// lists of strings may be sorted, see C08
				e.kids[i] = &fx{k: "int", s: fmt.Sprint(r.Intn(100))}
			}
		}
		if g.sets && len(e.kids) > 0 && r.Intn(2) == 0 {
			e.k = "set"
		}
	case 3:
		e.k = "dict"
		e.kids, e.multi = kids(2 * r.Intn(3))
	case 4, 5, 6:
		return g.call(d)
	case 7:
		e.k, e.s = "bin", []string{"+", "*", "==", "and", "in", "not in", "%", "//", "|", "<<"}[r.Intn(10)]
		for i := 0; i < 2; i++ {
			e.kids = append(e.kids, g.expr(0))
		}
		return e
	case 8:
		e.k = "not"
		e.kids = []*fx{g.expr(0)}
		return e
	case 9:
		e.k = "idx"
		e.kids = []*fx{{k: "id", s: "x"}, g.expr(0)}
		return e
	case 10:
		e.k = "dot"
		e.kids = []*fx{{k: "id", s: "x"}}
		return e
	case 11:
		e.k = "comp"
		e.kids = []*fx{g.expr(0), g.expr(0), g.expr(0)}
		return e
	case 12:
		e.k = "cond"
		e.kids = []*fx{g.expr(0), g.expr(0), g.expr(0)}
		return e
	default:
		return g.expr(0)
	}
	if len(e.kids) > 0 && r.Intn(3) == 0 {
		e.multi = true
	}
	return e
}

func (e *fx) hasMulti() bool {
	if e.multi {
		return true
	}
	for _, k := range e.kids {
		if k.hasMulti() {
			return true
		}
	}
	return false
}

func (e *fx) bareAll() {
	for _, k := range e.kids {
		k.bare = true
		k.bareAll()
	}
}

// call has children of kind arg: s is the name, "", "*" or "**".
func (g *fxGen) call(d int) *fx {
	r := g.r
	e := &fx{k: "call", s: argCallees[r.Intn(len(argCallees))]}
	used := map[string]bool{}
	add := func(name string) {
		if used[name] && name != "" {
			return
		}
		used[name] = true
		v := g.expr(d - 1 - r.Intn(2))
		if name == "*" || name == "**" {
			v = &fx{k: "id", s: "y"}
		}
		a := &fx{k: "arg", s: name, kids: []*fx{v}}
		e.multi = e.multi || v.hasMulti()
		e.kids = append(e.kids, a)
	}
	for n := r.Intn(3); n > 0; n-- {
		add("")
	}
	for n := r.Intn(7); n > 0; n-- {
		add(argNames[r.Intn(len(argNames))])
	}
	if r.Intn(10) == 0 {
		add("*")
	}
	if r.Intn(8) == 0 {
		add("**")
	}
	if len(e.kids) > 0 && r.Intn(3) > 0 {
		e.multi = true
	}
	if e.multi {
		for _, a := range e.kids {
			if r.Intn(25) == 0 {
				a.alone = true
				a.kids[0].bare = true
			}
		}
	} else {
		// simple arguments without parentheses are kept on one line
		e.bareAll()
	}
	return e
}

func argClassOf(s string) int {
	switch s {
	case "":
		return 0
	case "*":
		return 2
	case "**":
		return 3
	}
	return 1
}

// sortArgs puts the arguments of every call into the documented order.
func (e *fx) sortArgs(buildLike, alone bool) {
	alone = alone || e.alone
	if e.k == "call" {
		sort.SliceStable(e.kids, func(i, j int) bool { return argClassOf(e.kids[i].s) < argClassOf(e.kids[j].s) })
		if buildLike && !alone && e.namedTail() {
			sort.SliceStable(e.kids, func(i, j int) bool {
				a, b := e.kids[i].s, e.kids[j].s
				if argClassOf(a) != argClassOf(b) || argClassOf(a) != 1 {
					return argClassOf(a) < argClassOf(b)
				}
				if p, q := e.prio(a), e.prio(b); p != q {
					return p < q
				}
				return a < b
			})
		}
	}
	for _, k := range e.kids {
		k.sortArgs(buildLike, alone)
	}
}

// namedTail: named arguments followed by *args or **kwargs are not reordered.
func (e *fx) namedTail() bool {
	for _, a := range e.kids {
		if argClassOf(a.s) > 1 {
			return false
		}
	}
	return true
}

func (e *fx) prio(name string) int {
	if p, ok := namePrio[e.s+"."+name]; ok {
		return p
	}
	return namePrio[name]
}

type fxStmt struct {
	lhs   string
	e     *fx
	com   string // comment above
	suf   string
	body  []*fxStmt
	head  string // compound statement
	blank bool   // separated from the one before by blank lines (where that matters)
}

func (g *fxGen) file() []*fxStmt {
	r := g.r
	var stmts func(n, depth int) []*fxStmt
	stmts = func(n, depth int) (l []*fxStmt) {
		for i := 0; i < n; i++ {
			st := &fxStmt{e: g.expr(1 + r.Intn(3)), blank: r.Intn(2) == 0}
			if r.Intn(2) == 0 || depth > 0 {
				st.e = g.call(1 + r.Intn(3))
			}
			if r.Intn(3) == 0 {
				st.lhs = []string{"v", "w"}[r.Intn(2)]
			}
			switch r.Intn(14) {
			case 0:
				st.com = "# note"
			case 1:
				st.com = "# buildifier: leave-alone"
				st.e.alone = true
			case 2:
				st.suf = "# end"
			}
			if depth < 2 && r.Intn(8) == 0 {
				st.head = []string{"def f(a, b = 1):", "if x:", "for i in y:"}[r.Intn(3)]
				if depth > 0 {
					st.head = "if x:"
				}
				if st.com == "# buildifier: leave-alone" {
					st.com = ""
				}
				st.suf = ""
				st.body = stmts(1+r.Intn(2), depth+1)
			}
			st.e.bare = st.com != "" || st.suf != ""
			l = append(l, st)
		}
		return
	}
	return stmts(1+r.Intn(4), 0)
}

// fxOut renders with a layout chosen by r; r == nil gives the plain layout.
type fxOut struct {
	r    *rand.Rand
	kind FileKind
	sb   strings.Builder
}

func (o *fxOut) n(n int) int {
	if o.r == nil {
		return 0
	}
	return o.r.Intn(n)
}

// sp is optional white space, must1 at least one blank.
func (o *fxOut) sp() {
	o.sb.WriteString([]string{"", "", " ", "  ", "\t"}[o.n(5)])
}
func (o *fxOut) sp1() { o.sb.WriteString([]string{" ", " ", "  ", "\t "}[o.n(4)]) }
func (o *fxOut) w(s string) {
	o.sb.WriteString(s)
}

// nl is a line break inside of brackets.
func (o *fxOut) nl() {
	o.sb.WriteString([]string{"\n", " \n", "\n  ", "\n\t", "\n        ", "\n"}[o.n(6)])
}

func (o *fxOut) seq(open, close string, n int, multi bool, elem func(i int)) {
	o.w(open)
	if multi {
		o.nl()
	} else {
		o.sp()
	}
	for i := 0; i < n; i++ {
		elem(i)
		o.sp()
		last := i == n-1
		if !last || multi && o.n(2) == 0 || !multi && o.n(4) == 1 {
			o.w(",")
		}
		if multi {
			o.nl()
		} else {
			o.sp()
		}
	}
	o.w(close)
}

func (o *fxOut) expr(e *fx, alone bool) {
	alone = alone || e.alone
	removable := map[string]bool{"id": true, "int": true, "oct": true, "float": true, "str": true, "list": true, "set": true, "dict": true, "call": true, "comp": true}
	if o.kind.buildLike() && removable[e.k] && !e.bare && o.n(8) == 1 {
		o.w("(")
		o.sp()
		defer func() { o.sp(); o.w(")") }()
	}
	switch e.k {
	case "id", "int":
		o.w(e.s)
	case "oct":
		if o.n(2) == 0 {
			o.w("0o" + e.s)
		} else {
			o.w("0" + e.s)
		}
	case "float":
		p := strings.Split(e.s, "|")
		m := p[0]
		if o.n(2) == 1 && strings.HasPrefix(m, "0.") {
			m = m[1:]
		}
		o.w(m)
		if p[1] != "" {
			exp := p[1]
			if !strings.HasPrefix(exp, "-") {
				switch o.n(4) {
				case 1:
					exp = "+" + exp
				case 2:
					exp = "0" + exp
				case 3:
					exp = "+00" + exp
				}
			}
			o.w([]string{"e", "E"}[o.n(2)] + exp)
		}
	case "str":
		q := []string{`"`, `'`}[o.n(2)]
		o.w(q + e.s + q)
	case "list":
		o.seq("[", "]", len(e.kids), e.multi, func(i int) { o.expr(e.kids[i], alone) })
	case "set":
		o.seq("{", "}", len(e.kids), e.multi, func(i int) { o.expr(e.kids[i], alone) })
	case "dict":
		o.seq("{", "}", len(e.kids)/2, e.multi, func(i int) {
			o.expr(e.kids[2*i], alone)
			o.sp()
			o.w(":")
			o.sp()
			o.expr(e.kids[2*i+1], alone)
		})
	case "call":
		o.w(e.s)
		o.sp()
		kids := append([]*fx{}, e.kids...)
		if o.r != nil {
			if o.kind.buildLike() && !alone && e.namedTail() {
				o.r.Shuffle(len(kids), func(i, j int) {
					if kids[i].s != "" && kids[j].s != "" {
						kids[i], kids[j] = kids[j], kids[i]
					}
				})
			}
			if o.r.Intn(4) == 0 {
				// move arguments of a later class in front of some of an earlier one
				for n := len(kids); n > 1; n-- {
					j := o.r.Intn(len(kids) - 1)
					if argClassOf(kids[j].s) != argClassOf(kids[j+1].s) {
						kids[j], kids[j+1] = kids[j+1], kids[j]
					}
				}
			}
		}
		o.seq("(", ")", len(kids), e.multi, func(i int) {
			a := kids[i]
			if a.alone {
				o.w("# buildifier: leave-alone")
				o.nl()
			}
			al := alone || a.alone
			switch argClassOf(a.s) {
			case 0:
				o.expr(a.kids[0], al)
			case 1:
				o.w(a.s)
				o.sp()
				o.w("=")
				o.sp()
				o.expr(a.kids[0], al)
			default:
				o.w(a.s)
				o.sp()
				o.w(a.kids[0].s)
			}
		})
	case "bin":
		o.expr(e.kids[0], alone)
		o.sp1()
		o.w(e.s)
		o.sp1()
		o.expr(e.kids[1], alone)
	case "not":
		o.w("not")
		o.sp1()
		o.expr(e.kids[0], alone)
	case "idx":
		o.expr(e.kids[0], alone)
		o.sp()
		o.w("[")
		o.sp()
		o.expr(e.kids[1], alone)
		o.sp()
		o.w("]")
	case "dot":
		o.expr(e.kids[0], alone)
		o.sp()
		o.w(".")
		o.sp()
		o.w("attr")
	case "comp":
		o.w("[")
		o.sp()
		o.expr(e.kids[0], alone)
		o.sp1()
		o.w("for")
		o.sp1()
		o.w("q")
		o.sp1()
		o.w("in")
		o.sp1()
		o.expr(e.kids[1], alone)
		o.sp1()
		o.w("if")
		o.sp1()
		o.expr(e.kids[2], alone)
		o.sp()
		o.w("]")
	case "cond":
		o.w("(")
		o.sp()
		o.expr(e.kids[0], alone)
		o.sp1()
		o.w("if")
		o.sp1()
		o.expr(e.kids[1], alone)
		o.sp1()
		o.w("else")
		o.sp1()
		o.expr(e.kids[2], alone)
		o.sp()
		o.w(")")
	}
}

func (o *fxOut) file(l []*fxStmt, ind string, top bool) {
	for i, st := range l {
		free := top && o.kind.buildLike()
		if i > 0 {
			n := 0
			if free {
				n = o.n(3)
			} else if st.blank {
				n = 1 + o.n(3)
			}
			for ; n > 0; n-- {
				o.w([]string{"", "  ", ind}[o.n(3)] + "\n")
			}
		}
		if st.com != "" {
			o.w(ind + st.com + "\n")
		}
		o.w(ind)
		if st.head != "" {
			o.w(strings.ReplaceAll(st.head, ":", []string{"", " "}[o.n(2)]+":") + []string{"", " "}[o.n(2)] + "\n")
			o.file(st.body, ind+[]string{"    ", "  ", "   ", " ", "        "}[o.n(5)], false)
			continue
		}
		if st.lhs != "" {
			o.w(st.lhs)
			o.sp()
			o.w("=")
			o.sp()
		}
		o.expr(st.e, st.e.alone)
		if st.suf != "" {
			o.w([]string{"  ", " ", "", "\t"}[o.n(4)] + st.suf)
		} else {
			o.w([]string{"", " ", ";"}[o.n(3)])
		}
		o.w("\n")
	}
}

func checkC44(c *Ctx) {
	c.Rule("random programs rendered several times with different spellings of everything formatting does not keep (blanks, tabs and blank lines, indentation, quotes, octal and float spellings, trailing commas, redundant parentheses and blank lines in BUILD-like files, order of arguments): all have to format to the same bytes, the order of arguments being the one of a reference model of the documented priorities. Distinct non-trivial: distinct programs with two different spellings.")
	one := func(i int) {
		r := rand.New(rand.NewSource(c.Seed*3571 + int64(i)*9973 + 44))
		kind := FileKind(r.Intn(5))
		g := &fxGen{r, kind, r.Intn(6) == 0}
		prog := g.file()
		render := func(rr *rand.Rand) string {
			o := &fxOut{r: rr, kind: kind}
			o.file(prog, "", true)
			return o.sb.String()
		}
		var srcs, outs []string
		seen := map[string]bool{}
		for k := 0; k < 3; k++ {
			srcs = append(srcs, render(rand.New(rand.NewSource(r.Int63()))))
			seen[srcs[k]] = true
		}
		log := fmt.Sprintf("%v\n%s\n---- spelled differently\n%s", kind, srcs[0], srcs[1])
		c.Case(log)
		c.Guard("format", log, func() {
			for _, s := range srcs {
				out, _, err := formatKind(kind, s)
				if err != nil {
					c.Violate("parse", err.Error(), fmt.Sprint(kind)+"\n"+s)
					return
				}
				outs = append(outs, out)
			}
			for k := 1; k < len(outs); k++ {
				if outs[k] != outs[0] {
					c.Violate("spelling", "formatted differently:\n"+outs[0]+"\n---- and\n"+outs[k], fmt.Sprintf("%v\n%s\n---- spelled differently\n%s", kind, srcs[0], srcs[k]))
					return
				}
			}
			// the order of arguments by the model
			for _, st := range allFx(prog) {
				st.e.sortArgs(kind.buildLike(), st.e.alone)
			}
			if !g.sets {
				a, e1 := starParse(outs[0])
				b, e2 := starParse(render(nil))
				if e1 != nil || e2 != nil {
					c.Violate("reparse", fmt.Sprint(e1, e2)+"\n"+outs[0], log)
					return
				}
				if d := firstDiff(b, a, ""); d != "" {
					c.Violate("order", "not the documented order: "+d+"\n"+outs[0], log)
					return
				}
			}
		})
		key := ""
		if len(seen) > 1 {
			key = log
		}
		c.Eval(key)
		c.Sample(log)
	}
	for i, n := 0, c.N(9000, 200000); i < n && !c.Failed(); i++ {
		one(i)
	}
}

func allFx(l []*fxStmt) (out []*fxStmt) {
	for _, st := range l {
		out = append(out, st)
		out = append(out, allFx(st.body)...)
	}
	return
}
