package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() { checks["C49"] = checkC49 }

// ---- C49: line breaks and blank lines of formatted files ----
//
// A reference formatter for programs of a subset of the language: the programs
// are rendered with hostile line breaks, blank lines and comments, the lines
// every piece lands on are recorded, and the layout rules then prescribe the
// formatted file to the byte.

// lx is an expression.
type lx struct {
	k      string // atom call list tuple dict set paren comp bin sum dots
	s      string // text of an atom, callee, operator
	kids   []*lx
	key    string // keyword or dictionary key in front
	star   string // * or **
	simple bool   // atom that may stay in a forced one-line list
	src    string // another spelling
	com    []string
	suf    string // comment at the end of its line
	endCom []string
	brk    []int  // line breaks before each kid, and before the closing bracket
	lb     []bool // the operator in front of the operand ends the line
	force  bool
	name   bool // an atom that needs no parentheses
	held   bool // the parentheses have a comment
	keyBrk bool // line break between the key and the value
	inline []string

	start, open, end int // lines in the source
}

// li is a statement or a group of comments.
type li struct {
	k      string // group load simple def for if
	e      *lx
	pre    string // text in front of the expression
	post   string
	mod    string // kind of a MODULE.bazel statement
	modArg string
	before []string // comments right above
	after  []string // comments right below
	suf    []string // comments at the end of the line of the statement or of each header
	lines  []string // comments of a group
	body   []*li
	arms   [][]*li  // if, elif, else
	conds  []string // one per arm, "" for else
	gap    int      // blank lines in front
	armGap []int
	same   bool   // on the line of the previous statement
	oneLn  []bool // body on the line of its header

	start, end int
	armStart   []int
}

type lyGen struct {
	r    *rand.Rand
	kind FileKind
	ncom int
	nmod int
	id   int
	fn   int
}

func (g *lyGen) comment() []string {
	var l []string
	for n := 1 + g.r.Intn(8)/6; n > 0; n-- {
		g.ncom++
		l = append(l, fmt.Sprintf("# note %d", g.ncom))
	}
	return l
}

func (g *lyGen) atom() *lx {
	s := pick(g.r, "x", "yy", "1", "20", `"s"`, `"a b"`, "-1", "-z", "None", "[]", "()", "{}", "not q", "a.b|", "x[0]|",
		"x[1:]|", "\"\"\"t\n u\"\"\"", "\"\"\"one\"\"\"", "f(y)|", "a.b()|", "x if y else z|", "lambda q: q + 1|", "p + 2|", "w[i][j]|", "q", "r\"\\d\"")
	if s == "[]" {
		e := &lx{k: "list"}
		g.breaks(e)
		return e
	}
	e := &lx{k: "atom", s: strings.TrimSuffix(s, "|"), simple: !strings.HasSuffix(s, "|")}
	if g.r.Intn(4) == 0 {
		e.src = map[string]string{`"s"`: `'s'`, "20": "  20", "p + 2": "p+2", "x[1:]": "x[ 1 : ]", "f(y)": "f( y )", "x": "  x"}[e.s]
	}
	return e
}

func (g *lyGen) expr(d int) *lx {
	r := g.r
	if d <= 0 || r.Intn(4) == 0 {
		return g.atom()
	}
	e := &lx{}
	n := []int{0, 1, 1, 2, 2, 3}[r.Intn(6)]
	switch r.Intn(12) {
	case 9:
		return g.sum(d)
	case 10:
		return g.dots(d)
	case 11:
		e.k = "paren"
		e.kids = []*lx{g.expr(d - 1 - r.Intn(2))}
		if e.kids[0].k == "atom" {
			e.kids[0] = &lx{k: "atom", s: pick(r, "x", "12", `"s"`), simple: true, name: true}
		}
		g.breaks(e)
		return e
	case 0, 1:
		e.k = "list"
	case 2, 3:
		return g.call(d)
	case 4:
		e.k = "tuple"
	case 5:
		e.k = "dict"
	case 6:
		e.k, n = "paren", 1
		if r.Intn(2) == 0 {
			e.kids = []*lx{g.sum(d)}
			g.breaks(e)
			return e
		}
		e.kids = []*lx{{k: "bin", s: pick(r, " + ", " * ", " and ", " == ", " not in ")}}
		for len(e.kids[0].kids) < 2 {
			if a := g.atom(); !strings.ContainsAny(a.s, " \n") {
				e.kids[0].kids = append(e.kids[0].kids, a)
			}
		}
		g.breaks(e)
		return e
	case 7:
		e.k = "comp"
		e.s = pick(r, "[]", "{}")
		e.kids = []*lx{{k: "atom", s: "f(i)"}, {k: "atom", s: "for i in " + pick(r, "x", "range(3)")}}
		if r.Intn(2) == 0 {
			e.kids = append(e.kids, &lx{k: "atom", s: "if i"})
		}
		if r.Intn(4) == 0 {
			e.kids = append(e.kids, &lx{k: "atom", s: "for j in i"})
		}
		if e.s == "{}" {
			e.kids[0].key = "i: "
		}
		g.breaks(e)
		return e
	default:
		e.k = "list"
	}
	for i := 0; i < n; i++ {
		kid := g.expr(d - 1 - r.Intn(2))
		if e.k == "dict" {
			kid.key = fmt.Sprintf("%q: ", fmt.Sprintf("k%d", i))
		}
		e.kids = append(e.kids, kid)
	}
	g.breaks(e)
	return e
}

// dots makes a chain of attributes and calls that may be broken over lines.
func (g *lyGen) dots(d int) *lx {
	r := g.r
	e := &lx{k: "dots", s: pick(r, "x", "x", "native", "y[0]", "f()", `"s"`)}
	style := r.Intn(4)
	for n := 2 + r.Intn(2); len(e.kids) < n; {
		k := &lx{k: "atom"}
		if r.Intn(2) == 0 {
			k = g.call(d - 2)
		}
		k.s = pick(r, "b", "cc", "format")
		e.kids = append(e.kids, k)
		e.brk = append(e.brk, map[int]int{0: 0, 1: 1, 2: r.Intn(3), 3: 2 * (r.Intn(4) / 3)}[style])
	}
	return e
}

// sum makes a chain of operations that may be broken over lines.
func (g *lyGen) sum(d int) *lx {
	r := g.r
	e := &lx{k: "sum", s: pick(r, "+", "+", "+", "+", "-", "|", "and")}
	style := r.Intn(4)
	for n := 2 + r.Intn(3); len(e.kids) < n; {
		var k *lx
		switch r.Intn(4) {
		case 0, 1:
			k = &lx{k: "list"}
			for j := r.Intn(3); j > 0; j-- {
				k.kids = append(k.kids, g.expr(d-2-r.Intn(2)))
			}
			g.breaks(k)
		case 2:
			k = &lx{k: "call", s: pick(r, "glob", "select", "f")}
			l := &lx{k: "list"}
			for j := r.Intn(3); j > 0; j-- {
				l.kids = append(l.kids, g.expr(d-3))
			}
			g.breaks(l)
			k.kids = []*lx{l}
			if r.Intn(4) == 0 {
				l.key = "p0 = "
			}
			g.breaks(k)
		default:
			k = g.expr(d - 1 - r.Intn(2))
			if k.k == "sum" || k.k == "atom" && strings.ContainsAny(k.s, " \n") {
				continue
			}
		}
		e.kids = append(e.kids, k)
		e.brk = append(e.brk, map[int]int{0: 0, 1: 1, 2: r.Intn(2), 3: r.Intn(4) / 3}[style])
	}
	return e
}

func (g *lyGen) call(d int) *lx {
	r := g.r
	e := &lx{k: "call", s: pick(r, "f", "g.h", "some_rule", "a.b.c")}
	n := []int{0, 1, 1, 2, 2, 3}[r.Intn(6)]
	named := 0
	if r.Intn(2) == 0 {
		named = r.Intn(3)
	}
	for i := 0; i < n; i++ {
		e.kids = append(e.kids, g.expr(d-1-r.Intn(2)))
	}
	for i := 0; i < named; i++ {
		kid := g.expr(d - 1 - r.Intn(2))
		kid.key = fmt.Sprintf("p%d = ", i)
		e.kids = append(e.kids, kid)
	}
	if r.Intn(6) == 0 {
		e.kids = append(e.kids, &lx{k: "atom", s: "ar", star: "*", simple: true})
	}
	if r.Intn(6) == 0 {
		e.kids = append(e.kids, &lx{k: "atom", s: "kw", star: "**", simple: true})
	}
	g.breaks(e)
	return e
}

// breaks decides where the source of a bracketed expression is broken.
func (g *lyGen) breaks(e *lx) {
	r := g.r
	style := r.Intn(8)
	e.brk = make([]int, len(e.kids)+1)
	for i := range e.brk {
		switch style {
		case 0, 1:
			e.brk[i] = 1
		case 2:
			e.brk[i] = r.Intn(2) * (1 + r.Intn(2))
		case 3:
			if i == r.Intn(len(e.brk)) {
				e.brk[i] = 1
			}
		}
	}
	if style == 4 {
		e.brk[0] = 1
	}
	if style == 5 {
		e.brk[len(e.kids)] = 1
	}
	if e.k == "comp" {
		return
	}
	for i, kid := range e.kids {
		if kid.key != "" && r.Intn(16) == 0 {
			kid.keyBrk = true
		}
		if e.k != "paren" && r.Intn(14) == 0 {
			kid.com = g.comment()
			e.brk[i] = 1
		}
		if e.k != "paren" && r.Intn(16) == 0 {
			kid.suf = g.comment()[0]
			e.brk[i+1] = 1
		}
	}
	if e.k != "paren" && r.Intn(25) == 0 {
		e.endCom = g.comment()
		e.brk[len(e.kids)] = 1
		// The comment belongs in front of the bracket only if it's on lines of its own.
	}
}

// ---- statements ----

func (g *lyGen) gaps() int { return []int{0, 0, 0, 1, 1, 2, 3}[g.r.Intn(7)] }

func (g *lyGen) simple(d int) *li {
	r := g.r
	s := &li{k: "simple"}
	g.id++
	if r.Intn(8) == 0 {
		s.suf = []string{g.comment()[0]}
	}
	switch r.Intn(6) {
	case 5:
		if g.fn == 0 {
			s.e = g.call(d)
			s.e.s = "f"
			break
		}
		s.pre = pick(r, "return ", "return x, ", "return y, f(1), ")
		s.e = g.expr(d)
		if r.Intn(3) == 0 {
			s.pre, s.e = pick(r, "return", "pass"), &lx{k: "atom"}
		}
	case 0, 1:
		s.e = g.call(d)
		if s.e.s == "g.h" {
			// Any call of a method may be a tag of a module extension.
			s.mod, s.modArg = "tag", "g"
		}
	case 2:
		s.e = g.expr(d)
		s.e.key = fmt.Sprintf("v%d += ", g.id)
		s.e.keyBrk = r.Intn(12) == 0
	default:
		s.e = g.expr(d)
		s.e.key = fmt.Sprintf("v%d = ", g.id)
		s.e.keyBrk = r.Intn(12) == 0
	}
	return s
}

func str(s string) *lx { return &lx{k: "atom", s: fmt.Sprintf("%q", s), simple: true} }

func (g *lyGen) module() *li {
	r := g.r
	s := &li{k: "simple"}
	e := &lx{k: "call"}
	named := func(k string, v *lx) *lx { v.key = k + " = "; return v }
	boolean := func() *lx {
		v := pick(r, "True", "False", "True", "DEV", "1", "0")
		return named("dev_dependency", &lx{k: "atom", s: v, simple: true})
	}
	name := pick(r, "a", "b")
	proxy := pick(r, "ext", "other")
	switch r.Intn(8) {
	case 0, 1, 2:
		e.s, s.mod, s.modArg = "bazel_dep", "dep", name
		e.kids = []*lx{named("name", str(name)), named("version", str("1"))}
		if g.kind == KModule && r.Intn(3) == 0 {
			b := boolean()
			e.kids = append(e.kids, b)
			if b.s == "True" || b.s == "1" || b.s == "0" {
				s.mod = "devdep"
			}
		}
	case 3:
		e.s, s.mod, s.modArg = pick(r, "git_override", "archive_override", "local_path_override", "single_version_override", "multiple_version_override"), "override", name
		e.kids = []*lx{named("module_name", str(name))}
		if r.Intn(2) == 0 {
			e.kids = append(e.kids, named("zz", str("x")))
		}
	case 4:
		s.pre = proxy + " = "
		e.s, s.mod, s.modArg = "use_extension", "ext", proxy
		e.kids = []*lx{str("//:e.bzl"), str("e")}
		if g.kind == KModule && r.Intn(3) == 0 {
			e.kids = append(e.kids, boolean())
		}
	case 5:
		e.s, s.mod, s.modArg = "use_repo", "repo", proxy
		e.kids = []*lx{{k: "atom", s: proxy, simple: true}, str("r1")}
		if r.Intn(2) == 0 {
			e.kids = append(e.kids, str("r2"))
		}
		if r.Intn(3) == 0 {
			e.kids = append(e.kids, named("r3", str("q")))
		}
	case 6:
		e.s, s.mod, s.modArg = proxy+"."+pick(r, "tag", "module"), "tag", proxy
		if r.Intn(2) == 0 {
			e.kids = []*lx{named("path", str("x"))}
		}
	default:
		e.s, s.mod = "include", "include"
		e.kids = []*lx{str("//:x.MODULE.bazel")}
	}
	if r.Intn(12) == 0 {
		// what a directive refers to is not always a literal or a name
		switch {
		case s.mod == "dep" || s.mod == "devdep" || s.mod == "override":
			s.modArg = ""
			if r.Intn(2) == 0 {
				e.kids = e.kids[1:]
			} else {
				v := &lx{k: "bin", s: " + ", kids: []*lx{str("a"), str("b")}, key: e.kids[0].key}
				e.kids[0] = v
			}
		case s.mod == "repo":
			s.modArg = ""
			if r.Intn(2) == 0 {
				e.kids = e.kids[1:]
			} else {
				e.kids[0] = &lx{k: "atom", s: "exts." + proxy}
			}
		case s.mod == "ext":
			s.mod = ""
			e.s = "not_use_extension"
		case s.mod == "tag":
			s.modArg = ""
			e.s = "exts." + e.s
		}
	}
	g.breaks(e)
	s.e = e
	return s
}

func (g *lyGen) loadStmt() *li {
	r := g.r
	g.nmod++
	e := &lx{k: "call", s: "load"}
	e.kids = []*lx{str(fmt.Sprintf(":m%02d.bzl", g.nmod))}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		e.kids = append(e.kids, str(fmt.Sprintf("s%02d_%d", g.nmod, i)))
	}
	if r.Intn(4) == 0 {
		a := str("orig")
		a.key = fmt.Sprintf("t%02d = ", g.nmod)
		e.kids = append(e.kids, a)
	}
	g.breaks(e)
	e.endCom = nil
	for _, k := range e.kids {
		k.keyBrk = false
	}
	return &li{k: "load", e: e}
}

func (g *lyGen) params() *lx {
	r := g.r
	e := &lx{k: "def"}
	for i, n := 0, r.Intn(4); i < n; i++ {
		p := &lx{k: "atom", s: fmt.Sprintf("p%d", i)}
		if i == n-1 && r.Intn(2) == 0 {
			p = g.expr(1)
			p.key = fmt.Sprintf("p%d = ", i)
		}
		e.kids = append(e.kids, p)
	}
	g.breaks(e)
	e.endCom = nil
	for _, k := range e.kids {
		k.com, k.suf = nil, ""
	}
	return e
}

// headers adds comments at the end of block headers, or puts the body on the line of its header.
func (s *li) headers(g *lyGen, n int) {
	for i := 0; i < n; i++ {
		c := ""
		body := s.body
		if s.arms != nil {
			body = s.arms[i]
		}
		flat := true
		for j, b := range body {
			if b.k != "simple" || len(b.before) > 0 || len(b.after) > 0 || j+1 < len(body) && len(b.suf) > 0 {
				flat = false
			}
		}
		one := flat && g.r.Intn(3) == 0
		if one {
			for j, b := range body {
				b.gap, b.same = 0, j > 0
			}
		} else if g.r.Intn(6) == 0 {
			c = g.comment()[0]
		}
		s.suf = append(s.suf, c)
		s.oneLn = append(s.oneLn, one)
	}
}

// block makes statements; tail tells whether comments may follow the last one.
func (g *lyGen) block(d int, top, tail bool) []*li {
	r := g.r
	var l []*li
	n := 1 + r.Intn(3)
	if top {
		n = 2 + r.Intn(6)
	}
	for i := 0; i < n; i++ {
		last := i == n-1
		var s *li
		switch k := r.Intn(12); {
		case top && k < 2:
			s = g.loadStmt()
		case top && g.kind == KModule && k < 9:
			s = g.module()
		case g.kind != KModule && (k == 7 && r.Intn(3) == 0 || i > 0 && l[i-1].mod != "" && r.Intn(2) == 0):
			// the same calls mean nothing in other files
			s = g.module()
		case d > 0 && (k == 9 || top && k == 8):
			s = &li{k: "def", pre: fmt.Sprintf("def fn%d", g.id), e: g.params()}
			g.id++
			g.fn++
			s.body = g.block(d-1, false, tail || !last)
			g.fn--
			s.headers(g, 1)
		case d > 0 && k == 10:
			s = &li{k: "for", pre: "for i in ", e: g.expr(1)}
			s.body = g.block(d-1, false, tail || !last)
			s.headers(g, 1)
		case d > 0 && k == 11:
			s = &li{k: "if"}
			na := 1 + r.Intn(3)
			for j := 0; j < na; j++ {
				c := fmt.Sprintf("c%d", j)
				if j > 0 && j == na-1 && r.Intn(2) == 0 {
					c = ""
				}
				s.conds = append(s.conds, c)
				lastArm := j == na-1
				arm := g.block(d-1, false, lastArm && (tail || !last))
				if c == "" && len(arm) == 1 && arm[0].k == "if" {
					arm = []*li{{k: "simple", pre: "w = ", e: g.atom()}}
				}
				s.arms = append(s.arms, arm)
				s.armGap = append(s.armGap, g.gaps())
			}
			s.headers(g, na)
		default:
			s = g.simple(2)
		}
		s.gap = g.gaps()
		if i > 0 && s.k == "simple" && l[len(l)-1].k == "simple" && len(l[len(l)-1].suf) == 0 && len(l[len(l)-1].after) == 0 && r.Intn(12) == 0 {
			s.same = true
		} else {
			if r.Intn(6) == 0 {
				grp := &li{k: "group", lines: g.comment(), gap: 1 + r.Intn(2)}
				l = append(l, grp)
				s.gap = 1 + r.Intn(2)
			}
			if r.Intn(6) == 0 {
				s.before = g.comment()
				if i > 0 && s.gap == 0 && len(l[len(l)-1].after) > 0 {
					s.gap = 1
				}
			}
		}
		if !top && i == 0 {
			// The first statement of a block follows its header.
			for len(l) > 0 {
				l = l[1:]
			}
			s.before, s.same = nil, false
			s.gap = g.gaps()
		}
		l = append(l, s)
		if r.Intn(8) == 0 && (tail || !last) && s.k != "def" && s.k != "for" && s.k != "if" {
			s.after = g.comment()
		}
		if len(l) > 1 {
			if p := l[len(l)-2]; len(p.after) > 0 && s.gap == 0 {
				if s.same {
					s.same = false
				}
				s.gap = 1
			}
		}
	}
	return l
}

// ---- rendering with recorded lines ----

type lySrc struct {
	r     *rand.Rand
	b     strings.Builder
	line  int
	depth int // open brackets
}

func (o *lySrc) w(s string) {
	o.b.WriteString(s)
	o.line += strings.Count(s, "\n")
}

func (o *lySrc) blanks(n int) {
	for ; n > 0; n-- {
		o.w(pick(o.r, "", "", "", "  ", "\t") + "\n")
	}
}

func (o *lySrc) expr(e *lx) {
	e.start = o.line
	if e.keyBrk {
		o.w(strings.TrimRight(e.key, " "))
		o.cut()
	} else {
		o.w(e.key)
	}
	o.w(e.star)
	switch e.k {
	case "dots":
		o.w(e.s)
		e.lb = make([]bool, len(e.kids))
		for i, k := range e.kids {
			end := o.line
			if e.brk[i] == 1 {
				o.cut()
			}
			o.w(".")
			if e.brk[i] == 2 {
				o.cut()
			}
			e.lb[i] = o.line != end
			o.expr(k)
		}
		e.open = e.kids[len(e.kids)-1].start
	case "atom":
		if e.src != "" {
			o.w(e.src)
		} else {
			o.w(e.s)
		}
	case "sum":
		for i, k := range e.kids {
			if i > 0 {
				o.w(pick(o.r, " ", " ", "  ") + e.s + pick(o.r, " ", " ", "   "))
				if e.brk[i] > 0 {
					o.cut()
				}
			}
			o.expr(k)
		}
		e.lb = make([]bool, len(e.kids))
		for i := 1; i < len(e.kids); i++ {
			e.lb[i] = e.kids[i-1].end < e.kids[i].start
		}
	case "bin":
		o.expr(e.kids[0])
		o.w(e.s)
		o.expr(e.kids[1])
	default:
		br := brackets(e)
		if e.k == "call" {
			o.w(e.s)
		}
		e.open = o.line
		o.w(br[:1])
		o.depth++
		brk := func(n int, com []string) {
			if n == 0 && len(com) == 0 {
				return
			}
			if len(com) > 0 {
				n = 1
			}
			o.blanks(n - 1)
			o.w("\n")
			ind := strings.Repeat(" ", o.r.Intn(9))
			for _, c := range com {
				o.w(ind + c + "\n")
			}
			o.w(ind)
		}
		for i, k := range e.kids {
			if i > 0 {
				if e.k != "comp" {
					o.w(pick(o.r, ",", ",", " ,"))
				}
				if s := e.kids[i-1].suf; s != "" {
					o.w(pick(o.r, "", " ", "   ") + s)
				}
				if e.brk[i] == 0 {
					o.w(pick(o.r, " ", " ", "  "))
				}
			}
			brk(e.brk[i], k.com)
			o.expr(k)
		}
		n := len(e.kids)
		if e.k == "tuple" && n == 1 || n > 0 && e.k != "paren" && e.k != "comp" && e.k != "def" && o.r.Intn(3) == 0 && e.kids[n-1].star == "" {
			o.w(",")
		}
		if n > 0 && e.kids[n-1].suf != "" {
			o.w(pick(o.r, " ", "  ") + e.kids[n-1].suf)
		}
		brk(e.brk[n], e.endCom)
		o.w(br[1:])
		o.depth--
	}
	e.end = o.line
}

// cut breaks the line.
func (o *lySrc) cut() {
	if o.depth == 0 {
		o.w(" \\")
	}
	o.w("\n" + strings.Repeat(" ", o.r.Intn(9)))
}

// removable reports whether the parentheses are redundant.
func (e *lx) removable(kind FileKind) bool {
	if e.k != "paren" || e.held || !kind.buildLike() || e.open != e.kids[0].start || e.end != e.kids[0].end || e.key == "" && (len(e.com) > 0 || e.suf != "") {
		return false
	}
	switch x := e.kids[0]; x.k {
	case "list", "dict", "set", "comp", "call", "paren":
		return true
	case "atom":
		return x.name
	case "dots":
		return x.kids[len(x.kids)-1].k == "call" && x.start == x.open
	}
	return false
}

func brackets(e *lx) string {
	switch e.k {
	case "call", "tuple", "paren", "def":
		return "()"
	case "dict":
		return "{}"
	case "comp":
		return e.s
	}
	return "[]"
}

func (o *lySrc) items(l []*li, ind string) {
	for i, s := range l {
		nl := true
		if s.same && i > 0 {
			// continue the line of the previous statement
			t := strings.TrimRight(o.b.String(), "\n")
			o.b.Reset()
			o.b.WriteString(t)
			o.line--
			o.w(pick(o.r, "; ", ";"))
			nl = false
		} else {
			o.blanks(s.gap)
			for _, c := range s.before {
				o.w(ind + c + "\n")
			}
		}
		if nl && s.k != "group" {
			o.w(ind)
		}
		s.start = o.line
		step := ind + pick(o.r, "    ", "  ", " ")
		switch s.k {
		case "group":
			for _, c := range s.lines {
				o.w(ind + c + "\n")
			}
			s.end = o.line - 1
			continue
		case "load", "simple":
			o.w(s.pre)
			o.expr(s.e)
			s.end = o.line
			if len(s.suf) > 0 {
				o.w(pick(o.r, "", " ", "   ") + s.suf[0])
			}
			o.w("\n")
		case "def", "for":
			o.w(s.pre)
			o.expr(s.e)
			o.body(s, 0, s.body, step)
			s.end = lastLine(s.body)
		case "if":
			s.armStart = nil
			for j, arm := range s.arms {
				if j > 0 {
					o.blanks(s.armGap[j])
					o.w(ind)
				}
				s.armStart = append(s.armStart, o.line)
				if s.conds[j] == "" {
					o.w("else")
				} else if j == 0 {
					o.w("if " + s.conds[j])
				} else {
					o.w("elif " + s.conds[j])
				}
				o.body(s, j, arm, ind+pick(o.r, "    ", "  ", " "))
			}
			s.end = lastLine(s.arms[len(s.arms)-1])
		}
		for _, c := range s.after {
			o.w(ind + c + "\n")
		}
	}
}

func (o *lySrc) body(s *li, i int, body []*li, ind string) {
	o.w(":")
	if s.oneLn[i] {
		o.w(pick(o.r, "", " ", "  "))
		o.items(body, "")
		return
	}
	if s.start != o.line && s.k != "if" {
		// a line of closing brackets only: its comment belongs to the body
		s.suf[i] = ""
	}
	if s.suf[i] != "" {
		if s.k == "for" {
			s.e.held = true // the comment belongs to the expression
		}
		o.w(pick(o.r, "", " ", "   ") + s.suf[i])
	}
	o.w("\n")
	o.items(body, ind)
}

// lastLine is the line the last statement of a block ends on.
func lastLine(l []*li) int {
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].k != "group" {
			return l[i].end
		}
	}
	return 0
}

// ---- the layout rules ----

type lyFmt struct {
	kind  FileKind
	depth int // open brackets
	b     strings.Builder
}

func (f *lyFmt) oneLine(e *lx, level int, load bool) bool {
	for _, k := range e.kids {
		if len(k.com) > 0 || k.suf != "" {
			return false
		}
	}
	if len(e.endCom) > 0 {
		return false
	}
	n := len(e.kids)
	broken := func(closing bool) bool {
		line := e.open
		for _, k := range e.kids {
			if k.start != line {
				return true
			}
			line = k.end
		}
		return closing && e.end != line
	}
	if e.k == "comp" {
		return !broken(true)
	}
	if e.k == "call" && n == 0 {
		return true
	}
	if e.k == "def" {
		return !broken(false)
	}
	if load {
		return e.open == e.end
	}
	if level > 0 || !f.kind.buildLike() {
		return !broken(true)
	}
	if e.force {
		return false
	}
	if n <= 1 {
		return !broken(true)
	}
	if e.k == "call" && f.kind == KModule && (e.s == "bazel_dep" || e.s == "use_repo" || e.s == "use_extension") {
		return e.start == e.end
	}
	if e.k == "call" || e.k == "tuple" {
		for _, k := range e.kids {
			empty := len(k.kids) == 0 && (k.k == "list" || k.k == "tuple" || k.k == "dict")
			if !k.simple && !empty || k.key != "" {
				return false
			}
		}
		return !broken(true)
	}
	return false
}

func (f *lyFmt) expr(e *lx, margin string, level int, load bool) {
	w := f.b.WriteString
	column := func() string {
		t := f.b.String()
		return strings.Repeat(" ", len(t)-strings.LastIndexByte(t, '\n')-1)
	}
	if e.keyBrk && strings.HasSuffix(e.key, "= ") {
		margin = column() + "    "
		w(strings.TrimRight(e.key, " "))
		f.cut(margin)
	} else {
		w(e.key)
	}
	w(e.star)
	if e.removable(f.kind) {
		f.expr(e.kids[0], margin, level, false)
		return
	}
	switch e.k {
	case "dots":
		w(e.s)
		for i, k := range e.kids {
			if e.lb[i] {
				f.cut(margin + "    ")
			}
			w(".")
			f.expr(k, margin, level, false)
		}
		return
	case "atom":
		w(e.s)
		return
	case "sum":
		if e.s == "+" && f.kind.buildLike() {
			e.mergeBreaks(f.kind)
		}
		col := column()
		in := make([]string, len(e.kids)) // margins of the operands
		m := margin
		for i := len(e.kids) - 1; i >= 0; i-- {
			if e.lb[i] {
				m = col
			}
			in[i] = m
		}
		in[0] = in[1]
		for i, k := range e.kids {
			if i > 0 {
				w(" " + e.s)
				if !e.lb[i] {
					w(" ")
				} else {
					f.cut(col)
				}
			}
			f.expr(k, in[i], level, false)
		}
		return
	case "bin":
		f.expr(e.kids[0], margin, level, false)
		w(e.s)
		f.expr(e.kids[1], margin, level, false)
		return
	}
	br := brackets(e)
	if e.k == "call" {
		w(e.s)
	}
	w(br[:1])
	f.depth++
	defer func() { f.depth--; w(br[1:]) }()
	sep := ","
	if e.k == "comp" {
		sep = ""
	}
	if f.oneLine(e, level, load) {
		for i, k := range e.kids {
			if i > 0 {
				w(sep + " ")
			}
			f.expr(k, margin, level, false)
		}
		if e.k == "tuple" && len(e.kids) == 1 {
			w(",")
		}
		return
	}
	in := margin + "    "
	if e.k == "def" {
		in = margin + "        "
	}
	for i, k := range e.kids {
		for _, c := range k.com {
			w("\n" + in + c)
		}
		w("\n" + in)
		f.expr(k, in, level, false)
		last := i == len(e.kids)-1
		if !last || e.k != "def" && e.k != "paren" && !(e.k == "call" && k.star != "") {
			w(sep)
		}
		if k.suf != "" {
			w("  " + k.suf)
		}
	}
	for _, c := range e.endCom {
		w("\n" + in + c)
	}
	if e.k != "def" {
		w("\n" + margin)
	}
}

// cut breaks the line.
func (f *lyFmt) cut(margin string) {
	if f.depth == 0 {
		f.b.WriteString(" \\")
	}
	f.b.WriteString("\n" + margin)
}

// mergeBreaks replaces line breaks next to lists by broken lists.
func (e *lx) mergeBreaks(kind FileKind) {
	var isList, isMulti, force func(x *lx) bool
	// core is the expression without redundant parentheses, the last call of a chain.
	var core func(x *lx) *lx
	core = func(x *lx) *lx {
		if x.removable(kind) {
			return core(x.kids[0])
		}
		if x.k == "dots" {
			return x.kids[len(x.kids)-1]
		}
		return x
	}
	only := func(x *lx) *lx {
		x = core(x)
		if x.k == "call" && len(x.kids) == 1 && x.kids[0].key == "" && x.kids[0].star == "" {
			return x.kids[0]
		}
		return nil
	}
	isList = func(x *lx) bool {
		return core(x).k == "list" || only(x) != nil && isList(only(x))
	}
	// broken reports whether a list of up to one element is broken in the source.
	broken := func(x *lx) bool {
		if len(x.kids) == 0 {
			return x.open != x.end
		}
		return len(x.kids) == 1 && (x.open != x.kids[0].start || x.end != x.kids[0].end)
	}
	isMulti = func(x *lx) bool {
		x = core(x)
		switch x.k {
		case "list":
			return x.force || broken(x) || len(x.kids) > 1
		case "call":
			if broken(x) {
				return true
			}
			if len(x.kids) > 1 {
				line := x.open
				for _, k := range x.kids {
					empty := len(k.kids) == 0 && (k.k == "list" || k.k == "tuple" || k.k == "dict")
					if k.start != line || !k.simple && !empty || k.key != "" {
						return true
					}
					line = k.end
				}
				return x.end != line
			}
			return only(x) != nil && isMulti(only(x))
		}
		return false
	}
	force = func(x *lx) bool {
		x = core(x)
		if x.k == "list" {
			if x.force || broken(x) {
				return true
			}
			if len(x.kids) == 1 && force(x.kids[0]) {
				return true
			}
			x.force = true
			return true
		}
		return only(x) != nil && force(only(x))
	}
	lists := false
	for _, k := range e.kids {
		lists = lists || isList(k)
	}
	if !lists {
		return
	}
	for i := 1; i < len(e.kids); i++ {
		if e.lb[i] && (force(e.kids[i]) || isMulti(e.kids[i-1])) {
			e.lb[i] = false
		}
	}
}

func isBlock(s *li) bool { return s.k == "def" || s.k == "for" || s.k == "if" }

// compact tells whether no blank line goes between two statements.
func (f *lyFmt) compact(a, b *li, level int) bool {
	if a.k == "group" || b.k == "group" || len(a.after) > 0 || len(b.before) > 0 {
		return false
	}
	if a.k == "load" || b.k == "load" {
		return a.k == b.k
	}
	if f.kind == KModule && a.mod != "" && b.mod != "" {
		switch {
		case (a.mod == "dep" || a.mod == "devdep") && a.mod == b.mod,
			(a.mod == "dep" || a.mod == "devdep") && b.mod == "override" && a.modArg == b.modArg,
			a.mod == "include" && b.mod == "include":
			if b.mod != "override" || a.modArg != "" {
				return true
			}
		}
		ext := map[string]bool{"ext": true, "tag": true, "repo": true}
		if ext[a.mod] && ext[b.mod] && a.modArg != "" && a.modArg == b.modArg && (a.mod != "repo" || b.mod == "repo") {
			return true
		}
	}
	if level == 0 && f.kind.buildLike() {
		return false
	}
	if a.k == "def" || b.k == "def" {
		return false
	}
	return b.start-a.end <= 1
}

func (f *lyFmt) items(l []*li, ind string, level int) {
	w := f.b.WriteString
	for i, s := range l {
		if i > 0 && !f.compact(l[i-1], s, level) {
			w("\n")
		}
		for _, c := range s.before {
			w(ind + c + "\n")
		}
		switch s.k {
		case "group":
			for _, c := range s.lines {
				w(ind + c + "\n")
			}
		case "load", "simple":
			w(ind + s.pre)
			f.expr(s.e, ind, level, s.k == "load")
			if len(s.suf) > 0 {
				w("  " + s.suf[0])
			}
			w("\n")
		case "def", "for":
			w(ind + s.pre)
			f.expr(s.e, ind, level, false)
			f.header(s, 0)
			f.items(s.body, ind+"    ", level+1)
		case "if":
			for j, arm := range s.arms {
				if j > 0 && s.armStart[j]-lastLine(s.arms[j-1]) > 1 {
					w("\n")
				}
				if s.conds[j] == "" {
					w(ind + "else")
				} else if j == 0 {
					w(ind + "if " + s.conds[j])
				} else {
					w(ind + "elif " + s.conds[j])
				}
				f.header(s, j)
				f.items(arm, ind+"    ", level+1)
			}
		}
		if isBlock(s) && len(s.after) > 0 {
			w("\n")
		}
		for _, c := range s.after {
			w(ind + c + "\n")
		}
	}
}

func (f *lyFmt) header(s *li, i int) {
	f.b.WriteString(":")
	if s.suf[i] != "" {
		f.b.WriteString("  " + s.suf[i])
	}
	f.b.WriteString("\n")
}

// loadsOnTop moves the loads to the first statement that isn't one.
func loadsOnTop(l []*li) []*li {
	first := -1
	for i, s := range l {
		if s.k != "load" && s.k != "group" {
			first = i
			break
		}
	}
	if first < 0 {
		return l
	}
	out := append([]*li{}, l[:first]...)
	for _, s := range l[first:] {
		if s.k == "load" {
			out = append(out, s)
		}
	}
	for _, s := range l[first:] {
		if s.k != "load" {
			out = append(out, s)
		}
	}
	return out
}

func checkC49(c *Ctx) {
	c.Rule("random files of every type, with random line breaks inside brackets, blank lines, statements sharing lines, comments on lines of their own, nested blocks, loads in odd places and MODULE.bazel directives; the formatted file has to be, to the byte, the one that a reference model of the layout rules derives from the tree and the source lines of its parts. Distinct non-trivial: distinct files with at least one bracket broken over lines and two statements.")
	one := func(i int) {
		r := rand.New(rand.NewSource(c.Seed*4877 + int64(i)*7919 + 49))
		kind := FileKind(r.Intn(5))
		g := &lyGen{r: r, kind: kind}
		prog := g.block(2, true, true)
		o := &lySrc{r: r, line: 1}
		o.items(prog, "")
		src := o.b.String()
		f := &lyFmt{kind: kind}
		l := prog
		if kind != KWorkspace {
			l = loadsOnTop(prog)
		}
		f.items(l, "", 0)
		want := f.b.String()
		log := kindNames[kind] + "\n" + src
		c.Case(log)
		c.Guard("format", log, func() {
			out, _, err := formatKind(kind, src)
			if err != nil {
				c.Violate("parse", err.Error(), log)
				return
			}
			c.Eval(log)
			c.Count("statements", len(prog))
			c.Count("output_lines", strings.Count(out, "\n"))
			if strings.TrimLeft(out, "\n") != strings.TrimLeft(want, "\n") {
				c.Violate("layout:"+lineDiffClass(want, out), "the layout rules prescribe:\n"+want+"\n== got ==\n"+out+"\n== difference ==\n"+lineDiff(want, out), log)
			}
		})
		if i%500 == 0 {
			c.Sample(log)
		}
	}
	for i := 0; i < c.N(50000, 1000000) && !c.Failed(); i++ {
		one(i)
	}
}
