package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"unicode/utf8"
)

// FileKind selects the shape of generated files.
type FileKind int

const (
	KBuild FileKind = iota
	KBzl
	KWorkspace
	KModule
	KDefault
)

var kindNames = []string{"BUILD", "bzl", "WORKSPACE", "MODULE", "default"}
var kindFile = []string{"pkg/BUILD.bazel", "pkg/defs.bzl", "WORKSPACE", "MODULE.bazel", "pkg/script.star"}

// Gen emits random Starlark source with hostile layout. Two marker bytes stand
// for spellings the reference parser does not know:
//
//	\x01  between "0" and "o": old octal spelling 0755 (reference text: 0o755)
//	\x02  in a string literal: a lone backslash before a character that is not
//	      an escape (reference text: two backslashes)
type Gen struct {
	oneLine   bool // the last statement was a one-line block
	header    int  // start of the current statement header
	r         *rand.Rand
	b         strings.Builder
	depth     int // bracket depth
	ncom      int // comments emitted
	coms      []string
	comProb   float64 // probability scale of comments
	layout    float64 // probability of odd layout
	kind      FileKind
	markers   bool
	last      byte
	budget    int
	unique    int
	uniqueID  bool
	tame      bool // nothing that formatting rewrites inside an element
	noNL      int  // >0: no newlines or comments may be emitted
	lineStart bool
	comText   func(*Gen) string
	loops     int
	fn        int
	tabs      bool
	crlf      bool
	noDirect  bool
	wild      bool // comments anywhere inside brackets, not only next to elements
	comNext   bool // the next gap is next to an element
	extra     bool // constructs outside the reference grammar (type annotations, sets)
	names     []string
	loaded    map[string]bool
	brk       []bool // open brackets: an element container?
}

func NewGen(r *rand.Rand, kind FileKind) *Gen {
	g := &Gen{r: r, kind: kind, comProb: 1, layout: 1, budget: 60, markers: true}
	g.names = identPool
	return g
}

var identPool = []string{"a", "b", "c", "x", "y", "foo", "bar", "baz_1", "_private", "CONST", "name", "deps", "srcs", "select", "glob", "native", "ctx", "attr", "depset", "struct", "True", "False", "None", "len", "print", "Info", "l", "str", "dict", "fail", "é", "range"}

func (g *Gen) p(f float64) bool       { return g.r.Float64() < f }
func (g *Gen) n(n int) int            { return g.r.Intn(n) }
func (g *Gen) pick(s []string) string { return s[g.r.Intn(len(s))] }

func isWordByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 || c == '"' || c == '\'' || c == '.' || c == 1
}

func (g *Gen) newComment() string {
	g.ncom++
	t := fmt.Sprintf("# c%dz", g.ncom)
	if g.comText != nil {
		t += g.comText(g)
	} else {
		switch g.n(12) {
		case 0:
			t = fmt.Sprintf("#c%dz", g.ncom)
		case 1:
			t += " trailing  "
		case 2:
			t += ` "quote' [ ( {`
		case 3:
			t += " é世界"
		case 4:
			t = fmt.Sprintf("##  c%dz", g.ncom)
		case 5:
			t += " \\"
		}
	}
	g.coms = append(g.coms, t)
	return t
}

func (g *Gen) nl() string {
	if g.crlf {
		return "\r\n"
	}
	return "\n"
}

// gap emits whitespace allowed between tokens.
func (g *Gen) gap(need bool) {
	start := g.b.Len()
	comOK := g.comNext
	for _, container := range g.brk {
		comOK = comOK && container
	}
	comOK = comOK || g.wild
	g.comNext = false
	if g.depth > 0 && g.noNL == 0 && (g.p(0.09*g.layout) || comOK && g.p(0.15*g.layout)) {
		if comOK && g.p(0.3*g.comProb) {
			g.b.WriteString(strings.Repeat(" ", g.n(3)))
			g.b.WriteString(g.newComment())
		}
		for {
			g.b.WriteString(strings.Repeat(" ", g.n(2)) + g.nl())
			if g.p(0.08 * g.layout) {
				g.b.WriteString(g.nl())
			}
			if !comOK || !g.p(0.25*g.comProb) {
				break
			}
			g.b.WriteString(strings.Repeat(" ", g.n(9)))
			g.b.WriteString(g.newComment())
		}
		g.b.WriteString(strings.Repeat(" ", g.n(9)))
	} else if g.noNL == 0 && g.p(0.006*g.layout) {
		g.b.WriteString(" \\" + g.nl() + strings.Repeat(" ", g.n(7)))
	} else if g.p(0.25) {
		g.b.WriteString(strings.Repeat(" ", g.n(3)))
	}
	if need && g.b.Len() == start {
		g.b.WriteString(" ")
	}
}

// t writes one token preceded by a random gap.
func (g *Gen) t(tok string) {
	if g.lineStart {
		g.lineStart = false
	} else {
		g.gap(isWordByte(g.last) && isWordByte(tok[0]))
	}
	g.raw(tok)
}

func (g *Gen) raw(tok string) {
	g.b.WriteString(tok)
	g.last = tok[len(tok)-1]
	switch tok {
	case "(", "[", "{":
		g.depth++
		g.brk = append(g.brk, false)
	case ")", "]", "}":
		g.depth--
		g.brk = g.brk[:len(g.brk)-1]
	}
}

// Brackets and commas of element containers.
func (g *Gen) open(tok string) {
	g.t(tok)
	g.brk[len(g.brk)-1] = true
	g.comNext = true
}
func (g *Gen) comma() { g.t(","); g.comNext = true }
func (g *Gen) close(tok string) {
	g.comNext = true
	g.t(tok)
}

func (g *Gen) ident() string {
	if g.uniqueID {
		g.unique++
		return fmt.Sprintf("u%d", g.unique)
	}
	return g.pick(g.names)
}

func (g *Gen) number() string {
	if g.tame {
		return fmt.Sprint(1 + g.n(99))
	}
	switch g.n(14) {
	case 0:
		return fmt.Sprint(g.r.Int63())
	case 1:
		return fmt.Sprintf("0x%X", g.n(100000))
	case 2:
		return fmt.Sprintf("0X%xf", g.n(1000))
	case 3:
		return fmt.Sprintf("0o%o", g.n(1000))
	case 4:
		if g.markers {
			return fmt.Sprintf("0\x01o%o", 1+g.n(1000))
		}
		return "0"
	case 5:
		return fmt.Sprintf("%d.%d", g.n(100), g.n(1000))
	case 6:
		return fmt.Sprintf(".%d", g.n(100))
	case 7:
		return fmt.Sprintf("%d.", g.n(100))
	case 8:
		return fmt.Sprintf("%d.%d%s%s%d", g.n(10), g.n(10), g.pick([]string{"e", "E"}), g.pick([]string{"", "+", "-", "+0", "-0", "0", "00"}), g.n(30))
	case 9:
		return fmt.Sprintf("%d%s%s%d", g.n(10), g.pick([]string{"e", "E"}), g.pick([]string{"", "+", "-", "+0"}), g.n(30))
	case 10:
		return g.pick([]string{"0", "00", "0.0", "1.0e0", "0.5E+00", "10000000000000000000000000", "012.5", "0.", ".5e3"})
	default:
		return fmt.Sprint(g.n(20))
	}
}

var stringBits = []string{"", "a", "b", "foo", "//foo:bar", ":x", "@r//p:t", "//a/b", "//a/b:b", "*.cc", " ", "  ", "%s", "#", "é", "世", "'", "\"", "\\n", "\\t", "\\\\", "\\\"", "\\'", "\\x41", "\\101", "\\u00e9", "\\\n", "$", "{}", "\\a", "\\r", "\\U0001F600", "\\0", "''", "\"\"", "\t", "\x02d", "\x02.", "\x7f", "data.txt", "x.y", "Z"}

// str emits a string literal.
func (g *Gen) str() string {
	if g.tame || g.uniqueID && g.p(0.7) {
		return fmt.Sprintf("%q", g.label())
	}
	quote := g.pick([]string{"\"", "\"", "\"", "'", `"""`, "'''"})
	if g.noNL > 0 && len(quote) > 1 {
		quote = "\""
	}
	rawLit := g.p(0.08)
	var sb strings.Builder
	for i := g.n(4); i > 0; i-- {
		bit := g.pick(stringBits)
		if len(quote) == 3 && g.p(0.3) {
			bit = g.pick([]string{"\n", "\n  ", " \n", "\n\n", "line\n    more"})
		}
		if bit == "\\\n" && g.noNL > 0 {
			continue
		}
		if rawLit && (strings.Contains(bit, "\x02")) {
			continue
		}
		if !g.markers && strings.Contains(bit, "\x02") {
			continue
		}
		if strings.Contains(bit, quote[:1]) && !(rawLit && strings.HasPrefix(bit, "\\")) {
			// would close the literal
			if !strings.HasPrefix(bit, "\\") {
				if len(quote) == 1 {
					continue
				}
				if len(bit) > 1 {
					continue
				}
			}
		}
		sb.WriteString(bit)
	}
	s := sb.String()
	if len(quote) == 3 {
		s = g.closeSafe(s, quote[:1])
	}
	if rawLit {
		// A raw literal may not end in an odd number of backslashes.
		k := 0
		for strings.HasSuffix(s[:len(s)-k], "\\") {
			k++
		}
		if k%2 == 1 {
			s += "x"
		}
		return "r" + quote + s + quote
	}
	// \0 followed by digits would merge; keep literals well formed
	s = strings.ReplaceAll(s, "\\0", "\\000")
	s = strings.ReplaceAll(s, "\\000000", "\\000")
	return quote + s + quote
}

// closeSafe drops the quotes that would close a triple-quoted literal early.
func (g *Gen) closeSafe(s, q string) string {
	if g.p(0.15) {
		s += g.pick([]string{"\\\\\\", "\\", "\\\\", "a\\"}) + q // a quote that may be escaped
	}
	if g.p(0.1) {
		s = g.pick([]string{q, q + q, "\\" + q, "\\" + q + q + "x", "\\\\"}) + s
	}
	var sb strings.Builder
	run := 0 // unescaped quotes before
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s):
			sb.WriteString(s[i : i+2])
			i++
			run = 0
		case s[i] == q[0]:
			if run < 2 && strings.Trim(s[i:], q) != "" {
				sb.WriteByte(s[i])
				run++
			}
		default:
			sb.WriteByte(s[i])
			run = 0
		}
	}
	out := sb.String()
	k := 0
	for strings.HasSuffix(out[:len(out)-k], "\\") {
		k++
	}
	if k%2 == 1 {
		out += "x"
	}
	return out
}

// precedence levels of the reference grammar
var binops = [][]string{
	{"or"}, {"and"}, {"==", "!=", "<", ">", "<=", ">=", "in", "not in"},
	{"|"}, {"^"}, {"&"}, {"<<", ">>"}, {"-", "+"}, {"*", "%", "/", "//"},
}

// expr emits a test expression of at least the given level:
// 0 test (conditional, lambda), 1 or, 2 and, 3 not, 4 comparison, 5 | 6 ^ 7 & 8 shift 9 + 10 * 11 unary 12 primary
func (g *Gen) expr(level int) {
	g.budget--
	if g.budget <= 0 {
		g.atom()
		return
	}
	k := g.n(100)
	switch {
	case k < 34:
		g.atom()
	case k < 40:
		g.paren(level)
	case k < 46 && level <= 0:
		g.expr(1)
		g.t("if")
		g.expr(1)
		g.t("else")
		g.expr(0)
	case k < 49 && level <= 0:
		g.t("lambda")
		g.params(false)
		g.t(":")
		g.expr(0)
	case k < 66:
		op := g.n(9)
		lv := op + 1
		if op >= 2 {
			lv = op + 2
		}
		ops := binops[op]
		o := g.pick(ops)
		emit := func() {
			l := lv
			if op == 2 {
				l++ // comparisons do not associate
			}
			g.expr(l)
			if o == "not in" {
				g.t("not")
				g.t("in")
			} else {
				g.t(o)
			}
			g.expr(lv + 1)
			if op != 2 && g.p(0.3) {
				g.t(g.pick(ops))
				g.expr(lv + 1)
			}
		}
		if lv < level {
			g.t("(")
			emit()
			g.t(")")
		} else {
			emit()
		}
	case k < 70:
		if level > 3 {
			g.t("(")
			g.t("not")
			g.expr(3)
			g.t(")")
		} else {
			g.t("not")
			g.expr(3)
		}
	case k < 74:
		emit := func() {
			g.t(g.pick([]string{"-", "+", "~"}))
			g.expr(12)
		}
		if level > 11 {
			g.t("(")
			emit()
			g.t(")")
		} else {
			emit()
		}
	case k < 82:
		g.call()
	case k < 85:
		g.primary()
		g.t(".")
		g.t(g.ident())
	case k < 87:
		g.primary()
		g.t("[")
		g.expr(0)
		g.t("]")
	case k < 90:
		g.primary()
		g.t("[")
		if g.p(0.6) {
			g.expr(0)
		}
		g.t(":")
		if g.p(0.6) {
			g.expr(0)
		}
		if g.p(0.4) {
			g.t(":")
			if g.p(0.7) {
				g.expr(0)
			}
		}
		g.t("]")
	case k < 94:
		g.list()
	case k < 97:
		g.dict()
	default:
		g.comprehension()
	}
}

func (g *Gen) paren(level int) {
	if g.p(0.2) { // a tuple
		g.open("(")
		n := g.n(3)
		for i := 0; i < n; i++ {
			g.expr(0)
			if i < n-1 || n == 1 || g.p(0.3) {
				g.comma()
			}
		}
		g.close(")")
		return
	}
	if g.tame {
		g.t("(")
		g.t(g.ident())
		g.t("+")
		g.t(g.ident())
		g.t(")")
		return
	}
	g.t("(")
	g.expr(0)
	g.t(")")
}

func (g *Gen) atom() {
	switch g.n(8) {
	case 0, 1, 2:
		g.t(g.str())
	case 3:
		g.t(g.number())
	default:
		g.t(g.ident())
	}
}

func (g *Gen) primary() {
	switch g.n(6) {
	case 0:
		g.t("(")
		g.expr(0)
		g.t(")")
	case 1:
		g.t(g.str())
	case 2:
		g.budget -= 2
		if g.budget > 0 {
			g.call()
			return
		}
		g.t(g.ident())
	default:
		g.t(g.ident())
	}
}

func (g *Gen) call() {
	g.primary()
	g.args()
}

func (g *Gen) args() {
	g.open("(")
	n := g.n(5)
	pos := g.n(n + 1)
	for i := 0; i < n; i++ {
		if i < pos {
			g.expr(0)
		} else {
			g.t(g.ident())
			g.t("=")
			g.expr(0)
		}
		if i < n-1 || g.p(0.4) {
			g.comma()
		}
	}
	if g.p(0.1) && !g.tame {
		if n > 0 && g.last != ',' {
			g.comma()
		}
		g.t("*")
		g.expr(0)
		n++
		if g.p(0.3) {
			g.comma()
			g.t(g.ident())
			g.t("=")
			g.expr(0)
		}
	}
	if g.p(0.1) {
		if n > 0 && g.last != ',' {
			g.comma()
		}
		g.t("**")
		g.expr(0)
	}
	g.close(")")
}

func (g *Gen) sep(paren bool) {
	g.t(",")
	g.comNext = paren
}

func (g *Gen) params(paren bool) {
	n := g.n(4)
	pos := g.n(n + 1)
	first := true
	comma := func() {
		if !first {
			g.sep(paren)
		}
		first = false
	}
	used := map[string]bool{}
	name := func() string {
		for {
			s := g.ident()
			if !used[s] && s != "True" && s != "False" && s != "None" {
				used[s] = true
				return s
			}
		}
	}
	for i := 0; i < n; i++ {
		comma()
		g.t(name())
		if g.extra && paren && g.p(0.2) {
			g.t(":")
			g.expr(1)
		}
		if i >= pos {
			g.t("=")
			g.expr(1)
		}
	}
	if g.p(0.15) {
		comma()
		g.t("*")
		if g.p(0.6) {
			g.raw(name())
		} else {
			comma()
			g.t(name())
			g.t("=")
			g.expr(1)
		}
	}
	if g.p(0.15) {
		comma()
		g.t("**")
		g.t(name())
	} else if paren && !first && g.p(0.2) {
		g.sep(paren)
	}
}

func (g *Gen) list() {
	if g.extra && g.p(0.1) { // a set
		g.open("{")
		g.expr(0)
		for g.p(0.5) {
			g.comma()
			g.expr(0)
		}
		g.close("}")
		return
	}
	g.open("[")
	n := g.n(5)
	for i := 0; i < n; i++ {
		g.expr(0)
		if i < n-1 || g.p(0.4) {
			g.comma()
		}
	}
	g.close("]")
}

func (g *Gen) dict() {
	g.open("{")
	n := g.n(4)
	for i := 0; i < n; i++ {
		g.expr(0)
		g.t(":")
		g.expr(0)
		if i < n-1 || g.p(0.4) {
			g.comma()
		}
	}
	g.close("}")
}

func (g *Gen) loopVars() {
	if g.p(0.3) {
		if g.p(0.4) {
			g.t("(")
			g.t(g.ident())
			g.t(",")
			g.t(g.ident())
			g.t(")")
		} else {
			g.t(g.ident())
			g.t(",")
			g.t(g.ident())
		}
		return
	}
	g.t(g.ident())
}

func (g *Gen) comprehension() {
	curly := g.p(0.3)
	if curly {
		g.t("{")
		g.expr(0)
		g.t(":")
		g.expr(0)
	} else {
		g.t("[")
		g.expr(0)
	}
	for i := 1 + g.n(2); i > 0; i-- {
		g.t("for")
		g.loopVars()
		g.t("in")
		g.expr(1)
		for g.p(0.3) {
			g.t("if")
			g.expr(1)
		}
	}
	if curly {
		g.t("}")
	} else {
		g.t("]")
	}
}

// ---- statements ----

func (g *Gen) indentStr(ind int) string {
	if g.tabs {
		return strings.Repeat("\t", ind)
	}
	return strings.Repeat(" ", ind)
}

// endLine ends a simple statement line.
func (g *Gen) endLine() {
	if g.p(0.12) {
		g.b.WriteString(strings.Repeat(" ", g.n(3)))
	}
	if g.p(0.07 * g.comProb) {
		g.b.WriteString(strings.Repeat(" ", g.n(3)))
		g.b.WriteString(g.newComment())
	}
	g.b.WriteString(g.nl())
	g.last = '\n'
}

// between emits blank lines and whole-line comments before a statement.
func (g *Gen) between(ind int) {
	for g.p(0.2) {
		switch {
		case g.p(0.5):
			g.b.WriteString(strings.Repeat(" ", g.n(2)*g.n(4)) + g.nl())
		case g.p(0.7*g.comProb) && (g.wild || !g.oneLine):
			w := ind
			if g.p(0.15) {
				w = g.n(7)
			}
			g.b.WriteString(g.indentStr(w) + g.newComment() + g.nl())
		}
	}
}

func (g *Gen) block(ind int) {
	g.t(":")
	if g.p(0.12) {
		g.simpleLine(ind)
		g.oneLine = true
		return
	}
	g.headerEnd()
	nind := ind + 1 + g.n(5)
	if g.tabs {
		nind = ind + 1
	}
	g.stmts(nind, 1+g.n(3))
}

var simpleDef = regexp.MustCompile(`^ *def \w+\(\):$`)

// headerEnd ends the header line of a block. A comment after a header that the
// formatter may break into several lines is left to fixed probes.
func (g *Gen) headerEnd() {
	if h := g.b.String()[g.header:]; !g.wild && strings.ContainsAny(h, "([{\n") && !simpleDef.MatchString(h) {
		g.b.WriteString(g.nl())
		g.last = '\n'
		return
	}
	g.endLine()
}

func (g *Gen) stmts(ind, n int) {
	for i := 0; i < n; i++ {
		g.between(ind)
		g.oneLine = false
		g.stmt(ind)
	}
}

func (g *Gen) small() {
	k := g.n(20)
	switch {
	case k < 6:
		g.target()
		g.t("=")
		g.rhs()
	case k < 8:
		g.t(g.ident())
		g.t(g.pick([]string{"+=", "-=", "*=", "/=", "//=", "%=", "|=", "&=", "^=", "<<=", ">>="}))
		g.rhs()
	case k < 9:
		g.t("pass")
	case k < 10 && g.loops > 0:
		g.t(g.pick([]string{"break", "continue"}))
	case k < 12 && g.fn > 0:
		g.t("return")
		if g.p(0.7) {
			g.rhs()
		}
	case k < 16:
		g.call()
	default:
		g.expr(0)
	}
}

func (g *Gen) rhs() {
	g.expr(0)
	if g.p(0.05) {
		g.t(",")
		g.expr(0)
	}
}

func (g *Gen) target() {
	switch g.n(10) {
	case 0:
		g.t(g.ident())
		g.t(",")
		g.t(g.ident())
	case 1:
		g.t("(")
		g.t(g.ident())
		g.t(",")
		g.t(g.ident())
		g.t(")")
	case 2:
		g.t(g.ident())
		g.t("[")
		g.expr(0)
		g.t("]")
	case 3:
		g.t(g.ident())
		g.t(".")
		g.t(g.ident())
	case 4:
		g.t("[")
		g.t(g.ident())
		g.t(",")
		g.t(g.ident())
		g.t("]")
	default:
		g.t(g.ident())
	}
}

func (g *Gen) simpleLine(ind int) {
	g.small()
	for g.p(0.08) {
		g.t(";")
		g.small()
	}
	if g.p(0.03) {
		g.t(";")
	}
	g.endLine()
}

func (g *Gen) stmt(ind int) {
	g.budget = 6 + g.n(30)
	g.header = g.b.Len()
	g.b.WriteString(g.indentStr(ind))
	g.lineStart = true
	k := g.n(100)
	top := ind == 0
	deep := ind > 14
	switch {
	case k < 12 && !deep && (!top || g.kind == KBzl || g.kind == KDefault):
		g.t("if")
		g.expr(0)
		g.block(ind)
		for g.p(0.3) {
			g.budget = 10
			g.header = g.b.Len()
			g.b.WriteString(g.indentStr(ind))
			g.lineStart = true
			g.t("elif")
			g.expr(0)
			g.block(ind)
		}
		if g.p(0.4) {
			g.budget = 10
			g.header = g.b.Len()
			g.b.WriteString(g.indentStr(ind))
			g.lineStart = true
			g.t("else")
			g.block(ind)
		}
	case k < 20 && !deep && (!top || g.kind == KBzl || g.kind == KDefault):
		g.t("for")
		g.loopVars()
		g.t("in")
		g.expr(1)
		g.loops++
		g.block(ind)
		g.loops--
	case k < 36 && !deep && (g.kind == KBzl || g.kind == KDefault):
		g.t("def")
		g.t(g.funcName())
		g.open("(")
		g.comNext = g.wild
		g.params(true)
		g.comNext = g.comNext && g.wild
		g.t(")")
		if g.extra && g.p(0.1) {
			g.t("->")
			g.expr(1)
		}
		l := g.loops
		g.loops = 0
		g.fn++
		if g.p(0.3) {
			g.t(":")
			g.headerEnd()
			nind := ind + 1 + g.n(5)
			if g.tabs {
				nind = ind + 1
			}
			g.b.WriteString(g.indentStr(nind))
			g.b.WriteString(g.docstring(nind))
			g.last = '"'
			g.endLine()
			if g.p(0.8) {
				g.stmts(nind, 1+g.n(3))
			}
		} else {
			g.block(ind)
		}
		g.fn--
		g.loops = l
	case k < 50 && top:
		g.load()
	case k < 85 && top && g.kind != KBzl && g.kind != KDefault:
		g.ruleCall()
	default:
		g.simpleLine(ind)
	}
}

func (g *Gen) funcName() string {
	for {
		s := g.ident()
		if s != "True" && s != "False" && s != "None" {
			return s
		}
	}
}

func (g *Gen) docstring(ind int) string {
	if g.tame {
		g.unique++
		return fmt.Sprintf(`"""Doc u%d."""`, g.unique)
	}
	q := g.pick([]string{`"""`, `"""`, `"""`, "'''", `"`})
	if len(q) == 1 {
		return `"doc string"`
	}
	s := "Summary " + g.pick([]string{"line.", "of it ", "with \\n escape", "é"})
	for i := g.n(4); i > 0; i-- {
		s += g.nl() + strings.Repeat(" ", g.n(2)*g.n(ind+6)) + g.pick([]string{"", "Args:", "  x: text", "Returns:", "text  ", "back\\\\slash", "tab\there", "世 界 "})
	}
	if g.p(0.7) {
		s += g.nl() + g.indentStr(ind)
	}
	return q + s + q
}

var loadModules = []string{":defs.bzl", "//foo:bar.bzl", "//foo:baz.bzl", "@rules_cc//cc:defs.bzl", "@a//:b.bzl", "//:root.bzl", ":a.bzl", "//Foo:bar.bzl", "//foo/bar:x.bzl", "@rules_java//java:defs.bzl"}
var loadSyms = []string{"a", "b", "c", "foo", "bar", "cc_library", "java_library", "x", "_y", "Zed"}

func (g *Gen) load() {
	g.t("load")
	g.open("(")
	g.t(fmt.Sprintf("%q", g.pick(loadModules)))
	if g.loaded == nil {
		g.loaded = map[string]bool{}
	}
	used := g.loaded
	n := 1 + g.n(4)
	for i := 0; i < n; i++ {
		from := g.pick(loadSyms)
		if i == 0 {
			g.unique++
			from = fmt.Sprintf("s%d", g.unique)
		}
		to := from
		alias := false
		if g.p(0.3) {
			to = g.pick(loadSyms)
			alias = true
		}
		if used[to] {
			continue
		}
		used[to] = true
		g.comma()
		if alias {
			g.t(to)
			g.t("=")
		}
		g.t(g.pick([]string{"'" + from + "'", `"` + from + `"`}))
	}
	if g.p(0.3) {
		g.comma()
	}
	g.close(")")
	g.endLine()
}

var ruleKinds = []string{"cc_library", "java_library", "genrule", "filegroup", "py_binary", "my_macro", "native.cc_test", "package_group", "cc_embed_data", "use_repo", "exports_files", "package"}
var ruleAttrs = []string{"name", "srcs", "deps", "hdrs", "data", "visibility", "tags", "copts", "cmd", "outs", "testonly", "size", "runtime_deps", "exports", "includes", "zzz", "alwayslink", "plugins", "linkopts", "src", "default_visibility", "version", "implementation", "packages"}
var labelStrs = []string{"//foo:foo", "//foo:bar", ":a", ":b", "a.cc", "b.cc", "a.h", "@r//:r", "@r//p:p", "@r//p", "//x/y", "//x/y:y", "//x/y:z", "foo.bar:baz", "foo.bar", "foo", "foo.a", "//foo", "@r", "", "//visibility:public", "//:__pkg__", "@//a:a", "@@r//:r", "Foo.cc", "z", "//foo bar:bar", "sub/file.txt", "//x/y:y:z", "//:x", "//x/", "@r//p/:p"}

func (g *Gen) attrValue(attr string) {
	switch g.n(9) {
	case 0, 1, 2, 3:
		g.strList()
	case 4:
		g.strList()
		g.t("+")
		if g.p(0.5) {
			g.strList()
		} else {
			g.selectExpr()
		}
	case 5:
		g.selectExpr()
	case 6:
		g.t(fmt.Sprintf("%q", g.label()))
		if g.p(0.2) {
			g.t("+")
			g.t(fmt.Sprintf("%q", g.pick([]string{":a", "b.cc", "foo", "%s", "_x"})))
		}
	case 7:
		g.t("glob")
		g.t("(")
		g.strList()
		g.t(")")
	default:
		g.expr(0)
	}
}

func (g *Gen) label() string {
	if g.uniqueID {
		g.unique++
		return g.pick([]string{":", "//p:", "//p/", "@r//q:", "", "", "//P/q:"}) + g.pick([]string{"a", "b", "z", "B", "m.", "0"}) + fmt.Sprintf("_u%d", g.unique)
	}
	if g.p(0.25) { // parts that nearly match each other
		dir := g.pick([]string{"", "foo", "Foo", "a/foo", "a/Foo", "foo/foo", "foo.bar", "afoo", "r"})
		s := g.pick([]string{"", "", "", "@foo", "@Foo", "@r", "@@foo", "@"}) + "//" + dir
		if g.p(0.8) {
			s += ":" + g.pick([]string{"foo", "Foo", "a/foo", "foo/foo", "foo.bar", "afoo", "oo", "foo2", "r"})
		}
		return s
	}
	return g.pick(labelStrs)
}

func (g *Gen) strList() {
	g.open("[")
	n := g.n(6)
	for i := 0; i < n; i++ {
		if g.p(0.08) {
			g.t(g.ident())
		} else {
			q := fmt.Sprintf("%q", g.label())
			if g.p(0.1) {
				q = "'" + q[1:len(q)-1] + "'"
			}
			g.t(q)
		}
		if i < n-1 || g.p(0.5) {
			g.comma()
		}
	}
	g.close("]")
}

func (g *Gen) selectExpr() {
	g.t("select")
	g.t("(")
	g.t("{")
	n := 1 + g.n(3)
	for i := 0; i < n; i++ {
		g.t(g.pick([]string{`":cfg"`, `"//conditions:default"`, `"@c//x:y"`, `"//x:x"`}))
		g.t(":")
		g.strList()
		if i < n-1 || g.p(0.5) {
			g.t(",")
		}
	}
	g.t("}")
	if g.p(0.1) {
		g.t(",")
		g.t("no_match_error")
		g.t("=")
		g.t(`"err"`)
	}
	g.t(")")
}

func (g *Gen) ruleCall() {
	k := g.pick(ruleKinds)
	parts := strings.Split(k, ".")
	for i, p := range parts {
		if i > 0 {
			g.raw(".")
		}
		if i == 0 {
			g.t(p)
		} else {
			g.raw(p)
		}
	}
	g.open("(")
	n := g.n(6)
	if k == "use_repo" {
		g.t("ext")
		for i := 0; i < n; i++ {
			g.comma()
			g.t(fmt.Sprintf("%q", g.pick([]string{"r1", "r2", "a_b", "z.q", "a"})))
		}
		g.close(")")
		g.endLine()
		return
	}
	used := map[string]bool{}
	first := true
	for i := 0; i < n; i++ {
		at := g.pick(ruleAttrs)
		if used[at] {
			continue
		}
		used[at] = true
		if !first {
			g.comma()
		}
		first = false
		g.t(at)
		g.t("=")
		g.attrValue(at)
	}
	if !first && g.p(0.6) {
		g.comma()
	}
	g.close(")")
	g.endLine()
}

// File generates a whole file with n top-level statements.
func (g *Gen) File(n int) string {
	if g.p(0.2) && g.comProb > 0 {
		g.b.WriteString(g.newComment() + g.nl())
		if g.p(0.5) {
			g.b.WriteString(g.nl())
		}
	}
	if g.p(0.15) {
		g.b.WriteString(`"""Module docstring."""` + g.nl())
	}
	g.stmts(0, n)
	if g.p(0.1) && g.comProb > 0 && (g.wild || !g.oneLine) {
		if g.p(0.5) {
			g.b.WriteString(g.nl())
		}
		g.b.WriteString(g.newComment())
		if g.p(0.7) {
			g.b.WriteString(g.nl())
		}
	}
	return g.b.String()
}

// texts returns the input given to buildtools and the equivalent reference text.
func texts(s string) (input, ref string) {
	if !strings.ContainsAny(s, "\x01\x02") {
		return s, s
	}
	input = strings.ReplaceAll(strings.ReplaceAll(s, "\x01o", ""), "\x02", "\\")
	ref = strings.ReplaceAll(strings.ReplaceAll(s, "\x01", ""), "\x02", "\\\\")
	return
}

func validUTF8(s string) bool { return utf8.ValidString(s) }
