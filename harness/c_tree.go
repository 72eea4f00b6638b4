package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/bazelbuild/buildtools/build"
)

func init() {
	checks["C04"] = checkC04
	checks["C06"] = checkC06
	checks["C10"] = checkC10
	checks["C11"] = checkC11
}

// ---- C04 ----

// parseBytes parses data placed in front of guarded memory.
func parseBytes(k FileKind, data []byte) (f *build.File, err error, damage string) {
	const guard = 64
	buf := make([]byte, len(data)+guard)
	copy(buf, data)
	for i := len(data); i < len(buf); i++ {
		buf[i] = 0xA5
	}
	in := buf[:len(data)]
	switch k {
	case KBuild:
		f, err = build.ParseBuild(kindFile[k], in)
	case KBzl:
		f, err = build.ParseBzl(kindFile[k], in)
	case KWorkspace:
		f, err = build.ParseWorkspace(kindFile[k], in)
	case KModule:
		f, err = build.ParseModule(kindFile[k], in)
	case KDefault:
		f, err = build.ParseDefault(kindFile[k], in)
	default:
		f, err = build.Parse(kindFile[int(k)-5], in)
	}
	if !bytes.Equal(buf[:len(data)], data) {
		damage = "input bytes changed"
	}
	for i := len(data); i < len(buf); i++ {
		if buf[i] != 0xA5 {
			damage = fmt.Sprintf("byte %d after the input changed", i-len(data))
		}
	}
	return
}

func c04Sig(k FileKind, data string, c *Ctx) (string, string) {
	f, err, damage := parseBytes(k, []byte(data))
	name := kindFile[int(k)%5]
	if c != nil {
		key := ""
		if len(data) > 2 {
			key = string(rune('0'+int(k))) + data
		}
		c.Eval(key)
		if err != nil {
			c.Count("errors_seen", 1)
		} else {
			c.Count("trees_seen", 1)
		}
	}
	if damage != "" {
		return "input-modified", damage
	}
	if err == nil {
		if f == nil {
			return "neither", "neither a tree nor an error"
		}
		return "", ""
	}
	pe, ok := err.(build.ParseError)
	if !ok {
		return "error-type", fmt.Sprintf("%T: %v", err, err)
	}
	if strings.Contains(pe.Message, "internal error") {
		return "internal-error", err.Error()
	}
	if pe.Filename != name || !strings.HasPrefix(err.Error(), name+":") {
		return "error-name", "error does not name " + name + ": " + err.Error()
	}
	p := pe.Pos
	lines := strings.Split(data, "\n")
	if p.Line < 1 || p.Line > len(lines)+1 || p.LineRune < 1 || p.Byte < 0 || p.Byte > len(data)+1 {
		return "error-position", fmt.Sprintf("%+v outside of the input: %v", p, err)
	}
	if p.Byte > len(data) && !strings.Contains(pe.Message, "syntax error") {
		// only the parser may miss something at the end of input
		return "error-behind-input", fmt.Sprintf("%+v outside of the input: %v", p, err)
	}
	// the end of input counts as its last position
	if p.Byte <= len(data) {
		l, col := posAt(data, p.Byte)
		if l != p.Line || col != p.LineRune {
			return "error-column", fmt.Sprintf("byte %d is line %d column %d, reported %d:%d: %v", p.Byte, l, col, p.Line, p.LineRune, err)
		}
	}
	return "", ""
}

// posAt computes line and column from a byte offset.
func posAt(s string, off int) (int, int) {
	pre := s[:off]
	nl := strings.LastIndexByte(pre, '\n')
	return strings.Count(pre, "\n") + 1, utf8.RuneCountInString(pre[nl+1:]) + 1
}

var soup = []string{"def", "if", "else", "elif", "for", "in", "not", "load", "return", "lambda", "and", "or", "pass", "break", "x", "y", "1", "0x", "1.", ".5e", "\"s\"", "'", "\"\"\"", "'''", "r\"", "\\", "(", ")", "[", "]", "{", "}", ",", ":", ";", "=", "==", "+=", "<<=", "*", "**", ".", "+", "-", "%", "//", "/", "|", "&", "~", "->", "@", "$", "!", "!=", "\n", "\n", "\n    ", "\n  ", "\n\t", "#", "# c\n", " ", " ", "\r\n", "\ufeff", "\xff", "é", "\x00", "\\\n", "\\\r\n", "\v", "\f", "`", "?"}

func checkC04(c *Ctx) {
	c.Rule("random bytes, token soups, generated programs (comments anywhere) and mutations of them and of the repository's sample files, truncations at every byte, and very deep or long inputs; each parse runs under a crash, hang and memory-guard monitor and the error position is recomputed from its byte offset. Distinct non-trivial: distinct inputs longer than 2 bytes.")
	one := func(k FileKind, data string) {
		c.Case(data)
		first := true
		c.pureCheck(data, func(s string) (string, string) {
			x := c
			if !first {
				x = nil
			}
			first = false
			return c04Sig(k, s, x)
		})
	}
	rep := strings.Repeat
	D := c.N(5000, 40000)
	for i, s := range []string{"", "\n", "\r", "\\", "\\\n", "\"", "'''", "\"\"\"\n", "#", "x", "\ufeff", "\ufeffx = 1\n", "\x00", "\xff", "load(", "load()", "load(1)", "load(x)", "load('a', 1)", "load('a', b = c)", "load('a', *b)", "load('a', 'b' + 'c')",
		"if", "if x", "if x:", "if x:\n", "def", "def f", "def f(", "def f():", "def f():\n", "for", "for x", "for x in", "for x in y:", "return", "lambda", "lambda x", "x = ", "x[", "x[:", "x[::", "x[:::]", "x.", "x..y", "x.1", "1x", "0x", "0b", "1e", "1e+", "1..2", "not", "not not", "x not", "x not y", "- ", "*", "**", "*x = y", "f(**x, *y, z)", "[x for", "[x for y", "[x for y in", "{x: y for}", "{:}", "{x:}", "{,}", "(,)", "[,]", "f(,)",
		" x", "  x\n y\n", "if x:\n    y\n  z\n", "if x:\n  y\n    z\n", "if x:\n\ty\n        z\n", "\"\\", "\"\\x\"", "\"\\x4\"", "\"\\8\"", "\"\\400\"", "'\\u12'", "'\\U00110000'", "'\\ud800'", "r'\\'", "x = 'a\nb'", "x;", ";", "x;;y", "pass pass", "a b", "a = b = c", "a, = b", "a + = b", "a +=", "a == b == c", "x if y", "x if y else", "else:", "elif x: y", "(((", ")))", "([)]",
		rep("(", D), rep("[", D) + rep("]", D), rep("x.", D) + "x", rep("x[", D) + "0" + rep("]", D), rep("-", D) + "1", rep("not ", D) + "x", "x" + rep("+x", D), "x" + rep(" if y else x", D), "f" + rep("()", D), rep("a=", D) + "b", rep("#\n", D), rep("x\n", D), rep("\\\n", D) + "x", rep("if x:\n", 2000), "\"" + rep("a\\n", D) + "\"", "x = [" + rep("\"a\",", D) + "]", rep(" ", D) + "x",
		func() string {
			var sb strings.Builder
			for i := 0; i < 900; i++ {
				sb.WriteString(rep(" ", i) + "if x:\n")
			}
			return sb.String() + rep(" ", 900) + "y\n"
		}()} {
		_ = i
		for k := FileKind(0); k < 10; k++ {
			if k > 0 && len(s) > 5000 {
				break
			}
			one(k, s)
		}
	}
	r := c.R
	cp := loadCorpus()
	n := c.N(120000, 1500000)
	for i := 0; i < n && !c.Failed(); i++ {
		k := FileKind(r.Intn(10))
		switch i % 8 {
		case 0:
			b := make([]byte, r.Intn(40))
			for j := range b {
				b[j] = byte(r.Intn(256))
			}
			one(k, string(b))
		case 1, 2:
			var sb strings.Builder
			for j := r.Intn(25); j >= 0; j-- {
				sb.WriteString(soup[r.Intn(len(soup))])
				if r.Intn(3) > 0 {
					sb.WriteByte(' ')
				}
			}
			one(k, sb.String())
		case 3, 4:
			mutKinds = 9
			one(k, mutate(r, cp[r.Intn(len(cp))], cp[r.Intn(len(cp))]))
		case 5:
			s := cp[r.Intn(len(cp))]
			one(k, s[:r.Intn(len(s)+1)])
		default:
			g := c.genCase(i, 4)
			g.wild, g.extra = true, true
			g.crlf = g.p(0.1)
			s, _ := texts(g.File(1 + g.n(4)))
			if i%8 == 7 {
				mutKinds = 9
				s = mutate(r, s, cp[r.Intn(len(cp))])
			}
			one(FileKind(int(g.kind)), s)
		}
		if i%(n/6) == 0 {
			c.Sample(fmt.Sprintf("kind %d, mode %d", k, i%8))
		}
	}
}

// ---- reflection over syntax trees ----

var exprType = reflect.TypeOf((*build.Expr)(nil)).Elem()

// kids enumerates the child nodes of x from the type definitions alone.
func kids(x build.Expr) []build.Expr {
	var out []build.Expr
	var visit func(v reflect.Value)
	visit = func(v reflect.Value) {
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			ft := t.Field(i)
			fv := v.Field(i)
			switch {
			case ft.Type == reflect.TypeOf(build.End{}) || ft.Type == reflect.TypeOf(build.Comments{}) || ft.Type == reflect.TypeOf(build.Position{}):
			case ft.Type == exprType:
				if !fv.IsNil() {
					out = append(out, fv.Interface().(build.Expr))
				}
			case ft.Type.Kind() == reflect.Ptr && ft.Type.Implements(exprType):
				if !fv.IsNil() {
					out = append(out, fv.Interface().(build.Expr))
				}
			case ft.Type.Kind() == reflect.Slice && ft.Type.Elem().Implements(exprType):
				for j := 0; j < fv.Len(); j++ {
					if !fv.Index(j).IsNil() {
						out = append(out, fv.Index(j).Interface().(build.Expr))
					}
				}
			case ft.Type.Kind() == reflect.Struct && ft.Anonymous:
				visit(fv)
			}
		}
	}
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		visit(v.Elem())
	}
	return out
}

func nodeName(x build.Expr) string {
	return strings.TrimPrefix(reflect.TypeOf(x).String(), "*build.")
}

// ---- C06 ----

// posMarks are position fields and the text that must stand at them.
func posMarks(x build.Expr) map[string]struct {
	p    build.Position
	text string
} {
	m := map[string]struct {
		p    build.Position
		text string
	}{}
	add := func(name string, p build.Position, text string) {
		m[name] = struct {
			p    build.Position
			text string
		}{p, text}
	}
	switch v := x.(type) {
	case *build.CallExpr:
		add("ListStart", v.ListStart, "(")
		add("End", v.End.Pos, ")")
	case *build.DotExpr:
		add("Dot", v.Dot, ".")
		add("NamePos", v.NamePos, v.Name)
	case *build.Comprehension:
		br := "[]"
		if v.Curly {
			br = "{}"
		}
		add("Lbrack", v.Lbrack, br[:1])
		add("End", v.End.Pos, br[1:])
	case *build.ForClause:
		add("For", v.For, "for")
		add("In", v.In, "in")
	case *build.IfClause:
		add("If", v.If, "if")
	case *build.KeyValueExpr:
		add("Colon", v.Colon, ":")
	case *build.DictExpr:
		add("Start", v.Start, "{")
		add("End", v.End.Pos, "}")
	case *build.SetExpr:
		add("Start", v.Start, "{")
		add("End", v.End.Pos, "}")
	case *build.ListExpr:
		add("Start", v.Start, "[")
		add("End", v.End.Pos, "]")
	case *build.TupleExpr:
		if !v.NoBrackets {
			add("Start", v.Start, "(")
			add("End", v.End.Pos, ")")
		}
	case *build.UnaryExpr:
		add("OpStart", v.OpStart, v.Op)
	case *build.BinaryExpr:
		add("OpStart", v.OpStart, strings.Fields(v.Op)[0])
	case *build.AssignExpr:
		add("OpPos", v.OpPos, v.Op)
	case *build.ParenExpr:
		add("Start", v.Start, "(")
		add("End", v.End.Pos, ")")
	case *build.SliceExpr:
		add("SliceStart", v.SliceStart, "[")
		add("FirstColon", v.FirstColon, ":")
		if v.SecondColon.Line != 0 {
			add("SecondColon", v.SecondColon, ":")
		}
		add("End", v.End, "]")
	case *build.IndexExpr:
		add("IndexStart", v.IndexStart, "[")
		add("End", v.End, "]")
	case *build.LambdaExpr:
		add("StartPos", v.StartPos, "lambda")
	case *build.ConditionalExpr:
		add("IfStart", v.IfStart, "if")
		add("ElseStart", v.ElseStart, "else")
	case *build.LoadStmt:
		add("Load", v.Load, "load")
		add("Rparen", v.Rparen.Pos, ")")
	case *build.DefStmt:
		add("StartPos", v.StartPos, "def")
		add("ColonPos", v.ColonPos, ":")
	case *build.ReturnStmt:
		add("Return", v.Return, "return")
	case *build.ForStmt:
		add("For", v.For, "for")
	case *build.IfStmt:
		add("ElsePos", v.ElsePos.Pos, "el")
	case *build.Ident:
		add("NamePos", v.NamePos, v.Name)
	case *build.LiteralExpr:
		add("Start", v.Start, v.Token)
	case *build.StringExpr:
		add("Start", v.Start, v.Token)
	case *build.BranchStmt:
		add("TokenPos", v.TokenPos, v.Token)
	}
	return m
}

func c06Sig(kind FileKind, raw string, c *Ctx) (sig, detail string) {
	in, _ := texts(raw)
	f, err := parseKind(kind, in)
	if err != nil {
		return "", ""
	}
	fail := func(s, format string, a ...interface{}) {
		if sig == "" {
			sig, detail = s, fmt.Sprintf(format, a...)
		}
	}
	okPos := func(p build.Position, what string) bool {
		if p.Byte < 0 || p.Byte > len(in) {
			if p.Byte == len(in)+1 { // the line break added at the end of the file
				return false
			}
			fail("range:"+what, "%s: byte %d outside of the input (%d bytes)", what, p.Byte, len(in))
			return false
		}
		l, col := posAt(in, p.Byte)
		if l != p.Line || col != p.LineRune {
			fail("linecol:"+what, "%s: byte %d is line %d column %d but the node says %d:%d", what, p.Byte, l, col, p.Line, p.LineRune)
			return false
		}
		return true
	}
	nodes := 0
	coms := func(x build.Expr, name string) {
		cm := x.Comment()
		for _, l := range [][]build.Comment{cm.Before, cm.Suffix, cm.After} {
			for _, cc := range l {
				if cc.Token == "" {
					continue // a recorded blank line
				}
				if okPos(cc.Start, "comment") && !strings.HasPrefix(in[cc.Start.Byte:], cc.Token) {
					fail("comment-text", "comment %q is not at its position %+v", cc.Token, cc.Start)
				}
				if c != nil {
					c.Count("comments_checked", 1)
				}
			}
		}
	}
	var visit func(x, parent build.Expr)
	visit = func(x, parent build.Expr) {
		if sig != "" {
			return
		}
		nodes++
		name := nodeName(x)
		coms(x, name)
		if cb, ok := x.(*build.CommentBlock); ok {
			_ = cb
			return
		}
		s, e := x.Span()
		if name != "File" && (!okPos(s, name+".start") || !okPos(e, name+".end")) {
			return
		}
		if s.Byte >= e.Byte && name != "File" {
			fail("empty:"+name, "%s has an empty span %+v-%+v", name, s, e)
			return
		}
		for field, m := range posMarks(x) {
			if field == "ElsePos" && m.p.Line == 0 {
				continue
			}
			if okPos(m.p, name+"."+field) && !strings.HasPrefix(in[m.p.Byte:], m.text) {
				fail("mark:"+name+"."+field, "%s.%s: %q expected at byte %d, found %q", name, field, m.text, m.p.Byte, cut(in[m.p.Byte:], 20))
			}
		}
		if name != "File" && parent != nil {
			if _, isFile := parent.(*build.File); !isFile {
				ps, pe := parent.Span()
				if s.Byte < ps.Byte || e.Byte > pe.Byte {
					fail("nesting:"+name+" in "+nodeName(parent), "%s at %d-%d is not within its parent %s at %d-%d", name, s.Byte, e.Byte, nodeName(parent), ps.Byte, pe.Byte)
				}
			}
		}
		// the text of the node
		if name != "File" {
			text := in[s.Byte:e.Byte]
			checkText(x, text, in, fail)
		}
		ks := kids(x)
		if ld, ok := x.(*build.LoadStmt); ok {
			ks = []build.Expr{ld.Module}
			for i := range ld.From {
				fs, fe := ld.From[i].Span()
				okPos(fs, "LoadFrom.start")
				okPos(fe, "LoadFrom.end")
				ts, te := ld.To[i].Span()
				okPos(ts, "LoadTo.start")
				okPos(te, "LoadTo.end")
				if sig == "" && in[fs.Byte:fe.Byte] != ld.From[i].Name {
					fail("mark:load-from", "loaded symbol %q, its span is %q", ld.From[i].Name, in[fs.Byte:fe.Byte])
				}
				if sig == "" && in[ts.Byte:te.Byte] != ld.To[i].Name {
					fail("mark:load-to", "local name %q, its span is %q", ld.To[i].Name, in[ts.Byte:te.Byte])
				}
			}
		}
		type sp struct {
			s, e int
			x    build.Expr
		}
		var sps []sp
		for _, k := range ks {
			visit(k, x)
			if sig != "" {
				return
			}
			if _, ok := k.(*build.CommentBlock); ok {
				continue
			}
			ks, ke := k.Span()
			sps = append(sps, sp{ks.Byte, ke.Byte, k})
		}
		sort.SliceStable(sps, func(i, j int) bool { return sps[i].s < sps[j].s })
		for i := 1; i < len(sps); i++ {
			if sps[i].s < sps[i-1].e {
				fail("overlap:"+name, "children %s (%d-%d) and %s (%d-%d) of %s overlap", nodeName(sps[i-1].x), sps[i-1].s, sps[i-1].e, nodeName(sps[i].x), sps[i].s, sps[i].e, name)
			}
		}
	}
	visit(f, nil)
	last := -1
	for _, s := range f.Stmt {
		if _, ok := s.(*build.CommentBlock); ok {
			continue
		}
		b, _ := s.Span()
		if b.Byte <= last {
			fail("order:File", "statements out of source order at byte %d", b.Byte)
		}
		last = b.Byte
	}
	if c != nil {
		c.Count("nodes_checked", nodes)
		key := ""
		if nodes >= 5 {
			key = in
		}
		c.Eval(key)
	}
	return
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// checkText compares the node with what its own text parses to.
func endsInComment(x build.Expr) bool {
	var body []build.Expr
	switch v := x.(type) {
	case *build.CommentBlock:
		return true
	case *build.DefStmt:
		body = v.Body
	case *build.ForStmt:
		body = v.Body
	case *build.IfStmt:
		body = v.True
		if len(v.False) > 0 {
			body = v.False
		}
	}
	return len(body) > 0 && endsInComment(body[len(body)-1])
}

func checkText(x build.Expr, text, in string, fail func(string, string, ...interface{})) {
	name := nodeName(x)
	if endsInComment(x) {
		text = strings.TrimRight(text, " \t\r\n") // comments are not part of a span
	}
	if strings.TrimSpace(text) != text && !strings.HasSuffix(text, "\\\n") {
		fail("text-space:"+name, "span of %s includes surrounding space: %q", name, cut(text, 80))
		return
	}
	switch v := x.(type) {
	case *build.DefStmt, *build.IfStmt, *build.ForStmt, *build.LoadStmt, *build.KeyValueExpr, *build.ForClause, *build.IfClause, *build.TypedIdent, *build.BranchStmt:
		return
	case *build.ReturnStmt:
		return
	case *build.AssignExpr:
		return
	case *build.TupleExpr:
		if v.NoBrackets && len(v.List) == 1 {
			return
		}
	case *build.UnaryExpr:
		if v.Op == "*" || v.Op == "**" {
			return
		}
	case *build.Comprehension:
	}
	f, err := build.ParseDefault("t", []byte("("+text+"\n)\n"))
	if err != nil {
		fail("text-parse:"+name, "the span of a %s does not parse: %v: %q", name, err, cut(text, 200))
		return
	}
	if len(f.Stmt) != 1 {
		fail("text-parse:"+name, "the span of a %s is %d statements: %q", name, len(f.Stmt), cut(text, 200))
		return
	}
	got := f.Stmt[0]
	if p, ok := got.(*build.ParenExpr); ok {
		got = p.X
	} else if t, ok := got.(*build.TupleExpr); ok && !t.NoBrackets {
		_ = t
	}
	a, b := bExpr(x), bExpr(got)
	if d := firstDiff(a, b, ""); d != "" {
		fail("text-tree:"+name, "the span of a %s parses to another tree: %s: %q", name, d, cut(text, 200))
	}
}

func checkC06(c *Ctx) {
	c.Rule("every node of the tree of random files (all types, CRLF, multi-byte text, continuations, comments anywhere): positions are recomputed from byte offsets, marks are compared with the text at them, spans must nest and not overlap, and the text of every expression node must parse to that node again. Distinct non-trivial: distinct inputs with at least 5 nodes.")
	c.Assume("a recorded blank line before a comment has no text of its own")
	n := c.N(4000, 150000)
	run := func(k FileKind, raw string) {
		c.Case(raw)
		first := true
		c.pureCheck(raw, func(s string) (string, string) {
			y := c
			if !first {
				y = nil
			}
			first = false
			return c06Sig(k, s, y)
		})
	}
	for _, p := range c05Probes {
		for k := FileKind(0); k < 5; k++ {
			run(k, p.src)
		}
	}
	for _, f := range loadCorpus() {
		for k := FileKind(0); k < 5; k++ {
			run(k, f)
		}
	}
	for i := 0; i < n && !c.Failed(); i++ {
		g := c.genCase(i, 6)
		g.wild, g.extra = g.p(0.3), true
		g.crlf = g.p(0.1)
		raw := g.File(1 + g.n(4))
		run(g.kind, raw)
		if i%(n/6) == 0 {
			c.Sample(raw)
		}
	}
}

// ---- C11 ----

type visitRec struct {
	x   build.Expr
	stk []build.Expr
}

// refWalk lists the nodes with their ancestors, parents first, in definition order.
func refWalk(x build.Expr, stk []build.Expr, stop func(build.Expr) bool, out *[]visitRec) {
	*out = append(*out, visitRec{x, append([]build.Expr{}, stk...)})
	if stop != nil && stop(x) {
		return
	}
	stk = append(stk, x)
	for _, k := range walkKids(x) {
		refWalk(k, stk, stop, out)
	}
}

// walkKids are the children in the order of a traversal. The annotated
// identifier and return annotations are leaves of their node.
func walkKids(x build.Expr) []build.Expr {
	switch v := x.(type) {
	case *build.TypedIdent:
		return nil
	case *build.DefStmt:
		return append(append([]build.Expr{}, v.Params...), v.Body...)
	case *build.LoadStmt:
		out := []build.Expr{v.Module}
		for i := range v.From {
			out = append(out, v.From[i], v.To[i])
		}
		return out
	case *build.ForStmt:
		return append([]build.Expr{v.Vars, v.X}, v.Body...)
	case *build.UnaryExpr:
		if v.X == nil {
			return nil
		}
	}
	return kids(x)
}

func sameVisits(a, b []visitRec) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) {
			return fmt.Sprintf("extra visit %d of %s", i, nodeName(b[i].x))
		}
		if i >= len(b) {
			return fmt.Sprintf("visit %d of %s missing", i, nodeName(a[i].x))
		}
		if a[i].x != b[i].x {
			return fmt.Sprintf("visit %d is a %s, expected a %s (child of %s)", i, nodeName(b[i].x), nodeName(a[i].x), lastName(a[i].stk))
		}
		if len(a[i].stk) != len(b[i].stk) {
			return fmt.Sprintf("visit %d (%s) has %d ancestors, expected %d", i, nodeName(a[i].x), len(b[i].stk), len(a[i].stk))
		}
		for j := range a[i].stk {
			if a[i].stk[j] != b[i].stk[j] {
				return fmt.Sprintf("visit %d (%s): ancestor %d is a %s, expected a %s", i, nodeName(a[i].x), j, nodeName(b[i].stk[j]), nodeName(a[i].stk[j]))
			}
		}
	}
	return ""
}

func lastName(l []build.Expr) string {
	if len(l) == 0 {
		return "nothing"
	}
	return nodeName(l[len(l)-1])
}

func cp(stk []build.Expr) []build.Expr { return append([]build.Expr{}, stk...) }

func isBlockStmt(x build.Expr) bool {
	switch x.(type) {
	case *build.File, *build.DefStmt, *build.IfStmt, *build.ForStmt:
		return true
	}
	return false
}

func refStatements(x build.Expr, stk []build.Expr, stop func(build.Expr) bool, out *[]visitRec) {
	*out = append(*out, visitRec{x, append([]build.Expr{}, stk...)})
	if stop != nil && stop(x) {
		return
	}
	stk = append(stk, x)
	var l []build.Expr
	switch v := x.(type) {
	case *build.File:
		l = v.Stmt
	case *build.DefStmt:
		l = v.Body
	case *build.ForStmt:
		l = v.Body
	case *build.IfStmt:
		l = append(append([]build.Expr{}, v.True...), v.False...)
	}
	for _, k := range l {
		refStatements(k, stk, stop, out)
	}
}

func c11Sig(kind FileKind, raw string, seed int64, c *Ctx) (string, string) {
	in, _ := texts(raw)
	f, err := parseKind(kind, in)
	if err != nil {
		return "", ""
	}
	r := rand.New(rand.NewSource(seed))
	before := bFile(f).String()
	var want []visitRec
	refWalk(f, nil, nil, &want)
	stopAt := map[build.Expr]bool{}
	for _, w := range want {
		if r.Intn(6) == 0 {
			stopAt[w.x] = true
		}
	}
	if c != nil {
		key := ""
		if len(want) >= 6 {
			key = in
		}
		c.Eval(key)
		c.Count("nodes_visited", len(want))
	}
	var roots []build.Expr
	roots = append(roots, f, want[r.Intn(len(want))].x)
	for _, root := range roots {
		want = nil
		refWalk(root, nil, nil, &want)
		var got []visitRec
		build.Walk(root, func(x build.Expr, stk []build.Expr) { got = append(got, visitRec{x, cp(stk)}) })
		if d := sameVisits(want, got); d != "" {
			return "Walk:" + d[:0] + visitClass(d), "Walk: " + d
		}
		got = nil
		badPtr := false
		build.WalkPointers(root, func(x *build.Expr, stk []build.Expr) {
			got = append(got, visitRec{*x, cp(stk)})
			badPtr = badPtr || x == nil
		})
		if d := sameVisits(want, got); d != "" {
			return "WalkPointers:" + visitClass(d), "WalkPointers: " + d
		}
		got = nil
		build.Edit(root, func(x build.Expr, stk []build.Expr) build.Expr {
			got = append(got, visitRec{x, cp(stk)})
			return nil
		})
		// Edit visits the children first or the node first; it must see each node once with its ancestors
		if d := sameSet(want, got); d != "" {
			return "Edit:" + visitClass(d), "Edit: " + d
		}
		got = nil
		build.EditChildren(root, func(x build.Expr, stk []build.Expr) build.Expr {
			got = append(got, visitRec{x, cp(stk)})
			return nil
		})
		if d := sameSet(want[1:], got); d != "" {
			return "EditChildren:" + visitClass(d), "EditChildren: " + d
		}
		got = nil
		build.WalkOnce(root, func(x *build.Expr) {
			if *x == nil {
				return // the missing operand of a bare star
			}
			got = append(got, visitRec{*x, nil})
		})
		var once []visitRec
		for _, k := range walkKids(root) {
			once = append(once, visitRec{k, nil})
		}
		if d := sameVisits(once, got); d != "" {
			return "WalkOnce:" + visitClass(d), "WalkOnce of " + nodeName(root) + ": " + d
		}
		want = nil
		refWalk(root, nil, func(x build.Expr) bool { return stopAt[x] }, &want)
		got = nil
		build.WalkInterruptable(root, func(x build.Expr, stk []build.Expr) error {
			got = append(got, visitRec{x, cp(stk)})
			if stopAt[x] {
				return &build.StopTraversalError{}
			}
			return nil
		})
		if d := sameVisits(want, got); d != "" {
			return "WalkInterruptable:" + visitClass(d), "WalkInterruptable: " + d
		}
		if !isBlockStmt(root) {
			continue
		}
		for _, stops := range []bool{false, true} {
			want, got = nil, nil
			refStatements(root, nil, func(x build.Expr) bool { return stops && stopAt[x] }, &want)
			build.WalkStatements(root, func(x build.Expr, stk []build.Expr) error {
				got = append(got, visitRec{x, cp(stk)})
				if stops && stopAt[x] {
					return &build.StopTraversalError{}
				}
				return nil
			})
			if d := sameVisits(want, got); d != "" {
				return "WalkStatements:" + visitClass(d), "WalkStatements: " + d
			}
		}
	}
	if after := bFile(f).String(); after != before {
		return "traversal-changed-tree", "a traversal that replaces nothing changed the tree"
	}
	return c11Edit(f, r, c)
}

func visitClass(d string) string {
	for _, w := range []string{"extra", "missing", "expected a", "ancestor"} {
		if strings.Contains(d, w) {
			return strings.ReplaceAll(w, " ", "-")
		}
	}
	return "other"
}

func sameSet(want, got []visitRec) string {
	seen := map[build.Expr]int{}
	for _, g := range got {
		seen[g.x]++
		if seen[g.x] > 1 {
			return "extra visit of " + nodeName(g.x)
		}
	}
	for _, w := range want {
		if seen[w.x] == 0 {
			return fmt.Sprintf("visit of %s (child of %s) missing", nodeName(w.x), lastName(w.stk))
		}
	}
	if len(got) != len(want) {
		return "extra visits"
	}
	idx := map[build.Expr][]build.Expr{}
	for _, w := range want {
		idx[w.x] = w.stk
	}
	for _, g := range got {
		w := idx[g.x]
		if len(w) != len(g.stk) {
			return fmt.Sprintf("%s has %d ancestors, expected %d", nodeName(g.x), len(g.stk), len(w))
		}
		for i := range w {
			if w[i] != g.stk[i] {
				return "wrong ancestor of " + nodeName(g.x)
			}
		}
	}
	return ""
}

// c11Edit replaces random leaves through Edit and WalkPointers and compares
// with a replacement done on the canonical tree.
func c11Edit(f *build.File, r *rand.Rand, c *Ctx) (string, string) {
	var all []visitRec
	refWalk(f, nil, nil, &all)
	repl := map[build.Expr]build.Expr{}
	fixed := map[build.Expr]bool{} // nodes whose type is fixed by their parent
	for _, w := range all {
		if l, ok := w.x.(*build.LoadStmt); ok {
			fixed[l.Module] = true
			for i := range l.From {
				fixed[l.From[i]], fixed[l.To[i]] = true, true
			}
		}
	}
	k := 0
	for _, w := range all {
		if fixed[w.x] {
			continue
		}
		if len(w.stk) > 0 {
			switch w.stk[len(w.stk)-1].(type) {
			case *build.DefStmt, *build.LambdaExpr, *build.AssignExpr:
				continue
			}
		}
		k++
		switch v := w.x.(type) {
		case *build.Ident:
			if r.Intn(2) == 0 {
				repl[v] = &build.Ident{Name: fmt.Sprintf("new%d", k)}
			}
		case *build.StringExpr:
			if r.Intn(2) == 0 {
				repl[v] = &build.StringExpr{Value: fmt.Sprintf("new%d", k)}
			}
		case *build.KeyValueExpr:
			if r.Intn(3) == 0 {
				repl[v] = &build.KeyValueExpr{Key: &build.Ident{Name: fmt.Sprintf("k%d", k)}, Value: &build.Ident{Name: "v"}}
			}
		case *build.IfClause:
			if r.Intn(3) == 0 {
				repl[v] = &build.IfClause{Cond: &build.Ident{Name: fmt.Sprintf("c%d", k)}}
			}
		case *build.BinaryExpr, *build.CallExpr, *build.ListExpr, *build.DotExpr:
			if r.Intn(8) == 0 {
				repl[w.x] = &build.Ident{Name: fmt.Sprintf("n%d", k)}
			}
		}
	}
	if len(repl) == 0 {
		return "", ""
	}
	// expected: the tree with outermost replacements applied, built without the code under test
	subst := func() string { return bFileSubst(f, repl) }
	want := subst()
	build.Edit(f, func(x build.Expr, stk []build.Expr) build.Expr {
		if n, ok := repl[x]; ok {
			return n
		}
		return nil
	})
	got := bFile(f).String()
	if c != nil {
		c.Count("nodes_replaced", len(repl))
	}
	if got != want {
		return "Edit:replacement", fmt.Sprintf("after replacing %d nodes:\nwant %s\ngot  %s", len(repl), cut(want, 1500), cut(got, 1500))
	}
	return "", ""
}

func checkC11(c *Ctx) {
	c.Rule("every traversal entry point on the trees of random files and on random subtrees, compared visit by visit (order, ancestors, stopping) with a traversal derived by reflection from the node types; replacements through Edit are compared with a substitution on the canonical tree. Distinct non-trivial: distinct inputs with at least 6 nodes.")
	c.Assume("type annotations count as part of the annotated identifier or function, not as nodes of their own")
	n := c.N(5000, 200000)
	for i := 0; i < n && !c.Failed(); i++ {
		g := c.genCase(i, 11)
		g.extra = true
		raw := g.File(1 + g.n(4))
		c.Case(raw)
		first := true
		c.pureCheck(raw, func(s string) (string, string) {
			x := c
			if !first {
				x = nil
			}
			first = false
			return c11Sig(g.kind, s, int64(i), x)
		})
		if i%(n/6) == 0 {
			c.Sample(raw)
		}
	}
}

// ---- C10 ----

// bare strips parentheses, positions and comments from a tree.
func bare(x build.Expr) build.Expr {
	if x == nil {
		return nil
	}
	if p, ok := x.(*build.ParenExpr); ok {
		return bare(p.X)
	}
	c := x.Copy()
	v := reflect.ValueOf(c).Elem()
	var clean func(v reflect.Value)
	clean = func(v reflect.Value) {
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			ft, fv := t.Field(i), v.Field(i)
			switch {
			case ft.Type == reflect.TypeOf(build.End{}) || ft.Type == reflect.TypeOf(build.Comments{}) || ft.Type == reflect.TypeOf(build.Position{}):
				fv.Set(reflect.Zero(ft.Type))
			case ft.Type == exprType:
				if !fv.IsNil() {
					fv.Set(reflect.ValueOf(bare(fv.Interface().(build.Expr))))
				}
			case ft.Type.Kind() == reflect.Ptr && ft.Type.Implements(exprType):
				if !fv.IsNil() {
					fv.Set(reflect.ValueOf(bare(fv.Interface().(build.Expr))))
				}
			case ft.Type.Kind() == reflect.Slice && ft.Type.Elem().Implements(exprType):
				n := reflect.MakeSlice(ft.Type, 0, fv.Len())
				for j := 0; j < fv.Len(); j++ {
					if _, ok := fv.Index(j).Interface().(*build.CommentBlock); ok {
						continue
					}
					n = reflect.Append(n, reflect.ValueOf(bare(fv.Index(j).Interface().(build.Expr))))
				}
				fv.Set(n)
			case ft.Type.Kind() == reflect.Struct && ft.Anonymous:
				clean(fv)
			}
		}
	}
	clean(v)
	if s, ok := c.(*build.StringExpr); ok {
		s.Token = ""
	}
	return c
}

func c10Check(f *build.File, kind FileKind, c *Ctx) (string, string) {
	want := bFile(f)
	if c != nil {
		c.Eval(c.goodKey(want))
	}
	out := string(build.FormatWithoutRewriting(f))
	g, err := parseKind(kind, out)
	if err != nil {
		return "printed-invalid:" + errClass(err), "the printed tree does not parse: " + err.Error() + "\n== printed ==\n" + out + "\n== tree ==\n" + cut(want.String(), 1500)
	}
	got := bFile(g)
	if d := firstDiff(want, got, ""); d != "" {
		return "printed-tree:" + diffSig(want, got), "the printed tree parses to another tree " + d + "\n== printed ==\n" + out
	}
	// every expression statement alone through FormatString
	for _, s := range f.Stmt {
		switch s.(type) {
		case *build.DefStmt, *build.IfStmt, *build.ForStmt, *build.LoadStmt, *build.ReturnStmt, *build.AssignExpr, *build.BranchStmt, *build.CommentBlock:
			continue
		}
		t := build.FormatString(s)
		h, err := build.ParseDefault("t", []byte(t+"\n"))
		if err != nil || len(h.Stmt) != 1 {
			return "format-string-invalid", fmt.Sprintf("FormatString gives %q: %v", t, err)
		}
		if d := firstDiff(bExpr(s), bExpr(h.Stmt[0]), ""); d != "" {
			return "format-string-tree", fmt.Sprintf("FormatString gives %q: %s", t, d)
		}
	}
	return "", ""
}

// randExpr builds a random expression tree node by node.
func randExpr(r *rand.Rand, d int) build.Expr {
	id := func() build.Expr { return &build.Ident{Name: string(rune('a' + r.Intn(6)))} }
	if d <= 0 {
		switch r.Intn(4) {
		case 0:
			return &build.LiteralExpr{Token: []string{"1", "0", "3.5", "1e9", "0x1f", "12"}[r.Intn(6)]}
		case 1:
			return &build.StringExpr{Value: []string{"", "a", "x\"y", "it's", "l\nm", "\\d", "é"}[r.Intn(7)], TripleQuote: r.Intn(4) == 0}
		}
		return id()
	}
	e := func() build.Expr { return randExpr(r, d-1-r.Intn(2)) }
	list := func(n int) []build.Expr {
		var l []build.Expr
		for i := 0; i < n; i++ {
			l = append(l, e())
		}
		return l
	}
	fc, fm := r.Intn(2) == 0, r.Intn(4) == 0
	switch r.Intn(19) {
	case 0, 1, 2, 3:
		ops := []string{"or", "and", "==", "!=", "<", ">", "<=", ">=", "in", "not in", "|", "^", "&", "<<", ">>", "-", "+", "*", "%", "/", "//"}
		return &build.BinaryExpr{X: e(), Op: ops[r.Intn(len(ops))], Y: e(), LineBreak: r.Intn(6) == 0}
	case 4, 5:
		return &build.UnaryExpr{Op: []string{"not", "not", "-", "+", "~"}[r.Intn(5)], X: e()}
	case 6:
		return &build.ConditionalExpr{Then: e(), Test: e(), Else: e()}
	case 7:
		var ps []build.Expr
		for i := r.Intn(3); i > 0; i-- {
			ps = append(ps, &build.Ident{Name: fmt.Sprintf("p%d", i)})
		}
		if r.Intn(3) == 0 {
			ps = append(ps, &build.AssignExpr{LHS: &build.Ident{Name: "q"}, Op: "=", RHS: e()})
		}
		switch r.Intn(6) {
		case 0:
			ps = append(ps, &build.UnaryExpr{Op: "*", X: &build.Ident{Name: "args"}})
		case 1:
			ps = append(ps, &build.UnaryExpr{Op: "**", X: &build.Ident{Name: "kw"}})
		case 2:
			ps = append(ps, &build.UnaryExpr{Op: "*"}, &build.AssignExpr{LHS: &build.Ident{Name: "kwonly"}, Op: "=", RHS: e()})
		}
		return &build.LambdaExpr{Function: build.Function{Params: ps, Body: []build.Expr{e()}}}
	case 8, 9:
		l := list(r.Intn(3))
		if r.Intn(2) == 0 {
			l = append(l, &build.AssignExpr{LHS: &build.Ident{Name: "k"}, Op: "=", RHS: e()})
		}
		if r.Intn(5) == 0 {
			l = append(l, &build.UnaryExpr{Op: "*", X: e()})
		}
		if r.Intn(5) == 0 {
			l = append(l, &build.UnaryExpr{Op: "**", X: e()})
		}
		return &build.CallExpr{X: e(), List: l, ForceCompact: fc, ForceMultiLine: fm}
	case 10:
		return &build.DotExpr{X: e(), Name: "m"}
	case 11:
		return &build.IndexExpr{X: e(), Y: e()}
	case 12:
		s := &build.SliceExpr{X: e()}
		if r.Intn(2) == 0 {
			s.From = e()
		}
		if r.Intn(2) == 0 {
			s.To = e()
		}
		if r.Intn(2) == 0 {
			s.Step = e()
		}
		return s
	case 13:
		return &build.ListExpr{List: list(r.Intn(4)), ForceMultiLine: fm}
	case 14:
		return &build.TupleExpr{List: list(r.Intn(4)), ForceCompact: fc, ForceMultiLine: fm}
	case 15:
		d := &build.DictExpr{ForceMultiLine: fm}
		for i := r.Intn(3); i > 0; i-- {
			d.List = append(d.List, &build.KeyValueExpr{Key: e(), Value: e()})
		}
		return d
	case 16:
		return &build.SetExpr{List: list(1 + r.Intn(3)), ForceMultiLine: fm}
	case 17:
		return &build.Comprehension{Body: e(), Clauses: randClauses(r, e), ForceMultiLine: fm}
	}
	return &build.Comprehension{Curly: true, Body: &build.KeyValueExpr{Key: e(), Value: e()}, Clauses: randClauses(r, e), ForceMultiLine: fm}
}

func randClauses(r *rand.Rand, e func() build.Expr) []build.Expr {
	var l []build.Expr
	for i := 1 + r.Intn(2); i > 0; i-- {
		var vars build.Expr = &build.Ident{Name: "v"}
		switch r.Intn(4) {
		case 0:
			vars = &build.TupleExpr{NoBrackets: true, List: []build.Expr{&build.Ident{Name: "v"}, &build.Ident{Name: "w"}}}
		case 1:
			vars = &build.TupleExpr{List: []build.Expr{&build.Ident{Name: "v"}, &build.Ident{Name: "w"}}}
		}
		l = append(l, &build.ForClause{Vars: vars, X: e()})
		for r.Intn(3) == 0 {
			l = append(l, &build.IfClause{Cond: e()})
		}
	}
	return l
}

func randStmts(r *rand.Rand, d, n int, inFn, inLoop bool) []build.Expr {
	var l []build.Expr
	for i := 0; i < n; i++ {
		l = append(l, randStmt(r, d, inFn, inLoop))
	}
	return l
}

func randStmt(r *rand.Rand, d int, inFn, inLoop bool) build.Expr {
	e := func() build.Expr { return randExpr(r, 1+r.Intn(4)) }
	k := r.Intn(12)
	if d <= 0 {
		k += 5
	}
	switch k {
	case 0, 1:
		s := &build.IfStmt{Cond: e(), True: randStmts(r, d-1, 1+r.Intn(2), inFn, inLoop)}
		switch r.Intn(4) {
		case 0:
			s.False = randStmts(r, d-1, 1+r.Intn(2), inFn, inLoop)
		case 1:
			s.False = []build.Expr{&build.IfStmt{Cond: e(), True: randStmts(r, d-1, 1, inFn, inLoop)}}
		}
		return s
	case 2:
		var vars build.Expr = &build.Ident{Name: "v"}
		if r.Intn(2) == 0 {
			vars = &build.TupleExpr{NoBrackets: r.Intn(2) == 0, List: []build.Expr{&build.Ident{Name: "v"}, &build.Ident{Name: "w"}}}
		}
		return &build.ForStmt{Vars: vars, X: e(), Body: randStmts(r, d-1, 1+r.Intn(2), inFn, true)}
	case 3, 4:
		f := randExpr(r, 1)
		var ps []build.Expr
		for f != nil {
			if lam, ok := f.(*build.LambdaExpr); ok {
				ps = lam.Params
				break
			}
			f = randExpr(r, 1)
		}
		if r.Intn(4) == 0 {
			ps = append([]build.Expr{&build.TypedIdent{Ident: &build.Ident{Name: "t"}, Type: e()}}, ps...)
		}
		def := &build.DefStmt{Name: "fn", Function: build.Function{Params: ps, Body: randStmts(r, d-1, 1+r.Intn(3), true, false)}, ForceCompact: r.Intn(2) == 0, ForceMultiLine: r.Intn(4) == 0}
		if r.Intn(4) == 0 {
			def.Type = e()
		}
		return def
	case 5:
		if inFn {
			if r.Intn(3) == 0 {
				return &build.ReturnStmt{}
			}
			return &build.ReturnStmt{Result: e()}
		}
	case 6:
		if inLoop {
			return &build.BranchStmt{Token: []string{"break", "continue"}[r.Intn(2)]}
		}
		return &build.BranchStmt{Token: "pass"}
	case 7, 8, 9:
		ops := []string{"=", "=", "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=", "&=", "^=", "<<=", ">>="}
		var lhs build.Expr = &build.Ident{Name: "x"}
		op := ops[r.Intn(len(ops))]
		switch r.Intn(5) {
		case 0:
			lhs = &build.IndexExpr{X: e(), Y: e()}
		case 1:
			lhs = &build.DotExpr{X: e(), Name: "at"}
		case 2:
			if op == "=" {
				lhs = &build.TupleExpr{NoBrackets: r.Intn(2) == 0, List: []build.Expr{&build.Ident{Name: "x"}, &build.Ident{Name: "y"}}}
			}
		}
		rhs := e()
		if r.Intn(6) == 0 {
			rhs = &build.TupleExpr{NoBrackets: true, List: []build.Expr{e(), e()}}
		}
		return &build.AssignExpr{LHS: lhs, Op: op, RHS: rhs, LineBreak: r.Intn(8) == 0}
	}
	return e()
}

func checkC10(c *Ctx) {
	c.Rule("trees of random files with all parentheses, positions and comments removed, and random trees built node by node (every node kind, forced single- and multi-line flags); each is printed as every file type and parsed back. Distinct non-trivial: distinct canonical trees with at least 5 nodes.")
	n := c.N(6000, 250000)
	for i := 0; i < n && !c.Failed(); i++ {
		g := c.genCase(i, 10)
		g.comProb, g.extra = 0, true
		raw := g.File(1 + g.n(4))
		c.Case(raw)
		first := true
		c.pureCheck(raw, func(s string) (string, string) {
			in, _ := texts(s)
			f, err := parseKind(g.kind, in)
			if err != nil {
				return "", ""
			}
			x := c
			if !first {
				x = nil
			}
			first = false
			nf := bare(f).(*build.File)
			return c10Check(nf, g.kind, x)
		})
		if i%(n/6) == 0 {
			c.Sample(raw)
		}
	}
	for i := 0; i < n*3 && !c.Failed(); i++ {
		r := rand.New(rand.NewSource(c.Seed*31337 + int64(i)))
		kind := FileKind(r.Intn(5))
		f := &build.File{Path: kindFile[kind], Type: typeOf[kind], Stmt: randStmts(r, 2, 1, kind == KDefault && false, false)}
		desc := cut(bFile(f).String(), 3000)
		c.Case(desc)
		c.Guard("print", desc, func() {
			if sig, d := c10Check(f, kind, c); sig != "" {
				c.Violate(sig+":built", d, desc)
			}
		})
	}
}
