package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"
	"go.starlark.net/syntax"
)

// N is a canonical syntax tree node shared by both parsers.
type N struct {
	K, S string
	C    []*N
}

func nn(k, s string, c ...*N) *N { return &N{k, s, c} }

func (n *N) write(sb *strings.Builder) {
	if n == nil {
		sb.WriteString("_")
		return
	}
	sb.WriteString("(")
	sb.WriteString(n.K)
	if n.S != "" || n.K == "Str" {
		sb.WriteString(" ")
		sb.WriteString(strconv.Quote(n.S))
	}
	for _, c := range n.C {
		sb.WriteString(" ")
		c.write(sb)
	}
	sb.WriteString(")")
}

func (n *N) String() string {
	var sb strings.Builder
	n.write(&sb)
	return sb.String()
}

func canonNum(tok string) string {
	l := strings.ToLower(tok)
	if len(l) > 1 && l[0] == '0' && strings.Trim(l, "01234567") == "" {
		i, ok := new(big.Int).SetString(l, 8)
		if ok {
			return i.String()
		}
	}
	isHex := strings.HasPrefix(l, "0x")
	if !isHex && strings.ContainsAny(l, ".e") {
		f, err := strconv.ParseFloat(l, 64)
		if err == nil || strings.Contains(err.Error(), "range") {
			return "f" + strconv.FormatFloat(f, 'g', -1, 64)
		}
		return "bad:" + tok
	}
	if i, ok := new(big.Int).SetString(l, 0); ok {
		return i.String()
	}
	return "bad:" + tok
}

// ---- from the reference parser ----

func starFile(f *syntax.File) *N { return nn("File", "", starStmts(f.Stmts)...) }

func starStmts(l []syntax.Stmt) []*N {
	var r []*N
	for _, s := range l {
		r = append(r, starStmt(s))
	}
	return r
}

func starStmt(s syntax.Stmt) *N {
	switch s := s.(type) {
	case *syntax.ExprStmt:
		return starExpr(s.X)
	case *syntax.AssignStmt:
		return nn("Assign", s.Op.String(), starExpr(s.LHS), starExpr(s.RHS))
	case *syntax.BranchStmt:
		return nn("Branch", s.Token.String())
	case *syntax.ReturnStmt:
		if s.Result == nil {
			return nn("Return", "")
		}
		return nn("Return", "", starExpr(s.Result))
	case *syntax.IfStmt:
		return nn("If", "", starExpr(s.Cond), nn("Block", "", starStmts(s.True)...), nn("Block", "", starStmts(s.False)...))
	case *syntax.ForStmt:
		return nn("For", "", starExpr(s.Vars), starExpr(s.X), nn("Block", "", starStmts(s.Body)...))
	case *syntax.DefStmt:
		return nn("Def", s.Name.Name, nn("Params", "", starExprs(s.Params)...), nn("Block", "", starStmts(s.Body)...))
	case *syntax.LoadStmt:
		n := nn("Load", s.Module.Value.(string))
		for i := range s.From {
			n.C = append(n.C, nn("L", s.To[i].Name+"="+s.From[i].Name))
		}
		return n
	}
	panic(fmt.Sprintf("star stmt %T", s))
}

func starExprs(l []syntax.Expr) []*N {
	var r []*N
	for _, s := range l {
		r = append(r, starExpr(s))
	}
	return r
}

func starExpr(e syntax.Expr) *N {
	switch e := e.(type) {
	case nil:
		return nil
	case *syntax.Ident:
		return nn("Id", e.Name)
	case *syntax.Literal:
		if e.Token == syntax.STRING {
			return nn("Str", e.Value.(string))
		}
		return nn("Num", canonNum(e.Raw))
	case *syntax.ParenExpr:
		return starExpr(e.X)
	case *syntax.ListExpr:
		return nn("List", "", starExprs(e.List)...)
	case *syntax.TupleExpr:
		return nn("Tuple", "", starExprs(e.List)...)
	case *syntax.DictExpr:
		n := nn("Dict", "")
		for _, x := range e.List {
			d := x.(*syntax.DictEntry)
			n.C = append(n.C, nn("KV", "", starExpr(d.Key), starExpr(d.Value)))
		}
		return n
	case *syntax.Comprehension:
		k := "ListComp"
		var body *N
		if e.Curly {
			k = "DictComp"
			d := e.Body.(*syntax.DictEntry)
			body = nn("KV", "", starExpr(d.Key), starExpr(d.Value))
		} else {
			body = starExpr(e.Body)
		}
		n := nn(k, "", body)
		for _, c := range e.Clauses {
			switch c := c.(type) {
			case *syntax.ForClause:
				n.C = append(n.C, nn("CFor", "", starExpr(c.Vars), starExpr(c.X)))
			case *syntax.IfClause:
				n.C = append(n.C, nn("CIf", "", starExpr(c.Cond)))
			}
		}
		return n
	case *syntax.CallExpr:
		n := nn("Call", "", starExpr(e.Fn))
		for _, a := range e.Args {
			if b, ok := a.(*syntax.BinaryExpr); ok && b.Op == syntax.EQ {
				n.C = append(n.C, nn("Named", b.X.(*syntax.Ident).Name, starExpr(b.Y)))
			} else {
				n.C = append(n.C, starExpr(a))
			}
		}
		return n
	case *syntax.DotExpr:
		return nn("Dot", e.Name.Name, starExpr(e.X))
	case *syntax.IndexExpr:
		return nn("Index", "", starExpr(e.X), starExpr(e.Y))
	case *syntax.SliceExpr:
		return nn("Slice", "", starExpr(e.X), starExpr(e.Lo), starExpr(e.Hi), starExpr(e.Step))
	case *syntax.CondExpr:
		return nn("Cond", "", starExpr(e.True), starExpr(e.Cond), starExpr(e.False))
	case *syntax.LambdaExpr:
		return nn("Lambda", "", nn("Params", "", starExprs(e.Params)...), starExpr(e.Body))
	case *syntax.UnaryExpr:
		return nn("Un", e.Op.String(), starExpr(e.X))
	case *syntax.BinaryExpr:
		if e.Op == syntax.EQ {
			return nn("Named", e.X.(*syntax.Ident).Name, starExpr(e.Y))
		}
		return nn("Bin", e.Op.String(), starExpr(e.X), starExpr(e.Y))
	}
	panic(fmt.Sprintf("star expr %T", e))
}

// ---- from the tree under test ----

func bFile(f *build.File) *N { return nn("File", "", bStmts(f.Stmt)...) }

func bStmts(l []build.Expr) []*N {
	var r []*N
	for _, s := range l {
		switch s.(type) {
		case nil, *build.CommentBlock:
			continue
		}
		r = append(r, bExpr(s))
	}
	return r
}

func bExprs(l []build.Expr) []*N {
	var r []*N
	for _, s := range l {
		if s == nil {
			continue
		}
		r = append(r, bExpr(s))
	}
	return r
}

// bSubst makes bExpr read some nodes as others.
var bSubst map[build.Expr]build.Expr

func bFileSubst(f *build.File, m map[build.Expr]build.Expr) string {
	bSubst = m
	defer func() { bSubst = nil }()
	return bFile(f).String()
}

func bExpr(e build.Expr) *N {
	if bSubst != nil && e != nil {
		if n, ok := bSubst[e]; ok {
			e = n
		}
	}
	switch e := e.(type) {
	case nil:
		return nil
	case *build.CommentBlock:
		return nn("CommentBlock", "")
	case *build.Ident:
		return nn("Id", e.Name)
	case *build.TypedIdent:
		return nn("Typed", "", bExpr(e.Ident), bExpr(e.Type))
	case *build.LiteralExpr:
		return nn("Num", canonNum(e.Token))
	case *build.StringExpr:
		return nn("Str", e.Value)
	case *build.ParenExpr:
		return bExpr(e.X)
	case *build.ListExpr:
		return nn("List", "", bExprs(e.List)...)
	case *build.SetExpr:
		return nn("Set", "", bExprs(e.List)...)
	case *build.TupleExpr:
		return nn("Tuple", "", bExprs(e.List)...)
	case *build.KeyValueExpr:
		return nn("KV", "", bExpr(e.Key), bExpr(e.Value))
	case *build.DictExpr:
		n := nn("Dict", "")
		for _, kv := range e.List {
			n.C = append(n.C, bExpr(kv))
		}
		return n
	case *build.Comprehension:
		k := "ListComp"
		if e.Curly {
			k = "DictComp"
		}
		n := nn(k, "", bExpr(e.Body))
		n.C = append(n.C, bExprs(e.Clauses)...)
		return n
	case *build.ForClause:
		return nn("CFor", "", bExpr(e.Vars), bExpr(e.X))
	case *build.IfClause:
		return nn("CIf", "", bExpr(e.Cond))
	case *build.CallExpr:
		n := nn("Call", "", bExpr(e.X))
		for _, a := range e.List {
			if a == nil {
				continue
			}
			if as, ok := a.(*build.AssignExpr); ok && as.Op == "=" {
				if id, ok := as.LHS.(*build.Ident); ok {
					n.C = append(n.C, nn("Named", id.Name, bExpr(as.RHS)))
					continue
				}
			}
			n.C = append(n.C, bExpr(a))
		}
		return n
	case *build.DotExpr:
		return nn("Dot", e.Name, bExpr(e.X))
	case *build.IndexExpr:
		return nn("Index", "", bExpr(e.X), bExpr(e.Y))
	case *build.SliceExpr:
		return nn("Slice", "", bExpr(e.X), bExpr(e.From), bExpr(e.To), bExpr(e.Step))
	case *build.ConditionalExpr:
		return nn("Cond", "", bExpr(e.Then), bExpr(e.Test), bExpr(e.Else))
	case *build.LambdaExpr:
		return nn("Lambda", "", nn("Params", "", bParams(e.Params)...), bStmtExpr(e.Body))
	case *build.UnaryExpr:
		return nn("Un", e.Op, bExpr(e.X))
	case *build.BinaryExpr:
		return nn("Bin", e.Op, bExpr(e.X), bExpr(e.Y))
	case *build.AssignExpr:
		return nn("Assign", e.Op, bExpr(e.LHS), bExpr(e.RHS))
	case *build.BranchStmt:
		return nn("Branch", e.Token)
	case *build.ReturnStmt:
		if e.Result == nil {
			return nn("Return", "")
		}
		return nn("Return", "", bExpr(e.Result))
	case *build.IfStmt:
		return nn("If", "", bExpr(e.Cond), nn("Block", "", bStmts(e.True)...), nn("Block", "", bStmts(e.False)...))
	case *build.ForStmt:
		return nn("For", "", bExpr(e.Vars), bExpr(e.X), nn("Block", "", bStmts(e.Body)...))
	case *build.DefStmt:
		n := nn("Def", e.Name, nn("Params", "", bParams(e.Params)...), nn("Block", "", bStmts(e.Body)...))
		if e.Type != nil {
			n.C = append(n.C, bExpr(e.Type))
		}
		return n
	case *build.LoadStmt:
		n := nn("Load", e.Module.Value)
		for i := range e.From {
			n.C = append(n.C, nn("L", e.To[i].Name+"="+e.From[i].Name))
		}
		return n
	case *build.File:
		return bFile(e)
	}
	panic(fmt.Sprintf("build expr %T", e))
}

func bStmtExpr(l []build.Expr) *N {
	if len(l) == 1 {
		return bExpr(l[0])
	}
	return nn("Body", "", bExprs(l)...)
}

func bParams(l []build.Expr) []*N {
	var r []*N
	for _, p := range l {
		if as, ok := p.(*build.AssignExpr); ok && as.Op == "=" {
			if id, ok := as.LHS.(*build.Ident); ok {
				r = append(r, nn("Named", id.Name, bExpr(as.RHS)))
				continue
			}
		}
		r = append(r, bExpr(p))
	}
	return r
}

// highEscapes replaces octal escapes of bytes above 0x7f by the bytes: Bazel reads
// files byte by byte, so both spell the same string; the reference parser refuses
// the escapes.
func highEscapes(src string) string {
	if !strings.Contains(src, "\\2") && !strings.Contains(src, "\\3") {
		return src
	}
	toks, ok := miniLex(src)
	if !ok {
		return src
	}
	var sb strings.Builder
	pos := 0
	for _, t := range toks {
		if t.kind != 's' || t.text[0] == 'r' {
			continue
		}
		sb.WriteString(src[pos:t.off])
		pos = t.end
		x := t.text
		for i := 0; i < len(x); i++ {
			if x[i] == '\\' && i+3 < len(x) && (x[i+1] == '2' || x[i+1] == '3') && x[i+2] >= '0' && x[i+2] < '8' && x[i+3] >= '0' && x[i+3] < '8' {
				sb.WriteByte((x[i+1]-'0')<<6 | (x[i+2]-'0')<<3 | (x[i+3] - '0'))
				i += 3
				continue
			}
			sb.WriteByte(x[i])
			if x[i] == '\\' && i+1 < len(x) {
				i++
				sb.WriteByte(x[i])
			}
		}
	}
	sb.WriteString(src[pos:])
	return sb.String()
}

// starParse parses with the reference parser.
func starParse(src string) (*N, error) {
	f, err := syntax.Parse("ref.star", highEscapes(src), 0)
	if err != nil {
		return nil, err
	}
	return starFile(f), nil
}

var typeOf = []build.FileType{build.TypeBuild, build.TypeBzl, build.TypeWorkspace, build.TypeModule, build.TypeDefault}

func parseKind(k FileKind, data string) (*build.File, error) {
	switch k {
	case KBuild:
		return build.ParseBuild(kindFile[k], []byte(data))
	case KBzl:
		return build.ParseBzl(kindFile[k], []byte(data))
	case KWorkspace:
		return build.ParseWorkspace(kindFile[k], []byte(data))
	case KModule:
		return build.ParseModule(kindFile[k], []byte(data))
	}
	return build.ParseDefault(kindFile[k], []byte(data))
}

// formatKind parses and formats with all rewrites, as buildifier does.
func formatKind(k FileKind, data string) (string, *build.File, error) {
	f, err := parseKind(k, data)
	if err != nil {
		return "", nil, err
	}
	return string(build.Format(f)), f, nil
}

// ---- normalisation modulo the documented rewrites ----

type normOpts struct {
	kind       FileKind
	keepSorted bool // a "keep sorted" comment occurs: string lists compare as sets
	loads      bool // compare top-level loads as a set of bindings
}

func (k FileKind) buildLike() bool { return k == KBuild || k == KWorkspace || k == KModule }

// absLabel expands the spellings that label shortening identifies.
func absLabel(s string) string {
	i := strings.Index(s, "//")
	if i < 0 {
		if strings.HasPrefix(s, "@") && !strings.ContainsAny(s, ":/") {
			return s + "//:" + strings.TrimLeft(s, "@")
		}
		return s
	}
	if i > 0 && !strings.HasPrefix(s, "@") {
		return s
	}
	rest := s[i+2:]
	if strings.Contains(rest, ":") {
		return s
	}
	base := rest
	if j := strings.LastIndex(rest, "/"); j >= 0 {
		base = rest[j+1:]
	}
	if base == "" {
		return s
	}
	return s + ":" + base
}

func normLabelsIn(n *N, top bool) *N {
	if n == nil {
		return n
	}
	switch {
	case n.K == "Str":
		return nn("Str", absLabel(n.S))
	case n.K == "Bin" && n.S == "+":
		x, y := n.C[0], n.C[1]
		if x.K == "Str" && y.K == "Str" && strings.HasPrefix(x.S, "//") && !strings.Contains(x.S, " ") && !strings.Contains(y.S, " ") {
			return nn("Str", absLabel(x.S+y.S))
		}
		if top {
			m := nn("Bin", "+", normLabelsIn(x, true), normLabelsIn(y, true))
			// joining may cascade at an operand position
			if a, b := m.C[0], m.C[1]; a.K == "Str" && b.K == "Str" && x.K != "Str" && strings.HasPrefix(a.S, "//") {
				_ = b
			}
			return m
		}
		return n
	case n.K == "List" || n.K == "Set":
		if !top {
			return n
		}
		m := nn(n.K, "")
		for _, c := range n.C {
			m.C = append(m.C, normLabelsIn(c, false))
		}
		return m
	case n.K == "Call" && top && n.C[0] != nil && n.C[0].K == "Id" && n.C[0].S == "select" && len(n.C) > 1 && n.C[1].K == "Dict":
		d := nn("Dict", "")
		for _, kv := range n.C[1].C {
			d.C = append(d.C, nn("KV", "", kv.C[0], normLabelsIn(kv.C[1], true)))
		}
		return nn("Call", "", append([]*N{n.C[0], d}, n.C[2:]...)...)
	}
	return n
}

func normSortIn(n *N) *N {
	if n == nil {
		return n
	}
	switch {
	case n.K == "List":
		return sortListN(n)
	case n.K == "Bin" && n.S == "+":
		return nn("Bin", "+", normSortIn(n.C[0]), normSortIn(n.C[1]))
	case n.K == "Call" && n.C[0] != nil && n.C[0].K == "Id" && n.C[0].S == "select" && len(n.C) > 1 && n.C[1].K == "Dict":
		d := nn("Dict", "")
		for _, kv := range n.C[1].C {
			d.C = append(d.C, nn("KV", "", kv.C[0], normSortIn(kv.C[1])))
		}
		return nn("Call", "", append([]*N{n.C[0], d}, n.C[2:]...)...)
	}
	return n
}

func sortListN(n *N) *N {
	var strs []string
	var rest []*N
	seen := map[string]bool{}
	for _, c := range n.C {
		if c.K == "Str" {
			if !seen[c.S] {
				seen[c.S] = true
				strs = append(strs, c.S)
			}
		} else {
			rest = append(rest, c)
		}
	}
	sort.Strings(strs)
	m := nn("SortedList", "")
	for _, s := range strs {
		m.C = append(m.C, nn("Str", s))
	}
	m.C = append(m.C, rest...)
	return m
}

func calleeName(n *N) string {
	switch n.K {
	case "Id":
		return n.S
	case "Dot":
		b := calleeName(n.C[0])
		if b == "" {
			return ""
		}
		return b + "." + n.S
	}
	return ""
}

func argClass(a *N) int {
	switch {
	case a.K == "Named", a.K == "Assign":
		return 2
	case a.K == "Un" && a.S == "*":
		return 3
	case a.K == "Un" && a.S == "**":
		return 4
	}
	return 1
}

// normLabelPass applies label spellings everywhere before lists are compared as sets.
func normLabelPass(n *N) *N {
	if n == nil {
		return nil
	}
	m := &N{K: n.K, S: n.S}
	for _, c := range n.C {
		m.C = append(m.C, normLabelPass(c))
	}
	if m.K == "Call" {
		kind := calleeName(m.C[0])
		for _, a := range m.C[1:] {
			if a != nil && a.K == "Named" && tables.IsLabelArg[a.S] && !tables.LabelDenylist[kind+"."+a.S] {
				a.C[0] = normLabelsIn(a.C[0], true)
			}
		}
	}
	return m
}

// norm maps a tree to a representative that the documented rewrites preserve.
func norm(n *N, o normOpts, bodyFirst bool) *N {
	if n != nil && n.K == "File" && o.kind.buildLike() {
		n = normLabelPass(n)
	}
	if n == nil {
		return nil
	}
	m := &N{K: n.K, S: n.S}
	if n.K == "Str" && bodyFirst {
		// docstring: indentation and trailing white space may change
		lines := strings.Split(n.S, "\n")
		for i := range lines {
			lines[i] = strings.TrimSpace(lines[i])
		}
		m.S = strings.Join(lines, "\n")
		return m
	}
	for i, c := range n.C {
		doc := false
		if n.K == "Def" && i == 1 && len(c.C) > 0 && c.C[0] != nil && c.C[0].K == "Str" {
			doc = true
		}
		if doc {
			b := &N{K: c.K, S: c.S}
			for j, cc := range c.C {
				b.C = append(b.C, norm(cc, o, j == 0))
			}
			m.C = append(m.C, b)
			continue
		}
		m.C = append(m.C, norm(c, o, false))
	}
	switch m.K {
	case "Call":
		args := append([]*N{}, m.C[1:]...)
		sort.SliceStable(args, func(i, j int) bool { return argClass(args[i]) < argClass(args[j]) })
		if o.kind.buildLike() {
			kind := calleeName(m.C[0])
			lo, hi := 0, 0
			for lo < len(args) && argClass(args[lo]) < 2 {
				lo++
			}
			hi = lo
			for hi < len(args) && argClass(args[hi]) == 2 {
				hi++
			}
			named := args[lo:hi]
			sort.SliceStable(named, func(i, j int) bool { return named[i].S < named[j].S })
			for _, a := range named {
				if a.K != "Named" {
					continue
				}
				ctx := kind + "." + a.S
				if (tables.IsSortableListArg[a.S] || tables.SortableAllowlist[ctx]) && !tables.SortableDenylist[ctx] {
					a.C[0] = normSortIn(a.C[0])
				}
			}
			if o.kind == KModule && kind == "use_repo" && lo > 1 {
				l := sortListN(nn("List", "", args[1:lo]...))
				args = append([]*N{args[0], l}, args[lo:]...)
			}
		}
		m.C = append([]*N{m.C[0]}, args...)
	case "List":
		if o.keepSorted {
			return sortListN(m)
		}
	case "Load":
		// last binding of a name wins; order is irrelevant
		b := map[string]string{}
		for _, l := range m.C {
			kv := strings.SplitN(l.S, "=", 2)
			b[kv[0]] = kv[1]
		}
		var ks []string
		for k, v := range b {
			ks = append(ks, k+"="+v)
		}
		sort.Strings(ks)
		m.C = nil
		for _, k := range ks {
			m.C = append(m.C, nn("L", k))
		}
	case "File":
		if o.loads {
			bind := map[string]bool{}
			var rest []*N
			for _, s := range m.C {
				if s.K == "Load" {
					bind["module "+s.S] = true
					for _, l := range s.C {
						bind[s.S+" "+l.S] = true
					}
				} else {
					rest = append(rest, s)
				}
			}
			var ks []string
			for k := range bind {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			ln := nn("Loads", "")
			for _, k := range ks {
				ln.C = append(ln.C, nn("L", k))
			}
			m.C = append([]*N{ln}, rest...)
		}
	}
	return m
}

// firstDiff describes the first difference of two canonical trees.
func firstDiff(a, b *N, path string) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("at %s: %s vs %s", path, a, b)
	}
	if a.K != b.K || a.S != b.S || len(a.C) != len(b.C) {
		as, bs := a.String(), b.String()
		if len(as) > 500 {
			as = as[:500]
		}
		if len(bs) > 500 {
			bs = bs[:500]
		}
		return fmt.Sprintf("at %s:\n  %s\nvs\n  %s", path, as, bs)
	}
	for i := range a.C {
		if d := firstDiff(a.C[i], b.C[i], fmt.Sprintf("%s/%s[%d]", path, a.K, i)); d != "" {
			return d
		}
	}
	return ""
}

// diffSig names the first difference by node kinds only.
func diffSig(a, b *N) string {
	if a == nil || b == nil {
		switch {
		case a == b:
			return ""
		case a == nil:
			return "nil/" + b.K
		}
		return a.K + "/nil"
	}
	if a.K != b.K {
		return a.K + "/" + b.K
	}
	if a.S != b.S {
		return a.K + "-value"
	}
	if len(a.C) != len(b.C) {
		return a.K + "-arity"
	}
	for i := range a.C {
		if d := diffSig(a.C[i], b.C[i]); d != "" {
			return d
		}
	}
	return ""
}
