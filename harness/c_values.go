package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/bazelbuild/buildtools/build"
	"go.starlark.net/syntax"
)

func init() {
	checks["C07"] = checkC07
	checks["C08"] = checkC08
	checks["C09"] = checkC09
}

// ---- C07: string literals ----

var strBits = []string{"a", "b", "0", "7", "8", "u", "U", "x", "n", "r", "t", " ", "\"", "'", "\"\"", "''", "\"\"\"", "'''", "\\", "\\\\", "\n", "\t", "\r", "\x00", "\x07", "\x1f", "\x7f", "é", "日", "😀", "\u00a0", "\ufeff", "\xff", "\xc3", "{", "}", "%", "#", "$", "//a:b", ":", "@", "\\n", "\\d", "'a'", "\"b\""}

func randStr(r *rand.Rand, max int) string {
	var sb strings.Builder
	for n := r.Intn(max + 1); n > 0; n-- {
		switch r.Intn(8) {
		case 0:
			sb.WriteByte(byte(r.Intn(256)))
		default:
			sb.WriteString(strBits[r.Intn(len(strBits))])
		}
	}
	return sb.String()
}

var litBits = []string{"a", "b", "9", " ", "\\\\", "\\n", "\\t", "\\\"", "\\'", "\\a", "\\b", "\\f", "\\r", "\\v", "\\0", "\\00", "\\000", "\\7", "\\12", "\\101", "\\1012", "\\18", "\\0x", "\\377", "\\303\\251", "\\400", "\\x41", "\\x7f", "\\x4", "\\xff", "\\xZZ", "\\x+1", "\\u0041", "\\u00e9", "\\uD800", "\\u12", "\\u+123", "\\uZZZZ", "\\u00zz", "\\uDC00", "\\UZZZZZZZZ", "\\U0000ZZZZ", "\\U0000DC00", "\\U0001F600", "\\U00110000", "\\U0000004", "\\U-0000001", "\\d", "\\ ", "\\(", "\\8", "\\\n", "\\é", "\\N", "é", "日", "😀", "#", "//x", ":y", "{", "\"", "'", "\n", "\\"}

func randLit(r *rand.Rand) string {
	q := []string{"\"", "'", "\"\"\"", "'''"}[r.Intn(4)]
	var sb strings.Builder
	if r.Intn(4) == 0 {
		sb.WriteString("r")
	}
	sb.WriteString(q)
	for n := r.Intn(7); n > 0; n-- {
		b := litBits[r.Intn(len(litBits))]
		if (b == q || b == "\n") && len(q) == 1 && r.Intn(5) > 0 {
			continue
		}
		if b == "\\" && r.Intn(4) > 0 {
			continue
		}
		sb.WriteString(b)
	}
	sb.WriteString(q)
	return sb.String()
}

// starLit decodes a literal with the reference; ok=false when it is no literal.
func starLit(lit string) (v string, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	e, err := syntax.ParseExpr("lit.star", "(\n"+highEscapes(lit)+"\n)", 0)
	if err != nil {
		return "", false
	}
	if p, isP := e.(*syntax.ParenExpr); isP {
		e = p.X
	}
	l, isL := e.(*syntax.Literal)
	if !isL || l.Token != syntax.STRING {
		return "", false
	}
	s, isS := l.Value.(string)
	if l.Raw != highEscapes(lit) || !utf8.ValidString(l.Raw) {
		return "", false // not one literal, or bytes that the reference does not keep
	}
	return s, isS
}

// ownDecode decodes a double-quoted literal byte by byte.
func ownDecode(lit string) (string, bool) {
	q := "\""
	if strings.HasPrefix(lit, "\"\"\"") && len(lit) >= 6 {
		q = "\"\"\""
	}
	if len(lit) < 2*len(q) || !strings.HasPrefix(lit, q) || !strings.HasSuffix(lit, q) {
		return "", false
	}
	b := lit[len(q) : len(lit)-len(q)]
	var out []byte
	for i := 0; i < len(b); i++ {
		if strings.HasPrefix(b[i:], q) || len(q) == 1 && b[i] == '\n' {
			return "", false
		}
		if b[i] != '\\' {
			out = append(out, b[i])
			continue
		}
		i++
		if i >= len(b) {
			return "", false
		}
		if k := strings.IndexByte("abfnrtv\\'\"", b[i]); k >= 0 {
			out = append(out, "\a\b\f\n\r\t\v\\'\""[k])
			continue
		}
		if b[i] < '0' || b[i] > '7' {
			return "", false
		}
		x := 0
		for k := 0; k < 3 && i < len(b) && b[i] >= '0' && b[i] <= '7'; k++ {
			x = x*8 + int(b[i]-'0')
			i++
		}
		i--
		out = append(out, byte(x))
	}
	return string(out), true
}

// refEscapingOK states when a literal body contains only defined escapes.
func refEscapingOK(body string) bool {
	for i := 0; i < len(body); i++ {
		if body[i] == '\\' {
			if i+1 >= len(body) {
				return true
			}
			if !strings.ContainsRune("\nabfnrtuUvx'\\\"0123456789", rune(body[i+1])) {
				return false
			}
			i++
		}
	}
	return true
}

func checkC07(c *Ctx) {
	c.Rule("random string values (all bytes, quotes, escapes, newlines, Unicode) quoted in both forms and decoded by this library and by go.starlark.net; random literals (prefix, quotes, escapes) decoded by both; literals in every position of files of every type before and after formatting. Distinct non-trivial: distinct values or literals with a byte that needs care.")
	c.Assume("docstrings may be re-indented; carriage returns of the file itself are line endings; octal escapes above \\177 spell the byte (as in Bazel)")
	r := c.R
	special := func(s string) string {
		for i := 0; i < len(s); i++ {
			if b := s[i]; b < 32 || b > 126 || b == '\\' || b == '"' || b == '\'' {
				return s
			}
		}
		return ""
	}
	value := func(v string) {
		for _, triple := range []bool{false, true} {
			c.Case(fmt.Sprintf("value %q triple=%v", v, triple))
			in := fmt.Sprintf("%q", v)
			c.Guard("quote", in, func() {
				lit := build.FormatString(&build.StringExpr{Value: v, TripleQuote: triple})
				got, tr, err := build.Unquote(lit)
				switch {
				case err != nil:
					c.Violate("unquote-own:error", fmt.Sprintf("value %q is quoted as %s, which does not decode: %v", v, lit, err), in)
				case got != v:
					c.Violate("unquote-own:value", fmt.Sprintf("value %q is quoted as %s, which decodes to %q", v, lit, got), in)
				case tr != triple:
					c.Violate("unquote-own:triple", fmt.Sprintf("value %q with TripleQuote=%v is quoted as %s", v, triple, lit), in)
				}
				sv, ok := starLit(lit)
				if !utf8.ValidString(v) {
					sv, ok = ownDecode(lit)
				}
				if !ok {
					c.Violate("quoted-not-a-literal", fmt.Sprintf("value %q is quoted as %s, which Starlark does not read as one string", v, lit), in)
				} else if sv != v {
					c.Violate("quoted-other-value", fmt.Sprintf("value %q is quoted as %s, which Starlark reads as %q", v, lit, sv), in)
				}
				if !triple && strings.Contains(lit, "\n") {
					c.Violate("quoted-newline", fmt.Sprintf("value %q is quoted with a line break: %s", v, lit), in)
				}
				// a tree whose value was changed prints the new value, whatever its old token
				old := randLit(r)
				if ov, ot, err := build.Unquote(old); err == nil && ov != v {
					se := &build.StringExpr{Value: v, TripleQuote: ot, Token: old}
					l2 := build.FormatString(se)
					sv, ok := starLit(l2)
					if !utf8.ValidString(v) {
						sv, ok = ownDecode(l2)
					}
					if !ok || sv != v {
						c.Violate("stale-token", fmt.Sprintf("value %q with the old token %s prints as %s", v, old, l2), in)
					}
				}
				c.Eval(special(v))
				c.Count("values", 1)
			})
		}
	}
	for i := 0; i < 256; i++ {
		value(string([]byte{byte(i)}))
		for _, f := range []string{"%s1", "%s\"", "\\%s", "%s\\", "\"\"%s", "%s%s", "\n%s", "%s\n", "%s7", "%sf"} {
			value(strings.ReplaceAll(f, "%s", string([]byte{byte(i)})))
		}
	}
	for n := 0; n < 6; n++ {
		for m := 0; m < 1<<uint(2*n); m++ { // every sequence of quotes, backslashes, letters and newlines
			b := make([]byte, n)
			for j := range b {
				b[j] = "\"\\a\n"[m>>uint(2*j)&3]
			}
			value(string(b))
		}
	}
	n := c.N(60000, 3000000)
	for i := 0; i < n && !c.Failed(); i++ {
		v := randStr(r, 12)
		value(v)
		if i%(n/3) == 0 {
			c.Sample(fmt.Sprintf("value %q", v))
		}
	}
	literal := func(lit string) {
		c.Case("literal " + lit)
		c.Guard("unquote", lit, func() {
			sv, ok := starLit(lit)
			if !ok {
				c.Count("literals_refused_by_starlark", 1)
				build.Unquote(lit)
				return
			}
			c.Eval(special(lit))
			c.Count("literals", 1)
			got, tr, err := build.Unquote(lit)
			if err != nil {
				c.Violate("decode:error", fmt.Sprintf("Starlark reads %s as %q, Unquote fails: %v", lit, sv, err), lit)
				return
			}
			if got != sv {
				c.Violate("decode:value", fmt.Sprintf("Starlark reads %s as %q, Unquote as %q", lit, sv, got), lit)
			}
			body := strings.TrimPrefix(lit, "r")
			if tr != (strings.HasPrefix(body, `"""`) || strings.HasPrefix(body, `'''`)) {
				c.Violate("decode:triple", fmt.Sprintf("%s: triple=%v", lit, tr), lit)
			}
			if want := refEscapingOK(body[1 : len(body)-1]); want != build.IsCorrectEscaping(body[1:len(body)-1]) {
				c.Violate("escaping", fmt.Sprintf("IsCorrectEscaping(%s) is not %v", lit, want), lit)
			}
			// the literal in a file
			k := FileKind(r.Intn(5))
			src := fmt.Sprintf([]string{"x = %s\n", "foo(name = %s)\n", "x = [%s, y]\n", "x = {%s: 1}\n", "f(%s % 3)\n", "x = y[%s]\n", "(%s).format(1)\n", "x = %s + z\n", "f(*[%s])\n", "load(%s, 'x')\n", "x = 1 if %s else 2\n", "foo(args = [%s])\n", "foo(\n    # do not sort\n    cmd = %s,\n)\n"}[r.Intn(13)], lit)
			if strings.Contains(src, "%!") {
				return
			}
			f, err := parseKind(k, src)
			if err != nil {
				if strings.HasPrefix(src, "load(") {
					return
				}
				c.Violate("file:parse", fmt.Sprintf("%v: %s", err, src), src)
				return
			}
			inTree := false
			build.Walk(f, func(x build.Expr, _ []build.Expr) {
				if s, ok := x.(*build.StringExpr); ok && s.Value == sv {
					inTree = true
				}
			})
			if !inTree {
				c.Violate("file:value", fmt.Sprintf("the parsed tree of %s has no string %q", src, sv), src)
			}
			out := string(build.Format(f))
			vals := func(src string) []string {
				var l []string
				f, err := syntax.Parse("v.star", highEscapes(src), 0)
				if err != nil {
					return []string{"does not parse: " + err.Error()}
				}
				syntax.Walk(f, func(n syntax.Node) bool {
					if x, ok := n.(*syntax.Literal); ok && x.Token == syntax.STRING {
						l = append(l, fmt.Sprintf("%q", x.Value))
					}
					return true
				})
				sort.Strings(l)
				return l
			}
			a, b := vals(src), vals(out)
			if len(a) > 0 && strings.HasPrefix(a[0], "does not") {
				return
			}
			if strings.Join(a, " ") != strings.Join(b, " ") {
				c.Violate("file:format", fmt.Sprintf("formatting %q gives %q: strings %v become %v", src, out, a, b), src)
			}
			c.Count("literals_in_files", 1)
		})
	}
	for _, q := range []string{"'", "\"", "'''", "\"\"\""} {
		for _, pre := range []string{"", "r"} {
			for _, b := range litBits {
				for _, t := range []string{"", "1", "a", "\\\\", " ", "f0"} {
					literal(pre + q + b + t + q)
					literal(pre + q + t + b + q)
				}
			}
		}
	}
	n = c.N(80000, 4000000)
	for i := 0; i < n && !c.Failed(); i++ {
		l := randLit(r)
		literal(l)
		if i%(n/3) == 0 {
			c.Sample("literal " + l)
		}
	}
}

// ---- C08: sortable lists ----

type lItem struct {
	str    bool
	v      string
	before string
	suffix string
}

// refKey is the documented order of strings: plain, ':', '//', '@', then by parts.
func refLess(a, b string) bool {
	phase := func(s string) int {
		switch {
		case strings.HasPrefix(s, ":"):
			return 1
		case strings.HasPrefix(s, "//"):
			return 2
		case strings.HasPrefix(s, "@"):
			return 3
		}
		return 0
	}
	if pa, pb := phase(a), phase(b); pa != pb {
		return pa < pb
	}
	split := func(s string) []string {
		return strings.FieldsFunc(strings.NewReplacer(":", ".\x00", ".", ".\x00").Replace(s)+".\x00", func(r rune) bool { return r == '.' })
	}
	x, y := split(a), split(b) // parts (all but the first prefixed by a zero byte)
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	if len(x) != len(y) {
		return len(x) < len(y)
	}
	return a < b
}

var labRE = regexp.MustCompile(`^((@\w+)?//([^:]*)):([^:]+)$`)

// refShort is the documented short form of a label.
func refShort(s string) string {
	m := labRE.FindStringSubmatch(s)
	if m == nil {
		return s
	}
	last := m[3][strings.LastIndex(m[3], "/")+1:]
	if m[3] == "" {
		if m[2] == "@"+m[4] {
			return m[2]
		}
		return s
	}
	if last == m[4] {
		return m[1]
	}
	return s
}

var sortWords = []string{"a", "b", "a.b", "a:b", "ab", "a-b", "a_b", "a/b", "A", "B", "a.c", "a.cc", "a.h", "b.a", "a.b.c", "z", "10", "9", "a1", "a10", "é", "", "a+", "foo.txt", "foo", "foo/bar.txt", "Foo", ".hidden", "*.cc", "a b"}

func (g *Gen) sortStr() string {
	w := func() string { return sortWords[g.n(len(sortWords))] }
	pk := func() string { return []string{"a", "b", "a/b", "a/c", "ab", "third_party/x", "a.b/c"}[g.n(7)] }
	switch g.n(10) {
	case 0, 1:
		return ":" + w()
	case 2, 3:
		return "//" + pk() + ":" + []string{"a", "b", "c", "lib", "a.b", "x"}[g.n(6)]
	case 4:
		return "//" + pk()
	case 5:
		return "@" + []string{"r", "abc", "z"}[g.n(3)] + "//" + pk() + ":" + []string{"a", "b", "x"}[g.n(3)]
	case 6:
		return []string{"@r", "@z//:z", "@r//:x", "//:x"}[g.n(4)]
	}
	return w()
}

type lModel struct {
	items    []lItem
	headCom  string // a comment before the first element
	tailCom  string
	expected []string
	mode     string
}

func (g *Gen) sortList(comP float64) *lModel {
	m := &lModel{}
	for i := g.n(9); i > 0; i-- {
		it := lItem{str: true, v: g.sortStr()}
		if g.p(0.06) {
			it = lItem{v: []string{"X", "f(1)", "\"z\" + Y"}[g.n(3)]}
		}
		if g.p(comP) {
			it.before = []string{"# group", "# other", "# first"}[g.n(3)]
		}
		if g.p(comP) {
			it.suffix = "# s"
		}
		m.items = append(m.items, it)
		if g.p(0.15) {
			m.items = append(m.items, lItem{str: true, v: it.v})
			if !it.str {
				m.items[len(m.items)-1].str = false
			}
		}
	}
	return m
}

func lit(it lItem) string {
	if !it.str {
		return it.v
	}
	return "\"" + it.v + "\""
}

func (m *lModel) render(ind string, oneLine bool) string {
	var sb strings.Builder
	multi := m.tailCom != "" || !oneLine
	for _, it := range m.items {
		if it.before != "" || it.suffix != "" {
			multi = true
		}
	}
	if len(m.items) == 0 {
		return "[]"
	}
	sb.WriteString("[")
	for i, it := range m.items {
		if multi {
			sb.WriteString("\n")
			if it.before != "" {
				sb.WriteString(ind + "    " + it.before + "\n")
			}
			sb.WriteString(ind + "    ")
		} else if i > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString(lit(it))
		if multi || i < len(m.items)-1 {
			sb.WriteString(",")
		}
		if it.suffix != "" {
			sb.WriteString("  " + it.suffix)
		}
	}
	if multi {
		sb.WriteString("\n")
		if m.tailCom != "" {
			sb.WriteString(ind + "    " + m.tailCom + "\n")
		}
		sb.WriteString(ind)
	}
	sb.WriteString("]")
	return sb.String()
}

// expect computes the elements in their order after formatting.
func (m *lModel) expect(mode string, label bool) []string {
	its := append([]lItem{}, m.items...)
	if label {
		for i := range its {
			if its[i].str {
				its[i].v = refShort(its[i].v)
			}
		}
	}
	dedup := func() (out []string) {
		seen := map[string]bool{}
		for _, it := range its {
			if it.str && seen[it.v] {
				continue
			}
			if it.str {
				seen[it.v] = true
			}
			out = append(out, lit(it))
		}
		return
	}
	firstHas := func(s string) bool {
		return len(its) > 0 && strings.Contains(strings.ToLower(its[0].before+its[0].suffix), s)
	}
	if mode == "attr" || mode == "forced" {
		line := m.tailCom != ""
		for _, it := range its {
			line = line || it.before != ""
		}
		switch {
		case len(its) < 2:
			mode = "keep"
		case firstHas("do not sort"):
			mode = "dedup"
		case firstHas("keep sorted"):
			mode = "sort"
		case line:
			mode = "dedup"
		default:
			mode = "sort"
		}
	} else if mode == "keep" && len(its) > 1 && firstHas("keep sorted") {
		mode = "sort"
		if firstHas("do not sort") {
			mode = "dedup"
		}
	}
	m.mode = mode
	switch mode {
	case "dedup":
		return dedup()
	case "keep":
		var out []string
		for _, it := range its {
			out = append(out, lit(it))
		}
		return out
	}
	var out []string
	var run []string
	flush := func() {
		sort.SliceStable(run, func(i, j int) bool { return refLess(run[i], run[j]) })
		for i, s := range run {
			if i == 0 || s != run[i-1] {
				out = append(out, "\""+s+"\"")
			}
		}
		run = nil
	}
	for _, it := range its {
		if !it.str {
			flush()
			out = append(out, it.v)
			continue
		}
		if it.before != "" {
			flush()
		}
		run = append(run, it.v)
	}
	flush()
	return out
}

var (
	sortAttrs   = []string{"deps", "srcs", "hdrs", "data", "exports", "runtime_deps", "resources", "tags", "visibility", "tools"}
	labelAttrs  = map[string]bool{"deps": true, "data": true, "exports": true, "runtime_deps": true, "srcs": true, "hdrs": false, "visibility": true, "tools": true, "resources": true}
	plainAttrs  = []string{"args", "copts", "linkopts", "defines", "cmd", "toolchains", "jvm_flags", "my_list"}
	deniedAttrs = []string{"genrule.outs", "genrule.srcs", "cc_embed_data.srcs"}
)

type lPlace struct {
	m        *lModel
	expected []string
}

// sortFile generates a file with lists and what they have to become.
func (g *Gen) sortFile(nStmts int) (string, []lPlace) {
	var sb strings.Builder
	var places []lPlace
	bl := g.kind.buildLike()
	add := func(m *lModel, mode string, label bool) string {
		places = append(places, lPlace{m, m.expect(mode, label)})
		return m.render("        ", g.p(0.5))
	}
	for s := 0; s < nStmts; s++ {
		comP := 0.0
		if g.p(0.3) {
			comP = 0.3
		}
		mark := func(m *lModel) {
			if len(m.items) == 0 {
				return
			}
			switch g.n(12) {
			case 0:
				m.items[0].before = []string{"# do not sort", "# Do Not Sort: order matters"}[g.n(2)]
			case 1:
				m.items[0].before = []string{"# keep sorted", "# KEEP SORTED please"}[g.n(2)]
			case 2:
				m.tailCom = "# tail"
			}
		}
		switch g.n(8) {
		case 0: // keep sorted assignment, any file type
			m := g.sortList(0)
			mark := g.p(0.5)
			mode := "keep"
			if mark {
				sb.WriteString("# keep sorted\n")
				mode = "forced"
			}
			sb.WriteString(fmt.Sprintf("V%d = %s\n\n", s, add(m, mode, false)))
		case 1: // dictionary value
			m := g.sortList(0)
			sb.WriteString(fmt.Sprintf("D%d = {\n", s))
			mode := "keep"
			if g.p(0.5) {
				sb.WriteString("    # keep sorted\n")
				mode = "forced"
			}
			sb.WriteString(fmt.Sprintf("    \"k\": %s,\n}\n\n", add(m, mode, false)))
		case 2: // marked by its first element only
			m := g.sortList(comP)
			mark(m)
			sb.WriteString(fmt.Sprintf("L%d = f(%s)\n\n", s, add(m, "keep", false)))
		default:
			rule := []string{"cc_library", "java_library", "my_rule", "native.cc_test", "sh_test"}[g.n(5)]
			attr := sortAttrs[g.n(len(sortAttrs))]
			mode := "attr"
			if g.p(0.2) {
				attr, mode = plainAttrs[g.n(len(plainAttrs))], "keep"
			} else if g.p(0.15) {
				d := strings.Split(deniedAttrs[g.n(len(deniedAttrs))], ".")
				rule, attr, mode = d[0], d[1], "keep"
			}
			label := bl && labelAttrs[attr]
			if !bl {
				mode = "keep"
			}
			pre, attrPre := "", ""
			switch g.n(12) {
			case 0, 4:
				pre = "# buildifier: leave-alone\n"
				mode, label = "keep", false
			case 1:
				attrPre = "    # Do not sort\n"
				if mode == "attr" {
					mode = "dedupattr"
				}
			case 2:
				attrPre = "    # keep sorted\n"
				mode = "forced"
			case 3:
				attrPre = "    # buildifier: leave-alone\n"
				mode, label = "keep", false
			}
			list := func() string {
				m := g.sortList(comP)
				if mode == "forced" {
					for i := range m.items {
						m.items[i].before = ""
					}
				} else {
					mark(m)
					if mode == "dedupattr" && len(m.items) > 0 {
						m.items[0].before = ""
					}
				}
				md := mode
				if md == "dedupattr" {
					// only a list that is the whole value, see the caller
					md = "dedup"
				}
				return add(m, md, label)
			}
			val := ""
			shape := g.n(6)
			if mode == "dedupattr" {
				shape = 0
			}
			if pre != "" || strings.Contains(attrPre, "leave-alone") {
				// only the attribute rules are switched off
			}
			switch shape {
			case 1:
				val = list() + " + " + list()
			case 2:
				// labels inside select are shortened as well
				val = fmt.Sprintf("select({\n        \":c1\": %s,\n        \"//conditions:default\": %s,\n    })", list(), list())
			case 3:
				val = list() + fmt.Sprintf(" + select({\n        \":c1\": %s,\n    }) + X", list())
			case 4:
				save, saveL := mode, label
				if mode != "keep" {
					mode = "keep"
				}
				label = false
				val = "other(" + list() + ")"
				mode, label = save, saveL
			default:
				val = list()
			}
			name := strings.ReplaceAll(rule, ".", "_")
			// the rule may be part of a larger statement; a mark on that applies to it
			stmt := fmt.Sprintf("%s(\n    name = \"%s%d\",\n%s    %s = %s,\n)", rule, name, s, attrPre, attr, val)
			switch g.n(12) {
			case 0, 1:
				stmt = fmt.Sprintf("R%d = %s", s, stmt)
			case 2:
				stmt = fmt.Sprintf("[\n    %s\n    for q in Q\n]", stmt)
			case 3:
				stmt = fmt.Sprintf("outer(\n    %s,\n)", stmt)
			case 4:
				stmt = fmt.Sprintf("outer(\n    inner = %s,\n)", stmt)
			}
			sb.WriteString(pre + stmt + "\n\n")
		}
	}
	return sb.String(), places
}

// starLists returns the elements of every list display, in source order, of the
// reference parser's tree.
func starLists(src string) (out [][]string, err error) {
	f, err := syntax.Parse("l.star", highEscapes(src), 0)
	if err != nil {
		return nil, err
	}
	syntax.Walk(f, func(n syntax.Node) bool {
		if l, ok := n.(*syntax.ListExpr); ok {
			el := []string{}
			for _, x := range l.List {
				switch v := x.(type) {
				case *syntax.Literal:
					el = append(el, fmt.Sprintf("\"%s\"", v.Value))
				case *syntax.Ident:
					el = append(el, v.Name)
				case *syntax.CallExpr:
					el = append(el, "f(1)")
				case *syntax.BinaryExpr:
					el = append(el, "\"z\" + Y")
				default:
					el = append(el, "?")
				}
			}
			out = append(out, el)
		}
		return true
	})
	return out, nil
}

func checkC08(c *Ctx) {
	c.Rule("files of every type with lists under sortable, other and denied attributes, in concatenations, select, other calls, assignments and dictionaries, with and without the opt-in and opt-out comments; the elements after formatting are read by go.starlark.net and compared with a reference model. Distinct non-trivial: distinct files with a list that had to be reordered or deduplicated.")
	c.Assume("sortable attributes are sampled from the documented tables: " + strings.Join(sortAttrs, ", "))
	one := func(i int) {
		g := c.genCase(i, 8)
		src, places := g.sortFile(1 + g.n(4))
		c.Case(src)
		c.Guard("format", src, func() {
			in, err := starLists(src)
			if err != nil || len(in) != len(places) {
				c.Violate("harness", fmt.Sprintf("generated file: %v, %d lists for %d", err, len(in), len(places)), src)
				return
			}
			out, _, err := formatKind(g.kind, src)
			if err != nil {
				c.Violate("parse", err.Error(), src)
				return
			}
			got, err := starLists(out)
			if err != nil {
				c.Violate("output", err.Error(), src)
				return
			}
			if len(got) != len(places) {
				c.Violate("lists-lost", fmt.Sprintf("%d lists became %d", len(places), len(got)), src)
				return
			}
			changed := false
			for j, p := range places {
				if strings.Join(p.expected, ",") != strings.Join(in[j], ",") {
					changed = true
				}
				c.Count("lists_"+p.m.mode, 1)
				if strings.Join(p.expected, ",") != strings.Join(got[j], ",") {
					c.Violate(fmt.Sprintf("list:%s", p.m.mode), fmt.Sprintf("list %d (%s, %s): %v\nhas to become %v\nbut became    %v\noutput:\n%s", j, p.m.mode, kindFile[g.kind], in[j], p.expected, got[j], out), src)
				}
			}
			key := ""
			if changed {
				key = src
			}
			c.Eval(key)
		})
		if i < 3 {
			c.Sample(src)
		}
	}
	n := c.N(20000, 600000)
	for i := 0; i < n && !c.Failed(); i++ {
		one(i)
	}
	// use_repo in module files
	for i := 0; i < n/5 && !c.Failed(); i++ {
		g := c.genCase(i, 88)
		var its []lItem
		for j := g.n(7); j > 0; j-- {
			its = append(its, lItem{str: true, v: []string{"a", "b", "a.b", "rules_x", "rules_y", "Z", "z", "a_b", "maven", "r1", "r10", "r2"}[g.n(12)]})
		}
		m := &lModel{items: its}
		com := ""
		mode := "sort"
		if g.p(0.2) {
			com, mode = "# do not sort\n", "dedup"
		}
		if len(its) < 2 {
			mode = "keep"
		}
		want := m.expect(mode, false)
		var args []string
		for _, it := range its {
			args = append(args, lit(it))
		}
		src := com + "use_repo(ext, " + strings.Join(append(args, "q = \"w\""), ", ") + ")\n"
		if len(its) == 1 {
			want = args
		}
		c.Case(src)
		c.Guard("format", src, func() {
			out, _, err := formatKind(KModule, src)
			if err != nil {
				c.Violate("parse", err.Error(), src)
				return
			}
			flat := strings.Join(strings.Fields(strings.ReplaceAll(out[strings.Index(out, "use_repo("):], "\n", " ")), " ")
			flat = strings.NewReplacer("( ", "(", ", )", ")").Replace(flat)
			exp := "use_repo(ext, " + strings.Join(append(append([]string{}, want...), "q = \"w\""), ", ") + ")"
			c.Count("use_repo", 1)
			c.Eval(src)
			if flat != exp {
				c.Violate("use_repo:"+mode, fmt.Sprintf("expected %s\ngot %s", exp, flat), src)
			}
		})
	}
}

// ---- C09: load statements ----

type ldPair struct{ from, to string }
type ldStmt struct {
	load   bool
	mod    string
	pairs  []ldPair
	text   string // other statements
	kind   string // "stmt", "skip" (docstring, comment, workspace)
	noSame bool
}

// refPathLess: '/' is the smallest symbol, letters compare without case first.
func refPathCmp(a, b string) int {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := 0; i < len(x) && i < len(y); i++ {
		if d := strings.Compare(strings.ToLower(x[i]), strings.ToLower(y[i])); d != 0 {
			return d
		}
	}
	if len(x) != len(y) {
		if len(x) < len(y) {
			return -1
		}
		return 1
	}
	return strings.Compare(a, b)
}

func refLoadLess(a, b string) bool {
	type key struct {
		at       int
		repo     string
		rel      int
		pkg, tgt string
	}
	mk := func(s string) key {
		k := key{at: 1}
		if strings.HasPrefix(s, "@") {
			k.at = 0
		}
		if i := strings.Index(s, "//"); i >= 0 {
			k.repo = strings.TrimLeft(s[:i], "@")
			s = s[i+2:]
			if j := strings.Index(s, ":"); j >= 0 {
				k.pkg, k.tgt = s[:j], s[j+1:]
			} else {
				k.pkg, k.tgt = s, s[strings.LastIndex(s, "/")+1:]
			}
			return k
		}
		k.rel = 1
		k.tgt = strings.TrimPrefix(s, ":")
		return k
	}
	x, y := mk(a), mk(b)
	if x.at != y.at {
		return x.at < y.at
	}
	if x.repo != y.repo {
		return x.repo < y.repo
	}
	if x.rel != y.rel {
		return x.rel < y.rel
	}
	if d := refPathCmp(x.pkg, y.pkg); d != 0 {
		return d < 0
	}
	return refPathCmp(x.tgt, y.tgt) < 0
}

func refLoads(in []ldStmt, kind FileKind, top, same, order bool) []ldStmt {
	l := append([]ldStmt{}, in...)
	if top && kind != KWorkspace {
		first := -1
		for i, s := range l {
			if !s.load && s.kind == "stmt" {
				first = i
				break
			}
		}
		if first >= 0 {
			var pre, mid, post []ldStmt
			pre = append(pre, l[:first]...)
			for _, s := range l[first:] {
				if s.load {
					mid = append(mid, s)
				} else {
					post = append(post, s)
				}
			}
			l = append(append(pre, mid...), post...)
		}
	}
	_ = same
	byMod := map[string]int{}
	var m []ldStmt
	for _, s := range l {
		if s.load {
			s.pairs = append([]ldPair{}, s.pairs...)
			if j, ok := byMod[s.mod]; ok {
				if !m[j].noSame && !s.noSame {
					m[j].pairs = append(m[j].pairs, s.pairs...)
					continue
				}
			} else {
				byMod[s.mod] = len(m)
			}
		}
		m = append(m, s)
	}
	if order {
		for i := 0; i < len(m); {
			if !m[i].load {
				i++
				continue
			}
			j := i
			for j < len(m) && m[j].load {
				j++
			}
			run := m[i:j]
			sort.SliceStable(run, func(a, b int) bool { return refLoadLess(run[a].mod, run[b].mod) })
			i = j
		}
	}
	for i := range m {
		p := m[i].pairs
		sort.SliceStable(p, func(a, b int) bool {
			ea, eb := p[a].from == p[a].to, p[b].from == p[b].to
			if ea != eb {
				return ea
			}
			return p[a].to < p[b].to
		})
		var q []ldPair
		for j, x := range p {
			if j > 0 && x == p[j-1] {
				continue
			}
			q = append(q, x)
		}
		m[i].pairs = q
	}
	return m
}

func showLoads(l []ldStmt) []string {
	var out []string
	for _, s := range l {
		if s.load {
			t := "load " + s.mod
			for _, p := range s.pairs {
				t += " " + p.to + "=" + p.from
			}
			out = append(out, t)
		} else if !strings.HasPrefix(s.text, "#") {
			out = append(out, "stmt "+s.text)
		}
	}
	return out
}

func starLoadsOf(src string) ([]string, error) {
	f, err := syntax.Parse("l.star", src, 0)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, s := range f.Stmts {
		if l, ok := s.(*syntax.LoadStmt); ok {
			t := "load " + l.ModuleName()
			for i := range l.From {
				t += " " + l.To[i].Name + "=" + l.From[i].Name
			}
			out = append(out, t)
			continue
		}
		a, b := s.Span()
		lines := strings.Split(src, "\n")
		t := ""
		if a.Line == b.Line {
			t = lines[a.Line-1][a.Col-1 : b.Col-1]
		}
		out = append(out, "stmt "+t)
	}
	return out, nil
}

var ldMods = []string{"//a:a.bzl", "//a:b.bzl", "//A:b.bzl", "//a/b:c.bzl", "//A/b:c.bzl", "//a/B:a.bzl", "//a-b:c.bzl", "//:x.bzl", ":x.bzl", "x.bzl", ":a/x.bzl", ":A.bzl", "@r//:d.bzl", "@r//x:d.bzl", "@a//x:d.bzl", "@a//x/y:d.bzl", "@@r//x:e.bzl", "@R//x:d.bzl", "//a:B.bzl", "//a:sub/z.bzl", "//a:sub", "@rules_cc//cc:defs.bzl", "//b"}

func checkC09(c *Ctx) {
	c.Rule("files of every type with up to 8 load statements between docstrings, comments, workspace() and other statements, with the three opt-out comments; the statement sequence after formatting, read by go.starlark.net, is compared with a reference model (bindings, order, merges, position). Distinct non-trivial: distinct files whose loads had to change.")
	c.Assume("local names bound by loads are unique except for exact duplicates")
	n := c.N(25000, 800000)
	for i := 0; i < n && !c.Failed(); i++ {
		g := c.genCase(i, 9)
		var l []ldStmt
		top, order := true, true
		uid := 0
		noTopAt, noOrderAt := -1, -1
		if g.p(0.12) {
			noTopAt = g.n(9)
		}
		if g.p(0.12) {
			noOrderAt = g.n(9)
		}
		if g.p(0.3) {
			l = append(l, ldStmt{text: "\"doc\"", kind: "skip"})
		}
		var all []ldPair
		mods := map[string][]ldPair{}
		cnt := 1 + g.n(9)
		pool := ldMods
		if g.p(0.5) {
			pool = append([]string{}, ldMods[g.n(10):][:4]...)
		}
		for j := 0; j < cnt; j++ {
			if g.p(0.6) {
				s := ldStmt{load: true, mod: pool[g.n(len(pool))], noSame: g.p(0.06)}
				for k := 1 + g.n(3); k > 0; k-- {
					if e := mods[s.mod]; len(e) > 0 && g.p(0.1) && !s.noSame { // the same binding again
						s.pairs = append(s.pairs, e[g.n(len(e))])
						continue
					}
					if e := mods[s.mod]; len(e) > 0 && g.p(0.12) { // the same symbol by another name
						uid++
						p := ldPair{from: e[g.n(len(e))].from}
						p.to = p.from + fmt.Sprintf("q%d", uid)
						s.pairs = append(s.pairs, p)
						all = append(all, p)
						mods[s.mod] = append(mods[s.mod], p)
						continue
					}
					uid++
					p := ldPair{from: []string{"s", "b", "Z", "_", "y"}[g.n(5)] + fmt.Sprint(uid*7919%97)}
					p.to = p.from + fmt.Sprintf("q%d", uid)
					if g.p(0.6) {
						p = ldPair{p.to, p.to}
					}
					if strings.HasPrefix(p.from, "_") {
						p.from = "p" + p.from
						if g.p(0.6) {
							p.to = p.from
						}
						p.from, p.to = p.from+fmt.Sprint(uid), p.from+fmt.Sprint(uid)
					}
					s.pairs = append(s.pairs, p)
					all = append(all, p)
					mods[s.mod] = append(mods[s.mod], p)
				}
				l = append(l, s)
				continue
			}
			switch g.n(6) {
			case 0:
				l = append(l, ldStmt{text: fmt.Sprintf("# comment %d", j), kind: "skip"})
			case 1:
				l = append(l, ldStmt{text: fmt.Sprintf("workspace(name = \"w%d\")", j), kind: "skip"})
			case 2:
				l = append(l, ldStmt{text: fmt.Sprintf("\"text %d\"", j), kind: "skip"})
			default:
				l = append(l, ldStmt{text: []string{fmt.Sprintf("x%d = %d", j, j), fmt.Sprintf("foo(name = \"n%d\")", j), fmt.Sprintf("x.y(%d)", j)}[g.n(3)], kind: "stmt"})
			}
		}
		var sb strings.Builder
		for j, s := range l {
			if s.text != "" && s.text[0] == '#' && sb.Len() > 0 {
				sb.WriteString("\n")
			}
			if j == noTopAt {
				sb.WriteString("# buildifier: disable=load-on-top\n")
				top = false
				if s.text != "" && s.text[0] == '#' {
					sb.WriteString(s.text + "\n\n")
					continue
				}
			}
			if j == noOrderAt {
				sb.WriteString("# Buildifier: disable=out-of-order-load\n")
				order = false
			}
			if s.noSame {
				sb.WriteString("# buildifier: disable=same-origin-load\n")
			}
			if !s.load {
				sb.WriteString(s.text + "\n")
				if s.kind == "skip" || g.p(0.4) {
					sb.WriteString("\n")
				}
				continue
			}
			sb.WriteString("load(\"" + s.mod + "\"")
			for _, p := range s.pairs {
				if p.from == p.to && g.p(0.8) {
					sb.WriteString(", \"" + p.from + "\"")
				} else {
					sb.WriteString(", " + p.to + " = \"" + p.from + "\"")
				}
			}
			sb.WriteString(")\n")
			if g.p(0.3) {
				sb.WriteString("\n")
			}
		}
		src := sb.String()
		// positional load arguments must precede the named ones for Starlark's parser too
		if _, err := syntax.Parse("l.star", src, 0); err != nil {
			c.Count("generated_invalid", 1)
			continue
		}
		c.Case(src)
		c.Guard("format", src, func() {
			out, _, err := formatKind(g.kind, src)
			if err != nil {
				c.Violate("parse", err.Error(), src)
				return
			}
			got, err := starLoadsOf(out)
			if err != nil {
				c.Violate("output", err.Error(), src)
				return
			}
			want := showLoads(refLoads(l, g.kind, top, true, order))
			key := ""
			if strings.Join(want, "\n") != strings.Join(showLoads(l), "\n") {
				key = src
			}
			c.Eval(key)
			c.Count("loads", len(all))
			if !top {
				c.Count("opt_out_top", 1)
			}
			if !order {
				c.Count("opt_out_order", 1)
			}
			if strings.Join(want, "\n") == strings.Join(got, "\n") {
				return
			}
			// classify
			bind := func(l []string) string {
				m := map[string]bool{}
				for _, s := range l {
					f := strings.Fields(s)
					if f[0] == "load" {
						for _, p := range f[2:] {
							m[f[1]+" "+p] = true
						}
					}
				}
				var k []string
				for x := range m {
					k = append(k, x)
				}
				sort.Strings(k)
				return strings.Join(k, "\n")
			}
			stmts := func(l []string) string {
				var k []string
				for _, s := range l {
					if strings.HasPrefix(s, "stmt ") {
						k = append(k, s)
					}
				}
				return strings.Join(k, "\n")
			}
			cls := "order"
			if bind(want) != bind(got) {
				cls = "bindings"
			} else if stmts(want) != stmts(got) {
				cls = "statements"
			}
			c.Violate("loads:"+cls, fmt.Sprintf("%s: expected\n%s\ngot\n%s", kindFile[g.kind], strings.Join(want, "\n"), strings.Join(got, "\n")), src)
		})
		if i < 3 {
			c.Sample(src)
		}
	}
	_ = utf8.RuneError
}
