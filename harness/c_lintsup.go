package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
)

func init() { checks["C20"] = checkSuppress }

// supStmt is a statement with its lines.
type supStmt struct {
	first, last int
	header      map[int]bool // lines of the header of a compound statement
	depth       int
	node        build.Expr
	compound    bool
}

// supStmts lists all statements, outer ones first.
func supStmts(l []build.Expr, depth int) (out []supStmt) {
	for _, s := range l {
		if s == nil {
			continue
		}
		if _, ok := s.(*build.CommentBlock); ok {
			continue
		}
		a, b := s.Span()
		st := supStmt{first: a.Line, last: b.Line, depth: depth, node: s}
		var subs []supStmt
		switch x := s.(type) {
		case *build.DefStmt:
			st.compound = true
			subs = supStmts(x.Body, depth+1)
		case *build.ForStmt:
			st.compound = true
			subs = supStmts(x.Body, depth+1)
		case *build.IfStmt:
			st.compound = true
			subs = append(supStmts(x.True, depth+1), supStmts(x.False, depth+1)...)
		}
		for _, y := range subs {
			if y.last > st.last {
				st.last = y.last
			}
		}
		out = append(out, st)
		out = append(out, subs...)
	}
	return
}

var numRe = regexp.MustCompile(`\d+`)

type supFinding struct {
	line int
	cat  string
	text string
}

func supFindings(f *build.File, cats []string, ws lintWS) (out []supFinding) {
	for _, x := range warn.FileWarnings(f, cats, nil, warn.ModeWarn, ws.reader()) {
		out = append(out, supFinding{x.Start.Line, x.Category, fmt.Sprintf("%s %v %s", x.Category, x.AutoFixable, numRe.ReplaceAllString(x.Message, "#"))})
	}
	return
}

func strip(f *build.File) string { return bFile(f).String() }

// badSpellings do not disable cat.
func badSpellings(r *rand.Rand, cat string) string {
	other := lintCats[r.Intn(len(lintCats))]
	for other == cat {
		other = lintCats[r.Intn(len(lintCats))]
	}
	return pick(r, "# buildifier: disable="+other, "# buildifier: disable="+other, "# buildifier: disable="+cat+"s", "# buildifier: disable="+cat+"-x", "# buildifier: disable="+cat+"_x", "# buildifier: disable=x-"+cat, "# buildifier: disable="+cat[:len(cat)-1], "# buildifier: enable="+cat, "# disable="+cat, "# buildifier: disable: "+cat, "# buildifier: "+cat, "# "+cat, "# buildifier: disable", "# buildifier: disable=", "# buildifier disable="+cat, "# builder: disable="+cat, "# buildozer: disable=no-"+cat)
}

type supPlace struct {
	kind string
	// text with the comment
	lines []string
	// line (1-based) the comment was inserted at as a line of its own, 0 for a comment at the end of a line
	inserted int
	must     map[int]bool // lines of the original text where findings have to be hidden
	may      map[int]bool // and where they may be
	stmt     *supStmt     // the statement the comment stands before
}

func lineSet(a, b int) map[int]bool {
	m := map[int]bool{}
	for i := a; i <= b; i++ {
		m[i] = true
	}
	return m
}

// place puts a comment somewhere into the formatted text.
func place(r *rand.Rand, lines []string, sts []supStmt, comment string) *supPlace {
	if len(sts) == 0 || len(lines) == 0 {
		return nil
	}
	ins := func(at int, s string) []string {
		out := append([]string{}, lines[:at-1]...)
		out = append(out, s)
		return append(out, lines[at-1:]...)
	}
	indent := func(l int) string {
		return lines[l-1][:len(lines[l-1])-len(strings.TrimLeft(lines[l-1], " "))]
	}
	switch r.Intn(6) {
	case 0, 1: // before a statement
		s := sts[r.Intn(len(sts))]
		if s.first < 1 || s.first > len(lines) || strings.HasPrefix(strings.TrimSpace(lines[s.first-1]), "elif") {
			return nil
		}
		return &supPlace{"before", ins(s.first, indent(s.first)+comment), s.first, lineSet(s.first, s.last), lineSet(s.first, s.last), &s}
	case 2, 3: // at the end of a line
		l := 1 + r.Intn(len(lines))
		if strings.TrimSpace(lines[l-1]) == "" || strings.Contains(lines[l-1], "#") {
			return nil
		}
		var in *supStmt
		for i := range sts {
			if sts[i].first <= l && l <= sts[i].last {
				in = &sts[i]
			}
		}
		if in == nil {
			return nil
		}
		out := append([]string{}, lines...)
		out[l-1] += "  " + comment
		may := lineSet(l, l)
		if !in.compound {
			may = lineSet(in.first, in.last)
		} else {
			// in the header of a compound statement, which may have several lines
			end := in.last
			for _, y := range sts {
				if y.depth > in.depth && y.first > in.first && y.first <= in.last && y.first-1 < end && y.first > l {
					end = y.first - 1
				}
			}
			from := in.first
			for _, y := range sts {
				if y.depth > in.depth && y.first > in.first && y.last < l && y.last+1 > from {
					from = y.last + 1
				}
			}
			may = lineSet(from, end)
			if _, ok := in.node.(*build.DefStmt); ok && l < end+1 && strings.HasSuffix(lines[l-1], ":") {
				// or on the definition as a whole
				may = lineSet(from, in.last)
			}
		}
		if strings.TrimSpace(lines[l-1]) == "):" {
			// such a comment is documented to move into the block
			return &supPlace{"suffix", out, 0, nil, lineSet(in.first, in.last), nil}
		}
		return &supPlace{"suffix", out, 0, lineSet(l, l), may, nil}
	case 4: // a block of its own
		var tops []supStmt
		for _, s := range sts {
			if s.depth == 0 {
				tops = append(tops, s)
			}
		}
		s := tops[r.Intn(len(tops))]
		if s.first < 1 || s.first > len(lines) || s.first > 1 && strings.TrimSpace(lines[s.first-2]) != "" {
			return nil
		}
		return &supPlace{"block", ins(s.first, comment+"\n"), s.first, nil, nil, nil}
	}
	// before a line inside a statement
	l := 1 + r.Intn(len(lines))
	for _, s := range sts {
		if !s.compound && s.first < l && l <= s.last {
			t := strings.TrimSpace(lines[l-1])
			if t == "" || strings.HasPrefix(t, "#") {
				return nil
			}
			must := lineSet(l, l)
			if strings.ContainsAny(t[:1], ")]}") || strings.HasPrefix(t, "for ") || strings.HasPrefix(t, "if ") || strings.HasPrefix(t, "else") {
				must = nil
			}
			return &supPlace{"inside", ins(l, indent(l)+comment), l, must, lineSet(s.first, s.last), nil}
		}
	}
	return nil
}

func (p *supPlace) shift(line int) int {
	if p.inserted > 0 && line >= p.inserted {
		if p.kind == "block" {
			return line + 2
		}
		return line + 1
	}
	return line
}

func supCheck(k FileKind, base []supFinding, p *supPlace, cat string, good bool, cats []string, ws lintWS) (sig, detail string) {
	f := lintParse(k, strings.Join(p.lines, "\n"))
	now := map[string]int{}
	for _, x := range supFindings(f, cats, ws) {
		now[fmt.Sprintf("%d %s", x.line, x.text)]++
	}
	var missing []string
	for _, x := range base {
		key := fmt.Sprintf("%d %s", p.shift(x.line), x.text)
		there := now[key] > 0
		if there {
			now[key]--
		}
		hide := good && x.cat == cat
		switch {
		case there && hide && p.must[x.line]:
			return "not-hidden:" + p.kind, fmt.Sprintf("finding on line %d is still reported: %s", x.line, x.text)
		case !there && !(hide && p.may[x.line]):
			missing = append(missing, fmt.Sprintf("line %d: %s", x.line, x.text))
		}
	}
	if len(missing) > 0 {
		s := "hidden:" + p.kind
		if !good {
			s = "hidden-by-other:" + p.kind
		}
		return s, "hidden outside the scope of the comment: " + strings.Join(missing, " | ")
	}
	var extra []string
	for x, n := range now {
		if n > 0 {
			extra = append(extra, x)
		}
	}
	if len(extra) > 0 {
		sort.Strings(extra)
		return "extra:" + p.kind, "new findings: " + strings.Join(extra, " | ")
	}
	return
}

func checkSuppress(c *Ctx) {
	c.Rule("with one more comment the findings are exactly those before, less those of the named category in the scope of the comment; comments of other spellings and categories hide nothing; suppressed statements are not fixed")
	n := c.N(2500, 40000)
	c.parallel(n, 8, 20, func(i int, r *rand.Rand) {
		k := lintKinds[r.Intn(len(lintKinds))]
		g := newLintGen(r, k)
		g.com = false
		f0, err := parseKind(k, g.file())
		if err != nil {
			return
		}
		text := strings.TrimRight(string(build.Format(f0)), "\n")
		if strings.Contains(text, "disable=") || strings.Contains(strings.ToLower(text), "skylark") {
			return
		}
		f := lintParse(k, text)
		if f == nil {
			return
		}
		c.Case(text)
		ws := lintWorkspaces[r.Intn(len(lintWorkspaces))].files
		cats := lintCats
		base := supFindings(f, cats, ws)
		lines := strings.Split(text, "\n")
		sts := supStmts(f.Stmt, 0)
		ast := strip(f)
		for try := 0; try < 12; try++ {
			cat := lintCats[r.Intn(len(lintCats))]
			var at *supFinding
			if len(base) > 0 && r.Intn(5) > 0 {
				at = &base[r.Intn(len(base))]
				cat = at.cat
			}
			good := r.Intn(3) > 0
			comment := "# " + pick(r, "", "", "x ", "TODO: ") + pick(r, "buildifier", "buildifier", "buildozer") + ": disable=" + cat + pick(r, "", "", " because", ", x", " (why)")
			if !good {
				comment = badSpellings(r, cat)
			}
			p := place(r, lines, sts, comment)
			if p == nil {
				continue
			}
			t2 := strings.Join(p.lines, "\n")
			h := lintParse(k, t2)
			if h == nil || strip(h) != ast || strings.Contains(strings.ToLower(comment), "skylark") {
				continue // the place is inside a string, say
			}
			c.Eval(t2)
			c.Count("placed_"+p.kind, 1)
			report := func(sig, detail string) {
				c.Violate(sig, kindFile[k]+": "+comment+": "+detail, t2)
			}
			other := cat
			if !good {
				// the category named, if any, may be hidden
				other = ""
				for _, y := range lintCats {
					if comment == "# buildifier: disable="+y || comment == "# buildozer: disable="+y {
						other = y
					}
				}
			}
			if sig, detail := supCheck(k, base, p, other, other != "", cats, ws); sig != "" {
				if !good {
					sig = "bad-" + sig
				}
				report(sig, detail)
				continue
			}
			if other != "" {
				for _, x := range base {
					if x.cat == other && p.must[x.line] {
						c.Count("hidden", 1)
					}
				}
			}
			if good && p.kind == "before" && p.stmt.depth == 0 {
				// a suppressed statement is left alone by the fix
				q := lintParse(k, t2)
				warn.FixWarnings(q, []string{cat}, false, ws.reader())
				found := false
				for _, s := range q.Stmt {
					if s == nil || len(s.Comment().Before) == 0 {
						continue
					}
					if cs := s.Comment().Before; cs[len(cs)-1].Token == comment {
						found = true
						was, is := bStmts([]build.Expr{p.stmt.node}), bStmts([]build.Expr{s})
						if fmt.Sprint(was) != fmt.Sprint(is) {
							report("fixed-suppressed", fmt.Sprintf("the suppressed statement was changed by the fix: %v\nnow %v", was, is))
						}
					}
				}
				if !found {
					report("fix-lost-comment", "the statement with the comment is gone after the fix:\n"+string(build.Format(q)))
				}
				c.Count("fix_suppressed", 1)
			}
		}
	})
}
