package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
)

func init() {
	checks["C23"] = func(c *Ctx) { checkBz(c, false) }
	checks["C24"] = func(c *Ctx) { checkBz(c, true) }
}

// bzCmd makes one random command; r is the rule it is meant for.
func (g *bzGen) cmd(m *bzModel, s *bzStmt) []string {
	var have []string
	var n *N
	if s != nil {
		n = s.n
		for _, a := range attrNames(n) {
			if a != "name" {
				have = append(have, a)
			}
		}
	}
	kindOf := func(a string) string {
		switch {
		case bzIsList(a) || a == "my_list":
			return "list"
		case bzIsString(a) || a == "licence_text":
			return "str"
		}
		for _, d := range bzDictAttrs {
			if a == d {
				return "dict"
			}
		}
		return "raw"
	}
	attr := func(kinds ...string) string {
		var l []string
		for _, a := range have {
			for _, k := range kinds {
				if kindOf(a) == k {
					l = append(l, a)
				}
			}
		}
		if len(l) > 0 && g.p(0.8) {
			return l[g.r.Intn(len(l))]
		}
		switch k := kinds[g.r.Intn(len(kinds))]; k {
		case "list":
			return bzListAttrs[g.r.Intn(len(bzListAttrs))]
		case "str":
			return bzStrAttrs[g.r.Intn(len(bzStrAttrs))]
		case "dict":
			return bzDictAttrs[g.r.Intn(len(bzDictAttrs))]
		default:
			return bzRawAttrs[g.r.Intn(len(bzRawAttrs))]
		}
	}
	// respell gives another spelling of the same label.
	respell := func(v string) string {
		if g.p(0.6) {
			return v
		}
		rp, p, t := refParse(v, g.pkg)
		l := []string{v}
		if rp == "" {
			l = append(l, "//"+p+":"+t)
			if p == g.pkg && !strings.Contains(t, " ") {
				l = append(l, ":"+t, t)
			}
		} else {
			l = append(l, "@"+rp+"//"+p+":"+t)
		}
		return l[g.r.Intn(len(l))]
	}
	val := func(a string) string {
		if n != nil && g.p(0.65) {
			var l []string
			v := attrOf(n, a)
			if v != nil && v.K == "Str" {
				l = append(l, v.S)
			}
			eachList(v, func(li *N) {
				for _, e := range li.C {
					if e.K == "Str" {
						l = append(l, e.S)
					}
				}
			})
			if len(l) > 0 {
				v := l[g.r.Intn(len(l))]
				if bzLabelAttr(a) {
					return respell(v)
				}
				return v
			}
		}
		if kindOf(a) == "list" {
			v := g.elem(a)
			if bzLabelAttr(a) {
				return respell(v)
			}
			return v
		}
		return pick(g.r, "foo bar", "x", "//x:x", "small", "//"+g.pkg+":q")
	}
	maybeQuote := func(v string) string {
		if g.p(0.1) && !strings.ContainsAny(v, "\\\"\n") {
			return bzQuote(v)
		}
		return v
	}
	names := []string{}
	for _, s := range m.st {
		if s.n.K == "Call" {
			if v := attrOf(s.n, "name"); v != nil && v.K == "Str" {
				names = append(names, v.S)
			}
		}
	}
	anyName := func() string {
		if len(names) > 0 && g.p(0.9) {
			return names[g.r.Intn(len(names))]
		}
		return "nosuch"
	}
	key := func(a string) string {
		if n != nil {
			if v := attrOf(n, a); v != nil && v.K == "Dict" && len(v.C) > 0 && g.p(0.7) {
				if k := v.C[g.r.Intn(len(v.C))].C[0]; k.K == "Str" && !strings.Contains(k.S, ":") {
					return k.S
				}
			}
		}
		return pick(g.r, "k1", "k 3", "cpu", "newkey", "k9")
	}
	isDictOrNil := func(a string) bool {
		v := attrOf(n, a)
		return v == nil || v.K == "Dict"
	}
	for try := 0; try < 50; try++ {
		switch c := pick(g.r, "add", "add", "add", "remove", "remove", "remove", "removeattr", "replace", "replace", "substitute", "substitute", "set", "set", "set", "setkind", "set_if_absent",
			"rename", "move", "move", "moveall", "remove_if_equal", "remove_if_equal", "copy", "copy_no_overwrite", "dict_add", "dict_set", "dict_remove", "dict_replace_if_equal", "dict_list_add",
			"set_select", "delete", "new", "new", "comment", "comment", "remove_comment", "format"); c {
		case "add":
			a := attr("list")
			if g.p(0.1) {
				a = pick(g.r, "my_list", "my_attr", "new_attr")
			}
			if v := attrOf(n, a); v != nil && !listLike(v) && v.K != "Id" {
				continue
			}
			if v := attrOf(n, a); v != nil && v.K == "Id" && (v.S == "None" || v.S == "True") {
				continue
			}
			l := []string{"add", a}
			for i := 1 + g.r.Intn(3); i > 0; i-- {
				l = append(l, maybeQuote(val(a)))
			}
			return l
		case "remove":
			a := attr("list")
			if g.p(0.12) {
				l := []string{"remove", "*"}
				return append(l, val(attr("list")))
			}
			l := []string{"remove", a}
			for i := 1 + g.r.Intn(3); i > 0; i-- {
				l = append(l, maybeQuote(val(a)))
			}
			return l
		case "removeattr":
			return []string{"remove", pick(g.r, attr("list", "str", "raw", "dict"), attr("list", "str", "raw", "dict"), "*", "nosuch")}
		case "replace":
			a := attr("list", "list", "list", "str", "raw")
			p := a
			if g.p(0.12) {
				p = "*"
			}
			return []string{"replace", p, val(a), maybeQuote(val(a))}
		case "substitute":
			a := attr("list", "list", "str")
			p := a
			if g.p(0.12) {
				p = "*"
			}
			l := []string{"substitute", p, pick(g.r, "^//x(.*)$", "a", "^:(.)$", "x", "(.*)\\.cc", "^-", "nomatch", "//([^:]*):(?P<n>.*)", "z*$", "["), pick(g.r, "Y", "${1}_t", "//new:${1}", "//xx${1}", "$0$0", "${n}", "${0}s")}
			// Label results are well-formed labels.
			switch {
			case l[3] == "${n}":
				l[2] = "//([^:]*):(?P<n>.*)"
			case l[3] == "//xx${1}":
				l[2] = "^//x(.*)$"
			case strings.HasPrefix(l[3], "//"):
				l[2] = pick(g.r, "^:(.)$", "^:([ab].*)$")
			case strings.Contains(l[2], "//") && strings.Contains(l[3], "$0$0"):
				l[3] = "${0}s"
			}
			return l
		case "set":
			a := attr("list", "str", "raw", "dict")
			l := []string{"set", a}
			switch kindOf(a) {
			case "list":
				if a == "my_list" {
					return append(l, pick(g.r, `["x","y"]`, "VAR", "[]"))
				}
				if g.p(0.1) {
					return append(l, `glob(["*.q"])`)
				}
				for i := g.r.Intn(4); i > 0; i-- {
					l = append(l, maybeQuote(val(a)))
				}
			case "str":
				if a == "licence_text" {
					return append(l, pick(g.r, `"q"`, "VAR"))
				}
				l = append(l, maybeQuote(pick(g.r, "new text", "//x:x", "//"+g.pkg+":e", "small", "it's", "back\\slash", "two\nlines")))
			case "raw":
				if g.p(0.1) {
					return l
				}
				l = append(l, pick(g.r, "True", "False", "7", `"s"`, "VAR", `["a"]`, "1"))
			case "dict":
				l = append(l, pick(g.r, `{"a": "b"}`, "{}", "D"))
			}
			return l
		case "setkind":
			return []string{"set", "kind", pick(g.r, "cc_binary", "my.kind", "java_test", "x.y.z")}
		case "set_if_absent":
			a := attr("list", "str", "raw")
			if g.p(0.06) {
				a = "kind"
			}
			if a == "my_list" || a == "licence_text" || kindOf(a) == "raw" {
				return []string{"set_if_absent", a, pick(g.r, "True", "5", `"x"`)}
			}
			return []string{"set_if_absent", a, val(a)}
		case "rename":
			return []string{"rename", attr("list", "str", "raw", "dict"), pick(g.r, attr("list", "raw"), "renamed", "deps", "other_name")}
		case "move":
			a, b := attr("list"), attr("list")
			if g.p(0.3) {
				b = bzListAttrs[g.r.Intn(len(bzListAttrs))]
			}
			if a == b {
				continue
			}
			if v := attrOf(n, b); v != nil && !listLike(v) && v.K != "Id" {
				continue
			}
			l := []string{"move", a, b}
			for i := 1 + g.r.Intn(2); i > 0; i-- {
				l = append(l, val(a))
			}
			return l
		case "moveall":
			a, b := attr("list"), attr("list")
			if a == b {
				continue
			}
			if v := attrOf(n, b); v != nil && !listLike(v) && v.K != "Id" {
				continue
			}
			return []string{"move", a, b, "*"}
		case "remove_if_equal":
			a := attr("str", "raw", "str", "raw", "list")
			v := attrOf(n, a)
			x := val(a)
			if v != nil && (v.K == "Id" || v.K == "Num") && g.p(0.8) {
				x = v.S
			}
			return []string{"remove_if_equal", a, x}
		case "copy", "copy_no_overwrite":
			a := attr("list", "str", "raw", "dict")
			f := anyName()
			if x := m.find(f); x != nil && g.p(0.8) {
				if l := attrNames(x.n); len(l) > 1 {
					a = l[g.r.Intn(len(l))]
				}
			}
			if a == "name" {
				continue
			}
			return []string{c, a, f}
		case "dict_add", "dict_set":
			a := attr("dict")
			if !isDictOrNil(a) {
				continue
			}
			l := []string{c, a}
			for i := 1 + g.r.Intn(2); i > 0; i-- {
				l = append(l, key(a)+":"+pick(g.r, "v1", "//x:x", "a:b", "v w", "//"+g.pkg+":q", `"quoted"`))
			}
			if g.p(0.04) {
				l = append(l, "nocolon")
			}
			return l
		case "dict_remove":
			a := attr("dict", "dict", "dict", "list")
			return []string{c, a, key(a)}
		case "dict_replace_if_equal":
			a := attr("dict")
			return []string{c, a, key(a), pick(g.r, "v1", "v2", "//x", ":a", "SOME_VAR"), pick(g.r, "nv", "//x:x")}
		case "dict_list_add":
			a := "my_dict"
			k := key(a)
			if !isDictOrNil(a) {
				continue
			}
			if d := attrOf(n, a); d != nil {
				if kv := dictFind(d, k); kv != nil && kv.C[1].K != "List" {
					continue
				}
			}
			return []string{c, a, k, g.label(), g.label()}
		case "set_select":
			a := attr("list", "str")
			if a == "my_list" {
				continue
			}
			l := []string{c, a}
			for i := 1 + g.r.Intn(3); i > 0; i-- {
				l = append(l, pick(g.r, ":c1", "//conf:c2", "//conditions:default"), val(a))
			}
			if g.p(0.05) {
				l = append(l, "odd")
			}
			return l
		case "delete":
			if g.p(0.5) {
				continue
			}
			return []string{"delete"}
		case "new":
			l := []string{"new", bzKinds[g.r.Intn(len(bzKinds)-2)], pick(g.r, fmt.Sprintf("new%d", g.r.Intn(20)), fmt.Sprintf("new%d", g.r.Intn(20)), anyName())}
			if l[1] == "native.filegroup" {
				continue
			}
			if g.p(0.5) {
				l = append(l, pick(g.r, "before", "after"), anyName())
				if g.p(0.05) {
					l[3] = "beside"
				}
			}
			return l
		case "comment":
			g.com++
			txt := fmt.Sprintf("added%d %s", g.com, pick(g.r, "x", "see #5", "TODO", "two\\nlines"))
			switch g.r.Intn(3) {
			case 0:
				return []string{c, txt}
			case 1:
				return []string{c, attr("list", "str", "raw"), txt}
			}
			a := attr("list")
			return []string{c, a, val(a), txt}
		case "remove_comment":
			switch g.r.Intn(3) {
			case 0:
				return []string{c}
			case 1:
				return []string{c, attr("list", "str", "raw", "dict")}
			}
			a := attr("list")
			return []string{c, a, val(a)}
		case "format":
			return []string{c}
		}
	}
	return []string{"format"}
}

var perFile = map[string]bool{"new": true, "format": true}

// bzCase is one file with targets and commands.
type bzCase struct {
	pkg, text string
	targets   []string // target parts after the colon
	cmds      [][]string
	eol       bool
}

func (k bzCase) String() string {
	return fmt.Sprintf("package %q, targets %q, eol comments %v\ncommands:\n%s\nfile:\n%s", k.pkg, k.targets, k.eol, cmdLines(k.cmds), k.text)
}

func cmdLines(cmds [][]string) string {
	var l []string
	for _, c := range cmds {
		l = append(l, "  "+cmdString(c))
	}
	return strings.Join(l, "\n")
}

func cmdString(c []string) string {
	var e []string
	for _, x := range c {
		e = append(e, bzEsc(x))
	}
	return strings.Join(e, " ")
}

// targetStmts resolves a target of the generated kinds in the model.
func (m *bzModel) targetStmts(t string) ([]*bzStmt, bool) {
	if t == "__pkg__" {
		if s := m.find(t); s != nil {
			return []*bzStmt{s}, true
		}
		s := &bzStmt{n: nn("Call", "", nn("Id", "package")), isNew: true, id: 999}
		pos := 0
		for i, x := range m.st {
			if x.n.K == "Load" || x.n.K == "Str" {
				pos = i + 1
				continue
			}
			break
		}
		m.st = append(m.st[:pos], append([]*bzStmt{s}, m.st[pos:]...)...)
		return []*bzStmt{s}, true
	}
	if s := m.find(t); s != nil {
		return []*bzStmt{s}, true
	}
	var l []*bzStmt
	switch {
	case t == "*" || t == "all":
		for _, s := range m.st {
			if s.n.K == "Call" {
				l = append(l, s)
			}
		}
		return l, true
	case strings.HasPrefix(t, "%"):
		for _, s := range m.st {
			if s.n.K == "Call" && callKind(s.n) == t[1:] {
				l = append(l, s)
			}
		}
		return l, true
	}
	return nil, false
}

// usageOK tells whether the commands, as written, have arguments in the
// documented number (anything else ends the process with a usage message).
func usageOK(cmds [][]string) bool {
	for _, c := range cmds {
		info, ok := edit.AllCommands[c[0]]
		n := 0
		for _, a := range c[1:] {
			if a != "" {
				n++
			}
		}
		if !ok || n != len(c)-1 || n < info.MinArg || info.MaxArg >= 0 && n > info.MaxArg {
			return false
		}
	}
	return true
}

var comRe = regexp.MustCompile(`# n\d+ `)

// run executes the case and judges it: s23 the values, s24 the frame.
func (k bzCase) run(ws *bzWS) (s23, d23, s24, d24 string, info map[string]int) {
	info = map[string]int{}
	if !usageOK(k.cmds) {
		return "", "", "", "", nil
	}
	path := filepath.Join(ws.root, k.pkg, "BUILD")
	fb, err := formatBuild(path, k.text)
	if err != nil {
		return "", "", "", "", nil
	}
	m, err := newBzModel(k.pkg, k.text)
	if err != nil {
		return "", "", "", "", nil
	}
	orig, _ := newBzModel(k.pkg, fb)
	ws.put(k.pkg, "BUILD", k.text)
	opts := edit.NewOpts()
	opts.RootDir = ws.root
	opts.PreferEOLComments = k.eol
	var args []string
	sig := ""
	for _, c := range k.cmds {
		args = append(args, cmdString(c))
		sig += c[0] + "+"
	}
	sig = strings.TrimSuffix(sig, "+")
	for _, t := range k.targets {
		args = append(args, "//"+k.pkg+":"+t)
	}
	// The model runs what the documentation demands.
	wantErr := false
	targeted := map[int]bool{}
	opaque := map[int]bool{} // statements that hold addressed rules inside
	for _, t := range k.targets {
		if m.find(t) == nil && (t == "*" || t == "all") {
			for _, s := range m.st {
				if s.n.K == "ListComp" || s.n.K == "Comp" {
					opaque[s.id] = true
				}
			}
		}
	}
	comTouched := map[int]bool{}
outer:
	for _, t := range k.targets {
		ss, ok := m.targetStmts(t)
		if !ok {
			wantErr = true
			break
		}
		for _, c := range k.cmds {
			if perFile[c[0]] {
				if err := m.apply(nil, c[0], c[1:]); err != nil {
					wantErr = true
					break outer
				}
				continue
			}
			for _, s := range ss {
				targeted[s.id] = true
				if err := m.apply(s, c[0], c[1:]); err == errSkip {
					return "", "", "", "", nil
				} else if err != nil {
					wantErr = true
					break outer
				}
				if strings.HasSuffix(c[0], "comment") {
					if len(c) == 2 && c[0] == "comment" || len(c) == 1 {
						comTouched[s.id] = true
					} else {
						m.touch(s.id, c[1])
					}
				}
			}
		}
	}
	{
		var keep []*bzStmt
		for _, s := range m.st {
			if callKind(s.n) == "package" && len(s.n.C) == 1 {
				continue
			}
			keep = append(keep, s)
		}
		m.st = keep
	}
	res := runBz(opts, args)
	b, rerr := os.ReadFile(path)
	if rerr != nil {
		return sig + ":lost", rerr.Error(), "", "", info
	}
	after := string(b)
	outcome := fmt.Sprintf("exit %d\nstderr: %s\nfile after:\n%s\n", res.code, res.err, after)
	if res.panicked != "" {
		return sig + ":panic", res.panicked, "", "", info
	}
	if wantErr {
		info["failing"] = 1
		if res.code != 2 {
			return sig + ":no-error", "a command should have failed\n" + outcome, "", "", info
		}
		if after != k.text {
			return "", "", sig + ":edited-on-error", outcome, info
		}
		return "", "", "", "", info
	}
	if res.code == 2 && len(opaque) > 0 {
		return "", "", "", "", nil // a rule inside a comprehension
	}
	if res.code == 2 || res.code == 1 {
		return sig + ":error", "no command should have failed\n" + outcome, "", "", info
	}
	an, err := starParse(after)
	if err != nil {
		return sig + ":invalid", err.Error() + "\n" + outcome, "", "", info
	}
	if after != k.text {
		info["changed"] = 1
	}
	// Match the statements.
	var want []*bzStmt
	actual := append([]*N{}, an.C...)
	newOf := map[*bzStmt]*N{}
	for _, s := range m.st {
		if !s.isNew {
			want = append(want, s)
			continue
		}
		found := false
		for i, x := range actual {
			if x.K != "Call" {
				continue
			}
			same := callKind(s.n) == "package" && callKind(x) == "package"
			if v, w := attrOf(s.n, "name"), attrOf(x, "name"); !same && v != nil && w != nil && v.String() == w.String() {
				same = true
			}
			if same {
				newOf[s] = x
				actual = append(actual[:i:i], actual[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return sig + ":new-missing", "the new rule is missing\n" + outcome, "", "", info
		}
	}
	if len(want) != len(actual) {
		return sig + ":statements", fmt.Sprintf("%d statements instead of %d\n%s", len(actual), len(want), outcome), "", "", info
	}
	pair := map[*bzStmt]*N{}
	for i, s := range want {
		pair[s] = actual[i]
	}
	for s, x := range newOf {
		pair[s] = x
	}
	pos := func(x *N) int {
		for i, y := range an.C {
			if y == x {
				return i
			}
		}
		return -1
	}
	for _, s := range m.st {
		x := pair[s]
		if s.after != "" && len(k.cmds) == 1 {
			p := strings.SplitN(s.after, ":", 2)
			for _, t := range m.st {
				if fmt.Sprint(t.id) == p[1] {
					d := 1
					if p[0] == "before" {
						d = -1
					}
					if pos(x) != pos(pair[t])+d {
						return sig + ":position", "the new rule is not " + p[0] + " the named one\n" + outcome, "", "", info
					}
				}
			}
		}
		if !targeted[s.id] && !s.isNew {
			if opaque[s.id] {
				if s.n.K != x.K || fmt.Sprint(s.n.C[1:]) != fmt.Sprint(x.C[1:]) {
					s24, d24 = sig+":comprehension", fmt.Sprintf("the clauses of a comprehension changed:\n%s\nis now\n%s\n%s", s.n, x, outcome)
				}
				targeted[s.id] = true
				continue
			}
			o := s.n
			for _, f := range orig.st { // as standard formatting leaves it
				if f.id == s.id {
					o = f.n
				}
			}
			if o.String() != x.String() && (res.code != 3 || s.n.String() != x.String()) {
				if s24 == "" {
					s24, d24 = sig+":other-statement", fmt.Sprintf("a statement that was not addressed changed:\n%s\nis now\n%s\n%s", o, x, outcome)
				}
			}
			continue
		}
		if callKind(s.n) != callKind(x) {
			return sig + ":kind", fmt.Sprintf("kind %q instead of %q\n%s", callKind(x), callKind(s.n), outcome), "", "", info
		}
		names := map[string]bool{}
		for _, a := range append(attrNames(s.n), attrNames(x)...) {
			names[a] = true
		}
		for _, a := range sortedKeys(names) {
			if bad := m.sameValue(s.id, a, attrOf(s.n, a), attrOf(x, a)); bad != "" {
				touched := m.touched[s.id][a] || m.touched[s.id]["*"]
				det := fmt.Sprintf("attribute %s %s\n%s", a, bad, outcome)
				if touched || s.isNew {
					return sig + ":value", det, s24, d24, info
				}
				return "", "", sig + ":other-attribute", det, info
			}
			info["attrs"]++
		}
		if len(attrNames(x)) != len(names) && len(attrNames(s.n)) == len(names) {
			continue
		}
	}
	if s24 != "" {
		return
	}
	s24, d24 = k.frame(m, orig, fb, after, targeted, comTouched, pair, pos, sig, outcome, info)
	return
}

// leaf is one string of a list with its comments.
func commentsIn(e build.Expr) []string {
	var l []string
	build.Walk(e, func(x build.Expr, _ []build.Expr) {
		c := x.Comment()
		for _, cs := range [][]build.Comment{c.Before, c.Suffix, c.After} {
			for _, t := range cs {
				l = append(l, t.Token)
			}
		}
		for _, end := range endsOf(x) {
			for _, cs := range [][]build.Comment{end.Before, end.Suffix, end.After} {
				for _, t := range cs {
					l = append(l, t.Token)
				}
			}
		}
	})
	return l
}

func endsOf(x build.Expr) []*build.End {
	switch x := x.(type) {
	case *build.ListExpr:
		return []*build.End{&x.End}
	case *build.DictExpr:
		return []*build.End{&x.End}
	case *build.CallExpr:
		return []*build.End{&x.End}
	case *build.TupleExpr:
		return []*build.End{&x.End}
	case *build.ParenExpr:
		return []*build.End{&x.End}
	}
	return nil
}

// comTokens are the comments of the text, by their unique marks.
func comTokens(s string) map[string]int {
	m := map[string]int{}
	for _, t := range regexp.MustCompile(`# n(\d+) `).FindAllString(s, -1) {
		m[t]++
	}
	return m
}

func (k bzCase) frame(m, orig *bzModel, fb, after string, targeted, comTouched map[int]bool, pair map[*bzStmt]*N, pos func(*N) int, sig, outcome string, info map[string]int) (string, string) {
	bf, err1 := build.ParseBuild("BUILD", []byte(fb))
	af, err2 := build.ParseBuild("BUILD", []byte(after))
	if err1 != nil || err2 != nil {
		return sig + ":reparse", fmt.Sprint(err1, err2, "\n", outcome)
	}
	// What was written is formatted; a file that was formatted and in which nothing had to change is the same.
	if after != k.text {
		if again := string(build.Format(af)); again != after {
			return sig + ":not-formatted", "the written file is not in standard format:\n" + lineDiff(after, again) + "\n" + outcome
		}
	}
	noop := true
	for _, s := range m.st {
		if s.n.K == "ListComp" && len(k.targets) > 0 && (k.targets[0] == "*" || k.targets[0] == "all") {
			noop = false // rules inside
		}
	}
	if len(orig.st) != len(m.st) {
		noop = false
	}
	for i := range m.st {
		if noop && (m.st[i].isNew || m.st[i].n.String() != orig.st[i].n.String()) {
			noop = false
		}
	}
	hasCom := false
	for _, c := range k.cmds {
		if strings.HasSuffix(c[0], "comment") {
			hasCom = true
		}
	}
	// Rewritten strings spell non-ASCII text with escapes.
	if noop && !hasCom && fb == k.text && isASCII(fb) {
		// Resolving common select entries may still tidy up an addressed list.
		if after != fb {
			same := true
			an, _ := starParse(after)
			for i := range orig.st {
				if i < len(an.C) && orig.st[i].n.String() != an.C[i].String() {
					same = false
				}
			}
			add := false
			for _, c := range k.cmds {
				if c[0] == "add" {
					add = true
				}
				if c[0] == "set" || c[0] == "copy" || c[0] == "set_select" || c[0] == "dict_set" {
					same, add = true, true // an equal value may be laid out in another way
				}
			}
			if same && add {
				return "", ""
			}
			if same || !add || !strings.Contains(k.text, "select(") && !strings.Contains(k.text, "] + [") {
				return sig + ":noop-edited", "nothing had to change but the file did:\n" + lineDiff(fb, after) + "\n" + outcome
			}
		}
		info["noop"]++
	}
	if after == k.text {
		info["frame"]++
		return "", ""
	}
	// Split both files; comment blocks are statements of their own here.
	type piece struct {
		text string
		call *build.CallExpr
		idx  int // index among the statements with a value
	}
	pieces := func(f *build.File) (all []piece) {
		i := 0
		for _, s := range f.Stmt {
			if _, ok := s.(*build.CommentBlock); ok {
				all = append(all, piece{build.FormatString(s), nil, -1})
				continue
			}
			call, _ := s.(*build.CallExpr)
			all = append(all, piece{build.FormatString(s), call, i})
			i++
		}
		return
	}
	bp, ap := pieces(bf), pieces(af)
	idOf := map[int]*bzStmt{} // statement index after -> model statement
	for _, s := range m.st {
		if p := pos(pair[s]); p >= 0 {
			idOf[p] = s
		}
	}
	live := map[int]bool{}
	for _, s := range m.st {
		live[s.id] = true
	}
	// Everything that was not addressed: same text, same order.
	var fixedB, fixedA []string
	for _, p := range bp {
		if p.idx < 0 || live[p.idx] && !targeted[p.idx] {
			fixedB = append(fixedB, p.text)
		}
	}
	for _, p := range ap {
		if p.idx < 0 || idOf[p.idx] != nil && !idOf[p.idx].isNew && !targeted[idOf[p.idx].id] {
			fixedA = append(fixedA, p.text)
		}
	}
	info["frame"] += len(fixedB)
	if strings.Join(fixedB, "\x00") != strings.Join(fixedA, "\x00") {
		return sig + ":other-text", "text that was not addressed changed:\n" + lineDiff(strings.Join(fixedB, "\n"), strings.Join(fixedA, "\n")) + "\n" + outcome
	}
	// Inside addressed rules: the arguments that were not addressed.
	byID := map[int]piece{}
	for _, p := range bp {
		if p.idx >= 0 {
			byID[p.idx] = p
		}
	}
	for _, p := range ap {
		s := idOf[p.idx]
		if p.idx < 0 || s == nil || s.isNew || !targeted[s.id] || p.call == nil || byID[s.id].call == nil {
			continue
		}
		old := byID[s.id].call
		touched := m.touched[s.id]
		if touched["*"] || m.kindSet[s.id] {
			// Standard formatting depends on the kind.
			x, y := commentsIn(old), commentsIn(p.call)
			sort.Strings(x)
			sort.Strings(y)
			if m.kindSet[s.id] && len(k.cmds) == 1 && strings.Join(x, "\n") != strings.Join(y, "\n") {
				return sig + ":rule-comment", fmt.Sprintf("comments changed: %q, now %q\n%s", x, y, outcome)
			}
			continue
		}
		argText := func(c *build.CallExpr) (l []string) {
			for _, a := range c.List {
				if as, ok := a.(*build.AssignExpr); ok {
					if id, ok := as.LHS.(*build.Ident); ok && touched[id.Name] {
						continue
					}
				}
				l = append(l, build.FormatString(a))
			}
			return
		}
		x, y := argText(old), argText(p.call)
		info["frame"] += len(x)
		if strings.Join(x, "\x00") != strings.Join(y, "\x00") {
			return sig + ":other-argument", "arguments that were not addressed changed:\n" + lineDiff(strings.Join(x, "\n"), strings.Join(y, "\n")) + "\n" + outcome
		}
		if !comTouched[s.id] {
			cx, cy := fmt.Sprint(comText(old.Comments), endText(old)), fmt.Sprint(comText(p.call.Comments), endText(p.call))
			lost := ""
			for t := range comTokens(cx) {
				if !strings.Contains(cy, t) && !strings.Contains(build.FormatString(p.call), t) {
					lost = t
				}
			}
			if lost != "" {
				return sig + ":rule-comment", "a comment of the rule is lost: " + lost + "\n" + outcome
			}
		}
		// Comments inside addressed attributes belong to elements that are still there.
		for _, a := range old.List {
			as, ok := a.(*build.AssignExpr)
			if !ok {
				continue
			}
			id, ok := as.LHS.(*build.Ident)
			if !ok || !touched[id.Name] {
				continue
			}
			if rf, err := build.ParseBuild("BUILD", []byte(k.text)); err != nil || countStrings(rf) != countStrings(bf) {
				continue // formatting drops duplicates, whose comments go to their neighbours
			}
			if bad := k.keptComments(m, id.Name, as, p.call, info); bad != "" {
				return sig + ":element-comment", bad + "\n" + outcome
			}
		}
	}
	if len(k.cmds) == 1 && k.cmds[0][0] == "comment" {
		return k.commentPlaced(sig, k.cmds[0], orig, bp[0:], func(id int) *build.CallExpr {
			for _, p := range ap {
				if s := idOf[p.idx]; p.idx >= 0 && s != nil && s.id == id {
					return p.call
				}
			}
			return nil
		}, targeted, outcome)
	}
	return "", ""
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func countStrings(f *build.File) (n int) {
	build.Walk(f, func(x build.Expr, _ []build.Expr) {
		if _, ok := x.(*build.StringExpr); ok {
			n++
		}
	})
	return
}

func comText(c build.Comments) string {
	s := ""
	for _, cs := range [][]build.Comment{c.Before, c.Suffix, c.After} {
		for _, t := range cs {
			s += t.Token + "\n"
		}
	}
	return s
}

func endText(c *build.CallExpr) string { return comText(c.End.Comments) }

// keptComments checks the comments on elements of one addressed attribute.
func (k bzCase) keptComments(m *bzModel, attr string, as *build.AssignExpr, now *build.CallExpr, info map[string]int) string {
	for _, c := range k.cmds {
		switch c[0] {
		case "set", "dict_set", "copy", "set_select", "comment", "remove_comment", "delete", "rename", "set_if_absent", "copy_no_overwrite":
			return ""
		}
		if c[0] == "remove" && len(c) == 2 || c[0] == "move" {
			return ""
		}
	}
	verbs := ""
	for _, c := range k.cmds {
		verbs += c[0] + " "
	}
	if (strings.Contains(verbs, "replace ") || strings.Contains(verbs, "substitute ")) && strings.Contains(verbs, "remove ") {
		return "" // a new value may have been removed again
	}
	if strings.Contains(verbs, "remove") && len(k.cmds) > 1 && (strings.Contains(verbs, "dict_") || strings.Contains(verbs, "add ")) {
		return "" // an attribute may have been removed and added again
	}
	text := build.FormatString(now)
	cur := build.NewRule(now).AttrDefn(attr)
	if cur == nil {
		return ""
	}
	vals := map[string]bool{}
	build.Walk(cur.RHS, func(x build.Expr, _ []build.Expr) {
		if s, ok := x.(*build.StringExpr); ok {
			vals[refNorm(s.Value, m.pkg)] = true
		}
	})
	bad := ""
	hasSel := strings.Contains(build.FormatString(as.RHS), "select(")
	build.Walk(as.RHS, func(x build.Expr, stk []build.Expr) {
		s, ok := x.(*build.StringExpr)
		if !ok || bad != "" {
			return
		}
		toks := comTokens(comText(s.Comments))
		if len(toks) == 0 {
			return
		}
		if hasSel {
			return
		}
		gone := !vals[refNorm(s.Value, m.pkg)]
		for _, c := range k.cmds {
			if (c[0] == "replace" || c[0] == "substitute") && (c[1] == attr || c[1] == "*") {
				gone = false // the comment goes over to the new value
			}
		}
		for _, c := range k.cmds {
			if c[0] == "remove" || c[0] == "dict_remove" {
				for _, v := range c[2:] {
					if refNorm(unq(v), m.pkg) == refNorm(s.Value, m.pkg) {
						gone = true
					}
				}
				if c[0] == "dict_remove" {
					gone = true
				}
			}
			if strings.HasPrefix(c[0], "dict_") && c[0] != "dict_remove" && gone {
				return
			}
		}
		if gone {
			return
		}
		info["comments"] += len(toks)
		for t := range toks {
			if !strings.Contains(text, t) {
				bad = fmt.Sprintf("the comment %q of element %q is lost", t, s.Value)
			}
		}
	})
	if bad != "" || hasSel || strings.Contains(verbs, "dict_") {
		return bad
	}
	// Comments at the end of lists.
	build.Walk(as.RHS, func(x build.Expr, stk []build.Expr) {
		l, ok := x.(*build.ListExpr)
		if !ok || bad != "" {
			return
		}
		kept := false // an emptied list goes away with its comments
		for _, e := range l.List {
			if s, ok := e.(*build.StringExpr); !ok || vals[refNorm(s.Value, m.pkg)] {
				kept = true
			}
		}
		if !kept {
			return
		}
		for t := range comTokens(comText(l.End.Comments)) {
			info["comments"]++
			if !strings.Contains(text, t) {
				bad = fmt.Sprintf("the comment %q at the end of a list is lost", t)
			}
		}
	})
	for t := range comTokens(comText(as.Comments)) {
		info["comments"]++
		if bad == "" && !strings.Contains(text, t) {
			bad = fmt.Sprintf("the comment %q of attribute %s is lost", t, attr)
		}
	}
	return bad
}

func (k bzCase) commentPlaced(sig string, c []string, orig *bzModel, _ interface{}, callOf func(int) *build.CallExpr, targeted map[int]bool, outcome string) (string, string) {
	txt := c[len(c)-1]
	lines := strings.Split(strings.ReplaceAll(txt, "\\n", "\n"), "\n")
	for _, s := range orig.st {
		if !targeted[s.id] || s.n.K != "Call" {
			continue
		}
		call := callOf(s.id)
		if call == nil {
			return sig + ":lost", outcome
		}
		full := build.FormatString(call)
		where := ""
		switch len(c) {
		case 2:
			where = comText(call.Comments)
			if where == "" {
				where = comText(*call.X.Comment())
			}
		case 3:
			if attrOf(s.n, c[1]) == nil {
				continue
			}
			if as := build.NewRule(call).AttrDefn(c[1]); as != nil {
				where = strings.Join(commentsIn(as), "\n")
				if len(call.List) == 1 {
					where += "\n" + comText(call.Comments) // all on one line
				}
			}
		case 4:
			if v := attrOf(s.n, c[1]); v == nil || !contains(v, c[2], k.pkg) {
				continue
			}
			if as := build.NewRule(call).AttrDefn(c[1]); as != nil {
				build.Walk(as.RHS, func(x build.Expr, _ []build.Expr) {
					if str, ok := x.(*build.StringExpr); ok && refNorm(str.Value, k.pkg) == refNorm(c[2], k.pkg) {
						where += comText(str.Comments)
					}
				})
				// In a list on one line the comment can only follow the attribute.
				if !strings.Contains(where, "# "+lines[0]) {
					where += comText(as.Comments)
				}
			}
		}
		for _, l := range lines {
			if !strings.Contains(where, "# "+l) {
				return sig + ":comment-place", fmt.Sprintf("the comment %q is not where it belongs (there: %q)\n%s", l, where, outcome)
			}
			if strings.Count(full, "# "+l) != 1 && !(len(call.List) == 1 && strings.Contains(comText(call.Comments), "# "+l)) {
				return sig + ":comment-count", fmt.Sprintf("the comment %q is there %d times\n%s", l, strings.Count(full, "# "+l), outcome)
			}
		}
	}
	return "", ""
}

// reduce drops commands, targets and statements while the failure stays.
func (k bzCase) reduce(ws *bzWS, bad func(bzCase) bool) bzCase {
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(k.cmds) && len(k.cmds) > 1; i++ {
			t := k
			t.cmds = append(append([][]string{}, k.cmds[:i]...), k.cmds[i+1:]...)
			if bad(t) {
				k, changed = t, true
				i--
			}
		}
		for i := 0; i < len(k.targets) && len(k.targets) > 1; i++ {
			t := k
			t.targets = append(append([]string{}, k.targets[:i]...), k.targets[i+1:]...)
			if bad(t) {
				k, changed = t, true
				i--
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, cut := range bzCuts(k.text) {
			t := k
			t.text = cut
			if bad(t) {
				k, changed = t, true
				break
			}
		}
	}
	return k
}

// bzCuts gives the file without one statement, argument, element or comment.
func bzCuts(text string) (out []string) {
	for n := 0; n < 200; n++ {
		f, err := build.ParseBuild("BUILD", []byte(text))
		if err != nil {
			return
		}
		k := n
		hit := func() bool { k--; return k < 0 }
		done := false
		for i := range f.Stmt {
			if hit() {
				f.Stmt = append(f.Stmt[:i:i], f.Stmt[i+1:]...)
				done = true
				break
			}
		}
		drop := func(l []build.Expr) []build.Expr {
			for i := range l {
				if !done && hit() {
					done = true
					return append(l[:i:i], l[i+1:]...)
				}
			}
			return l
		}
		if !done {
			for _, s := range f.Stmt {
				build.Walk(s, func(x build.Expr, _ []build.Expr) {
					if done {
						return
					}
					c := x.Comment()
					for _, cs := range []*[]build.Comment{&c.Before, &c.Suffix, &c.After} {
						if len(*cs) > 0 && !done && hit() {
							*cs, done = nil, true
							return
						}
					}
					switch x := x.(type) {
					case *build.CallExpr:
						x.List = drop(x.List)
					case *build.ListExpr:
						x.List = drop(x.List)
					case *build.DictExpr:
						for i := range x.List {
							if !done && hit() {
								done = true
								x.List = append(x.List[:i:i], x.List[i+1:]...)
								return
							}
						}
					case *build.AssignExpr:
						if b, ok := x.RHS.(*build.BinaryExpr); ok {
							if hit() {
								x.RHS, done = b.X, true
							} else if hit() {
								x.RHS, done = b.Y, true
							}
						}
					}
				})
			}
		}
		if !done {
			return
		}
		t := string(build.FormatWithoutRewriting(f))
		if t != text && t != "" {
			out = append(out, t)
		}
	}
	return
}

func checkBz(c *Ctx, frame bool) {
	c.Rule("distinct = (commands, attribute shapes addressed, outcome)")
	c.Assume("attribute types (list, string, other) as in Bazel's built-in build language for the attribute names used")
	c.Assume("labels are compared after resolution in the file's package; values of select() are compared under every choice of branches")
	pkgs := []string{"pkg", "a/b", ""}
	c.parallel(c.N(24000, 600000), 8, 2300, func(i int, r *rand.Rand) {
		ws := newBzWS(filepath.Join(c.Scratch, fmt.Sprintf("ws%d", r.Int63())))
		defer os.RemoveAll(ws.root)
		g := &bzGen{r: r, pkg: pkgs[r.Intn(10)%len(pkgs)]}
		if g.pkg == "" && r.Intn(3) > 0 {
			g.pkg = "pkg"
		}
		k := bzCase{pkg: g.pkg, eol: r.Intn(4) > 0}
		nr := 1 + r.Intn(3)
		k.text = g.file(nr)
		if fb, err := formatBuild("BUILD", k.text); err == nil && r.Intn(2) == 0 {
			k.text = fb
		}
		m, err := newBzModel(g.pkg, k.text)
		if err != nil {
			c.Violate("generator", err.Error(), k.text)
			return
		}
		switch x := r.Intn(20); {
		case x < 14:
			k.targets = []string{fmt.Sprintf("r%d", r.Intn(nr))}
		case x < 16:
			k.targets = []string{fmt.Sprintf("r%d", r.Intn(nr)), fmt.Sprintf("r%d", r.Intn(nr))}
			if k.targets[0] == k.targets[1] {
				k.targets = k.targets[:1]
			}
		case x == 16:
			k.targets = []string{"__pkg__"}
		case x == 17:
			k.targets = []string{pick(r, "*", "all")}
		case x == 18:
			k.targets = []string{"%" + bzKinds[r.Intn(len(bzKinds))]}
		default:
			k.targets = []string{"nosuch"}
		}
		nc := 1
		if r.Intn(2) == 0 && os.Getenv("VMON_ONE") == "" {
			nc = 1 + r.Intn(4)
		}
		var s *bzStmt
		if ss, ok := m.targetStmts(k.targets[0]); ok && len(ss) > 0 {
			s = ss[r.Intn(len(ss))]
		}
		deleted := false
		shape := ""
		for j := 0; j < nc; j++ {
			if s == nil {
				k.cmds = append(k.cmds, []string{"format"})
				break
			}
			cmd := g.cmd(m, s)
			if k.targets[0] == "__pkg__" && (cmd[0] == "delete" || cmd[0] == "copy" || cmd[0] == "copy_no_overwrite" || cmd[1%len(cmd)] == "kind") {
				continue
			}
			if deleted {
				break
			}
			if len(k.targets) > 1 || strings.ContainsAny(k.targets[0], "*%") || k.targets[0] == "all" {
				// Other rules may have other shapes of the attribute.
				if bzRisky(m, k.targets, cmd) {
					continue
				}
			}
			k.cmds = append(k.cmds, cmd)
			if v := (*N)(nil); len(cmd) > 1 {
				v = attrOf(s.n, cmd[1])
				for _, t := range terms(v) {
					shape += t.K + fmt.Sprint(isSelect(t))
				}
			}
			shape += cmd[0] + ";"
			// Later commands are chosen for the state the earlier ones leave.
			var e error
			if perFile[cmd[0]] {
				e = m.apply(nil, cmd[0], cmd[1:])
			} else {
				e = m.apply(s, cmd[0], cmd[1:])
			}
			if e != nil {
				break
			}
			deleted = cmd[0] == "delete"
		}
		if len(k.cmds) == 0 {
			return
		}
		pickSig := func(a, ad, b, bd string) (string, string) {
			if frame {
				return b, bd
			}
			return a, ad
		}
		c.Case(k.String())
		a, ad, b, bd, info := k.run(ws)
		sig, det := pickSig(a, ad, b, bd)
		out := ""
		for _, x := range []string{"failing", "changed"} {
			if info[x] > 0 {
				out += x
			}
		}
		c.Eval(shape + out)
		for n, v := range info {
			c.Count(n, v)
		}
		c.Count("commands", len(k.cmds))
		for _, cmd := range k.cmds {
			c.Count("cmd "+cmd[0], 1)
		}
		if i < 4 {
			c.Sample(k.String())
		}
		if sig == "" && !frame && info != nil && r.Intn(3) == 0 {
			if d := k.elsewhere(ws, r.Intn(3) > 0, r.Intn(3) > 0, c); d != "" {
				c.Violate("context:"+k.cmds[0][0], d, k.String())
			}
		}
		if sig != "" {
			class := sig[strings.LastIndex(sig, ":"):]
			min := k
			if os.Getenv("VMON_NOSHRINK") == "" {
				min = k.reduce(ws, func(t bzCase) (bad bool) {
					defer func() {
						if recover() != nil {
							bad = false // outside the model's domain
						}
					}()
					m, err := newBzModel(t.pkg, t.text)
					if err != nil {
						return false
					}
					for _, cmd := range t.cmds {
						if !strings.HasPrefix(cmd[0], "copy") && cmd[0] != "new" && cmd[0] != "delete" && cmd[0] != "rename" && bzRisky(m, t.targets, cmd) {
							return false
						}
					}
					x, _, y, _, _ := t.run(ws)
					s, _ := pickSig(x, "", y, "")
					return s != "" && s[strings.LastIndex(s, ":"):] == class
				})
				a, ad, b, bd, _ = min.run(ws)
				if s2, d2 := pickSig(a, ad, b, bd); s2 != "" {
					sig, det = s2, d2
				}
			}
			c.Violate(sig, det, min.String())
		}
	})
}

// elsewhere runs the commands in another form that has to come to the same: targets with an ellipsis,
// and after other commands on the same file that leave nothing behind.
func (k bzCase) elsewhere(ws *bzWS, ellipsis, prelude bool, c *Ctx) string {
	body := cmdLines(k.cmds)
	if strings.ContainsAny(body, "|") || strings.Contains(body, "\\\n") {
		return ""
	}
	run := func(text string, pre []string, root string) (bzRun, string) {
		path := ws.put(k.pkg, "BUILD", text)
		opts := edit.NewOpts()
		opts.RootDir = ws.root
		opts.PreferEOLComments = k.eol
		lines := append([]string{}, pre...)
		for _, t := range k.targets {
			var l []string
			for _, cmd := range k.cmds {
				l = append(l, cmdString(cmd))
			}
			lines = append(lines, strings.Join(l, "|")+"|"+root+":"+t)
		}
		cf := filepath.Join(ws.root, "commands.txt")
		os.WriteFile(cf, []byte(strings.Join(lines, "\n")+"\n"), 0o644)
		opts.CommandsFiles = []string{cf}
		res := runBz(opts, nil)
		b, _ := os.ReadFile(path)
		return res, string(b)
	}
	r1, a := run(k.text, nil, "//"+k.pkg)
	if r1.code != 0 {
		return ""
	}
	root := "//" + k.pkg
	if ellipsis {
		root = "//..."
		if k.pkg != "" && len(k.text)%2 == 0 {
			root = "//" + k.pkg + "/..."
		}
	}
	text, pre := k.text, []string(nil)
	if prelude {
		if strings.TrimSpace(text) == "" {
			return ""
		}
		text = strings.TrimRight(text, "\n") + "\n\nzz_rule(name = \"zz_del\")\n"
		pre = []string{"delete|//" + k.pkg + ":zz_del"}
	}
	r2, b := run(text, pre, root)
	c.Count("runs in another context", 1)
	if r2.panicked != "" || r2.code != 0 || a != b {
		return fmt.Sprintf("targets %s:…, after a deletion of another rule: %v; exit %d %s%s\n%s", root, prelude, r2.code, r2.err, r2.panicked, around(a, b))
	}
	return ""
}

// bzRisky tells whether a command chosen for one rule would leave the
// documented domain on another of the targeted rules.
func bzRisky(m *bzModel, targets []string, cmd []string) bool {
	for _, t := range targets {
		ss, _ := m.targetStmts(t)
		for _, s := range ss {
			if len(cmd) < 2 {
				continue
			}
			for _, i := range []int{1, 2} {
				if i >= len(cmd) {
					continue
				}
				v := attrOf(s.n, cmd[i])
				if v == nil {
					continue
				}
				switch {
				case cmd[0] == "add" || cmd[0] == "move":
					if !listLike(v) && !(v.K == "Id" && v.S == "SOME_VAR") {
						return true
					}
				case strings.HasPrefix(cmd[0], "dict_"):
					if v.K != "Dict" {
						return true
					}
					if cmd[0] == "dict_list_add" {
						if kv := dictFind(v, cmd[2]); kv != nil && kv.C[1].K != "List" {
							return true
						}
					}
				}
			}
		}
	}
	return cmd[0] == "delete" && len(targets) > 1 || cmd[0] == "new" || cmd[0] == "copy" || cmd[0] == "copy_no_overwrite" || cmd[0] == "rename"
}
