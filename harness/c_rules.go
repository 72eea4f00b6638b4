package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
)

func init() { checks["C43"] = checkC43 }

// ---- C43: the rule API of the build package against a model of the file ----

// rval is the value of an attribute: its source and what the accessors return.
type rval struct {
	src     string
	str     string   // AttrString
	lit     string   // AttrLiteral
	list    []string // AttrStrings
	hasList bool
}

type rarg struct {
	key string // "" = positional
	val rval
}

// rrule is the model of one call.
type rrule struct {
	kind string // "" = the callee is no name
	fn   string // the callee's source
	args []*rarg
	line int
}

type rstmt struct {
	pre, post string // source around the rules
	rules     []*rrule
	sep       string
	top       bool // the statement is the call itself
}

type rmodel struct {
	path  string
	stmts []*rstmt
}

var apiKinds = []string{"cc_library", "java_library", "native.cc_library", "my_rule", "package", "a.b.c", "exports_files", "sh_test", "cc_librar", "native"}
var ruleApiNames = []string{"a", "b", "lib", "pkg", "foo", "foo.bar", "x/y", "A"}
var apiAttrs = []string{"name", "srcs", "deps", "visibility", "testonly", "nam", "names", "tags", "copts", "default_visibility"}

func genRval(r *rand.Rand) rval {
	q := func(s string) string { return `"` + s + `"` }
	switch r.Intn(14) {
	case 0, 1, 2:
		s := ruleApiNames[r.Intn(len(ruleApiNames))]
		return rval{src: q(s), str: s}
	case 3:
		return rval{src: `""`}
	case 4:
		id := []string{"True", "X", "None"}[r.Intn(3)]
		return rval{src: id, lit: id}
	case 5:
		n := []string{"1", "42", "0x1F", "1.5"}[r.Intn(4)]
		return rval{src: n, lit: n}
	case 6, 7, 8:
		n := r.Intn(4)
		l, it := []string{}, []string{}
		for i := 0; i < n; i++ {
			s := ":" + ruleApiNames[r.Intn(len(ruleApiNames))]
			l, it = append(l, s), append(it, q(s))
		}
		return rval{src: "[" + strings.Join(it, ", ") + "]", list: l, hasList: true}
	case 9:
		return rval{src: `["a", X, "b"]`}
	case 10:
		return rval{src: `["a"] + ["b"]`}
	case 11:
		return rval{src: `glob(["*.cc"], name = "inner")`}
	case 12:
		return rval{src: `("a", "b")`}
	default:
		return rval{src: `{"name": "dict"}`}
	}
}

func genRrule(r *rand.Rand) *rrule {
	ru := &rrule{kind: apiKinds[r.Intn(len(apiKinds))]}
	ru.fn = ru.kind
	if r.Intn(12) == 0 {
		ru.kind, ru.fn = "", []string{"f()", "x[0]", "f(name = \"g\").rule", "(a or b)", `"s".join`}[r.Intn(5)]
	}
	used := map[string]bool{}
	if r.Intn(5) == 0 {
		ru.args = append(ru.args, &rarg{"", genRval(r)})
	}
	if r.Intn(4) > 0 {
		v := rval{}
		for v.str == "" || r.Intn(12) == 0 && len(v.src) > 0 {
			v = genRval(r)
			if r.Intn(8) == 0 {
				break
			}
		}
		ru.args = append(ru.args, &rarg{"name", v})
		used["name"] = true
	}
	for n := r.Intn(4); n > 0; n-- {
		k := apiAttrs[r.Intn(len(apiAttrs))]
		if used[k] {
			continue
		}
		used[k] = true
		a := &rarg{k, genRval(r)}
		if r.Intn(3) == 0 && len(ru.args) > 0 && ru.args[0].key != "" {
			ru.args = append([]*rarg{a}, ru.args...)
		} else {
			ru.args = append(ru.args, a)
		}
	}
	if r.Intn(10) == 0 {
		ru.args = append(ru.args, &rarg{"", rval{src: "*name"}})
	}
	if r.Intn(10) == 0 {
		ru.args = append(ru.args, &rarg{"", rval{src: "**name"}})
	}
	return ru
}

func genRmodel(r *rand.Rand) *rmodel {
	m := &rmodel{path: []string{"BUILD", "lib/BUILD", "x/pkg/BUILD.bazel", "/abs/foo/BUILD", "a/BUILD"}[r.Intn(5)]}
	for n := 1 + r.Intn(6); n > 0; n-- {
		one := func() []*rrule { return []*rrule{genRrule(r)} }
		st := &rstmt{sep: ", "}
		switch r.Intn(16) {
		case 0:
			st.pre, st.rules = "x = ", one()
		case 1:
			st.pre, st.rules, st.post = "[", one(), " for x in xs(name = \"n\") if c(1)]"
		case 2:
			st.pre, st.rules, st.post = "[", append(one(), genRrule(r)), "]"
		case 3:
			st.pre = "load(\":b.bzl\", \"name\")"
		case 4:
			st.pre, st.rules, st.post = "def f():\n    ", one(), "\n    return 1"
		case 5:
			st.pre, st.rules, st.sep, st.post = "if c:\n    ", append(one(), genRrule(r)), "\nelse:\n    ", ""
		case 6:
			st.pre = "outer(inner(name = \"no\"), k = rule(name = \"lib\"))\n\"doc\""
			st.pre = "\"\"\"doc name = 1\"\"\""
		case 7:
			st.pre, st.rules, st.post = "d = {\"k\": ", one(), "}"
		case 8:
			st.pre, st.rules, st.post = "for i in l:\n    ", one(), ""
		case 9:
			st.pre = "# only a comment"
		default:
			st.rules, st.top = one(), true
		}
		m.stmts = append(m.stmts, st)
	}
	return m
}

// render gives the source and notes the lines rules start on.
func (m *rmodel) render(r *rand.Rand) string {
	var sb strings.Builder
	for _, st := range m.stmts {
		sb.WriteString(st.pre)
		for i, ru := range st.rules {
			if i > 0 {
				sb.WriteString(st.sep)
			}
			if r != nil {
				ru.line = strings.Count(sb.String(), "\n") + 1
			}
			sb.WriteString(ru.source(r))
		}
		sb.WriteString(st.post + "\n")
		if r != nil {
			for k := r.Intn(3); k > 0; k-- {
				sb.WriteString("\n")
			}
		}
	}
	return sb.String()
}

func (ru *rrule) source(r *rand.Rand) string {
	var it []string
	for _, a := range ru.args {
		if a.key == "" {
			it = append(it, a.val.src)
		} else {
			it = append(it, a.key+" = "+a.val.src)
		}
	}
	if r != nil && r.Intn(2) == 0 && len(it) > 0 {
		return ru.fn + "(\n        " + strings.Join(it, ",\n        ") + ")"
	}
	return ru.fn + "(" + strings.Join(it, ", ") + ")"
}

func (ru *rrule) find(key string) (int, *rarg) {
	for i, a := range ru.args {
		if a.key == key && key != "" {
			return i, a
		}
	}
	return -1, nil
}

func (ru *rrule) explicit() string {
	if _, a := ru.find("name"); a != nil {
		return a.val.str
	}
	return ""
}

// implicit is the name unnamed rules of the file have.
func (m *rmodel) implicit() string {
	dir := filepath.Dir(m.path)
	if dir == "." {
		return ""
	}
	base, n := filepath.Base(dir), 0
	for _, st := range m.stmts {
		if !st.top {
			continue
		}
		ru := st.rules[0]
		if ru.explicit() == base {
			return ""
		}
		if ru.kind != "" && ru.explicit() == "" {
			n++
		}
	}
	if n == 1 {
		return base
	}
	return ""
}

func (ru *rrule) name(implicit string) string {
	if e := ru.explicit(); e != "" || ru.kind == "package" {
		return e
	}
	return implicit
}

func (m *rmodel) rules(kind string) (out []*rrule) {
	for _, st := range m.stmts {
		for _, ru := range st.rules {
			if kind == "" || ru.kind == kind {
				out = append(out, ru)
			}
		}
	}
	return
}

// ruleFacts compares everything the accessors of one rule tell with the model.
func ruleFacts(got *build.Rule, ru *rrule, implicit string) string {
	if k := got.Kind(); k != ru.kind {
		return fmt.Sprintf("Kind() = %q, want %q", k, ru.kind)
	}
	if e := got.ExplicitName(); e != ru.explicit() {
		return fmt.Sprintf("ExplicitName() = %q, want %q", e, ru.explicit())
	}
	if n, want := got.Name(), ru.name(implicit); n != want {
		return fmt.Sprintf("Name() = %q, want %q", n, want)
	}
	var keys []string
	for _, a := range ru.args {
		if a.key != "" {
			keys = append(keys, a.key)
		}
	}
	if k := got.AttrKeys(); strings.Join(k, " ") != strings.Join(keys, " ") {
		return fmt.Sprintf("AttrKeys() = %q, want %q", k, keys)
	}
	for _, key := range append(append([]string{}, apiAttrs...), "nosuch") {
		_, a := ru.find(key)
		v := rval{}
		if a != nil {
			v = a.val
		}
		if s := got.AttrString(key); s != v.str {
			return fmt.Sprintf("AttrString(%q) = %q, want %q", key, s, v.str)
		}
		if s := got.AttrLiteral(key); s != v.lit {
			return fmt.Sprintf("AttrLiteral(%q) = %q, want %q", key, s, v.lit)
		}
		l := got.AttrStrings(key)
		if (l != nil) != v.hasList || strings.Join(l, "|") != strings.Join(v.list, "|") || len(l) != len(v.list) {
			return fmt.Sprintf("AttrStrings(%q) = %#v, want %#v", key, l, v.list)
		}
		e, d := got.Attr(key), got.AttrDefn(key)
		if (e != nil) != (a != nil) || (d != nil) != (a != nil) {
			return fmt.Sprintf("Attr(%q) = %v, AttrDefn = %v, want present: %v", key, e, d, a != nil)
		}
		if a != nil {
			if d.RHS != e || build.FormatString(e) != build.FormatString(mustExpr(v.src)) {
				return fmt.Sprintf("Attr(%q) = %s, want %s", key, build.FormatString(e), v.src)
			}
		}
	}
	return ""
}

func mustExpr(src string) build.Expr {
	f, err := build.ParseDefault("e.bzl", []byte("x = "+src+"\n"))
	if err != nil {
		panic(err)
	}
	return f.Stmt[0].(*build.AssignExpr).RHS
}

func checkC43(c *Ctx) {
	c.Rule("files of rules in every position (statements, assignments, lists, dictionaries, comprehensions, blocks, functions) with all kinds of names and attribute values; every look-up and accessor of the rule API is compared with a model before and after each of a random sequence of edits through it (SetAttr, DelAttr, SetKind, DelRules, handles kept across edits), and the printed file, read by go.starlark.net, with the model's. Distinct non-trivial: distinct files with at least one edit.")
	one := func(i int) {
		r := rand.New(rand.NewSource(c.Seed*6151 + int64(i)*7919 + 43))
		m := genRmodel(r)
		src := m.render(r)
		log := "file " + m.path + ":\n" + src
		c.Case(log)
		c.Guard("rule api", log, func() {
			f, err := build.ParseBuild(m.path, []byte(src))
			if err != nil {
				c.Violate("parse", err.Error(), log)
				return
			}
			f.Path = m.path
			fail := func(what, detail string) { c.Violate(what, detail, log) }
			handles := map[*rrule]*build.Rule{}
			edited, kept := 0, map[*rrule]*build.Rule{}

			compare := func() bool {
				imp := m.implicit()
				kinds := append([]string{""}, apiKinds...)
				kinds = append(kinds, "nosuch")
				for _, k := range kinds {
					want, got := m.rules(k), f.Rules(k)
					if len(want) != len(got) {
						fail("rules", fmt.Sprintf("Rules(%q) returns %d rules, want %d", k, len(got), len(want)))
						return false
					}
					for j := range want {
						if d := ruleFacts(got[j], want[j], imp); d != "" {
							fail("facts", fmt.Sprintf("Rules(%q)[%d]: %s", k, j, d))
							return false
						}
						if h := kept[want[j]]; h != nil && h.Call != got[j].Call {
							fail("identity", fmt.Sprintf("Rules(%q)[%d] is another call than before", k, j))
							return false
						}
						handles[want[j]] = got[j]
					}
				}
				for _, n := range append([]string{"", "name", "no", "inner", "n"}, ruleApiNames...) {
					var want *rrule
					cnt := 0
					for _, ru := range m.rules("") {
						if ru.name(imp) == n {
							want = ru
							cnt++
						}
					}
					got := f.RuleNamed(n)
					if (got != nil) != (cnt == 1) || got != nil && got.Call != handles[want].Call {
						fail("named", fmt.Sprintf("RuleNamed(%q) finds %v, %d rules have the name", n, got != nil, cnt))
						return false
					}
				}
				out := string(build.FormatWithoutRewriting(f))
				a, e1 := starParse(out)
				b, e2 := starParse(m.render(nil))
				if e1 != nil || e2 != nil {
					fail("reparse", fmt.Sprintf("%v %v\n%s", e1, e2, out))
					return false
				}
				if d := firstDiff(b, a, ""); d != "" {
					fail("tree", "the printed file is not the model's: "+d+"\n"+out)
					return false
				}
				return true
			}
			if !compare() {
				return
			}
			// lines: only in a tree as parsed
			for line := 0; line <= strings.Count(src, "\n")+1; line++ {
				cnt := 0
				var want *rrule
				for _, ru := range m.rules("") {
					if ru.line == line {
						cnt++
						want = ru
					}
				}
				got := f.RuleAt(line)
				if (got != nil) != (cnt == 1) || got != nil && got.Call != handles[want].Call {
					fail("at", fmt.Sprintf("RuleAt(%d) finds %v, %d rules start there", line, got != nil, cnt))
					return
				}
			}
			for k, v := range handles {
				kept[k] = v
			}
			for n := 1 + r.Intn(6); n > 0; n-- {
				all := m.rules("")
				if len(all) == 0 {
					break
				}
				ru := all[r.Intn(len(all))]
				h := kept[ru]
				key := apiAttrs[r.Intn(len(apiAttrs))]
				switch op := r.Intn(8); op {
				case 0, 1, 2:
					v := genRval(r)
					log += fmt.Sprintf("SetAttr of the rule on line %d: %s = %s\n", ru.line, key, v.src)
					c.Case(log)
					if strings.HasPrefix(v.src, "*") {
						continue
					}
					pos, a := ru.find(key)
					if a == nil && len(ru.args) > 0 && strings.HasPrefix(ru.args[len(ru.args)-1].val.src, "*") {
						continue // it would have to be put before *args
					}
					h.SetAttr(key, mustExpr(v.src))
					if pos >= 0 {
						ru.args[pos] = &rarg{key, v}
					} else {
						ru.args = append(ru.args, &rarg{key, v})
					}
				case 3, 4:
					log += fmt.Sprintf("DelAttr of the rule on line %d: %s\n", ru.line, key)
					c.Case(log)
					old := h.Attr(key)
					got := h.DelAttr(key)
					if old != got {
						fail("delattr", fmt.Sprintf("DelAttr returns %v, the value was %v", got, old))
						return
					}
					if pos, _ := ru.find(key); pos >= 0 {
						ru.args = append(append([]*rarg{}, ru.args[:pos]...), ru.args[pos+1:]...)
					}
				case 5:
					k := apiKinds[r.Intn(len(apiKinds))]
					log += fmt.Sprintf("SetKind of the rule on line %d: %s\n", ru.line, k)
					c.Case(log)
					h.SetKind(k)
					ru.kind, ru.fn = k, k
				default:
					kind, name := "", ""
					imp := m.implicit()
					if r.Intn(3) > 0 {
						kind = ru.kind
					}
					if r.Intn(4) > 0 {
						name = ru.name(imp)
					}
					if kind == "" && name == "" && r.Intn(4) > 0 {
						continue
					}
					log += "DelRules " + strconv.Quote(kind) + " " + strconv.Quote(name) + "\n"
					c.Case(log)
					// the number of unnamed rules does not change while one call deletes
					var keep []*rstmt
					cnt := 0
					for _, st := range m.stmts {
						if st.top && (kind == "" || st.rules[0].kind == kind) && (name == "" || st.rules[0].name(imp) == name) {
							cnt++
							continue
						}
						keep = append(keep, st)
					}
					got := f.DelRules(kind, name)
					if got != cnt {
						fail("delrules", fmt.Sprintf("DelRules(%q, %q) deletes %d rules, want %d", kind, name, got, cnt))
						return
					}
					m.stmts = keep
				}
				edited++
				if !compare() {
					return
				}
				c.Count("edits", 1)
			}
			key := ""
			if edited > 0 {
				key = log
			}
			c.Eval(key)
			c.Sample(log)
		})
	}
	for i, n := 0, c.N(6000, 120000); i < n && !c.Failed(); i++ {
		one(i)
	}
}
