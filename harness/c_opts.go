package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func init() { checks["C47"] = checkC47 }

// ---- C47: buildozer's options ----

type optItem struct {
	v      string
	before string // comments
	suffix string
}

// optTerm is a name (or call), or a list if id is empty.
type optTerm struct {
	id    string
	items []*optItem
}

type optVal []*optTerm

type optStmt struct {
	op    string // of an assignment
	name  string // of a variable or rule
	kind  string
	val   optVal
	attrs []string
	vals  map[string]optVal
}

func (v optVal) clone() (o optVal) {
	for _, t := range v {
		n := &optTerm{id: t.id}
		for _, i := range t.items {
			c := *i
			n.items = append(n.items, &c)
		}
		o = append(o, n)
	}
	return
}

func (v optVal) plain() bool { return len(v) == 1 && v[0].id == "" }

func (v optVal) text(ind string) string {
	var l []string
	for _, t := range v {
		if t.id != "" {
			l = append(l, t.id)
			continue
		}
		s := "["
		com := false
		for _, i := range t.items {
			com = com || i.before+i.suffix != ""
		}
		for k, i := range t.items {
			if com {
				s += "\n"
				if i.before != "" {
					s += ind + "    # " + i.before + "\n"
				}
				s += ind + "    " + bzQuote(i.v) + ","
				if i.suffix != "" {
					s += "  # " + i.suffix
				}
				continue
			}
			if k > 0 {
				s += ", "
			}
			s += bzQuote(i.v)
		}
		if com {
			s += "\n" + ind
		}
		l = append(l, s+"]")
	}
	return strings.Join(l, " + ")
}

type optCase struct {
	r     *rand.Rand
	pkg   string
	n     int
	st    []*optStmt
	flags []string

	shorten, delCom, editVars, eol, quiet, stdout bool

	comments []optComment
}

type optComment struct{ token, rule, attr, value string }

func (k *optCase) label() string {
	return pick(k.r, ":a", "a", ":b.cc", "b.cc", "//"+k.pkg+":a", "//"+k.pkg+":b.cc", "//x/y", "//x/y:y", "//x/y:z", "@repo//p", "@repo//p:p", "@repo//p:t", "//"+k.pkg+":new", ":n1", "//"+k.pkg, "//z:z", "n2.cc")
}

func (k *optCase) com() string {
	k.n++
	return fmt.Sprintf("n%dx", k.n)
}

func (k *optCase) list() *optTerm {
	t := &optTerm{}
	seen := map[string]bool{}
	for n := k.r.Intn(5); n > 0; n-- {
		i := &optItem{v: k.label()}
		if seen[refNorm(i.v, k.pkg)] {
			continue
		}
		seen[refNorm(i.v, k.pkg)] = true
		if k.r.Intn(5) == 0 {
			i.before = k.com()
		}
		if k.r.Intn(5) == 0 {
			i.suffix = k.com()
		}
		t.items = append(t.items, i)
	}
	return t
}

func (k *optCase) value(vars []string) optVal {
	r := k.r
	id := func() *optTerm {
		if len(vars) == 0 || r.Intn(6) == 0 {
			return &optTerm{id: pick(r, "OTHER", "f(x)", "x.Y")}
		}
		return &optTerm{id: vars[r.Intn(len(vars))]}
	}
	switch r.Intn(8) {
	case 0, 1, 2:
		return optVal{id()}
	case 3:
		return optVal{id(), k.list()}
	case 4:
		return optVal{k.list(), id()}
	}
	return optVal{k.list()}
}

func (k *optCase) generate() {
	r := k.r
	var vars []string
	rule := 0
	for n := 2 + r.Intn(6); n > 0 || rule == 0; n-- {
		if r.Intn(5) < 2 {
			s := &optStmt{op: "=", name: pick(r, "V0", "V1", "V2")}
			has := false
			for _, v := range vars {
				has = has || v == s.name
			}
			if has && r.Intn(2) == 0 {
				s.op = "+="
				s.val = optVal{k.list()}
			} else if len(vars) > 0 && r.Intn(5) == 0 {
				s.val = k.value(vars)
			} else {
				s.val = optVal{k.list()}
			}
			if s.op == "=" {
				// The old list is gone.
				// ':*' takes calls on the right for rules.
				for _, t := range s.val {
					if t.id == s.name || t.id == "f(x)" {
						t.id = "OTHER"
					}
				}
			}
			k.st = append(k.st, s)
			if !has {
				vars = append(vars, s.name)
			}
			continue
		}
		s := &optStmt{name: fmt.Sprintf("r%d", rule), kind: pick(r, "cc_library", "cc_library", "my_rule", "my_rule", "cc_test", "cc_test", "my.cc_test", "native.cc_library", "my_rule_x"), vals: map[string]optVal{}}
		rule++
		for _, a := range []string{"srcs", "deps", "data"} {
			if r.Intn(3) > 0 {
				s.attrs = append(s.attrs, a)
				s.vals[a] = k.value(vars)
			}
		}
		k.st = append(k.st, s)
	}
}

func (k *optCase) text() string {
	s := ""
	for _, st := range k.st {
		if st.op != "" {
			s += st.name + " " + st.op + " " + st.val.text("") + "\n\n"
			continue
		}
		s += st.kind + "(\n    name = \"" + st.name + "\",\n"
		for _, a := range st.attrs {
			s += "    " + a + " = " + st.vals[a].text("    ") + ",\n"
		}
		s += ")\n\n"
	}
	return strings.TrimRight(s, "\n") + "\n"
}

// find gives the items of all lists that are the label.
func (v optVal) find(label, pkg string) (l []*optItem) {
	for _, t := range v {
		for _, i := range t.items {
			if refNorm(i.v, pkg) == refNorm(label, pkg) {
				l = append(l, i)
			}
		}
	}
	return
}

func (k *optCase) addTo(v optVal, i *optItem) optVal {
	if len(v.find(i.v, k.pkg)) > 0 {
		return v
	}
	for _, t := range v {
		if t.id == "" {
			t.items = append(t.items, i)
			return v
		}
	}
	return append(v, &optTerm{items: []*optItem{i}})
}

// add is what adding to an attribute means.
func (k *optCase) add(at int, attr string, i *optItem) {
	s := k.st[at]
	v, ok := s.vals[attr]
	if ok && k.editVars && len(v) == 1 && v[0].id != "" {
		for j := at - 1; j >= 0; j-- {
			if k.st[j].op != "" && k.st[j].name == v[0].id {
				k.st[j].val = k.addTo(k.st[j].val, i)
				return
			}
		}
	}
	if !ok {
		s.attrs = append(s.attrs, attr)
	}
	s.vals[attr] = k.addTo(v, i)
}

func (k *optCase) drop(s *optStmt, attr string) {
	delete(s.vals, attr)
	for j, a := range s.attrs {
		if a == attr {
			s.attrs = append(s.attrs[:j:j], s.attrs[j+1:]...)
			break
		}
	}
}

// del removes a label from the lists of an attribute.
func (k *optCase) del(s *optStmt, attr, label string) (deleted *optItem) {
	v := s.vals[attr]
	for _, t := range v {
		var keep []*optItem
		for _, i := range t.items {
			if refNorm(i.v, k.pkg) == refNorm(label, k.pkg) && (k.delCom || i.before+i.suffix == "") {
				deleted = i
				continue
			}
			keep = append(keep, i)
		}
		t.items = keep
	}
	if deleted != nil && v.plain() && len(v[0].items) == 0 {
		k.drop(s, attr)
	}
	return
}

// resolve drops the empty lists of a concatenation.
func (s *optStmt) resolve(attr string) {
	var l optVal
	for _, t := range s.vals[attr] {
		if t.id != "" || len(t.items) > 0 {
			l = append(l, t)
		}
	}
	if len(s.vals[attr]) > 1 {
		s.vals[attr] = l
	}
}

func (k *optCase) apply(at int, c []string) {
	s := k.st[at]
	switch c[0] {
	case "add":
		for _, v := range c[2:] {
			if k.shorten {
				v = refShorten(v, k.pkg)
			}
			k.add(at, c[1], &optItem{v: v})
		}
		s.resolve(c[1])
	case "remove":
		var d *optItem
		for _, v := range c[2:] {
			if x := k.del(s, c[1], v); x != nil {
				d = x
			}
		}
		if d != nil {
			s.resolve(c[1])
		}
	case "move":
		for _, v := range c[3:] {
			if d := k.del(s, c[1], v); d != nil {
				k.add(at, c[2], d)
			}
		}
	case "comment":
		v, ok := s.vals[c[1]]
		if !ok {
			return
		}
		token := c[len(c)-1]
		// A new comment takes the place of the one at this end.
		if len(c) == 4 {
			l := v.find(c[2], k.pkg)
			if len(l) == 0 {
				return
			}
			if k.eol {
				l[0].suffix = token
			} else {
				l[0].before = token
			}
			k.comments = append(k.comments, optComment{token, s.name, c[1], l[0].v})
			return
		}
		k.comments = append(k.comments, optComment{token, s.name, c[1], ""})
	}
}

// optTerms reads an expression the way the model holds it.
func optTerms(n *N) (o [][]string) {
	switch {
	case n.K == "Bin" && n.S == "+":
		return append(optTerms(n.C[0]), optTerms(n.C[1])...)
	case n.K == "List":
		l := []string{"["}
		for _, e := range n.C {
			l = append(l, e.S)
		}
		return [][]string{l}
	}
	return [][]string{{n.String()}}
}

func (k *optCase) norm(o [][]string) string {
	var l []string
	for _, t := range o {
		if len(t) == 0 || t[0] != "[" {
			l = append(l, strings.Join(t, ""))
			continue
		}
		var e []string
		for _, x := range t[1:] {
			if k.shorten {
				x = refNorm(x, k.pkg)
			}
			e = append(e, x)
		}
		sort.Strings(e)
		if len(e) == 0 && len(o) > 1 {
			continue
		}
		l = append(l, "["+strings.Join(e, " ")+"]")
	}
	return strings.Join(l, " + ")
}

func (k *optCase) normVal(v optVal) string {
	var o [][]string
	for _, t := range v {
		if t.id != "" {
			n, _ := starParse("_ = " + t.id + "\n")
			o = append(o, []string{n.C[0].C[1].String()})
			continue
		}
		l := []string{"["}
		for _, i := range t.items {
			l = append(l, i.v)
		}
		o = append(o, l)
	}
	return k.norm(o)
}

func checkC47(c *Ctx) {
	c.Rule("generated BUILD files with variables (assigned, extended, reassigned), concatenations and commented items, edited by the buildozer binary with add, remove, move and comment under random combinations of -shorten_labels, -delete_with_comments, -edit-variables, -eol-comments, -quiet, -stdout and -types; every variable and attribute against a model of the documented options, the place of every new comment, what is printed and where, and that nothing is written with -stdout. Distinct non-trivial: distinct (options, commands, outcome).")
	c.parallel(c.N(6000, 120000), 8, 4700, func(i int, r *rand.Rand) {
		k := &optCase{r: r, pkg: pick(r, "pkg", "x/y", "a/b"), shorten: r.Intn(2) == 0, delCom: r.Intn(2) == 0, editVars: r.Intn(2) == 0, eol: r.Intn(2) == 0, quiet: r.Intn(3) == 0, stdout: r.Intn(4) == 0}
		set := func(name string, v, def bool) {
			if v != def || r.Intn(3) == 0 {
				k.flags = append(k.flags, fmt.Sprintf("%s-%s=%v", pick(r, "", "-"), name, v))
			}
		}
		set("shorten_labels", k.shorten, true)
		set("delete_with_comments", k.delCom, true)
		set("edit-variables", k.editVars, false)
		set("eol-comments", k.eol, true)
		set("quiet", k.quiet, false)
		set("stdout", k.stdout, false)
		r.Shuffle(len(k.flags), func(a, b int) { k.flags[a], k.flags[b] = k.flags[b], k.flags[a] })
		types := map[string]bool{}
		if r.Intn(5) == 0 {
			var l []string
			for n := 1 + r.Intn(2); n > 0; n-- {
				t := pick(r, "cc_library", "my_rule", "cc_test", "my.cc_test")
				if !types[t] {
					l = append(l, t)
				}
				types[t] = true
			}
			k.flags = append(k.flags, "-types="+strings.Join(l, ","))
		}
		k.generate()
		text := k.text()
		// commands and targets
		var rules []int
		for j, s := range k.st {
			if s.op == "" {
				rules = append(rules, j)
			}
		}
		attr := func() string { return pick(r, "srcs", "deps", "data") }
		var cmds [][]string
		var args []string
		for n := 1 + r.Intn(3); n > 0; n-- {
			var cm []string
			switch r.Intn(6) {
			case 0, 1:
				cm = []string{"add", attr()}
			case 2, 3:
				cm = []string{"remove", attr()}
			case 4:
				cm = []string{"move", "srcs", pick(r, "deps", "data")}
			default:
				cm = []string{"comment", attr()}
				if r.Intn(3) > 0 {
					cm = append(cm, k.label())
				}
				cm = append(cm, k.com())
				cmds = append(cmds, cm)
				args = append(args, strings.Join(cm, " "))
				continue
			}
			for v := 1 + r.Intn(2); v > 0; v-- {
				cm = append(cm, k.label())
			}
			cmds = append(cmds, cm)
			args = append(args, strings.Join(cm, " "))
		}
		targets := map[int]bool{}
		order := []int{}
		if r.Intn(4) == 0 {
			args = append(args, "//"+k.pkg+":*")
			order = rules
		} else {
			for n := 1 + r.Intn(2); n > 0; n-- {
				j := rules[r.Intn(len(rules))]
				if !targets[j] {
					targets[j] = true
					order = append(order, j)
					args = append(args, "//"+k.pkg+":"+k.st[j].name)
				}
			}
		}
		in := fmt.Sprintf("buildozer %q in\n%s", append(append([]string{}, k.flags...), args...), text)
		c.Case(in)
		// All commands on one target, then the next. Over ':*' each command
		// goes through all rules.
		all := strings.HasSuffix(args[len(args)-1], ":*")
		do := func(j int, cm []string) {
			if len(types) == 0 || types[k.st[j].kind] {
				k.apply(j, cm)
			}
		}
		if all {
			for _, cm := range cmds {
				for _, j := range order {
					do(j, cm)
				}
			}
		} else {
			for _, j := range order {
				for _, cm := range cmds {
					do(j, cm)
				}
			}
		}
		dir, tmp, done := c.scratchWS(r, map[string]string{"WORKSPACE": "", k.pkg + "/BUILD": text})
		defer done()
		res := c.runBin(dir, tmp, "", nil, "buildozer", append(append([]string{}, k.flags...), args...)...)
		if x := res.crashed(); x != "" {
			c.Violate("crash:"+x, res.String(), in)
			return
		}
		if res.code != 0 && res.code != 3 {
			c.Violate("error", res.String(), in)
			return
		}
		b, _ := os.ReadFile(filepath.Join(dir, k.pkg, "BUILD"))
		after := string(b)
		if k.stdout {
			if after != text {
				c.Violate("written", "the file was written\n"+after, in)
				return
			}
			if res.out != "" {
				after = res.out
			}
		} else if res.out != "" {
			c.Violate("printed", res.String(), in)
			return
		}
		if fixed := strings.Contains(res.err, "fixed "); fixed != (string(b) != text && !k.quiet) {
			c.Violate("quiet", res.String(), in)
			return
		}
		if k.quiet && res.err != "" {
			c.Violate("quiet", res.String(), in)
			return
		}
		got, err := starParse(after)
		if err != nil {
			c.Violate("invalid", err.Error()+"\n"+after, in)
			return
		}
		if len(got.C) != len(k.st) {
			c.Violate("statements", after, in)
			return
		}
		for j, s := range k.st {
			n := got.C[j]
			if s.op != "" {
				if n.K != "Assign" || n.S != s.op || n.C[0].S != s.name {
					c.Violate("statements", after, in)
					return
				}
				if x, y := k.normVal(s.val), k.norm(optTerms(n.C[1])); x != y {
					c.Violate("variable", fmt.Sprintf("%s is %s, should be %s\n%s", s.name, y, x, after), in)
					return
				}
				continue
			}
			for _, a := range []string{"srcs", "deps", "data"} {
				v, ok := s.vals[a]
				w := attrOf(n, a)
				if ok != (w != nil) {
					c.Violate("attribute", fmt.Sprintf("%s of %s: %v, should be %v\n%s", a, s.name, w, k.normVal(v), after), in)
					return
				}
				if !ok {
					continue
				}
				if x, y := k.normVal(v), k.norm(optTerms(w)); x != y {
					c.Violate("attribute", fmt.Sprintf("%s of %s is %s, should be %s\n%s", a, s.name, y, x, after), in)
					return
				}
			}
		}
		// Items that stay keep their comments in their place.
		lines := strings.Split(after, "\n")
		lineOf := func(token string) int {
			re := regexp.MustCompile(`\b` + token + `\b`)
			for j, l := range lines {
				if re.MatchString(l) {
					return j
				}
			}
			return -1
		}
		check := func(v optVal) bool {
			for _, t := range v {
				for _, i := range t.items {
					is := func(l string) bool {
						m := regexp.MustCompile(`^\s*(\w+ \+?= )?[^"#]*"([^"]*)"`).FindStringSubmatch(l)
						return m != nil && refNorm(m[2], k.pkg) == refNorm(i.v, k.pkg)
					}
					if i.suffix != "" {
						if j := lineOf(i.suffix); j < 0 || !is(lines[j]) {
							c.Violate("comment-place", fmt.Sprintf("comment %s belongs to %s\n%s", i.suffix, i.v, after), in)
							return false
						}
					}
					if i.before != "" {
						j := lineOf(i.before)
						for j >= 0 && j < len(lines) && strings.HasPrefix(strings.TrimSpace(lines[j]), "#") {
							j++
						}
						if j < 0 || j == len(lines) || !is(lines[j]) || lineOf(i.before) == j {
							c.Violate("comment-place", fmt.Sprintf("comment %s belongs in front of %s\n%s", i.before, i.v, after), in)
							return false
						}
					}
				}
			}
			return true
		}
		for _, s := range k.st {
			if s.op != "" && !check(s.val) {
				return
			}
			for _, v := range s.vals {
				if !check(v) {
					return
				}
			}
		}
		c.Count("runs with exit "+fmt.Sprint(res.code), 1)
		c.Count("new comments", len(k.comments))
		sort.Strings(k.flags)
		var names []string
		for _, cm := range cmds {
			names = append(names, cm[0])
		}
		c.Eval(fmt.Sprint(k.flags, names, res.code, len(order)))
		c.Sample(in)
	})
}
