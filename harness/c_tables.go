package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"
)

func init() { checks["C38"] = checkTables }

// tblDefs is one set of tables as the reference keeps it.
type tblDefs struct {
	bools          map[string]map[string]bool // table name -> key -> value
	prio           map[string]int
	strip, shorten bool
}

var tblNames = []string{"IsLabelArg", "LabelDenylist", "IsListArg", "IsSortableListArg", "SortableDenylist", "SortableAllowlist"}

func tblGlobals() []*map[string]bool {
	return []*map[string]bool{&tables.IsLabelArg, &tables.LabelDenylist, &tables.IsListArg, &tables.IsSortableListArg, &tables.SortableDenylist, &tables.SortableAllowlist}
}

// tblRead copies the tables in memory.
func tblRead() *tblDefs {
	d := &tblDefs{bools: map[string]map[string]bool{}, prio: map[string]int{}, strip: tables.StripLabelLeadingSlashes, shorten: tables.ShortenAbsoluteLabelsToRelative}
	for i, g := range tblGlobals() {
		m := map[string]bool{}
		for k, v := range *g {
			m[k] = v
		}
		d.bools[tblNames[i]] = m
	}
	for k, v := range tables.NamePriority {
		d.prio[k] = v
	}
	return d
}

// tblWrite puts copies of the tables in memory.
func tblWrite(d *tblDefs) {
	c := d.copy()
	for i, g := range tblGlobals() {
		*g = c.bools[tblNames[i]]
	}
	tables.NamePriority = c.prio
	tables.StripLabelLeadingSlashes, tables.ShortenAbsoluteLabelsToRelative = d.strip, d.shorten
}

func (d *tblDefs) copy() *tblDefs {
	c := &tblDefs{bools: map[string]map[string]bool{}, prio: map[string]int{}, strip: d.strip, shorten: d.shorten}
	for n, m := range d.bools {
		c.bools[n] = map[string]bool{}
		for k, v := range m {
			c.bools[n][k] = v
		}
	}
	for k, v := range d.prio {
		c.prio[k] = v
	}
	return c
}

func (d *tblDefs) apply(f *tblDefs, merge bool) *tblDefs {
	if !merge {
		c := f.copy()
		for _, n := range tblNames {
			if c.bools[n] == nil {
				c.bools[n] = map[string]bool{}
			}
		}
		return c
	}
	c := d.copy()
	for n, m := range f.bools {
		for k, v := range m {
			c.bools[n][k] = v
		}
	}
	for k, v := range f.prio {
		c.prio[k] = v
	}
	c.strip = c.strip || f.strip
	c.shorten = c.shorten || f.shorten
	return c
}

// diff names the first table and key where two sets differ.
func (d *tblDefs) diff(o *tblDefs) string {
	for _, n := range tblNames {
		for k, v := range d.bools[n] {
			if w, ok := o.bools[n][k]; !ok || v != w {
				return fmt.Sprintf("%s[%q]: got %v, want %v %v", n, k, v, w, ok)
			}
		}
		for k, v := range o.bools[n] {
			if _, ok := d.bools[n][k]; !ok {
				return fmt.Sprintf("%s[%q] is missing, want %v", n, k, v)
			}
		}
	}
	for k, v := range d.prio {
		if w, ok := o.prio[k]; !ok || v != w {
			return fmt.Sprintf("NamePriority[%q]: got %v, want %v %v", k, v, w, ok)
		}
	}
	for k, v := range o.prio {
		if _, ok := d.prio[k]; !ok {
			return fmt.Sprintf("NamePriority[%q] is missing, want %v", k, v)
		}
	}
	if d.strip != o.strip {
		return fmt.Sprintf("StripLabelLeadingSlashes: got %v, want %v", d.strip, o.strip)
	}
	if d.shorten != o.shorten {
		return fmt.Sprintf("ShortenAbsoluteLabelsToRelative: got %v, want %v", d.shorten, o.shorten)
	}
	return ""
}

var (
	tblAttrs = []string{"deps", "srcs", "hdrs", "visibility", "copts", "size", "actual", "data", "main_class", "tools", "zlist", "mine", "other", "aattr", "tags"}
	tblKinds = []string{"java_library", "my_rule", "cc_binary", "genrule", "native.my_rule", "pkg.sub.rule", "alias"}
)

// tblGen makes a set of definitions and its JSON text.
func tblGen(r *rand.Rand) (*tblDefs, string) {
	d := &tblDefs{bools: map[string]map[string]bool{}, prio: map[string]int{}}
	var parts []string
	section := func(name string, v interface{}) {
		b, _ := json.Marshal(v)
		parts = append(parts, fmt.Sprintf("%q: %s", name, b))
	}
	key := func(ctx int) string {
		a := pick(r, tblAttrs...)
		if ctx == 2 || ctx == 1 && r.Intn(3) == 0 {
			return pick(r, tblKinds...) + "." + a
		}
		return a
	}
	for _, n := range tblNames {
		if r.Intn(3) == 0 {
			continue
		}
		ctx := 0
		if n == "LabelDenylist" || n == "SortableDenylist" || n == "SortableAllowlist" {
			ctx = 2
		}
		m := map[string]bool{}
		for k := r.Intn(10); k > 0; k-- {
			m[key(ctx)] = r.Intn(4) != 0
		}
		if ctx == 2 && r.Intn(2) == 0 { // every attribute of one kind
			kind := pick(r, tblKinds...)
			for _, a := range tblAttrs {
				m[kind+"."+a] = r.Intn(5) != 0
			}
		}
		d.bools[n] = m
		section(n, m)
	}
	if r.Intn(3) != 0 {
		for k := r.Intn(12); k > 0; k-- {
			d.prio[key(1)] = r.Intn(200) - 100
		}
		if r.Intn(2) == 0 { // a few values, zero among them, for attributes of one kind and of all kinds
			kind := pick(r, tblKinds...)
			for _, a := range tblAttrs {
				if r.Intn(2) == 0 {
					d.prio[a] = r.Intn(5) - 2
				}
				if r.Intn(2) == 0 {
					d.prio[kind+"."+a] = r.Intn(3) - 1
				}
			}
		}
		if r.Intn(3) == 0 {
			d.prio["name"] = pick(r, -99, 0, 7, 1000)
		}
		section("NamePriority", d.prio)
	}
	if r.Intn(3) == 0 {
		d.strip = r.Intn(2) == 0
		section("StripLabelLeadingSlashes", d.strip)
	}
	if r.Intn(3) == 0 {
		d.shorten = r.Intn(2) == 0
		section("ShortenAbsoluteLabelsToRelative", d.shorten)
	}
	if r.Intn(6) == 0 {
		parts = append(parts, `"Comment": "tables for tests"`)
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	return d, "{" + strings.Join(parts, ",\n ") + "}\n"
}

// tblBad makes a table file that must be rejected.
func tblBad(r *rand.Rand) string {
	_, good := tblGen(r)
	switch r.Intn(8) {
	case 0:
		return good[:len(good)-2]
	case 1:
		return good + "}"
	case 2:
		return `{"IsLabelArg": {"zlist": true}, "NamePriority": {"zlist": "high"}}`
	case 3:
		return `{"IsSortableListArg": {"zlist": true}, "IsLabelArg": ["deps"]}`
	case 4:
		return `{"NamePriority": {"zlist": 1.5}, "IsSortableListArg": {"zlist": true}}`
	case 5:
		return `{"StripLabelLeadingSlashes": "yes", "IsSortableListArg": {"zlist": true}}`
	case 6:
		return ""
	}
	return `[` + good + `]`
}

// tblProbe writes a BUILD file whose formatting depends on the tables.
func tblProbe(r *rand.Rand, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		kind := pick(r, tblKinds...)
		fmt.Fprintf(&sb, "%s(\n", kind)
		attrs := append([]string(nil), tblAttrs...)
		r.Shuffle(len(attrs), func(a, b int) { attrs[a], attrs[b] = attrs[b], attrs[a] })
		attrs = attrs[:2+r.Intn(len(attrs)-2)]
		at := r.Intn(len(attrs) + 1)
		if r.Intn(3) == 0 {
			at = 0
		}
		for k, a := range attrs {
			if k == at {
				fmt.Fprintf(&sb, "    name = \"r%d\",\n", i)
			}
			switch r.Intn(4) {
			case 0:
				fmt.Fprintf(&sb, "    %s = %q,\n", a, tblLabel(r))
			case 1:
				fmt.Fprintf(&sb, "    %s = [%q],\n", a, tblLabel(r))
			default:
				l := []string{"b", "a", "c10", "c", "d", "aa"}
				r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
				var q []string
				for _, s := range l[:2+r.Intn(4)] {
					q = append(q, fmt.Sprintf("%q", s))
				}
				fmt.Fprintf(&sb, "    %s = [%s],\n", a, strings.Join(q, ", "))
			}
		}
		if at == len(attrs) {
			fmt.Fprintf(&sb, "    name = \"r%d\",\n", i)
		}
		sb.WriteString(")\n\n")
	}
	return sb.String()
}

func tblLabel(r *rand.Rand) string {
	return pick(r, "//x/y:y", "//x/y:z", "@r//x:x", "@r//x:y", "@r//:r", ":z", "//p/q:z", "//p/q", "//p/q:q", "//p/qq:z", "//p:q", "x/y:y", "file.txt", "//x:x", "q")
}

var tblRepoRE = regexp.MustCompile(`^@\w+//`)

// refLabelRewrite is the documented effect of the label tables on one string.
func refLabelRewrite(s string, strip, shorten bool, pkg string) string {
	if strip {
		s = strings.TrimPrefix(s, "//")
	}
	pre := "//"
	if strip {
		pre = ""
	}
	if shorten {
		if s == pre+pkg {
			return ":" + pkg[strings.LastIndex(pkg, "/")+1:]
		}
		if strings.HasPrefix(s, pre+pkg+":") {
			return strings.TrimPrefix(s, pre+pkg)
		}
	}
	p, t, ok := strings.Cut(s, ":")
	if !ok {
		return s
	}
	if m := tblRepoRE.FindString(p); m != "" {
		rest := strings.TrimPrefix(p, m)
		if rest == "" {
			if m == "@"+t+"//" {
				return "@" + t
			}
			return s
		}
	} else if strip {
		if p == "" {
			return s
		}
	} else if !strings.HasPrefix(p, "//") {
		return s
	}
	if p[strings.LastIndex(p, "/")+1:] == t {
		return p
	}
	return s
}

// predict transforms the tree of an unformatted file as the tables say.
func (d *tblDefs) predict(n *N, pkg string) *N {
	n = clone(n)
	for _, call := range n.C {
		if call.K == "ExprStmt" && len(call.C) == 1 {
			call = call.C[0]
		}
		if call.K != "Call" {
			continue
		}
		kind := calleeName(call.C[0])
		args := call.C[1:]
		for _, a := range args {
			if a.K != "Named" {
				continue
			}
			ctx := kind + "." + a.S
			v := a.C[0]
			if d.bools["IsLabelArg"][a.S] && !d.bools["LabelDenylist"][ctx] {
				fix := func(s *N) {
					if s.K == "Str" {
						s.S = refLabelRewrite(s.S, d.strip, d.shorten, pkg)
					}
				}
				fix(v)
				if v.K == "List" {
					for _, e := range v.C {
						fix(e)
					}
				}
			}
			if v.K == "List" && !d.bools["SortableDenylist"][ctx] && (d.bools["IsSortableListArg"][a.S] || d.bools["SortableAllowlist"][ctx]) {
				sort.SliceStable(v.C, func(i, j int) bool { return v.C[i].S < v.C[j].S })
			}
		}
		prio := func(a *N) int {
			if p, ok := d.prio[kind+"."+a.S]; ok {
				return p
			}
			return d.prio[a.S]
		}
		sort.SliceStable(args, func(i, j int) bool {
			if p, q := prio(args[i]), prio(args[j]); p != q {
				return p < q
			}
			return args[i].S < args[j].S
		})
	}
	return n
}

func tblWhat(d string) string {
	if i := strings.IndexAny(d, "[:"); i > 0 {
		return d[:i]
	}
	return d
}

func checkTables(c *Ctx) {
	c.Rule("sequences of ParseAndUpdateJSONDefinitions, OverrideTables and MergeTables with generated valid and invalid table files, every table compared key by key with a reference after every step; then generated BUILD files are formatted in process, by buildifier (-tables, -add_tables, .buildifier.json; several files and file types) and edited by buildozer (-tables, -add_tables), and argument order, list order, labels and the list-ness of new attributes compared with what the resulting tables prescribe; invalid table files: exit code, nothing written. Distinct = (table set, probe) pairs")
	c.Assume("attributes that are lists or strings by Bazel's own schema keep their type; StripLabelLeadingSlashes and ShortenAbsoluteLabelsToRelative are predicted for packages below the root")
	base := tblRead()
	defer tblWrite(base)
	if nn := base.prio["name"]; nn >= 0 {
		c.Violate("tables:built-in priorities", "name has no priority", "")
	}
	tmp := c.subdir("tbl")
	n := c.N(6000, 60000)
	for i := 0; i < n && !c.Failed(); i++ {
		r := rand.New(rand.NewSource(c.Seed*7919 + int64(i)*104729 + 38))
		tblWrite(base)
		ref := base.copy()
		var hist strings.Builder
		for k := 1 + r.Intn(5); k > 0; k-- {
			d, text := tblGen(r)
			bad := r.Intn(5) == 0
			if bad {
				text = tblBad(r)
			}
			merge := r.Intn(2) == 0
			f := filepath.Join(tmp, "t.json")
			os.WriteFile(f, []byte(text), 0o644)
			if r.Intn(12) == 0 {
				os.Remove(f)
				bad = true
				text = "(missing)"
			}
			fmt.Fprintf(&hist, "merge=%v\n%s\n", merge, text)
			var err error
			if !c.Guard("tables", hist.String(), func() { err = tables.ParseAndUpdateJSONDefinitions(f, merge) }) {
				break
			}
			if (err != nil) != bad {
				c.Violate("tables:validity", fmt.Sprintf("error %v for a file that is bad=%v", err, bad), hist.String())
			}
			if !bad {
				ref = ref.apply(d, merge)
				c.Count("table files loaded", 1)
			} else {
				c.Count("table files rejected", 1)
			}
			if s := tblRead().diff(ref); s != "" {
				what := "load"
				if bad {
					what = "rejected file has an effect"
				}
				c.Violate("tables:"+what+":"+tblWhat(s), s, hist.String())
				break
			}
			if r.Intn(8) == 0 { // the API behind it
				d, text := tblGen(r)
				g := d.copy()
				merge := r.Intn(2) == 0
				fmt.Fprintf(&hist, "API merge=%v\n%s\n", merge, text)
				fn := tables.OverrideTables
				if merge {
					fn = tables.MergeTables
				}
				if !c.Guard("tables:api", hist.String(), func() {
					fn(g.bools["IsLabelArg"], g.bools["LabelDenylist"], g.bools["IsListArg"], g.bools["IsSortableListArg"], g.bools["SortableDenylist"], g.bools["SortableAllowlist"], g.prio, g.strip, g.shorten)
				}) {
					break
				}
				ref = ref.apply(d, merge)
				if s := tblRead().diff(ref); s != "" {
					c.Violate("tables:api:"+tblWhat(s), s, hist.String())
				}
			}
		}
		src := tblProbe(r, 3)
		in := hist.String() + "\n" + src
		c.Eval(in)
		tree, err := starParse(src)
		if err != nil {
			c.Inconclusive("probe: %v", err)
		}
		want := ref.predict(tree, "p/q")
		c.Guard("tables:format", in, func() {
			f, err := build.ParseBuild("p/q/BUILD", []byte(src))
			if err != nil {
				c.Violate("tables:parse", err.Error(), in)
				return
			}
			out := string(build.Format(f))
			got, err := starParse(out)
			if err != nil {
				c.Violate("tables:format output", err.Error(), in+out)
				return
			}
			c.Count("rules compared", 3)
			if s := firstDiff(got, want, ""); s != "" {
				c.Violate("tables:format:"+tblDiffKind(got, want), s, in+"\n== output ==\n"+out)
			}
		})
		if i < 3 {
			c.Sample(in)
		}
		// Files that are no BUILD files do not depend on the tables.
		if i%10 == 0 {
			f1, _ := build.ParseBzl("p/q/x.bzl", []byte(src))
			a := string(build.Format(f1))
			tblWrite(base)
			f2, _ := build.ParseBzl("p/q/x.bzl", []byte(src))
			if b := string(build.Format(f2)); a != b {
				c.Violate("tables:bzl", "the tables change a .bzl file\n"+a+"\n"+b, in)
			}
		}
	}
	tblWrite(base)
	tblBinaries(c, base)
}

func tblDiffKind(got, want *N) string {
	order := func(n *N) string {
		var l []string
		for _, s := range n.C {
			if s.K == "ExprStmt" {
				s = s.C[0]
			}
			for _, a := range s.C[1:] {
				l = append(l, a.S)
			}
		}
		return strings.Join(l, " ")
	}
	if len(got.C) == len(want.C) && order(got) != order(want) {
		return "argument order"
	}
	return diffSig(got, want)
}

func tblBinaries(c *Ctx, base *tblDefs) {
	n := c.N(900, 8000)
	c.parallel(n, 8, 138, func(i int, r *rand.Rand) {
		dir := c.subdir(fmt.Sprintf("b%d", i))
		defer os.RemoveAll(dir)
		ref := base.copy()
		files := map[string]string{"WORKSPACE": ""}
		var args []string
		badFile := ""
		conf := map[string]string{}
		useConf := r.Intn(4) == 0
		for _, flag := range []string{"tables", "add_tables"} {
			if r.Intn(3) == 0 {
				continue
			}
			d, text := tblGen(r)
			if r.Intn(8) == 0 {
				text = tblBad(r)
				badFile = flag
			}
			name := flag + ".json"
			files[name] = text
			if badFile == flag && r.Intn(4) == 0 {
				delete(files, name)
			}
			if useConf {
				conf[map[string]string{"tables": "tables", "add_tables": "addTables"}[flag]] = name
			} else {
				args = append(args, pick(r, "-", "--")+flag+"="+name)
			}
			ref = ref.apply(d, flag == "add_tables")
		}
		r.Shuffle(len(args), func(a, b int) { args[a], args[b] = args[b], args[a] })
		if i%3 == 2 && !useConf {
			tblBuildozer(c, i, r, dir, ref, files, args, badFile)
			return
		}
		if useConf {
			b, _ := json.Marshal(conf)
			files[".buildifier.json"] = string(b)
		}
		var srcs []string
		for _, p := range []string{"p/q/BUILD", "p/q/r/BUILD.bazel", "x/BUILD"} {
			if p == "p/q/BUILD" || r.Intn(2) == 0 {
				files[p] = tblProbe(r, 1+r.Intn(4))
				srcs = append(srcs, p)
			}
		}
		writeFiles(dir, files)
		age(dir)
		before := snapshot(dir)
		all := append(append([]string(nil), args...), srcs...)
		if r.Intn(3) == 0 {
			all = append(append([]string(nil), args...), "-r", ".")
		}
		res := c.runBin(dir, c.subdir("tmpb"), "", nil, "buildifier", all...)
		in := describeFiles(files) + res.String()
		c.Eval(in)
		c.Count("buildifier runs", 1)
		if s := res.crashed(); s != "" {
			c.Violate("tables:buildifier "+s, res.String(), in)
			return
		}
		if badFile != "" {
			c.Count("runs with a bad table file", 1)
			if res.code == 0 || res.err == "" {
				c.Violate("tables:bad file accepted", "buildifier accepts a bad table file", in)
			}
			if d := snapDiff(before, snapshot(dir)); len(d) > 0 {
				c.Violate("tables:bad file has an effect", strings.Join(d, "\n"), in)
			}
			return
		}
		if res.code != 0 {
			c.Violate("tables:buildifier fails", res.String(), in)
			return
		}
		for _, p := range srcs {
			b, _ := os.ReadFile(filepath.Join(dir, p))
			tree, _ := starParse(files[p])
			want := ref.predict(tree, filepath.Dir(p))
			got, err := starParse(string(b))
			if err != nil {
				c.Violate("tables:buildifier output", err.Error(), in)
				return
			}
			c.Count("files compared", 1)
			if s := firstDiff(got, want, ""); s != "" {
				c.Violate("tables:buildifier:"+tblDiffKind(got, want), p+": "+s, in+"\n== "+p+" ==\n"+string(b))
				return
			}
		}
	})
}

var tblBzAttrs = []string{"deps", "srcs", "zlist", "mine", "other", "aattr"}

func tblBuildozer(c *Ctx, i int, r *rand.Rand, dir string, ref *tblDefs, files map[string]string, args []string, badFile string) {
	files["p/q/BUILD"] = "my_rule(\n    size = \"small\",\n    name = \"r\",\n    copts = [\n        \"b\",\n        \"a\",\n    ],\n)\n"
	writeFiles(dir, files)
	age(dir)
	before := snapshot(dir)
	want := "my_rule(\n    size = \"small\",\n    name = \"r\",\n    copts = [\"b\", \"a\"],\n"
	all := append([]string(nil), args...)
	seen := map[string]bool{}
	for k := 1 + r.Intn(3); k > 0; k-- {
		a := pick(r, tblBzAttrs...)
		if seen[a] {
			continue
		}
		seen[a] = true
		// Tables say first, then Bazel's own schema.
		list, ok := ref.bools["IsListArg"][a]
		if !ok {
			list = ref.bools["IsSortableListArg"][a] || a == "deps" || a == "srcs"
		}
		switch {
		case list && r.Intn(2) == 0:
			all = append(all, "set "+a+" v u")
			want += "    " + a + " = [\"v\", \"u\"],\n"
		case list:
			all = append(all, "set "+a+" v")
			want += "    " + a + " = [\"v\"],\n"
		default:
			all = append(all, "set "+a+" 17")
			want += "    " + a + " = 17,\n"
			if a == "deps" || a == "srcs" {
				c.Count("schema lists overridden", 1)
			}
		}
	}
	want += ")\n"
	all = append(all, "//p/q:r")
	res := c.runBin(dir, c.subdir("tmpz"), "", nil, "buildozer", all...)
	in := describeFiles(files) + res.String()
	c.Eval(in)
	c.Count("buildozer runs", 1)
	if s := res.crashed(); s != "" {
		c.Violate("tables:buildozer "+s, res.String(), in)
		return
	}
	if badFile != "" {
		if res.code == 0 || res.err == "" {
			c.Violate("tables:buildozer accepts a bad table file", res.String(), in)
		}
		if d := snapDiff(before, snapshot(dir)); len(d) > 0 {
			c.Violate("tables:buildozer with a bad table file has an effect", strings.Join(d, "\n"), in)
		}
		return
	}
	if res.code != 0 {
		c.Violate("tables:buildozer fails", res.String(), in)
		return
	}
	b, _ := os.ReadFile(filepath.Join(dir, "p/q/BUILD"))
	tree, err := starParse(want)
	if err != nil {
		c.Inconclusive("probe: %v", err)
	}
	wt := ref.predict(tree, "p/q")
	got, err := starParse(string(b))
	if err != nil {
		c.Violate("tables:buildozer output", err.Error(), in)
		return
	}
	if !reflect.DeepEqual(got.String(), wt.String()) {
		c.Violate("tables:buildozer:"+tblDiffKind(got, wt), firstDiff(got, wt, ""), in+"\n== BUILD ==\n"+string(b)+"\n== wanted (unformatted) ==\n"+want)
	}
}
