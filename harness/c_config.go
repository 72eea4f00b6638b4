package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/buildifier/config"
	"github.com/bazelbuild/buildtools/warn"
)

func init() { checks["C16"] = checkC16 }

// documentedWarnings reads the categories and the ones disabled by default from WARNINGS.md.
func documentedWarnings() (all, off map[string]bool) {
	b, err := os.ReadFile("/repo/WARNINGS.md")
	if err != nil {
		return nil, nil
	}
	all, off = map[string]bool{}, map[string]bool{}
	// each section: an anchor <a name="x"> per category, then flags, the text.
	secs := strings.Split(string(b), "--------------------------------------------------------------------------------")
	re := regexp.MustCompile("`([a-z][a-z-]+)`")
	for _, s := range secs[1:] {
		if strings.Contains(s, "Not supported by the latest version") {
			continue
		}
		for _, l := range strings.Split(s, "\n") {
			if strings.Contains(l, "Category name") {
				for _, m := range re.FindAllStringSubmatch(l, -1) {
					all[m[1]] = true
					if strings.Contains(s, "[Disabled by default]") {
						off[m[1]] = true
					}
				}
			}
		}
	}
	return all, off
}

func setOf(l []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k, v := range m {
		if v {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

// refWarnings: what a -warnings value describes.
func refWarnings(spec string, all, def map[string]bool) (map[string]bool, bool) {
	res := map[string]bool{}
	switch spec {
	case "", "default":
		for k := range def {
			res[k] = true
		}
		return res, true
	case "all":
		for k := range all {
			res[k] = true
		}
		return res, true
	}
	mod, raw := 0, 0
	for _, w := range strings.Split(spec, ",") {
		switch w[0] {
		case '+', '-':
			mod++
		default:
			raw++
		}
	}
	if mod > 0 && raw > 0 {
		return nil, false
	}
	if mod > 0 {
		for k := range def {
			res[k] = true
		}
	}
	for _, w := range strings.Split(spec, ",") {
		switch w[0] {
		case '+':
			res[w[1:]] = true
		case '-':
			delete(res, w[1:])
		default:
			res[w] = true
		}
	}
	return res, true
}

// refModes: acceptance of -mode, -lint, -format, -type, -d, -path with n arguments.
func refModes(mode, lint, format, typ, path string, d bool, n int) (string, string, bool) {
	in := func(s string, l ...string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	if !in(typ, "build", "bzl", "workspace", "module", "default", "auto") {
		return "", "", false
	}
	if !in(format, "", "text", "json") || format != "" && mode != "check" {
		return "", "", false
	}
	if d && mode != "" {
		return "", "", false
	}
	if d {
		mode = "diff"
	}
	if mode == "" {
		mode = "fix"
	}
	if !in(mode, "check", "diff", "fix", "print_if_changed") {
		return "", "", false
	}
	if lint == "" {
		lint = "off"
	}
	if !in(lint, "off", "warn", "fix") || lint == "fix" && mode != "fix" {
		return "", "", false
	}
	if n > 1 && (path != "" || mode == "print_if_changed") {
		return "", "", false
	}
	return mode, lint, true
}

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

func randSpec(r *rand.Rand, cats []string, def map[string]bool) string {
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		return "default"
	case 2:
		return "all"
	}
	n := 1 + r.Intn(6)
	style := r.Intn(5) // 0,1 raw; 2,3 modified; 4 mixed
	var l []string
	sign := map[string]string{}
	for i := 0; i < n; i++ {
		w := cats[r.Intn(len(cats))]
		if r.Intn(3) == 0 && len(l) > 0 { // repeat
			w = strings.TrimLeft(l[r.Intn(len(l))], "+-")
		}
		if r.Intn(5) == 0 {
			w = pick(r, "unsorted-dict-items", "load", "module-docstring")
		}
		s := ""
		if style == 2 || style == 3 || style == 4 && (i == 0 || r.Intn(2) == 0) {
			s = pick(r, "+", "-")
			if o, ok := sign[w]; ok { // one sign per category
				s = o
			}
			sign[w] = s
		}
		l = append(l, s+w)
	}
	if style == 4 {
		l = append(l, cats[r.Intn(len(cats))])
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	return strings.Join(l, ",")
}

type opt struct {
	flag, key string
	vals      []string
	kind      byte // s string, b bool, l list
}

var cfgOpts = []opt{
	{"mode", "mode", []string{"fix", "check", "diff", "fix", "print_if_changed"}, 's'},
	{"lint", "lint", []string{"off", "warn", "fix", "warn"}, 's'},
	{"warnings", "warnings", nil, 's'},
	{"type", "type", []string{"build", "bzl", "default", "workspace", "module", "auto", "auto", "auto"}, 's'},
	{"format", "format", []string{"text", "json"}, 's'},
	{"r", "recursive", []string{"true", "false"}, 'b'},
	{"v", "verbose", []string{"true", "false"}, 'b'},
	{"d", "diffMode", []string{"true", "false"}, 'b'},
	{"diff_command", "diffCommand", []string{"diff -u", "diff", "diff -c"}, 's'},
	{"tables", "tables", []string{"tab1.json", "tab2.json"}, 's'},
	{"add_tables", "addTables", []string{"tab1.json", "tab2.json"}, 's'},
	{"path", "path", []string{"pkg/BUILD", "x/defs.bzl", "other.txt"}, 's'},
	{"buildifier_disable", "buildifier_disable", []string{"label", "listsort", "multiplus", "loadTop", "unsafesort"}, 'l'},
	{"allowsort", "allowsort", []string{"foo.bar", "my_rule.things"}, 'l'},
}

var cfgFiles = map[string]string{
	"BUILD":     "load(\":b.bzl\", \"z\", \"a\")\nmy_rule(name = 'x', zz = [\"b\", \"a\"], things=[\"q\",\"p\"], deps = [\"//z:z\", \"//y:y\", \":a\"])\nfoo(name=\"x\", bar=[\"b\",\"a\"], deps=[\":b\"]+[\":a\"])\nd = {\"b\": 1, \"a\": 2}\nload(\":a.bzl\", \"unused\")\n",
	"defs.bzl":  "def f(x):\n  y = 1 / 2\n  return\nload(\":b.bzl\", \"a\")\nd = {\"b\": 1, \"a\": 2}\nfoo(bar = [\"b\", \"a\"])\n",
	"other.txt": "foo(name='x',zz=[\"b\",\"a\"], deps=['//a:a'])\nx = attr.label(cfg = \"data\")\n",
	"clean.bzl": "\"\"\"Doc.\"\"\"\n\nx = 1\n",
	"tab1.json": `{"IsLabelArg": {"zz": true}, "LabelDenylist": {}, "IsSortableListArg": {"zz": true, "things": true}, "SortableDenylist": {}, "SortableAllowlist": {}, "NamePriority": {"name": 5, "deps": 1, "srcs": 2}, "StripLabelLeadingSlashes": false, "ShortenAbsoluteLabelsToRelative": false}`,
	"tab2.json": `{"IsLabelArg": {"deps": true}, "LabelDenylist": {}, "IsSortableListArg": {"bar": true}, "SortableDenylist": {}, "SortableAllowlist": {}, "NamePriority": {"name": -99}, "StripLabelLeadingSlashes": true, "ShortenAbsoluteLabelsToRelative": false}`,
}

func checkC16(c *Ctx) {
	c.Rule("a distinct warnings value, flag combination, or configuration/flag placement whose outcome was compared")
	c.Assume("the documented default set is read from WARNINGS.md; list-valued options are given either by file or by flag, not both; warning categories used are existing ones")
	allList := append([]string{}, warn.AllWarnings...)
	all := setOf(allList)
	docAll, docOff := documentedWarnings()
	def := map[string]bool{}
	if len(docAll) > 20 {
		for k := range docAll {
			if !all[k] {
				c.Violate("warnings-doc-all", "documented category is not among all warnings: "+k, k)
			}
		}
		for k := range all {
			if !docAll[k] {
				c.Count("categories_not_in_WARNINGS.md", 1)
			}
			if !docOff[k] {
				def[k] = true
			}
		}
	} else {
		for _, k := range warn.DefaultWarnings {
			def[k] = true
		}
		c.Count("no_documentation_found", 1)
	}
	if got := setOf(warn.DefaultWarnings); !reflect.DeepEqual(got, def) {
		c.Violate("default-set", fmt.Sprintf("default warnings %v, documented %v", sortedKeys(got), sortedKeys(def)), "default")
	}
	// A: warning specifications
	defBefore := fmt.Sprint(warn.DefaultWarnings)
	n := c.N(20000, 400000)
	for i := 0; i < n && !c.Failed(); i++ {
		spec := randSpec(c.R, allList, def)
		c.Case("warnings " + spec)
		want, ok := refWarnings(spec, all, def)
		c.Guard("validate-warnings", spec, func() {
			s := spec
			got, err := config.ValidateWarnings(&s, &warn.AllWarnings, &warn.DefaultWarnings)
			s2 := spec
			got2, err2 := config.ValidateWarnings(&s2, &warn.AllWarnings, &warn.DefaultWarnings)
			if fmt.Sprint(got, err) != fmt.Sprint(got2, err2) {
				c.Violate("warnings-nondeterministic", fmt.Sprint(got, "\n", got2), spec)
			}
			if ok != (err == nil) {
				c.Violate("warnings-accept", fmt.Sprintf("expected acceptance %v, error %v", ok, err), spec)
				return
			}
			if err != nil {
				return
			}
			if !reflect.DeepEqual(setOf(got), want) {
				c.Violate("warnings-set", fmt.Sprintf("got %v\nwant %v", sortedKeys(setOf(got)), sortedKeys(want)), spec)
			}
			if len(setOf(got)) != len(got) {
				c.Violate("warnings-duplicates", fmt.Sprint(got), spec)
			}
			// the same through Config, from either the flag or the list
			cfg := config.New()
			if spec != "" && spec != "all" && spec != "default" && c.R.Intn(2) == 0 {
				cfg.WarningsList = strings.Split(spec, ",")
			} else {
				cfg.Warnings = spec
			}
			if err := cfg.Validate(nil); err != nil {
				c.Violate("config-validate", err.Error(), spec)
			} else if fmt.Sprint(cfg.LintWarnings) != fmt.Sprint(got) {
				c.Violate("config-warnings", fmt.Sprintf("%v\nand %v", cfg.LintWarnings, got), spec)
			}
			// through JSON
			cfg2 := config.New()
			if err := cfg2.LoadReader(strings.NewReader(cfg.String())); err != nil {
				c.Violate("config-json", err.Error(), spec)
			} else if err := cfg2.Validate(nil); err != nil || fmt.Sprint(cfg2.LintWarnings) != fmt.Sprint(got) {
				c.Violate("config-json-warnings", fmt.Sprint(err, cfg2.LintWarnings, "\n", got), cfg.String())
			}
		})
		c.Eval("w:" + spec)
		if i < 3 {
			c.Sample(spec + " -> " + strings.Join(sortedKeys(want), " "))
		}
	}
	if fmt.Sprint(warn.DefaultWarnings) != defBefore || fmt.Sprint(warn.AllWarnings) != fmt.Sprint(allList) {
		c.Violate("warnings-mutated", "validation changed the built-in lists", fmt.Sprint(warn.DefaultWarnings))
	}
	// B: all combinations of modes
	for _, mode := range []string{"", "fix", "check", "diff", "print_if_changed", "pipe", "Check", "fixx", "format"} {
		for _, lint := range []string{"", "off", "warn", "fix", "all", "none"} {
			for _, format := range []string{"", "text", "json", "xml", "TEXT"} {
				for _, typ := range []string{"build", "bzl", "workspace", "module", "default", "auto", "", "BUILD", "star"} {
					for v := 0; v < 12; v++ {
						d, path, na := v%2 == 1, []string{"", "a/BUILD"}[v/2%2], v/4
						args := []string{"a", "b", "c"}[:na]
						key := fmt.Sprintf("-mode=%s -lint=%s -format=%s -type=%s -d=%v -path=%s with %d files", mode, lint, format, typ, d, path, na)
						wm, wl, ok := refModes(mode, lint, format, typ, path, d, na)
						cfg := config.New()
						fs := cfg.FlagSet("buildifier", 0)
						if err := fs.Parse([]string{"-mode=" + mode, "-lint=" + lint, "-format=" + format, "-type=" + typ, fmt.Sprintf("-d=%v", d), "-path=" + path}); err != nil {
							c.Violate("flags-parse", err.Error(), key)
							continue
						}
						err := cfg.Validate(args)
						if ok != (err == nil) {
							c.Violate("mode-accept", fmt.Sprintf("expected acceptance %v, error %v", ok, err), key)
						} else if ok && (cfg.Mode != wm || cfg.Lint != wl || cfg.InputType != typ || cfg.Format != format || cfg.WorkspaceRelativePath != path) {
							c.Violate("mode-effective", fmt.Sprintf("mode %q lint %q, want %q %q", cfg.Mode, cfg.Lint, wm, wl), key)
						}
						c.Eval("m:" + key)
						c.Count("mode_combinations", 1)
					}
				}
			}
		}
	}
	// C: configuration objects round-trip through JSON
	for i := 0; i < c.N(500, 5000) && !c.Failed(); i++ {
		cfg := config.New()
		v := reflect.ValueOf(cfg).Elem()
		for j := 0; j < v.NumField(); j++ {
			if v.Type().Field(j).Tag.Get("json") == "-" || c.R.Intn(2) == 0 {
				continue
			}
			switch f := v.Field(j); f.Kind() {
			case reflect.String:
				f.SetString(pick(c.R, "fix", "a,b", "x y", "\"q\"", "é", "default"))
			case reflect.Bool:
				f.SetBool(true)
			case reflect.Slice:
				for n := 1 + c.R.Intn(3); n > 0; n-- {
					f.Set(reflect.Append(f, reflect.ValueOf(pick(c.R, "load", "x", "a.b"))))
				}
			}
		}
		back := config.New()
		if err := back.LoadReader(strings.NewReader(cfg.String())); err != nil {
			c.Violate("json-round-trip", err.Error(), cfg.String())
		} else if !reflect.DeepEqual(back, cfg) {
			c.Violate("json-round-trip", fmt.Sprintf("%+v\nbecomes %+v", *cfg, *back), cfg.String())
		}
		c.Eval("j:" + cfg.String())
	}
	// D: the binary: configuration placement and overriding
	runs := c.N(500, 12000)
	c.parallel(runs, 8, 16, func(i int, r *rand.Rand) {
		root := c.subdir(fmt.Sprintf("c16-%d", i))
		defer os.RemoveAll(root)
		cfg := map[string]interface{}{}
		var flags, eff []string
		effm := map[string]string{}
		nopt := 0
		for _, o := range cfgOpts {
			p := r.Intn(6) // 0: config, 1: flag, 2: both, else none
			switch o.flag {
			case "mode", "lint", "warnings":
			case "d", "path", "format", "tables", "diff_command", "add_tables", "multi_diff":
				if r.Intn(3) > 0 {
					p = 5
				}
			}
			if p > 2 || p == 2 && o.kind == 'l' {
				continue
			}
			nopt++
			val := func() string {
				if o.flag == "warnings" {
					for {
						if s := randSpec(r, allList, def); s != "" {
							if _, ok := refWarnings(s, all, def); ok || r.Intn(4) == 0 {
								return s
							}
						}
					}
				}
				return pick(r, o.vals...)
			}
			cv, fv := val(), val()
			if p == 0 || p == 2 {
				switch o.kind {
				case 's':
					cfg[o.key] = cv
					if o.flag == "warnings" && p == 0 && r.Intn(2) == 0 {
						delete(cfg, o.key)
						cfg["warningsList"] = strings.Split(cv, ",")
					}
				case 'b':
					cfg[o.key] = cv == "true"
				case 'l':
					cfg[o.key] = []string{cv, fv}
					eff = append(eff, "-"+o.flag+"="+cv, "-"+o.flag+"="+fv)
					continue
				}
			}
			if p == 1 || p == 2 {
				flags = append(flags, "-"+o.flag+"="+fv)
				if o.kind == 'l' {
					flags = append(flags, "-"+o.flag+"="+cv)
					eff = append(eff, "-"+o.flag+"="+fv, "-"+o.flag+"="+cv)
					continue
				}
				effm[o.flag] = fv
			} else {
				effm[o.flag] = cv
			}
		}
		// sensible combinations most of the time
		if effm["format"] != "" && effm["mode"] != "check" && r.Intn(4) > 0 {
			flags = append(flags, "-mode=check")
			effm["mode"] = "check"
		}
		if effm["d"] == "true" && effm["mode"] != "" && r.Intn(4) > 0 {
			flags = append(flags, "-d=false")
			effm["d"] = "false"
		}
		if effm["lint"] == "fix" && effm["mode"] != "" && effm["mode"] != "fix" && r.Intn(4) > 0 {
			flags = append(flags, "-mode=fix")
			effm["mode"] = "fix"
			if effm["format"] != "" {
				flags = append(flags, "-format=")
				effm["format"] = ""
			}
		}
		r.Shuffle(len(flags), func(i, j int) { // the last of two equal flags wins: keep their order
			f := func(s string) string { return s[:strings.Index(s, "=")] }
			if f(flags[i]) != f(flags[j]) && countPrefix(flags, f(flags[i])) == 1 && countPrefix(flags, f(flags[j])) == 1 {
				flags[i], flags[j] = flags[j], flags[i]
			}
		})
		for k, v := range effm {
			eff = append(eff, "-"+k+"="+v)
		}
		sort.Strings(eff)
		b, _ := json.Marshal(cfg)
		// files
		a1, a2 := filepath.Join(root, "1"), filepath.Join(root, "2")
		for _, d := range []string{a1, a2} {
			writeFiles(filepath.Join(d, "ws", "sub"), cfgFiles)
			writeFiles(filepath.Join(d, "ws"), map[string]string{"WORKSPACE": "", "sub/deep/BUILD": cfgFiles["BUILD"]})
		}
		var args []string
		stdin := ""
		single := effm["path"] != "" || effm["mode"] == "print_if_changed"
		switch {
		case effm["r"] == "true" && !(single && r.Intn(4) > 0):
			args = []string{"."}
		case r.Intn(5) == 0:
			stdin = cfgFiles[pick(r, "BUILD", "defs.bzl", "other.txt")]
		case single && r.Intn(8) > 0:
			args = []string{pick(r, "BUILD", "defs.bzl", "other.txt", "clean.bzl")}
		default:
			args = []string{"BUILD", "defs.bzl", "other.txt", "clean.bzl", "deep/BUILD"}[:2+r.Intn(4)]
		}
		// placement
		place := r.Intn(4)
		decoy := `{"mode": "diff", "lint": "warn", "warnings": "load", "verbose": true, "buildifier_disable": ["listsort"]}`
		var env []string
		pre := []string{}
		cwd1 := filepath.Join(a1, "ws", "sub")
		at := func(rel, s string) { os.WriteFile(filepath.Join(a1, "ws", rel), []byte(s), 0o644) }
		switch place {
		case 0:
			at("conf.json", string(b))
			pre = append(pre, "-config=../conf.json")
			if r.Intn(2) == 0 {
				at(".buildifier.json", decoy)
			}
			if r.Intn(2) == 0 {
				at("env.json", decoy)
				env = append(env, "BUILDIFIER_CONFIG="+filepath.Join(a1, "ws", "env.json"))
			}
		case 1:
			at("conf.json", string(b))
			env = append(env, "BUILDIFIER_CONFIG="+filepath.Join(a1, "ws", "conf.json"))
			if r.Intn(2) == 0 {
				at(".buildifier.json", decoy)
			}
		case 2:
			at("sub/.buildifier.json", string(b))
			if r.Intn(2) == 0 {
				at(".buildifier.json", decoy)
			}
		case 3:
			at(".buildifier.json", string(b))
			if r.Intn(2) == 0 {
				os.WriteFile(filepath.Join(a1, ".buildifier.json"), []byte(decoy), 0o644)
			}
		}
		full1 := append(append([]string{}, pre...), flags...)
		if r.Intn(2) == 0 {
			full1 = append(append([]string{}, flags...), pre...)
		}
		full1 = append(full1, args...)
		full2 := append(append([]string{"-config=off"}, eff...), args...)
		tmp1, tmp2 := filepath.Join(root, "t1"), filepath.Join(root, "t2")
		os.Mkdir(tmp1, 0o755)
		os.Mkdir(tmp2, 0o755)
		strip := func(s, a, t string) string {
			s = strings.ReplaceAll(strings.ReplaceAll(s, a, "DIR"), t, "TMP")
			s = regexp.MustCompile(`TMP/buildifier-tmp-[0-9]+`).ReplaceAllString(s, "TMPFILE")
			s = regexp.MustCompile(`(TMPFILE|[-+*]{3} \S+)\s+[0-9]{4}-[^\n]*`).ReplaceAllString(s, "$1")
			return regexp.MustCompile(`([-+*]{3} \S+)\t[^\n]*`).ReplaceAllString(s, "$1")
		}
		r1 := c.runBin(cwd1, tmp1, stdin, env, "buildifier", full1...)
		r2 := c.runBin(filepath.Join(a2, "ws", "sub"), tmp2, stdin, nil, "buildifier", full2...)
		in := fmt.Sprintf("configuration (placement %d): %s\nrun 1: %s\nrun 2: %s\nstdin: %q", place, b, r1.cmd, r2.cmd, stdin)
		c.Eval("d:" + in)
		c.Count(fmt.Sprintf("binary_runs_placement_%d", place), 1)
		c.Count(fmt.Sprintf("binary_exit_%d", r2.code), 1)
		for _, x := range []result{r1, r2} {
			if cr := x.crashed(); cr != "" {
				c.Violate("crash:"+cr, x.String(), in)
				return
			}
		}
		if r1.code != r2.code {
			c.Violate("config-exit", r1.String()+"\n\n"+r2.String(), in)
			return
		}
		if strip(r1.out, a1, tmp1) != strip(r2.out, a2, tmp2) || strip(r1.err, a1, tmp1) != strip(r2.err, a2, tmp2) {
			c.Violate("config-output", r1.String()+"\n\n"+r2.String(), in)
			return
		}
		for _, p := range []string{"sub/BUILD", "sub/defs.bzl", "sub/other.txt", "sub/clean.bzl", "sub/deep/BUILD"} {
			x, _ := os.ReadFile(filepath.Join(a1, "ws", p))
			y, _ := os.ReadFile(filepath.Join(a2, "ws", p))
			if string(x) != string(y) {
				c.Violate("config-files", p+":\n"+lineDiff(string(x), string(y)), in)
				return
			}
		}
		// is the run accepted exactly when the documentation says so?
		m := effm["mode"]
		typ := effm["type"]
		if typ == "" {
			typ = "auto"
		}
		_, _, ok := refModes(m, effm["lint"], effm["format"], typ, effm["path"], effm["d"] == "true", len(args))
		if ok && effm["warnings"] != "" {
			_, ok = refWarnings(effm["warnings"], all, def)
		}
		if ok == (r2.code == 2) {
			c.Violate("usage-status", fmt.Sprintf("expected acceptance %v\n%s", ok, r2), in)
		}
		if !ok {
			if r2.out != "" || r2.err == "" {
				c.Violate("usage-output", r2.String(), in)
			}
			for p, s := range cfgFiles {
				if x, _ := os.ReadFile(filepath.Join(a2, "ws", "sub", p)); string(x) != s {
					c.Violate("usage-writes", p, in)
				}
			}
		}
	})
	// E: example configuration, broken configurations, unknown flags
	d := c.subdir("c16-e")
	writeFiles(d, map[string]string{"WORKSPACE": "", "a/BUILD": cfgFiles["BUILD"], "b/BUILD": cfgFiles["BUILD"], "bad.json": "{", "list.json": "[]", "type.json": `{"mode": 3}`})
	ex := c.runBin(d, d, "", nil, "buildifier", "-config=example")
	exCfg := config.New()
	if ex.code != 0 || exCfg.LoadReader(strings.NewReader(ex.out)) != nil {
		c.Violate("example", ex.String(), "-config=example")
	} else {
		if exCfg.String() != strings.TrimRight(ex.out, "\n") {
			c.Violate("example-round-trip", exCfg.String()+"\nand\n"+ex.out, "-config=example")
		}
		os.WriteFile(filepath.Join(d, "ex.json"), []byte(ex.out), 0o644)
		r1 := c.runBin(d, d, "", nil, "buildifier", "-config=ex.json", "a/BUILD")
		r2 := c.runBin(d, d, "", nil, "buildifier", "-config=off", "-mode=fix", "-lint=fix", "-warnings=all", "b/BUILD")
		x, _ := os.ReadFile(d + "/a/BUILD")
		y, _ := os.ReadFile(d + "/b/BUILD")
		if r1.code != r2.code || string(x) != string(y) {
			c.Violate("example-meaning", r1.String()+"\n"+r2.String()+lineDiff(string(x), string(y)), "-config=ex.json")
		}
		if err := exCfg.Validate(nil); err != nil || !reflect.DeepEqual(setOf(exCfg.LintWarnings), all) {
			c.Violate("example-warnings", fmt.Sprint(err, exCfg.LintWarnings), "-config=example")
		}
	}
	c.Eval("example")
	for _, a := range [][]string{{"-config=bad.json"}, {"-config=list.json"}, {"-config=type.json"}, {"-config=missing.json"}, {"-nosuchflag"}, {"-mode"}, {"-r=maybe"}, {"-tables=missing.json"}, {"-add_tables=bad.json"}, {"-tables=bad.json"}} {
		os.WriteFile(d+"/a/BUILD", []byte(cfgFiles["BUILD"]), 0o644)
		x := c.runBin(d, d, "", nil, "buildifier", append(a, "a/BUILD")...)
		if len(a) == 1 && a[0] == "-mode" {
			x = c.runBin(d, d, "", nil, "buildifier", "a/BUILD", "-mode") // a file named -mode
			c.Eval("flag after file")
			if x.code == 0 {
				c.Violate("flag-after-file", x.String(), x.cmd)
			}
			continue
		}
		b, _ := os.ReadFile(d + "/a/BUILD")
		if x.code != 2 || x.err == "" || string(b) != cfgFiles["BUILD"] {
			c.Violate("usage-error-status", x.String(), x.cmd)
		}
		c.Eval("usage:" + x.cmd)
	}
}

func countPrefix(l []string, p string) int {
	n := 0
	for _, s := range l {
		if strings.HasPrefix(s, p+"=") {
			n++
		}
	}
	return n
}
