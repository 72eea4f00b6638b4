package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
)

func init() { checks["C46"] = checkC46 }

// ---- C46: what left Bazel is loaded from where it lives now ----

type movedName struct {
	name, cat, repo, file string
	symbol                bool // used without a call
	bzlOnly               bool
}

var movedNames = func() (l []movedName) {
	add := func(cat, repo, file string, symbol bool, names ...string) {
		for _, n := range names {
			l = append(l, movedName{n, cat, repo, file, symbol, repo == "bazel_tools"})
		}
	}
	rules := func(prefix, repo, dir string, m map[string]string) {
		var cats []string
		for c := range m {
			cats = append(cats, c)
		}
		sort.Strings(cats)
		for _, c := range cats {
			add(prefix+c, repo, dir+m[c]+".bzl", false, m[c])
		}
	}
	symbols := func(prefix, repo, dir string, m map[string]string) {
		var cats []string
		for c := range m {
			cats = append(cats, c)
		}
		sort.Strings(cats)
		for _, c := range cats {
			p := strings.Split(m[c], " ")
			add(prefix+c, repo, dir+p[1]+".bzl", true, p[0])
		}
	}
	add("git-repository", "bazel_tools", "//tools/build_defs/repo:git.bzl", false, "git_repository", "new_git_repository")
	add("http-archive", "bazel_tools", "//tools/build_defs/repo:http.bzl", false, "http_archive")
	add("native-android", "rules_android", "//android:rules.bzl", false, "aar_import", "android_binary", "android_library", "android_local_test", "android_sdk_repository")
	add("native-py", "rules_python", "//python:defs.bzl", false, "py_library", "py_binary", "py_test", "py_runtime")
	rules("native-cc-", "rules_cc", "//cc:", map[string]string{"binary": "cc_binary", "import": "cc_import", "library": "cc_library", "objc-import": "objc_import", "objc-library": "objc_library", "shared-library": "cc_shared_library", "test": "cc_test"})
	rules("native-cc-", "rules_cc", "//cc/toolchains:", map[string]string{"toolchain": "cc_toolchain", "toolchain-suite": "cc_toolchain_suite", "fdo-prefetch-hints": "fdo_prefetch_hints", "fdo-profile": "fdo_profile", "memprof-profile": "memprof_profile", "propeller-optimize": "propeller_optimize"})
	symbols("native-cc-", "rules_cc", "//cc/common:", map[string]string{"common": "cc_common cc_common", "debug-package-info": "DebugPackageInfo debug_package_info", "info": "CcInfo cc_info", "shared-library-info": "CcSharedLibraryInfo cc_shared_library_info", "shared-library-hint-info": "CcSharedLibraryHintInfo cc_shared_library_hint_info"})
	rules("native-java-", "rules_java", "//java:", map[string]string{"binary": "java_binary", "import": "java_import", "library": "java_library", "plugin": "java_plugin", "test": "java_test"})
	rules("native-java-", "rules_java", "//java/toolchains:", map[string]string{"package-config": "java_package_configuration", "runtime": "java_runtime", "toolchain": "java_toolchain"})
	symbols("native-java-", "rules_java", "//java/common:", map[string]string{"common": "java_common java_common", "info": "JavaInfo java_info", "plugin-info": "JavaPluginInfo java_plugin_info"})
	rules("native-", "protobuf", "//bazel:", map[string]string{"proto": "proto_library", "java-proto": "java_proto_library", "java-lite-proto": "java_lite_proto_library", "cc-proto": "cc_proto_library"})
	rules("native-", "protobuf", "//bazel/toolchains:", map[string]string{"proto-lang-toolchain": "proto_lang_toolchain"})
	symbols("native-", "protobuf", "//bazel/common:", map[string]string{"proto-info": "ProtoInfo proto_info", "proto-common": "proto_common proto_common", "proto-lang-toolchain-info": "ProtoLangToolchainInfo proto_lang_toolchain_info"})
	rules("native-sh-", "rules_shell", "//shell:", map[string]string{"binary": "sh_binary", "library": "sh_library", "test": "sh_test"})
	return
}()

type nativeGen struct {
	r     *rand.Rand
	kind  FileKind
	ws    lintWS
	repos map[string]string // module: its name here
	names []movedName
	state map[string]int     // how a name is bound at the top level
	need  map[[2]string]bool // loads the fix adds: module, symbol
	n     int
}

const (
	nUnbound   = iota
	nLoaded    // from the right place
	nElsewhere // from another place
	nRenamed   // something else is loaded under the name
	nDefined   // defined in the file
)

// workspace makes a root module with includes.
func (g *nativeGen) workspace() {
	r := g.r
	g.repos = map[string]string{"rules_cc": "rules_cc", "rules_java": "rules_java", "rules_python": "rules_python", "rules_android": "rules_android", "rules_shell": "rules_shell", "protobuf": "com_google_protobuf", "bazel_tools": "bazel_tools"}
	g.ws = lintWS{}
	if r.Intn(4) == 0 {
		return
	}
	var mods []string
	for m := range g.repos {
		mods = append(mods, m)
	}
	sort.Strings(mods)
	files := []string{"MODULE.bazel"}
	text := map[string][]string{}
	for n := r.Intn(4); n > 0; n-- {
		f := pick(r, "x.MODULE.bazel", "a/b/y.MODULE.bazel", "a/z.MODULE.bazel", "w.MODULE.bazel")
		if _, ok := text[f]; ok || f == "MODULE.bazel" {
			continue
		}
		text[f] = nil
		from := files[r.Intn(len(files))]
		d, b := "", f
		if i := strings.LastIndex(f, "/"); i >= 0 {
			d, b = f[:i], f[i+1:]
		}
		text[from] = append(text[from], fmt.Sprintf("include(%q)", "//"+d+":"+b))
		files = append(files, f)
	}
	// files may be included again, in circles and by themselves
	for n := r.Intn(6) - 2; n > 0; n-- {
		from, f := files[r.Intn(len(files))], files[r.Intn(len(files))]
		d, b := "", f
		if i := strings.LastIndex(f, "/"); i >= 0 {
			d, b = f[:i], f[i+1:]
		}
		text[from] = append(text[from], fmt.Sprintf("include(%q)", "//"+d+":"+b))
	}
	own := ""
	for _, m := range mods {
		if m == "bazel_tools" || r.Intn(3) == 0 {
			continue
		}
		as := pick(r, "", "my_"+m, m, "x."+m)
		f := files[r.Intn(len(files))]
		attr := ""
		if as != "" {
			attr = fmt.Sprintf(", repo_name = %q", as)
		} else {
			as = m
		}
		g.repos[m] = as
		if own == "" && r.Intn(5) == 0 {
			own = m
			text["MODULE.bazel"] = append([]string{fmt.Sprintf("module(name = %q%s)", m, attr)}, text["MODULE.bazel"]...)
			continue
		}
		text[f] = append(text[f], fmt.Sprintf("bazel_dep(name = %q, version = \"1\"%s%s)", m, attr, pick(r, "", ", dev_dependency = True")))
	}
	if own == "" && r.Intn(2) == 0 {
		text["MODULE.bazel"] = append([]string{`module(name = "root", version = "0")`}, text["MODULE.bazel"]...)
	}
	for _, f := range files {
		for n := r.Intn(3); n > 0; n-- {
			text[f] = append(text[f], pick(r, `bazel_dep(name = "other", repo_name = "rules_cc2")`, `archive_override(module_name = "rules_cc", repo_name = "no")`, `ext = use_extension("//:x.bzl", "e")`, `ext.tag(name = "rules_cc", repo_name = "no")`, `use_repo(ext, "rules_java")`, `include()`, `register_toolchains("//:t")`, `foo(name = "protobuf", repo_name = "no")`))
		}
		g.ws[f] = strings.Join(text[f], "\n") + "\n"
	}
}

func (g *nativeGen) module(m movedName) string {
	return "@" + g.repos[m.repo] + m.file
}

// use gives a reference to the name in its spot: ‹›: a finding, «»: what the
// fix removes. local: the name means something else here.
func (g *nativeGen) use(m movedName, local bool) string {
	r := g.r
	applies := g.kind == KBzl || g.kind == KBuild && !m.bzlOnly
	mark := "§" + m.cat + "§"
	if !applies {
		mark = ""
	}
	needs := func() {
		if applies {
			g.need[[2]string{g.module(m), m.name}] = true
		}
	}
	args := func() string {
		return "(" + pick(r, "", "name = \"n\"", "name = \"n\",¶ deps = x", "**kw", m.name+" = 1", "a = \""+m.name+"\"") + ")"
	}
	if m.symbol {
		if local || g.state[m.name] != nUnbound {
			return m.name + pick(r, "", ".foo()", "[0]", "()")
		}
		needs()
		s := mark + m.name
		return pick(r, s, s+".create(a = 1)", "f("+s+")", "["+s+",¶ 1]", "x["+s+"]", "f(a = "+s+")", s+"(a = 1)", "{"+s+": 1}", "(x or "+s+")", "[a for a in "+s+"]")
	}
	switch k := r.Intn(10); {
	case k < 4: // bare
		if !local && g.state[m.name] == nUnbound {
			needs()
			return mark + m.name + args()
		}
		return m.name + args()
	case k < 8:
		if local || g.state[m.name] > nLoaded {
			return mark + "native." + m.name + args()
		}
		needs()
		if !applies {
			return "native." + m.name + args()
		}
		return mark + "«native.»" + m.name + args()
	}
	// look-alikes
	return pick(r, "x."+m.name+args(), "f("+m.name+" = 1)", "\""+m.name+"()\"", "native.x."+m.name+args(), "x.native."+m.name+args(), m.name+"_x()", "native."+m.name+"_x()", "natives."+m.name+"()", m.name, "native."+m.name, "f("+m.name+")")
}

func (g *nativeGen) wrap(e string) string {
	g.n++
	v := fmt.Sprintf("v%d", g.n)
	return pick(g.r, e, e, v+" = "+e, "f(a = "+e+")", v+" = [x,¶ "+e+"]", v+" = x if y else "+e, "[f("+e+") for q in x]", v+" = {\"k\": "+e+"}", v+" = lambda q: "+e)
}

func (g *nativeGen) stmt() string {
	r := g.r
	m := g.names[r.Intn(len(g.names))]
	m2 := g.names[r.Intn(len(g.names))]
	g.n++
	fn := fmt.Sprintf("fn%d", g.n)
	switch r.Intn(9) {
	case 0:
		return "def " + fn + "(a, b = 1):\n    " + g.wrap(g.use(m, false)) + "\n    " + g.wrap(g.use(m2, false))
	case 1: // a parameter
		return "def " + fn + "(" + pick(r, m.name, "a, "+m.name+" = 1", "*"+m.name, "**"+m.name, "a, *, "+m.name) + "):\n    " + g.wrap(g.use(m, true))
	case 2: // a local variable
		return "def " + fn + "(x):\n    " + pick(r, m.name+" = x", m.name+", y = x", "for "+m.name+" in x:\n        pass") + "\n    " + g.wrap(g.use(m, true))
	case 3: // in a branch of a function
		return "def " + fn + "(x):\n    if x:\n        " + g.wrap(g.use(m, false)) + "\n    else:\n        for a in x:\n            " + g.wrap(g.use(m2, false))
	case 4: // bound in a comprehension only
		return "[" + g.use(m, true) + " for " + pick(r, m.name, "a, "+m.name) + " in x]\n\n" + g.wrap(g.use(m, false))
	case 5: // bound in another function only
		return "def " + fn + "(" + m.name + "):\n    return " + m.name + "\n\n" + g.wrap(g.use(m, false))
	case 6:
		return "v" + fn + " = lambda " + m.name + ": " + g.use(m, true)
	}
	return g.wrap(g.use(m, false))
}

func (g *nativeGen) file() string {
	r := g.r
	for n := 1 + r.Intn(4); n > 0; n-- {
		m := movedNames[r.Intn(len(movedNames))]
		if g.kind == KBuild && m.bzlOnly && r.Intn(3) > 0 {
			continue
		}
		g.names = append(g.names, m)
		if r.Intn(2) == 0 { // another one of the same file
			for _, o := range movedNames {
				if o.file == m.file && o.repo == m.repo && o.name != m.name && r.Intn(2) == 0 {
					g.names = append(g.names, o)
				}
			}
		}
	}
	if len(g.names) == 0 {
		g.names = append(g.names, movedNames[0])
	}
	var parts []string
	if r.Intn(3) == 0 {
		parts = append(parts, "\"\"\"Docs.\"\"\"")
	}
	if r.Intn(4) == 0 {
		parts = append(parts, "# a comment\n")
	}
	var late []string
	for _, m := range g.names {
		if _, ok := g.state[m.name]; ok {
			continue
		}
		g.state[m.name] = nUnbound
		from := g.module(m)
		switch r.Intn(12) {
		case 0:
			g.state[m.name] = nLoaded
			parts = append(parts, fmt.Sprintf("load(%q, %q)", from, m.name))
		case 1:
			g.state[m.name] = nElsewhere
			parts = append(parts, fmt.Sprintf("load(%q, %q)", pick(r, "//:my.bzl", "@other//cc:defs.bzl", "@other"+m.file), m.name))
		case 2:
			g.state[m.name] = nRenamed
			parts = append(parts, fmt.Sprintf("load(%q, %s = \"other\")", pick(r, from, "//:my.bzl"), m.name))
		case 3:
			g.state[m.name] = nDefined
			def := pick(r, "def "+m.name+"(**kw):\n    pass", m.name+" = x", "("+m.name+", other_"+m.name+") = x")
			if r.Intn(2) == 0 {
				late = append(late, def)
			} else {
				parts = append(parts, def)
			}
		case 4: // the file is loaded for something else
			parts = append(parts, fmt.Sprintf("load(%q, %s)", from, pick(r, "\"other\"", "o"+m.name+" = \""+m.name+"\"", "\"a\", \"b\"")))
		case 5: // and after it is used
			late = append(late, fmt.Sprintf("load(%q, \"other\")", from))
		}
	}
	if len(parts) > 0 && r.Intn(4) == 0 {
		parts = append(parts, "# another comment\n")
	}
	for n := 1 + r.Intn(5); n > 0; n-- {
		parts = append(parts, g.stmt())
	}
	for _, l := range late {
		i := len(parts)
		if r.Intn(2) == 0 && i > 0 {
			i -= r.Intn(2)
		}
		parts = append(parts[:i], append([]string{l}, parts[i:]...)...)
	}
	if len(parts) == 1 && strings.HasPrefix(parts[0], "\"") {
		parts = append(parts, "x = 1")
	}
	return strings.Join(parts, "\n\n") + "\n"
}

// splitLoads takes the loads out of a file.
func splitLoads(n *N) (loads []string, rest []*N) {
	seen := map[string]bool{}
	for _, s := range n.C {
		if s.K != "Load" {
			rest = append(rest, s)
			continue
		}
		for _, x := range s.C {
			// Formatting drops repeated loads.
			if l := s.S + " " + x.S; !seen[l] {
				seen[l] = true
				loads = append(loads, l)
			}
		}
	}
	sort.Strings(loads)
	return
}

func checkC46(c *Ctx) {
	c.Rule("generated root modules (module and bazel_dep with and without repo_name, trees of included files, other things with such names) and BUILD and .bzl files that use rules and symbols of all " + fmt.Sprint(len(movedNames)) + " moved names, bare and through native, where they are unbound, loaded from the right file or elsewhere, or shadowed at the top level, by parameters, local variables, comprehensions; findings (line, category, file named in the message) against marks, the fixed file against the original with native. taken out and the loads of a reference model added, each before its first use, and the findings left. Distinct non-trivial: distinct files with an expected finding.")
	catSet := map[string]bool{}
	for _, m := range movedNames {
		catSet[m.cat] = true
	}
	var cats []string
	for m := range catSet {
		cats = append(cats, m)
	}
	sort.Strings(cats)
	from := map[string]map[string]string{}
	for _, m := range movedNames {
		if from[m.cat] == nil {
			from[m.cat] = map[string]string{}
		}
		from[m.cat][m.name] = m.file
	}
	// The list of categories is the one of the linter.
	for _, x := range warn.AllWarnings {
		if strings.HasPrefix(x, "native-") && x != "native-build" && x != "native-package" && !catSet[x] {
			c.Inconclusive("category %s is not known to this check", x)
		}
	}
	one := func(i int) {
		r := rand.New(rand.NewSource(c.Seed*7121 + int64(i)*7919 + 46))
		g := &nativeGen{r: r, kind: pick(r, KBuild, KBuild, KBzl, KBzl, KBzl, KBzl, FileKind(r.Intn(5))), state: map[string]int{}, need: map[[2]string]bool{}}
		g.workspace()
		marked := g.file()
		src, want := styleSplit(r, strings.NewReplacer("«", "", "»", "").Replace(marked), g.kind)
		after := marked
		for strings.Contains(after, "«") {
			p, q := strings.Index(after, "«"), strings.Index(after, "»")
			after = after[:p] + after[q+len("»"):]
		}
		after, _ = styleSplit(r, after, g.kind)
		log := fmt.Sprintf("%v\n%s", g.kind, src)
		var names []string
		for f := range g.ws {
			names = append(names, f)
		}
		sort.Strings(names)
		for _, f := range names {
			log += fmt.Sprintf("---- %s\n%s", f, g.ws[f])
		}
		c.Case(log)
		c.Guard("lint", log, func() {
			f, err := parseKind(g.kind, src)
			if err != nil {
				c.Inconclusive("generator: %v\n%s", err, log)
				return
			}
			lint := func(f *build.File, msgs bool) (got []string) {
				for _, x := range warn.FileWarnings(f, cats, nil, warn.ModeWarn, g.ws.reader()) {
					got = append(got, fmt.Sprintf("%d %s", x.Start.Line, x.Category))
					if !msgs {
						continue
					}
					ok := false
					for _, m := range movedNames {
						if m.cat == x.Category && strings.Contains(x.Message, fmt.Sprintf("%q", m.name)) && strings.Contains(x.Message, fmt.Sprintf("%q", g.module(m))) {
							ok = true
						}
					}
					if !ok {
						c.Violate("message:"+x.Category, "the message names another file: "+x.Message, log)
					}
				}
				sort.Strings(got)
				return
			}
			if miss, extra := multiDiff(want, lint(f, true)); len(miss)+len(extra) > 0 {
				sig := "missing"
				if len(miss) == 0 {
					sig = "extra"
				}
				c.Violate(sig, fmt.Sprintf("expected but not reported: %q\nreported but not expected: %q", miss, extra), log)
				return
			}
			before, err := starParse(after)
			if err != nil {
				c.Inconclusive("generator: %v\n%s", err, log)
				return
			}
			f, _ = parseKind(g.kind, src)
			warn.FixWarnings(f, cats, false, g.ws.reader())
			out := string(build.FormatWithoutRewriting(f))
			fixed, err := starParse(out)
			if err != nil {
				c.Violate("invalid", err.Error()+"\n"+out, log)
				return
			}
			wl, wr := splitLoads(before)
			gl, gr := splitLoads(fixed)
			have := map[string]bool{}
			for _, l := range wl {
				have[l] = true
			}
			for k := range g.need {
				l := k[0] + " " + k[1] + "=" + k[1]
				if !have[l] {
					wl = append(wl, l)
				}
			}
			sort.Strings(wl)
			if miss, extra := multiDiff(wl, gl); len(miss)+len(extra) > 0 {
				c.Violate("loads", fmt.Sprintf("missing %q, extra %q\n%s", miss, extra, out), log)
				return
			}
			for k := 0; k < len(wr) || k < len(gr); k++ {
				if k >= len(wr) || k >= len(gr) || wr[k].String() != gr[k].String() {
					c.Violate("code", "the fixed file differs in more than it should\n"+out, log)
					return
				}
			}
			// Added symbols are loaded before they are used.
			used := map[string]bool{}
			for _, s := range fixed.C {
				if s.K == "Load" {
					for _, x := range s.C {
						to := strings.SplitN(x.S, "=", 2)[0]
						if g.need[[2]string{s.S, to}] && !have[s.S+" "+x.S] && used[to] {
							c.Violate("late-load", fmt.Sprintf("%s is loaded after it is used\n%s", to, out), log)
							return
						}
					}
					continue
				}
				if s.K != "Def" {
					mapN(s, func(n *N) *N {
						if n.K == "Id" {
							used[n.S] = true
						}
						return n
					})
				}
			}
			// What is left could not be fixed.
			var left []string
			wantLeft := 0
			parts := strings.Split(marked, "§")
			for k := 1; k < len(parts); k += 2 {
				if strings.HasPrefix(parts[k+1], "native.") {
					wantLeft++
				}
			}
			f, err = parseKind(g.kind, out)
			if err != nil {
				c.Violate("invalid", err.Error()+"\n"+out, log)
				return
			}
			if left = lint(f, false); len(left) != wantLeft {
				c.Violate("left", fmt.Sprintf("%d findings should be left: %q\n%s", wantLeft, left, out), log)
			}
			c.Count("findings left", len(left))
			c.Count("loads added", len(g.need))
			for _, w := range want {
				c.Count("expected "+strings.Fields(w)[1], 1)
			}
		})
		key := ""
		if len(want) > 0 {
			key = log
		}
		c.Eval(key)
		c.Sample(log)
	}
	for i, n := 0, c.N(8000, 300000); i < n && !c.Failed(); i++ {
		one(i)
	}
}
