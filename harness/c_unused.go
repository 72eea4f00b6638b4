package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	depspb "github.com/bazelbuild/buildtools/deps_proto"
	eapb "github.com/bazelbuild/buildtools/extra_actions_base_proto"
	"github.com/golang/protobuf/proto"
)

func init() {
	checks["C36"] = checkUnusedDeps
	checks["C37"] = checkManifests
}

// manifest is a jar manifest under construction.
type mfHeader struct{ name, value string }

// mfText lays out a manifest with hostile but legal line splits.
func mfText(r *rand.Rand, main []mfHeader, sections [][]mfHeader) string {
	var sb strings.Builder
	mode := r.Intn(4) // LF, CRLF, CR, mixed
	nl := func() string {
		switch mode {
		case 0:
			return "\n"
		case 1:
			return "\r\n"
		case 2:
			return "\r"
		}
		return pick(r, "\n", "\r\n", "\r")
	}
	// After a CR, an LF would be taken as one end of line, which is what CR LF
	// means; so a mixed manifest never writes CR right before an LF line.
	last := ""
	eol := func() {
		n := nl()
		if last == "\r" && n == "\n" {
			n = "\r"
		}
		sb.WriteString(n)
		last = n
	}
	style := r.Intn(3)
	header := func(h mfHeader) {
		rest := h.name + ": " + h.value
		first := true
		for {
			max := 72
			min := 1
			if first {
				min = len(h.name) + 2
			} else {
				max = 71
			}
			if max > len(rest) {
				max = len(rest)
			}
			n := max
			if style == 1 && r.Intn(3) == 0 || style == 2 {
				if min < max {
					n = min + r.Intn(max-min+1)
				} else {
					n = min
				}
			}
			if n > len(rest) {
				n = len(rest)
			}
			if !first {
				sb.WriteString(" ")
			}
			sb.WriteString(rest[:n])
			last = ""
			rest = rest[n:]
			eol()
			first = false
			if rest == "" {
				return
			}
		}
	}
	for _, h := range main {
		header(h)
	}
	for _, s := range sections {
		eol()
		if r.Intn(6) == 0 {
			eol()
		}
		for _, h := range s {
			header(h)
		}
	}
	if r.Intn(2) == 0 {
		eol()
	}
	return sb.String()
}

// hostileManifest builds a manifest; label is the value of Target-Label in the
// main section ("" for none), decoy a label that no reader may take for it.
func hostileManifest(r *rand.Rand, label, decoy string) string {
	others := []mfHeader{
		{"Created-By", "bazel"},
		{"X-Target-Label", decoy},
		{"Target-Label-Extra", decoy},
		{"Target-Labels", decoy},
		{"Target", decoy},
		{"Comment", "Target-Label: " + decoy},
		{"Class-Path", strings.Repeat("lib/some.jar ", r.Intn(20)) + "Target-Label: " + decoy},
		{"Note", "x"},
		{"Injecting-Rule-Kind", "java_library"},
		{"Padding", strings.Repeat("y", r.Intn(200))},
		{"Empty", ""},
		{"Utf", strings.Repeat("é", r.Intn(80))},
		{"Spaces", strings.Repeat(" ", 1+r.Intn(100)) + "Target-Label: " + decoy},
	}
	r.Shuffle(len(others), func(i, j int) { others[i], others[j] = others[j], others[i] })
	main := append([]mfHeader(nil), others[:r.Intn(6)]...)
	if label != "" {
		at := r.Intn(len(main) + 1)
		main = append(main[:at], append([]mfHeader{{"Target-Label", label}}, main[at:]...)...)
	}
	if r.Intn(8) != 0 {
		main = append([]mfHeader{{"Manifest-Version", "1.0"}}, main...)
	} else if len(main) == 0 {
		main = []mfHeader{{"Manifest-Version", "1.0"}}
	}
	var sections [][]mfHeader
	for k := r.Intn(3) * r.Intn(4); k > 0; k-- {
		s := []mfHeader{{"Name", fmt.Sprintf("com/x/C%d.class", k)}}
		if r.Intn(2) == 0 {
			s = append(s, mfHeader{"Target-Label", decoy})
		}
		if r.Intn(3) == 0 {
			s = append(s, others[r.Intn(len(others))])
		}
		sections = append(sections, s)
	}
	return mfText(r, main, sections)
}

// jarBytes zips a manifest (nil for none) among other entries.
func jarBytes(r *rand.Rand, manifest *string, decoy string) []byte {
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	type ent struct{ name, data string }
	var l []ent
	if r.Intn(2) == 0 {
		l = append(l, ent{"META-INF/", ""})
	}
	for _, n := range []string{"META-INF/MANIFEST.MF.bak", "x/META-INF/MANIFEST.MF", "META-INF/maven/MANIFEST.MF", "com/x/C1.class", "MANIFEST.MF", "META-INF/INDEX.LIST"} {
		if r.Intn(4) == 0 {
			l = append(l, ent{n, "Manifest-Version: 1.0\nTarget-Label: " + decoy + "\n"})
		}
	}
	if manifest != nil {
		at := 0
		if r.Intn(2) == 0 {
			at = r.Intn(len(l) + 1)
		}
		l = append(l[:at], append([]ent{{"META-INF/MANIFEST.MF", *manifest}}, l[at:]...)...)
	}
	for _, e := range l {
		m := zip.Deflate
		if r.Intn(2) == 0 {
			m = zip.Store
		}
		f, err := w.CreateHeader(&zip.FileHeader{Name: e.name, Method: m})
		if err == nil {
			f.Write([]byte(e.data))
		}
	}
	w.Close()
	return buf.Bytes()
}

// udWS is a scratch workspace with a stand-in for bazel that answers from files.
type udWS struct {
	dir, ws, out, base, tool, tmp string
}

func newUdWS(dir, sub string) *udWS {
	u := &udWS{dir: dir, ws: filepath.Join(dir, "ws"), base: filepath.Join(dir, "ob"), tool: filepath.Join(dir, "fakebazel"), tmp: filepath.Join(dir, "tmp")}
	u.out = filepath.Join(dir, "ob/execroot/_main/bazel-out")
	for _, d := range []string{u.ws, u.base, u.out + "/k8/bin", u.tmp} {
		os.MkdirAll(d, 0o755)
	}
	os.WriteFile(filepath.Join(u.ws, "WORKSPACE"), nil, 0o644)
	script := `#!/bin/sh
d='` + dir + `'
case "$1" in
query|cquery)
  case "$*" in
  *"labels(exports"*)
    l=$(printf '%s' "$2" | sed 's/^labels(exports, //; s/)$//')
    printf '%s\n' "$l" >> "$d/asked"
    while IFS='|' read -r k v; do
      if [ "$k" = "$l" ]; then for x in $v; do printf '%s\n' "$x"; done; fi
    done < "$d/exports"
    ;;
  *) cat "$d/query";;
  esac;;
info)
  case "$2" in
  bazel-bin) echo '` + u.out + `/k8/bin';;
  output_path) echo '` + u.out + `';;
  output_base) echo '` + u.base + `';;
  esac;;
build) printf '%s\n' "$@" > "$d/build";;
esac
`
	os.WriteFile(u.tool, []byte(script), 0o755)
	return u
}

type udSuggestion struct{ kind, dep, exports, label string }

var (
	udMove   = regexp.MustCompile(`^buildozer 'move deps runtime_deps (\S+)' (\S+)$`)
	udRemove = regexp.MustCompile(`^buildozer 'remove deps (\S+)' (\S+)$`)
	udAdd    = regexp.MustCompile(`^buildozer "add deps \$\((\S+) query 'labels\(exports, (\S+)\)' \| tr '\\n' ' '\)" (\S+)$`)
)

// udParse reads the printed commands.
func udParse(out, tool string) (l []string, bad string) {
	var pending []string
	for _, line := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if line == "" {
			continue
		}
		if m := udAdd.FindStringSubmatch(line); m != nil {
			if pending != nil {
				return l, "two exports queries in a row: " + line
			}
			if m[1] != tool {
				return l, "the exports are queried with another tool: " + line
			}
			pending = []string{m[2], m[3]}
			continue
		}
		if m := udRemove.FindStringSubmatch(line); m != nil {
			if pending == nil || pending[1] != m[2] {
				return l, "no exports are added before: " + line
			}
			l = append(l, fmt.Sprintf("remove %s from %s exports %s", m[1], m[2], pending[0]))
			pending = nil
			continue
		}
		if m := udMove.FindStringSubmatch(line); m != nil && pending == nil {
			l = append(l, fmt.Sprintf("move %s of %s", m[1], m[2]))
			continue
		}
		return l, "unexpected line: " + line
	}
	if pending != nil {
		return l, "exports added without a removal"
	}
	return l, ""
}

// udTarget is a target that rules may depend on.
type udTarget struct {
	repo, pkg, name string
	exports         []string
}

func (t udTarget) abs() string {
	s := "//" + t.pkg + ":" + t.name
	if t.repo != "" {
		s = "@" + t.repo + s
	}
	return s
}

// spell writes the label of t inside package pkg of repository repo.
func (t udTarget) spell(r *rand.Rand, repo, pkg string) string {
	var l []string
	base := path.Base(t.pkg)
	var pre []string
	switch {
	case t.repo == repo && repo == "":
		pre = []string{"//", "@//"}
	case t.repo == repo:
		pre = []string{"//", "@" + repo + "//"}
	case t.repo == "":
		pre = []string{"@//"}
	default:
		pre = []string{"@" + t.repo + "//", "@@" + t.repo + "//"}
	}
	p := pick(r, pre...)
	l = append(l, p+t.pkg+":"+t.name)
	if base == t.name {
		l = append(l, p+t.pkg)
	}
	if t.pkg == "" && t.name == t.repo && t.repo != repo {
		l = append(l, "@"+t.repo)
	}
	if t.repo == repo && t.pkg == pkg {
		l = append(l, ":"+t.name, ":"+t.name, t.name)
	}
	return pick(r, l...)
}

type udElem struct {
	t       udTarget
	spelled string
	runtime bool
	comment string
}

type udRule struct {
	repo, pkg, name, kind string
	parts                 [][]udElem // lists of deps; parts after the first are select branches
	sel                   bool
	exclaim               string // non-list deps
}

func (ru *udRule) label() string {
	s := "//" + ru.pkg + ":" + ru.name
	if ru.repo != "" {
		s = ru.repo + s // with @ or @@
	}
	return s
}

func (ru *udRule) text() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s(\n    name = %q,\n    srcs = [\"A.java\"],\n", ru.kind, ru.name)
	list := func(l []udElem, ind string) string {
		if len(l) == 0 {
			return "[]"
		}
		s := "[\n"
		for _, e := range l {
			s += ind + "    " + fmt.Sprintf("%q,", e.spelled)
			if e.comment != "" {
				s += "  # " + e.comment
			}
			s += "\n"
		}
		return s + ind + "]"
	}
	if ru.exclaim != "" {
		fmt.Fprintf(&sb, "    deps = %s,\n", ru.exclaim)
	} else if ru.parts != nil {
		sb.WriteString("    deps = ")
		for i, p := range ru.parts {
			if i == 0 {
				sb.WriteString(list(p, "    "))
				if ru.sel {
					sb.WriteString(" + select({\n")
				}
				continue
			}
			if ru.sel {
				fmt.Fprintf(&sb, "        \"//c:c%d\": %s,\n", i, list(p, "        "))
			} else {
				sb.WriteString(" + " + list(p, "    "))
			}
		}
		if ru.sel {
			sb.WriteString("        \"//conditions:default\": [],\n    })")
		}
		sb.WriteString(",\n")
	}
	sb.WriteString(")\n")
	return sb.String()
}

func checkUnusedDeps(c *Ctx) {
	c.Rule("unused_deps is run as a binary against a scratch workspace, generated BUILD files, jars, Javac params files and jdeps records, with a stand-in for bazel that answers query/cquery/info from files. The suggestions it prints are compared with those computed from the records by construction; the printed script is then run with sh and the real buildozer and the resulting deps and runtime_deps are compared with the predicted sets. Distinct = (shape of records, spelling, comment, file state) combinations")
	c.Assume("names of targets without blanks or quotes; no rules foo and libfoo of non-library kinds in one package (unused_deps cannot tell their jdeps files apart); jars named below bazel-out")
	n := c.N(1500, 15000)
	c.parallel(n, 8, 36, func(i int, r *rand.Rand) {
		if i%6 == 5 {
			udExtraAction(c, i, r)
		} else {
			udCase(c, i, r)
		}
	})
}

func udJdeps(deps map[string]depspb.Dependency_Kind, order []string, r *rand.Rand) []byte {
	m := &depspb.Dependencies{RuleLabel: proto.String("//x:y"), Success: proto.Bool(true)}
	for _, p := range order {
		k, ok := deps[p]
		if !ok {
			continue
		}
		d := &depspb.Dependency{Path: proto.String(p), Kind: k.Enum()}
		if r.Intn(3) == 0 {
			d.Location = append(d.Location, &depspb.SourceLocation{Path: proto.String("A.java"), Line: proto.Int32(3)})
		}
		m.Dependency = append(m.Dependency, d)
	}
	b, _ := proto.Marshal(m)
	return b
}

// udRecords writes jars, params and jdeps for a rule that declares (or inherits)
// the given direct dependencies, and returns the canonical labels unused_deps
// may propose to remove.
func udRecords(r *rand.Rand, direct []udTarget, all []udTarget, outDir, jarPrefix, paramsFile, jdepsFile string, jarOf func(t udTarget, k int) string, state string, note func(string)) map[string]bool {
	writeJar := func(jar string, manifest *string, decoy string) {
		full := filepath.Join(outDir, strings.TrimPrefix(jar, "bazel-out/"))
		os.MkdirAll(filepath.Dir(full), 0o755)
		os.WriteFile(full, jarBytes(r, manifest, decoy), 0o644)
	}
	deps := map[string]depspb.Dependency_Kind{}
	var order, jars []string
	unused := map[string]bool{}
	used := map[string]bool{}
	for _, t := range direct {
		key := t.abs()
		nj := 1
		if r.Intn(4) == 0 {
			nj = 2
		}
		known := true
		form := strings.TrimLeft(key, "@")
		if t.repo != "" {
			form = pick(r, "@", "@@") + form
		} else {
			form = pick(r, "", "@", "@@") + form
		}
		if path.Base(t.pkg) == t.name && r.Intn(3) == 0 {
			form = strings.TrimSuffix(form, ":"+t.name)
		}
		for k := 0; k < nj; k++ {
			jar := jarOf(t, k)
			jars = append(jars, jar)
			decoy := all[r.Intn(len(all))].abs()
			switch {
			case nj == 1 && r.Intn(14) == 0:
				writeJar(jar, nil, decoy) // no manifest
				known = false
				note("jar without manifest")
			case nj == 1 && r.Intn(14) == 0:
				m := hostileManifest(r, "", decoy)
				writeJar(jar, &m, decoy)
				known = false
				note("manifest without label")
			case nj == 1 && r.Intn(20) == 0:
				known = false // no jar
				note("missing jar")
			default:
				m := hostileManifest(r, form, decoy)
				writeJar(jar, &m, decoy)
			}
			switch r.Intn(7) {
			case 0, 1:
				deps[jar] = depspb.Dependency_EXPLICIT
				used[key] = true
				note("explicit")
			case 2:
				deps[jar] = depspb.Dependency_IMPLICIT
				note("implicit")
			case 3:
				deps[jar] = depspb.Dependency_UNUSED
				note("unused")
			case 4:
				deps[jar] = depspb.Dependency_INCOMPLETE
				note("incomplete")
			default:
				note("unlisted")
			}
			order = append(order, jar)
		}
		if known {
			unused[key] = true
		}
	}
	for k := range used {
		delete(unused, k)
	}
	// Jars used explicitly which are no direct dependencies.
	for k := r.Intn(3); k > 0; k-- {
		j := fmt.Sprintf("bazel-out/k8/bin/trans/t%d.jar", k)
		deps[j] = depspb.Dependency_EXPLICIT
		order = append(order, j)
	}
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	r.Shuffle(len(jars), func(i, j int) { jars[i], jars[j] = jars[j], jars[i] })
	jd := udJdeps(deps, order, r)

	var p strings.Builder
	fmt.Fprintf(&p, "java\n-jar\nJavaBuilder_deploy.jar\n--output\n%s\n--classpath\n", jarPrefix)
	for k := r.Intn(60); k > 0; k-- {
		fmt.Fprintf(&p, "bazel-out/k8/bin/trans/t%d.jar\n", k)
	}
	// Jars of other targets on the class path only.
	for _, t := range all {
		if r.Intn(2) == 0 {
			p.WriteString(jarOf(t, 0) + "\n")
		}
	}
	p.WriteString("--sources\nA.java\n")
	hasSection := state != "nosection"
	if hasSection {
		p.WriteString("--direct_dependencies\n" + strings.Join(jars, "\n"))
		if len(jars) > 0 {
			p.WriteString("\n")
		}
		if r.Intn(4) != 0 {
			p.WriteString(pick(r, "--experimental_fix_deps_tool\nadd_dep\n", "--injecting_rule_kind\njava_library\n", "--strict_java_deps\nERROR\n"))
			for _, t := range all {
				if r.Intn(3) == 0 {
					p.WriteString(jarOf(t, 0) + "\n")
				}
			}
		}
	}
	// Every jar that is named somewhere exists with its label.
	for _, t := range all {
		j := jarOf(t, 0)
		full := filepath.Join(outDir, strings.TrimPrefix(j, "bazel-out/"))
		in := false
		for _, x := range jars {
			in = in || x == j
		}
		if !in {
			m := hostileManifest(r, t.abs(), t.abs())
			os.MkdirAll(filepath.Dir(full), 0o755)
			os.WriteFile(full, jarBytes(r, &m, t.abs()), 0o644)
		}
	}
	os.MkdirAll(filepath.Dir(paramsFile), 0o755)
	os.MkdirAll(filepath.Dir(jdepsFile), 0o755)
	if state != "noparams" {
		os.WriteFile(paramsFile, []byte(p.String()), 0o644)
	}
	switch state {
	case "nojdeps":
	case "truncated":
		os.WriteFile(jdepsFile, jd[:len(jd)-1], 0o644)
	case "garbage":
		os.WriteFile(jdepsFile, []byte{0xff, 0xff, 0xff, 0x01}, 0o644)
	default:
		os.WriteFile(jdepsFile, jd, 0o644)
	}
	if state != "" && state != "ok" {
		note("records " + state)
		return map[string]bool{}
	}
	return unused
}

func udUniverse(r *rand.Rand, pkgs []string, ext bool) []udTarget {
	var l []udTarget
	seen := map[string]bool{}
	for k := 5 + r.Intn(8); k > 0; k-- {
		t := udTarget{pkg: pick(r, pkgs...)}
		t.name = pick(r, "x", "y", "libx", "x-lib", "x_y", "api", "lib", path.Base(t.pkg), "sub/x")
		if t.name == "." {
			t.name = "x"
		}
		if r.Intn(5) == 0 {
			t.repo = pick(r, "ext", "maven~ext~guava")
			if r.Intn(4) == 0 {
				t.pkg, t.name = "", t.repo
			}
		} else if ext && r.Intn(2) == 0 {
			t.repo = "ext"
		}
		if seen[t.abs()] {
			continue
		}
		seen[t.abs()] = true
		for k := r.Intn(3); k > 0; k-- {
			t.exports = append(t.exports, fmt.Sprintf("//exported:e%d", r.Intn(8)))
		}
		l = append(l, t)
	}
	return l
}

func udCase(c *Ctx, i int, r *rand.Rand) {
	dir := c.subdir(fmt.Sprintf("u%d", i))
	defer os.RemoveAll(dir)
	u := newUdWS(dir, "")
	ext := r.Intn(5) == 0
	pkgs := []string{"lib", "java/com/x", "app", ""}
	univ := udUniverse(r, pkgs, ext)
	notes := map[string]bool{}
	note := func(s string) { notes[s] = true }
	var rules []*udRule
	taken := map[string]bool{}
	for k := 1 + r.Intn(4); k > 0; k-- {
		ru := &udRule{pkg: pick(r, pkgs...), kind: pick(r, "java_library", "java_binary", "kt_jvm_library", "android_library", "java_test")}
		if ext && r.Intn(2) == 0 {
			ru.repo = pick(r, "@ext", "@@ext")
			note("rule of an external repository")
		}
		ru.name = pick(r, "r1", "r2", "rule-x", "main", "sub/main", "libr1")
		if ru.name == "libr1" || ru.name == "r1" {
			ru.kind = pick(r, "java_library", "android_library") // other kinds could share the file libr1.jdeps
		}
		key := strings.TrimLeft(ru.repo, "@") + "//" + ru.pkg + ":" + ru.name
		clash := false
		for _, t := range univ {
			clash = clash || t.abs() == "@"+key || t.abs() == key
		}
		if taken[key] || clash {
			continue
		}
		taken[key] = true
		rules = append(rules, ru)
	}
	if len(rules) == 0 {
		return
	}
	byFile := map[string][]*udRule{}
	var wantLines []string
	type finals struct{ deps, gone, runtime map[string]bool }
	want := map[*udRule]finals{}
	for _, ru := range rules {
		repo := strings.TrimLeft(ru.repo, "@")
		// declared
		var decl []udElem
		for _, t := range univ {
			if r.Intn(3) == 0 {
				continue
			}
			e := udElem{t: t, spelled: t.spell(r, repo, ru.pkg)}
			switch r.Intn(6) {
			case 0:
				e.runtime = true
				e.comment = pick(r, "runtime", "needed at Runtime", "RUNTIME dep")
				note("runtime comment")
			case 1:
				e.comment = pick(r, "keep", "buildcleaner: keep", "run time", "why")
			}
			decl = append(decl, e)
		}
		if r.Intn(12) == 0 {
			ru.exclaim = pick(r, "DEPS", "glob([\"*.jar\"])", "select(CHOICES)")
			note("deps without a list")
		} else if r.Intn(15) != 0 {
			np := 1
			if r.Intn(3) == 0 {
				np = 2 + r.Intn(2)
				ru.sel = r.Intn(2) == 0
				note(fmt.Sprintf("%d parts select=%v", np, ru.sel))
			}
			ru.parts = make([][]udElem, np)
			for _, e := range decl {
				at := r.Intn(np)
				ru.parts[at] = append(ru.parts[at], e)
				if o := r.Intn(np); o != at && r.Intn(3) == 0 {
					ru.parts[o] = append(ru.parts[o], e)
				}
			}
			for k := range ru.parts {
				if len(ru.parts[k]) == 0 {
					ru.parts[k] = []udElem{}
				}
			}
		} else {
			note("no deps")
		}
		// elements that were placed
		decl = nil
		for _, p := range ru.parts {
			decl = append(decl, p...)
		}
		if ru.exclaim != "" {
			decl = nil
		}
		var direct []udTarget
		isDirect := map[string]bool{}
		for _, e := range decl {
			if r.Intn(10) != 0 && !isDirect[e.t.abs()] {
				isDirect[e.t.abs()] = true
				direct = append(direct, e.t)
			}
		}
		for _, t := range univ { // direct dependencies that come from elsewhere (macros, exports)
			in := false
			for _, e := range decl {
				in = in || e.t.abs() == t.abs()
			}
			if !in && r.Intn(3) == 0 {
				direct = append(direct, t)
				note("undeclared direct dependency")
			}
		}
		bin := u.out + "/k8/bin"
		buildDir := filepath.Join(u.ws, ru.pkg)
		if repo != "" {
			bin += "/external/" + repo
			buildDir = filepath.Join(u.base, "external", repo, ru.pkg)
		}
		jd := "lib" + ru.name
		if strings.Contains(ru.name, "/") {
			jd = path.Dir(ru.name) + "/lib" + path.Base(ru.name)
		}
		lib := strings.HasSuffix(ru.kind, "_library") && ru.kind != "kt_jvm_library"
		if strings.Contains(ru.name, "/") || !lib {
			jd = ru.name
		}
		state := "ok"
		if r.Intn(4) == 0 {
			state = pick(r, "noparams", "nosection", "nojdeps", "truncated", "garbage")
		}
		if state == "nojdeps" && ru.name == "libr1" {
			state = "noparams"
		}
		tag := strings.NewReplacer("/", "_", "@", "", ":", "_").Replace(ru.label())
		unused := udRecords(r, direct, univ, u.out, "bazel-out/k8/bin/x.jar", bin+"/"+ru.pkg+"/"+ru.name+".javac_params", bin+"/"+ru.pkg+"/"+jd+".jdeps",
			func(t udTarget, k int) string {
				s := ""
				if k > 0 {
					s = "-hjar"
				}
				x := ""
				if t.repo != "" {
					x = "external/" + t.repo + "/"
				}
				return "bazel-out/k8/bin/" + x + tag + "/" + t.pkg + "/lib" + t.name + s + ".jar"
			}, state, note)
		f := finals{map[string]bool{}, map[string]bool{}, map[string]bool{}}
		for _, e := range decl {
			f.deps[e.t.abs()] = true
		}
		// Only lists outside of selects are judged by the records of one configuration.
		plain := decl
		if ru.sel && ru.exclaim == "" {
			plain = ru.parts[0]
		}
		for _, e := range plain {
			key := e.t.abs()
			if !unused[key] {
				continue
			}
			if e.runtime {
				wantLines = append(wantLines, fmt.Sprintf("move %s of %s", e.spelled, ru.label()))
				f.runtime[key] = true
			} else {
				wantLines = append(wantLines, fmt.Sprintf("remove %s from %s exports %s", e.spelled, ru.label(), "?"+key))
				for _, x := range e.t.exports {
					f.deps[x] = true
				}
			}
			delete(f.deps, key)
			f.gone[key] = true
		}
		want[ru] = f
		file := filepath.Join(buildDir, pick(r, "BUILD", "BUILD.bazel"))
		if _, err := os.Stat(filepath.Join(buildDir, "BUILD")); err == nil {
			file = filepath.Join(buildDir, "BUILD")
		} else if _, err := os.Stat(filepath.Join(buildDir, "BUILD.bazel")); err == nil {
			file = filepath.Join(buildDir, "BUILD.bazel")
		}
		byFile[file] = append(byFile[file], ru)
		os.MkdirAll(buildDir, 0o755)
		text := ""
		for _, x := range byFile[file] {
			text += x.text() + "\n"
		}
		os.WriteFile(file, []byte(text), 0o644)
	}
	var input strings.Builder
	var fl []string
	for f := range byFile {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	for _, f := range fl {
		b, _ := os.ReadFile(f)
		fmt.Fprintf(&input, "--- %s\n%s", strings.TrimPrefix(f, dir), b)
	}
	// exports table
	var ex strings.Builder
	for _, t := range univ {
		if len(t.exports) == 0 {
			continue
		}
		forms := []string{t.abs()}
		if t.repo != "" {
			forms = append(forms, "@"+t.abs())
		} else {
			forms = append(forms, "@"+t.abs(), "@@"+t.abs())
		}
		for _, f := range append([]string(nil), forms...) {
			if path.Base(t.pkg) == t.name {
				forms = append(forms, strings.TrimSuffix(f, ":"+t.name))
			}
		}
		if t.repo != "" && t.pkg == "" && t.name == t.repo {
			forms = append(forms, "@"+t.repo)
		}
		for _, f := range forms {
			fmt.Fprintf(&ex, "%s|%s\n", f, strings.Join(t.exports, " "))
		}
	}
	os.WriteFile(dir+"/exports", []byte(ex.String()), 0o644)
	cq := r.Intn(4) == 0
	q := ""
	for _, k := range r.Perm(len(rules)) {
		q += rules[k].label()
		if cq {
			q += " (" + pick(r, "a1b2c3d", "null") + ")"
		}
		q += "\n"
	}
	os.WriteFile(dir+"/query", []byte(q), 0o644)
	args := []string{"-build_tool", u.tool}
	if cq {
		args = append(args, "-cquery")
	}
	args = append(args, "//...")
	cwd := u.ws
	if r.Intn(3) == 0 {
		cwd = filepath.Join(u.ws, pick(r, "lib", "app", "empty"))
		os.MkdirAll(cwd, 0o755)
		note("run from a subdirectory")
	}
	before := snapshot(u.ws)
	res := c.runBin(cwd, u.tmp, "", nil, "unused_deps", args...)
	in := input.String() + "\nquery:\n" + q + "\n" + res.String()
	if len(in) > 20000 {
		in = in[:20000]
	}
	c.Eval(fmt.Sprint(sortedKeys(notes), len(wantLines) > 0, cq))
	c.Count("runs", 1)
	c.Count("suggestions predicted", len(wantLines))
	for n := range notes {
		c.Count("with "+n, 1)
	}
	if s := res.crashed(); s != "" {
		c.Violate("unused_deps:crash:"+s, res.String(), in)
		return
	}
	if res.code != 0 {
		c.Violate("unused_deps:exit", fmt.Sprintf("exit code %d", res.code), in)
		return
	}
	if d := snapDiff(before, snapshot(u.ws)); len(d) > 0 {
		c.Violate("unused_deps:touches the workspace", strings.Join(d, "\n"), in)
		return
	}
	if l, _ := filepath.Glob(u.tmp + "/unused_deps*"); len(l) > 0 {
		c.Violate("unused_deps:leaves its temporary directory", strings.Join(l, "\n"), in)
	}
	got, bad := udParse(res.out, u.tool)
	if bad != "" {
		c.Violate("unused_deps:output", bad, in)
		return
	}
	// The exports query must name the target, in any absolute spelling.
	reX := regexp.MustCompile(` exports (\S+)$`)
	canon := func(s string) string {
		m := reX.FindStringSubmatch(s)
		if m == nil {
			return s
		}
		x := m[1]
		if strings.HasPrefix(x, "?") {
			return s
		}
		if !strings.HasPrefix(x, "@") && !strings.HasPrefix(x, "//") {
			return s
		}
		x = strings.TrimLeft(x, "@")
		if strings.HasPrefix(x, "//") {
			if !strings.Contains(x, ":") {
				x += ":" + path.Base(x)
			}
		} else {
			repo, rest, ok := strings.Cut(x, "//")
			if !ok {
				rest = ":" + repo
			}
			if !strings.Contains(rest, ":") {
				rest += ":" + path.Base(rest)
			}
			x = "@" + repo + "//" + rest
		}
		return strings.TrimSuffix(s, m[1]) + "?" + x
	}
	for k := range got {
		got[k] = canon(got[k])
	}
	sort.Strings(got)
	sort.Strings(wantLines)
	if strings.Join(got, "\n") != strings.Join(wantLines, "\n") {
		kind := "suggestions"
		var miss, extra []string
		cnt := map[string]int{}
		for _, s := range wantLines {
			cnt[s]++
		}
		for _, s := range got {
			cnt[s]--
		}
		for s, k := range cnt {
			for ; k > 0; k-- {
				miss = append(miss, s)
			}
			for ; k < 0; k++ {
				extra = append(extra, s)
			}
		}
		sort.Strings(miss)
		sort.Strings(extra)
		switch {
		case len(extra) == 0:
			kind = "missing suggestion"
		case len(miss) == 0:
			kind = "unjustified suggestion"
		}
		c.Violate("unused_deps:"+kind, "missing:\n"+strings.Join(miss, "\n")+"\nnot predicted:\n"+strings.Join(extra, "\n"), in)
		return
	}
	if len(wantLines) == 0 && !strings.Contains(res.err, "No unused deps found") {
		c.Violate("unused_deps:silent", "nothing is printed for no suggestions", in)
	}
	if i < 3 {
		c.Sample(in)
	}
	if ext || len(wantLines) == 0 {
		return
	}
	// Run the script.
	os.WriteFile(dir+"/script.sh", []byte(res.out), 0o644)
	sh := c.runBin(u.ws, u.tmp, "", []string{"PATH=" + c.Bin + ":" + os.Getenv("PATH")}, "/bin/sh", dir+"/script.sh")
	c.Count("scripts run", 1)
	for _, f := range fl {
		b, _ := os.ReadFile(f)
		for _, ru := range byFile[f] {
			m, err := newBzModel(ru.pkg, string(b))
			if err != nil {
				c.Violate("unused_deps:script breaks the file", err.Error(), in+sh.String())
				return
			}
			s := m.find(ru.name)
			if s == nil || ru.exclaim != "" {
				continue
			}
			look := func(attr string) map[string]bool {
				set := map[string]bool{}
				if v := attrOf(s.n, attr); v != nil {
					eachList(v, func(l *N) {
						for _, e := range l.C {
							if e.K == "Str" {
								repo, p, t := refParse(unq(e.S), ru.pkg)
								set[udTarget{repo: repo, pkg: p, name: t}.abs()] = true
							}
						}
					})
				}
				return set
			}
			f := want[ru]
			if g, w := setStr(look("deps")), setStr(f.deps); g != w {
				c.Violate("unused_deps:deps after the script", fmt.Sprintf("rule %s\ngot  %s\nwant %s", ru.label(), g, w), in+sh.String()+string(b))
				return
			}
			if g, w := setStr(look("runtime_deps")), setStr(f.runtime); g != w {
				c.Violate("unused_deps:runtime_deps after the script", fmt.Sprintf("rule %s\ngot  %s\nwant %s", ru.label(), g, w), in+sh.String()+string(b))
				return
			}
			c.Count("rules compared after the script", 1)
		}
	}
}

// udExtraAction drives the extra action mode.
func udExtraAction(c *Ctx, i int, r *rand.Rand) {
	dir := c.subdir(fmt.Sprintf("u%d", i))
	defer os.RemoveAll(dir)
	univ := udUniverse(r, []string{"lib", "java/com/x", ""}, false)
	var direct []udTarget
	for _, t := range univ {
		if r.Intn(3) != 0 {
			direct = append(direct, t)
		}
	}
	jar := "bazel-out/k8/bin/" + pick(r, "app/libr.jar", "app/lib.jars/libr.jar", "a.jar.d/libx.jar", "x/y-1.jar")
	notes := map[string]bool{}
	unused := udRecords(r, direct, univ, dir+"/bazel-out", jar, dir+"/"+jar+"-2.params", dir+"/"+strings.TrimSuffix(jar, ".jar")+".jdeps", func(t udTarget, k int) string {
		return fmt.Sprintf("bazel-out/k8/bin/jars/%s/%s/lib%s-%d.jar", t.repo, t.pkg, t.name, k)
	}, pick(r, "ok", "ok", "ok", "nojdeps", "noparams"), func(s string) { notes[s] = true })
	info := &eapb.ExtraActionInfo{Owner: proto.String("//app:r"), Mnemonic: proto.String("Javac")}
	if err := proto.SetExtension(info, eapb.E_JavaCompileInfo_JavaCompileInfo, &eapb.JavaCompileInfo{Outputjar: proto.String(jar), Classpath: []string{"x.jar"}}); err != nil {
		c.Inconclusive("%v", err)
	}
	b, _ := proto.Marshal(info)
	os.WriteFile(dir+"/x.xa", b, 0o644)
	res := c.runBin(dir, c.subdir("tmp36"), "", nil, "unused_deps", "-extra_action_file", "x.xa", "-output_file", "out.txt")
	got, err := os.ReadFile(dir + "/out.txt")
	c.Eval("extra " + fmt.Sprint(sortedKeys(notes)))
	c.Count("extra actions", 1)
	in := fmt.Sprintf("%v\n%s\nout.txt:\n%s", sortedKeys(unused), res, got)
	if res.crashed() != "" || res.code != 0 || err != nil {
		c.Violate("unused_deps:extra action fails", res.String(), in)
		return
	}
	var l []string
	for _, s := range strings.Fields(string(got)) {
		repo, p, t := refParse(s, "")
		l = append(l, udTarget{repo: repo, pkg: p, name: t}.abs())
	}
	sort.Strings(l)
	if strings.Join(l, " ") != strings.Join(sortedKeys(unused), " ") {
		c.Violate("unused_deps:extra action output", fmt.Sprintf("got  %v\nwant %v", l, sortedKeys(unused)), in)
	}
}

func checkManifests(c *Ctx) {
	c.Rule("unused_deps is run over a rule whose direct dependencies are generated jars, each with a manifest laid out at random (main section, per-entry sections, line ends CR, LF, CRLF and mixed, continuation lines at arbitrary bytes, look-alike names, values and entries), empty compilation records and deps naming every label and every decoy; the labels in the printed suggestions are exactly those the manifests were built to carry. Distinct = jars")
	runs, per := c.N(300, 3000), 120
	c.parallel(runs, 8, 37, func(i int, r *rand.Rand) {
		dir := c.subdir(fmt.Sprintf("m%d", i))
		defer os.RemoveAll(dir)
		u := newUdWS(dir, "")
		var deps, params strings.Builder
		manifests := map[string]string{}
		want := map[string]bool{}
		for k := 0; k < per; k++ {
			long := ""
			for r.Intn(3) == 0 {
				long += pick(r, "/some/long/package/name", "/é", "/x", "/a-rather_long.segment+of~name", "/ünïcödé/ẞ")
			}
			label := fmt.Sprintf("//pkg%s:t%d%s", long, k, strings.Repeat("x", r.Intn(3)*r.Intn(60)))
			decoy := fmt.Sprintf("//decoy:d%d", k)
			fmt.Fprintf(&deps, "        %q,\n        %q,\n", label, decoy)
			jar := fmt.Sprintf("bazel-out/k8/bin/j/%d.jar", k)
			params.WriteString(jar + "\n")
			has := r.Intn(5) != 0
			v := ""
			if has {
				v = label
			}
			m := hostileManifest(r, v, decoy)
			mp := &m
			if r.Intn(25) == 0 {
				mp, has = nil, false
			}
			b := jarBytes(r, mp, decoy)
			if r.Intn(40) == 0 {
				b, has = b[:len(b)/2], false
			}
			full := filepath.Join(u.out, strings.TrimPrefix(jar, "bazel-out/"))
			os.MkdirAll(filepath.Dir(full), 0o755)
			os.WriteFile(full, b, 0o644)
			if has {
				want[label] = true
				manifests[label] = m
			}
			manifests[decoy] = m
			c.Eval(m)
			c.Count("jars", 1)
			if has {
				c.Count("jars with a label", 1)
			}
			if strings.Contains(m, "\r\n ") || strings.Contains(m, "\n ") || strings.Contains(m, "\r ") {
				c.Count("manifests with continuation lines", 1)
			}
		}
		os.MkdirAll(u.ws+"/p", 0o755)
		os.MkdirAll(u.out+"/k8/bin/p", 0o755)
		os.WriteFile(u.ws+"/p/BUILD", []byte("java_library(\n    name = \"r\",\n    deps = [\n"+deps.String()+"    ],\n)\n"), 0o644)
		os.WriteFile(u.out+"/k8/bin/p/r.javac_params", []byte("--direct_dependencies\n"+params.String()+"--end\n"), 0o644)
		os.WriteFile(u.out+"/k8/bin/p/libr.jdeps", nil, 0o644)
		os.WriteFile(dir+"/query", []byte("//p:r\n"), 0o644)
		os.WriteFile(dir+"/exports", nil, 0o644)
		res := c.runBin(u.ws, u.tmp, "", nil, "unused_deps", "-build_tool", u.tool, "//p:all")
		if s := res.crashed(); s != "" || res.code != 0 {
			c.Violate("manifest:crash", res.String(), deps.String())
			return
		}
		got := map[string]bool{}
		for _, m := range regexp.MustCompile(`(?m)^buildozer 'remove deps (\S+)' //p:r$`).FindAllStringSubmatch(res.out, -1) {
			got[m[1]] = true
		}
		for l := range want {
			if !got[l] {
				c.Violate("manifest:label not read", "the label "+l+" is not read from the manifest", fmt.Sprintf("%q", manifests[l]))
				return
			}
		}
		for l := range got {
			if !want[l] {
				c.Violate("manifest:wrong label read", "the label "+l+" is read from a manifest that does not have it as its label", fmt.Sprintf("%q", manifests[l]))
				return
			}
		}
		if i == 0 {
			for _, m := range manifests {
				c.Sample(fmt.Sprintf("%q", m))
				break
			}
		}
	})
}
