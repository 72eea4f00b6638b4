package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"sort"
	"strconv"
	"strings"

	"go.starlark.net/starlark"
	"go.starlark.net/syntax"
)

// A world in which the deprecated forms that lint fixes replace and the forms they are replaced
// with exist side by side and have the meaning the documentation gives them. Values are terms;
// calls with an effect (actions, rules, ...) are recorded in a normal form that is the same for
// the old and the new form.

type apiWorld struct {
	seed int64
	log  []string
	refs int // calls of deprecated forms
}

func (w *apiWorld) event(format string, a ...interface{}) {
	if len(w.log) < 3000 {
		w.log = append(w.log, fmt.Sprintf(format, a...))
	}
}

func (w *apiWorld) hash(s string) uint32 {
	h := fnv.New32a()
	fmt.Fprintf(h, "%d %s", w.seed, s)
	x := h.Sum32()
	x ^= x >> 15
	x *= 0x2c1b3c6d
	x ^= x >> 12
	return x
}

// apiSym is an unknown value, known by the term it was computed with.
type apiSym struct {
	w    *apiWorld
	s    string
	attr func(name string) starlark.Value
	call func(t *starlark.Thread, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error)
}

func (w *apiWorld) sym(format string, a ...interface{}) *apiSym {
	s := fmt.Sprintf(format, a...)
	if len(s) > 600 {
		s = fmt.Sprintf("<%d %x>", len(s), w.hash(s))
	}
	return &apiSym{w: w, s: s}
}

func apiStr(v starlark.Value) string { return apiStrN(v, 12) }

func apiStrN(v starlark.Value, depth int) string {
	if depth == 0 {
		return "..."
	}
	list := func(n int, at func(int) starlark.Value) string {
		var l []string
		for i := 0; i < n && i < 20; i++ {
			l = append(l, apiStrN(at(i), depth-1))
		}
		return strings.Join(l, ", ")
	}
	switch x := v.(type) {
	case nil:
		return "nil"
	case *apiSym:
		return x.s
	case *apiDepset:
		return "depset[" + list(len(x.items), func(i int) starlark.Value { return x.items[i] }) + "]"
	case *starlark.List:
		return "[" + list(x.Len(), x.Index) + "]"
	case starlark.Tuple:
		return "(" + list(len(x), func(i int) starlark.Value { return x[i] }) + ")"
	case *starlark.Dict:
		var l []string
		for _, kv := range x.Items() {
			l = append(l, apiStrN(kv[0], depth-1)+": "+apiStrN(kv[1], depth-1))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ", ") + "}"
	case starlark.String:
		return strconv.Quote(string(x))
	case starlark.Float:
		if f := float64(x); f == math.Trunc(f) && math.Abs(f) < 1e15 {
			return strconv.FormatInt(int64(f), 10)
		}
		return fmt.Sprint(float64(x))
	case *starlark.Function:
		return "function " + x.Name()
	}
	return v.String()
}

func (u *apiSym) String() string        { return u.s }
func (u *apiSym) Type() string          { return "term" }
func (u *apiSym) Freeze()               {}
func (u *apiSym) Hash() (uint32, error) { return u.w.hash(u.s), nil }
func (u *apiSym) Name() string          { return u.s }
func (u *apiSym) Truth() starlark.Bool  { return u.w.hash("truth "+u.s)%2 == 0 }
func (u *apiSym) AttrNames() []string   { return nil }
func (u *apiSym) Attr(n string) (starlark.Value, error) {
	if u.attr != nil {
		if v := u.attr(n); v != nil {
			return v, nil
		}
	}
	return u.w.sym("%s.%s", u.s, n), nil
}
func (u *apiSym) SetField(n string, v starlark.Value) error {
	u.w.event("%s.%s = %s", u.s, n, apiStr(v))
	return nil
}
func (u *apiSym) SetKey(k, v starlark.Value) error {
	u.w.event("%s[%s] = %s", u.s, apiStr(k), apiStr(v))
	return nil
}
func (u *apiSym) Get(k starlark.Value) (starlark.Value, bool, error) {
	return u.w.sym("%s[%s]", u.s, apiStr(k)), true, nil
}
func (u *apiSym) Binary(op syntax.Token, y starlark.Value, side starlark.Side) (starlark.Value, error) {
	if op == syntax.IN {
		if _, ok := y.(*apiDepset); ok && side == starlark.Left {
			return nil, nil
		}
		return starlark.Bool(u.w.hash(fmt.Sprintf("in %v %s %s", side, u.s, apiStr(y)))%2 == 0), nil
	}
	if side == starlark.Left {
		return u.w.sym("(%s %v %s)", u.s, op, apiStr(y)), nil
	}
	return u.w.sym("(%s %v %s)", apiStr(y), op, u.s), nil
}
func (u *apiSym) Unary(op syntax.Token) (starlark.Value, error) {
	return u.w.sym("(%v %s)", op, u.s), nil
}
func (u *apiSym) CompareSameType(op syntax.Token, y starlark.Value, depth int) (bool, error) {
	a, b := u.s, y.(*apiSym).s
	switch op {
	case syntax.EQL:
		return a == b, nil
	case syntax.NEQ:
		return a != b, nil
	}
	return u.w.hash("cmp "+op.String()+a+" "+b)%2 == 0, nil
}
func (u *apiSym) CallInternal(t *starlark.Thread, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
	if u.call != nil {
		return u.call(t, args, kw)
	}
	s, err := u.w.args(t, args, kw)
	if err != nil {
		return nil, err
	}
	return u.w.sym("%s(%s)", u.s, s), nil
}
func (u *apiSym) Iterate() starlark.Iterator {
	var l []starlark.Value
	for i := 0; i < int(u.w.hash("iter "+u.s)%3); i++ {
		l = append(l, u.w.sym("%s@%d", u.s, i))
	}
	return starlark.NewList(l).Iterate()
}

// args renders arguments; functions among them are called.
func (w *apiWorld) args(t *starlark.Thread, args starlark.Tuple, kw []starlark.Tuple) (string, error) {
	one := func(v starlark.Value) (string, error) {
		f, ok := v.(*starlark.Function)
		if !ok || t.CallStackDepth() > 15 {
			return apiStr(v), nil
		}
		return w.apply(t, f)
	}
	var l, k []string
	for _, a := range args {
		s, err := one(a)
		if err != nil {
			return "", err
		}
		l = append(l, s)
	}
	for _, a := range kw {
		s, err := one(a[1])
		if err != nil {
			return "", err
		}
		k = append(k, string(a[0].(starlark.String))+" = "+s)
	}
	sort.Strings(k)
	return strings.Join(append(l, k...), ", "), nil
}

func (w *apiWorld) apply(t *starlark.Thread, f *starlark.Function) (string, error) {
	args := starlark.Tuple{}
	n := f.NumParams() - b2i(f.HasKwargs()) - b2i(f.HasVarargs())
	var kw []starlark.Tuple
	for i := 0; i < n; i++ {
		name, _ := f.Param(i)
		var v starlark.Value = w.sym("%s", name)
		if name == "ctx" {
			v = w.ctx()
		}
		if i >= n-f.NumKwonlyParams() {
			kw = append(kw, starlark.Tuple{starlark.String(name), v})
		} else {
			args = append(args, v)
		}
	}
	if f.HasVarargs() {
		args = append(args, w.sym("extra"))
	}
	if f.HasKwargs() {
		kw = append(kw, starlark.Tuple{starlark.String("tags"), w.sym("extra_tags")})
	}
	v, err := starlark.Call(t, f, args, kw)
	if err != nil {
		return "", err
	}
	if g, ok := v.(*starlark.Function); ok && t.CallStackDepth() < 15 {
		return w.apply(t, g)
	}
	return apiStr(v), nil
}

type apiDepset struct {
	w     *apiWorld
	items []starlark.Value
}

func (d *apiDepset) String() string        { return apiStr(d) }
func (d *apiDepset) Type() string          { return "depset" }
func (d *apiDepset) Freeze()               {}
func (d *apiDepset) Hash() (uint32, error) { return d.w.hash(apiStr(d)), nil }
func (d *apiDepset) Truth() starlark.Bool  { return len(d.items) > 0 }
func (d *apiDepset) Iterate() starlark.Iterator {
	return starlark.NewList(append([]starlark.Value{}, d.items...)).Iterate()
}
func (d *apiDepset) AttrNames() []string { return nil }
func (d *apiDepset) Attr(n string) (starlark.Value, error) {
	if n != "to_list" {
		return d.w.sym("%s.%s", apiStr(d), n), nil
	}
	return starlark.NewBuiltin("to_list", func(*starlark.Thread, *starlark.Builtin, starlark.Tuple, []starlark.Tuple) (starlark.Value, error) {
		return starlark.NewList(append([]starlark.Value{}, d.items...)), nil
	}), nil
}
func (d *apiDepset) Binary(op syntax.Token, y starlark.Value, side starlark.Side) (starlark.Value, error) {
	if op == syntax.IN && side == starlark.Right {
		for _, x := range d.items {
			if apiStr(x) == apiStr(y) {
				return starlark.True, nil
			}
		}
		return starlark.False, nil
	}
	// the deprecated ways to join depsets
	if e, ok := y.(*apiDepset); ok && (op == syntax.PLUS || op == syntax.PIPE) {
		l := append([]starlark.Value{}, d.items...)
		for _, x := range e.items {
			dup := false
			for _, z := range l {
				dup = dup || apiStr(x) == apiStr(z)
			}
			if !dup {
				l = append(l, x)
			}
		}
		return &apiDepset{d.w, l}, nil
	}
	return nil, nil
}

type apiKw map[string]starlark.Value

// bind assigns positional arguments to names.
func bind(args starlark.Tuple, kw []starlark.Tuple, names ...string) (apiKw, error) {
	m := apiKw{}
	for i, a := range args {
		if i >= len(names) {
			return nil, fmt.Errorf("too many positional arguments")
		}
		m[names[i]] = a
	}
	for _, k := range kw {
		n := string(k[0].(starlark.String))
		if _, dup := m[n]; dup {
			return nil, fmt.Errorf("duplicate argument %s", n)
		}
		m[n] = k[1]
	}
	return m, nil
}

func (m apiKw) rename(from, to string) {
	if v, ok := m[from]; ok {
		m[to] = v
		delete(m, from)
	}
}

func (m apiKw) String() string {
	var l []string
	for k, v := range m {
		l = append(l, k+" = "+apiStr(v))
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// method makes a function whose bound arguments are normalised and recorded.
func (w *apiWorld) method(name string, norm func(m apiKw) (string, error), params ...string) *apiSym {
	s := w.sym("%s", name)
	s.call = func(t *starlark.Thread, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
		m, err := bind(args, kw, params...)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", name, err)
		}
		n := name
		if norm != nil {
			if n, err = norm(m); err != nil {
				return nil, fmt.Errorf("%s: %v", name, err)
			}
		}
		w.event("%s(%v)", n, m)
		return w.sym("%s(%v)", n, m), nil
	}
	return s
}

func (w *apiWorld) ctx() *apiSym {
	as := func(n string) func(apiKw) (string, error) { return func(apiKw) (string, error) { return n, nil } }
	only := func(n string, no ...string) func(apiKw) (string, error) {
		return func(m apiKw) (string, error) {
			for _, x := range no {
				if m[x] != nil {
					return "", fmt.Errorf("unexpected parameter %s", x)
				}
			}
			return n, nil
		}
	}
	old := func(f func(m apiKw) (string, error)) func(m apiKw) (string, error) {
		return func(m apiKw) (string, error) { w.refs++; return f(m) }
	}
	actions := w.sym("ctx.actions")
	actions.attr = func(n string) starlark.Value {
		switch n {
		case "declare_file":
			return w.method("declare_file", nil, "filename")
		case "declare_directory":
			return w.method("declare_directory", nil, "filename")
		case "write":
			return w.method("write", only("write", "executable"), "output", "content", "is_executable")
		case "run":
			return w.method("run", only("run", "command"))
		case "run_shell":
			return w.method("run_shell", only("run_shell", "executable"))
		case "do_nothing":
			return w.method("do_nothing", nil, "mnemonic", "inputs")
		case "expand_template":
			return w.method("expand_template", only("expand_template", "executable"), "template", "output", "substitutions", "is_executable")
		case "args":
			s := w.sym("ctx.actions.args")
			s.call = func(*starlark.Thread, starlark.Tuple, []starlark.Tuple) (starlark.Value, error) {
				return w.argsObject(), nil
			}
			return s
		}
		return nil
	}
	attr := w.sym("ctx.attr")
	attr.attr = func(n string) starlark.Value {
		dep := w.sym("ctx.attr.%s", n)
		dep.attr = func(m string) starlark.Value {
			if m == "output_group" {
				w.refs++
				return w.sym("%s[OutputGroupInfo]", dep.s)
			}
			return nil
		}
		return dep
	}
	ctx := w.sym("ctx")
	ctx.attr = func(n string) starlark.Value {
		switch n {
		case "actions":
			return actions
		case "attr":
			return attr
		case "new_file":
			s := w.sym("new_file")
			s.call = func(t *starlark.Thread, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
				w.refs++
				m := apiKw{}
				switch {
				case len(kw) > 0:
					return nil, fmt.Errorf("new_file: keywords")
				case len(args) == 1:
					m["filename"] = args[0]
				case len(args) == 2:
					m["sibling"], m["filename"] = args[0], args[1]
				case len(args) == 3:
					m["sibling"], m["filename"], m["ext"] = args[0], args[1], args[2]
				default:
					return nil, fmt.Errorf("new_file: arguments")
				}
				w.event("declare_file(%v)", m)
				return w.sym("declare_file(%v)", m), nil
			}
			return s
		case "experimental_new_directory":
			return w.method(n, old(as("declare_directory")), "filename")
		case "file_action":
			return w.method(n, old(func(m apiKw) (string, error) { m.rename("executable", "is_executable"); return "write", nil }), "output", "content", "is_executable")
		case "action":
			return w.method(n, old(func(m apiKw) (string, error) {
				if m["command"] != nil {
					return "run_shell", nil
				}
				return "run", nil
			}))
		case "empty_action":
			return w.method(n, old(as("do_nothing")), "mnemonic", "inputs")
		case "template_action":
			return w.method(n, old(func(m apiKw) (string, error) {
				m.rename("executable", "is_executable")
				return "expand_template", nil
			}), "template", "output", "substitutions", "is_executable")
		}
		return nil
	}
	return ctx
}

// argsObject is the result of ctx.actions.args().
func (w *apiWorld) argsObject() *apiSym {
	o := w.sym("args")
	o.attr = func(n string) starlark.Value {
		pos := []string{"arg", "values"}
		switch n {
		case "add":
			return w.method("add", func(m apiKw) (string, error) {
				b, j, f := m["before_each"], m["join_with"], m["map_fn"]
				if b == nil && j == nil && f == nil {
					return "add", nil
				}
				w.refs++
				m.rename("map_fn", "map_each")
				if j == nil {
					return "add_all", nil
				}
				if b != nil {
					v, err := starlark.Binary(syntax.PLUS, b, starlark.String("%s"))
					if err != nil {
						return "", err
					}
					m["format_each"] = v
					delete(m, "before_each")
				}
				return "add_joined", nil
			}, pos...)
		case "add_all", "add_joined":
			return w.method(n, func(m apiKw) (string, error) {
				if m["map_fn"] != nil || n == "add_all" && m["join_with"] != nil || n == "add_joined" && m["before_each"] != nil {
					return "", fmt.Errorf("unexpected parameter in %v", m)
				}
				return n, nil
			}, pos...)
		}
		return nil
	}
	return o
}

func (w *apiWorld) attrModule() *apiSym {
	a := w.sym("attr")
	a.attr = func(n string) starlark.Value {
		s := w.sym("attr.%s", n)
		s.call = func(t *starlark.Thread, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
			m, err := bind(args, kw, "default", "doc")
			if err != nil {
				return nil, err
			}
			switch v := m["cfg"]; {
			case v == starlark.String("data"):
				w.refs++
				delete(m, "cfg")
			case v == starlark.String("host"):
				w.refs++
				m["cfg"] = starlark.String("exec")
			}
			if v := m["non_empty"]; v != nil {
				w.refs++
				if m["allow_empty"] != nil {
					return nil, fmt.Errorf("both non_empty and allow_empty")
				}
				m["allow_empty"] = !v.Truth()
				delete(m, "non_empty")
			} else if v := m["allow_empty"]; v != nil {
				m["allow_empty"] = v.Truth()
			}
			if v := m["single_file"]; v != nil {
				w.refs++
				if m["allow_single_file"] != nil {
					return nil, fmt.Errorf("both single_file and allow_single_file")
				}
				delete(m, "single_file")
				if f := m["allow_files"]; bool(v.Truth()) {
					m["allow_single_file"] = v
					if f != nil {
						m["allow_single_file"] = f
						delete(m, "allow_files")
					}
				}
			}
			if v := m["allow_single_file"]; v != nil && !bool(v.Truth()) && m["allow_files"] == nil {
				delete(m, "allow_single_file")
			}
			return w.sym("attr.%s(%v)", n, m), nil
		}
		return s
	}
	return a
}

var apiRules = map[string]string{
	"cc_library": "@rules_cc//cc:cc_library.bzl", "cc_binary": "@rules_cc//cc:cc_binary.bzl", "java_library": "@rules_java//java:java_library.bzl",
	"py_library": "@rules_python//python:defs.bzl", "py_test": "@rules_python//python:defs.bzl", "sh_binary": "@rules_shell//shell:sh_binary.bzl",
	"proto_library": "@protobuf//bazel:proto_library.bzl", "android_library": "@rules_android//android:rules.bzl",
	"git_repository": "@bazel_tools//tools/build_defs/repo:git.bzl", "http_archive": "@bazel_tools//tools/build_defs/repo:http.bzl",
	"CcInfo": "@rules_cc//cc/common:cc_info.bzl", "ProtoInfo": "@protobuf//bazel/common:proto_info.bzl", "JavaInfo": "@rules_java//java/common:java_info.bzl",
	"genrule": "", "filegroup": "", "exports_files": "",
}

func (w *apiWorld) rule(name string) starlark.Value {
	if strings.HasSuffix(name, "Info") {
		return w.sym("%s", name)
	}
	return w.method(name, nil, "name")
}

func (w *apiWorld) predeclared() starlark.StringDict {
	d := starlark.StringDict{}
	for _, n := range []string{"f", "g", "h", "struct", "glob", "select2", "OutputGroupInfo", "provider", "conf"} {
		d[n] = w.sym("%s", n)
	}
	pkg, repo := w.sym("PKG"), w.sym("REPO")
	d["PACKAGE_NAME"], d["REPOSITORY_NAME"] = pkg, repo
	native := w.sym("native")
	native.attr = func(n string) starlark.Value {
		switch n {
		case "package_name", "repository_name":
			s := w.sym("native.%s", n)
			s.call = func(t *starlark.Thread, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
				if n == "package_name" {
					return pkg, nil
				}
				return repo, nil
			}
			return s
		case "glob":
			return d["glob"]
		}
		if _, ok := apiRules[n]; ok {
			return w.rule(n)
		}
		return nil
	}
	d["native"] = native
	for n := range apiRules {
		d[n] = w.rule(n)
	}
	d["attr"] = w.attrModule()
	d["package"] = w.method("package", nil)
	d["licenses"] = w.method("licenses", nil, "licenses")
	d["package_group"] = w.method("package_group", nil)
	d["rule"] = w.method("rule", nil, "implementation")
	sig := func(name string, f func(t *starlark.Thread, m apiKw) (starlark.Value, error), params ...string) {
		d[name] = starlark.NewBuiltin(name, func(t *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
			m, err := bind(args, kw, params...)
			if err != nil {
				return nil, fmt.Errorf("%s: %v", name, err)
			}
			if len(params) > 0 && m[params[0]] == nil {
				return nil, fmt.Errorf("%s: missing argument", name)
			}
			for k := range m {
				if !strings.Contains(" "+strings.Join(params, " ")+" base key reverse order transitive ", " "+k+" ") {
					return nil, fmt.Errorf("%s: unexpected %s", name, k)
				}
			}
			return f(t, m)
		})
	}
	items := func(v starlark.Value) ([]starlark.Value, error) {
		it := starlark.Iterate(v)
		if it == nil {
			return nil, fmt.Errorf("not iterable: %s", apiStr(v))
		}
		defer it.Done()
		var l []starlark.Value
		var x starlark.Value
		for it.Next(&x) {
			l = append(l, x)
		}
		return l, nil
	}
	list := func(name, param string, f func(l []starlark.Value) starlark.Value) {
		sig(name, func(t *starlark.Thread, m apiKw) (starlark.Value, error) {
			l, err := items(m[param])
			if err != nil {
				return nil, err
			}
			return f(l), nil
		}, param)
	}
	list("all", "elements", func(l []starlark.Value) starlark.Value {
		for _, x := range l {
			if !x.Truth() {
				return starlark.False
			}
		}
		return starlark.True
	})
	list("any", "elements", func(l []starlark.Value) starlark.Value {
		for _, x := range l {
			if x.Truth() {
				return starlark.True
			}
		}
		return starlark.False
	})
	list("list", "x", func(l []starlark.Value) starlark.Value { return starlark.NewList(l) })
	list("tuple", "x", func(l []starlark.Value) starlark.Value { return starlark.Tuple(l) })
	list("max", "elements", func(l []starlark.Value) starlark.Value { return w.sym("max(%s)", apiStr(starlark.Tuple(l))) })
	list("min", "elements", func(l []starlark.Value) starlark.Value { return w.sym("min(%s)", apiStr(starlark.Tuple(l))) })
	list("sorted", "elements", func(l []starlark.Value) starlark.Value {
		sort.Slice(l, func(i, j int) bool { return apiStr(l[i]) < apiStr(l[j]) })
		return starlark.NewList(l)
	})
	sig("len", func(t *starlark.Thread, m apiKw) (starlark.Value, error) {
		l, err := items(m["x"])
		return starlark.MakeInt(len(l)), err
	}, "x")
	for _, n := range []string{"str", "repr", "bool", "int", "dir", "type", "hasattr", "getattr", "select"} {
		n := n
		sig(n, func(t *starlark.Thread, m apiKw) (starlark.Value, error) {
			if n == "bool" {
				return m["x"].Truth(), nil
			}
			return w.sym("%s(%v)", n, m), nil
		}, map[string][]string{"hasattr": {"x", "name"}, "getattr": {"x", "name", "default"}}[n]...)
		if n != "hasattr" && n != "getattr" {
			sig(n, func(t *starlark.Thread, m apiKw) (starlark.Value, error) {
				if n == "bool" {
					return m["x"].Truth(), nil
				}
				return w.sym("%s(%v)", n, m), nil
			}, "x")
		}
	}
	sig("depset", func(t *starlark.Thread, m apiKw) (starlark.Value, error) {
		ds := &apiDepset{w: w}
		add := func(v starlark.Value) error {
			l, err := items(v)
			for _, x := range l {
				dup := false
				for _, y := range ds.items {
					dup = dup || apiStr(x) == apiStr(y)
				}
				if !dup {
					ds.items = append(ds.items, x)
				}
			}
			return err
		}
		if v := m["direct"]; v != nil {
			if err := add(v); err != nil {
				return nil, err
			}
		}
		if v := m["transitive"]; v != nil {
			l, err := items(v)
			if err != nil {
				return nil, err
			}
			for _, x := range l {
				if err := add(x); err != nil {
					return nil, err
				}
			}
		}
		return ds, nil
	}, "direct")
	d["depset"] = starlark.NewBuiltin("depset", func(inner starlark.Value) func(t *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
		return func(t *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
			if len(args)+len(kw) == 0 {
				return &apiDepset{w: w}, nil
			}
			if len(args) == 0 {
				kw = append(kw, starlark.Tuple{starlark.String("direct"), starlark.NewList(nil)})
			}
			return starlark.Call(t, inner, args, kw)
		}
	}(d["depset"]))
	return d
}

var apiNames = func() map[string]bool {
	m := map[string]bool{}
	for n := range (&apiWorld{}).predeclared() {
		m[n] = true
	}
	return m
}()

// apiPath is a label without its repository, which has other names in other workspaces.
func apiPath(label string) string {
	if i := strings.Index(label, "//"); i >= 0 {
		return label[i:]
	}
	return label
}

type apiRun struct {
	name string
	log  []string
	err  string
}

// apiExec runs the program and then each of its functions, each with a log of its own.
func apiExec(p *slProgram, seed int64) (runs []apiRun, refs int) {
	w := &apiWorld{seed: seed}
	t := &starlark.Thread{Print: func(*starlark.Thread, string) {}}
	t.SetMaxExecutionSteps(30000)
	t.Load = func(t *starlark.Thread, m string) (starlark.StringDict, error) {
		d := starlark.StringDict{}
		for _, n := range []string{"a", "b", "c", "PACKAGE_NAME", "REPOSITORY_NAME", "len", "str", "select", "list", "x0", "d0", "my_rule"} {
			d[n] = w.sym("%s%%%s", m, n)
		}
		for n, from := range apiRules {
			if d[n] = w.rule(n); apiPath(from) != apiPath(m) {
				d[n] = w.method(m+"%"+n, nil, "name")
			}
		}
		return d, nil
	}
	g, err := p.prog.Init(t, w.predeclared())
	top := apiRun{name: "<toplevel>", log: w.log}
	if err != nil {
		top.err = err.Error()
	}
	var names []string
	for n, v := range g {
		if _, ok := v.(*starlark.Function); ok {
			names = append(names, n)
		} else if top.log != nil || err == nil {
			top.log = append(top.log, n+" is "+apiStr(v))
		}
	}
	sort.Strings(top.log[len(w.log):])
	runs = append(runs, top)
	if err != nil {
		return runs, w.refs
	}
	sort.Strings(names)
	for _, n := range names {
		w.log = nil
		t.SetMaxExecutionSteps(t.ExecutionSteps() + 30000)
		s, err := w.apply(t, g[n].(*starlark.Function))
		r := apiRun{name: n, log: append(w.log, "result "+s)}
		if err != nil {
			r.err, _ = slErr(err)
		}
		runs = append(runs, r)
	}
	return runs, w.refs
}
