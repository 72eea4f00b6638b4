package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"go.starlark.net/resolve"
	"go.starlark.net/starlark"
	"go.starlark.net/syntax"
)

func init() {
	resolve.AllowNestedDef = true
	resolve.AllowLambda = true
	resolve.AllowFloat = true
	resolve.AllowSet = true
	resolve.AllowBitwise = true
	resolve.AllowGlobalReassign = true
	resolve.AllowRecursion = true
}

// slWorld runs programs with values that support every operation, whose truth and length are drawn
// from a seeded source, and records everything that is done to them.
type slWorld struct {
	r      *rand.Rand
	next   int
	log    []string
	hit    map[int]int // markers reached
	fns    []*starlark.Function
	thread *starlark.Thread
}

type slU struct {
	w  *slWorld
	id int
}

func (w *slWorld) new(format string, a ...interface{}) *slU {
	w.next++
	if len(w.log) < 4000 {
		w.log = append(w.log, fmt.Sprintf("u%d = ", w.next)+fmt.Sprintf(format, a...))
	}
	return &slU{w, w.next}
}

func slStr(v starlark.Value) string {
	switch x := v.(type) {
	case *slU:
		return x.String()
	case *starlark.Function:
		return "function"
	case *starlark.List:
		var l []string
		for i := 0; i < x.Len() && i < 20; i++ {
			l = append(l, slStr(x.Index(i)))
		}
		return "[" + strings.Join(l, ", ") + "]"
	case starlark.Tuple:
		var l []string
		for _, y := range x {
			l = append(l, slStr(y))
		}
		return "(" + strings.Join(l, ", ") + ")"
	case nil:
		return "nil"
	}
	return v.Type()
}

func (u *slU) String() string        { return fmt.Sprintf("u%d", u.id) }
func (u *slU) Type() string          { return "universal" }
func (u *slU) Freeze()               {}
func (u *slU) Hash() (uint32, error) { return uint32(u.id), nil }
func (u *slU) Name() string          { return "universal" }
func (u *slU) Truth() starlark.Bool {
	b := u.w.r.Intn(2) == 0
	u.w.new("truth(%v) %v", u, b)
	return starlark.Bool(b)
}
func (u *slU) Attr(n string) (starlark.Value, error) { return u.w.new("%v.%s", u, n), nil }
func (u *slU) AttrNames() []string                   { return nil }
func (u *slU) SetField(n string, v starlark.Value) error {
	u.w.new("%v.%s = %s", u, n, slStr(v))
	return nil
}
func (u *slU) SetKey(k, v starlark.Value) error {
	u.w.new("%v[%s] = %s", u, slStr(k), slStr(v))
	return nil
}
func (u *slU) Get(k starlark.Value) (starlark.Value, bool, error) {
	return u.w.new("%v[%s]", u, slStr(k)), true, nil
}
func (u *slU) Binary(op syntax.Token, y starlark.Value, side starlark.Side) (starlark.Value, error) {
	return u.w.new("%v %v %s %v", u, op, slStr(y), side), nil
}
func (u *slU) Unary(op syntax.Token) (starlark.Value, error) {
	return u.w.new("%v %v", op, u), nil
}
func (u *slU) CallInternal(t *starlark.Thread, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
	return u.w.call(u.String(), args, kw), nil
}
func (w *slWorld) call(name string, args starlark.Tuple, kw []starlark.Tuple) *slU {
	s := slStr(args)
	kw = append([]starlark.Tuple{}, kw...)
	sort.Slice(kw, func(i, j int) bool { return kw[i][0].(starlark.String) < kw[j][0].(starlark.String) })
	for _, k := range kw {
		s += " " + string(k[0].(starlark.String)) + "=" + slStr(k[1])
	}
	return w.new("%s%s", name, s)
}

type slIter struct {
	w *slWorld
	n int
}

func (it *slIter) Next(p *starlark.Value) bool {
	if it.n == 0 {
		return false
	}
	it.n--
	*p = it.w.new("item")
	return true
}
func (it *slIter) Done() {}
func (u *slU) Iterate() starlark.Iterator {
	n := u.w.r.Intn(3)
	u.w.new("iterate(%v) %d", u, n)
	return &slIter{u.w, n}
}

// predeclared are the functions of the world: v (a value), pair (two values), reg (a function to
// call later), and any other name as a value of its own.
func (w *slWorld) predeclared(names []string) starlark.StringDict {
	d := starlark.StringDict{}
	for _, n := range names {
		w.next++
		d[n] = &slU{w, w.next}
	}
	mark := func(t *starlark.Thread, args starlark.Tuple) error {
		if t.CallStackDepth() > 20 {
			return fmt.Errorf("too deep")
		}
		if len(args) > 0 {
			if k, err := starlark.AsInt32(args[0]); err == nil {
				w.hit[k]++
			}
		}
		return nil
	}
	d["v"] = starlark.NewBuiltin("v", func(t *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
		if err := mark(t, args); err != nil {
			return nil, err
		}
		return w.call("v", args, kw), nil
	})
	for _, n := range []string{"range", "enumerate", "sorted", "len", "list"} {
		d[n] = starlark.NewBuiltin(n, func(t *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
			return w.call(b.Name(), args, kw), nil
		})
	}
	d["pair"] = starlark.NewBuiltin("pair", func(t *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
		if err := mark(t, args); err != nil {
			return nil, err
		}
		return starlark.Tuple{w.call("pair", args, kw), w.new("second")}, nil
	})
	d["reg"] = starlark.NewBuiltin("reg", func(t *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
		if len(args) == 1 {
			if f, ok := args[0].(*starlark.Function); ok && len(w.fns) < 20 {
				w.fns = append(w.fns, f)
			}
		}
		return starlark.None, nil
	})
	return d
}

// slCall is the outcome of calling a function.
type slCall struct {
	fn    syntax.Position // of the definition
	name  string
	value bool // it returned a value other than None
	err   string
	at    syntax.Position // where the error was raised
}

type slProgram struct {
	file *syntax.File
	prog *starlark.Program
}

func slCompile(text string, names map[string]bool) (p *slProgram, err error) {
	defer func() {
		if e := recover(); e != nil {
			p, err = nil, fmt.Errorf("compiler: %v", e)
		}
	}()
	f, err := syntax.Parse("p.star", text, 0)
	if err != nil {
		return nil, err
	}
	prog, err := starlark.FileProgram(f, func(n string) bool { return names[n] })
	if err != nil {
		return nil, err
	}
	return &slProgram{f, prog}, nil
}

func slErr(e error) (string, syntax.Position) {
	if x, ok := e.(*starlark.EvalError); ok {
		return x.Msg, x.CallStack.At(0).Pos
	}
	return e.Error(), syntax.Position{}
}

// run executes the program and calls its functions.
func (p *slProgram) run(seed int64, names []string, module func(w *slWorld, name string) starlark.StringDict) (w *slWorld, calls []slCall) {
	w = &slWorld{r: rand.New(rand.NewSource(seed)), hit: map[int]int{}}
	pre := w.predeclared(names)
	w.thread = &starlark.Thread{Name: "p", Print: func(*starlark.Thread, string) {}}
	w.thread.SetMaxExecutionSteps(20000)
	if module != nil {
		w.thread.Load = func(t *starlark.Thread, m string) (starlark.StringDict, error) { return module(w, m), nil }
	}
	g, err := p.prog.Init(w.thread, pre)
	if err != nil {
		m, at := slErr(err)
		calls = append(calls, slCall{name: "<toplevel>", err: m, at: at})
	}
	var fns []*starlark.Function
	for _, x := range g {
		if f, ok := x.(*starlark.Function); ok {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool {
		a, b := fns[i].Position(), fns[j].Position()
		return a.Line < b.Line || a.Line == b.Line && a.Col < b.Col
	})
	w.fns = append(fns, w.fns...)
	for i := 0; i < len(w.fns) && i < 30; i++ {
		f := w.fns[i]
		args := starlark.Tuple{}
		for j := 0; j < f.NumParams()-f.NumKwonlyParams(); j++ {
			if (j == f.NumParams()-1 && f.HasKwargs()) || (f.HasVarargs() && j >= f.NumParams()-b2i(f.HasKwargs())-1-f.NumKwonlyParams()) {
				break
			}
			args = append(args, w.new("arg"))
		}
		var kw []starlark.Tuple
		n := f.NumParams() - b2i(f.HasKwargs()) - b2i(f.HasVarargs())
		for j := n - f.NumKwonlyParams(); j < n; j++ {
			name, _ := f.Param(j)
			kw = append(kw, starlark.Tuple{starlark.String(name), w.new("arg")})
		}
		if len(args) > n-f.NumKwonlyParams() {
			args = args[:n-f.NumKwonlyParams()]
		}
		res, err := starlark.Call(w.thread, f, args, kw)
		c := slCall{fn: f.Position(), name: f.Name()}
		if err != nil {
			c.err, c.at = slErr(err)
			w.log = append(w.log, "error "+c.err)
		} else {
			_, none := res.(starlark.NoneType)
			c.value = !none
			w.log = append(w.log, "return "+slStr(res))
		}
		calls = append(calls, c)
	}
	return
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
