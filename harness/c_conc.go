package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/bzlenv"
	"github.com/bazelbuild/buildtools/convertast"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/labels"
	"github.com/bazelbuild/buildtools/tables"
	"github.com/bazelbuild/buildtools/warn"
	"go.starlark.net/syntax"
)

func init() { checks["C41"] = checkConcurrent }

// concTask is a sequence of library calls on one file.
type concTask struct {
	kind FileKind
	text string
	ops  []string
	ws   lintWS
	cats []string
}

var concOps = []string{"parse", "print", "format", "rewrite", "walk", "lint", "suggest", "fix", "edit", "env", "convert", "labels", "copy"}

func concParse(k FileKind, data []byte) (*build.File, error) {
	var f *build.File
	var err error
	switch k {
	case KBuild:
		f, err = build.ParseBuild("pkg/BUILD", data)
	case KBzl:
		f, err = build.ParseBzl("pkg/a.bzl", data)
	case KWorkspace:
		f, err = build.ParseWorkspace("WORKSPACE", data)
	case KModule:
		f, err = build.ParseModule("MODULE.bazel", data)
	default:
		f, err = build.ParseDefault("pkg/x.txt", data)
	}
	if err == nil && k != KWorkspace && k != KModule {
		f.Pkg = "pkg"
	}
	return f, err
}

var concRewriter = &build.Rewriter{
	IsLabelArg: tables.IsLabelArg, LabelDenyList: tables.LabelDenylist, IsSortableListArg: tables.IsSortableListArg,
	SortableDenylist: tables.SortableDenylist, SortableAllowlist: tables.SortableAllowlist, NamePriority: tables.NamePriority,
	RewriteSet: []string{"listsort", "callsort", "loadsort", "label"},
}

// run makes the calls and returns everything they returned. pause is called between and inside of the calls.
func (t *concTask) run(data []byte, pause func()) (out string) {
	var sb strings.Builder
	for _, op := range t.ops {
		pause()
		fmt.Fprintf(&sb, "== %s\n", op)
		func() {
			defer func() {
				if p := recover(); p != nil {
					fmt.Fprintf(&sb, "panic: %v\n", p)
				}
			}()
			if op == "convert" {
				if f, err := syntax.Parse("p.star", data, syntax.RetainComments); err == nil {
					pause()
					sb.Write(build.FormatWithoutRewriting(convertast.ConvFile(f)))
				}
				return
			}
			f, err := concParse(t.kind, data)
			pause()
			if err != nil {
				fmt.Fprintf(&sb, "%v\n", err)
				return
			}
			reader := warn.NewFileReader(func(p string) ([]byte, error) {
				pause()
				if s, ok := t.ws[p]; ok {
					return []byte(s), nil
				}
				return nil, fmt.Errorf("no file %s", p)
			})
			switch op {
			case "parse":
				sb.WriteString(dumpFile(f))
			case "print":
				sb.Write(build.FormatWithoutRewriting(f))
			case "format":
				sb.Write(build.Format(f))
			case "rewrite":
				sb.Write(build.FormatWithRewriter(concRewriter, f))
			case "copy":
				for _, s := range f.Stmt {
					sb.WriteString(build.FormatString(s.Copy()))
				}
			case "walk":
				build.Walk(f, func(x build.Expr, stk []build.Expr) {
					fmt.Fprintf(&sb, "%T%d ", x, len(stk))
				})
				pause()
				build.WalkStatements(f, func(x build.Expr, stk []build.Expr) error {
					fmt.Fprintf(&sb, "%T%d ", x, len(stk))
					return nil
				})
				pause()
				build.Edit(f, func(x build.Expr, stk []build.Expr) build.Expr {
					if s, ok := x.(*build.StringExpr); ok {
						return &build.StringExpr{Value: s.Value + "!"}
					}
					return nil
				})
				sb.Write(build.FormatWithoutRewriting(f))
			case "lint", "suggest":
				mode := warn.ModeWarn
				if op == "suggest" {
					mode = warn.ModeSuggest
				}
				for _, x := range warn.FileWarnings(f, t.cats, nil, mode, reader) {
					sb.WriteString(findingStr(x) + "\n")
				}
			case "fix":
				warn.FixWarnings(f, t.cats, false, reader)
				sb.Write(build.Format(f))
			case "edit":
				edit.FixFile(f, "pkg", nil)
				pause()
				for _, r := range f.Rules("") {
					fmt.Fprintf(&sb, "%s %s %v\n", r.Kind(), r.Name(), r.AttrKeys())
					edit.AddValueToListAttribute(r, "deps", "pkg", &build.StringExpr{Value: "//zz:zz"}, nil)
				}
				sb.Write(build.Format(f))
			case "env":
				bzlenvCount := 0
				var e build.Expr = f
				walkEnv(e, &sb, &bzlenvCount)
			case "labels":
				build.Walk(f, func(x build.Expr, stk []build.Expr) {
					if s, ok := x.(*build.StringExpr); ok {
						l := labels.Parse(s.Value)
						fmt.Fprintf(&sb, "%v %s %s\n", l, labels.Shorten(s.Value, "pkg"), l.FormatRelative("pkg"))
					}
				})
			}
		}()
		sb.WriteString("\n")
	}
	return sb.String()
}

func walkEnv(f build.Expr, sb *strings.Builder, n *int) {
	var walk func(e *build.Expr, env *bzlenv.Environment)
	walk = func(e *build.Expr, env *bzlenv.Environment) {
		if id, ok := (*e).(*build.Ident); ok {
			b := env.Get(id.Name)
			if b == nil {
				fmt.Fprintf(sb, "%s free ", id.Name)
			} else {
				fmt.Fprintf(sb, "%s %d %v ", id.Name, b.ID, b.Kind)
			}
		}
		*n++
		bzlenv.WalkOnceWithEnvironment(*e, env, walk)
	}
	walk(&f, bzlenv.NewEnvironment())
}

func (t *concTask) String() string {
	return fmt.Sprintf("---- %s: %s\n%s\n", kindFile[t.kind], strings.Join(t.ops, ", "), t.text)
}

func checkConcurrent(c *Ctx) {
	c.Rule("distinct = (files, calls); every batch of tasks is run one after another and then several times at once")
	c.Assume("the library and the monitors are built with the Go race detector; schedules differ in GOMAXPROCS, order of starting and yields between and inside of the calls; the input buffers are adjacent slices of one array, and some tasks share their buffer")
	orders := map[uint64]bool{}
	var mu sync.Mutex
	var inflight, maxIn atomic.Int64
	c.parallel(c.N(60, 1500), 2, 60, func(i int, r *rand.Rand) {
		var tasks []*concTask
		for n := 8 + r.Intn(17); n > 0; n-- {
			t := &concTask{kind: pick(r, KBuild, KBuild, KBzl, KBzl, KDefault, KWorkspace, KModule), cats: lintCats}
			switch r.Intn(5) {
			case 0:
				t.kind = KBzl
				t.text = apiProgram(r, KBzl, false)
			case 1, 2:
				t.text = newLintGen(r, t.kind).file()
			case 3:
				t.kind = KBzl
				t.text = scopeProgram(r)
			default:
				t.text, _ = texts(NewGen(r, t.kind).File(1 + r.Intn(8)))
			}
			if r.Intn(12) == 0 { // a syntax error
				p := r.Intn(len(t.text) + 1)
				t.text = t.text[:p] + pick(r, ")", "\"", "def", "\x00", "*") + t.text[p:]
			}
			for k := 1 + r.Intn(4); k > 0; k-- {
				t.ops = append(t.ops, concOps[r.Intn(len(concOps))])
			}
			t.ws = lintWorkspaces[r.Intn(len(lintWorkspaces))].files
			if r.Intn(3) == 0 {
				t.cats = []string{lintCats[r.Intn(len(lintCats))], lintCats[r.Intn(len(lintCats))]}
			}
			tasks = append(tasks, t)
			if r.Intn(4) == 0 { // the same buffer again
				u := *t
				u.ops = append([]string{concOps[r.Intn(len(concOps))]}, t.ops...)
				tasks = append(tasks, &u)
			}
		}
		var desc strings.Builder
		for _, t := range tasks {
			desc.WriteString(t.String())
		}
		c.Case(desc.String())
		c.Eval(desc.String())
		if i < 2 {
			c.Sample(desc.String())
		}
		want := make([]string, len(tasks))
		for i, t := range tasks {
			want[i] = t.run([]byte(t.text), func() {})
		}
		for round := 0; round < 3; round++ {
			var arena []byte
			var from, to []int
			for i, t := range tasks {
				if i > 0 && tasks[i-1].text == t.text {
					from, to = append(from, from[i-1]), append(to, to[i-1])
					continue
				}
				from = append(from, len(arena))
				arena = append(arena, t.text...)
				to = append(to, len(arena))
			}
			orig := bytes.Clone(arena)
			got := make([]string, len(tasks))
			old := runtime.GOMAXPROCS(1 + r.Intn(12))
			var wg sync.WaitGroup
			start := make(chan bool)
			order := make(chan int, len(tasks))
			for _, i := range r.Perm(len(tasks)) {
				wg.Add(1)
				yields := r.Intn(3)
				go func() {
					defer wg.Done()
					<-start
					if n := inflight.Add(1); n > maxIn.Load() {
						maxIn.Store(n)
					}
					got[i] = tasks[i].run(arena[from[i]:to[i]], func() {
						for k := 0; k < yields; k++ {
							runtime.Gosched()
						}
					})
					inflight.Add(-1)
					order <- i
				}()
			}
			close(start)
			wg.Wait()
			runtime.GOMAXPROCS(old)
			close(order)
			seq := ""
			for i := range order {
				seq += fmt.Sprint(i, " ")
			}
			mu.Lock()
			orders[h64(seq)] = true
			mu.Unlock()
			c.Count("concurrent runs", 1)
			c.Count("tasks", len(tasks))
			for i, t := range tasks {
				c.Count("library calls", len(t.ops))
				if got[i] != want[i] {
					c.Violate("different", "a task gives another result when run with others:\n"+t.String()+around(want[i], got[i]), desc.String())
				}
			}
			if !reflect.DeepEqual(orig, arena) {
				c.Violate("input-changed", "the input buffers are changed", desc.String())
			}
		}
	})
	c.Count("distinct completion orders", len(orders))
	c.Count("most tasks at once", int(maxIn.Load()))
}
