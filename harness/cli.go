package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// fstate is what a monitor remembers of one file.
type fstate struct {
	mode  fs.FileMode
	data  string
	mtime time.Time
	ino   uint64
}

func snapshot(dir string) map[string]fstate {
	m := map[string]fstate{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		st := fstate{mode: info.Mode(), mtime: info.ModTime()}
		if s, ok := info.Sys().(*syscall.Stat_t); ok {
			st.ino = s.Ino
		}
		switch {
		case info.IsDir():
			st.mtime = time.Time{}
		case info.Mode()&os.ModeSymlink != 0:
			st.data, _ = os.Readlink(p)
		case info.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			st.data = string(b)
		}
		m[rel] = st
		return nil
	})
	return m
}

// snapDiff lists the paths whose state differs.
func snapDiff(a, b map[string]fstate) []string {
	var l []string
	for p, x := range a {
		y, ok := b[p]
		switch {
		case !ok:
			l = append(l, "removed "+p)
		case x.data != y.data:
			l = append(l, "content "+p)
		case x.mode != y.mode:
			l = append(l, "mode "+p)
		case !x.mtime.Equal(y.mtime):
			l = append(l, "touched "+p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			l = append(l, "created "+p)
		}
	}
	sort.Strings(l)
	return l
}

type result struct {
	code     int
	out, err string
	signal   string
	hang     bool
	cmd      string
}

func (r result) String() string {
	c := func(s string) string {
		if len(s) > 3000 {
			s = s[:3000] + "..."
		}
		return s
	}
	return fmt.Sprintf("$ %s\nexit %d %s\n-- stdout --\n%s\n-- stderr --\n%s", r.cmd, r.code, r.signal, c(r.out), c(r.err))
}

// runBin runs a binary built from /repo with private HOME and TMPDIR.
func (c *Ctx) runBin(dir, tmp, stdin string, env []string, name string, args ...string) result {
	bin := name
	if !strings.HasPrefix(name, "/") {
		bin = filepath.Join(c.Bin, name)
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	cmd.Env = append([]string{"HOME=" + tmp, "TMPDIR=" + tmp, "PATH=" + os.Getenv("PATH"), "PWD=" + dir, "LC_ALL=C"}, env...)
	if os.Getenv("VMON_RACE") != "" {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=66 log_path="+c.Scratch+"/race")
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	r := result{cmd: strings.Join(append([]string{filepath.Base(name)}, args...), " ")}
	if err := cmd.Start(); err != nil {
		r.code = -1
		r.err = err.Error()
		return r
	}
	t := time.AfterFunc(120*time.Second, func() { r.hang = true; cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	r.code = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.signal = ws.Signal().String()
	}
	r.out, r.err = out.String(), errb.String()
	return r
}

// crashed tells whether a run ended in a Go panic or a signal.
func (r result) crashed() string {
	switch {
	case r.hang:
		return "hang"
	case r.signal != "":
		return "signal"
	case strings.Contains(r.err, "goroutine ") && (strings.Contains(r.err, "panic: ") || strings.Contains(r.err, "fatal error: ")):
		return "panic"
	}
	return ""
}

// parallel runs f for n indices on several workers, each call with its own random source.
func (c *Ctx) parallel(n, workers int, salt int64, f func(i int, r *rand.Rand)) {
	var wg sync.WaitGroup
	ch := make(chan int, workers)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i, rand.New(rand.NewSource(c.Seed*7919+int64(i)*104729+salt*15485863)))
			}
		}()
	}
	for i := 0; i < n && !c.Failed(); i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// subdir makes a private directory below the scratch directory.
func (c *Ctx) subdir(name string) string {
	d := filepath.Join(c.Scratch, name)
	os.MkdirAll(d, 0o755)
	return d
}

func writeFiles(dir string, files map[string]string) {
	for p, s := range files {
		full := filepath.Join(dir, p)
		os.MkdirAll(filepath.Dir(full), 0o755)
		os.WriteFile(full, []byte(s), 0o644)
	}
}

// age sets old modification times so that a rewrite of the same bytes shows.
func age(dir string) {
	t := time.Unix(1600000000, 0)
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			os.Chtimes(p, t, t)
		}
		return nil
	})
}

func describeFiles(files map[string]string) string {
	var ks []string
	for k := range files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		s := files[k]
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		sb.WriteString("--- " + k + "\n" + s + "\n")
	}
	return sb.String()
}
