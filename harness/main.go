// vmon: runtime monitors for bazelbuild/buildtools. One process runs one
// property check: a parent supervises a worker, the worker drives the real code
// and its monitors decide.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Ctx carries the state of one check run.
type Ctx struct {
	ID       string
	Thorough bool
	Seed     int64
	R        *rand.Rand
	Scratch  string // private scratch directory, removed by the parent
	Bin      string // directory with binaries built from /repo

	mu        sync.Mutex
	evals     int64
	distinct  map[uint64]bool
	samples   []string
	counts    map[string]int64
	viols     map[string]violation
	instances int // violations, the same one counted every time
	fresh     int // violations that are not known findings
	known     []knownFinding
	rule      string
	assume    []string
	caseFile  *os.File
	caseCPU   atomic.Int64
	caseName  atomic.Value
}

type violation struct{ Sig, Detail, Input string }

type knownFinding struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

type checkFn func(*Ctx)

var checks = map[string]checkFn{}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// N picks the number of cases for the tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Case records the case about to run, so that a crash or a hang is attributed to it.
func (c *Ctx) Case(desc string) {
	c.caseCPU.Store(cpuNow())
	c.caseName.Store(desc)
	if c.caseFile != nil {
		b := []byte(fmt.Sprintf("%10d\n%s", len(desc), desc))
		c.caseFile.WriteAt(b, 0)
	}
}

func h64(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

// Eval counts one evaluation of the oracle; key identifies a distinct non-trivial case ("" = trivial).
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	c.evals++
	if key != "" {
		c.distinct[h64(key)] = true
	}
	c.mu.Unlock()
}

func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counts[name] += int64(n)
	c.mu.Unlock()
}

func (c *Ctx) Sample(s string) {
	c.mu.Lock()
	if len(c.samples) < 8 {
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

func (c *Ctx) Rule(s string)   { c.rule = s }
func (c *Ctx) Assume(s string) { c.assume = append(c.assume, s) }

// Violate records a violation. sig is stable for the same kind of failure.
func (c *Ctx) Violate(sig, detail, input string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k.Sig == sig {
			c.viols[sig] = violation{sig, detail, input}
			return
		}
	}
	c.instances++
	if _, ok := c.viols[sig]; !ok {
		c.viols[sig] = violation{sig, detail, input}
		c.fresh++
	}
}

// Failed reports whether enough violations are recorded to stop early.
func (c *Ctx) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if os.Getenv("VMON_ALL") != "" {
		return c.fresh >= 400
	}
	return c.fresh >= 5 || c.instances >= 100
}

// Inconclusive ends the run with neither verdict.
func (c *Ctx) Inconclusive(format string, a ...interface{}) {
	fmt.Printf("INCONCLUSIVE property=%s %s\n", c.ID, fmt.Sprintf(format, a...))
	os.Exit(3)
}

// Guard runs f and turns a panic in the code under test into a violation.
func (c *Ctx) Guard(sig, input string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4096)
			n := runtime.Stack(buf, false)
			c.Violate(sig+":panic", fmt.Sprintf("panic: %v\n%s", r, buf[:n]), input)
			ok = false
		}
	}()
	f()
	return true
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func writeReplay(id string, v violation) string {
	dir := filepath.Join(verifDir(), "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%016x.txt", id, h64(v.Sig+v.Input)))
	os.WriteFile(p, []byte(fmt.Sprintf("property: %s\nsignature: %s\nVERIF_SEED: %s\n\n== detail ==\n%s\n\n== input ==\n%s\n",
		id, v.Sig, os.Getenv("VERIF_SEED"), v.Detail, v.Input)), 0o644)
	return p
}

func (c *Ctx) loadKnown() {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") || strings.HasPrefix(line, "fixed:") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(line), &k) == nil && k.Property == c.ID {
			c.known = append(c.known, k)
		}
	}
}

func (c *Ctx) evidence(start time.Time, nviol int) {
	keys := []string{}
	for k := range c.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	mon := map[string]int64{}
	for _, k := range keys {
		mon[k] = c.counts[k]
	}
	level := "exploration"
	if c.ID == "C14" {
		level = "fault_enumeration"
	}
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	if c.samples == nil {
		c.samples = []string{"(none)"}
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": c.Seed, "level": level,
		"coverage": map[string]interface{}{
			"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": c.rule,
			"samples": c.samples, "observed": mon,
		},
		"assumptions": c.assume,
		"wall_s":      time.Since(start).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", c.ID+".json"), append(b, '\n'), 0o644)
}

func worker(id string) {
	fn, ok := checks[id]
	if !ok {
		fmt.Println("unknown check", id)
		os.Exit(2)
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	c := &Ctx{ID: id, Thorough: os.Getenv("VERIF_TIER") == "thorough", Seed: seed,
		R: rand.New(rand.NewSource(seed*1000003 + int64(h64(id)%1000000))), Scratch: os.Getenv("VMON_SCRATCH"), Bin: os.Getenv("VMON_BIN"),
		distinct: map[uint64]bool{}, counts: map[string]int64{}, viols: map[string]violation{}}
	if c.Scratch != "" {
		c.caseFile, _ = os.Create(filepath.Join(c.Scratch, "current-case"))
	}
	c.caseCPU.Store(cpuNow())
	c.caseName.Store("(start)")
	c.loadKnown()
	start := time.Now()
	done := make(chan bool)
	go func() { // CPU watchdog: one in-process case may not burn unbounded CPU time
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			if time.Since(start) > 780*time.Second && !c.Thorough && id != os.Getenv("VMON_LONG") {
				c.mu.Lock()
				if c.fresh > 0 { // an answer is there already
					n := c.report()
					c.evidence(start, n)
					os.Exit(41)
				}
				c.mu.Unlock()
			}
			if cpuNow()-c.caseCPU.Load() > int64(100*time.Second) {
				v := violation{"no-termination", "one case used more than 100 s of CPU time", c.caseName.Load().(string)}
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, writeReplay(id, v))
				c.mu.Lock()
				c.evidence(start, 1)
				os.Exit(41)
			}
		}
	}()
	fn(c)
	close(done)
	n := c.report()
	c.evidence(start, n)
	fmt.Printf("%s: %d evaluations, %d distinct non-trivial, %d violations, %.1fs\n", id, c.evals, len(c.distinct), n, time.Since(start).Seconds())
	if n > 0 {
		os.Exit(41)
	}
	if c.evals == 0 || len(c.distinct) < 2 {
		fmt.Println("observed too little")
		os.Exit(3)
	}
}

// report prints the violations and counts those that are not known findings.
func (c *Ctx) report() int {
	id := c.ID
	sigs := []string{}
	for s := range c.viols {
		sigs = append(sigs, s)
	}
	sort.Strings(sigs)
	n := 0
	seenKnown := map[string]bool{}
	for _, s := range sigs {
		v := c.viols[s]
		isKnown := false
		for _, k := range c.known {
			if k.Sig == s {
				isKnown = true
				if !seenKnown[s] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
					seenKnown[s] = true
				}
			}
		}
		if isKnown {
			continue
		}
		n++
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, writeReplay(id, v))
		d := v.Sig + ": " + v.Detail
		if len(d) > 1500 {
			d = d[:1500]
		}
		fmt.Println("  " + strings.ReplaceAll(d, "\n", "\n  "))
	}
	return n
}

// parent supervises the worker: a fatal crash of the code under test (stack
// overflow, concurrent map access, deadlock) is a violation of the property
// being exercised, attributed to the recorded case.
func parent(id string) int {
	scratch, err := os.MkdirTemp("", "vmon-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	cmd := exec.Command(os.Args[0], id)
	cmd.Env = append(os.Environ(), "VMON_WORKER=1", "VMON_SCRATCH="+scratch)
	if os.Getenv("VMON_RACE") != "" {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 log_path="+scratch+"/race")
	}
	var errb bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = &errb
	timer := time.AfterFunc(850*time.Second, func() { cmd.Process.Kill() })
	if id == os.Getenv("VMON_LONG") || os.Getenv("VERIF_TIER") == "thorough" {
		timer.Stop()
	}
	err = cmd.Run()
	timer.Stop()
	os.Stderr.Write(tail(errb.Bytes(), 6000))
	code := cmd.ProcessState.ExitCode()
	if races, _ := filepath.Glob(scratch + "/race*"); len(races) > 0 {
		b, _ := os.ReadFile(races[0])
		v := violation{"data-race", string(tail2(b, 8000)), "reports in " + strconv.Itoa(len(races)) + " log(s)"}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, writeReplay(id, v))
		return 1
	}
	if code == 0 {
		return 0
	}
	if code == 41 {
		return 1
	}
	exited := code == 1 // the code under test ended the process
	if exited || code == 2 && (bytes.Contains(errb.Bytes(), []byte("fatal error:")) || bytes.Contains(errb.Bytes(), []byte("panic:"))) {
		cs, _ := os.ReadFile(scratch + "/current-case")
		msg := string(cs)
		if len(cs) > 11 {
			if n, e := strconv.Atoi(strings.TrimSpace(string(cs[:10]))); e == nil && 11+n <= len(cs) {
				msg = string(cs[11 : 11+n])
			}
		}
		if bytes.Contains(errb.Bytes(), []byte("verif/harness")) && !bytes.Contains(errb.Bytes(), []byte("bazelbuild/buildtools")) {
			fmt.Println("harness failure")
			return 2
		}
		kind := "crash"
		if exited {
			kind = "process-exit"
		}
		v := violation{kind, string(tail2(errb.Bytes(), 6000)), msg}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, writeReplay(id, v))
		return 1
	}
	return 3
}

func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}
func tail2(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vmon ID")
		os.Exit(2)
	}
	if os.Getenv("VMON_WORKER") != "" {
		worker(os.Args[1])
		return
	}
	os.Exit(parent(os.Args[1]))
}
