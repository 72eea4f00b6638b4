package main

import (
	"os"
	"sync/atomic"
	"time"
)

// shrink reduces s while bad(s) stays true: deletes token ranges, then single
// tokens, then replaces bracketed groups by their content.
var shrinkSpent atomic.Int64

func shrink(s string, bad func(string) bool) string {
	limit := 4 * time.Second
	if os.Getenv("VMON_ALL") != "" {
		limit = 20 * time.Second
	}
	// All shrinking together takes a limited time: a defect that shows in every case must not hold up the answer.
	if shrinkSpent.Load() > int64(60*time.Second) || os.Getenv("VMON_NOSHRINK") != "" {
		return s
	}
	began := time.Now()
	defer func() { shrinkSpent.Add(int64(time.Since(began))) }()
	deadline := began.Add(limit)
	pieces := func(s string) []string {
		var out []string
		toks, ok := miniLex(s)
		if !ok {
			for i := 0; i < len(s); {
				j := i + 3
				if j > len(s) {
					j = len(s)
				}
				out = append(out, s[i:j])
				i = j
			}
			return out
		}
		pos := 0
		for _, t := range toks {
			if t.off > pos {
				out = append(out, s[pos:t.off])
			}
			out = append(out, s[t.off:t.end])
			pos = t.end
		}
		if pos < len(s) {
			out = append(out, s[pos:])
		}
		return out
	}
	join := func(p []string, i, j int) string {
		var b []byte
		for k, x := range p {
			if k < i || k >= j {
				b = append(b, x...)
			}
		}
		return string(b)
	}
	for {
		p := pieces(s)
		changed := false
		for n := len(p) / 2; n >= 1; n /= 2 {
			for i := 0; i < len(p); {
				if time.Now().After(deadline) {
					return s
				}
				j := i + n
				if j > len(p) {
					j = len(p)
				}
				t := join(p, i, j)
				if t != s && bad(t) {
					s = t
					p = append(append([]string{}, p[:i]...), p[j:]...)
					changed = true
				} else {
					i += n
				}
			}
		}
		// pairs of brackets
		p = pieces(s)
		for i := 0; i < len(p); i++ {
			if len(p[i]) == 1 && (p[i] == "(" || p[i] == "[" || p[i] == "{") {
				d := 0
				for j := i; j < len(p); j++ {
					if len(p[j]) != 1 {
						continue
					}
					switch p[j] {
					case "(", "[", "{":
						d++
					case ")", "]", "}":
						d--
					}
					if d == 0 {
						if time.Now().After(deadline) {
							return s
						}
						q := append(append(append([]string{}, p[:i]...), p[i+1:j]...), p[j+1:]...)
						if t := join(q, -1, -1); bad(t) {
							s, p, changed = t, q, true
						}
						break
					}
				}
			}
			// simplify strings and idents
			if i < len(p) && len(p[i]) > 2 && (p[i][0] == '"' || p[i][0] == '\'') {
				q := append([]string{}, p...)
				q[i] = `""`
				if t := join(q, -1, -1); t != s && bad(t) {
					s, p, changed = t, q, true
				}
			}
		}
		if !changed {
			return s
		}
	}
}

// pureCheck runs one oracle and shrinks a failing input before reporting it.
func (c *Ctx) pureCheck(raw string, f func(string) (string, string)) {
	var sig, detail string
	if !c.Guard("format", raw, func() { sig, detail = f(raw) }) || sig == "" {
		return
	}
	c.mu.Lock()
	_, have := c.viols[sig]
	c.mu.Unlock()
	if have {
		return
	}
	safe := func(s string) (r string, d string) {
		defer func() {
			if recover() != nil {
				r = "panic"
			}
		}()
		return f(s)
	}
	if os.Getenv("VMON_NOSHRINK") != "" {
		in, _ := texts(raw)
		c.Violate(sig, detail, in)
		return
	}
	small := shrink(raw, func(s string) bool { r, _ := safe(s); return r == sig })
	if s2, d2 := safe(small); s2 == sig {
		in, _ := texts(small)
		c.Violate(sig, d2, in)
		return
	}
	in, _ := texts(raw)
	c.Violate(sig, detail, in)
}
