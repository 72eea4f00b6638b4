package main

import (
	"fmt"
	"regexp"
	"strings"
)

func init() { checks["C03"] = checkC03 }

var anchorRE = regexp.MustCompile(`[us][1-9]\d*`)

var comStart = regexp.MustCompile(`#+ *c\d+z`)

// plain reports that a token is a literal without a unique mark.
func plain(tok string) bool {
	return tok != "" && anchorRE.FindString(tok) == "" && !strings.Contains("()[]{},:=;", tok)
}

func sameTok(a, b string) bool {
	return strings.Trim(a, "'\"") == strings.Trim(b, "'\"")
}

var nestedUnary = regexp.MustCompile(`(not\b|[-+~])\s*(not\b|[-+~])|else\s+lambda`)

// startsOperand matches identifiers, numbers and strings.
var startsOperand = regexp.MustCompile(`^([us]\d+$|\d|r?["'])`)

type comInfo struct {
	text        string
	whole       bool
	prev, next  string // nearest unique token before and after
	prevTok     string // the token right before
	nextTok     string // the token right after
	owner       string // enclosing brackets
	line        int
	sameLine    string // unique token of the statement on the same line
	stmtFirst   string // first unique token of the logical line
	multiline   bool
	insideEmpty bool
	dup         bool
	around      [2]map[string]bool // unique tokens of the logical lines of the tokens right before and after
	inside      bool               // both are of the same logical line
}

// comInfos scans src and describes every generated comment by its surroundings.
func comInfos(src string) (map[string]*comInfo, []string, bool) {
	cs, toks, ok := scanComments(src)
	if !ok {
		return nil, nil, false
	}
	var anon []string
	out := map[string]*comInfo{}
	stmts := map[int]map[string]bool{}
	for _, t := range toks {
		if m := anchorRE.FindString(t.text); m != "" && (t.kind == 'i' || t.kind == 's') {
			if stmts[t.stmtLine] == nil {
				stmts[t.stmtLine] = map[string]bool{}
			}
			stmts[t.stmtLine][m] = true
		}
	}
	byTok := map[int]*comInfo{}
	for _, c := range cs {
		for _, part := range splitComment(c.text) {
			id := comID(part)
			if id == "" {
				anon = append(anon, part)
				continue
			}
			ci := &comInfo{text: part, whole: c.whole, line: c.line}
			if old := out[id]; old != nil {
				old.dup = true
				continue
			}
			out[id] = ci
			byTok[c.tok] = ci
			ci.prevTok, ci.prev = anchorFrom(toks, c.tok, -1)
			ci.nextTok, ci.next = anchorFrom(toks, c.tok, 1)
			var near [2]int
			for k, step := range []int{-1, 1} {
				near[k] = -1 - k
				for j := c.tok + step; j >= 0 && j < len(toks); j += step {
					if toks[j].kind != 'c' && toks[j].kind != 'n' {
						near[k] = toks[j].stmtLine
						ci.around[k] = stmts[toks[j].stmtLine]
						break
					}
				}
			}
			ci.inside = near[0] == near[1]
			d := toks[c.tok].depth
			for j := c.tok - 1; j > 0 && d > 0; j-- {
				if toks[j].kind == 'o' && strings.ContainsAny(toks[j].text, "([{") && toks[j].depth == d-1 {
					d--
					for k := j - 1; k >= 0; k-- {
						if toks[k].kind == 'i' || toks[k].kind == 's' {
							ci.owner += strings.Trim(toks[k].text, "'\"") + "/"
							break
						}
					}
				}
			}
		}
	}
	return out, anon, true
}

// anchorFrom finds the nearest token before or after i (commas aside) and the
// unique token that identifies it: itself, the nearest one of the same
// statement, or, at the far side of a closing bracket, whatever owns the bracket.
func anchorFrom(toks []mtok, i, step int) (tok, anchor string) {
	first := -1
	for j := i + step; j >= 0 && j < len(toks); j += step {
		t := toks[j]
		if t.text == "," && first >= 0 && step < 0 && toks[first].kind == 'o' {
			return tok, ""
		}
		if t.kind == 'c' || t.kind == 'n' || t.text == "," || t.text == ";" {
			continue
		}
		if first < 0 {
			first = j
			tok = t.text
			if step < 0 && (tok == ")" || tok == "]" || tok == "}") {
				for j > 0 && !(toks[j].kind == 'o' && strings.ContainsAny(toks[j].text, "([{") && toks[j].depth == t.depth-1) {
					j--
				}
				continue
			}
		}
		if t.stmtLine != toks[first].stmtLine {
			return tok, ""
		}
		if m := anchorRE.FindString(t.text); m != "" && t.kind != 'o' {
			return tok, m
		}
		if step > 0 && t.kind == 'o' && strings.ContainsAny(t.text, ")]}") {
			return tok, ""
		}
	}
	return tok, ""
}

// splitComment separates comments that were merged onto one line.
func splitComment(text string) []string {
	var out []string
	last := 0
	for i, m := range comStart.FindAllStringIndex(text, -1) {
		if i > 0 {
			out = append(out, strings.TrimRight(text[last:m[0]], " \t"))
			last = m[0]
		}
	}
	return append(out, strings.TrimRight(text[last:], " \t"))
}

// commentSig compares the comments of the input with those of the output.
func commentSig(kind FileKind, raw string, attach bool, c *Ctx) (string, string) {
	in, _ := texts(raw)
	a, anonA, ok := comInfos(in)
	if !ok {
		return "", ""
	}
	if nestedUnary.MatchString(in) {
		return "", "" // gets parentheses
	}
	out, _, err := formatKind(kind, in)
	if err != nil {
		return "", ""
	}
	b, anonB, ok := comInfos(out)
	if !ok {
		return "output-unscannable", out
	}
	if c != nil {
		key := ""
		if len(a) >= 2 {
			key = in
		}
		c.Eval(key)
		c.Count("comments_seen", len(a))
	}
	if attach && strings.Join(anonA, "\n") != strings.Join(anonB, "\n") {
		return "anonymous-comments", fmt.Sprintf("comments %q became %q\n== output ==\n%s", anonA, anonB, out)
	}
	for id := range b {
		if a[id] == nil {
			return "new-comment", id + " appeared\n" + out
		}
		if b[id].dup {
			return "comment-duplicated", id + " appears more than once\n" + out
		}
	}
	for id, x := range a {
		y := b[id]
		if y == nil {
			return "comment-lost", "comment " + id + " is missing\n== output ==\n" + out
		}
		if x.text != y.text {
			return "comment-text", fmt.Sprintf("%q became %q\n== output ==\n%s", x.text, y.text, out)
		}
		if x.inside && len(x.around[0]) > 0 && x.whole && x.prevTok != "." && startsOperand.MatchString(x.nextTok) {
			// A comment right before an operand inside a statement stays inside or right before the statement.
			near := 0
			for m := range x.around[0] {
				if y.around[1][m] {
					near++
				}
			}
			if c != nil {
				c.Count("inside_statements_checked", 1)
			}
			if near == 0 && len(y.around[0])+len(y.around[1]) > 0 {
				return "comment-left-statement", fmt.Sprintf("comment %q of the statement with %v is now next to %v and %v\n== output ==\n%s", x.text, x.around[0], y.around[0], y.around[1], out)
			}
		}
		if !attach {
			continue
		}
		if c != nil {
			c.Count("attachments_checked", 1)
		}
		opener := x.prevTok == "(" || x.prevTok == "[" || x.prevTok == "{" || x.prevTok == ":"
		if x.prev == y.prev && x.prevTok == y.prevTok || x.next == y.next && x.nextTok == y.nextTok {
			continue
		}
		if (x.prevTok == "(" || x.prevTok == "[" || x.prevTok == "{") && x.prevTok == y.prevTok && x.nextTok == y.nextTok {
			continue // empty brackets
		}
		if plain(x.nextTok) && sameTok(x.nextTok, y.nextTok) && (x.whole || opener) || plain(x.prevTok) && sameTok(x.prevTok, y.prevTok) && !x.whole {
			continue // no unique token to compare
		}
		if x.prev == "" && x.prevTok == y.prevTok || x.next == "" && x.nextTok == y.nextTok {
			continue // nothing unique nearby
		}
		if (x.prevTok == ")" || x.prevTok == "]" || x.prevTok == "}") && x.prevTok == y.prevTok {
			continue
		}
		if x.whole && x.owner == "" && plain(x.prevTok) && x.prevTok == y.prevTok {
			continue
		}
		if (x.whole || opener) && x.nextTok != "" && x.owner == y.owner && strings.Contains(strings.ToLower(in), "keep sorted") {
			continue // heads a group of the list
		}
		where := "own-line"
		if !x.whole {
			where = "end-of-line"
			if !opener && x.prev == y.prev || opener && x.next == y.next {
				continue
			}
		} else {
			closer := x.nextTok == ")" || x.nextTok == "]" || x.nextTok == "}"
			if closer && x.owner == y.owner && (y.nextTok == ")" || y.nextTok == "]" || y.nextTok == "}" || y.nextTok == ",") {
				continue
			}
			if !closer && x.next == y.next || opener && x.owner == y.owner {
				continue
			}
		}
		return "comment-moved:" + where, fmt.Sprintf("comment %q (%s): in the input between %q (%s) and %q (%s) in %q, in the output between %q (%s) and %q (%s) in %q\n== output ==\n%s",
			x.text, where, x.prevTok, x.prev, x.nextTok, x.next, x.owner, y.prevTok, y.prev, y.nextTok, y.next, y.owner, out)
	}
	return "", ""
}

func checkC03(c *Ctx) {
	c.Rule("random files of every type whose comments, identifiers and strings are unique; an independent scanner extracts every comment of the input and of the formatted output with the code next to it. Distinct non-trivial: distinct inputs with at least 2 comments.")
	c.Assume("comments between tokens of one expression (not next to an element of a list, call, dictionary or tuple) are only required to be kept, not to stay at the same token")
	run := func(kind FileKind, raw, tag string, attach bool) {
		c.Case(raw)
		first := true
		c.pureCheck(raw, func(s string) (string, string) {
			x := c
			if !first {
				x = nil
			}
			first = false
			sig, d := commentSig(kind, s, attach, x)
			if sig != "" {
				sig += tag
			}
			return sig, d
		})
	}
	for _, p := range c02Probes {
		run(p.kind, strings.Replace(p.src, "# c", "# c1z", 1), ":probe-"+p.name, false)
	}
	for i, s := range []string{"load(':a', x # c1z\n = 'x' # c2z\n)\n", "if x:\n  y[:\n# c1z\n]\nelif z:\n  w\n", "def f(a, # c1z\n b,\n # c2z\n c): # c3z\n  # c4z\n  pass # c5z\n  # c6z\n",
		"if a: # c1z\n  b\n# c2z\nelse: # c3z\n  # c4z\n  d\n", "f(a=b)(c, # c1z\n d # c2z\n).x # c3z\n", "x = { # c1z\n a: b, # c2z\n # c3z\n c: d # c4z\n # c5z\n}\n",
		"# c1z\n\n# c2z\nload(':a', 'b')\n# c3z\n\nx = 1 # c4z\n\n# c5z\n", "def f():\n  # c1z\n  x()\n\n  # c2z\n\n  # c3z\n  y() # c4z\n  # c5z\n\n# c6z\nz()\n",
		"for x in y: # c1z\n  if z: # c2z\n    w # c3z\n# c4z\n  else: # c5z\n    v\n"} {
		for k := FileKind(0); k < 5; k++ {
			run(k, s, fmt.Sprintf(":probe-fixed%d", i), false)
		}
	}
	n := c.N(7000, 300000)
	for i := 0; i < n && !c.Failed(); i++ {
		g := c.genCase(i, 3)
		g.comProb, g.layout = 1+2*g.r.Float64(), 1+g.r.Float64()
		g.uniqueID, g.tame = true, true
		if g.p(0.3) {
			withDirectives(g, 0.3)
		}
		raw := g.File(1 + g.n(5))
		run(g.kind, raw, "", true)
		if i%(n/6) == 0 {
			c.Sample(raw)
		}
	}
	for i := 0; i < n && !c.Failed(); i++ {
		g := c.genCase(i, 33)
		g.comProb, g.layout = 1+2*g.r.Float64(), 1+g.r.Float64()
		g.wild = true
		g.uniqueID = i%2 == 0
		raw := g.File(1 + g.n(5))
		run(g.kind, raw, ":anywhere", false)
	}
}
