package main

import (
	"strings"
	"unicode/utf8"
)

// An independent scanner for Starlark text: tokens, comments, logical lines.
type mtok struct {
	kind      byte // 'i' ident/number, 's' string, 'o' operator, 'c' comment, 'n' newline
	text      string
	off, end  int
	line, col int // 1-based; col counts runes
	depth     int // bracket depth before the token
	stmtLine  int // index of the logical line
}

func miniLex(src string) ([]mtok, bool) {
	var out []mtok
	i, line, lineStart, depth, logical := 0, 1, 0, 0, 0
	ok := true
	push := func(k byte, s, e int) {
		out = append(out, mtok{kind: k, text: src[s:e], off: s, end: e, line: line, col: utf8.RuneCountInString(src[lineStart:s]) + 1, depth: depth, stmtLine: logical})
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			push('n', i, i+1)
			if depth == 0 {
				logical++
			}
			i++
			line++
			lineStart = i
		case c == '\\' && i+1 < len(src) && src[i+1] == '\n':
			i += 2
			line++
			lineStart = i
		case c == '\\' && i+2 < len(src) && src[i+1] == '\r' && src[i+2] == '\n':
			i += 3
			line++
			lineStart = i
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#':
			j := i
			for j < len(src) && src[j] != '\n' {
				j++
			}
			push('c', i, j)
			i = j
		case c == '"' || c == '\'' || (c == 'r' && i+1 < len(src) && (src[i+1] == '"' || src[i+1] == '\'')):
			s := i
			if c == 'r' {
				i++
			}
			q := src[i : i+1]
			if strings.HasPrefix(src[i:], q+q+q) {
				q = q + q + q
			}
			i += len(q)
			for {
				if i >= len(src) {
					ok = false
					break
				}
				if src[i] == '\\' {
					i += 2
					continue
				}
				if strings.HasPrefix(src[i:], q) {
					i += len(q)
					break
				}
				if src[i] == '\n' && len(q) == 1 {
					ok = false
					break
				}
				i++
			}
			if i > len(src) {
				i = len(src)
				ok = false
			}
			push('s', s, i)
			if n := strings.Count(src[s:i], "\n"); n > 0 {
				line += n
				lineStart = s + strings.LastIndex(src[s:i], "\n") + 1
			}
			if !ok {
				return out, false
			}
		case c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			s := i
			for i < len(src) {
				d := src[i]
				if d == '_' || d >= '0' && d <= '9' || d >= 'a' && d <= 'z' || d >= 'A' && d <= 'Z' || d >= 0x80 {
					i++
				} else {
					break
				}
			}
			push('i', s, i)
		default:
			push('o', i, i+1)
			switch c {
			case '(', '[', '{':
				depth++
			case ')', ']', '}':
				depth--
			}
			i++
		}
	}
	return out, ok
}

type comAt struct {
	text  string // without trailing space
	tok   int    // index into tokens
	whole bool   // nothing but white space precedes it on its line
	line  int
}

// comments returns the comments of src.
func scanComments(src string) ([]comAt, []mtok, bool) {
	toks, ok := miniLex(src)
	var cs []comAt
	for i, t := range toks {
		if t.kind == 'c' {
			whole := i == 0 || toks[i-1].kind == 'n'
			if !whole && toks[i-1].kind == 's' {
				whole = false
			}
			cs = append(cs, comAt{strings.TrimRight(t.text, " \t\r"), i, whole, t.line})
		}
	}
	return cs, toks, ok
}

// comID extracts the unique marker of a generated comment ("c12z").
func comID(text string) string {
	for i := 0; i < len(text); i++ {
		if text[i] == 'c' {
			j := i + 1
			for j < len(text) && text[j] >= '0' && text[j] <= '9' {
				j++
			}
			if j > i+1 && j < len(text) && text[j] == 'z' {
				return text[i : j+1]
			}
		}
	}
	return ""
}
