package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
)

func init() { checks["C18"] = checkLintFix }

var lintFixable = []string{"attr-cfg", "attr-non-empty", "attr-single-file", "constant-glob", "ctx-actions", "ctx-args", "depset-iteration", "dict-method-named-arg", "duplicated-name", "git-repository", "http-archive", "integer-division", "keyword-positional-params", "list-append", "load", "native-android", "native-build", "native-cc-library", "native-cc-binary", "native-cc-info", "native-java-library", "native-java-common", "native-java-info", "native-package", "native-proto", "native-proto-info", "native-py", "native-sh-binary", "native-cc-common", "output-group", "package-name", "package-on-top", "positional-args", "repository-name", "skylark-comment", "skylark-docstring", "unsorted-dict-items", "unused-variable", "unreachable", "uninitialized", "dict-concatenation", "string-iteration", "same-origin-load", "provider-params"}

func lintSubset(r *rand.Rand) []string {
	known := map[string]bool{}
	for _, c := range lintCats {
		known[c] = true
	}
	switch r.Intn(5) {
	case 0, 1:
		return lintCats
	case 2:
		return warn.DefaultWarnings
	}
	var out []string
	n := 1 + r.Intn(4)
	for len(out) < n {
		if c := lintFixable[r.Intn(len(lintFixable))]; known[c] {
			out = append(out, c)
		}
	}
	return out
}

func lintFixed(k FileKind, text string, cats []string, ws lintWS) (string, *build.File) {
	f := lintParse(k, text)
	if f == nil {
		return "", nil
	}
	warn.FixWarnings(f, cats, false, ws.reader())
	return string(build.Format(f)), f
}

func fixable(l []*warn.Finding) (out []string) {
	for _, x := range l {
		if x.AutoFixable {
			out = append(out, x.Category+": "+fmt.Sprint(x.Start.Line)+": "+strings.SplitN(x.Message, "\n", 2)[0])
		}
	}
	return
}

func lintFixOne(k FileKind, text string, cats []string, ws lintWS) (sig, detail string) {
	if lintParse(k, text) == nil {
		return
	}
	which := func(ok func(cs []string) bool) string {
		for _, c := range cats {
			if !ok([]string{c}) {
				return c
			}
		}
		return "several"
	}
	out, _ := lintFixed(k, text, cats, ws)
	g := lintParse(k, out)
	if g == nil {
		_, err := parseKind(k, out)
		return "unparsable:" + which(func(cs []string) bool { o, _ := lintFixed(k, text, cs, ws); return lintParse(k, o) != nil }), fmt.Sprintf("the fixed file does not parse: %v\n%s", err, out)
	}
	if again := string(build.Format(g)); again != out {
		// not a matter of the fixes if the file itself is not stable
		plain := string(build.Format(lintParse(k, text)))
		if h := lintParse(k, plain); h == nil || string(build.Format(h)) != plain {
			return
		}
		return "unformatted", "formatting the fixed file changes it:\n" + lineDiff(out, again)
	}
	rest := fixable(warn.FileWarnings(lintParse(k, out), cats, nil, warn.ModeWarn, ws.reader()))
	if len(rest) > 0 {
		return "left:" + strings.SplitN(rest[0], ":", 2)[0], "fixable findings left: " + strings.Join(rest, " | ") + "\n" + out
	}
	if o2, _ := lintFixed(k, out, cats, ws); o2 != out {
		return "second-fix", "fixing again changes the file:\n" + lineDiff(out, o2)
	}
	return
}

func lintSuggestOne(k FileKind, text string, cats []string, ws lintWS) (sig, detail string) {
	f0 := lintParse(k, text)
	if f0 == nil {
		return
	}
	text = string(build.Format(f0))
	f := lintParse(k, text)
	if f == nil {
		return
	}
	before := dumpFile(f)
	plain := warn.FileWarnings(f, cats, nil, warn.ModeWarn, ws.reader())
	formatted := []byte(text)
	sugg := warn.FileWarnings(f, cats, &formatted, warn.ModeSuggest, ws.reader())
	if string(formatted) != text {
		return "formatted-changed", "the formatted contents were changed"
	}
	if len(plain) != len(sugg) {
		return "suggest-count", fmt.Sprintf("report mode gives %d findings, suggest mode %d", len(plain), len(sugg))
	}
	if d := dumpFile(f); d != before && string(build.FormatWithoutRewriting(f)) != string(build.FormatWithoutRewriting(lintParse(k, text))) {
		return "suggest-changed", "suggesting changed the tree:\n" + around(before, d)
	}
	n := 0
	for i, x := range sugg {
		r := x.Replacement
		x.Replacement = nil
		if a, b := findingStr(plain[i]), findingStr(x); a != b {
			return "suggest-findings", "report mode | suggest mode: " + a + " | " + b
		}
		if (r != nil) != x.AutoFixable {
			return "suggest-none:" + x.Category, "fixable finding without a suggestion, or the reverse: " + findingStr(x)
		}
		if r == nil {
			continue
		}
		if r.Start < 0 || r.End < r.Start || r.End > len(text) {
			return "offsets:" + x.Category, fmt.Sprintf("replacement [%d,%d) in a file of %d bytes", r.Start, r.End, len(text))
		}
		if n++; n > 12 {
			continue
		}
		t2 := text[:r.Start] + r.Content + text[r.End:]
		g := lintParse(k, t2)
		if g == nil {
			return "suggest-unparsable:" + x.Category, "applying the suggestion for " + findingStr(x) + " gives\n" + t2
		}
		if o := string(build.Format(g)); o != t2 {
			return "suggest-unformatted:" + x.Category, "after applying " + findingStr(x) + " the file is not formatted:\n" + lineDiff(t2, o)
		}
		count := func(l []*warn.Finding) (n int) {
			for _, y := range l {
				if y.Category == x.Category {
					n++
				}
			}
			return
		}
		was, is := count(plain), count(warn.FileWarnings(lintParse(k, t2), []string{x.Category}, nil, warn.ModeWarn, ws.reader()))
		if is >= was {
			return "suggest-left:" + x.Category, fmt.Sprintf("%d findings before and %d after applying the suggestion for %s:\n%s", was, is, findingStr(x), t2)
		}
	}
	return
}

func checkLintFix(c *Ctx) {
	c.Rule("after FixWarnings+Format: parses, format-stable, no fixable finding of the applied categories, second fix is a no-op; every suggestion applies textually, parses, is formatted, and lowers the number of findings of its category")
	n := c.N(4000, 60000)
	c.parallel(n, 8, 18, func(i int, r *rand.Rand) {
		k := lintKinds[r.Intn(len(lintKinds))]
		text := newLintGen(r, k).file()
		cats := lintSubset(r)
		ws := lintWorkspaces[r.Intn(len(lintWorkspaces))].files
		c.Case(text)
		c.Eval(text + strings.Join(cats, ","))
		for mode, one := range []func(FileKind, string, []string, lintWS) (string, string){lintFixOne, lintSuggestOne} {
			f := func(s string) (sig, detail string) {
				defer func() {
					if e := recover(); e != nil {
						sig, detail = fmt.Sprintf("panic%d", mode), fmt.Sprint(e)
					}
				}()
				return one(k, s, cats, ws)
			}
			if sig, detail := f(text); sig != "" {
				small := shrink(text, func(s string) bool { g, _ := f(s); return g == sig })
				if _, d := f(small); d != "" {
					detail = d
				}
				cs := strings.Join(cats, ",")
				if len(cats) > 10 {
					cs = fmt.Sprintf("%d categories", len(cats))
				}
				c.Violate(sig, kindFile[k]+" "+cs+": "+detail, small)
			}
		}
		if fl := lintParse(k, text); fl != nil && i < 3000 {
			for _, x := range warn.FileWarnings(fl, lintCats, nil, warn.ModeWarn, lintWorkspace.reader()) {
				if x.AutoFixable {
					c.Count("fixable_"+x.Category, 1)
				}
			}
		}
	})
}
