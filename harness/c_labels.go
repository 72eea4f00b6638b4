package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/labels"
)

func init() { checks["C35"] = checkLabels }

// refLabel is a label by construction.
type refLabel struct {
	repo, pkg, target string
	canonical         bool // @@repo
}

var lblSegs = []string{"a", "b", "foo", "bar", "x1", "a-b", "A_b", "1", "a.b", "__x", "third_party", "@x", "a b", "+x", "é", "...", "a=b", "~"}

func genSeg(r *rand.Rand) string {
	s := pick(r, lblSegs...)
	if r.Intn(6) == 0 {
		s += pick(r, lblSegs...)
	}
	return s
}

func genLabel(r *rand.Rand, cur string) refLabel {
	var l refLabel
	if r.Intn(3) == 0 {
		l.repo = pick(r, "r", "foo", "rules_go", "a.b", "foo-1", "x+", "a", "bar", "rules~1.0~ext~y")
		l.canonical = r.Intn(4) == 0
	}
	switch r.Intn(5) {
	case 0:
	case 1, 2:
		l.pkg = cur
	default:
		var seg []string
		for n := 1 + r.Intn(3); n > 0; n-- {
			seg = append(seg, genSeg(r))
		}
		l.pkg = strings.Join(seg, "/")
		if cur != "" && r.Intn(4) == 0 {
			l.pkg = cur + "/" + l.pkg
		}
	}
	base := l.pkg[strings.LastIndex(l.pkg, "/")+1:]
	switch r.Intn(6) {
	case 0, 1:
		l.target = base
	case 2:
		l.target = l.repo
	case 3:
		l.target = base + "/" + genSeg(r)
	case 4:
		l.target = genSeg(r) + "/" + base
	}
	for strings.Trim(l.target, "/") == "" || strings.HasPrefix(l.target, "/") || strings.HasSuffix(l.target, "/") {
		l.target = genSeg(r)
		if r.Intn(4) == 0 {
			l.target += "/" + genSeg(r)
		}
	}
	return l
}

// spellings lists ways to write the label in package cur (of the main
// repository).
func (l refLabel) spellings(cur string) (s []string) {
	base := l.pkg[strings.LastIndex(l.pkg, "/")+1:]
	pre := []string{"//", "@//"}
	if l.repo != "" {
		pre = []string{"@" + l.repo + "//"}
		if l.canonical {
			pre = []string{"@@" + l.repo + "//"}
		}
	}
	for _, p := range pre {
		s = append(s, p+l.pkg+":"+l.target)
		if base != "" && base == l.target {
			s = append(s, p+l.pkg)
		}
	}
	if l.repo != "" && l.pkg == "" && l.target == l.repo {
		s = append(s, strings.TrimSuffix(pre[0], "//"))
	}
	if l.repo == "" && l.pkg == cur {
		s = append(s, ":"+l.target)
		if !strings.HasPrefix(l.target, "@") && !strings.Contains(l.target, ":") {
			s = append(s, l.target)
		}
	}
	return
}

func (l refLabel) same(x labels.Label) bool {
	return x.Repository == l.repo && x.Package == l.pkg && x.Target == l.target
}

func checkLabels(c *Ctx) {
	c.Rule("distinct = (repository form, package relation, target shape, spelling)")
	c.Assume("labels are read in the main repository, where @//p:t and //p:t are one target; whether @@r and @r denote the same repository is not judged, but shortening must not change one into the other")
	c.parallel(c.N(400000, 8000000), 8, 3500, func(i int, r *rand.Rand) {
		cur := pick(r, "", "a", "a/b", "foo", "third_party/x1", "é", "a.b/1")
		if r.Intn(4) == 0 {
			cur = genSeg(r) + "/" + genSeg(r)
		}
		l := genLabel(r, cur)
		sp := l.spellings(cur)
		k := r.Intn(len(sp))
		s := sp[k]
		in := fmt.Sprintf("label %q (repository %q, package %q, target %q), read in package %q", s, l.repo, l.pkg, l.target, cur)
		c.Case(in)
		ok := c.Guard("panic", in, func() {
			abs := strings.HasPrefix(s, "@") || strings.HasPrefix(s, "//")
			rel := labels.ParseRelative(s, cur)
			if !l.same(rel) {
				c.Violate("parse-relative", fmt.Sprintf("ParseRelative gives %+v", rel), in)
			}
			if abs {
				if p := labels.Parse(s); !l.same(p) {
					c.Violate("parse", fmt.Sprintf("Parse gives %+v", p), in)
				}
				if a, b, t := edit.ParseLabel(s); a != l.repo || b != l.pkg || t != l.target {
					c.Violate("edit-parse", fmt.Sprintf("ParseLabel gives %q %q %q", a, b, t), in)
				}
			}
			lab := labels.Label{Repository: l.repo, Package: l.pkg, Target: l.target}
			if f := lab.Format(); labels.Parse(f) != lab {
				c.Violate("format", fmt.Sprintf("Format gives %q, which reads as %+v", f, labels.Parse(f)), in)
			} else if !strings.HasPrefix(f, "//") && !strings.HasPrefix(f, "@") {
				c.Violate("format-relative", f, in)
			}
			if f := lab.FormatRelative(cur); labels.ParseRelative(f, cur) != lab {
				c.Violate("format", fmt.Sprintf("FormatRelative gives %q, which reads as %+v", f, labels.ParseRelative(f, cur)), in)
			}
			for _, short := range []string{labels.Shorten(s, cur), edit.ShortenLabel(s, cur)} {
				back := labels.ParseRelative(short, cur)
				switch {
				case !l.same(back):
					c.Violate("shorten", fmt.Sprintf("Shorten gives %q, which reads as %+v", short, back), in)
				case len(short) > len(s):
					c.Violate("longer", fmt.Sprintf("Shorten gives %q", short), in)
				case strings.HasPrefix(s, "@@") != strings.HasPrefix(short, "@@"):
					c.Violate("canonical", fmt.Sprintf("Shorten gives %q: another repository", short), in)
				case labels.Shorten(short, cur) != short:
					c.Violate("shorten-twice", fmt.Sprintf("%q, then %q", short, labels.Shorten(short, cur)), in)
				case !abs && short != s:
					c.Violate("not-preserved", fmt.Sprintf("Shorten gives %q", short), in)
				}
			}
			// Other spellings and other labels.
			o := l
			os := sp[r.Intn(len(sp))]
			if r.Intn(2) == 0 {
				o = genLabel(r, cur)
				switch r.Intn(4) {
				case 0:
					o.repo, o.canonical = l.repo, l.canonical
					o.pkg = l.pkg
				case 1:
					o.repo, o.canonical = l.repo, l.canonical
					o.target = l.target
				case 2:
					o.pkg, o.target = l.pkg, l.target
				}
				x := o.spellings(cur)
				os = x[r.Intn(len(x))]
			}
			if o.repo != "" && o.repo == l.repo && o.canonical != l.canonical {
				return
			}
			if want := o == l; labels.Equal(s, os, cur) != want || labels.Equal(os, s, cur) != want {
				c.Violate("equal", fmt.Sprintf("Equal(%q, %q) is %v", s, os, !want), in)
			}
		})
		if ok {
			c.Eval(fmt.Sprintf("repo=%v canonical=%v own=%v root=%v base=%v slash=%v spelling=%d", l.repo != "", l.canonical, l.pkg == cur, l.pkg == "", strings.HasSuffix(l.pkg, l.target), strings.Contains(l.target, "/"), k))
		}
		// Whatever the input, no crash, and what is no long label is preserved.
		var b strings.Builder
		for n := r.Intn(8); n > 0; n-- {
			b.WriteString(pick(r, "/", "//", ":", "@", "a", "b/c", ".", "...", " ", "\x00", "é", "@@"))
		}
		junk := b.String()
		c.Guard("panic-junk", fmt.Sprintf("%q in package %q", junk, cur), func() {
			labels.Parse(junk).Format()
			labels.Equal(junk, s, cur)
			x := labels.Shorten(junk, cur)
			if !strings.HasPrefix(junk, "//") && !strings.HasPrefix(junk, "@") && x != junk {
				c.Violate("not-preserved", fmt.Sprintf("%q became %q", junk, x), in)
			}
			c.Count("arbitrary strings", 1)
		})
	})
}
