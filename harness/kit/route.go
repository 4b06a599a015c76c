package kit

import (
	"strings"

	"verifharness/sym"
)

// Kinds of pattern segments, most specific first.
const (
	Literal = 1 + iota
	Constraint
	Var
	Wildcard
	Star
	DoubleStar
)

// Seg is one segment of a pattern as the reference sees it.
type Seg struct {
	Kind int
	Text string // the literal, the wildcard text or the constraint
	Name string // of a variable
}

// ParsePattern is the reference reading of a valid pattern.
func ParsePattern(p string) []Seg {
	var r []Seg
	for _, s := range strings.Split(strings.Trim(p, "/"), "/") {
		switch {
		case s == "":
		case s == "*":
			r = append(r, Seg{Kind: Star})
		case s == "**":
			r = append(r, Seg{Kind: DoubleStar})
		case s[0] == '{':
			s = s[1 : len(s)-1]
			if i := strings.IndexByte(s, ':'); i >= 0 {
				r = append(r, Seg{Kind: Constraint, Name: s[:i], Text: s[i+1:]})
			} else {
				r = append(r, Seg{Kind: Var, Name: s})
			}
		case strings.ContainsAny(s, "*?"):
			r = append(r, Seg{Kind: Wildcard, Text: s})
		default:
			r = append(r, Seg{Kind: Literal, Text: s})
		}
	}
	return r
}

// SameByte compares two ASCII bytes, one of them maybe unknown, without branching.
func SameByte(a, b byte, fold bool) bool {
	if !fold {
		return a == b
	}
	return Lower(a) == Lower(b)
}

// Lower is the lower-case form of an ASCII byte, without branching.
func Lower(b byte) byte {
	return byte(sym.IteInt(sym.And(b >= 'A', b <= 'Z'), int(b)+32, int(b)))
}

// Same compares two ASCII strings without branching.
func Same(a, b string, fold bool) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := 0; i < len(a); i++ {
		r = sym.And(r, SameByte(a[i], b[i], fold))
	}
	return r
}

// Glob is the language of a wildcard segment over bytes.
func Glob(p, u string, fold bool) bool {
	row := make([]bool, len(u)+1) // row[j]: the pattern so far describes u[:j]
	row[0] = true
	for i := 0; i < len(p); i++ {
		next := make([]bool, len(u)+1)
		for j := 0; j <= len(u); j++ {
			switch p[i] {
			case '*':
				next[j] = row[j]
				if j > 0 {
					next[j] = sym.Or(next[j], next[j-1])
				}
			case '?':
				if j > 0 {
					next[j] = row[j-1]
				}
			default:
				if j > 0 {
					next[j] = sym.And(row[j-1], SameByte(p[i], u[j-1], fold))
				}
			}
		}
		row = next
	}
	return row[len(u)]
}

// MatchSeg tells whether one pattern segment (not `**`) describes one path segment.
func MatchSeg(p Seg, s string, fold bool) bool {
	switch p.Kind {
	case Literal:
		return Same(p.Text, s, fold)
	case Constraint:
		return Search(p.Text, s, fold)
	case Wildcard:
		return Glob(p.Text, s, fold)
	}
	return true
}

// Align lists the ways a pattern describes a path: in each, element i is the index of the path
// segment bound by pattern segment i (-1 for `**`), cond tells when it applies.
type Alignment struct {
	Pos  []int
	Cond bool
}

func Align(p []Seg, s []string, fold bool) []Alignment {
	var out []Alignment
	var rec func(i, j int, pos []int, cond bool)
	rec = func(i, j int, pos []int, cond bool) {
		if i == len(p) {
			if j == len(s) {
				out = append(out, Alignment{append([]int(nil), pos...), cond})
			}
			return
		}
		if p[i].Kind == DoubleStar {
			if i == len(p)-1 {
				if j < len(s) {
					rec(i+1, len(s), append(pos, -1), cond)
				}
				return
			}
			for k := j; k <= len(s); k++ {
				rec(i+1, k, append(pos, -1), cond)
			}
			return
		}
		if j == len(s) {
			return
		}
		rec(i+1, j+1, append(pos, j), sym.And(cond, MatchSeg(p[i], s[j], fold)))
	}
	rec(0, 0, nil, true)
	return out
}

// Matches tells whether a pattern describes a path.
func Matches(p []Seg, s []string, fold bool) bool {
	n := len(s)
	row := make([]bool, n+1) // row[j]: the pattern so far describes the first j segments
	row[0] = true
	for i := range p {
		next := make([]bool, n+1)
		if p[i].Kind == DoubleStar {
			any := false
			for j := 0; j <= n; j++ {
				any = sym.Or(any, row[j])
				next[j] = any
			}
			if i == len(p)-1 { // at the end it stands for at least one
				any = false
				for j := 0; j < n; j++ {
					any = sym.Or(any, row[j])
				}
				next[n] = any
			}
		} else {
			for j := 0; j < n; j++ {
				next[j+1] = sym.And(row[j], MatchSeg(p[i], s[j], fold))
			}
		}
		row = next
	}
	return row[n]
}
