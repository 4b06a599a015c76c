package kit

import (
	"fmt"
	"strings"

	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/sym"
)

// Table is a router over GET patterns that notes which route was chosen.
type Table struct {
	R        *router.Router
	Patterns []string
	Segs     [][]Seg
	Refused  []bool
	Fold     bool
	Hit      int // index of the pattern whose handler ran, -1 when none did
	Hits     int
	Vars     func(mc path.MatchingContext) // called in the handler
}

// NewTable registers the patterns in order; a refused one is noted.
func NewTable(fold bool, patterns ...string) *Table {
	t := &Table{Fold: fold, R: router.NewRouter(fold, func(error) {})}
	for i, p := range patterns {
		t.Add(i, p)
	}
	return t
}

// Add registers a pattern under an index.
func (t *Table) Add(i int, p string) {
	t.Patterns = append(t.Patterns, p)
	t.Segs = append(t.Segs, nil)
	refused, _ := sym.Guard(func() {
		t.R.Handle("GET", p, Handle(func(mc path.MatchingContext) {
			t.Hit = i
			t.Hits++
			if t.Vars != nil {
				t.Vars(mc)
			}
		}))
	})
	t.Refused = append(t.Refused, refused)
	if !refused {
		t.Segs[len(t.Segs)-1] = ParsePattern(p)
	}
}

// Get sends a request and returns the response.
func (t *Table) Get(p string) *W {
	t.Hit, t.Hits = -1, 0
	return Serve(t.R, "GET", p)
}

// Join is the path with the given segments.
func Join(segs []string) string { return "/" + strings.Join(segs, "/") }

// SameShape tells whether two patterns describe the same routes up to the names of variables.
func SameShape(a, b []Seg, fold bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Kind != b[i].Kind {
			return false
		}
		switch a[i].Kind {
		case Literal, Wildcard:
			if !Same(a[i].Text, b[i].Text, fold) {
				return false
			}
		case Constraint:
			if a[i].Text != b[i].Text {
				return false
			}
		}
	}
	return true
}

// MoreSpecific tells whether a is certainly more specific than b when both match: compared segment
// by segment the first difference in kind favours a, be it that `**` stands for one segment or is
// stretched over all the segments a request may have. Where the two readings differ the answer is false.
func MoreSpecific(a, b []Seg) bool {
	return less(kinds(a, 0), kinds(b, 0)) && less(kinds(a, 19), kinds(b, 19))
}

func kinds(p []Seg, width int) []int {
	n := 0
	for _, s := range p {
		if s.Kind == DoubleStar {
			n++
		}
	}
	var r []int
	for _, s := range p {
		r = append(r, s.Kind)
		if s.Kind == DoubleStar && width > 0 {
			k := (width - len(p)) / n
			for i := 0; i < k; i++ {
				r = append(r, DoubleStar)
			}
		}
	}
	return r
}

func less(a, b []int) bool {
	for i := range a {
		if i == len(b) {
			return true
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Path makes a request path of n segments with up to m letters each.
func Path(n, m int, alphabet string) []string {
	segs := make([]string, n)
	for i := range segs {
		segs[i] = sym.Text(fmt.Sprintf("seg%d", i), 1+sym.Choose(fmt.Sprintf("len%d", i), m), alphabet)
	}
	return segs
}

// Pattern composes a pattern of up to n segments from a menu.
func Pattern(name string, n int, menu []string) string {
	k := 1 + sym.Choose(name+".segments", n)
	p := ""
	last := ""
	for i := 0; i < k; i++ {
		s := menu[sym.Choose(name, len(menu))]
		if s == "**" && last == "**" {
			sym.Assume(false)
		}
		last = s
		if strings.HasPrefix(s, "{v") {
			s = fmt.Sprintf("{%s%d%s", name, i, s[2:])
		}
		p += "/" + s
	}
	return p
}

// Tables are sets of patterns whose searches interact: shared prefixes, dead ends, greedy segments.
var Tables = [][]string{
	{"/a/**", "/a/**/d"},
	{"/a/**/d", "/a/{x}/b"},
	{"/**/a/**/b", "/a/{x}/c"},
	{"/a/b/c", "/a/{x}/d", "/{y}/b/e"},
	{"/a/b", "/a/{x}/c", "/**/d"},
	{"/a*/x", "/*b/{y}", "/a*/{z}", "/*b/x"},
	{"/{v:^a$}/b", "/{w:^[ab]$}/c", "/{u}/d"},
	{"/**/a/b", "/**/b", "/**/a/**"},
	{"/", "/a", "/a/**"},
	{"/**/a", "/**/b/**/a", "/*/b"},
	{"/a/**/b/**/c", "/a/**/c", "/a/b/**"},
	{"/*/*/a", "/*/b", "/a/*/{x}/b"},
	{"/a/{x}/**/c", "/a/b/c/d", "/a/**/b"},
	{"/a/**/b/c", "/a/**/c", "/a/**/{v}/b"},
}
