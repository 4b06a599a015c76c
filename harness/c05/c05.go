// Package c05: request paths are normalised once and over-long ones never dispatch.
package c05

import (
	"strings"

	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// normalise is the reference: the non-empty segments, `..` removing the one before it.
func normalise(p string) []string {
	var r []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "":
		case "..":
			if len(r) > 0 {
				r = r[:len(r)-1]
			}
		default:
			r = append(r, s)
		}
	}
	return r
}

// site registers a route of variables for every number of segments up to 19, and the root.
type site struct {
	r    *router.Router
	hit  int
	vars []string
}

const letters = "abcdefghijklmnopqrs"

func newSite(counts ...int) *site {
	s := &site{r: router.NewRouter(false, func(error) {})}
	for _, n := range counts {
		n := n
		p := ""
		for i := 0; i < n; i++ {
			p += "/{" + letters[i:i+1] + "}"
		}
		if n == 0 {
			p = "/"
		}
		s.r.Handle("GET", p, kit.Handle(func(mc path.MatchingContext) {
			s.hit = n
			s.vars = nil
			for i := 0; i < n; i++ {
				s.vars = append(s.vars, mc.PathVar(letters[i:i+1]))
			}
		}))
	}
	return s
}

func (s *site) check(p string) {
	s.hit = -1
	kit.Candidates = []string{"/", "/a", "/a/b/c"}
	w := kit.Serve(s.r, "GET", p)
	want := normalise(p)
	sym.Observe("hit", s.hit)
	sym.Reach("routed")
	if len(want) > 19 {
		sym.Assert(s.hit == -1 && w.Status == 404, "a path of more than 19 segments is never dispatched")
		return
	}
	sym.Assert(s.hit == len(want), "routing sees the normalised segments")
	for i := range want {
		sym.Assert(s.vars[i] == want[i], "each segment is the text between slashes")
	}
}

// HarnessBytes: any short path.
func HarnessBytes() {
	s := newSite(0, 1, 2, 3, 4, 5, 6)
	p := "/" + sym.String("path", sym.Choose("len", sym.Pick(5, 7)))
	s.check(p)
}

// HarnessDots: paths over slashes, dots and a letter.
func HarnessDots() {
	s := newSite(0, 1, 2, 3, 4, 5, 6)
	p := "/" + sym.Text("path", sym.Choose("len", sym.Pick(9, 12)), "./a")
	s.check(p)
}

// HarnessSteps: sequences of whole segments.
func HarnessSteps() {
	s := newSite(0, 1, 2, 3, 4, 5, 6)
	n := sym.Choose("n", sym.Pick(6, 8))
	p := ""
	for i := 0; i < n; i++ {
		p += []string{"/a", "/..", "//bc", "/.", "/..."}[sym.Choose("step", 5)]
	}
	if sym.Choose("slash", 2) == 1 || p == "" {
		p += "/"
	}
	s.check(p)
}

// HarnessLimit: around nineteen segments; `..` may bring a path back under the limit, in which case
// it may be dispatched or refused, but never dispatched as something else.
func HarnessLimit() {
	s := newSite(0, 1, 2, 13, 14, 15, 16, 17, 18, 19)
	n := 15 + sym.Choose("n", sym.Pick(8, 25))
	segs := make([]string, n)
	for i := range segs {
		segs[i] = sym.Text("seg", 1+i%2, "a-z")
	}
	dots := false
	if sym.Choose("dots", 2) == 1 {
		segs[sym.Choose("where", n)] = ".."
		dots = true
	}
	p := "/" + strings.Join(segs, "/")
	if sym.Choose("slash", 2) == 1 {
		p += "/"
	}
	if dots && n > 19 && len(normalise(p)) <= 19 {
		s.hit = -1
		kit.Serve(s.r, "GET", p)
		sym.Assert(s.hit == -1 || s.hit == len(normalise(p)), "a path is dispatched by its normalised segments or not at all")
		return
	}
	s.check(p)
}

// HarnessGreedy: an over-long path is not taken for another one by greedy routes or a lone root.
func HarnessGreedy() {
	routes := [][]string{{"/"}, {"/**"}, {"/", "/**"}, {"/**/a"}, {"/a/**", "/"}, {"/*", "/"}}
	t := kit.NewTable(false, routes[sym.Choose("routes", len(routes))]...)
	n := 18 + sym.Choose("n", sym.Pick(4, 20))
	segs := make([]string, n)
	for i := range segs {
		segs[i] = "a"
	}
	segs[sym.Choose("where", n)] = sym.Text("seg", 1, "a-z")
	w := t.Get(kit.Join(segs))
	sym.Observe("hit", t.Hit)
	sym.Reach("long")
	any := false
	for i := range t.Segs {
		any = sym.Or(any, kit.Matches(t.Segs[i], segs, false))
	}
	if n > 19 {
		sym.Assert(t.Hit == -1 && w.Status == 404, "a path of more than 19 segments is never dispatched, not even to the root")
	} else {
		sym.Assert(sym.Iff(t.Hit != -1, any), "a path of up to 19 segments is dispatched")
	}
}

// HarnessSlashes: long runs of slashes and of segments that go away again stand for nothing.
func HarnessSlashes() {
	s := newSite(0, 1, 2, 3)
	p := ""
	for i := 0; i < 3; i++ {
		p += strings.Repeat("/", []int{1, 2, 18, 19, 20, 21, 45}[sym.Choose("run", 7)])
		if i < 2 {
			p += sym.Text("seg", 1+i, "a.")
		}
	}
	s.check(p)
}

// HarnessHuge: segments longer than 65535 bytes.
func HarnessHuge() {
	s := newSite(0, 1, 2, 3)
	long := strings.Repeat("x", 65530+sym.Choose("extra", sym.Pick(3, 10))*3)
	a, b := sym.Text("a", 1, "a-z"), sym.Text("b", 2, "a-z")
	p := []string{"/" + a + "/" + long + "/" + b, "/" + long + a + "/" + b, "/" + a + "/" + b + long}[sym.Choose("shape", 3)]
	s.check(p)
}

// HarnessHistory: short, long and over-long paths after one another; each is normalised by itself.
func HarnessHistory() {
	s := newSite(0, 1, 2, 3, 18, 19)
	for i := 0; i < 3; i++ {
		c := sym.Text("letter", 1, "abc")
		p := ""
		switch sym.Choose("kind", 6) {
		case 0:
			p = "/" + sym.Text("path", 3, "./a")
		case 1:
			p = strings.Repeat("/"+c, 18+sym.Choose("more", 4))
		case 2:
			p = "//" + c + "//" + strings.Repeat("./", 3)
			p = strings.Replace(p, ".", "q/..", 3)
		case 3:
			p = "/" + strings.Repeat("../", 3) + c
		case 4:
			p = strings.Repeat("/"+c, 60)
		case 5:
			p = "/" + c + strings.Repeat("/"+c+"/..", 3)
		}
		s.check(p)
	}
}
