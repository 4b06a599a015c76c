// Package c07: case mode applies to every kind of segment.
package c07

import (
	"fmt"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

var tables = [][]string{
	{"/a/{x}", "/B/**", "/{y}/b"},
	{"/aB?/{x}", "/A*/*", "/**/b"},
	{"/{x:^a$}/{y}", "/{z:^[bc]+$}/B", "/*/A"},
	{"/ab", "/AB/c", "/?b/{v}"},
	{"/a/**/B", "/A/{x:^[ab]$}/c"},
	{"/*A*", "/b*/{x}"},
	{"/a1-b/{x}", "/{y}/B_2"},
	{"/{x:(?:^a|^[B]c)$}/{y}", "/{z:(?i)^b|a$}/b", "/{w:(a|(?i:B))}"},
}

// spellings makes n segments of up to m letters, and the same with some letters in the other case.
func spellings(n, m int, alphabet string) (a, b []string) {
	for i := 0; i < n; i++ {
		s := sym.Text(fmt.Sprintf("seg%d", i), 1+sym.Choose(fmt.Sprintf("len%d", i), m), alphabet)
		o := []byte(s)
		for j := range o {
			flip := sym.Bool(fmt.Sprintf("flip%d.%d", i, j))
			letter := sym.Or(sym.And(o[j] >= 'a', o[j] <= 'z'), sym.And(o[j] >= 'A', o[j] <= 'Z'))
			o[j] = byte(sym.IteInt(sym.And(flip, letter), int(o[j]^0x20), int(o[j])))
		}
		a, b = append(a, s), append(b, string(o))
	}
	return
}

func vars(t *kit.Table, got map[string]string) func(path.MatchingContext) {
	return func(mc path.MatchingContext) {
		for _, s := range t.Segs[t.Hit] {
			if s.Name != "" {
				got[s.Name] = mc.PathVar(s.Name)
			}
		}
	}
}

// HarnessInsensitive: the same route for both spellings, variables as sent.
func HarnessInsensitive() {
	t := kit.NewTable(true, tables[sym.Choose("table", len(tables))]...)
	p, q := spellings(1+sym.Choose("n", sym.Pick(3, 4)), 2, "abc1")
	pv, qv := map[string]string{}, map[string]string{}
	t.Vars = vars(t, pv)
	t.Get(kit.Join(p))
	first := t.Hit
	t.Vars = vars(t, qv)
	t.Get(kit.Join(q))
	sym.Observe("hit", first)
	sym.Reach("twice")
	sym.Assert(t.Hit == first, "the letter case of the path does not change the chosen route")
	if first >= 0 {
		ok := false
		for _, a := range kit.Align(t.Segs[first], p, true) {
			c := a.Cond
			for i, s := range t.Segs[first] {
				if s.Name != "" {
					c = sym.And(c, sym.And(pv[s.Name] == p[a.Pos[i]], qv[s.Name] == q[a.Pos[i]]))
				}
			}
			ok = sym.Or(ok, c)
		}
		sym.Assert(ok, "variables keep the case the client sent")
	}
}

// HarnessSensitive: on a case-sensitive router a literal is its own spelling only, and so are the
// letters of wildcards and constraints.
func HarnessSensitive() {
	fold := false
	t := kit.NewTable(fold, tables[sym.Choose("table", len(tables))]...)
	p, _ := spellings(1+sym.Choose("n", sym.Pick(2, 3)), 2, "aAbBc")
	t.Get(kit.Join(p))
	sym.Observe("hit", t.Hit)
	sym.Reach("once")
	any := false
	for i := range t.Segs {
		m := kit.Matches(t.Segs[i], p, fold)
		any = sym.Or(any, m)
		if t.Hit == i {
			sym.Assert(m, "a route is reached only by its own spelling")
		}
	}
	sym.Assert(sym.Iff(any, t.Hit >= 0), "a route is reached by its own spelling")
}

// HarnessLiteral: a single literal and any request of about its length.
func HarnessLiteral() {
	fold := sym.Choose("fold", 2) == 1
	lit := []string{"aB", "a", "Z9_", "~x"}[sym.Choose("literal", 4)]
	u := sym.String("segment", 1+sym.Choose("len", sym.Pick(3, 4)))
	for i := 0; i < len(u); i++ {
		sym.Assume(sym.And(u[i] != '/', u[i] < 0x80))
	}
	sym.Assume(u != "..")
	t := kit.NewTable(fold, "/"+lit)
	t.Get("/" + u)
	sym.Observe("hit", t.Hit)
	sym.Reach("literal")
	sym.Assert(sym.Iff(t.Hit == 0, kit.Same(lit, u, fold)), "a literal route is reached by its own spelling, or any case of it on a case-insensitive router")
}

// HarnessLetters: letters whose two cases have different lengths, and other alphabets.
func HarnessLetters() {
	pairs := [][2]string{{"é", "É"}, {"ж", "Ж"}, {"ⱥ", "Ⱥ"}, {"ǆ", "Ǆ"}, {"ω", "Ω"}, {"ɐ", "Ɐ"}}
	p := pairs[sym.Choose("pair", len(pairs))]
	if sym.Choose("swap", 2) == 1 {
		p[0], p[1] = p[1], p[0]
	}
	pattern := strings.ReplaceAll([]string{"/@", "/a@b", "/x/@/{v}", "/@*", "/*@/y", "/a?@", "/{v:^@+$}", "/@/**"}[sym.Choose("pattern", 8)], "@", p[0])
	path := []string{"/@", "/a@b", "/x/@/@", "/@@", "/b@/y", "/ab@", "/@@@", "/@/a/@"}[sym.Choose("path", 8)]
	t := kit.NewTable(true, pattern)
	t.Get(strings.ReplaceAll(path, "@", p[0]))
	first := t.Hit
	t.Get(strings.ReplaceAll(path, "@", p[1]))
	sym.Observe("hit", first)
	sym.Reach("letters")
	sym.Assert(t.Hit == first, "the letter case of the path does not change the chosen route, in any alphabet")
}

// HarnessConfig: the mode is the one the configuration asks for.
func HarnessConfig() {
	fold := sym.Choose("fold", 2) == 1
	m, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: fold, ErrLogFunc: func(error) {}})
	sym.Assert(err == nil, "the router is created")
	hit := -1
	for i, p := range []string{"/ab/{x}", "/a*", "/{v:^b$}"} {
		i := i
		m.HandleGet(p, kit.Handle(func(path.MatchingContext) { hit = i }))
	}
	sub := m.RouteUsingPathPrefix("/Sub")
	sub.HandleGet("/q", kit.Handle(func(path.MatchingContext) { hit = 3 }))
	p := []string{"/ab/x", "/ax", "/b", "/Sub/q"}
	q := []string{"/aB/x", "/Ax", "/B", "/sUb/q"}
	k := sym.Choose("route", 4)
	kit.Serve(m, "GET", p[k])
	sym.Assert(hit == k, "the own spelling reaches the route")
	hit = -1
	kit.Serve(m, "GET", q[k])
	sym.Reach("config")
	sym.Assert((hit == k) == fold, "another case reaches it on a case-insensitive router only")
}

// HarnessLong: long literals and routes of many segments.
func HarnessLong() {
	n, k := sym.Size("size", []int{20, 64, 300}, 300, "router/path"), []int{1, 5, 19}[sym.Choose("segments", 3)]
	fold := sym.Choose("fold", 2) == 1
	seg := strings.Repeat("aBcD", n)[:n]
	lits := make([]string, k)
	for i := range lits {
		lits[i] = seg + fmt.Sprint(i)
	}
	wild := sym.Choose("wild", 3)
	ps := append([]string(nil), lits...)
	switch wild {
	case 1:
		ps[k-1] = ps[k-1] + "*"
	case 2:
		ps[0] = "{v:^" + ps[0] + "$}"
	}
	at, pos := []int{0, k / 2, k - 1}[sym.Choose("at", 3)], []int{0, n / 2, n - 1}[sym.Choose("pos", 3)]
	us := append([]string(nil), lits...)
	us[at] = us[at][:pos] + sym.Text("letter", 1, "aAbBcCdD") + us[at][pos+1:]
	t := kit.NewTable(fold, kit.Join(ps))
	t.Get(kit.Join(us))
	sym.Reach("long")
	want := kit.Same(us[at][pos:pos+1], lits[at][pos:pos+1], fold)
	sym.Assert(sym.Iff(t.Hit == 0, want), "the case mode applies to every letter")
}

var names = []string{"index.html", "README.md", "API-v2", ".well-known", "favicon.ico", "App.JS", "GET", "Users", "robots.txt", "0x1F", "a%41", "en_US", "1.0.0-RC1", "Q:A"}

// recase is s with a letter in the other case, or with any other letter.
func recase(s string) string {
	b := []byte(s)
	var at []int
	for i, c := range b {
		if c|0x20 >= 'a' && c|0x20 <= 'z' {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return s
	}
	at = []int{at[0], at[len(at)/2], at[len(at)-1]}
	i := at[sym.Choose("at", 3)]
	c := sym.Text("letter", 1, "a-zA-Z")[0]
	b[i] = c
	return string(b)
}

// HarnessNames: names as sites have them, at every place of a route, asked for twice with different spellings.
func HarnessNames() {
	name := names[sym.Choose("name", len(names))]
	fold := sym.Choose("fold", 2) == 1
	shape := sym.Choose("shape", 7)
	pattern := []string{"/@", "/docs/@", "/@/{v}", "/{v}/@", "/**/@", "/x/@*", "/{v:^@$}"}[shape]
	path := []string{"/@", "/docs/@", "/@/1", "/1/@", "/1/2/@", "/x/@y", "/@"}[shape]
	re := strings.NewReplacer(".", "\\.").Replace(name)
	if pattern[len(pattern)-2:] == "$}" {
		pattern = strings.Replace(pattern, "@", re, 1)
	}
	t := kit.NewTable(fold, strings.Replace(pattern, "@", name, 1))
	own := strings.Replace(path, "@", name, 1)
	for i := 0; i < 2; i++ {
		got := name
		if sym.Choose("own", 2) == 0 {
			got = recase(name)
		}
		t.Get(strings.Replace(path, "@", got, 1))
		sym.Observe("hit", t.Hit)
		sym.Reach("named")
		want := kit.Same(got, name, fold)
		sym.Assert(sym.Iff(t.Hit == 0, want), "a name is reached by its own spelling, or any case of it on a case-insensitive router, whatever was asked before")
	}
	t.Get(own)
	sym.Assert(t.Hit == 0, "a name is reached by its own spelling")
}
