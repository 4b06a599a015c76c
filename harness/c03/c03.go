// Package c03: the most specific pattern wins, in any registration order.
package c03

import (
	"fmt"
	"strings"

	"verifharness/kit"
	"verifharness/sym"
)

// check sends the same request to routers with the patterns registered in different orders.
func check(fold bool, ps []string, segs []string, orders [][]int) {
	p := kit.Join(segs)
	winner := -2
	for _, o := range orders {
		t := &kit.Table{}
		*t = *kit.NewTable(fold)
		refused := false
		for _, i := range o {
			n := len(t.Refused)
			t.Add(i, ps[i])
			refused = refused || t.Refused[n]
		}
		if refused {
			return // two patterns of the same shape (C06)
		}
		t.Get(p)
		if winner == -2 {
			winner = t.Hit
			sym.Observe("hit", winner)
			sym.Reach("chosen")
			if winner < 0 {
				return
			}
			w := kit.ParsePattern(ps[winner])
			for i := range ps {
				s := kit.ParsePattern(ps[i])
				if i != winner && kit.MoreSpecific(s, w) {
					sym.Assert(sym.Not(kit.Matches(s, segs, fold)), "no more specific pattern matches than the chosen one")
				}
			}
		} else {
			sym.Assert(t.Hit == winner, "the choice does not depend on the order of registration")
		}
	}
}

var two = [][]int{{0, 1}, {1, 0}}

// HarnessTwo: two patterns of any shape.
func HarnessTwo() {
	m := []string{"a", "{v}", "{v:^[ab]$}", "a*", "*", "**"}
	p, q := kit.Pattern("p", sym.Pick(2, 3), m), kit.Pattern("q", 3, m)
	check(false, []string{p, q}, kit.Path(1+sym.Choose("n", 3), 1, "ab"), two)
}

// HarnessFive: patterns that overlap on the same position, any four of them, several orders.
func HarnessFive() {
	sets := [][]string{
		{"/a*/x", "/*b/{y}", "/a*/{z}", "/*b/x"},
		{"/a/b/c", "/a/{x}/c", "/{y}/b/c", "/a/*/c"},
		{"/a/**", "/a/**/c", "/**/c", "/a/{v}/c"},
		{"/{v:^[ab]$}/x", "/{w:^[bc]+$}/x", "/{v:^[ab]$}/{y}", "/{u}/x"},
		{"/b?/x/{y}", "/?b/x/b", "/b?/{z}/b", "/*/x/b"},
		{"/**/a/{x}", "/**/a/b", "/**/{y}/b", "/a/**"},
		{"/a/{x}/**", "/a/b/**", "/a/*/b", "/*/b/b"},
		{"/a", "/{x}", "/*", "/**"},
		{"/a*", "/a*b", "/*b", "/ab"},
		{"/?*/x", "/*?/{y}", "/*/x", "/{v}/*"},
		{"/*/a", "/*?/**", "/?*/*", "/**/a"},
		{"/?/{x}", "/*/b", "/??/*", "/*b*/**"},
	}
	orders := [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}, {2, 0, 3, 1}}
	if sym.Thorough() {
		orders = permutations(4)
	}
	set := sets[sym.Choose("set", len(sets))]
	check(false, set, kit.Path(1+sym.Choose("n", sym.Pick(3, 4)), sym.Pick(2, 2), "abx"), orders)
}

// HarnessTables: the sets of C02.
func HarnessTables() {
	set := kit.Tables[sym.Choose("table", len(kit.Tables))]
	up := make([]int, len(set))
	down := make([]int, len(set))
	for i := range set {
		up[i], down[i] = i, len(set)-1-i
	}
	check(sym.Choose("fold", 2) == 1, set, kit.Path(1+sym.Choose("n", sym.Pick(4, 6)), 1, "abcd"), [][]int{up, down})
}

// HarnessThree: three patterns from a list.
func HarnessThree() {
	list := []string{"/a/b", "/a/{v}", "/{v}/b", "/a/**", "/**/b", "/*/b", "/a*/b", "/*a/b", "/a/**/b", "/{v:^a$}/b", "/{v:^[ab]$}/b", "/{v:^[ab]$}/{w}", "/a/*", "/a/b*"}
	if !sym.Thorough() {
		list = list[:11]
	}
	var ps []string
	for i, last := 0, -1; i < 3; i++ {
		k := sym.Choose("pattern", len(list))
		sym.Assume(k > last)
		last = k
		ps = append(ps, list[k])
	}
	orders := permutations(3)
	if !sym.Thorough() {
		orders = [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}}
	}
	check(false, ps, kit.Path(1+sym.Choose("n", sym.Pick(2, 3)), 1, "abc"), orders)
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var r [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

// HarnessMany: dozens of patterns next to each other, registered in several orders.
func HarnessMany() {
	n := sym.Size("patterns", []int{4, 13, 24}, 24, "router/path", "router")
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, []string{
			fmt.Sprintf("/a/s%02d", i/4),
			fmt.Sprintf("/a/s%02d*", i/4),
			fmt.Sprintf("/a/{v:^s%02d$}", i/4),
			fmt.Sprintf("/{w}/s%02d", i/4),
		}[i%4])
	}
	ps = append(ps, "/a/{u}", "/**", "/a/*", "/*/{x}")
	up, down, mixed := make([]int, len(ps)), make([]int, len(ps)), make([]int, len(ps))
	for i := range ps {
		up[i], down[i] = i, len(ps)-1-i
		mixed[i] = (i*[]int{5, 7}[btoi(len(ps)%5 == 0)] + 3) % len(ps)
	}
	check(false, ps, []string{[]string{"a", "b"}[sym.Choose("first", 2)], "s0" + sym.Text("digit", 1, "0-9")}, [][]int{up, down, mixed})
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// HarnessHistory: more and less specific routes registered between requests.
func HarnessHistory() {
	list := []string{"/a/b", "/a/{v}", "/{v}/b", "/{v:.*}/b", "/a/{v:^[ab]$}", "/a/b*", "/a/*", "/*/b", "/a/**", "/**"}
	t := kit.NewTable(sym.Choose("fold", 2) == 1)
	segs := kit.Path(2, 1, "ab")
	last := -1
	for i := 0; i < 3; i++ {
		k := sym.Choose("pattern", len(list))
		sym.Assume(k != last)
		last = k
		t.Add(i, list[k])
		if t.Refused[i] {
			return
		}
		t.Get(kit.Join(segs))
		sym.Observe("hit", t.Hit)
		sym.Reach("chosen")
		if t.Hit < 0 {
			continue
		}
		for j := 0; j <= i; j++ {
			if j != t.Hit && kit.MoreSpecific(t.Segs[j], t.Segs[t.Hit]) {
				sym.Assert(sym.Not(kit.Matches(t.Segs[j], segs, t.Fold)), "no more specific pattern matches than the chosen one, also when it was registered after a request")
			}
		}
	}
}

// HarnessConstraints: a constrained variable beats a plain one and a wildcard, whatever its expression accepts.
func HarnessConstraints() {
	list := []string{".*", ".+", "^.*$", ".", "", `\w+`, "^a", "b$", "^.+$", `[^x]*`, "a*", "(.*)", "a|.*"}
	c := "{v:" + list[sym.Choose("constraint", len(list))] + "}"
	other := []string{"{v}", "{w}", "a*", "*", "**", "?"}[sym.Choose("other", 6)]
	shape := []string{"/@", "/a/@", "/@/b", "/a/@/b"}[sym.Choose("shape", 4)]
	if c == "{v:}" {
		c = "{v: *}"
	}
	ps := []string{strings.Replace(shape, "@", c, 1), strings.Replace(shape, "@", other, 1)}
	path := strings.Replace(shape, "@", sym.Text("segment", 1+sym.Choose("len", sym.Pick(2, 3)), "ab1"), 1)
	segs := strings.Split(path[1:], "/")
	fold := sym.Choose("fold", 2) == 1
	for _, o := range two {
		t := kit.NewTable(fold)
		for _, i := range o {
			n := len(t.Refused)
			t.Add(i, ps[i])
			sym.Assert(!t.Refused[n], "a constrained variable beside another segment is no duplicate")
		}
		t.Get(kit.Join(segs))
		sym.Reach("constrained")
		sym.Assert(sym.Iff(t.Hit == 0, kit.Matches(kit.ParsePattern(ps[0]), segs, fold)), "a constrained variable that accepts the segment is chosen")
	}
}
