// Package c02: a request reaches a handler iff a registered pattern matches it.
package c02

import (
	"fmt"
	"verifharness/kit"
	"verifharness/sym"
)

func check(t *kit.Table, segs []string) {
	w := t.Get(kit.Join(segs))
	sym.Observe("hit", t.Hit)
	any := false
	for i := range t.Segs {
		if t.Refused[i] {
			continue
		}
		m := kit.Matches(t.Segs[i], segs, t.Fold)
		any = sym.Or(any, m)
		if t.Hit == i {
			sym.Assert(m, "a handler runs only for a path its pattern matches")
		}
	}
	sym.Reach("looked up")
	if t.Hit < 0 {
		sym.Assert(sym.Not(any), "some handler is chosen whenever a registered pattern matches")
		sym.Assert(w.Status == 404, "a request nothing matches is answered 404")
	} else {
		sym.Assert(t.Hits == 1, "the handler runs once")
	}
}

var menu = []string{"a", "b", "{v}", "{v:^a$}", "a?", "a*", "*", "**"}

// HarnessOne: one pattern of any shape.
func HarnessOne() {
	p := kit.Pattern("p", sym.Pick(3, 4), menu)
	t := kit.NewTable(false, p)
	sym.Assert(!t.Refused[0], "a well-formed pattern is accepted")
	check(t, kit.Path(1+sym.Choose("n", sym.Pick(4, 5)), 1, "abc"))
}

// HarnessTwo: two patterns of any shape.
func HarnessTwo() {
	m := []string{"a", "{v}", "a*", "*", "**"}
	t := kit.NewTable(false, kit.Pattern("p", sym.Pick(2, 3), m), kit.Pattern("q", sym.Pick(3, 3), m))
	check(t, kit.Path(1+sym.Choose("n", sym.Pick(3, 4)), 1, "ab"))
}

// HarnessTables: fixed sets of up to four patterns, every path.
func HarnessTables() {
	t := kit.NewTable(false, kit.Tables[sym.Choose("table", len(kit.Tables))]...)
	check(t, kit.Path(sym.Choose("n", sym.Pick(6, 8)), 1, "abcd"))
}

// HarnessWords: longer segments, wildcards and both case modes.
func HarnessWords() {
	tables := [][]string{
		{"/ab/x", "/a?/y", "/*b/**"},
		{"/a*b/x", "/{v:^[bc]+$}/x", "/**/a*"},
		{"/AB/**/ab", "/a*/b"},
	}
	t := kit.NewTable(sym.Choose("fold", 2) == 1, tables[sym.Choose("table", len(tables))]...)
	check(t, kit.Path(1+sym.Choose("n", sym.Pick(2, 3)), sym.Pick(2, 3), "abxABc"))
}

// HarnessThree: three patterns from a list, in any order.
func HarnessThree() {
	list := []string{"/a", "/a/b", "/a/{v}", "/{v}/b", "/a/**", "/**/b", "/*/a", "/a*/b", "/a/**/b", "/{v}/a/b", "/{v:^a$}/*/c", "/*b/a", "/**/a/c"}
	if !sym.Thorough() {
		list = list[:10]
	}
	var ps []string
	for i := 0; i < 3; i++ {
		ps = append(ps, list[sym.Choose("pattern", len(list))])
	}
	check(kit.NewTable(false, ps...), kit.Path(1+sym.Choose("n", sym.Pick(3, 4)), 1, "abc"))
}

// HarnessLong: paths of up to nineteen segments.
func HarnessLong() {
	tables := [][]string{
		{"/**/z"},
		{"/a/**", "/**/a/z"},
		{"/**/a/**/z/**/a"},
		{"/{v}/**/z", "/a/**/a"},
	}
	t := kit.NewTable(false, tables[sym.Choose("table", len(tables))]...)
	n := 19 - sym.Choose("n", sym.Pick(1, 4))
	segs := make([]string, n)
	for i := range segs {
		segs[i] = "a"
	}
	for i := 0; i < sym.Pick(2, 3); i++ {
		segs[sym.Choose("where", n)] = sym.Text("seg", 1, "az")
	}
	check(t, segs)
}

// HarnessConstraints: constrained variables of many forms, any ASCII segments.
func HarnessConstraints() {
	list := []string{`\d`, `^\d+$`, `[a-z]+`, `^[^a]$`, `^a|b$`, `^(ab|b)+$`, `^a:b$`, `^[b:]+$`, `^b{2}$`, `^.$`, `\.`, `^a?b*$`, `^\w\d$`, ``, `^\D`, `[0-9a-f]{2,}`, `^a+$`, `^$`}
	c := list[sym.Choose("constraint", len(list))]
	ps := [][]string{{"/{v:" + c + "}"}, {"/{v:" + c + "}/a", "/{w}/b"}, {"/x/**/{v:" + c + "}"}}[sym.Choose("shape", 3)]
	u := sym.String("segment", 1+sym.Choose("len", sym.Pick(2, 3)))
	for i := 0; i < len(u); i++ {
		sym.Assume(sym.And(u[i] < 0x80, u[i] != '/'))
	}
	sym.Assume(u != "..")
	segs := []string{u}
	switch {
	case len(ps) == 2:
		segs = append(segs, "a")
	case ps[0][1] == 'x':
		segs = []string{"x", "a", u}
	}
	check(kit.NewTable(sym.Choose("fold", 2) == 1, ps...), segs)
}

// HarnessMany: dozens of patterns next to each other.
func HarnessMany() {
	n := sym.Size("patterns", []int{5, 17, sym.Pick(24, 40)}, 40, "router/path", "router")
	kind := sym.Choose("kind", 6)
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, []string{
			fmt.Sprintf("/a/s%02d/x", i),
			fmt.Sprintf("/a/s%02d*/x", i),
			fmt.Sprintf("/a/*%02d/{w}", i),
			fmt.Sprintf("/a/{v:^s%02d$}/x", i),
			fmt.Sprintf("/a/**/s%02d/x", i),
			fmt.Sprintf("/a/{v}/%02d/x", i),
		}[kind])
	}
	ps = append(ps, "/a/{u}/y", "/**/z")
	kit.Candidates = []string{"a", "s00", "s01", "x"}
	t := kit.NewTable(sym.Choose("fold", 2) == 1, ps...)
	for i := range ps {
		sym.Assert(!t.Refused[i], "different patterns are accepted")
	}
	d := sym.Text("digits", 2, "0-9")
	segs := []string{"a", "s" + d, "xyz"[sym.Choose("end", 3):][:1]}
	switch kind {
	case 4:
		segs = []string{"a", "b", "s" + d, segs[2]}
	case 5:
		segs = []string{"a", "b", d, segs[2]}
	}
	check(t, segs)
}

// HarnessDeep: routes of many segments.
func HarnessDeep() {
	n := sym.Size("segments", []int{5, 9, 14, 18}, 18, "router/path", "router")
	ps := make([][]string, 3)
	segs := make([]string, n)
	for i := range segs {
		s := fmt.Sprint("s", i)
		segs[i] = s
		ps[0] = append(ps[0], s)
		ps[1] = append(ps[1], []string{s, "{v" + s + "}", s[:1] + "*", "*"}[i%4])
		ps[2] = append(ps[2], s)
	}
	ps[2][n-1], ps[1][n-1] = "**", "end"
	at := []int{0, 1, n / 2, n - 2, n - 1}[sym.Choose("at", 5)]
	segs[at] = "s" + sym.Text("seg", len(segs[at])-1, "0-9")
	if sym.Choose("end", 2) == 1 {
		segs[n-1] = "end"
	}
	k := sym.Choose("length", 3)
	if k == 1 {
		segs = segs[:n-1]
	} else if k == 2 {
		segs = append(segs, "more")
	}
	check(kit.NewTable(false, kit.Join(ps[0]), kit.Join(ps[1]), kit.Join(ps[2])), segs)
}

// HarnessHistory: routes registered between requests, and the same request again.
func HarnessHistory() {
	list := []string{"/a", "/{v}", "/a/b", "/*/a", "/**", "/b*", "/{v:^a$}/b", "/"}
	kit.Candidates = []string{"/a", "/b"}
	t := kit.NewTable(sym.Choose("fold", 2) == 1)
	again := kit.Path(1+sym.Choose("n", 2), 1, "ab")
	last := -1
	for i := 0; i < sym.Pick(2, 3); i++ {
		check(t, again)
		k := sym.Choose("pattern", len(list))
		sym.Assume(k != last)
		last = k
		t.Add(i, list[k])
		check(t, again)
	}
	check(t, kit.Path(1+sym.Choose("n", 2), 1, "aB"))
}
