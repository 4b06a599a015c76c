// Package c04: path variables hold exactly the segments they bind.
package c04

import (
	"strings"

	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

func check(t *kit.Table, segs []string) {
	got := map[string]string{}
	clone := map[string]string{}
	t.Vars = func(mc path.MatchingContext) {
		c := mc.Clone()
		for _, s := range t.Segs[t.Hit] {
			if s.Name != "" {
				got[s.Name] = mc.PathVar(s.Name)
				clone[s.Name] = c.PathVar(s.Name)
			}
		}
		for _, name := range []string{"", "other", "*", "**", "a"} {
			sym.Assert(mc.PathVar(name) == "", "a name the pattern does not declare has no value")
		}
	}
	p := kit.Join(segs)
	if sym.Choose("slashes", 2) == 1 {
		p = strings.ReplaceAll(p, "/", "//") + "/"
	}
	t.Get(p)
	sym.Observe("hit", t.Hit)
	if t.Hit < 0 {
		return
	}
	pat := t.Segs[t.Hit]
	sym.Reach("handled")
	ok, okClone := false, false
	for _, a := range kit.Align(pat, segs, t.Fold) {
		c, cc := a.Cond, a.Cond
		for i, s := range pat {
			if s.Name != "" {
				c = sym.And(c, got[s.Name] == segs[a.Pos[i]])
				cc = sym.And(cc, clone[s.Name] == segs[a.Pos[i]])
			}
		}
		ok, okClone = sym.Or(ok, c), sym.Or(okClone, cc)
	}
	sym.Assert(ok, "the variables hold the segments at their positions")
	sym.Assert(okClone, "the variables of a copied context hold the segments at their positions")
}

// HarnessOne: one pattern of any shape with at least one variable.
func HarnessOne() {
	p := kit.Pattern("p", sym.Pick(4, 5), []string{"a", "{v}", "{v:^[bc]+$}", "*", "**"})
	sym.Assume(strings.Contains(p, "{"))
	check(kit.NewTable(false, p), kit.Path(1+sym.Choose("n", sym.Pick(4, 5)), 1, "abc"))
}

// HarnessTables: patterns whose searches have to back out of one another.
func HarnessTables() {
	tables := [][]string{
		{"/{x}/b/c", "/a/{y}/d", "/a/**/{z}"},
		{"/**/{x}/b", "/{y:^a$}/**/c", "/a/{z}/**/d"},
		{"/{x}/**/{y}", "/{z}/**/{w}/b", "/a/b/{v}/d"},
		{"/{x:^[ab]$}/b", "/{y:^[bc]+$}/{z}", "/{w}/{u}/a", "/a/{t}/{s}/b"},
		{"/*/{x}/b", "/a*/b/{y}", "/a/{z}/**", "/**/{w}/a/b"},
		{"/a/{x}/**/b/{y}", "/{z}/**/{w}/c", "/a/{v}/b/**"},
		{"/{x}", "/{x}/{y}", "/{x}/{y}/{z}", "/{a1}/{b1}/{c1}/{d1}"},
		{"/a/{x}/c", "/a/{y}/d", "/a/{z}/**/a"},
		{"/{x:^[:a]$}", "/{y:^b:?$}/{z:^(?:a|b)$}", "/a/{w:^c|:$}/{v}"},
	}
	fold := sym.Choose("fold", 2) == 1
	t := kit.NewTable(fold, tables[sym.Choose("table", len(tables))]...)
	n := sym.Pick(4, 6)
	if t.Patterns[0] == "/{x:^[:a]$}" {
		check(t, kit.Path(1+sym.Choose("n", 3), 2, "ab:c"))
		return
	}
	if sym.Choose("case", 2) == 1 {
		check(t, kit.Path(1+sym.Choose("n", sym.Pick(3, 4)), 1, "aABb"))
		return
	}
	check(t, kit.Path(1+sym.Choose("n", n), 1, "abcd"))
}

// HarnessLengths: segments of different lengths, arbitrary bytes in the variables.
func HarnessLengths() {
	tables := [][]string{{"/a/{x}/b/{y}"}, {"/{x}/**/b", "/{y}/c"}, {"/**/{x}"}, {"/{x}/{y}", "/{z}/**/{w}"}}
	t := kit.NewTable(false, tables[sym.Choose("table", len(tables))]...)
	n := 1 + sym.Choose("n", sym.Pick(3, 4))
	segs := make([]string, n)
	for i := range segs {
		segs[i] = sym.String("seg", 1+sym.Choose("len", 2))
		for j := 0; j < len(segs[i]); j++ {
			sym.Assume(segs[i][j] != '/')
		}
		sym.Assume(segs[i] != "..")
	}
	check(t, segs)
}

// HarnessMany: nineteen variables.
func HarnessMany() {
	p := ""
	names := "abcdefghijklmnopqrs"
	for i := 0; i < 19; i++ {
		p += "/{v" + names[i:i+1] + "}"
	}
	tables := [][]string{{p}, {"/{x}/**/{y}"}, {"/**/{x}/{y}"}, {"/{x}/{y}/**"}}
	t := kit.NewTable(false, tables[sym.Choose("table", len(tables))]...)
	segs := make([]string, 17+sym.Choose("n", 3))
	for i := range segs {
		segs[i] = sym.Text("seg", 1+i%3, "a-z")
	}
	check(t, segs)
}

// HarnessHistory: several requests to one table; each gets its own variables.
func HarnessHistory() {
	tables := [][]string{{"/{x}/b", "/a/{y}", "/{z}"}, {"/{x}/**", "/a/**/{y}"}, {"/{x}/{y}", "/{x:^[ab]$}/{z}"}, {"/**/{w}"}}
	t := kit.NewTable(sym.Choose("fold", 2) == 1, tables[sym.Choose("table", len(tables))]...)
	for i := 0; i < sym.Pick(2, 3); i++ {
		check(t, kit.Path(1+sym.Choose("n", sym.Pick(2, 3)), 1, "aAb"))
	}
}

// HarnessNames: a variable is read under its own name and no other, whatever names stand next to it.
func HarnessNames() {
	names := []string{"id", "ID", "Id", "i", "d", "idx", "id_", "_id", "id1", "\u0131d", "x-id", "*", "id*", "i d", "\u212a", "k"}
	n1, n2 := sym.Choose("name", len(names)), sym.Choose("name", len(names))
	sym.Assume(n1 != n2)
	a, b := names[n1], names[n2]
	p := []string{"/{%}/{&}", "/{%}/**/{&}", "/{%:^[a-z]+$}/{&}", "/**/{%}/x/{&:^[a-z]+$}"}[sym.Choose("pattern", 4)]
	if strings.Contains(p, "**") && (strings.Contains(a, "*") || strings.Contains(b, "*")) {
		sym.Assume(false)
	}
	t := kit.NewTable(sym.Choose("fold", 2) == 1, strings.NewReplacer("%", a, "&", b).Replace(p))
	sym.Assert(!t.Refused[0], "any name may stand in braces")
	var ask string
	if sym.Choose("ask", 2) == 0 {
		ask = names[sym.Choose("asked", len(names))]
	} else {
		ask = sym.Text("asked", 1+sym.Choose("len", sym.Pick(2, 3)), "iIdD_1: {}")
	}
	v, w := sym.Text("v", 1, "p-q"), sym.Text("w", 1, "r-s")
	done := false
	t.Vars = func(mc path.MatchingContext) {
		done = true
		c := mc.Clone()
		got, cl := mc.PathVar(ask), c.PathVar(ask)
		ia, ib := kit.Same(ask, a, false), kit.Same(ask, b, false)
		sym.Assert(sym.Iff(got == v, ia), "the value of a variable is found under its name alone")
		sym.Assert(sym.Iff(got == w, ib), "the value of a variable is found under its name alone")
		sym.Assert(sym.Iff(got == "", sym.And(sym.Not(ia), sym.Not(ib))), "other names have no value")
		sym.Assert(got == cl, "and the same in a copy")
	}
	if strings.Contains(p, "x") {
		t.Get("/" + v + "/x/" + w)
	} else {
		t.Get("/" + v + "/" + w)
	}
	sym.Reach("names")
	sym.Assert(done, "the pattern is reached")
}
