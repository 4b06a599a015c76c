// Package c11: a permission grants exactly its own scope and accesses.
package c11

import (
	"strings"

	"github.com/ixtendio/gofre/auth"
	"verifharness/sym"
)

// covers is the reference: level by level, '*' covers one level, a final '*' all deeper ones.
func covers(p, q string) bool {
	pl := strings.Split(p, "/")
	ql := strings.Split(q, "/")
	for i, l := range pl {
		if i >= len(ql) {
			return false
		}
		if l == "*" {
			if i == len(pl)-1 {
				return true
			}
			continue
		}
		if l != ql[i] {
			return false
		}
	}
	return len(pl) == len(ql)
}

func noStar(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, s[i] != '*')
	}
	return ok
}

// HarnessImplies: arbitrary scopes and access words.
func HarnessImplies() {
	max := sym.Pick(4, 6)
	p := sym.String("p", sym.Choose("plen", max+1))
	q := sym.String("q", sym.Choose("qlen", max+1))
	sym.Assume(noStar(q))
	pa := auth.Access(sym.Uint64("pa"))
	qa := auth.Access(sym.Uint64("qa"))
	got := auth.Permission{Scope: p, Access: pa}.Implies(auth.Permission{Scope: q, Access: qa})
	sym.Observe("got", got)
	bits := pa&qa == qa
	if covers(p, q) {
		sym.Reach("covered")
		sym.Assert(sym.Iff(got, bits), "a covering scope grants exactly the accesses it carries")
	} else {
		sym.Reach("not covered")
		sym.Assert(!got, "a scope that does not cover must not grant")
	}
}

// HarnessAll: the permission for everything grants every known access to any scope, and no other access.
func HarnessAll() {
	all := auth.AllPermissions()
	known := []auth.Access{auth.AccessRead, auth.AccessCreate, auth.AccessUpdate, auth.AccessDelete, auth.AccessAdd, auth.AccessRemove, auth.AccessDisable, auth.AccessEnable, auth.AccessApprove}
	var mask auth.Access
	for i, a := range known {
		sym.Assert(a != 0 && a&(a-1) == 0 && mask&a == 0, "the accesses are separate")
		mask |= a
		for _, b := range known[:i] {
			sym.Assert(!(auth.Permission{Scope: "*", Access: b}).Implies(auth.Permission{Scope: "x", Access: a}), "one access does not grant another")
		}
	}
	q := sym.String("q", sym.Choose("qlen", sym.Pick(4, 6)))
	sym.Assume(noStar(q))
	qa := auth.Access(sym.Uint64("qa"))
	got := all.Implies(auth.Permission{Scope: q, Access: qa})
	sym.Reach("asked")
	sym.Assert(sym.Iff(got, qa&^mask == 0), "every known access to any scope")
	sym.Assert(auth.AccessAll() == mask, "all the known accesses")
}

// HarnessSeparator: an application can choose another separator of the levels.
func HarnessSeparator() {
	seps := []rune{'.', '|', 'é', ':', '-'}
	sep := seps[sym.Choose("separator", len(seps))]
	auth.ScopeSeparator = sep
	defer func() { auth.ScopeSeparator = '/' }()
	word := func(name string, letters string) (string, string) {
		n := 1 + sym.Choose(name+"-levels", 3)
		var here, plain string
		for i := 0; i < n; i++ {
			if i > 0 {
				here, plain = here+string(sep), plain+"/"
			}
			// a slash is a letter like any other
			w := sym.Text(name, 1, letters)
			here += w
			if w == "/" {
				w = "s"
			}
			plain += w
		}
		return here, plain
	}
	p, pp := word("p", "ab*/")
	q, qq := word("q", "ab/")
	a := auth.Access(sym.Uint64("a"))
	one, err := auth.NewPermission(p, a)
	sym.Assert(err == nil, "up to three levels are accepted")
	_, err = auth.NewPermission(p+string(sep)+"x"+string(sep)+"y"+string(sep), a)
	sym.Assert(err != nil, "four levels are refused")
	sym.Reach("asked")
	sym.Assert(one.Implies(auth.Permission{Scope: q, Access: a}) == covers(pp, qq), "levels are separated by the chosen separator")
}

// HarnessDeep: scopes of many levels and long names.
func HarnessDeep() {
	n := sym.Size("levels", []int{3, 8, 40}, 70, "auth")
	size := sym.Size("size", []int{1, 40, 300}, 300, "auth")
	pl, ql := make([]string, n), make([]string, n)
	for i := range pl {
		pl[i] = strings.Repeat("n", size) + string(rune('a'+i%26))
		ql[i] = pl[i]
	}
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	pl[at] = []string{pl[at], "*", strings.Repeat("n", size-1) + sym.Text("p", 1, "nm*") + "a"}[sym.Choose("level", 3)]
	at = []int{0, n / 2, n - 1}[sym.Choose("other", 3)]
	ql[at] = ql[at][:size] + sym.Text("q", 1, "a-z")
	switch sym.Choose("length", 5) {
	case 1:
		pl = append(pl, "*")
	case 2:
		ql = append(ql, "more")
	case 3:
		pl = pl[:n-1]
	case 4:
		ql = append(ql, "more", "levels")
		pl = append(pl, "*")
	}
	a := auth.Access(sym.Uint64("pa"))
	b := auth.Access(sym.Uint64("qa"))
	p, q := strings.Join(pl, "/"), strings.Join(ql, "/")
	got := auth.Permission{Scope: p, Access: a}.Implies(auth.Permission{Scope: q, Access: b})
	sym.Reach("asked")
	if covers(p, q) {
		sym.Assert(sym.Iff(got, a&b == b), "a covering scope grants exactly the accesses it carries, however many levels it has")
	} else {
		sym.Assert(!got, "a scope that does not cover must not grant")
	}
}

// HarnessHistory: several questions; each is answered by itself.
func HarnessHistory() {
	scopes := []string{"a/b", "a/*", "*", "A/b", "a/b/c", "*/b"}
	for i, n := 0, sym.Pick(3, 4); i < n; i++ {
		p := auth.Permission{Scope: scopes[sym.Choose("p", len(scopes))], Access: auth.Access(sym.Uint64("pa"))}
		q := auth.Permission{Scope: []string{"a/b", "A/b", "a/b/c"}[sym.Choose("q", sym.Pick(2, 3))], Access: auth.Access(sym.Uint64("qa"))}
		got := p.Implies(q)
		sym.Reach("asked")
		if covers(p.Scope, q.Scope) {
			sym.Assert(sym.Iff(got, p.Access&q.Access == q.Access), "a covering scope grants exactly the accesses it carries")
		} else {
			sym.Assert(!got, "a scope that does not cover must not grant")
		}
	}
}
