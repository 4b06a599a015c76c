// Package c13: permissions survive a round trip through text.
package c13

import (
	"github.com/ixtendio/gofre/auth"
	"strings"
	"verifharness/kit"
	"verifharness/sym"
)

func levels(s string) int {
	n := 1
	for i := 0; i < len(s); i++ {
		n = sym.IteInt(s[i] == '/', n+1, n)
	}
	return n
}

// HarnessRoundTrip: any scope of at most three levels, any 32-bit access.
func HarnessRoundTrip() {
	scope := sym.String("scope", sym.Choose("len", sym.Pick(4, 6)))
	sym.Assume(levels(scope) <= 3)
	p := auth.Permission{Scope: scope, Access: auth.Access(sym.Uint64("access"))}
	q, err := auth.ParsePermission(p.String())
	sym.Observe("ok", err == nil)
	sym.Reach("parsed")
	sym.Assert(err == nil, "the text form of a permission parses")
	sym.Assert(q.Scope == p.Scope, "the scope survives the round trip")
	sym.Assert(q.Access == p.Access, "the access survives the round trip")
}

// HarnessReject: arbitrary text.
func HarnessReject() {
	if sym.Choose("alphabet", 2) == 0 {
		check(sym.String("text", sym.Choose("len", sym.Pick(3, 4))))
		return
	}
	check(sym.Text("text", sym.Choose("len", sym.Pick(6, 8)), ":/09a"))
}

// HarnessRejectDigits: long digit tails, around the 32-bit limit.
func HarnessRejectDigits() {
	if sym.Choose("any byte", 2) == 1 {
		switch sym.Choose("where", 3) {
		case 0:
			check("a:" + sym.String("access", 1+sym.Choose("bytes", sym.Pick(2, 3))))
		case 1:
			check("a:1" + sym.String("end", 1+sym.Choose("bytes", sym.Pick(1, 2))))
		case 2:
			check("a:" + sym.String("start", 1+sym.Choose("bytes", sym.Pick(1, 2))) + "1")
		}
		return
	}
	if sym.Choose("near the limit", 2) == 1 {
		check("a:4294" + sym.Text("digits", 5+sym.Choose("n", 3), "0-9"))
		return
	}
	check("a:" + sym.Text("digits", sym.Choose("n", sym.Pick(5, 9)), "0-9") + sym.Text("tail", sym.Choose("t", 2), "0-9x+ -"))
}

func check(s string) {
	p, err := auth.ParsePermission(s)
	sym.Observe("ok", err == nil)
	// reference
	last := -1
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == ':' {
			last = i
			break
		}
	}
	ok := last >= 0 && last < len(s)-1
	var acc uint64
	if ok {
		digits := true
		for i := last + 1; i < len(s); i++ {
			digits = sym.And(digits, sym.And(s[i] >= '0', s[i] <= '9'))
		}
		if !digits {
			ok = false
		} else {
			// drop leading zeros, then at most 10 digits can fit
			for i := last + 1; i < len(s); i++ {
				acc = acc*10 + uint64(s[i]-'0')
			}
			ok = sym.And(acc <= 0xffffffff, levels(s[:last]) <= 3)
		}
	}
	if ok {
		sym.Reach("valid")
		sym.Assert(err == nil, "valid text is accepted")
		sym.Assert(p.Scope == s[:last], "the scope is the text before the last colon")
		sym.Assert(uint64(p.Access) == acc, "the access is the number after the last colon")
	} else {
		sym.Reach("invalid")
		sym.Assert(err != nil, "invalid text is rejected")
	}
}

// HarnessSeparator: the same with another separator of levels.
func HarnessSeparator() {
	seps := []rune{'.', '|', 'é'}
	sep := seps[sym.Choose("separator", len(seps))]
	auth.ScopeSeparator = sep
	defer func() { auth.ScopeSeparator = '/' }()
	n := sym.Choose("levels", 4)
	scope := ""
	for i := 0; i <= n; i++ {
		if i > 0 {
			scope += string(sep)
		}
		scope += sym.Text("word", sym.Choose("len", 2), "a/:9")
	}
	p := auth.Permission{Scope: scope, Access: auth.Access(sym.Int("access", 0, 99))}
	q, err := auth.ParsePermission(p.String())
	sym.Reach("parsed")
	if n > 2 {
		sym.Assert(err != nil, "more than three levels are rejected")
	} else {
		sym.Assert(err == nil && q.Scope == scope && q.Access == p.Access, "the permission survives the round trip")
	}
}

// HarnessLong: long names of levels.
func HarnessLong() {
	n := sym.Size("size", []int{64, 255, 1025, 4097}, 5000, "auth")
	levels := []string{"a", "b", "c"}[:1+sym.Choose("levels", 3)]
	levels[sym.Choose("level", len(levels))] = kit.Long("scope", n)
	p := auth.Permission{Scope: strings.Join(levels, "/"), Access: auth.Access([]uint64{0, 1, 511, 1 << 31, 1<<32 - 1}[sym.Choose("access", 5)])}
	q, err := auth.ParsePermission(p.String())
	sym.Reach("parsed")
	sym.Assert(err == nil && q.Scope == p.Scope && q.Access == p.Access, "a permission survives the round trip, however long its scope")
	r, err := auth.NewPermission(p.Scope, p.Access)
	sym.Assert(err == nil && r.Scope == p.Scope && r.Access == p.Access, "and is accepted")
	_, err = auth.ParsePermission("a/b/c/" + p.String())
	sym.Assert(err != nil, "more levels are refused")
}
