// Package c01: wildcard segments match exactly the described language.
package c01

import (
	"strings"
	"unicode/utf8"

	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

func matches(pattern, p string, fold bool) bool {
	hit := false
	r := router.NewRouter(fold, func(error) {})
	r.Handle("GET", pattern, kit.Handle(func(path.MatchingContext) { hit = true }))
	kit.Serve(r, "GET", p)
	return hit
}

func wildcard(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[sym.Choose(name, len(alphabet))]
	}
	s := string(b)
	if s == "*" || strings.Contains(s, "**") || !strings.ContainsAny(s, "*?") {
		sym.Assume(false)
	}
	return s
}

// HarnessGlob: every wildcard text up to a length, every ASCII path segment up to a length.
func HarnessGlob() {
	fold := sym.Choose("fold", 2) == 1
	alphabet := "ab*?"
	if fold {
		alphabet = "aB*?"
	}
	p := wildcard("pattern", 1+sym.Choose("plen", sym.Pick(4, 5)), alphabet)
	u := sym.String("segment", 1+sym.Choose("len", sym.Pick(4, 6)))
	for i := 0; i < len(u); i++ {
		sym.Assume(sym.And(u[i] < 0x80, u[i] != '/'))
	}
	sym.Assume(u != "..")
	got := matches("/"+p, "/"+u, fold)
	sym.Observe("got", got)
	sym.Reach("decided")
	sym.Assert(sym.Iff(got, kit.Glob(p, u, fold)), "a wildcard segment matches exactly the texts it describes")
}

// HarnessInner: the same between other segments, where the search may come back to it.
func HarnessInner() {
	p := []string{"*a", "a*", "*a*", "?a", "a?", "*a*b", "*?", "?*a"}[sym.Choose("pattern", 8)]
	u := sym.Text("segment", 1+sym.Choose("len", sym.Pick(3, 5)), "ab")
	got := matches("/x/"+p+"/y", "/x/"+u+"/y", false)
	sym.Observe("got", got)
	sym.Reach("inner")
	sym.Assert(sym.Iff(got, kit.Glob(p, u, false)), "a wildcard segment in the middle of a route matches exactly the texts it describes")
}

// HarnessArbitrary: any bytes at all never make the decision fail to end or panic, and when they are
// text the characters decide.
func HarnessArbitrary() {
	p := []string{"*a", "a*", "*a*", "?", "??", "?a", "*é", "é*", "a*é?", "*?"}[sym.Choose("pattern", 10)]
	u := sym.String("segment", 1+sym.Choose("len", sym.Pick(2, 4)))
	for i := 0; i < len(u); i++ {
		sym.Assume(u[i] != '/')
	}
	sym.Assume(u != "..")
	arbitrary(p, u, false)
}

// HarnessArbitraryFold: bytes of broken and whole characters on a case-insensitive router.
func HarnessArbitraryFold() {
	p := []string{"*a", "A*", "*A*", "?", "??", "?a", "*É", "é*", "a*é?", "*?"}[sym.Choose("pattern", 10)]
	b := make([]byte, 1+sym.Choose("len", sym.Pick(4, 5)))
	for i := range b {
		b[i] = "aA\xc3\xa9\x89\xff"[sym.Choose("byte", 6)]
	}
	arbitrary(p, string(b), true)
}

func arbitrary(p, u string, fold bool) {
	got := matches("/"+p, "/"+u, fold)
	sym.Observe("got", got)
	sym.Reach("arbitrary")
	if utf8.ValidString(u) {
		sym.Assert(sym.Iff(got, runeGlob([]rune(p), []rune(u), fold)), "a wildcard segment matches by characters")
	}
}

// HarnessLetters: letters of other alphabets.
func HarnessLetters() {
	fold := sym.Choose("fold", 2) == 1
	ps := []string{"é*", "*É", "?é", "?", "ж?", "*Ж*", "a?é", "*題", "?é*"}
	us := []string{"é", "É", "éa", "aé", "ÉÉ", "ж", "Жж", "жЖx", "aéé", "題", "a題", "éé"}
	p, u := ps[sym.Choose("pattern", len(ps))], us[sym.Choose("segment", len(us))]
	got := matches("/"+p, "/"+u, fold)
	sym.Observe("got", got)
	sym.Reach("letters")
	sym.Assert(got == runeGlob([]rune(p), []rune(u), fold), "a wildcard segment matches by characters, not bytes")
}

// HarnessLengths: letters whose cases take a different number of bytes.
func HarnessLengths() {
	fold := sym.Choose("fold", 4) != 3
	word := func(name string, n int, from []string) string {
		s := ""
		for i := 0; i < n; i++ {
			s += from[sym.Choose(name, len(from))]
		}
		return s
	}
	p := word("pattern", 1+sym.Choose("plen", sym.Pick(2, 3)), []string{"k", "\u212a", "ß", "?", "*"})
	if p == "*" || strings.Contains(p, "**") || !strings.ContainsAny(p, "*?") {
		sym.Assume(false)
	}
	u := word("segment", 1+sym.Choose("len", 2), []string{"k", "\u212a", "\u1e9e", "x"})
	got := matches("/"+p, "/"+u, fold)
	sym.Observe("got", got)
	sym.Reach("lengths")
	sym.Assert(got == runeGlob([]rune(p), []rune(u), fold), "a wildcard segment compares characters, whatever their length in bytes")
}

func sameRune(a, b rune, fold bool) bool {
	if a == b {
		return true
	}
	return fold && strings.EqualFold(string(a), string(b))
}

func runeGlob(p, u []rune, fold bool) bool {
	if len(p) == 0 {
		return len(u) == 0
	}
	if p[0] == '*' {
		for k := 0; k <= len(u); k++ {
			if runeGlob(p[1:], u[k:], fold) {
				return true
			}
		}
		return false
	}
	if len(u) == 0 {
		return false
	}
	if p[0] != '?' && !sameRune(p[0], u[0], fold) {
		return false
	}
	return runeGlob(p[1:], u[1:], fold)
}

// HarnessLong: long literals around the wildcards, and many wildcards.
func HarnessLong() {
	n := sym.Size("size", []int{20, 64, 257, 1025}, 1100, "router/path")
	lit := strings.ReplaceAll(kit.Long("literal", n), " ", "_")
	l := []byte(lit)
	copy(l, "x")
	l[n/2], l[n-1] = 'y', 'z'
	own := string(l) // what the pattern says; the segment has letters of its own in three places
	same := own == lit
	var p, u string
	var want bool
	switch sym.Choose("shape", 7) {
	case 0:
		p, u, want = "*"+own, strings.Repeat("x", n)+lit, same
	case 1:
		p, u, want = own+"*", lit+strings.Repeat("z", n), same
	case 2:
		p, u, want = own[:n/3]+"*"+own[n/3:], lit[:n/3]+"abc"+lit[n/3:], same
	case 3:
		p, u, want = own[:n/3]+"?"+own[n/3:], lit[:n/3]+"."+lit[n/3:], same
	case 4:
		p, u, want = own+"?", lit, false
	case 5:
		p, u, want = "?"+own[1:], lit, own[1:] == lit[1:]
	case 6:
		p, u, want = strings.Repeat("*a", 20)+"*b", strings.Repeat("a", 24)+lit[:1], lit[:1] == "b"
	}
	got := matches("/"+p+"/k", "/"+u+"/k", false)
	sym.Reach("long")
	sym.Assert(sym.Iff(got, want), "a wildcard segment matches exactly the texts it describes, however long")
}

// HarnessHistory: one route asked for with several texts; each is decided by itself.
func HarnessHistory() {
	fold := sym.Choose("fold", 2) == 1
	p := []string{"*a", "A*", "*b*", "?b", "a?", "a*b*", "*?a"}[sym.Choose("pattern", 7)]
	at := []string{"/@", "/x/@/y"}[sym.Choose("at", 2)]
	hit := false
	r := router.NewRouter(fold, func(error) {})
	r.Handle("GET", strings.Replace(at, "@", p, 1), kit.Handle(func(path.MatchingContext) { hit = true }))
	for i := 0; i < 2; i++ {
		u := sym.Text("segment", 1+sym.Choose("len", sym.Pick(3, 4)), "aAbB")
		hit = false
		kit.Serve(r, "GET", strings.Replace(at, "@", u, 1))
		sym.Observe("got", hit)
		sym.Reach("decided")
		sym.Assert(sym.Iff(hit, kit.Glob(p, u, fold)), "a wildcard segment matches exactly the texts it describes, whatever was asked before")
	}
}
