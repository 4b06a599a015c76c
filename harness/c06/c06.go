// Package c06: bad or duplicate routes are refused at registration.
package c06

import (
	"fmt"
	"regexp"
	"strings"

	"verifharness/kit"
	"verifharness/sym"
)

const (
	bad = iota
	good
	unspecified
)

// judge is the reference for a single pattern.
func judge(p string, fold bool) int {
	if p == "" || p[0] != '/' {
		return bad
	}
	if p == "/" {
		return good
	}
	body := p[1:]
	if strings.HasSuffix(body, "/") {
		body = body[:len(body)-1]
	}
	r := good
	last := ""
	for _, s := range strings.Split(body, "/") {
		if s == "" {
			return bad
		}
		if s == "**" && last == "**" {
			return bad
		}
		last = s
		open, closed := s[0] == '{', s[len(s)-1] == '}'
		if open != closed {
			return bad
		}
		if s == "{" || s == "}" {
			return bad
		}
		if open {
			in := s[1 : len(s)-1]
			i := strings.IndexByte(in, ':')
			if in == "" || i == 0 || i == len(in)-1 {
				return bad
			}
			if i > 0 {
				if _, err := regexp.Compile(in[i+1:]); err != nil {
					return bad
				}
			}
			if strings.Contains(in, "**") || strings.HasSuffix(in, ":") {
				r = unspecified
			}
			continue
		}
		if s != "**" && strings.Contains(s, "**") {
			r = unspecified
		}
	}
	return r
}

// HarnessOne: every short pattern over the characters that matter.
func HarnessOne() {
	fold := sym.Choose("fold", 2) == 1
	alphabet := "/a*{}:"
	n := sym.Choose("len", sym.Pick(6, 7))
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[sym.Choose("byte", len(alphabet))]
	}
	p := string(b)
	one(p, fold)
}

func one(p string, fold bool) {
	t := kit.NewTable(fold, p)
	sym.Observe("refused", t.Refused[0])
	sym.Reach("registered")
	switch judge(p, fold) {
	case bad:
		sym.Assert(t.Refused[0], "a malformed pattern is refused")
	case good:
		sym.Assert(!t.Refused[0], "a well-formed pattern is accepted")
	}
}

// HarnessSegments: patterns made of whole segments, with the request that reaches them.
func HarnessSegments() {
	fold := sym.Choose("fold", 2) == 1
	menu := []string{"a", "{x}", "{x:^a$}", "{x:^[bc]+$}", "a?", "*b", "*", "**", "", "{}", "{x", "x}", "{x:}", "{:a}", "{x:(}", "{x:[}", "{x:a**}"}
	example := []string{"a", "v", "a", "bc", "ax", "yb", "q", "r/s"}
	n := 1 + sym.Choose("segments", sym.Pick(3, 4))
	p, path := "", ""
	ok := true
	last := -1
	for i := 0; i < n; i++ {
		k := sym.Choose("segment", len(menu))
		if n == 3 && !sym.Thorough() && i == 1 && k > 0 && k < 7 {
			sym.Assume(false)
		}
		p += "/" + menu[k]
		if k >= len(example) || (menu[k] == "**" && last == k) {
			ok = false
			if k == 8 && i == n-1 && i > 0 {
				ok = ok || judge(p, fold) == good // a trailing slash
				path += "/"
			}
		} else {
			path += "/" + example[k]
		}
		last = k
	}
	if strings.HasSuffix(p, "/") {
		one(p, fold)
		return
	}
	t := kit.NewTable(fold, p)
	sym.Observe("refused", t.Refused[0])
	sym.Reach("registered")
	sym.Assert(t.Refused[0] == !ok, "exactly the malformed patterns are refused")
	if ok {
		t.Get(path)
		sym.Assert(t.Hit == 0, "an accepted pattern is reachable")
	}
}

// HarnessStart: patterns that do not start with a slash.
func HarnessStart() {
	p := sym.String("pattern", sym.Choose("len", sym.Pick(3, 4)))
	sym.Assume(len(p) == 0 || p[0] != '/')
	t := kit.NewTable(false, p)
	sym.Observe("refused", t.Refused[0])
	sym.Reach("registered")
	sym.Assert(t.Refused[0], "a pattern that does not start with / is refused")
}

// HarnessTwo: a second pattern is refused exactly when it has the shape of the first.
func HarnessTwo() {
	fold := sym.Choose("fold", 2) == 1
	menu := []string{"a", "A", "{x}", "{y}", "{x:^a$}", "{y:^a$}", "{x:^[ab]$}", "a*", "A*", "*", "**"}
	if !sym.Thorough() {
		menu = []string{"a", "A", "{x}", "{y:^a$}", "{z:^a$}", "{x:^[ab]$}", "a*", "A*", "*", "**"}
	}
	n := sym.Pick(2, 3)
	p, q := pattern("p", n, menu), pattern("q", 2, menu)
	t := kit.NewTable(fold, p, q)
	sym.Observe("refused", t.Refused[1])
	sym.Reach("two")
	same := kit.SameShape(kit.ParsePattern(p), kit.ParsePattern(q), fold)
	sym.Assert(!t.Refused[0], "the first pattern is accepted")
	sym.Assert(t.Refused[1] == same, "the second pattern is refused exactly when it has the shape of the first")
}

func pattern(name string, n int, menu []string) string {
	k := 1 + sym.Choose(name+".segments", n)
	p, last := "", ""
	for i := 0; i < k; i++ {
		s := menu[sym.Choose(name, len(menu))]
		if s == "**" && last == s {
			sym.Assume(false)
		}
		last = s
		p += "/" + s
	}
	return p
}

// HarnessThree: duplicates are found whatever was registered before, in every order.
func HarnessThree() {
	list := []string{"/", "/a", "/a/", "/a/{x}", "/a/{y}/", "/a/{x:^a$}", "/a/{y:^a$}", "/a/b", "/**", "/a/**", "/a/**/b", "/a/{z}/b", "/a/{x:^a$}/b", "/a/{w}/b", "/a/{q:^a$}/b"}
	n := 3
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, list[sym.Choose("pattern", len(list))])
	}
	t := kit.NewTable(false, ps...)
	sym.Reach("three")
	for i := range ps {
		dup := false
		for j := 0; j < i; j++ {
			if !t.Refused[j] && kit.SameShape(kit.ParsePattern(ps[i]), kit.ParsePattern(ps[j]), false) {
				dup = true
			}
		}
		sym.Assert(t.Refused[i] == dup, "a pattern is refused exactly when one of its shape is registered")
	}
	// a refused registration leaves the table as it was
	for i := range ps {
		if t.Refused[i] {
			continue
		}
		path := ps[i]
		for _, s := range [][2]string{{"{x}", "v"}, {"{y}", "v"}, {"{z}", "v"}, {"{w}", "v"}, {"{x:^a$}", "a"}, {"{y:^a$}", "a"}, {"{q:^a$}", "a"}, {"**", "s/t"}} {
			path = strings.ReplaceAll(path, s[0], s[1])
		}
		t.Get(path)
		sym.Assert(t.Hit == i, "an accepted pattern is reachable by a request only it describes best")
	}
}

// HarnessMany: patterns with many segments or many greedy segments are accepted in bounded time.
func HarnessMany() {
	n := 1 + sym.Choose("n", 24)
	unit := []string{"/a", "/{v}", "/a/**", "/**/a", "/*/**", "/a*"}[sym.Choose("unit", 6)]
	end := []string{"", "/z", "/**"}[sym.Choose("end", 3)]
	if strings.HasSuffix(unit, "**") && end == "/**" {
		end = ""
	}
	p := strings.Repeat(unit, n) + end
	t := kit.NewTable(false, p)
	sym.Reach("many")
	sym.Assert(!t.Refused[0], "a long pattern is accepted")
	min := len(kit.ParsePattern(p)) - strings.Count(p, "/**/")
	if min <= 19 {
		path := strings.ReplaceAll(p, "/**/", "/")
		path = strings.ReplaceAll(path, "/**/", "/")
		path = strings.NewReplacer("**", "q", "{v}", "q", "a*", "a", "*", "q").Replace(path)
		t.Get(path)
		sym.Assert(t.Hit == 0, "a long pattern is reachable")
	}
}

// HarnessVeryLong: a pattern that no request can match is not taken for another one.
func HarnessVeryLong() {
	n := []int{20, 127, 128, 254, 255, 256, 257, 300, 512}[sym.Choose("n", 9)]
	t := kit.NewTable(false, strings.Repeat([]string{"/a", "/{v}"}[sym.Choose("unit", 2)], n))
	sym.Reach("very long")
	for _, p := range []string{"/", "/a", "/a/a", "/" + sym.Text("seg", 1, "a-c")} {
		t.Get(p)
		sym.Assert(t.Hit == -1, "a pattern of more than 19 segments matches no request")
	}
}

// HarnessAmong: a duplicate is found among dozens of patterns, and nothing else is taken for one.
func HarnessAmong() {
	n := sym.Size("patterns", []int{5, 20, 50}, 50, "router/path", "router")
	kinds := []string{"/a/s%02d/x", "/a/s%02d*/x", "/a/{v:^s%02d$}/x", "/s%02d/{v}", "/{v}/**/s%02d", "/s%02d/{v}/{w}/**"}
	again := []string{"/a/s%02d/x/", "/a/s%02d*/x", "/a/{w:^s%02d$}/x", "/s%02d/{x}", "/{x}/**/s%02d", "/s%02d/{w}/{v}/**"}
	k := sym.Choose("kind", len(kinds))
	mixed := sym.Choose("mixed", 2) == 1
	kind := func(i int) int {
		if mixed {
			return (k + i) % len(kinds)
		}
		return k
	}
	t := kit.NewTable(sym.Choose("fold", 2) == 1)
	for i := 0; i < n; i++ {
		t.Add(i, fmt.Sprintf(kinds[kind(i)], i))
		sym.Assert(!t.Refused[i], "different patterns are accepted")
	}
	at := []int{0, 1, n / 2, n - 1}[sym.Choose("again", 4)]
	t.Add(n, fmt.Sprintf(again[kind(at)], at))
	sym.Reach("again")
	sym.Assert(t.Refused[n], "a pattern of the shape of a registered one is refused")
	t.Add(n+1, fmt.Sprintf(again[kind(at)], n))
	sym.Assert(!t.Refused[n+1], "a pattern of another shape is accepted")
	w := fmt.Sprintf([]string{"/a/s%02d/x", "/a/s%02dq/x", "/a/s%02d/x", "/s%02d/q", "/q/s%02d", "/s%02d/q/q/q"}[kind(at)], at)
	t.Get(w)
	sym.Assert(t.Hit == at, "the pattern registered first stays reachable")
}

// HarnessHistory: duplicates and invalid patterns are refused also between requests, and leave the routes as they are.
func HarnessHistory() {
	fold := sym.Choose("fold", 2) == 1
	first := []string{"/a/{v}", "/a/b", "/{v:^a$}/b", "/a*/b", "/**/b", "/"}
	menu := []string{"/a/{w}/", "/A/b", "/{u:^a$}/b", "/a*/b", "/**/b/", "/", "/a/{v", "//a", "/x", "x", "/a/{:^a$}"}
	t := kit.NewTable(fold, first[sym.Choose("first", len(first))])
	u := "/a/" + sym.Text("seg", 1, "bc")
	t.Get(u)
	before := t.Hit
	for i := 0; i < 2; i++ {
		q := menu[sym.Choose("again", len(menu))]
		want := false
		switch judge(q, fold) {
		case 0:
			want = true
		case 1:
		default:
			sym.Assume(false)
		}
		for j := range t.Segs {
			if !want && !t.Refused[j] && kit.SameShape(t.Segs[j], kit.ParsePattern(q), fold) {
				want = true
			}
		}
		n := len(t.Refused)
		t.Add(n, q)
		sym.Reach("again")
		sym.Assert(t.Refused[n] == want, "a pattern is refused exactly when it is invalid or one of its shape is registered, also after requests")
		t.Get(u)
		if want {
			sym.Assert(t.Hit == before, "a refused registration leaves the routes as they are")
		}
		before = t.Hit
	}
}

// orbits are groups of letters that differ in case alone, also those with more than two members.
var orbits = [][]string{{"s", "S", "ſ"}, {"k", "K", "\u212a"}, {"σ", "ς", "Σ"}, {"å", "Å", "\u212b"}, {"µ", "μ", "Μ"}, {"ß", "ẞ"}, {"θ", "ϑ", "Θ", "ϴ"}, {"ǆ", "ǅ", "Ǆ"}, {"ι", "Ι", "\u0345", "\u1fbe"}, {"в", "В", "ᲀ"}, {"i", "I"}, {"ı"}, {"İ"}, {"\u00e9", "\u00c9"}, {"e\u0301"}, {"e"}, {"SS"}, {"fi"}, {"\ufb01"}}

func orbit(name string) (int, string) {
	o := sym.Choose(name, len(orbits))
	return o, orbits[o][sym.Choose(name+".member", len(orbits[o]))]
}

// HarnessFold: what differs in case alone is a duplicate for a case-insensitive router, for every letter, and reached by
// the same requests.
func HarnessFold() {
	fold := sym.Choose("fold", 2) == 1
	oa, a := orbit("a")
	ob, b := oa, a
	if sym.Choose("near", 2) == 0 {
		b = orbits[oa][sym.Choose("other", len(orbits[oa]))]
	} else {
		ob, b = orbit("b")
	}
	form := []string{"/%s", "/x%sy", "/%s*", "/?%s", "/p/%s/{v}"}[sym.Choose("form", 5)]
	t := kit.NewTable(fold, fmt.Sprintf(form, a), fmt.Sprintf(form, b))
	sym.Reach("fold")
	same := a == b || fold && oa == ob
	sym.Assert(!t.Refused[0] && t.Refused[1] == same, "patterns that differ in case alone are duplicates, exactly where case does not matter")
	ask := strings.NewReplacer("*", "z", "?", "z", "{v}", "z").Replace(fmt.Sprintf(form, b))
	t.Get(ask)
	if same {
		sym.Assert(t.Hit == 0, "and are reached by the same requests")
	} else {
		sym.Assert(t.Hit == 1 || strings.HasPrefix(b, a), "and other patterns by their own")
	}
}

// HarnessConstraints: constraints are the same when their texts are, and only then.
func HarnessConstraints() {
	fold := sym.Choose("fold", 2) == 1
	all := []string{"[a-z]", "[A-Z]", `\d`, `\D`, `\w`, `\W`, "^x$", "^X$", "x", "X", "", "a|b", "b|a", "(a)", "a", "a ", " a", "a+", "a*", "[ab]", "(?i)x", "a:b", "é", "É", "{1}", "a{1}", "^a", "a$"}
	a, b := all[sym.Choose("first", len(all))], all[sym.Choose("second", len(all))]
	k := sym.Choose("form", 3)
	form := []string{"/{%s:%s}", "/p/{%s:%s}/q", "/{%s:%s}"}[k]
	p, q := fmt.Sprintf(form, "v", a), fmt.Sprintf(form, []string{"v", "w", "V"}[k], b)
	sa, sb := judge(p, fold), judge(q, fold)
	sym.Assume(sa == good && sb == good)
	t := kit.NewTable(fold, p, q)
	sym.Reach("constraints")
	sym.Assert(!t.Refused[0], "the first pattern is accepted")
	sym.Assert(t.Refused[1] == (a == b), "the second is refused exactly when its constraint is the same")
}
