// Package c09: a path prefix is joined to its routes with exactly one slash.
package c09

import (
	"fmt"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// Spoken: what the property speaks of, see kit.Request.
func init() {
	kit.Spoken = []string{"provider", "state", "code", "error"}
}

// slashes decorates a name with symbolic runs of slashes.
func slashes(name, core string) string {
	if sym.Thorough() {
		return strings.Repeat("/", sym.Choose(name+".lead", 3)) + core + strings.Repeat("/", sym.Choose(name+".trail", 3))
	}
	d := [][2]string{{"/", ""}, {"", ""}, {"", "/"}, {"//", "/"}, {"/", "//"}}[sym.Choose(name+".slashes", 5)]
	return d[0] + core + d[1]
}

func comps(parts ...string) []string {
	var r []string
	for _, p := range parts {
		if t := strings.Trim(p, "/"); t != "" {
			r = append(r, strings.Split(t, "/")...)
		}
	}
	return r
}

func same(segs, want []string) bool {
	if len(segs) != len(want) {
		return false
	}
	c := true
	for i := range want {
		if !strings.HasPrefix(want[i], "{") {
			c = sym.And(c, kit.Same(segs[i], want[i], false))
		}
	}
	return c
}

// HarnessNested: handlers below nested prefixes are reached at the joined path only.
func HarnessNested() {
	root, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	sym.Assert(err == nil, "the default configuration is valid")
	m := root
	depth := 1 + sym.Choose("depth", sym.Pick(2, 3))
	cores := []string{"a", "a/b", ""}
	var parts []string
	for i := 0; i < depth; i++ {
		p := slashes(fmt.Sprintf("p%d", i), cores[sym.Choose("core", len(cores))])
		if p == "" {
			sym.Assume(false) // documented to return the router itself
		}
		parts = append(parts, p)
		m = m.RouteUsingPathPrefix(p)
	}
	qs := []string{"a", "b/{v}", "{v}", ""}
	q := slashes("q", qs[sym.Choose("q", len(qs))])
	parts = append(parts, q)
	want := comps(parts...)
	hits, rootHits := 0, 0
	v := ""
	refused, _ := sym.Guard(func() {
		m.HandleGet(q, kit.Handle(func(mc path.MatchingContext) { hits++; v = mc.PathVar("v") }))
	})
	sym.Assert(!refused, "a route below a prefix is registered whatever slashes it carries")
	// a route of the parent does not get the prefix
	root.HandleGet("/c", kit.Handle(func(mc path.MatchingContext) { rootHits++ }))
	var segs []string
	n := len(want)
	if sym.Choose("other", 2) == 1 {
		n = sym.Choose("n", 4)
	}
	segs = kit.Path(n, 1, "abc")
	kit.Serve(root, "GET", kit.Join(segs))
	sym.Observe("hits", hits)
	sym.Reach("sent")
	exp := same(segs, want)
	rootExp := sym.And(len(segs) == 1, sym.Not(exp))
	if len(segs) == 1 {
		rootExp = kit.Same(segs[0], "c", false)
		// the literal route of the parent is more specific than a variable
		for _, w := range want {
			if strings.HasPrefix(w, "{") {
				exp = sym.And(exp, sym.Not(rootExp))
			}
		}
	}
	sym.Assert(sym.Iff(hits == 1, exp), "the handler is reached exactly at the joined path")
	sym.Assert(sym.Iff(rootHits == 1, rootExp), "a route of the parent keeps its own path")
	if hits == 1 {
		for i, w := range want {
			if w == "{v}" {
				sym.Assert(kit.Same(v, segs[i], false), "the variable below the prefix is bound")
			}
		}
	}
}

// HarnessSiblings: a prefix belongs to the router it was given to.
func HarnessSiblings() {
	root, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	menu := []string{"/a", "a/", "/b", "/a/b", "/"}
	hit := ""
	reg := func(m *gofre.MuxHandler, q, name string) bool {
		refused, _ := sym.Guard(func() { m.HandleGet(q, kit.Handle(func(path.MatchingContext) { hit = name })) })
		return !refused
	}
	p1 := menu[sym.Choose("p1", len(menu))]
	p2 := menu[sym.Choose("p2", len(menu))]
	s1 := root.RouteUsingPathPrefix(p1)
	s2 := s1
	base := comps(p1)
	switch sym.Choose("second", 4) {
	case 0: // sibling of the first
		s2 = root.RouteUsingPathPrefix(p2)
		base = comps(p2)
	case 1: // nested in it
		s2 = s1.RouteUsingPathPrefix(p2)
		base = comps(p1, p2)
	case 2: // nested in a clone of it
		s2 = s1.Clone().RouteUsingPathPrefix(p2)
		base = comps(p1, p2)
	case 3: // a clone of a nested one
		s2 = s1.RouteUsingPathPrefix(p2).Clone()
		base = comps(p1, p2)
	}
	type route struct {
		name string
		segs []string
	}
	routes := []route{{"root", comps("/r")}, {"first", comps(p1, "x")}, {"second", append(base, "y")}}
	sym.Assert(reg(root, "/r", "root") && reg(s1, "/x", "first") && reg(s2, "y", "second"), "different routes are accepted")
	// any of the routes' addresses, or an address in the alphabet
	var segs []string
	if k := sym.Choose("ask", 4); k < 3 {
		segs = routes[k].segs
	} else {
		segs = kit.Path(1+sym.Choose("n", 3), 1, "abrxy")
	}
	kit.Serve(root, "GET", kit.Join(segs))
	sym.Reach("sent")
	sym.Observe("hit", hit)
	for _, r := range routes {
		sym.Assert(sym.Iff(hit == r.name, same(segs, r.segs)), "every router keeps its own prefix")
	}
}

// HarnessLogin: the callback address given to a provider is the one the callback is registered at.
func HarnessLogin() {
	root, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	m := root
	var parts []string
	for i, d := 0, sym.Choose("depth", sym.Pick(2, 3)); i < d; i++ {
		p := slashes(fmt.Sprintf("p%d", i), []string{"a", "b/a"}[sym.Choose("core", 2)])
		parts = append(parts, p)
		m = m.RouteUsingPathPrefix(p)
	}
	lead := 1
	trail := sym.Choose("base.trail", 2)
	if len(parts) > 0 {
		lead = sym.Choose("base.lead", 3)
		trail = sym.Choose("base.trail2", 3)
	}
	base := strings.Repeat("/", lead) + []string{"o", "o/c"}[sym.Choose("base", 2)] + strings.Repeat("/", trail)
	parts = append(parts, base)
	p := &kit.Provider{N: "gh"}
	done := 0
	cfg := oauth.Config{WebsiteUrl: "https://site.test", Providers: []oauth.Provider{p}}
	var h handler.Handler = kit.Handle(func(path.MatchingContext) { done++ })
	refused, _ := sym.Guard(func() { m.HandleOAUTH2WithCustomPaths("/i", base, cfg, h, nil, nil) })
	sym.Assert(!refused, "the login endpoints are registered whatever slashes the paths carry")
	at := append(comps(parts...), "gh")
	init := append(comps(parts[:len(parts)-1]...), "i")
	w := kit.Serve(root, "GET", kit.Join(init))
	sym.Reach("sent")
	sym.Observe("redirect", p.InitRedirect)
	sym.Assert(w.Status == 302 && p.Inits == 1, "the login starts below the prefix")
	sym.Assert(p.InitRedirect == "https://site.test"+kit.Join(at), "the callback address carries the prefix with single slashes")
	w = kit.Serve(root, "GET", kit.Join(at))
	sym.Assert(w.Status == 200 && done == 1 && p.Tokens == 1, "the callback is served at the announced address")
	sym.Assert(p.TokRedirect == p.InitRedirect, "the exchange names the same callback address")
}

// HarnessDeep: many prefixes below each other, and many routers side by side.
func HarnessDeep() {
	root, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	depth, wide := sym.Size("depth", []int{5, 9, 16}, 16, ""), []int{1, 3, 12}[sym.Choose("wide", 3)]
	style := sym.Choose("style", 4)
	hit := ""
	type at struct {
		m    *gofre.MuxHandler
		segs string
	}
	level := []at{{root, ""}}
	wants := map[string]string{}
	for d := 0; d < depth; d++ {
		var next []at
		for i := 0; i < wide; i++ {
			a := level[i%len(level)]
			seg := fmt.Sprintf("d%dw%d", d, i)
			p := []string{"/" + seg, seg, seg + "/", "//" + seg + "//"}[(style+d)%4]
			next = append(next, at{a.m.RouteUsingPathPrefix(p), a.segs + "/" + seg})
		}
		if d%3 == 1 {
			for i := range next {
				next[i].m = next[i].m.Clone()
			}
		}
		for i, a := range next {
			q := fmt.Sprintf("q%d/{v}", i)
			a.m.HandleGet([]string{"", "/", "//"}[(style+i)%3]+q, kit.Handle(func(mc path.MatchingContext) { hit = a.segs + " " + mc.PathVar("v") }))
			wants[a.segs+fmt.Sprintf("/q%d/x", i)] = a.segs + " x"
		}
		level = next
	}
	for p, want := range wants {
		hit = ""
		w := kit.Serve(root, "GET", p)
		sym.Reach("sent")
		sym.Assert(w.Status == 200 && hit == want, "every route is reached at its joined path")
	}
	// no route answers with a level left out or repeated
	full := level[0].segs
	k := sym.Choose("level", 5) * (depth - 1) / 4
	segs := strings.Split(full[1:], "/")
	less := append(append([]string(nil), segs[:k]...), segs[k+1:]...)
	more := append(append(append([]string(nil), segs[:k]...), segs[k]), segs[k:]...)
	for _, s := range [][]string{less, more} {
		hit = ""
		if _, ok := wants["/"+strings.Join(append(s, "q0", "x"), "/")]; ok {
			continue
		}
		w := kit.Serve(root, "GET", "/"+strings.Join(append(s, "q0", "x"), "/"))
		sym.Assert(w.Status == 404 && hit == "", "and at no other")
	}
}

var names = []string{"é", "a b", "%41", "a:b", "a+b;c=1", "API", "v1.2", "~u", "日本", "a,b", "@x", "a&b", "{t}", "{t:^[ab]$}", "w*", "a.b-c_d", "...", " a", "b ", " ", "a\tb\t"}

// HarnessNames: prefixes and routes with the names that sites have.
func HarnessNames() {
	p, q := names[sym.Choose("prefix", len(names))], ""
	deep := sym.Choose("deep", 2) == 1
	if deep {
		q = names[sym.Choose("route", len(names))]
		sym.Assume(q[0] != '{' && q[0] != 'w')
	} else {
		q = []string{"x", "é", "a b", "%41", " y", "y "}[sym.Choose("route", 6)]
	}
	root, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}, CaseInsensitivePathMatch: false})
	m := root
	want := "/" + p
	m = m.RouteUsingPathPrefix(slashes("p", p))
	if deep {
		m = m.RouteUsingPathPrefix("sub/")
		want += "/sub"
	}
	want += "/" + q
	hits, t := 0, ""
	m.HandleGet(slashes("q", q), kit.Handle(func(mc path.MatchingContext) { hits++; t = mc.PathVar("t") }))
	seg := p
	switch p {
	case "{t}", "{t:^[ab]$}":
		seg = sym.Text("t", 1, "ab")
	case "w*":
		seg = "w" + sym.Text("t", 1, "ab")
	}
	own := strings.Replace(want, p, seg, 1)
	if p[0] != '{' && p[0] != 'w' {
		bs := []byte(own)
		at := []int{1, len(own) / 2, len(own) - 1}[sym.Choose("at", 3)]
		if bs[at] != '/' {
			bs[at] = sym.Text("byte", 1, "!-.0-~")[0]
		}
		kit.Serve(root, "GET", string(bs))
		sym.Reach("sent")
		sym.Assert(sym.Iff(hits == 1, kit.Same(string(bs), own, false)), "no other path reaches the route")
	}
	hits = 0
	kit.Serve(root, "GET", own)
	sym.Assert(hits == 1, "the handler is reached at the joined path")
	if strings.HasPrefix(p, "{t") {
		sym.Assert(t == seg, "the variable of the prefix is bound")
	}
}
