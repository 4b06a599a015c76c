// Package c08: methods are isolated and every outcome is answered once.
package c08

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// HarnessMethods: routes under several methods with equal and different paths.
func HarnessMethods() {
	methods := []string{"GET", "POST", "get", "Put", "DELETE", "PURGE", "options"}
	paths := []string{"/a", "/{v}", "/a/b"}
	kit.Candidates = []string{"POST", "GET", "/a", "/a/b"}
	r := router.NewRouter(false, func(error) {})
	type route struct{ method, path string }
	var routes []route
	hit := -1
	n := sym.Pick(2, 3)
	for i := 0; i < n; i++ {
		rt := route{methods[sym.Choose("route.method", len(methods))], paths[sym.Choose("route.path", len(paths))]}
		for _, o := range routes {
			if strings.EqualFold(o.method, rt.method) && o.path == rt.path {
				sym.Assume(false) // refused (C06)
			}
		}
		i := i
		refused, _ := sym.Guard(func() { r.Handle(rt.method, rt.path, kit.Handle(func(path.MatchingContext) { hit = i })) })
		sym.Assert(!refused, "the same path may be registered for different methods")
		routes = append(routes, rt)
	}
	var m string
	if sym.Choose("ask", 2) == 0 {
		m = []string{"GET", "POST", "PUT", "get", "gET", "HEAD", "OPTIONS", "purge", ""}[sym.Choose("method", 9)]
	} else {
		m = sym.Text("method", 3+sym.Choose("len", 2), "GETPOSUetpu")
	}
	p := []string{"/a", "/c", "/a/b", "/a/c"}[sym.Choose("path", 4)]
	w := kit.Serve(r, m, p)
	sym.Observe("hit", hit)
	sym.Reach("sent")
	any := false
	segs := strings.Split(p[1:], "/")
	for i, rt := range routes {
		c := sym.And(kit.Same(rt.method, m, true), kit.Matches(kit.ParsePattern(rt.path), segs, false))
		any = sym.Or(any, c)
		if hit == i {
			sym.Assert(c, "only a route of the request's method handles it")
		}
	}
	if hit < 0 {
		sym.Assert(sym.Not(any), "a route of the request's method is found whatever the case of the name")
		sym.Assert(w.Status == 404 && w.Body == "" && w.Writes == 1, "a request nothing matches gets an empty 404")
		sym.Assert(len(w.Sent) == 0, "the 404 carries no headers")
	} else {
		sym.Assert(w.Status == 200 && w.Writes == 1, "the handler's response is written once")
	}
}

// HarnessMuxMethods: each of the registration helpers stands for its own method.
func HarnessMuxMethods() {
	m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	hit := -1
	h := func(i int) func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return kit.Handle(func(path.MatchingContext) { hit = i })
	}
	m.HandleGet("/x", h(0))
	m.HandlePost("/x", h(1))
	m.HandlePut("/x", h(2))
	m.HandlePatch("/x", h(3))
	m.HandleDelete("/x", h(4))
	m.HandleRequest("TRACE", "/x", h(5))
	m.HandleRequest("m-search", "/x", h(6))
	names := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "TRACE", "M-SEARCH", "HEAD", "OPTIONS", "CONNECT"}
	k := sym.Choose("method", len(names))
	name := names[k]
	if sym.Choose("case", 2) == 1 {
		name = strings.ToLower(name)
	}
	w := kit.Serve(m, name, "/x")
	sym.Reach("mux")
	if k < 7 {
		sym.Assert(hit == k && w.Status == 200, "a request reaches the handler of its method")
	} else {
		sym.Assert(hit == -1 && w.Status == 404 && w.Body == "", "a method without routes gets an empty 404")
	}
}

// HarnessOutcome: what the handler and its response do decides what the client gets.
func HarnessOutcome() {
	logged := 0
	var seen error
	useMux := sym.Choose("mux", 2) == 1
	log := func(err error) { logged++; seen = err }
	runs := 0
	resp := kit.NewResp(sym.Int("status", 200, 599), sym.Text("body", sym.Choose("len", 3), "a-c"))
	resp.H.Set("X-Test", "1")
	boom, writeErr := errors.New("boom"), errors.New("write")
	fails := sym.Bool("fails")
	withResp := sym.Bool("withResponse")
	writeFails := sym.Bool("writeFails")
	if writeFails {
		resp.Err = writeErr
	}
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		runs++
		if fails {
			if withResp {
				return resp, boom
			}
			return nil, boom
		}
		return resp, nil
	}
	w := kit.NewW()
	req := kit.Request("GET", "/a/b")
	if useMux {
		m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: log})
		m.HandleGet("/a/{v}", h)
		m.ServeHTTP(w.Writer(true), req)
	} else {
		r := router.NewRouter(false, log)
		r.Handle("GET", "/a/{v}", h)
		r.ServeHTTP(w.Writer(true), req)
	}
	sym.Reach("answered")
	sym.Assert(runs == 1, "the handler runs once")
	if fails {
		sym.Assert(w.Status == 500 && w.Writes == 1, "a failing handler gives a 500")
		sym.Assert(resp.Writes == 0 && w.Body == "" && len(w.Sent) == 0, "nothing of the handler's response is sent")
		sym.Assert(logged == 1, "the error is reported once")
		sym.Assert(errors.Is(seen, boom), "the reported error is the handler's")
		return
	}
	sym.Assert(resp.Writes == 1, "the response is written once")
	if writeFails {
		sym.Assert(logged == 1 && errors.Is(seen, writeErr), "a failure to write is reported once")
		return
	}
	sym.Assert(logged == 0, "nothing is reported")
	sym.Assert(w.Status == resp.Code && w.Body == resp.Text && w.Writes == 1, "the client gets the handler's response")
}

// HarnessMany: dozens of routes per node, under many methods.
func HarnessMany() {
	r := router.NewRouter(false, func(error) {})
	n, nm := sym.Size("routes", []int{3, 20, 60}, 60, "router/path", "router"), []int{1, 4, 9}[sym.Choose("methods", 3)]
	methods := []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "PURGE", "M-SEARCH"}[:nm]
	hit := ""
	for i := 0; i < n; i++ {
		for _, m := range methods {
			want := fmt.Sprint(m, i)
			refused, _ := sym.Guard(func() {
				r.Handle(m, fmt.Sprintf("/a/s%d/x", i), kit.Handle(func(path.MatchingContext) { hit = want }))
			})
			sym.Assert(!refused, "the same path may be registered for different methods")
		}
	}
	r.Handle("GET", "/a/{v}/y", kit.Handle(func(mc path.MatchingContext) { hit = "var " + mc.PathVar("v") }))
	kit.Candidates = []string{"s0", "s1", "s2", fmt.Sprint("s", n-1)}
	i := []int{0, 1, n / 2, n - 1}[sym.Choose("asked", 4)]
	for _, m := range methods {
		hit = ""
		w := kit.Serve(r, m, fmt.Sprintf("/a/s%d/x", i))
		sym.Reach("sent")
		sym.Assert(hit == fmt.Sprint(m, i) && w.Status == 200 && w.Writes == 1, "every route answers under its own method")
	}
	hit = ""
	w := kit.Serve(r, "TRACE", fmt.Sprintf("/a/s%d/x", i))
	sym.Assert(hit == "" && w.Status == 404 && w.Body == "", "and under no other")
	w = kit.Serve(r, "GET", fmt.Sprintf("/a/s%d/y", i))
	sym.Assert(hit == fmt.Sprintf("var s%d", i) && w.Status == 200, "a less specific route is found next to them")
	if nm > 1 && n > 20 && !sym.Thorough() {
		return
	}
	hit = ""
	s := sym.Text("segment", 2, "s0-9")
	w = kit.Serve(r, "GET", "/a/"+s+"/x")
	known := false
	for i := 0; i < n; i++ {
		c := kit.Same(s, fmt.Sprint("s", i), false)
		known = sym.Or(known, c)
		if hit == fmt.Sprint("GET", i) {
			sym.Assert(c, "only the route asked for answers")
		}
	}
	sym.Assert(sym.Iff(w.Status == 200, known), "only the routes registered answer")
}

// HarnessTarget: requests with an unusual target, and the values that the code itself knows, are like any other.
func HarnessTarget() {
	r := router.NewRouter(sym.Choose("fold", 2) == 1, func(error) { sym.Assert(false, "nothing fails") })
	hit := ""
	routes := []string{"/", "/a", "/a/**"}[:1+sym.Choose("routes", 3)]
	for _, p := range routes {
		p := p
		r.Handle("GET", p, kit.Handle(func(path.MatchingContext) { hit = p }))
	}
	r.Handle("POST", "/post", kit.Handle(func(path.MatchingContext) { hit = "post" }))
	methods := []string{"GET", "HEAD", "OPTIONS", "CONNECT", "TRACE", "PRI", "PROPFIND", "*", "", "GETX", "GE"}
	m := ""
	if k := sym.Choose("method", len(methods)+1); k < len(methods) {
		m = methods[k]
	} else {
		m = sym.Constant("method.known", "router", "router/path", "")
	}
	paths := []string{"*", "", "//", "/", "/a", "/.", "/a/.well-known/x", "/favicon.ico", "/robots.txt", "/health", "a.test:443"}
	p := ""
	if k := sym.Choose("path", len(paths)+1); k < len(paths) {
		p = paths[k]
	} else {
		p = sym.Constant("path.known", "router", "router/path", "")
	}
	req := kit.Request(m, p)
	w := kit.NewW()
	refused, _ := sym.Guard(func() { r.ServeHTTP(w.Writer(true), req) })
	sym.Observe("hit", hit)
	sym.Reach("target")
	sym.Assert(!refused, "every request is answered")
	if hit == "" {
		sym.Assert(w.Status == 404 && w.Body == "" && w.Writes == 1 && len(w.Sent) == 0, "a request nothing matches gets an empty 404")
	} else {
		sym.Assert(w.Status == 200 && w.Writes == 1, "the handler's response is written once")
		sym.Assert(kit.Same(m, "GET", true) || kit.Same(m, "POST", true), "only a route of the request's method handles it")
	}
	known := false
	for _, q := range routes {
		known = known || q == p || q == "/a/**" && strings.HasPrefix(p, "/a/")
	}
	if kit.Same(m, "GET", true) && known {
		sym.Assert(hit != "", "a route of the request's method is found")
	}
	if len(p) > 0 && p[0] == '/' && !known && p != "//" && p != "/." && !strings.HasPrefix(p, "/a") {
		sym.Assert(hit == "" || p == "/post" || p == "/" || strings.Contains(p, "//"), "and no other")
	}
}

// HarnessForeign: errors of any kind, of the handler or of its response, are answered with a 500 and reported once.
func HarnessForeign() {
	boom := kit.AnyError("error")
	logged := 0
	var seen error
	log := func(err error) { logged++; seen = err }
	resp := kit.NewResp(200, "text")
	writing := sym.Choose("writing", 2) == 1
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if writing {
			resp.Err = boom
			return resp, nil
		}
		return resp, boom
	}
	w := kit.NewW()
	req := kit.Request("GET", "/a/b")
	if sym.Choose("mux", 2) == 1 {
		m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: log})
		m.HandleGet("/a/{v}", h)
		m.ServeHTTP(w.Writer(true), req)
	} else {
		r := router.NewRouter(false, log)
		r.Handle("GET", "/a/{v}", h)
		r.ServeHTTP(w.Writer(true), req)
	}
	sym.Reach("foreign")
	sym.Assert(logged == 1 && errors.Is(seen, boom), "the error is reported once")
	if writing {
		sym.Assert(resp.Writes == 1, "the response is written once")
		return
	}
	sym.Assert(w.Status == 500 && w.Writes == 1, "a failing handler gives a 500")
	sym.Assert(resp.Writes == 0 && w.Body == "" && len(w.Sent) == 0, "nothing of the handler's response is sent")
}
