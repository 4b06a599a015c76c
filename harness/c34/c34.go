// Package c34: concurrent requests do not interfere.
package c34

import (
	"context"
	"errors"
	"net/http"
	"net/url"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	gerr "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// w lets the other requests run whenever something is sent.
type w struct{ *kit.W }

func (w w) WriteHeader(c int) {
	sym.Yield()
	w.W.WriteHeader(c)
}

func (w w) Write(b []byte) (int, error) {
	sym.Yield()
	return w.W.Write(b)
}

// late is a response that looks at the path only when it is written.
type late struct{ *kit.Resp }

func (l late) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	sym.Yield()
	for k, v := range l.H {
		w.Header().Set(k, v)
	}
	w.Header().Set("X-Late", mc.PathVar("v")+","+mc.PathVar("u"))
	w.WriteHeader(200)
	return nil
}

// visit is what a handler saw of one request.
type visit struct {
	runs  int
	route string
	v, u  string
	r     *http.Request
}

type key struct{}

// newSite has routes of several shapes; the handlers report to the visit in the request's context.
func newSite(fold bool, mws ...middleware.Middleware) *gofre.MuxHandler {
	m, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: fold, ErrLogFunc: func(error) {}})
	sym.Assert(err == nil, "the configuration is valid")
	m.CommonMiddlewares(mws...)
	reg := func(p string, answer func(v *visit) (response.HttpResponse, error)) {
		m.HandleGet(p, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			sym.Yield()
			v := ctx.Value(key{}).(*visit)
			v.runs++
			v.route, v.r = p, mc.R
			v.v = mc.PathVar("v")
			sym.Yield()
			v.u = mc.PathVar("u")
			return answer(v)
		})
	}
	reg("/a/{v}", func(v *visit) (response.HttpResponse, error) {
		r := response.PlainTextHttpResponseOK("a:" + v.v)
		r.Headers().Set("X-V", v.v)
		r.Cookies().Add(&http.Cookie{Name: "v", Value: v.v})
		return r, nil
	})
	reg("/{v}/b/{u}", func(v *visit) (response.HttpResponse, error) {
		return response.JsonHttpResponseWithHeaders(201, map[string]string{"u": v.u}, response.HttpHeaders{"X-U": v.u}), nil
	})
	reg("/c/**", func(v *visit) (response.HttpResponse, error) {
		return late{kit.NewResp(200, "")}, nil
	})
	reg("/d/{v}/{u}", func(v *visit) (response.HttpResponse, error) {
		return late{kit.NewResp(200, "")}, nil
	})
	reg("/e*", func(v *visit) (response.HttpResponse, error) {
		return nil, gerr.NewBadRequestWithMessage("e")
	})
	reg("/f/{v:^[xy]$}", func(v *visit) (response.HttpResponse, error) {
		if v.v == "y" {
			panic("f")
		}
		return response.RedirectHttpResponse("https://a.test/" + v.v), nil
	})
	return m
}

func full() []middleware.Middleware {
	var sh middleware.SecurityHeadersConfig
	sh.ClickJacking.Enabled, sh.ClickJacking.XFrameOptionHeaderValue = true, "DENY"
	sh.BlockContentSniffingEnabled = true
	return []middleware.Middleware{
		middleware.ErrResponse(func(code int, err error) response.HttpResponse {
			return response.PlainTextHttpResponse(code, err.Error())
		}),
		middleware.PanicRecover(),
		middleware.SecurityHeaders(sh),
	}
}

// ask is one request and what it must get.
type ask struct {
	path    string
	route   string
	v, u    string
	status  int
	body    string
	headers map[string]string
	cookie  string
}

// request chooses a request; x and y are path segments.
func request(name string, x, y string, mws bool) ask {
	return requestOf(sym.Choose(name, 7), x, y, mws)
}

func requestOf(kind int, x, y string, mws bool) ask {
	a := ask{headers: map[string]string{}}
	switch kind {
	case 0:
		a = ask{path: "/a/" + x, route: "/a/{v}", v: x, status: 200, body: "a:" + x, headers: map[string]string{"X-V": x, "Content-Type": "text/plain; charset=utf-8"}, cookie: "v=" + x}
	case 1:
		a = ask{path: "/" + x + "/b/" + y, route: "/{v}/b/{u}", v: x, u: y, status: 201, body: `{"u":"` + y + `"}`, headers: map[string]string{"X-U": y, "Content-Type": "application/json"}}
	case 2:
		a = ask{path: "/c/" + x + "/" + y + "/" + x + "/z", route: "/c/**", status: 200, headers: map[string]string{"X-Late": ","}}
	case 3:
		a = ask{path: "/d/" + x + "/" + y, route: "/d/{v}/{u}", v: x, u: y, status: 200, headers: map[string]string{"X-Late": x + "," + y}}
	case 4:
		a = ask{path: "/e" + x, route: "/e*", status: 500}
		if mws {
			a.status, a.body = 400, "e"
			a.headers = map[string]string{"Content-Type": "text/plain; charset=utf-8"}
		}
	case 5:
		a = ask{path: "/f/x", route: "/f/{v:^[xy]$}", v: "x", status: 302, headers: map[string]string{"Location": "https://a.test/x"}}
	case 6:
		a = ask{path: "/" + x, status: 404}
		mws = false
	}
	if mws && a.status < 400 {
		a.headers["X-Frame-Options"] = "DENY"
	}
	return a
}

func (a ask) check(v *visit, r *http.Request, w *kit.W) {
	if a.route == "" {
		sym.Assert(v.runs == 0, "a request without a route reaches no handler")
	} else {
		sym.Assert(v.runs == 1 && v.route == a.route && v.r == r, "the request reaches its own handler once")
	}
	sym.Assert(kit.Same(v.v, a.v, false) && kit.Same(v.u, a.u, false), "the handler reads the variables of its own path")
	sym.Assert(w.Status == a.status, "the request gets its own status")
	sym.Assert(a.status == 302 || kit.Same(w.Body, a.body, false), "the request gets its own body")
	for _, n := range []string{"X-V", "X-U", "X-Late", "Location", "X-Frame-Options", "Content-Type"} {
		want, ok := a.headers[n]
		if n == "Content-Type" && !ok {
			continue
		}
		got := w.Sent[n]
		sym.Assert(len(got) == 0 && !ok || len(got) == 1 && ok && kit.Same(got[0], want, false), "the request gets its own headers")
	}
	c := w.Sent["Set-Cookie"]
	sym.Assert(len(c) == 0 && a.cookie == "" || len(c) == 1 && kit.Same(c[0], a.cookie, false), "the request gets its own cookies")
}

func send(m http.Handler, a ask) (v *visit, r *http.Request, rw *kit.W) {
	v, rw = &visit{}, kit.NewW()
	r = kit.Request("GET", a.path).WithContext(context.WithValue(context.Background(), key{}, v))
	m.ServeHTTP(w{rw}, r)
	return
}

// HarnessTwo: two requests at once, after a request that fills the pools.
func HarnessTwo() {
	mws := sym.Choose("mws", 2) == 1
	var list []middleware.Middleware
	if mws {
		list = full()
	}
	m := newSite(sym.Choose("fold", sym.Pick(1, 2)) == 1, list...)
	if sym.Choose("warm", 2) == 1 {
		a := ask{path: "/d/warm/up"}
		send(m, a)
	}
	x := [2]string{sym.Text("x0", 1, "g-z0-9"), sym.Text("x1", 1, "g-z0-9")}
	y := [2]string{"pp", "q"}
	var asks [2]ask
	var vs [2]*visit
	var rs [2]*http.Request
	var ws [2]*kit.W
	for i := range asks {
		asks[i] = request([]string{"first", "second"}[i], x[i], y[i], mws)
	}
	sym.Concurrent(sym.Pick(1, 2))
	for i := range asks {
		i := i
		sym.Go(func() { vs[i], rs[i], ws[i] = send(m, asks[i]) })
	}
	sym.Wait()
	sym.Reach("served")
	for i := range asks {
		asks[i].check(vs[i], rs[i], ws[i])
	}
}

// HarnessSequence: requests one after the other, whatever containers are recycled; panics and
// errors in between leave nothing behind.
func HarnessSequence() {
	sym.PoolAdversarial()
	mws := sym.Choose("mws", 2) == 1
	var list []middleware.Middleware
	if mws {
		list = full()
	}
	m := newSite(false, list...)
	n := sym.Pick(3, 4)
	for i := 0; i < n; i++ {
		if i < n-1 && sym.Choose("panic", 2) == 1 {
			sym.Guard(func() { send(m, ask{path: "/f/y"}) })
			continue
		}
		x := sym.Text("x", 1, "g-z0-9")
		a := request("ask", x, "pp", mws)
		v, r, w := send(m, a)
		sym.Reach("served")
		a.check(v, r, w)
	}
}

// HarnessNested: a handler that serves another request meanwhile keeps its own path.
func HarnessNested() {
	sym.PoolAdversarial()
	inner := newSite(false)
	outer, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	x, y := sym.Text("x", 1, "g-z"), sym.Text("y", 1, "g-z")
	a := request("inner", y, "pp", false)
	var v1, u1, v2, u2 string
	served := false
	outer.HandleGet("/o/{v}/{u}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		keep := mc.Clone()
		v1, u1 = mc.PathVar("v"), mc.PathVar("u")
		iv, ir, iw := send(inner, a)
		a.check(iv, ir, iw)
		served = true
		v2, u2 = mc.PathVar("v"), mc.PathVar("u")
		sym.Assert(keep.PathVar("v") == v2 && keep.PathVar("u") == u2, "a clone of the context has the same variables")
		return nil, errors.New("done")
	})
	kit.Serve(outer, "GET", "/o/"+x+"/zz")
	sym.Reach("served")
	sym.Assert(served && kit.Same(v1, x, false) && u1 == "zz", "the handler reads its variables")
	sym.Assert(kit.Same(v2, x, false) && u2 == "zz", "the variables stay while another request is served")
}

// HarnessKept: a clone of the context outlives the request.
func HarnessKept() {
	m := newSite(false)
	o, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	x := sym.Text("x", 1, "g-z")
	var kept path.MatchingContext
	o.HandleGet("/k/{v}/{u}", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		kept = mc.Clone()
		return kit.NewResp(200, ""), nil
	})
	kit.Serve(o, "GET", "/k/"+x+"/uu")
	for i := 0; i < 2; i++ {
		a := request("ask", "q", "pp", false)
		v, r, w := send(m, a)
		a.check(v, r, w)
	}
	sym.Reach("served")
	sym.Assert(kit.Same(kept.PathVar("v"), x, false) && kept.PathVar("u") == "uu", "a clone of the context stays valid after the request")
}

// HarnessMany: a long series of requests of every kind, failures and panics in between.
func HarnessMany() {
	mws := sym.Choose("mws", 2) == 1
	var list []middleware.Middleware
	if mws {
		list = full()
	}
	m := newSite(false, list...)
	x := sym.Text("x", 2, "g-z0-9")
	step := 1 + sym.Choose("step", 6)
	n := sym.Pick(60, 300)
	for i := 0; i < n; i++ {
		if i%5 == 4 {
			sym.Guard(func() { send(m, ask{path: "/f/y"}) })
		}
		if i%11 == 3 { // a long path leaves large containers behind
			send(m, ask{path: "/c/1/2/3/4/5/6/7/8/9/10/11/12/13/14/15/16"})
		}
		a := requestOf((i*step+i/7)%7, x[:1+i%2], x[i%2:], mws)
		v, r, w := send(m, a)
		a.check(v, r, w)
	}
	sym.Reach("served")
}

// HarnessShared: one chain of middlewares serves two requests at once that differ in all it looks at.
func HarnessShared() {
	origins := []string{"https://a.test", "https://b.test", "https://c.test"}
	read, write := auth.Permission{Scope: "s/r", Access: auth.AccessRead}, auth.Permission{Scope: "s/w", Access: auth.AccessRead}
	h := kit.Handle(func(path.MatchingContext) {})
	var mws []middleware.Middleware
	kind := sym.Choose("middleware", 3)
	switch kind {
	case 0:
		mws = append(mws, middleware.Cors(middleware.CorsConfig{AllowedOrigins: append([]string(nil), origins...), AllowedHttpMethods: []string{"GET", "PUT"}}))
	case 1:
		mws = append(mws, middleware.AuthorizeAll(read, write))
	case 2:
		mws = append(mws, middleware.AuthorizeAny(write, read))
	}
	mws = append(mws, middleware.RequestDumper(func(string) {}))
	for i := len(mws) - 1; i >= 0; i-- {
		h = mws[i](h)
	}
	users := []*auth.User{nil, {}, {}, {}}
	for i, list := range [][]auth.Permission{{read}, {write}, {read, write}} {
		users[i+1].Groups = []auth.Group{{Roles: []auth.Role{{AllowedPermissions: list}}}}
	}
	serve := func(i int) (string, error) {
		r := &http.Request{Method: "GET", URL: &url.URL{Path: "/x"}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "site"}
		ctx := context.Background()
		if kind == 0 {
			r.Header.Set("Origin", append(origins, "https://d.test")[i])
		} else if users[i] != nil {
			ctx = context.WithValue(ctx, auth.SecurityPrincipalCtxKey, auth.SecurityPrincipal(users[i]))
		}
		resp, err := h(ctx, path.MatchingContext{R: r})
		if err != nil {
			return "", err
		}
		return resp.Headers()["Access-Control-Allow-Origin"], nil
	}
	want := func(i int) (string, bool) {
		switch kind {
		case 0:
			return append(origins, "")[i], i < 3
		case 1:
			return "", i == 3
		}
		return "", i > 0
	}
	check := func(i int, got string, err error) {
		o, ok := want(i)
		sym.Assert((err == nil) == ok && got == o, "the request gets its own outcome")
	}
	var asks [2]int
	var gots [2]string
	var errs [2]error
	for i := range asks {
		asks[i] = sym.Choose([]string{"first", "second"}[i], 4)
	}
	sym.Concurrent(sym.Pick(1, 2))
	for i := range asks {
		i := i
		sym.Go(func() { gots[i], errs[i] = serve(asks[i]) })
	}
	sym.Wait()
	sym.Reach("served")
	for i := range asks {
		check(asks[i], gots[i], errs[i])
	}
	for i := 0; i < 4; i++ {
		got, err := serve(i)
		check(i, got, err)
	}
}
