// Package c27: no header or cookie crosses from one response to another.
package c27

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// Spoken: what the property speaks of, see kit.Request.
func init() {
	kit.Spoken = []string{"Accept-Encoding"}
}

// one is a response and what was ever set on it.
type one struct {
	r       response.HttpResponse
	h       map[string]string
	c       map[string]string
	wrote   int
	afterOK bool
}

func fresh(i int) *one {
	o := &one{h: map[string]string{}, c: map[string]string{}}
	var h response.HttpHeaders
	var c response.HttpCookies
	own := fmt.Sprint("X-Ctor-", i)
	switch sym.Choose("given", 4) {
	case 1:
		h = response.HttpHeaders{own: "1"}
		o.h[own] = "1"
	case 2: // containers taken from the pool by the handler itself
		h = response.NewHttpHeaders()
		h.Set(own, "1")
		o.h[own] = "1"
		c = response.NewHttpCookie(&http.Cookie{Name: fmt.Sprint("ctor", i), Value: "1"})
		o.c[fmt.Sprint("ctor", i)] = "1"
	case 3:
		c = response.NewEmptyHttpCookie()
	}
	switch sym.Choose("type", sym.Pick(4, 8)) {
	case 0:
		o.r = response.PlainTextResponseWithHeadersAndCookies(200, "t", h, c)
	case 1:
		o.r = response.JsonHttpResponseWithHeadersAndCookies(200, nil, h, c)
	case 2:
		o.r = &response.HttpRedirectResponse{HttpHeadersResponse: response.HttpHeadersResponse{HttpStatusCode: 302, HttpHeaders: h, HttpCookies: c}, Url: "https://a.test/"}
	case 3:
		z, _ := response.NewHttpCompressResponse(response.HtmlResponseWithHeadersAndCookies(200, "t", h, c), 1)
		o.r = z
	case 4:
		o.r = response.StreamHttpResponseWithHeadersAndCookies(200, "a/b", h, c, strings.NewReader("s"))
	case 5:
		o.r = response.TemplateHttpResponseWithHeadersAndCookies(response.NilTemplate{}, 200, "n", nil, h, c)
	case 6:
		o.r = response.RawWriterHttpResponseWithHeadersAndCookies(200, "a/b", h, c, func(w io.Writer) error { return nil })
	case 7: // refused, but its containers are recycled all the same
		o.r = response.PlainTextResponseWithHeadersAndCookies(7, "t", h, c)
	}
	return o
}

func (o *one) decorate(i, step int) {
	// the same names on every response, or names of its own; the values are arbitrary
	n, ck := fmt.Sprint("X-", i, "-", step), fmt.Sprint("c", i, "-", step)
	if sym.Choose("shared", 2) == 1 {
		n, ck = "X-Shared", "shared"
	}
	v := sym.Text("v", 1, "a-z0-9")
	o.r.Headers().Set(n, v)
	o.h[n] = v
	o.r.Cookies().Add(&http.Cookie{Name: ck, Value: v})
	o.c[ck] = v
}

func (o *one) check(w *kit.W, first bool) {
	for n, g := range w.Sent {
		if strings.HasPrefix(n, "X-") && n != "X-Content-Type-Options" {
			v, ok := o.h[n]
			sym.Assert(ok && len(g) == 1 && kit.Same(g[0], v, false), "a write sends only headers set on that response")
		}
	}
	for _, c := range w.Sent["Set-Cookie"] {
		n, g, _ := strings.Cut(c, "=")
		v, ok := o.c[n]
		sym.Assert(ok && kit.Same(g, v, false), "a write sends only cookies set on that response")
	}
	if first && w.Status != 0 {
		for n := range o.h {
			sym.Assert(len(w.Sent[n]) == 1, "the first write sends every header set on the response")
		}
		sym.Assert(len(w.Sent["Set-Cookie"]) == len(o.c), "the first write sends every cookie set on the response")
	}
}

// HarnessSequence: any sequence of creating, decorating and writing responses, with any recycling.
func HarnessSequence() {
	sym.PoolAdversarial()
	var all []*one
	steps := sym.Pick(4, 5)
	w0 := false
	for s := 0; s < steps; s++ {
		n := len(all)
		act := 0
		if n > 0 {
			act = sym.Choose("act", 3)
			if n == 2 && act == 0 {
				act = 1
			}
		}
		switch act {
		case 0:
			all = append(all, fresh(n))
		default:
			i := sym.Choose("which", n)
			o := all[i]
			if act == 1 {
				o.decorate(i, s)
				continue
			}
			w := kit.NewW()
			r := kit.AnyRequest("/x")
			r.Header.Set("Accept-Encoding", "gzip")
			o.r.Write(w.Writer(true), path.MatchingContext{R: r})
			o.wrote++
			w0 = true
			o.check(w, o.wrote == 1)
		}
	}
	if w0 {
		sym.Reach("wrote")
	}
}

// HarnessRequests: several requests through one router, each deciding by itself what it sets.
func HarnessRequests() {
	sym.PoolAdversarial()
	r := router.NewRouter(false, func(err error) {})
	var set []string
	var fail bool
	var h handler.Handler = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if fail {
			return nil, errors.New("failed")
		}
		resp := response.PlainTextHttpResponseOK("t")
		for _, n := range set {
			resp.Headers().Set(n, "1")
			resp.Cookies().Add(&http.Cookie{Name: n, Value: "1"})
		}
		return resp, nil
	}
	h = middleware.ErrResponse(func(code int, err error) response.HttpResponse { return response.JsonErrorHttpResponse(code, err) })(h)
	h = middleware.CompressResponse(1)(h)
	r.Handle("GET", "/x", h)
	n := sym.Pick(3, 4)
	for i := 0; i < n; i++ {
		set = nil
		if sym.Choose("own", 2) == 1 {
			set = append(set, fmt.Sprint("X-R", i))
		}
		if sym.Choose("common", 2) == 1 {
			set = append(set, "X-Common")
		}
		fail = sym.Choose("fail", 2) == 1
		w := kit.Serve(r, "GET", "/x")
		sym.Reach("wrote")
		want := map[string]bool{}
		if !fail {
			for _, x := range set {
				want[x] = true
			}
		}
		for x := range w.Sent {
			if strings.HasPrefix(x, "X-") && x != "X-Content-Type-Options" {
				sym.Assert(want[x], "a request sees only its own headers")
			}
		}
		sym.Assert(len(w.Sent["Set-Cookie"]) == len(want), "a request sees only its own cookies")
		for x := range want {
			sym.Assert(w.Sent.Get(x) == "1", "a request sees its own headers")
		}
	}
}

// HarnessConcurrent: responses written at the same time.
func HarnessConcurrent() {
	sym.PoolAdversarial()
	sym.Concurrent(sym.Pick(1, 2))
	n := 2
	vs := []string{sym.Text("v0", 1, "a-z"), sym.Text("v1", 1, "a-z")}
	ws := make([]*kit.W, n)
	for i := 0; i < n; i++ {
		i := i
		sym.Go(func() {
			for k := 0; k < 2; k++ {
				r := response.PlainTextHttpResponseOK("t")
				r.Headers().Set("X-V", vs[i])
				r.Cookies().Add(&http.Cookie{Name: []string{"a", "b"}[i], Value: vs[i]})
				ws[i] = kit.NewW()
				r.Write(ws[i], path.MatchingContext{})
			}
		})
	}
	sym.Wait()
	sym.Reach("wrote")
	for i, w := range ws {
		sym.Assert(len(w.Sent) == 4 && kit.Same(w.Sent.Get("X-V"), vs[i], false), "a write sends only headers set on that response")
		sym.Assert(len(w.Sent["Set-Cookie"]) == 1 && kit.Same(w.Sent["Set-Cookie"][0], []string{"a=", "b="}[i]+vs[i], false), "a write sends only cookies set on that response")
	}
}

// HarnessMany: many responses alive at once, with many headers and cookies each.
func HarnessMany() {
	n, m := 12, sym.Size("headers", []int{1, 9, 40}, 150, "response")
	v := sym.Text("v", 3, "a-z")
	order := sym.Choose("order", 3)
	make1 := func(i int) *one {
		o := &one{h: map[string]string{}, c: map[string]string{}}
		switch i % 3 {
		case 0:
			o.r = response.PlainTextHttpResponseOK("t")
		case 1:
			o.r = response.JsonHttpResponseOK(nil)
		case 2:
			o.r = response.RedirectHttpResponse("https://a.test/")
		}
		for k := 0; k < m && i%4 != 3; k++ {
			x, c := fmt.Sprint("X-", i, "-", k), fmt.Sprint("c", i, "-", k)
			o.r.Headers().Set(x, v[k%3:k%3+1])
			o.r.Cookies().Add(&http.Cookie{Name: c, Value: v[k%3 : k%3+1]})
			o.h[x], o.c[c] = v[k%3:k%3+1], v[k%3:k%3+1]
		}
		return o
	}
	var all []*one
	write := func(o *one) {
		w := kit.NewW()
		o.r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/x")})
		o.wrote++
		o.check(w, o.wrote == 1)
	}
	for i := 0; i < n; i++ {
		o := make1(i)
		all = append(all, o)
		if order == 0 {
			write(o)
		} else if order == 1 && i > 2 {
			write(all[i-3])
		}
	}
	for _, o := range all {
		write(o)
	}
	sym.Reach("wrote")
}
