// Package c24: redirects carry the target, the status and what middlewares added.
package c24

import (
	"context"
	"crypto/tls"
	"fmt"
	"net/http"
	"strings"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// Spoken: what the property speaks of, see kit.Request.
func init() {
	kit.Spoken = []string{"Origin", "Access-Control-Request-Method", "Access-Control-Request-Headers", "Content-Type", "Accept-Encoding"}
}

// target is an absolute address; nothing in it needs escaping.
func target() string {
	n := sym.Choose("parts", sym.Pick(4, 6))
	u := "https://a.test"
	if n == 0 {
		u = []string{"https://", "http://"}[sym.Choose("scheme", 2)] + []string{"", "u:p@", "www."}[sym.Choose("before", 3)] + sym.Text("host", 1, "a-zA-Z0-9") + ".test" +
			[]string{"", ":80", ":443", ":8080", "?", "#", "/?", "/#", "//x", "/./", "/;v=1", "?a=1&a=2&&b", "?q=a+b%20c"}[sym.Choose("after", 13)]
	}
	for i := 0; i < n; i++ {
		switch sym.Choose("part", 6) {
		case 0:
			u += "/" + sym.Text("segment", 1, "a-cA.~_-")
		case 1:
			u += "/"
		case 2:
			u += "/.."
		case 3:
			u += []string{"/%2e%2E", "/a%2Fb"}[sym.Choose("hex", 2)]
		case 4:
			u += "?next=" + sym.Text("query", 1, "a-c%&=/?:@") + "&x=/../y"
			if n > 1 {
				return u
			}
		case 5:
			u += "#" + sym.Text("fragment", 1, "a-c/?")
			return u
		}
	}
	return u
}

func redirect(k int, u string) (*response.HttpRedirectResponse, int) {
	switch k {
	case 0:
		return response.RedirectHttpResponse(u), 302
	case 1:
		return response.RedirectHttpResponseMovedPermanently(u), 301
	}
	return response.RedirectHttpResponseSeeOther(u), 303
}

func header(w *kit.W, n, v string) {
	g := w.Sent[n]
	sym.Assert(len(g) == 1 && kit.Same(g[0], v, false), n+" reaches the client as set")
}

// HarnessTarget: any absolute target, from any page of the site.
func HarnessTarget() {
	u := target()
	k := sym.Choose("kind", 3)
	r, status := redirect(k, u)
	req := kit.AnyRequest([]string{"/", "/a/b"}[sym.Choose("from", 2)])
	w := kit.NewW()
	sym.Assert(r.StatusCode() == status, "the response reports its status")
	err := r.Write(w.Writer(true), path.MatchingContext{R: req})
	sym.Reach("written")
	sym.Assert(err == nil, "the redirect is written")
	sym.Assert(w.Status == status && w.Writes == 1, "its status is sent, once")
	header(w, "Location", u)
}

// HarnessStatus: every redirect status.
func HarnessStatus() {
	code := sym.Int("code", 300, 399)
	r := &response.HttpRedirectResponse{HttpHeadersResponse: response.HttpHeadersResponse{HttpStatusCode: code}, Url: "https://a.test/x"}
	w := kit.NewW()
	sym.Assert(r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/a")}) == nil, "the redirect is written")
	sym.Reach("written")
	sym.Assert(w.Status == code, "its status is sent")
	header(w, "Location", "https://a.test/x")
}

// HarnessDecorated: headers and cookies set on the redirect.
func HarnessDecorated() {
	v := sym.Text("v", 1, "a-z")
	r, status := redirect(sym.Choose("kind", 3), "https://a.test/"+v)
	want := map[string]string{"Location": "https://a.test/" + v}
	cookies := []string{}
	for i, n := 0, sym.Choose("headers", 3); i < n; i++ {
		k := []string{"X-Own", "Cache-Control", "x-lower", "Content-Type"}[sym.Choose("header", 4)]
		r.Headers().Set(k, v)
		want[http.CanonicalHeaderKey(k)] = v
	}
	for i, n := 0, sym.Choose("cookies", 3); i < n; i++ {
		c := &http.Cookie{Name: []string{"a", "b"}[i], Value: v, Path: "/"}
		r.Cookies().Add(c)
		cookies = append(cookies, c.Name+"="+v+"; Path=/")
	}
	w := kit.NewW()
	sym.Assert(r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/a")}) == nil, "the redirect is written")
	sym.Reach("written")
	sym.Assert(w.Status == status, "its status is sent")
	for n, x := range want {
		header(w, n, x)
	}
	got := w.Sent["Set-Cookie"]
	sym.Assert(len(got) == len(cookies), "cookies set on the redirect reach the client")
	for _, c := range cookies {
		found := false
		for _, g := range got {
			found = sym.Or(found, kit.Same(g, c, false))
		}
		sym.Assert(found, "cookies set on the redirect reach the client")
	}
}

// HarnessMiddlewares: security and cross-origin headers reach the client of a redirect as they reach
// the client of any other response.
func HarnessMiddlewares() {
	var sec middleware.SecurityHeadersConfig
	sec.STS.Enabled, sec.STS.MaxAgeSeconds = sym.Choose("sts", 2) == 1, 10
	sec.ClickJacking.Enabled, sec.ClickJacking.XFrameOptionHeaderValue = sym.Choose("frame", 2) == 1, "DENY"
	sec.BlockContentSniffingEnabled, sec.XSSProtectionEnabled = sym.Choose("nosniff", 2) == 1, true
	cors := middleware.CorsConfig{AllowedOrigins: []string{"https://other.test"}, AllowedHttpMethods: []string{"GET"}, ExposedHeaders: []string{"X-Own"}, SupportsCredentials: sym.Choose("credentials", 2) == 1}
	kind := sym.Choose("kind", 3)
	compress := sym.Choose("compress", 2) == 1
	serve := func(r response.HttpResponse) *kit.W {
		var h handler.Handler = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return r, nil }
		h = middleware.Cors(cors)(h)
		h = middleware.SecurityHeaders(sec)(h)
		if compress {
			h = middleware.CompressResponse(1)(h)
		}
		req := kit.Request("GET", "/a")
		req.TLS = &tls.ConnectionState{}
		req.Header.Set("Origin", "https://other.test")
		req.Header.Set("Accept-Encoding", "gzip")
		mc := path.MatchingContext{R: req}
		got, err := h(context.Background(), mc)
		sym.Assert(err == nil && got != nil, "the request is allowed")
		w := kit.NewW()
		sym.Assert(got.Write(w.Writer(true), mc) == nil, "the response is written")
		return w
	}
	r, status := redirect(kind, "https://a.test/x")
	w := serve(r)
	sym.Reach("written")
	sym.Assert(w.Status == status, "its status is sent")
	header(w, "Location", "https://a.test/x")
	plain := serve(&response.HttpHeadersResponse{})
	for n, v := range plain.Sent {
		if n == "Content-Encoding" || n == "X-Content-Type-Options" && !sec.BlockContentSniffingEnabled {
			continue // a property of the text, not of the middlewares
		}
		g := w.Sent[n]
		sym.Assert(len(g) == len(v) && g[0] == v[0], "headers of middlewares reach the client of a redirect")
	}
}

// HarnessLarge: long targets, many headers and cookies.
func HarnessLarge() {
	n := sym.Size("size", []int{513, 4097, 32769}, 40000, "response")
	long := strings.ReplaceAll(kit.LongOf("text", n, "ab"), " ", "-")
	var u string
	switch sym.Choose("where", 3) {
	case 0:
		u = "https://a.test/" + long
	case 1:
		u = "https://a.test/x?next=" + long + "&end=1"
	case 2:
		u = "https://a.test/#" + long
	}
	r, status := redirect(sym.Choose("kind", 3), u)
	m := sym.Size("headers", []int{0, 9, 40}, 70, "response")
	for i := 0; i < m; i++ {
		r.Headers().Set(fmt.Sprint("X-", i), fmt.Sprint("v", i))
		r.Cookies().Add(&http.Cookie{Name: fmt.Sprint("c", i), Value: fmt.Sprint("v", i)})
	}
	w := kit.NewW()
	sym.Assert(r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/a")}) == nil, "the redirect is written")
	sym.Reach("written")
	sym.Assert(w.Status == status, "its status is sent")
	sym.Assert(len(w.Sent["Location"]) == 1 && w.Sent["Location"][0] == u, "a long target reaches the client as set")
	sym.Assert(len(w.Sent["Set-Cookie"]) == m, "cookies set on the redirect reach the client")
	for i := 0; i < m; i++ {
		header(w, fmt.Sprint("X-", i), fmt.Sprint("v", i))
		found := false
		for _, c := range w.Sent["Set-Cookie"] {
			found = found || c == fmt.Sprint("c", i, "=v", i)
		}
		sym.Assert(found, "cookies set on the redirect reach the client")
	}
}

// HarnessAsked: what was asked for has no say in where the client is sent.
func HarnessAsked() {
	u := []string{"https://a.test/x", "https://a.test", "https://a.test/?k=v", "https://a.test/#f", "http://site/x", "https://site/old", "mailto:x@a.test"}[sym.Choose("target", 7)]
	k := sym.Choose("kind", 4)
	var r *response.HttpRedirectResponse
	status := 307
	if k < 3 {
		r, status = redirect(k, u)
	} else {
		r = &response.HttpRedirectResponse{HttpHeadersResponse: response.HttpHeadersResponse{HttpStatusCode: status}, Url: u}
	}
	req := kit.AnyRequest([]string{"/", "/old", "/a/b/"}[sym.Choose("from", 3)])
	req.Method = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS"}[sym.Choose("method", 6)]
	switch sym.Choose("asked", 6) {
	case 1:
		req.URL.RawQuery = sym.Text("query", 1+sym.Choose("len", 3), "a=&%")
	case 2:
		req.URL.RawQuery = []string{"next=https://evil.test", "redirect_uri=/x", "lang=en", "utm_source=x", "code=1&state=2", "return=/"}[sym.Choose("param", 6)]
	case 3:
		req.URL.Fragment = "f"
	case 4:
		req.URL.RawQuery = sym.Constant("param", "response", "middleware", "auth/oauth", "") + "=1"
	case 5:
		req.URL.ForceQuery = true
	}
	req.RequestURI = req.URL.RequestURI()
	w := kit.NewW()
	err := r.Write(w.Writer(true), path.MatchingContext{R: req})
	sym.Reach("asked")
	sym.Assert(err == nil && w.Status == status && w.Writes == 1, "the redirect is written with its status, once")
	header(w, "Location", u)
}

// HarnessKnown: words of the code itself in the target and the headers are sent as they are.
func HarnessKnown() {
	word := sym.Constant("word", "response", "middleware", "auth/oauth", "")
	esc := strings.NewReplacer("\"", "", "<", "", ">", "", "\\", "", "`", "", "{", "", "}", "", "|", "", "^", "", "//", "/").Replace(word)
	u := "https://a.test" + []string{"/", "/?", "/?next=/", "/#"}[sym.Choose("where", 4)] + esc
	r, status := redirect(sym.Choose("kind", 3), u)
	r.Headers().Set("X-Own", word)
	w := kit.NewW()
	err := r.Write(w.Writer(true), path.MatchingContext{R: kit.AnyRequest("/a")})
	sym.Reach("known")
	sym.Assert(err == nil && w.Status == status, "the redirect is written with its status")
	header(w, "Location", u)
	header(w, "X-Own", word)
}
