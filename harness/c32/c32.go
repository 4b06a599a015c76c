// Package c32: dumping requests does not change them.
package c32

import (
	"bufio"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/ixtendio/gofre"
	gerr "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

type key struct{}

// body counts how much of it is read.
type body struct{ reads, closes int }

func (b *body) Read([]byte) (int, error) { b.reads++; return 0, io.EOF }
func (b *body) Close() error             { b.closes++; return nil }

// request has every part a dump may want to look at.
func request(b *body, symbolic bool) *http.Request {
	kit.FixedAddresses = true
	r := kit.Request("GET", "/x")
	part := -1
	if symbolic || sym.Thorough() {
		part = sym.Choose("symbolic", 7)
	}
	switch part {
	case 0:
		r.Method = sym.Text("method", 1+sym.Choose("len", sym.Pick(3, 5)), "A-Za-z0-9!#$%&'*+.^_`|~-")
	case 1:
		r.RequestURI = "/" + sym.Text("uri", sym.Choose("len", sym.Pick(4, 6)), "!-~")
	case 2:
		r.Header["X-A"] = []string{sym.Text("header", sym.Choose("len", 3), "\x00-\x7f"), "two"}
	case 3:
		r.URL = &url.URL{Path: "/" + sym.Text("path", sym.Choose("len", sym.Pick(3, 4)), "a/%?é \"")}
	case 5:
		r.URL = &url.URL{Path: "/a", RawQuery: sym.Text("query", sym.Choose("qlen", sym.Pick(3, 5)), "a=&%;")}
	case 6:
		r.Header["Cookie"] = []string{"a=" + sym.Text("cookie", sym.Choose("clen", sym.Pick(2, 4)), "a\";, =") + "; b=2"}
	case 4:
		r.ContentLength = int64(sym.Int("length", -1, 9))
		r.Host = sym.Text("host", sym.Choose("len", 3), "a:[]<>&")
		r.RemoteAddr = "\\\"" + sym.Text("remote", 1, "a1:")
	}
	switch sym.Choose("extra", 4) {
	case 1:
		r.TLS = &tls.ConnectionState{}
		r.Header = nil
	case 2:
		r.Method, r.TransferEncoding = "POST", []string{"chunked"}
		r.Header["Content-Type"] = []string{"application/x-www-form-urlencoded"}
	case 3:
		r.Form = url.Values{"a": {"1", "2"}}
		r.Header["Cookie"] = append(r.Header["Cookie"], "=;bad")
	}
	r.Body = b
	return r
}

// answers is what a handler may return; want is the status a record must show.
func answer() (resp response.HttpResponse, err error, want int, simple bool) {
	kind := sym.Choose("answer", 10)
	resp, err, want = answerOf(kind)
	return resp, err, want, kind <= 1
}

func answerOf(kind int) (resp response.HttpResponse, err error, want int) {
	switch kind {
	case 0:
		return kit.NewResp(111, "x"), nil, 111
	case 1:
		return nil, errors.New("failed"), 0
	case 2:
		return nil, gerr.ErrAccessDenied, 0
	case 3:
		r := response.PlainTextHttpResponseOK("x")
		r.Headers().Set("X-H", sym.Text("value", 1, "\x00-\x7f"))
		r.Cookies().Add(&http.Cookie{Name: "n", Value: "v"})
		return r, nil, 200
	case 4:
		return response.NewHttpHijackConnectionResponse(func(net.Conn, *bufio.ReadWriter, error) {}), nil, -1
	case 5:
		return response.HandlerFuncAdaptor(func(w http.ResponseWriter, r *http.Request) {}), nil, -1
	case 8:
		code := sym.Int("code", -1, 150)
		return kit.NewResp(code, "x"), nil, code
	case 6:
		return response.RedirectHttpResponse("https://a.test/"), nil, 302
	case 7:
		r := kit.NewResp(204, "")
		r.H, r.C = nil, response.HttpCookies{"n": nil, "m": {Name: "bad name", Value: "\x01"}}
		return r, nil, 204
	}
	return kit.NewResp(200, "partial"), errors.New("failed late"), 0
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	c := true
	for i := range a {
		c = sym.And(c, kit.Same(a[i], b[i], false))
	}
	return c
}

func sameMap(a, b map[string][]string) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for k := range a {
		if v, ok := b[k]; !ok || !same(a[k], v) {
			return false
		}
	}
	return true
}

// HarnessDump: one request through the dumper.
func HarnessDump() {
	b := &body{}
	resp, err, want, simple := answer()
	r := request(b, simple)
	before := *r
	u := *r.URL
	head := map[string][]string(r.Header.Clone())
	form := map[string][]string(nil)
	if r.Form != nil {
		form = map[string][]string{"a": {"1", "2"}}
	}
	ctx := context.WithValue(context.Background(), key{}, 7)
	var records []string
	runs := 0
	panics := err == nil && sym.Choose("panics", 2) == 1
	h := func(c context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		runs++
		sym.Assert(len(records) == 0, "the record is made when the handler is done")
		sym.Assert(c == ctx && c.Value(key{}) == 7, "the handler gets the same context")
		sym.Assert(mc.R == r, "the handler gets the same request")
		sym.Assert(r.URL == before.URL && u == *r.URL, "the address is untouched")
		sym.Assert(sym.And(kit.Same(r.Method, before.Method, false), sym.And(kit.Same(r.RequestURI, before.RequestURI, false), kit.Same(r.Host, before.Host, false))), "the request line is untouched")
		sym.Assert(r.Body == before.Body && b.reads == 0 && b.closes == 0, "the body is left to the handler")
		for o := sym.Opened(r.Header); len(o) > 1; o = o[2:] {
			head[o[0]] = []string{o[1]}
		}
		sym.Assert(sameMap(r.Header, head), "the headers are untouched")
		sym.Assert(sameMap(r.Form, form) && r.PostForm == nil && r.MultipartForm == nil, "the form is left to the handler")
		sym.Assert(r.ContentLength == before.ContentLength && same(r.TransferEncoding, before.TransferEncoding), "the framing is untouched")
		if panics {
			panic("handler")
		}
		return resp, err
	}
	var got response.HttpResponse
	var gotErr error
	panicked, v := sym.Guard(func() {
		got, gotErr = middleware.RequestDumper(func(s string) { records = append(records, s) })(h)(ctx, path.MatchingContext{R: r})
	})
	sym.Observe("records", len(records))
	sym.Reach("dumped")
	sym.Assert(runs == 1, "the handler runs once")
	if panics {
		sym.Assert(panicked && v == "handler" && len(records) == 0, "a panic passes through")
		return
	}
	sym.Assert(!panicked, "dumping does not panic")
	if err != nil {
		sym.Assert(gotErr == err && len(records) == 0, "an error is returned unchanged and leaves no record")
		return
	}
	sym.Assert(gotErr == nil && got == resp, "the response is returned unchanged")
	sym.Assert(len(records) == 1, "a successful request leaves one record")
	var rec struct {
		Request  map[string]interface{} `json:"request"`
		Response map[string]interface{} `json:"response"`
	}
	sym.Assert(json.Unmarshal([]byte(records[0]), &rec) == nil, "the record is JSON")
	m, _ := rec.Request["method"].(string)
	uri, _ := rec.Request["requestURI"].(string)
	sym.Assert(kit.Same(m, r.Method, false), "the record names the method")
	sym.Assert(kit.Same(uri, r.RequestURI, false), "the record names the URI")
	if want >= 0 {
		code, ok := rec.Response["statusCode"].(float64)
		sym.Assert(ok && int(code) == want, "the record names the status of the response")
	}
}

// HarnessSent: with the dumper among the middlewares the client gets the same answer as without it.
func HarnessSent() {
	text := sym.Text("body", sym.Choose("len", 3), " -~")
	code := sym.Int("code", 200, 599)
	value := sym.Text("value", 1, "!-~")
	kind := sym.Choose("kind", 5)
	fails := kind == 4
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		headers, cookies := response.HttpHeaders{"X-A": value}, response.NewHttpCookie(&http.Cookie{Name: "n", Value: "v"})
		switch kind {
		case 0:
			return response.PlainTextResponseWithHeadersAndCookies(code, text, headers, cookies), nil
		case 1:
			return response.JsonHttpResponseWithHeadersAndCookies(code, text, headers, cookies), nil
		case 2:
			return response.HandlerFuncAdaptor(func(w http.ResponseWriter, r *http.Request) {
				w.Header().Set("X-A", value)
				w.WriteHeader(code)
				io.WriteString(w, text)
			}), nil
		case 3:
			return response.RedirectHttpResponse("https://a.test/" + value), nil
		}
		return nil, errors.New("failed")
	}
	kit.FixedAddresses = true
	serve := func(mws ...middleware.Middleware) *kit.W {
		m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
		m.HandleGet("/x", handler.Handler(h), mws...)
		return kit.Serve(m, "GET", "/x")
	}
	records := 0
	with := serve(middleware.RequestDumper(func(string) { records++ }))
	without := serve()
	sym.Reach("served")
	sym.Assert(with.Status == without.Status && kit.Same(with.Body, without.Body, false), "status and body are those of the handler")
	sym.Assert(sameMap(with.Sent, without.Sent), "the headers are those of the handler")
	sym.Assert(fails && records == 0 || !fails && records == 1, "one record for a success, none for a failure")
}

// HarnessLarge: requests with many and long parts.
func HarnessLarge() {
	kit.FixedAddresses = true
	r := kit.Request("POST", "/x")
	n := sym.Size("size", kit.Sizes[:5], 70000, "middleware")
	v := kit.Long("v", n)
	uri := "/x"
	b := io.NopCloser(strings.NewReader(v))
	switch sym.Choose("part", 5) {
	case 0:
		uri = "/" + v
		r.URL.Path = uri
	case 1:
		r.Header.Set("X-Long", v)
	case 2:
		for i := 0; i < n/16; i++ {
			r.Header.Add("X-"+strconv.Itoa(i%40), strconv.Itoa(i))
		}
	case 3:
		r.ContentLength = int64(n)
		r.Header.Set("Content-Type", "text/plain")
	case 4:
		r.URL.RawQuery = "q=" + v
		uri = "/x?q=" + v
	}
	r.RequestURI = uri
	r.Body = b
	head := r.Header.Clone()
	resp := kit.NewResp(200, v)
	records := []string{}
	read := ""
	got, err := middleware.RequestDumper(func(s string) { records = append(records, s) })(func(c context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		all, e := io.ReadAll(mc.R.Body)
		sym.Assert(e == nil && sameMap(mc.R.Header, head), "the handler gets the same request")
		read = string(all)
		return resp, nil
	})(context.Background(), path.MatchingContext{R: r})
	sym.Reach("dumped")
	sym.Assert(got == resp && err == nil, "the response is returned unchanged")
	sym.Assert(len(read) == len(v) && kit.Same(read, v, false), "the handler reads the whole body")
	sym.Assert(len(records) == 1, "a successful request leaves one record")
	var rec struct {
		Request map[string]interface{} `json:"request"`
	}
	sym.Assert(json.Unmarshal([]byte(records[0]), &rec) == nil, "the record is JSON")
	u, _ := rec.Request["requestURI"].(string)
	sym.Assert(len(u) == len(uri) && kit.Same(u, uri, false), "the record names the URI")
}

// HarnessNames: headers, cookies and parameters are the handler's and the client's own, whatever their names.
func HarnessNames() {
	kit.FixedAddresses = true
	list := []string{"Authorization", "Proxy-Authorization", "X-Api-Key", "Cookie", "Set-Cookie", "X-Csrf-Token", "X-Auth-Token", "Www-Authenticate", "password", "token", "access_token", "secret", "session", "Content-Type", "Content-Length", "Date", "Etag", "Connection"}
	name := ""
	if k := sym.Choose("name", len(list)+1); k < len(list) {
		name = list[k]
	} else {
		name = sym.Constant("name.known", "middleware", "auth/oauth", "")
	}
	v := sym.Text("value", 1, "!-~")
	r := kit.Request("POST", "/x")
	r.Header[http.CanonicalHeaderKey(name)] = []string{v, "two"}
	r.URL.RawQuery = "k=" + v
	r.RequestURI = "/x?k=" + v
	b := &body{}
	r.Body = b
	head := r.Header.Clone()
	resp := kit.NewResp(sym.Int("status", 100, 599), "text")
	resp.H[name] = v
	resp.H["X-Own"] = "1"
	cname := strings.Map(func(c rune) rune {
		if c == '-' || c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' {
			return c
		}
		return 'x'
	}, name)
	c := &http.Cookie{Name: cname, Value: "v", HttpOnly: true}
	resp.C.Add(c)
	before := *c
	boom := error(nil)
	if sym.Choose("fail", 2) == 1 {
		sym.Assume(name == "Etag")
		boom = kit.AnyError("error")
	}
	records := []string{}
	got, err := middleware.RequestDumper(func(s string) { records = append(records, s) })(func(c context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		sym.Assert(mc.R == r && sameMap(r.Header, head) && r.URL.RawQuery == "k="+v && b.reads == 0, "the handler gets the same request")
		if boom != nil {
			return nil, boom
		}
		return resp, nil
	})(context.Background(), path.MatchingContext{R: r})
	sym.Reach("dumped")
	if boom != nil {
		sym.Assert(got == nil && err == boom && len(records) == 0, "an error is returned unchanged and leaves no record")
		return
	}
	sym.Assert(err == nil && got == response.HttpResponse(resp) && len(records) == 1, "the response is returned unchanged")
	sym.Assert(resp.Text == "text" && resp.Writes == 0, "and not written")
	want := 2
	if name == "X-Own" {
		want = 1
	}
	sym.Assert(len(resp.H) == want && (want == 1 || kit.Same(resp.H[name], v, false)) && resp.H["X-Own"] == "1", "its headers are the handler's")
	sym.Assert(len(resp.C) == 1 && c.String() == before.String(), "its cookies are the handler's")
	sym.Assert(sameMap(r.Header, head), "the headers of the request stay")
}

// HarnessStatus: every status leaves its record, whatever the response carries besides it.
func HarnessStatus() {
	kit.FixedAddresses = true
	code := sym.Int("code", 100, 999)
	var resp response.HttpResponse
	switch sym.Choose("kind", 4) {
	case 0:
		resp = response.PlainTextHttpResponse(code, "")
	case 1:
		k := kit.NewResp(code, "")
		k.H, k.C = nil, nil
		resp = k
	case 2:
		k := kit.NewResp(code, "x")
		k.C.Add(&http.Cookie{Name: "a", Value: "b"})
		resp = k
	case 3:
		k := kit.NewResp(code, "x")
		k.H["X-A"] = "b"
		resp = k
	}
	method := []string{"GET", "HEAD", "POST", "OPTIONS", "DELETE"}[sym.Choose("method", 5)]
	r := kit.Request(method, "/x")
	r.RequestURI = "/x"
	var records []string
	got, err := middleware.RequestDumper(func(s string) { records = append(records, s) })(func(context.Context, path.MatchingContext) (response.HttpResponse, error) { return resp, nil })(context.Background(), path.MatchingContext{R: r})
	sym.Reach("dumped")
	sym.Assert(got == resp && err == nil, "the response is returned unchanged")
	sym.Assert(len(records) == 1, "a successful request leaves one record")
	// the status is symbolic, so it is looked at as text
	sym.Assert(strings.Contains(records[0], strconv.Itoa(code)), "the record names the status of the response")
}
