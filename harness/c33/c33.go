// Package c33: standard handlers behave the same behind the framework.
package c33

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// Spoken: what the property speaks of, see kit.Request.
func init() {
	kit.Spoken = []string{"Origin", "Access-Control-Request-Method", "Access-Control-Request-Headers", "Content-Type", "Accept-Encoding"}
}

// conn stands for a connection that was taken over.
type conn struct{ net.Conn }

// hj is a writer whose connection can be taken over.
type hj struct {
	*kit.W
	c     *conn
	err   error
	taken int
}

func (h *hj) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	h.taken++
	if h.err != nil {
		return nil, nil, h.err
	}
	return h.c, nil, nil
}

// plain is a writer that can do nothing but write.
type plain struct{ w *kit.W }

func (p plain) Header() http.Header         { return p.w.Header() }
func (p plain) WriteHeader(c int)           { p.w.WriteHeader(c) }
func (p plain) Write(b []byte) (int, error) { return p.w.Write(b) }

// deed is a step of a standard handler.
type deed struct {
	kind int
	code int
	text string
}

// app is a standard handler that performs some deeds and keeps what it is given.
type app struct {
	deeds []deed
	runs  int
	r     *http.Request
	read  string
	saw   http.Header // the headers present when the handler starts
	can   string      // what the writer can do besides writing
}

func (a *app) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	a.runs++
	a.r = r
	a.saw = w.Header().Clone()
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		a.read = string(b)
	}
	if _, ok := w.(http.Flusher); ok {
		a.can += "flush "
	}
	if _, ok := w.(http.Hijacker); ok {
		a.can += "hijack "
	}
	if _, ok := w.(io.StringWriter); ok {
		a.can += "string "
	}
	for _, d := range a.deeds {
		switch d.kind {
		case 0:
			w.WriteHeader(d.code)
		case 1:
			n, err := w.Write([]byte(d.text))
			sym.Assert(n == len(d.text) && err == nil, "the handler's writes succeed")
		case 2:
			w.Header().Set("X-H", d.text)
		case 3:
			w.Header().Add("Set-Cookie", "h="+d.text)
		case 4:
			w.Header().Set("Content-Type", "text/"+d.text)
		case 5:
			w.Header().Del("X-M")
		case 6:
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
		case 7:
			panic("handler")
		}
	}
}

func deeds() (ds []deed) {
	for i, n := 0, sym.Choose("deeds", sym.Pick(3, 4)); i < n; i++ {
		d := deed{kind: sym.Choose("deed", 8)}
		switch d.kind {
		case 0:
			d.code = sym.Int("code", 200, 999)
		case 1:
			d.text = sym.String("body", sym.Choose("len", 3))
		case 2, 3, 4:
			d.text = sym.Text("value", 1, "!-~")
		}
		ds = append(ds, d)
	}
	return
}

func req() *http.Request {
	method := []string{"GET", "POST", "HEAD"}[sym.Choose("method", 3)]
	r := kit.Request(method, "/x/y")
	kit.AnyConnection(r)
	r.URL.RawQuery = "q=" + sym.Text("query", 1, " -~") + r.URL.RawQuery
	r.Header.Set("X-In", sym.Text("in", 1, " -~"))
	if method == "POST" {
		r.Body = io.NopCloser(strings.NewReader("payload"))
	}
	return r
}

func writer(kind int) (*kit.W, http.ResponseWriter) {
	w := kit.NewW()
	switch kind {
	case 1:
		return w, &hj{W: w}
	case 2:
		return w, plain{w}
	case 3:
		return w, kit.WS{W: w}
	}
	return w, w
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	c := true
	for i := range a {
		c = sym.And(c, kit.Same(a[i], b[i], false))
	}
	return c
}

// together compares lists whose order does not matter.
func together(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	c := true
	for i := range a {
		inA, inB := 0, 0
		for j := range a {
			inA += sym.IteInt(kit.Same(a[i], a[j], false), 1, 0)
			inB += sym.IteInt(kit.Same(a[i], b[j], false), 1, 0)
		}
		c = sym.And(c, inA == inB)
	}
	return c
}

// with adds what a middleware puts on the response.
func with(h func(http.Header), cookies ...*http.Cookie) middleware.Middleware {
	return func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			r, err := next(ctx, mc)
			if err == nil {
				x := http.Header{}
				h(x)
				for k, v := range x {
					r.Headers().Set(k, v[0])
				}
				r.Cookies().Add(cookies...)
			}
			return r, err
		}
	}
}

// HarnessAdaptor: the same standard handler directly and behind the framework.
func HarnessAdaptor() {
	a, direct := &app{deeds: deeds()}, &app{}
	direct.deeds = a.deeds
	value := sym.Text("mw", 1, "!-~")
	deco := sym.Choose("deco", 4)
	put := func(h http.Header) {
		if deco > 0 {
			h.Set("X-M", value)
			h.Set("X-H", "from the middleware")
		}
	}
	var cookies []*http.Cookie
	if deco == 2 {
		cookies = []*http.Cookie{{Name: "m", Value: "1"}}
	}
	if deco == 3 {
		cookies = []*http.Cookie{{Name: "m", Value: "1"}, {Name: "n", Value: "2", Path: "/x"}}
	}
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) { sym.Fail("nothing is logged for a standard handler") }})
	sym.Assert(err == nil, "the default configuration is valid")
	h := handler.Handler2Handler(a)
	if sym.Choose("func", 2) == 1 {
		h = handler.HandlerFunc2Handler(a.ServeHTTP)
	}
	m.CommonMiddlewares(with(put, cookies...))
	r := req()
	m.HandleRequest(r.Method, "/x/{v}", h)
	kind := sym.Choose("writer", sym.Pick(2, 4))
	w, rw := writer(kind)
	panicked, v := sym.Guard(func() { m.ServeHTTP(rw, r) })
	sym.Reach("served")
	sym.Observe("status", w.Status)

	// directly, with the middleware's headers already there
	dw, drw := writer(kind)
	put(dw.H)
	for _, c := range cookies {
		http.SetCookie(drw, c)
	}
	in := r
	if r.Body != nil {
		cp := *r
		cp.Body = io.NopCloser(strings.NewReader("payload"))
		in = &cp
	}
	dPanicked, dv := sym.Guard(func() { direct.ServeHTTP(drw, in) })
	sym.Assert(a.runs == 1, "the handler runs once")
	sym.Assert(panicked == dPanicked && v == dv, "a panic passes through")
	sym.Assert(a.r == r, "the handler gets the original request")
	sym.Assert(a.read == direct.read, "the handler reads the body")
	sym.Assert(a.can == direct.can, "the writer can do what it could")
	sym.Assert(w.Status == dw.Status && w.Writes == dw.Writes, "the status is the handler's")
	sym.Assert(kit.Same(w.Body, dw.Body, false) && w.Flushes == dw.Flushes, "the body is the handler's")
	sym.Assert(len(w.Log) == len(dw.Log), "the client gets it piece by piece")
	heads := func(a, b http.Header) bool {
		if len(a) != len(b) {
			return false
		}
		for k := range a {
			if k == "Set-Cookie" {
				if !together(a[k], b[k]) {
					return false
				}
			} else if !same(a[k], b[k]) {
				return false
			}
		}
		return true
	}
	sym.Assert(heads(a.saw, direct.saw), "the middlewares' headers and cookies are there before the handler starts")
	sym.Assert(heads(w.H, dw.H) && heads(w.Sent, dw.Sent), "the headers are the handler's and the middlewares'")
}

// HarnessOften: one adapted handler serves many requests; what a middleware adds for one of them stays there.
func HarnessOften() {
	a := &app{deeds: []deed{{kind: 1, text: "x"}}}
	m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	turn := -1
	n := sym.Pick(3, 4)
	var value []string
	var cookie []bool
	for i := 0; i < n; i++ {
		value = append(value, sym.Text("value", sym.Choose("len", 2), "!-~"))
		cookie = append(cookie, sym.Bool("cookie"))
	}
	m.CommonMiddlewares(func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			r, err := next(ctx, mc)
			if value[turn] != "" {
				r.Headers().Set("X-M", value[turn])
			}
			if cookie[turn] {
				r.Cookies().Add(&http.Cookie{Name: "c", Value: string(rune('0' + turn))})
			}
			return r, err
		}
	})
	m.HandleGet("/x", handler.Handler2Handler(a))
	for turn = 0; turn < n; turn++ {
		w := kit.Serve(m, "GET", "/x")
		sym.Reach("served")
		sym.Assert(w.Status == 200 && w.Body == "x" && a.runs == turn+1, "every request reaches the handler")
		if value[turn] == "" {
			sym.Assert(len(w.Sent["X-M"]) == 0, "a header of one response does not appear on another")
		} else {
			sym.Assert(same(w.Sent["X-M"], []string{value[turn]}), "the header set on the response is sent")
		}
		if cookie[turn] {
			sym.Assert(same(w.Sent["Set-Cookie"], []string{"c=" + string(rune('0'+turn))}), "the cookie set on the response is sent")
		} else {
			sym.Assert(len(w.Sent["Set-Cookie"]) == 0, "a cookie of one response does not appear on another")
		}
	}
}

// HarnessHijack: a connection is handed over whatever middlewares are installed.
func HarnessHijack() {
	m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) { sym.Fail("nothing is logged for a hijacked connection") }})
	switch sym.Choose("mw", 6) {
	case 1:
		m.CommonMiddlewares(with(func(h http.Header) { h.Set("X-M", "1") }, &http.Cookie{Name: "m", Value: "1"}))
	case 2:
		m.CommonMiddlewares(middleware.CompressResponse(1 + sym.Choose("level", 2)))
	case 3:
		m.CommonMiddlewares(middleware.PanicRecover(), middleware.RequestDumper(func(string) {}))
	case 4:
		m.CommonMiddlewares(middleware.SecurityHeaders(middleware.SecurityHeadersConfig{BlockContentSniffingEnabled: true, XSSProtectionEnabled: true, STS: middleware.ShStrictTransportSecurityConfig{Enabled: true}}))
	case 5:
		m.CommonMiddlewares(middleware.Cors(middleware.CorsConfig{AnyOriginAllowed: true, AllowedHttpMethods: []string{"GET"}}))
	}
	runs := 0
	var gotC net.Conn
	var gotErr error
	std := sym.Choose("std", 2) == 1
	if std {
		m.HandleGet("/ws", handler.HandlerFunc2Handler(func(w http.ResponseWriter, r *http.Request) {
			runs++
			if h, ok := w.(http.Hijacker); ok {
				gotC, _, gotErr = h.Hijack()
			} else {
				gotErr = errors.New("not supported")
			}
		}))
	} else {
		m.HandleGet("/ws", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			return response.NewHttpHijackConnectionResponse(func(c net.Conn, rw *bufio.ReadWriter, err error) {
				runs++
				gotC, gotErr = c, err
			}), nil
		})
	}
	r := kit.Request("GET", "/ws")
	if sym.Choose("encoding", 2) == 1 {
		r.Header.Set("Accept-Encoding", "gzip, deflate, br")
	}
	if sym.Choose("cors", 2) == 1 {
		r.Header.Set("Origin", "https://other.test")
	}
	h := &hj{W: kit.NewW(), c: &conn{}}
	var rw http.ResponseWriter = h
	able := true
	switch sym.Choose("writer", 3) {
	case 1:
		h.err = errors.New("taken")
		able = false
	case 2:
		rw, able = plain{h.W}, false
	}
	panicked, _ := sym.Guard(func() { m.ServeHTTP(rw, r) })
	sym.Reach("served")
	sym.Assert(!panicked && runs == 1, "the connection is offered to the application once")
	if able {
		sym.Assert(gotErr == nil && gotC == net.Conn(h.c) && h.taken == 1, "the application gets the connection")
	} else {
		sym.Assert(gotErr != nil && gotC == nil && (h.err == nil || gotErr == h.err), "the application gets the error")
	}
	sym.Assert(h.Status == 0 && h.Body == "", "nothing is written to a connection that was taken over")
}

// HarnessLarge: large bodies in many pieces, both ways, and many headers.
func HarnessLarge() {
	n := sym.Size("size", kit.Sizes, 70000, "response", "handler")
	out, in := kit.Blob("out", n), kit.Blob("in", n)
	piece := []int{1 << 20, 4096, 700}[sym.Choose("piece", 3)]
	flush := sym.Choose("flush", 2) == 1
	read := ""
	serve := func(w http.ResponseWriter, r *http.Request) {
		b, err := io.ReadAll(r.Body)
		sym.Assert(err == nil, "the body can be read")
		read = string(b)
		for i := 0; i < 40; i++ {
			w.Header().Add("X-"+string(rune('a'+i%20)), string(rune('a'+i%7)))
			http.SetCookie(w, &http.Cookie{Name: "c" + string(rune('a'+i%20)), Value: "1"})
		}
		for s := out; s != ""; {
			k := piece
			if k > len(s) {
				k = len(s)
			}
			m, err := w.Write([]byte(s[:k]))
			sym.Assert(m == k && err == nil, "the handler's writes succeed")
			s = s[k:]
			if f, ok := w.(http.Flusher); ok && flush {
				f.Flush()
			}
		}
	}
	m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) { sym.Fail("nothing is logged for a standard handler") }})
	m.CommonMiddlewares(with(func(h http.Header) {
		for i := 0; i < 40; i++ {
			h.Set("X-M"+string(rune('a'+i%26)), "m")
		}
	}))
	m.HandlePost("/x", handler.HandlerFunc2Handler(serve))
	r := kit.Request("POST", "/x")
	r.Body = io.NopCloser(strings.NewReader(in))
	w := kit.NewW()
	m.ServeHTTP(w.Writer(true), r)
	sym.Reach("served")
	sym.Assert(read == in, "the handler reads the whole body")
	sym.Assert(w.Status == 200 && w.Body == out, "the body is the handler's")
	sym.Assert(len(w.Sent) == 20+26+1 && len(w.Sent["Set-Cookie"]) == 40, "the headers are the handler's and the middlewares'")
}

// HarnessRequest: whatever the kind of request, the standard handler gets it untouched: nothing of the body is read, no form
// is parsed, nothing in the address and the headers is changed.
func HarnessRequest() {
	kit.FixedAddresses = true
	methods := []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE", "PROPFIND"}
	method := ""
	if k := sym.Choose("method", len(methods)+1); k < len(methods) {
		method = methods[k]
	} else {
		method = sym.Constant("method.known", "response", "handler", "router", "")
		sym.Assume(!strings.ContainsAny(method, "/"))
	}
	types := []string{"", "application/x-www-form-urlencoded", "multipart/form-data; boundary=b", "application/json", "text/plain", "application/octet-stream", "application/grpc"}
	r := kit.Request(method, "/x/y")
	if ct := types[sym.Choose("type", len(types))]; ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	text := []string{"", "a=1&b=2", "--b\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n1\r\n--b--\r\n"}[sym.Choose("body", 3)]
	b := &counted{Reader: strings.NewReader(text)}
	r.Body = b
	r.ContentLength = int64(len(text))
	switch sym.Choose("extra", 7) {
	case 1:
		r.ContentLength, r.TransferEncoding = -1, []string{"chunked"}
	case 2:
		r.URL.RawQuery = "a=3&c=%zz;d"
	case 3:
		r.URL.RawPath = "/x/%79"
	case 4:
		r.Header.Set("Expect", "100-continue")
	case 5:
		r.Trailer = http.Header{"X-T": nil}
		r.Header.Set("Cookie", "a=b; c=\"d\"")
	case 6:
		r.Header.Set("Upgrade", "h2c")
		r.Header.Set("Connection", "Upgrade")
	}
	r.RequestURI = "/x/y?" + r.URL.RawQuery
	before, u, head := *r, *r.URL, r.Header.Clone()
	runs := 0
	h := func(w http.ResponseWriter, got *http.Request) {
		runs++
		sym.Assert(got == r, "the handler gets the original request")
		sym.Assert(b.reads == 0 && b.closes == 0 && got.Body == io.ReadCloser(b), "nothing of the body was read")
		sym.Assert(got.Form == nil && got.PostForm == nil && got.MultipartForm == nil, "no form was parsed")
		sym.Assert(got.URL == before.URL && *got.URL == u && got.RequestURI == before.RequestURI && got.Host == before.Host, "the address is untouched")
		sym.Assert(got.Method == method && got.ContentLength == before.ContentLength && same(got.TransferEncoding, before.TransferEncoding), "the framing is untouched")
		sym.Assert(len(got.Header) == len(head) && len(got.Trailer) == len(before.Trailer), "the headers are untouched")
		for k, v := range head {
			sym.Assert(same(got.Header[k], v), "the headers are untouched")
		}
		all, err := io.ReadAll(got.Body)
		sym.Assert(err == nil && string(all) == text, "the handler reads the whole body")
	}
	m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) { sym.Fail("nothing is logged for a standard handler") }})
	if sym.Choose("func", 2) == 1 {
		m.HandleRequest(method, "/x/{v}", handler.HandlerFunc2Handler(h))
	} else {
		m.HandleRequest(method, "/x/{v}", handler.Handler2Handler(http.HandlerFunc(h)))
	}
	w := kit.NewW()
	m.ServeHTTP(w.Writer(true), r)
	sym.Reach("served")
	sym.Assert(runs == 1, "the handler runs once")
	sym.Assert(b.closes == 0, "closing the body is left to the server")
}

type counted struct {
	io.Reader
	reads, closes int
}

func (c *counted) Read(p []byte) (int, error) { c.reads++; return c.Reader.Read(p) }
func (c *counted) Close() error               { c.closes++; return nil }

// HarnessCookies: the cookies and headers of the middlewares are sent whatever they contain and whatever the client sent.
func HarnessCookies() {
	kit.FixedAddresses = true
	value := sym.Text("value", sym.Choose("len", 3), "a-z0-9")
	c := &http.Cookie{Name: "a", Value: value}
	switch sym.Choose("life", 4) {
	case 1:
		c.MaxAge = -1
	case 2:
		c.MaxAge = 7
	case 3:
		c.Path, c.Secure, c.HttpOnly = "/x", true, true
	}
	name := []string{"X-Empty", "Etag", "Content-Language", "X-A"}[sym.Choose("header", 4)]
	text := sym.Text("text", sym.Choose("tlen", 2), "!-~")
	wantCookie := c.String()
	m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) { sym.Fail("nothing is logged for a standard handler") }})
	m.CommonMiddlewares(func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			r, err := next(ctx, mc)
			r.Headers().Set(name, text)
			r.Cookies().Add(c)
			r.Cookies().Add(&http.Cookie{Name: "b", Value: "2"})
			return r, err
		}
	})
	code := sym.Int("code", 200, 599)
	m.HandleGet("/x", handler.HandlerFunc2Handler(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(code) }))
	r := kit.Request("GET", "/x")
	switch sym.Choose("sent", 4) {
	case 1:
		r.Header.Set("Cookie", "a=1")
	case 2:
		r.Header.Set("Cookie", "b=1; a="+value)
	case 3:
		r.Header.Set(name, text)
	}
	w := kit.NewW()
	m.ServeHTTP(w.Writer(true), r)
	sym.Reach("cookies")
	sym.Assert(w.Status == code, "the status is the handler's")
	set := w.Sent["Set-Cookie"]
	sym.Assert(len(set) == 2 && (kit.Same(set[0], wantCookie, false) && set[1] == "b=2" || kit.Same(set[1], wantCookie, false) && set[0] == "b=2"), "the cookies of the middlewares are sent")
	sym.Assert(len(w.Sent[name]) == 1 && kit.Same(w.Sent[name][0], text, false), "the headers of the middlewares are sent")
}

// HarnessAbort: a handler that aborts its response, with whatever value, aborts it behind the framework too.
func HarnessAbort() {
	values := []any{http.ErrAbortHandler, io.EOF, errors.New("no"), "text", "", 7, struct{}{}, fmt.Errorf("wrapped: %w", http.ErrAbortHandler)}
	value := values[sym.Choose("value", len(values))]
	before := sym.Choose("before", 3)
	f := func(w http.ResponseWriter, r *http.Request) {
		if before > 0 {
			w.WriteHeader(200)
		}
		if before > 1 {
			io.WriteString(w, "part")
		}
		panic(value)
	}
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) { sym.Fail("nothing is logged for a standard handler") }})
	sym.Assert(err == nil, "the default configuration is valid")
	h := handler.Handler2Handler(http.HandlerFunc(f))
	if sym.Choose("func", 2) == 1 {
		h = handler.HandlerFunc2Handler(f)
	}
	m.HandleGet("/x", h)
	w := kit.NewW()
	r := kit.Request("GET", "/x")
	kit.AnyConnection(r)
	panicked, v := sym.Guard(func() { m.ServeHTTP(w.Writer(false), r) })
	sym.Reach("served")
	sym.Assert(panicked && v == value, "a panic passes through")
	sym.Assert((w.Status == 200) == (before > 0) && (w.Body == "part") == (before > 1), "nothing is added to what the handler sent")
	m.HandleGet("/y", kit.Handle(func(path.MatchingContext) {}))
	sym.Assert(kit.Serve(m, "GET", "/y").Status == 200, "the next request is served")
}
