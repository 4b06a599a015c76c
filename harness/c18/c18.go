// Package c18: cross-origin responses are released only to permitted origins.
package c18

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strings"

	gerr "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// Spoken: what the property speaks of, see kit.Request.
func init() {
	kit.Spoken = []string{"Origin", "Access-Control-Request-Method", "Access-Control-Request-Headers", "Content-Type"}
}

// send runs one request through the middleware; handler headers are set beforehand.
func send(cfg middleware.CorsConfig, r *http.Request, pre map[string]string, herr error) (response.HttpResponse, error, int) {
	calls := 0
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		calls++
		if herr != nil {
			return nil, herr
		}
		resp := kit.NewResp(200, "secret")
		for k, v := range pre {
			resp.H[k] = v
		}
		return resp, nil
	}
	got, err := middleware.Cors(cfg)(h)(context.Background(), path.MatchingContext{R: r})
	return got, err, calls
}

// vary is what the Vary header becomes when names are added.
func varyHas(v, name string) bool {
	for _, x := range strings.Split(v, ",") {
		x = strings.TrimSpace(x)
		if x == "*" || x == name {
			return true
		}
	}
	return false
}

// checkHeaders compares the headers of a released response with the configuration.
func checkHeaders(h response.HttpHeaders, cfg middleware.CorsConfig, origin, method string, pre map[string]string) {
	want := map[string]string{}
	for k, v := range pre {
		if k != "Vary" {
			want[k] = v
		}
	}
	vary := []string{}
	if cfg.AnyOriginAllowed {
		want["Access-Control-Allow-Origin"] = "*"
	} else {
		want["Access-Control-Allow-Origin"] = origin
		vary = append(vary, "Origin")
	}
	if cfg.SupportsCredentials {
		want["Access-Control-Allow-Credentials"] = "true"
	}
	if len(cfg.ExposedHeaders) > 0 {
		want["Access-Control-Expose-Headers"] = strings.Join(cfg.ExposedHeaders, ",")
	}
	if method == "OPTIONS" {
		vary = append(vary, "Access-Control-Request-Method", "Access-Control-Request-Headers")
		if cfg.PreflightMaxAgeSeconds > 0 {
			want["Access-Control-Max-Age"] = fmt.Sprint(cfg.PreflightMaxAgeSeconds)
		}
		if len(cfg.AllowedHttpMethods) > 0 {
			want["Access-Control-Allow-Methods"] = strings.Join(cfg.AllowedHttpMethods, ",")
		}
		if len(cfg.AllowedHttpHeaders) > 0 {
			want["Access-Control-Allow-Headers"] = strings.Join(cfg.AllowedHttpHeaders, ",")
		}
	}
	got := 0
	for k, v := range h {
		if k == "Vary" {
			continue
		}
		got++
		w, ok := want[k]
		sym.Assert(ok, "no header appears that was not configured")
		sym.Assert(kit.Same(v, w, false), "headers appear with the configured values")
	}
	sym.Assert(got == len(want), "every configured header appears")
	for _, v := range vary {
		sym.Assert(varyHas(h["Vary"], v), "the response varies by what decided it")
	}
	for _, p := range strings.Split(pre["Vary"], ",") {
		if p = strings.TrimSpace(p); p != "" {
			sym.Assert(varyHas(h["Vary"], p), "what the handler said about varying stays")
		}
	}
	if len(vary) == 0 {
		sym.Assert(h["Vary"] == pre["Vary"], "nothing is added to Vary when any origin gets the same answer")
	}
}

var origins = []string{"https://a.test", "http://b.test:81", "null"}

// origin makes a request origin: an allowed one, one with an arbitrary byte replaced, inserted,
// removed or appended, and some others.
func origin() string {
	o := origins[sym.Choose("origin.base", 3)]
	pos := func(n int) int {
		if sym.Thorough() {
			return sym.Choose("origin.at", n)
		}
		return []int{0, n / 2, n - 1, 6 % n, 7 % n}[sym.Choose("origin.at", 5)]
	}
	switch sym.Choose("origin.edit", 6) {
	case 1: // one byte is anything
		at := pos(len(o))
		return o[:at] + sym.String("origin.byte", 1) + o[at+1:]
	case 2:
		at := pos(len(o) + 1)
		return o[:at] + sym.String("origin.byte", 1) + o[at:]
	case 3:
		at := pos(len(o))
		return o[:at] + o[at+1:]
	case 4:
		return []string{"", "HTTPS://A.TEST", "https://A.test", "https://a.test/", "https://a.test:443", "https://a.test.evil.test",
			"https://evil.test/https://a.test", "file://x", "https://a.test,https://evil.test", " https://a.test", "*", "https://b.test:81", "http://b.test", "http://x.b.test:81", "a.test", "https://*"}[sym.Choose("origin.other", 16)]
	case 5:
		return sym.Text("origin.text", 1+sym.Choose("origin.len", sym.Pick(3, 4)), "a:/n*%")
	}
	return o
}

func inList(o string, list []string, fold bool) bool {
	r := false
	for _, x := range list {
		r = sym.Or(r, kit.Same(o, x, fold))
	}
	return r
}

// HarnessOrigin: whatever the origin, only the listed ones get the response.
func HarnessOrigin() {
	cfg := middleware.CorsConfig{AllowedHttpMethods: []string{"GET", "post", "OPTIONS"}, AllowedHttpHeaders: []string{"X-One"}}
	n := sym.Choose("listed", 4)
	cfg.AllowedOrigins = [][]string{nil, {origins[1]}, origins, {"https://a.test/", "*.b.test:81", "HTTP://B.test:81", "https://*", "*", "a.test"}}[n]
	cfg.AnyOriginAllowed = sym.Choose("any", 2) == 1
	cfg.SupportsCredentials = n == 2
	o := origin()
	method := []string{"GET", "POST", "OPTIONS", "HEAD"}[sym.Choose("method", 4)]
	r := kit.Request(method, "/x")
	kit.AnyConnection(r)
	r.Header["Origin"] = []string{o}
	if method == "POST" {
		r.Header.Set("Content-Type", "text/plain")
	}
	if method == "OPTIONS" && sym.Choose("preflight", 2) == 1 {
		r.Header.Set("Access-Control-Request-Method", "GET")
	}
	pre := map[string]string{"X-Own": "1"}
	got, err, calls := send(cfg, r, pre, nil)
	sym.Reach("sent")
	sym.Observe("denied", err != nil)
	sym.Assert(calls <= 1, "the handler runs at most once")
	sym.Assert(sym.Iff(got == nil, err != nil), "a denied request carries no response, an allowed one does")
	listed := inList(o, cfg.AllowedOrigins, false)
	if err != nil {
		sym.Assert(errors.Is(err, gerr.ErrAccessDenied), "it fails with access denied")
		if method != "HEAD" && !cfg.AnyOriginAllowed && n < 3 { // what is listed in the last list may be no origin at all
			sym.Assert(sym.Not(listed), "a listed origin is served")
		}
		if method != "HEAD" && cfg.AnyOriginAllowed {
			sym.Assert(sym.Not(inList(o, origins, false)), "any well-formed origin is served when any is allowed")
		}
		return
	}
	sym.Assert(method != "HEAD", "a method that is not listed is denied")
	if !cfg.AnyOriginAllowed {
		sym.Assert(listed, "only a listed origin is served")
	}
	checkHeaders(got.Headers(), cfg, o, method, pre)
}

// HarnessPreflight: announced methods and headers against the lists.
func HarnessPreflight() {
	cfg := middleware.CorsConfig{AllowedOrigins: []string{"https://a.test"}}
	cfg.AnyOriginAllowed = sym.Choose("any", 2) == 1
	cfg.AllowedHttpMethods = [][]string{nil, {"get", "PUT"}, {"OPTIONS", "PATCH"}}[sym.Choose("methods", 3)]
	cfg.AllowedHttpHeaders = [][]string{nil, {"X-One", "x-2"}}[sym.Choose("headers", 2)]
	r := kit.Request("OPTIONS", "/x")
	kit.AnyConnection(r)
	r.Header.Set("Origin", "https://a.test")
	var m string
	if sym.Choose("announce", 2) == 0 {
		m = []string{"GET", "PUT", "patch", "options", "DELETE", " get "}[sym.Choose("announced", 6)]
	} else {
		m = sym.Text("announced", 3, "GgEeTtPpUu")
	}
	r.Header.Set("Access-Control-Request-Method", m)
	menu := []string{"x-one", "X-2", "X-Three", "x-on", "X-One-More", ""}
	var hs []string
	ok := true
	for i, n := 0, sym.Choose("header count", sym.Pick(3, 4)); i < n; i++ {
		var h string
		if i == 0 && sym.Choose("header any", 2) == 1 {
			h = "x-" + sym.Text("header", 1+sym.Choose("header.len", 3), "oOnNeE12")
		} else {
			h = menu[sym.Choose("header", len(menu))]
		}
		hs = append(hs, h)
		if h != "" {
			ok = sym.And(ok, inList(h, cfg.AllowedHttpHeaders, true))
		}
	}
	if len(hs) > 0 {
		if len(hs) > 1 && sym.Choose("lines", 2) == 1 {
			r.Header["Access-Control-Request-Headers"] = hs
		} else {
			r.Header.Set("Access-Control-Request-Headers", strings.Join(hs, []string{",", ", ", " ,"}[len(hs)%3]))
		}
	}
	ok = sym.And(ok, inList(strings.TrimSpace(m), cfg.AllowedHttpMethods, true))
	vary := len(hs)
	if vary == 0 {
		vary = sym.Choose("vary", 5)
	}
	pre := map[string]string{"Vary": []string{"X-Origin", "Accept", "*", "Accept, Origin", "Access-Control-Request-Methods,Original"}[vary]}
	got, err, _ := send(cfg, r, pre, nil)
	sym.Reach("sent")
	sym.Observe("denied", err != nil)
	sym.Assert(sym.Iff(err == nil, ok), "a preflight succeeds exactly when the announced method and headers are listed")
	if err != nil {
		sym.Assert(got == nil && errors.Is(err, gerr.ErrAccessDenied), "otherwise it is denied")
		return
	}
	checkHeaders(got.Headers(), cfg, "https://a.test", "OPTIONS", pre)
}

// HarnessActual: the method of an actual request against the list.
func HarnessActual() {
	cfg := middleware.CorsConfig{AllowedOrigins: []string{"https://a.test"}}
	cfg.AnyOriginAllowed = sym.Choose("any", 2) == 1
	cfg.AllowedHttpMethods = [][]string{nil, {"get", "PUT"}, {"OPTIONS", "Patch", "HEAD"}, {"POST"}}[sym.Choose("methods", 4)]
	var m string
	if sym.Choose("ask", 2) == 0 {
		m = []string{"GET", "PUT", "PATCH", "OPTIONS", "DELETE", "HEAD", "POST"}[sym.Choose("method", 7)]
	} else {
		m = sym.Text("method", 3, "GETPUgetpu")
	}
	r := kit.Request(m, "/x")
	r.Header.Set("Origin", "https://a.test")
	if m == "POST" {
		r.Header.Set("Content-Type", []string{"application/json", "text/plain; charset=x", "MULTIPART/form-data"}[sym.Choose("type", 3)])
	}
	ok := inList(m, cfg.AllowedHttpMethods, true)
	got, err, _ := send(cfg, r, nil, nil)
	sym.Reach("sent")
	sym.Observe("denied", err != nil)
	sym.Assert(sym.Iff(err == nil, ok), "an actual request succeeds exactly when its method is listed")
	if err != nil {
		sym.Assert(got == nil && errors.Is(err, gerr.ErrAccessDenied), "otherwise it is denied")
		return
	}
	checkHeaders(got.Headers(), cfg, "https://a.test", m, nil)
}

// HarnessSame: requests of the site itself and without an origin are not restricted, and the
// configuration decides every header.
func HarnessSame() {
	cfg := middleware.CorsConfig{}
	cfg.AnyOriginAllowed = sym.Choose("any", 2) == 1
	cfg.SupportsCredentials = sym.Choose("credentials", 2) == 1
	cfg.PreflightMaxAgeSeconds = sym.Int("age", -1, 99)
	if sym.Choose("exposed", 2) == 1 {
		cfg.ExposedHeaders = []string{"X-A", "X-B"}
	}
	if sym.Choose("methods", 2) == 1 {
		cfg.AllowedHttpMethods = []string{"GET", "PUT"}
	}
	if sym.Choose("headers", 2) == 1 {
		cfg.AllowedHttpHeaders = []string{"X-One", "X-Two"}
	}
	method := []string{"GET", "OPTIONS", "DELETE"}[sym.Choose("method", 3)]
	r := kit.Request(method, "/x")
	kit.AnyConnection(r)
	sites := [][2]string{{"", ""}, {"http://s.test", "http://s.test"}, {"https://s.test:8443", "https://s.test:8443"}, {"http://s.test:80", "http://s.test"},
		{"https://s.test", "https://s.test:443"}, {"HTTPS://s.test", "https://s.test"}}
	site := sites[sym.Choose("site", len(sites))]
	o := site[1]
	if site[0] != "" {
		u, err := url.Parse(site[0] + "/x")
		sym.Assume(err == nil)
		r.URL = u
		r.Header.Set("Origin", o)
	}
	var herr error
	if sym.Choose("handler fails", 2) == 1 {
		herr = errors.New("handler")
	}
	got, err, calls := send(cfg, r, nil, herr)
	sym.Reach("sent")
	sym.Assert(calls == 1, "the handler runs")
	if herr != nil {
		sym.Assert(got == nil && err == herr, "the handler's error passes through")
		return
	}
	sym.Assert(err == nil && got != nil, "a request of the site itself is not restricted")
	checkHeaders(got.Headers(), cfg, o, method, nil)
}

// HarnessNotSame: an origin that differs from the site in host, scheme or port is cross-origin.
func HarnessNotSame() {
	cfg := middleware.CorsConfig{AllowedOrigins: []string{"https://a.test"}, AllowedHttpMethods: []string{"GET"}}
	host := []string{"s.test", "s.test:81", "s.test:80", "s.test:443"}[sym.Choose("host", 4)]
	scheme := []string{"http", "https"}[sym.Choose("scheme", 2)]
	r := kit.Request("GET", "/x")
	r.URL.Scheme, r.URL.Host = scheme, host
	oscheme := []string{"http", "https"}[sym.Choose("origin.scheme", 2)]
	oname := sym.Text("origin.name", 1, "srx") + ".test"
	oport := ""
	if sym.Choose("origin.port", 2) == 1 {
		oport = sym.Text("port", 2, "0-9")
	}
	o := oscheme + "://" + oname
	if oport != "" {
		o += ":" + oport
	}
	r.Header.Set("Origin", o)
	got, err, _ := send(cfg, r, nil, nil)
	sym.Reach("sent")
	sym.Observe("denied", err != nil)
	def := map[string]string{"http": "80", "https": "443"}
	port := def[scheme]
	if i := strings.IndexByte(host, ':'); i >= 0 {
		port = host[i+1:]
	}
	if oport == "" {
		oport = def[oscheme]
	}
	same := sym.And(oscheme == scheme, sym.And(kit.Same(oname, "s.test", false), kit.Same(oport, port, false)))
	sym.Assert(sym.Iff(err == nil, same), "an origin that is neither the site's nor listed is denied")
	sym.Assert(sym.Iff(got == nil, err != nil), "a denied request carries no response")
}

// HarnessOpen: any origin, of those the code knows about too.
func HarnessOpen() {
	cfg := middleware.CorsConfig{AllowedOrigins: []string{"https://a.test"}, AllowedHttpMethods: []string{"GET", "OPTIONS"}, SupportsCredentials: sym.Choose("credentials", 2) == 1}
	method := []string{"GET", "OPTIONS"}[sym.Choose("method", 2)]
	r := &http.Request{Method: method, URL: &url.URL{Path: "/x"}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "site", RemoteAddr: "192.0.2.1:1234"}
	if sym.Choose("address", 2) == 1 {
		r.URL.Scheme, r.URL.Host = "https", "s.test"
	}
	hosts := []string{"localhost", "localhost:3000", "127.0.0.1", "127.0.0.1:8080", "[::1]", "[::1]:80", "192.168.0.1", "10.0.0.1:81", "site", "www.a.test", "x.s.test", "a.test.", "s.test:444", "0", "test"}
	var values []string
	for _, h := range hosts {
		values = append(values, "http://"+h, "https://"+h)
	}
	values = append(values, "http://a.test", "ftp://a.test", "chrome-extension://a.test", "moz-extension://x", "app://localhost", "capacitor://localhost", "ws://a.test", "wss://a.test", "null", "Null", "undefined", "about:blank", "data:,", "https://a.test ", "https://a.test\t")
	sym.OpenHeader(r.Header, values, "Access-Control-Request-Method", "Access-Control-Request-Headers", "Content-Type")
	got, err, calls := send(cfg, r, nil, nil)
	sym.Reach("sent")
	o, has := "", false
	for i, l := 0, sym.Opened(r.Header); i < len(l); i += 2 {
		if l[i] == "Origin" {
			o, has = l[i+1], true
		}
	}
	if !has || r.URL.Host != "" && (o == "https://s.test" || o == "https://s.test:443") {
		sym.Assert(err == nil && got != nil && calls == 1, "requests of the site itself and without an origin are not restricted")
		return
	}
	sym.Assert(sym.Iff(err == nil, o == "https://a.test"), "only a listed origin is served")
	if err != nil {
		sym.Assert(got == nil && errors.Is(err, gerr.ErrAccessDenied), "otherwise it is denied")
		return
	}
	checkHeaders(got.Headers(), cfg, o, method, nil)
}

// HarnessMany: long lists of origins, methods and headers, and long announcements.
func HarnessMany() {
	n := sym.Size("listed", []int{5, 24, 70}, 150, "middleware")
	cfg := middleware.CorsConfig{SupportsCredentials: true, PreflightMaxAgeSeconds: 600}
	for i := 0; i < n; i++ {
		cfg.AllowedOrigins = append(cfg.AllowedOrigins, fmt.Sprintf("https://s%d.test", i))
		cfg.AllowedHttpMethods = append(cfg.AllowedHttpMethods, fmt.Sprintf("M%d", i))
		cfg.AllowedHttpHeaders = append(cfg.AllowedHttpHeaders, fmt.Sprintf("X-H%d", i))
		cfg.ExposedHeaders = append(cfg.ExposedHeaders, fmt.Sprintf("X-E%d", i))
	}
	at := func(name string) int { return []int{0, n / 2, n - 1, n}[sym.Choose(name, 4)] }
	oi, mi := at("origin"), at("method")
	o := fmt.Sprintf("https://s%d.test", oi)
	if oi == n/2 {
		o = "https://" + sym.Text("origin.byte", 1, "a-z") + o[len("https://s"):]
	}
	ok := sym.And(kit.Same(o[8:9], "s", false), sym.And(oi < n, mi < n))
	method := "OPTIONS"
	if sym.Choose("preflight", 2) == 0 {
		method = fmt.Sprintf("m%d", mi)
	}
	r := kit.Request(method, "/x")
	kit.AnyConnection(r)
	r.Header.Set("Origin", o)
	if method == "OPTIONS" {
		r.Header.Set("Access-Control-Request-Method", fmt.Sprintf("m%d", mi))
		asked := append([]string(nil), cfg.AllowedHttpHeaders...)
		if hi := at("header"); hi == n {
			asked[[]int{0, n / 2, n - 1}[sym.Choose("unlisted", 3)]] = "X-Evil"
			ok = false
		}
		r.Header.Set("Access-Control-Request-Headers", strings.Join(asked, ", "))
	}
	for i := 0; i < 2; i++ {
		got, err, _ := send(cfg, r, nil, nil)
		sym.Reach("sent")
		sym.Assert(sym.Iff(err == nil, ok), "only what is listed is allowed, however long the lists")
		if err != nil {
			sym.Assert(got == nil && errors.Is(err, gerr.ErrAccessDenied), "otherwise it is denied")
			continue
		}
		checkHeaders(got.Headers(), cfg, o, method, nil)
	}
}

// HarnessHistory: different requests through one middleware; each is judged by itself.
func HarnessHistory() {
	cfg := middleware.CorsConfig{AllowedOrigins: []string{"https://a.test", "https://c.test"}, AllowedHttpMethods: []string{"GET", "POST", "OPTIONS"},
		AllowedHttpHeaders: []string{"X-One"}, ExposedHeaders: []string{"X-E"}, PreflightMaxAgeSeconds: 5}
	cfg.AnyOriginAllowed = sym.Choose("any", 2) == 1
	calls := 0
	h := middleware.Cors(cfg)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		calls++
		return kit.NewResp(200, "secret"), nil
	})
	for i := 0; i < sym.Pick(2, 3); i++ {
		k := sym.Choose("request", 9)
		r := kit.Request([]string{"GET", "OPTIONS", "OPTIONS", "OPTIONS", "OPTIONS", "DELETE", "POST", "POST", "GET"}[k], "/x")
		ok := true
		switch k {
		case 2: // preflight
			r.Header.Set("Access-Control-Request-Method", "POST")
		case 3:
			r.Header.Set("Access-Control-Request-Method", "DELETE")
			ok = false
		case 4:
			r.Header.Set("Access-Control-Request-Method", "GET")
			hd := "X-" + sym.Text("header", 3, "One2")
			r.Header.Set("Access-Control-Request-Headers", hd)
			ok = kit.Same(hd, "X-One", true)
		case 5:
			ok = false
		case 6:
			r.Header.Set("Content-Type", "application/json")
		case 7:
			r.Header.Set("Content-Type", "text/plain")
		}
		o := ""
		if k != 8 {
			o = "https://" + sym.Text("origin", 1, "abc") + ".test"
			r.Header.Set("Origin", o)
			if !cfg.AnyOriginAllowed {
				ok = sym.And(ok, sym.Or(kit.Same(o[8:9], "a", false), kit.Same(o[8:9], "c", false)))
			}
		}
		got, err := h(context.Background(), path.MatchingContext{R: r})
		sym.Reach("sent")
		sym.Observe("denied", err != nil)
		sym.Assert(sym.Iff(err == nil, ok), "every request is judged by its own origin, method and headers")
		sym.Assert(sym.Iff(got == nil, err != nil), "a denied request carries no response, an allowed one does")
		if err != nil {
			sym.Assert(errors.Is(err, gerr.ErrAccessDenied), "it fails with access denied")
		} else if o != "" {
			checkHeaders(got.Headers(), cfg, o, r.Method, nil)
		}
	}
}

// HarnessKnown: announced methods and headers that browsers and the code itself know are judged by the lists alone, and
// errors of any kind of the handler pass through.
func HarnessKnown() {
	cfg := middleware.CorsConfig{AllowedOrigins: []string{"https://a.test"}, AllowedHttpMethods: []string{"GET", "PURGE"}, AllowedHttpHeaders: []string{"X-One", "Accept"}}
	cfg.SupportsCredentials = sym.Choose("credentials", 2) == 1
	header, method := "X-One", "GET"
	r := kit.Request("OPTIONS", "/x")
	r.Header.Set("Origin", "https://a.test")
	var herr error
	ok := true
	switch sym.Choose("what", 4) {
	case 0:
		known := []string{"Accept", "accept-language", "Content-Language", "content-type", "Range", "DPR", "Downlink", "Save-Data", "Viewport-Width", "Width", "Origin", "Authorization", "Cookie", "User-Agent",
			"X-Requested-With", "X-Csrf-Token", "Cache-Control", "Last-Event-ID", "Pragma", "traceparent", "*", "x-one", "X_One", "Null", "x-one;x"}
		if k := sym.Choose("known", len(known)+1); k < len(known) {
			header = known[k]
		} else {
			header = sym.Constant("header", "middleware", "")
		}
		sym.Assume(!strings.Contains(header, ","))
		ok = strings.EqualFold(header, "X-One") || strings.EqualFold(header, "Accept")
	case 1:
		known := []string{"HEAD", "OPTIONS", "POST", "PUT", "DELETE", "PATCH", "TRACE", "CONNECT", "*", "purge", "GET,POST", "G"}
		if k := sym.Choose("known", len(known)+1); k < len(known) {
			method = known[k]
		} else {
			method = sym.Constant("method", "middleware", "")
		}
		ok = strings.EqualFold(method, "GET") || strings.EqualFold(method, "PURGE")
	case 2: // an actual request
		method = sym.Constant("method", "middleware", "")
		r.Method = method
		ok = strings.EqualFold(method, "GET") || strings.EqualFold(method, "PURGE")
	case 3:
		herr = kit.AnyError("error")
	}
	if r.Method == "OPTIONS" {
		r.Header.Set("Access-Control-Request-Method", method)
		r.Header.Set("Access-Control-Request-Headers", header)
	}
	if r.Method == "OPTIONS" && method == "OPTIONS" {
		ok = false // the method is not listed
	}
	got, err, calls := send(cfg, r, nil, herr)
	sym.Reach("sent")
	if herr != nil {
		sym.Assert(calls == 1 && got == nil && err == herr, "the handler's error passes through")
		return
	}
	sym.Assert((err == nil) == ok && (got != nil) == ok, "what is not listed is denied, whatever it is")
	if err != nil {
		sym.Assert(errors.Is(err, gerr.ErrAccessDenied), "with access denied")
		return
	}
	checkHeaders(got.Headers(), cfg, "https://a.test", r.Method, nil)
}

// plain are the headers of a response.
type plain http.Header

func (p plain) Header() http.Header         { return http.Header(p) }
func (p plain) Write(b []byte) (int, error) { return len(b), nil }
func (p plain) WriteHeader(int)             {}

// HarnessSpelling: what a handler sets under another spelling of a name does not compete with what the request is granted.
func HarnessSpelling() {
	sym.MapOrder()
	anyOrigin := sym.Choose("any", 2) == 1
	cfg := middleware.CorsConfig{AnyOriginAllowed: anyOrigin, AllowedOrigins: []string{"https://a.test"}, AllowedHttpMethods: []string{"GET"}}
	own := [][2]string{{"Vary", "Accept"}, {"vary", "Accept"}, {"VARY", "Accept"}, {"access-control-allow-origin", "https://evil.test"},
		{"Access-Control-Allow-origin", "*"}, {"access-control-allow-credentials", "false"}}[sym.Choose("own", 6)]
	cfg.SupportsCredentials = own[1] == "false" && !anyOrigin
	for try := 0; try < sym.Tries(40); try++ {
		r := kit.Request("GET", "/x")
		r.Header.Set("Origin", "https://a.test")
		mc := path.MatchingContext{R: r}
		got, err := middleware.Cors(cfg)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			h := response.NewHttpHeaders()
			h.Set(own[0], own[1])
			return response.PlainTextHttpResponseWithHeaders(200, "secret", h), nil
		})(context.Background(), mc)
		sym.Assert(err == nil && got != nil, "the origin is allowed")
		w := plain{}
		sym.Assert(got.Write(w, mc) == nil, "the response is written")
		sym.Reach("sent")
		h := http.Header(w)
		origin := "https://a.test"
		if anyOrigin {
			origin = "*"
		}
		o := h.Values("Access-Control-Allow-Origin")
		sym.Assert(len(o) == 1 && o[0] == origin, "the origin is granted to the request alone")
		if cfg.SupportsCredentials {
			sym.Assert(h.Get("Access-Control-Allow-Credentials") == "true", "credentials are granted as configured")
		}
		vary := strings.Join(h.Values("Vary"), ",")
		sym.Assert(anyOrigin || varyHas(vary, "Origin"), "the response varies by what decided it")
		sym.Assert(own[1] != "Accept" || varyHas(vary, "Accept"), "what the handler said about varying stays")
	}
}
