// Package c19: security headers appear exactly as configured.
package c19

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"net/http"
	"strings"

	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

func config() (middleware.SecurityHeadersConfig, func(secure bool) map[string]string) {
	var c middleware.SecurityHeadersConfig
	c.STS.Enabled = sym.Choose("sts", 2) == 1
	c.STS.MaxAgeSeconds = sym.Int("age", 0, 250)
	c.STS.IncludeSubDomains = sym.Choose("subdomains", 2) == 1
	c.STS.Preload = sym.Choose("preload", 2) == 1
	c.ClickJacking.Enabled = sym.Choose("frame", 2) == 1
	opt := sym.Choose("option", 3)
	c.ClickJacking.XFrameOption = []middleware.XFrameOption{middleware.XFrameOptionDeny, middleware.XFrameOptionSameOrigin, middleware.XFrameOptionAllowFrom}[opt]
	c.ClickJacking.XFrameOptionHeaderValue = []string{"DENY", "SAMEORIGIN", "ALLOW-FROM"}[opt]
	c.ClickJacking.XFrameAllowFromUri = "https://" + sym.Text("uri", 2, "a-z") + ".test"
	c.BlockContentSniffingEnabled = sym.Choose("nosniff", 2) == 1
	c.XSSProtectionEnabled = sym.Choose("xss", 2) == 1
	age := c.STS.MaxAgeSeconds
	k := c
	return c, func(secure bool) map[string]string {
		w := map[string]string{"X-Own": "1"}
		if k.STS.Enabled && secure {
			v := "max-age=" + fmt.Sprint(age)
			if k.STS.IncludeSubDomains {
				v += ";includeSubDomains"
			}
			if k.STS.Preload {
				v += ";preload"
			}
			w["Strict-Transport-Security"] = v
		}
		if k.ClickJacking.Enabled {
			v := k.ClickJacking.XFrameOptionHeaderValue
			if opt == 2 {
				v += " " + k.ClickJacking.XFrameAllowFromUri
			}
			w["X-Frame-Options"] = v
		}
		if k.BlockContentSniffingEnabled {
			w["X-Content-Type-Options"] = "nosniff"
		}
		if k.XSSProtectionEnabled {
			w["X-Xss-Protection"] = "1; mode=block"
		}
		return w
	}
}

func check(h response.HttpHeaders, want map[string]string) {
	for k, v := range h {
		w, ok := want[k]
		sym.Assert(ok, "a header that is not enabled is never added")
		sym.Assert(kit.Same(v, w, false), "headers carry the configured values")
	}
	sym.Assert(len(h) == len(want), "every enabled header is present")
}

var herr = errors.New("handler")

// HarnessSequence: several requests through one middleware.
func HarnessSequence() {
	c, want := config()
	var fail bool
	var resp *kit.Resp
	mw := middleware.SecurityHeaders(c)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if fail {
			return nil, herr
		}
		return resp, nil
	})
	for i := 0; i < 2; i++ {
		r := kit.Request("GET", "/x")
		kit.AnyMethod(r)
		resp = kit.NewResp(200, "")
		resp.H["X-Own"] = "1"
		fail = i == 1 && sym.Choose("fail", 2) == 1
		secure := false
		switch sym.Choose("secure", 4) {
		case 1:
			r.TLS = &tls.ConnectionState{}
			secure = true
		case 2:
			r.URL.Scheme = []string{"https", "HTTPS"}[i]
			secure = true
		case 3:
			r.URL.Scheme = "http"
		}
		got, err := mw(context.Background(), path.MatchingContext{R: r})
		sym.Reach("sent")
		if fail {
			sym.Assert(got == nil && err == herr, "the handler's error passes through")
			continue
		}
		sym.Assert(got == response.HttpResponse(resp) && err == nil, "the handler's response is returned")
		check(got.Headers(), want(secure))
	}
}

// HarnessConcurrent: the first requests of a server arrive together.
func HarnessConcurrent() {
	var c middleware.SecurityHeadersConfig
	c.STS.Enabled, c.STS.MaxAgeSeconds, c.STS.Preload = true, 10, sym.Choose("preload", 2) == 1
	c.ClickJacking.Enabled, c.ClickJacking.XFrameOptionHeaderValue = sym.Choose("frame", 2) == 1, "DENY"
	c.BlockContentSniffingEnabled, c.XSSProtectionEnabled = true, true
	mw := middleware.SecurityHeaders(c)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return kit.NewResp(200, ""), nil
	})
	want := map[string]string{"Strict-Transport-Security": "max-age=10", "X-Content-Type-Options": "nosniff", "X-Xss-Protection": "1; mode=block"}
	if c.STS.Preload {
		want["Strict-Transport-Security"] += ";preload"
	}
	if c.ClickJacking.Enabled {
		want["X-Frame-Options"] = "DENY"
	}
	sym.Concurrent(sym.Pick(2, 3))
	n := sym.Pick(2, 3)
	got := make([]response.HttpResponse, n)
	for i := 0; i < n; i++ {
		i := i
		sym.Go(func() {
			r := kit.Request("GET", "/x")
			kit.AnyMethod(r)
			r.TLS = &tls.ConnectionState{}
			got[i], _ = mw(context.Background(), path.MatchingContext{R: r})
		})
	}
	sym.Wait()
	sym.Reach("done")
	for i := range got {
		check(got[i].Headers(), want)
	}
}

// HarnessPreset: what the handler set under the names of the headers does not win over the configuration, and stays where
// nothing is configured; the errors of the handler pass through whatever they are.
func HarnessPreset() {
	var c middleware.SecurityHeadersConfig
	on := sym.Choose("enabled", 16)
	c.STS.Enabled, c.STS.MaxAgeSeconds = on&1 > 0, 10
	c.ClickJacking.Enabled, c.ClickJacking.XFrameOptionHeaderValue = on&2 > 0, "DENY"
	c.BlockContentSniffingEnabled, c.XSSProtectionEnabled = on&4 > 0, on&8 > 0
	names := []string{"Strict-Transport-Security", "X-Frame-Options", "X-Content-Type-Options", "X-Xss-Protection"}
	values := []string{"max-age=10", "DENY", "nosniff", "1; mode=block"}
	secure := sym.Choose("secure", 2) == 1
	resp := kit.NewResp(sym.Int("status", 100, 599), "")
	own := []string{"Content-Type", "Content-Security-Policy", "Referrer-Policy", "X-Powered-By", "Server", "X-Xss-Protections", "Location"}[sym.Choose("own", 7)]
	resp.H[own] = "own"
	want := map[string]string{own: "own"}
	at := sym.Choose("preset", 5)
	if at < 4 {
		v := ""
		switch sym.Choose("value", 4) {
		case 0:
			v = sym.Text("preset.value", 1+sym.Choose("len", 2), "0-9a-z")
		case 1:
			v = []string{"max-age=0", "SAMEORIGIN", "none", "0"}[at]
		case 2:
			v = values[at] + " "
		}
		resp.H[names[at]] = v
		want[names[at]] = v
	}
	for i, v := range values {
		if on&(1<<i) > 0 && (i > 0 || secure) {
			want[names[i]] = v
		}
	}
	var fail error
	if sym.Choose("fail", 2) == 1 {
		sym.Assume(at == 4 && own == "Location")
		fail = kit.AnyError("error")
	}
	r := kit.Request("GET", "/x")
	if secure {
		r.TLS = &tls.ConnectionState{}
	}
	got, err := middleware.SecurityHeaders(c)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if fail != nil {
			return nil, fail
		}
		return resp, nil
	})(context.Background(), path.MatchingContext{R: r})
	sym.Reach("sent")
	if fail != nil {
		sym.Assert(got == nil && err == fail, "the handler's error passes through")
		return
	}
	sym.Assert(got == response.HttpResponse(resp) && err == nil, "the handler's response is returned")
	check(got.Headers(), want)
}

// plain are the headers of a response.
type plain http.Header

func (p plain) Header() http.Header         { return http.Header(p) }
func (p plain) Write(b []byte) (int, error) { return len(b), nil }
func (p plain) WriteHeader(int)             {}

// HarnessSpelling: what the client gets is the configured value, under whatever spelling the handler sets the header too.
func HarnessSpelling() {
	sym.MapOrder()
	var c middleware.SecurityHeadersConfig
	names := []string{"Strict-Transport-Security", "X-Frame-Options", "X-Content-Type-Options", "X-Xss-Protection"}
	values := []string{"max-age=10", "DENY", "nosniff", "1; mode=block"}
	at := sym.Choose("preset", 4)
	on := []bool{true, false, false, false}
	if sym.Choose("enabled", 2) == 1 {
		on[at] = true
	}
	c.STS.Enabled, c.STS.MaxAgeSeconds = on[0], 10
	c.ClickJacking.Enabled, c.ClickJacking.XFrameOptionHeaderValue = on[1], "DENY"
	c.BlockContentSniffingEnabled, c.XSSProtectionEnabled = on[2], on[3]
	spelled := []string{strings.ToLower(names[at]), strings.ToUpper(names[at]), "x" + names[at][1:], names[at]}[sym.Choose("spelling", 4)]
	if spelled[0] == 'x' && at == 0 {
		return
	}
	for try := 0; try < sym.Tries(40); try++ {
		mw := middleware.SecurityHeaders(c)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			h := response.NewHttpHeaders()
			h.Set(spelled, "own")
			return response.PlainTextHttpResponseWithHeaders(200, "body", h), nil
		})
		r := kit.Request("GET", "/x")
		r.TLS = &tls.ConnectionState{}
		mc := path.MatchingContext{R: r}
		got, err := mw(context.Background(), mc)
		sym.Assert(err == nil, "the handler's response is returned")
		w := plain{}
		sym.Assert(got.Write(w, mc) == nil, "the response is written")
		sym.Reach("sent")
		for i, n := range names {
			if n == "X-Content-Type-Options" && !on[i] {
				continue // every response sets it
			}
			want := ""
			if on[i] {
				want = values[i]
			} else if i == at {
				want = "own"
			}
			sym.Assert(len(w[n]) < 2 && http.Header(w).Get(n) == want, "headers carry the configured values")
		}
	}
}
