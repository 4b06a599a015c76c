// Package c16: a CSRF nonce admits at most one state-changing request.
package c16

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/ixtendio/gofre/cache"
	gerr "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// Spoken: what the property speaks of, see kit.Request.
func init() {
	kit.Spoken = []string{"X-Csrf-Token", "X-Tok", "_csrf", "tok"}
}

// store is a cache whose additions can fail and whose operations are scheduling points.
type store struct {
	mu     sync.Mutex
	keys   map[string]time.Time
	expiry []time.Duration
	fail   error
}

func (s *store) Add(k string, d time.Duration) error {
	sym.Yield()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.expiry = append(s.expiry, d)
	if s.fail != nil {
		return s.fail
	}
	s.keys[k] = time.Now().Add(d)
	return nil
}
func (s *store) Remove(k string) {
	sym.Yield()
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.keys, k)
}
func (s *store) Contains(k string) bool {
	sym.Yield()
	s.mu.Lock()
	defer s.mu.Unlock()
	t, ok := s.keys[k]
	return ok && time.Now().Before(t)
}

type app struct {
	mw     handler.Handler
	issued []string // nonces handed to admitted requests
	ran    int
	mu     sync.Mutex
	resp   response.HttpResponse
	err    error
}

func newApp(c cache.Cache, custom bool) *app {
	a := &app{resp: kit.NewResp(200, "done")}
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		a.mu.Lock()
		defer a.mu.Unlock()
		a.ran++
		a.issued = append(a.issued, middleware.GetCSRFNonceFromContext(ctx))
		return a.resp, a.err
	}
	if custom {
		a.mw = middleware.CSRFPreventionWithCustomParamAndHeaderName(c, "tok", "X-Tok")(h)
	} else {
		a.mw = middleware.CSRFPrevention(c)(h)
	}
	return a
}

func names(custom bool) (header, param string) {
	if custom {
		return "X-Tok", "tok"
	}
	return middleware.CSRFRestNonceHeaderName, middleware.CSRFNonceRequestParamName
}

// request carries a nonce in the way asked for: 0 nowhere, 1 header, 2 form body, 3 query string,
// 4 under the other name, 5 in the header and in the form.
func request(method string, how int, custom bool, nonce string) *http.Request {
	r := kit.Request(method, "/x")
	kit.AnyConnection(r)
	header, param := names(custom)
	if how == 4 {
		header, param = names(!custom)
		r.Header.Set(header, nonce)
		how = 2
	}
	switch how {
	case 1:
		r.Header.Set(header, nonce)
	case 2, 5:
		if how == 5 {
			r.Header.Set(header, nonce)
		}
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		b := url.Values{param: {nonce}, "other": {"1"}}.Encode()
		r.Body = io.NopCloser(strings.NewReader(b))
		r.ContentLength = int64(len(b))
	case 3:
		r.URL.RawQuery = url.Values{param: {nonce}}.Encode() + r.URL.RawQuery
	}
	return r
}

func (a *app) send(r *http.Request) (response.HttpResponse, error) {
	return a.mw(context.Background(), path.MatchingContext{R: r})
}

// HarnessHistory: any sequence of requests with issued, spent, expired and foreign nonces.
func HarnessHistory() {
	var c cache.Cache = cache.NewInMemory()
	if sym.Choose("cache", 2) == 1 {
		c = &store{keys: map[string]time.Time{}}
	}
	_, custom := c.(*store)
	if sym.Thorough() {
		custom = sym.Choose("custom", 2) == 1
	}
	a := newApp(c, custom)
	var at []time.Duration // when the i-th nonce was issued
	spent := map[int]bool{}
	var now time.Duration
	life := middleware.CSRFExpirationTime
	steps := sym.Pick(3, 4)
	for i := 0; i < steps; i++ {
		if i > 0 {
			// no time, more than half of the life of a nonce, just less and just more than all of it
			if d := []time.Duration{0, life/2 + 1, life - 1, life + 1}[sym.Choose("wait", 4)]; d > 0 {
				sym.Advance(d)
				now += d
			}
		}
		first := i == 0 && !sym.Thorough() // the quick history starts with a plain safe request
		safe := first || sym.Choose("safe", 2) == 1
		which := len(a.issued) + 1
		if !first {
			which = sym.Choose("nonce", len(a.issued)+2)
		}
		nonce := ""
		valid := false
		switch {
		case which < len(a.issued):
			nonce = a.issued[which]
			sym.Assume(now != at[which]+life)
			valid = !spent[which] && now < at[which]+life
		case which == len(a.issued):
			nonce = sym.Text(fmt.Sprint("guess", i), 3, "A-Z0-9")
		}
		how := 0
		if nonce != "" {
			how = 1 + sym.Choose("how", 5)
		}
		method := []string{"POST", "PUT", "PATCH"}[i%3]
		if how == 1 && i%2 == 1 {
			method = "DELETE"
		}
		if safe {
			method = []string{"GET", "HEAD", "OPTIONS", "TRACE"}[i%4]
			if how > 2 {
				sym.Assume(false) // what a safe request presents does not matter; the header and the form body will do
			}
		}
		if how == 4 {
			valid = false
		}
		n := len(a.issued)
		got, err := a.send(request(method, how, custom, nonce))
		sym.Reach("sent")
		sym.Observe("admitted", len(a.issued) > n)
		if safe || valid {
			sym.Assert(len(a.issued) == n+1, "a request with a live nonce, or none needed, is admitted once")
			sym.Assert(err == nil && got == a.resp, "the handler's response passes through")
			fresh := a.issued[n]
			sym.Assert(fresh != "", "every admitted request carries a nonce")
			for _, o := range a.issued[:n] {
				sym.Assert(o != fresh, "the nonce is fresh")
			}
			at = append(at, now)
			if !safe {
				spent[which] = true
			}
			continue
		}
		sym.Assert(len(a.issued) == n, "without a live nonce the handler does not run")
		sym.Assert(got == nil && errors.Is(err, gerr.ErrAccessDenied), "it fails with access denied")
	}
}

// HarnessMethods: only the four safe methods go without a nonce.
func HarnessMethods() {
	a := newApp(cache.NewInMemory(), false)
	var m string
	if sym.Choose("ask", 2) == 0 {
		m = []string{"GET", "HEAD", "TRACE", "OPTIONS", "POST", "PUT", "PATCH", "DELETE", "CONNECT", "PROPFIND", ""}[sym.Choose("method", 11)]
	} else {
		m = sym.Text("method", 1+sym.Choose("len", sym.Pick(7, 9)), "A-Za-z-")
	}
	_, err := a.send(request(m, 0, false, ""))
	sym.Reach("sent")
	sym.Observe("ran", a.ran)
	safe := sym.Or(sym.Or(m == "GET", m == "HEAD"), sym.Or(m == "TRACE", m == "OPTIONS"))
	sym.Assert(sym.Iff(a.ran == 1, safe), "only GET, HEAD, TRACE and OPTIONS go without a nonce")
	sym.Assert(sym.Iff(err == nil, a.ran == 1), "the others are denied")
}

// HarnessStore: what is stored, and a store that fails.
func HarnessStore() {
	s := &store{keys: map[string]time.Time{}}
	a := newApp(s, sym.Choose("custom", 2) == 1)
	boom := errors.New("store")
	if sym.Choose("fail", 2) == 1 {
		s.fail = boom
	}
	a.err = []error{nil, errors.New("handler")}[sym.Choose("handler fails", 2)]
	got, err := a.send(request("GET", 0, false, ""))
	sym.Reach("sent")
	if s.fail != nil {
		sym.Assert(a.ran == 0 && got == nil && errors.Is(err, boom), "a nonce that cannot be remembered stops the request")
		return
	}
	sym.Assert(a.ran == 1 && got == a.resp && err == a.err, "the handler's outcome passes through")
	sym.Assert(len(s.expiry) == 1 && s.expiry[0] == middleware.CSRFExpirationTime, "the nonce is remembered for the configured time")
	_, ok := s.keys[a.issued[0]]
	sym.Assert(ok && len(s.keys) == 1, "the remembered nonce is the one given to the handler")
}

// HarnessConcurrent: requests presenting nonces at the same time.
func HarnessConcurrent() {
	var c cache.Cache = &store{keys: map[string]time.Time{}}
	if sym.Choose("cache", 2) == 1 {
		c = cache.NewInMemory()
	}
	a := newApp(c, false)
	a.send(request("GET", 0, false, ""))
	a.send(request("GET", 0, false, ""))
	two := a.issued
	b := a
	if sym.Choose("second", 2) == 1 {
		b = newApp(c, false) // another route protected with the same cache
	}
	sym.Concurrent(sym.Pick(2, 3))
	n := sym.Pick(2, 3)
	oks := make([]bool, n)
	which := make([]int, n)
	for i := 0; i < n; i++ {
		i := i
		which[i] = sym.Choose("nonce", 2)
		how := 1 + i%2
		if sym.Thorough() {
			how = 1 + sym.Choose("how", 2)
		}
		s := a
		if i == 1 {
			s = b
		}
		sym.Go(func() {
			_, err := s.send(request("POST", how, false, two[which[i]]))
			oks[i] = err == nil
		})
	}
	sym.Wait()
	sym.Reach("done")
	for k := 0; k < 2; k++ {
		asked, admitted := 0, 0
		for i := range oks {
			if which[i] == k {
				asked++
				if oks[i] {
					admitted++
				}
			}
		}
		sym.Assert(admitted <= 1, "a nonce admits at most one request")
		sym.Assert(asked != 1 || admitted == 1, "a nonce only one request presents admits it")
	}
	all := a.issued[2:]
	if b != a {
		all = append(append([]string(nil), all...), b.issued...)
	}
	for i, x := range all {
		sym.Assert(x != "" && c.Contains(x), "an admitted request carries a nonce a later request can use")
		for _, y := range all[:i] {
			sym.Assert(x != y, "no two requests carry the same nonce")
		}
	}
}

// HarnessMany: many nonces that are alive at the same time, spent in another order.
func HarnessMany() {
	var c cache.Cache = cache.NewInMemory()
	if sym.Choose("cache", 2) == 1 {
		c = &store{keys: map[string]time.Time{}}
	}
	a := newApp(c, false)
	n := 70
	for i := 0; i < n; i++ {
		_, err := a.send(request("GET", 0, false, ""))
		sym.Assert(err == nil && len(a.issued) == i+1, "a safe request is admitted")
	}
	issued := append([]string(nil), a.issued...)
	late := sym.Choose("wait", 3)
	if late > 0 {
		sym.Advance([]time.Duration{0, middleware.CSRFExpirationTime - 1, middleware.CSRFExpirationTime + 1}[late])
	}
	first := sym.Choose("first", 4)
	for k := 0; k < n; k++ {
		i := (first*17 + k*29) % n
		for try := 0; try < 2; try++ {
			ran := a.ran
			_, err := a.send(request("POST", 1+k%2, false, issued[i]))
			want := late < 2 && try == 0
			sym.Assert((err == nil) == want && (a.ran == ran+1) == want, "each live nonce admits one request")
		}
	}
	long := strings.Repeat("A", sym.Size("size", kit.Sizes[:3], 2000, "middleware", "cache")) + sym.Text("guess", 1, "A-Z")
	_, err := a.send(request("POST", 1, false, long))
	sym.Reach("sent")
	sym.Assert(errors.Is(err, gerr.ErrAccessDenied), "a nonce that was not issued is denied")
	_, err = a.send(request("POST", 2, false, issued[0]+long))
	sym.Assert(errors.Is(err, gerr.ErrAccessDenied), "a nonce that was not issued is denied")
}

// HarnessVariants: only the very nonce that was issued is taken, not one that looks like it, nor a word of the code.
func HarnessVariants() {
	var c cache.Cache = cache.NewInMemory()
	if sym.Choose("cache", 2) == 1 {
		c = &store{keys: map[string]time.Time{}}
	}
	a := newApp(c, false)
	a.send(request("GET", 0, false, ""))
	issued := a.issued[0]
	variants := []string{strings.ToLower(issued), strings.ToUpper(issued), " " + issued, issued + " ", "\"" + issued + "\"", issued[:len(issued)-1], issued[1:], issued + issued[:1], issued + "," + issued,
		"Bearer " + issued, issued + "\x00", issued + "=", "\t" + issued, issued[:len(issued)/2], issued + ";" + issued, "nonce=" + issued, "\n" + issued, "-" + issued, "0x" + issued}
	var n string
	if k := sym.Choose("variant", len(variants)+1); k < len(variants) {
		n = variants[k]
		sym.Assume(n != issued)
	} else {
		n = sym.Constant("nonce", "middleware", "cache", "")
	}
	how := 1 + sym.Choose("how", 2)
	if how == 2 && n == "\n"+issued {
		how = 1
	}
	ran := a.ran
	got, err := a.send(request("POST", how, false, n))
	sym.Reach("variant")
	sym.Assert(a.ran == ran && got == nil && errors.Is(err, gerr.ErrAccessDenied), "a nonce that was not issued is denied")
	_, err = a.send(request("POST", how, false, issued))
	sym.Assert(a.ran == ran+1 && err == nil, "the issued one is taken")
}

// HarnessForeign: errors of any kind, of the store and of the handler, are passed on as they are.
func HarnessForeign() {
	s := &store{keys: map[string]time.Time{}}
	a := newApp(s, sym.Choose("custom", 2) == 1)
	boom := kit.AnyError("error")
	where := sym.Choose("where", 2)
	if where == 0 {
		s.fail = boom
	} else {
		a.err, a.resp = boom, nil
	}
	got, err := a.send(request("GET", 0, false, ""))
	sym.Reach("foreign")
	sym.Assert(got == nil && errors.Is(err, boom), "the error is returned")
	sym.Assert(a.ran == where, "the handler runs exactly when the nonce could be remembered")
}

// HarnessNested: every request that is admitted gets a nonce of its own, whatever its context carries already.
func HarnessNested() {
	c := &store{keys: map[string]time.Time{}}
	other := cache.Cache(c)
	if sym.Choose("other", 2) == 1 {
		other = cache.NewInMemory()
	}
	outer, inner := newApp(c, false), newApp(other, sym.Choose("custom", 2) == 1)
	times := 1 + sym.Choose("times", sym.Pick(2, 3))
	var seen string
	h := middleware.CSRFPrevention(c)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		seen = middleware.GetCSRFNonceFromContext(ctx)
		for i := 0; i < times; i++ {
			if _, err := inner.mw(ctx, mc); err != nil {
				return nil, err
			}
		}
		sym.Assert(middleware.GetCSRFNonceFromContext(ctx) == seen, "the nonce of a request stays")
		return kit.NewResp(200, ""), nil
	})
	_, err := h(context.Background(), path.MatchingContext{R: request([]string{"GET", "HEAD", "OPTIONS", "TRACE"}[sym.Choose("method", 4)], 0, false, "")})
	sym.Reach("nested")
	sym.Assert(err == nil && inner.ran == times, "safe requests are admitted")
	all := append([]string{seen}, inner.issued...)
	for i, n := range all {
		sym.Assert(n != "", "a nonce is issued")
		for _, o := range all[:i] {
			sym.Assert(n != o, "and it is a fresh one")
		}
	}
	// each is good for one request
	spend := newApp(c, false)
	if other == cache.Cache(c) {
		outer = spend
		for range all {
			_, err = outer.send(request("POST", 1, false, all[len(all)-1-outer.ran]))
			sym.Assert(err == nil, "every issued nonce admits a request")
		}
	}
}
