// Package c10: middlewares run in registration order and never leak between routers.
package c10

import (
	"context"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

type router struct {
	m      *gofre.MuxHandler
	prefix string
	mids   []string // the common middlewares it has
}

type reg struct {
	path  string
	chain []string
}

// HarnessHistory: any history of clones, sub-routers, common middlewares and registrations.
func HarnessHistory() {
	var log []string
	stop := 0 // the number of the middleware that keeps the request to itself
	if sym.Choose("stopping", 2) == 1 {
		stop = sym.Int("stop", 1, 12)
	}
	made := 0
	mid := func(name string) middleware.Middleware {
		made++
		number := made
		return func(next handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				log = append(log, name)
				if number == stop {
					return kit.NewResp(203, ""), nil
				}
				r, err := next(ctx, mc)
				log = append(log, name+"'")
				if k, ok := r.(*kit.Resp); ok {
					k.Text += name
				}
				return r, err
			}
		}
	}
	root, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	routers := []*router{{m: root}}
	var regs []reg
	n := 0
	fresh := func() string { n++; return fmt.Sprint("m", n) }
	register := func(r *router) {
		own := []string{}
		var mids []middleware.Middleware
		switch sym.Choose("own", 3) {
		case 1:
			a := fresh()
			own, mids = []string{a}, []middleware.Middleware{mid(a)}
		case 2:
			a, b := fresh(), fresh()
			own, mids = []string{a, b}, []middleware.Middleware{mid(a), nil, mid(b)}
		}
		q := fmt.Sprint("/h", len(regs))
		r.m.HandleGet(q, kit.Handle(func(path.MatchingContext) { log = append(log, "handler") }), mids...)
		regs = append(regs, reg{r.prefix + q, append(append([]string(nil), r.mids...), own...)})
		if len(mids) > 0 {
			mids[0] = nil // the caller may reuse its slice
		}
	}
	before := []int{0, 3, 1, 5}[sym.Choose("before", sym.Pick(2, 4))]
	for i := 0; i < before; i++ {
		a := fresh()
		root.CommonMiddlewares(mid(a))
		routers[0].mids = append(routers[0].mids, a)
	}
	steps := sym.Pick(3, 4)
	if stop > 0 {
		steps--
	}
	for i := 0; i < steps; i++ {
		r := routers[sym.Choose("router", len(routers))]
		switch sym.Choose("op", 6) {
		case 0:
			a := fresh()
			s := []middleware.Middleware{mid(a)}
			r.m.CommonMiddlewares(s...)
			r.mids = append(r.mids, a)
			s[0] = nil
		case 1:
			a, b := fresh(), fresh()
			s := append(make([]middleware.Middleware, 0, 8), nil, mid(a), mid(b))
			r.m.CommonMiddlewares(s...)
			r.mids = append(r.mids, a, b)
		case 2:
			routers = append(routers, &router{r.m.Clone(), r.prefix, append([]string(nil), r.mids...)})
		case 3, 4:
			p := "/s"
			if len(routers) == 2 {
				p = "/t"
			}
			if len(routers) > 1 && sym.Choose("again", 2) == 1 {
				p = "/s" // possibly the prefix the router has already
			}
			routers = append(routers, &router{r.m.RouteUsingPathPrefix(p), r.prefix + p, append([]string(nil), r.mids...)})
		case 5:
			register(r)
		}
	}
	register(routers[sym.Choose("last", len(routers))])
	for _, g := range regs {
		log = nil
		w := kit.Serve(root, "GET", g.path)
		sym.Reach("sent")
		var want []string
		text := ""
		status, last := 203, 0
		for last < len(g.chain) {
			if number, _ := strconv.Atoi(g.chain[last][1:]); number == stop {
				break
			}
			last++
		}
		if want = append(want, g.chain[:last]...); last < len(g.chain) {
			want = append(want, g.chain[last])
		} else {
			want = append(want, "handler")
			status = 200
		}
		for i := last - 1; i >= 0; i-- {
			want = append(want, g.chain[i]+"'")
			text += g.chain[i]
		}
		sym.Observe("log", strings.Join(log, " "))
		sym.Assert(w.Status == status, "the handler is reached unless a middleware of its own chain keeps the request")
		sym.Assert(strings.Join(log, " ") == strings.Join(want, " "), "the middlewares present at registration run in order around the handler")
		sym.Assert(w.Body == text, "every middleware sees what the inner one returned")
	}
}

// HarnessFailure: a middleware that stops the request, or gets an error, is seen by the outer ones.
func HarnessFailure() {
	var log []string
	stop := sym.Choose("stop", 4) // which middleware stops; 3: none
	fail := sym.Choose("fail", 2) == 1
	boom := errors.New("boom")
	var seen []error
	mk := func(i int) middleware.Middleware {
		return func(next handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				log = append(log, fmt.Sprint(i))
				if i == stop {
					return nil, boom
				}
				r, err := next(ctx, mc)
				seen = append(seen, err)
				return r, err
			}
		}
	}
	errs := 0
	m, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) {
		errs++
		sym.Assert(errors.Is(err, boom), "the error that comes out of the chain is reported")
	}})
	m.CommonMiddlewares(mk(0), nil, mk(1))
	m.HandleGet("/x", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		log = append(log, "handler")
		if fail {
			return nil, boom
		}
		return kit.NewResp(200, ""), nil
	}, nil, mk(2))
	w := kit.Serve(m, "GET", "/x")
	sym.Reach("sent")
	want := []string{"0", "1", "2", "handler"}
	if stop < 3 {
		want = want[:stop+1]
	}
	sym.Assert(strings.Join(log, " ") == strings.Join(want, " "), "what a middleware stops does not go further in")
	failed := fail || stop < 3
	sym.Assert(sym.Iff(w.Status == 500, failed) && sym.Iff(errs == 1, failed), "the outcome of the chain decides the answer")
	outer := 3
	if stop < 3 {
		outer = stop
	}
	sym.Assert(len(seen) == outer, "every outer middleware sees the inner outcome")
	for _, e := range seen {
		sym.Assert(sym.Iff(e == boom, failed), "the error is passed outwards")
	}
}

// HarnessMany: long chains and deep nestings of routers.
func HarnessMany() {
	var log []string
	mid := func(name string) middleware.Middleware {
		return func(next handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				log = append(log, name)
				return next(ctx, mc)
			}
		}
	}
	each := sym.Size("each", []int{1, 2, 5, 17}, 70, "")
	depth := []int{1, 4, 9}[sym.Choose("depth", 3)]
	own := sym.Size("own", []int{0, 3, 20}, 70, "")
	clones := sym.Choose("clones", 2) == 1
	root, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	r, prefix := root, ""
	var chain []string
	wants := map[string]string{}
	register := func(q string) {
		var mids []middleware.Middleware
		want := append([]string(nil), chain...)
		for k := 0; k < own; k++ {
			mids = append(mids, mid(fmt.Sprint(q, k)))
			want = append(want, fmt.Sprint(q, k))
		}
		r.HandleGet(q, kit.Handle(func(path.MatchingContext) { log = append(log, "handler") }), mids...)
		wants[prefix+q] = strings.Join(append(want, "handler"), " ")
	}
	for d := 0; d < depth; d++ {
		before := r
		if clones && d%2 == 1 {
			r = r.Clone()
		} else if d > 0 {
			p := fmt.Sprint("/p", d)
			prefix += p
			r = r.RouteUsingPathPrefix(p)
		}
		register(fmt.Sprint("/before", d))
		var mids []middleware.Middleware
		for k := 0; k < each; k++ {
			mids = append(mids, mid(fmt.Sprint("m", d, ".", k)))
			chain = append(chain, fmt.Sprint("m", d, ".", k))
		}
		if d%2 == 0 {
			r.CommonMiddlewares(mids...)
		} else {
			for _, m := range mids {
				r.CommonMiddlewares(m)
			}
		}
		register(fmt.Sprint("/after", d))
		if d > 0 { // what the router above gets later stays there
			before.CommonMiddlewares(mid("late"), mid("late"))
		}
	}
	for q, want := range wants {
		log = nil
		w := kit.Serve(root, "GET", q)
		sym.Reach("sent")
		sym.Assert(w.Status == 200 && strings.Join(log, " ") == want, "the middlewares present at registration run in order around the handler")
	}
}

// HarnessPrefix: whatever is said as the prefix of a sub-router, its chain is its own; only the empty prefix is the router itself.
func HarnessPrefix() {
	var log []string
	mid := func(name string) middleware.Middleware {
		return func(next handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				log = append(log, name)
				return next(ctx, mc)
			}
		}
	}
	root, _ := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	outer, at := root, ""
	if sym.Choose("nested", 2) == 1 {
		outer, at = root.RouteUsingPathPrefix("/o"), "/o"
	}
	prefixes := []string{"/", "//", "/s", "/s/", "s", "/s/t", "/{v}", "/*"}
	urls := []string{"", "", "/s", "/s", "/s", "/s/t", "/v", "/w"}
	i := sym.Choose("prefix", len(prefixes))
	prefix := prefixes[i]
	if prefix == "s" && sym.Choose("blank", 2) == 1 {
		prefix = "s/"
	}
	chains := map[string]string{}
	have := map[*gofre.MuxHandler]string{}
	sub := outer.RouteUsingPathPrefix(prefix)
	add := func(m *gofre.MuxHandler, name string) {
		m.CommonMiddlewares(mid(name))
		have[m] += name + " "
	}
	register := func(m *gofre.MuxHandler, at, q string) {
		m.HandleGet(q, kit.Handle(func(path.MatchingContext) { log = append(log, "handler") }))
		chains[at+q] = have[m] + "handler"
	}
	sym.Assert(sub != outer, "a sub-router is a router of its own")
	switch sym.Choose("order", 4) {
	case 0:
		add(sub, "a")
		register(outer, at, "/x")
		add(outer, "b")
		register(sub, at+urls[i], "/y")
	case 1:
		add(outer, "a")
		register(sub, at+urls[i], "/y")
		register(outer, at, "/x")
		add(sub, "b")
	case 2:
		register(sub, at+urls[i], "/y")
		add(sub, "a")
		add(sub, "b")
		register(outer, at, "/x")
	case 3:
		c := sub.Clone()
		add(c, "c")
		add(sub, "a")
		register(c, at+urls[i], "/z")
		register(outer, at, "/x")
		register(sub, at+urls[i], "/y")
	}
	for q, want := range chains {
		log = nil
		w := kit.Serve(root, "GET", q)
		sym.Reach("sent")
		sym.Assert(w.Status == 200 && strings.Join(log, " ") == want, "the middlewares present at registration run in order around the handler")
	}
}

// HarnessLogin: the two handlers of a login, each with middlewares of its own or none, on a router with common ones.
func HarnessLogin() {
	kit.Spoken = append(kit.Spoken, "provider", "code", "state", "error")
	root, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	sym.Assert(err == nil, "the default configuration is valid")
	var log []string
	mids := func(what string, n int) (list []middleware.Middleware, names []string) {
		for i := 0; i < n; i++ {
			name := fmt.Sprint(what, i)
			names = append(names, name)
			list = append(list, func(h handler.Handler) handler.Handler {
				return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					log = append(log, name)
					return h(ctx, mc)
				}
			})
		}
		return list, names
	}
	common, commonNames := mids("common", sym.Choose("common", 3))
	start, startNames := mids("start", sym.Choose("start", 3))
	end, endNames := mids("end", sym.Choose("end", 3))
	late, _ := mids("late", 1)
	m, at := root, ""
	m.CommonMiddlewares(common...)
	switch sym.Choose("router", 3) {
	case 1:
		m, at = m.RouteUsingPathPrefix("/s"), "/s"
	case 2:
		m = m.Clone()
	}
	cfg := oauth.Config{WebsiteUrl: "https://site.test", FetchUserDetails: sym.Choose("user", 2) == 1}
	cfg.Providers = []oauth.Provider{&kit.Provider{N: "p", Token: oauth.AccessToken{AccessToken: "T", TokenType: "B"}}}
	if sym.Choose("providers", 2) == 1 {
		cfg.Providers = append(cfg.Providers, &kit.Provider{N: "q", Token: oauth.AccessToken{AccessToken: "T", TokenType: "B"}})
	}
	h := kit.Handle(func(path.MatchingContext) { log = append(log, "handler") })
	initiate, authorize := "/oauth/initiate", "/oauth/authorize"
	if sym.Choose("custom", 2) == 1 {
		initiate, authorize = "/in", "/out"
		m.HandleOAUTH2WithCustomPaths(initiate, authorize, cfg, h, start, end)
	} else {
		m.HandleOAUTH2(cfg, h, start, end)
	}
	m.CommonMiddlewares(late...)
	m.HandleGet("/x", h)
	ask := func(p, query string, want ...[]string) {
		log = nil
		r := kit.Request("GET", at+p)
		r.URL.RawQuery = query + r.URL.RawQuery
		w := kit.NewW()
		root.ServeHTTP(w.Writer(false), r)
		var chain []string
		for _, names := range want {
			chain = append(chain, names...)
		}
		sym.Assert(w.Status == 200 || w.Status == 302, "the request is answered")
		sym.Assert(strings.Join(log, " ") == strings.Join(chain, " "), "the middlewares present at registration run in order around the handler")
	}
	ask(initiate, "provider=p", commonNames, startNames)
	ask(authorize+"/p", "code=c&state=s", commonNames, endNames, []string{"handler"})
	ask("/x", "", commonNames, []string{"late0", "handler"})
	sym.Reach("sent")
}
