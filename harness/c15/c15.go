// Package c15: the supplied principal is the one later stages see.
package c15

import (
	"context"
	"errors"

	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

type key int

// HarnessSupplier: any combination of suppliers around a handler, several requests.
func HarnessSupplier() {
	boom := errors.New("supplier")
	herr := errors.New("handler")
	resp := kit.NewResp(200, "ok")
	hout := sym.Choose("handler", 3) // response, error, both
	calls := 0
	var seen context.Context
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		calls++
		seen = ctx
		switch hout {
		case 1:
			return nil, herr
		case 2:
			return resp, herr
		}
		return resp, nil
	}
	layers := 1 + sym.Choose("layers", sym.Pick(2, 3))
	names := make([]string, layers)
	for i := range names {
		names[i] = sym.String("name", 1+i)
	}
	cur := make([]int, layers) // what every supplier does for the request at hand
	inner := 0
	var order []int
	var wrong bool
	var wantCtx func(i int) auth.SecurityPrincipal
	chain := middleware.Middleware(nil)
	for i := layers - 1; i >= 0; i-- {
		i := i
		m := middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			inner++
			order = append(order, i)
			if p := auth.GetSecurityPrincipalFromContext(ctx); !same(p, wantCtx(i)) {
				wrong = true
			}
			switch cur[i] {
			case 0:
				return nil, nil
			case 1:
				return &auth.User{Id: names[i]}, nil
			case 2:
				return auth.User{Id: names[i] + "2"}, nil
			case 3:
				return nil, boom
			}
			return auth.User{Id: "nobody"}, boom
		})
		if chain == nil {
			chain = m
		} else {
			in := chain
			chain = func(next hnd) hnd { return m(in(next)) }
		}
	}
	mw := chain(h)
	for r := 0; r < 2; r++ {
		ctx := context.WithValue(context.Background(), key(7), r)
		var base auth.SecurityPrincipal
		if sym.Choose("outer", 2) == 1 {
			base = auth.User{Id: "outer"}
			ctx = context.WithValue(ctx, auth.SecurityPrincipalCtxKey, base)
		}
		for i := range cur {
			cur[i] = sym.Int("supplies", 0, 4)
		}
		wantCtx = func(i int) auth.SecurityPrincipal {
			p := base
			for k := 0; k < i; k++ {
				switch cur[k] {
				case 1:
					p = &auth.User{Id: names[k]}
				case 2:
					p = auth.User{Id: names[k] + "2"}
				}
			}
			return p
		}
		fails := layers
		none := true
		for i := range cur {
			if cur[i] >= 3 {
				fails = i
				break
			}
			none = none && cur[i] == 0
		}
		calls, inner, seen, order, wrong = 0, 0, nil, nil, false
		got, err := mw(ctx, path.MatchingContext{R: kit.AnyRequest("/")})
		sym.Reach("asked")
		sym.Observe("calls", calls)
		sym.Assert(!wrong, "a supplier sees what the outer ones supplied")
		if fails < layers {
			sym.Assert(calls == 0 && inner == fails+1, "a failing supplier stops the request")
			sym.Assert(got == nil && err == boom, "the supplier's own error is returned")
			continue
		}
		sym.Assert(calls == 1 && inner == layers, "every supplier is asked once and the handler runs once")
		sym.Assert(same(auth.GetSecurityPrincipalFromContext(seen), wantCtx(layers)), "the handler sees exactly the supplied principal")
		if none {
			sym.Assert(seen == ctx, "nothing supplied leaves the context untouched")
		}
		v, _ := seen.Value(key(7)).(int)
		sym.Assert(v == r && seen.Value(key(8)) == nil, "other context values pass through")
		sym.Assert(sym.Iff(err == herr, hout > 0) && sym.Iff(got == nil, hout == 1), "the handler's result passes through")
		if got != nil {
			sym.Assert(got == response.HttpResponse(resp), "the handler's own response passes through")
		}
	}
}

type hnd = handler.Handler

func same(a, b auth.SecurityPrincipal) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	_, pa := a.(*auth.User)
	_, pb := b.(*auth.User)
	return pa == pb && kit.Same(a.Identity(), b.Identity(), false)
}

// HarnessMany: many suppliers around each other, many requests.
func HarnessMany() {
	n := sym.Size("suppliers", []int{5, 12, 40}, 70, "middleware")
	last := -1
	var seen context.Context
	h := hnd(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		seen = ctx
		return kit.NewResp(200, ""), nil
	})
	name := sym.Text("name", 2, "a-z")
	for i := n - 1; i >= 0; i-- {
		i := i
		h = middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			if i <= last {
				return &auth.User{Id: name[i%2:i%2+1] + string(rune('0'+i))}, nil
			}
			return nil, nil
		})(h)
	}
	for _, last = range []int{-1, 0, n / 2, n - 1, -1, 1} {
		ctx := context.WithValue(context.Background(), key(1), last)
		_, err := h(ctx, path.MatchingContext{R: kit.AnyRequest("/")})
		sym.Reach("asked")
		p := auth.GetSecurityPrincipalFromContext(seen)
		if last < 0 {
			sym.Assert(err == nil && p == nil && seen == ctx, "nothing supplied leaves the context untouched")
		} else {
			sym.Assert(err == nil && p != nil && kit.Same(p.Identity(), name[last%2:last%2+1]+string(rune('0'+last)), false), "the handler sees exactly the supplied principal")
		}
	}
}

// HarnessForeign: errors of any kind, of the supplier and of the handler, are passed on as they are.
func HarnessForeign() {
	boom := kit.AnyError("error")
	where := sym.Choose("where", 3)
	calls := 0
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		calls++
		return nil, boom
	}
	u := &auth.User{Id: "u"}
	mw := middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
		switch where {
		case 0:
			return nil, boom
		case 1:
			return u, boom
		}
		return u, nil
	})
	ctx := context.Background()
	if sym.Choose("outer", 2) == 1 {
		ctx = context.WithValue(ctx, auth.SecurityPrincipalCtxKey, auth.SecurityPrincipal(&auth.User{Id: "outer"}))
	}
	resp, err := mw(h)(ctx, path.MatchingContext{R: kit.AnyRequest("/")})
	sym.Reach("foreign")
	sym.Assert(resp == nil && err == boom, "the error is returned as it is")
	sym.Assert(calls == where/2, "the handler runs exactly when the supplier does not fail")
}

type named string

func (n named) Identity() string                   { return string(n) }
func (n named) HasPermission(auth.Permission) bool { return false }
func (n named) HasRole(string) bool                { return false }
func (n named) String() string                     { return string(n) }

type silent struct{ roles []string }

func (*silent) Identity() string                   { return "" }
func (*silent) HasPermission(auth.Permission) bool { return true }
func (*silent) HasRole(string) bool                { return true }
func (*silent) String() string                     { return "" }

// HarnessKinds: a principal of any kind, with any identity, is the one the handler sees.
func HarnessKinds() {
	id := sym.Text("id", sym.Choose("len", 3), " -~")
	ps := []auth.SecurityPrincipal{auth.User{}, &auth.User{}, auth.User{Id: id}, &auth.User{Name: id}, auth.User{Name: "guest"}, auth.User{Groups: []auth.Group{{Name: id}}}, &auth.User{IdentityPlatform: id}, named(id), &silent{[]string{"a"}}, (*silent)(nil), named(sym.Constant("id.known", "auth", "middleware", ""))}
	want := ps[sym.Choose("kind", len(ps))]
	ctx := context.Background()
	if sym.Choose("outer", 2) == 1 {
		ctx = context.WithValue(ctx, auth.SecurityPrincipalCtxKey, auth.SecurityPrincipal(&auth.User{Id: "outer"}))
	}
	calls := 0
	resp := kit.NewResp(200, "")
	got, err := middleware.SecurityPrincipalSupplier(func(context.Context, path.MatchingContext) (auth.SecurityPrincipal, error) { return want, nil })(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		calls++
		p := auth.GetSecurityPrincipalFromContext(ctx)
		switch w := want.(type) {
		case auth.User:
			g, ok := p.(auth.User)
			sym.Assert(ok && kit.Same(g.Id, w.Id, false) && kit.Same(g.Name, w.Name, false) && len(g.Groups) == len(w.Groups), "the handler sees exactly the supplied principal")
		case named:
			g, ok := p.(named)
			sym.Assert(ok && kit.Same(string(g), string(w), false), "the handler sees exactly the supplied principal")
		default:
			sym.Assert(p == want, "the handler sees exactly the supplied principal")
		}
		return resp, nil
	})(ctx, path.MatchingContext{R: kit.AnyRequest("/")})
	sym.Reach("kinds")
	sym.Assert(calls == 1 && err == nil && got == response.HttpResponse(resp), "the handler's result passes through")
}
