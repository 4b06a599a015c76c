// Package c14: authorization middleware lets through only entitled principals.
package c14

import (
	"context"
	"errors"
	"fmt"

	"github.com/ixtendio/gofre/auth"
	gerr "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// principal grants what the solver says.
type principal struct {
	id     string
	grants map[string]bool
}

func (p *principal) Identity() string                     { return p.id }
func (p *principal) HasRole(string) bool                  { return true }
func (p *principal) HasPermission(x auth.Permission) bool { return p.grants[x.Scope] }
func (p *principal) String() string                       { return p.id }

func build(how int, all bool, perms []auth.Permission, supplier middleware.PermissionsSupplierFunc) middleware.Middleware {
	switch how {
	case 0:
		if all {
			return middleware.AuthorizeAll(perms...)
		}
		return middleware.AuthorizeAny(perms...)
	}
	return middleware.Authorize(supplier, all)
}

// HarnessStub: principals with arbitrary rights, one middleware serving several requests.
func HarnessStub() {
	n := sym.Choose("permissions", sym.Pick(4, 5))
	perms := make([]auth.Permission, n)
	for i := range perms {
		perms[i] = auth.Permission{Scope: fmt.Sprint("s", i), Access: auth.AccessRead}
	}
	all := sym.Choose("all", 2) == 1
	how := sym.Choose("how", 4) // 1: supplied; 2: the supplier fails; 3: another list for the second request
	var boom error
	if how == 2 {
		boom = errors.New("supplier failed")
	}
	calls := 0
	var seenCtx context.Context
	var seenReq interface{}
	resp := kit.NewResp(200, "ok")
	herr := errors.New("handler")
	hfail := sym.Choose("handler fails", 2) == 1
	var h handler.Handler = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		calls++
		seenCtx, seenReq = ctx, mc.R
		if hfail {
			return nil, herr
		}
		return resp, nil
	}
	now := 0
	first := perms
	var before *principal
	mw := build(how, all, perms, func(ctx context.Context, mc path.MatchingContext) ([]auth.Permission, error) {
		sym.Assert(ctx.Value(ctxK(1)) == now, "the supplier sees the request")
		return perms, boom
	})(h)
	for r := 0; r < 2; r++ {
		now = r
		perms = first
		if how == 3 && r == 1 {
			perms = []auth.Permission{{Scope: "t", Access: auth.AccessCreate}}
		}
		ctx := context.WithValue(context.Background(), ctxK(1), r)
		mc := path.MatchingContext{R: kit.AnyRequest("/")}
		kind := 0
		if r == 0 || how != 2 {
			kind = sym.Choose("principal", 3)
		}
		ok := false
		switch kind {
		case 0:
			p := &principal{id: "p0", grants: map[string]bool{}}
			if r == 1 {
				switch sym.Choose("who", 3) {
				case 0:
					p.id = "p1"
				case 1: // the same identity, with rights of now
				case 2: // the very object, whose rights were changed
					if before != nil {
						p, p.grants = before, map[string]bool{}
					}
				}
			}
			before = p
			ok = all
			for i := range perms {
				b := sym.Bool(fmt.Sprintf("grant%d.%d", r, i))
				p.grants[perms[i].Scope] = b
				if all {
					ok = sym.And(ok, b)
				} else {
					ok = sym.Or(ok, b)
				}
			}
			ctx = context.WithValue(ctx, auth.SecurityPrincipalCtxKey, auth.SecurityPrincipal(p))
		case 1: // not a principal
			ctx = context.WithValue(ctx, auth.SecurityPrincipalCtxKey, "admin")
		}
		calls = 0
		got, err := mw(ctx, mc)
		sym.Reach("asked")
		sym.Observe("calls", calls)
		if boom != nil {
			sym.Assert(calls == 0 && got == nil && err == boom, "a failing supplier stops the request with its own error")
			continue
		}
		sym.Assert(sym.Iff(calls == 1, ok), "the handler runs exactly for an entitled principal")
		sym.Assert(calls <= 1, "the handler runs at most once")
		if calls == 0 {
			sym.Assert(got == nil && errors.Is(err, gerr.ErrUnauthorizedRequest), "otherwise the request fails as unauthorized")
			continue
		}
		sym.Assert(seenCtx == ctx && seenReq == interface{}(mc.R), "the handler gets the request's own context")
		if hfail {
			sym.Assert(got == nil && err == herr, "the handler's error passes through")
		} else {
			sym.Assert(got == response.HttpResponse(resp) && err == nil, "the handler's response passes through")
		}
	}
}

type ctxK int

// HarnessUser: the rights of the library's own users decide, for every set of accesses.
func HarnessUser() {
	acc := func(name string) auth.Access { return auth.Access(sym.Uint64(name) & 0x1ff) }
	scopes := []string{"a/b", "a/*", "a/c"}
	allowed := auth.Permission{Scope: scopes[sym.Choose("allowed", 3)], Access: acc("allowed.access")}
	role := auth.Role{Name: "r", AllowedPermissions: []auth.Permission{allowed}}
	deny := sym.Choose("deny", 2) == 1
	denied := auth.Permission{Scope: "a/b", Access: acc("denied.access")}
	if deny {
		role.DeniedPermissions = []auth.Permission{denied}
	}
	user := auth.User{Id: "u", Groups: []auth.Group{{Name: "g", Roles: []auth.Role{role}}}}
	n := 1 + sym.Choose("permissions", 2)
	perms := make([]auth.Permission, n)
	all := sym.Choose("all", 2) == 1
	ok := all
	for i := range perms {
		a := acc(fmt.Sprint("required", i))
		sym.Assume(a != 0)
		perms[i] = auth.Permission{Scope: []string{"a/b", "a/c"}[sym.Choose("scope", 2)], Access: a}
		b := sym.And(allowed.Scope == "a/*" || allowed.Scope == perms[i].Scope, allowed.Access&a == a)
		if deny && perms[i].Scope == "a/b" {
			b = sym.And(b, denied.Access&a == 0)
		}
		if all {
			ok = sym.And(ok, b)
		} else {
			ok = sym.Or(ok, b)
		}
	}
	calls := 0
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		calls++
		return kit.NewResp(200, "ok"), nil
	}
	supplied := middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
		if sym.Choose("pointer", 2) == 1 {
			return &user, nil
		}
		return user, nil
	})
	_, err := supplied(build(0, all, perms, nil)(h))(context.Background(), path.MatchingContext{R: kit.AnyRequest("/")})
	sym.Reach("asked")
	sym.Observe("calls", calls)
	sym.Assert(sym.Iff(calls == 1, ok), "the user's rights decide")
	sym.Assert(sym.Iff(err == nil, calls == 1), "the request fails otherwise")
}

// HarnessMany: long lists of required permissions, any one of which may be missing or granted.
func HarnessMany() {
	n := sym.Size("n", []int{8, 17, 33, 70, 300}, 300, "middleware", "auth")
	all := sym.Choose("all", 2) == 1
	how := sym.Choose("how", 2)
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	p := &principal{id: "p", grants: map[string]bool{}}
	perms := make([]auth.Permission, n)
	for i := range perms {
		perms[i] = auth.Permission{Scope: fmt.Sprint("s", i), Access: auth.AccessRead}
		p.grants[perms[i].Scope] = all
	}
	ok := sym.Bool("grant")
	p.grants[perms[at].Scope] = ok
	calls := 0
	h := build(how, all, perms, func(ctx context.Context, mc path.MatchingContext) ([]auth.Permission, error) { return perms, nil })(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		calls++
		return kit.NewResp(200, "ok"), nil
	})
	ctx := context.WithValue(context.Background(), auth.SecurityPrincipalCtxKey, auth.SecurityPrincipal(p))
	_, err := h(ctx, path.MatchingContext{R: kit.AnyRequest("/")})
	sym.Reach("asked")
	sym.Assert(sym.Iff(calls == 1, ok) && sym.Iff(err == nil, ok), "the handler runs exactly for an entitled principal")
}

// HarnessForeign: errors of any kind, of the supplier and of the handler, are passed on as they are.
func HarnessForeign() {
	boom := kit.AnyError("error")
	where := sym.Choose("where", 3)
	calls := 0
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		calls++
		if where == 1 {
			return nil, boom
		}
		return kit.NewResp(200, "ok"), nil
	}
	required := auth.Permission{Scope: "a", Access: auth.AccessRead}
	mw := middleware.Authorize(func(ctx context.Context, mc path.MatchingContext) ([]auth.Permission, error) {
		switch where {
		case 0:
			return nil, boom
		case 2:
			return []auth.Permission{required}, boom
		}
		return []auth.Permission{required}, nil
	}, sym.Choose("all", 2) == 1)
	ctx := context.Background()
	entitled := sym.Choose("principal", 2) == 1
	if entitled {
		ctx = context.WithValue(ctx, auth.SecurityPrincipalCtxKey, auth.SecurityPrincipal(&principal{id: "p", grants: map[string]bool{"a": true}}))
	}
	resp, err := mw(h)(ctx, path.MatchingContext{R: kit.AnyRequest("/")})
	sym.Reach("foreign")
	switch {
	case where != 1:
		sym.Assert(calls == 0 && resp == nil && err != nil, "a failing supplier stops the request")
		if entitled {
			sym.Assert(err == boom, "with its own error")
		}
	case entitled:
		sym.Assert(calls == 1 && resp == nil && err == boom, "the handler's error passes through")
	default:
		sym.Assert(calls == 0 && resp == nil && errors.Is(err, gerr.ErrUnauthorizedRequest), "otherwise the request fails as unauthorized")
	}
}
