// Package c20: errors become responses with the right status.
package c20

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"

	goferr "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

type plain struct{ msg string }

func (p plain) Error() string { return p.msg }

type uncomparable struct{ msgs []string }

func (u uncomparable) Error() string { return u.msgs[0] }

// same tells whether a and b are the very same error (an uncomparable one is known by its type).
func same(a, b error) bool {
	ua, ok := a.(uncomparable)
	ub, ok2 := b.(uncomparable)
	if ok || ok2 {
		return ok && ok2 && &ua.msgs[0] == &ub.msgs[0]
	}
	return a == b
}

// failure is an error of any kind and the status it stands for.
func failure(tag, msg string) (error, int) {
	switch sym.Choose(tag, 13) {
	case 0:
		return goferr.NewBadRequestWithMessage(msg), 400
	case 1:
		return goferr.NewBadRequest(goferr.ErrAccessDenied), 400
	case 2:
		return goferr.NewBadRequest(goferr.NewObjectNotFoundWithMessage(msg)), 400
	case 3:
		return goferr.NewObjectNotFoundWithMessage(msg), 404
	case 4:
		return goferr.NewObjectNotFound(goferr.NewBadRequestWithMessage(msg)), 404
	case 5:
		return goferr.NewObjectNotFound(goferr.ErrUnauthorizedRequest), 404
	case 6:
		return goferr.ErrUnauthorizedRequest, 401
	case 7:
		return goferr.ErrWrongCredentials, 403
	case 8:
		return goferr.ErrAccessDenied, 403
	case 9:
		return errors.New(msg), 500
	case 10:
		return plain{msg}, 500
	case 11:
		return uncomparable{[]string{msg}}, 500
	}
	// another error with the text of a known one
	return errors.New([]string{"access denied", "unauthorized request", "wrong credentials"}[sym.Choose(tag+"text", 3)]), 500
}

// HarnessStatus: any sequence of requests through one middleware.
func HarnessStatus() {
	var calls int
	var code int
	var cause error
	made := kit.NewResp(0, "")
	var resp response.HttpResponse
	var err error
	h := middleware.ErrResponse(func(c int, e error) response.HttpResponse {
		calls++
		code, cause = c, e
		return made
	})(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return resp, err })
	own := kit.NewResp(201, "")
	for i := 0; i < 2; i++ {
		tag := fmt.Sprint("r", i)
		calls, resp, err = 0, nil, nil
		want := 0
		if sym.Choose(tag+"fails", 2) == 1 {
			err, want = failure(tag+"kind", sym.Text(tag+"msg", sym.Choose(tag+"len", 3), " -~"))
		}
		if sym.Choose(tag+"with", 2) == 1 {
			resp = own
		}
		got, e := h(context.Background(), path.MatchingContext{R: kit.AnyRequest("/x")})
		sym.Reach("answered")
		sym.Assert(e == nil, "no error escapes")
		if err == nil {
			sym.Assert(calls == 0, "the supplier is not asked for a successful response")
			sym.Assert(got == resp, "a successful response passes through untouched")
			continue
		}
		sym.Assert(calls == 1, "the supplier is called once")
		sym.Assert(code == want, "the error has its status")
		sym.Assert(same(cause, err), "the supplier receives the original error")
		sym.Assert(got == response.HttpResponse(made), "the supplied response is the answer")
	}
}

// HarnessNested: the error comes through other middlewares, and an inner error middleware hides it
// from an outer one.
func HarnessNested() {
	err, want := failure("kind", sym.Text("msg", 1, " -~"))
	inner := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return nil, err }
	depth := sym.Choose("depth", 3)
	var h handler.Handler = inner
	if depth > 0 {
		h = middleware.CompressResponse(1)(h)
	}
	if depth > 1 {
		h = middleware.PanicRecover()(h)
	}
	var codes []int
	sup := func(c int, e error) response.HttpResponse { codes = append(codes, c); return kit.NewResp(c, "") }
	h = middleware.ErrResponse(sup)(h)
	if sym.Choose("outer", 2) == 1 {
		h = middleware.ErrResponse(sup)(h)
	}
	got, e := h(context.Background(), path.MatchingContext{R: kit.AnyRequest("/x")})
	sym.Reach("answered")
	sym.Assert(e == nil && got != nil, "no error escapes")
	sym.Assert(len(codes) == 1, "the supplier is called once")
	sym.Assert(got.StatusCode() == want, "the error has its status")
}

// HarnessJson: what the client of the JSON error middleware reads.
func HarnessJson() {
	msg := sym.Text("msg", sym.Choose("len", sym.Pick(3, 5)), "\x01- ~- -~")
	err, want := failure("kind", msg)
	h := middleware.ErrJsonResponse()(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return nil, err
	})
	mc := path.MatchingContext{R: kit.AnyRequest("/x")}
	got, e := h(context.Background(), mc)
	sym.Assert(e == nil && got != nil, "no error escapes")
	w := kit.NewW()
	sym.Assert(got.Write(w.Writer(true), mc) == nil, "the response can be written")
	sym.Reach("written")
	sym.Assert(w.Status == want, "the client sees the status of the error")
	sym.Assert(w.Sent.Get("Content-Type") == "application/json", "the body is declared as JSON")
	var body map[string]any
	sym.Assert(json.Unmarshal([]byte(w.Body), &body) == nil, "the body is JSON")
	s, ok := body["error"].(string)
	sym.Assert(ok && len(body) == 1 && kit.Same(s, err.Error(), false), "the body carries the error's text")
}

// HarnessForeign: errors of other packages, bare and with an error of gofre inside.
func HarnessForeign() {
	all := kit.KnownErrors()
	sym.Assert(len(all) == kit.NKnownErrors, "none is left out")
	err := all[sym.Choose("error", kit.NKnownErrors)]
	var h handler.Handler = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return nil, err }
	if sym.Choose("middlewares", 2) == 1 {
		h = middleware.PanicRecover()(middleware.CompressResponse(1)(h))
	}
	calls, code := 0, 0
	var cause error
	supplied := middleware.ErrResponse(func(c int, e error) response.HttpResponse {
		calls++
		code, cause = c, e
		return kit.NewResp(c, "")
	})(h)
	mc := path.MatchingContext{R: kit.AnyRequest("/x")}
	got, e := supplied(context.Background(), mc)
	sym.Reach("answered")
	sym.Assert(e == nil && got != nil && calls == 1, "the supplier is called once")
	sym.Assert(code == 500, "an error of any other kind has status 500")
	sym.Assert(cause == err, "the supplier receives the original error")
	got, e = middleware.ErrJsonResponse()(h)(context.Background(), mc)
	sym.Assert(e == nil && got != nil, "no error escapes")
	w := kit.NewW()
	sym.Assert(got.Write(w.Writer(true), mc) == nil, "the response can be written")
	sym.Assert(w.Status == 500, "the client sees the status of the error")
	var body map[string]any
	sym.Assert(json.Unmarshal([]byte(w.Body), &body) == nil, "the body is JSON")
	s, ok := body["error"].(string)
	sym.Assert(ok && len(body) == 1 && s == err.Error(), "the body carries the error's text")
}

// HarnessMany: many requests through one middleware, long messages, errors far away from the middleware.
func HarnessMany() {
	kinds := []error{goferr.NewBadRequestWithMessage("b"), goferr.NewObjectNotFoundWithMessage("n"), goferr.ErrUnauthorizedRequest, goferr.ErrWrongCredentials, goferr.ErrAccessDenied, errors.New("e")}
	codes := []int{400, 404, 401, 403, 403, 500}
	depth := sym.Size("depth", []int{0, 3, 12}, 40, "middleware")
	step := 1 + sym.Choose("step", 5)
	msg := kit.Long("msg", sym.Size("size", kit.Sizes[:4], 5000, "middleware", "errors"))
	kinds = append(kinds, goferr.NewBadRequestWithMessage(msg), goferr.NewObjectNotFoundWithMessage(msg), errors.New(msg))
	codes = append(codes, 400, 404, 500)
	var err error
	var h handler.Handler = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return nil, err }
	for i := 0; i < depth; i++ {
		if i%2 == 0 {
			h = middleware.PanicRecover()(h)
		} else {
			h = middleware.CompressResponse(1)(h)
		}
	}
	var got []int
	var cause error
	h = middleware.ErrResponse(func(c int, e error) response.HttpResponse {
		got = append(got, c)
		cause = e
		return kit.NewResp(c, e.Error())
	})(h)
	for i := 0; i < 60; i++ {
		k := (i*step + i/9) % len(kinds)
		err = kinds[k]
		r, e := h(context.Background(), path.MatchingContext{R: kit.AnyRequest("/x")})
		sym.Reach("answered")
		sym.Assert(e == nil && r != nil && len(got) == i+1 && got[i] == codes[k] && same(cause, err), "the error has its status")
		kr, ok := r.(*kit.Resp)
		sym.Assert(ok && kit.Same(kr.Text, err.Error(), false), "the supplied response is the answer")
	}
}

// HarnessNone: a supplier that has no response is asked once all the same.
func HarnessNone() {
	err, want := failure("kind", "text")
	var codes []int
	var causes []error
	typed := sym.Choose("typed", 2) == 1
	sup := func(c int, e error) response.HttpResponse {
		codes, causes = append(codes, c), append(causes, e)
		if typed {
			return (*response.HttpTextResponse)(nil)
		}
		return nil
	}
	h := middleware.ErrResponse(sup)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return kit.NewResp(200, ""), err
	})
	got, e := h(context.Background(), path.MatchingContext{R: kit.AnyRequest("/x")})
	sym.Reach("none")
	sym.Assert(e == nil, "no error escapes")
	sym.Assert(len(codes) == 1 && codes[0] == want && same(causes[0], err), "the supplier is called once, with the status and the original error")
	if typed {
		r, ok := got.(*response.HttpTextResponse)
		sym.Assert(ok && r == nil, "what it returns is the answer")
	} else {
		sym.Assert(got == nil, "what it returns is the answer")
	}
}

// HarnessAround: middlewares around the error middleware see its response.
func HarnessAround() {
	err, want := failure("kind", sym.Text("msg", sym.Choose("len", 2), " -~"))
	seen := 0
	around := func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			r, e := next(ctx, mc)
			seen++
			sym.Assert(e == nil && r != nil && r.StatusCode() == want, "the middlewares around it see the response")
			return r, e
		}
	}
	h := around(middleware.ErrJsonResponse()(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) { return nil, err }))
	w := kit.NewW()
	mc := path.MatchingContext{R: kit.AnyRequest("/x")}
	got, e := h(context.Background(), mc)
	sym.Reach("around")
	sym.Assert(e == nil && seen == 1, "no error escapes")
	sym.Assert(got.Write(w.Writer(true), mc) == nil && w.Status == want && w.Writes == 1, "the client sees the status of the error")
}

// HarnessBoth: an error decides the answer whatever response the handler returned with it.
func HarnessBoth() {
	err, want := failure("kind", sym.Text("msg", sym.Choose("len", 2), " -~"))
	own := sym.Int("own", 100, 999)
	var with response.HttpResponse
	switch sym.Choose("with", 5) {
	case 0:
		with = kit.NewResp(own, "own")
	case 1:
		with = response.PlainTextHttpResponse(own, "own")
	case 2:
		with = response.JsonHttpResponse(own, "own")
	case 3:
		with = response.RedirectHttpResponse("/own")
	case 4:
		with = (*response.HttpTextResponse)(nil)
	}
	calls, code := 0, 0
	made := kit.NewResp(299, "")
	h := func(context.Context, path.MatchingContext) (response.HttpResponse, error) { return with, err }
	mc := path.MatchingContext{R: kit.AnyRequest("/x")}
	got, e := middleware.ErrResponse(func(c int, cause error) response.HttpResponse {
		calls++
		code = c
		sym.Assert(same(cause, err), "the supplier receives the original error")
		return made
	})(h)(context.Background(), mc)
	sym.Reach("both")
	sym.Assert(e == nil && calls == 1 && code == want && got == response.HttpResponse(made), "the supplied response is the answer")
	got, e = middleware.ErrJsonResponse()(h)(context.Background(), mc)
	sym.Assert(e == nil && got != nil && got.StatusCode() == want, "the error has its status")
}
