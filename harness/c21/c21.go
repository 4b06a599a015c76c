// Package c21: a panicking handler becomes an error, never a crash.
package c21

import (
	"context"
	"errors"
	"fmt"
	"net/http"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

type value struct{ a, b int }

type nasty struct{}

func (nasty) Error() string { panic("an error that cannot be printed") }

type nastyStringer struct{}

func (nastyStringer) String() string { panic("a value that cannot be printed") }

const kinds = 28

// boom panics in one of the ways a program can.
func boom(kind, i int) {
	var null *value
	var m map[string]int
	var a [3]int
	var any interface{} = "text"
	switch kind {
	case 0:
		panic("text")
	case 1:
		panic("")
	case 2:
		panic(errors.New("an error"))
	case 3:
		panic(value{i, 2})
	case 4:
		panic(&value{})
	case 5:
		panic(i)
	case 6:
		panic(nil)
	case 7:
		null.a = 1
	case 8:
		m["x"] = 1
	case 9:
		a[i] = 1
		panic("in range")
	case 10:
		_ = any.(int)
	case 11:
		panic(http.ErrAbortHandler)
	case 12:
		panic(nasty{})
	case 13:
		panic(nastyStringer{})
	case 14:
		panic(false)
	case 16:
		_ = make([]int, i-10)
		panic("in range")
	case 17:
		_ = make([]byte, 3, i-10)
		panic("in range")
	case 18:
		_ = a[:i]
		panic("in range")
	case 19:
		_ = "text"[i:2]
		panic("in range")
	case 20:
		_ = 7 / (i - 4)
		panic("no zero")
	case 21:
		c := make(chan int)
		close(c)
		close(c)
	case 22:
		c := make(chan int)
		close(c)
		c <- 1
	case 23:
		var f func()
		f()
	case 24:
		var none fmt.Stringer
		_ = none.String()
	case 25:
		_ = any.(fmt.Stringer)
	case 26:
		x := map[interface{}]int{}
		x[[]int{1}] = 2
	case 27:
		var x, y interface{} = []int{1}, []int{1}
		_ = x == y
	case 15:
		panic(fmt.Errorf("wrapped: %w", errors.New("inner")))
	}
}

// deep panics below n calls, some of which have their own deferred calls.
func deep(n, how, kind, i int) {
	if n == 0 {
		boom(kind, i)
		return
	}
	switch how {
	case 1: // a deferred call that does not recover
		defer func() { _ = i }()
	case 2: // recovered and thrown again
		defer func() {
			r := recover()
			panic(r)
		}()
	case 3: // a second panic while the first one runs
		defer func() { boom(kind, i) }()
	case 4: // only cleans up after itself
		defer func() {
			defer func() { recover() }()
			panic("inner")
		}()
	}
	deep(n-1, how, kind, i)
}

var herr = errors.New("handler")

// HarnessPanic: any value, at any depth, with or without partial results.
func HarnessPanic() {
	sym.PanicNil(sym.Choose("panicnil", 2) == 1)
	kind := sym.Choose("kind", kinds)
	i := sym.Int("i", 0, 5)
	how := sym.Choose("how", 5)
	n := sym.Choose("depth", sym.Pick(3, 5))
	named := sym.Choose("named", 2) == 1
	own := kit.NewResp(200, "")
	mw := middleware.PanicRecover()
	h := mw(func(ctx context.Context, mc path.MatchingContext) (resp response.HttpResponse, err error) {
		if named {
			resp = own
		}
		deep(n, how, kind, i)
		return own, nil
	})
	var err error
	panicked, _ := sym.Guard(func() {
		_, err = h(context.Background(), path.MatchingContext{R: kit.AnyRequest("/x")})
	})
	sym.Reach("called")
	sym.Assert(!panicked, "the panic does not propagate")
	sym.Assert(err != nil, "the caller gets an error")
	sym.Assert(err.Error() != "", "the error can be printed")
}

// HarnessReturn: without a panic nothing changes.
func HarnessReturn() {
	sym.PanicNil(sym.Choose("panicnil", 2) == 1)
	var resp response.HttpResponse
	own := kit.NewResp(sym.Int("code", 100, 599), sym.Text("body", 1, "a-z"))
	if sym.Choose("resp", 2) == 1 {
		resp = own
	}
	var err error
	if sym.Choose("err", 2) == 1 {
		err = herr
	}
	inside := sym.Choose("inside", 3)
	n := 0
	type key struct{}
	h := middleware.PanicRecover()(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		n++
		sym.Assert(ctx.Value(key{}) == 7, "the handler gets the caller's context")
		sym.Assert(mc.R.Method == "GET", "the handler gets the caller's request")
		switch inside {
		case 1: // a panic the handler deals with by itself
			func() {
				defer func() { recover() }()
				panic("mine")
			}()
		case 2:
			defer func() { n += 0 }()
		}
		return resp, err
	})
	for k := 0; k < 2; k++ {
		got, e := h(context.WithValue(context.Background(), key{}, 7), path.MatchingContext{R: kit.AnyRequest("/x")})
		sym.Reach("returned")
		sym.Assert(got == resp, "the response is returned unchanged")
		sym.Assert(e == err, "the error is returned unchanged")
	}
	sym.Assert(n == 2, "the handler ran once per request")
}

// HarnessSequence: a panic in one request leaves the next ones alone, through a whole router.
func HarnessSequence() {
	kind := sym.Choose("kind", kinds)
	at := sym.Choose("at", 3)
	var errs []error
	r := router.NewRouter(false, func(err error) { errs = append(errs, err) })
	pan := func(ctx context.Context) { boom(kind, 4) }
	before := func(h handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			if at == 0 && mc.R.Method == "GET" {
				pan(ctx)
			}
			resp, err := h(ctx, mc)
			if at == 1 && mc.R.Method == "GET" {
				pan(ctx)
			}
			return resp, err
		}
	}
	hnd := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if at == 2 && mc.R.Method == "GET" {
			pan(ctx)
		}
		return kit.NewResp(200, "ok"), nil
	}
	h := middleware.PanicRecover()(before(hnd))
	r.Handle("GET", "/x/{a}", h)
	r.Handle("POST", "/x/{a}", h)
	for i := 0; i < 3; i++ {
		m := "POST"
		if i == 1 {
			m = "GET"
		}
		w := kit.NewW()
		panicked, _ := sym.Guard(func() { r.ServeHTTP(w.Writer(true), kit.Request(m, "/x/1")) })
		sym.Reach("served")
		sym.Assert(!panicked, "the panic does not propagate")
		if i == 1 {
			sym.Assert(w.Status == 500 && len(errs) == 1 && errs[0] != nil, "the panic is reported as one error")
		} else {
			sym.Assert(w.Status == 200 && w.Body == "ok", "other requests are answered")
		}
	}
}

// HarnessMany: panics far down, one after the other, with long texts.
func HarnessMany() {
	depth := sym.Size("depth", []int{0, 40, 200}, 200, "middleware")
	how := sym.Choose("how", 5)
	if depth == 200 && how == 3 {
		depth = 60
	}
	text := kit.Long("text", sym.Size("size", kit.Sizes[:5], 5000, "middleware"))
	kind := 0
	h := middleware.PanicRecover()(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		switch kind {
		case -1:
			return kit.NewResp(200, "ok"), nil
		case -2:
			panic(text)
		case -3:
			panic(errors.New(text))
		}
		deep(depth, how, kind, 4)
		return nil, nil
	})
	for i, k := range []int{-1, 2, -2, 8, -1, 11, -3, 0, 12, -1} {
		kind = k
		var err error
		var r response.HttpResponse
		panicked, _ := sym.Guard(func() {
			r, err = h(context.Background(), path.MatchingContext{R: kit.AnyRequest("/x")})
		})
		sym.Reach("called")
		sym.Assert(!panicked, "the panic does not propagate")
		sym.Assert((err == nil) == (k == -1) && (r != nil) == (k == -1), "a panic is an error, and only that")
		if err != nil {
			sym.Assert(err.Error() != "" || i < 0, "the error can be printed")
		}
	}
}
