// Package c38: a configuration is completed where it is empty, kept where it is given, and shared by all routers.
package c38

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"syscall"
	"time"

	"github.com/ixtendio/gofre"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

type tmpl struct{ id int }

func (*tmpl) Execute(w io.Writer, data interface{}) error                      { return nil }
func (*tmpl) ExecuteTemplate(w io.Writer, name string, data interface{}) error { return nil }

// opt is nothing or a short text.
func opt(name, alphabet string) string {
	if sym.Choose(name+"-given", 2) == 0 {
		return ""
	}
	return sym.Text(name, sym.Pick(1, 2), alphabet)
}

func or(s, def string) string {
	if s == "" {
		return def
	}
	return s
}

// routers are a handler and others derived from it.
func routers(root *gofre.MuxHandler) []*gofre.MuxHandler {
	a := root.RouteUsingPathPrefix("a")
	return []*gofre.MuxHandler{root, a, root.Clone(), a.Clone().RouteUsingPathPrefix("/b/"), root.RouteUsingPathPrefix("")}
}

// HarnessFields: what is given is kept, what is empty gets its documented default, in every router.
func HarnessFields() {
	cfg := &gofre.Config{CaseInsensitivePathMatch: sym.Bool("fold"), ContextPath: opt("context", "a-z/")}
	logged := 0
	given := sym.Choose("log", 2) == 1
	if given {
		cfg.ErrLogFunc = func(error) { logged++ }
	}
	var rc *gofre.ResourcesConfig
	var want gofre.ResourcesConfig
	fold, ctxPath := cfg.CaseInsensitivePathMatch, cfg.ContextPath
	if sym.Choose("resources", 2) == 1 {
		rc = &gofre.ResourcesConfig{Template: &tmpl{1}}
		switch sym.Choose("field", 4) {
		case 1:
			rc.TemplatesPathPattern = sym.Text("pattern", sym.Pick(1, 2), "a-z*/.")
		case 2:
			rc.AssetsDirPath = sym.Text("dir", sym.Pick(1, 2), "a-z/.")
		case 3:
			rc.AssetsMappingPath = sym.Text("mapping", 1, "a-z/")
		}
		want = *rc
		want.TemplatesPathPattern = or(want.TemplatesPathPattern, "resources/templates/*.html")
		want.AssetsDirPath = or(want.AssetsDirPath, "./resources/assets")
		want.AssetsMappingPath = or(want.AssetsMappingPath, "assets")
		cfg.ResourcesConfig = rc
	}
	root, err := gofre.NewMuxHandler(cfg)
	if err != nil || root == nil {
		sym.Fail("the configuration is valid")
		return
	}
	ms := routers(root)
	m := ms[sym.Choose("router", len(ms))]
	got := m.Config()
	sym.Reach("configured")
	sym.Assert(got.CaseInsensitivePathMatch == fold, "the case mode is kept")
	sym.Assert(got.ContextPath == or(ctxPath, "/"), "the context path is the given one or /")
	if rc == nil {
		sym.Assert(got.ResourcesConfig == nil && m.ExecutableTemplate() == nil, "no resources, no templates")
	} else {
		r := got.ResourcesConfig
		if r == nil {
			sym.Fail("the resources are kept")
			return
		}
		sym.Assert(r.TemplatesPathPattern == want.TemplatesPathPattern, "templates pattern")
		sym.Assert(r.AssetsDirPath == want.AssetsDirPath, "assets directory")
		sym.Assert(r.AssetsMappingPath == want.AssetsMappingPath, "assets mapping")
		sym.Assert(r.Template == want.Template && m.ExecutableTemplate() == want.Template, "the template given")
	}
	if got.ErrLogFunc == nil {
		sym.Fail("errors can be logged")
		return
	}
	got.ErrLogFunc(errors.New("x"))
	sym.Assert((logged == 1) == given, "the log function is the given one")
}

// HarnessCopy: what Config returns is a copy.
func HarnessCopy() {
	a, b := 0, 0
	root, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) { a++ }})
	sym.Assert(err == nil, "the configuration is valid")
	ms := routers(root)
	m := ms[sym.Choose("router", len(ms))]
	c := m.Config()
	c.ErrLogFunc = func(error) { b++ }
	c.CaseInsensitivePathMatch = true
	c.ContextPath = sym.Text("context", 1, "a-z")
	c.ResourcesConfig = &gofre.ResourcesConfig{Template: &tmpl{2}}
	for _, m := range ms {
		d := m.Config()
		sym.Assert(!d.CaseInsensitivePathMatch && d.ContextPath == "/" && d.ResourcesConfig == nil && m.ExecutableTemplate() == nil, "a change of the copy changes no router")
	}
	m.HandleGet("/x", func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
		return nil, errors.New("no")
	})
	p := []string{"/x", "/a/x", "/x", "/a/b/x", "/x"}
	for i := range ms {
		if ms[i] == m {
			w := kit.Serve(root, "GET", p[i])
			sym.Assert(w.Status == 500 && a == 1 && b == 0, "nor where errors go")
			w = kit.Serve(root, "GET", p[i][:len(p[i])-1]+"X")
			sym.Assert(w.Status == 404, "nor how paths are matched")
			sym.Reach("served")
			break
		}
	}
}

// HarnessCopyResources: the resources of what Config returns are a copy too.
func HarnessCopyResources() {
	t := &tmpl{1}
	root, err := gofre.NewMuxHandler(&gofre.Config{ResourcesConfig: &gofre.ResourcesConfig{TemplatesPathPattern: "t/*.html", AssetsDirPath: "./d", AssetsMappingPath: "m", Template: t}})
	sym.Assert(err == nil, "the configuration is valid")
	ms := routers(root)
	m := ms[sym.Choose("router", len(ms))]
	c := m.Config()
	if c.ResourcesConfig == nil {
		sym.Fail("the resources are kept")
		return
	}
	what := sym.Choose("change", 5)
	if what == 0 || what == 4 {
		c.ResourcesConfig.Template = &tmpl{2}
	}
	if what == 1 || what == 4 {
		c.ResourcesConfig.TemplatesPathPattern = sym.Text("pattern", 1, "a-z")
	}
	if what == 2 || what == 4 {
		c.ResourcesConfig.AssetsDirPath = sym.Text("dir", 1, "a-z")
	}
	if what == 3 || what == 4 {
		c.ResourcesConfig.AssetsMappingPath = sym.Text("mapping", 2, "a-z")
	}
	ms = append(ms, root.RouteUsingPathPrefix("late"), m.Clone())
	for _, m := range ms {
		r := m.Config().ResourcesConfig
		sym.Assert(r != nil && r.TemplatesPathPattern == "t/*.html" && r.AssetsDirPath == "./d" && r.AssetsMappingPath == "m", "a change of the copy changes no router")
		sym.Assert(r.Template == t && m.ExecutableTemplate() == t, "nor the templates it executes")
	}
	sym.Reach("read")
}

type failing struct {
	*kit.Resp
	err error
}

func (f failing) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	w.WriteHeader(f.Code)
	return f.err
}

// cause is the error a request ends with: the application's own, or one that the packages below it end with.
func cause() error {
	errs := []error{
		nil, context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrShortWrite, io.ErrClosedPipe, net.ErrClosed,
		http.ErrAbortHandler, http.ErrHandlerTimeout, http.ErrBodyNotAllowed, http.ErrContentLength, os.ErrDeadlineExceeded,
		syscall.EPIPE, syscall.ECONNRESET, gerrors.ErrAccessDenied, gerrors.ErrUnauthorizedRequest, gerrors.NewBadRequestWithMessage("bad"),
	}
	i := sym.Choose("cause", len(errs))
	err := errs[i]
	if i == 0 {
		return errors.New(sym.Text("text", 1, "a-z%"))
	}
	if sym.Choose("wrapped", 2) == 1 {
		err = &wrapped{err}
	}
	return err
}

type wrapped struct{ err error }

func (w *wrapped) Error() string { return "wrapped: " + w.err.Error() }
func (w *wrapped) Unwrap() error { return w.err }

// HarnessErrors: each error a handler or a response ends with reaches the log function once, with its cause; nothing else does.
func HarnessErrors() {
	var errs []error
	log := func(e error) { errs = append(errs, e) }
	var h http.Handler
	var handle func(method, p string, f func(context.Context, path.MatchingContext) (response.HttpResponse, error))
	prefix := ""
	errCause := cause()
	switch sym.Choose("level", 3) {
	case 0:
		root, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: log})
		sym.Assert(err == nil, "the configuration is valid")
		h = root
		m := root
		if sym.Choose("prefix", 2) == 1 {
			prefix = "/p"
			m = root.RouteUsingPathPrefix(prefix)
		}
		handle = func(method, p string, f func(context.Context, path.MatchingContext) (response.HttpResponse, error)) {
			m.HandleRequest(method, p, f)
		}
	case 1:
		r := router.NewRouter(sym.Choose("fold", 2) == 1, log)
		h = r
		handle = func(method, p string, f func(context.Context, path.MatchingContext) (response.HttpResponse, error)) {
			sym.Assert(r.Handle(method, p, f) == r, "registrations can be chained")
		}
	case 2: // without a log function errors are not lost in a panic
		r := router.NewRouter(false, nil)
		if sym.Choose("default", 2) == 1 {
			r = router.NewRouterWithDefaultConfig()
		}
		h, log = r, nil
		handle = func(method, p string, f func(context.Context, path.MatchingContext) (response.HttpResponse, error)) {
			r.Handle(method, p, f)
		}
	}
	kind := 0
	handle("GET", "/x/{v}", func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
		switch kind {
		case 0:
			return nil, errCause
		case 1:
			return failing{kit.NewResp(202, ""), errCause}, nil
		case 2: // the error counts, not the response beside it
			return kit.NewResp(201, "body"), errCause
		}
		return kit.NewResp(203, "ok"), nil
	})
	n := sym.Pick(1, 2)
	for i := 0; i < n; i++ {
		kind = sym.Choose("kind", 5)
		p := prefix + "/x/1"
		if kind == 4 {
			p = prefix + "/y"
		}
		errs = nil
		w := kit.Serve(h, "GET", p)
		want := []error{errCause, errCause, errCause, nil, nil}[kind]
		sym.Reach([]string{"handler", "write", "both", "none", "missing"}[kind])
		sym.Assert(w.Status == []int{500, 202, 500, 203, 404}[kind] && w.Body == []string{"", "", "", "ok", ""}[kind], "the client is answered")
		if log == nil {
			continue
		}
		if want == nil {
			sym.Assert(len(errs) == 0, "nothing failed")
		} else {
			sym.Assert(len(errs) == 1 && errors.Is(errs[0], want), "the error is reported once")
		}
	}
}

// HarnessMany: every one of many errors is reported, the same or not, at once or after a while.
func HarnessMany() {
	n := []int{3, 40, 150}[sym.Choose("requests", 3)]
	kind := sym.Choose("kind", 3)
	step := []time.Duration{0, time.Microsecond, time.Second}[sym.Choose("step", 3)]
	same := errors.New(sym.Text("text", 1, "a-z"))
	var errs []error
	root, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(e error) { errs = append(errs, e) }})
	sym.Assert(err == nil, "the configuration is valid")
	cause := same
	root.HandleGet("/x/{v}", func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
		if kind == 1 {
			return failing{kit.NewResp(202, ""), cause}, nil
		}
		return nil, cause
	})
	for i := 0; i < n; i++ {
		if kind == 2 {
			cause = errors.New(fmt.Sprint("error ", i))
		}
		w := kit.Serve(root, "GET", fmt.Sprint("/x/", i%7))
		sym.Reach("failed")
		sym.Assert(w.Status == []int{500, 202, 500}[kind], "the client is answered")
		sym.Assert(len(errs) == i+1 && errors.Is(errs[i], cause), "every error is reported once")
		sym.Advance(step)
	}
}

// HarnessTexts: a text that is given is kept as it is, spaces, cases, dots and slashes included.
func HarnessTexts() {
	text := ""
	list := []string{" ", "/a ", " /a", "/A", "/a/", "a", "//", "/a//b", "./a", "../a", "/a/../b", "~/a", "$HOME/a", "${A}", "%41", "/a?b", "C:\\a", "a\tb", "/\u00e9", "https://a.test/"}
	k := sym.Choose("text", len(list)+2)
	switch k {
	case len(list):
		text = sym.Constant("text.known", "", "router", "middleware")
		sym.Assume(text != "" && len(text) < 200)
	case len(list) + 1:
		text = sym.Text("any", 1+sym.Choose("len", 2), " !#-)+-z|~") // no patterns
	default:
		text = list[k]
	}
	cfg := &gofre.Config{ErrLogFunc: func(error) {}}
	field := sym.Choose("field", 3)
	switch field {
	case 0:
		cfg.ContextPath = text
	case 1:
		cfg.ResourcesConfig = &gofre.ResourcesConfig{Template: &tmpl{1}, TemplatesPathPattern: text}
	case 2:
		cfg.ResourcesConfig = &gofre.ResourcesConfig{Template: &tmpl{1}, AssetsDirPath: text}
	}
	root, err := gofre.NewMuxHandler(cfg)
	if err != nil || root == nil {
		sym.Fail("the configuration is valid")
		return
	}
	sym.Reach("texts")
	for _, m := range routers(root) {
		c := m.Config()
		got := c.ContextPath
		switch field {
		case 1:
			got = c.ResourcesConfig.TemplatesPathPattern
		case 2:
			got = c.ResourcesConfig.AssetsDirPath
		}
		sym.Assert(kit.Same(got, text, false), "what is given is kept")
	}
}

// HarnessGone: errors are reported whatever became of the client meanwhile.
func HarnessGone() {
	var errs []error
	root, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(e error) { errs = append(errs, e) }})
	sym.Assert(err == nil, "the configuration is valid")
	ctx, cancel := context.WithCancel(context.Background())
	when := sym.Choose("gone", 4) // never, before, within the handler, within the response
	if when == 1 {
		cancel()
	}
	boom := cause()
	write := sym.Choose("write", 2) == 1
	root.HandleRequest("PUT", "/x", func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
		if when == 2 {
			cancel()
		}
		if write {
			return gone{failing{kit.NewResp(202, ""), boom}, func() {
				if when == 3 {
					cancel()
				}
			}}, nil
		}
		return nil, boom
	})
	r := kit.Request("PUT", "/x").WithContext(ctx)
	w := kit.NewW()
	root.ServeHTTP(w.Writer(sym.Choose("flush", 2) == 1), r)
	cancel()
	sym.Reach("gone")
	if write {
		sym.Assert(w.Status == 202, "the response was written")
	} else {
		sym.Assert(w.Status == 500 && w.Body == "", "the client is answered")
	}
	sym.Assert(len(errs) == 1 && errors.Is(errs[0], boom), "the error is reported once")
}

type gone struct {
	failing
	first func()
}

func (g gone) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	g.first()
	return g.failing.Write(w, mc)
}
