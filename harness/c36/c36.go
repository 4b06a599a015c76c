// Package c36: debug endpoints exist only where they were enabled, each serves what its name says,
// and the middlewares of the router guard them.
package c36

import (
	"context"
	"errors"
	"net/http"
	"strings"

	"verifharness/kit"
	"verifharness/sym"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

// endpoints below /debug and what they serve.
var endpoints = [][2]string{
	{"pprof", "index"}, {"pprof/allocs", "allocs"}, {"pprof/block", "block"}, {"pprof/goroutine", "goroutine"},
	{"pprof/heap", "heap"}, {"pprof/mutex", "mutex"}, {"pprof/threadcreate", "threadcreate"}, {"pprof/cmdline", "cmdline"},
	{"pprof/profile", "profile"}, {"pprof/symbol", "symbol"}, {"pprof/trace", "trace"}, {"vars", "vars"},
}

// served tells which endpoint answered.
func served(w *kit.W) string {
	if cd := w.H.Get("Content-Disposition"); cd != "" {
		_, name, _ := strings.Cut(cd, `filename="`)
		return strings.TrimSuffix(name, `"`)
	}
	ct := w.H.Get("Content-Type")
	switch {
	case strings.HasPrefix(ct, "text/html"):
		return "index"
	case strings.HasPrefix(ct, "application/json"):
		return "vars"
	case strings.HasPrefix(w.Body, "num_symbols"):
		return "symbol"
	case strings.HasPrefix(ct, "text/plain"):
		return "cmdline"
	}
	return "nothing"
}

// comps are the segments of a path once normalised.
func comps(p string) []string {
	var r []string
	for _, s := range strings.Split(p, "/") {
		switch {
		case s == "":
		case s == "..":
			if len(r) > 0 {
				r = r[:len(r)-1]
			}
		default:
			r = append(r, s)
		}
	}
	return r
}

// get sends a request whose context has ended already, so that the timed profiles return at once.
func get(h http.Handler, method, p string) *kit.W {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	r := kit.Request(method, p).WithContext(ctx)
	r.RequestURI = p
	kit.Addresses(r)
	kit.AnyConnection(r)
	w := kit.NewW()
	h.ServeHTTP(w.Writer(true), r)
	return w
}

// HarnessEndpointsLive: whatever the prefix and the case mode.
func HarnessEndpointsLive() {
	fold := sym.Choose("fold", 2) == 1
	root, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: fold, ErrLogFunc: func(error) {}})
	sym.Assert(err == nil, "the default configuration is valid")
	prefixes := []string{"", "/a", "b/c/", "/debug"}
	prefix := prefixes[sym.Choose("prefix", len(prefixes))]
	m := root.RouteUsingPathPrefix(prefix)
	hits := 0
	m.HandleGet("/x", kit.Handle(func(path.MatchingContext) { hits++ }))
	enabled := sym.Choose("enabled", 2) == 1
	if enabled {
		m.EnableDebugEndpoints()
	}
	e := endpoints[sym.Choose("endpoint", len(endpoints))]
	base := ""
	if p := strings.Trim(prefix, "/"); p != "" {
		base = "/" + p
	}
	full := base + "/debug/" + e[0]
	p := full
	method := "GET"
	twists := 5
	if !enabled {
		twists = 2
	}
	switch sym.Choose("twist", twists) {
	case 1: // another method
		method = []string{"POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH"}[sym.Choose("other", 6)]
	case 4: // any other letter at one place
		i := 1
		if sym.Thorough() {
			i += sym.Choose("at", len(full)-1)
		} else {
			i = []int{1, len(full) / 2, len(full) - 1}[sym.Choose("at", 3)]
		}
		p = full[:i] + sym.Text("letter", 1, "a-zA-Z0-9-.") + full[i+1:]
	case 2: // asked for outside the prefix
		p = "/debug/" + e[0]
	case 3: // one more segment or slash
		p = full + []string{"/", "/x", "//", "/../" + e[0][strings.LastIndexByte(e[0], '/')+1:]}[sym.Choose("tail", 4)]
	}
	w := get(root, method, p)
	want := ""
	segs := comps(p)
	n := 0
	for _, x := range endpoints {
		f := comps(base + "/debug/" + x[0])
		if len(f) != len(segs) {
			continue
		}
		eq := true
		for i := range f {
			eq = sym.And(eq, kit.Same(segs[i], f[i], fold))
		}
		if eq {
			want = x[1]
			n++
		}
	}
	sym.Assert(n <= 1, "endpoints differ")
	if want == "" || !enabled || method != "GET" {
		sym.Reach("none")
		if w.Status != 200 || hits == 0 {
			sym.Assert(w.Status == 404 && w.Body == "", "no debug endpoint where none was enabled")
		}
		return
	}
	sym.Reach("served")
	sym.Assert(w.Status == 200 && hits == 0, "the endpoint answers")
	sym.Assert(served(w) == want, "the endpoint serves what its name says")
}

// HarnessGuardedLive: the router's common middlewares run before a debug endpoint, in order, and may refuse it.
func HarnessGuardedLive() {
	root, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	sym.Assert(err == nil, "the default configuration is valid")
	log := ""
	refuse := sym.Bool("refuse")
	mid := func(name string) func(handler.Handler) handler.Handler {
		return func(next handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				log += name
				if name == "2" && refuse {
					return nil, errors.New("refused")
				}
				return next(ctx, mc)
			}
		}
	}
	m := root
	inherit := sym.Choose("inherit", 3)
	if inherit == 0 {
		m.CommonMiddlewares(mid("1"), mid("2"))
	} else {
		root.CommonMiddlewares(mid("1"))
		if inherit == 1 {
			m = root.RouteUsingPathPrefix("a")
		} else {
			m = root.Clone()
		}
		m.CommonMiddlewares(mid("2"))
	}
	m.EnableDebugEndpoints()
	root.CommonMiddlewares(mid("9")) // too late
	e := endpoints[sym.Choose("endpoint", len(endpoints))]
	p := "/debug/" + e[0]
	if inherit == 1 {
		p = "/a" + p
	}
	w := get(root, "GET", p)
	sym.Reach("asked")
	sym.Assert(log == "12", "the router's middlewares run, in order")
	if refuse {
		sym.Reach("refused")
		sym.Assert(w.Status == 500 && w.Body == "", "a refused request learns nothing")
	} else {
		sym.Reach("answered")
		sym.Assert(w.Status == 200 && served(w) == e[1], "the endpoint answers")
	}
}
