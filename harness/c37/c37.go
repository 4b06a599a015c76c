// Package c37: the state of a login and the nonce of a form cannot be predicted.
package c37

import (
	"context"
	"net/url"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

// Spoken: what the property speaks of, see kit.Request.
func init() {
	kit.Spoken = []string{"X-Csrf-Token", "X-Tok", "_csrf", "tok", "provider", "state", "code", "error"}
}

// store records what is added to it.
type store struct {
	cache.Cache
	added []string
}

func (s *store) Add(k string, d time.Duration) error {
	s.added = append(s.added, k)
	return nil
}

// name is the login provider's.
var name = "gh"

// tokens serves n requests that are each given a token, and returns the tokens and the random bytes taken after each.
func tokens(kind, n int) (ts []string, used []int) {
	root, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	sym.Assert(err == nil, "the default configuration is valid")
	st := &store{}
	p := &kit.Provider{N: name}
	path_, query := "/oauth/initiate", url.Values{}
	nonce := ""
	switch kind {
	case 0, 1:
		cfg := oauth.Config{WebsiteUrl: "https://site.test", Providers: []oauth.Provider{p}}
		if kind == 0 {
			cfg.CacheConfig = oauth.CacheConfig{Cache: st, KeyExpirationTime: time.Hour}
		} else { // two providers, one of them asked for
			cfg.Providers = append(cfg.Providers, &kit.Provider{N: "go"})
			query.Set("provider", name)
		}
		root.HandleOAUTH2(cfg, kit.Handle(func(path.MatchingContext) {}), nil, nil)
	default:
		path_ = "/form"
		mw := middleware.CSRFPrevention(st)
		if kind == 3 {
			mw = middleware.CSRFPreventionWithCustomParamAndHeaderName(st, "tok", "X-Tok")
		}
		root.HandleGet(path_, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			nonce = middleware.GetCSRFNonceFromContext(ctx)
			return kit.NewResp(200, ""), nil
		}, func(h handler.Handler) handler.Handler { return mw(h) })
	}
	for i := 0; i < n; i++ {
		r := kit.Request("GET", path_)
		kit.AnyConnection(r)
		r.URL.RawQuery = query.Encode() + r.URL.RawQuery
		root.ServeHTTP(kit.NewW(), r)
		t := nonce
		if kind < 2 {
			t = p.InitState
			sym.Assert(p.Inits == i+1, "the login starts")
		}
		if kind != 1 {
			sym.Assert(len(st.added) == i+1 && st.added[i] == t, "what is remembered is what is given out")
		}
		ts = append(ts, t)
		used = append(used, sym.EntropyUsed())
	}
	return
}

// low makes bytes out of which any usual alphabet takes distinct letters. (Hexadecimal digits written by
// cases fork at ten.)
func low(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for i := range b {
		sym.Assume(b[i] < 10)
	}
	return b
}

// HarnessSecret: all that a token depends on is secret, and there is enough of it.
func HarnessSecret() {
	kind := sym.Choose("kind", 4)
	a, b := low("a", 32), low("b", 32)
	sym.Entropy(a)
	t1, used := tokens(kind, 1)
	n := used[0]
	sym.Assert(n >= 8, "a token takes at least eight bytes from the cryptographic random source")
	if n > len(a) {
		n = len(a)
	}
	sym.Assume(string(a[:n]) != string(b[:n]))
	sym.Entropy(b)
	t2, _ := tokens(kind, 1)
	sym.Reach("issued")
	sym.Assert(len(t1[0])*6 >= 64, "a token is long enough for 64 bits, at up to 6 bits a letter")
	sym.Assert(t1[0] != t2[0], "other random bytes, another token")
}

// HarnessByte: every random byte taken counts by itself.
func HarnessByte() {
	kind := sym.Choose("kind", 4)
	a := make([]byte, 32)
	for i := range a {
		a[i] = byte(i*5+1) & 15
	}
	at := sym.Choose("at", sym.Pick(12, 16))
	x, y := sym.Byte("x"), sym.Byte("y")
	sym.Assume(x < 16 && y < 16 && x != y)
	a[at] = x
	sym.Entropy(a)
	t1, used := tokens(kind, 1)
	if at >= used[0] {
		return
	}
	a[at] = y
	sym.Entropy(a)
	t2, _ := tokens(kind, 1)
	sym.Reach("issued")
	sym.Assert(t1[0] != t2[0], "another random byte, another token")
}

// HarnessFresh: each token is made of random bytes of its own.
func HarnessFresh() {
	kind := sym.Choose("kind", 4)
	n := sym.Pick(5, 8)
	a := make([]byte, 256)
	for i := range a {
		a[i] = byte(i+i/16*3) % 10
	}
	i := sym.Choose("one", n-1)
	j := i + 1 + sym.Choose("other", n-1-i)
	// only the bytes of the two tokens are symbolic; which ones they are is seen from a first run
	sym.Entropy(a)
	_, used := tokens(kind, n)
	if used[n-1] <= len(a) {
		for _, k := range []int{i, j} {
			from := 0
			if k > 0 {
				from = used[k-1]
			}
			copy(a[from:used[k]], low("token", used[k]-from))
		}
	}
	sym.Entropy(a)
	ts, used := tokens(kind, n)
	from := append([]int{0}, used...)
	if used[n-1] <= len(a) && from[i+1]-from[i] == from[j+1]-from[j] {
		sym.Assume(string(a[from[i]:from[i+1]]) != string(a[from[j]:from[j+1]]))
	}
	sym.Reach("issued")
	sym.Assert(ts[i] != ts[j], "no token is given out twice")
}

// HarnessMany: tokens given out long after each other.
func HarnessMany() {
	kind := sym.Choose("kind", 4)
	n := 80
	a := make([]byte, 16*n)
	for i := range a {
		a[i] = byte(i+i/16*3+i/256*5) % 10
	}
	pairs := [][2]int{{0, n - 1}, {0, 64}, {15, 31}, {8, 16}, {31, 32}, {0, 50}, {63, 64}, {1, 33}}
	p := pairs[sym.Choose("pair", len(pairs))]
	i, j := p[0], p[1]
	sym.Entropy(a)
	_, used := tokens(kind, n)
	if used[n-1] > len(a) {
		sym.Reach("issued")
		return // more random bytes than this many tokens need; HarnessFresh covers fewer tokens
	}
	from := append([]int{0}, used...)
	copy(a[from[j]:from[j+1]], low("token", from[j+1]-from[j]))
	sym.Entropy(a)
	ts, _ := tokens(kind, n)
	if from[i+1]-from[i] == from[j+1]-from[j] {
		sym.Assume(string(a[from[i]:from[i+1]]) != string(a[from[j]:from[j+1]]))
	}
	sym.Reach("issued")
	sym.Assert(used[j] > used[j-1], "every token takes random bytes of its own")
	sym.Assert(ts[i] != ts[j], "no token is given out twice")
}

// HarnessNames: whatever the provider, the address and the site, a token is as secret.
func HarnessNames() {
	kind := sym.Choose("kind", 4)
	name = []string{"gh", "g", "github-enterprise-cloud", "a.b", "GitHub", "x y", "0"}[sym.Choose("provider", 7)]
	a := make([]byte, 64)
	for i := range a {
		a[i] = byte(i*7+3) % 64
	}
	sym.Entropy(a)
	ts, used := tokens(kind, 2)
	name = "gh"
	sym.Reach("issued")
	sym.Assert(used[0] >= 8 && used[1]-used[0] >= 8, "a token takes at least eight bytes from the cryptographic random source")
	for _, t := range ts {
		sym.Assert(len(t)*6 >= 64, "a token is long enough for 64 bits, at up to 6 bits a letter")
	}
	sym.Assert(ts[0] != ts[1], "no token is given out twice")
}
